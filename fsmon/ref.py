"""Reference models: what the specification of a property says, written without
the code under test."""
import json

from cryptojwt.exception import BadSignature
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import SIGNER_ALGS

from .world import unb64

ASYM = {"RS256": "RSA", "RS384": "RSA", "RS512": "RSA", "PS256": "RSA", "ES256": "EC"}


def signed_by(token, jwks):
    """Does one of these public keys verify this compact JWS?"""
    try:
        h, p, s = token.split(".")
        head = json.loads(unb64(h))
        sig = unb64(s)
    except Exception:
        return False
    alg = head.get("alg")
    if alg not in ASYM:
        return False
    for jwk in jwks["keys"]:
        if jwk.get("kty") != ASYM[alg]:
            continue
        if head.get("kid") and jwk.get("kid") != head["kid"]:
            continue
        try:
            key = key_from_jwk_dict(dict(jwk), private=False)
            if SIGNER_ALGS[alg].verify(f"{h}.{p}".encode(), sig, key.public_key()):
                return True
        except (BadSignature, ValueError, TypeError):
            continue
    return False


def verify_chain(chain, anchors, now):
    """(True, payloads) or (False, reason). The chain is given trust anchor first."""
    if not chain:
        return False, "empty"
    try:
        ps = [json.loads(unb64(c.split(".")[1])) for c in chain]
    except Exception:
        return False, "not a JWT"
    for p in ps:
        if not isinstance(p, dict) or not p.get("iss") or not p.get("sub") or "exp" not in p:
            return False, "claim missing"
    if ps[0]["iss"] not in anchors:
        return False, "anchor"
    keys = anchors[ps[0]["iss"]]
    for i, (c, p) in enumerate(zip(chain, ps)):
        if i and ps[i - 1]["sub"] != p["iss"]:
            return False, "linkage"
        if not signed_by(c, keys):
            return False, "signature"
        if p["exp"] < now:
            return False, "expired"
        if "jwks" in p:
            keys = p["jwks"]
        elif i != len(ps) - 1:
            return False, "no jwks"
    return True, ps


def host(url):
    """Host of an entity ID, lower case, no port and no path."""
    rest = url.split("://", 1)[1]
    for c in "/?#":
        rest = rest.split(c, 1)[0]
    return rest.rsplit("@", 1)[-1].split(":", 1)[0].lower()


def covered(entity_id, constraint):
    h, c = host(entity_id), host(constraint)
    if c.startswith("."):
        return h.endswith(c) and h != c
    return h == c


def subordinates(payloads, i):
    """The entities below the one who made statement i, with the constraints' setter first."""
    return [p["sub"] for p in payloads[i:] if p["iss"] != p["sub"]]


def naming_ok(payloads):
    for i, p in enumerate(payloads):
        if p["iss"] == p["sub"]:
            continue
        nc = (p.get("constraints") or {}).get("naming_constraints") or {}
        for e in subordinates(payloads, i):
            if any(covered(e, x) for x in nc.get("excluded") or []):
                return False
            if nc.get("permitted") and not any(covered(e, x) for x in nc["permitted"]):
                return False
    return True


def path_ok(payloads):
    for i, p in enumerate(payloads):
        if p["iss"] == p["sub"]:
            continue
        m = (p.get("constraints") or {}).get("max_path_length")
        if m is not None and len(subordinates(payloads, i)) - 1 > m:
            return False
    return True
