"""A model federation: entities with their own keys that publish statements.

The statements are made here, straight from the JOSE library and the model's
data, without the code under test, and served over the in-process network.
"""
import base64
import copy
import hashlib
import hmac
import json
from urllib.parse import parse_qs, urlsplit

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jws.jws import JWS

from .boot import clock
from .net import net


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def unb64(s):
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


_ec_pool = []


def new_key(rng=None, typ="RSA", kid=""):
    if typ == "RSA":
        k = new_rsa_key(kid=kid)
        if not kid:
            k.add_kid()
    else:
        k = new_ec_key("P-256")
        if kid:
            k.kid = kid
        else:
            k.add_kid()
    k.use = "sig"
    return k


def pub(key, **extra):
    d = key.serialize(private=False)
    d["kid"] = key.kid
    d["use"] = "sig"
    d.update(extra)
    return d


def alg_of(key):
    return "RS256" if key.kty == "RSA" else "ES256"


def sign(payload, key, headers=None, typ="entity-statement+jwt"):
    protected = {"kid": key.kid, "typ": typ}
    protected.update(headers or {})
    protected = {k: v for k, v in protected.items() if v is not None}
    protected["alg"] = protected.get("alg", alg_of(key))
    head = b64(json.dumps(protected).encode())
    body = b64(json.dumps(payload).encode())
    si = f"{head}.{body}".encode()
    from cryptojwt.jws.jws import SIGNER_ALGS
    sig = SIGNER_ALGS[protected["alg"]].sign(si, key.private_key())
    return f"{head}.{body}.{b64(sig)}"


def sign_hs(payload, secret: bytes, headers=None):
    protected = {"alg": "HS256", "typ": "entity-statement+jwt"}
    protected.update(headers or {})
    si = f"{b64(json.dumps(protected).encode())}.{b64(json.dumps(payload).encode())}"
    return si + "." + b64(hmac.new(secret, si.encode(), hashlib.sha256).digest())


def unsigned(payload, headers=None):
    protected = {"alg": "none", "typ": "entity-statement+jwt"}
    protected.update(headers or {})
    return f"{b64(json.dumps(protected).encode())}.{b64(json.dumps(payload).encode())}."


def payload_of(token):
    return json.loads(unb64(token.split(".")[1]))


def header_of(token):
    return json.loads(unb64(token.split(".")[0]))


def retamper(token, fn):
    """Change the payload, keep the signature."""
    h, p, s = token.split(".")
    d = json.loads(unb64(p))
    fn(d)
    return f"{h}.{b64(json.dumps(d).encode())}.{s}"


class Node:
    """An entity of the model."""

    def __init__(self, entity_id, keys=None, authority_hints=None, metadata=None, rng=None,
                 key_types=("RSA",), ec_lifetime=86400, es_lifetime=86400, typ=None):
        self.entity_id = entity_id
        self.keys = keys or [new_key(typ=t) for t in key_types]
        self.authority_hints = authority_hints if authority_hints is not None else []
        self.metadata = metadata if metadata is not None else {}
        self.ec_lifetime, self.es_lifetime = ec_lifetime, es_lifetime
        self.ec_extra = {}
        self.subs = {}            # sub id -> dict of claims for the statement (jwks set here)
        self.es_lifetimes = {}    # sub id -> lifetime, instead of es_lifetime
        self.fetch_endpoint = entity_id + "/fetch"
        self.serve_fetch = True
        self.trust_marks = None

    @property
    def key(self):
        return self.keys[0]

    def jwks(self):
        return {"keys": [pub(k) for k in self.keys]}

    def add_sub(self, node, **claims):
        self.subs[node.entity_id] = {"jwks": node.jwks(), **claims}

    def ec_payload(self):
        md = copy.deepcopy(self.metadata)
        if self.subs or self.serve_fetch:
            fe = md.setdefault("federation_entity", {})
            if self.subs:
                fe.setdefault("federation_fetch_endpoint", self.fetch_endpoint)
        p = {"iss": self.entity_id, "sub": self.entity_id, "iat": clock.now(),
             "exp": clock.now() + self.ec_lifetime, "jwks": self.jwks(), "metadata": md}
        if self.authority_hints:
            p["authority_hints"] = list(self.authority_hints)
        if self.trust_marks:
            p["trust_marks"] = list(self.trust_marks)
        p.update(copy.deepcopy(self.ec_extra))
        return p

    def ec(self, key=None, headers=None, **over):
        p = self.ec_payload()
        p.update(over)
        return sign({k: v for k, v in p.items() if v is not None}, key or self.key, headers)

    def es_payload(self, sub):
        p = {"iss": self.entity_id, "sub": sub, "iat": clock.now(),
             "exp": clock.now() + self.es_lifetimes.get(sub, self.es_lifetime)}
        p.update(copy.deepcopy(self.subs[sub]))
        return p

    def es(self, sub, key=None, headers=None, **over):
        p = self.es_payload(sub)
        p.update(over)
        return sign({k: v for k, v in p.items() if v is not None}, key or self.key, headers)


def well_known(entity_id, tenant=False):
    p = urlsplit(entity_id)
    if tenant:
        return f"{p.scheme}://{p.netloc}/.well-known/openid-federation{p.path}"
    return f"{entity_id}/.well-known/openid-federation"


class World:
    """Serves the nodes. Faults: (kind, id...) -> callable(event) -> reply."""

    def __init__(self):
        self.nodes = {}
        self.faults = {}
        self.extra = {}           # url without query -> callable(event) -> (status, text, ctype)
        self.served = []

    def add(self, node):
        self.nodes[node.entity_id] = node
        return node

    def attach(self, budget=4000):
        net.reset(self.handle, budget)
        return self

    def handle(self, ev):
        from requests.exceptions import ConnectionError
        url = ev.path
        if url in self.extra:
            return self.extra[url](ev)
        for node in self.nodes.values():
            # both forms of the well-known URL
            if url in (well_known(node.entity_id), well_known(node.entity_id, True)):
                f = self.faults.get(("ec", node.entity_id))
                if f:
                    return f(ev, node)
                text = node.ec()
                self.served.append(("ec", node.entity_id, text))
                return 200, text, "application/entity-statement+jwt"
            if url == node.fetch_endpoint and node.serve_fetch:
                q = parse_qs(urlsplit(ev.url).query)
                sub = q.get("sub", [""])[0]
                f = self.faults.get(("es", node.entity_id, sub))
                if f:
                    return f(ev, node)
                if sub not in node.subs:
                    return 404, "{}", "application/json"
                text = node.es(sub)
                self.served.append(("es", node.entity_id, sub, text))
                return 200, text, "application/entity-statement+jwt"
        if urlsplit(url).netloc in {urlsplit(n).netloc for n in self.nodes}:
            return 404, "{}", "application/json"
        raise ConnectionError(f"no such host: {url}")


def chain_down(*nodes):
    """[ES(TA->I1), ..., ES(In->leaf), EC(leaf)], as the verifier takes it; TA first."""
    res = [a.es(b.entity_id) for a, b in zip(nodes, nodes[1:])]
    res.append(nodes[-1].ec())
    return res


def line(ids, rng=None, key_types=("RSA",), leaf_metadata=None):
    """A straight federation TA - I1 - ... - leaf. Returns the nodes, TA first."""
    nodes = []
    for i, eid in enumerate(ids):
        n = Node(eid, key_types=key_types)
        if i:
            n.authority_hints = [ids[i - 1]]
        nodes.append(n)
    for a, b in zip(nodes, nodes[1:]):
        a.add_sub(b)
    if leaf_metadata is not None:
        nodes[-1].metadata = leaf_metadata
    return nodes


ALL_SERVICES = ["entity_configuration", "entity_statement", "resolve", "list",
                "trust_mark_status", "trust_mark", "trust_mark_list"]


def make_fe(entity_id="https://me.example.org", anchors=None, endpoints=None, services=None,
            functions=None, **kwargs):
    """A real federation entity of the code under test."""
    from fedservice.utils import make_federation_entity
    fe = make_federation_entity(
        entity_id,
        preference=kwargs.pop("preference", {}),
        key_config=kwargs.pop("key_config", None) or
        {"key_defs": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256",
                                                       "use": ["sig"]}]},
        endpoints=endpoints or ["entity_configuration"],
        services=services or ALL_SERVICES,
        functions=functions or ["trust_chain_collector", "verifier", "policy",
                                "trust_mark_verifier"],
        trust_anchors=copy.deepcopy(anchors) if anchors else {},
        **kwargs)
    return fe


def key_set(keyjar):
    """{(owner, thumbprint)} of a key jar."""
    res = set()
    for owner in keyjar.owners():
        for k in keyjar.get_issuer_keys(owner):
            if k.kty == "oct":
                tp = "oct:" + str(k.kid)
            else:
                tp = k.thumbprint("SHA-256").decode()
            res.add((owner, tp))
    return res


def thumb(jwk):
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    return key_from_jwk_dict(dict(jwk), private=False).thumbprint("SHA-256").decode()
