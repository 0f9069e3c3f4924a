"""C17: an explicit registration is the client's own, and what the federation makes of it."""
import copy
import json

from checks.c08 import graph, simple_paths
from checks.c16 import (Log, client_metadata, entry_json, keys_of, matches, outcomes, policies, uri_parts,
                        usable as has_uris, well_typed)
from fsmon import polref, ref
from fsmon.boot import clock
from fsmon.combos import as_combo, as_config, op_combo
from fsmon.serve import Site, call, configuration
from fsmon.world import Node, header_of, new_key, payload_of, pub, retamper, sign, thumb, unsigned

LEVEL = "exploration"
RULE = ("Explicit registration at the repository's servers (OpenID provider, OAuth2 authorization "
        "server with either kind of registration endpoint) in random model federations with random "
        "policies: genuine requests with metadata other than what is published, and requests that are "
        "forged, altered, expired, unsigned, made with keys nobody vouches for, issued by somebody "
        "else, about somebody else, not statements at all, or of clients that are in no trusted "
        "federation; clients register again with other metadata and keys, superiors drop them. "
        "Oracle: the signature is checked independently, and what may be registered is computed from "
        "the request and the statements about the client. Distinct = (server, history).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "statements that have been fetched may be used until they expire",
    "a refused registration may leave a record without content under a random client ID nobody has "
    "been told (what the underlying library does), which is ignored",
    "that a request names the server as its audience is not claimed",
]
REQUIRE = {"registered": 700, "refused": 1200, "must-accept": 500, "must-refuse": 900, "again": 80,
           "policy-changed": 250, "untouched": 500, "response": 700, "differs": 300,
           "how:own": 500, "how:new-key": 80, "how:forged-kid": 80, "how:altered": 80,
           "how:expired": 80, "how:unsigned": 80, "how:iss-not-sub": 80, "how:evil-sub": 80,
           "how:garbage": 40, "claimed-id": 200, "priority": 250, "some-chains-refused": 100,
           "how:unknown-anchor": 50, "how:not-vouched": 80,
           "negotiable": 500, "details:refused": 300, "details:registered": 300}

# what the response doesn't repeat
NOT_TOLD = ("redirect_uris", "jwks", "jwks_uri", "signed_jwks_uri", "client_salt", "application_type",
            "auth_method")
OP = "https://op.server.org"


def garbage(rng, client, req):
    p = payload_of(req)
    return rng.choice([
        "", "xyz", "a.b.c", json.dumps(p), req.rsplit(".", 1)[0] + ".", req + "x" * 3, req[:-12],
        sign({k: v for k, v in p.items() if k != "jwks"}, client.key),
        sign({k: v for k, v in p.items() if k != "metadata"}, client.key),
        sign({k: v for k, v in p.items() if k != "exp"}, client.key),
        sign(dict(p, metadata={}), client.key), sign(dict(p, jwks={"keys": []}), client.key)])


def one(case):
    rng = case.rng
    kind = rng.choice(["oidc", "oidc", "oauth2", "oauth2", "oidc-as"])
    etype = "openid_relying_party" if kind == "oidc" else "oauth_client"
    nodes, tas, leaf = graph(rng)
    while leaf in tas:
        nodes, tas, leaf = graph(rng)
    for n in nodes:
        if n is not leaf:
            n.metadata.setdefault("federation_entity", {})
    leaf.metadata.clear()
    site = Site()
    for n in nodes:
        site.add(n)
    ckeys = [new_key(typ="EC") for _ in range(rng.choice([1, 1, 2]))]
    leaf.metadata[etype] = client_metadata(rng, ckeys)
    if rng.random() < .3:
        leaf.metadata["federation_entity"] = {"organization_name": "leaf"}
    for other_role in ("oauth_resource", "openid_credential_issuer",
                       "oauth_client" if kind == "oidc" else "openid_relying_party"):
        if rng.random() < .15 and (kind, other_role) != ("oidc-as", "openid_relying_party"):
            # it is something else as well (the OIDC registration prefers relying parties)
            leaf.metadata[other_role] = {"organization_name": "leaf", "redirect_uris":
                                         ["https://role.org/cb"]}
    policies(rng, nodes, etype, leaf)
    boss = rng.choice([n for n in nodes if n is not leaf])
    evil = Node(rng.choice(["https://evil.example.net", leaf.entity_id + "0",
                            leaf.entity_id + "/evil"]), key_types=("EC",), authority_hints=[boss.entity_id])
    ekeys = [new_key(typ="EC")]
    evil.metadata[etype] = client_metadata(rng, ekeys, "/evil")
    boss.add_sub(evil)
    site.add(evil)
    rogue_ta = Node("https://ta.rogue.net", key_types=("EC",))
    lost = Node("https://lost.example.net", key_types=("EC",), authority_hints=[rogue_ta.entity_id])
    lost.metadata[etype] = client_metadata(rng, ekeys, "/lost")
    rogue_ta.add_sub(lost)
    site.add(rogue_ta)
    site.add(lost)
    lifet = rng.choice([86400, 86400, 3000])
    for n in nodes:
        n.es_lifetime = rng.choice([lifet, lifet * 2])
        n.ec_lifetime = rng.choice([lifet, lifet * 2])
    site.attach(budget=60000)
    anchors = {t.entity_id: t.jwks() for t in tas}
    if kind == "oidc":
        server = op_combo(OP, authority_hints=[tas[0].entity_id], anchors=anchors)
        unit = server["openid_provider"]
    else:
        server = as_combo(OP, as_config("oauth2" if kind == "oauth2" else "oidc"),
                          authority_hints=[tas[0].entity_id], anchors=anchors)
        unit = server["oauth_authorization_server"]
    site.host(server)
    fe = server["federation_entity"]
    ep = unit.get_endpoint("registration")
    cdb, keyjar = unit.context.cdb, unit.keyjar
    if rng.random() < .4:
        cdb["https://static.example.com"] = {
            "client_id": "https://static.example.com", "redirect_uris": [("https://st/cb", {})],
            "client_salt": "x"}
    # an OAuth2 client may do without redirect URIs
    usable = has_uris if kind != "oauth2" else \
        (lambda md: md.get("redirect_uris") is None or has_uris(md))
    log = Log(site)
    by_id = {n.entity_id: n for n in nodes + [evil]}
    withdrawn, trail = False, []
    fe.context.tr_priority = rng.sample(sorted(anchors), rng.randint(0, len(anchors)))
    if rng.random() < .3:
        fe.context.tr_priority.insert(0, "https://ta.elsewhere.net")
    server_keys = {thumb(k) for k in payload_of(configuration(fe))["jwks"]["keys"]}

    for step in range(rng.randint(4, 9)):
        act = rng.choices(["request", "change", "drop", "time"], [8, 1.5, .4, 1.2])[0]
        if act == "change":
            if rng.random() < .5:
                ckeys = [new_key(typ="EC")]
            leaf.metadata[etype] = client_metadata(rng, ckeys)
            trail.append("change")
            continue
        if act == "drop":
            withdrawn = True
            for n in nodes:
                n.subs.pop(leaf.entity_id, None)
            trail.append("drop")
            continue
        if act == "time":
            clock.advance(rng.choice([10, 100, lifet // 2, lifet + 5, 2 * lifet + 5]))
            trail.append("time")
            continue
        client = leaf if rng.random() < .85 else evil
        other = evil if client is leaf else leaf
        keys = ckeys if client is leaf else ekeys
        p = client.ec_payload()
        if rng.random() < .6:
            # the request need not say the same as what is published
            p["metadata"][etype] = client_metadata(rng, keys if rng.random() < .6 else
                                                   [new_key(typ="EC")],
                                                   "" if client is leaf else "/evil")
            if rng.random() < .08:
                p["metadata"][etype]["redirect_uris"].append(
                    rng.choice(["https://rp.app.org/cb#frag", "https://rp.app.org/cb?x=1#frag"]))
            if rng.random() < .08:
                p["metadata"][etype].pop("redirect_uris")
            if rng.random() < .15:
                p["metadata"][etype]["client_id"] = rng.choice(
                    [other.entity_id, "https://static.example.com", "me"])
                case.count("claimed-id")
            if rng.random() < .3:
                p["metadata"][etype]["scope"] = rng.choice(["openid", "openid email", "read write"])
            case.count("differs")
        if rng.random() < .5:
            p["aud"] = OP
        how = rng.choice(["own"] * 9 + ["new-key", "forged-kid", "altered", "expired", "unsigned",
                                        "iss-not-sub", "evil-sub", "garbage", "unknown-anchor",
                                        "not-vouched"])
        genuine = True
        req = sign(p, client.key)
        mallory = rng.choice([other.key, new_key(typ="EC")])
        if how == "new-key":
            # signed with the key that the request itself states
            p["jwks"] = {"keys": [pub(mallory)]}
            req = sign(p, mallory)
        elif how == "not-vouched":
            # the same among the keys that are vouched for
            p["jwks"] = {"keys": [pub(client.key), pub(mallory)]}
            req = sign(p, mallory)
        elif how == "forged-kid":
            req, genuine = sign(p, mallory, {"kid": client.key.kid}), False
        elif how == "altered":
            req, genuine = retamper(req, lambda q: q["metadata"][etype].__setitem__(
                "redirect_uris", other.metadata[etype]["redirect_uris"])), False
        elif how == "expired":
            p.update(iat=clock.now() - 5000, exp=clock.now() - rng.choice([1, 300, 4000]))
            req, genuine = sign(p, client.key), False
        elif how == "unsigned":
            req, genuine = unsigned(p), False
        elif how == "iss-not-sub":
            # somebody else, in the own name, about the client, or the other way around
            p["jwks"] = {"keys": [pub(other.key)]}
            p[rng.choice(["iss", "sub"])] = other.entity_id
            req, genuine = sign(p, other.key), False
        elif how == "evil-sub":
            p["jwks"] = {"keys": [pub(other.key)]}
            req = sign(p, other.key)
        elif how == "unknown-anchor":
            client = lost
            req = lost.ec()
        elif how == "garbage":
            req, genuine = garbage(rng, client, req), False
        case.count("how:" + how)
        was = {k: (entry_json(v), keys_of(keyjar, k)) for k, v in cdb.items()}
        known = set(keyjar.owners())
        old = cdb.get(client.entity_id)
        r = call(ep, body=req)
        log.update()
        trail.append((client.entity_id, how, r.ok))
        paths = simple_paths(client, by_id, tas) if client.entity_id in by_id else []
        outs, fine = [], []       # fine: the paths that are all right whichever statements are used
        if genuine:
            q = payload_of(req)
            lg = Log(site)
            lg.st = dict(log.st)
            lg.st[(q["iss"], q["iss"])] = [q]
            # the signature on the request is checked against what superiors vouch for
            hdr = header_of(req)
            for pp in paths:
                o = outcomes_signed(lg, [pp], etype, hdr)
                outs += [(v, md, pp[-1].entity_id) for v, md in o]
                if o and all(v == "accept" and usable(m) and well_typed(m) for v, m in o) and \
                        published_fine(log, [pp], etype):
                    fine.append(pp)
        good = [md for v, md, _ in outs if v != "refuse" and usable(md)]
        what = lambda: (f"{kind} client {client.entity_id} how={how} reply {r!r} crash {r.crash!r}\n"
                        f"request {payload_of(req) if genuine else req[:300]}\nacceptable "
                        f"{json.dumps(good)[:2500]}\ncdb {dict(cdb)}\ntrail {trail}\nanchors "
                        f"{sorted(anchors)}")
        case.observed(json.dumps([kind, trail, len(good)]), True, sample={"server": kind,
                                                                         "trail": trail})
        body = payload_of(r.text) if r.ok and r.text.count(".") == 2 else {}
        md = (body.get("metadata") or {}).get(etype) or {}
        rid = md.get("client_id") if r.ok else None
        for k, v in was.items():
            if k == rid and kind != "oauth2":
                continue
            case.count("untouched")
            case.check(k in cdb and (entry_json(cdb[k]), keys_of(keyjar, k)) == v,
                       "other-client-altered", lambda: f"{k} was {v}\n" + what())
        for k, v in cdb.items():
            if k in was or k == rid or not v.get("redirect_uris"):
                continue
            case.check(False, "registered-somebody-else", lambda: f"{k}: {v}\n" + what())
        if not r.ok:
            case.count("refused")
            if kind != "oauth2":
                case.check(set(keyjar.owners()) <= known, "keys-of-refused-client-kept",
                           lambda: f"{set(keyjar.owners()) - known}\n" + what())
            case.check("error" in r.text, "refused-without-error", what)
        else:
            case.count("registered")
            if not case.check(bool(good), "registered-without-trust", what):
                return
            entry = cdb.get(rid)
            if not case.check(entry is not None, "response-not-registered", what):
                return
            if kind != "oauth2":
                case.check(rid == client.entity_id, "wrong-client", what)
            fits = [m for m in good if matches(entry, m, keys_of(keyjar, rid))]
            case.check(bool(fits), "not-what-the-chain-says",
                       lambda: f"{keys_of(keyjar, rid)}\n" + what())
            if any(m != p["metadata"][etype] for m in fits):
                case.count("policy-changed")
            if old is not None:
                case.count("again")
            # the response
            case.count("response")
            case.check(ref.signed_by(r.text, payload_of(configuration(fe))["jwks"])
                       , "response-signature", what)
            case.check(header_of(r.text).get("kid") and body["iss"] == OP and
                       body["sub"] == client.entity_id and
                       (body["aud"] in (client.entity_id, [client.entity_id])), "response-about",
                       lambda: f"{body}\n" + what())
            case.check(body["iat"] <= clock.now() < body["exp"], "response-time",
                       lambda: f"{body}\n" + what())
            # the trust anchor is one for which the metadata comes out like this
            ends = {a for v, m, a in outs if v != "refuse" and usable(m) and
                    matches(entry, m, keys_of(keyjar, rid))}
            ta = body.get("trust_anchor_id")
            case.check(ta in ends, "response-anchor", lambda: f"{body} {ends}\n" + what())
            prio = fe.context.tr_priority
            rank = lambda a: prio.index(a) if a in prio else len(prio)
            live_fine = [pp for pp in fine if live_path(pp) and not withdrawn]
            if live_fine and how == "own":
                best = min(rank(pp[-1].entity_id) for pp in live_fine)
                case.count("priority" if best < len(prio) else "no-priority")
                case.check(rank(ta) <= best, "trust-anchor-priority",
                           lambda: f"{ta} though {prio}\n" + what())
            for c in entry:
                if c not in NOT_TOLD:
                    case.check(md.get(c) == entry[c], "response-differs",
                               lambda: f"{c}: {md}\n" + what())
            check_told(case, md, entry, what)
            # the secret works
            secret = entry.get("client_secret")
            if case.check(bool(secret), "no-secret", what):
                case.check(secret.encode() in [k.key for k in keyjar.get_issuer_keys(rid)
                                               if k.kty == "oct"], "secret-unknown", what)
            jwks = md.get("jwks") or {}
            case.check(not any("d" in k for k in jwks.get("keys", [])), "private-keys", what)
        if case.failed:
            return
        if not good:
            case.count("must-refuse")
            case.check(not r.ok, "registered-without-trust", what)
        if genuine and how == "own" and not withdrawn and any(live_path(pp) for pp in fine) and \
                not any(v == "may" or v == "accept" and not (usable(m) and well_typed(m))
                        for v, m, _ in outs):
            case.count("must-accept")
            if len(fine) < len(paths):
                case.count("some-chains-refused")
            case.check(r.ok, "refused-trusted-client", what)
        if case.failed:
            return


def live_path(path):
    return all(a.entity_id in b.subs for a, b in zip(path, path[1:]))


def published_fine(log, paths, etype):
    """The published configuration of the client is fine as well (the server looks at it)."""
    outs = outcomes(log, paths, etype)
    return bool(outs) and all(v == "accept" for v, _ in outs)


def outcomes_signed(log, paths, etype, hdr):
    """outcomes(), where the immediate superior vouches for the key used in the request."""
    res = []
    for path in paths:
        if len(path) < 2:
            continue
        ids = [n.entity_id for n in path]
        for es in log.valid(ids[1], ids[0]):
            if hdr.get("kid") not in [k.get("kid") for k in (es.get("jwks") or {}).get("keys", [])]:
                continue
            lg = Log(log.site)
            lg.st = dict(log.st)
            lg.st[(ids[1], ids[0])] = [es]
            res.extend(outcomes(lg, [path], etype))
    return res


# what depends on what the server has support for
NEGOTIABLE = ("grant_types", "response_types", "response_modes", "scope",
              "token_endpoint_auth_method", "token_endpoint_auth_signing_alg",
              "request_object_signing_alg", "id_token_signed_response_alg",
              "userinfo_signed_response_alg", "userinfo_encrypted_response_alg",
              "subject_type", "default_acr_values")


def check_told(case, md, entry, what):
    """The client isn't told that something is registered which isn't."""
    for c in NEGOTIABLE:
        if c in md:
            case.count("negotiable")
            case.check(c in entry and (c == "scope" or polref.setlike_same(md[c], entry[c])),
                       "response-differs", lambda: f"{c}: {md}\n" + what())


GRANTS = ["authorization_code", "implicit", "refresh_token"]
MODES = ["query", "fragment", "form_post"]
GOOD_URIS = {
    "web": ["https://rp.app.org/cb", "https://two.app.org/x?a=1", "https://rp.app.org:8443/cb"],
    "web-code": ["http://rp.app.org/cb", "https://rp.app.org/cb", "http://two.app.org/x?a=1&b=2"],
    "native": ["http://localhost/cb", "http://127.0.0.1:8080/cb", "org.app.rp:/cb",
               "http://localhost:99/x?a=1"]}
BAD_URIS = {
    "web": ["http://rp.app.org/cb", "org.app.rp:/cb", "https://rp.app.org/cb#x", "ftp://rp.app.org/cb",
            "http://localhost/cb"],
    "web-code": ["org.app.rp:/cb", "https://rp.app.org/cb#x", "http://rp.app.org/cb?a=1#x"],
    "native": ["http://localhost.evil.org/cb", "http://127.0.0.1.evil.org/", "https://rp.app.org/cb",
               "http://rp.app.org/cb", "http://127.0.0.2/cb", "http://evil.org/localhost",
               "http://localhost@evil.org/cb"]}


def details(case):
    """An OAuth2 client's details: what isn't allowed isn't registered, the rest is."""
    rng = case.rng
    ta = Node("https://ta.fed.org", key_types=("EC",), metadata={"federation_entity": {}})
    leaf = Node("https://rp.app.org", key_types=("EC",), authority_hints=[ta.entity_id])
    ta.add_sub(leaf)
    site = Site()
    site.add(ta)
    site.add(leaf)
    site.attach(budget=1000)
    lifetime = rng.choice([None, None, 0, 3600, 86400 * 400])
    conf = as_config("oauth2")
    kw = conf["endpoint"]["registration"]["kwargs"]
    if lifetime == 0:
        kw["client_secret_expires"] = False
    elif lifetime:
        kw["client_secret_expires_in"] = lifetime
    responses = rng.choice([["code"], ["code", "token"], ["code", "id_token", "code id_token"]])
    conf["endpoint"]["authorization"]["kwargs"]["response_types_supported"] = responses
    conf["preference"]["response_types_supported"] = responses
    server = as_combo(OP, conf, authority_hints=[ta.entity_id],
                      anchors={ta.entity_id: ta.jwks()})
    unit = server["oauth_authorization_server"]
    site.host(server)
    ep, cdb = unit.get_endpoint("registration"), unit.context.cdb
    supported = {c: unit.context.provider_info.get(c + "_supported") for c in
                 ("grant_types", "response_types", "response_modes")}
    for step in range(rng.randint(1, 4)):
        md = {"jwks": {"keys": [pub(new_key(typ="EC"))]}, "response_types": ["code"]}
        if rng.random() < .5:
            md["response_types"] = rng.sample(["code", "token", "id_token", "code id_token"],
                                              rng.randint(1, 3))
        if rng.random() < .6:
            md["grant_types"] = rng.sample(GRANTS + ["password", "urn:x:y"], rng.randint(1, 4))
        if rng.random() < .4:
            md["response_modes"] = rng.sample(MODES + ["jwt"], rng.randint(1, 3))
        app = rng.choice(["web", "web", "native", None])
        if app:
            md["application_type"] = app
        wrong, unknown, want = [], [], {}
        for c, have in supported.items():
            if c in md and have:
                want[c] = [x for x in md[c] if x in have]
                if not want[c]:
                    wrong.append(c)
        rt = want.get("response_types", md["response_types"])
        rules = "native" if app == "native" else "web-code" if rt == ["code"] else "web"
        uris = rng.sample(GOOD_URIS[rules], rng.randint(1, 3))
        if rng.random() < .35:
            uris.insert(rng.randint(0, len(uris)), rng.choice(BAD_URIS[rules]))
            wrong.append("redirect_uris")
        md["redirect_uris"] = uris
        if rng.random() < .3:
            u = rng.choice(["https://rp.app.org/out", "https://rp.app.org/out?x=1&y=2",
                            "https://rp.app.org/out#x"])
            md["post_logout_redirect_uri"] = u
            if "#" in u:
                wrong.append("post_logout_redirect_uri")
        if rng.random() < .3:
            us = rng.sample(["https://rp.app.org/r1", "https://rp.app.org/r2#abc",
                             "https://rp.app.org/r3?x=1"], rng.randint(1, 2))
            md["request_uris"] = us
            if any("?" in u for u in us):
                wrong.append("request_uris")
        if rng.random() < .3:
            u = rng.choice(["logo_uri", "policy_uri", "tos_uri"])
            base = rng.choice(uris)
            if base.startswith("http"):
                origin = "/".join(base.split("/")[:3])
                md[u] = rng.choice([origin + "/about", "https://evil.org/about"])
                if md[u].startswith("https://evil.org"):
                    wrong.append(u)
        if rng.random() < .2:
            md["client_id"] = rng.choice(["me", leaf.entity_id])
        leaf.metadata = {"oauth_client": md}
        was = {k: entry_json(v) for k, v in cdb.items()}
        now = clock.now()
        r = call(ep, body=leaf.ec())
        what = lambda: f"{md}\nwrong {wrong} supported {supported} reply {r!r} {cdb}"
        case.observed(json.dumps([rules, sorted(wrong), want, sorted(map(str, uris)), r.ok], default=str),
                      True, sample={"rules": rules, "wrong": wrong, "registered": r.ok})
        for k, v in was.items():
            case.check(k in cdb and entry_json(cdb[k]) == v, "other-client-altered", what)
        case.count("details:" + ("refused" if wrong else "registered"))
        if wrong:
            case.check(not r.ok, "registered-what-is-not-allowed", what)
            continue
        if not case.check(r.ok, "refused-trusted-client", what):
            return
        told = (payload_of(r.text).get("metadata") or {}).get("oauth_client") or {}
        entry = cdb.get(told.get("client_id"))
        if not case.check(entry is not None, "response-not-registered", what):
            return
        for c, v in want.items():
            case.check(polref.setlike_same(entry.get(c) or [], v), "not-what-is-supported",
                       lambda: f"{c}\n" + what())
        custom = lambda u: not u.startswith("http")
        case.check({(u, ()) if custom(u) else uri_parts(u) for u in uris} ==
                   {(b, ()) if custom(b) else uri_parts(b, q) for b, q in entry["redirect_uris"]},
                   "not-what-the-chain-says", what)
        if "post_logout_redirect_uri" in md:
            case.check(uri_parts(*entry["post_logout_redirect_uri"]) ==
                       uri_parts(md["post_logout_redirect_uri"]), "not-what-the-chain-says", what)
        if "request_uris" in md:
            case.check(["#".join(x for x in u if x) for u in entry["request_uris"]] ==
                       md["request_uris"], "not-what-the-chain-says", what)
        check_told(case, told, entry, what)
        if lifetime == 0:
            case.check("client_secret_expires_at" not in entry, "secret-expiry", what)
        else:
            case.check(entry.get("client_secret_expires_at") == now + (lifetime or 2592000),
                       "secret-expiry", what)


def run(ctx):
    ctx.cases("details", 120, 2500, details)
    ctx.cases("histories", 220, 5000, one)
