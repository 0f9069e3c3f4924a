"""C16: automatic registration registers the entity that asks, as its trust chain says."""
import copy
import itertools
import json
from urllib.parse import parse_qs, urlsplit

from checks.c06 import _same, compatible_ops, random_ops
from checks.c08 import graph, simple_paths
from checks.c12 import verdict_of
from fsmon import polref, ref
from fsmon.boot import clock
from fsmon.combos import as_combo, as_config, op_combo
from fsmon.serve import Site
from fsmon.world import Node, new_key, payload_of, pub, retamper, sign, thumb, unsigned

LEVEL = "exploration"
RULE = ("A server of the repository (OpenID provider, OAuth2 authorization server, the latter also "
        "by pushed authorization requests) in a random model federation with random policies. "
        "Histories of requests: plain, with the client's own trust chain, with chains that are "
        "somebody else's, forged, altered, expired, unsigned or of an unknown trust anchor, and with "
        "client assertions; meanwhile clients change metadata and keys, superiors drop them, time "
        "passes. Oracle: what may be registered is computed from every statement that was genuinely "
        "published or provided and still valid. Distinct = (server, what led to it, what happened).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "statements that have been fetched may be used until they expire, so what was published a while "
    "ago is accepted beside what is published now",
    "an OAuth2 authorization server keeps a registration (only the OpenID provider renews it with "
    "each request), so it is judged when it's made",
    "that requests have to be signed by the client is not claimed: the code accepts unsigned ones",
]
REQUIRE = {"registered": 800, "refused": 800, "chain:own": 250, "chain:other": 150,
           "chain:forged": 150, "chain:altered": 60, "chain:expired": 60, "chain:unknown-anchor": 60,
           "must-accept": 600, "must-refuse": 500, "renewed": 80, "assertion-good": 150,
           "assertion-bad": 150, "policy-changed": 200, "unsupported": 50, "untouched": 400,
           "pushed": 60, "left-alone": 100, "unregistered": 8, "new-client-id": 100,
           "some-chains-refused": 30, "claimed-id": 150}

OP = "https://op.server.org"
URIS = ["https://rp.app.org/cb", "https://rp.app.org/cb2", "https://two.app.org/x",
        "https://three.app.org/y", "https://q.app.org/cb?x=1&y=2"]
CONTACTS = ["a@x.org", "b@x.org", "c@x.org"]
NAMES = ["one", "two", "three"]
UNIV = {"redirect_uris": URIS, "software_id": NAMES, "contacts": CONTACTS, "client_name": NAMES}
LISTY = ("redirect_uris", "contacts")


JWKS = {}                  # what is found at the jwks_uris


def publish_keys(site, md, n):
    """The client's keys are found at a URL instead. A new one each time the keys change."""
    uri = f"https://rp.app.org/jwks/{n}"
    JWKS[uri] = md.pop("jwks")
    md["jwks_uri"] = uri
    site.extra[uri] = lambda ev, t=json.dumps(JWKS[uri]): (200, t, "application/json")


def jwks_of(md):
    return md["jwks"] if "jwks" in md else JWKS[md["jwks_uri"]]


def tagged(uri, tag):
    base, _, query = uri.partition("?")
    return base + tag + ("?" + query if query else "")


def client_metadata(rng, keys, tag=""):
    md = {"redirect_uris": [tagged(u, tag) for u in rng.sample(URIS, rng.randint(1, 3))],
          "response_types": ["code"], "jwks": {"keys": [pub(k) for k in keys]},
          "client_registration_types": ["automatic"]}
    if rng.random() < .8:
        md["client_name"] = tag + rng.choice(NAMES)
    if rng.random() < .4:
        md["software_id"] = tag + rng.choice(NAMES)
    if rng.random() < .7:
        md["contacts"] = rng.sample(CONTACTS, rng.randint(1, 2))
    if rng.random() < .15:          # not what it's registered as
        md["client_id"] = tag + rng.choice(["https://static.example.com", "chosen",
                                            "https://evil.example.net"])
    return md


def policies(rng, nodes, etype, leaf):
    md = leaf.metadata[etype]
    wild = rng.random() < .25
    for nd in nodes:
        for sub in nd.subs.values():
            if rng.random() < .55:
                continue
            pol = {}
            for c in rng.sample(sorted(UNIV), rng.randint(1, 2)):
                if wild and rng.random() < .5:
                    pol[c] = random_ops(rng, c in LISTY, UNIV[c])
                elif c in md or rng.random() < .5:
                    pol[c] = compatible_ops(rng, c in LISTY, UNIV[c], md.get(c) or
                                            (UNIV[c][:1] if c in LISTY else UNIV[c][0]))
            if pol:
                sub["metadata_policy"] = {etype: pol}


class Log:
    """Everything genuine that the server can have seen: {(iss, sub): [payload, ...]}."""

    def __init__(self, site):
        self.site, self.n, self.st = site, 0, {}

    def add(self, token):
        p = payload_of(token)
        lst = self.st.setdefault((p["iss"], p["sub"]), [])
        if p not in lst:
            lst.append(p)

    def update(self):
        for s in self.site.served[self.n:]:
            self.add(s[-1])
        self.n = len(self.site.served)

    def valid(self, iss, sub):
        res = []
        for p in self.st.get((iss, sub), []):
            if p["exp"] >= clock.now() and not any(
                    {k: v for k, v in p.items() if k not in ("iat", "exp")} ==
                    {k: v for k, v in q.items() if k not in ("iat", "exp")} for q in res):
                res.append(p)
        return res


def outcomes(log, paths, etype, cap=400):
    """All the (verdict, metadata) that the logged statements give rise to."""
    res = []
    for path in paths:
        ids = [n.entity_id for n in path]
        ecs = log.valid(ids[0], ids[0])
        links = [log.valid(sup, sub) for sub, sup in zip(ids, ids[1:])]
        for combo in itertools.islice(itertools.product(ecs, *links), cap):
            chain = list(combo)[::-1]
            if etype not in (combo[0].get("metadata") or {}):
                res.append(("refuse", None))
                continue
            v, md = verdict_of(chain)
            res.append((v, md[etype] if v != "refuse" else None))
    return res


def usable(md):
    uris = md.get("redirect_uris")
    return bool(uris) and not any("#" in u for u in uris)


def well_typed(md):
    return all(isinstance(md.get(c, ""), str) for c in ("client_name", "software_id"))


def keys_of(keyjar, owner):
    if owner not in keyjar:
        return set()
    return {k.thumbprint("SHA-256").decode() for k in keyjar.get_issuer_keys(owner)
            if k.kty != "oct"}


def matches(entry, md, keys):
    """Is this what a client with that metadata is registered as?"""
    for c in ("client_name", "contacts", "software_id"):
        if (c in md) != (c in entry):
            return False
        if c in md:
            want = [md[c]] if c in LISTY and isinstance(md[c], str) else md[c]
            if not polref.setlike_same(entry[c], want):
                return False
    uris = md.get("redirect_uris") or []
    if {uri_parts(*x) for x in entry.get("redirect_uris", [])} != \
            {uri_parts(u) for u in ([uris] if isinstance(uris, str) else uris)}:
        return False
    return keys == {thumb(k) for k in jwks_of(md)["keys"]}


def uri_parts(base, query=None):
    p = urlsplit(base)
    q = parse_qs(p.query) if query is None else query or {}
    return base.split("?")[0], tuple(sorted((k, tuple(v)) for k, v in q.items()))


def verdicts_by_path(log, paths, etype, usable):
    """(something is refused or not for sure, nothing unusable could be used, a path is fine)."""
    per = [outcomes(log, [p], etype) for p in paths]
    unsure = any(v == "may" or v == "accept" and not (usable(md) and well_typed(md))
                 for o in per for v, md in o)
    fine = [p for p, o in zip(paths, per) if o and all(v == "accept" for v, _ in o)]
    return unsure, fine


def entry_json(e):
    return json.dumps({k: v for k, v in e.items() if k != "auth_method"}, sort_keys=True, default=str)


def one(case):
    rng = case.rng
    kind = rng.choice(["oidc", "oidc", "oauth", "par"])
    etype = "openid_relying_party" if kind == "oidc" else "oauth_client"
    nodes, tas, leaf = graph(rng)
    while leaf in tas:
        nodes, tas, leaf = graph(rng)
    for n in nodes:
        if n is not leaf:
            n.metadata.setdefault("federation_entity", {})
    leaf.metadata.clear()
    site = Site()
    for n in nodes:
        site.add(n)
    ckeys = [new_key(typ="EC") for _ in range(rng.choice([1, 1, 2]))]
    leaf.metadata[etype] = client_metadata(rng, ckeys)
    by_uri, versions = rng.random() < .15, 0
    if by_uri:
        publish_keys(site, leaf.metadata[etype], 0)
    if rng.random() < .3:
        leaf.metadata["federation_entity"] = {"organization_name": "leaf"}
    for other_role in ("oauth_resource", "openid_credential_issuer",
                       "oauth_client" if kind == "oidc" else "openid_relying_party"):
        if rng.random() < .15:          # it is something else as well
            leaf.metadata[other_role] = {"organization_name": "leaf", "redirect_uris":
                                         ["https://role.org/cb"]}
    policies(rng, nodes, etype, leaf)
    # somebody else in the same federation, with own metadata
    boss = rng.choice([n for n in nodes if n is not leaf])
    evil = Node(rng.choice(["https://evil.example.net", leaf.entity_id + "0",
                            leaf.entity_id + "/evil"]), key_types=("EC",), authority_hints=[boss.entity_id])
    ekeys = [new_key(typ="EC")]
    evil.metadata[etype] = client_metadata(rng, ekeys, "/evil")
    boss.add_sub(evil)
    site.add(evil)
    # and a federation nobody here knows
    rogue_ta = Node("https://ta.rogue.net", key_types=("EC",))
    rogue_ta.add_sub(leaf)
    site.add(rogue_ta)
    lifet = rng.choice([86400, 86400, 3000])
    for n in nodes:
        n.es_lifetime = rng.choice([lifet, lifet * 2])
        n.ec_lifetime = rng.choice([lifet, lifet * 2])
    site.attach(budget=60000)
    anchors = {t.entity_id: t.jwks() for t in tas}
    if kind == "oidc":
        server = op_combo(OP, authority_hints=[tas[0].entity_id], anchors=anchors)
        unit = server["openid_provider"]
        ep = unit.get_endpoint("authorization")
        ep.new_client_id = rng.random() < .25
        if ep.new_client_id:
            case.count("new-client-id")
    else:
        reg = rng.choice(["oauth2", "oidc"])
        server = as_combo(OP, as_config(reg), authority_hints=[tas[0].entity_id], anchors=anchors)
        unit = server["oauth_authorization_server"]
        ep = unit.get_endpoint("authorization" if kind == "oauth" else "pushed_authorization")
    site.host(server)
    fe = server["federation_entity"]
    cdb, keyjar = unit.context.cdb, unit.keyjar
    supported = rng.random() > .06
    if not supported:
        unit.context.provider_info["client_registration_types_supported"] = ["explicit"]
    static = {}
    if rng.random() < .4:
        cdb["https://static.example.com"] = {
            "client_id": "https://static.example.com", "redirect_uris": [("https://st/cb", {})],
            "client_salt": "x"}
        static["https://static.example.com"] = entry_json(cdb["https://static.example.com"])
    log = Log(site)
    by_id = {n.entity_id: n for n in nodes + [evil]}
    withdrawn, faulty, retired = False, False, []
    seen_entries = {}          # client -> entry as last judged (OAuth2 keeps them)
    trail = []

    def request(client, uri, **kw):
        r = {"client_id": client.entity_id, "response_type": "code", "redirect_uri": uri,
             "state": "st%d" % rng.randrange(10 ** 6)}
        if kind == "oidc":
            r.update(scope="openid", nonce="n")
        r.update(kw)
        return r

    def assertion(key, client):
        p = {"iss": client.entity_id, "sub": client.entity_id, "aud": [OP, ep.full_path],
             "jti": "%032x" % rng.getrandbits(128), "iat": clock.now(), "exp": clock.now() + 600}
        return {"client_assertion_type":
                "urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
                "client_assertion": sign(p, key, typ="JWT")}

    def own_chain(client, logit=True, **ec):
        paths = [p for p in simple_paths(client, by_id, tas)
                 if all(a.entity_id in b.subs for a, b in zip(p, p[1:]))]
        if not paths:
            return None
        path = rng.choice(paths)
        ch = [client.ec(**ec)] + [b.es(a.entity_id) for a, b in zip(path, path[1:])]
        return ch, path

    for step in range(rng.randint(4, 9)):
        act = rng.choices(["request", "change", "drop", "time"], [8, 2, .5, 1.5])[0]
        if act == "change":
            if rng.random() < .5:
                retired += ckeys
                ckeys = [new_key(typ="EC")]
            leaf.metadata[etype] = client_metadata(rng, ckeys)
            if by_uri:
                versions += 1
                publish_keys(site, leaf.metadata[etype], versions)
            if rng.random() < .25:
                leaf.metadata[etype]["redirect_uris"].append(
                    rng.choice(["https://rp.app.org/cb#frag", "https://rp.app.org/cb?x=1#frag"]))
            trail.append("change")
            continue
        if act == "drop":
            withdrawn = True
            for n in nodes:
                n.subs.pop(leaf.entity_id, None)
            trail.append("drop")
            continue
        if act == "time":
            clock.advance(rng.choice([10, 100, lifet // 2, lifet + 5, 2 * lifet + 5]))
            trail.append("time")
            continue
        client = leaf if rng.random() < .85 else evil
        other = evil if client is leaf else leaf
        keys = ckeys if client is leaf else ekeys
        extra, how = {}, "plain"
        r = rng.random()
        if r < .6:
            how = rng.choice(["own", "own", "other", "other", "forged", "forged", "altered",
                              "expired", "unknown-anchor", "unsigned", "short", "swapped",
                              "keys-forged"])
            got = own_chain(client)
            mine = client.ec_payload()
            theirs = copy.deepcopy(mine)
            theirs["metadata"][etype] = copy.deepcopy(other.metadata[etype])
            if how == "own" and got:
                for t in got[0]:
                    log.add(t)
                extra["trust_chain"] = got[0]
            elif how == "other" and own_chain(other):
                extra["trust_chain"] = own_chain(other)[0]
                for t in extra["trust_chain"]:
                    log.add(t)
            elif got and how == "forged":
                extra["trust_chain"] = [sign(theirs, rng.choice([other.key, new_key(typ="EC")]),
                                             rng.choice([None, {"kid": client.key.kid}]))] + got[0][1:]
            elif got and how == "altered":
                i = rng.randrange(len(got[0]))
                ch = list(got[0])
                if i == 0:
                    ch[0] = retamper(ch[0], lambda p: p["metadata"].__setitem__(
                        etype, theirs["metadata"][etype]))
                else:
                    ch[i] = retamper(ch[i], lambda p: p.__setitem__(
                        "jwks", {"keys": [pub(other.key)]}))
                    ch[0] = sign(theirs, other.key)
                extra["trust_chain"] = ch
            elif got and how == "expired":
                ch = list(got[0])
                i = rng.randrange(len(ch))
                p = payload_of(ch[i])
                if i == 0:
                    p["metadata"][etype]["client_name"] = "expired"
                p.update(exp=clock.now() - rng.choice([1, 1000]), iat=clock.now() - 5000)
                ch[i] = sign(p, by_id[p["iss"]].key)
                extra["trust_chain"] = ch
            elif how == "unknown-anchor":
                theirs["metadata"][etype]["client_name"] = "rogue"
                es = {"iss": rogue_ta.entity_id, "sub": client.entity_id, "iat": clock.now(),
                      "exp": clock.now() + 900, "jwks": {"keys": [pub(other.key)]}}
                extra["trust_chain"] = [sign(theirs, other.key), sign(es, rogue_ta.key)]
            elif got and how == "unsigned":
                i = rng.randrange(len(got[0]))
                ch = list(got[0])
                p = payload_of(ch[i])
                if i == 0:
                    p = theirs
                ch[i] = unsigned(p)
                extra["trust_chain"] = ch
            elif how == "short":
                # just the client's configuration, or without the statement by the trust anchor
                extra["trust_chain"] = [sign(theirs, client.key)] + (got[0][1:-1] if got else [])
                for t in extra["trust_chain"]:      # all genuine, and perhaps there is another
                    log.add(t)                      # trust anchor further down
            elif got and how == "swapped" and own_chain(other):
                # the client's superiors, and the configuration of somebody else
                extra["trust_chain"] = [own_chain(other)[0][0]] + got[0][1:]
            elif got and how == "keys-forged":
                ch = list(got[0])
                p = payload_of(ch[1])
                p["jwks"] = {"keys": [pub(other.key)]}
                ch[1] = sign(p, other.key, {"kid": by_id[p["iss"]].key.kid})
                ch[0] = sign(theirs, other.key)
                extra["trust_chain"] = ch
            else:
                how = "plain"
        if how != "plain":
            case.count("chain:" + how)
        asserted = None
        if kind == "par" or rng.random() < .3:
            asserted = rng.choice(["good", "good", "bad"] + (["retired"] if retired and
                                                            client is leaf else []))
            key = (keys[0] if asserted == "good" else rng.choice(retired)
                   if asserted == "retired" else rng.choice([new_key(typ="EC"), other.key] +
                                                            (ekeys if client is leaf else ckeys)))
            extra.update(assertion(key, client))
            if asserted != "good":
                case.count("assertion-bad")
        pool = list(client.metadata[etype]["redirect_uris"])
        uri = rng.choice(pool) if rng.random() < .8 else rng.choice(other.metadata[etype]
                                                                    ["redirect_uris"])
        old_keys = keys_of(keyjar, client.entity_id)
        was = {k: (entry_json(v), keys_of(keyjar, k)) for k, v in cdb.items()}
        old = cdb.get(client.entity_id)
        given = copy.deepcopy(extra.get("trust_chain"))
        try:
            res = ep.parse_request(request(client, uri, **extra))
            ok = "error" not in res
        except Exception as err:  # refused, whichever way
            res, ok = err, False
        log.update()
        if given:
            case.check(extra["trust_chain"] == given, "request-altered", "the trust chain given")
        paths = simple_paths(client, by_id, tas)
        outs = outcomes(log, paths, etype)
        good = [md for v, md in outs if v != "refuse" and usable(md)]
        entry = cdb.get(client.entity_id)
        trail.append((client.entity_id == leaf.entity_id, how, asserted, ok))
        what = lambda: (f"{kind} client {client.entity_id} how={how} assertion={asserted} "
                        f"uri={uri}\nresult {res!r} "
                        f"{res.to_dict() if hasattr(res, 'to_dict') else ''}\nentry {entry}\nkeys "
                        f"{keys_of(keyjar, client.entity_id)}\nacceptable {json.dumps(good)[:3000]}"
                        f"\ntrail {trail}\nanchors {sorted(anchors)} chain "
                        f"{json.dumps([payload_of(t) for t in given])[:2500] if given else None}")
        case.observed(json.dumps([kind, supported, trail, [len(good)]]), True,
                      sample={"server": kind, "trail": trail})
        # everybody else is left alone
        for k, v in was.items():
            if k == client.entity_id:
                continue
            if old is not None and v[0] == entry_json(old):
                continue              # its other name
            case.count("untouched")
            case.check(k in cdb and (entry_json(cdb[k]), keys_of(keyjar, k)) == v,
                       "other-client-altered", lambda: f"{k} was {v}\n" + what())
        for k, v in cdb.items():
            if k in was or k == client.entity_id or not v.get("redirect_uris"):
                continue              # (or what a refused one leaves under a random client ID)
            case.check(entry is not None and entry_json(v) == entry_json(entry),
                       "registered-somebody-else", lambda: f"{k}: {v}\n" + what())
        if not supported:
            case.count("unsupported")
            case.check(not ok and entry is None, "not-supported", what)
            continue
        # a request whose trust chain isn't valid leaves the client as it was
        alone = kind == "oidc" and old is not None and entry is not None and not ok and \
            how != "plain" and entry_json(old) == entry_json(entry) and \
            keys_of(keyjar, client.entity_id) == old_keys
        if alone:
            case.count("left-alone")
            continue
        if kind == "oidc" and old is not None and entry is None:
            case.count("unregistered")
            case.check(how == "plain", "unregistered-by-anybody", what)
        kept = kind != "oidc" and old is not None and entry is not None and \
            entry_json(old) == entry_json(entry)
        if entry is not None and "client_id" in client.metadata[etype]:
            case.count("claimed-id")
            case.check(client.metadata[etype]["client_id"] not in cdb or
                       client.metadata[etype]["client_id"] in was, "registered-as-claimed", what)
        if kept and client.entity_id in seen_entries:
            good = seen_entries[client.entity_id]
        if entry is not None and not kept:
            seen_entries[client.entity_id] = good
        if entry is None:
            case.count("refused")
            case.check(not ok, "accepted-unregistered", what)
        else:
            case.count("registered")
            rid = entry["client_id"]
            fits = [md for md in good if matches(entry, md, keys_of(keyjar, client.entity_id))]
            if case.check(bool(fits), "not-what-the-chain-says", what):
                case.check(rid == client.entity_id or
                           keys_of(keyjar, rid) == keys_of(keyjar, client.entity_id),
                           "not-what-the-chain-says", what)
                if client is leaf and any(
                        {k: v for k, v in md.items()} !=
                        {k: v for k, v in leaf.metadata[etype].items()} for md in fits):
                    case.count("policy-changed")
                if old is not None and entry_json(old) != entry_json(entry):
                    case.count("renewed")
                if ok:
                    case.check(res["client_id"] in (client.entity_id, rid), "wrong-client", what)
                    case.check(any(res["redirect_uri"] in md["redirect_uris"] for md in fits),
                               "unregistered-redirect-uri", what)
                    if asserted:
                        fine = asserted == "good" or \
                            thumb(pub(key)) in keys_of(keyjar, client.entity_id)
                        if res.get("authenticated") or kind == "par":
                            case.check(fine, "authenticated-with-wrong-key", what)
                        if asserted == "good":
                            case.count("assertion-good")
                if kind == "oidc":
                    ch = fe.trust_chain.get(client.entity_id)
                    a = ep.extra_response_args({}, client_id=client.entity_id)
                    ends = {p[-1].entity_id for p in paths}
                    case.check(ch and a.get("trust_anchor_id") in ends and
                               ch[0].iss_path[0] == client.entity_id, "wrong-trust-anchor",
                               lambda: f"{a} {ch and ch[0].iss_path}\n" + what())
        if case.failed:
            return
        # what must not be, what must be
        if not good:
            case.count("must-refuse")
            case.check(entry is None and not ok, "registered-without-trust", what)
        live = [p for p in paths if all(
            a.entity_id in b.subs for a, b in zip(p, p[1:]))]
        unsure, fine = verdicts_by_path(log, paths, etype, usable)
        if how == "own":
            fine = fine if len(fine) == len(paths) else []
        now = not unsure and any(p in live for p in fine) and \
            how in ("plain", "own") and not (kept or withdrawn)
        if now and len(fine) < len(paths):
            case.count("some-chains-refused")
        if now:
            case.count("must-accept")
            case.check(entry is not None, "refused-trusted-client", what)
            uris = [set(md["redirect_uris"]) for md in good]
            if kind != "par" or asserted == "good" and all(
                    thumb(pub(key)) in {thumb(k) for k in jwks_of(md)["keys"]} for md in good):
                if all(uri in u for u in uris):
                    case.check(ok, "refused-trusted-client", what)
        # pushed requests can be used, once
        if kind == "par" and ok and entry is not None and rng.random() < .7:
            pushed(case, unit, ep, res, entry, client, what)
        if case.failed:
            return
    for k, v in static.items():
        case.check(k in cdb and entry_json(cdb[k]) == v, "other-client-altered", k)


def pushed(case, unit, ep, res, entry, client, what):
    """The request_uri of a pushed request stands for exactly that request, one time."""
    sent = {k: res.to_dict()[k] for k in ("client_id", "response_type", "redirect_uri", "state")}
    info = ep.process_request(res)
    uri = (info.get("http_response") or {}).get("request_uri")
    if not case.check(isinstance(uri, str) and uri.startswith("urn:uuid:"), "no-request-uri",
                      lambda: f"{info}\n" + what()):
        return
    case.count("pushed")
    az = unit.get_endpoint("authorization")
    front = {"client_id": res["client_id"], "request_uri": uri, "response_type": "code"}
    got = None
    for turn in (1, 2):
        try:
            got = az.parse_request(dict(front))
            got = got.to_dict()
        except ValueError as err:
            got = {"error": str(err)}
        if turn == 1:
            case.check({k: got.get(k) for k in sent} == sent, "pushed-request-changed",
                       lambda: f"sent {sent} got {got}\n" + what())
        else:
            case.check("error" in got, "pushed-request-reused", lambda: f"{got}\n" + what())


def run(ctx):
    ctx.cases("histories", 300, 6000, one)
