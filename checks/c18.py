"""C18: a client only accepts a registration that its trust anchor stands behind."""
import itertools
import json

from checks.c06 import compatible_ops, random_ops
from checks.c08 import graph, simple_paths
from checks.c12 import verdict_of
from checks.c16 import Log
from fsmon import polref, ref
from fsmon.boot import clock
from fsmon.combos import oauth_client_combo, rp_combo
from fsmon.serve import Site, configuration
from fsmon.world import Node, header_of, new_key, payload_of, pub, retamper, sign, thumb, unsigned

LEVEL = "exploration"
RULE = ("Clients of the repository (OpenID relying party, OAuth2 client) in random model federations "
        "with policies register, several times, with a model provider that answers genuinely or "
        "with responses that are forged, altered, unsigned, expired, for or about somebody else, "
        "naming another trust anchor, against the policies, or not a statement at all; keys are "
        "rolled over, superiors drop the provider or the client. Oracle: signature, subject and "
        "trust chains are judged independently and the metadata recomputed. "
        "Distinct = (client type, history).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "statements that have been fetched may be used until they expire",
    "a client with several trust chains to the same trust anchor refuses every response; nothing is "
    "claimed for that but that it doesn't do anything worse",
    "who the response is issued by isn't compared with whom the request went to",
]
REQUIRE = {"accepted": 500, "refused": 700, "must-accept": 350, "must-refuse": 600, "request": 900,
           "policy-changed": 100, "policy-refused": 60, "unchanged": 600, "rolled-over": 100,
           "how:own": 800, "how:forged": 60, "how:other-key": 60, "how:altered": 60,
           "how:unsigned": 60, "how:expired": 60, "how:other-sub": 60, "how:other-aud": 60,
           "how:anchor": 60, "how:garbage": 60, "how:outsider": 60, "how:retired": 60, "retired-refused": 60, "retired-after-use": 10}

OP = "https://op.server.org"
RP = "https://rp.client.org"
CONTACTS = ["a@x.org", "b@x.org", "c@x.org"]
NAMES = ["one", "two", "three"]
UNIV = {"contacts": CONTACTS, "client_name": NAMES, "software_id": NAMES}
LISTY = ("contacts",)


def outcomes(log, paths, etype, md, cap=300):
    """(verdict, metadata) from that metadata and the valid statements about the client."""
    res = []
    for path in paths:
        ids = [n if isinstance(n, str) else n.entity_id for n in path]
        ecs = log.valid(ids[0], ids[0])
        links = [log.valid(sup, sub) for sub, sup in zip(ids, ids[1:])]
        for combo in itertools.islice(itertools.product(ecs, *links), cap):
            chain = list(combo)[::-1]
            own = verdict_of(chain)[0]
            if md is not None:
                chain[-1] = dict(chain[-1], metadata=md)
            v, m = verdict_of(chain)
            if own != "accept" and v == "accept":
                v = "may"             # some clients want the published metadata to be fine as well
            res.append((v, m.get(etype) if m is not None else None))
    return res


def state_of(cl):
    ctx = cl.context
    kj = cl.keyjar
    return json.dumps([ctx.claims.use, getattr(ctx, "client_id", None),
                       getattr(ctx, "registration_response", None),
                       getattr(ctx, "client_secret", None),
                       sorted((o, len(kj.get_issuer_keys(o))) for o in kj.owners())],
                      sort_keys=True, default=str)


def one(case):
    rng = case.rng
    kind = rng.choice(["oidc", "oauth2"])
    etype = "openid_relying_party" if kind == "oidc" else "oauth_client"
    nodes, tas, leaf = graph(rng)
    while leaf in tas:
        nodes, tas, leaf = graph(rng)
    site = Site()
    for n in nodes:
        n.metadata.setdefault("federation_entity", {})
        site.add(n)
        n.key_types = ("EC",)
    lifet = rng.choice([86400, 86400, 3000])
    for n in nodes:
        n.es_lifetime = rng.choice([lifet, lifet * 2])
        n.ec_lifetime = rng.choice([lifet, lifet * 2])
    # the provider is the leaf, the client is beneath some of the others
    op = leaf
    op.metadata.clear()
    op.metadata["openid_provider" if kind == "oidc" else "oauth_authorization_server"] = {
        "issuer": op.entity_id, "federation_registration_endpoint": op.entity_id + "/reg"}
    bosses = rng.sample([n for n in nodes if n is not leaf],
                        min(len(nodes) - 1, rng.choice([1, 1, 1, 2])))
    mine = [t for t in tas if rng.random() < .85] or tas[:1]
    combo = (rp_combo if kind == "oidc" else oauth_client_combo)(
        RP, authority_hints=[b.entity_id for b in bosses],
        anchors={t.entity_id: t.jwks() for t in mine})
    site.host(combo)
    site.attach(budget=80000)
    fe = combo["federation_entity"]
    cl = combo[etype]
    jwks = payload_of(configuration(fe))["jwks"]
    for b in bosses:
        b.subs[RP] = {"jwks": jwks}
    for n in nodes:
        for s, sub in n.subs.items():
            if s == op.entity_id or rng.random() < .5:
                continue
            pol = {}
            for c in rng.sample(sorted(UNIV), rng.randint(1, 2)):
                if rng.random() < .12:
                    pol[c] = random_ops(rng, c in LISTY, UNIV[c])
                else:
                    pol[c] = compatible_ops(rng, c in LISTY, UNIV[c],
                                            UNIV[c][:1] if c in LISTY else UNIV[c][0])
            sub["metadata_policy"] = {etype: pol}
    mallory = Node("https://mallory.example.net", key_types=("EC",))
    rogue = Node("https://ta.rogue.net", key_types=("EC",))
    rogue.add_sub(op)
    rogue.subs[RP] = {"jwks": jwks}
    site.add(rogue)
    log = Log(site)
    by_id = {n.entity_id: n for n in nodes}
    # (a Node standing for the client)
    me = Node(RP, key_types=("EC",), authority_hints=[b.entity_id for b in bosses])
    endpoint = op.entity_id + "/reg"
    trail, gone, retired = [], False, []
    marks, plan = [], None
    if rng.random() < .3:
        marks = [{"id": "https://m.example.org", "trust_mark": "a.b.%d" % rng.randrange(9)}]
        fe.context.trust_marks = marks
    current = {}

    def answer(ev):
        body = ev.body.decode() if isinstance(ev.body, bytes) else ev.body
        current["request"] = body
        # (making a request sets some of this anew)
        current["before"] = state_of(cl)
        current["metadata"] = json.loads(json.dumps(cl.get_metadata()[etype]))
        return 201, current["response"], "application/entity-statement+jwt"

    site.extra[endpoint] = answer

    for step in range(rng.randint(3, 7)):
        act = rng.choices(["register", "roll", "drop", "time"], [8, 1.2, .5, 1.5])[0]
        if act == "roll":
            # the provider gets new keys; its superiors know, or don't
            case.count("rolled-over")
            kept = op.keys[:rng.choice([0, 0, 1])]
            retired += [k for k in op.keys if k not in kept]
            op.keys = [new_key(typ="EC")] + kept
            thorough = rng.random() < .4        # and what was said about the former ones expires
            if thorough or rng.random() < .4:
                for n in nodes + [rogue]:
                    if op.entity_id in n.subs:
                        n.subs[op.entity_id] = dict(n.subs[op.entity_id], jwks=op.jwks())
            if thorough:
                clock.advance(2 * lifet + 5)
                if retired and rng.random() < .7:
                    plan = "retired"
            trail.append("roll")
            continue
        if act == "drop":
            who = rng.choice([op.entity_id, RP])
            gone = True
            for n in nodes:
                n.subs.pop(who, None)
            trail.append(("drop", who == RP))
            continue
        if act == "time":
            clock.advance(rng.choice([10, 100, lifet // 2, lifet + 5, 2 * lifet + 5]))
            trail.append("time")
            continue
        how = plan or rng.choice(["own"] * 8 + ["forged", "other-key", "altered", "unsigned", "expired",
                                        "other-sub", "other-aud", "anchor", "garbage", "outsider"] +
                         ["retired"] * 3 * bool(retired))
        md = {"client_id": "id%d" % rng.randrange(1000), "client_secret": "%040x" % rng.getrandbits(
            160)}
        for c in UNIV:
            if rng.random() < .6:
                md[c] = rng.sample(UNIV[c], rng.randint(1, 2)) if c in LISTY else rng.choice(UNIV[c])
        if rng.random() < .5:
            md["redirect_uris"] = [RP + "/cb"]
        p = {"iss": op.entity_id, "sub": RP, "aud": RP, "iat": clock.now(),
             "exp": clock.now() + 600, "jwks": op.jwks(), "metadata": {etype: md},
             "trust_anchor_id": rng.choice(mine).entity_id}
        if rng.random() < .3:
            p["authority_hints"] = list(op.authority_hints)
        if rng.random() < .2:
            p["aud"] = [RP]
        genuine = True
        tok = sign(p, op.key)
        if how == "forged":
            k = rng.choice([mallory.key, new_key(typ="EC"), leaf.keys[-1], nodes[0].key])
            if k in op.keys:
                k = new_key(typ="EC")
            tok, genuine = sign(p, k, {"kid": op.key.kid}), False
        elif how == "other-key":
            # consistent in itself, but with keys of its own
            # (or those of somebody who may well say things about the provider, in its own name)
            k = rng.choice([mallory] * 2 + [n for n in nodes if n is not op]).key
            p["jwks"] = {"keys": [pub(k)] + (op.jwks()["keys"] if rng.random() < .5 else [])}
            tok, genuine = sign(p, k), False
        elif how == "retired":
            # a key that was the provider's
            key = rng.choice(retired)
            p["jwks"] = {"keys": [pub(key)] + op.jwks()["keys"]}
            tok = sign(p, key)
        elif how == "altered":
            tok, genuine = retamper(tok, lambda q: q["metadata"][etype].__setitem__(
                "client_id", "altered")), False
        elif how == "unsigned":
            tok, genuine = unsigned(p), False
        elif how == "expired":
            p.update(iat=clock.now() - 5000, exp=clock.now() - rng.choice([1, 300, 4000]))
            tok, genuine = sign(p, op.key), False
        elif how == "other-sub":
            p["sub"] = rng.choice([op.entity_id, mallory.entity_id, RP + "/", RP + "x"])
            tok, genuine = sign(p, op.key), False
        elif how == "other-aud":
            p["aud"] = rng.choice([op.entity_id, [mallory.entity_id], RP + "/", []])
            tok, genuine = sign(p, op.key), False
        elif how == "anchor":
            p["trust_anchor_id"] = rng.choice(
                [rogue.entity_id, "https://nobody.example.org", RP, op.entity_id] +
                [n.entity_id for n in nodes if n not in mine])
            if rng.random() < .2:
                del p["trust_anchor_id"]
            tok = sign(p, op.key)
            genuine = p.get("trust_anchor_id") in [m.entity_id for m in mine]
        elif how == "outsider":
            # by somebody in no federation of ours
            p.update(iss=mallory.entity_id, jwks=mallory.jwks())
            tok, genuine = sign(p, mallory.key), False
        elif how == "garbage":
            tok, genuine = rng.choice([
                "", "xyz", "a.b.c", json.dumps(p), json.dumps(md), tok.rsplit(".", 1)[0] + ".",
                tok[:-10], sign({k: v for k, v in p.items() if k != "jwks"}, op.key),
                sign({k: v for k, v in p.items() if k != "sub"}, op.key),
                sign({k: v for k, v in p.items() if k != "exp"}, op.key)]), False
        plan = None
        case.count("how:" + how)
        current.update(response=tok, request=None, before="")
        try:
            res, ok = cl.do_request("registration", endpoint=endpoint), True
            if "error" in res:
                ok = False
        except Exception as err:
            res, ok = err, False
        log.update()
        trail.append((how, ok))
        # what was asked for
        rq = current["request"]
        what = lambda: (f"{kind} how={how} result {res!r}\nresponse "
                        f"{p if genuine else tok[:1500]}\ntrail {trail}\nrequest {str(rq)[:200]}\n"
                        f"mine {[m.entity_id for m in mine]} state {state_of(cl)[:1500]}")
        case.observed(json.dumps([kind, trail, len(bosses), len(mine)]), True,
                      sample={"client": kind, "trail": trail})
        if case.check(rq is not None, "no-request", what):
            q = payload_of(rq)
            case.count("request")
            case.check(ref.signed_by(rq, jwks) and q["iss"] == q["sub"] == RP and
                       q["iat"] <= clock.now() < q["exp"], "request-malformed", what)
            case.check(sorted(q.get("authority_hints", [])) == sorted(b.entity_id for b in bosses),
                       "request-malformed", what)
            case.check({thumb(k) for k in q["jwks"]["keys"]} == {thumb(k) for k in jwks["keys"]},
                       "request-malformed", what)
            case.check(q.get("trust_marks", []) == marks, "request-malformed", what)
            case.check(q["metadata"].get(etype) == current["metadata"],
                       "request-malformed", what)
            case.check(not any("d" in k for k in q["jwks"]["keys"] +
                               (q["metadata"][etype].get("jwks") or {}).get("keys", [])),
                       "private-keys", what)
        outs = []
        if genuine:
            ta = by_id[p["trust_anchor_id"]]
            mypaths = simple_paths(me, dict(by_id, **{RP: me}), [ta])
            outs = outcomes(log, mypaths, etype, p["metadata"])
            # do the keys of the provider verify the response?
            vouched = False
            for path in simple_paths(op, by_id, [ta]):
                ids = [n.entity_id for n in path]
                links = [log.valid(sup, sub) for sub, sup in zip(ids, ids[1:])]
                if not all(links):
                    continue
                for ec in log.valid(ids[0], ids[0]):
                    if any(k.get("kid") == header_of(tok)["kid"] for k in ec["jwks"]["keys"]):
                        vouched = True
            if not vouched:
                outs = []
        good = [m for v, m in outs if v != "refuse"]
        if ok:
            case.count("accepted")
            got = res if kind == "oidc" else res.get(etype) or {}
            fits = [m for m in good if same(got, m)]
            if case.check(bool(good), "accepted-untrusted-response", what):
                case.check(bool(fits), "not-what-the-chain-says",
                           lambda: f"acceptable {good}\n" + what())
                if any(m != md for m in fits):
                    case.count("policy-changed")
                kept = cl.context.registration_response
                case.check(same(kept if kind == "oidc" else kept.get(etype) or {}, got),
                           "not-kept", lambda: f"{kept}\n" + what())
                case.check(cl.context.claims.get_usage("client_id") == md["client_id"] ==
                           cl.context.client_id, "wrong-client-id", what)
                case.check(cl.context.claims.get_usage("client_secret") == md["client_secret"],
                           "wrong-client-secret", what)
        else:
            case.count("refused")
            case.count("unchanged")
            case.check(state_of(cl) == current["before"], "refused-but-used",
                       lambda: current["before"] + "\n" + what())
        if not good:
            case.count("must-refuse")
            if how == "retired":
                case.count("retired-refused")
                if any(t[:2] == ("own", True) for t in trail):
                    case.count("retired-after-use")
            case.check(not ok, "accepted-untrusted-response", what)
            if outs:
                case.count("policy-refused")
        live = genuine and not gone and all(v == "accept" for v, _ in outs) and outs
        if live and how == "own":
            paths = simple_paths(me, dict(by_id, **{RP: me}), [ta])
            if len(paths) == 1 and all(
                    n.subs.get(op.entity_id, {}).get("jwks") == op.jwks()
                    for n in nodes if op.entity_id in n.subs) and "roll" not in trail:
                case.count("must-accept")
                case.check(ok, "refused-genuine-response", what)
        if case.failed:
            return


def same(a, b):
    if set(a) != set(b):
        return False
    return all(polref.setlike_same(a[c], b[c]) or a[c] == b[c] or [a[c]] == b[c] or
               a[c] == [b[c]] for c in a)


def run(ctx):
    ctx.cases("histories", 160, 4000, one)
