"""C23: finding entities by walking down a federation (trawl, the who endpoint)."""
import json

from requests.exceptions import ConnectionError

from checks.c08 import simple_paths
from fsmon.boot import clock
from fsmon.serve import Site, _text
from fsmon.world import Node, key_set, make_fe, new_key, retamper, sign, unsigned

LEVEL = "fault_enumeration"
RULE = ("Random federation graphs (1-3 trust anchors, intermediates, entities of several types, some "
        "listed by several, by nobody they have as superior, or in loops) whose entities answer listings "
        "truthfully, with strangers, with rubbish or not at all, and whose statements fail at random. A "
        "federation entity, that asks a trust anchor or is one itself, walks down from random places and "
        "answers who requests with credential types and trust marks (valid, about somebody else, forged, "
        "expired, revoked, rubbish). The oracle walks the model, knows all sound trust chains, and judges "
        "the trust marks itself. Distinct = (graph, faults, question, number of answers).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "statements stay valid and listings stay the same during a case",
    "a trust anchor without superiors isn't somebody's subordinate, whatever is listed",
    "a trust chain to any of the trust anchors the entity trusts will do",
]
REQUIRE = {"op:trawl": 400, "op:who": 600, "found": 400, "found-several": 200, "nothing": 100,
           "loop": 100, "unsound-listed": 200, "listing-failed": 150, "am-anchor": 200,
           "credential-filter": 150, "trust-mark-filter": 150, "trust-mark-ok": 60,
           "trust-mark-bad": 100, "untrusted": 30, "no-anchor": 10, "anchor-list-failed": 10,
           "big": 40, "rubbish-listed": 100}

TYPES = ["openid_credential_issuer", "openid_provider", "federation_entity", "oauth_authorization_server"]
CREDS = ["PersonIdentificationData", "Diploma", "DiplomaPlus", "EHIC"]
MARK = "http://dc4eu.example.com/PersonIdentificationData/se"
ME = "https://me.me.org"
TMI = "https://tmi.marks.org"


def one(case):
    rng = case.rng
    am_anchor = rng.random() < .35
    w = Site()
    mk = lambda e: Node(e, key_types=(rng.choice(["EC", "EC", "RSA"]),))
    tas = [mk(f"https://ta{i}.org") for i in range(rng.choice([1, 1, 2, 2, 3]))]
    me_node = None
    if am_anchor:
        me_node = Node(ME, keys=[new_key(typ="EC")])
        tas = [me_node] + tas[:rng.randint(0, 1)]
    big = rng.random() < .04
    if big:
        case.count("big")
    ims = [mk(f"https://im{i}.net" + rng.choice(["", "/x"]))
           for i in range(rng.randint(14, 22) if big else rng.randint(0, 4))]
    ents = [mk(f"https://e{i}.com" + rng.choice(["", "", "/t"])) for i in range(rng.randint(2, 6))]
    tmi = Node(TMI, key_types=("EC",))
    nodes = tas + ims + ents + [tmi]
    by_id = {n.entity_id: n for n in nodes}
    for i, n in enumerate(ims + ents):
        pool = tas + (ims[max(0, i - 2):i] if big and n in ims else ims[:i])
        if big and i > 2 and rng.random() < .8:
            pool = pool[len(tas):]
        for s in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2]))):
            n.authority_hints.append(s.entity_id)
            s.add_sub(n)
    if ims and rng.random() < .4:           # two intermediates that are each other's superiors
        a, b = rng.choice(ims), rng.choice(ims)
        if a is not b or rng.random() < .3:
            for x, y in ((a, b), (b, a)):
                if y.entity_id not in x.authority_hints and x is not y:
                    x.authority_hints.append(y.entity_id)
                y.add_sub(x)
    tmi.authority_hints = [tas[0].entity_id]
    tas[0].add_sub(tmi)
    trusted = [t for t in tas if t is me_node or rng.random() < .85] or [tas[0]]

    # what they are
    listers = []
    for n in nodes:
        md = {"federation_entity": {"organization_name": n.entity_id}}
        if n in tas or n in ims and rng.random() < .9 or rng.random() < .05:
            md["federation_entity"]["federation_list_endpoint"] = n.entity_id + "/list"
            listers.append(n)
        if n in ents or rng.random() < .2:
            for t in rng.sample([TYPES[0], TYPES[0], TYPES[1], TYPES[3]], rng.randint(1, 2)):
                md[t] = {"x": "y"}
            if TYPES[0] in md:
                r = rng.random()
                if r < .85:
                    md[TYPES[0]]["credentials_supported"] = [
                        {"credential_definition": {"type": rng.sample(CREDS, rng.choice([0, 1, 2, 3]))}}
                        for _ in range(rng.choice([0, 1, 2, 2, 3]))]
                elif r < .95:
                    md[TYPES[0]]["credentials_supported"] = rng.choice(
                        [17, ["x"], [{}], [{"credential_definition": {}}], None])
        n.metadata = md
    tmi.metadata["federation_entity"]["federation_trust_mark_status_endpoint"] = TMI + "/status"

    # trust marks
    mallory = new_key(typ="EC")
    revoked = set()
    w.extra[TMI + "/status"] = lambda ev: (200, json.dumps(
        {"active": True} if ev.query.get("sub", [""])[0] not in revoked else no), "application/json")
    no = rng.choice([{"active": False}, {"active": False}, {"active": None}, {"active": "no"}, {},
                     {"status": "revoked"}, {"error": "not_found"}])
    mark_ok = {}
    for n in ents + ims:
        marks, mark_ok[n.entity_id] = [], set()
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            p = {"iss": TMI, "sub": n.entity_id, "id": MARK, "iat": clock.now() - 10}
            kind = rng.choice(["good"] * 8 + ["other-sub", "other-id", "forged", "none", "tampered",
                               "expired", "rubbish", "stranger"])
            if kind == "other-sub":
                p["sub"] = rng.choice(ents).entity_id
            elif kind == "other-id":
                p["id"] = MARK + "x"
            elif kind == "expired":
                p.update(iat=clock.now() - 5000, exp=clock.now() - 1000)
            elif kind == "stranger":
                p["iss"] = "https://stranger.io"
            good = p["sub"] == n.entity_id and kind not in (
                "forged", "none", "tampered", "expired", "rubbish", "stranger")
            tok = {"forged": lambda: sign(p, mallory, {"kid": rng.choice([tmi.key.kid, "k"])}),
                   "none": lambda: unsigned(p), "rubbish": lambda: rng.choice(["x", "a.b.c", ""]),
                   "tampered": lambda: retamper(sign(dict(p, sub="https://z"), tmi.key),
                                                lambda d: d.update(sub=n.entity_id)),
                   "stranger": lambda: sign(p, mallory)}.get(kind, lambda: sign(p, tmi.key))()
            marks.append(tok)
            if good:
                mark_ok[n.entity_id].add(p["id"])
        if marks:
            n.trust_marks = marks
        if rng.random() < .15:
            revoked.add(n.entity_id)
            mark_ok[n.entity_id] = set()

    # what goes wrong
    for n in nodes:
        if n is not me_node:
            w.add(n)
    bad_ec, bad_es = set(), set()
    past = clock.now() - 9000
    for n in nodes:
        if n is me_node:
            continue
        if rng.random() < .06:
            bad_ec.add(n.entity_id)
            kind = rng.choice(["down", "404", "forged", "expired", "html"])
            w.faults[("ec", n.entity_id)] = fault(kind, lambda n=n, **k: n.ec(**k), mallory, past)
        for s in sorted(n.subs):
            if rng.random() < .08:
                bad_es.add((n.entity_id, s))
                kind = rng.choice(["down", "404", "forged", "expired", "html"])
                w.faults[("es", n.entity_id, s)] = fault(kind, lambda n=n, s=s, **k: n.es(s, **k),
                                                        mallory, past)

    # what they list
    listing_fails, strangers = set(), {}
    inter = {}
    for n in listers:
        strangers[n.entity_id] = [rng.choice(nodes).entity_id for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < .1:
            strangers[n.entity_id].append("https://nobody.nowhere.org")
        if rng.random() < .1:
            case.count("rubbish-listed")
            strangers[n.entity_id].append(rng.choice([1, None, ["https://e0.com"], {"a": "b"}, ""]))
        strangers[n.entity_id] = [x for x in strangers[n.entity_id] if not (isinstance(x, str) and x in n.subs)]
        if rng.random() < .12:
            listing_fails.add(n.entity_id)
    for n in nodes:
        inter[n.entity_id] = n in ims or n in tas or rng.random() < .2

    def listed(n, entity_type=None, intermediate=False):
        return [x for x in raw(n, entity_type, intermediate) if isinstance(x, str)]

    def raw(n, entity_type=None, intermediate=False):
        res = []
        for s in list(n.subs) + strangers.get(n.entity_id, []):
            m = by_id.get(s) if isinstance(s, str) else None
            if entity_type and m and entity_type not in m.metadata and s in n.subs:
                continue
            if intermediate and not (not isinstance(s, str) or inter.get(s, True)):
                continue
            res.append(s)
        return res

    def lister(n):
        kind = rng.choice(["down", "500", "html", "dict", "error", "string", "null"])

        def f(ev):
            if n.entity_id in listing_fails:
                if kind == "down":
                    raise ConnectionError("down")
                return {"500": (500, "oops", "text/plain"), "html": (200, "<html>", "text/html"),
                        "dict": (200, '{"a": "b"}', "application/json"),
                        "error": (400, '{"error": "no"}', "application/json"),
                        "string": (200, '"https://x.org"', "application/json"),
                        "null": (200, "null", "application/json")}[kind]
            q = {k: v[0] for k, v in ev.query.items()}
            got = raw(n, q.get("entity_type"), q.get("intermediate", "").lower() == "true")
            return 200, json.dumps(got), "application/json"
        return f
    for n in listers:
        if n is not me_node:
            w.extra[n.entity_id + "/list"] = lister(n)

    services = ["entity_configuration", "entity_statement", "list", "trust_mark_status"]
    me = make_fe(ME, anchors={t.entity_id: t.jwks() for t in trusted if t is not me_node},
                 endpoints=["entity_configuration", "fetch", "list", "who"], services=services)
    if am_anchor:
        w.host(me)
        case.count("am-anchor")
        for s, claims in me_node.subs.items():
            me.server.subordinate[s] = dict(claims, entity_types=sorted(by_id[s].metadata),
                                            intermediate=inter[s])
        strangers[ME] = []
        listing_fails.discard(ME)
        bad_ec.discard(ME)
    else:
        me.context.authority_hints = [tas[0].entity_id]
    w.attach(budget=20000)

    def sound(n):
        if n is None or n.entity_id in bad_ec:
            return False
        return any(all(x.entity_id not in bad_ec for x in path)
                   and all((b.entity_id, a.entity_id) not in bad_es for a, b in zip(path, path[1:]))
                   for path in simple_paths(n, by_id, trusted))

    def walk(start, typ, seen):
        if start in seen:
            case.count("loop")
            return set()
        seen.add(start)
        n = by_id.get(start)
        if not sound(n):
            case.count("unsound-listed")
            return set()
        res = {start} if typ in n.metadata else set()
        if n in listers:
            if n.entity_id in listing_fails:
                case.count("listing-failed")
                return res
            res |= set(listed(n, entity_type=typ))
            for s in listed(n, intermediate=True):
                res |= walk(s, typ, seen)
        return res

    if rng.random() < .7:
        me.server.endpoint["who"].trust_mark_id = ""
    if rng.random() < .4:
        me.server.endpoint["who"].credential_type = ""
    hist = []
    shape = (len(tas), len(trusted), tuple(sorted((n.entity_id, tuple(n.authority_hints)) for n in nodes)),
             tuple(sorted(bad_ec)), tuple(sorted(bad_es)), tuple(sorted(listing_fails)))
    where = lambda: (f"am_anchor={am_anchor} trusted={[t.entity_id for t in trusted]} "
                     f"hints={ {n.entity_id: n.authority_hints for n in nodes} } bad={bad_ec} {bad_es} "
                     f"failing={listing_fails} strangers={strangers}\n{hist}")
    anchor_keys = {x for x in key_set(me.keyjar) if x[0] in {t.entity_id for t in tas}}
    for _ in range(rng.randint(2, 5)):
        typ = rng.choice(TYPES)
        if rng.random() < .4:
            case.count("op:trawl")
            sup = rng.choice(tas + ims)
            start = rng.choice([n.entity_id for n in ims + ents + [tmi, sup]] + list(sup.subs))
            want = walk(start, typ, set())
            got = me.trawl(sup.entity_id, start, entity_type=typ)
            case.check(sorted(got) == sorted(want), "trawl",
                       lambda: f"{typ} from {start}: got {sorted(got)}, wanted {sorted(want)}\n{where()}")
            hist.append(("trawl", start, typ, len(want)))
        else:
            case.count("op:who")
            ep = me.server.endpoint["who"]
            req = {"entity_type": typ}
            cred = rng.choice(CREDS + [""])
            if cred:
                req["credential_type"] = cred
            if typ == TYPES[0] and rng.random() < .2:
                del req["entity_type"]
            tm = rng.random() < .5
            req["trust_mark_id"] = MARK if tm else MARK + "x" if rng.random() < .05 else ""
            ta = rng.choice(tas)
            r = rng.random()
            if r < .04:
                case.count("no-anchor")
                got = attempt(ep, req, "")
                case.check(got is None, "no-anchor", lambda: f"{got}")
                continue
            if ta not in trusted or r < .08:
                case.count("untrusted")
                tid = ta.entity_id if ta not in trusted else "https://stranger.io"
                got = attempt(ep, req, tid)
                case.check(got is None, "untrusted-anchor", lambda: f"{tid}: {got}\n{where()}")
                continue
            # an empty parameter is none (that's how requests are parsed)
            default_cred = req.get("credential_type") or ep.credential_type
            tid = req["trust_mark_id"] or ep.trust_mark_id
            failing = ta.entity_id in listing_fails or ta.entity_id in bad_ec
            got = attempt(ep, req, ta.entity_id)
            if failing:
                case.count("anchor-list-failed")
                case.check(not got, "answer-without-list", lambda: f"{got}\n{where()}")
                continue
            seen, cands = {ta.entity_id}, set()
            for s in listed(ta):
                cands |= walk(s, typ, seen)
            want = set()
            for c in cands:
                n = by_id.get(c)
                if not sound(n) or typ not in n.metadata:
                    continue
                if default_cred:
                    case.count("credential-filter")
                    cs = n.metadata.get(TYPES[0], {}).get("credentials_supported")
                    if not isinstance(cs, list) or not any(
                            default_cred in x["credential_definition"].get("type", [])
                            for x in cs if isinstance(x, dict) and "credential_definition" in x):
                        continue
                if tid:
                    case.count("trust-mark-filter")
                    ok = tid in mark_ok.get(c, ()) and sound(tmi)
                    case.count("trust-mark-ok" if ok else "trust-mark-bad")
                    if not ok:
                        continue
                want.add(c)
            case.check(got is not None and sorted(got) == sorted(want), "who",
                       lambda: f"{req} at {ta.entity_id}: got {got}, wanted {sorted(want)}\n"
                               f"metadata={ {c: by_id[c].metadata for c in want} }\nmarks={mark_ok}\n{where()}")
            case.count("found" if want else "nothing")
            if len(want) > 1:
                case.count("found-several")
            hist.append(("who", ta.entity_id, tuple(sorted(req.items())), len(want)))
        case.check({x for x in key_set(me.keyjar) if x[0] in {t.entity_id for t in tas}} >= anchor_keys,
                   "anchor-keys-lost", where)
        for owner, _ in key_set(me.keyjar):
            case.check(owner in by_id or owner in ("", ME), "stranger's keys", lambda: f"{owner}\n{where()}")
        case.observed((shape, hist[-1] if hist else ()), sample=hist[-1:])


def fault(kind, make, mallory, past):
    def f(ev, *_):
        if kind == "down":
            raise ConnectionError("down")
        if kind == "404":
            return 404, "{}", "application/json"
        if kind == "html":
            return 200, "<html></html>", "text/html"
        if kind == "forged":
            return 200, make(key=mallory), "application/entity-statement+jwt"
        return 200, make(iat=past - 10, exp=past), "application/entity-statement+jwt"
    return f


def attempt(ep, req, anchor):
    """The entities named, or None."""
    from idpyoidc.message.oauth2 import ResponseMessage
    r = ep.parse_request(dict(req))
    try:
        args = ep.process_request(r, trust_anchor=anchor) if anchor else ep.process_request(r)
    except Exception:
        return None
    if isinstance(args, ResponseMessage) and "error" in args:
        return None
    info = ep.do_response(request=r, **args)
    return json.loads(_text(info["response"]))["entities_to_use"]


def run(ctx):
    ctx.cases("walk", 300, 6000, one)
