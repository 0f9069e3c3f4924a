"""C11: listings of subordinates are exact."""
import copy
import json

from fsmon.boot import clock
from fsmon.serve import Site, call
from fsmon.world import Node, make_fe, new_key, pub, sign, unsigned

LEVEL = "exploration"
RULE = ("distinct = (criteria asked for, what distinguishes the subordinates, how many match, "
        "by client or at the endpoint)")
ASSUMPTIONS = [
    "that a subordinate has a trust mark means that its entity configuration, signed with a "
    "registered key, carries it; the trust mark itself is not verified",
    "a criterion given as anything but 'true' or '1' (any case) doesn't restrict the listing",
    "subordinates' entity configurations don't change while a listing is made",
]
REQUIRE = {"listings": 4000, "unrestricted": 500, "several-criteria": 800, "by-client": 800,
           "with-trust-marks": 800, "unusable-configuration": 800, "some-but-not-all": 1000,
           "bad-trust-mark": 300, "after-change": 800, "extended": 100, "no-keys": 200,
           "former-key": 100, "looked-up": 500, "changed-marks": 500}

SUP = "https://sup.example.org"
TYPES = ["openid_relying_party", "federation_entity", "openid_provider", "oauth_client"]
IDS = [f"https://s{i}.example.org" for i in range(6)] + ["https://shared.example.org/a",
                                                        "https://shared.example.org/a/b"]
MARKS = ["https://m.example.org/1", "https://m.example.org/2", "https://m.example.org/1/x"]
BAD = ["unreachable", "forged", "unsigned", "expired", "html", "other",
       "by-another", "by-another"] + ["former"] * 4
KEY = None


def trust_mark(case, mid, sub):
    global KEY
    KEY = KEY or new_key(typ="EC")
    kind = case.rng.choice(["jwt", "jwt", "dict"])
    p = {"iss": "https://tmi.example.org", "sub": sub, "id": mid, "iat": clock.now()}
    token = sign(p, KEY, typ="trust-mark+jwt")
    return token if kind == "jwt" else {"id": mid, "trust_mark": token}


class Subordinates:
    def __init__(self, case, fe, site):
        self.case, self.rng, self.fe, self.site = case, case.rng, fe, site
        self.model = {}
        self.former = {}

    def tokens(self, eid):
        rng = self.rng
        marks = rng.sample(MARKS, rng.choice([0, 0, 1, 1, 2]))
        tms = [trust_mark(self.case, m, eid) for m in marks]
        any_mark = bool(tms)
        if rng.random() < .2:
            tms.insert(rng.randint(0, len(tms)), rng.choice(["garbage", 17, {}, "a.b.c", None]))
            any_mark = True
            self.case.count("bad-trust-mark")
        return marks, tms, any_mark

    def change_marks(self, eid):
        """The subordinate gains or loses trust marks; nobody tells the superior."""
        if eid in self.model:
            marks, tms, any_mark = self.tokens(eid)
            self.site.nodes[eid].trust_marks = tms
            self.model[eid].update(marks=marks, any_mark=any_mark)
            self.case.count("changed-marks")

    def look_up(self, eid):
        """The superior itself collects and verifies chains for the subordinate."""
        from fedservice.entity.function import collect_trust_chains, verify_trust_chains
        try:
            chains, leaf = collect_trust_chains(self.fe, eid)
            if chains and verify_trust_chains(self.fe, chains, leaf):
                self.case.count("looked-up")
        except Exception:
            pass

    def register(self, eid):
        rng = self.rng
        self.remove(eid)
        node = self.site.add(Node(eid, key_types=("EC",)))
        node.authority_hints = [SUP]
        node.ec_lifetime = 10 ** 7
        rec = {"jwks": node.jwks()}
        types = rng.sample(TYPES, rng.randint(0, 3))
        how = rng.random()
        if how < .7:
            rec["entity_types"] = types
        elif how < .85 and types:
            types = types[:1]
            rec["entity_type"] = types[0]
        else:
            types = []
        inter = rng.choice([True, False, None])
        if inter is not None:
            rec["intermediate"] = inter
        marks, node.trust_marks, any_mark = self.tokens(eid)
        usable = rng.random() < (.5 if eid in self.former else .75)
        if usable and rng.random() < .1:
            usable = False
            if rng.random() < .5:
                rec["jwks"] = {"keys": []}
            else:
                rec.pop("jwks")
                rec.setdefault("intermediate", False)
            self.case.count("no-keys")
        elif not usable:
            self.case.count("unusable-configuration")
            bad = rng.choice(BAD)
            k = new_key(typ="EC")
            old = self.former.get(eid)
            others = [x for x in self.site.nodes if x != eid and x in self.model]
            other = self.site.nodes[rng.choice(others)].key if others else k
            if bad == "former" and old:
                self.case.count("former-key")

            def fault(ev, n):
                if bad == "unreachable":
                    from requests.exceptions import ConnectionError
                    raise ConnectionError("no")
                if bad == "html":
                    return 200, "<html/>", "text/html"
                if bad == "former" and old:
                    return 200, n.ec(key=old), "application/entity-statement+jwt"
                if bad == "by-another":
                    # another subordinate's, registered, key
                    return 200, n.ec(key=other, jwks={"keys": [pub(other)]}), \
                        "application/entity-statement+jwt"
                if bad in ("forged", "former"):
                    return 200, n.ec(key=k, jwks={"keys": [pub(k)]}), "application/entity-statement+jwt"
                if bad == "unsigned":
                    return 200, unsigned(n.ec_payload()), "application/entity-statement+jwt"
                if bad == "expired":
                    return 200, n.ec(iat=clock.now() - 900, exp=clock.now() - 600), \
                        "application/entity-statement+jwt"
                p = n.ec_payload()
                p["iss"] = p["sub"] = "https://other.example.org"
                return 200, sign(p, n.key), "application/entity-statement+jwt"
            self.site.faults[("ec", eid)] = fault
        self.former[eid] = node.key
        self.model[eid] = dict(types=types, intermediate=bool(inter), usable=usable,
                               marks=marks, any_mark=any_mark)
        self.fe.server.subordinate[eid] = copy.deepcopy(rec)

    def remove(self, eid):
        self.model.pop(eid, None)
        self.site.nodes.pop(eid, None)
        self.site.faults.pop(("ec", eid), None)
        self.fe.server.subordinate.pop(eid, None)

    def expected(self, q):
        true = lambda x: str(x).lower() in ("true", "1")  # noqa
        res = []
        for eid, m in self.model.items():
            if true(q.get("intermediate")) and not m["intermediate"]:
                continue
            if "entity_type" in q and q["entity_type"] not in m["types"]:
                continue
            if true(q.get("trust_marked")) and not (m["usable"] and m["any_mark"]):
                continue
            if q.get("trust_mark_id") and not (m["usable"] and q["trust_mark_id"] in m["marks"]):
                continue
            res.append(eid)
        return sorted(res)


def query(rng, by_client):
    q = {}
    if rng.random() < .45:
        q["entity_type"] = rng.choice(TYPES + ["openid_relying", "nope"])
    if rng.random() < .35:
        q["intermediate"] = True if by_client else rng.choice(["true", "True", "1", "false", "TRUE"])
    if rng.random() < .3:
        q["trust_marked"] = True if by_client else rng.choice(["true", "True", "false", "0"])
    if rng.random() < .3:
        q["trust_mark_id"] = rng.choice(MARKS + ["https://m.example.org/"])
    return q


def one(case):
    rng = case.rng
    site = Site().attach(budget=20000)
    sup = make_fe(SUP, endpoints=["entity_configuration", "list", "fetch"])
    sup.function.trust_chain_collector.add_trust_anchor(SUP, sup.keyjar.export_jwks())
    site.host(sup)
    subs = Subordinates(case, sup, site)
    me = make_fe("https://me.example.org", anchors={SUP: sup.keyjar.export_jwks()})
    ep = sup.server.get_endpoint("list")
    ep.extended = rng.random() < .15
    for eid in rng.sample(IDS, rng.randint(0, 6)):
        subs.register(eid)
    changed = False
    for _ in range(rng.randint(5, 12)):
        if rng.random() < .25:
            eid = rng.choice(IDS)
            subs.register(eid) if rng.random() < .7 else subs.remove(eid)
            changed = True
            continue
        if rng.random() < .5:
            for eid in rng.sample(IDS, 4):
                subs.look_up(eid)
        if rng.random() < .3:
            subs.change_marks(rng.choice(IDS))
            changed = True
        if rng.random() < .1:
            clock.advance(rng.choice([10, 1000, 100000]))
        by_client = not ep.extended and rng.random() < .3
        q = query(rng, by_client)
        want = subs.expected(q)
        if by_client:
            got = me.do_request("list", entity_id=SUP, **q)
            case.count("by-client")
        else:
            reply = call(ep, q)
            case.check(reply.ok, "no-listing", lambda: f"{q}: {reply}")
            try:
                got = json.loads(reply.text)
            except ValueError:
                got = None
        marks = q.get("trust_mark_id") or str(q.get("trust_marked")).lower() == "true"
        if ep.extended and marks and isinstance(got, dict):
            case.count("extended")
            for eid, ec in got.items():
                case.check(ec.get("sub") == eid and ec.get("iss") == eid, "extended-content",
                           lambda: f"{eid}: {ec}")
            got = list(got)
        ok = isinstance(got, list) and all(isinstance(x, str) for x in got)
        case.check(ok and sorted(got) == want, "listing",
                   lambda: f"{'client' if by_client else 'endpoint'} {q}: {got}\nwanted {want}\n"
                           f"{json.dumps(subs.model, indent=1)}")
        case.count("listings")
        if not q:
            case.count("unrestricted")
        if len(q) > 1:
            case.count("several-criteria")
        if marks:
            case.count("with-trust-marks")
        if 0 < len(want) < len(subs.model):
            case.count("some-but-not-all")
        if changed:
            case.count("after-change")
        case.observed((by_client, tuple(sorted(q.items())), len(want), len(subs.model),
                       tuple(sorted((tuple(sorted(m["types"])), m["intermediate"], m["usable"],
                                     len(m["marks"])) for m in subs.model.values()))),
                      nontrivial=bool(subs.model),
                      sample={"query": q, "listed": want, "subordinates": subs.model})


def run(ctx):
    ctx.cases("listings", 180, 2500, one)
