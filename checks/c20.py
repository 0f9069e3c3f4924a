"""C20: entities in one process, also such as were built from the same configuration,
don't affect each other."""
import copy
import json

from fsmon import boot
from fsmon.boot import clock
from fsmon.combos import (as_combo, oauth_client_combo, op_combo, rp_combo, rp_config,
                          standalone_rp_combo)
from fsmon.serve import call, configuration
from fsmon.world import ALL_SERVICES, World, key_set, line, new_key, payload_of, pub

LEVEL = "exploration"
RULE = ("Several federation entities are built in one process, from the package's defaults and from "
        "configuration objects they share, and used one at a time. Before and after everything that "
        "is done to one of them the state that can be observed of all the others (statements they "
        "issue, anchors, keys, endpoints and how to authenticate at them, subordinates, policies, "
        "trust marks, caches) is compared; so are the configuration objects, and an "
        "entity built first with one built last from pristine copies of the same configuration. "
        "distinct = (operation, kinds of the entities, what they share)")
ASSUMPTIONS = [
    "a list of authority hints is given away by its owner on purpose and may be changed by it "
    "afterwards (C10); the entity may not",
    "entities share one trust mark database only if they are told to",
    "cryptojwt's import of a JWKS removes 'use' from the keys it is given, so the shared ones have "
    "none; it also adds a default timeout to the HTTP parameters it is given",
]
REQUIRE = {"built": 1500, "operations": 1500, "unaffected": 4000, "twins": 300,
           "configuration-unchanged": 1500, "op:anchor": 100, "op:collect": 100,
           "op:mark": 100, "op:build-special": 100, "op:issue-mark": 40, "combos": 100}

KEYS = {"key_defs": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256",
                                                      "use": ["sig"]}]}
SELF = {"class": "fedservice.trust_mark_entity.entity.SelfSignedTrustMarkEntity",
        "kwargs": {"trust_mark_specification": {"https://mark.example.org/self": {
            "logo_uri": "https://logo.example.org"}}}}
TME = {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity",
       "kwargs": {"trust_mark_specification": {"https://mark.example.org/m": {
           "logo_uri": "https://logo.example.org"}},
           "endpoint": {
               "trust_mark": {"path": "trust_mark",
                              "class": "fedservice.trust_mark_entity.server.trust_mark.TrustMark",
                              "kwargs": {}},
               "trust_mark_status": {
                   "path": "status",
                   "class": "fedservice.trust_mark_entity.server.trust_mark_status."
                            "TrustMarkStatus", "kwargs": {}}}}}
AUTHN = ["private_key_jwt"]


GUISES = {"rp": rp_combo, "op": op_combo, "as": as_combo, "oc": oauth_client_combo,
          "sa": lambda eid: standalone_rp_combo(eid, rp_config(eid))}


def fe_of(e):
    return e if type(e).__name__ == "FederationEntity" else e["federation_entity"]


def strip(p):
    return {k: v for k, v in p.items() if k not in ("iat", "exp", "jti")}


def endpoints(eps):
    return {n: (ep.endpoint_path, ep.full_path, list(ep.client_authn_method or []),
                sorted(str(k) for k in ep.kwargs)) for n, ep in eps.items()}


def cached(cache):
    keys = getattr(cache, "keys", None)
    return sorted(str(k) for k in keys()) if keys else []


def observe(e):
    """What can be seen of an entity."""
    fe = fe_of(e)
    col = fe.function.trust_chain_collector
    res = {
        "anchors": copy.deepcopy(dict(fe.trust_anchors)),
        "keys": sorted(key_set(fe.keyjar)),
        "endpoints": endpoints(fe.server.endpoint),
        "services": {n: (type(s).__name__, str(s.default_authn_method if
                                               hasattr(s, "default_authn_method") else ""),
                         json.dumps(getattr(s, "conf", None), default=str, sort_keys=True))
                     for n, s in fe.client.service.db.items()} if fe.client else None,
        "functions": sorted(k for k in fe.function.__dict__),
        "hints": list(fe.get_authority_hints()),
        "marks": list(fe.context.get_trust_marks()),
        "subordinates": copy.deepcopy(dict(fe.server.subordinate)),
        "policies": copy.deepcopy(dict(fe.server.policy)),
        "cached": cached(col.config_cache) + cached(col.entity_statement_cache),
        "chains": sorted(fe.trust_chain),
        "delta": (col.allowed_delta, col.config_cache.allowed_delta),
        "configuration": strip(payload_of(configuration(fe))),
        "served": strip(payload_of(call(fe.server.endpoint["entity_configuration"], {}).text)),
    }
    if "fetch" in fe.server.endpoint:
        for s in sorted(fe.server.subordinate):
            res[f"about {s}"] = strip(payload_of(
                fe.server.endpoint["fetch"].process_request({"sub": s})["response_msg"]))
    tme = getattr(fe.server, "trust_mark_entity", None)
    if tme:
        res["issued"] = tme.dump_trust_marks()
        res["specs"] = copy.deepcopy(tme.trust_mark_specification)
        res["tme"] = endpoints(tme.endpoint)
    sst = getattr(fe.server, "self_signed_trust_mark_entity", None)
    if sst:
        res["self-issued"] = len(sst.issued)
        res["self-specs"] = copy.deepcopy(sst.trust_mark_specification)
    if e is not fe:
        for name, guise in e.items():
            if guise is not fe:
                res[f"guise {name}"] = json.loads(json.dumps(guise.get_metadata(), default=str))
                res[f"guise keys {name}"] = sorted(key_set(guise.keyjar)) if guise.keyjar else None
    res["httpc"] = {n: getattr(g, "httpc_params", None) for n, g in
                    (e.items() if e is not fe else [("", fe)])}
    return json.loads(json.dumps(res, default=str))


def anonymous(o, own):
    """Without what is individual: its generated keys."""
    own_keys = {k[1] for k in o["keys"] if k[0] in ("", own)}
    res = {k: v for k, v in o.items() if not k.startswith("guise keys")}
    res["keys"] = sorted([k[0], "own" if k[1] in own_keys else k[1]] for k in o["keys"])

    def blank(x):
        if isinstance(x, dict):
            if "kty" in x and x.get("kid") not in shared:
                return x["kty"]
            return {k: ("" if k in ("kid", "client_secret", "issued") else blank(v))
                    for k, v in x.items()}
        if isinstance(x, list):
            return [blank(y) for y in x]
        return x
    shared = set()
    return blank(res)


def difference(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


class Group:
    def __init__(self, case):
        from fedservice.defaults import federation_endpoints, federation_services
        rng = self.rng = case.rng
        self.case = case
        self.n = 0
        k = new_key(typ="EC")
        # what the entities may have in common
        self.nodes = line(["https://ta.example.org", "https://im.example.org",
                           "https://leaf.example.org"], key_types=("EC",),
                          leaf_metadata={"openid_relying_party": {"client_name": "leaf"}})
        self.world = World()
        for x in self.nodes:
            self.world.add(x)
        self.world.attach()
        self.pool = {
            "trust_anchors": {"https://ta.example.org": {"keys": [
                {k: v for k, v in j.items() if k != "use"}
                for j in self.nodes[0].jwks()["keys"]]}},
            "trust_marks": ["a.b.c"],
            "authority_hints": ["https://im.example.org"],
            "preference": {"organization_name": "Org", "contacts": ["ops@example.org"]},
            "key_config": copy.deepcopy(KEYS),
            "subordinate": {"https://sub.example.org": {"jwks": {"keys": [pub(k)]}}},
            "metadata_policy": {"https://sub.example.org": {"metadata_policy": {
                "openid_relying_party": {"scope": {"value": "openid"}}}}},
            "httpc_params": {"verify": False},
            "endpoints": rng.choice([
                ["entity_configuration", "fetch", "list"],
                federation_endpoints("entity_configuration", "fetch", "list", "resolve")]),
            "services": rng.choice([
                ALL_SERVICES, federation_services("entity_configuration", "entity_statement",
                                                  "list", "resolve")]),
            "functions": ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"],
            "self_signed_trust_mark_entity": copy.deepcopy(SELF),
            "trust_mark_entity": copy.deepcopy(TME),
        }
        self.pool["httpc_params"]["timeout"] = 10
        # guises, as somebody may use them for several entities
        for kind in GUISES:
            self.pool[kind] = self.guise(kind, "https://e0.example.org")
        for kind, t in (("rp", "openid_relying_party"), ("oc", "oauth_client"),
                        ("sa", "openid_relying_party")):
            kw = self.pool[kind][t]["kwargs"]
            kw["config"]["metadata"] = {"client_name": "Bob", "contacts": ["ops@example.org"]}
            if rng.random() < .5:
                kw["key_conf"] = copy.deepcopy(KEYS)
        self.pristine = copy.deepcopy(self.pool)
        self.entities = []          # (entity, entity_id, names of what it was given, kind)

    def build(self, names=None, entity_id=None, kind=None, extra=None, pool=None):
        from fedservice.utils import make_federation_combo, make_federation_entity
        rng, case = self.rng, self.case
        pool = self.pool if pool is None else pool
        if names is None:
            names = [n for n in pool if n != "key_config" and n not in GUISES
                     and rng.random() < .45]
        if entity_id is None:
            entity_id = f"https://e{self.n}.example.org"
            self.n += 1
        if kind is None:
            kind = rng.choice(["entity"] * 4 + ["combo", "rp", "op"] + sorted(GUISES))
            if kind in pool and rng.random() < .6:
                names.append(kind)
        kwargs = {n: pool[n] for n in names if n not in GUISES}
        kwargs["key_config"] = pool["key_config"]
        kwargs.update(extra or {})
        case.count("built")
        if kind == "entity":
            e = make_federation_entity(entity_id, **kwargs)
        elif kind == "combo":
            e = make_federation_combo(entity_id, **kwargs)
        else:
            case.count("combos")
            et = pool[kind] if kind in names else self.guise(kind, entity_id)
            e = make_federation_combo(entity_id, entity_type=et, **kwargs)
        if extra is None or not pool:
            pass
        case.check(self.pool == self.pristine, "configuration-changed",
                   lambda: f"building {kind} from {names}: "
                   f"{difference(self.pristine, self.pool)}")
        case.count("configuration-unchanged")
        return e, entity_id, names, kind

    def guise(self, kind, entity_id):
        seen = {}

        def catch(eid, entity_type, **kw):
            seen.update(entity_type)
        from fsmon import combos
        saved = combos._combo
        combos._combo = catch
        try:
            GUISES[kind](entity_id)
        finally:
            combos._combo = saved
        return seen

    # ---------------------------------------------------------------- operations

    def op_anchor(self, e):
        fe_of(e).add_trust_anchor(f"https://ta{self.rng.randint(1, 3)}.example.net",
                                  {"keys": [pub(new_key(typ="EC"))]})

    def op_collector_anchor(self, e):
        fe_of(e).function.trust_chain_collector.add_trust_anchor(
            "https://ta9.example.net", {"keys": [pub(new_key(typ="EC"))]})

    def op_register(self, e):
        fe = fe_of(e)
        fe.server.subordinate["https://other.example.org"] = {
            "jwks": {"keys": [pub(new_key(typ="EC"))]}}
        fe.server.policy["https://sub.example.org"] = {"metadata": {
            "openid_relying_party": {"scope": "x"}}}

    def op_mark(self, e):
        fe = fe_of(e)
        sst = getattr(fe.server, "self_signed_trust_mark_entity", None)
        if sst:
            sst("https://mark.example.org/self", note="x")
        else:
            return False

    def op_issue_mark(self, e):
        tme = getattr(fe_of(e).server, "trust_mark_entity", None)
        if tme:
            tme.create_trust_mark("https://mark.example.org/m", "https://sub.example.org")
        else:
            return False

    def op_collect(self, e):
        from fedservice.entity.function import get_verified_trust_chains
        fe = fe_of(e)
        if "https://ta.example.org" not in fe.trust_anchors or not fe.client or \
                fe.client.get_service("entity_statement") is None:
            return False
        self.world.attach()
        tc = get_verified_trust_chains(fe, "https://leaf.example.org")
        self.case.check(bool(tc), "no-chain", "a chain that exists wasn't found")

    def op_look(self, e):
        fe = fe_of(e)
        fe.get_metadata()
        fe.get_preferences()
        fe.registration_metadata()
        fe.supports()
        fe.get_all_services() if fe.client else None

    def op_answer(self, e):
        fe = fe_of(e)
        for n, q in [("fetch", {"sub": "https://sub.example.org"}), ("fetch", {}),
                     ("list", {}), ("entity_configuration", {})]:
            if n in fe.server.endpoint:
                call(fe.server.endpoint[n], q)

    def op_key(self, e):
        from fedservice.utils import import_jwks
        fe = fe_of(e)
        import_jwks(fe.keyjar, {"keys": [pub(new_key(typ="EC"))]}, "https://someone.example.org")

    def op_build_special(self, e):
        """Another entity, one with arguments of its own for some parts."""
        rng = self.rng
        extra = {"endpoints": ["entity_configuration", "fetch", "list"]} if rng.random() < .5 \
            else {}
        which = rng.choice(["item", "init", "function", "service"])
        if which == "item":
            extra["item_args"] = {"endpoint": {
                rng.choice(["fetch", "list"]): {"client_authn_method": AUTHN}}}
        elif which == "init":
            extra["init_kwargs"] = {"endpoint": {
                rng.choice(["fetch", "list"]): {"client_authn_method": AUTHN}}}
        elif which == "function":
            extra["init_kwargs"] = {"function": {"trust_chain_collector": {
                "allowed_delta": 17, "trust_anchors": {
                    "https://ta8.example.net": {"keys": [pub(new_key(typ="EC"))]}}}}}
        else:
            extra["init_kwargs"] = {"service": {"entity_configuration": {
                "default_authn_method": "private_key_jwt"}}}
        names = [n for n in self.pool if n not in ("key_config", "endpoints") and n not in GUISES
                 and rng.random() < .3]
        new = self.build(names=names, kind="entity", extra=extra)
        got = observe(new[0])
        if which in ("item", "init"):
            n = list(list(extra.values())[-1]["endpoint"])[0]
            self.case.check(got["endpoints"][n][2] == AUTHN, "argument-lost",
                            lambda: f"{extra}: {got['endpoints']}")
        elif which == "function":
            self.case.check(got["delta"][0] == 17 or "functions" not in got, "argument-lost",
                            lambda: f"{extra}: {got['delta']}")
        self.entities.append(new)


OPS = {n[3:].replace("_", "-"): n for n in dir(Group) if n.startswith("op_")}
CONFIGURABLE = ("trust_anchors", "trust_marks")


def history(case):
    rng = case.rng
    g = Group(case)
    for _ in range(rng.randint(2, 3)):
        g.entities.append(g.build())
    first = [(observe(x[0]), x) for x in g.entities]
    for step in range(rng.randint(4, 7)):
        before = [observe(x[0]) for x in g.entities]
        i = rng.randrange(len(g.entities))
        op = rng.choice(sorted(OPS))
        e, eid, names, kind = g.entities[i]
        if getattr(g, OPS[op])(e) is False:
            continue
        case.count("operations")
        case.count("op:" + op)
        what = f"{op} of {eid} ({kind}, given {names})"
        for j, was in enumerate(before):
            if j == i and op not in ("look", "answer", "build-special"):
                continue
            now = observe(g.entities[j][0])
            case.count("unaffected")
            common = sorted(set(names) & set(g.entities[j][2]))
            case.observed((op, kind, g.entities[j][3], tuple(common), i == j), True,
                          sample={"done": what, "looked at": g.entities[j][1:]})
            case.check(now == was, "other-entity-changed" if i != j else "changed-by-looking",
                       lambda: f"{what}; {g.entities[j][1:]} was changed by it: "
                       f"{difference(was, now)}")
        case.check(g.pool == g.pristine, "configuration-changed",
                   lambda: f"{what}: {difference(g.pristine, g.pool)}")
        if case.failed:
            return
    # an entity built from the same configuration now is like the one built then
    for was, (e, eid, names, kind) in first:
        if kind in ("op", "as"):
            continue
        twin = g.build(names=names, entity_id=eid, kind=kind, pool=copy.deepcopy(g.pristine))
        now = observe(twin[0])
        a, b = anonymous(was, eid), anonymous(now, eid)
        case.count("twins")
        case.observed(("twin", kind, tuple(names)), True)
        case.check(a == b, "later-entity-differs",
                   lambda: f"{kind} {eid} from {names}, built again: {difference(a, b)}")
        if case.failed:
            return


def issuers(case):
    """Two trust mark issuers from one specification that has a lifetime."""
    rng = case.rng
    life = rng.choice([60, 3600, 86400])
    conf = copy.deepcopy(TME)
    conf["kwargs"]["trust_mark_specification"]["https://mark.example.org/m"]["lifetime"] = life
    same = rng.random() < .5
    g = Group(case)
    g.pool["trust_mark_entity"] = conf
    g.pristine = copy.deepcopy(g.pool) if not same else g.pool
    made = []
    for i in range(2):
        x = copy.deepcopy(conf) if not same else conf
        e, *_ = g.build(names=["trust_anchors"], kind="entity", extra={"trust_mark_entity": x})
        m = payload_of(fe_of(e).server.trust_mark_entity.create_trust_mark(
            "https://mark.example.org/m", "https://sub.example.org"))
        made.append(m.get("exp", 0) - m["iat"])
    case.count("issuers")
    case.observed(("issuers", same, life), True)
    case.check(made[0] == life, "issuer-lifetime", lambda: f"{made} for {life}")
    case.check(made[1] == life, "second-issuer-lifetime" if same else "issuer-lifetime",
               lambda: f"two issuers from one specification with lifetime {life}: "
               f"the marks are valid for {made}")


def run(ctx):
    ctx.cases("history", 90, 700, history)
    ctx.cases("issuers", 3, 20, issuers)
