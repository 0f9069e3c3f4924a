"""C04: naming constraints."""
import copy

from fsmon import ref
from fsmon.world import World, chain_down, line, make_fe, payload_of

LEVEL = "exploration"
RULE = ("Random lines of 1-6 subordinates below a trust anchor whose hosts come from a small label "
        "alphabet (several depths, ports, paths, tenants, upper case, look-alike suffixes), with "
        "permitted/excluded lists at any set of levels; accepted or refused by the verifier itself, "
        "by meets_restrictions on the statements, and, for part of them, by the collector over "
        "HTTP. The oracle recomputes coverage by host suffix. Non-trivial: at least one list "
        "present. Distinct by the chain's hosts and lists.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)"]
REQUIRE = {"accepted": 200, "refused:excluded": 100, "refused:permitted": 100,
           "refused-by-inherited": 60, "constrained-and-accepted": 150, "over-http": 50}

LABELS = ["a", "b", "foo", "example", "xample", "op"]
TLDS = ["org", "com", "example.org", "example.com"]


def rand_host(rng, base=None):
    t = base or rng.choice(TLDS[2:])
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        t = f"{rng.choice(LABELS)}.{t}"
    return t


def rand_id(rng, used, served=False):
    while True:
        h = rand_host(rng)
        if served:
            # a host of its own, to be found over the network
            if h not in used:
                used.add(h)
                return f"https://{h}" + rng.choice(["", "", "/tenant", "/a/b.c"])
            continue
        r = rng.random()
        if r < .1:
            h = h.upper() if rng.random() < .5 else h.capitalize()
        e = rng.choice(["https://"] * 9 + ["http://"])
        if rng.random() < .04:
            e += rng.choice(["user", rand_host(rng), "u:p"]) + "@"
        e += h
        if rng.random() < .2:
            e += rng.choice([":8443", ":443"])
        if rng.random() < .35:
            e += rng.choice(["/tenant", "/a/b.c", "/x.example.org", "/example.com"])
        if e not in used:
            used.add(e)
            return e


def rand_constraint(rng, below):
    """Mostly something that is, or nearly is, about one of the entities below."""
    h = ref.host(rng.choice(below)) if rng.random() < .85 else rand_host(rng)
    labels = h.split(".")
    r = rng.random()
    if r < .25:
        c = h
    elif r < .7:
        k = rng.randint(0, len(labels) - 2)
        c = "." + ".".join(labels[k:])
    elif r < .8:
        c = ".".join(labels[1:]) if len(labels) > 2 else h
    elif r < .84:
        # the same to begin with, but not the whole of it
        c = ".".join(labels[:-1]) if len(labels) > 2 and rng.random() < .5 else h + ".net"
    elif r < .92:
        c = "." + h[1:] if len(labels[0]) > 1 else "." + h   # cut in the middle of a label
    else:
        c = rng.choice(["." + rng.choice(TLDS[2:]), rand_host(rng)])
    return rng.choice(["https://"] * 9 + ["http://"]) + c


def wide(rng, below):
    """A permitted list that covers all of them."""
    res = []
    for b in below:
        h = ref.host(b)
        labels = h.split(".")
        k = rng.randint(0, max(0, len(labels) - 2))
        res.append("https://" + (h if k == 0 else "." + ".".join(labels[k:])))
    rng.shuffle(res)
    return res


def setup_chain(rng, served=False):
    used = set()
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    ids = ["https://ta.anchor.net"] + [rand_id(rng, used, served) for _ in range(n)]
    nodes = line(ids, key_types=("EC",))
    lists = 0
    for i, nd in enumerate(nodes[:-1]):
        if rng.random() < .45:
            continue
        below = ids[i + 1:]
        nc = {}
        r = rng.random()
        if r < .45:
            nc["excluded"] = [rand_constraint(rng, below) for _ in range(rng.randint(1, 3))]
            # do not always refuse
            if rng.random() < .6:
                nc["excluded"] = [c for c in nc["excluded"]
                                  if not any(ref.covered(e, c) for e in below)]
                if not nc["excluded"]:
                    nc["excluded"] = ["https://.nowhere.net"]
        if r > .35:
            if rng.random() < .6:
                nc["permitted"] = wide(rng, below)
            else:
                nc["permitted"] = [rand_constraint(rng, below) for _ in range(rng.randint(1, 3))]
        lists += 1
        nd.subs[ids[i + 1]]["constraints"] = {"naming_constraints": nc}
        if rng.random() < .2:
            nd.subs[ids[i + 1]]["constraints"]["max_path_length"] = 9
    return ids, nodes, lists


def classify(case, ps):
    """Why a chain is to be refused."""
    for kind in ("excluded", "permitted"):
        qs = copy.deepcopy(ps)
        for q in qs:
            nc = (q.get("constraints") or {}).get("naming_constraints")
            if nc:
                nc.pop("permitted" if kind == "excluded" else "excluded", None)
        if not ref.naming_ok(qs):
            case.count(f"refused:{kind}")
    # would checking only the statement's own subject have let it through?
    own = True
    for p in ps:
        nc = (p.get("constraints") or {}).get("naming_constraints") or {}
        if any(ref.covered(p["sub"], x) for x in nc.get("excluded") or []):
            own = False
        if nc.get("permitted") and not any(ref.covered(p["sub"], x) for x in nc["permitted"]):
            own = False
    if own:
        case.count("refused-by-inherited")


def verdict(case, fe, chain):
    try:
        return fe.function.verifier(list(chain)) is not None
    except Exception as err:
        case.data["err"] = repr(err)
        return False


def one(case, oracle=ref.naming_ok, make=setup_chain, http=False):
    from fedservice.entity_statement.constraints import meets_restrictions
    rng = case.rng
    ids, nodes, lists = make(rng, served=http)
    anchors = {ids[0]: nodes[0].jwks()}
    fe = make_fe(anchors=anchors)
    chain = chain_down(*nodes)
    variants = [chain]
    if rng.random() < .3:
        variants.append([nodes[0].ec()] + chain)
    if rng.random() < .3 and len(chain) > 1:
        variants.append(chain[:-1])
    for ch in variants:
        ps = [payload_of(c) for c in ch]
        want = oracle(ps)
        desc = {"entities": ids, "constraints": [p.get("constraints") for p in ps]}
        case.observed((ids, str(desc["constraints"]), len(ch)), lists > 0, sample=desc)
        got = verdict(case, fe, ch)
        direct = meets_restrictions(copy.deepcopy(ps))
        case.count("accepted" if want else "refused")
        if want and lists:
            case.count("constrained-and-accepted")
        if not want:
            classify(case, ps) if oracle is ref.naming_ok else None
        case.check(got == want, "accepted-against-constraints" if got else
                   "refused-although-constraints-met",
                   lambda: f"verifier: {got}, expected {want}: {desc} {case.data.get('err')}")
        case.check(direct == want, "meets_restrictions",
                   lambda: f"meets_restrictions: {direct}, expected {want}: {desc}")
        if case.failed:
            return
    if http:
        from fedservice.entity.function import apply_policies, collect_trust_chains
        from fedservice.entity.function import verify_trust_chains
        w = World()
        for n in nodes:
            w.add(n)
        w.attach()
        want = oracle([payload_of(c) for c in chain])
        chains, signed_ec = collect_trust_chains(fe, ids[-1])
        tcs = verify_trust_chains(fe, chains, signed_ec)
        case.count("over-http")
        if len(ids) > 1:
            case.check(bool(tcs) == want, "over-http", lambda: f"{len(tcs)} chains accepted, "
                       f"expected {want}: {desc}")


def run(ctx):
    ctx.cases("verifier", 500, 9000, one)
    ctx.cases("http", 25, 500, lambda case: one(case, http=True))
