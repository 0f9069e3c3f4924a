"""C06: the metadata of an entity obeys the policies of all its superiors. (C07: and exactly so.)"""
import copy
import json

from fsmon import polref
from fsmon.world import World, chain_down, line, make_fe

LEVEL = "exploration"
RULE = ("Signed chains with 1-4 superiors whose statements carry random metadata policies (all "
        "operators, lists and single values, all mixtures) and random metadata for several entity "
        "types, over leaf metadata that complies, nearly complies or doesn't; processed as a chain "
        "list or collected over HTTP, alone or next to other chains. Oracle: every operator of every "
        "superior is evaluated on the resulting metadata (superset_of: on the values the superiors "
        "have in common). Non-trivial: at least one operator applies. Distinct by policies and metadata.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "superset_of operators of several superiors combine to what they have in common, as "
               "the repository's own tests lay down (later versions of the specification: the union)"]
REQUIRE = {"accepted": 300, "refused": 200, "op-value": 150, "op-add": 150, "op-default": 150,
           "op-one_of": 100, "op-subset_of": 150, "op-superset_of": 50, "op-essential": 150,
           "superior-metadata": 100, "several-superiors": 200, "changed-policies": 200}

UNIV = ["a", "ab", "b", "bc", "c"]
ALG = ["RS256", "RS384", "ES256", "ES384", "PS256"]
LISTS = ["grant_types", "response_types", "contacts", "scopes"]
SINGLES = ["id_token_signed_response_alg", "subject_type", "client_name", "client_name#sv", "scope",
           "request_parameter_supported"]
TYPES = ["openid_relying_party", "oauth_client", "federation_entity"]


def universe(claim):
    return ALG if claim.endswith("alg") else [False, True] if claim.endswith("supported") else UNIV


def pick(rng, univ, lo=1):
    k = rng.randint(lo, len(univ))
    return rng.sample(univ, k)


def op_value(rng, op, univ, listy):
    if op == "essential":
        return rng.random() < .6
    if op in ("subset_of", "one_of", "superset_of"):
        if op == "superset_of" and rng.random() < .7:
            return rng.sample(univ, rng.randint(1, 2))
        return pick(rng, univ, 2 if rng.random() < .7 else 1)
    if op == "add":
        return rng.choice(univ) if rng.random() < .3 else rng.sample(univ, rng.randint(1, 2))
    # value, default
    if listy:
        return rng.sample(univ, rng.randint(1, 3))
    return rng.choice(univ)


def random_ops(rng, listy, univ):
    r = rng.random()
    if r < .45:
        ops = [rng.choice(["value", "add", "default", "subset_of", "superset_of", "essential"]
                          if listy else ["value", "default", "one_of", "essential", "subset_of",
                                         "one_of", "superset_of"])]
    elif r < .85:
        ops = rng.sample(["default", "essential", "subset_of", "superset_of", "add"] if listy else
                         ["default", "essential", "one_of"], 2)
    else:
        ops = rng.sample(["value", "add", "default", "subset_of", "superset_of", "essential",
                          "one_of"], rng.randint(2, 4))
    return {o: op_value(rng, o, univ, listy) for o in ops}


def compatible_ops(rng, listy, univ, target):
    """Operators that the target value obeys."""
    ops = {}
    t = polref.lst(target)
    rest = [x for x in univ if x not in t]
    for o in rng.sample(["default", "essential", "subset_of", "superset_of", "add"] if listy else
                        ["default", "essential", "one_of"], rng.randint(1, 3)):
        if o == "essential":
            ops[o] = True
        elif o in ("subset_of", "one_of"):
            ops[o] = t + rng.sample(rest, rng.randint(0, len(rest)))
            rng.shuffle(ops[o])
        elif o == "superset_of":
            ops[o] = [t[0]]
        elif o == "add":
            ops[o] = rng.sample(t, rng.randint(1, len(t)))
        else:
            ops[o] = copy.deepcopy(target)
    return ops


def scenario(rng, n=0):
    n = n or rng.choice([1, 1, 2, 2, 3, 4])
    mode = rng.choice(["random", "random", "compatible", "compatible", "near", "sparse"])
    types = rng.sample(TYPES, rng.choice([1, 1, 2, 3]))
    own, sups = {}, [{"metadata_policy": {}, "metadata": {}} for _ in range(n)]
    for t in types:
        own[t] = {}
        for claim in LISTS + SINGLES:
            listy = claim in LISTS
            univ = universe(claim)
            r = rng.random()
            if mode == "sparse" and r < .8:
                continue
            target = rng.sample(univ, rng.randint(1, 3)) if listy else rng.choice(univ)
            if rng.random() < .65:
                own[t][claim] = copy.deepcopy(target)
                if listy and rng.random() < .3:
                    own[t][claim] = own[t][claim] + [x for x in univ if x not in target][:1]
                if rng.random() < .04:     # the wrong shape
                    own[t][claim] = [target] if not listy else target[0]
                if rng.random() < .04 and listy:
                    own[t][claim] = []
            for i in range(n):
                if rng.random() < .35:
                    if mode in ("compatible", "near"):
                        if rng.random() < .15:
                            p = {"value": copy.deepcopy(target)}
                        else:
                            p = compatible_ops(rng, listy, univ, target)
                        if mode == "near" and rng.random() < .12:
                            p = random_ops(rng, listy, univ)
                    else:
                        p = random_ops(rng, listy, univ)
                    sups[i]["metadata_policy"].setdefault(t, {})[claim] = p
                elif rng.random() < .1:
                    v = copy.deepcopy(target)
                    if mode == "random" and rng.random() < .3:
                        v = rng.choice(univ)
                    sups[i]["metadata"].setdefault(t, {})[claim] = v
                    if rng.random() < .05:
                        sups[i]["metadata_policy"].setdefault(t, {})[claim] = \
                            random_ops(rng, listy, univ)
        if rng.random() < .5:
            own[t]["redirect_uris"] = [f"https://x.example.org/{rng.randint(1, 9)}"]
        if rng.random() < .2:
            own[t]["jwks"] = {"keys": []}
    # something about a type the leaf doesn't have
    for t in TYPES:
        if t not in types and rng.random() < .3:
            rng.choice(sups)["metadata_policy"][t] = {"contacts": random_ops(rng, True, UNIV)}
        if t not in types and rng.random() < .2:
            rng.choice(sups)["metadata"][t] = {"contacts": ["z"]}
    if mode in ("compatible",) and rng.random() < .5:
        # keep it to one 'superior metadata' holder
        pass
    for s in sups:
        for k in ("metadata_policy", "metadata"):
            if rng.random() < .1:
                s[k] = {}
    return types, own, sups, mode


def build(case, types, own, sups, tag="", anchor_head=False):
    ids = [f"https://ta{tag}.example.org"] + \
        [f"https://e{i}{tag}.example.org" for i in range(len(sups))]
    nodes = line(ids, key_types=("EC",), leaf_metadata=own)
    nodes[-1].serve_fetch = False
    for i, s in enumerate(sups):
        extra = {k: v for k, v in s.items() if v}
        nodes[i].subs[ids[i + 1]].update(copy.deepcopy(extra))
    rng = case.rng
    if rng.random() < .3:
        # what these say about themselves or, in the leaf's configuration, about others: irrelevant
        nodes[0].metadata = {types[0]: {"contacts": ["ta@example.org"], "client_name": "TA"}}
        nodes[-1].ec_extra = {"metadata_policy": {types[0]: {"client_name": {"value": "mine"}}}}
    return ids, nodes


def for_type(sups, t):
    return [{k: s[k].get(t, {}) for k in ("metadata_policy", "metadata")} for s in sups]


def expected(types, own, sups):
    """(verdict, {type: metadata}) for the whole entity."""
    overall, res = "accept", {}
    for t in types:
        v, md = polref.verdict(for_type(sups, t), own[t])
        if v == "refuse":
            return "refuse", None
        if v == "may":
            overall = "may"
        res[t] = md
    return overall, res


def process(case, fe, ids, nodes, how):
    """Returns the processed TrustChain or None, and what was signed."""
    from fedservice.entity.function import apply_policies, verify_trust_chains
    if how == "http":
        tcs = fe.get_trust_chains(ids[-1])
    else:
        chain = chain_down(*nodes)
        if how == "anchor-head":
            chain = [nodes[0].ec()] + chain
        tcs = apply_policies(fe, verify_trust_chains(fe, [chain]))
    assert len(tcs) < 2
    return tcs[0] if tcs else None


def one(case, exact):
    from fedservice.entity.function import apply_policies
    rng = case.rng
    k = rng.choice([1, 1, 2, 3])
    scs = [scenario(rng) for _ in range(k)]
    built = [build(case, *sc[:3], tag=str(i)) for i, sc in enumerate(scs)]
    w = World()
    for ids, nodes in built:
        for nd in nodes:
            w.add(nd)
    w.attach(10_000)
    fe = make_fe(anchors={ids[0]: nodes[0].jwks() for ids, nodes in built})
    changed = set()
    order = list(range(k)) + [rng.randrange(k) for _ in range(k - 1)]
    for pos, idx in enumerate(order):
        how = rng.choice(["list", "list", "anchor-head", "http"])
        if pos >= k and rng.random() < .6:
            # the same entities, other policies and metadata
            case.count("changed-policies")
            scs[idx] = scenario(rng, len(scs[idx][2]))
            old = built[idx][1]
            built[idx] = build(case, *scs[idx][:3], tag=str(idx))
            for a, b in zip(built[idx][1], old):
                a.keys = b.keys
            for a, b in zip(built[idx][1], built[idx][1][1:]):
                a.subs[b.entity_id]["jwks"] = b.jwks()
            changed.add(idx)
        (types, own, sups, mode), (ids, nodes) = scs[idx], built[idx]
        if how == "http" and idx in changed:
            how = "list"      # what was fetched before is still valid
        v, md = expected(types, own, sups)
        tc = process(case, fe, ids, nodes, how)
        nops = sum(len(p) for s in sups for t in types
                   for p in s["metadata_policy"].get(t, {}).values())
        data = {"how": how, "own": own, "superiors": sups}
        case.observed(json.dumps([own, sups, how], sort_keys=True), nops > 0, sample=data)
        case.count("accepted" if tc else "refused")
        case.count("oracle-" + v)
        case.count("several-superiors", int(len(sups) > 1))
        case.count("superior-metadata", int(any(s["metadata"] for s in sups)))
        if tc:
            for s in sups:
                for t in types:
                    for p in s["metadata_policy"].get(t, {}).values():
                        for o in p:
                            case.count("op-" + o)
        what = lambda extra="": (f"{how} superiors (top first) {json.dumps(sups)}\nown {json.dumps(own)}"
                                 f"\ngot {json.dumps(tc.metadata) if tc else None}"
                                 f"\nexpected {v} {json.dumps(md)} {extra}")
        if not exact:
            if not tc:
                continue
            for t in types:
                got = tc.metadata.get(t)
                if not case.check(isinstance(got, dict), "metadata-missing", what):
                    continue
                bad = polref.violations(for_type(sups, t), own[t], got)
                for c, i, ops in bad:
                    mech = ops if isinstance(ops, str) else "op-" + "+".join(sorted(ops))
                    case.fail("broken:" + mech.replace(" ", "-"),
                              what(f"type {t} claim {c} superior {i}: {ops}"))
            case.check(set(tc.metadata) == set(types), "entity-types", what)
            continue
        # exact outcome
        if v == "refuse":
            case.check(tc is None, "conflict-accepted", what)
        elif v == "accept":
            if case.check(tc is not None, "compliant-refused", what):
                ok = set(tc.metadata) == set(md) and all(
                    set(tc.metadata[t]) == set(md[t]) and
                    all(polref.setlike_same(tc.metadata[t][c], md[t][c]) for c in md[t])
                    for t in md)
                case.check(ok, "not-the-metadata", what)
        if tc:
            # the statements are still the statements, and doing it again makes no difference
            from fsmon.world import payload_of
            signed = [payload_of(c) for c in tc.chain]
            case.check([dict(x) for x in tc.verified_chain] == signed, "statements-altered", what)
            before = copy.deepcopy(tc.metadata)
            again = apply_policies(fe, [tc])
            case.check(len(again) == 1 and _same(again[0].metadata, before), "not-idempotent", what)
            case.check([dict(x) for x in tc.verified_chain] == signed, "statements-altered", what)
            # what somebody does to the outcome is not done to the policies
            for m in tc.metadata.values():
                _scribble(m)
            again = apply_policies(fe, [tc])
            case.check(len(again) == 1 and _same(again[0].metadata, before), "outcome-is-policy", what)
            case.check([dict(x) for x in tc.verified_chain] == signed, "statements-altered", what)
        if case.failed:
            return


def _scribble(x):
    for v in list(x.values()) if isinstance(x, dict) else x:
        if isinstance(v, (dict, list)):
            _scribble(v)
    if isinstance(x, list):
        x.append("scribble")
    else:
        x["scribble"] = "x"


def _same(a, b):
    return set(a) == set(b) and all(
        set(a[t]) == set(b[t]) and all(polref.setlike_same(a[t][c], b[t][c]) for c in a[t])
        for t in a)


def run(ctx):
    ctx.cases("policies", 400, 12000, lambda c: one(c, False))
