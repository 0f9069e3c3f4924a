"""C07: policies are combined and applied exactly."""
import copy
import json

from checks.c06 import LISTS, SINGLES, universe, compatible_ops, one, random_ops
from fsmon import polref

LEVEL = "exploration"
RULE = ("(policies) the chains of C06; the oracle computes the exact outcome: refused, or precisely "
        "this metadata; statements are compared with what was signed, and the policies are applied "
        "again, also after the outcome was scribbled over, and to the same entities under changed "
        "policies. (combine) the policy combination on random policies, outside of any chain: conflicts "
        "are errors, the arguments stay as they were, and what the combined policy admits, both "
        "policies admit. Non-trivial: at least one operator. Distinct by policies and metadata.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "superset_of operators of several superiors combine to what they have in common",
               "where the specification allows an implementation to refuse (a value or default next to "
               "other operators, within one policy) the oracle accepts refusal"]
REQUIRE = {"oracle-accept": 300, "oracle-refuse": 150, "combined": 600, "conflict": 200}


def combine_case(case):
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy, combine
    rng = case.rng
    sup, chi = [{"metadata_policy": {}, "metadata": {}} for _ in range(2)]
    for claim in rng.sample(LISTS + SINGLES, rng.randint(1, 4)):
        univ = universe(claim)
        target = rng.sample(univ, rng.randint(1, 3)) if claim in LISTS else rng.choice(univ)
        fit = rng.random() < .6
        for s in (sup, chi):
            if fit and rng.random() < .8:
                s["metadata_policy"][claim] = compatible_ops(rng, claim in LISTS, univ, target)
            elif rng.random() < .7:
                s["metadata_policy"][claim] = random_ops(rng, claim in LISTS, univ)
            elif rng.random() < .2:
                s["metadata"][claim] = rng.choice(univ)
    own = {}
    for claim in LISTS + SINGLES:
        if rng.random() < .6:
            univ = universe(claim)
            own[claim] = rng.sample(univ, rng.randint(1, 3)) if claim in LISTS else rng.choice(univ)
    s0, c0, o0 = copy.deepcopy((sup, chi, own))
    v, md = polref.verdict([sup, chi], own)
    err, res = None, None
    try:
        comb = combine(combine({"metadata_policy": {}, "metadata": {}}, sup), chi)
        res = TrustChainPolicy(None).apply_policy(own, comb)
    except PolicyError as e:
        err = e
    case.observed(json.dumps([s0, c0, o0], sort_keys=True), True,
                  sample={"superior": s0, "subordinate": c0, "own": o0})
    case.count("conflict" if err else "combined")
    what = lambda: (f"superior {json.dumps(s0)}\nsubordinate {json.dumps(c0)}\nown {json.dumps(o0)}"
                    f"\ngot {json.dumps(res)} {err!r}\nexpected {v} {json.dumps(md)}")
    case.check((sup, chi, own) == (s0, c0, o0), "arguments-altered", what)
    if err is None:
        # claims appearing both in metadata and metadata_policy of a statement: a matter of the chain
        if not any(set(s["metadata"]) & set(s["metadata_policy"]) for s in (s0, c0)):
            # what a single policy says about itself is checked when it is combined with others
            case.check(not polref.violations([s0, c0], o0, res), "combined-is-laxer",
                       lambda: what() + f"\n{polref.violations([s0, c0], o0, res)}")
            for claim in set(s0["metadata_policy"]) & set(c0["metadata_policy"]):
                cv = polref.claim_verdict([s0["metadata_policy"][claim],
                                           c0["metadata_policy"][claim]],
                                          claim in o0, o0.get(claim))
                if claim in s0["metadata"] or claim in c0["metadata"]:
                    continue
                case.check(cv[0] != "refuse", "conflict-combined", lambda: what() + f"\n{claim}")
    elif v == "accept":
        case.fail("compliant-refused", what())


def run(ctx):
    ctx.cases("policies", 400, 12000, lambda c: one(c, True))
    ctx.cases("combine", 800, 30000, combine_case)
