"""C05: maximum path length."""
from checks.c04 import one
from fsmon import ref
from fsmon.world import line

LEVEL = "exploration"
RULE = ("Lines of 1-7 subordinates below a trust anchor with max_path_length (absent, 0-6) at any "
        "set of levels, alone or next to naming constraints that cover everything; with the "
        "subject's configuration, without it, and with the anchor's configuration first. The oracle "
        "counts the intermediates between the one who set a limit and the subject, for every limit "
        "in the chain. Non-trivial: at least one limit present. Distinct by depth and limits.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)"]
REQUIRE = {"accepted": 200, "refused": 200, "constrained-and-accepted": 150, "over-http": 50,
           "boundary": 100}


def setup_chain(rng, served=False):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 7])
    ids = ["https://ta.anchor.net"] + [f"https://e{i}.example.org" for i in range(n)]
    nodes = line(ids, key_types=("EC",))
    limits = 0
    p = rng.choice([.3, .6, 1])
    slack = rng.random() < .5
    for i, nd in enumerate(nodes[:-1]):
        if rng.random() > p:
            continue
        inter = n - i - 1       # intermediates below this one
        if slack:
            m = inter + rng.choice([0, 0, 1, 2])
        else:
            m = max(0, inter + rng.choice([-2, -1, -1, 0, 0, 1, 3]))
        c = {"max_path_length": m}
        if rng.random() < .3:
            c["naming_constraints"] = {"permitted": ["https://.example.org"]}
        if rng.random() < .3:
            c.setdefault("naming_constraints", {})["excluded"] = ["https://.example.net"]
        nd.subs[ids[i + 1]]["constraints"] = c
        limits += 1
    return ids, nodes, limits


def case_(case, http=False):
    def oracle(ps):
        ok = ref.path_ok(ps)
        for i, p in enumerate(ps):
            m = (p.get("constraints") or {}).get("max_path_length")
            if m is not None and p["iss"] != p["sub"] and \
                    abs(len(ref.subordinates(ps, i)) - 1 - m) <= 1:
                case.count("boundary")
        return ok
    one(case, oracle=oracle, make=setup_chain, http=http)


def run(ctx):
    ctx.cases("verifier", 500, 9000, case_)
    ctx.cases("http", 25, 500, lambda case: case_(case, http=True))
