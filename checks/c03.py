"""C03: the federation key store changes only by what accepted trust chains vouch for."""
import importlib

from checks.c01 import history
from fsmon.keywatch import Quiet, Watch

LEVEL = "exploration"
RULE = ("(1) The histories of C01 (genuine and hostile chains presented one after the other to the same "
        "entity, some of them refused for their constraints only). Before and after every step the key "
        "jar's (owner, key thumbprint) set is read; the oracle compares the difference with what an "
        "independent verification of the chain says the chain vouches for. (2) The workloads of the "
        "checks of discovery, caching, trust marks, resolving, listing, walking, the federation "
        "client's requests, registration and logging in, with a monitor on every federation entity in "
        "the process: whenever a trust chain has been presented, and in the end, each holds exactly "
        "the keys it was configured with and those vouched for by the chains it has accepted. Distinct "
        "by (mutation, chain shape, verdict, history), or by workload and what was accepted and refused.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "signature primitives of cryptojwt/cryptography are trusted",
               "an entity's own keys are changed by the workloads and not part of (2)"]
REQUIRE = {"accepted": 200, "rejected": 400, "watched-accepted": 1500, "watched-refused": 300}

WORKLOADS = {"c08": ["one"], "c09": ["one"], "c11": ["one"], "c12": ["one"], "c15": ["one"],
             "c16": ["one"], "c17": ["one"], "c18": ["one"], "c19": ["one"], "c22": ["one"],
             "c23": ["one"], "c24": ["login"], "c25": ["chain"]}


def activity(case):
    name = case.rng.choice(sorted(WORKLOADS))
    mod = importlib.import_module("checks." + name)
    fn = getattr(mod, case.rng.choice(WORKLOADS[name]))
    with Watch(case) as watch:
        try:
            fn(Quiet(case))
        except Exception as err:      # decided by that check
            case.count(f"stopped:{name}:{type(err).__name__}")
        watch.finish()
    case.count("watched-accepted", watch.accepted)
    case.count("watched-refused", watch.refused)
    case.count("watched-looks", watch.looks)
    case.count("workload:" + name)
    case.observed((name, watch.accepted, watch.refused, case.rng.random()), watch.looks > 2,
                  sample={"workload": name, "accepted": watch.accepted, "refused": watch.refused,
                          "looked": watch.looks, "entities": len(watch.entities)})


def run(ctx):
    ctx.cases("keystore", 60, 600, lambda case: history(case, keystore=True))
    ctx.cases("activity", 120, 2000, activity)
