"""C02: nothing is trusted past its expiry time."""
import copy

from checks import c09
from fsmon import ref
from fsmon.boot import clock
from fsmon.net import net
from fsmon.world import World, chain_down, line, make_fe, payload_of, sign

LEVEL = "exploration"
RULE = ("(chain) chains whose statements get random lifetimes are verified, and asked whether they "
        "are expired, at random times around every expiry; (stored) histories of look-ups "
        "(trust chains, verified metadata, collector metadata), clock advances, metadata changes and "
        "outages on one entity, with lifetimes from seconds to days; (cache) histories on the "
        "statement cache. Oracles: the expiry times in the statements that were actually served. "
        "Non-trivial: some statement has expired or is about to. Distinct by lifetimes and history.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "wall-clock time is virtual (LD_PRELOAD interposer)"]
REQUIRE = {"expired-refused": 200, "valid-accepted": 200, "looked-up-after-expiry": 200,
           "renewed": 150, "gone": 30, "cache-expired": 200, "cache-hit": 200, "lapsed-statement": 100,
           "odd-issue-time": 150}


def chain_case(case):
    rng = case.rng
    n = rng.randint(1, 4)
    ids = ["https://ta.example.org"] + [f"https://e{i}.example.org" for i in range(n)]
    nodes = line(ids, key_types=("EC",))
    span = rng.choice([10, 600, 100_000])
    for nd in nodes:
        nd.ec_lifetime = rng.randint(2, span)
        nd.es_lifetime = rng.randint(2, span)
    fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
    chain = chain_down(*nodes)
    if rng.random() < .4:
        chain = [nodes[0].ec()] + chain
    exps = [payload_of(c)["exp"] for c in chain]
    t0 = clock.now()
    odd = rng.random() < .25        # says nothing, or nonsense, on when it was issued
    if odd:
        i = rng.randrange(len(chain))
        p = payload_of(chain[i])
        p.pop("iat")
        if rng.random() < .7:
            p["iat"] = p["exp"] + rng.choice([-1, 0, 1, 10_000])
        chain[i] = sign(p, next(nd for nd in nodes if nd.entity_id == p["iss"]).key)
        case.count("odd-issue-time")
    times = sorted({t0} | {e + d for e in exps for d in (-1, 1, 2, 200, 400)} |
                   {rng.randint(t0, max(exps) + 10)})
    times = [t for t in times if t >= t0 and t not in exps]
    first = None
    for t in times:
        clock.set(t)
        valid = t < min(exps)
        try:
            tc = fe.function.verifier(list(chain))
        except Exception:
            tc = None
        case.observed((tuple(e - t0 for e in exps), t - t0), not valid or t > t0,
                      sample={"expires": [e - t0 for e in exps], "at": t - t0})
        case.count("valid-accepted" if valid else "expired-refused")
        case.check(bool(tc) == valid or odd and not tc, "expired-accepted" if tc else "valid-refused",
                   lambda: f"lifetimes {[e - t0 for e in exps]} at +{t - t0}")
        if tc:
            first = first or tc
            case.check(tc.exp == min(exps), "chain-expiry", lambda: f"{tc.exp} {exps}")
        if first:
            case.check(first.is_expired() == (not valid), "is-expired",
                       lambda: f"exp {first.exp - t0}, now +{t - t0}: {first.is_expired()}")


def stored_case(case):
    rng = case.rng
    n = rng.randint(1, 3)
    ids = ["https://ta.example.org"] + [f"https://e{i}.example.org" for i in range(n)]
    nodes = line(ids, key_types=("EC",))
    kind = rng.choice(["short", "mixed", "mixed", "long"])
    for nd in nodes:
        lt = {"short": lambda: rng.randint(2, 290), "long": lambda: rng.randint(1000, 200_000),
              "mixed": lambda: rng.choice([rng.randint(2, 290), rng.randint(301, 2000), 86400])}
        nd.ec_lifetime = lt[kind]()
        nd.es_lifetime = lt[kind]()
    leaf = nodes[-1]
    version = [0]
    leaf.metadata = {"federation_entity": {"organization_name": "v0"},
                     "openid_relying_party": {"client_name": "v0"}}
    versions = {}       # version -> latest expiry of a configuration that carried it
    w = World()
    for nd in nodes:
        w.add(nd)
    w.attach(100_000)
    fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
    down = False
    log = []
    seen_exp = None
    for step in range(rng.randint(6, 14)):
        r = rng.random()
        if r < .45:
            horizon = max([nd.ec_lifetime for nd in nodes] + [nd.es_lifetime for nd in nodes])
            dt = rng.choice([1, rng.randint(1, 600), rng.randint(1, horizon + 100),
                             leaf.ec_lifetime + rng.choice([-1, 1, 250, 310])])
            clock.advance(max(1, dt))
            log.append(f"+{dt}")
        elif r < .6:
            version[0] += 1
            leaf.metadata = {"federation_entity": {"organization_name": f"v{version[0]}"},
                             "openid_relying_party": {"client_name": f"v{version[0]}"}}
            log.append(f"v{version[0]}")
        elif r < .7:
            down = not down
            for nd in nodes:
                if down:
                    w.faults[("ec", nd.entity_id)] = lambda ev, x: (503, "", "text/plain")
                else:
                    w.faults.pop(("ec", nd.entity_id), None)
                for s in nd.subs:
                    if down:
                        w.faults[("es", nd.entity_id, s)] = lambda ev, x: (503, "", "text/plain")
                    else:
                        w.faults.pop(("es", nd.entity_id, s), None)
            log.append("down" if down else "up")
            continue
        op = rng.choice(["chains", "metadata", "fe-metadata", "collector"])
        log.append(op)
        n0, s0 = len(net.log), len(w.served)
        now = clock.now()
        md, tcs = None, None
        try:
            if op == "chains":
                tcs = fe.get_trust_chains(leaf.entity_id)
                md = tcs[0].metadata if tcs else None
            elif op == "metadata":
                md = fe.get_verified_metadata(leaf.entity_id)
            elif op == "fe-metadata":
                md = fe.get_federation_entity_metadata(leaf.entity_id)
                md = {"federation_entity": md} if md else None
            else:
                md = fe.function.trust_chain_collector.get_metadata(leaf.entity_id)
        except Exception as e:
            if not down:
                case.fail("look-up-failed", f"{e!r} at step {step}: {log}; lifetimes "
                          f"{[(nd.ec_lifetime, nd.es_lifetime) for nd in nodes]}")
                return
            md = None
        for s in w.served:
            if s[0] == "ec" and s[1] == leaf.entity_id:
                p = payload_of(s[2])
                v = p["metadata"]["federation_entity"]["organization_name"]
                versions[v] = max(versions.get(v, 0), p["exp"])
        w.served.clear()
        fetched = len(net.log) > n0
        lapsed = seen_exp is not None and seen_exp < now
        case.observed((kind, tuple(log)), lapsed, sample={
            "lifetimes": [(nd.ec_lifetime, nd.es_lifetime) for nd in nodes], "history": log})
        what = lambda: (f"step {step} {op} at {now}: {log}, lifetimes "
                        f"{[(nd.ec_lifetime, nd.es_lifetime) for nd in nodes]}, "
                        f"versions {versions}, metadata {md}")
        if lapsed:
            case.count("looked-up-after-expiry")
            case.count("renewed", int(md is not None))
            case.count("gone", int(md is None))
        if md is not None:
            v = md["federation_entity"]["organization_name"]
            if versions.get(v, 0) != now:
                case.check(versions.get(v, 0) >= now, "expired-metadata-used", what)
        elif not down:
            case.fail("valid-entity-refused", what())
        for tc in tcs or []:
            case.check(not tc.is_expired() and tc.exp >= now, "expired-chain-used", what)
            for st in tc.verified_chain:
                case.check(st["exp"] >= now, "expired-statement-used", what)
            seen_exp = tc.exp
        if tcs is None and md is not None and op != "collector":
            stored = fe.trust_chain.get(leaf.entity_id)
            if stored:
                seen_exp = min(tc.exp for tc in stored)
        if case.failed:
            return


def cache_case(case):
    from fedservice.entity_statement.cache import ESCache
    from fedservice.message import EntityStatement
    rng = case.rng
    delta = rng.choice([0, 1, 300, 300, 1000])
    c = ESCache(delta)
    model = {}
    log = []
    for step in range(rng.randint(5, 25)):
        k = rng.choice("abcd")
        r = rng.random()
        if r < .3:
            exp = clock.now() + rng.choice([1, 5, delta - 1, delta + 1, delta + 50, 5000])
            kind = rng.choice(["dict", "dict", "msg", "jws", "time"])
            if kind == "dict":
                v = {"exp": exp, "iss": k, "n": step}
            elif kind == "msg":
                v = EntityStatement(exp=exp, iss=k, sub=k, n=step)
            elif kind == "jws":
                v, exp = f"jws{step}", None
            else:
                v, exp = exp, None
            c[k] = v
            model[k] = (v, exp)
            log.append(f"set {k} {kind} {exp}")
            continue
        if r < .5:
            dt = rng.choice([1, 2, delta, delta + 1, rng.randint(1, 6000)]) or 1
            clock.advance(dt)
            log.append(f"+{dt}")
            continue
        live = k in model and (model[k][1] is None or clock.now() < model[k][1] - delta)
        if k in model and model[k][1] is not None and clock.now() == model[k][1] - delta:
            continue        # the very second: either answer will do
        op = rng.choice(["[]", "get", "in", "get-default", "del"])
        log.append(f"{op} {k}")
        case.observed((delta, tuple(log)), True, sample={"allowed_delta": delta, "history": log})
        what = lambda: f"allowed_delta {delta}, {op} {k}: got {got!r}; {log}"
        if k in model and not live:
            case.count("cache-expired")
        if live:
            case.count("cache-hit")
        if op == "in":
            got = k in c
            case.check(got == live, "cache-contains", what)
        elif op == "del":
            if not live:
                continue
            del c[k]
            model.pop(k)
            got = c[k]
            case.check(got is None and k not in c, "cache-delete", what)
        else:
            got = c[k] if op == "[]" else c.get(k) if op == "get" else c.get(k, "dflt")
            if live:
                case.check(got == model[k][0], "cache-lost", what)
            else:
                case.check(got == ("dflt" if op == "get-default" else None),
                           "cache-expired-entry", what)
        if case.failed:
            return


def run(ctx):
    ctx.cases("chain", 120, 3000, chain_case)
    ctx.cases("stored", 140, 4000, stored_case)
    ctx.cases("cache", 150, 5000, cache_case)
    ctx.cases("graph", 40, 1200, lambda c: c09.one(c, faults=False, slow=True))
