"""C09: what was collected before neither costs nor adds a trust chain."""
import json

from checks.c08 import JWTCT, _conn, _ssl, _status, _timeout, graph, simple_paths, sound_paths
from fsmon import ref
from fsmon.boot import clock
from fsmon.net import net
from fsmon.world import Node, World, make_fe, new_key, payload_of, pub, sign, unsigned

LEVEL = "fault_enumeration"
RULE = ("Histories on one federation entity over a random federation graph (several authorities per "
        "entity, several anchors, loops, tenants): collections for any entity, look-ups, single "
        "requests (entity configuration, entity statement), collections from a configuration that the "
        "entity, or somebody in its name, hands over, passages of time against independent "
        "lifetimes per statement, and outages (no answer, errors, garbage, expired, somebody else's "
        "or unsigned documents) that come and go. After every collection the set of issuer paths is "
        "compared with the simple hint paths of the graph: equal when nothing is out, and at least "
        "those not affected when something is. At the end a second, fresh entity has to find the "
        "same chains with the same metadata. Non-trivial: at least one earlier operation. Distinct by "
        "graph, history and result.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "wall-clock time is virtual (LD_PRELOAD interposer)",
               "entities do not change their keys or metadata during a history",
               "a statement that names the right entities and has not expired is cached even if its "
               "signature turns out to be bad: not counted as an outage that is over"]
REQUIRE = {"collected": 400, "chains": 400, "after-outage": 100, "during-outage": 100,
           "partly-cached": 200, "from-cache-only": 50, "single-requests": 200,
           "hostile-document": 100, "several-authorities": 200, "lapsed-statement": 100, "provided": 150,
           "provided:own": 15}


def ec_outages(rng, node, nodes):
    k = new_key(typ="EC")
    other = [n for n in nodes if ref.host(n.entity_id) != ref.host(node.entity_id)]
    past = clock.now() - 5000
    res = {
        "conn": _conn, "timeout": _timeout, "ssl": _ssl, "404": _status(404),
        "503": _status(503, "x"), "html": _status(200, "<html>", "text/html"),
        "empty": _status(200, "", JWTCT),
        "wrong-key": (lambda ev, nd: (200, nd.ec(key=k), JWTCT)),
        "unsigned": (lambda ev, nd: (200, unsigned(nd.ec_payload()), JWTCT)),
        "json": (lambda ev, nd: (200, json.dumps(nd.ec_payload()), "application/json")),
        "expired": (lambda ev, nd: (200, nd.ec(iat=past - 100, exp=past), JWTCT)),
    }
    if other:
        o = rng.choice(other)
        res["other-ec"] = lambda ev, nd: (200, o.ec(), JWTCT)
        # claims to be somebody else, with its own keys
        res["pose"] = lambda ev, nd: (200, sign({
            **o.ec_payload(), "jwks": nd.jwks(),
            "metadata": {"federation_entity": {
                "federation_fetch_endpoint": nd.entity_id + "/evil"}}}, nd.key), JWTCT)
        res["pose-json"] = lambda ev, nd: (200, json.dumps({
            **o.ec_payload(), "authority_hints": [], "metadata": {"federation_entity": {}}}),
            "application/json")
    return res


def es_outages(rng, node, sub, nodes):
    past = clock.now() - 5000
    o = rng.choice(nodes)
    return {
        "conn": _conn, "timeout": _timeout, "404": _status(404), "500": _status(500, "x"),
        "html": _status(200, "<html>", "text/html"), "empty": _status(200, "", JWTCT),
        "wrong-sub": lambda ev, nd: (200, sign({**nd.es_payload(sub),
                                                "sub": "https://mallory.example"}, nd.key), JWTCT),
        "about-me": lambda ev, nd: (200, nd.ec(), JWTCT),
        "other-ec": lambda ev, nd: (200, (o if o.entity_id != sub else nd).ec(), JWTCT),
        "wrong-iss": lambda ev, nd: (200, nd.es(sub, iss="https://mallory.example"), JWTCT),
        "expired": lambda ev, nd: (200, nd.es(sub, iat=past - 100, exp=past), JWTCT),
    }


def one(case, faults=True, slow=False):
    from fedservice.entity.function import get_verified_trust_chains
    rng = case.rng
    while True:
        nodes, tas, leaf = graph(rng)
        if simple_paths(leaf, {n.entity_id: n for n in nodes}, tas) or rng.random() < .1:
            break
    by_id = {n.entity_id: n for n in nodes}

    def lifetime():
        return rng.choice([86400, 86400, rng.randint(2, 290), rng.randint(301, 2000),
                           rng.randint(301, 20000)])
    for n in nodes:
        n.ec_lifetime = lifetime()
        for s in n.subs:
            n.es_lifetimes[s] = lifetime()
            if rng.random() < .2:
                n.subs[s]["metadata_policy"] = {
                    "federation_entity": {"contacts": {"add": [f"noc@{ref.host(n.entity_id)}"]}}}
    w = World()
    for n in nodes:
        w.add(n)
    w.attach(200_000)
    anchors = {t.entity_id: t.jwks() for t in tas}
    fe = make_fe(anchors=anchors)
    collector = fe.function.trust_chain_collector
    out = {}            # ("ec", id) or ("es", id, sub) -> kind
    log = []
    had_outage = False
    mallory = new_key(typ="EC")
    multi = any(len(n.authority_hints) > 1 for n in nodes)
    shape = tuple((n.entity_id, tuple(n.authority_hints), n.ec_lifetime,
                   tuple(n.es_lifetimes.items())) for n in nodes)

    def bad():
        bad_ec, bad_es = set(), set()
        for k, kind in out.items():
            if k[0] == "ec":
                bad_ec.add(k[1])
                if kind in ("conn", "timeout", "ssl") and k[1].count("/") == 2:
                    bad_ec |= {n for n in by_id if n.startswith(k[1] + "/")}
            else:
                bad_es.add(k[1:])
        return bad_ec, bad_es

    def what(extra=""):
        return (f"{extra}\nhistory {log}\nout {out}\nanchors {sorted(anchors)}\n"
                + "\n".join(f"  {s}" for s in shape))

    def outages():
        nonlocal had_outage
        had_outage = True
        for _ in range(rng.randint(1, 3)):
            nd = rng.choice(nodes)
            if rng.random() < .5 or not nd.subs:
                k = ("ec", nd.entity_id)
                kind, f = rng.choice(sorted(ec_outages(rng, nd, nodes).items()))
            else:
                s = rng.choice(sorted(nd.subs))
                k = ("es", nd.entity_id, s)
                kind, f = rng.choice(sorted(es_outages(rng, nd, s, nodes).items()))
            w.faults[k] = f
            out[k] = kind
            if kind in ("pose", "pose-json", "other-ec", "wrong-sub", "about-me", "wrong-iss",
                        "unsigned", "json", "wrong-key"):
                case.count("hostile-document")

    horizon = [n.ec_lifetime for n in nodes] + [x for n in nodes for x in n.es_lifetimes.values()]
    seen_exp = {}
    last = rng.randint(6, 12)
    for step in range(last + 1):
        r = rng.random()
        if step == last:
            out.clear()
            w.faults.clear()
            log.append("all up")
        elif r < (.5 if slow else .3):
            dt = rng.choice([1, rng.randint(1, 600), max(1, rng.choice(horizon) +
                                                        rng.choice([-301, -299, -1, 1, 20]))])
            clock.advance(dt)
            log.append(f"+{dt}")
        elif r < .55 and faults:
            if out and rng.random() < .6:
                out.clear()
                w.faults.clear()
                log.append("all up")
            else:
                outages()
                log.append(f"out {sorted(out.items())}")
        # an operation
        target = leaf if step == last or rng.random() < .5 else rng.choice(nodes)
        op = "chains" if step == last or rng.random() < .5 else rng.choice(
            ["get_trust_chains", "metadata", "collector-metadata", "ec", "ec", "es", "es", "provided"])
        log.append(f"{op} {target.entity_id}")
        n0 = len(net.log)
        if op != "chains":
            try:
                if op == "get_trust_chains":
                    got = fe.get_trust_chains(target.entity_id)
                    if target not in tas:
                        b = bad()
                        lower = sound_paths(case, nodes, tas, target, *b)
                        if lower:
                            case.check(bool(got), "chain-lost:get_trust_chains", lambda: what(
                                f"expected some of {sorted(lower)}"))
                        upper = sound_paths(case, nodes, tas, target, (), ())
                        case.check({tuple(t.iss_path) for t in got} <= upper,
                                   "chain-added:get_trust_chains", lambda: what(
                                       f"{[t.iss_path for t in got]}"))
                elif op == "metadata":
                    fe.get_verified_metadata(target.entity_id)
                elif op == "provided":
                    # the entity, or somebody who says so, hands over a configuration
                    case.count("provided")
                    from fedservice.entity.function import (apply_policies, collect_trust_chains,
                                                            verify_trust_chains)
                    kind = rng.choice(["own", "other-key", "other-hints", "signed-by-other"])
                    p = target.ec_payload()
                    k = mallory if kind in ("other-key", "signed-by-other") else target.key
                    if kind == "other-key":
                        p["jwks"] = {"keys": [pub(k)]}
                        p["metadata"] = {"federation_entity": {
                            "federation_fetch_endpoint": "https://mallory.example/fetch"}}
                    if kind == "other-hints" or kind == "other-key" and rng.random() < .5:
                        p["authority_hints"] = [rng.choice(nodes).entity_id]
                    log.append(kind)
                    cs, ec = collect_trust_chains(fe, target.entity_id,
                                                  signed_entity_configuration=sign(p, k))
                    got = apply_policies(fe, verify_trust_chains(fe, cs, ec))
                    case.count("provided:" + kind, len(got))
                    case.check(kind in ("own", "other-hints") or not got or target in tas,
                               "chain-added:provided", lambda: what(str([t.iss_path for t in got])))
                elif op == "collector-metadata":
                    collector.get_metadata(target.entity_id)
                elif op == "ec":
                    case.count("single-requests")
                    r = fe.do_request("entity_configuration", entity_id=target.entity_id)
                    if "error" not in r:
                        case.check(r["iss"] == r["sub"] == target.entity_id,
                                   "request-configuration-of-another", lambda: what(str(r)[:500]))
                else:
                    case.count("single-requests")
                    sups = [n for n in nodes if target.entity_id in n.subs]
                    if sups:
                        s = rng.choice(sups)
                        fe.do_request("entity_statement", issuer=s.entity_id,
                                      subject=target.entity_id)
            except Exception as e:
                log.append(type(e).__name__)
            continue
        b = bad()
        try:
            chains = get_verified_trust_chains(fe, target.entity_id)
        except Exception as e:
            chains = []
            log.append(type(e).__name__)
        found = {tuple(t.iss_path) for t in chains}
        upper = sound_paths(case, nodes, tas, target, (), ())
        lower = sound_paths(case, nodes, tas, target, *b) if out else upper
        fetched = len(net.log) - n0
        case.count("collected")
        case.count("chains", len(found))
        case.count("several-authorities", int(multi))
        if out:
            case.count("during-outage")
        elif had_outage:
            case.count("after-outage")
        if found:
            case.count("from-cache-only", int(fetched == 0))
            case.count("partly-cached", int(0 < fetched < len({x for p in found for x in p})))
        if any(e < clock.now() for e in seen_exp.values()):
            case.count("lapsed-statement")
        for t in chains:
            for st in t.verified_chain:
                seen_exp[(st["iss"], st["sub"])] = st["exp"]
        case.observed((shape, tuple(log), tuple(sorted(found))), step > 0,
                      sample={"history": log, "found": sorted(found)})
        lost, added = lower - found, found - upper
        # who was asked for what, when something is wrong
        case.check(not lost, "chain-lost:" + ("outage" if out else "after-outage" if had_outage
                                              else "time"),
                   lambda: what(f"step {step}: lost {sorted(lost)}; found {sorted(found)}; "
                                f"requests {[(e.url, e.status) for e in net.log[n0:]]}"))
        case.check(not added, "chain-added", lambda: what(f"step {step}: added {sorted(added)}"))
        if case.failed:
            return
    # the fresh one
    fe2 = make_fe("https://other.example.org", anchors=anchors)
    cold = {tuple(t.iss_path): t.metadata for t in get_verified_trust_chains(fe2, leaf.entity_id)}
    warm = {tuple(t.iss_path): t.metadata for t in chains}
    case.check(cold == warm, "differs-from-fresh", lambda: what(f"cold {cold}\nwarm {warm}"))


def run(ctx):
    ctx.cases("history", 90, 3000, one)
    ctx.cases("time", 40, 1500, lambda c: one(c, faults=False, slow=True))
