"""C12: what a resolver answers rests on a verified trust chain."""
import copy
import json

from checks.c06 import LISTS, SINGLES, _same, compatible_ops, for_type, random_ops, universe
from checks.c08 import ec_faults, es_faults, graph, sound_paths
from fsmon import polref, ref
from fsmon.boot import clock
from fsmon.net import RequestBudgetExceeded
from fsmon.serve import Site, call
from fsmon.world import make_fe, payload_of

LEVEL = "exploration"
RULE = ("distinct = (federation graph, faults, anchor and subject asked for, entity type asked for, "
        "outcome)")
ASSUMPTIONS = [
    "the policies of the federation stay the same during a case",
    "which of several sound trust chains to the trust anchor is used is the resolver's choice",
    "the oracle for policies is that of C06 and C07",
]
REQUIRE = {"resolved": 800, "refused-anchor": 200, "refused-chain": 150, "refused-type": 100,
           "with-type": 300, "policy-applied": 400, "policy-refused": 20, "several-chains": 150,
           "short-lived": 100, "later": 300, "with-fault": 200}

ME = "https://resolver.me.org"
RP = "openid_relying_party"


def policies(rng, nodes, leaf):
    target, own = {}, {}
    for c in LISTS + SINGLES:
        univ = universe(c)
        target[c] = rng.sample(univ, rng.randint(1, 3)) if c in LISTS else rng.choice(univ)
        if rng.random() < .6:
            own[c] = copy.deepcopy(target[c])
    leaf.metadata[RP] = own
    if not own:
        own["client_name"] = target["client_name"]
    wild = rng.random() < .2
    for nd in nodes:
        for sub in nd.subs.values():
            if rng.random() < .5:
                continue
            pol, md = {}, {}
            for c in rng.sample(LISTS + SINGLES, rng.randint(1, 3)):
                if rng.random() < .15:
                    md[c] = copy.deepcopy(target[c])
                elif wild and rng.random() < .3:
                    pol[c] = random_ops(rng, c in LISTS, universe(c))
                else:
                    pol[c] = compatible_ops(rng, c in LISTS, universe(c), target[c])
            if pol:
                sub["metadata_policy"] = {RP: pol}
            if md:
                sub["metadata"] = {RP: md}


def verdict_of(payloads):
    """payloads: trust anchor's statement first, the subject's configuration last."""
    own = payloads[-1].get("metadata") or {}
    sups = [{k: p.get(k) or {} for k in ("metadata_policy", "metadata")}
            for p in payloads[:-1] if p["iss"] != p["sub"]]
    overall, res = "accept", {}
    for t in own:
        v, md = polref.verdict(for_type(sups, t), own[t])
        if v == "refuse":
            return "refuse", None
        if v == "may":
            overall = "may"
        res[t] = md
    # metadata set by a superior for a type the entity doesn't have: not claimed
    return overall, res


def one(case):
    rng = case.rng
    nodes, tas, leaf = graph(rng)
    site = Site()
    for n in nodes:
        site.add(n)
        if rng.random() < .25:
            n.ec_lifetime = rng.choice([30, 400, 2000])
        if rng.random() < .25:
            n.es_lifetime = rng.choice([30, 400, 2000])
    policies(rng, nodes, leaf)
    bad_ec, bad_es, faults = set(), set(), []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        nd = rng.choice(nodes[:-1] or nodes)
        if rng.random() < .5 and ("ec", nd.entity_id) not in site.faults:
            kind = rng.choice(["404", "wrong-key", "html", "expired", "unsigned"])
            site.faults[("ec", nd.entity_id)] = ec_faults(rng, site, nd, nodes)[kind]
            bad_ec.add(nd.entity_id)
            faults.append((kind, nd.entity_id))
        elif nd.subs:
            sub = rng.choice(sorted(nd.subs))
            if ("es", nd.entity_id, sub) in site.faults:
                continue
            kind = rng.choice(["404", "wrong-key", "wrong-sub", "expired", "other-keys", "unsigned"])
            site.faults[("es", nd.entity_id, sub)] = es_faults(rng, site, nd, sub, nodes)[kind]
            bad_es.add((nd.entity_id, sub))
            faults.append((kind, nd.entity_id, sub))
    site.attach(budget=30000)
    anchors = {t.entity_id: t.jwks() for t in tas}
    fe = make_fe(ME, anchors=anchors, endpoints=["entity_configuration", "resolve"])
    site.host(fe)
    keys = fe.keyjar.export_jwks()
    ep = fe.server.get_endpoint("resolve")
    by_id = {n.entity_id: n for n in nodes}
    desc = {"hints": {n.entity_id: n.authority_hints for n in nodes},
            "anchors": sorted(anchors), "faults": faults}
    for step in range(rng.randint(2, 5)):
        subject = leaf if rng.random() < .8 else rng.choice(nodes)
        anchor = rng.choice(sorted(anchors)) if rng.random() < .8 else \
            rng.choice([n.entity_id for n in nodes] + ["https://nobody.example"])
        typ = rng.choice([None, None, RP, "federation_entity", "openid_provider"])
        q = {"sub": subject.entity_id, "anchor": anchor}
        if typ:
            q["type"] = typ
        paths = [p for p in sound_paths(case, nodes, tas, subject, bad_ec, bad_es)
                 if p[-1] == anchor]
        verdicts = []
        for p in paths:
            ps = [by_id[s].es_payload(x) for x, s in zip(p, p[1:])][::-1]
            verdicts.append(verdict_of(ps + [subject.ec_payload()])[0])
        has_type = typ is None or typ in subject.ec_payload()["metadata"]
        must = "accept" in verdicts and has_type
        may = has_type and any(v != "refuse" for v in verdicts) and anchor in anchors
        if typ and not has_type and any("metadata" in s for n in nodes for s in n.subs.values()):
            may = may or (typ == RP and bool(verdicts))
        try:
            r = call(ep, q)
        except RequestBudgetExceeded:
            case.fail("does-not-terminate", str(desc))
            return
        what = lambda: f"{q} at step {step}: {r}\npaths {paths} {verdicts}\n{desc}"  # noqa
        case.observed((str(desc), subject.entity_id, anchor, typ, r.status),
                      sample={**desc, "asked": q, "status": r.status})
        if faults:
            case.count("with-fault")
        if step:
            case.count("later")
        if len(paths) > 1:
            case.count("several-chains")
        if not r.ok:
            case.check(not must, "not-resolved", what)
            case.count("refused-anchor" if anchor not in anchors else "refused-type"
                       if paths and not has_type else "refused-chain")
            if verdicts and set(verdicts) == {"refuse"}:
                case.count("policy-refused")
        else:
            if not case.check(may, "resolved", what):
                return
            case.count("resolved")
            if typ:
                case.count("with-type")
            answer(case, r.text, q, keys, anchors, paths, what)
        if case.failed:
            return
        if rng.random() < .5:
            clock.advance(rng.choice([5, 100, 500, 3000, 100000]))
            if rng.random() < .5:
                leaf.metadata[RP]["client_uri"] = f"https://x.example.org/{step}"


def answer(case, text, q, keys, anchors, paths, what):
    case.check(ref.signed_by(text, keys), "signature", what)
    p = payload_of(text)
    now = clock.now()
    case.check(p.get("iss") == ME and p.get("sub") == q["sub"] and p.get("iat") == now,
               "who-and-when", lambda: f"{p}\n{what()}")
    chain = p.get("trust_chain")
    if not case.check(isinstance(chain, list) and chain and
                      all(isinstance(c, str) for c in chain), "no-chain", lambda: f"{p}\n{what()}"):
        return
    ok, ps = ref.verify_chain(chain[::-1], {q["anchor"]: anchors.get(q["anchor"])}, now)
    if not case.check(ok, "chain", lambda: f"{ps}: {[payload_of(c) for c in chain]}\n{what()}"):
        return
    case.check(ps[-1]["sub"] == ps[-1]["iss"] == q["sub"], "chain-subject",
               lambda: f"{ps[-1]}\n{what()}")
    case.check(ps[0]["iss"] == q["anchor"] and tuple(x["iss"] for x in ps[::-1]) in
               {tuple(x) for x in paths}, "chain-path", lambda: f"{[x['iss'] for x in ps]}\n{what()}")
    end = min(x["exp"] for x in ps)
    case.check(now < p.get("exp", 0) <= end, "valid-too-long",
               lambda: f"now {now} exp {p.get('exp')} chain {end}\n{what()}")
    if end - now < 86400:
        case.count("short-lived")
    v, md = verdict_of(ps)
    if not case.check(v != "refuse", "policy-conflict", what):
        return
    if any(x.get("metadata_policy") for x in ps[:-1]):
        case.count("policy-applied")
    got = p.get("metadata")
    if not case.check(isinstance(got, dict), "no-metadata", what):
        return
    if "type" in q:
        case.check(set(got) == {q["type"]}, "type", lambda: f"{got}\n{what()}")
    if v == "accept":
        want = {t: m for t, m in md.items() if "type" not in q or t == q["type"]}
        got = {t: m for t, m in got.items() if t in want or t in (ps[-1].get("metadata") or {})}
        case.check(_same(got, want), "metadata",
                   lambda: f"{json.dumps(got)}\nwanted {json.dumps(want)}\n"
                           f"{json.dumps(ps, indent=1)}\n{what()}")


def run(ctx):
    ctx.cases("resolve", 130, 2500, one)
