"""C19: which trust chain is used when there are several."""
import json

from checks.c08 import simple_paths
from fsmon.boot import clock
from fsmon.combos import _combo, rp_config
from fsmon.net import net
from fsmon.world import (ALL_SERVICES, Node, World, key_set, make_fe, new_key, pub, sign, thumb)

LEVEL = "exploration"
RULE = ("Random federations with 1-4 trust anchors of which some are trusted, where every superior "
        "leaves its mark on the metadata by way of a policy, so that what is used tells which chain "
        "it came from. Histories of: collecting, picking, saving, finding again, exporting chains; "
        "asking for verified metadata and endpoints; listing; and letting a stand-alone client find "
        "its provider, while priorities change, statements expire and endpoints fail. The oracle "
        "knows all sound paths and the priority list. "
        "Distinct = (federation, priority, operation, outcome).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "with more than one chain to the trust anchor of choice, any of them will do where chains are "
    "picked from a list",
    "a stored trust chain is used until it expires; chains saved by an application are kept as they are",
]
REQUIRE = {"op:collect": 400, "op:pick": 400, "op:stored": 300, "op:export": 200, "op:metadata": 300,
           "op:endpoint": 300, "op:list": 150, "op:anchor-endpoint": 150, "op:provider": 200,
           "several-chains": 300, "several-anchors": 200, "priority-matters": 150, "no-chain": 60,
           "expired-in-between": 60, "provider:found": 60, "provider:other-issuer": 30,
           "provider:none": 20, "anchor:bad": 40, "reused": 60, "recollected": 60}

TAS = ["https://ta1.org", "https://ta1.org:8443", "https://ta1.org.net", "https://ta4.io"]
IMS = ["https://im1.org", "https://im2.net", "https://im3.com/x"]
SUB = "https://sub.subject.org"
VICTIM = "https://victim.org"


def mark(sup, top):
    p = {"contacts": {"add": [sup]}}
    pol = {"openid_provider": dict(p), "federation_entity": dict(p)}
    if top:
        pol["federation_entity"]["federation_list_endpoint"] = {"value": sup + "/list-proxy"}
    return pol


def federation(rng):
    tas = [Node(t, key_types=("EC",)) for t in TAS[:rng.choice([1, 2, 2, 3, 3, 4])]]
    ims = [Node(t, key_types=("EC",)) for t in IMS[:rng.choice([0, 1, 2, 2, 3])]]
    sub = Node(SUB, key_types=("EC",))
    if len(tas) > 1 and rng.random() < .4:      # an anchor below another
        lower, upper = rng.sample(tas, 2)
        lower.authority_hints.append(upper.entity_id)
        upper.add_sub(lower, metadata_policy=mark(upper.entity_id, False))
    for i, n in enumerate(ims + [sub]):
        pool = tas + ims[:i]
        for s in rng.sample(pool, min(len(pool), rng.choice([1, 2, 2, 3]))):
            n.authority_hints.append(s.entity_id)
            s.add_sub(n, metadata_policy=mark(s.entity_id, s in tas))
    for n in tas + ims:
        n.metadata = {"federation_entity": {
            "organization_name": n.entity_id, "contacts": [n.entity_id],
            "federation_list_endpoint": n.entity_id + "/list"}}
    op_key = new_key(typ="EC")
    sub.metadata = {
        "federation_entity": {"organization_name": "v0", "contacts": [SUB],
                              "federation_list_endpoint": SUB + "/list"},
        "openid_provider": {
            "issuer": SUB, "authorization_endpoint": SUB + "/auth", "token_endpoint": SUB + "/tok",
            "federation_registration_endpoint": SUB + "/reg",
            "client_registration_types_supported": ["automatic", "explicit"],
            "response_types_supported": ["code"], "subject_types_supported": ["public"],
            "id_token_signing_alg_values_supported": ["ES256"],
            "contacts": [SUB], "jwks": {"keys": [pub(op_key)]}}}
    return tas, ims, sub, op_key


def stand_alone(anchors):
    from fedservice.defaults import DEFAULT_OIDC_FED_SERVICES
    import copy
    eid = "https://rp.me.org"
    return _combo(eid, {"openid_relying_party": {
        "class": "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
        "kwargs": {"config": rp_config(eid), "services": copy.deepcopy(DEFAULT_OIDC_FED_SERVICES)}}},
        anchors=anchors, services=ALL_SERVICES)


def sup_set(path):
    return {n.entity_id for n in path[1:]}


def one(case):
    from fedservice import get_trust_chain, save_trust_chains
    from fedservice.entity.function import (collect_trust_chains, get_entity_endpoint,
                                            get_verified_trust_chains,
                                            verify_provided_trust_chain)
    from fedservice.entity.function.trust_anchor import get_verified_endpoint
    rng = case.rng
    tas, ims, sub, op_key = federation(rng)
    nodes = tas + ims + [sub]
    by_id = {n.entity_id: n for n in nodes}
    trusted = [t for t in tas if rng.random() < .8] or ([tas[0]] if rng.random() < .8 else [])
    # the shortest-lived statement of a chain decides
    for n in nodes:
        if rng.random() < .3:
            n.ec_lifetime = rng.choice([600, 1200, 5000])
        for s in n.subs:
            if rng.random() < .25:
                n.es_lifetimes[s] = rng.choice([700, 1500, 6000])
    w = World()
    for n in nodes:
        w.add(n)
    bad = set()
    past = clock.now() - 4000
    for n in nodes:
        for s in sorted(n.subs):
            if rng.random() < .1:
                kind = rng.choice(["404", "expired", "conflict"])
                bad.add((n.entity_id, s))
                if kind == "404":
                    f = lambda ev, nd: (404, "{}", "application/json")
                elif kind == "expired":
                    f = lambda ev, nd, s=s: (200, nd.es(s, iat=past - 10, exp=past), "x")
                else:
                    f = lambda ev, nd, s=s: (200, nd.es(s, metadata_policy={
                        "federation_entity": {"organization_name": {"one_of": ["nope"]}}}), "x")
                w.faults[("es", n.entity_id, s)] = f
    # every node answers listings
    def lister(eid, url):
        def f(ev):
            return 200, json.dumps([eid + "/answer", url]), "application/json"
        return f
    for n in nodes:
        for url in [n.entity_id + "/list", n.entity_id + "/list-proxy"]:
            w.extra[url] = lister(n.entity_id, url)
    w.attach(budget=20000)
    jwks = {t.entity_id: t.jwks() for t in trusted}
    fe = make_fe("https://me.me.org", anchors=jwks)
    other = make_fe("https://you.you.org", anchors=jwks)

    def sound(node):
        res = []
        for path in simple_paths(node, by_id, trusted):
            if all((b.entity_id, a.entity_id) not in bad for a, b in zip(path, path[1:])):
                res.append(path)
        return res

    def ids(paths):
        return {tuple(n.entity_id for n in p) for p in paths}

    def rank(anchors, prio):
        for p in prio:
            if p in anchors:
                return {p}
        return set(anchors)

    prio = []
    desc = {"hints": {n.entity_id: n.authority_hints for n in nodes}, "bad": sorted(bad),
            "trusted": [t.entity_id for t in trusted]}

    def what(extra=""):
        return f"{json.dumps(desc)} priority={prio} {extra}"

    def of_path(md, etype, node, paths):
        """Is that the metadata along one of these paths?"""
        got = set(md.get(etype, {}).get("contacts", []))
        return any(got == {node.entity_id} | sup_set(p) for p in paths)

    saved = {}
    for _ in range(rng.randint(5, 9)):
        op = rng.choice(["collect", "collect", "pick", "pick", "stored", "export", "metadata",
                         "endpoint", "list", "anchor-endpoint", "provider", "time", "priority"])
        if op == "time":
            clock.advance(rng.choice([100, 500, 900, 2000, 7000, 90000]))
            case.count("expired-in-between")
            continue
        if op == "priority":
            prio = rng.sample(TAS, rng.randint(0, 4))
            fe.context.tr_priority = list(prio)
            continue
        case.count("op:" + op)
        node = rng.choice([sub, sub] + ims) if ims else sub
        paths = sound(node)
        want = ids(paths)
        case.count("no-chain", int(not want))
        case.count("several-chains", int(len(want) > 1))
        anchors = {p[-1] for p in want}
        case.count("several-anchors", int(len(anchors) > 1))
        best = rank(anchors, prio)
        case.count("priority-matters", int(len(anchors) > 1 and len(best) == 1))
        etype = "openid_provider" if node is sub else "federation_entity"
        now = clock.now()
        if op == "collect":
            n0, had = len(net.log), [tc for tc in fe.trust_chain.get(node.entity_id, [])
                                     if tc.exp >= now]
            tcs = fe.get_trust_chains(node.entity_id)
            got = {tuple(tc.iss_path) for tc in tcs}
            case.check(got <= want, "unsound", lambda: what(f"{got} {want}"))
            case.check(bool(got) == bool(want), "none-or-some", lambda: what(f"{got} {want}"))
            if not had:
                case.check(got == want, "not-all", lambda: what(f"{got} {want}"))
                case.count("recollected")
            else:
                case.count("reused")
                case.check(len(net.log) == n0, "collected-again", lambda: what(str(net.log[n0:])))
                case.check(got == {tuple(tc.iss_path) for tc in had}, "not-the-stored",
                           lambda: what())
            for tc in tcs:
                case.check(tc.exp >= now and not tc.is_expired(), "expired", lambda: what(str(tc.exp)))
                case.check(tc.anchor == tc.iss_path[-1], "anchor", lambda: what())
                case.check(of_path(tc.metadata, etype, node, [[by_id[i] for i in tc.iss_path]]),
                           "metadata-of-another-path",
                           lambda: what(f"{tc.iss_path} {tc.metadata}"))
            out = sorted(got)
        elif op == "pick":
            tcs = list(get_verified_trust_chains(fe, node.entity_id))
            rng.shuffle(tcs)
            tcs = tcs[:rng.randint(1, 6)]
            if not tcs:
                case.observed((str(desc), op, "none"), False)
                continue
            tc = fe.pick_trust_chain(tcs)
            out = tc.anchor
            case.check(any(tc is t for t in tcs), "picked-other", lambda: what())
            allowed = rank({t.anchor for t in tcs}, prio)
            case.check(tc.anchor in allowed, "priority", lambda: what(
                f"picked {tc.anchor} of {[t.anchor for t in tcs]}"))
        elif op == "stored":
            ctx = fe.context
            if rng.random() < .7:
                tcs = list(get_verified_trust_chains(fe, node.entity_id))
                rng.shuffle(tcs)
                if rng.random() < .3:
                    tcs = tcs[:2]
                save_trust_chains(ctx, tcs)
                if tcs:
                    s = saved.setdefault(node.entity_id, {})
                    for a in {t.anchor for t in tcs}:
                        n = min(len(t.iss_path) for t in tcs if t.anchor == a)
                        s[a] = [t for t in tcs if t.anchor == a and len(t.iss_path) == n]
            s = saved.get(node.entity_id)
            out = sorted(s or {})
            for a in TAS:
                tc = get_trust_chain(ctx, node.entity_id, a)
                if s and a in s:
                    case.check(any(tc is t for t in s[a]), "saved", lambda: what(f"{a} {tc}"))
                else:
                    case.check(tc is None, "found-unsaved", lambda: what(f"{a} {tc}"))
            al = get_trust_chain(ctx, node.entity_id)
            case.check(set(al or {}) == set(s or {}), "saved-all", lambda: what(f"{al} {s}"))
            case.check(get_trust_chain(ctx, "https://unknown.org") is None, "unknown", lambda: what())
            if s:
                tc = fe.pick_from_stored_trust_chains(node.entity_id)
                ok = rank(set(s), prio)
                case.check(any(tc is t for a in ok for t in s[a]), "stored-priority",
                           lambda: what(f"{getattr(tc, 'anchor', tc)} of {sorted(s)}"))
        elif op == "export":
            tcs = get_verified_trust_chains(fe, node.entity_id)
            if not tcs:
                case.observed((str(desc), op, "none"), False)
                continue
            tc = rng.choice(tcs)
            before = list(tc.chain), list(tc.verified_chain)
            ex = tc.export_chain()
            case.check((tc.chain, tc.verified_chain) == before, "export-changes", lambda: what())
            res = verify_provided_trust_chain(other, node.entity_id, json.loads(json.dumps(ex)))
            out = tc.iss_path
            case.check([r.iss_path for r in res] == [tc.iss_path] and
                       res[0].metadata == tc.metadata,
                       "export", lambda: what(
                           f"{tc.iss_path} {ex} {[r.iss_path for r in res]}"))
        elif op == "metadata":
            md = fe.get_verified_metadata(node.entity_id)
            out = bool(md)
            case.check(bool(md) == bool(want), "metadata-none", lambda: what(f"{md} {want}"))
            if md:
                case.check(of_path(md, etype, node, paths), "metadata-path", lambda: what(f"{md}"))
                fm = fe.get_federation_entity_metadata(node.entity_id)
                case.check(of_path({"federation_entity": fm}, "federation_entity", node, paths),
                           "fe-metadata-path", lambda: what(f"{fm}"))
            else:
                case.check(not fe.get_federation_entity_metadata(node.entity_id), "fe-metadata-none",
                           lambda: what())
        elif op in ("endpoint", "list"):
            # the anchors' say, where one is below another the lower one's
            proxy = lambda p: next(n.entity_id for n in p[1:] if n in tas) + "/list-proxy"
            ok = {proxy(p) for p in paths if p[-1].entity_id in best}
            n0 = len(net.log)
            try:
                if op == "list":
                    res = fe.client.do_request("list", entity_id=node.entity_id)
                    got = res[1] if res else None
                    asked = [e.url for e in net.log[n0:] if "/list" in e.path]
                    case.check(all(u in ok for u in asked), "list-asked",
                               lambda: what(f"{asked} {ok}"))
                else:
                    got = get_verified_endpoint(fe, node.entity_id, "federation_list_endpoint")
                    anyof = {proxy(p) for p in paths}
                    g2 = get_entity_endpoint(fe, node.entity_id, "federation_entity",
                                             "federation_list_endpoint")
                    case.check((g2 in anyof) if anyof else not g2, "entity-endpoint",
                               lambda: what(f"{g2} {anyof}"))
                    g3 = get_verified_endpoint(fe, node.entity_id, "federation_no_such_endpoint")
                    case.check(g3 is None, "no-such-endpoint", lambda: what(f"{g3}"))
            except AttributeError as e:
                if op != "list" or want:
                    raise
                got = None
            out = got
            case.check((got in ok) if want else got is None, op, lambda: what(f"{got} {ok}"))
        elif op == "anchor-endpoint":
            if not trusted:
                continue
            ta = rng.choice(trusted)
            kind = rng.choice(["ok", "ok", "expired", "forged", "stranger"])
            evil = {"federation_entity": {"federation_list_endpoint": "https://evil.org/list"}}
            if kind != "ok":
                k = new_key(typ="EC")
                ims_ec = sub.ec(metadata=evil)
                w.faults[("ec", ta.entity_id)] = {
                    "expired": lambda ev, nd: (200, nd.ec(metadata=evil, exp=now - 1000), "x"),
                    "forged": lambda ev, nd: (200, nd.ec(key=k, metadata=evil,
                                                        headers={"kid": nd.key.kid}), "x"),
                    "stranger": lambda ev, nd: (200, ims_ec, "x")}[kind]
                case.count("anchor:bad")
            got, n0 = None, len(net.log)
            try:
                how = rng.choice(["verified", "entity", "list"])
                if how == "verified":
                    got = get_verified_endpoint(fe, ta.entity_id, "federation_list_endpoint")
                elif how == "entity":
                    got = get_entity_endpoint(fe, ta.entity_id, "federation_entity",
                                              "federation_list_endpoint")
                else:
                    fe.client.do_request("list", entity_id=ta.entity_id)
                    got = ([e.url for e in net.log[n0:] if "/list" in e.path] or [None])[0]
            except Exception:
                if kind == "ok":
                    raise
            w.faults.pop(("ec", ta.entity_id), None)
            out = kind, how
            if kind == "ok":
                case.check(got == ta.entity_id + "/list", "anchor-endpoint", lambda: what(f"{got}"))
            else:
                case.check(not got, "bad-anchor-endpoint", lambda: what(f"{kind} {how} {got}"))
        else:
            paths = sound(sub)
            want = ids(paths)
            best = rank({p[-1] for p in want}, prio)
            rp = stand_alone(jwks)
            rfe, cl = rp["federation_entity"], rp["openid_relying_party"]
            rfe.context.tr_priority = list(prio)
            other_iss = rng.random() < .3
            how = rng.choice(["issuer", "info"])
            if how == "issuer":
                cl.context.issuer = SUB
            else:
                cl.context.provider_info = {"issuer": SUB}
            own = sub.metadata["openid_provider"]["issuer"]
            if other_iss:
                sub.metadata["openid_provider"]["issuer"] = VICTIM
            k0 = key_set(cl.context.keyjar)
            err = None
            try:
                res = cl.do_provider_info()
            except Exception as e:
                res, err = None, e
            sub.metadata["openid_provider"]["issuer"] = own
            new = key_set(cl.context.keyjar) - k0
            ext = what(f"{how} other={other_iss} {err!r} {res}")
            if other_iss or not want:
                case.count("provider:other-issuer" if other_iss and want else "provider:none")
                out = "refused"
                case.check(err is not None, "provider-accepted", lambda: ext)
                case.check(not new and len(cl.context.provider_info or {}) <= 1, "provider-traces",
                           lambda: f"{ext} {new} {cl.context.provider_info}")
            else:
                case.count("provider:found")
                pi = cl.context.provider_info
                out = sorted(pi.get("contacts", []))
                case.check(err is None and res == SUB, "provider", lambda: ext)
                bestp = [p for p in paths if p[-1].entity_id in best]
                case.check(of_path({"openid_provider": pi}, "openid_provider", sub, bestp),
                           "provider-priority", lambda: f"{ext} {pi}")
                case.check(new == {(SUB, thumb(pub(op_key)))}, "provider-keys",
                           lambda: f"{ext} {new}")
                tc = cl.pick_from_stored_trust_chains(SUB, rfe)
                case.check(tc.anchor in best and tuple(tc.iss_path) in want, "provider-stored",
                           lambda: f"{ext} {tc.iss_path}")
                tc = rfe.pick_from_stored_trust_chains(SUB)
                case.check(getattr(tc, "anchor", None) in best, "provider-stored-fe", lambda: ext)
        case.observed((str(desc), str(prio), op, str(out)), bool(want), sample=out)


def run(ctx):
    ctx.cases("history", 110, 2500, one)
