"""C08: discovery finds every trust chain there is, terminates, and isolates failures."""
import json

from fsmon import ref
from fsmon.boot import clock
from fsmon.net import RequestBudgetExceeded, net
from fsmon.world import Node, World, make_fe, new_key, pub, sign, unsigned

LEVEL = "fault_enumeration"
RULE = ("Random federation graphs (2-9 entities; several trusted and untrusted anchors, anchors with "
        "superiors, diamonds, loops, self references, unreachable hints, tenants on shared hosts) "
        "served over HTTP with faults injected at random endpoints (no connection, 4xx/5xx, HTML, "
        "empty body, statements by or about somebody else, bad signatures, expired or unparseable "
        "statements, conflicting policies). The oracle enumerates all simple hint paths whose "
        "documents are all sound and that end in a trusted anchor, and compares the set with the "
        "issuer paths of the chains found. The same for "
        "lines of up to 18 authorities, and when the entity provides its configuration itself. Non-trivial: at least one hint. Distinct by graph, "
        "faults and result.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "the network is in-process, below requests' transport adapter"]
REQUIRE = {"chains-found": 200, "cases-with-loop": 40, "cases-with-fault": 80,
           "valid-chain-beside-fault": 60, "fault-kinds": 12, "no-chain": 20, "deep": 25,
           "configuration-provided": 80}

HOSTS = ["a.example.org", "a.example.org:843", "a.example.org:844", "b.example.org", "c.example.net", "d.example.net", "e.example.com"]


def ids(rng, n):
    res = []
    while len(res) < n:
        h = rng.choice(HOSTS)
        e = f"https://{h}" + rng.choice(["", "", "/t1", "/t2", "/t1/x", "/T1"])
        if e not in res:
            res.append(e)
    return res


def graph(rng):
    names = ids(rng, rng.randint(2, 9))
    nodes = [Node(n, key_types=("EC",)) for n in names]
    nta = rng.choice([1, 1, 2])
    tas = nodes[:nta]
    density = rng.choice([.2, .35, .5])
    shape = rng.random()
    for i, nd in enumerate(nodes):
        sups = []
        if i >= nta:
            sups = [nodes[j] for j in range(i) if rng.random() < density]
            if not sups or rng.random() < .5:
                sups.append(nodes[rng.randrange(i)])
        elif rng.random() < .15 and len(nodes) > nta + 1:
            sups = [rng.choice(nodes)]          # an anchor with a superior
        if rng.random() < .18:
            sups.append(rng.choice(nodes))      # may make a loop, or point at itself
        rng.shuffle(sups)
        for s in dict.fromkeys(sups):
            nd.authority_hints.append(s.entity_id)
            s.add_sub(nd)
        if rng.random() < .1:
            nd.authority_hints.insert(rng.randint(0, len(nd.authority_hints)),
                                      "https://nowhere.example")
        nd.metadata.setdefault("federation_entity", {})["organization_name"] = f"org{i}"
    leaf = nodes[-1]
    leaf.metadata["openid_relying_party"] = {"client_name": "x", "contacts": ["a@b"]}
    return nodes, tas, leaf


# faults: (where, node, [sub]) -> reply; sound says whether the document can still be used

def _conn(ev, *a):
    from requests.exceptions import ConnectionError
    raise ConnectionError("down")


def _timeout(ev, *a):
    from requests.exceptions import ReadTimeout
    raise ReadTimeout("slow")


def _ssl(ev, *a):
    from requests.exceptions import SSLError
    raise SSLError("bad certificate")


def _status(code, body="{}", ctype="application/json"):
    return lambda ev, *a: (code, body, ctype)


JWTCT = "application/entity-statement+jwt"


def ec_faults(rng, w, node, nodes):
    other = rng.choice(nodes)
    k = new_key(typ="EC")
    past = clock.now() - 5000
    return {
        "conn": _conn, "timeout": _timeout, "ssl": _ssl, "404": _status(404), "500": _status(500, "x"),
        "401": _status(401), "html": _status(200, "<html>hello</html>", "text/html"),
        "empty": _status(200, "", JWTCT), "dots": _status(200, "a.b.c", JWTCT),
        "json": _status(200, json.dumps({"iss": node.entity_id}), JWTCT),
        "no-ctype": (lambda ev, nd: (200, "", None)),
        "wrong-entity": (lambda ev, nd: (200, (other if ref.host(other.entity_id) != ref.host(nd.entity_id) else Node(
            "https://mallory.example", keys=[k])).ec(), JWTCT)),
        "wrong-key": (lambda ev, nd: (200, nd.ec(key=k), JWTCT)),
        "unsigned": (lambda ev, nd: (200, unsigned(nd.ec_payload()), JWTCT)),
        "expired": (lambda ev, nd: (200, nd.ec(iat=past - 100, exp=past), JWTCT)),
        "no-jwks": (lambda ev, nd: (200, nd.ec(jwks=None), JWTCT)),
        # the entity's hints and endpoints, but of or about somebody else
        "mallory-iss": (lambda ev, nd: (200, nd.ec(key=k, iss="https://mallory.example",
                                                   jwks={"keys": [pub(k)]}), JWTCT)),
        "mallory-sub": (lambda ev, nd: (200, nd.ec(sub="https://mallory.example"), JWTCT)),
        "mallory": (lambda ev, nd: (200, nd.ec(key=k, iss="https://mallory.example",
                                               sub="https://mallory.example",
                                               jwks={"keys": [pub(k)]}), JWTCT)),
    }


def es_faults(rng, w, node, sub, nodes):
    other = rng.choice(nodes)
    k = new_key(typ="EC")
    past = clock.now() - 5000

    def wrong_sub(ev, nd):
        p = nd.es_payload(sub)
        p["sub"] = "https://mallory.example"
        return 200, sign(p, nd.key), JWTCT

    return {
        "conn": _conn, "timeout": _timeout, "404": _status(404), "500": _status(500, "x"),
        "html": _status(200, "<html>hello</html>", "text/html"),
        "empty": _status(200, "", JWTCT), "dots": _status(200, "a.b.c", JWTCT),
        "wrong-sub": wrong_sub,
        "wrong-iss": (lambda ev, nd: (200, nd.es(sub, iss="https://mallory.example"), JWTCT)),
        "wrong-key": (lambda ev, nd: (200, nd.es(sub, key=k), JWTCT)),
        "unsigned": (lambda ev, nd: (200, unsigned(nd.es_payload(sub)), JWTCT)),
        "expired": (lambda ev, nd: (200, nd.es(sub, iat=past - 100, exp=past), JWTCT)),
        "no-exp": (lambda ev, nd: (200, nd.es(sub, exp=None), JWTCT)),
        "no-jwks": (lambda ev, nd: (200, nd.es(sub, jwks=None), JWTCT)),
        "other-keys": (lambda ev, nd: (200, nd.es(sub, jwks={"keys": [pub(k)]}), JWTCT)),
        "path-length": (lambda ev, nd: (200, nd.es(sub, constraints={
            "naming_constraints": {"excluded": [f"https://{ref.host(sub)}"]}}), JWTCT)),
        "policy": (lambda ev, nd: (200, nd.es(sub, metadata_policy={
            "openid_relying_party": {"client_name": {"one_of": ["nope"]}},
            "federation_entity": {"organization_name": {"one_of": ["nope"]}}}), JWTCT)),
        "policy-error": (lambda ev, nd: (200, nd.es(sub, metadata_policy={
            "openid_relying_party": {"contacts": {"value": ["x"], "essential": True}},
            "federation_entity": {"organization_name": {"subset_of": ["nope"]}}}), JWTCT)),
    }


def simple_paths(leaf, by_id, tas):
    """Issuer paths from the leaf up to each trusted anchor met on the way."""
    res = []

    def up(node, path):
        for h in node.authority_hints:
            n = by_id.get(h)
            if n is None or n in path:
                continue
            if n in tas:
                res.append(path + [n])
            up(n, path + [n])
    up(leaf, [leaf])
    return res


def discover(fe, entity_id, own=""):
    """own: the entity configuration that the entity itself handed over"""
    from fedservice.entity.function import (apply_policies, collect_trust_chains,
                                            get_verified_trust_chains, verify_trust_chains)
    if not own:
        return get_verified_trust_chains(fe, entity_id)
    chains, ec = collect_trust_chains(fe, entity_id, signed_entity_configuration=own)
    return apply_policies(fe, verify_trust_chains(fe, chains, ec))


def sound_paths(case, nodes, tas, leaf, bad_ec, bad_es):
    by_id = {n.entity_id: n for n in nodes}
    res = set()
    for path in simple_paths(leaf, by_id, tas):
        ok = leaf.entity_id not in bad_ec
        for sub, sup in zip(path, path[1:]):
            if sup.entity_id in bad_ec or (sup.entity_id, sub.entity_id) in bad_es:
                ok = False
        if ok:
            # issuer path: the leaf's configuration and then one statement per superior
            res.add(tuple(n.entity_id for n in path))
    return res


def one(case):
    rng = case.rng
    nodes, tas, leaf = graph(rng)
    w = World()
    for n in nodes:
        w.add(n)
    bad_ec, bad_es, faults = set(), set(), []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        if rng.random() < .4:
            nd = rng.choice(nodes)
            if ("ec", nd.entity_id) in w.faults:
                continue
            kind, f = rng.choice(sorted(ec_faults(rng, w, nd, nodes).items()))
            w.faults[("ec", nd.entity_id)] = f
            bad_ec.add(nd.entity_id)
            if kind in ("conn", "timeout", "ssl") and nd.entity_id.count("/") == 2:
                # it's the host that is down
                bad_ec |= {n.entity_id for n in nodes if n.entity_id.startswith(nd.entity_id + "/")}
            faults.append(("ec", kind, nd.entity_id))
        else:
            nd = rng.choice(nodes)
            if not nd.subs:
                continue
            sub = rng.choice(sorted(nd.subs))
            if ("es", nd.entity_id, sub) in w.faults:
                continue
            kind, f = rng.choice(sorted(es_faults(rng, w, nd, sub, nodes).items()))
            w.faults[("es", nd.entity_id, sub)] = f
            bad_es.add((nd.entity_id, sub))
            faults.append(("es", kind, nd.entity_id, sub))
        case.count(f"fault:{faults[-1][0]}:{kind}")
    w.attach(budget=6000)
    fe = make_fe("https://me.me.org", anchors={t.entity_id: t.jwks() for t in tas})
    own = leaf.ec() if rng.random() < .25 else ""
    if own:
        case.count("configuration-provided")
        bad_ec.discard(leaf.entity_id)
    want = sound_paths(case, nodes, tas, leaf, bad_ec, bad_es)
    # a policy fault concerns only paths on which the leaf's metadata is subject to it: all of them
    desc = {"hints": {n.entity_id: n.authority_hints for n in nodes},
            "anchors": [t.entity_id for t in tas], "subject": leaf.entity_id, "faults": faults,
            "configuration provided": bool(own)}
    try:
        tcs = discover(fe, leaf.entity_id, own)
        err = None
    except RequestBudgetExceeded:
        case.fail("does-not-terminate", f"more than 6000 requests: {desc}")
        return
    except RecursionError as e:
        case.fail("does-not-terminate", f"{e!r}: {desc}")
        return
    except Exception as e:
        # nothing to be found: refusing by exception is fine
        tcs, err = [], e
    got = [tuple(tc.iss_path) for tc in tcs]
    case.observed((str(desc), len(got)), any(n.authority_hints for n in nodes), sample=desc)
    case.count("chains-found", len(set(got)))
    loop = any(n.entity_id in n.authority_hints for n in nodes) or _cyclic(nodes)
    case.count("cases-with-loop", int(loop))
    case.count("cases-with-fault", int(bool(faults)))
    case.count("valid-chain-beside-fault", int(bool(faults and want)))
    case.count("no-chain", int(not want))
    case.check(set(got) <= want, "unsound-chain", lambda: f"{set(got) - want} {desc}")
    case.check(want <= set(got), "chain-missing",
               lambda: f"{want - set(got)} not found ({err!r}); {desc}\n{net.log}")
    for tc in tcs:
        case.check(tc.anchor == tc.iss_path[-1], "anchor", lambda: f"{tc.anchor} {tc.iss_path}")
        md = tc.metadata.get("openid_relying_party")
        case.check(bool(md) and md.get("client_name") == "x" or leaf in tas and True,
                   "metadata", lambda: f"{tc.metadata} {desc}")
    # nothing but the entities' own URLs has been asked for, and by GET
    for ev in net.log:
        case.check(ev.method == "GET", "method", lambda: repr(ev))
    return


def _cyclic(nodes):
    by_id = {n.entity_id: n for n in nodes}
    state = {}

    def visit(n):
        state[n.entity_id] = 1
        for h in n.authority_hints:
            m = by_id.get(h)
            if m is None:
                continue
            s = state.get(h)
            if s == 1 or (s is None and visit(m)):
                return True
        state[n.entity_id] = 2
        return False
    return any(n.entity_id not in state and visit(n) for n in nodes)


def ring(case):
    """All loops among up to five entities, with and without a way out to the anchor."""
    rng = case.rng
    n = rng.randint(1, 5)
    names = [f"https://r{i}.example.org" for i in range(n)]
    ta = Node("https://ta.example.org", key_types=("EC",))
    nodes = [Node(x, key_types=("EC",)) for x in names]
    for i, nd in enumerate(nodes):
        for j in rng.sample(range(n), rng.randint(1, min(n, 3))):
            nd.authority_hints.append(names[j])
            nodes[j].add_sub(nd)
        if rng.random() < .3:
            nd.authority_hints.insert(rng.randint(0, 1), ta.entity_id)
            ta.add_sub(nd)
    leaf = rng.choice(nodes)
    leaf.metadata["openid_relying_party"] = {"client_name": "x"}
    w = World()
    for x in nodes + [ta]:
        w.add(x)
    w.attach(budget=6000)
    fe = make_fe("https://me.me.org", anchors={ta.entity_id: ta.jwks()})
    want = sound_paths(case, nodes + [ta], [ta], leaf, set(), set())
    desc = {n.entity_id: n.authority_hints for n in nodes}
    case.observed((str(desc), leaf.entity_id), True, sample=desc)
    case.count("cases-with-loop")
    try:
        got = {tuple(tc.iss_path) for tc in discover(fe, leaf.entity_id)}
    except RequestBudgetExceeded:
        case.fail("does-not-terminate", f"more than 6000 requests: {desc}")
        return
    except RecursionError as e:
        case.fail("does-not-terminate", f"{e!r}: {desc}")
        return
    case.count("chains-found", len(got))
    case.check(got == want, "ring", lambda: f"got {got}, want {want}: {desc} from {leaf.entity_id}")


def deep(case):
    """Long lines of authorities, with side branches and short cuts."""
    rng = case.rng
    depth = rng.randint(2, 18)
    ta = Node("https://ta.example.org", key_types=("EC",))
    line = [ta]
    for i in range(depth):
        nd = Node(f"https://l{i}.example.org", key_types=("EC",))
        sups = [line[-1]]
        if rng.random() < .15:
            sups.append(rng.choice(line))
        if rng.random() < .1:
            nd.authority_hints.append("https://nowhere.example")
        rng.shuffle(sups)
        for s in dict.fromkeys(sups):
            nd.authority_hints.append(s.entity_id)
            s.add_sub(nd)
        line.append(nd)
    leaf = line[-1]
    leaf.metadata["openid_relying_party"] = {"client_name": "x"}
    w = World()
    for x in line:
        w.add(x)
    w.attach(budget=6000)
    fe = make_fe("https://me.me.org", anchors={ta.entity_id: ta.jwks()})
    want = sound_paths(case, line, [ta], leaf, set(), set())
    desc = {n.entity_id: n.authority_hints for n in line}
    own = leaf.ec() if rng.random() < .5 else ""
    case.observed((str(desc), bool(own)), True, sample=desc)
    got = {tuple(tc.iss_path) for tc in discover(fe, leaf.entity_id, own)}
    case.count("chains-found", len(got))
    case.count("deep", int(max(map(len, want)) > 11))
    case.count("deepest:%02d" % max(map(len, want)))
    case.check(got == want, "deep", lambda: f"got {got}, want {want}: {desc}")


def run(ctx):
    ctx.cases("deep", 12, 300, deep)
    ctx.cases("graph", 90, 2500, one)
    ctx.cases("ring", 30, 800, ring)
    ctx.counters["fault-kinds"] = len([k for k in ctx.counters if k.startswith("fault:")])
