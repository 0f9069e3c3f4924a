"""C01: only chains that are signed link by link, from a configured trust anchor
down, are accepted - and those are.

C03 (key store) is decided over the same histories, see c03.py.
"""
import copy
import json

from fsmon import ref
from fsmon.boot import clock
from fsmon.world import (Node, b64, chain_down, header_of, key_set, make_fe, new_key, payload_of,
                         pub, retamper, sign, sign_hs, thumb, unb64, unsigned)

LEVEL = "exploration"
RULE = ("Histories of trust chain verifications on one entity. Each step takes a genuine chain of a "
        "random federation (1-2 trusted anchors, an untrusted one, 0-4 intermediates, shared "
        "intermediates, RSA and EC keys) and presents it as it is or after one of the hostile "
        "mutations; the oracle is an independent, stateless verification of that chain. A step is "
        "non-trivial when the chain has at least two statements; steps are distinct by (mutation, "
        "chain shape, position, what had been accepted before).")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "signature primitives of cryptojwt/cryptography are trusted"]
REQUIRE = {"accepted": 200, "rejected": 400, "mutations_distinct": 20, "role:anchor": 5,
           "role:not-anchor": 5}


class Fed:
    """A random federation: a DAG below two trusted anchors and an untrusted one."""

    def __init__(self, rng, deep=4):
        self.rng = rng
        kt = lambda: rng.choice([("EC",), ("EC",), ("RSA",), ("EC", "RSA")])
        self.tas = [Node(f"https://ta{i}.example.org", key_types=kt())
                    for i in range(rng.choice([1, 2]))]
        # Names that begin as those of the anchors are names of others
        alike = lambda: self.tas[0].entity_id + rng.choice(["/x", ".evil.example", ":8443", "0"])
        self.evil_ta = Node(rng.choice(["https://ta.evil.example"] * 3 + [alike()]),
                            key_types=kt())
        self.inter = []
        levels = rng.randint(0, deep)
        above = self.tas + [self.evil_ta]
        all_above = list(above)
        for lv in range(levels):
            row = []
            for j in range(rng.choice([1, 1, 2])):
                n = Node(f"https://im{lv}{j}.example.org", key_types=kt())
                if rng.random() < .12:
                    e = alike()
                    if e not in [x.entity_id for x in all_above + row]:
                        n = Node(e, key_types=kt())
                # the level right above must reach the trusted anchors too
                sups = [above[0]] + [a for a in all_above if a is not above[0]
                                     and rng.random() < 0.35]
                for s in sups:
                    s.add_sub(n)
                n.authority_hints = [s.entity_id for s in sups]
                row.append(n)
            self.inter += row
            above = row
            all_above += row
        self.leaves = []
        for j in range(2):
            leaf = Node(f"https://rp{j}.example.org" + rng.choice(["", "/tenant"]),
                        key_types=kt(),
                        metadata={"openid_relying_party": {"client_name": f"rp{j}",
                                                           "n": rng.randint(0, 9)}})
            sups = [above[0]] + [a for a in all_above if a is not above[0]
                                 and rng.random() < 0.25]
            for s in sups:
                s.add_sub(leaf)
            leaf.authority_hints = [s.entity_id for s in sups]
            self.leaves.append(leaf)
        self.by_id = {n.entity_id: n for n in
                      self.tas + [self.evil_ta] + self.inter + self.leaves}
        self.anchors = {t.entity_id: t.jwks() for t in self.tas}
        self.attacker = new_key(typ="EC")

    def walks(self, leaf, roots):
        """All node sequences root..leaf."""
        res = []

        def up(node, path):
            if node in roots:
                res.append([node] + path)
            for h in node.authority_hints:
                up(self.by_id[h], [node] + path)
        up(leaf, [])
        return res


def m_none(f, nodes, rng):
    return chain_down(*nodes)


def m_with_ta_ec(f, nodes, rng):
    return [nodes[0].ec()] + chain_down(*nodes)


def m_no_leaf_ec(f, nodes, rng):
    c = chain_down(*nodes)
    return c[:-1] if len(c) > 1 else c


def _pos(c, rng):
    return rng.randrange(len(c))


def _signer(nodes, i):
    return nodes[min(i, len(nodes) - 1)]


def m_wrong_key_same_kid(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    k = _signer(nodes, i).key
    evil = new_key(typ="EC" if k.kty == "EC" else "RSA", kid="")
    evil.kid = k.kid
    c[i] = sign(payload_of(c[i]), evil)
    return c


def m_wrong_key_own_kid(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    c[i] = sign(payload_of(c[i]), f.attacker)
    return c


def m_wrong_key_no_kid(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    c[i] = sign(payload_of(c[i]), f.attacker, headers={"kid": None})
    return c


def m_tamper(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)

    def change(d):
        w = rng.choice(["exp", "metadata", "jwks", "new"])
        if w == "exp":
            d["exp"] += 1000
        elif w == "metadata":
            d["metadata"] = {"openid_relying_party": {"client_name": "evil"}}
        elif w == "jwks":
            d["jwks"] = {"keys": [pub(f.attacker)]}
        else:
            d["x"] = 1
    c[i] = retamper(c[i], change)
    return c


def m_sig_bits(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    h, p, s = c[i].split(".")
    raw = bytearray(unb64(s))
    raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
    c[i] = f"{h}.{p}.{b64(bytes(raw))}"
    return c


def m_sig_empty(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    h, p, s = c[i].split(".")
    c[i] = f"{h}.{p}."
    return c


def m_alg_none(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    c[i] = unsigned(payload_of(c[i]), {"alg": rng.choice(["none", "None", "NONE"]),
                                       "kid": header_of(c[i])["kid"]})
    return c


def m_alg_hs(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    k = _signer(nodes, i).key
    secret = rng.choice([json.dumps(pub(k)).encode(), b"", pub(k).get("n", pub(k).get("x")).encode()])
    c[i] = sign_hs(payload_of(c[i]), secret, {"kid": k.kid})
    return c


def m_header_jwk(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    kid = rng.choice([f.attacker.kid, _signer(nodes, i).key.kid])
    c[i] = sign(payload_of(c[i]), f.attacker, headers={"jwk": pub(f.attacker), "kid": kid})
    return c


def m_leaf_self_made_key(f, nodes, rng):
    """The leaf's configuration is signed with a key only the leaf itself vouches for."""
    c = chain_down(*nodes)
    p = payload_of(c[-1])
    p["jwks"] = {"keys": p["jwks"]["keys"] + [pub(f.attacker)]} if rng.random() < .5 else \
        {"keys": [pub(f.attacker)]}
    c[-1] = sign(p, f.attacker)
    return c


def m_untrusted_anchor(f, nodes, rng):
    leaf = nodes[-1]
    ws = f.walks(leaf, [f.evil_ta])
    if not ws:
        f.evil_ta.add_sub(leaf)
        ws = [[f.evil_ta, leaf]]
    return chain_down(*rng.choice(ws))


def m_cut_top(f, nodes, rng):
    if len(nodes) < 3:
        return None
    return chain_down(*nodes[rng.randint(1, len(nodes) - 2):])


def m_leaf_only(f, nodes, rng):
    return [nodes[-1].ec()]


def m_skip_middle(f, nodes, rng):
    if len(nodes) < 3:
        return None
    c = chain_down(*nodes)
    del c[rng.randint(0, len(c) - 2) if len(c) > 2 else 0]
    return c


def m_swap(f, nodes, rng):
    c = chain_down(*nodes)
    if len(c) < 2:
        return None
    i, j = rng.sample(range(len(c)), 2)
    c[i], c[j] = c[j], c[i]
    return c


def m_reverse(f, nodes, rng):
    c = chain_down(*nodes)
    return c[::-1] if len(c) > 1 else None


def m_splice_other_leaf(f, nodes, rng):
    """The anchor side of one chain and the configuration of another entity."""
    other = [x for x in f.leaves if x is not nodes[-1]][0]
    c = chain_down(*nodes)
    c[-1] = other.ec()
    return c


def m_splice_branch(f, nodes, rng):
    """TA->A followed by B->leaf, both genuine."""
    other = rng.choice(f.leaves)
    ws = [w for w in f.walks(other, f.tas) if len(w) >= 2]
    w = rng.choice(ws)
    c1, c2 = chain_down(*nodes), chain_down(*w)
    i = rng.randint(1, len(c1) - 1) if len(c1) > 1 else 0
    j = rng.randint(0, len(c2) - 1)
    return c1[:i] + c2[j:]


def m_insert_foreign(f, nodes, rng):
    c = chain_down(*nodes)
    extra = rng.choice(list(f.by_id.values()))
    if extra.subs and rng.random() < .7:
        st = extra.es(rng.choice(sorted(extra.subs)))
    else:
        st = extra.ec()
    i = rng.randint(0, len(c))
    return c[:i] + [st] + c[i:]


def m_duplicate(f, nodes, rng):
    c = chain_down(*nodes)
    i = rng.randrange(len(c))
    return c[:i] + [c[i]] + c[i:]


def m_expired(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    p = payload_of(c[i])
    p["iat"] = clock.now() - 9000
    p["exp"] = clock.now() - rng.choice([2, 60, 4000])
    c[i] = sign(p, _signer(nodes, i).key)
    return c


def m_short_life(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    p = payload_of(c[i])
    p["exp"] = clock.now() + rng.choice([5, 60, 500])
    c[i] = sign(p, _signer(nodes, i).key)
    return c


def m_old_key(f, nodes, rng):
    """A superior now vouches for another key of the entity; the entity's own
    statement still carries, and is signed with, the previous one."""
    if len(nodes) < 2:
        return None
    i = rng.randint(1, len(nodes) - 1)
    new = new_key(typ="EC")
    c = chain_down(*nodes)
    p = payload_of(c[i - 1])
    p["jwks"] = {"keys": [pub(new)]}
    c[i - 1] = sign(p, nodes[i - 1].key)
    return c


def m_rotated_key(f, nodes, rng):
    """The same, and the entity uses the new key: genuine."""
    if len(nodes) < 2:
        return None
    i = rng.randint(1, len(nodes) - 1)
    new = new_key(typ="EC")
    c = chain_down(*nodes)
    p = payload_of(c[i - 1])
    p["jwks"] = {"keys": [pub(new)] + (p["jwks"]["keys"] if rng.random() < .5 else [])}
    c[i - 1] = sign(p, nodes[i - 1].key)
    q = payload_of(c[i])
    if q["iss"] == q["sub"]:
        q["jwks"] = {"keys": [pub(new)]}
    c[i] = sign(q, new)
    return c


def m_no_jwks(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    p = payload_of(c[i])
    del p["jwks"]
    c[i] = sign(p, _signer(nodes, i).key)
    return c


def m_drop_claim(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    p = payload_of(c[i])
    del p[rng.choice(["iss", "sub", "exp"])]
    c[i] = sign(p, _signer(nodes, i).key)
    return c


def m_sub_lookalike(f, nodes, rng):
    c = chain_down(*nodes)
    if len(c) < 2:
        return None
    i = rng.randint(0, len(c) - 2)
    p = payload_of(c[i])
    s = p["sub"]
    p["sub"] = rng.choice([s + "/", s.upper(), s.replace("https", "http"), s + "?x=1",
                           s.replace("example.org", "example.com")])
    c[i] = sign(p, _signer(nodes, i).key)
    return c


def m_anchor_key_injection(f, nodes, rng):
    """An intermediate (or leaf) vouches for 'keys of the trust anchor'; then a
    chain headed by a statement signed with them."""
    mid = nodes[-1]
    if mid is nodes[0]:
        return None     # an anchor may publish further keys of its own
    ta = rng.choice(f.tas).entity_id
    now = clock.now()
    stmt = sign({"iss": mid.entity_id, "sub": ta, "iat": now, "exp": now + 900,
                 "jwks": {"keys": [pub(f.attacker)]}}, mid.key)
    return chain_down(*nodes)[:-1] + [stmt]


def m_anchor_key_use(f, nodes, rng):
    now = clock.now()
    c = chain_down(*nodes)
    p = payload_of(c[0])
    p["iat"], p["exp"] = now, now + 900
    c[0] = sign(p, f.attacker)
    return c


def m_name_key_injection(f, nodes, rng):
    """A chain that fails further down vouches for attacker keys of a known entity."""
    victim = rng.choice(f.inter + f.leaves)
    mid = nodes[-1]
    if mid is victim:
        return None
    now = clock.now()
    stmt = sign({"iss": mid.entity_id, "sub": victim.entity_id, "iat": now, "exp": now + 900,
                 "jwks": {"keys": [pub(f.attacker)]}}, mid.key)
    bad = sign({"iss": victim.entity_id, "sub": victim.entity_id, "iat": now, "exp": now + 900,
                "jwks": {"keys": [pub(f.attacker)]}}, new_key(typ="EC"))
    return chain_down(*nodes)[:-1] + [stmt, bad]


def m_name_key_use(f, nodes, rng):
    c = chain_down(*nodes)
    if len(c) < 2:
        return None
    i = rng.randint(1, len(c) - 1)
    c[i] = sign(payload_of(c[i]), f.attacker)
    return c


def m_other_anchor_keys(f, nodes, rng):
    """Statement of one anchor signed by another (both trusted, or not)."""
    others = [t for t in f.tas + [f.evil_ta] if t is not nodes[0]]
    c = chain_down(*nodes)
    c[0] = sign(payload_of(c[0]), rng.choice(others).key)
    return c


def m_own_statement_between(f, nodes, rng):
    """An entity's statement about itself, with other keys, between what is said about it and what
    it says about others. The keys that come last are the ones that count."""
    i = rng.randrange(len(nodes))
    c = chain_down(*nodes)
    new = new_key(typ="EC")
    p = payload_of(nodes[i].ec())
    p["jwks"] = {"keys": [pub(new)] + (p["jwks"]["keys"] if rng.random() < .3 else [])}
    own = sign(p, nodes[i].key)
    c = c[:i] + [own] + c[i:]
    if rng.random() < .5:
        c[i + 1] = sign(payload_of(c[i + 1]), new)
    return c


def m_garbage(f, nodes, rng):
    c = chain_down(*nodes)
    i = _pos(c, rng)
    c[i] = rng.choice(["", "abc", "a.b.c", "{}", c[i].rsplit(".", 1)[0], c[i][:-40]])
    return c


def m_rotated_same_kid(f, nodes, rng):
    """A genuine change of key, that keeps the key ID."""
    if len(nodes) < 2:
        return None
    i = rng.randint(1, len(nodes) - 1)
    c = chain_down(*nodes)
    old = nodes[i].key
    new = new_key(typ="EC" if old.kty == "EC" else "RSA")
    new.kid = old.kid
    p = payload_of(c[i - 1])
    p["jwks"] = {"keys": [pub(new)]}
    c[i - 1] = sign(p, nodes[i - 1].key)
    q = payload_of(c[i])
    if q["iss"] == q["sub"]:
        q["jwks"] = {"keys": [pub(new)]}
    c[i] = sign(q, new)
    return c


def m_constrained(f, nodes, rng):
    """Signed as it should be; whether the constraints are met differs."""
    if len(nodes) < 2:
        return None
    c = chain_down(*nodes)
    i = rng.randint(0, len(nodes) - 2)
    p = payload_of(c[i])
    hosts = [ref.host(n.entity_id) for n in nodes] + [".example.org", "x.example.org", ".example.com"]
    cons = {}
    if rng.random() < .6:
        cons["max_path_length"] = rng.randint(0, 3)
    if rng.random() < .4:
        cons["naming_constraints"] = {rng.choice(["permitted", "excluded"]):
                                      ["https://" + h for h in rng.sample(hosts, rng.randint(1, 3))]}
    p["constraints"] = cons
    c[i] = sign(p, nodes[i].key)
    return c


def m_critical(f, nodes, rng):
    """An extension nobody knows, critical or not."""
    c = chain_down(*nodes)
    i = _pos(c, rng)
    p = payload_of(c[i])
    p["extra"] = rng.choice([True, {"a": 1}, "x"])
    if rng.random() < .6:
        p["crit"] = ["extra"]
    c[i] = sign(p, _signer(nodes, i).key)
    return c


def m_anchor_about_anchor(f, nodes, rng):
    """A trust anchor is the subordinate of another one, which states further keys of it."""
    others = [t for t in f.tas if t is not nodes[0]]
    if not others:
        return None
    ta, top = nodes[0], others[0]
    now = clock.now()
    keys = [pub(k) for k in ta.keys] + [pub(f.attacker)]
    if rng.random() < .3:
        keys = keys[-1:]
    stmt = sign({"iss": top.entity_id, "sub": ta.entity_id, "iat": now, "exp": now + 900,
                 "jwks": {"keys": keys}}, top.key)
    c = chain_down(*nodes)
    if rng.random() < .4:
        c[0] = sign(payload_of(c[0]), f.attacker)
    return [stmt] + c


def m_many_keys(f, nodes, rng):
    """An entity has many keys and uses any of them: genuine."""
    if len(nodes) < 2:
        return None
    i = rng.randint(1, len(nodes) - 1)
    keys = [new_key(typ="EC") for _ in range(rng.randint(4, 9))]
    c = chain_down(*nodes)
    p = payload_of(c[i - 1])
    p["jwks"] = {"keys": [pub(k) for k in keys]}
    c[i - 1] = sign(p, nodes[i - 1].key)
    q = payload_of(c[i])
    if q["iss"] == q["sub"]:
        q["jwks"] = {"keys": [pub(k) for k in keys]}
    c[i] = sign(q, rng.choice(keys))
    return c


MUTATIONS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith("m_")}
WEIGHTS = {k: 1.0 for k in MUTATIONS}
WEIGHTS.update(none=6, with_ta_ec=2, no_leaf_ec=2, rotated_key=2, short_life=2, constrained=3,
               rotated_same_kid=2, own_statement_between=2, cut_top=2,
               anchor_about_anchor=2)


def present(fe, chain):
    """One verification. (accepted TrustChain or None, exception or None)"""
    try:
        return fe.function.verifier(list(chain)), None
    except Exception as err:  # a refusal
        return None, err


def vouched(payloads):
    res = set()
    for p in payloads:
        for k in p.get("jwks", {}).get("keys", []):
            res.add((p["sub"], thumb(k)))
    return res


def check_accepted(case, tc, chain, payloads, what):
    got = [dict(x) for x in tc.verified_chain]
    case.check([{k: v for k, v in g.items() if k != "_jws"} for g in got] == payloads,
               "verified-content", lambda: f"{what}: verified statements differ from what was "
               f"signed\n{got}\n{payloads}")
    case.check(tc.anchor == payloads[0]["iss"], "anchor-reported",
               lambda: f"{what}: anchor {tc.anchor}, expected {payloads[0]['iss']}")
    case.check(list(tc.iss_path) == [p["iss"] for p in payloads][::-1], "path-reported",
               lambda: f"{what}: iss_path {tc.iss_path}")
    case.check(tc.exp == min(p["exp"] for p in payloads), "expiry-reported",
               lambda: f"{what}: exp {tc.exp}, statements {[p['exp'] for p in payloads]}")


def history(case, keystore=False, steps=9):
    rng = case.rng
    f = Fed(rng)
    role = rng.choice(["other"] * 6 + ["anchor", "not-anchor"])
    if role == "other":
        fe = make_fe(anchors=f.anchors)
    else:
        # One that had no need for being told its own keys, and one that isn't an anchor at all
        own = f.tas[0]
        del f.anchors[own.entity_id]
        fe = make_fe(own.entity_id, anchors=f.anchors,
                     authority_hints=["https://above.example.org"] if role == "not-anchor" else [])
        own.keys = [k for k in fe.keyjar.get_signing_key(issuer_id=own.entity_id)]
        if role == "anchor":
            f.anchors[own.entity_id] = own.jwks()
        case.count("role:" + role)
    names = list(MUTATIONS)
    ws = [WEIGHTS[n] for n in names]
    accepted_before = 0
    allowed = key_set(fe.keyjar)
    for step in range(steps):
        leaf = rng.choice(f.leaves)
        paths = f.walks(leaf, f.tas)
        nodes = rng.choice(paths)
        if rng.random() < .2:
            # chains for an intermediate as the subject
            nodes = nodes[:rng.randint(1, len(nodes))]
        name = rng.choices(names, ws)[0]
        chain = MUTATIONS[name](f, nodes, rng)
        if not chain:
            continue
        ok, info = ref.verify_chain(chain, f.anchors, clock.now())
        if ok and not (ref.naming_ok(info) and ref.path_ok(info)):
            ok, info = False, "constraints not met"
        elif ok and any("crit" in p for p in info):
            ok, info = False, "critical extension not understood"
        before = key_set(fe.keyjar)
        tc, err = present(fe, chain)
        after = key_set(fe.keyjar)
        what = f"{role}: step {step} mutation {name} nodes {[n.entity_id for n in nodes]}"
        case.observed((name, role, len(chain), len(f.tas), len(f.inter), nodes[0].key.kty,
                       min(accepted_before, 2), ok), len(chain) > 1,
                      sample={"step": what, "expected": "accept" if ok else f"reject: {info}",
                              "statements": [[p.get("iss"), p.get("sub")] for p in info]
                              if ok else len(chain)})
        case.count(f"mutation:{name}:{'accept' if ok else 'reject'}")
        case.count("accepted" if tc else "rejected")
        if not keystore:
            if ok and not tc:
                case.fail("genuine-chain-refused", f"{what}: {err!r}")
            elif tc and not ok:
                case.fail(f"accepted-{info}".replace(" ", "-"),
                          f"{what}: accepted although: {info}\n" +
                          "\n".join(str(payload_of(c))[:400] for c in chain))
            elif tc:
                check_accepted(case, tc, chain, info, what)
        else:
            if tc and ok:
                allowed |= vouched(info)
                ta = info[0]["iss"]
                for a in f.anchors:
                    extra = {x for x in after - before if x[0] == a}
                    own = {(a, thumb(k)) for p in info if p["iss"] == p["sub"] == a
                           for k in p.get("jwks", {}).get("keys", [])}
                    case.check(extra <= own, "anchor-keys-extended",
                               lambda: f"{what}: keys {extra} now count as those of anchor {a}")
                case.check(after - before <= vouched(info), "unvouched-key",
                           lambda: f"{what}: keys not vouched for: {after - before}")
                case.check(before <= after, "key-lost", lambda: f"{what}: {before - after}")
                # what the chain vouched for can be used afterwards
                missing = {x for x in vouched(info) if x[0] not in f.anchors} - after
                case.check(not missing, "vouched-key-missing", lambda: f"{what}: {missing}")
            elif not tc:
                case.check(after == before, "refused-chain-changed-keys",
                           lambda: f"{what}: {info if not ok else ''} refused, yet the key store "
                           f"changed: +{after - before} -{before - after}")
        if tc:
            accepted_before += 1
            # the shared store only ever holds what an accepted chain vouched for
        if case.failed:
            return


def run(ctx):
    ctx.cases("history", 300, 3000, history)
    ctx.counters["mutations_distinct"] = len(
        {k.split(":")[1] for k in ctx.counters if k.startswith("mutation:")})
