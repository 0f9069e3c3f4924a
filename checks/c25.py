"""C25: extensions that an issuer says are critical."""
import copy
import json

from fsmon.world import World, chain_down, line, make_fe, new_key, payload_of, sign

LEVEL = "exploration"
RULE = ("Statements with up to four claims and, on several entity types, policy operators that no "
        "standard defines, with values of all JSON types, any subset of which is listed as critical, in "
        "the statement itself or in another one, read by message classes and by verifiers that know any "
        "subset of them. One at a time as messages (built, parsed from JSON, from a signed JWT), and in "
        "lines of 1-4 subordinates of a trust anchor evaluated by the chain verifier and over HTTP. "
        "Distinct by what is there, what is critical and what is known.")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "what is listed as critical is there and not defined by the standard; otherwise there is no verdict",
    "policy operators and claims that aren't known and not critical are ignored",
    "read as a message, a claim whose value is an empty string isn't there",
]
REQUIRE = {"message:accepted": 300, "message:refused": 300, "message:policy-refused": 100,
           "chain:accepted": 100, "chain:refused": 100, "chain:refused-by-policy": 40,
           "chain:refused-by-superior": 60, "non-critical-ignored": 100, "known-critical": 100,
           "other's-critical-list": 60, "known-as-something-else": 100,
           "http:accepted": 20, "http:refused": 20}

NAMES = ["foo", "bar", "x-fed", "https://example.org/claim", "Metadata", "critical", "jti2",
         "regexp"]
OPS = ["regexp", "intersects", "not_one_of", "x", "Value", "subset", "foo"]
TYPES = ["openid_provider", "openid_relying_party", "federation_entity", "wallet_provider"]
KEY = new_key(typ="EC")
VALUES = ["bar", "", 0, 1, False, True, None, [], ["a"], {}, {"a": {"b": "c"}}, 1.5]


def extensions(rng, p, messages=False):
    """Adds things to a statement; what is added."""
    claims, ops = [], []
    if rng.random() < .75:
        claims = rng.sample(NAMES, rng.choice([1, 1, 2, 3, 4]))
        for c in claims:
            v = rng.choice(VALUES)
            p[c] = "x" if messages and v == "" or not messages and v is None else v
    if rng.random() < .6:
        mp = p.setdefault("metadata_policy", {})
        for t in rng.sample(TYPES, rng.choice([1, 1, 2])):
            for claim in rng.sample(["contacts", "organization_name", "x"], rng.choice([1, 1, 2])):
                rule = mp.setdefault(t, {}).setdefault(claim, {})
                if rng.random() < .4:
                    rule["add" if claim == "contacts" else "default"] = \
                        ["ops@a.org"] if claim == "contacts" else "Org"
                for o in rng.sample(OPS, rng.choice([0, 1, 1, 2])):
                    rule[o] = rng.choice([v for v in VALUES if not messages or v != ""])
                    ops.append(o)
                if not rule:
                    rule["essential"] = False
    return claims, sorted(set(ops))


def some(rng, xs):
    r = rng.random()
    return list(xs) if r < .35 else [] if r < .6 else rng.sample(xs, rng.randint(0, len(xs)))


def message(case):
    from fedservice.exception import UnknownCriticalExtension
    from fedservice.message import EntityStatement
    rng = case.rng
    now = 1_790_000_000
    p = {"iss": "https://a.org", "sub": "https://b.org", "iat": now, "exp": now + 1000}
    if rng.random() < .5:
        p["metadata"] = {"federation_entity": {"federation_fetch_endpoint": "https://b.org/f"}}
    claims, ops = extensions(rng, p, messages=True)
    crit, pcrit = some(rng, claims), some(rng, ops)
    rng.shuffle(crit)
    if crit:
        p["crit"] = crit
    if pcrit:
        p["policy_language_crit"] = pcrit
    known = some(rng, crit) + rng.sample(["other", "baz"] + NAMES, rng.choice([0, 0, 1]))
    pknown = some(rng, pcrit) + rng.sample(["other"] + OPS, rng.choice([0, 0, 1]))
    kw = {}
    if known or rng.random() < .3:
        kw["known_extensions"] = known
    if pknown or rng.random() < .3:
        kw["known_policy_extensions"] = pknown
    bad = sorted(set(crit) - set(known))
    pbad = sorted(set(pcrit) - set(pknown))
    how = rng.choice(["kw", "dict", "json", "jwt"])
    if how == "kw":
        m = EntityStatement(**p)
    elif how == "dict":
        m = EntityStatement().from_dict(p)
    elif how == "json":
        m = EntityStatement().from_json(json.dumps(p))
    else:
        m = EntityStatement().from_dict(payload_of(sign(p, KEY)))
    try:
        m.verify(**kw)
        got = "accepted"
    except UnknownCriticalExtension:
        got = "refused"
    except Exception as err:
        got = repr(err)
    want = "refused" if bad or pbad else "accepted"
    case.count(f"message:{want}")
    if pbad and not bad:
        case.count("message:policy-refused")
    if want == "accepted" and (claims or ops) and not crit and not pcrit:
        case.count("non-critical-ignored")
    if want == "accepted" and (crit or pcrit):
        case.count("known-critical")
    case.check(got == want, "message-" + ("accepted" if got == "accepted" else "refused"),
               lambda: f"{got}, wanted {want} (unknown: {bad} {pbad}) {kw}: {p}")
    case.observed((how, claims, crit, sorted(known), ops, pcrit, sorted(pknown)), bool(claims or ops),
                  sample=(p, kw))


def chain(case, http=False):
    rng = case.rng
    n = rng.choice([1, 2, 2, 3, 4])
    ids = ["https://ta.anchor.net"] + [f"https://e{i}.example.org" for i in range(n)]
    nodes = line(ids, key_types=("EC",),
                 leaf_metadata={t: {"contacts": ["me@leaf.org"], "organization_name": "Leaf", "x": "y"}
                                for t in TYPES})
    spots = [(a.subs[b.entity_id], a.entity_id) for a, b in zip(nodes, nodes[1:])]
    spots.append((nodes[-1].ec_extra, ids[-1]))
    rng.shuffle(spots)
    for d, owner in spots:
        if d is not nodes[-1].ec_extra and rng.random() < .3:
            d["metadata"] = {t: {"logo_uri": "https://logo.org/l"}
                             for t in rng.sample(TYPES, rng.choice([1, 1, 2]))}
    all_claims, all_ops, where = [], [], []
    for d, owner in spots[:rng.choice([1, 1, 2, n + 1])]:
        c, o = extensions(rng, d)
        if d is nodes[-1].ec_extra:
            d.pop("metadata_policy", None)
            o = []
        all_claims += c
        all_ops += o
        where.append((d, owner, c, o))
    all_claims, all_ops = sorted(set(all_claims)), sorted(set(all_ops))
    lists = []
    for d, owner, c, o in where:
        crit, pcrit = some(rng, c), some(rng, o)
        if crit:
            d["crit"] = crit
        if pcrit:
            d["policy_language_crit"] = pcrit
        lists.append((owner, c, crit, o, pcrit))
    crits = sorted({x for l in lists for x in l[2]})
    pcrits = sorted({x for l in lists for x in l[4]})
    known, pknown = some(rng, crits), some(rng, pcrits)
    # That an operator is known says nothing about a claim, nor the other way around
    if rng.random() < .5:
        known = known + [x for x in some(rng, pcrits) if x not in crits]
        pknown = pknown + [x for x in some(rng, crits) if x not in pcrits]
        case.count("known-as-something-else")
    kw = {}
    if known or rng.random() < .2:
        kw["known_extensions"] = known
    if pknown or rng.random() < .2:
        kw["known_policy_extensions"] = pknown
    fe = make_fe(anchors={ids[0]: nodes[0].jwks()}, init_kwargs={"function": {"verifier": kw}})
    bad = [(o, sorted(set(cr) - set(known)), sorted(set(pc) - set(pknown)))
           for o, c, cr, op, pc in lists if set(cr) - set(known) or set(pc) - set(pknown)]
    if any(set(c) & set(crits) - set(cr) or set(op) & set(pcrits) - set(pc)
           for o, c, cr, op, pc in lists):
        case.count("other's-critical-list")
    want = not bad
    desc = lambda: f"unknown critical: {bad}; known {kw}\n" + "\n".join(
        f"{o}: {json.dumps(d)}" for d, o, *_ in where)
    sig = (n, str(lists), str(kw))
    if not http:
        tokens = chain_down(*nodes)
        if rng.random() < .2:
            tokens.insert(0, nodes[0].ec())
        err = None
        try:
            tc = fe.function.verifier(list(tokens))
        except Exception as e:
            tc, err = None, repr(e)
        got = tc is not None
        case.count("chain:accepted" if want else "chain:refused")
        if not want:
            if all(not b[1] for b in bad):
                case.count("chain:refused-by-policy")
            if all(b[0] != ids[-1] for b in bad):
                case.count("chain:refused-by-superior")
        case.check(got == want, "chain-accepted" if got else "chain-refused",
                   lambda: f"{got} {err}, wanted {want}\n{desc()}")
        if got and want:
            case.check(tc.verified_chain == [payload_of(t) for t in tokens], "statements-changed",
                       lambda: f"{tc.verified_chain}\n{desc()}")
            fe.function.policy(tc)
            # operators that aren't known don't change the outcome
            for d, owner in spots:
                for typ in d.get("metadata_policy", {}).values():
                    for rule in typ.values():
                        for o in OPS:
                            rule.pop(o, None)
            tc2 = fe.function.verifier(chain_down(*nodes))
            fe.function.policy(tc2)
            case.check(tc.metadata == tc2.metadata, "metadata", lambda: f"{tc.metadata} vs "
                       f"{tc2.metadata}\n{desc()}")
        case.observed(sig, bool(all_claims or all_ops), sample=lists)
        return
    w = World()
    for x in nodes:
        w.add(x)
    w.attach()
    got = fe.get_verified_metadata(ids[-1])
    case.count("http:accepted" if want else "http:refused")
    case.check(bool(got) == want, "http-accepted" if got else "http-refused",
               lambda: f"{got}, wanted {want}\n{desc()}")
    case.observed(("http",) + sig, bool(all_claims or all_ops), sample=lists)


def run(ctx):
    ctx.cases("message", 1500, 20000, message)
    ctx.cases("chain", 900, 10000, chain)
    ctx.cases("http", 80, 1200, lambda case: chain(case, http=True))
