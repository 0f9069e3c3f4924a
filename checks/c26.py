"""C26: entity configurations and statements published from files."""
import copy
import json
import os
import shutil
import tempfile
from urllib.parse import quote_plus, urlencode, urlsplit

from cryptojwt.jws.jws import factory

from checks.c06 import expected, scenario
from fsmon import polref
from fsmon.boot import clock
from fsmon.net import net
from fsmon.world import make_fe, new_key, payload_of, pub, thumb

LEVEL = "exploration"
RULE = ("Directories are written at random: entities with one to three keys, what each says about itself "
        "and about others (any of metadata, policy, constraints, authority hints; named by host or by "
        "quoted identifier), and changed, added to and removed from between questions. Statements are "
        "made directly, several by one instance and with overriding arguments, and by the publisher as "
        "the transport; whole federations are published that way and evaluated by a federation entity. "
        "Every statement is verified with the issuer's key and compared with the files. Distinct = "
        "(how it was asked for, which files there are, arguments).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "an issuer has an RSA key (statements are signed with RS256)",
    "one instance reads the keys of an entity once; the publisher uses a new one per request",
    "an empty object in a file is the same as no file",
]
REQUIRE = {"statements": 800, "self": 200, "about-others": 300, "quoted": 100, "overridden": 150,
           "published-config": 150, "published-statement": 200, "changed-files": 150, "unknown": 100, "odd-urls": 30, "issuers-as-subjects": 60, "ports": 40,
           "federation:accepted": 40, "federation:refused": 15}

FILES = {"metadata": "metadata.json", "metadata_policy": "policy.json",
         "constraints": "constraints.json", "authority_hints": "authority.json"}
CT = "application/entity-statement+jwt"


def keys(rng):
    ks = [new_key(typ="RSA")] + [new_key(typ=rng.choice(["EC", "RSA"]))
                                 for _ in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(ks)
    return ks


def private(ks):
    return {"keys": [dict(k.serialize(private=True), kid=k.kid, use="sig") for k in ks]}


class Files:
    def __init__(self, d):
        self.d = d
        self.keys = {}            # (iss, sub) -> keys in that directory
        self.data = {}            # (iss, sub) -> {name: value}

    def put(self, iss, sub, ks, only_public=False, **data):
        path = os.path.join(self.d, iss, sub)
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, "jwks.json"), "w") as fp:
            json.dump({"keys": [pub(k) for k in ks]} if only_public else private(ks), fp)
        for name, f in FILES.items():
            f = os.path.join(path, f)
            if name in data:
                with open(f, "w") as fp:
                    json.dump(data[name], fp)
            elif os.path.exists(f):
                os.unlink(f)
        self.keys[(iss, sub)] = list(ks)
        self.data[(iss, sub)] = copy.deepcopy(data)

    def drop(self, iss, sub):
        shutil.rmtree(os.path.join(self.d, iss, sub))
        del self.keys[(iss, sub)], self.data[(iss, sub)]


def rand_data(rng, own):
    d = {}
    if rng.random() < .8:
        d["metadata"] = rng.choice([
            {"openid_relying_party": {"response_types": ["code"], "client_name": f"n{rng.randint(0, 99)}"}},
            {"federation_entity": {"organization_name": "Örg", "federation_fetch_endpoint": "https://x/f"},
             "openid_provider": {"issuer": "https://x"}}, {"openid_provider": {}}])
    if rng.random() < (.2 if own else .6):
        d["metadata_policy"] = {"openid_relying_party": {"contacts": {"add": [f"a{rng.randint(0, 9)}@b.c"]}}}
    if rng.random() < .4:
        d["constraints"] = {"max_path_length": rng.choice([0, 1]),
                            "naming_constraints": {"permitted": ["https://.example.org"]}}
    if rng.random() < .5:
        d["authority_hints"] = [f"https://sup{i}.org" for i in range(rng.randint(0, 2))]
    return d


def ident(name):
    return name if name.startswith("https://") else "https://" + name


def check_statement(case, fs, token, iss, sub, over, how):
    """iss and sub are directory names."""
    from urllib.parse import unquote_plus
    case.count("statements")
    where = lambda x="": f"{how} {iss} on {sub} {over}: {x}\n{fs.data.get((iss, sub))}\n{token}"
    ks = fs.keys[(iss, iss)]
    try:
        j = factory(token)
        j.verify_compact(keys=[k for k in ks])
        ok = j.jwt.headers["alg"] in ("RS256", "ES256")
    except Exception as err:
        ok = False
        case.fail("not-signed-by-issuer", where(repr(err)))
    p = payload_of(token)
    sub_id = unquote_plus(sub) if sub.startswith("https%3A") else "https://" + sub
    want = {k: v for k, v in fs.data[(iss, sub)].items() if v}
    want.update(iss="https://" + iss, sub=sub_id, iat=clock.now(),
                exp=clock.now() + over.get("lifetime", 86400))
    want.update({k: v for k, v in over.items() if k not in ("lifetime",)})
    got = {k: v for k, v in p.items() if k not in ("jwks", "jti")}
    case.check(got == want, "not-what-the-files-say", lambda: where(f"got {got}, wanted {want}"))
    jwks = p.get("jwks", {}).get("keys", [])
    case.check(sorted(thumb({k: v for k, v in x.items() if k != "d"}) for x in jwks)
               == sorted(thumb(pub(k)) for k in fs.keys[(iss, sub)]), "not-the-subject's-keys",
               lambda: where([x.get("kid") for x in jwks]))
    case.check(not any(set(x) & {"d", "p", "q", "dp", "dq", "qi", "k"} for x in jwks), "private-keys",
               where)
    return ok


def build(rng, fs):
    isss = [f"iss{i}.example.org" for i in range(rng.randint(1, 3))]
    if rng.random() < .3:
        isss[0] += ":8443"
    subs = {}
    for i in isss:
        fs.put(i, i, keys(rng), **rand_data(rng, True))
        subs[i] = []
        # also such as issue statements themselves, here known by other keys
        for s in rng.sample([x for x in isss if x != i] * 2 +
                            ["s0.example.org", "s0.example.org.net", "s1.example.org",
                             "s1.example.organic", quote_plus("https://s2.example.org/path/x"),
                             "https.example.org", "s5.example.org:8444",
                             quote_plus("https://s2.example.org/path"),
                             quote_plus("https://s3.example.org:444"), quote_plus("https://s4.example.org")],
                            rng.randint(1, 6)):
            fs.put(i, s, keys(rng), only_public=rng.random() < .6, **rand_data(rng, False))
            if s not in subs[i]:
                subs[i].append(s)
    return isss, subs


def change(case, rng, fs, isss, subs):
    case.count("changed-files")
    i = rng.choice(isss)
    r = rng.random()
    if r < .25:
        fs.put(i, i, keys(rng), **rand_data(rng, True))
    elif r < .7 and subs[i]:
        s = rng.choice(subs[i])
        fs.put(i, s, fs.keys[(i, s)] if rng.random() < .5 else keys(rng), **rand_data(rng, False))
    elif subs[i]:
        s = rng.choice(subs[i])
        fs.drop(i, s)
        subs[i].remove(s)


def direct(case):
    from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement, FSPublisher
    rng = case.rng
    d = tempfile.mkdtemp(prefix="fsmon-c26-")
    try:
        fs = Files(d)
        isss, subs = build(rng, fs)
        inst = {}
        publisher = FSPublisher(d)
        for _ in range(rng.randint(3, 9)):
            if rng.random() < .2:
                change(case, rng, fs, isss, subs)
                inst = {}
            i = rng.choice(isss)
            clock.advance(rng.choice([0, 1, 3600]))
            s = i if rng.random() < .3 or not subs[i] else rng.choice(subs[i])
            r = rng.random()
            if r < .12:
                case.count("unknown")
                s = rng.choice(["nobody.org", quote_plus("https://nobody.org/x"), "s9.example.org"]
                               + [x for j in isss for x in subs[j]
                                  if x not in subs[i] and x != i])
                r = rng.random()
                try:
                    if r < .3:
                        # nothing that is served
                        case.count("odd-urls")
                        url = f"https://{i}/" + rng.choice([
                            ".well-known/openid-configuration", "x/.well-known/openid-federation", "fetch", "",
                            ".well-known/openid-federation/", ".well-known/openid-federation/x",
                            "fetch?iss=" + quote_plus(ident(i)), "fetch?subject=" + quote_plus(ident(i)),
                            "fetch?sub="])
                        s = url
                        got = publisher("GET", url).text
                    elif r < .6:
                        got = FSFetchEntityStatement(d, iss=i).create_entity_statement(s)
                    else:
                        got = publisher("GET", f"https://{i}/fetch?" + urlencode({"sub": ident(s)})).text
                except Exception:
                    got = None
                case.check(not got, "statement-about-a-stranger", lambda: f"{i} on {s}: {got}")
                continue
            case.count("self" if s == i else "about-others")
            if s.startswith("https%"):
                case.count("quoted")
            if s != i and s in isss:
                case.count("issuers-as-subjects")
            if s != i and s[-5:-3] == ":8":
                case.count("ports")
            if r < .6 or s.startswith("https%"):
                over = {}
                if rng.random() < .4:
                    case.count("overridden")
                    for k, v in [("lifetime", rng.choice([60, 7200])), ("metadata", {"x": {"y": "z"}}),
                                 ("authority_hints", ["https://o.org"]), ("aud", "https://aud.org"),
                                 ("metadata_policy", {"x": {"y": {"value": 1}}}), ("foo", {"bar": 1})]:
                        if rng.random() < .3:
                            over[k] = v
                if i not in inst or rng.random() < .3:
                    if rng.random() < .8:
                        inst[i] = FSFetchEntityStatement(d, iss=i)
                    else:
                        inst[i] = FSFetchEntityStatement(d)
                        inst[i].iss = i
                given = copy.deepcopy(over)
                tok = inst[i].create_entity_statement(s, **over)
                how = "direct"
                case.check(over == given, "arguments-altered", lambda: f"{given} -> {over}")
            else:
                over, how = {}, "published"
                if s == i:
                    case.count("published-config")
                    resp = publisher("GET", f"https://{i}/.well-known/openid-federation")
                else:
                    case.count("published-statement")
                    q = {"sub": ident(s)}
                    if rng.random() < .3:
                        # whoever is asked answers, in its own name
                        q["iss"] = ident(rng.choice(isss))
                    resp = publisher("GET", f"https://{i}/" + rng.choice(["fetch", "api/x"]) + "?" + urlencode(q),
                                     **rng.choice([{}, {"verify": False}]))
                tok = resp.text
                case.check(resp.status_code == 200, "status", lambda: f"{resp.status_code}")
            check_statement(case, fs, tok, i, s, over, how)
            case.observed((how, s == i, s.startswith("https%"), tuple(sorted(fs.data[(i, s)])),
                           tuple(sorted(over)), len(fs.keys[(i, s)]), _), True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def federation(case):
    """A federation that lives in files, seen by somebody who trusts its anchor."""
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    rng = case.rng
    d = tempfile.mkdtemp(prefix="fsmon-c26-")
    try:
        fs = Files(d)
        types, own, sups, mode = scenario(rng)
        names = ["ta.example.org"] + [f"e{i}.example.org" for i in range(len(sups))]
        ks = {n: keys(rng) for n in names}
        for n, name in enumerate(names):
            md = {"federation_entity": {"federation_fetch_endpoint": f"https://{name}/fetch"}} \
                if name != names[-1] else own
            data = {"metadata": md}
            if n:
                data["authority_hints"] = ["https://" + names[n - 1]]
            fs.put(name, name, ks[name], **data)
            if n:
                fs.put(names[n - 1], name, ks[name], only_public=rng.random() < .5,
                       **{k: v for k, v in sups[n - 1].items() if v})
        publisher = FSPublisher(d)

        def handle(ev):
            from requests.exceptions import ConnectionError
            try:
                r = publisher("GET", ev.url)
            except Exception as err:
                raise ConnectionError(str(err))
            return r.status_code, r.text, r.headers["Content-Type"]
        net.reset(handle, 200)
        fe = make_fe(anchors={"https://" + names[0]: {"keys": [pub(k) for k in ks[names[0]]]}})
        v, md = expected(types, own, sups)
        got = fe.get_trust_chains("https://" + names[-1])
        where = lambda: f"{types} own {json.dumps(own)}\n{json.dumps(sups)}\n{v} {md}\n" \
                        f"{got[0].metadata if got else None}"
        case.check(len(got) < 2, "several-chains", where)
        if v == "refuse":
            case.count("federation:refused")
            case.check(not got, "federation-accepted", where)
        elif v == "accept":
            case.count("federation:accepted")
            if case.check(len(got) == 1, "federation-refused", where):
                m = got[0].metadata
                case.check(set(m) == set(md) and all(
                    set(m[t]) == set(md[t]) and all(polref.setlike_same(m[t][c], md[t][c]) for c in md[t])
                    for t in md), "federation-metadata", where)
                case.check(got[0].iss_path == ["https://" + n for n in reversed(names)]
                           or got[0].iss_path[::-1][:1] == ["https://" + names[0]], "path",
                           lambda: f"{got[0].iss_path}")
        case.observed((mode, json.dumps(own), json.dumps(sups)), True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.cases("direct", 120, 3000, direct)
    ctx.cases("federation", 25, 800, federation)
