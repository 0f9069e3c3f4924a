"""C14: a trust mark issuer's marks and its answers about them."""
import copy
import json
import os
import shutil
import tempfile

from fsmon import ref
from fsmon.boot import clock
from fsmon.net import net
from fsmon.serve import Site, call
from fsmon.world import (make_fe, new_key, payload_of, pub, retamper, sign, sign_hs, unsigned)

LEVEL = "exploration"
RULE = ("Histories on two real trust mark issuers in one process (in-memory and file records): marks "
        "requested over their endpoint or made by the issuer itself, status and list requests in every "
        "form the endpoints take (directly and with the client services), genuine, foreign, forged and "
        "altered marks, passage of time, and restarts. Marks are checked against an independent "
        "signature verification and the configuration, answers against a model of what has been issued "
        "and is in force. Distinct by operation, request form, history and answer.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "wall-clock time is virtual (LD_PRELOAD interposer)",
               "requests go through parse_request, process_request and do_response as in the "
               "repository's web applications"]
REQUIRE = {"issued": 600, "active": 400, "inactive": 800, "by-token": 400, "by-token-active": 100,
           "foreign": 60, "forged": 150, "expired": 100, "other-iat": 100, "listed": 300,
           "list-empty": 50, "refused-request": 100, "restarts": 30, "via-client": 150,
           "unauthenticated": 30, "authenticated": 15,
           "own-marks": 100, "unpacked:yes": 100, "unpacked:no": 300}
IDS = ["https://refeds.org/sirtfi", "https://marks.example.org/b?x=1&y=2", "https://m.example.org/c"]
SUBS = ["https://rp.example.org", "https://op.example.org/t", "https://rp.example.org/"]
T = "fedservice.trust_mark_entity."


class Issuer:
    def __init__(self, case, eid, d, auth=False):
        rng = case.rng
        self.eid, self.rows = eid, []
        self.spec = {}
        for i in rng.sample(IDS, rng.randint(2, 3)):
            s = {}
            if rng.random() < .8:
                s["lifetime"] = rng.choice([1, 5, 20, 60, 1000])
            if rng.random() < .3:
                s["ref"] = "https://about.example.org/" + i[-1]
            if rng.random() < .3:
                s["logo_uri"] = "https://logo.example.org/l.png"
            self.spec[i] = s
        ep = {n: {"path": n, "class": f"{T}server.{n}.{c}", "kwargs": {}} for n, c in
              (("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"),
               ("trust_mark_status", "TrustMarkStatus"))}
        if auth:
            ep["trust_mark"]["kwargs"] = {"client_authn_method": rng.choice(
                [["private_key_jwt"], ["private_key_jwt", "client_secret_jwt"],
                 ["client_secret_basic", "private_key_jwt"]]),
                                          "auth_signing_alg_values": ["ES256", "RS256"]}
        self.conf = {"class": T + "entity.TrustMarkEntity", "kwargs": {
            "trust_mark_specification": self.spec, "endpoint": ep}}
        self.file = rng.random() < .5
        if self.file:
            self.conf["kwargs"]["trust_mark_db"] = {
                "class": T + "FileDB",
                "kwargs": {i: os.path.join(d, eid[8:13] + str(n)) for n, i in
                           enumerate(self.spec)}}
        self.keyfile = os.path.join(d, "keys" + eid[8:13])
        self.start()

    def start(self):
        self.fe = make_fe(self.eid, trust_mark_entity=copy.deepcopy(self.conf), key_config={
            "key_defs": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256",
                                                          "use": ["sig"]}],
            "private_path": self.keyfile, "read_only": False})
        self.tme = self.fe.server.trust_mark_entity
        self.jwks = self.fe.keyjar.export_jwks()

    def ep(self, name):
        return self.tme.endpoint[name]

    def valid(self, i, sub=None, iat=0):
        now = clock.now()
        return [r for r in self.rows if r["id"] == i and ("exp" not in r or now <= r["exp"]) and
                (sub is None or r["sub"] == sub) and (not iat or r["iat"] == iat)]


def issued(case, iss, token, i, sub, extra, hist):
    p = payload_of(token)
    want = {k: v for k, v in iss.spec[i].items() if k != "lifetime"}
    want.update({"iss": iss.eid, "sub": sub, "id": i, "iat": clock.now()}, **extra)
    if "lifetime" in iss.spec[i] and "exp" not in extra:
        want["exp"] = clock.now() + iss.spec[i]["lifetime"]
    case.check(p == want, "mark-content", lambda: f"{p}\nwanted {want}\n{hist[-8:]}")
    case.check(ref.signed_by(token, iss.jwks), "mark-signature", lambda: f"{token}\n{iss.jwks}")
    row = dict(want)
    iss.rows.append(row)
    case.count("issued")
    return row


def ask(case, iss, other, client, how, q, rng):
    """The issuer's answer as (active, reply)."""
    if how == "client":
        case.count("via-client")
        n = len(net.log)
        url = iss.ep("trust_mark_status").full_path
        r = client.do_request("trust_mark_status", request_args=dict(q), fetch_endpoint=url)
        case.check(len(net.log) == n + 1 and net.log[n].path == url, "client-question",
                   lambda: f"{net.log[n:]}, expected {url}")
        return r.get("active") is True, r
    r = call(iss.ep("trust_mark_status"), {k: str(v) for k, v in q.items()})
    if r.ok:
        return r.json().get("active") is True, r
    return False, r


def unpacking(case, rng, iss, tok):
    """Whether the issuer itself takes it for a trust mark of some entity."""
    try:
        p = payload_of(tok)
    except Exception:
        p = {}
    about = rng.choice([p.get("sub", SUBS[0]), p.get("sub", SUBS[0])] + SUBS)
    try:
        got = dict(iss.tme.unpack_trust_mark(tok, entity_id=about))
    except Exception:
        got = None
    ok = p.get("iss") == iss.eid and ref.signed_by(tok, iss.jwks) and p.get("sub") == about
    if p.get("iss") != iss.eid and ok is False and got is not None and p.get("sub") == about:
        return      # somebody else's, whose keys it knows
    if ok and ("iat" not in p or "exp" in p and p["exp"] <= clock.now()):
        return
    case.count("unpacked:" + ("yes" if ok else "no"))
    case.check((got is not None) == ok, "unpacked", lambda: f"{got} for {about}: {p}")


def own_marks(case):
    """An entity that signs trust marks about itself."""
    rng = case.rng
    spec = {}
    for i in rng.sample(IDS, rng.randint(1, 3)):
        spec[i] = rng.choice([{}, {"ref": "https://about.example.org/x"},
                              {"logo_uri": "https://logo.example.org/l.png", "n": {"a": [1]}}])
    eid = rng.choice(["https://leaf.example.org", "https://leaf.example.org/x"])
    given = [sign({"iss": "https://o.org", "sub": eid, "id": "x", "iat": 1}, new_key(typ="EC"))] \
        if rng.random() < .4 else []
    fe = make_fe(eid, authority_hints=["https://ta.example.org"], trust_marks=list(given),
                 self_signed_trust_mark_entity={
                     "class": T + "entity.SelfSignedTrustMarkEntity",
                     "kwargs": {"trust_mark_specification": copy.deepcopy(spec)}})
    me = fe.server.self_signed_trust_mark_entity
    jwks, want = fe.keyjar.export_jwks(), list(given)
    for step in range(rng.randint(1, 5)):
        i = rng.choice(IDS)
        extra = rng.choice([{}, {}, {"ref": "https://extra.example.org"},
                            {"exp": clock.now() + 77}])
        try:
            tok = me(i, **extra)
        except ValueError:
            tok = None
        case.check(bool(tok) == (i in spec), "own-mark", lambda: f"{i}: {tok}, configured {spec}")
        if tok:
            p = payload_of(tok)
            w = {**spec[i], "iss": eid, "sub": eid, "id": i, "iat": clock.now(), **extra}
            exp = p.get("exp", 0)
            if "exp" not in extra:
                p.pop("exp", None)
            case.check(p == w and exp > clock.now(), "own-mark-content", lambda: f"{p} {exp}\n{w}")
            case.check(ref.signed_by(tok, jwks), "own-mark-signature", lambda: tok)
            want.append(tok)
            case.count("own-marks")
        clock.advance(rng.choice([0, 1, 50]))
        ec = payload_of(call(fe.server.endpoint["entity_configuration"], {}).text)
        case.check(ec.get("trust_marks", []) == want, "own-marks-published",
                   lambda: f"{[payload_of(t) for t in ec.get('trust_marks', [])]}\nwanted "
                   f"{[payload_of(t) for t in want]}")
        case.observed(("own", step, i in spec, bool(extra), len(want)))


def one(case):
    rng = case.rng
    d = tempfile.mkdtemp(prefix="fsmon-c14-")
    try:
        _one(case, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _one(case, rng, d):
    site = Site().attach()
    isss = [Issuer(case, "https://tmi1.example.org", d), Issuer(case, "https://tmi2.example.org", d)]
    for x in isss:
        site.host(x.fe)
    client = make_fe("https://client.example.org")
    for x, y in (isss, isss[::-1]):
        # as it is once they have met
        from idpyoidc.key_import import import_jwks
        if rng.random() < .7:
            x.fe.keyjar = import_jwks(x.fe.keyjar, y.jwks, y.eid)
    tokens, hist = [], []
    for step in range(rng.randint(12, 28)):
        iss = rng.choice(isss)
        other = isss[0] if iss is isss[1] else isss[1]
        r = rng.random()
        if r < .3:
            i, sub = rng.choice(IDS), rng.choice(SUBS)
            how = rng.choice(["http", "http", "self", "self-extra", "missing"])
            extra = {}
            if how == "missing":
                q = {"trust_mark_id": i, "sub": sub}
                q.pop(rng.choice(list(q)))
                res = call(iss.ep("trust_mark"), q)
                case.check(not res.ok, "incomplete-request", lambda: f"{q} -> {res}")
                case.count("refused-request")
                hist.append(("incomplete", q))
                continue
            try:
                if how == "http":
                    res = call(iss.ep("trust_mark"), {"trust_mark_id": i, "sub": sub})
                    tok = res.text if res.ok else None
                elif how == "self":
                    tok, res = iss.tme.create_trust_mark(i, sub), None
                else:
                    extra = {"ref": "https://extra.example.org"} if rng.random() < .5 else \
                        {"exp": clock.now() + rng.choice([2, 20])}
                    tok, res = iss.tme.create_trust_mark(i, sub, **extra), None
            except ValueError as err:
                tok, res = None, err
            hist.append(("issue", how, i[-6:], sub[-8:], bool(tok)))
            if i not in iss.spec:
                case.check(tok is None, "unknown-id", lambda: f"{i} -> {tok}")
                case.count("refused-request")
            elif case.check(tok, "not-issued", lambda: f"{i} {sub} -> {res}"):
                row = issued(case, iss, tok, i, sub, extra, hist)
                tokens.append((iss, tok, row))
        elif r < .4:
            dt = rng.choice([1, 1, 4, 6, 30])
            clock.advance(dt)
            hist.append(("time", dt))
        elif r < .43:
            if iss.file:
                iss.start()
                site.host(iss.fe)
                hist.append(("restart", iss.eid))
                case.count("restarts")
            else:
                text = iss.tme.dump_trust_marks()
                iss.start()
                iss.tme.load_trust_marks(text)
                site.host(iss.fe)
                hist.append(("restart with export", iss.eid))
                case.count("restarts")
        elif r < .72:
            how = rng.choice(["http", "http", "client"])
            mode = rng.choice(["sub", "sub-iat", "sub-id"])
            if tokens and rng.random() < .75:
                _, _, row = rng.choice(tokens)
                i, sub, iat = row["id"], row["sub"], row["iat"]
            else:
                i, sub, iat = rng.choice(IDS + ["https://never.example.org"]), rng.choice(SUBS), \
                    clock.now()
            q = {"sub": sub, "trust_mark_id": i}
            if mode == "sub-iat":
                q["iat"] = iat + rng.choice([0, 0, 0, 1, -1])
            if mode == "sub-id" and how == "http":
                q["id"] = q.pop("trust_mark_id")
            got, rep = ask(case, iss, other, client, how, q, rng)
            want = bool(iss.valid(i, sub, q.get("iat", 0)))
            hist.append(("status", how, mode, want))
            case.check(got == want, "status", lambda: f"{iss.eid} {q}: {rep}, wanted {want}\n"
                       f"rows {[x for x in iss.rows if x['id'] == i]}\nat {clock.now()} {hist[-10:]}")
            case.count("active" if want else "inactive")
            if mode == "sub-iat" and not want and iss.valid(i, sub):
                case.count("other-iat")
            case.observed(("status", how, mode, want, bool([x for x in iss.rows if x["id"] == i])))
        elif r < .86:
            kind = rng.choice(["real", "real", "real", "wrong-key", "unsigned", "hs", "tampered",
                               "unrecorded", "garbage", "self-signed", "other-poses"])
            now = clock.now()
            owner, row = iss, None
            if kind in ("real", "tampered", "wrong-key", "unsigned", "hs"):
                if not tokens:
                    continue
                mine = [t for t in tokens if t[0] is iss]
                owner, tok, row = rng.choice(mine if mine and rng.random() < .7 else tokens)
                p = payload_of(tok)
                if rng.random() < .3 and row.get("exp", 0) >= clock.now():
                    clock.set(row["exp"] + rng.choice([0, 1]))
                    now = clock.now()
                if kind == "wrong-key":
                    k = new_key(typ="RSA")
                    tok = sign(p, k, {"kid": rng.choice([k.kid, iss.jwks["keys"][0]["kid"]])})
                elif kind == "unsigned":
                    tok = unsigned(p)
                elif kind == "hs":
                    tok = sign_hs(p, json.dumps(iss.jwks["keys"][0]).encode())
                elif kind == "tampered":
                    tok = retamper(tok, lambda x: x.update(rng.choice(
                        [{"sub": rng.choice([s for s in SUBS if s != p["sub"]])},
                         {"exp": now + 5000}, {"iat": p["iat"] - 1}])))
            else:
                i, sub = rng.choice(IDS), rng.choice(SUBS)
                rec = None
                if iss.rows and rng.random() < .7:
                    rec = rng.choice(iss.rows)
                    i, sub = rec["id"], rec["sub"]
                if kind == "unrecorded":
                    # signed by the issuer, but with a date it issued nothing on
                    tok = iss.tme.self_signed_trust_mark(id=i, sub=sub, iat=now - 17)
                elif kind == "self-signed":
                    tok = iss.tme.self_signed_trust_mark(id=i)
                elif kind == "other-poses":
                    # another issuer says it has issued what this one has
                    tok = other.tme.self_signed_trust_mark(
                        id=i, sub=sub, **({"iat": rec["iat"]} if rec else {}))
                else:
                    tok = rng.choice(["x", "a.b.c", "", "e30.e30."])
            if kind == "unrecorded":
                p = payload_of(tok)
                want = bool(iss.valid(p["id"], p["sub"], p["iat"]))
            elif kind == "self-signed":
                p = payload_of(tok)
                want = bool(iss.valid(p["id"], p["sub"], p.get("iat") or -1))
            else:
                want = kind == "real" and owner is iss and \
                    ("exp" not in row or now <= row["exp"]) and \
                    bool(iss.valid(row["id"], row["sub"], row["iat"]))
            if rng.random() < .3:
                unpacking(case, rng, iss, tok)
            got, rep = ask(case, iss, other, client, "http", {"trust_mark": tok}, rng)
            hist.append(("status by mark", kind, want))
            case.check(got == want, f"status-by-mark:{kind}", lambda: (
                f"{iss.eid} asked about a {kind} mark of {owner.eid}: {rep}, wanted {want}\n{tok}\n"
                f"{row} at {now}\n{hist[-10:]}"))
            case.count("by-token")
            if want:
                case.count("by-token-active")
            elif kind == "real":
                case.count("foreign" if owner is not iss else "expired")
            else:
                case.count("forged")
            case.count("active" if want else "inactive")
            case.observed(("by mark", kind, want, owner is iss))
        else:
            i = rng.choice([x["id"] for x in iss.rows] if iss.rows and rng.random() < .8 else IDS)
            q = {"trust_mark_id": i}
            if rng.random() < .4:
                q["sub"] = rng.choice(SUBS)
            want = {x["sub"] for x in iss.valid(i, q.get("sub"))}
            if "sub" not in q and rng.random() < .4:
                case.count("via-client")
                n = len(net.log)
                client.do_request("trust_mark_list", request_args=q,
                                  fetch_endpoint=iss.ep("trust_mark_list").full_path)
                ev = net.log[n]
                got = json.loads(ev.text) if ev.status == 200 else []
            elif rng.random() < .3:
                got = iss.tme.list(**q)
            else:
                rep = call(iss.ep("trust_mark_list"), q)
                got = rep.json() if rep.ok else []
            case.check(isinstance(got, list) and len(set(got)) == len(got) and set(got) == want,
                       "list", lambda: f"{iss.eid} {q}: {got}, wanted {want}\n{iss.rows}\n{hist[-10:]}")
            case.count("listed" if want else "list-empty")
            hist.append(("list", sorted(q), len(want)))
            case.observed(("list", tuple(sorted(q)), len(want)))
    case.observed(tuple(h[:3] for h in hist), sample=hist)


def auth(case):
    """An endpoint that demands client authentication."""
    rng = case.rng
    d = tempfile.mkdtemp(prefix="fsmon-c14-")
    try:
        iss = Issuer(case, "https://tmi1.example.org", d, auth=True)
        ep = iss.ep("trust_mark")
        client = make_fe("https://client.example.org", services={
            "trust_mark": {"class": "fedservice.entity.client.trust_mark.TrustMark",
                           "kwargs": {"default_authn_method": "private_key_jwt"}}})
        from idpyoidc.key_import import import_jwks
        iss.fe.keyjar = import_jwks(iss.fe.keyjar, client.keyjar.export_jwks(), client.entity_id)
        i = rng.choice(sorted(iss.spec))
        alg = rng.choice(["ES256", "RS256"])
        client.client.context.issuer = iss.eid
        info = client.get_service("trust_mark").get_request_parameters(
            request_args={"trust_mark_id": i, "sub": client.entity_id}, endpoint=ep.full_path,
            audience=ep.full_path, algorithm=alg)
        from urllib.parse import parse_qsl
        q = dict(parse_qsl(info["url"].split("?", 1)[1]))
        kind = rng.choice(["good", "none", "wrong-key", "unsigned", "empty", "only-id"])
        tok = q.get("client_assertion")
        p = payload_of(tok)
        if kind == "none":
            q.pop("client_assertion"), q.pop("client_assertion_type")
        elif kind == "wrong-key":
            k = new_key(typ="EC")
            q["client_assertion"] = sign(p, k, {"kid": rng.choice(
                [k.kid, client.keyjar.export_jwks()["keys"][1]["kid"]])})
        elif kind == "unsigned":
            q["client_assertion"] = unsigned(p)
        elif kind == "empty":
            q["client_assertion"] = ""
        elif kind == "only-id":
            q = {"trust_mark_id": i, "sub": client.entity_id, "client_id": client.entity_id}
        res = call(ep, q, parse_kwargs={"get_client_info": lambda cid, e: {"client_id": cid}})
        recorded = iss.tme.find(i, client.entity_id)
        case.observed(("auth", kind, alg), sample={"kind": kind, "reply": repr(res)[:100]})
        if kind == "good":
            case.count("authenticated")
            if case.check(res.ok and recorded, "authenticated", lambda: f"{res} {res.crash!r}"):
                issued(case, iss, res.text, i, client.entity_id, {}, [])
        else:
            case.count("unauthenticated")
            case.check(not res.ok and not recorded, "unauthenticated",
                       lambda: f"{kind}: {q} -> {res}, recorded {recorded}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.cases("issuers", 350, 8000, one)
    ctx.cases("own marks", 30, 400, own_marks)
    ctx.cases("auth", 50, 600, auth)
