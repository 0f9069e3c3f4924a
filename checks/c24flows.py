"""Part of C24: the other ways to log in (response types and modes), what one can do afterwards
(refresh tokens, log out) and how a client is configured for it."""
import json
from urllib.parse import parse_qsl, urlsplit

from cryptojwt.jws.utils import left_hash

from fsmon import ref
from fsmon.boot import clock
from fsmon.combos import rp_config, standalone_rp_combo
from fsmon.serve import Site, configuration
from fsmon.world import Node, new_key, payload_of, pub, sign, unsigned

RP = "https://rp.client.org"
OP = "https://op.server.org"
TYPES = ["code", "id_token", "id_token token", "code id_token", "code token",
         "code id_token token"]
MODE = {"code": "query"}
REQUIRE = {"flow-ok": 400, "flow-refused": 300, "refreshed": 60, "refresh-refused": 40,
           "logged-out": 60, "configured-args": 100, "no-userinfo": 80, "mode": 60,
           "mode-refused": 20, "collected": 40, "sid": 40, "moved": 80}
REQUIRE.update({"type:" + t: 30 for t in TYPES})
FRONT = ["other-key", "none", "other-nonce", "no-nonce", "other-aud", "other-iss", "expired",
         "missing", "hash", "no-hash", "error", "unknown-state", "other-sub"]


class Model:
    """The provider."""

    def __init__(self, rng, site, key):
        self.rng, self.key, self.site = rng, key, site
        self.mallory = new_key(typ="EC")
        self.calls, self.codes, self.access, self.refresh = [], {}, {}, {}
        self.attack = self.sid = None
        self.status = rng.choice([400, 400, 200])
        site.extra[OP + "/token"] = self.logged(self.token)
        site.extra[OP + "/userinfo"] = self.logged(self.userinfo)
        site.extra[OP + "/reg"] = self.reg

    def logged(self, fn):
        def handler(ev):
            body = ev.body.decode() if isinstance(ev.body, bytes) else ev.body or ""
            form = dict(parse_qsl(body, keep_blank_values=True))
            self.calls.append((ev, form))
            return fn(ev, form)
        return handler

    def reg(self, ev):
        body = ev.body.decode() if isinstance(ev.body, bytes) else ev.body
        md = dict(payload_of(body)["metadata"]["openid_relying_party"], client_id=RP)
        return 200, sign({"iss": OP, "sub": RP, "aud": RP, "iat": clock.now(),
                          "exp": clock.now() + 600, "jwks": {"keys": [pub(self.fed_key)]},
                          "metadata": {"openid_relying_party": md},
                          "trust_anchor_id": "https://ta.example.org"}, self.fed_key), \
            "application/entity-statement+jwt"

    def rnd(self, what):
        return what + "%032x" % self.rng.getrandbits(128)

    def id_token(self, login, how=None, at=None, code=None):
        now = clock.now()
        p = {"iss": OP, "sub": login["sub"], "aud": [RP], "iat": now, "exp": now + 1000,
             "nonce": login["nonce"], "auth_time": now}
        if self.sid:
            p["sid"] = login["sid"]
        p.update(login.get("extra", {}))
        key = self.key
        if at:
            p["at_hash"] = left_hash(at, "HS256")
        if code:
            p["c_hash"] = left_hash(code, "HS256")
        if how == "other-nonce":
            p["nonce"] = "n" * 24
        elif how == "no-nonce":
            del p["nonce"]
        elif how == "other-aud":
            p["aud"] = ["https://rp.other.org"]
        elif how == "other-iss":
            p["iss"] = "https://op.other.org"
        elif how == "expired":
            p.update(iat=now - 5000, exp=now - 400)
        elif how == "hash":
            p.update({h: left_hash("x" * 20, "HS256") for h in ("at_hash", "c_hash") if h in p})
        elif how == "no-hash":
            for h in ("at_hash", "c_hash"):
                p.pop(h, None)
        if how == "none":
            return unsigned(p, {"typ": "JWT"})
        if how == "other-key":
            return sign(p, self.mallory, {"kid": key.kid}, typ="JWT")
        return sign(p, key, typ="JWT")

    def tokens(self, login):
        at, rt = self.rnd("at"), self.rnd("rt")
        self.access[at] = login
        self.refresh[rt] = login
        login["refresh"] = rt
        return at, {"access_token": at, "token_type": "Bearer", "expires_in": 600,
                    "refresh_token": rt}

    def token(self, ev, form):
        if form.get("grant_type") == "refresh_token":
            login = self.refresh.get(form.get("refresh_token"))
            if login is None or self.attack == "refresh-error":
                return self.status, json.dumps({"error": "invalid_grant"}), "application/json"
            if self.attack == "refresh-500":
                return 500, "no", "text/plain"
            at, res = self.tokens(login)
            login["token"] = at
            if login.get("keep"):
                del res["refresh_token"]
                login["refresh"] = form["refresh_token"]
            return 200, json.dumps(res), "application/json"
        login = self.codes.pop(form.get("code"), None)
        if login is None or self.attack == "token-error":
            return self.status, json.dumps({"error": "invalid_grant"}), "application/json"
        at, res = self.tokens(login)
        login["from-code"] = at
        res["id_token"] = self.id_token(login)
        return 200, json.dumps(res), "application/json"

    def userinfo(self, ev, form):
        auth = {k.lower(): v for k, v in ev.headers.items()}.get("authorization", "")
        login = self.access.get(auth[7:]) if auth.startswith("Bearer ") else None
        if login is None:
            return 401, json.dumps({"error": "invalid_token"}), "application/json"
        self.used = auth[7:]
        sub = "somebody-else" if self.attack == "other-sub" else login["sub"]
        return 200, json.dumps({"sub": sub, "name": "N " + login["sub"]}), "application/json"

    def answer(self, login, rtype, how):
        """The authorization response for a response type."""
        parts = rtype.split(" ")
        res = {"state": login["state"]}
        if "code" in parts:
            res["code"] = self.rnd("code")
            self.codes[res["code"]] = login
        if "token" in parts:
            at, r = self.tokens(login)
            del r["refresh_token"]
            login["from-front"] = at
            res.update(r)
        if "id_token" in parts:
            res["id_token"] = self.id_token(login, how, res.get("access_token"), res.get("code"))
            if how == "missing":
                del res["id_token"]
        return res


def flow(case):
    rng = case.rng
    site = Site()
    okey = new_key(typ="EC")
    ta = Node("https://ta.example.org", key_types=("EC",))
    sid_by = rng.choice([None, "backchannel_logout_session_required",
                         "frontchannel_logout_session_required"])
    md = {"issuer": OP, "authorization_endpoint": OP + "/authz", "token_endpoint": OP + "/token",
          "userinfo_endpoint": OP + "/userinfo", "end_session_endpoint": OP + "/logout",
          "federation_registration_endpoint": OP + "/reg",
          "jwks": {"keys": [pub(okey)]}, "response_types_supported": TYPES,
          "response_modes_supported": ["query", "fragment", "form_post"],
          "subject_types_supported": ["public"],
          "id_token_signing_alg_values_supported": ["ES256"],
          "token_endpoint_auth_methods_supported": ["private_key_jwt"],
          "client_registration_types_supported": rng.choice([["automatic"], ["explicit"]])}
    explicit = md["client_registration_types_supported"] == ["explicit"]
    methods = rng.choice([None, {"authorization_endpoint": ["request_object"]}]) if explicit \
        else {"authorization_endpoint": ["request_object"]}
    if methods:
        md["request_authentication_methods_supported"] = methods
    if sid_by:
        md[sid_by] = True
    op = Node(OP, key_types=("EC",), metadata={"openid_provider": md},
              authority_hints=[ta.entity_id])
    ta.subs[OP] = {"jwks": op.jwks()}
    site.add(ta)
    site.add(op)
    prov = Model(rng, site, okey)
    prov.fed_key, prov.sid = op.key, bool(sid_by) and rng.random() < .8
    mine = rng.sample(TYPES, rng.randint(1, 4))
    if rng.random() < .5 and "code" not in mine:
        mine.append("code")
    # (those that idpyoidc can register)
    declared = [t for t in mine if t in ("code", "id_token", "code id_token")] or ["code"]
    modes = rng.choice([None, None, ["query", "fragment"], ["form_post"],
                        ["fragment", "form_post", "query"]])
    with_userinfo = rng.random() < .65
    conf = rp_config(RP, redirect_uris=[RP + "/cb"], preference={
        "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
        "response_types_supported": declared,
        "id_token_signing_alg_values_supported": ["ES256"],
        "token_endpoint_auth_methods_supported": ["private_key_jwt"],
        "client_registration_types": ["automatic", "explicit"]})
    conf["client_authn_methods"] = ["private_key_jwt", "bearer_header"]
    conf["authorization_request_endpoints"] = ["authorization_endpoint"]
    if modes:
        conf["preference"]["response_modes_supported"] = modes
    own_args = {}
    for k, v in (("prompt", "login"), ("ui_locales", ["sv", "en"]), ("login_hint", "anna"),
                 ("claims", {"userinfo": {"name": None}, "id_token": {"email": {"essential": True}}}),
                 ("scope", ["openid", "email"]), ("response_type", rng.choice(mine))):
        if rng.random() < .2:
            own_args[k] = v
    own_args.pop("response_type", None)     # (it isn't meant to be there)
    combo = standalone_rp_combo(RP, conf, authority_hints=[ta.entity_id],
                                anchors={ta.entity_id: ta.jwks()},
                                **{"drop": [] if with_userinfo else ["userinfo"],
                                   "more": {"end_session": {
                                       "class": "idpyoidc.client.oidc.end_session.EndSession"}}})
    site.host(combo)
    site.attach()
    fe, rp = combo["federation_entity"], combo["openid_relying_party"]
    cfg = payload_of(configuration(fe))
    ta.subs[RP] = {"jwks": cfg["jwks"]}
    rpkeys = cfg["metadata"]["openid_relying_party"]["jwks"]
    trail = [explicit, bool(methods), sorted(mine), modes, with_userinfo, sorted(own_args),
             sid_by, prov.sid]
    state = {}

    def what():
        return f"trail {trail}\n{state}\ncalls {[(c.method, c.url, f) for c, f in prov.calls]}"

    from checks.c24 import check_request
    rp.context.issuer = OP
    if own_args:
        rp.context.config["request_args"] = json.loads(json.dumps(own_args))
    rp.do_provider_info()
    rp.do_client_registration()
    info = json.loads(json.dumps(dict(rp.context.provider_info)))
    usage = rp.context.claims.get_usage("response_types") or declared
    seen, logins = set(), []
    for n in range(rng.randint(2, 6)):
        # ---- the request
        rtype = rng.choice(mine)
        args = {"response_type": rtype}
        if rng.random() < .25:
            args = {}
            rtype = "code" if "code" in usage else usage[0]
        default = MODE.get(rtype, "fragment")
        asked_mode = rng.choice([None, None, "query", "fragment", "form_post"]) \
            if rng.random() < .4 else None
        if asked_mode:
            args["response_mode"] = asked_mode
        if asked_mode or modes or rtype not in declared:
            args["redirect_uri"] = RP + "/cb"      # (idpyoidc can't choose among several)
        try:
            url, err = rp.init_authorization(req_args=dict(args) or None), None
        except Exception as e:
            url, err = None, e
        state["request"] = repr(err or url)[:2500]
        trail.append(["ask", rtype, asked_mode, bool(url)])
        supported = rp.context.claims.get_usage("response_modes")
        state["modes"] = supported
        if asked_mode and supported and asked_mode not in supported:
            case.count("mode-refused")
            case.check(url is None, "unsupported-response-mode", what)
            continue
        if not case.check(url is not None, "no-request", what):
            return
        want = dict(own_args)
        want.update(args, response_type=rtype.split(" "))
        if methods:
            got_type = payload_of(dict(parse_qsl(urlsplit(url).query))["request"])["response_type"]
        else:
            got_type = dict(parse_qsl(urlsplit(url).query))["response_type"]
        case.check(sorted(got_type if isinstance(got_type, list) else got_type.split(" ")) ==
                   sorted(rtype.split(" ")), "request-response-type", what)
        want.pop("response_type")
        want.pop("response_mode", None)
        if "scope" in want:
            want["scope"] = list(want["scope"])
        if own_args:
            case.count("configured-args")
        p = check_request(case, url, info["authorization_endpoint"], bool(methods), rpkeys, RP,
                          [RP + "/cb"], want, what, seen, ("nonce",))
        if case.failed or p is None:
            return
        # a mode is asked for if it isn't the one that is used anyway
        eff = p.get("response_mode", default)
        if asked_mode:
            case.count("mode")
            case.check(eff == asked_mode, "response-mode", what)
        elif supported:
            case.count("mode")
            case.check(eff in supported, "response-mode", what)
        # ---- the answer
        login = {"sub": "user%d" % n, "state": p["state"], "nonce": p["nonce"],
                 "sid": "sid%d-%d" % (n, rng.randrange(999)), "keep": rng.random() < .5,
                 "extra": rng.choice([{}, {"email": "u@x.org", "given_name": "U",
                                           "eduperson": "staff"}])}
        parts = rtype.split(" ")
        prov.attack = None
        how = rng.choice([None, None, None] + FRONT + ["token-error"])
        if how in ("other-key", "none", "other-nonce", "no-nonce", "other-aud", "other-iss",
                   "expired", "missing") and "id_token" not in parts:
            how = None
        if how in ("hash", "no-hash") and ("id_token" not in parts or len(parts) < 2):
            how = None
        if how == "missing" and rtype == "code id_token":
            how = None            # taken from the token endpoint
        if how == "token-error" and "code" not in parts:
            how = None
        resp = prov.answer(login, rtype, how)
        collect = "token" in parts and "code" in parts and rng.random() < .5
        if how == "token-error" and "token" in parts and not collect:
            how = None
        has_idt = "id_token" in parts or rtype == "code" or collect
        if how == "other-sub" and (not has_idt or not with_userinfo or rtype == "id_token"):
            how = None
        if how == "error":
            resp = {"error": "access_denied", "state": login["state"]}
        elif how == "unknown-state":
            resp["state"] = rng.choice(["x" * 20, login["state"][:-1]])
        prov.attack = how
        del prov.calls[:]
        prov.used = None
        try:
            res = rp.finalize(dict(resp), **({"behaviour_args": {"collect_tokens": True}}
                                             if collect else {}))
            ok = isinstance(res, dict) and "error" not in res
        except Exception as err:
            res, ok = err, False
        trail.append([how, collect, ok])
        state["login"] = f"{rtype} {how} {login} {resp} -> {res!r}"
        case.check(ok == (how is None), "login-refused" if how is None else "attack-" + how, what)
        if case.failed:
            return
        if not ok:
            case.count("flow-refused")
            if how == "error":
                case.check(isinstance(res, dict) and res.get("error") == "access_denied",
                           "error-not-passed-on", what)
            if how not in ("other-sub", "token-error"):
                try:
                    active = bool(rp.has_active_authentication(login["state"]))
                except KeyError:
                    active = False
                case.check(not active, "session-without-login", what)
            continue
        case.count("flow-ok")
        case.count("type:" + " ".join(sorted(parts)))
        # which token one gets, and from where
        at = login.get("from-code") if collect or "token" not in parts else login["from-front"]
        if collect:
            case.count("collected")
        login["token"] = at
        asked = [c.path for c, _ in prov.calls]
        expected = ([info["token_endpoint"]] if rtype in ("code", "code id_token") or collect
                    else []) + ([info["userinfo_endpoint"]] if with_userinfo and at else [])
        case.check(asked == expected, "wrong-endpoint", lambda: f"{expected}\n" + what())
        case.check(res["token"] == at and res["state"] == login["state"] and
                   res["issuer"] == OP, "wrong-result", what)
        case.check(not prov.used or prov.used == at, "wrong-token", what)
        case.check(bool(res["id_token"]) == has_idt, "id-token", what)
        if has_idt:
            case.check(res["id_token"]["sub"] == login["sub"] and
                       res["id_token"]["nonce"] == login["nonce"], "wrong-user", what)
        ui = res["userinfo"]
        if with_userinfo and at:
            case.check(ui["sub"] == login["sub"] and ui["name"] == "N " + login["sub"],
                       "wrong-user", what)
        elif has_idt:
            case.count("no-userinfo")
            case.check(ui.get("sub") == login["sub"] and
                       all(ui.get(k) == v for k, v in login["extra"].items()), "userinfo-in-id-token",
                       what)
        else:
            case.check(not ui, "userinfo-from-nowhere", what)
        case.check(bool(rp.has_active_authentication(login["state"])) == has_idt,
                   "session-lifetime", what)
        base = rp.context.cstate
        if has_idt or ui:
            case.check(base.get_base_key(login["sub"]) == login["state"], "user-not-bound", what)
        if has_idt and prov.sid and sid_by:
            case.count("sid")
            try:
                bound = base.get_base_key(login["sid"])
            except KeyError:
                bound = None
            case.check(bound == login["state"], "session-not-bound", what)
        logins.append(login)
        # ---- and then
        if rng.random() < .6 and login.get("refresh") and \
                (rtype in ("code", "code id_token") or collect):
            for _ in range(rng.randint(1, 2)):
                clock.advance(rng.choice([0, 100, 700]))
                prov.attack = rng.choice([None, None, "refresh-error", "refresh-500"])
                scope = rng.choice(["", "openid email"])
                old, used = login["token"], login["refresh"]
                del prov.calls[:]
                try:
                    r = rp.refresh_access_token(login["state"], **({"scope": scope} if scope else {}))
                    got = r.get("access_token")
                except Exception as err:
                    r, got = err, None
                state["refresh"] = f"{prov.attack} {scope} {login} -> {r!r}"
                trail.append(["refresh", prov.attack, scope])
                case.check(isinstance(r, Exception) or prov.attack is None, "refresh-error-swallowed",
                           what)
                case.check(bool(got) == (prov.attack is None), "refresh", what)
                if case.check(len(prov.calls) == 1, "refresh-requests", what):
                    ev, form = prov.calls[0]
                    case.check(ev.path == info["token_endpoint"] and
                               form.get("grant_type") == "refresh_token" and
                               form.get("refresh_token") == used and
                               (not scope or form.get("scope") == scope), "refresh-request", what)
                    tok = form.get("client_assertion", "")
                    case.check(ref.signed_by(tok, rpkeys), "client-authentication", what)
                if prov.attack is None:
                    case.count("refreshed")
                    case.check(got == login["token"] != old, "refresh-result", what)
                    case.check(rp.get_valid_access_token(login["state"])[0] == got,
                               "refreshed-token-lost", what)
                else:
                    case.count("refresh-refused")
                if case.failed:
                    return
            prov.attack = None
        if rng.random() < .4:
            case.count("logged-out")
            back = rng.choice(["", RP + "/bye"])
            out = rng.choice([rp.logout, rp.close])(login["state"], *([back] if back else []))
            u = urlsplit(out["url"])
            q = dict(parse_qsl(u.query))
            state["logout"] = out["url"][:1500]
            trail.append(["logout", back])
            case.check(f"{u.scheme}://{u.netloc}{u.path}" == info["end_session_endpoint"],
                       "wrong-endpoint", what)
            case.check(q.get("post_logout_redirect_uri", "") == back, "logout-redirect", what)
            case.check(q.get("state") and q["state"] not in seen, "logout-state", what)
            seen.add(q.get("state"))
            if has_idt:
                hint = q.get("id_token_hint", "")
                case.check(bool(hint) and payload_of(hint).get("sub") == login["sub"],
                           "logout-hint", what)
            case.check(base.get_base_key(q["state"]) == login["state"], "logout-state", what)
            if rng.random() < .5:
                rp.clear_session(login["state"])
                logins.remove(login)
                try:
                    active = bool(rp.has_active_authentication(login["state"]))
                except KeyError:
                    active = False
                case.check(not active, "session-lifetime", what)
        # those of others are as they were
        for lg in logins:
            if lg is login:
                continue
            try:
                tok = rp.get_valid_access_token(lg["state"])[0]
            except Exception:
                tok = None
            case.check(tok in (None, lg["token"]), "mixed-up", what)
        if case.failed:
            return
    if rng.random() < .5:
        moved(case, rng, site, ta, rp, md, mine, prov, trail, state, what)
    case.observed(json.dumps(trail), True, sample={"trail": trail})


def moved(case, rng, site, ta, rp, md, mine, prov, trail, state, what):
    """The client turns to another provider while someone is logging in at the first. The answer
    from the first isn't the second's, which must not get to see it."""
    other, key = "https://op2.server.org", new_key(typ="EC")
    md2 = json.loads(json.dumps(md).replace(OP, other))
    md2.update(jwks={"keys": [pub(key)]}, client_registration_types_supported=["automatic"])
    op2 = Node(other, key_types=("EC",), metadata={"openid_provider": md2},
               authority_hints=[ta.entity_id])
    ta.subs[other] = {"jwks": op2.jwks()}
    site.add(op2)
    calls = []

    def spy(ev):
        calls.append((ev.method, ev.url, ev.body, dict(ev.headers)))
        return 200, json.dumps({"access_token": "x" * 20, "token_type": "Bearer",
                                "sub": "user"}), "application/json"
    for path in ("/token", "/userinfo"):
        site.extra[other + path] = spy
    rtype = rng.choice(mine)
    args = {"response_type": rtype, "redirect_uri": RP + "/cb"}
    url = rp.init_authorization(req_args=dict(args))
    q = dict(parse_qsl(urlsplit(url).query))
    p = payload_of(q["request"]) if "request" in q else q
    login = {"sub": "user-moved", "state": p["state"], "nonce": p["nonce"], "sid": "sid-m"}
    prov.attack = None
    rp.context.issuer = other
    rp.context.provider_info = {}
    try:
        got = rp.do_provider_info()
    except Exception as err:
        got = err
    state["moved"] = f"{rtype} {got!r}"
    if not case.check(got == other, "other-provider", what):
        return
    trail.append(["moved", rtype])
    case.count("moved")
    resp = prov.answer(login, rtype, None)
    del prov.calls[:]
    try:
        res = rp.finalize(dict(resp))
        ok = isinstance(res, dict) and "error" not in res
    except Exception as err:
        res, ok = err, False
    state["moved"] = f"{rtype} {login} {resp} -> {res!r}\nother provider: {calls}"
    case.check(not ok, "answer-of-another-provider", what)
    case.check(not calls, "answer-sent-to-another-provider", what)
