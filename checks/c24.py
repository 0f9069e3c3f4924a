"""C24: logging in through a federation."""
import base64
import json
from urllib.parse import parse_qsl, urlsplit

from checks.c06 import compatible_ops, random_ops
from checks.c08 import graph, simple_paths
from checks.c16 import Log
from checks import c18, c24flows
from checks.c18 import outcomes
from fsmon import ref
from fsmon.boot import clock
from fsmon.combos import (as_combo, oauth_client_combo, op_combo, rp_combo, rp_config,
                          standalone_rp_combo)
from fsmon.serve import Site, configuration
from fsmon.world import Node, b64, new_key, payload_of, pub, sign, unsigned

LEVEL = "exploration"
RULE = ("Relying parties of the repository log in, several times and interleaved, with a model "
        "provider in random federations with policies: the provider's metadata is collected and "
        "verified, the client registers automatically or explicitly, makes authorization requests, "
        "fetches tokens and user info; the provider's and the user agent's answers are genuine or "
        "attacked in one of 20 ways, or come when the client has turned to another provider. In a "
        "second family clients (OpenID Connect, OAuth2) make authorization requests to the "
        "repository's own servers. Oracle: metadata recomputed, request objects, "
        "client assertions and endpoints judged independently, a login succeeds exactly if everything "
        "in it was genuine. Distinct = history.")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "idpyoidc does the OpenID Connect part (tokens, client authentication); it is observed as part "
    "of the whole and taken as it is",
    "the audience of OpenID Connect request objects isn't looked at (idpyoidc 5.0.0 sets it to a "
    "constant)",
    "a client that was given a client ID other than its entity ID may still put the latter in its "
    "client assertions (idpyoidc 5.0.0)",
    "pushed authorization requests: only that there aren't any without the add-on",
    "a client has one provider at a time",
]
REQUIRE = {"provider": 400, "no-provider": 100, "policy-changed": 60, "registered": 80,
           "registration-refused": 30, "no-common-type": 20, "request": 500, "request-signed": 300,
           "request-plain": 30, "request-refused": 40, "login-ok": 400, "login-refused": 300,
           "session-ended": 60, "interleaved": 60, "client-auth": 300, "userinfo": 400,
           "a:unknown-state": 10, "a:swap": 8, "a:other-key": 10, "a:none": 10, "a:hmac": 10,
           "a:other-nonce": 10, "a:other-aud": 10, "a:other-iss": 10, "a:expired": 10,
           "a:other-sub": 10, "a:replay": 8, "a:error": 10,
           "e2e-accepted": 40, "authz-signed": 80, "authz-refused": 60, "authz-plain": 40}

RP = "https://rp.client.org"
CONTACTS = ["a@x.org", "b@x.org", "c@x.org"]
NAMES = ["one", "two", "three"]
UNIV = {"contacts": CONTACTS, "organization_name": NAMES}
SIGNED_AT = {"authorization_endpoint": ["request_object"]}
METHODS = [None, SIGNED_AT, SIGNED_AT, SIGNED_AT,
           {"authorization_endpoint": ["private_key_jwt", "request_object"],
            "token_endpoint": ["private_key_jwt"]},
           {"authorization_endpoint": ["private_key_jwt"]},
           {"token_endpoint": ["private_key_jwt"]}, {}]
ENDPOINTS = [["authorization_endpoint"]] * 4 + [["token_end_point_x", "authorization_endpoint"],
                                                [], None]


def how_to_ask(methods, endpoints, registered):
    """signed, plain or refused: how an authorization request may be made."""
    if methods:
        for e in endpoints or []:
            if e in methods:
                return "signed" if e == "authorization_endpoint" and \
                    "request_object" in methods[e] else "refused"
    return "plain" if registered else "refused"


def check_request(case, url, endpoint, signed, jwks, cid, redirect_uris, args, what,
                  seen, params=()):
    """An authorization request as the user agent gets it. Returns what it says."""
    u = urlsplit(url)
    case.check(f"{u.scheme}://{u.netloc}{u.path}" == endpoint, "wrong-endpoint", what)
    q = dict(parse_qsl(u.query, keep_blank_values=True))
    case.check(len(q) == len(parse_qsl(u.query, keep_blank_values=True)), "malformed", what)
    p = q
    if signed:
        case.count("request-signed")
        if not case.check("request" in q and ref.signed_by(q["request"], jwks), "not-signed", what):
            return None
        p = payload_of(q["request"])
        case.check(p.get("iss") == cid, "request-issuer", what)
        case.check(clock.now() < p.get("exp", 0) <= clock.now() + 300, "request-expiry", what)
        case.check(p.get("jti") and p["jti"] not in seen, "request-id-reused", what)
        seen.add(p.get("jti"))
        case.check(all(p.get(k) == v for k, v in q.items() if k != "request"),
                   "request-inconsistent", what)
    else:
        case.count("request-plain")
        case.check("request" not in q and "request_uri" not in q, "malformed", what)
    case.check(p.get("client_id") == cid, "request-client-id", what)
    case.check(p.get("redirect_uri") in redirect_uris, "request-redirect-uri", what)
    for k, v in args.items():
        got = p.get(k)
        if k == "claims" and isinstance(got, str):
            got = json.loads(got)
        if isinstance(v, list) and isinstance(got, str):
            got = got.split(" ")
        case.check(got == v, "request-argument", lambda: f"{k}: {got!r} for {v!r}\n" + what())
    for k in ("state",) + tuple(params):
        if case.check(isinstance(p.get(k), str) and len(p[k]) >= 16, "request-" + k, what) \
                and k not in args:
            case.check(p[k] not in seen, f"{k}-reused", what)
            seen.add(p[k])
    return p


def same(a, b):
    """(the keys lose some of their attributes when they're loaded)"""
    a, b = [dict(x, jwks=sorted(k.get("kid") for k in x["jwks"]["keys"])) for x in (a, b)]
    return c18.same(a, b)


class Provider:
    """A model OpenID provider."""

    def __init__(self, case, site, node, ta_id, key):
        self.case, self.site, self.node, self.ta_id, self.key = case, site, node, ta_id, key
        self.calls, self.codes, self.tokens = [], {}, {}
        self.attack, self.reg_attack, self.client = None, None, None
        self.mallory = new_key(typ="EC")
        self.assigned = None
        for path, fn in (("/token", self.token), ("/token2", self.token),
                         ("/userinfo", self.userinfo), ("/userinfo2", self.userinfo),
                         ("/reg", self.reg)):
            site.extra[node.entity_id + path] = self.logged(fn)

    def logged(self, fn):
        def handler(ev):
            self.calls.append(ev)
            return fn(ev)
        return handler

    def body(self, ev):
        return ev.body.decode() if isinstance(ev.body, bytes) else ev.body or ""

    def reg(self, ev):
        md = payload_of(self.body(ev))["metadata"]["openid_relying_party"]
        self.assigned = self.case.rng.choice([RP, "id%d" % self.case.rng.randrange(999)])
        md = dict(md, client_id=self.assigned, client_secret="%048x" %
                  self.case.rng.getrandbits(190))
        self.secret = md["client_secret"]
        p = {"iss": self.node.entity_id, "sub": RP, "aud": RP, "iat": clock.now(),
             "exp": clock.now() + 600, "jwks": self.node.jwks(),
             "metadata": {"openid_relying_party": md}, "trust_anchor_id": self.ta_id}
        ct = "application/entity-statement+jwt"
        how = self.reg_attack
        if how == "forged":
            return 200, sign(p, self.mallory, {"kid": self.node.key.kid}), ct
        if how == "own-keys":
            p["jwks"] = {"keys": [pub(self.mallory)]}
            return 200, sign(p, self.mallory), ct
        if how == "error":
            return 400, json.dumps({"error": "invalid_request"}), "application/json"
        if how == "garbage":
            return 200, json.dumps(md), "application/json"
        if how == "down":
            return 500, "no", "text/plain"
        return 200, sign(p, self.node.key), ct

    def token(self, ev):
        how = self.attack
        form = dict(parse_qsl(self.body(ev), keep_blank_values=True))
        login = self.codes.pop(form.get("code"), None)
        if login is None or how == "token-error":
            return 400, json.dumps({"error": "invalid_grant"}), "application/json"
        now, eid = clock.now(), self.node.entity_id
        p = {"iss": eid, "sub": login["sub"], "aud": [login["client_id"]], "iat": now,
             "exp": now + 1000, "nonce": login["nonce"],
             "auth_time": now}
        key = self.key
        if how == "other-nonce":
            p["nonce"] = "n" * 24
        elif how == "other-aud":
            p["aud"] = ["https://rp.other.org"]
        elif how == "other-iss":
            p["iss"] = "https://op.other.org"
        elif how == "expired":
            p.update(iat=now - 5000, exp=now - 400)
        idt = sign(p, key, typ="JWT")
        if how == "other-key":
            idt = sign(p, self.mallory, {"kid": key.kid}, typ="JWT")
        elif how == "none":
            idt = unsigned(p, {"typ": "JWT"})
        elif how == "hmac":
            import hashlib
            import hmac
            si = b64(json.dumps({"alg": "HS256", "typ": "JWT"}).encode()) + "." + \
                b64(json.dumps(p).encode())
            k = self.case.rng.choice([json.dumps(pub(key)), key.kid, "", RP])
            idt = si + "." + b64(hmac.new(k.encode(), si.encode(), hashlib.sha256).digest())
        if how == "token-garbage":
            return 200, "<html>", "text/html"
        if how == "token-500":
            return 500, "no", "text/plain"
        at = "at%032x" % self.case.rng.getrandbits(128)
        self.tokens[at] = login
        login["token"] = at
        res = {"access_token": at, "token_type": "Bearer", "expires_in": 600, "id_token": idt}
        if how == "no-token":
            del res["access_token"]
        return 200, json.dumps(res), "application/json"

    def userinfo(self, ev):
        how = self.attack
        auth = {k.lower(): v for k, v in ev.headers.items()}.get("authorization", "")
        login = self.tokens.get(auth[len("Bearer "):]) if auth.startswith("Bearer ") else None
        if login is None or how == "userinfo-error":
            return 401, json.dumps({"error": "invalid_token"}), "application/json"
        if how == "userinfo-garbage":
            return 200, "<html>", "text/html"
        if how == "userinfo-500":
            return 500, "no", "text/plain"
        sub = "somebody-else" if how == "other-sub" else login["sub"]
        return 200, json.dumps({"sub": sub, "name": "N " + login["sub"]}), "application/json"


ATTACKS = ["unknown-state", "swap", "error", "error-no-state", "no-code", "replay",
           "other-key", "none", "hmac", "other-nonce", "other-aud", "other-iss", "expired",
           "token-error", "token-garbage", "token-500", "no-token",
           "other-sub", "userinfo-error", "userinfo-garbage", "userinfo-500"]


def client_auth(case, ev, form, method, cid, secret, jwks, endpoint, issuer, what):
    case.count("client-auth")
    hdr = {k.lower(): v for k, v in ev.headers.items()}.get("authorization", "")
    if method == "private_key_jwt":
        tok = form.get("client_assertion", "")
        ok = ref.signed_by(tok, jwks) and form.get("client_assertion_type") == \
            "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
        if case.check(ok, "client-authentication", what):
            p = payload_of(tok)
            aud = p["aud"] if isinstance(p["aud"], list) else [p["aud"]]
            case.check(p["iss"] == p["sub"] and p["sub"] in (cid, RP) and set(aud) <= {endpoint, issuer} and aud and
                       p["exp"] > clock.now(), "client-authentication", what)
    elif method == "client_secret_basic":
        case.check(hdr.startswith("Basic ") and base64.b64decode(hdr[6:]).decode() in
                   (f"{cid}:{secret}", f"{cid.replace(':', '%3A').replace('/', '%2F')}:{secret}"),
                   "client-authentication", what)
    else:
        case.check(form.get("client_id") == cid and form.get("client_secret") == secret,
                   "client-authentication", what)


def login(case):
    rng = case.rng
    nodes, tas, op = graph(rng)
    while op in tas:
        nodes, tas, op = graph(rng)
    site = Site()
    for n in nodes:
        n.metadata.setdefault("federation_entity", {})
        site.add(n)
    mine = [t for t in tas if rng.random() < .85] or tas[:1]
    eid = op.entity_id
    paths = simple_paths(op, {n.entity_id: n for n in nodes}, mine)
    above = [t for t in mine if any(p[-1] is t for p in paths)]
    boss = rng.choice(above if above and rng.random() < .9 else mine)
    okey = new_key(typ="EC")
    md = {"issuer": eid if rng.random() < .93 else rng.choice(
              ["https://op.other.org", eid + "/", boss.entity_id]),
          "authorization_endpoint": eid + "/authz", "token_endpoint": eid + "/token",
          "userinfo_endpoint": eid + "/userinfo", "federation_registration_endpoint": eid + "/reg",
          "jwks": {"keys": [pub(okey)]}, "response_types_supported": ["code"],
          "subject_types_supported": ["public"], "id_token_signing_alg_values_supported": ["ES256"],
          "token_endpoint_auth_methods_supported": ["private_key_jwt", "client_secret_basic",
                                                    "client_secret_post"],
          "client_registration_types_supported": rng.choice(
              [["automatic"], ["automatic"], ["explicit"], ["automatic", "explicit"]]),
          "contacts": rng.sample(CONTACTS, rng.randint(1, 3)),
          "organization_name": rng.choice(NAMES)}
    methods = rng.choice(METHODS)
    if methods is not None:
        md["request_authentication_methods_supported"] = methods
    op.metadata.clear()
    op.metadata.update({"openid_provider": md, "federation_entity": {}})
    for n in nodes:
        for s, sub in n.subs.items():
            if rng.random() < .6:
                continue
            pol = {}
            for c in rng.sample(sorted(UNIV), rng.choice([0, 1, 1, 2])):
                if rng.random() < .1:
                    pol[c] = random_ops(rng, c == "contacts", UNIV[c])
                else:
                    pol[c] = compatible_ops(rng, c == "contacts", UNIV[c], md[c])
            if rng.random() < .25:
                pol["token_endpoint"] = {"value": eid + "/token2"}
            if rng.random() < .15:
                pol["userinfo_endpoint"] = {"value": eid + "/userinfo2"}
            if pol:
                sub["metadata_policy"] = {"openid_provider": pol}
            if s == eid and rng.random() < .15:
                sub["metadata"] = {"openid_provider": {"authorization_endpoint": eid + "/authz2"}}
    # some of what the client gets to see isn't genuine
    mallory = Node("https://mallory.example.net", key_types=("EC",))
    for n in nodes:
        for s in n.subs:
            if rng.random() < (.06 if s != eid else .12):
                def forged(ev, node, sub):
                    p = payload_of(node.es(sub))
                    p["metadata"] = {"openid_provider": {"token_endpoint": eid + "/token2"}}
                    return 200, sign(p, mallory.key, {"kid": node.key.kid}), \
                        "application/entity-statement+jwt"
                site.faults[("es", n.entity_id, s)] = \
                    lambda ev, node, *a, s=s: forged(ev, node, s)
    endpoints = rng.choice(ENDPOINTS)
    auth = rng.choice(["private_key_jwt"] * 3 + ["client_secret_basic", "client_secret_post"])
    types = rng.choice([["automatic", "explicit"], ["automatic", "explicit"], ["automatic"],
                        ["explicit"]])
    if set(types) & set(md["client_registration_types_supported"]) == {"automatic"}:
        auth = "private_key_jwt"           # it has nothing else to authenticate with
    conf = rp_config(RP, redirect_uris=[RP + "/cb"] if rng.random() < .7 else
                     [RP + "/cb", RP + "/cb2"],
                     preference={
        "grant_types_supported": ["authorization_code", "refresh_token"],
        "response_types_supported": ["code"],
        "id_token_signing_alg_values_supported": ["ES256"],
        "token_endpoint_auth_methods_supported": [auth],
        "client_registration_types": types})
    conf["client_authn_methods"] = ["private_key_jwt", "client_secret_basic",
                                    "client_secret_post", "bearer_header"]
    if endpoints is not None:
        conf["authorization_request_endpoints"] = endpoints
    combo = standalone_rp_combo(RP, conf, authority_hints=[boss.entity_id],
                                anchors={t.entity_id: t.jwks() for t in mine})
    site.host(combo)
    site.attach(budget=80000)
    fe, rp = combo["federation_entity"], combo["openid_relying_party"]
    cfg = payload_of(configuration(fe))
    boss.subs[RP] = {"jwks": cfg["jwks"]}
    rpkeys = cfg["metadata"]["openid_relying_party"]["jwks"]
    me = Node(RP, key_types=("EC",), authority_hints=[boss.entity_id])
    prov = Provider(case, site, op, boss.entity_id, okey)
    log = Log(site)
    trail = [types, md["client_registration_types_supported"], methods and sorted(methods),
             endpoints, auth]
    state = {}

    def what():
        return (f"trail {trail}\n{state}\nprovider {rp.context.provider_info}\npolicies "
                f"{[(n.entity_id, s, sub.get('metadata_policy')) for n in nodes for s, sub in n.subs.items()]}\n"
                f"mine {[m.entity_id for m in mine]}\n"
                f"calls {[(c.method, c.url, str(c.body)[:300]) for c in prov.calls]}")

    def done():
        case.observed(json.dumps(trail), True, sample={"trail": trail})

    # ---- who is the provider
    rp.context.issuer = eid
    try:
        got, ok = rp.do_provider_info(), True
    except Exception as err:
        got, ok = err, False
    log.update()
    state["provider_info"] = repr(got)[:300]
    outs = outcomes(log, paths, "openid_provider", None)
    good = [m for v, m in outs if v != "refuse" and m and m["issuer"] == eid]
    trail.append(ok)
    if ok:
        case.count("provider")
        fits = [m for m in good if same(rp.context.provider_info, m)]
        if not case.check(bool(fits) and got == eid, "unverified-provider",
                          lambda: f"acceptable {good}\n" + what()):
            return
        if any(not same(m, md) for m in fits):
            case.count("policy-changed")
    else:
        case.count("no-provider")
        case.check(not (outs and len(good) == len(outs) and len(paths) == len(outs) and
                        all(v == "accept" for v, _ in outs)), "refused-provider",
                   lambda: f"acceptable {good}\n" + what())
        try:
            url = rp.init_authorization()
        except Exception:
            url = None
        case.check(url is None, "request-to-unverified-provider", lambda: f"{url}\n" + what())
        case.check(not prov.calls, "contacted-unverified-provider", what)
        done()
        return
    info = json.loads(json.dumps(dict(rp.context.provider_info)))
    # ---- registration
    common = set(types) & set(md["client_registration_types_supported"])
    prov.reg_attack = rng.choice([None] * 5 + ["forged", "own-keys", "error", "garbage", "down"])
    try:
        rp.do_client_registration()
        reg = True
    except Exception as err:
        reg = False
        state["registration"] = repr(err)[:300]
    trail += [prov.reg_attack, reg]
    registered = False
    if not common:
        case.count("no-common-type")
        case.check(not reg and not prov.calls, "no-common-registration-type", what)
    elif common == {"automatic"}:
        case.check(reg and not prov.calls, "automatic-registration", what)
    else:
        case.check(len(prov.calls) == 1 and prov.calls[0].url == info[
            "federation_registration_endpoint"], "registration-endpoint", what)
        if prov.reg_attack:
            case.count("registration-refused")
            case.check(not reg, "accepted-registration", what)
        else:
            # is there a genuine trust chain to the trust anchor that the provider says it uses
            vouched = any(v == "accept" for v, _ in outcomes(
                log, [p for p in paths if p[-1] is boss], "openid_provider", None))
            # (a client that finds several chains of its own to it gives up)
            alone = len(simple_paths(
                me, dict({n.entity_id: n for n in nodes}, **{RP: me}), [boss])) == 1
            case.check(reg or not (vouched and alone), "refused-registration", what)
            registered = reg
            if reg:
                case.count("registered")
    if case.failed or not reg and (rng.random() < .5 or auth != "private_key_jwt"):
        done()
        return
    cid = prov.assigned if registered else RP
    del prov.calls[:]
    pending, over, seen = [], [], set()
    expect = how_to_ask(methods, endpoints, registered)
    nlogins = 0
    for step in range(rng.randint(2, 14)):
        if nlogins == 0 or (rng.random() < .45 and len(pending) < 4):
            args = {}
            for k, v in (("login_hint", rng.choice(["anna", "bö rje", "c&d=e"])),
                         ("prompt", "login"), ("ui_locales", ["sv", "en"]), ("max_age", 100),
                         ("response_type", "code"),
                         ("claims", {"userinfo": {"name": None}}),
                         ("scope", ["openid", "profile"]), ("redirect_uri", RP + "/cb")):
                if rng.random() < .15:
                    args[k] = v
            if "claims" in args:
                from idpyoidc.message.oidc import ClaimsRequest
                sent = dict(args, claims=ClaimsRequest(**args["claims"]))
            else:
                sent = dict(args)
            try:
                url, err = rp.init_authorization(req_args=sent or None), None
            except Exception as e:
                url, err = None, e
            state["request"] = repr(err or url)[:2500]
            trail.append(["ask", sorted(args), bool(url)])
            if expect == "refused":
                case.count("request-refused")
                case.check(url is None, "unauthenticated-request", what)
                case.check(type(err).__name__ in ("OtherError", "UnSupported"), "wrong-error",
                           what)
                break
            case.count("request")
            if not case.check(url is not None, "no-request", what):
                return
            if "max_age" in args and expect == "plain":
                args["max_age"] = "100"
            p = check_request(case, url, info["authorization_endpoint"], expect == "signed",
                              rpkeys, cid, conf["redirect_uris"], args, what, seen,
                              ("nonce",))
            if case.failed or p is None:
                return
            sc = p.get("scope")
            case.check("openid" in (sc.split() if isinstance(sc, str) else sc or []),
                       "request-scope", what)
            code = "code%032x" % rng.getrandbits(128)
            lg = {"code": code, "state": p["state"], "nonce": p["nonce"], "client_id": cid,
                  "redirect_uri": p["redirect_uri"], "sub": "user%d" % nlogins}
            prov.codes[code] = lg
            pending.append(lg)
            nlogins += 1
            continue
        if over and rng.random() < .25:
            # what became of a login
            lg = rng.choice(over)
            t = rng.choice([0, 0, 300, 601, 1001])
            clock.advance(t)
            age = clock.now() - lg["at"]
            what_then = rng.choice(["look", "look", "clear"])
            if what_then == "clear":
                rp.clear_session(lg["state"])
                lg["gone"] = True
            try:
                active = bool(rp.has_active_authentication(lg["state"]))
            except KeyError:
                active = False
            try:
                tok = rp.get_valid_access_token(lg["state"])[0]
            except Exception:
                tok = None
            live = not lg.get("gone")
            state["then"] = f"{lg} age {age} active {active} token {tok}"
            trail.append(["then", what_then, t])
            case.check(active == (live and age < 1000), "session-lifetime", what)
            case.check(tok == (lg["token"] if live and age < 600 else None),
                       "token-lifetime", what)
            if not active:
                case.count("session-ended")
            continue
        if not pending and not over:
            continue
        how = rng.choice(["genuine"] * 14 + ATTACKS * 1)
        if how == "replay":
            if not over:
                continue
            lg = rng.choice(over)
        else:
            if not pending:
                continue
            lg = rng.choice(pending)
        if how == "swap" and len(pending) < 2:
            continue
        if len(pending) > 1:
            case.count("interleaved")
        case.count("a:" + how)
        resp = {"code": lg["code"], "state": lg["state"]}
        touched = [lg]
        if how == "unknown-state":
            resp["state"] = rng.choice(["", "x" * 20, lg["state"][:-1]])
        elif how == "swap":
            other = rng.choice([o for o in pending if o is not lg])
            resp["code"] = other["code"]
            touched.append(other)
        elif how == "error":
            resp = {"error": "access_denied", "state": lg["state"]}
        elif how == "error-no-state":
            resp = {"error": "access_denied"}
        elif how == "no-code":
            del resp["code"]
        prov.attack = how
        del prov.calls[:]
        try:
            res = rp.finalize(dict(resp))
            ok = isinstance(res, dict) and "error" not in res
        except Exception as err:
            res, ok = err, False
        trail.append([how, ok])
        state["login"] = f"{how} {lg} -> {res!r}"
        case.check(ok == (how == "genuine"), "login-refused" if how == "genuine" else
                   "attack-" + how, what)
        if how in ("error", "error-no-state"):
            case.check(isinstance(res, dict) and res.get("error") == "access_denied",
                       "error-not-passed-on", what)
        # what was asked of the provider
        urls = [c.path for c in prov.calls]
        want = [info["token_endpoint"], info["userinfo_endpoint"]]
        case.check(urls == want[:len(urls)], "wrong-endpoint", what)
        if how in ("unknown-state", "error", "error-no-state", "no-code"):
            case.check(not urls, "contacted-without-need", what)
        for c in prov.calls[:1]:
            form = dict(parse_qsl(prov.body(c), keep_blank_values=True))
            case.check(c.method == "POST" and form.get("grant_type") == "authorization_code" and
                       form.get("code") == resp["code"] and
                       form.get("redirect_uri") == lg["redirect_uri"], "token-request", what)
            client_auth(case, c, form, auth, cid, getattr(prov, "secret", None), rpkeys,
                        info["token_endpoint"], eid, what)
        if how == "genuine" and ok:
            case.count("login-ok")
            case.count("userinfo")
            case.check(res.get("state") == lg["state"] and res.get("issuer") == eid and
                       res.get("token") == lg["token"], "wrong-result", what)
            case.check(res["userinfo"]["sub"] == lg["sub"] == res["id_token"]["sub"] and
                       res["id_token"]["nonce"] == lg["nonce"], "wrong-user", what)
            lg["at"] = clock.now()
            over.append(lg)
        elif how != "replay":
            case.count("login-refused")
            if how not in ("other-sub", "userinfo-error", "userinfo-garbage", "userinfo-500"):
                try:
                    active = bool(rp.has_active_authentication(lg["state"]))
                except KeyError:
                    active = False
                case.check(not active, "session-without-login", what)
        else:
            case.count("login-refused")
        if how != "replay":
            for t in touched:
                pending.remove(t)
                prov.codes.pop(t["code"], None)
        if case.failed:
            return
    done()


# ---- clients against the servers of the repository

def authz(case):
    rng = case.rng
    kind = rng.choice(["oidc", "oauth2"])
    client_type, server_type = {"oidc": ("openid_relying_party", "openid_provider"),
                                "oauth2": ("oauth_client", "oauth_authorization_server")}[kind]
    op_id = "https://op.server.org"
    site = Site()
    ta = Node("https://ta.example.org")
    site.add(ta)
    endpoints = rng.choice(ENDPOINTS + [["pushed_authorization_endpoint",
                                         "authorization_endpoint"]])
    conf = rp_config(RP)
    if kind == "oauth2":
        conf = rp_config(RP, client_type="oauth2",
                         preference={"grant_types": ["authorization_code"]})
    if endpoints is not None:
        conf["authorization_request_endpoints"] = endpoints
    combo = (rp_combo if kind == "oidc" else oauth_client_combo)(
        RP, conf, authority_hints=[ta.entity_id], anchors={ta.entity_id: ta.jwks()})
    server = (op_combo if kind == "oidc" else as_combo)(
        op_id, authority_hints=[ta.entity_id], anchors={ta.entity_id: ta.jwks()})
    site.host(combo)
    site.host(server)
    site.attach()
    for c in (combo, server):
        cfg = payload_of(configuration(c["federation_entity"]))
        ta.subs[cfg["sub"]] = {"jwks": cfg["jwks"]}
        if c is combo:
            rpkeys = cfg["metadata"][client_type]["jwks"]
    methods = rng.choice(METHODS + [{"pushed_authorization_endpoint": ["private_key_jwt"],
                                     "authorization_endpoint": ["request_object"]}])
    if rng.random() < .1:
        boss = None
        md = {"authorization_endpoint": op_id + "/authorization"}
    else:
        chains = __import__("fedservice.entity.function", fromlist=["x"]) \
            .get_verified_trust_chains(combo, op_id)
        if not case.check(len(chains) == 1, "no-chain", op_id):
            return
        md = dict(chains[0].metadata[server_type])
    md.pop("request_authentication_methods_supported", None)
    if methods is not None:
        md["request_authentication_methods_supported"] = methods
    cl = combo[client_type]
    cl.context.issuer = op_id
    if rng.random() < .9:
        combo.apply_metadata({server_type: md})
    else:
        methods = None
    cl.context.provider_info = md
    registered = rng.random() < .4
    cid = RP
    if registered:
        cl.context.registration_response = {"client_id": RP}
        if rng.random() < .5:
            cid = "id123"
            cl.context.registration_response = {"client_id": cid}
            cl.context.claims.set_usage("client_id", cid)
    srv = cl.get_service("authorization")
    seen = set()
    expect = how_to_ask(methods, endpoints, registered)
    for _ in range(rng.randint(1, 3)):
        args = {"response_type": "code", "redirect_uri": RP + "/cb",
                "state": "st%020x" % rng.getrandbits(80)}
        if kind == "oidc":
            args.update(nonce="no%020x" % rng.getrandbits(80), scope=["openid"])
        for k, v in (("scope", ["openid", "email"] if kind == "oidc" else ["read"]),
                     ("ui_locales", ["sv"]), ("login_hint", rng.choice(["a", "b&c=d", "å"]))):
            if rng.random() < .3 and (kind == "oidc" or k == "scope"):
                args[k] = v
        try:
            info, err = srv.get_request_parameters(request_args=dict(args)), None
        except Exception as e:
            info, err = None, e
        what = lambda: (f"{kind} methods {methods} endpoints {endpoints} registered {registered} "
                        f"args {args} -> {err!r} {info}")
        case.observed(json.dumps([kind, methods, endpoints, registered, cid == RP, sorted(args)]),
                      True, sample={"client": kind, "methods": methods})
        if expect == "refused":
            case.count("authz-refused")
            case.check(info is None, "unauthenticated-request", what)
            case.check(type(err).__name__ in ("OtherError", "UnSupported"), "wrong-error", what)
            return
        if not case.check(info is not None, "no-request", what):
            return
        case.count("authz-" + expect)
        p = check_request(case, info["url"], md["authorization_endpoint"], expect == "signed",
                          rpkeys, cid, [RP + "/cb"], args, what, seen)
        if case.failed or p is None:
            return
        if kind == "oauth2" and expect == "signed":
            aud = p["aud"] if isinstance(p["aud"], list) else [p["aud"]]
            case.check(aud == [md["authorization_endpoint"]], "request-audience", what)
        if expect == "signed" and cid == RP and rng.random() < .5:
            # and the server it is meant for takes it for what it is
            ep = server[server_type].get_endpoint("authorization")
            q = dict(parse_qsl(urlsplit(info["url"]).query, keep_blank_values=True))
            try:
                req = ep.parse_request(dict(q))
                ok = "error" not in req
            except Exception as e:
                req, ok = e, False
            case.count("e2e-accepted")
            if case.check(ok, "server-refuses", lambda: f"{req!r} " + what()):
                for k in args:
                    case.check(req.get(k) == args[k] or [req.get(k)] == args[k] or
                               req.get(k) == [args[k]], "server-understands-otherwise",
                               lambda: f"{k} {req!r} " + what())
                case.check(RP in server[server_type].context.cdb, "not-registered", what)


REQUIRE.update(c24flows.REQUIRE)


def run(ctx):
    ctx.cases("logins", 320, 6000, login)
    ctx.cases("flows", 60, 1500, c24flows.flow)
    ctx.cases("requests", 40, 800, authz)
