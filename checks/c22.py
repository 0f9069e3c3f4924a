"""C22: what the federation client asks, and what it takes for an answer."""
import json
from urllib.parse import parse_qsl, urlsplit

from requests.exceptions import ConnectionError

from fsmon import ref
from fsmon.boot import clock
from fsmon.net import net
from fsmon.world import (Node, World, key_set, make_fe, new_key, payload_of, pub, retamper, sign,
                         sign_hs, unsigned, well_known)

LEVEL = "exploration"
RULE = ("Sequences of requests made with every service of a federation client (entity configuration, "
        "entity statement, list, resolve, trust mark, trust mark status, trust mark list) for "
        "identifiers with all kinds of characters, at endpoints with and without a query part, given or "
        "found, and answered genuinely or with statements that are unsigned, altered, expired, by other "
        "keys, by or about somebody else, error messages, garbage or nothing. The monitor sees the HTTP "
        "request as it is sent; an independent signature check decides whether the answer may be taken. "
        "Distinct = (service, how the endpoint was found, arguments, kind of answer, outcome).")
ASSUMPTIONS = [
    "idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
    "an answer that isn't accepted is an exception, or a message that says 'error'",
    "answers of list and status endpoints are not signed: what arrives is what is handed out",
    "an entity whose identifier has a path is asked below that path if the caller says that it is a tenant",
]
SERVICES = ["entity_configuration", "entity_statement", "list", "resolve", "trust_mark",
            "trust_mark_status", "trust_mark_list"]
KINDS = ["genuine", "genuine", "genuine", "other-key", "other-key-same-kid", "hmac", "none",
         "json", "tampered", "expired", "future", "about-other", "by-other", "by-unknown", "404", "500", "signed-404", "about-longer",
         "html", "empty", "down", "error", "garbage", "list", "about-nobody"]
REQUIRE = {"asked:entity_configuration": 150, "accepted:entity_configuration": 30,
           "refused:entity_configuration": 20, "asked:entity_statement": 150,
           "accepted:entity_statement": 30, "refused:entity_statement": 20, "asked:list": 150,
           "accepted:list": 30, "refused:list": 20, "asked:resolve": 150,
           "accepted:resolve": 30, "refused:resolve": 20, "asked:trust_mark": 150,
           "accepted:trust_mark": 30, "refused:trust_mark": 20, "asked:trust_mark_status": 150,
           "accepted:trust_mark_status": 30, "refused:trust_mark_status": 20,
           "asked:trust_mark_list": 150, "accepted:trust_mark_list": 30,
           "refused:trust_mark_list": 20, "kind:genuine": 40, "kind:other-key": 40,
           "kind:other-key-same-kid": 40, "kind:hmac": 40, "kind:none": 40, "kind:json": 40,
           "kind:tampered": 40, "kind:expired": 40, "kind:future": 40, "kind:about-other": 40,
           "kind:by-other": 40, "kind:by-unknown": 40, "kind:404": 40, "kind:500": 40,
           "kind:html": 40, "kind:empty": 40, "kind:down": 40, "kind:error": 40,
           "kind:garbage": 40, "kind:list": 40, "kind:signed-404": 40, "kind:about-longer": 40, "kind:about-nobody": 40,
           "tmi:asked": 200, "tmi:refused": 100, "tmi:no-endpoint": 60, "tmi:policy": 60,
           "tmi:again": 100, "query-part": 300, "endpoint-found": 60,
           "odd-characters": 300, "cached-endpoint": 20, "no-endpoint": 20}

ODD = ["https://sub.example.org", "https://sub.example.org/a/b", "https://sub.example.org/x?y=z&w=1",
       "https://sub.example.org/a b", "https://sub.example.org/%7Eme", "https://sub.example.org/å+ä",
       "https://sub.example.org/#frag", "https://sub.example.org:8443/p;q=1", "urn:x:y&sub=z"]
TYPES = ["openid_provider", "openid_relying_party", "federation_entity", "a b", "x&y=1", "ü"]


def one(case):
    rng = case.rng
    w = World()
    mk = lambda e, **k: w.add(Node(e, key_types=(rng.choice(["RSA", "EC"]),), ec_lifetime=86400, **k))
    tas = [mk("https://ta1.org"), mk("https://ta2.net")]
    tenant = mk("https://host.com/tenant/one")
    stranger = mk("https://stranger.io")
    qp = {}
    for n in tas + [tenant, stranger]:
        fe = {}
        for name, claim in [("fetch", "federation_fetch_endpoint"), ("list", "federation_list_endpoint"),
                            ("tms", "federation_trust_mark_status_endpoint")]:
            if rng.random() < .9:
                q = rng.choice(["", "", "?a=1", "?a=b%20c&x=y"])
                fe[claim] = f"{n.entity_id}/{name}{q}"
        n.metadata = {"federation_entity": fe}
        n.serve_fetch = False
    longer = {}
    for n in tas:
        # somebody else whose name just looks like it
        o = mk(n.entity_id + rng.choice([".evil.io", "/x", "0"]))
        o.metadata, o.serve_fetch = {"federation_entity": {}}, False
        longer[n.entity_id] = o
    known = tas + [tenant]
    w.attach(budget=4000)
    me = make_fe("https://me.me.org", anchors={n.entity_id: n.jwks() for n in
                                             known + list(longer.values())})
    mallory = new_key(typ="EC")
    jar = key_set(me.keyjar)
    collector = me.function.trust_chain_collector
    hist = []

    def answer(kind, payload, node, other):
        """(reply, whether it may be taken). payload: what node should sign."""
        now = clock.now()
        p = dict(payload)
        ct = rng.choice(["application/entity-statement+jwt", "application/jwt",
                         "application/resolve-response+jwt"])
        if kind == "genuine":
            return (200, sign(p, node.key), ct), True
        if kind == "signed-404":
            return (rng.choice([400, 403, 404, 500, 503]), sign(p, node.key), ct), False
        if kind == "about-longer":
            o = longer.get(node.entity_id)
            if o is None:
                p["sub"] += "x"
            elif payload["sub"] == payload["iss"]:
                p = o.ec_payload()
                node = o
            elif rng.random() < .5:
                p["iss"], node = o.entity_id, o
            else:
                p["sub"] += rng.choice(["x", "/", "/x"])
            return (200, sign(p, node.key), ct), False
        if kind == "other-key":
            return (200, sign(p, rng.choice([mallory, stranger.key])), ct), False
        if kind == "other-key-same-kid":
            return (200, sign(p, mallory, {"kid": node.key.kid}), ct), False
        if kind == "hmac":
            return (200, sign_hs(p, json.dumps(pub(node.key)).encode(), {"kid": node.key.kid}), ct), False
        if kind == "none":
            return (200, unsigned(p, {"kid": node.key.kid}), ct), False
        if kind == "about-nobody":
            del p[rng.choice(["sub", "id"]) if "id" in p else "sub"]
            return (200, sign(p, node.key), ct), False
        if kind == "json":
            if rng.random() < .5:
                p["_jws"] = sign(payload, node.key)
            return (200, json.dumps(p), rng.choice(["application/json", ct])), False
        if kind == "tampered":
            return (200, retamper(sign(p, node.key), lambda d: d.update(x="y")), ct), False
        if kind == "expired":
            p.update(iat=now - 5000, exp=now - rng.choice([61, 4000]))
            return (200, sign(p, node.key), ct), False
        if kind == "future":
            p.update(iat=now + 5000, exp=now + 9000)
            return (200, sign(p, node.key), ct), False
        if kind == "about-other":
            p["sub"] = rng.choice([o.entity_id for o in w.nodes.values()
                                   if o.entity_id != payload["sub"]] + [payload["sub"] + "/"])
            return (200, sign(p, node.key), ct), False
        if kind == "by-other":
            p["iss"] = other.entity_id
            if payload["sub"] == payload["iss"] and rng.random() < .5:
                p = other.ec_payload()
            return (200, sign(p, other.key), ct), False
        if kind == "by-unknown":
            return (200, sign(dict(p, iss=stranger.entity_id), stranger.key), ct), False
        return plain(kind), False

    def plain(kind):
        return {"404": (404, "{}", "application/json"), "500": (500, "oops", "text/plain"),
                "html": (200, "<html>hi</html>", "text/html"), "empty": (200, "", "application/json"),
                "error": (rng.choice([200, 400]), '{"error": "not_found"}', "application/json"),
                "garbage": (200, "eyJhbGciOiJub25lIn0.e30", "application/jwt"),
                "list": (200, '["https://a.org"]', "application/json"),
                "down": None}.get(kind) or None

    def reply_with(rep):
        def f(ev, *_):
            if rep is None:
                raise ConnectionError("down")
            return rep
        return f

    def ask(service, **kw):
        n = len(net.log)
        try:
            res = me.do_request(service, **kw)
        except Exception as err:
            res = err
        return res, net.log[n:]

    def took(res):
        if isinstance(res, Exception) or res is None:
            return False
        return isinstance(res, list) or (hasattr(res, "keys") and "error" not in res)

    def sent(evs, url, args, what):
        """The last request is a GET of this URL with exactly these arguments added."""
        if not case.check(evs, "no-request", lambda: f"{what}: nothing sent, expected {url} {args}"):
            return
        ev = evs[-1]
        base, _, q = url.partition("?")
        want = parse_qsl(q, keep_blank_values=True)
        have = parse_qsl(urlsplit(ev.url).query, keep_blank_values=True)
        rest = list(have)
        for it in want:
            if it in rest:
                rest.remove(it)
            else:
                rest.append(("missing", it))
        fold = lambda kv: (kv[0], kv[1].lower() if kv[0] in ("trust_marked", "intermediate") else kv[1])
        case.check(ev.method == "GET" and ev.path == base and
                   sorted(map(fold, rest)) == sorted(map(fold, args.items())),
                   "wrong-request", lambda: f"{what}: sent {ev.method} {ev.url}, expected {url} + {args}")
        case.check(not ev.body, "body", lambda: f"{what}: {ev.body}")

    for _ in range(rng.randint(6, 12)):
        if rng.random() < .3:
            clock.advance(rng.choice([1, 50, 700]))
        for f in list(w.faults):
            del w.faults[f]
        w.extra.clear()
        service = rng.choice(SERVICES)
        kind = rng.choice(KINDS)
        node, other = rng.sample(known, 2)
        if rng.random() < .08 and service in ("entity_configuration", "entity_statement"):
            node = stranger
        q = rng.choice(["", "", "?a=1", "?k=v%26w&z=%20"])
        now = clock.now()
        case.count(f"kind:{kind}")
        case.count(f"asked:{service}")
        sig = None
        want = None
        if service == "entity_configuration":
            rep, ok = answer(kind, node.ec_payload(), node, other)
            w.faults[("ec", node.entity_id)] = reply_with(rep)
            ten = node is tenant or rng.random() < .1
            form = rng.choice(["kw", "entity_id", "iss"])
            args = {"kw": dict(entity_id=node.entity_id),
                    "entity_id": dict(request_args={"entity_id": node.entity_id}),
                    "iss": dict(request_args={"iss": node.entity_id})}[form]
            if ten:
                args["tenant"] = True
            res, evs = ask(service, **args)
            sent(evs, f"{node.entity_id}/.well-known/openid-federation", {}, service)
            sig = (form, ten)
        elif service == "entity_statement":
            sub = rng.choice(ODD + [node.entity_id])
            odd = sub != ODD[0]
            if odd:
                case.count("odd-characters")
            p = {"iss": node.entity_id, "sub": sub, "iat": now, "exp": now + 600,
                 "jwks": {"keys": [pub(mallory)]}}
            rep, ok = answer(kind, p, node, other)
            args = dict(issuer=node.entity_id, subject=sub)
            given = rng.random() < .6
            if given:
                url = f"https://fetch.example.org/f{q}"
                args["fetch_endpoint"] = url
            else:
                url = node.metadata["federation_entity"].get("federation_fetch_endpoint")
                if node is tenant and node.entity_id not in collector.config_cache:
                    url = None
            cached = collector.config_cache.get(node.entity_id)
            if not given and cached:
                case.count("cached-endpoint")
            if not given and node is stranger:
                url = None
            if url:
                w.extra[url.partition("?")[0]] = reply_with(rep)
                case.count("query-part", "?" in url)
            res, evs = ask(service, **args)
            if url:
                if not given:
                    case.count("endpoint-found")
                sent(evs, url, {"iss": node.entity_id, "sub": sub}, service)
                case.check(len(evs) == (1 if given or cached else 2), "extra-requests", lambda: f"{evs}")
            else:
                case.count("no-endpoint")
                ok = False
                case.check(not any(parse_qsl(urlsplit(e.url).query) for e in evs), "request-nowhere",
                           lambda: f"{evs}")
            sig = (given, bool(cached), odd)
        elif service == "list":
            args = {}
            for k, vals in [("entity_type", TYPES), ("trust_marked", [True]), ("intermediate", [True]),
                            ("trust_mark_id", ODD)]:
                if rng.random() < .4:
                    args[k] = rng.choice(vals)
            given = rng.random() < .6
            kw = dict(args)
            anchor = node is not stranger and node is not tenant
            if given:
                url = f"https://l.example.org/list{q}"
                kw["endpoint"] = url
            else:
                kw["entity_id"] = node.entity_id
                url = node.metadata["federation_entity"].get("federation_list_endpoint")
            ok = kind in ("genuine", "list")
            lst = rng.choice([[], ["https://a.org"], ["https://a.org", "https://b.org/x?y=z"]])
            rep = (200, json.dumps(lst), "application/json") if ok else plain(kind) if kind in (
                "404", "500", "html", "error", "down", "empty") else \
                (rng.choice([400, 404, 500]), json.dumps(lst), "application/json") \
                if kind == "signed-404" else (200, '{"x": 1}', "application/json")
            if url:
                w.extra[url.partition("?")[0]] = reply_with(rep)
                case.count("query-part", "?" in url)
            res, evs = ask(service, **kw)
            if url:
                if not given:
                    case.count("endpoint-found")
                sent(evs, url, {k: str(v) for k, v in args.items()}, service)
                want = lst
            else:
                case.count("no-endpoint")
                ok = False
            if args.get("trust_mark_id") not in (None, ODD[0]):
                case.count("odd-characters")
            sig = (given, tuple(sorted(args)), len(lst))
        elif service == "resolve":
            sub = rng.choice(ODD)
            args = {"sub": sub, "anchor": rng.choice(tas).entity_id}
            if rng.random() < .4:
                args["type"] = rng.choice(TYPES)
            p = {"iss": node.entity_id, "sub": sub, "iat": now, "exp": now + 600,
                 "metadata": {"federation_entity": {"organization_name": "x"}}, "trust_chain": ["a", "b"]}
            named = rng.random() < .7
            rep, ok = answer(kind, p, node, other)
            if kind in ("by-other", "about-longer") and not named and \
                    payload_of(rep[1])["sub"] == sub:
                ok = None           # nobody said who to expect
            url = f"https://r.example.org/resolve{q}"
            w.extra[url.partition("?")[0]] = reply_with(rep)
            case.count("query-part", "?" in url)
            res, evs = ask(service, endpoint=url, request_args=dict(args),
                           **({"entity_id": node.entity_id} if named else {}))
            sent(evs, url, args, service)
            case.check(len(evs) == 1, "extra-requests", lambda: f"{evs}")
            sig = (named, sub != ODD[0], "type" in args)
        elif service == "trust_mark":
            args = {"trust_mark_id": rng.choice(ODD), "sub": rng.choice(ODD)}
            p = {"iss": node.entity_id, "sub": args["sub"], "id": args["trust_mark_id"], "iat": now,
                 "exp": now + 600}
            if kind == "about-other" and rng.random() < .5:
                rep, ok = (200, sign(dict(p, id=p["id"] + "x"), node.key), "application/jwt"), False
            else:
                rep, ok = answer(kind, p, node, other)
            if rep and "jwt" in rep[2]:
                rep = (rep[0], rep[1], rng.choice(["application/trust_mark+jwt; charset=utf-8",
                                                   "application/trust-mark+jwt", "application/jwt"]))
            if kind in ("by-other", "future", "expired") or (
                    kind == "about-longer" and payload_of(rep[1])["sub"] == p["sub"]):
                ok = None       # the trust mark itself is verified by those who get it (C15)
            url = f"https://t.example.org/tm{q}"
            w.extra[url.partition("?")[0]] = reply_with(rep)
            case.count("query-part", "?" in url)
            res, evs = ask(service, endpoint=url, request_args=dict(args), entity_id=node.entity_id)
            sent(evs, url, args, service)
            case.count("odd-characters")
            sig = (args["sub"] != ODD[0], args["trust_mark_id"] != ODD[0])
        elif service == "trust_mark_status":
            tok = sign({"iss": node.entity_id, "sub": ODD[0], "id": "x", "iat": now},
                       rng.choice([node.key, mallory]))
            if rng.random() < .5:
                args = {"trust_mark": tok}
            else:
                args = {"sub": rng.choice(ODD), "trust_mark_id": rng.choice(ODD)}
                if rng.random() < .4:
                    args["iat"] = now - 5
            kw = dict(args)
            extra = rng.random() < .3
            if extra:
                kw["id"] = "something else"
                if "trust_mark" in args and rng.random() < .5:
                    kw["sub"] = ODD[0]          # that's in the trust mark
            given = rng.choice(["fetch_endpoint", "endpoint", None])
            ok = kind in ("genuine", "list")
            body = {"active": rng.random() < .5}
            rep = (200, json.dumps(body), "application/json") if ok else plain(kind) if kind in (
                "404", "500", "html", "error", "down", "empty") else \
                (rng.choice([400, 404, 500]), json.dumps(body), "application/json") \
                if kind == "signed-404" else (200, "{", "application/json")
            url = f"https://t.example.org/status{q}"
            if given is None:
                url = node.entity_id if "trust_mark" in args else None
            if url:
                u = url.partition("?")[0]
                w.extra[u] = w.extra[u + "/"] = reply_with(rep)
                case.count("query-part", "?" in url)
            res, evs = ask(service, request_args=kw, **({given: url} if given else {}))
            if url:
                if given is None:
                    case.check(evs and evs[-1].path.rstrip("/") == node.entity_id.rstrip("/"),
                               "wrong-request", lambda: f"{evs}")
                    case.count("endpoint-found")
                else:
                    sent(evs, url, {k: str(v) for k, v in args.items()}, service)
                want = body
            else:
                case.count("no-endpoint")
                ok = False
                case.check(not evs, "request-nowhere", lambda: f"{evs}")
            if args.get("trust_mark_id") not in (None, ODD[0]):
                case.count("odd-characters")
            sig = (given, tuple(sorted(args)), extra)
        else:
            args = {"trust_mark_id": rng.choice(ODD)}
            kw = dict(args)
            if rng.random() < .3:
                kw["id"] = "something else"
            given = rng.choice(["fetch_endpoint", "endpoint", "fetch_endpoint", None])
            ok = kind in ("genuine", "list")
            lst = rng.choice([["https://a.org"], ["https://a.org", "https://b.org/x?y=z"]])
            rep = (200, json.dumps(lst), "application/json") if ok else plain(kind) if kind in (
                "404", "500", "html", "error", "down", "empty") else \
                (rng.choice([400, 404, 500]), json.dumps(lst), "application/json") \
                if kind == "signed-404" else (200, "{", "application/json")
            url = f"https://t.example.org/marks{q}" if given else None
            if url:
                w.extra[url.partition("?")[0]] = reply_with(rep)
                case.count("query-part", "?" in url)
            res, evs = ask(service, request_args=kw, **({given: url} if given else {}))
            if url:
                sent(evs, url, args, service)
                want = lst
            else:
                case.count("no-endpoint")
                ok = False
                case.check(not evs, "request-nowhere", lambda: f"{evs}")
            if args["trust_mark_id"] != ODD[0]:
                case.count("odd-characters")
            sig = (given, args["trust_mark_id"] != ODD[0])
        if node is stranger:
            ok = False
        got = took(res)
        label = f"{service} of {node.entity_id}, answered by {kind}: {res!r:.300}\n{evs}\n{hist[-6:]}"
        if ok is not None:
            if ok:
                case.check(got, f"refused:{service}", lambda: label)
            else:
                case.check(not got, f"accepted:{service}:{kind}", lambda: label)
        if got:
            case.count(f"accepted:{service}")
            if want is not None:
                have = res if isinstance(res, list) else res.to_dict() if hasattr(res, "to_dict") else res
                case.check(have == want, "other-answer", lambda: f"{have} instead of {want}; {label}")
            elif ok:
                sp = payload_of(rep[1])
                have = res.to_dict()
                case.check(all(have.get(k) == v for k, v in sp.items() if k != "metadata")
                           and set(have) == set(sp), "other-answer", lambda: f"{have}, signed: {sp}")
                case.check(getattr(res, "_jws", None) == rep[1], "not-the-statement", lambda: label)
        else:
            case.count(f"refused:{service}")
        case.check(key_set(me.keyjar) == jar, "keys", lambda: f"{key_set(me.keyjar) ^ jar}; {label}")
        for eid in list(collector.config_cache.keys()):
            ec = collector.config_cache.get(eid)
            if ec:
                tok = ec["_jws"] if isinstance(ec, dict) else ec
                n = w.nodes.get(eid)
                pl = n and ref.signed_by(tok, n.jwks()) and payload_of(tok)
                case.check(pl and pl["iss"] == pl["sub"] == eid, "cached",
                           lambda: f"cached for {eid}: {ec!r:.300}; {label}")
        hist.append((service, kind, sig, bool(got)))
        case.observed((service, sig, kind, bool(got)), sample=hist[-1])
        case.observed((tuple(hist[-3:])))


def tmi(case):
    """Trust marks from an issuer whose endpoint has to be found."""
    rng = case.rng
    w = World()
    mk = lambda e, **k: w.add(Node(e, key_types=("EC",), **k))
    tas = [mk("https://ta1.org"), mk("https://ta2.net")][:rng.randint(1, 2)]
    im = mk("https://im.org") if rng.random() < .4 else None
    for t in tas:
        t.metadata = {"federation_entity": {}}
    if im:
        im.authority_hints = [t.entity_id for t in tas]
        im.metadata = {"federation_entity": {}}
        for t in tas:
            t.add_sub(im)
    issuers = []
    for i in range(rng.randint(1, 3)):
        eid = rng.choice([f"https://tmi{i}.org", f"https://tmi{i}.org/sub", f"https://tmi{i}.org/p/"])
        n = mk(eid)
        own = rng.choice([f"{eid}/marks", f"{eid}/marks?a=b", f"https://other{i}.org/x", None])
        n.metadata = {"federation_entity": {"organization_name": f"o{i}"}}
        if own:
            n.metadata["federation_entity"]["federation_trust_mark_endpoint"] = own
        n.urls = {own} - {None}
        over = rng.random() < .3
        sups = [im] if im and rng.random() < .6 else tas
        n.chained = rng.random() < .85
        n.authority_hints = [x.entity_id for x in sups]
        for x in sups:
            pol = None
            if over:
                case.count("tmi:policy")
                url = f"https://set-by-{x.entity_id[8:]}/m{i}"
                pol = {"federation_entity": {"federation_trust_mark_endpoint": {"value": url}}}
                n.urls = {url} if x is sups[0] else n.urls | {url}
            if n.chained:
                x.add_sub(n, metadata_policy=pol)
        issuers.append(n)
    w.attach(budget=4000)
    me = make_fe("https://me.me.org", anchors={n.entity_id: n.jwks() for n in tas})
    for _ in range(rng.randint(2, 6)):
        n = rng.choice(issuers)
        jar = None
        args = {"trust_mark_id": rng.choice(ODD), "sub": rng.choice(ODD)}
        now = clock.now()
        good = rng.random() < .7
        tok = sign(dict(iss=n.entity_id, sub=args["sub"], id=args["trust_mark_id"], iat=now,
                        exp=now + 900), n.key if good else new_key(typ="EC"))
        hits = []

        def f(ev, *_):
            hits.append(ev)
            return 200, tok, "application/trust-mark+jwt"
        for o in issuers:
            for u in sorted(o.urls):
                w.extra[u.partition("?")[0]] = f
        if n.entity_id in me.trust_chain:
            case.count("tmi:again")
        try:
            res = me.do_request("trust_mark", request_args=dict(args), entity_id=n.entity_id)
        except Exception as err:
            res = err
        got = hasattr(res, "keys") and "error" not in res and getattr(res, "_jws", None) == tok
        label = f"{n.entity_id} {n.urls} chained={n.chained} good={good}: {res!r:.300} {net.log[-8:]}"
        if not n.chained or not n.urls:
            case.count("tmi:no-endpoint")
            case.check(not got and not hits, "asked-nobody-knows-where", lambda: label)
        else:
            case.count("tmi:asked")
            if case.check(len(hits) == 1, "no-request", lambda: label):
                ev = hits[0]
                ok = False
                for u in n.urls:
                    base, _, q = u.partition("?")
                    want = sorted(parse_qsl(q) + list(args.items()))
                    ok = ok or (ev.path == base and ev.method == "GET" and
                                sorted(parse_qsl(urlsplit(ev.url).query,
                                                 keep_blank_values=True)) == want)
                case.check(ok, "wrong-request", lambda: label)
            if not good:
                case.count("tmi:refused")
                case.check(not got, "accepted:trust_mark:other-key", lambda: label)
            else:
                case.check(got, "refused:trust_mark", lambda: label)
        case.observed(("tmi", n.entity_id, n.chained, tuple(sorted(n.urls)), bool(im), len(tas), good, bool(got)))
        if rng.random() < .3:
            clock.advance(rng.choice([10, 90000]))


def run(ctx):
    ctx.cases("requests", 250, 6000, one)
    ctx.cases("tmi", 80, 1500, tmi)
