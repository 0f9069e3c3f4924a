"""Entities of the code under test, served over the in-process network.

``call`` does what the web applications of the repository do with a request
(parse_request, process_request, do_response), and nothing else.
"""
import json
from urllib.parse import parse_qsl, urlsplit

from .world import World, well_known


class Reply:
    def __init__(self, status, text, ctype="", crash=None):
        self.status, self.text, self.ctype, self.crash = status, text, ctype, crash

    @property
    def ok(self):
        return 200 <= self.status < 300

    def json(self):
        return json.loads(self.text)

    def __repr__(self):
        return f"<{self.status} {str(self.text)[:300]} {self.crash or ''}>"


def _text(r):
    if hasattr(r, "to_json"):         # idpyoidc gives error messages as such at 'jose' endpoints
        return r.to_json()
    return r if isinstance(r, str) else r.decode() if isinstance(r, bytes) else json.dumps(r)


def call(endpoint, query=None, body=None, http_info=None, parse_kwargs=None):
    """query: dict (GET) or body: dict or str (POST)."""
    from idpyoidc.message.oauth2 import ResponseMessage
    req = query if body is None else body
    kw = dict(parse_kwargs or {})
    if http_info:
        kw["http_info"] = http_info
    try:
        req = endpoint.parse_request(dict(req) if isinstance(req, dict) else (req or {}), **kw)
    except Exception as err:
        return Reply(400, json.dumps({"error": "invalid_request",
                                      "error_description": f"{err}"}), crash=err)
    if isinstance(req, ResponseMessage) and "error" in req:
        return Reply(400, req.to_json())
    try:
        args = endpoint.process_request(req)
        if isinstance(args, ResponseMessage) and "error" in args:
            args = args.to_dict()
    except Exception as err:
        return Reply(400, json.dumps({"error": "invalid_request",
                                      "error_description": f"{err}"}), crash=err)
    if "redirect_location" in args:
        return Reply(302, args["redirect_location"])
    if "http_response" in args:
        return Reply(200, _text(args["http_response"]))
    info = endpoint.do_response(request=req, **dict(args))
    status = 400 if args.get("error") else int(info.get("response_code") or
                                               args.get("response_code") or 200)
    ctype = dict((k.lower(), v) for k, v in info.get("http_headers", [])).get("content-type", "")
    return Reply(status, _text(info["response"]), ctype)


def configuration(fe):
    """What the web applications answer at .well-known/openid-federation."""
    ctx = fe.context
    md = fe.upstream_get("metadata") if fe.upstream_get else fe.get_metadata()
    return ctx.create_entity_statement(metadata=md, iss=ctx.entity_id, sub=ctx.entity_id,
                                       authority_hints=fe.get_authority_hints(),
                                       lifetime=ctx.default_lifetime)


def endpoints_of(entity):
    fe = entity["federation_entity"] if "FederationEntity" not in type(entity).__name__ else entity
    res = {}
    for ep in fe.server.endpoint.values():
        if ep.name != "entity_configuration":
            res[ep.full_path] = ep
    tme = getattr(fe.server, "trust_mark_entity", None)
    if tme:
        for ep in tme.endpoint.values():
            res[ep.full_path] = ep
    if entity is not fe:
        for _, guise in entity.items():
            srv = getattr(guise, "endpoint", None)
            if isinstance(srv, dict) and guise is not fe:
                for ep in srv.values():
                    if getattr(ep, "full_path", ""):
                        res[ep.full_path] = ep
    return fe, res


class Site(World):
    """Model nodes and real entities side by side."""

    def __init__(self):
        super().__init__()
        self.real = {}
        self.replies = []

    def host(self, entity):
        fe, eps = endpoints_of(entity)
        self.real[fe.entity_id] = (fe, eps)
        return entity

    def handle(self, ev):
        url = ev.path
        if url in self.extra:
            return self.extra[url](ev)
        for eid, (fe, eps) in self.real.items():
            if url in (well_known(eid), well_known(eid, True)):
                f = self.faults.get(("ec", eid))
                if f:
                    return f(ev, fe)
                text = configuration(fe)
                self.served.append(("ec", eid, text))
                return 200, text, "application/entity-statement+jwt"
            if url in eps:
                q = dict(parse_qsl(urlsplit(ev.url).query, keep_blank_values=True))
                if ev.method == "POST":
                    ctype = {k.lower(): v for k, v in ev.headers.items()}.get("content-type", "")
                    body = ev.body.decode() if isinstance(ev.body, bytes) else ev.body or ""
                    if "urlencoded" in ctype:
                        body = dict(parse_qsl(body, keep_blank_values=True))
                    r = call(eps[url], body=body, http_info={"headers": dict(ev.headers)})
                else:
                    r = call(eps[url], q, http_info={"headers": dict(ev.headers)})
                self.replies.append((url, q, r))
                return r.status, r.text, r.ctype
        return super().handle(ev)
