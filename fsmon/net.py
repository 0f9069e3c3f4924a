"""The in-process network: everything ``requests`` sends ends up here.

The transport adapter below requests.Session is replaced, so the monitors see
every HTTP request at the boundary, whichever way the code under test issues it.
"""
from urllib.parse import parse_qs, urlsplit


class NetEvent:
    __slots__ = ("n", "method", "url", "headers", "body", "status", "text")

    def __init__(self, n, method, url, headers, body):
        self.n, self.method, self.url, self.headers, self.body = n, method, url, headers, body
        self.status = self.text = None

    def __repr__(self):
        return f"{self.method} {self.url} -> {self.status}"

    @property
    def path(self):
        p = urlsplit(self.url)
        return f"{p.scheme}://{p.netloc}{p.path}"

    @property
    def query(self):
        return parse_qs(urlsplit(self.url).query, keep_blank_values=True)


class RequestBudgetExceeded(BaseException):
    """More requests than any terminating run of the scenario can need."""


class Network:
    def __init__(self):
        self.reset()

    def reset(self, handler=None, budget=5000):
        self.handler = handler
        self.log = []
        self.budget = budget

    def request(self, method, url, headers, body):
        ev = NetEvent(len(self.log), method, url, dict(headers or {}), body)
        self.log.append(ev)
        if len(self.log) > self.budget:
            raise RequestBudgetExceeded(url)
        if self.handler is None:
            from requests.exceptions import ConnectionError
            raise ConnectionError(f"no route to {url}")
        status, text, ctype = self.handler(ev)
        ev.status, ev.text = status, text
        return status, text, ctype


net = Network()


def install():
    import requests
    from requests.adapters import HTTPAdapter
    from requests.models import Response
    from requests.structures import CaseInsensitiveDict

    def send(self, request, **kwargs):
        status, text, ctype = net.request(request.method, request.url, request.headers,
                                          request.body)
        r = Response()
        r.status_code = status
        r.url = request.url
        r.request = request
        r.headers = CaseInsensitiveDict({"Content-Type": ctype} if ctype else {})
        if isinstance(text, str):
            text = text.encode("utf-8")
        r._content = text
        r.encoding = "utf-8"
        r.reason = str(status)
        return r

    HTTPAdapter.send = send
    requests.sessions.Session.trust_env = False
