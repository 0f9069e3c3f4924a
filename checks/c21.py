"""C21: an entity is what its configuration says."""
import copy
import json
import os
import shutil
import tempfile

from fsmon.boot import clock
from fsmon.combos import op_combo, rp_combo
from fsmon.serve import call, configuration
from fsmon.world import key_set, new_key, payload_of, pub, thumb

LEVEL = "exploration"
RULE = ("Configurations are drawn at random (parts given as list, dictionary, class and arguments, file "
        "or function, or not at all; arguments for single parts; nested file references), an entity "
        "is built from each one by either builder, and every part of what the entity is and says is "
        "compared with what the configuration says. "
        "distinct = (builder, how each part was given)")
ASSUMPTIONS = ["names of endpoints, services and functions are taken from the package's tables",
               "configuration values that are lists of lists are not searched for file references"]
REQUIRE = {"entities": 800, "combos": 300, "endpoint-args": 300, "service-args": 150,
           "function-args": 150, "file-refs": 2000, "anchors:class": 80, "functions:dict": 60, "anchors:dict": 200,
           "hints:class": 80, "hints:file": 80, "hints:callable": 80, "marks:class": 80,
           "subordinates:class": 80, "endpoints:[]": 40, "services:[]": 40, "functions:[]": 20,
           "later-changes": 150, "later-store": 100, "own-arguments": 200, "httpc-params": 200, "guise-httpc-params": 150,
           "marks:file": 60, "marks:callable": 20}

KEYS = {"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]},
                     {"type": "RSA", "use": ["sig"]}]}
SERVICES = {"entity_configuration": "entity_configuration", "entity_statement": "entity_statement",
            "resolve": "resolve", "list": "list", "trust_mark_status": "trust_mark_status",
            "trust_mark": "trust_mark", "trust_mark_list": "trust_mark_list"}
ENDPOINTS = {"entity_configuration": None, "fetch": "federation_fetch_endpoint",
             "list": "federation_list_endpoint", "resolve": "federation_resolve_endpoint"}
FUNCTIONS = ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"]
ALL = object()


class Pass:
    """Values that are JSON already."""


def table(kind):
    from fedservice import defaults
    return {"services": defaults.SERVICES, "endpoints": defaults.FEDERATION_ENDPOINTS}[kind]


class Drawn:
    def __init__(self, case, d):
        self.case, self.rng, self.d = case, case.rng, d
        rng = self.rng
        self.kw = {}
        self.own = {}
        self.how = {}
        self.want = {}
        self.eid = rng.choice(["https://e.example.org", "https://e.example.org/path",
                               "https://e.example.org:8443/a/b"])
        self.builder = rng.choice(["entity", "combo", "combo", "rp", "op"])
        for part in ("endpoints", "services", "functions", "anchors", "hints", "marks",
                     "subordinates", "policies", "preference"):
            getattr(self, part)()
        self.arguments()

    def note(self, part, how):
        self.how[part] = how
        self.case.count(f"{part}:{how}")

    def file(self, name, value):
        path = os.path.join(self.d, name)
        with open(path, "w") as fp:
            json.dump(value, fp)
        return path

    def store(self, name, value):
        """A directory with one file per item."""
        path = os.path.join(self.d, name)
        os.makedirs(path)
        from urllib.parse import quote_plus
        for k, v in value.items():
            with open(os.path.join(path, quote_plus(k)), "w") as fp:
                json.dump(v, fp)
        return {"class": "idpyoidc.storage.abfile.AbstractFileSystem",
                "kwargs": {"fdir": path, "key_conv": "idpyoidc.util.QPKey",
                           "value_conv": "idpyoidc.util.JSON"}}

    def listfile(self, name, value):
        path = os.path.join(self.d, name)
        with open(path, "w") as fp:
            fp.write("\n".join(value))
        return {"class": "idpyoidc.storage.listfile.ReadOnlyListFile",
                "kwargs": {"file_name": path}}

    def items(self, part, names, default, kw):
        rng = self.rng
        how = rng.choice(["default", "list", "list", "dict", "dict", "[]"])
        if self.builder in ("rp", "op") and how == "[]":
            how = "list"
        self.note(part, how)
        if how == "default":
            self.want[part] = list(default)
            return
        if how == "[]":
            self.kw[kw] = []
            self.want[part] = []
            return
        chosen = rng.sample(sorted(names), rng.randint(1, len(names)))
        self.want[part] = chosen
        if how == "list" or part == "functions":
            self.kw[kw] = chosen
        else:
            t = table(part)
            self.kw[kw] = copy.deepcopy({n: t[n] for n in chosen})
            for n in chosen:
                if rng.random() < .4:
                    v = rng.choice([1, "one", ["o"]])
                    self.own.setdefault(part, {})[n] = v
                    self.kw[kw][n].setdefault("kwargs", {})["own"] = v
                    self.case.count("own-arguments")
            if part == "endpoints":
                for n in chosen:
                    if rng.random() < .3:
                        self.kw[kw][n]["path"] = f"other/{n}"

    def endpoints(self):
        self.items("endpoints", ENDPOINTS, ["entity_configuration", "fetch", "list"], "endpoints")

    def services(self):
        self.items("services", SERVICES, ["entity_configuration", "entity_statement", "resolve",
                                          "list"], "services")

    def functions(self):
        rng = self.rng
        how = rng.choice(["default", "list", "all", "all", "dict", "dict", "[]"])
        if self.builder in ("rp", "op") and how == "[]":
            how = "all"
        self.note("functions", how)
        self.want["functions"] = FUNCTIONS if how in ("default", "all") else []
        self.given_delta = None
        if how == "all":
            self.kw["functions"] = list(FUNCTIONS)
        elif how == "[]":
            self.kw["functions"] = []
        elif how == "list":
            self.want["functions"] = ["trust_chain_collector"] + rng.sample(
                FUNCTIONS[1:], rng.randint(0, 3))
            self.kw["functions"] = list(self.want["functions"])
        elif how == "dict":
            from fedservice.defaults import FEDERATION_ENTITY_FUNCTIONS as t
            self.want["functions"] = ["trust_chain_collector"] + rng.sample(
                FUNCTIONS[1:], rng.randint(0, 3))
            self.kw["functions"] = copy.deepcopy({n: t[n] for n in self.want["functions"]})
            if rng.random() < .6:
                self.given_delta = rng.choice([5, 1200])
                self.kw["functions"]["trust_chain_collector"]["kwargs"]["allowed_delta"] = self.given_delta

    def anchors(self):
        rng = self.rng
        if "trust_chain_collector" not in self.want["functions"]:
            self.note("anchors", "none")
            self.want["anchors"] = {}
            return
        val = {f"https://ta{i}.example.org": {"keys": [pub(new_key(typ="EC"))]}
               for i in range(rng.randint(1, 3))}
        how = rng.choice(["none", "dict", "dict", "class"])
        self.note("anchors", how)
        self.want["anchors"] = {} if how == "none" else copy.deepcopy(val)
        if how == "dict":
            self.kw["trust_anchors"] = val
        elif how == "class":
            self.kw["trust_anchors"] = self.store("anchors", val)

    def hints(self):
        rng = self.rng
        val = rng.sample([f"https://sup{i}.example.org" for i in range(4)], rng.randint(0, 3))
        how = rng.choice(["none", "list", "file", "callable", "class"])
        self.note("hints", how)
        self.hints_now = val
        if how == "none":
            self.hints_now = []
        elif how == "list":
            self.kw["authority_hints"] = list(val)
        elif how == "file":
            self.kw["authority_hints"] = self.file("hints.json", val)
        elif how == "callable":
            self.kw["authority_hints"] = lambda: list(self.hints_now)
        else:
            self.kw["authority_hints"] = self.listfile("hints", val)

    def marks(self):
        rng = self.rng
        val = [f"a.b.{i}" for i in range(rng.randint(1, 3))]
        how = rng.choice(["none", "list", "class", "file", "callable"])
        self.note("marks", how)
        self.marks_now = [] if how == "none" else val
        if how == "list":
            self.kw["trust_marks"] = list(val)
        elif how == "file":
            self.marks_file = rng.choice(["marks.json", "class-marks.json"])
            self.kw["trust_marks"] = self.file(self.marks_file, val)
        elif how == "callable":
            self.kw["trust_marks"] = lambda: list(self.marks_now)
        elif how == "class":
            self.kw["trust_marks"] = self.listfile("marks", val)

    def subordinates(self):
        rng = self.rng
        val = {f"https://sub{i}.example.org": rng.choice([
            {}, {"jwks": {"keys": [pub(new_key(typ="EC"))]}},
            {"jwks": {"keys": [pub(new_key(typ="EC"))]}, "intermediate": True}])
               for i in range(rng.randint(1, 3))}
        how = rng.choice(["none", "dict", "class"])
        if not self.want["endpoints"]:
            how = "none"
        self.note("subordinates", how)
        self.want["subordinates"] = {} if how == "none" else copy.deepcopy(val)
        if how == "dict":
            self.kw["subordinate"] = val
        elif how == "class":
            self.kw["subordinate"] = self.store("subordinates", val)

    def policies(self):
        rng = self.rng
        val = {f"https://sub{i}.example.org": {"metadata_policy": {"openid_relying_party": {
            "scope": {"value": f"s{i}"}}}} for i in range(rng.randint(1, 2))}
        how = rng.choice(["none", "dict"])
        if not self.want["endpoints"]:
            how = "none"
        self.note("policies", how)
        self.want["policies"] = {} if how == "none" else copy.deepcopy(val)
        if how == "dict":
            self.kw["metadata_policy"] = val

    def preference(self):
        rng = self.rng
        all_ = {"organization_name": "Örg", "contacts": ["ops@example.org"],
                "homepage_uri": "https://home.example.org", "policy_uri": "https://p.example.org",
                "logo_uri": "https://l.example.org",
                "trust_mark_issuers": {"a.b.1": ["https://tmi.example.org"], "a.b.2": []},
                "trust_mark_owners": {"a.b.1": {"sub": "https://own.example.org",
                                                "jwks": {"keys": [{"kty": "oct"}]}}}}
        names = rng.sample(sorted(all_), rng.randint(0, 5))
        self.want["preference"] = {n: all_[n] for n in names}
        self.note("preference", "some" if names else "none")
        if names or rng.random() < .5:
            self.kw["preference"] = copy.deepcopy(self.want["preference"])

    def arguments(self):
        rng = self.rng
        self.want["authn"] = {}
        self.want["delta"] = self.given_delta
        self.want["conf"] = {}
        for kw in ("item_args", "init_kwargs"):
            if rng.random() < .35:
                n = rng.choice(sorted(ENDPOINTS)[1:])
                m = [rng.choice(["private_key_jwt", "client_secret_post"])]
                self.kw.setdefault(kw, {})["endpoint"] = {n: {"client_authn_method": m}}
                if n in self.want["endpoints"]:
                    if kw == "item_args" or n not in self.want["authn"]:
                        self.want["authn"][n] = m
                    self.case.count("endpoint-args")
        if "item_args" in self.kw and self.kw["item_args"].get("endpoint"):
            self.want["authn"].update({
                n: a["client_authn_method"] for n, a in self.kw["item_args"]["endpoint"].items()
                if n in self.want["endpoints"]})
        if rng.random() < .3 and "trust_chain_collector" in self.want["functions"]:
            self.kw.setdefault("init_kwargs", {})["function"] = {
                "trust_chain_collector": {"allowed_delta": 17}}
            self.want["delta"] = 17
            self.case.count("function-args")
        if rng.random() < .2 and "trust_chain_collector" in self.want["functions"]:
            # those for the item take precedence
            self.kw.setdefault("item_args", {})["function"] = {
                "trust_chain_collector": {"allowed_delta": 18}}
            self.want["delta"] = 18
            self.case.count("function-args")
        self.want["httpc"] = rng.choice([None, {"timeout": 7}, {"verify": False, "timeout": 9}])
        if self.want["httpc"]:
            self.kw["httpc_params"] = dict(self.want["httpc"])
        self.want["issuers"] = self.want["owners"] = None
        if self.builder != "entity" and rng.random() < .5:
            self.want["issuers"] = {"x.y": ["https://tmi.example.org"]}
            self.want["owners"] = {"x.y": {"sub": "https://own.example.org"}}
            self.kw["trust_mark_issuers"] = copy.deepcopy(self.want["issuers"])
            self.kw["trust_mark_owner"] = copy.deepcopy(self.want["owners"])
        for kw in ("init_kwargs", "item_args"):
            if rng.random() < .3 and self.want["services"]:
                n = rng.choice(self.want["services"])
                self.kw.setdefault(kw, {})["service"] = {n: {"something": "special" + kw}}
                self.want["conf"][n] = "special" + kw
                self.case.count("service-args")

    def make(self):
        from fedservice.utils import make_federation_combo, make_federation_entity
        self.case.count("entities")
        kw = dict(self.kw, key_config=copy.deepcopy(KEYS))
        if self.builder == "entity":
            e = fe = make_federation_entity(self.eid, **kw)
        elif self.builder == "combo":
            e = fe = make_federation_combo(self.eid, **kw)
        else:
            from checks.c20 import Group
            self.case.count("combos")
            et = Group.guise(None, self.builder, self.eid)
            (name, spec), = et.items()
            conf = spec["kwargs"]["config"]
            own = self.case.rng.choice([None, {"timeout": 3}, {"timeout": 4, "verify": True}])
            conf.pop("httpc_params", None)
            if own:
                conf["httpc_params"] = dict(own)
            e = make_federation_combo(self.eid, entity_type=et, **kw)
            fe = e["federation_entity"]
            # a guise's own HTTP parameters, otherwise the entity's
            got = e[name].httpc_params or {}
            want = own or self.want["httpc"] or {}
            self.case.count("guise-httpc-params")
            same(self.case, "guise-httpc-params",
                 {k: got.get(k) for k in ("timeout", "verify") if k in got and
                  (k in want or k != "timeout")}, want,
                 f"{self.builder} {own} {self.want['httpc']}")
        if self.builder == "combo":
            self.case.count("combos")
        return e, fe


def prints(val):
    """Keys as what they are; cryptojwt normalises those it imports."""
    if isinstance(val, dict) and "kty" in val and "kid" in val:
        return thumb(val)
    if isinstance(val, dict):
        return {k: prints(v) for k, v in val.items()}
    if isinstance(val, list):
        return [prints(v) for v in val]
    return val


def same(case, what, got, want, how):
    case.check(got == want, what, lambda: f"{how}: {got!r}, configured: {want!r}")


def paths(dr):
    res = {}
    t = table("endpoints")
    given = dr.kw.get("endpoints")
    for n in dr.want["endpoints"]:
        p = given[n]["path"] if isinstance(given, dict) else t[n]["path"]
        res[n] = dr.eid + "/" + p
    return res


def says(fe):
    return payload_of(configuration(fe))


def entity(case):
    rng = case.rng
    d = tempfile.mkdtemp(prefix="fsmon-c21-")
    try:
        dr = Drawn(case, d)
        e, fe = dr.make()
        how = f"{dr.builder} {dr.how}"
        w = dr.want
        case.observed((dr.builder, tuple(sorted(dr.how.items()))), True, sample=dr.how)
        same(case, "services", sorted(fe.client.service.db) if fe.client else [],
             sorted(w["services"]), how)
        same(case, "endpoints", {n: ep.full_path for n, ep in fe.server.endpoint.items()}
             if fe.server else {}, paths(dr), how)
        same(case, "functions", sorted(k for k in FUNCTIONS if hasattr(fe.function, k))
             if fe.function else [], sorted(w["functions"]), how)
        for n, m in w["authn"].items():
            same(case, "endpoint-arguments", list(fe.server.endpoint[n].client_authn_method), m, how)
        if fe.server:
            for n, ep in fe.server.endpoint.items():
                if n not in w["authn"]:
                    same(case, "endpoint-arguments", list(ep.client_authn_method or []), [],
                         f"{how} {n}")
        for n, v in w["conf"].items():
            same(case, "service-arguments",
                 (getattr(fe.client.get_service(n), "conf", None) or {}).get("something"), v, how)
        if fe.client:
            for n in w["services"]:
                if n not in w["conf"]:
                    same(case, "service-arguments",
                         (getattr(fe.client.get_service(n), "conf", None) or {}).get("something"),
                         None, f"{how} {n}")
        for part, given in dr.own.items():
            for n, v in given.items():
                got = (fe.client.get_service(n).conf or {}) if part == "services" else \
                    fe.server.endpoint[n].kwargs
                same(case, "own-arguments", got.get("own"), v, f"{how} {n}")
        if w["httpc"]:
            case.count("httpc-params")
            for unit in [fe] + ([fe.client] if fe.client else []):
                same(case, "httpc-params", {k: unit.httpc_params.get(k) for k in w["httpc"]},
                     w["httpc"], how)
        if w["issuers"]:
            same(case, "trust-mark-issuers", getattr(fe.context, "trust_mark_issuers", None), w["issuers"], how)
            same(case, "trust-mark-owner", getattr(fe.context, "trust_mark_owner", None), w["owners"], how)
        if "trust_chain_collector" in w["functions"]:
            col = fe.function.trust_chain_collector
            same(case, "function-arguments", col.allowed_delta, w["delta"] or 600, how)
            same(case, "trust-anchors", {k: [thumb(x) for x in v["keys"]]
                                         for k, v in fe.trust_anchors.items()},
                 {k: [thumb(x) for x in v["keys"]] for k, v in w["anchors"].items()}, how)
            same(case, "trust-anchor-keys", {x for x in key_set(fe.keyjar)
                                             if x[0] not in ("", dr.eid)},
                 {(k, thumb(x)) for k, v in w["anchors"].items() for x in v["keys"]}, how)
            for a in w["anchors"]:
                case.check(a in fe.trust_anchors, "trust-anchors", lambda: f"{how}: {a} isn't in")
            case.check("https://nobody.example.org" not in fe.trust_anchors, "trust-anchors", how)
        same(case, "own-keys", len([k for k in key_set(fe.keyjar) if k[0] == dr.eid]), 2, how)
        same(case, "hints", fe.get_authority_hints() or [], dr.hints_now, how)
        same(case, "marks", fe.context.get_trust_marks() or [], dr.marks_now, how)
        if fe.server:
            same(case, "subordinates", {k: v for k, v in fe.server.subordinate.items()},
                 w["subordinates"], how)
            same(case, "policies", {k: v for k, v in fe.server.policy.items()}, w["policies"], how)
        p = says(fe)
        same(case, "configuration-hints", p.get("authority_hints", []), dr.hints_now, how)
        same(case, "configuration-marks", p.get("trust_marks", []), dr.marks_now, how)
        md = p["metadata"].get("federation_entity", {})
        want = dict(w["preference"])
        for n, url in paths(dr).items():
            if ENDPOINTS[n]:
                want[ENDPOINTS[n]] = url
        same(case, "configuration-metadata", {k: v for k, v in md.items()
                                              if not k.endswith("_auth_methods")}, want, how)
        # and it stays so when what it was given changes
        def write(part, name, val):
            from urllib.parse import quote_plus
            clock.advance(2)
            with open(os.path.join(d, part, quote_plus(name)), "w") as fp:
                json.dump(val, fp)

        if {"file", "callable", "class"} & {dr.how[x] for x in
                                            ("hints", "marks", "anchors", "subordinates")}:
            case.count("later-changes")
            if dr.how["hints"] not in ("list", "none"):
                new = rng.sample([f"https://new{i}.example.org" for i in range(3)],
                                 rng.randint(0, 2))
                dr.hints_now = new
                if dr.how["hints"] == "file":
                    dr.file("hints.json", new)
                elif dr.how["hints"] == "class":
                    with open(os.path.join(d, "hints"), "w") as fp:
                        fp.write("\n".join(new))
            if dr.how["marks"] not in ("list", "none"):
                dr.marks_now = rng.choice([["x.y.z"], ["x.y.z", "u.v.w"]])
                if dr.how["marks"] == "file":
                    dr.file(dr.marks_file, dr.marks_now)
                elif dr.how["marks"] == "class":
                    with open(os.path.join(d, "marks"), "w") as fp:
                        fp.write("\n".join(dr.marks_now))
            for _ in range(2):
                p = says(fe)
                same(case, "later-hints", p.get("authority_hints", []), dr.hints_now, how)
                same(case, "later-marks", p.get("trust_marks", []), dr.marks_now, how)
                same(case, "later-marks", fe.context.get_trust_marks(), dr.marks_now, how)
            for part, store in (("anchors", lambda: fe.trust_anchors),
                                ("subordinates", lambda: fe.server.subordinate)):
                if dr.how[part] != "class":
                    continue
                case.count("later-store")
                want = w[part]
                # (idpyoidc's file store doesn't survive that a file is removed)
                for new in rng.sample(sorted(want) + [f"https://late.{part}.example.org"],
                                      rng.randint(1, 2)):
                    ks = {"keys": [pub(new_key(typ="EC"))]}
                    want[new] = {"jwks": ks} if part == "subordinates" else ks
                    write(part, new, want[new])
                now = store()
                same(case, "later-" + part, prints({k: v for k, v in now.items()}), prints(want), how)
                for k in sorted(want):
                    same(case, "later-" + part, k in store(), True, how)
                    same(case, "later-" + part, prints(store()[k]), prints(want[k]), how)
                same(case, "later-" + part, "https://never.example.org" in store(), False, how)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ file references

def files(case):
    from fedservice.utils import load_values_from_file
    rng = case.rng
    d = tempfile.mkdtemp(prefix="fsmon-c21-")
    n = [0]

    def leaf():
        return rng.choice([1, 0, "", "plain", "afile:x", "http://file:1", None, True, False, 1.5,
                           {}, [], "File:x", "file.json"])

    def ref():
        n[0] += 1
        case.count("file-refs")
        kind = rng.choice(["json", "json", "json", "py", "missing"])
        path = os.path.join(d, f"f{n[0]}.{ 'json' if kind != 'py' else 'py'}")
        if kind == "missing":
            return "file:" + path, None
        val = rng.choice([{"a": 1}, [], ["x"], "text", 5, {"b": {"c": "file:nope"}}, None, False])
        if kind == "py":
            val = "print('x')\n"
            with open(path, "w") as fp:
                fp.write(val)
        else:
            with open(path, "w") as fp:
                json.dump(val, fp)
        return "file:" + path, val

    def tree(depth, in_list=False):
        """(configuration, what it means)"""
        r = rng.random()
        if depth == 0 or r < .3:
            x = leaf()
            return x, copy.deepcopy(x)
        if r < .6:
            return ref()
        if r < .8 or in_list:
            c, w = {}, {}
            for i in range(rng.randint(0, 4)):
                c[f"k{i}"], w[f"k{i}"] = tree(depth - 1)
            return c, w
        pairs = [tree(depth - 1, True) for _ in range(rng.randint(0, 4))]
        return [p[0] for p in pairs], [p[1] for p in pairs]
    try:
        c, w = {}, {}
        for i in range(rng.randint(1, 5)):
            c[f"top{i}"], w[f"top{i}"] = tree(3)
        given = copy.deepcopy(c)
        got = load_values_from_file(c)
        case.observed(json.dumps(given, sort_keys=True).replace(d, ""), True, sample=given)
        case.check(got == w, "file-reference", lambda: f"{given}: {got}, expected {w}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.cases("entity", 150, 1500, entity)
    ctx.cases("files", 150, 1500, files)
