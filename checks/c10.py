"""C10: entity configurations and fetched statements say what is registered."""
import copy
import json
import os
import shutil
import tempfile

from fsmon import ref
from fsmon.boot import clock
from fsmon.combos import op_combo, rp_combo
from fsmon.serve import call, configuration
from fsmon.world import make_fe, new_key, payload_of, pub, thumb

LEVEL = "exploration"
RULE = ("distinct = (kind of question, kind of entity, claims of the statement that answers it, "
        "what was registered)")
ASSUMPTIONS = [
    "what is registered for a subordinate is changed between questions, not during one",
    "a record's own metadata or metadata policy is not combined with a policy of the same kind: "
    "what the policy store says replaces it",
]
REQUIRE = {"statements": 3000, "configurations": 2000, "refused": 1000, "combo-configurations": 200,
           "file-store": 1000, "type-policy": 250, "own-policy": 250, "no-keys": 200,
           "trust-marks": 500, "after-change": 800, "self-fetch": 400, "more-keys": 300,
           "changed-preference": 300, "look-alike": 300, "other-claims": 500}

SUBS = [f"https://sub{i}.example.org" for i in range(4)] + ["https://sub4.example.org/with/path?x=1",
                                                           "https://sub0.example.org/"]
TYPES = ["openid_relying_party", "federation_entity", "openid_provider"]
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}
BOOK = ("entity_types", "intermediate")


def private_parts(x, path=""):
    if isinstance(x, dict):
        if "kty" in x and PRIVATE & set(x):
            return [path]
        return [y for k, v in x.items() for y in private_parts(v, f"{path}/{k}")]
    if isinstance(x, list):
        return [y for i, v in enumerate(x) for y in private_parts(v, f"{path}/{i}")]
    return []


class Subject:
    def __init__(self, case, d):
        rng = case.rng
        self.case, self.rng, self.d = case, rng, d
        self.eid = rng.choice(["https://sup.example.org", "https://sup.example.org/tenant"])
        self.pref = {"organization_name": rng.choice(["Org A", "Ørg B"]),
                     "contacts": [rng.choice(["a@example.org", "b@example.org"])]}
        if rng.random() < .5:
            self.pref["homepage_uri"] = "https://home.example.org"
        self.kind = rng.choice(["plain"] * 6 + ["rp", "op"])
        self.endpoints = ["entity_configuration"] + rng.sample(["list", "resolve"], rng.randint(0, 2))
        if rng.random() < .85:
            self.endpoints.append("fetch")
        self.hints_kind = rng.choice(["list", "file", "callable", "none"])
        self.hints = []
        self.hints_file = os.path.join(d, "hints.json")
        if self.hints_kind != "none":
            self.hints = rng.sample(["https://a.example.org", "https://b.example.org"],
                                    rng.randint(1, 2))
        hints = None
        if self.hints_kind == "list":
            hints = self.hints
        elif self.hints_kind == "file":
            json.dump(self.hints, open(self.hints_file, "w"))
            hints = self.hints_file
        elif self.hints_kind == "callable":
            hints = lambda *a: list(self.hints)  # noqa
        kw = dict(preference=copy.deepcopy(self.pref), authority_hints=hints,
                  endpoints=self.endpoints)
        if self.kind == "plain":
            self.entity = self.fe = make_fe(self.eid, **kw)
            self.types = {"federation_entity"}
        elif self.kind == "rp":
            self.entity = rp_combo(self.eid, **kw)
            self.fe = self.entity["federation_entity"]
            self.types = {"federation_entity", "openid_relying_party"}
        else:
            self.entity = op_combo(self.eid, **kw)
            self.fe = self.entity["federation_entity"]
            self.types = {"federation_entity", "openid_provider"}
        self.keys = self.fe.keyjar.export_jwks()
        self.all_keys = copy.deepcopy(self.keys)
        self.thumbs = {thumb(k) for k in self.keys["keys"]}
        self.rotated = self.changed_pref = False
        self.store_kind = rng.choice(["dict", "dict", "file"])
        self.model, self.policy = {}, {}
        if self.store_kind == "file":
            from idpyoidc.storage.abfile import AbstractFileSystem
            self.fe.server.subordinate = AbstractFileSystem(
                fdir=os.path.join(d, "subs"), key_conv="idpyoidc.util.Base64",
                value_conv="idpyoidc.util.JSON")
        self.marks = []
        self.marks_kind = rng.choice(["list", "file", "callable"])
        self.marks_file = os.path.join(d, "marks.json")
        if self.marks_kind == "file":
            json.dump([], open(self.marks_file, "w"))
            self.fe.context.trust_marks = self.marks_file
        elif self.marks_kind == "callable":
            self.fe.context.trust_marks = lambda *a: list(self.marks)
        else:
            self.fe.context.trust_marks = self.marks
        self.n = 0

    def ep(self, name):
        return self.fe.server.get_endpoint(name)

    # changes
    def register(self, sub):
        rng = self.rng
        rec = {}
        if rng.random() < .85:
            rec["jwks"] = {"keys": [pub(new_key(typ="EC")) for _ in range(rng.randint(1, 2))]}
        if rng.random() < .5:
            rec["entity_types"] = rng.sample(TYPES, rng.randint(0, 2))
        if rng.random() < .3:
            rec["intermediate"] = True
        if rng.random() < .3:
            rec["authority_hints"] = rng.choice(
                [[self.eid], [self.eid, "https://other.example.org"],
                 ["https://other.example.org", self.eid], ["https://other.example.org"],
                 [self.eid + "/"]])
        if rng.random() < .3:
            rec["constraints"] = {"max_path_length": rng.randint(0, 2)}
        if rng.random() < .25:
            rec["metadata"] = {"openid_provider": {"organization_name": "From the record"}}
        if rng.random() < .3:
            k, v = rng.choice([("trust_marks", [{"id": "x", "trust_mark": "a.b.c"}]),
                               ("source_endpoint", "https://sup.example.org/fetch"),
                               ("x_number", 17), ("x_list", ["a", {"b": None}]),
                               ("policy_language_crit", ["regexp"]), ("x_false", False),
                               ("intermediate_since", 2020), ("entity_types_supported", ["a"])])
            rec[k] = v
        if not rec:
            rec["intermediate"] = False
        self.model[sub] = copy.deepcopy(rec)
        self.fe.server.subordinate[sub] = copy.deepcopy(rec)
        if self.store_kind == "file":
            # no two versions of a file within the resolution of the file's time stamp
            self.n += 1
            path = self.fe.server.subordinate.key_conv.serialize(sub)
            fn = os.path.join(self.fe.server.subordinate.fdir, path)
            os.utime(fn, ns=(self.n * 10**9, self.n * 10**9))

    def remove(self, sub):
        self.model.pop(sub, None)
        if self.store_kind == "file":
            s = self.fe.server.subordinate
            fn = os.path.join(s.fdir, s.key_conv.serialize(sub))
            if os.path.exists(fn):
                os.unlink(fn)
        else:
            self.fe.server.subordinate.pop(sub, None)

    def change_policy(self):
        rng = self.rng
        key = rng.choice(TYPES + SUBS[:3] + SUBS[-1:])
        if rng.random() < .3:
            self.policy.pop(key, None)
            self.fe.server.policy.pop(key, None)
            return
        claims = rng.choice([{"contacts": {"add": [f"x{rng.randint(0, 9)}@example.org"]}},
                             {"scope": {"subset_of": ["openid", "email"]}}])
        plain = {"logo_uri": f"https://logo.example.org/{rng.randint(0, 9)}"}
        p = {}
        if rng.random() < .8:
            p["metadata_policy"] = claims
        if rng.random() < .4 or not p:
            p["metadata"] = plain
        if key not in TYPES:
            p = {k: {rng.choice(TYPES): v} for k, v in p.items()}
        self.policy[key] = copy.deepcopy(p)
        self.fe.server.policy[key] = copy.deepcopy(p)

    def add_key(self):
        """A further key, of the entity's own."""
        k = new_key(typ=self.rng.choice(["EC", "RSA"]))
        for owner in ("", self.eid):
            self.fe.keyjar.import_jwks({"keys": [k.serialize(private=True)]}, owner)
        self.all_keys["keys"].append(pub(k))
        self.thumbs.add(thumb(pub(k)))
        self.keys = self.all_keys
        self.rotated = True

    def change_preference(self):
        k, v = self.rng.choice([("organization_name", f"Org {self.rng.randint(0, 99)}"),
                                ("contacts", [f"c{self.rng.randint(0, 99)}@example.org"]),
                                ("policy_uri", "https://policy.example.org"),
                                ("homepage_uri", f"https://h{self.rng.randint(0, 9)}.example.org")])
        self.pref[k] = v
        self.fe.context.claims.set_preference(k, copy.deepcopy(v))
        self.changed_pref = True

    def change_hints(self):
        if self.hints_kind in ("none", "list"):
            return
        self.hints[:] = self.rng.sample(["https://a.example.org", "https://b.example.org",
                                         "https://c.example.org"], self.rng.randint(1, 3))
        if self.hints_kind == "file":
            json.dump(self.hints, open(self.hints_file, "w"))

    def change_marks(self):
        self.marks[:] = [f"mark-{i}" for i in range(self.rng.randint(0, 2))]
        if self.marks_kind == "file":
            json.dump(self.marks, open(self.marks_file, "w"))

    # what is expected
    def expected(self, sub):
        rec = self.model[sub]
        want = {k: copy.deepcopy(v) for k, v in rec.items() if k not in BOOK}
        want.setdefault("authority_hints", [self.eid])
        pol = self.policy.get(sub)
        if sub.rstrip("/") + "/" == SUBS[-1] and set(SUBS[-1:] + SUBS[:1]) & set(self.policy):
            self.case.count("look-alike")
        if set(rec) - set(BOOK) - {"jwks", "authority_hints", "constraints", "metadata"}:
            self.case.count("other-claims")
        if pol:
            self.case.count("own-policy")
        else:
            pol = {}
            for t in rec.get("entity_types", []):
                for what, v in self.policy.get(t, {}).items():
                    pol.setdefault(what, {})[t] = v
            if pol:
                self.case.count("type-policy")
        want.update(copy.deepcopy(pol))
        want.update({"iss": self.eid, "sub": sub, "iat": clock.now()})
        return want

    def common(self, text, what):
        case = self.case
        case.check(ref.signed_by(text, self.keys), f"{what}-signature",
                   lambda: f"not signed with a key of {self.eid}: {text}")
        p = payload_of(text)
        bad = private_parts(p)
        case.check(not bad, "private-key", lambda: f"private key at {bad} in {p}")
        exp = p.pop("exp", None)
        case.check(isinstance(exp, int) and exp > clock.now(), f"{what}-exp",
                   lambda: f"exp {exp} at {clock.now()}")
        return p

    def statement(self, sub, reply):
        p = self.common(reply.text, "statement")
        want = self.expected(sub)
        self.case.check(p == want, "statement-content",
                        lambda: f"{json.dumps(p, sort_keys=True)}\nwanted\n"
                                f"{json.dumps(want, sort_keys=True)}\nrecord {self.model[sub]}\n"
                                f"policy {self.policy}")
        self.case.count("statements")
        if "jwks" not in want:
            self.case.count("no-keys")
        if self.store_kind == "file":
            self.case.count("file-store")
        self.case.observed(("fetch", self.kind, tuple(sorted(p)), tuple(sorted(self.model[sub]))))

    def about_me(self, text, how):
        case = self.case
        p = self.common(text, "configuration")
        want = {"iss": self.eid, "sub": self.eid, "iat": clock.now()}
        if self.hints:
            want["authority_hints"] = self.hints
        if self.marks:
            want["trust_marks"] = self.marks
            case.count("trust-marks")
        md, jwks = p.pop("metadata", None), p.pop("jwks", None)
        case.check(p == want, "configuration-content", lambda: f"{how}: {p}\nwanted {want}")
        got = {thumb(k) for k in (jwks or {}).get("keys", [])}
        case.check(got == self.thumbs, "configuration-keys",
                   lambda: f"{how}: {got}\nwanted {self.thumbs}")
        if case.check(isinstance(md, dict) and set(md) == self.types, "configuration-types",
                      lambda: f"{how}: {md}"):
            fed = dict(self.pref)
            for n in self.endpoints:
                if n != "entity_configuration":
                    fed[f"federation_{n}_endpoint"] = f"{self.eid}/{n}"
            case.check(md["federation_entity"] == fed, "configuration-metadata",
                       lambda: f"{how}: {md['federation_entity']}\nwanted {fed}")
            if "openid_provider" in md:
                case.check(md["openid_provider"].get("issuer") == self.eid and
                           str(md["openid_provider"].get("authorization_endpoint")
                               ).startswith(self.eid + "/"),
                           "configuration-op", lambda: f"{how}: {md['openid_provider']}")
            if "openid_relying_party" in md:
                case.check(md["openid_relying_party"].get("redirect_uris") ==
                           [self.eid + "/cb"], "configuration-rp",
                           lambda: f"{how}: {md['openid_relying_party']}")
        case.count("configurations")
        if self.rotated:
            case.count("more-keys")
        if self.changed_pref:
            case.count("changed-preference")
        if self.kind != "plain":
            case.count("combo-configurations")
        case.observed((how, self.kind, self.hints_kind, self.marks_kind, len(self.hints),
                       len(self.marks), tuple(sorted(self.endpoints))))


def one(case):
    d = tempfile.mkdtemp(prefix="fsmon-c10-")
    try:
        _one(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _one(case, d):
    rng = case.rng
    s = Subject(case, d)
    for sub in rng.sample(SUBS, rng.randint(1, 4)):
        s.register(sub)
    for _ in range(rng.choice([0, 2, 5])):
        s.change_policy()
    changed = False
    hist = []
    for _ in range(rng.randint(10, 24)):
        r = rng.random()
        if r < .3:
            what = rng.choice(["register", "remove", "policy", "policy", "hints", "marks", "time",
                               "key", "preference", "preference"])
            if what == "register":
                s.register(rng.choice(SUBS))
            elif what == "remove":
                s.remove(rng.choice(SUBS))
            elif what == "policy":
                s.change_policy()
            elif what == "hints":
                s.change_hints()
            elif what == "marks":
                s.change_marks()
            elif what == "key":
                s.add_key()
            elif what == "preference":
                s.change_preference()
            else:
                clock.advance(rng.choice([1, 3600, 90000]))
            changed = True
            hist.append(what)
        elif r < .5:
            if rng.random() < .5:
                s.about_me(call(s.ep("entity_configuration"), {}).text, "endpoint")
            else:
                s.about_me(configuration(s.fe), "view")
            hist.append("configuration")
        elif "fetch" in s.endpoints:
            kind = rng.choice(["known"] * 6 + ["known-iss", "unknown", "foreign", "me", "nothing",
                                               "foreign-only"])
            known = sorted(s.model)
            sub = rng.choice(known) if known else SUBS[0]
            other = rng.choice([x for x in SUBS + ["https://evil.example.org"]])
            q = {"known": {"sub": sub}, "known-iss": {"sub": sub, "iss": s.eid},
                 "unknown": {"sub": rng.choice(["https://nobody.example.org", s.eid + "/", "../x"] + [
                     x for x in (sub + "x", sub + "/", sub[:-1], sub + "?a", sub + "#a", sub.upper(),
                                 sub.rsplit("/", 1)[0], sub.replace("https", "http"), sub + " ")
                     if x not in s.model and x not in (s.eid, "https:/")])},
                 "foreign": {"sub": sub, "iss": other}, "me": {"sub": s.eid}, "nothing": {},
                 "foreign-only": {"iss": other}}[kind]
            reply = call(s.ep("fetch"), q)
            hist.append((kind, q.get("sub", "")[8:12]))
            if kind in ("me", "nothing"):
                if reply.ok:
                    s.about_me(reply.text, "fetch")
                    case.count("self-fetch")
            elif kind.startswith("known") and sub in s.model:
                if case.check(reply.ok, "not-issued", lambda: f"{q}: {reply} {s.model[sub]}"):
                    s.statement(sub, reply)
                    if changed:
                        case.count("after-change")
                        changed = False
            else:
                case.check(not reply.ok, "issued", lambda: f"{q}: {payload_of(reply.text)}\n"
                                                          f"registered {known}")
                case.count("refused")
        if s.store_kind == "dict":
            case.check(dict(s.fe.server.subordinate) == s.model and s.fe.server.policy == s.policy,
                       "record-changed", lambda: f"{s.fe.server.subordinate}\nwas {s.model}\n"
                                                 f"{s.fe.server.policy}\nwas {s.policy}")
    case.observed(tuple(map(str, hist)), sample={"kind": s.kind, "history": hist})


def run(ctx):
    ctx.cases("histories", 400, 4000, one)
