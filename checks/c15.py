"""C15: trust marks that are accepted."""
import json

from fsmon import ref
from fsmon.boot import clock
from fsmon.world import (Node, World, key_set, make_fe, new_key, payload_of, pub, retamper, sign,
                         sign_hs, unsigned)

LEVEL = "exploration"
RULE = ("Histories on one entity: trust marks, genuine and hostile, by issuers directly below a trust "
        "anchor, below an intermediate, below another trust anchor or nobody; owners and delegations, "
        "lists of allowed issuers, expiry, passage of time, and issuers that change keys between. Each "
        "verdict (of the verifier with a given trust anchor and subject, and of the entity's own "
        "verification that also asks the issuer) is compared with an independent one made from the "
        "model's data. Distinct by mark, mutation, trust anchor's demands and verdict.")
ASSUMPTIONS = ["idpyoidc.key_import is replaced by a stand-in (fsmon/keyimport.py)",
               "wall-clock time is virtual (LD_PRELOAD interposer)",
               "trust anchors, issuers and intermediates are models; the entity that verifies is real"]
REQUIRE = {"accepted": 300, "refused": 800, "delegated-ok": 30, "delegation-bad": 150,
           "issuer-not-listed": 50, "other-anchor": 30, "rotated": 30, "asked-active": 40,
           "asked-inactive": 60, "expired": 50,
           "new-demands": 500, "former-delegation": 30, "accepted-after-new-demands": 100}
IDS = ["https://refeds.org/sirtfi", "https://marks.example.org/a", "https://marks.example.org/b"]


class Fed:
    def __init__(self, rng):
        self.rng = rng
        self.w = World().attach()
        mk = lambda e, **k: self.w.add(Node(e, key_types=(rng.choice(["RSA", "EC"]),),
                                            ec_lifetime=3600, es_lifetime=3600, **k))
        self.ta = {t: mk(t) for t in ("https://ta1.example.org", "https://ta2.example.com")}
        ta1, ta2 = self.ta.values()
        im = mk("https://im.example.org", authority_hints=[ta1.entity_id])
        ta1.add_sub(im)
        self.anchors_of = {}
        self.issuers = {}
        for eid, sups in (("https://tmi1.example.org", [ta1]), ("https://tmi1.example.org/b", [im]),
                          ("https://tmi3.example.net/x", [ta2]),
                          ("https://tmi4.example.org", [ta1, ta2]),
                          ("https://tmi5.example.org", [im, ta2])):
            n = mk(eid, authority_hints=[s.entity_id for s in sups])
            n.serve_fetch = False
            n.metadata = {"federation_entity": {
                "federation_trust_mark_status_endpoint": eid + "/status"}}
            for s in sups:
                s.add_sub(n)
            self.issuers[eid] = n
            self.anchors_of[eid] = {ta1.entity_id if s is im else s.entity_id for s in sups}
        self.owner_key = self.former_owner_key = new_key(typ="EC")
        self.owner = "https://owner.example.org"
        self.mallory = new_key(typ="EC")
        # somebody outside
        self.outsider = mk("https://outside.example.org", authority_hints=[])
        self.demands = {}
        self.new_demands()
        self.status = {}
        for eid in self.issuers:
            self.w.extra[eid + "/status"] = self.answer_status
        self.fe = make_fe(anchors={t: n.jwks() for t, n in self.ta.items()})

    def new_demands(self):
        rng = self.rng
        for t, node in self.ta.items():
            issuers, owners = {}, {}
            for i in IDS:
                r = rng.random()
                some = rng.sample(sorted(self.issuers), rng.randint(1, 3))
                if r < .45:
                    issuers[i] = some
                elif r < .6:
                    issuers[i] = some[0]
                elif r < .65:
                    issuers[i] = []
                if rng.random() < .4:
                    o = self.owner if rng.random() < .85 else rng.choice(some)
                    owners[i] = {"sub": o, "jwks": {"keys": [pub(self.owner_key)]}}
                    if rng.random() < .8:
                        issuers.setdefault(i, [])
            fe = {}
            if issuers:
                fe["trust_mark_issuers"] = issuers
            if owners:
                fe["trust_mark_owners"] = owners
            node.metadata = {"federation_entity": fe}
            self.demands[t] = (issuers, owners)

    def answer_status(self, ev):
        r = self.status.get("reply")
        self.status["asked"] = {k: v[0] for k, v in ev.query.items()}
        self.status["at"] = ev.path
        return r

    def delegation(self, mark, owner_key, **over):
        p = {"iss": self.owner, "sub": mark["iss"], "id": mark["id"], "iat": clock.now() - 10}
        p.update(over)
        return sign({k: v for k, v in p.items() if v is not None}, owner_key,
                    typ="trust-mark-delegation+jwt")

    def verdict(self, token, anchor, entity_id):
        """True / False / None (nothing specified), reason."""
        try:
            p = payload_of(token)
        except Exception:
            return False, "garbage"
        now = clock.now()
        for c in ("iss", "sub", "id"):
            if not isinstance(p.get(c), str) or not p[c]:
                return False, "claims"
        if not isinstance(p.get("iat"), int) or p["iat"] > now:
            return False, "claims"
        if "exp" in p and p["exp"] < now:
            return False, "expired"
        if entity_id and p["sub"] != entity_id:
            return False, "subject"
        if p["iss"] not in self.issuers:
            return False, "not a member"
        if anchor not in self.anchors_of[p["iss"]]:
            return False, "other anchor"
        if not ref.signed_by(token, self.issuers[p["iss"]].jwks()):
            return False, "signature"
        issuers, owners = self.demands[anchor]
        lst = issuers.get(p["id"])
        lst = [lst] if isinstance(lst, str) else lst
        if lst and p["iss"] not in lst:
            return False, "issuer not listed"
        o = owners.get(p["id"])
        if "delegation" in p:
            if not o:
                return False, "delegation"
            try:
                d = payload_of(p["delegation"])
            except Exception:
                return False, "delegation"
            if not ref.signed_by(p["delegation"], o["jwks"]) or d.get("iss") != o["sub"] or \
                    d.get("sub") != p["iss"] or d.get("id") != p["id"] or d.get("exp", now) < now:
                return False, "delegation"
            if p["id"] not in issuers:
                return None, "owner but no list of issuers"
            return True, "delegated"
        if o and o["sub"] != p["iss"]:
            return False, "delegation"
        return True, "plain"


DELEGATION = ["good", "wrong-key", "other-sub", "other-id", "other-iss", "expired", "tampered",
              "garbage", "unsigned", "self-made", "no-id", "own-key",
              "former-key", "former-key"]
MUTATION = ["none"] * 12 + ["tamper-sub", "tamper-id", "tamper-exp", "wrong-key",
            "kid-of-issuer", "hs", "unsigned", "other-issuers-key", "garbage", "no-sub", "no-id",
            "no-iat", "future", "outsider", "outsider-poses", "sig-cut", "anchor-key", "own-jwk"]


def make(fed, rng, eid=None):
    eid = eid or rng.choice(sorted(fed.issuers))
    n = fed.issuers[eid]
    sub = rng.choice(["https://rp.example.org", "https://op.example.org/t"])
    p = {"iss": eid, "sub": sub, "id": rng.choice(IDS), "iat": clock.now() - rng.choice([0, 50])}
    r = rng.random()
    if r < .5:
        p["exp"] = clock.now() + rng.choice([0, 1, 100, 5000, 10000])
    elif r < .6:
        p["exp"] = clock.now() - rng.choice([1, 60])
    if rng.random() < .2:
        p["ref"] = "https://x.example.org"
    how = "-"
    needs = any(p["id"] in fed.demands[t][1] for t in fed.anchors_of[eid])
    if rng.random() < (.8 if needs else .1):
        how = rng.choice(DELEGATION + ["good"] * 5)
        ok = fed.owner_key
        past = clock.now() - 1000
        if how == "garbage":
            p["delegation"] = rng.choice(["e30.e30.x", "x", "a.b.c"])
        elif how == "unsigned":
            p["delegation"] = unsigned({"iss": fed.owner, "sub": eid, "id": p["id"],
                                        "iat": past})
        else:
            over = {"other-sub": {"sub": "https://else.example.org"},
                    "other-id": {"id": rng.choice([i for i in IDS if i != p["id"]])},
                    "other-iss": {"iss": "https://else.example.org"},
                    "expired": {"iat": past - 10, "exp": past}, "no-id": {"id": None},
                    "self-made": {"iss": eid}}.get(how, {})
            if how == "good" and rng.random() < .5:
                over = {"exp": clock.now() + rng.choice([0, 10, 5000])}
            key = {"wrong-key": fed.mallory, "self-made": n.key, "own-key": n.key,
                   "former-key": fed.former_owner_key}.get(how, ok)
            hdr = {"kid": ok.kid} if how in ("wrong-key", "own-key") and rng.random() < .6 else None
            p["delegation"] = fed.delegation(p, key, **over) if not hdr else sign(
                payload_of(fed.delegation(p, key, **over)), key, hdr)
            if how == "tampered":
                p["delegation"] = retamper(p["delegation"],
                                           lambda d: d.update(exp=clock.now() + 99999))
    mut = rng.choice(MUTATION)
    key = n.key
    if mut == "wrong-key":
        return mut, how, sign(p, fed.mallory)
    if mut == "kid-of-issuer":
        return mut, how, sign(p, fed.mallory, {"kid": key.kid})
    if mut == "own-jwk":
        return mut, how, sign(p, fed.mallory, {"jwk": pub(fed.mallory)})
    if mut == "hs":
        sec = json.dumps(pub(key)).encode()
        return mut, how, sign_hs(p, sec, {"kid": key.kid})
    if mut == "unsigned":
        return mut, how, unsigned(p, {"kid": rng.choice([key.kid, ""])})
    if mut == "other-issuers-key":
        o = rng.choice([x for x in fed.issuers.values() if x is not n])
        return mut, how, sign(p, o.key)
    if mut == "anchor-key":
        return mut, how, sign(p, fed.ta[rng.choice(sorted(fed.ta))].key)
    if mut == "garbage":
        return mut, how, rng.choice(["x.y.z", "abc", "e30.e30.", "..", ""])
    if mut in ("no-sub", "no-id", "no-iat"):
        p.pop(mut[3:])
    if mut == "future":
        p["iat"] = clock.now() + 500
    if mut == "outsider":
        p["iss"] = fed.outsider.entity_id
        return mut, how, sign(p, fed.outsider.key)
    if mut == "outsider-poses":
        return mut, how, sign(p, fed.outsider.key)
    tok = sign(p, key)
    if mut == "tamper-sub":
        tok = retamper(tok, lambda d: d.update(sub="https://mallory.example.org"))
    if mut == "tamper-id":
        tok = retamper(tok, lambda d: d.update(id=rng.choice(IDS)))
    if mut == "tamper-exp":
        tok = retamper(tok, lambda d: d.update(exp=clock.now() + 9999999))
    if mut == "sig-cut":
        tok = tok[:-8]
    return mut, how, tok


STATUS = {"active": (200, '{"active": true}'), "inactive": (200, '{"active": false}'),
          "error": (400, '{"error": "not_found"}'), "empty": (200, "{}"),
          "not-found": (404, "{}"), "odd": (200, '{"active": "no"}')}


def one(case):
    rng = case.rng
    fed = Fed(rng)
    fe = fed.fe
    old = []
    rotated = set()
    just = None
    demands_changed = changed_owner = False
    delegated = []
    for step in range(rng.randint(4, 9)):
        r = rng.random()
        just = None
        if r < .15:
            clock.advance(rng.choice([1, 30, 120, 4000, 6000]))
        elif r < .25:
            n = rng.choice(list(fed.issuers.values()))
            n.keys = [new_key(typ="EC")]
            rotated.add(n.entity_id)
            just = n.entity_id
            for s in list(fed.ta.values()) + [fed.w.nodes["https://im.example.org"]]:
                if n.entity_id in s.subs:
                    s.add_sub(n)
            clock.advance(3601)       # nothing cached about it is in force any longer
        elif r < .4:
            # the trust anchors change their demands, the owner perhaps its key
            fed.former_owner_key = fed.owner_key
            if rng.random() < .7:
                fed.owner_key = new_key(typ="EC")
            if rng.random() < .5:
                fed.new_demands()
            else:
                for t, (_, owners) in fed.demands.items():
                    for o in owners.values():
                        o["jwks"] = {"keys": [pub(fed.owner_key)]}
                changed_owner = True
            clock.advance(3601)
            demands_changed = True
            case.count("new-demands")
        if changed_owner and delegated and rng.random() < .5:
            mut, how, tok = rng.choice(delegated)
            again = True
            case.count("former-delegation")
        elif old and rng.random() < .3:
            mut, how, tok = rng.choice(old)
            again = True
        else:
            mut, how, tok = make(fed, rng, just if rng.random() < .8 else None)
            old.append((mut, how, tok))
            again = False
        iss = ""
        try:
            pl = payload_of(tok)
            iss = pl.get("iss", "")
        except Exception:
            pl = {}
        anchor = rng.choice(sorted(fed.anchors_of.get(iss) or fed.ta)) if rng.random() < .85 else \
            rng.choice(sorted(fed.ta) + ["https://ta3.example.org", "https://im.example.org", iss or "x"])
        subj = pl.get("sub") if isinstance(pl.get("sub"), str) else ""
        entity_id = rng.choice(["", "", subj, subj, "https://rp.example.org"] + (
            [subj + "/", subj + "x", subj[:-1], subj.rsplit("/", 1)[0]] if subj else []))
        fed.demands.setdefault(anchor, ({}, {}))
        want, why = fed.verdict(tok, anchor, entity_id)
        before = key_set(fe.keyjar)
        ask = rng.random() < .35
        if not ask:
            try:
                res = fe.function.trust_mark_verifier(trust_mark=tok, trust_anchor=anchor,
                                                      entity_id=entity_id,
                                                      check_status=rng.random() < .3)
            except Exception as err:
                res, exc = None, err
            else:
                exc = None
        else:
            st = rng.choice(["active", "active", "active"] + sorted(STATUS))
            code, text = STATUS[st]
            fed.status = {"reply": (code, text, "application/json")}
            vs = [fed.verdict(tok, t, "") for t in sorted(fed.anchors_of.get(iss, ()))]
            if any(v[0] for v in vs) or not vs:
                want = True if vs and all(v[0] for v in vs) else False if not vs else None
                why = vs[0][1] if vs else "not a member"
            elif any(v[0] is None for v in vs):
                want = None
            else:
                want, why = False, vs[0][1]
            if st != "active" and want is not False:
                want, why = False, f"status {st}"
            try:
                res = fe.verify_trust_mark(tok, check_with_issuer=True)
            except Exception as err:
                res, exc = None, err
            else:
                exc = None
            if res:
                a = fed.status.get("asked")
                case.check(a is not None and fed.status["at"] == iss + "/status" and
                           (a.get("trust_mark") == tok or (a.get("sub") == pl["sub"] and
                                                           a.get("trust_mark_id") == pl["id"])),
                           "status-question", f"asked {fed.status}, about {pl}")
            case.count("asked-active" if st == "active" and want else
                       "asked-inactive" if why.startswith("status") else "asked")
        got = bool(res)
        sig = (mut, how, why, ask, again, bool(entity_id), iss in rotated,
               len(fed.anchors_of.get(iss, ())))
        case.observed(sig, sample={"mark": pl, "mutation": mut, "delegation": how, "anchor": anchor,
                                   "demands": fed.demands.get(anchor), "verdict": [want, why],
                                   "accepted": got})
        detail = lambda: (f"mark {pl}\nmutation {mut}, delegation {how}, anchor {anchor}, entity_id "
                          f"{entity_id!r}, asked issuer {ask}\ndemands {fed.demands.get(anchor)}\n"
                          f"oracle: {want} ({why}); result {res!r} {exc!r}")
        if want is False:
            case.check(not got, f"accepted:{why.split()[0]}", detail)
            case.count("refused")
            case.count({"delegation": "delegation-bad", "issuer not listed": "issuer-not-listed",
                        "other anchor": "other-anchor", "expired": "expired"}.get(why, "other-bad"))
        elif want:
            case.check(got, f"refused:{why}", detail)
            if got:
                case.check({k: res.get(k) for k in pl} == pl, "content", detail)
            case.count("accepted")
            if why == "delegated":
                delegated.append((mut, how, tok))
                case.count("delegated-ok")
            if iss in rotated:
                case.count("rotated")
            if demands_changed:
                case.count("accepted-after-new-demands")
        # looking at a trust mark gives nobody keys that a trust chain doesn't
        extra = {(o, t) for o, t in key_set(fe.keyjar) - before
                 if o not in fed.w.nodes and o != fe.entity_id}
        case.check(not extra, "keys", lambda: f"{extra}\n" + detail())


def run(ctx):
    ctx.cases("marks", 250, 4000, one)
