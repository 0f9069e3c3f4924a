"""Watches the federation key store of every federation entity while some workload runs.

Oracle: at any point where a trust chain is presented, and at the end, the keys an entity holds are
those it was configured with and those that the trust chains it has accepted so far vouch for, a
trust anchor's excepted, which only the trust anchor itself can add to.
"""
from .world import key_set, thumb


def vouched(payloads, anchors):
    res, by_anchors = set(), set()
    for p in payloads:
        for k in (p.get("jwks") or {}).get("keys", []):
            if p["sub"] in anchors:
                if p["iss"] == p["sub"]:
                    by_anchors.add((p["sub"], thumb(k)))
            else:
                res.add((p["sub"], thumb(k)))
    return res, by_anchors


class Watch:
    def __init__(self, case):
        self.case, self.entities, self.undo = case, {}, []
        self.accepted = self.refused = self.looks = 0
        self.log = []

    def _patch(self, cls, name, make):
        orig = getattr(cls, name)
        own = cls.__dict__.get(name)
        setattr(cls, name, make(orig))
        self.undo.append((cls, name, own))

    def __enter__(self):
        from fedservice.entity import FederationEntity
        from fedservice.entity.function.trust_chain_collector import TrustChainCollector
        from fedservice.entity.function.verifier import TrustChainVerifier
        from fedservice.entity.utils import get_federation_entity
        watch = self

        def init(orig):
            def __init__(fe, *args, **kwargs):
                orig(fe, *args, **kwargs)
                watch.start(fe)
            return __init__

        def call(orig):
            def __call__(verifier, chain, *args, **kwargs):
                fe = get_federation_entity(verifier)
                watch.look(fe, "before a trust chain is presented")
                try:
                    tc = orig(verifier, chain, *args, **kwargs)
                except Exception:
                    watch.refused += 1
                    watch.log.append("a chain is refused")
                    watch.look(fe, "after a trust chain was refused")
                    raise
                if tc:
                    watch.accepted += 1
                    watch.accept(fe, tc)
                    watch.look(fe, f"after the trust chain {tc.iss_path} was accepted")
                else:
                    watch.refused += 1
                    watch.look(fe, "after a trust chain was refused")
                return tc
            return __call__

        def anchor(orig):
            def add_trust_anchor(unit, entity_id, jwks, *args, **kwargs):
                res = orig(unit, entity_id, jwks, *args, **kwargs)
                fe = get_federation_entity(unit)
                if id(fe) in watch.entities:
                    watch.entities[id(fe)][1].update((entity_id, thumb(k)) for k in jwks["keys"])
                return res
            return add_trust_anchor
        self._patch(FederationEntity, "__init__", init)
        self._patch(TrustChainVerifier, "__call__", call)
        self._patch(FederationEntity, "add_trust_anchor", anchor)
        self._patch(TrustChainCollector, "add_trust_anchor", anchor)
        return self

    def __exit__(self, *exc):
        for cls, name, own in reversed(self.undo):
            if own is None:
                delattr(cls, name)
            else:
                setattr(cls, name, own)
        return False

    @staticmethod
    def keys(fe):
        if not fe.keyjar:
            return set()
        return {x for x in key_set(fe.keyjar) if x[0] not in ("", fe.entity_id)}

    def start(self, fe):
        # [entity, what it may have, what it must have]
        k = self.keys(fe)
        self.entities[id(fe)] = [fe, set(k), set(k)]

    @staticmethod
    def configured(fe):
        # make_federation_entity adds the trust anchors' keys after construction
        res = set()
        for entity_id, jwks in (fe.function.trust_chain_collector.trust_anchors or {}).items():
            if isinstance(jwks, dict):
                res.update((entity_id, thumb(k)) for k in jwks.get("keys", []))
        return res

    def accept(self, fe, tc):
        if id(fe) not in self.entities:
            return
        anchors = set(fe.trust_anchors) | (set() if fe.get_authority_hints() else {fe.entity_id})
        must, may = vouched(tc.verified_chain, anchors)
        e = self.entities[id(fe)]
        e[1].update(must | may)
        e[2].update(x for x in must if x[0] != fe.entity_id)

    def look(self, fe, when):
        if id(fe) not in self.entities:
            return
        self.looks += 1
        _, may, must = self.entities[id(fe)]
        may |= self.configured(fe)
        now = self.keys(fe)
        what = lambda: f"{fe.entity_id}, {when}: "
        self.case.check(now <= may, "key-out-of-nowhere", lambda: what() +
                        f"keys no accepted trust chain vouches for: {sorted(now - may)}")
        self.case.check(must <= now, "key-gone", lambda: what() +
                        f"keys are missing: {sorted(must - now)}")

    def finish(self):
        for fe, *_ in list(self.entities.values()):
            self.look(fe, "in the end")


class Quiet:
    """A case whose verdicts don't count."""

    def __init__(self, case):
        self.rng, self.ctx, self.family, self.index = case.rng, case.ctx, case.family, case.index
        self.data, self.failed = {}, False

    def count(self, *a, **k):
        pass

    observed = count

    def fail(self, *a):
        self.failed = True

    def check(self, cond, *a):
        if not cond:
            self.failed = True
        return cond
