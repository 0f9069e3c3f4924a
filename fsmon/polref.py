"""Reference model of metadata policies: what several superiors' policies together demand.

Written from the operators' definitions; lists are compared as sets.
"""


def lst(v):
    return list(v) if isinstance(v, list) else [v]


def sub(a, b):
    return all(x in lst(b) for x in lst(a))


def satisfied(ops, present, value, common_superset=None):
    """Does this claim obey one superior's operators? Returns the operators it breaks."""
    bad = []
    if "value" in ops and not (present and same(value, ops["value"])):
        bad.append("value")
    if "add" in ops and not (present and sub(ops["add"], value)):
        bad.append("add")
    if "default" in ops and not present:
        bad.append("default")
    if ops.get("essential") and not present:
        bad.append("essential")
    if present:
        if "one_of" in ops and value not in ops["one_of"]:
            bad.append("one_of")
        if "subset_of" in ops and not sub(value, ops["subset_of"]):
            bad.append("subset_of")
        if "superset_of" in ops:
            req = common_superset if common_superset is not None else ops["superset_of"]
            if not sub(req, value):
                bad.append("superset_of")
    return bad


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b


def setlike_same(a, b):
    """Equal, taking lists as sets and a single value as different from a list."""
    if isinstance(a, list) and isinstance(b, list):
        return {repr(x) for x in a} == {repr(x) for x in b}
    return a == b


def inter(lists):
    res = list(lists[0])
    for l in lists[1:]:
        res = [x for x in res if x in l]
    return res


def claim_verdict(policies, present, value):
    """policies: one claim's operators, superiors first. -> (verdict, present, value).

    verdict: 'refuse', 'accept' (with the exact outcome) or 'may' (either, as long as every
    superior's operators are satisfied).
    """
    policies = [p for p in policies if p]
    if not policies:
        return "accept", present, value
    v, pres, val = _claim_verdict(policies, present, value)
    if v == "accept" and len(policies) > 1:
        # refusing a policy that contradicts itself is fine, whatever the others make of it
        parts = [policies[:i] for i in range(1, len(policies))] + [[p] for p in policies]
        if any(contradictory(p) for p in parts):
            v = "may"
    return v, pres, val


def contradictory(policies):
    p = {}
    for op in ("one_of", "subset_of", "superset_of"):
        ls = [x[op] for x in policies if op in x]
        if ls:
            p[op] = inter(ls)
            if not p[op]:
                return True
    if "superset_of" in p and "subset_of" in p and not sub(p["superset_of"], p["subset_of"]) \
            or "one_of" in p and len(p) > 1:
        return True
    for x in policies:
        for op in ("value", "default", "add"):
            if op in x:
                if "superset_of" in p and not sub(p["superset_of"], x[op]):
                    return True
                if any(lim in p and not sub(x[op], p[lim]) for lim in ("one_of", "subset_of")):
                    return True
    return False


def _claim_verdict(policies, present, value):
    names = set().union(*policies)
    vals = [p["value"] for p in policies if "value" in p]
    if any(v != vals[0] for v in vals):
        return "refuse", None, None
    ess = False
    for p in policies:
        if "essential" in p:
            if ess and not p["essential"]:
                return "refuse", None, None
            ess = ess or p["essential"]
    if vals:
        others = names - {"value", "essential"}
        if others:
            v = vals[0]
            for p in policies:
                if satisfied({k: x for k, x in p.items() if k != "superset_of"}, True, v):
                    return "refuse", None, None
            sups = [p["superset_of"] for p in policies if "superset_of" in p]
            if sups and not sub(inter(sups), v):
                return "refuse", None, None
            return "may", True, v
        return "accept", True, vals[0]
    if "one_of" in names and names & {"subset_of", "superset_of"}:
        return "refuse", None, None
    eff = {}
    for op in ("one_of", "subset_of", "superset_of"):
        ls = [p[op] for p in policies if op in p]
        if ls:
            eff[op] = inter(ls)
            if not eff[op]:
                return ("refuse" if len(ls) > 1 else "may"), present, value
    dfl = [p["default"] for p in policies if "default" in p]
    if any(d != dfl[0] for d in dfl):
        return "refuse", None, None
    adds = []
    for p in policies:
        for x in lst(p.get("add", [])):
            if x not in adds:
                adds.append(x)
    # do the operators contradict each other?
    may = False
    if "subset_of" in eff and "superset_of" in eff and not sub(eff["superset_of"],
                                                               eff["subset_of"]):
        return "refuse", None, None
    for lim in ("one_of", "subset_of"):
        if lim in eff:
            if adds and not sub(adds, eff[lim]):
                return "refuse", None, None
            if dfl and not sub(dfl[0], eff[lim]):
                may = True
    if dfl and "superset_of" in eff and not sub(eff["superset_of"], dfl[0]):
        may = True
    if adds and "superset_of" in eff:
        may = True
    if adds and "one_of" in eff:
        may = True
    # apply
    if adds:
        if present:
            cur = lst(value)
            value = cur + [x for x in adds if x not in cur]
        else:
            value = list(adds)
            a = [p["add"] for p in policies if "add" in p]
            if len(a) == 1 and not isinstance(a[0], list):
                value = a[0]
        present = True
    if not present and dfl:
        present, value = True, dfl[0]
    if present:
        if "one_of" in eff and value not in eff["one_of"]:
            return "refuse", None, None
        if "subset_of" in eff:
            if isinstance(value, list):
                value = [x for x in value if x in eff["subset_of"]]
                if not value:
                    return "refuse", None, None
            elif value not in eff["subset_of"]:
                return "refuse", None, None
        if "superset_of" in eff and not sub(eff["superset_of"], value):
            return "refuse", None, None
    if ess and not present:
        return "refuse", None, None
    return ("may" if may else "accept"), present, value


def verdict(superiors, own):
    """superiors: [{'metadata_policy': {...}, 'metadata': {...}}], for one entity type, top first.

    -> (verdict, metadata, {claim: verdict})
    """
    md = dict(own)
    set_by = {}
    for s in superiors:
        m, p = s.get("metadata") or {}, s.get("metadata_policy") or {}
        if set(m) & set(p):
            return "refuse", None
        for k, v in m.items():
            if k in set_by and set_by[k] != v:
                return "refuse", None
            set_by[k] = v
    md.update(set_by)
    claims = {c for s in superiors for c in (s.get("metadata_policy") or {})}
    overall, res = "accept", dict(md)
    for c in sorted(claims):
        pols = [(s.get("metadata_policy") or {}).get(c) for s in superiors]
        v, present, value = claim_verdict(pols, c in md, md.get(c))
        if v == "refuse":
            return "refuse", None
        if v == "may":
            overall = "may"
        if present:
            res[c] = value
        else:
            res.pop(c, None)
    return overall, res


def violations(superiors, own, res):
    """Everything in the resulting metadata that breaks what a superior laid down."""
    bad = []
    claims = {c for s in superiors for c in (s.get("metadata_policy") or {})}
    for c in claims:
        sups = [(s.get("metadata_policy") or {}).get(c, {}).get("superset_of") for s in superiors]
        sups = [x for x in sups if x is not None]
        common = inter(sups) if sups else None
        for i, s in enumerate(superiors):
            ops = (s.get("metadata_policy") or {}).get(c)
            if ops:
                b = satisfied(ops, c in res, res.get(c), common)
                if b:
                    bad.append((c, i, b))
    for i, s in enumerate(superiors):
        for c, v in (s.get("metadata") or {}).items():
            if c in claims:
                continue
            if not setlike_same(res.get(c), v):
                bad.append((c, i, "metadata"))
    touched = claims | {c for s in superiors for c in (s.get("metadata") or {})}
    for c in set(own) | set(res):
        if c not in touched and (c in own) == (c in res) and own[c] == res[c]:
            continue
        if c not in touched:
            bad.append((c, None, "changed without policy"))
    return bad
