ID = "c04-first-excluded-only"
PROPERTY = "C04"
EDITS = [("entity_statement/constraints.py", """    for excl in excluded_ids:
        if more_specific(subject_id, excl):
            return True
    return False
""", """    for excl in excluded_ids:
        return more_specific(subject_id, excl)
    return False
""")]
NEEDS = "an excluded list with several entries, of which a later one covers an entity in the chain"
BREAKS = "only the first entry of an excluded list counts"
DEMO = '''
ids = ["https://ta.example.org", "https://im.example.org", "https://rp.bad.example.com"]
nodes = line(ids)
nodes[0].subs[ids[1]]["constraints"] = {"naming_constraints": {
    "permitted": [], "excluded": ["https://other.example.com", "https://.bad.example.com"]}}
fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
assert not fe.function.verifier(chain_down(*nodes))
'''
