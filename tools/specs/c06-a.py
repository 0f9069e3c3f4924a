ID = "c06-add-ends-evaluation"
PROPERTY = "C06"
EDITS = [("entity/function/policy_operator.py", """    name = "add"
    default_next = "default"
""", """    name = "add"
    default_next = "essential"
"""), ("entity/function/policy_operator.py", """            metadata[claim] = list(union(metadata[claim], metadata_policy[claim][self.name]))
""", """            metadata[claim] = list(union(metadata[claim], metadata_policy[claim][self.name]))
            return self.next
""")]
NEEDS = "a claim with both an add and a subset_of operator, published with values outside the subset"
BREAKS = "after values were added, subset_of and superset_of are skipped"
DEMO = '''
ids = ["https://ta.example.org", "https://im.example.org", "https://rp.example.org"]
nodes = line(ids, leaf_metadata={"openid_relying_party": {"grant_types": ["implicit", "refresh_token"]}})
nodes[0].subs[ids[1]]["metadata_policy"] = {"openid_relying_party": {"grant_types": {
    "subset_of": ["authorization_code", "refresh_token"]}}}
nodes[1].subs[ids[2]]["metadata_policy"] = {"openid_relying_party": {"grant_types": {
    "add": ["authorization_code"]}}}
w = World()
for n in nodes:
    w.add(n)
w.attach()
fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
md = fe.get_verified_metadata(ids[2])
assert set(md["openid_relying_party"]["grant_types"]) == {"authorization_code", "refresh_token"}, md
'''
