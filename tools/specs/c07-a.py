ID = "c07-default-over-falsy"
PROPERTY = "C07"
EDITS = [("entity/function/policy_operator.py", """class Default(PolicyOperator):
    name = "default"
    default_next = "one_of"

    def __call__(self, claim, metadata, metadata_policy):
        if claim not in metadata:
""", """class Default(PolicyOperator):
    name = "default"
    default_next = "one_of"

    def __call__(self, claim, metadata, metadata_policy):
        if not metadata.get(claim):
""")]
NEEDS = "a default for a claim that the entity publishes with a false or empty value"
BREAKS = "a default replaces what the entity published if that is false"
DEMO = '''
ids = ["https://ta.example.org", "https://rp.example.org"]
nodes = line(ids, leaf_metadata={"openid_relying_party": {"request_parameter_supported": False}})
nodes[0].subs[ids[1]]["metadata_policy"] = {"openid_relying_party": {
    "request_parameter_supported": {"default": True}}}
w = World()
for n in nodes:
    w.add(n)
w.attach()
fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
md = fe.get_verified_metadata(ids[1])
assert md["openid_relying_party"]["request_parameter_supported"] is False, md
'''
