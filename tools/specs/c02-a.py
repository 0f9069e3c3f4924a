ID = "c02-chain-expiry-superiors-only"
PROPERTY = "C02"
EDITS = [("entity/function/verifier.py", "        for entity_statement in trust_chain:\n",
          "        for entity_statement in trust_chain[:-1] or trust_chain:\n")]
NEEDS = "an entity configuration that expires before all its superiors' statements"
BREAKS = "the expiry time of a chain doesn't consider the entity's own configuration"
DEMO = '''
ids = ["https://ta.example.org", "https://rp.example.org"]
nodes = line(ids, leaf_metadata={"openid_relying_party": {"client_name": "x"}})
nodes[1].ec_lifetime = 1000
w = World()
for n in nodes:
    w.add(n)
w.attach()
fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
assert fe.get_verified_metadata(ids[1])
nodes[1].metadata["openid_relying_party"]["client_name"] = "y"
clock.advance(1001)
assert fe.get_verified_metadata(ids[1])["openid_relying_party"]["client_name"] == "y"
'''
