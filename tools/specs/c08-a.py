ID = "c08-shared-seen"
PROPERTY = "C08"
EDITS = [("entity/function/trust_chain_collector.py", "            _seen = seen[:]\n",
          "            _seen = seen\n")]
NEEDS = "two authorities that have a superior in common (a diamond)"
BREAKS = "what was seen in one branch counts as a loop in the next: chains are lost"
DEMO = '''
ta = Node("https://ta.example.org")
i1, i2 = [Node(f"https://i{i}.example.org", authority_hints=[ta.entity_id]) for i in (1, 2)]
rp = Node("https://rp.example.org", authority_hints=[i1.entity_id, i2.entity_id],
          metadata={"openid_relying_party": {"client_name": "x"}})
for a, b in ((ta, i1), (ta, i2), (i1, rp), (i2, rp)):
    a.add_sub(b)
w = World()
for n in (ta, i1, i2, rp):
    w.add(n)
w.attach()
fe = make_fe(anchors={ta.entity_id: ta.jwks()})
tcs = fe.get_trust_chains(rp.entity_id)
assert len(tcs) == 2, [t.iss_path for t in tcs]
'''
