ID = "c09-cached-by-last-part"
PROPERTY = "C09"
EDITS = [('entity/function/trust_chain_collector.py',
          '    return f"{authority}!!{entity}"',
          '    return f"{authority}!!{entity.rstrip(\'/\').split(\'/\')[-1]}"')]
NEEDS = 'one superior with two subordinates whose identifiers end with the same path component'
BREAKS = 'the statement about one entity is taken for the statement about another one'
DEMO = '''
ta = Node("https://ta.example.org")
a, b = [Node(f"https://{x}.example.org/rp", authority_hints=[ta.entity_id],
             metadata={"openid_relying_party": {"client_name": x}}) for x in "ab"]
w = World()
for n in (ta, a, b):
    w.add(n)
ta.add_sub(a)
ta.add_sub(b)
w.attach()
fe = make_fe(anchors={ta.entity_id: ta.jwks()})
for n, x in ((a, "a"), (b, "b")):
    md = fe.get_verified_metadata(n.entity_id)
    assert md and md["openid_relying_party"]["client_name"] == x, md
'''
