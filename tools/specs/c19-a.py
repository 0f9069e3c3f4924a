ID = "c19-priority-by-chain"
PROPERTY = "C19"
EDITS = [('entity/__init__.py',
          '            for fid in self.context.tr_priority:\n                for trust_chain in trust_chains:\n                    if trust_chain.anchor == fid:\n                        return trust_chain\n',
          '            for trust_chain in trust_chains:\n                if trust_chain.anchor in self.context.tr_priority:\n                    return trust_chain\n')]
NEEDS = "chains to more than one trust anchor, that don't come in the order of priority"
BREAKS = 'a trust chain to a less preferred trust anchor is picked'
DEMO = '''
tas = [Node(f"https://ta{i}.example.org") for i in (1, 2)]
rp = Node("https://rp.example.org", authority_hints=[t.entity_id for t in tas],
          metadata={"openid_relying_party": {"client_name": "x"}})
w = Site()
for t in tas:
    t.add_sub(rp)
    w.add(t)
w.add(rp)
w.attach()
fe = make_fe(anchors={t.entity_id: t.jwks() for t in tas})
for order in (tas, tas[::-1]):
    fe.context.tr_priority = [t.entity_id for t in order]
    tcs = fe.get_trust_chains(rp.entity_id)
    assert fe.pick_trust_chain(tcs).anchor == order[0].entity_id
'''
