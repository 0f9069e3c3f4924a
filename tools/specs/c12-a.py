ID = "c12-shortest-chain-only"
PROPERTY = "C12"
EDITS = [('entity/server/resolve.py',
          '        _trust_chains = verify_trust_chains(_federation_entity, _chains,\n                                            signed_entity_configuration)',
          '        _trust_chains = verify_trust_chains(_federation_entity, sorted(_chains, key=len)[:1],\n                                            signed_entity_configuration)')]
NEEDS = "more than one chain, of which the shortest isn't valid"
BREAKS = "an entity that has a valid trust chain isn't resolved"
DEMO = '''
ta = Node("https://ta.example.org")
i1, i2, i3 = [Node(f"https://i{i}.example.org") for i in (1, 2, 3)]
rp = Node("https://rp.example.org", metadata={"openid_relying_party": {"client_name": "x"}})
w = Site()
for sup, sub in ((ta, i1), (i1, rp), (ta, i2), (i2, i3), (i3, rp)):
    sup.add_sub(sub)
    sub.authority_hints.append(sup.entity_id)
ta.subs[i1.entity_id]["constraints"] = {"naming_constraints": {"excluded": [".example.org"]}}
for n in (ta, i1, i2, i3, rp):
    w.add(n)
w.attach()
fe = make_fe(anchors={ta.entity_id: ta.jwks()}, endpoints=["entity_configuration", "resolve"])
r = call(fe.server.endpoint["resolve"], {"sub": rp.entity_id, "anchor": ta.entity_id,
                                         "trust_anchor": ta.entity_id})
assert r.ok and payload_of(r.text)["metadata"], r
'''
