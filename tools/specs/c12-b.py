ID = "c12-type-without-policy"
PROPERTY = "C12"
EDITS = [('entity/server/resolve.py',
          '        if "type" in request:\n            metadata = {request[\'type\']: _chain.metadata[request[\'type\']]}',
          '        if "type" in request:\n            metadata = {request[\'type\']: _chain.verified_chain[-1]["metadata"][request[\'type\']]}')]
NEEDS = 'a request for one type, and a policy that changes metadata of that type'
BREAKS = 'the metadata in the answer is what the entity says, not what its superiors allow'
DEMO = '''
ids = ["https://ta.example.org", "https://im.example.org", "https://rp.example.org"]
nodes = line(ids, leaf_metadata={"openid_relying_party": {"client_name": "x"}})
w = Site()
for n in nodes:
    w.add(n)
w.attach()
fe = make_fe(endpoints=["entity_configuration", "resolve"], anchors={ids[0]: nodes[0].jwks()})

nodes[0].subs[ids[1]]["metadata_policy"] = {"openid_relying_party": {"client_name": {"value": "y"}}}
for t in ({}, {"type": "openid_relying_party"}):
    r = call(fe.server.endpoint["resolve"], {"sub": ids[2], "anchor": ids[0],
                                             "trust_anchor": ids[0], **t})
    assert payload_of(r.text)["metadata"]["openid_relying_party"]["client_name"] == "y", r
'''
