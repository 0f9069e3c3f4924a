ID = "c11-only-known-parameters-filter"
PROPERTY = "C11"
EDITS = [('entity/server/list.py',
          '        if not request or set(request.keys()).issubset({"client_id", "authenticated"}):',
          "        if not request or not {'entity_type', 'intermediate', 'trust_mark_id'} & set(request.keys()):")]
NEEDS = 'trust_marked as the only criterion'
BREAKS = "subordinates that don't meet the criterion are listed"
DEMO = '''
sup = make_fe("https://ta.example.org", endpoints=["entity_configuration", "list", "fetch"])
w = Site()
w.host(sup)
rp = w.add(Node("https://rp.example.org", authority_hints=["https://ta.example.org"]))
sup.server.subordinate[rp.entity_id] = {"jwks": rp.jwks(), "entity_types": ["openid_relying_party"]}
w.attach()
ep = sup.server.endpoint["list"]
assert call(ep, {}).json() == [rp.entity_id]
got = call(ep, {"trust_marked": "true"})
assert rp.entity_id not in got.text, got
'''
