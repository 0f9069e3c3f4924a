ID = "c10-zero-path-length"
PROPERTY = "C10"
EDITS = [('entity_statement/create.py',
          '    if constraints:\n',
          "    if constraints and constraints.get('max_path_length') != 0:\n")]
NEEDS = 'constraints with a max_path_length of 0'
BREAKS = "the constraints a superior has for a subordinate aren't in the statement about it"
DEMO = '''
fe = make_fe("https://ta.example.org", endpoints=["entity_configuration", "fetch"])
rp = Node("https://rp.example.org")
fe.server.subordinate[rp.entity_id] = {"jwks": rp.jwks(), "constraints": {"max_path_length": 0}}
r = call(fe.server.endpoint["fetch"], {"sub": rp.entity_id})
assert payload_of(r.text).get("constraints") == {"max_path_length": 0}, r
'''
