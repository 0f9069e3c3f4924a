ID = "c01-skip-unverifiable"
PROPERTY = "C01"
EDITS = [("entity/function/verifier.py", "                    raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')\n",
          "                    continue\n")]
NEEDS = "a chain in which the last statement is signed with a key nobody above vouches for"
BREAKS = "statements for which there are no keys are left out instead of refusing the chain"
DEMO = '''
ids = ["https://ta.example.org", "https://im.example.org", "https://rp.example.org"]
nodes = line(ids)
fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
assert fe.function.verifier(chain_down(*nodes))
chain = chain_down(*nodes)
chain[-1] = nodes[-1].ec(key=new_key(typ="EC"))
try:
    tc = fe.function.verifier(chain)
except Exception:
    tc = None
assert not tc, "accepted with a statement nobody vouches for"
'''
