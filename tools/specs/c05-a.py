ID = "c05-unconstrained-ends-evaluation"
PROPERTY = "C05"
EDITS = [("entity_statement/constraints.py", """        if not _constraints or statement['iss'] == statement['sub']:
            continue
""", """        if not _constraints or statement['iss'] == statement['sub']:
            break
""")]
NEEDS = "a chain in which a statement without constraints comes before one with a path length limit"
BREAKS = "constraints below a superior that sets none are not evaluated"
DEMO = '''
ids = ["https://ta.example.org"] + [f"https://i{i}.example.org" for i in range(3)] + \\
    ["https://rp.example.com"]
nodes = line(ids)
nodes[1].subs[ids[2]]["constraints"] = {"max_path_length": 0}
fe = make_fe(anchors={ids[0]: nodes[0].jwks()})
assert not fe.function.verifier(chain_down(*nodes))
'''
