ID = "c22-client-errors-are-answers"
PROPERTY = "C22"
EDITS = [('entity/client/__init__.py',
          '        elif resp.status_code >= 400:\n            logger',
          '        elif resp.status_code >= 500:\n            logger')]
NEEDS = 'a server that answers 4xx with a body of the kind that was expected'
BREAKS = 'an error is returned as if it was the answer'
DEMO = '''
ta = Node("https://ta.example.org")
w = Site()
w.add(ta)
w.attach()
w.faults[("ec", ta.entity_id)] = lambda ev, n: (404, n.ec(), "application/entity-statement+jwt")
fe = make_fe(anchors={ta.entity_id: ta.jwks()})
try:
    res = fe.do_request("entity_configuration", entity_id=ta.entity_id)
except Exception:
    res = {"error": "x"}
assert "error" in res, res
'''
