ID = "c15-error-is-active"
PROPERTY = "C15"
EDITS = [('entity/__init__.py',
          '            if "active" in resp and resp["active"] == True:',
          '            if resp.get("active", True) == True:')]
NEEDS = 'an issuer that answers with an error when asked for the status of a trust mark'
BREAKS = 'trust marks of which nobody says that they are active are accepted'
DEMO = '''
ID = "https://tm.example.org/a"
ta = Node("https://ta.example.org")
tmi = Node("https://tmi.example.org", authority_hints=[ta.entity_id], metadata={
    "federation_entity": {"federation_trust_mark_status_endpoint": "https://tmi.example.org/st"}})
ta.add_sub(tmi)
w = Site()
w.add(ta), w.add(tmi)
answer = [200, '{"active": true}', "application/json"]
w.extra["https://tmi.example.org/st"] = lambda ev: tuple(answer)
w.attach()
fe = make_fe(anchors={ta.entity_id: ta.jwks()})
mark = sign({"iss": tmi.entity_id, "sub": "https://rp.example.org", "id": ID, "iat": clock.now(),
             "exp": clock.now() + 1000}, tmi.key, typ="trust-mark+jwt")
assert fe.verify_trust_mark(mark)
answer[:2] = [500, "out of order"]
try:
    res = fe.verify_trust_mark(mark)
except Exception:
    res = None
assert not res, res
'''
