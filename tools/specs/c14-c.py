ID = "c14-mark-of-anybody"
PROPERTY = "C14"
EDITS = [('trust_mark_entity/entity.py',
          '        if entity_id:\n            _tm.verify(entity_id=entity_id)\n        else:\n            _tm.verify()\n',
          '        _tm.verify()\n')]
NEEDS = 'a trust mark that is unpacked for another entity than the one it is about'
BREAKS = "somebody else's trust mark is taken for the entity's own"
DEMO = '''
ID = "https://tm.example.org/a"
fe = make_fe("https://tmi.example.org", trust_mark_entity={
    "class": "fedservice.trust_mark_entity.entity.TrustMarkEntity",
    "kwargs": {"trust_mark_specification": {ID: {"lifetime": 1000}},
               "trust_mark_db": {"class": "fedservice.trust_mark_entity.SimpleDB"},
               "endpoint": {"trust_mark_status": {
                   "path": "status", "class": "fedservice.trust_mark_entity.server."
                   "trust_mark_status.TrustMarkStatus", "kwargs": {"client_authn_method": []}}}}})
tme = fe.server.trust_mark_entity

mark = tme.create_trust_mark(ID, "https://a.example.org")
assert tme.unpack_trust_mark(mark, "https://a.example.org")
try:
    tme.unpack_trust_mark(mark, "https://b.example.org")
except Exception:
    pass
else:
    assert False, "accepted"
'''
