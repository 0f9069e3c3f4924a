ID = "c14-second-mark-not-recorded"
PROPERTY = "C14"
EDITS = [('trust_mark_entity/entity.py',
          '            content.update(kwargs)\n        self.issued.add(content)\n\n        _federation_entity = get_federation_entity(self)',
          '            content.update(kwargs)\n        if not self.issued.find(id, sub):\n            self.issued.add(content)\n\n        _federation_entity = get_federation_entity(self)')]
NEEDS = 'an entity that gets the same trust mark again before the first has expired'
BREAKS = 'the second one is said not to be active when the first has expired'
DEMO = '''
ID = "https://tm.example.org/a"
fe = make_fe("https://tmi.example.org", trust_mark_entity={
    "class": "fedservice.trust_mark_entity.entity.TrustMarkEntity",
    "kwargs": {"trust_mark_specification": {ID: {"lifetime": 1000}},
               "trust_mark_db": {"class": "fedservice.trust_mark_entity.SimpleDB"},
               "endpoint": {"trust_mark_status": {
                   "path": "status", "class": "fedservice.trust_mark_entity.server."
                   "trust_mark_status.TrustMarkStatus", "kwargs": {"client_authn_method": []}}}}})
tme = fe.server.trust_mark_entity

tme.create_trust_mark(ID, "https://a.example.org")
clock.advance(600)
tme.create_trust_mark(ID, "https://a.example.org")
clock.advance(600)
assert tme.find(ID, "https://a.example.org")
'''
