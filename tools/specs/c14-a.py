ID = "c14-marks-share-claims"
PROPERTY = "C14"
EDITS = [('trust_mark_entity/entity.py',
          '        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)',
          '        content = self.trust_mark_specification[id]\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content.copy())')]
NEEDS = 'a trust mark issued with an extra claim before the next one'
BREAKS = 'what was said about one entity is in the trust marks of the next ones'
DEMO = '''
ID = "https://tm.example.org/a"
fe = make_fe("https://tmi.example.org", trust_mark_entity={
    "class": "fedservice.trust_mark_entity.entity.TrustMarkEntity",
    "kwargs": {"trust_mark_specification": {ID: {"lifetime": 1000}},
               "trust_mark_db": {"class": "fedservice.trust_mark_entity.SimpleDB"},
               "endpoint": {"trust_mark_status": {
                   "path": "status", "class": "fedservice.trust_mark_entity.server."
                   "trust_mark_status.TrustMarkStatus", "kwargs": {"client_authn_method": []}}}}})
tme = fe.server.trust_mark_entity

tme.create_trust_mark(ID, "https://a.example.org", ref="https://a.example.org/ref")
assert "ref" not in payload_of(tme.create_trust_mark(ID, "https://b.example.org"))
'''
