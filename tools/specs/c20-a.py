ID = "c20-caches-shared"
PROPERTY = "C20"
EDITS = [("entity_statement/cache.py",
          "        self._db = {}\n        self.allowed_delta",
          "        self._db = self.parameter[\"_db\"]\n        self.allowed_delta")]
NEEDS = "two entities in one process, with different trust anchors"
BREAKS = "an entity uses statements that another entity has fetched"
DEMO = '''
nodes = line(["https://ta.example.org", "https://im.example.org", "https://rp.example.org"],
             leaf_metadata={"openid_relying_party": {"client_name": "x"}})
w = World()
for n in nodes:
    w.add(n)
w.attach()
ta = nodes[0]
a = make_fe("https://a.example.org", anchors={ta.entity_id: ta.jwks()})
b = make_fe("https://b.example.org", anchors={ta.entity_id: ta.jwks()})
assert a.get_trust_chains("https://rp.example.org")
ca, cb = (x.function.trust_chain_collector for x in (a, b))
assert list(ca.config_cache.keys())
assert not list(cb.config_cache.keys()), cb.config_cache.keys()
'''
