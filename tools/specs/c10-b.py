ID = "c10-stale-metadata"
PROPERTY = "C10"
EDITS = [('entity/server/entity_configuration.py',
          '        if _fed_entity.upstream_get:\n            _metadata = _fed_entity.upstream_get("metadata")\n        else:\n            _metadata = _fed_entity.get_metadata()',
          '        if not hasattr(self, \'_md\'):\n            self._md = _fed_entity.upstream_get("metadata") if _fed_entity.upstream_get \\\n                else _fed_entity.get_metadata()\n        _metadata = self._md')]
NEEDS = 'metadata that changes after the first time the configuration was asked for'
BREAKS = 'the entity configuration keeps stating the old metadata'
DEMO = '''
fe = make_fe("https://ta.example.org", preference={"organization_name": "a"})
ep = fe.server.endpoint["entity_configuration"]
one = payload_of(call(ep, {}).text)["metadata"]["federation_entity"]
assert one["organization_name"] == "a", one
fe.context.claims.prefer["organization_name"] = "b"
fe.context.claims.use["organization_name"] = "b"
want = fe.get_metadata()["federation_entity"]
assert want["organization_name"] == "b", want
two = payload_of(call(ep, {}).text)["metadata"]["federation_entity"]
assert two["organization_name"] == "b", two
'''
