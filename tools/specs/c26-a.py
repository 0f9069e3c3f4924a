ID = "c26-file-wins-over-argument"
PROPERTY = "C26"
EDITS = [('fetch_entity_statement/__init__.py',
          '        _info.update(kwargs)\n',
          '        _info = {**kwargs, **_info}\n')]
NEEDS = 'a claim given as an argument that is also in the files'
BREAKS = "a statement doesn't say what it was asked to"
DEMO = '''
import json
from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement
for sup, sub in (("ta.org", "ta.org"), ("ta.org", "rp.org")):
    os.makedirs(f"fed/{sup}/{sub}")
    json.dump({"keys": [new_key().serialize(private=True)]}, open(f"fed/{sup}/{sub}/jwks.json", "w"))
json.dump(["https://a.org"], open("fed/ta.org/rp.org/authority.json", "w"))
f = FSFetchEntityStatement("fed", iss="ta.org")
p = payload_of(f.create_entity_statement("rp.org", authority_hints=["https://b.org"]))
assert p["authority_hints"] == ["https://b.org"], p
'''
