ID = "c13-issued-at-or-later"
PROPERTY = "C13"
EDITS = [('trust_mark_entity/__init__.py',
          "                if iat == tmi['iat']:",
          "                if iat >= tmi['iat']:")]
NEEDS = 'a question about a trust mark issued at a time at which none was issued'
BREAKS = "a trust mark that wasn't issued is found"
DEMO = '''
import json
from fedservice.trust_mark_entity import FileDB
ID = "https://tm.example.org/a"
db = FileDB(**{ID: "marks"})

now = clock.now()
db.add({"id": ID, "sub": "https://rp.example.org", "iat": now})
assert db.find(ID, "https://rp.example.org", now)
assert not db.find(ID, "https://rp.example.org", now + 60)
'''
