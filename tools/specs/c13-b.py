ID = "c13-file-emptied-at-restart"
PROPERTY = "C13"
EDITS = [('trust_mark_entity/__init__.py',
          '            if not os.path.exists(file_name):',
          "            if not os.path.exists(file_name) or \\\n                    not open(file_name).read().endswith('\\n'):")]
NEEDS = 'a crash that left an incomplete record, followed by a restart'
BREAKS = 'every trust mark ever issued is forgotten'
DEMO = '''
import json
from fedservice.trust_mark_entity import FileDB
ID = "https://tm.example.org/a"
db = FileDB(**{ID: "marks"})

db.add({"id": ID, "sub": "https://rp.example.org", "iat": clock.now()})
open("marks", "a").write('{"id": "https')
db = FileDB(**{ID: "marks"})
assert db.find(ID, "https://rp.example.org")
'''
