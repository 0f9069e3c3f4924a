ID = "c21-marks-read-once"
PROPERTY = "C21"
EDITS = [('entity/context.py',
          '            return json.loads(open(self.trust_marks).read())\n        elif isinstance(self.trust_marks, list)',
          '            self.trust_marks = json.loads(open(self.trust_marks).read())\n            return self.trust_marks\n        elif isinstance(self.trust_marks, list)')]
NEEDS = 'a file with trust marks that changes after it has been read once'
BREAKS = "the file that the trust marks are configured to be in isn't followed"
DEMO = '''
import json
json.dump([], open("marks.json", "w"))
fe = make_fe("https://rp.example.org", trust_marks="marks.json")
fe.context.trust_marks = fe.context.trust_marks or "marks.json"
assert not payload_of(configuration(fe)).get("trust_marks")
json.dump(["a.b.c"], open("marks.json", "w"))
assert payload_of(configuration(fe)).get("trust_marks") == ["a.b.c"]
'''
