ID = "c22-iat-not-sent"
PROPERTY = "C22"
EDITS = [('entity/client/trust_mark_status.py',
          "['sub', 'trust_mark_id', 'iat']",
          "['sub', 'trust_mark_id']")]
NEEDS = 'a question about the trust mark that was issued at a certain time'
BREAKS = "the question sent is about any of the entity's trust marks"
DEMO = '''
fe = make_fe()
srv = fe.get_service("trust_mark_status")
info = srv.get_request_parameters(
    request_args={"sub": "https://rp.example.org", "trust_mark_id": "https://tm.example.org/a",
                  "iat": 1234567}, fetch_endpoint="https://tmi.example.org/status")
assert "iat=1234567" in info["url"] or "1234567" in str(info.get("body")), info
'''
