ID = "c24-longer-than-id-token"
PROPERTY = "C24"
EDITS = [("appclient/stand_alone_client_entity.py",
          "            exp = _arg[\"__verified_id_token\"][\"exp\"]\n            return _now < exp\n",
          "            exp = _arg[\"__verified_id_token\"][\"exp\"]\n            return _now <= exp + 60\n")]
NEEDS = "looking at a login within a minute after its ID token expired"
BREAKS = "a login lasts longer than its ID token"
DEMO = '''
rp = standalone_rp_combo("https://rp.app.org", rp_config("https://rp.app.org"),
                         authority_hints=["https://ta.example.org"])["openid_relying_party"]
cstate = rp.context.cstate
cstate.set("s", {"iss": "https://op.app.org"})
cstate.update("s", {"__verified_id_token": {"exp": clock.now() + 100}})
assert rp.has_active_authentication("s")
for n in (101, 130, 200):
    cstate.update("s", {"__verified_id_token": {"exp": clock.now() + 100 - n}})
    assert not rp.has_active_authentication("s"), n
'''
