ID = "c24-token-past-expiry"
PROPERTY = "C24"
EDITS = [("appclient/stand_alone_client_entity.py",
          "                if _exp > now:  # exp", "                if _exp:  # exp")]
NEEDS = "asking for the access token of a login after it expired"
BREAKS = "an access token is used past its expiry time"
DEMO = '''
rp = standalone_rp_combo("https://rp.app.org", rp_config("https://rp.app.org"),
                         authority_hints=["https://ta.example.org"])["openid_relying_party"]
cstate = rp.context.cstate
cstate.set("s", {"iss": "https://op.app.org"})
cstate.update("s", {"access_token": "a", "__expires_at": clock.now() + 100})
assert rp.get_valid_access_token("s")[0] == "a"
cstate.update("s", {"access_token": "a", "__expires_at": clock.now() - 100})
try:
    got = rp.get_valid_access_token("s")
except Exception:
    got = None
assert got is None, got
'''
