ID = "c24-other-providers-answer"
PROPERTY = "C24"
EDITS = [("appclient/stand_alone_client_entity.py",
          "        if _iss != issuer:", "        if _iss and _iss != issuer and issuer != _context.issuer:")]
NEEDS = "an answer to a login that was started at another provider"
BREAKS = "an answer that belongs to another provider's login is accepted"
DEMO = '''
OP = "https://op.app.org"
rp = standalone_rp_combo("https://rp.app.org", rp_config("https://rp.app.org"),
                         authority_hints=["https://ta.example.org"])["openid_relying_party"]
rp.context.issuer = OP
rp.context.provider_info = {"issuer": OP, "authorization_endpoint": OP + "/authz"}
for iss, ok in ((OP, True), ("https://other.app.org", False)):
    rp.context.cstate.set("s", {"iss": iss})
    rp.context.cstate.update("s", {"response_type": "code", "redirect_uri": "https://rp.app.org/cb"})
    try:
        res = rp.finalize_auth({"code": "abc", "state": "s"})
        got = "code" in res
    except Exception as err:
        got = False
    assert got == ok, (iss, got)
'''
