ID = "c18-only-first-hint"
PROPERTY = "C18"
EDITS = [('appclient/oidc/registration.py',
          '            authority_hints=_authority_hints,\n            **kwargs)',
          '            authority_hints=_authority_hints[:1],\n            **kwargs)')]
NEEDS = 'a client with more than one superior'
BREAKS = "the registration request states less than the client's entity configuration"
DEMO = '''
tas = ["https://ta1.example.org", "https://ta2.example.org"]
combo = rp_combo("https://rp.app.org", authority_hints=list(tas), anchors={})
rp = combo["openid_relying_party"]
req = rp.get_service("registration").create_entity_statement()
assert payload_of(req)["authority_hints"] == tas, payload_of(req)
'''
