ID = "c16-registered-without-policy"
PROPERTY = "C16"
EDITS = [('appserver/oauth2/authorization.py',
          "        req = OauthClientMetadata(**trust_chain.metadata['oauth_client'])",
          "        req = OauthClientMetadata(**trust_chain.verified_chain[-1]['metadata']['oauth_client'])")]
NEEDS = "a superior whose policy changes the client's metadata"
BREAKS = 'a client is registered with what it claims and not with what its superiors allow'
DEMO = '''
ta = Node("https://ta.example.org")
rp = Node("https://rp.example.org", authority_hints=[ta.entity_id])
rp.metadata["openid_relying_party"] = {
    "redirect_uris": ["https://rp.example.org/cb"], "response_types": ["code"],
    "client_registration_types": ["automatic", "explicit"], "jwks": rp.jwks()}
rp.metadata["oauth_client"] = {
    "redirect_uris": ["https://rp.example.org/cb"], "response_types": ["code"],
    "client_registration_types": ["automatic", "explicit"], "jwks": rp.jwks()}
ta.add_sub(rp)
w = Site()
w.add(ta), w.add(rp)

server = as_combo("https://as.server.org", authority_hints=[ta.entity_id],
                  anchors={ta.entity_id: ta.jwks()})
unit = server["oauth_authorization_server"]
w.host(server)
w.attach()

ta.subs[rp.entity_id]["metadata_policy"] = {"oauth_client": {"client_name": {"value": "checked"}}}
rp.metadata["oauth_client"]["client_name"] = "My bank"

def ask(unit, name="authorization", **more):
    return call(unit.get_endpoint(name), {
        "response_type": "code", "client_id": rp.entity_id, "scope": "openid", "state": "s",
        "nonce": "n", "redirect_uri": rp.metadata["oauth_client"]["redirect_uris"][0], **more},
        http_info={"headers": {}})



ask(unit)
assert rp.entity_id in unit.context.cdb
assert unit.context.cdb[rp.entity_id]["client_name"] == "checked", unit.context.cdb[rp.entity_id]
'''
