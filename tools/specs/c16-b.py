ID = "c16-redirect-query-lost"
PROPERTY = "C16"
EDITS = [('appserver/oauth2/registration.py',
          '                if query:\n                    verified_redirect_uris.append((base, query))\n                else:\n                    verified_redirect_uris.append((base, {}))',
          '                verified_redirect_uris.append((base, {}))')]
NEEDS = 'a redirect URI with a query'
BREAKS = 'the client is registered with another redirect URI'
DEMO = '''
ta = Node("https://ta.example.org")
rp = Node("https://rp.example.org", authority_hints=[ta.entity_id])
rp.metadata["openid_relying_party"] = {
    "redirect_uris": ["https://rp.example.org/cb"], "response_types": ["code"],
    "client_registration_types": ["automatic", "explicit"], "jwks": rp.jwks()}
rp.metadata["oauth_client"] = {
    "redirect_uris": ["https://rp.example.org/cb"], "response_types": ["code"],
    "client_registration_types": ["automatic", "explicit"], "jwks": rp.jwks()}
ta.add_sub(rp)
w = Site()
w.add(ta), w.add(rp)

server = as_combo("https://as.server.org", authority_hints=[ta.entity_id],
                  anchors={ta.entity_id: ta.jwks()})
unit = server["oauth_authorization_server"]
w.host(server)
w.attach()

rp.metadata["oauth_client"]["redirect_uris"] = ["https://rp.example.org/cb?x=1"]

def ask(unit, name="authorization", **more):
    return call(unit.get_endpoint(name), {
        "response_type": "code", "client_id": rp.entity_id, "scope": "openid", "state": "s",
        "nonce": "n", "redirect_uri": rp.metadata["oauth_client"]["redirect_uris"][0], **more},
        http_info={"headers": {}})



ask(unit)
assert rp.entity_id in unit.context.cdb
(base, query), = unit.context.cdb[rp.entity_id]["redirect_uris"]
assert base == "https://rp.example.org/cb" and query, (base, query)
'''
