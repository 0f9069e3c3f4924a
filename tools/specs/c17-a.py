ID = "c17-any-anchor"
PROPERTY = "C17"
EDITS = [('appserver/oauth2/registration.py',
          '        trust_chain = _federation_entity.pick_trust_chain(_trust_chains)',
          '        trust_chain = _trust_chains[-1]')]
NEEDS = 'a client with chains to more than one trust anchor'
BREAKS = 'the registration follows a chain to a less preferred trust anchor'
DEMO = '''
tas = [Node(f"https://ta{i}.example.org") for i in (1, 2)]
rp = Node("https://rp.example.org", authority_hints=[t.entity_id for t in tas])
rp.metadata["oauth_client"] = {
    "redirect_uris": ["https://rp.example.org/cb"], "response_types": ["code"], "jwks": rp.jwks()}
w = Site()
w.add(rp)
for t in tas:
    t.add_sub(rp)
    w.add(t)
server = as_combo("https://as.server.org", authority_hints=[tas[0].entity_id],
                  anchors={t.entity_id: t.jwks() for t in tas})
w.host(server)
w.attach()
for order in (tas, tas[::-1]):
    server["federation_entity"].context.tr_priority = [t.entity_id for t in order]
    r = call(server["oauth_authorization_server"].get_endpoint("registration"), body=rp.ec())
    assert payload_of(r.text)["trust_anchor_id"] == order[0].entity_id, r
'''
