ID = "c03-owner-keys-kept"
PROPERTY = "C03"
EDITS = [("entity/function/trust_mark_verifier.py",
          "        _key_jar = KeyJar()\n        _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])\n",
          "        _key_jar = _federation_entity.keyjar\n        _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])\n")]
NEEDS = "a delegated trust mark, whose owner's identifier is an entity that is also looked up otherwise"
BREAKS = "keys that a trust anchor's metadata gives as the owner of a trust mark's become keys of that entity"
DEMO = '''
ID = "https://tm.example.org/a"
OWNER = "https://owner.example.org"
okey = new_key()
ta = Node("https://ta.example.org")
tmi = Node("https://tmi.example.org", authority_hints=[ta.entity_id])
ta.add_sub(tmi)
ta.metadata["federation_entity"] = dict(ta.metadata.get("federation_entity", {}),
    trust_mark_issuers={ID: [tmi.entity_id]},
    trust_mark_owners={ID: {"sub": OWNER, "jwks": {"keys": [pub(okey)]}}},
    federation_fetch_endpoint=ta.entity_id + "/fetch")
w = Site()
w.add(ta), w.add(tmi)
w.attach()
fe = make_fe(anchors={ta.entity_id: ta.jwks()})
delegation = sign({"iss": OWNER, "sub": tmi.entity_id, "id": ID, "iat": clock.now(),
                   "exp": clock.now() + 1000}, okey, typ="trust-mark-delegation+jwt")
mark = sign({"iss": tmi.entity_id, "sub": "https://rp.example.org", "id": ID, "iat": clock.now(),
             "exp": clock.now() + 1000, "delegation": delegation}, tmi.key, typ="trust-mark+jwt")
before = set(fe.keyjar.owners())
fe.function.trust_mark_verifier(mark, ta.entity_id)
assert OWNER not in set(fe.keyjar.owners()) - before, fe.keyjar.owners()
'''
