ID = "c18-own-claims-kept"
PROPERTY = "C18"
EDITS = [('appclient/oidc/registration.py',
          "                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata\n",
          "                _own = _trust_chains[0].verified_chain[-1]['metadata']\n                _trust_chains[0].verified_chain[-1]['metadata'] = {\n                    t: {**dict(_own.get(t, {})), **dict(m)} for t, m in _metadata.items()}\n")]
NEEDS = 'a response that lacks something the client asked for'
BREAKS = 'the client takes what it wished for as registered'
DEMO = '''
ta = Node("https://ta.example.org")
w = Site()
w.add(ta)
RP = "https://rp.app.org"
OP = "https://op.server.org"
conf = rp_config(RP)
combo = rp_combo(RP, conf, authority_hints=[ta.entity_id], anchors={ta.entity_id: ta.jwks()})
w.host(combo)
op = w.add(Node(OP, authority_hints=[ta.entity_id], metadata={"openid_provider": {"issuer": OP}}))
w.attach()
fe, rp = combo["federation_entity"], combo["openid_relying_party"]
mine = payload_of(configuration(fe))
ta.add_sub(op)
ta.subs[RP] = {"jwks": mine["jwks"]}
srv = rp.get_service("registration")


def answer(**over):
    p = {"iss": OP, "sub": RP, "aud": RP, "iat": clock.now(), "exp": clock.now() + 1000,
         "trust_anchor_id": ta.entity_id, "jwks": op.jwks(), "authority_hints": [ta.entity_id],
         "metadata": {"openid_relying_party": {"client_id": RP, "redirect_uris": [RP + "/cb"]}}}
    p.update(over)
    return sign({k: v for k, v in p.items() if v is not None}, op.key)



got = srv.parse_response(answer())
assert got["client_id"] == RP
extra = set(got) - {"client_id", "redirect_uris"}
assert not {"id_token_signed_response_alg", "grant_types"} & extra, extra
'''
