ID = "c23-withdrawn-mark"
PROPERTY = "C23"
EDITS = [("entity/__init__.py",
          "            if \"active\" in resp and resp[\"active\"] == True:",
          "            if \"active\" in resp and (resp[\"active\"] or verified_trust_mark.get(\"exp\")):")]
NEEDS = "a trust mark that has an expiry time and has been withdrawn before that"
BREAKS = "the who endpoint names entities whose trust mark has been withdrawn"
DEMO = '''
ID = "https://tm.example.org/a"
CI = "https://ci.example.org"
ta = Node("https://ta.example.org")
tmi = Node("https://tmi.example.org", authority_hints=[ta.entity_id], metadata={
    "federation_entity": {"federation_trust_mark_status_endpoint": "https://tmi.example.org/st"}})
ci = Node(CI, authority_hints=[ta.entity_id], metadata={"openid_provider": {"issuer": CI}})
ta.add_sub(tmi), ta.add_sub(ci)
ta.metadata["federation_entity"] = dict(ta.metadata.get("federation_entity", {}),
    federation_list_endpoint=ta.entity_id + "/list",
    federation_fetch_endpoint=ta.entity_id + "/fetch")
ci.extra_claims = {"trust_marks": []}
mark = sign({"iss": tmi.entity_id, "sub": CI, "id": ID, "iat": clock.now(),
             "exp": clock.now() + 1000}, tmi.key, typ="trust-mark+jwt")
w = Site()
w.add(ta), w.add(tmi), w.add(ci)
ec = ci.ec(trust_marks=[mark])
w.extra[well_known(CI)] = lambda ev: (200, ec, "application/entity-statement+jwt")
active = [True]
w.extra["https://tmi.example.org/st"] = lambda ev: (200, '{"active": %s}' % str(active[0]).lower(),
                                                   "application/json")
w.extra[ta.entity_id + "/list"] = lambda ev: (200, json.dumps([CI]), "application/json")
w.attach()
fe = make_fe(anchors={ta.entity_id: ta.jwks()}, endpoints=["entity_configuration", "who"])
who = fe.server.endpoint["who"]


def ask():
    return who.process_request({"entity_type": "openid_provider", "credential_type": "",
                                "trust_mark_id": ID},
                               trust_anchor=ta.entity_id)["response_args"]["entities_to_use"]


who.credential_type = ""
assert ask() == [CI], ask()
active[0] = False
assert ask() == [], ask()
'''
