ID = "c02-shared-statement-expiry"
PROPERTY = "C02"
EDITS = [("entity/function/trust_chain_collector.py", '    return f"{authority}!exp!{entity}"\n',
          '    return f"exp!{entity}"\n')]
NEEDS = "an entity with two authorities whose statements about it have different lifetimes"
BREAKS = "the expiry times of cached statements by different authorities overwrite each other"
DEMO = '''
ta1, ta2 = Node("https://ta1.example.org"), Node("https://ta2.example.org")
rp = Node("https://rp.example.org", authority_hints=[ta1.entity_id, ta2.entity_id],
          metadata={"openid_relying_party": {"client_name": "x"}}, ec_lifetime=10000)
ta1.es_lifetime = 1000
ta1.add_sub(rp)
ta2.add_sub(rp)
w = World()
for n in (ta1, ta2, rp):
    w.add(n)
w.attach()
fe = make_fe(anchors={t.entity_id: t.jwks() for t in (ta1, ta2)})
from fedservice.entity.function import get_verified_trust_chains
assert len(get_verified_trust_chains(fe, rp.entity_id)) == 2
clock.advance(2000)
tcs = get_verified_trust_chains(fe, rp.entity_id)
assert {t.anchor for t in tcs} == {ta1.entity_id, ta2.entity_id}, [t.anchor for t in tcs]
'''
