ID = "c25-policy-extension-none-known"
PROPERTY = "C25"
EDITS = [('message.py',
          '            if _crit:\n                _metadata_policy.verify(',
          '            if _crit and not _extra_parameters:\n                _metadata_policy.verify(')]
NEEDS = 'a statement with both a critical policy operator and an unrelated unknown claim'
BREAKS = 'a policy with an operator that nobody understands is applied'
DEMO = '''
from fedservice.message import EntityStatement
p = {"iss": "https://ta.org", "sub": "https://rp.org", "iat": clock.now(), "exp": clock.now() + 9,
     "metadata_policy": {"openid_relying_party": {"client_name": {"regexp": "^z$"}}},
     "policy_language_crit": ["regexp"]}
for more in ({}, {"harmless": 1}):
    try:
        EntityStatement(**p, **more).verify()
    except Exception:
        continue
    assert False, f"accepted with {more}"
'''
