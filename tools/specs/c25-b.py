ID = "c25-one-known-is-enough"
PROPERTY = "C25"
EDITS = [('message.py',
          '                if _known:\n                    if set(_known).issuperset(set(_musts)) is False:\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n                else:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n\n        _metadata_policy',
          '                if _known:\n                    if set(_known).isdisjoint(set(_musts)):\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n                else:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n\n        _metadata_policy')]
NEEDS = 'a statement with two critical extensions of which one is known'
BREAKS = "the statement is accepted though one of them isn't understood"
DEMO = '''
from fedservice.message import EntityStatement
p = {"iss": "https://ta.org", "sub": "https://rp.org", "iat": clock.now(), "exp": clock.now() + 9,
     "known": 1, "unknown": 2, "crit": ["known", "unknown"]}
EntityStatement(**p).verify(known_extensions=["known", "unknown"])
try:
    EntityStatement(**p).verify(known_extensions=["known"])
except Exception:
    pass
else:
    assert False, "accepted"
'''
