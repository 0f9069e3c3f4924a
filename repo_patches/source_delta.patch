From 694991358ead150d61eff630e719df2a54fb8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 01/91] fix: only a configured trust anchor can head a trust
 chain

---
 src/fedservice/entity/function/verifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..fd4fb6f 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -25,7 +25,9 @@ class TrustChainVerifier(Function):
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
+            # Knowing the keys of an entity doesn't make that entity a trust anchor
+            if payload['iss'] not in _federation_entity.trust_anchors or \
+                    payload['iss'] not in _federation_entity.keyjar:
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
                 return False
-- 
2.43.0


From ac68766fe345f3409ba38d5c2f27d08562a53f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 02/91] fix: trust chain statements are verified with keys
 their superior in that chain vouches for

Keys of refused chains, keys learned from other chains and keys an entity
claims for somebody else could be used to verify a statement, and were kept
in the federation key jar. Something that isn't a signed JWT was skipped.
---
 src/fedservice/entity/function/verifier.py | 63 +++++++++++++++-------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index fd4fb6f..e5be0a8 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -1,8 +1,10 @@
 import logging
+from copy import deepcopy
 from typing import Callable
 from typing import List
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
 
@@ -58,10 +60,16 @@ class TrustChainVerifier(Function):
             return ves
 
         n = len(entity_statement_list) - 1
-        _keyjar = self.upstream_get("attribute", "keyjar")
+        _issuer = factory(entity_statement_list[0]).jwt.payload()['iss']
+        # A statement must be signed with a key that its immediate superior in this chain (for the
+        # first one, the trust anchor configuration) vouches for.
+        _keyjar = KeyJar()
+        _keyjar.add_keys(_issuer, self.upstream_get("attribute", "keyjar").get_issuer_keys(_issuer))
         for entity_statement in entity_statement_list:
             _jwt = factory(entity_statement)
-            if _jwt:
+            if _jwt is None:
+                raise ValueError('Not a signed entity statement')
+            else:
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
                 keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
@@ -80,30 +88,49 @@ class TrustChainVerifier(Function):
                     if len(ves) != n:
                         raise ValueError('Missing signing JWKS')
                 else:
-                    _kb = KeyBundle(keys=_jwks['keys'])
-                    try:
-                        old = _keyjar.get_issuer_keys(res['sub'])
-                    except KeyError:
-                        _keyjar.add_kb(res['sub'], _kb)
-                    else:
-                        new = [k for k in _kb if k not in old]
-                        if new:
-                            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
-                            logger.debug(
-                                "New keys added to the federation key jar for '{}': {}".format(
-                                    res['sub'], _key_spec)
-                            )
-                            # Only add keys to the KeyJar if they are not already there.
-                            _kb.set(new)
-                            _keyjar.add_kb(res['sub'], _kb)
+                    _keyjar = KeyJar()
+                    _keyjar.add_kb(res['sub'], KeyBundle(keys=deepcopy(_jwks['keys'])))
 
                 ves.append(res)
 
         if ves and meets_restrictions(ves):
+            self.store_keys(ves)
             return ves
         else:
             return []
 
+    def store_keys(self, verified_entity_statements):
+        """
+        Stores the keys that an accepted trust chain vouches for in the federation key jar.
+
+        :param verified_entity_statements: List of verified entity statements.
+        """
+        _keyjar = self.upstream_get("attribute", "keyjar")
+        _anchor = verified_entity_statements[0]['iss']
+        for res in verified_entity_statements:
+            if 'jwks' not in res:
+                continue
+            if res['sub'] == _anchor and res['iss'] != _anchor:
+                # No one but the trust anchor can tell which its keys are
+                continue
+
+            _kb = KeyBundle(keys=deepcopy(res['jwks']['keys']))
+            try:
+                old = _keyjar.get_issuer_keys(res['sub'])
+            except KeyError:
+                _keyjar.add_kb(res['sub'], _kb)
+            else:
+                new = [k for k in _kb if k not in old]
+                if new:
+                    _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
+                    logger.debug(
+                        "New keys added to the federation key jar for '{}': {}".format(
+                            res['sub'], _key_spec)
+                    )
+                    # Only add keys to the KeyJar if they are not already there.
+                    _kb.set(new)
+                    _keyjar.add_kb(res['sub'], _kb)
+
     def trust_chain_expires_at(self, trust_chain):
         exp = -1
         for entity_statement in trust_chain:
-- 
2.43.0


From 6a29a4694d013273ccd5f640429addc0dc60b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 03/91] fix: a trust chain with an expired statement is not
 accepted

---
 src/fedservice/entity/function/verifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index e5be0a8..f85d978 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -7,6 +7,7 @@ from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
+from cryptojwt.jwt import utc_time_sans_frac
 
 from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
@@ -82,6 +83,9 @@ class TrustChainVerifier(Function):
                 logger.debug("Possible verification keys: %s", _key_spec)
                 res = _jwt.verify_compact(keys=keys)
                 logger.debug("Verified entity statement: %s", res)
+                if res['exp'] < utc_time_sans_frac():
+                    raise ValueError(f"Expired entity statement: {res['iss']} on {res['sub']}")
+
                 try:
                     _jwks = res['jwks']
                 except KeyError:
-- 
2.43.0


From 4ad10bf8058e6bfb1fc6b3c53739d64f7a7d7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 04/91] fix: nobody else can add keys to a trust anchor's

---
 src/fedservice/entity/function/verifier.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index f85d978..8ed2f59 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -110,12 +110,16 @@ class TrustChainVerifier(Function):
         :param verified_entity_statements: List of verified entity statements.
         """
         _keyjar = self.upstream_get("attribute", "keyjar")
-        _anchor = verified_entity_statements[0]['iss']
+        _federation_entity = get_federation_entity(self)
+        if _federation_entity:
+            _anchors = list(_federation_entity.trust_anchors)
+        else:
+            _anchors = [verified_entity_statements[0]['iss']]
         for res in verified_entity_statements:
             if 'jwks' not in res:
                 continue
-            if res['sub'] == _anchor and res['iss'] != _anchor:
-                # No one but the trust anchor can tell which its keys are
+            if res['sub'] in _anchors and res['iss'] != res['sub']:
+                # No one but a trust anchor can tell which its keys are
                 continue
 
             _kb = KeyBundle(keys=deepcopy(res['jwks']['keys']))
-- 
2.43.0


From 184415076ae41862b468b22e6f9a4db15bb364c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 05/91] fix: constraints set by any superior apply to the whole
 chain below it

max_path_length was never enforced, superiors' naming constraints were
replaced by those of subordinates and statements without constraints of
their own were not checked.
---
 .../entity_statement/constraints.py           | 54 +++++++------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..c28ccc7 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -128,47 +128,29 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     :return: True is the constraints are fulfilled. False otherwise
     """
 
-    current_max_path_length = 0
-    max_assigned = False
-    naming_constraints = {
-        "permitted": None,
-        "excluded": None
-    }
-
-    for statement in trust_chain[:-1]:  # All but the last
-        try:
-            _constraints = statement['constraints']
-        except KeyError:
+    for i, statement in enumerate(trust_chain):
+        _constraints = statement.get('constraints')
+        if not _constraints or statement['iss'] == statement['sub']:
             continue
 
-        current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
-                                                        max_assigned)
-
-        if current_max_path_length < 0:
-            return False
-
-        naming_constraints = update_naming_constraints(_constraints, naming_constraints)
-
-        # if explicitly excluded return False
-        if 'excluded' in naming_constraints and naming_constraints['excluded']:
-            if excluded(statement['sub'], naming_constraints['excluded']):
+        # Number of intermediates between the one who set the constraints and the leaf
+        _max_len = _constraints.get('max_path_length')
+        if _max_len is not None:
+            _intermediates = [s for s in trust_chain[i + 1:] if s['iss'] != s['sub']]
+            if len(_intermediates) > _max_len:
                 return False
 
-        # If there is a list of permitted it must be in there
-        if 'permitted' in naming_constraints and naming_constraints['permitted']:
-            if not permitted(statement['sub'], naming_constraints["permitted"]):
+        # What is set by a superior applies to all its subordinates, immediate or not
+        _naming_constraints = _constraints.get('naming_constraints') or {}
+        _excluded = _naming_constraints.get('excluded')
+        _permitted = _naming_constraints.get('permitted')
+        for subordinate in trust_chain[i:]:
+            # if explicitly excluded return False
+            if _excluded and excluded(subordinate['sub'], _excluded):
                 return False
 
-    # Now check the leaf entity
-    statement = trust_chain[-1]
-    # if explicitly excluded return False
-    if 'excluded' in naming_constraints and naming_constraints['excluded']:
-        if excluded(statement['sub'], naming_constraints['excluded']):
-            return False
-
-    # If there is a list of permitted it must be in there
-    if 'permitted' in naming_constraints and naming_constraints['permitted']:
-        if not permitted(statement['sub'], naming_constraints["permitted"]):
-            return False
+            # If there is a list of permitted it must be in there
+            if _permitted and not permitted(subordinate['sub'], _permitted):
+                return False
 
     return True
-- 
2.43.0


From 68ee9d52918a999355701e69bdb6e60f83e7bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 06/91] fix: naming constraints are about hosts

An entity ID with a path or a port escaped them, and a constraint that
names a host covered all its subdomains.
---
 .../entity_statement/constraints.py           | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index c28ccc7..ec46b1a 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -1,5 +1,6 @@
 from typing import List
 from typing import Union
+from urllib.parse import urlsplit
 
 from idpyoidc.message import Message
 
@@ -27,28 +28,27 @@ def calculate_path_length(constraints, current_max_path_length, max_assigned):
     return _max_len
 
 
-def remove_scheme(url):
-    if url.startswith('https://'):
-        return url[8:]
-    elif url.startswith('http://'):
-        return url[7:]
-    else:
+def host_labels(url):
+    _parts = urlsplit(url)
+    if _parts.scheme not in ['https', 'http']:
         raise ValueError('Wrong scheme: %s', url)
+    if not _parts.hostname:
+        raise ValueError('No host: %s', url)
+    return _parts.hostname.split('.')
 
 
 def more_specific(a, b):
-    a_part = remove_scheme(a).split('.')
-    b_part = remove_scheme(b).split('.')
-    if len(a_part) >= len(b_part):
-        a_part.reverse()
-        b_part.reverse()
-        for _x, _y in zip(a_part, b_part):
-            if _x != _y:
-                if _y == "":
-                    return True
-                return False
-        return True
-    return False
+    """
+    Is the host in a within what b covers ? b covers one host or, if it starts with a '.', all hosts
+    in a domain.
+    """
+    a_part = host_labels(a)
+    b_part = host_labels(b)
+    if b_part[0] != "":
+        return a_part == b_part
+
+    n = len(b_part) - 1
+    return len(a_part) > n and a_part[-n:] == b_part[1:]
 
 
 # def add_permitted(new_permitted, permitted):
-- 
2.43.0


From d36360b6f891eb82f0fc338bfe472420f6201d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:48 +0000
Subject: [PATCH 07/91] fix: the cache doesn't hand out statements that are
 about to expire, however it is asked

---
 src/fedservice/entity_statement/cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 31f5ee4..272e3cd 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.impexp import ImpExp
+from idpyoidc.message import Message
 
 logger = logging.getLogger(__name__)
 
@@ -28,7 +29,7 @@ class ESCache(ImpExp):
         except KeyError:
             return None
         else:
-            if isinstance(statement, dict):
+            if isinstance(statement, (dict, Message)) and "exp" in statement:
                 # verify that the statement is recent enough
                 _now = utc_time_sans_frac()
                 if _now < (statement["exp"] - self.allowed_delta):
@@ -49,7 +50,8 @@ class ESCache(ImpExp):
         return len(self._db)
 
     def __contains__(self, item):
-        return item in self._db
+        return self[item] is not None
 
     def get(self, key, default: Optional[Any] = None):
-        return self._db.get(key, default)
+        statement = self[key]
+        return default if statement is None else statement
-- 
2.43.0


From b8595e23670fc96a93020de32a4b07cde86df891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 08/91] fix: a short-lived entity configuration doesn't stop
 the collection of trust chains

---
 src/fedservice/entity/function/trust_chain_collector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..ce9f8e6 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -331,7 +331,11 @@ class TrustChainCollector(Function):
         entity_statement = self._get_entity_statement(entity, authority)
 
         if entity_statement:
+            # May be too close to its expiration time to be kept in the cache
             _entity_configuration = self.config_cache[authority]
+            if not _entity_configuration:
+                _entity_configuration = verify_self_signed_signature(
+                    self.get_entity_configuration(authority))
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
@@ -342,7 +346,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
-- 
2.43.0


From 11752277cb37a01af490c158b64467bd033333b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 09/91] fix: loops among the authority hints end the branch,
 not the collector

---
 src/fedservice/entity/function/trust_chain_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index ce9f8e6..6c0f9bb 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -243,7 +243,7 @@ class TrustChainCollector(Function):
         """
         superior = {}
         if seen is None:
-            seen = []
+            seen = [entity_id]
 
         logger.debug(f'Collect superiors to: {entity_id}')
         logger.debug(f'Collect based on: {entity_configuration}')
@@ -257,6 +257,7 @@ class TrustChainCollector(Function):
         for authority in entity_configuration['authority_hints']:
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
+                continue
             superior[authority] = self.collect_branch(entity_id, authority, seen,
                                                       max_superiors, stop_at=stop_at)
 
-- 
2.43.0


From bcc62acdd1b69e63f44a91795a64f8e4dd8a0928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 10/91] fix: a problem with one authority or one trust chain
 doesn't affect the other trust chains

---
 src/fedservice/entity/function/__init__.py         | 14 ++++++++++++--
 .../entity/function/trust_chain_collector.py       |  9 +++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index b5c9bf7..24ab980 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -107,7 +107,12 @@ def verify_trust_chains(unit, chains: List[List[str]], *entity_statements):
     for c in chains:
         if entity_statements:
             c.extend(entity_statements)
-        trust_chain = _verifier(c)
+        try:
+            trust_chain = _verifier(c)
+        except Exception as err:
+            # Other chains may be OK
+            logger.error(f"Trust chain verification failed: {err!r}")
+            continue
         if trust_chain:
             res.append(trust_chain)
     return res
@@ -133,7 +138,12 @@ def apply_policies(unit, trust_chains):
 
     res = []
     for trust_chain in trust_chains:
-        _policy_applier(trust_chain)
+        try:
+            _policy_applier(trust_chain)
+        except Exception as err:
+            # Other chains may be OK
+            logger.error(f"Could not apply the policies of a trust chain: {err!r}")
+            continue
         res.append(trust_chain)
     return res
 
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6c0f9bb..82997d7 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -258,8 +258,13 @@ class TrustChainCollector(Function):
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
                 continue
-            superior[authority] = self.collect_branch(entity_id, authority, seen,
-                                                      max_superiors, stop_at=stop_at)
+            try:
+                superior[authority] = self.collect_branch(entity_id, authority, seen,
+                                                          max_superiors, stop_at=stop_at)
+            except Exception as err:
+                # That there is a problem with one authority must not affect the others
+                logger.exception(f"Failed to collect by way of {authority}: {err}")
+                superior[authority] = None
 
         return superior
 
-- 
2.43.0


From e3dbf0f949530c5b4ef1bfd249d5b08ed3cc6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 11/91] fix: an entity configuration is only used for the
 entity it is about

An entity ID with a path got the configuration of the entity at the root of
that host, if there was one.
---
 .../entity/function/trust_chain_collector.py         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 82997d7..8d5e009 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -52,6 +52,14 @@ def verify_self_signed_signature(statement):
     return _val
 
 
+def is_entity_configuration_of(entity_id, statement):
+    try:
+        payload = unverified_entity_statement(statement)
+    except Exception:
+        return False
+    return payload.get('iss') == entity_id and payload.get('sub') == entity_id
+
+
 def get_endpoint(endpoint_type, config):
     _fe = config['metadata']['federation_entity']
     return _fe.get(f"federation_{endpoint_type}_endpoint")
@@ -142,6 +150,8 @@ class TrustChainCollector(Function):
             #     self_signed_config = self.do_ssc_seq(_url, entity_id)
             # else:
             self_signed_config = self.get_document(_res['url'])
+            if not is_entity_configuration_of(entity_id, self_signed_config):
+                raise MissingPage(f"Not the Entity Configuration of '{entity_id}'")
         except MissingPage:  # if tenant involved
             _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
             logger.debug(f"Get configuration from (tenant): '{entity_id}'")
@@ -150,6 +160,8 @@ class TrustChainCollector(Function):
                 #     self_signed_config = self.do_ssc_seq(_tenant_url, entity_id)
                 # else:
                 self_signed_config = self.get_document(_tres["url"])
+                if not is_entity_configuration_of(entity_id, self_signed_config):
+                    raise MissingPage(f"Not the Entity Configuration of '{entity_id}'")
                 logger.debug(f'Self signed statement: {self_signed_config}')
             else:
                 raise MissingPage(f"No such page: '{_tres['url']}'")
-- 
2.43.0


From 01794692195d8e4f35a134f76c7dd4a4401a6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 12/91] fix: only a valid statement by the authority about the
 entity is used and cached

---
 src/fedservice/entity/function/trust_chain_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 8d5e009..1a71739 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -311,6 +311,10 @@ class TrustChainCollector(Function):
             logger.debug(
                 f"Unverified entity statement from {fed_fetch_endpoint} about {entity}: "
                 f"{statement}")
+            if statement.get('iss') != authority or statement.get('sub') != entity:
+                raise ValueError(f"Not an entity statement by {authority} about {entity}")
+            if statement_is_expired(statement):
+                raise ValueError(f"Expired entity statement by {authority} about {entity}")
             self.entity_statement_cache[_cache_key] = entity_statement
             self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
 
-- 
2.43.0


From f179520fa2ddd2ad4046f84dac83fe3221697143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 13/91] fix: a trust chain can end in a trust anchor that has
 superiors

---
 src/fedservice/entity/function/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 24ab980..32e3f5c 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -90,6 +90,12 @@ def collect_trust_chains(unit,
 
     if tree:
         chains = tree2chains(tree)
+        # A trust anchor may have superiors of its own
+        for chain in chains[:]:
+            for i in range(1, len(chain)):
+                _issuer = unverified_entity_statement(chain[i])['iss']
+                if _issuer in _federation_entity.trust_anchors and chain[i:] not in chains:
+                    chains.append(chain[i:])
         logger.debug("%d chains", len(chains))
         return chains, signed_entity_configuration
     elif tree == {}:
-- 
2.43.0


From ebff60618177d53859d38ca98a8c5ee0551b2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 14/91] fix: an entity on a host can be found although the
 host's own configuration cannot

---
 src/fedservice/entity/function/trust_chain_collector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 1a71739..e27d3fa 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -124,8 +124,9 @@ class TrustChainCollector(Function):
             raise
 
         if response.status_code == 200:
-            if 'application/entity-statement+jwt' not in response.headers['Content-Type']:
-                logger.warning(f"Wrong Content-Type: {response.headers['Content-Type']}")
+            _content_type = response.headers.get('Content-Type', '')
+            if 'application/entity-statement+jwt' not in _content_type:
+                logger.warning(f"Wrong Content-Type: {_content_type}")
             return response.text
         elif response.status_code == 404:
             raise MissingPage(f"No such page: '{url}'")
@@ -152,7 +153,7 @@ class TrustChainCollector(Function):
             self_signed_config = self.get_document(_res['url'])
             if not is_entity_configuration_of(entity_id, self_signed_config):
                 raise MissingPage(f"Not the Entity Configuration of '{entity_id}'")
-        except MissingPage:  # if tenant involved
+        except (MissingPage, FailedConfigurationRetrieval):  # if tenant involved
             _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
             logger.debug(f"Get configuration from (tenant): '{entity_id}'")
             if _tres["url"] != _res["url"]:
-- 
2.43.0


From df177d44dfd0c9b06533cc51049aec8c30087024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 15/91] fix: stored trust chains are not used once they have
 expired

---
 src/fedservice/entity/__init__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..ed57430 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -266,8 +266,9 @@ class FederationEntity(Unit):
         return _info
 
     def get_trust_chains(self, entity_id):
-        _trust_chains = self.trust_chain.get(entity_id, None)
-        if _trust_chains is None:
+        # Don't use what has expired
+        _trust_chains = [tc for tc in self.trust_chain.get(entity_id) or [] if not tc.is_expired()]
+        if not _trust_chains:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
@@ -283,12 +284,7 @@ class FederationEntity(Unit):
         self.trust_chain[entity_id] = chains
 
     def get_verified_metadata(self, entity_id: str, *args):
-        _trust_chains = self.trust_chain.get(entity_id)
-        if _trust_chains is None:
-            _trust_chains = get_verified_trust_chains(self, entity_id)
-            if _trust_chains:
-                self.store_trust_chain(entity_id, _trust_chains)
-
+        _trust_chains = self.get_trust_chains(entity_id)
         if _trust_chains:
             return _trust_chains[0].metadata
         else:
-- 
2.43.0


From fa1c98cf80072b8834f87d58a972b7cf7d2629fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 16/91] fix: the trust anchor priority decides which stored
 trust chain is picked

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 src/fedservice/entity/__init__.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..0ed0da5 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -143,7 +143,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index ed57430..1f16357 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From d2aac09cb9a1631f39aa470a7eec4bc1984a6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 17/91] fix: a trust chain keeps what it was created with, and
 exporting it doesn't reverse it

---
 src/fedservice/entity_statement/statement.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..f85d79d 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -53,7 +53,8 @@ class TrustChain(ImpExp):
         self.metadata = metadata or {}
         self.exp = exp
         self.verified_chain = verified_chain
-        self.combined_policy = {}
+        self.chain = chain or []
+        self.combined_policy = combined_policy or {}
 
     def keys(self):
         return self.metadata.keys()
@@ -87,9 +88,7 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        return self.verified_chain[::-1]
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From 0e71d1fa334dbab8e1c6f0b792c9ae667e8dd395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 18/91] fix: the collector's metadata of an entity is verified
 metadata that hasn't expired

---
 .../entity/function/trust_chain_collector.py  | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index e27d3fa..1c2e8e0 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -179,20 +179,22 @@ class TrustChainCollector(Function):
         return self_signed_config
 
     def get_metadata(self, entity_id):
-        _ec = None
-        if entity_id in self.config_cache:
-            _ec = self.config_cache[entity_id]
-            if statement_is_expired(_ec):
-                _ec = None
+        """
+        Metadata an entity publishes in its Entity Configuration. The Entity Configuration has to be
+        signed by a configured trust anchor or be the end of a verifiable trust chain.
+        """
+        _federation_entity = get_federation_entity(self)
+        if entity_id in self.trust_anchors:
+            _, _signed_config = self.get_verified_config(entity_id)
+            _trust_chains = verify_trust_chains(_federation_entity, [[_signed_config]])
+        else:
+            _chains, _signed_config = collect_trust_chains(_federation_entity, entity_id)
+            _trust_chains = verify_trust_chains(_federation_entity, _chains, _signed_config)
 
-        if _ec is None:
-            _collection = self.upstream_get('unit')
-            _federation_entity = _collection.upstream_get('unit')
-            _chains, _ = collect_trust_chains(_federation_entity, entity_id)
-            _trust_chains = verify_trust_chains(_federation_entity, _chains)
-            _ec = self.config_cache[entity_id]
+        if not _trust_chains:
+            raise FailedConfigurationRetrieval(f"No verifiable configuration of '{entity_id}'")
 
-        return _ec['metadata']
+        return _trust_chains[0].verified_chain[-1]['metadata']
 
     def get_federation_fetch_endpoint(self, intermediate: str) -> str:
         logger.debug(f'--get_federation_fetch_endpoint({intermediate})')
@@ -374,11 +376,13 @@ class TrustChainCollector(Function):
         else:
             return False
 
-    def __call__(self,
-                 entity_id: str,
-                 max_superiors: Optional[int] = 10,
-                 seen: Optional[List[str]] = None,
-                 stop_at: Optional[str] = ''):
+    def get_verified_config(self, entity_id: str):
+        """
+        Entity Configuration, from the cache or the entity itself, verified with its own keys
+
+        :param entity_id: The entity ID
+        :return: The Entity Configuration as a dictionary and as a signed JWT
+        """
         entity_config = self.config_cache.get(entity_id, None)
         if entity_config and not self.too_old(entity_config):
             signed_entity_config = entity_config.get("_jws")
@@ -392,13 +396,24 @@ class TrustChainCollector(Function):
             signed_entity_config = self.get_entity_configuration(entity_id)
             if not signed_entity_config:
                 logger.warning(f"Could not find any entity configuration for {entity_id}")
-                return None
+                return None, None
             entity_config = verify_self_signed_signature(signed_entity_config)
             logger.debug(f'Verified self signed statement: {entity_config}')
             entity_config['_jws'] = signed_entity_config
             # update cache
             self.config_cache[entity_id] = entity_config
 
+        return entity_config, signed_entity_config
+
+    def __call__(self,
+                 entity_id: str,
+                 max_superiors: Optional[int] = 10,
+                 seen: Optional[List[str]] = None,
+                 stop_at: Optional[str] = ''):
+        entity_config, signed_entity_config = self.get_verified_config(entity_id)
+        if not signed_entity_config:
+            return None
+
         return self.collect_tree(entity_id, entity_config, seen=seen, max_superiors=max_superiors,
                                  stop_at=stop_at), signed_entity_config
 
-- 
2.43.0


From a1754bbbd7360a2c6d4eb2dddd6cd7e46a69b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 19/91] fix: applying a metadata policy doesn't alter the
 statements or the policy

---
 src/fedservice/entity/function/policy.py          | 9 +++++++--
 src/fedservice/entity/function/policy_operator.py | 8 +++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..6c8843e 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 from typing import Optional
 
 from fedservice.entity.function import Function
@@ -211,8 +212,9 @@ def combine(superior: dict, subordinate: dict) -> dict:
 
     :param superior: Dictionary with two keys metadata_policy and metadata
     :param subordinate: Dictionary with two keys metadata_policy and metadata
-    :return:
+    :return: A new dictionary with the keys metadata_policy and metadata
     """
+    superior = superior.copy()
     _metadata = combine_metadata(superior.get('metadata', {}), subordinate.get('metadata', {}))
     if _metadata:
         superior['metadata'] = _metadata
@@ -340,9 +342,12 @@ class TrustChainPolicy(Function):
         :return: A metadata statement that adheres to a metadata policy
         """
 
+        # What was published stays as it was
+        metadata = deepcopy(metadata)
+
         _metadata = policy.get("metadata", None)
         if _metadata:
-            _metadata = _metadata.copy()
+            _metadata = deepcopy(_metadata)
             _metadata.update(metadata)
             metadata = _metadata
 
diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..353a437 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from fedservice.entity.function import PolicyError
 
 POLICY_APPLICATION_ORDER = ['value', 'add', 'default', 'one_of', 'subset_of', 'superset_of', 'essential']
@@ -33,7 +35,7 @@ class Value(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         # value overrides everything
-        metadata[claim] = metadata_policy[claim][self.name]
+        metadata[claim] = deepcopy(metadata_policy[claim][self.name])
         return self.next
 
 
@@ -62,7 +64,7 @@ class Add(PolicyOperator):
         if claim in metadata:
             metadata[claim] = list(union(metadata[claim], metadata_policy[claim][self.name]))
         else:
-            metadata[claim] = metadata_policy[claim][self.name]
+            metadata[claim] = deepcopy(metadata_policy[claim][self.name])
 
 class Default(PolicyOperator):
     name = "default"
@@ -70,7 +72,7 @@ class Default(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim not in metadata:
-            metadata[claim] = metadata_policy[claim][self.name]
+            metadata[claim] = deepcopy(metadata_policy[claim][self.name])
 
 
 class SubsetOf(PolicyOperator):
-- 
2.43.0


From a7566c2c60b18a582e8b901b5308db70828af695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 20/91] fix: metadata set by a superior takes precedence over
 the subordinate's own

---
 src/fedservice/entity/function/policy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 6c8843e..b1536ee 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -347,9 +347,8 @@ class TrustChainPolicy(Function):
 
         _metadata = policy.get("metadata", None)
         if _metadata:
-            _metadata = deepcopy(_metadata)
-            _metadata.update(metadata)
-            metadata = _metadata
+            # What the superiors set takes precedence
+            metadata.update(deepcopy(_metadata))
 
         _metadata_policy = policy.get('metadata_policy', None)
         if _metadata_policy:
-- 
2.43.0


From 1002bb113ca77dd11255a034668feaa4439a585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 21/91] fix: a trust anchor's own metadata isn't metadata for
 its subordinates, all policies are checked for overlap

---
 src/fedservice/entity/function/policy.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index b1536ee..4076d64 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -308,13 +308,12 @@ class TrustChainPolicy(Function):
         """
 
         _rule = {'metadata_policy': {}, 'metadata': {}}
-        for _item in ['metadata_policy', 'metadata']:
-            try:
-                _rule[_item] = chain[0][_item][entity_type]
-            except KeyError:
-                pass
 
-        for es in chain[1:]:
+        for es in chain:
+            if 'iss' in es and es['iss'] == es.get('sub'):
+                # A trust anchor's description of itself says nothing about its subordinates
+                continue
+
             _sub_policy = {'metadata_policy': {}, 'metadata': {}}
             for _item in ['metadata_policy', 'metadata']:
                 try:
-- 
2.43.0


From aa85eb72dbfdbf3fa529a4fa59c670807c9c6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 22/91] fix: a subordinate can not set a value, and no policy
 can add, what the superiors' policies don't allow

---
 src/fedservice/entity/function/policy.py | 122 +++++++++++------------
 1 file changed, 59 insertions(+), 63 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 4076d64..57fa4e6 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -110,6 +110,43 @@ DO_POLICY = {
 }
 
 
+def is_subset(val1, val2):
+    list1, list2 = [v if isinstance(v, list) else [v] for v in (val1, val2)]
+    return all(v in list2 for v in list1)
+
+
+def check_consistency(rule):
+    """
+    Verifies that the operators in a policy for one claim don't contradict each other.
+
+    :param rule: A metadata policy for one claim
+    """
+    if 'superset_of' in rule and 'subset_of' in rule:
+        # make sure the subset_of is a superset of superset_of.
+        if not is_subset(rule['superset_of'], rule['subset_of']):
+            raise PolicyError('superset_of not a super set of subset_of')
+
+    # What is set or added can not be outside what is allowed
+    for setter in ['value', 'default', 'add']:
+        if setter not in rule:
+            continue
+        for limit in ['subset_of', 'one_of']:
+            if limit in rule and not is_subset(rule[setter], rule[limit]):
+                raise PolicyError(f'"{setter}" not a subset of "{limit}"')
+
+    for setter in ['value', 'default']:
+        if setter in rule and 'superset_of' in rule:
+            if not is_subset(rule['superset_of'], rule[setter]):
+                raise PolicyError(f'"{setter}" not a superset of "superset_of"')
+
+    if set(rule) == {'superset_of', 'add'}:
+        if not is_subset(rule['superset_of'], rule['add']):
+            raise PolicyError('"add" not a superset of "superset_of"')
+
+    if 'value' in rule and 'add' in rule and not is_subset(rule['add'], rule['value']):
+        raise PolicyError('"add" not a subset of "value"')
+
+
 def combine_claim_policy(superior, child):
     """
     Combine policy rules.
@@ -124,68 +161,27 @@ def combine_claim_policy(superior, child):
     child_set = set(child).intersection(POLICY_FUNCTIONS)
 
     if "value" in superior_set:  # An exact value can not be restricted.
-        if child_set:
-            if "essential" in child_set:
-                if len(child_set) == 1:
-                    return {"value": superior["value"], "essential": child["essential"]}
-                else:
-                    raise PolicyError(
-                        f"value can only be combined with essential, not {child_set}")
-            elif "value" in child_set:
-                if child["value"] != superior["value"]:  # Not OK
-                    raise PolicyError("Child can not set another value then superior")
-                else:
-                    return superior
-            else:
-                raise PolicyError(
-                    f"Not allowed combination of policies: {superior} + {child}")
-        return superior
-    else:
-        if "essential" in superior_set and "essential" in child_set:
-            # can only go from False to True
-            if superior["essential"] != child["essential"] and child["essential"] is False:
-                raise PolicyError("Essential can not go from True to False")
-
-        comb_policy = superior_set.union(child_set)
-        if "one_of" in comb_policy:
-            if "subset_of" in comb_policy or "superset_of" in comb_policy:
-                raise PolicyError("one_of can not be combined with subset_of/superset_of")
-
-        rule = {}
-        for policy in comb_policy:
-            rule[policy] = DO_POLICY[policy](superior, child, policy)
-
-        if comb_policy == {'superset_of', 'subset_of'}:
-            # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
-                raise PolicyError('superset_of not a super set of subset_of')
-        elif comb_policy == {'superset_of', 'subset_of', 'default'}:
-            # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
-                raise PolicyError('superset_of not a super set of subset_of')
-            if set(rule['default']).difference(set(rule['subset_of'])):
-                raise PolicyError('default not a sub set of subset_of')
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'subset_of', 'default'}:
-            if set(rule['default']).difference(set(rule['subset_of'])):
-                raise PolicyError('default not a sub set of subset_of')
-        elif comb_policy == {'superset_of', 'default'}:
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'one_of', 'default'}:
-            if isinstance(rule['default'], list):
-                if set(rule['default']).difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-            else:
-                if {rule['default']}.difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-        elif comb_policy == {'subset_of', 'add'}:
-            if not set(rule['add']).issubset(set(rule['subset_of'])):
-                raise PolicyError('"add" not a subset of "subset"')
-        elif comb_policy == {'superset_of', 'add'}:
-            if not set(rule['add']).issuperset(set(rule['superset_of'])):
-                raise PolicyError('"add" not a superset of "superset"')
+        if child_set - {"value", "essential"}:
+            raise PolicyError(
+                f"Not allowed combination of policies: {superior} + {child}")
+        if "value" in child_set and child["value"] != superior["value"]:  # Not OK
+            raise PolicyError("Child can not set another value then superior")
+
+    if "essential" in superior_set and "essential" in child_set:
+        # can only go from False to True
+        if superior["essential"] != child["essential"] and child["essential"] is False:
+            raise PolicyError("Essential can not go from True to False")
+
+    comb_policy = superior_set.union(child_set)
+    if "one_of" in comb_policy:
+        if "subset_of" in comb_policy or "superset_of" in comb_policy:
+            raise PolicyError("one_of can not be combined with subset_of/superset_of")
+
+    rule = {}
+    for policy in comb_policy:
+        rule[policy] = DO_POLICY[policy](superior, child, policy)
+
+    check_consistency(rule)
     return rule
 
 
@@ -237,7 +233,7 @@ def combine(superior: dict, subordinate: dict) -> dict:
 
         # only if child
         for claim in child_set.difference(super_set):
-            _metadata_policy[claim] = _sub_policy[claim]
+            _metadata_policy[claim] = combine_claim_policy({}, _sub_policy[claim])
 
         superior['metadata_policy'] = _metadata_policy
 
-- 
2.43.0


From 0cfcc444c5b91a135b721aee2d3e08b4d39d7500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 23/91] fix: a list of values isn't one of the values a policy
 allows

---
 src/fedservice/entity/function/policy_operator.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 353a437..4af526f 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -45,15 +45,13 @@ class OneOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if isinstance(metadata[claim], list):  # Should not be
-                return None
+            # A list is not one value
+            if metadata[claim] in metadata_policy[claim][self.name]:
+                pass
             else:
-                if metadata[claim] in metadata_policy[claim][self.name]:
-                    pass
-                else:
-                    raise PolicyError(
-                        f"{metadata[claim]} not among {metadata_policy[claim][self.name]}")
-                return self.next
+                raise PolicyError(
+                    f"{metadata[claim]} not among {metadata_policy[claim][self.name]}")
+            return self.next
 
 
 class Add(PolicyOperator):
-- 
2.43.0


From 4d93f0db249d2bb39c2baf5dfdbf187b4661648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 24/91] fix: subset_of and superset_of policies on a claim with
 a single value

---
 src/fedservice/entity/function/policy_operator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 4af526f..cbcbfbd 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -82,8 +82,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
@@ -99,7 +99,11 @@ class SupersetOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if set(metadata_policy[claim][self.name]).difference(set(metadata[claim])):
+            if isinstance(metadata[claim], list):
+                _val = set(metadata[claim])
+            else:
+                _val = {metadata[claim]}
+            if set(metadata_policy[claim][self.name]).difference(_val):
                 raise PolicyError(f"{metadata[claim]} not superset of {metadata_policy[claim][self.name]}")
 
 
-- 
2.43.0


From f89b4254b53be0995a5d26cbb505163a9c396e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 25/91] fix: a list can only be the value of a one_of policy if
 it is one of the values

---
 src/fedservice/entity/function/policy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 57fa4e6..72cda1a 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -134,15 +134,14 @@ def check_consistency(rule):
             if limit in rule and not is_subset(rule[setter], rule[limit]):
                 raise PolicyError(f'"{setter}" not a subset of "{limit}"')
 
+    if 'value' in rule and 'one_of' in rule and rule['value'] not in rule['one_of']:
+        raise PolicyError('"value" not in "one_of"')
+
     for setter in ['value', 'default']:
         if setter in rule and 'superset_of' in rule:
             if not is_subset(rule['superset_of'], rule[setter]):
                 raise PolicyError(f'"{setter}" not a superset of "superset_of"')
 
-    if set(rule) == {'superset_of', 'add'}:
-        if not is_subset(rule['superset_of'], rule['add']):
-            raise PolicyError('"add" not a superset of "superset_of"')
-
     if 'value' in rule and 'add' in rule and not is_subset(rule['add'], rule['value']):
         raise PolicyError('"add" not a subset of "value"')
 
@@ -182,6 +181,9 @@ def combine_claim_policy(superior, child):
         rule[policy] = DO_POLICY[policy](superior, child, policy)
 
     check_consistency(rule)
+    if superior_set and child_set and comb_policy == {'superset_of', 'add'}:
+        if not is_subset(rule['superset_of'], rule['add']):
+            raise PolicyError('"add" not a superset of "superset"')
     return rule
 
 
-- 
2.43.0


From 904ebad513ba4855f55c841357dcd9309ba8c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:49 +0000
Subject: [PATCH 26/91] fix: only a signed entity configuration is used, and it
 is cached as the collector caches it

---
 src/fedservice/entity/client/entity_configuration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ce29de8..ac5053d 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -111,8 +111,14 @@ class EntityConfiguration(FederationService):
         return _info
 
     def post_parse_response(self, response, **kwargs):
+        _jws = getattr(response, "_jws", None)
+        if not _jws:
+            raise ValueError(f"Entity Configuration of '{response['iss']}' is not signed")
+
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
-        _collector.config_cache[response["iss"]] = response
+        _config = response.to_dict()
+        _config["_jws"] = _jws
+        _collector.config_cache[response["iss"]] = _config
 
         return response
-- 
2.43.0


From cf34bf8ef55d0eb35be7b9fa4378dad84778fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:55 +0000
Subject: [PATCH 27/91] fix: an expired trust mark doesn't hide other trust
 marks

---
 src/fedservice/trust_mark_entity/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..cb759d7 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -31,15 +31,15 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        now = utc_time_sans_frac()
         with open(self.config[trust_mark_id], "r") as fp:
             # Get the last issued
             for line in reversed(list(fp)):
                 _tmi = json.loads(line.rstrip())
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
+                # That one trust mark has expired says nothing about the others
+                if 'exp' in _tmi and now > _tmi["exp"]:
+                    continue
 
                 if self._match(sub, iat, _tmi):
                     return True
-- 
2.43.0


From 21a6006a98213749adc08af91369bb08f859c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 28/91] fix: expired trust marks are not listed

---
 src/fedservice/trust_mark_entity/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index cb759d7..acc2b25 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -74,11 +74,14 @@ class FileDB(object):
 
     def list(self, trust_mark_id: str, sub: Optional[str] = ""):
         res = []
+        now = utc_time_sans_frac()
         try:
             with open(self.config[trust_mark_id], "r") as fp:
                 # Get the last issued
                 for line in reversed(list(fp)):
                     _tmi = json.loads(line.rstrip())
+                    if 'exp' in _tmi and now > _tmi["exp"]:
+                        continue
                     if _tmi["sub"] not in res:
                         if sub:
                             if _tmi["sub"] == sub:
-- 
2.43.0


From 5981635b98bb252fde9853a9d783ac0496a89b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 29/91] fix: the in-memory trust mark database can hold more
 than one trust mark

---
 src/fedservice/trust_mark_entity/__init__.py | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index acc2b25..4c3a281 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -100,25 +100,24 @@ class SimpleDB(object):
         self._db = {}
 
     def add(self, tm_info: dict):
-        if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
-        else:
-            self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
+        # All trust marks with the same identifier that have been issued to an entity
+        self._db.setdefault(tm_info['id'], {}).setdefault(tm_info['sub'], []).append(tm_info)
+
+    def _valid(self, trust_mark_id, sub: str) -> list:
+        now = utc_time_sans_frac()
+        return [_tmi for _tmi in self._db.get(trust_mark_id, {}).get(sub, [])
+                if 'exp' not in _tmi or now <= _tmi["exp"]]
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
         if sub:
-            if self._db[trust_mark_id].get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+            _subs = [sub]
+        else:
+            _subs = list(self._db.get(trust_mark_id, {}).keys())
+        return [_sub for _sub in _subs if self._valid(trust_mark_id, _sub)]
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
-        if _tmi:
-            if iat:
-                if iat == _tmi["iat"]:
-                    return True
-            else:
+        for _tmi in self._valid(trust_mark_id, sub):
+            if not iat or iat == _tmi["iat"]:
                 return True
 
         return False
-- 
2.43.0


From ed0d4978a32a729a81fb9db1b3e7bc1394a97529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 30/91] fix: an interrupted addition to a trust mark file
 doesn't make the file unusable

---
 src/fedservice/trust_mark_entity/__init__.py | 69 ++++++++++++--------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 4c3a281..9dc01a2 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -18,8 +18,27 @@ class FileDB(object):
     def add(self, tm_info: dict):
         trust_mark_id = tm_info['id']
         # adds a line with info about a trust mark info to the end of a file
-        with open(self.config[trust_mark_id], "a") as fp:
-            fp.write(json.dumps(tm_info) + '\n')
+        self._append(trust_mark_id, [json.dumps(tm_info)])
+
+    def _append(self, trust_mark_id: str, lines):
+        with open(self.config[trust_mark_id], "a+b") as fp:
+            # An addition that was interrupted may have left an incomplete line
+            start = b''
+            if fp.seek(0, os.SEEK_END):
+                fp.seek(-1, os.SEEK_END)
+                if fp.read(1) != b'\n':
+                    start = b'\n'
+            fp.write(start + ''.join([line + '\n' for line in lines]).encode('utf-8'))
+
+    def _last_first(self, trust_mark_id: str):
+        with open(self.config[trust_mark_id], "rb") as fp:
+            for line in reversed(list(fp)):
+                try:
+                    _tmi = json.loads(line)
+                except ValueError:  # left by an addition that was interrupted
+                    continue
+                if isinstance(_tmi, dict):
+                    yield _tmi
 
     def _match(self, sub, iat, tmi):
         if sub == tmi["sub"]:
@@ -32,17 +51,14 @@ class FileDB(object):
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
         now = utc_time_sans_frac()
-        with open(self.config[trust_mark_id], "r") as fp:
-            # Get the last issued
-            for line in reversed(list(fp)):
-                _tmi = json.loads(line.rstrip())
-
-                # That one trust mark has expired says nothing about the others
-                if 'exp' in _tmi and now > _tmi["exp"]:
-                    continue
+        # Get the last issued
+        for _tmi in self._last_first(trust_mark_id):
+            # That one trust mark has expired says nothing about the others
+            if 'exp' in _tmi and now > _tmi["exp"]:
+                continue
 
-                if self._match(sub, iat, _tmi):
-                    return True
+            if self._match(sub, iat, _tmi):
+                return True
         return False
 
     def __contains__(self, item):
@@ -55,9 +71,8 @@ class FileDB(object):
         res = {}
         for entity_id in self.config.keys():
             res[entity_id] = []
-            with open(self.config[entity_id], "r") as fp:
-                for line in list(fp):
-                    res[entity_id].append(line.rstrip())
+            for _tmi in reversed(list(self._last_first(entity_id))):
+                res[entity_id].append(json.dumps(_tmi))
         return res
 
     def dumps(self):
@@ -65,9 +80,7 @@ class FileDB(object):
 
     def load(self, info):
         for entity_id in self.config.keys():
-            with open(self.config[entity_id], "a") as fp:
-                for tm_info in info[entity_id]:
-                    fp.write(tm_info + '\n')
+            self._append(entity_id, info.get(entity_id, []))
 
     def loads(self, str):
         self.load(json.loads(str))
@@ -76,18 +89,16 @@ class FileDB(object):
         res = []
         now = utc_time_sans_frac()
         try:
-            with open(self.config[trust_mark_id], "r") as fp:
-                # Get the last issued
-                for line in reversed(list(fp)):
-                    _tmi = json.loads(line.rstrip())
-                    if 'exp' in _tmi and now > _tmi["exp"]:
-                        continue
-                    if _tmi["sub"] not in res:
-                        if sub:
-                            if _tmi["sub"] == sub:
-                                res.append(_tmi["sub"])
-                        else:
+            # Get the last issued
+            for _tmi in self._last_first(trust_mark_id):
+                if 'exp' in _tmi and now > _tmi["exp"]:
+                    continue
+                if _tmi["sub"] not in res:
+                    if sub:
+                        if _tmi["sub"] == sub:
                             res.append(_tmi["sub"])
+                    else:
+                        res.append(_tmi["sub"])
         except KeyError as err:
             pass
 
-- 
2.43.0


From 77ad8b3ac9d4abf9e190f236043ade96e0be956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 31/91] fix: asking about a trust mark that hasn't been issued,
 or listing one that has, gives an answer

---
 src/fedservice/server.py                                   | 2 +-
 src/fedservice/trust_mark_entity/__init__.py               | 3 +++
 src/fedservice/trust_mark_entity/entity.py                 | 1 +
 src/fedservice/trust_mark_entity/server/trust_mark_list.py | 2 +-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/server.py b/src/fedservice/server.py
index 55dd75d..a4156fc 100644
--- a/src/fedservice/server.py
+++ b/src/fedservice/server.py
@@ -25,7 +25,7 @@ class Collection(object):
         self._db[id].add(tminfo)
 
     def find(self, id: str, sub: str, iat: Optional[int] = 0) -> bool:
-        return self._db[id].find(sub, iat)
+        return self._db[id].find(id, sub, iat)
 
 
 class ServerUnit(Unit):
diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 9dc01a2..e827903 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -50,6 +50,9 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        if trust_mark_id not in self.config:
+            return False
+
         now = utc_time_sans_frac()
         # Get the last issued
         for _tmi in self._last_first(trust_mark_id):
diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..e4a9827 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -125,6 +125,7 @@ class TrustMarkEntity(Unit):
         if sub:
             if self.find(trust_mark_id, sub):
                 return [sub]
+            return []
         else:
             return self.issued.list(trust_mark_id)
 
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..027522d 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -39,7 +39,7 @@ class TrustMarkList(Endpoint):
 
         if 'sub' in request and 'trust_mark_id' in request:
             if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
+                return {"response_msg": json.dumps([request["sub"]]), "response_code": 200}
         elif 'trust_mark_id' in request:
             _lst = _trust_mark_entity.list(request["trust_mark_id"])
             if _lst:
-- 
2.43.0


From 9c1189ef4a4af537f5c7fd3d4674453f5317818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:35 +0000
Subject: [PATCH 32/91] fix: the status of a trust mark is about that trust
 mark

---
 .../trust_mark_entity/server/trust_mark_status.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..f41dcb0 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -38,7 +38,9 @@ class TrustMarkStatus(Endpoint):
 
         if 'trust_mark' in request:
             _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
+            # Only know about the status of my own trust marks
+            if _mark['iss'] == _trust_mark_issuer.upstream_get("attribute", "entity_id") and \
+                    _trust_mark_issuer.find(_mark['id'], _mark['sub'], _mark['iat']):
                 return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
@@ -49,7 +51,7 @@ class TrustMarkStatus(Endpoint):
                     _id = request['id']
 
                 if _id:
-                    if _trust_mark_issuer.find(_id, request['sub']):
+                    if _trust_mark_issuer.find(_id, request['sub'], int(request.get('iat', 0))):
                         return {'response_args': {'active': True}}
 
         return self.error_cls(error="not_found", error_description="No active trust mark matching the query")
-- 
2.43.0


From 8017da2fdda2ed3340a21943a02669312bf3a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:42 +0000
Subject: [PATCH 33/91] fix: a trust mark with a delegation that can't be
 verified is not accepted

---
 .../entity/function/trust_mark_verifier.py      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..1478fb2 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -47,9 +47,14 @@ class TrustMarkVerifier(Function):
 
         # deal with delegation
         if 'delegation' in _trust_mark:
-            _delegation = self.verify_delegation(_trust_mark, trust_anchor)
+            try:
+                _delegation = self.verify_delegation(_trust_mark, trust_anchor)
+            except Exception as err:
+                logger.warning(f"Verification of the delegation failed: {err!r}")
+                _delegation = None
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -101,4 +106,12 @@ class TrustMarkVerifier(Function):
         _key_jar = KeyJar()
         _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
         keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        _payload = _delegation.verify_compact(keys=keys)
+
+        # It must be this trust mark issuer that the owner of this trust mark delegates to
+        if _payload.get('iss') != tm_owner_info['sub'] or \
+                _payload.get('sub') != trust_mark['iss'] or \
+                _payload.get('id') != trust_mark['id'] or statement_is_expired(_payload):
+            return None
+
+        return _payload
-- 
2.43.0


From 6269a27398204907ea813bae9330ebb6cbb822e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:32 +0000
Subject: [PATCH 34/91] fix: a trust mark is verified with the issuer's keys
 below the trust anchor, and has to be what that trust anchor allows

---
 src/fedservice/entity/__init__.py             |  2 +
 .../entity/function/trust_mark_verifier.py    | 85 +++++++++++--------
 2 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1f16357..d479509 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -365,6 +365,8 @@ class FederationEntity(Unit):
         # Verifies the signature of the Trust Mark
         verified_trust_mark = self.function.trust_mark_verifier(
             trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
+        if not verified_trust_mark:
+            return None
 
         if check_with_issuer:
             # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 1478fb2..171599b 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -7,7 +7,6 @@ from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
-from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
@@ -45,50 +44,64 @@ class TrustMarkVerifier(Function):
         if statement_is_expired(_trust_mark):
             return None
 
-        # deal with delegation
-        if 'delegation' in _trust_mark:
-            try:
-                _delegation = self.verify_delegation(_trust_mark, trust_anchor)
-            except Exception as err:
-                logger.warning(f"Verification of the delegation failed: {err!r}")
-                _delegation = None
-            if not _delegation:
-                logger.warning("Could not verify the delegation")
-                return None
+        # Is it about the entity it's supposed to be about ?
+        if entity_id and _trust_mark['sub'] != entity_id:
+            logger.warning(f"The trust mark is not about {entity_id}")
+            return None
 
         # Get trust chain
-        # _federation_entity = get_federation_entity(self)
-        # _chains, entity_conf = collect_trust_chains(_federation_entity, _trust_mark['iss'])
-        # _trust_chains = verify_trust_chains(_federation_entity, _chains, entity_conf)
-        _trust_chains = get_verified_trust_chains(self, _trust_mark['iss'])
+        _trust_chains = [_tc for _tc in get_verified_trust_chains(self, _trust_mark['iss']) if
+                         _tc.anchor == trust_anchor]
         if not _trust_chains:
-            logger.warning(f"Could not find any verifiable trust chains for {_trust_mark['iss']}")
+            logger.warning(f"No verified trust chain from {_trust_mark['iss']} to the trust anchor:"
+                           f" {trust_anchor}")
             return None
 
-        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:
-            logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
+        # deal with what the trust anchor says about this kind of trust marks
+        try:
+            _accepted = self.accepted_by_trust_anchor(_trust_mark, trust_anchor)
+        except Exception as err:
+            logger.warning(f"Could not verify what the trust anchor demands: {err!r}")
+            return None
+        if not _accepted:
             return None
 
-        # Now try to verify the signature on the trust_mark
-        # should have the necessary keys
-        _federation_entity = get_federation_entity(self)
+        # Now try to verify the signature on the trust_mark. It has to be signed with a key that
+        # the trust mark issuer has got according to a trust chain that ends in the trust anchor.
         _jwt = factory(trust_mark)
-        keyjar = _federation_entity.get_attribute('keyjar')
-
-        keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-        if not keys:
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
-                                 _trust_chains[0].verified_chain[-1]["jwks"],
-                                 _trust_chains[0].iss_path[0])
-            keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
+        for _trust_chain in _trust_chains:
+            _key_jar = import_jwks(KeyJar(), _trust_chain.verified_chain[-1]["jwks"],
+                                   _trust_mark['iss'])
+            try:
+                return _jwt.verify_compact(trust_mark,
+                                           keys=_key_jar.get_jwt_verify_keys(_jwt.jwt))
+            except Exception as err:
+                logger.warning(f"Could not verify the trust mark: {err!r}")
+
+        return None
+
+    def accepted_by_trust_anchor(self, trust_mark, trust_anchor_id) -> bool:
+        _collector = get_federation_entity(self).function.trust_chain_collector
+        _ta_metadata = _collector.get_metadata(trust_anchor_id).get('federation_entity', {})
+
+        # Does the trust anchor limit who can issue this trust mark ?
+        _issuers = (_ta_metadata.get('trust_mark_issuers') or {}).get(trust_mark['id'])
+        if isinstance(_issuers, str):
+            _issuers = [_issuers]
+        if _issuers and trust_mark['iss'] not in _issuers:
+            logger.warning(f"{trust_mark['iss']} is not one of the issuers of {trust_mark['id']}")
+            return False
+
+        # If someone else is the owner, then the owner must have delegated the right to issue it
+        _owner = (_ta_metadata.get('trust_mark_owners') or {}).get(trust_mark['id'])
+        _needs_delegation = _owner and _owner['sub'] != trust_mark['iss']
+        if 'delegation' in trust_mark or _needs_delegation:
+            if 'delegation' not in trust_mark or not self.verify_delegation(trust_mark,
+                                                                            trust_anchor_id):
+                logger.warning("Could not verify the delegation")
+                return False
 
-        try:
-            _mark = _jwt.verify_compact(trust_mark, keys=keys)
-        except Exception as err:
-            return None
-        else:
-            return _mark
+        return True
 
     def verify_delegation(self, trust_mark, trust_anchor_id):
         _federation_entity = get_federation_entity(self)
-- 
2.43.0


From 2d34fe241c2d57e5d701a268342b03b7559ba44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:09 +0000
Subject: [PATCH 35/91] fix: a fetched statement is issued in the entity's own
 name, about registered subordinates, from an unchanged registration

---
 .../entity/server/entity_configuration.py     | 10 ++----
 src/fedservice/entity/server/fetch.py         | 35 ++++++++++++-------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..d7407f9 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -38,13 +37,8 @@ class EntityConfiguration(Endpoint):
         else:
             _metadata = _fed_entity.get_metadata()
 
-        if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
-        else:
-            args = {}
+        _trust_marks = _fed_entity.context.get_trust_marks()
+        args = {"trust_marks": _trust_marks} if _trust_marks else {}
 
         _ec = create_entity_statement(iss=_entity_id,
                                       sub=_entity_id,
diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..e0c3b09 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -9,6 +9,9 @@ from fedservice.message import EntityStatement
 
 logger = logging.getLogger(__name__)
 
+# What I need to know about a subordinate but no one else has to be told
+BOOKKEEPING = ('entity_types', 'entity_type', 'intermediate')
+
 
 class Fetch(Endpoint):
     request_cls = oidc.Message
@@ -25,40 +28,47 @@ class Fetch(Endpoint):
         pass
 
     def process_request(self, request=None, **kwargs):
-        _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        # No one else's statements can be had from here
+        _issuer = self.upstream_get('attribute', 'entity_id')
+        if (request.get("iss") or _issuer) != _issuer:
+            raise UnknownEntity(request["iss"])
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
         if not _sub or _sub == _issuer:
             _server = self.upstream_get("server")
             _entity = _server.upstream_get('unit')
-            _metadata = _entity.get_metadata()
+            if _entity.upstream_get:
+                _metadata = _entity.upstream_get("metadata")
+            else:
+                _metadata = _entity.get_metadata()
+            _trust_marks = _entity.context.get_trust_marks()
+            args = {"trust_marks": _trust_marks} if _trust_marks else {}
             _es = create_entity_statement(iss=_entity.context.entity_id,
                                           sub=_entity.context.entity_id,
                                           key_jar=_keyjar,
                                           metadata=_metadata,
-                                          authority_hints=self.upstream_get('authority_hints'))
+                                          authority_hints=_entity.get_authority_hints(),
+                                          **args)
         else:
             _server = self.upstream_get("unit")
             # Contains jwks and possibly entity type and authority_hints
-            _response = _server.subordinate.get(_sub)
-            if not _response:
+            _info = _server.subordinate.get(_sub)
+            if not _info:
                 logger.debug(f"Unknown subordinate: {_sub}")
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            # What is registered is not to be changed by someone asking for it
+            _response = {k: v for k, v in _info.items() if k not in BOOKKEEPING}
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
 
             _policy = _server.policy.get(_sub)
             if not _policy:  # No entity specific policy
-                if 'entity_types' in _response:
-                    _entity_types = _response['entity_types']
-                    _response = {k: v for k, v in _response.items() if k != 'entity_types'}
+                if 'entity_types' in _info:
+                    _entity_types = _info['entity_types']
                     _policy = {'metadata': {}, 'metadata_policy': {}}
                     for entity_type in _entity_types:
                         _et_policy = _server.policy.get(entity_type)
@@ -75,11 +85,12 @@ class Fetch(Endpoint):
                         _policy = None
 
             if _policy:
-                _response.update(_policy)
+                _response.update({k: v for k, v in _policy.items() if v})
 
             _es = create_entity_statement(iss=_issuer,
                                           sub=_sub,
                                           key_jar=_keyjar,
+                                          include_jwks='jwks' in _response,
                                           **_response
                                           )
         return {"response_msg": _es}
-- 
2.43.0


From 98bd1533e9981d71ab0a6da9b6556d22d3e0e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:18 +0000
Subject: [PATCH 36/91] fix: listing subordinates that match something works on
 the records there are, and with all the criteria

---
 src/fedservice/entity/server/list.py | 92 ++++++++++++++++------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..83dad49 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -3,6 +3,7 @@ import logging
 
 from cryptojwt import JWT
 from cryptojwt import KeyJar
+from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -10,6 +11,24 @@ from idpyoidc.server.endpoint import Endpoint
 logger = logging.getLogger(__name__)
 
 
+def is_true(val) -> bool:
+    # As part of a query a boolean is a string
+    if isinstance(val, str):
+        return val.lower() in ["true", "1"]
+    return bool(val)
+
+
+def _trust_mark_id(trust_mark) -> str:
+    # A Trust Mark can be on its own or together with its identifier
+    try:
+        if isinstance(trust_mark, str):
+            trust_mark = factory(trust_mark).jwt.payload()
+        return trust_mark.get("id", "")
+    except Exception as err:
+        logger.error(f"Not a Trust Mark: {err!r}")
+        return ""
+
+
 class List(Endpoint):
     request_cls = oidc.Message
     # response_cls = EntityIDList
@@ -23,30 +42,17 @@ class List(Endpoint):
 
     def filter(self,
                subordinates: dict,
-               entity_type: str = '',
                trust_mark_id: str = '',
                trust_marked=None,
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
-            if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
-
-            if matched:
-                match.append(entity_id)
+            trust_marks = conf.get('trust_marks') or []
+            if is_true(trust_marked) and not trust_marks:
+                continue
+            if trust_mark_id and trust_mark_id not in [_trust_mark_id(tm) for tm in trust_marks]:
+                continue
+            match.append(entity_id)
         return match
 
     def process_request(self, request=None, **kwargs):
@@ -54,41 +60,49 @@ class List(Endpoint):
         if not request or set(request.keys()).issubset({"client_id", "authenticated"}):
             return {'response_msg': json.dumps(list(_db.keys()))}
         else:
-            matched_entity_ids = set()
+            # A subordinate must match all the criteria
+            matched_entity_ids = []
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
+                if is_true(request.get("intermediate")) and not item.get("intermediate"):
+                    continue
                 if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+                    _types = item.get("entity_types", item.get("entity_type", []))
+                    if isinstance(_types, str):
+                        _types = [_types]
+                    if request["entity_type"] not in _types:
+                        continue
+                matched_entity_ids.append(entity_id)
 
             # I don't expect to know about trust marks from the registration
-            if "trust_marked" in request or "trust_mark_id" in request:
-                subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+            if is_true(request.get("trust_marked")) or request.get("trust_mark_id"):
+                subordinate_conf = self.collect_subordinates(matched_entity_ids)
+                matched_entity_ids = self.filter(subordinates=subordinate_conf, **request)
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
                                                     matched_entity_ids})}
             else:
-                return {"response_msg": json.dumps(list(matched_entity_ids))}
+                return {"response_msg": json.dumps(matched_entity_ids)}
 
-    def collect_subordinates(self) -> dict:
+    def collect_subordinates(self, entity_ids) -> dict:
         _server_entity = self.upstream_get("unit")
         _federation_entity = _server_entity.upstream_get("unit")
-        keyjar = KeyJar()
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
-        for entity_id, conf in _federation_entity.server.subordinate.items():
-            #  get entity configuration for subordinate
-            _entity_configuration = _collector.get_entity_configuration(entity_id)
-            # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
-            _jwt = JWT(key_jar=keyjar)
-            _ec = _jwt.unpack(_entity_configuration)
+        for entity_id in entity_ids:
+            conf = _federation_entity.server.subordinate[entity_id]
+            try:
+                #  get entity configuration for subordinate
+                _entity_configuration = _collector.get_entity_configuration(entity_id)
+                # Verify signature with the keys I have
+                keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
+                _jwt = JWT(key_jar=keyjar)
+                _ec = _jwt.unpack(_entity_configuration)
+            except Exception as err:
+                # That there is a problem with one subordinate must not affect the others
+                logger.error(f"No usable entity configuration for '{entity_id}': {err!r}")
+                continue
             sub[entity_id] = _ec
         return sub
-- 
2.43.0


From 018f46d4b8868f477094b6e7fd5381b036173ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 37/91] fix: a resolve response is based on a trust chain, and
 isn't valid longer than that

---
 src/fedservice/entity/function/policy.py |  7 +++++--
 src/fedservice/entity/server/resolve.py  | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 72cda1a..5e649d5 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -383,8 +383,11 @@ class TrustChainPolicy(Function):
                 for _type in trust_chain.verified_chain[-1]['metadata'].keys():
                     trust_chain.metadata[_type] = self._policy(trust_chain, _type)
         else:
-            trust_chain.metadata = trust_chain.verified_chain[0]["metadata"][entity_type]
-            trust_chain.combined_policy[entity_type] = {}
+            # An entity's description of itself, no policies
+            for _type, _metadata in trust_chain.verified_chain[0]["metadata"].items():
+                if entity_type in ['', _type]:
+                    trust_chain.metadata[_type] = deepcopy(_metadata)
+                    trust_chain.combined_policy[_type] = {}
 
 
 def diff2policy(new, old):
diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 7428323..e335441 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -11,6 +12,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.create import create_entity_statement
+from fedservice.exception import NoTrustedChains
 
 logger = logging.getLogger(__name__)
 
@@ -37,24 +39,34 @@ class Resolve(Endpoint):
                                             signed_entity_configuration)
         _trust_chains = apply_policies(_federation_entity, _trust_chains)
 
+        _now = utc_time_sans_frac()
         _chain = None
         for trust_chain in _trust_chains:
-            if _trust_anchor == trust_chain.anchor:
+            if _trust_anchor == trust_chain.anchor and trust_chain.exp > _now:
                 _chain = trust_chain
                 break
 
+        if _chain is None:
+            raise NoTrustedChains(f"No trust chain from {request['sub']} to {_trust_anchor}")
+
         if "type" in request:
             metadata = {request['type']: _chain.metadata[request['type']]}
         else:
             metadata = _chain.metadata
 
-        trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
-            _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
+        # Starts with the entity configuration of the subject
+        trust_chain = _chain.chain[::-1]
+        if kwargs.get("with_ta_ec"):
+            _, _ta_ec = _federation_entity.function.trust_chain_collector.get_verified_config(
+                _trust_anchor)
+            trust_chain.append(_ta_ec)
 
+        # Must not be used longer than what it is based on
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
+                                       lifetime=min(86400, _chain.exp - _now),
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From 452a0056972ba3b58f0c78488dc758890cebe4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 38/91] fix: a trust chain provided in a request only registers
 the entity it is about

---
 .../appserver/oauth2/authorization.py           | 14 ++++----------
 .../appserver/oauth2/pushed_authorization.py    |  9 ++-------
 src/fedservice/appserver/oidc/authorization.py  |  9 +++------
 src/fedservice/entity/function/__init__.py      | 17 +++++++++++++++++
 4 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..e2b0d6b 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -8,9 +8,8 @@ from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2 import authorization
 
 from fedservice.appserver import import_client_keys
-from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 
@@ -51,14 +50,9 @@ class Authorization(authorization.Authorization):
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, entity_id, provided_trust_chain)
         else:
-            chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
-            trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
-
-        trust_chains = apply_policies(self, trust_chains)
+            trust_chains = get_verified_trust_chains(self, entity_id)
 
         if not trust_chains:
             raise NoTrustedChains()
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..81796a4 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -8,9 +8,7 @@ from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2.authorization import Authorization
 from idpyoidc.server.oauth2 import authorization
 
-from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientMetadata
@@ -44,10 +42,7 @@ class PushedAuthorization(Authorization):
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
-            trust_chains = apply_policies(self, trust_chains)
+            trust_chains = verify_provided_trust_chain(self, entity_id, provided_trust_chain)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
 
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..65dd81d 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -7,9 +7,8 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oidc import authorization
 
-from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity.utils import get_keys
 from fedservice.exception import NoTrustedChains
@@ -51,10 +50,8 @@ class Authorization(authorization.Authorization):
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
-            trust_chains = apply_policies(self, trust_chains)
+            trust_chains = verify_provided_trust_chain(self, client_entity_id,
+                                                       provided_trust_chain)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
 
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 32e3f5c..a2b05fd 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -132,6 +132,23 @@ def verify_trust_chain(unit, chain: List[str]):
     return _verifier(chain)
 
 
+def verify_provided_trust_chain(unit, entity_id: str, trust_chain: List[str]):
+    """
+    Verifies a trust chain that someone has provided and applies the policies in it.
+
+    :param unit: A Unit instance
+    :param entity_id: The entity the trust chain must be about
+    :param trust_chain: A trust chain with the entity's own Entity Configuration first
+    :return: List of TrustChain instances. Empty if the chain isn't a valid trust chain for the
+        entity.
+    """
+    # The verifier wants the statement issued by the trust anchor first
+    trust_chains = verify_trust_chains(unit, [list(reversed(trust_chain))])
+    trust_chains = [tc for tc in trust_chains if
+                    tc.verified_chain[-1]['iss'] == tc.verified_chain[-1]['sub'] == entity_id]
+    return apply_policies(unit, trust_chains)
+
+
 def apply_policies(unit, trust_chains):
     """
     Goes through the collected trust chains, verifies them and applies policies.
-- 
2.43.0


From 43919e3068e3ba2e4b46c7baf7e03b2c9ce97dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 39/91] fix: a registration replaces the keys of an older one,
 and a refused one leaves things as they were

---
 src/fedservice/appserver/__init__.py          | 39 +++++++++++++++++++
 .../appserver/oauth2/registration.py          |  4 +-
 .../appserver/oidc/authorization.py           | 19 +++++----
 src/fedservice/appserver/oidc/registration.py |  4 +-
 src/fedservice/entity/utils.py                |  3 +-
 5 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 30df939..fc23524 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -53,6 +53,45 @@ def import_client_keys(information: Union[Message, dict], keyjar: KeyJar, entity
                 keyjar = import_jwks(keyjar, _jwks, entity_id)
 
 
+def register_client(endpoint: Endpoint, method: Callable, req: Message, **kwargs):
+    """
+    Does the registration of a client. An accepted registration replaces what was registered, keys
+    included, under the same client ID. If the registration isn't accepted that is left as it was.
+
+    :param endpoint: The registration endpoint
+    :param method: The method that does the registration
+    :param req: Registration request
+    :param kwargs: Extra keyword arguments
+    :return: What the method returned
+    """
+    _client_id = req.get("client_id")
+    if not _client_id or kwargs.get("new_id", True):
+        return method(endpoint, req, **kwargs)
+
+    _cdb = endpoint.upstream_get("context").cdb
+    _keyjar = endpoint.upstream_get("attribute", "keyjar")
+    _client_info = _cdb.get(_client_id)
+    _keys = None
+    if _client_id in _keyjar:
+        _keys = _keyjar[_client_id]
+        del _keyjar[_client_id]
+
+    response_info = method(endpoint, req, **kwargs)
+
+    if "response_args" not in response_info:
+        if _client_info is not None:
+            _cdb[_client_id] = _client_info
+        elif _client_id in _cdb:
+            del _cdb[_client_id]
+
+        if _client_id in _keyjar:
+            del _keyjar[_client_id]
+        if _keys is not None:
+            _keyjar[_client_id] = _keys
+
+    return response_info
+
+
 class ServerEntity(ServerUnit):
     name = 'openid_provider'
     parameter = {"endpoint": [Endpoint], "context": EndpointContext}
diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..8ad5d93 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -21,6 +21,7 @@ from idpyoidc.util import sanitize
 from idpyoidc.util import split_uri
 
 from fedservice.appserver import import_client_keys
+from fedservice.appserver import register_client
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
@@ -428,4 +429,5 @@ class Registration(Endpoint):
 
     def non_fed_process_request(self, req, **kwargs):
         # handle the registration request as in the non-federation case.
-        return registration.Registration.process_request(self, req, authn=None, **kwargs)
+        return register_client(self, registration.Registration.process_request, req, authn=None,
+                               **kwargs)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 65dd81d..fd34455 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -65,15 +65,6 @@ class Authorization(authorization.Authorization):
         # _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
-        # If there is a jwks_uri in the metadata import keys
-        _root = topmost_unit(self)
-        if "openid_provider" in _root:
-            get_keys(
-                trust_chain.metadata['openid_relying_party'],
-                self.upstream_get('attribute', 'keyjar'),
-                client_entity_id,
-                self)
-
         req = RegistrationRequest(**trust_chain.metadata['openid_relying_party'])
         req['client_id'] = client_entity_id
         kwargs = {}
@@ -85,10 +76,18 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            _client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        if _client_id != client_entity_id:
+            # The client signs in its own name.
+            _keyjar = self.upstream_get('attribute', 'keyjar')
+            if client_entity_id in _keyjar:
+                del _keyjar[client_entity_id]
+            get_keys(trust_chain.metadata['openid_relying_party'], _keyjar, client_entity_id, self)
+        return _client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..54a1a59 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -5,6 +5,7 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
+from fedservice.appserver import register_client
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
@@ -90,7 +91,8 @@ class Registration(registration.Registration):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
         # handle the registration request as in the non-federation case.
-        return registration.Registration.process_request(self, req, authn=None, **kwargs)
+        return register_client(self, registration.Registration.process_request, req, authn=None,
+                               **kwargs)
 
     @staticmethod
     def create_entity_statement(response_args, request, context,
diff --git a/src/fedservice/entity/utils.py b/src/fedservice/entity/utils.py
index 2352bd0..d5fef22 100644
--- a/src/fedservice/entity/utils.py
+++ b/src/fedservice/entity/utils.py
@@ -56,4 +56,5 @@ def get_keys(metadata, keyjar, entity_id, unit):
             keyjar.add_url(entity_id, _jwks_uri)
         else:
             _jwks = metadata.get('jwks')
-            _keyjar = import_jwks(keyjar, _jwks, entity_id)
+            if _jwks:
+                _keyjar = import_jwks(keyjar, _jwks, entity_id)
-- 
2.43.0


From 1836183bdcd3287927bfbbb53175c7179d6bd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 40/91] fix: explicit registration uses the metadata of the
 verified request, after policies

---
 src/fedservice/appserver/oauth2/registration.py | 12 ++++++++++--
 src/fedservice/appserver/oidc/registration.py   | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 8ad5d93..4afee6b 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -27,6 +27,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientInformationResponse
 
 logger = logging.getLogger(__name__)
@@ -61,8 +62,12 @@ class Registration(Endpoint):
         :return:
         """
         payload = verify_self_signed_signature(request)
-        opponent_entity_type = set(payload['metadata'].keys()).difference({'federation_entity',
-                                                                           'trust_mark_issuer'}).pop()
+        _entity_types = set(payload['metadata'].keys())
+        if 'oauth_client' in _entity_types:
+            opponent_entity_type = 'oauth_client'
+        else:
+            opponent_entity_type = _entity_types.difference({'federation_entity',
+                                                             'trust_mark_issuer'}).pop()
         _federation_entity = get_federation_entity(self)
 
         # Collect trust chains
@@ -71,6 +76,9 @@ class Registration(Endpoint):
                                           signed_entity_configuration=request)
         _trust_chains = verify_trust_chains(_federation_entity, _chains, request)
         _trust_chains = apply_policies(_federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise NoTrustedChains(f"No trust chains for {payload['sub']}")
+
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
         # Perform non-federation registration
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 54a1a59..38b46da 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -6,7 +6,9 @@ from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
 from fedservice.appserver import register_client
+from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -37,8 +39,13 @@ class Registration(registration.Registration):
         :return:
         """
         payload = verify_self_signed_signature(request)
+        if payload['iss'] != payload['sub']:
+            raise ValueError("A registration request must be issued by the entity it is about")
+
         _entity_types = set(payload['metadata'].keys())
-        if len(_entity_types) == 1:
+        if 'openid_relying_party' in _entity_types:
+            opponent_entity_type = 'openid_relying_party'
+        elif len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
         else:
             opponent_entity_type = _entity_types.difference({'federation_entity'}).pop()
@@ -50,11 +57,17 @@ class Registration(registration.Registration):
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
+        # The request takes the place of the published Entity Configuration
+        _trust_chains = verify_trust_chains(self, [tc.chain[:-1] for tc in _trust_chains], request)
+        _trust_chains = apply_policies(self, _trust_chains)
+        if not _trust_chains:
+            raise NoTrustedChains(f"Not a trusted registration request from {payload['sub']}")
+
         save_trust_chains(self.upstream_get("context"), _trust_chains)
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
-- 
2.43.0


From 00bff51a25c2723e6964d45ef2713851103a8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 41/91] fix: a registration response is signed by the one the
 client's trust anchor vouches for, and about the client

---
 .../appclient/oauth2/registration.py          | 53 ++++++++++++++----
 src/fedservice/appclient/oidc/registration.py | 56 ++++++++++++++-----
 2 files changed, 83 insertions(+), 26 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..3f179f9 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -2,9 +2,11 @@ import logging
 from typing import Optional
 
 from cryptojwt import KeyJar
+from cryptojwt.jwt import JWT
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.client.rp_handler import RPHandler
+from idpyoidc.key_import import import_jwks
 from idpyoidc.message.oauth2 import OauthClientInformationResponse
 from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.message.oauth2 import ResponseMessage
@@ -12,11 +14,11 @@ from idpyoidc.node import topmost_unit
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import SignatureFailure
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -120,15 +122,36 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
-            return False
+    def _trust_chains_to(self, entity_id, trust_anchor, federation_entity):
+        _chains, _entity_configuration = collect_trust_chains(self.upstream_get('unit'),
+                                                              entity_id=entity_id,
+                                                              stop_at=trust_anchor)
+        _trust_chains = verify_trust_chains(federation_entity, _chains, _entity_configuration)
+        return [tc for tc in _trust_chains if tc.anchor == trust_anchor]
+
+    def _signature_verifies(self, response, entity_id, trust_anchor, federation_entity):
+        # The keys in the response doesn't tell anything about who made it. The keys that the trust
+        # anchor, directly or indirectly, vouches for does.
+        for trust_chain in self._trust_chains_to(entity_id, trust_anchor, federation_entity):
+            _keyjar = import_jwks(KeyJar(), trust_chain.verified_chain[-1]['jwks'], entity_id)
+            try:
+                JWT(key_jar=_keyjar).unpack(response)
+            except Exception as err:
+                logger.error(f"Could not verify the signature: {err!r}")
+            else:
+                return True
+
+        return False
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+    def _verify_about_me(self, payload):
+        _entity_id = self.upstream_get('attribute', 'entity_id')
+        if payload['sub'] != _entity_id:
+            raise ValueError("Registration response about someone else")
+        _aud = payload.get('aud', _entity_id)
+        if _entity_id not in ([_aud] if isinstance(_aud, str) else _aud):
+            raise ValueError("Registration response for someone else")
+        if statement_is_expired(payload):
+            raise ValueError("Registration response that is too old")
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -149,6 +172,8 @@ class Registration(registration.Registration):
                 _federation_entity.function.trust_chain_collector.trust_anchors):
             raise ValueError("Trust anchor I don't trust")
 
+        self._verify_about_me(payload)
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -160,13 +185,15 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
+            if not self._signature_verifies(resp, payload["iss"], payload['trust_anchor_id'],
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from myself to the TA
-            _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
-                                                                                        'entity_id'))
+            _trust_chains = self._trust_chains_to(self.upstream_get('attribute', 'entity_id'),
+                                                  payload['trust_anchor_id'],
+                                                  _federation_entity)
+            _trust_chains = apply_policies(_federation_entity, _trust_chains)
 
             # should only be one chain
             if len(_trust_chains) != 1:
@@ -177,6 +204,8 @@ class Registration(registration.Registration):
                 _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
                 # If it's metadata_policy what to do ?
                 _trust_chains = apply_policies(_federation_entity, _trust_chains)
+                if not _trust_chains:
+                    raise ValueError("The registration doesn't follow the metadata policies")
 
             _resp = _trust_chains[0].metadata
             _context = self.upstream_get('context')
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..662d56b 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -1,8 +1,11 @@
 import logging
 from typing import Optional
 
+from cryptojwt import KeyJar
+from cryptojwt.jwt import JWT
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
+from idpyoidc.key_import import import_jwks
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.message.oidc import RegistrationResponse
 
@@ -12,6 +15,7 @@ from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import SignatureFailure
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -99,15 +103,36 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
-            return False
-
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+    def _trust_chains_to(self, entity_id, trust_anchor, federation_entity):
+        _chains, _entity_configuration = collect_trust_chains(self.upstream_get('unit'),
+                                                              entity_id=entity_id,
+                                                              stop_at=trust_anchor)
+        _trust_chains = verify_trust_chains(federation_entity, _chains, _entity_configuration)
+        return [tc for tc in _trust_chains if tc.anchor == trust_anchor]
+
+    def _signature_verifies(self, response, entity_id, trust_anchor, federation_entity):
+        # The keys in the response doesn't tell anything about who made it. The keys that the trust
+        # anchor, directly or indirectly, vouches for does.
+        for trust_chain in self._trust_chains_to(entity_id, trust_anchor, federation_entity):
+            _keyjar = import_jwks(KeyJar(), trust_chain.verified_chain[-1]['jwks'], entity_id)
+            try:
+                JWT(key_jar=_keyjar).unpack(response)
+            except Exception as err:
+                logger.error(f"Could not verify the signature: {err!r}")
+            else:
+                return True
+
+        return False
+
+    def _verify_about_me(self, payload):
+        _entity_id = self.upstream_get('attribute', 'entity_id')
+        if payload['sub'] != _entity_id:
+            raise ValueError("Registration response about someone else")
+        _aud = payload.get('aud', _entity_id)
+        if _entity_id not in ([_aud] if isinstance(_aud, str) else _aud):
+            raise ValueError("Registration response for someone else")
+        if statement_is_expired(payload):
+            raise ValueError("Registration response that is too old")
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -127,6 +152,8 @@ class Registration(registration.Registration):
             'trust_anchor_id'] not in _federation_entity.function.trust_chain_collector.trust_anchors:
             raise ValueError("Trust anchor I don't trust")
 
+        self._verify_about_me(payload)
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -138,15 +165,14 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
+            if not self._signature_verifies(resp, payload["iss"], payload['trust_anchor_id'],
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from the RP to the TA
-            _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                              entity_id=self.upstream_get('attribute', 'entity_id'),
-                                              stop_at=payload['trust_anchor_id'])
-            _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
+            _trust_chains = self._trust_chains_to(self.upstream_get('attribute', 'entity_id'),
+                                                  payload['trust_anchor_id'],
+                                                  _federation_entity)
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
@@ -155,6 +181,8 @@ class Registration(registration.Registration):
                 _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
             # If it's metadata_policy what to do ?
             _trust_chains = apply_policies(_federation_entity, _trust_chains)
+            if not _trust_chains:
+                raise ValueError("The registration doesn't follow the metadata policies")
             _resp = _trust_chains[0].metadata['openid_relying_party']
             _context = self.upstream_get('context')
             _context.registration_response = _resp
-- 
2.43.0


From 8af0d11d6fefe9c41e4411990cb72c096ec96747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 42/91] fix: a pushed authorization request is stored and gets
 a request_uri

---
 src/fedservice/appserver/oauth2/pushed_authorization.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 81796a4..f5261e9 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -5,8 +5,8 @@ from fedservice.appserver import import_client_keys
 from fedservice.entity.function import get_verified_trust_chains
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
-from idpyoidc.server.oauth2.authorization import Authorization
 from idpyoidc.server.oauth2 import authorization
+from idpyoidc.server.oauth2 import pushed_authorization
 
 from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
@@ -16,7 +16,7 @@ from fedservice.message import OauthClientMetadata
 logger = logging.getLogger(__name__)
 
 
-class PushedAuthorization(Authorization):
+class PushedAuthorization(pushed_authorization.PushedAuthorization):
     request_cls = oauth2.PushedAuthorizationRequest
     response_cls = oauth2.Message
     endpoint_name = "pushed_authorization_request_endpoint"
@@ -28,10 +28,8 @@ class PushedAuthorization(Authorization):
     endpoint_type = "oauth2"
 
     def __init__(self, upstream_get, **kwargs):
-        Authorization.__init__(self, upstream_get, **kwargs)
+        pushed_authorization.PushedAuthorization.__init__(self, upstream_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._post_parse_request)
-        self.ttl = kwargs.get("ttl", 3600)
         self.new_client_id = ""
         # When a signed JWT is used as client credentials this matches the "aud"
         # default self.allowed_targets = [self.name]
-- 
2.43.0


From 4b470b571ccd40c12f9f6f6feb9e394fde6dcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 43/91] fix: a registration request is sent as the JWT it is

---
 src/fedservice/appclient/oauth2/registration.py | 2 +-
 src/fedservice/appclient/oidc/registration.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 3f179f9..316a397 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -28,7 +28,7 @@ class Registration(registration.Registration):
     response_cls = OauthClientInformationResponse
     endpoint_name = 'federation_registration_endpoint'
     error_cls = ResponseMessage
-    request_body_type = 'jwt'
+    request_body_type = 'jose'
     response_body_type = 'jwt'
     content_type = "application/entity-statement+jwt"
     name = 'registration'
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 662d56b..226beaf 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -24,7 +24,7 @@ class Registration(registration.Registration):
     msg_type = RegistrationRequest
     response_cls = RegistrationResponse
     endpoint_name = 'federation_registration_endpoint'
-    request_body_type = 'jwt'
+    request_body_type = 'jose'
     response_body_type = 'jwt'
     content_type = "application/entity-statement+jwt"
     name = 'registration'
-- 
2.43.0


From 5e3b6d5ba3e0113970d7dba44e05fba34a6ff089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 44/91] fix: a registration response has to say when it expires

---
 src/fedservice/appclient/oauth2/registration.py | 2 +-
 src/fedservice/appclient/oidc/registration.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 316a397..eca3e32 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -150,7 +150,7 @@ class Registration(registration.Registration):
         _aud = payload.get('aud', _entity_id)
         if _entity_id not in ([_aud] if isinstance(_aud, str) else _aud):
             raise ValueError("Registration response for someone else")
-        if statement_is_expired(payload):
+        if 'exp' not in payload or statement_is_expired(payload):
             raise ValueError("Registration response that is too old")
 
     def parse_federation_registration_response(self, resp, **kwargs):
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 226beaf..0e65304 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -131,7 +131,7 @@ class Registration(registration.Registration):
         _aud = payload.get('aud', _entity_id)
         if _entity_id not in ([_aud] if isinstance(_aud, str) else _aud):
             raise ValueError("Registration response for someone else")
-        if statement_is_expired(payload):
+        if 'exp' not in payload or statement_is_expired(payload):
             raise ValueError("Registration response that is too old")
 
     def parse_federation_registration_response(self, resp, **kwargs):
-- 
2.43.0


From 5b35d5a542004a10fd8eba85069e5983df3170dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:26 +0000
Subject: [PATCH 45/91] fix: a trust anchor statement is the trust anchor's own
 and hasn't expired

---
 src/fedservice/entity/function/trust_anchor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index 483226f..3b54192 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -1,6 +1,8 @@
 from typing import Optional
 
+from cryptojwt import KeyJar
 from cryptojwt.jws.jws import factory
+from cryptojwt.jwt import utc_time_sans_frac
 
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.utils import get_federation_entity
@@ -10,8 +12,15 @@ def get_verified_trust_anchor_statement(federation_entity, entity_id: str):
     _collector = federation_entity.function.trust_chain_collector
     _ec = _collector.get_entity_configuration(entity_id)
     _jwt = factory(_ec)
-    keys = federation_entity.keyjar.get_jwt_verify_keys(_jwt.jwt)
+    # Only the trust anchor's own keys will do
+    _keyjar = KeyJar()
+    _keyjar.add_keys(entity_id, federation_entity.keyjar.get_issuer_keys(entity_id))
+    keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
     res = _jwt.verify_compact(keys=keys)
+    if res["iss"] != entity_id or res["sub"] != entity_id:
+        raise ValueError(f"Not the Entity Configuration of {entity_id}")
+    if res["exp"] < utc_time_sans_frac():
+        raise ValueError(f"The Entity Configuration of {entity_id} has expired")
     return res
 
 
-- 
2.43.0


From c5ddd557464970af60ed2d7fc61d76b19c32beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:26 +0000
Subject: [PATCH 46/91] fix: no endpoint of an entity that has no valid trust
 chain

---
 src/fedservice/entity/client/list.py           | 2 ++
 src/fedservice/entity/function/trust_anchor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fedservice/entity/client/list.py b/src/fedservice/entity/client/list.py
index f269ccd..bfca07e 100644
--- a/src/fedservice/entity/client/list.py
+++ b/src/fedservice/entity/client/list.py
@@ -45,6 +45,8 @@ class List(FederationService):
         """
         if not endpoint:
             endpoint = get_verified_endpoint(self, entity_id, self.endpoint_name)
+            if not endpoint:
+                raise AttributeError("Missing endpoint")
 
         qpart = {}
         for arg in ["entity_type", "trust_marked", "trust_mark_id", "intermediate"]:
diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index 3b54192..4d16d11 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -35,6 +35,8 @@ def get_verified_endpoint(unit, entity_id: str, endpoint_name: str) -> Optional[
             endpoint = None
     else:
         _trust_chains = get_verified_trust_chains(unit, entity_id)
+        if not _trust_chains:
+            return None
         _trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         try:
             endpoint = _trust_chain.metadata["federation_entity"].get(endpoint_name)
-- 
2.43.0


From 0826cbba1a4c411ced57d92f8ad3ce8e0b19d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 47/91] fix: a provider's metadata is about the provider itself

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0ed0da5..ff61bdc 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -71,6 +71,8 @@ class StandAloneClientEntity(ClientEntity):
             federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
+            if _pi["issuer"] != context.issuer:
+                raise ValueError(f"{context.issuer} can't provide metadata for {_pi['issuer']}")
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
-- 
2.43.0


From bcd56a5db07050c032b7d164846fbde19508f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 48/91] fix: trust chains are stored the way they are looked up

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index ff61bdc..ccc6a68 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -73,7 +73,7 @@ class StandAloneClientEntity(ClientEntity):
             _pi = trust_chain.metadata["openid_provider"]
             if _pi["issuer"] != context.issuer:
                 raise ValueError(f"{context.issuer} can't provide metadata for {_pi['issuer']}")
-            federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
+            save_trust_chains(federation_entity.context, _trust_chains)
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
-- 
2.43.0


From 05b38d437f35b6adc7a19bd8e4aa0a48d55489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 49/91] fix: an exported trust chain consists of signed
 statements

---
 src/fedservice/entity_statement/statement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index f85d79d..56d4e3d 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -84,11 +84,11 @@ class TrustChain(ImpExp):
 
     def export_chain(self):
         """
-        Exports the verified chain in such a way that it can be used as value on the
+        Exports the signed statements of the chain in such a way that it can be used as value on the
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        return self.verified_chain[::-1]
+        return self.chain[::-1]
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From c18679fcedd7080f038237f823751b020d934be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 50/91] fix: a dead end isn't a trust chain

---
 src/fedservice/entity/function/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index a2b05fd..7258852 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -89,7 +89,8 @@ def collect_trust_chains(unit,
             tree = None
 
     if tree:
-        chains = tree2chains(tree)
+        # Leave out the dead ends
+        chains = [chain for chain in tree2chains(tree) if chain]
         # A trust anchor may have superiors of its own
         for chain in chains[:]:
             for i in range(1, len(chain)):
-- 
2.43.0


From 5d44649499995330c92f06b734f8f8cff05475e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:09 +0000
Subject: [PATCH 51/91] fix: an entity's item arguments don't leak into the
 defaults

---
 src/fedservice/build_entity.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..da5e5cc 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -12,6 +12,18 @@ KEYDEFS = [
 ]
 
 
+def copy_spec(spec: dict) -> dict:
+    # The arguments of an item may be modified, those in the original must not be.
+    res = {}
+    for key, val in spec.items():
+        if isinstance(val, dict):
+            val = val.copy()
+            if isinstance(val.get("kwargs"), dict):
+                val["kwargs"] = val["kwargs"].copy()
+        res[key] = val
+    return res
+
+
 class FederationEntityBuilder():
 
     def __init__(self,
@@ -36,9 +48,9 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            kwargs['services'] = copy_spec(services)
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            kwargs['services'] = copy_spec(FEDERATION_ENTITY_SERVICES)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -66,9 +78,10 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            kwargs['endpoint'] = copy_spec(endpoints)
         else:
-            kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
+            kwargs['endpoint'] = copy_spec(
+                federation_endpoints("entity_configuration", "fetch", "list"))
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -97,9 +110,9 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            kwargs['functions'] = copy_spec(functions)
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            kwargs['functions'] = copy_spec(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
-- 
2.43.0


From ce9fefdec681e5b783548c685c5eb65b6234dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 52/91] fix: a trust anchor needs no one to tell it to trust
 itself

---
 src/fedservice/entity/function/verifier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 8ed2f59..4d84c71 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -23,13 +23,21 @@ class TrustChainVerifier(Function):
     def __init__(self, upstream_get: Callable):
         Function.__init__(self, upstream_get)
 
+    @staticmethod
+    def get_trust_anchors(federation_entity):
+        res = list(federation_entity.trust_anchors)
+        if not federation_entity.get_authority_hints():
+            # Having no superiors, it is the trust anchor of its subordinates.
+            res.append(federation_entity.entity_id)
+        return res
+
     def trusted_anchor(self, entity_statement):
         _jwt = factory(entity_statement)
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
             # Knowing the keys of an entity doesn't make that entity a trust anchor
-            if payload['iss'] not in _federation_entity.trust_anchors or \
+            if payload['iss'] not in self.get_trust_anchors(_federation_entity) or \
                     payload['iss'] not in _federation_entity.keyjar:
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
@@ -112,7 +120,7 @@ class TrustChainVerifier(Function):
         _keyjar = self.upstream_get("attribute", "keyjar")
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            _anchors = list(_federation_entity.trust_anchors)
+            _anchors = self.get_trust_anchors(_federation_entity)
         else:
             _anchors = [verified_entity_statements[0]['iss']]
         for res in verified_entity_statements:
-- 
2.43.0


From 5abfbc02554ddb672c0bf75efc360e2d6d66e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 53/91] fix: entities don't share trust anchors and trust marks

---
 src/fedservice/entity/function/trust_chain_collector.py | 3 ++-
 src/fedservice/utils.py                                 | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 1c2e8e0..80b9f36 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -83,7 +83,8 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        # Other entities may have been given the same trust anchors
+        self.trust_anchors = trust_anchors.copy()
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..d368409 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -138,6 +138,8 @@ def make_federation_entity(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:
+            trust_anchors = trust_anchors.copy()
 
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
@@ -156,6 +158,8 @@ def make_federation_entity(entity_id: str,
             fe.server.policy[id] = info
 
     if trust_marks:
+        if isinstance(trust_marks, list):
+            trust_marks = trust_marks.copy()
         fe.context.trust_marks = trust_marks
 
     if trust_mark_entity:
@@ -230,6 +234,8 @@ def make_federation_combo(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:
+            trust_anchors = trust_anchors.copy()
 
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
@@ -251,6 +257,8 @@ def make_federation_combo(entity_id: str,
         if "class" in trust_marks:
             federation_entity.context.trust_marks = execute(trust_marks)
         else:
+            if isinstance(trust_marks, list):
+                trust_marks = trust_marks.copy()
             federation_entity.context.trust_marks = trust_marks
 
     if trust_mark_issuers:
-- 
2.43.0


From 505f99c490176bb5c15d90d198b731553f5e8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 54/91] fix: authority hints and trust marks may be files or
 functions here too

---
 src/fedservice/appclient/oidc/registration.py | 2 +-
 src/fedservice/entity/context.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 0e65304..acbd99a 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -77,7 +77,7 @@ class Registration(registration.Registration):
 
         kwargs = {}
         if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+            kwargs["trust_marks"] = _context.get_trust_marks()
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..932baee 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -115,7 +115,7 @@ class FederationContext(ImpExp):
         key_jar = key_jar or self.upstream_get("attribute", "keyjar")
 
         if not authority_hints:
-            authority_hints = self.authority_hints
+            authority_hints = self.get_authority_hints()
         if not lifetime:
             lifetime = self.default_lifetime
 
-- 
2.43.0


From 922a0c056f106b4f8712913d18dad576dd34fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 55/91] fix: an empty list of services, functions or endpoints
 means none

---
 src/fedservice/entity/__init__.py | 12 +++++++-----
 src/fedservice/utils.py           |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index d479509..59ab9b3 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -83,7 +83,7 @@ class FederationEntity(Unit):
         self.trust_chain = {}
 
         self.context.provider_info = self.context.claims.get_server_metadata(
-            endpoints=self.server.endpoint.values(),
+            endpoints=self.get_all_endpoints(),
             metadata_schema=message.FederationEntity,
         )
         self.context.provider_info["issuer"] = self.context.entity_id
@@ -407,11 +407,13 @@ class FederationEntity(Unit):
 
     def supports(self):
         res = {}
-        for name, service in self.client.service.items():
-            res.update(service.supports())
+        if self.client:
+            for name, service in self.client.service.items():
+                res.update(service.supports())
 
-        for name, endp in self.server.endpoint.items():
-            res.update(endp.supports())
+        if self.server:
+            for name, endp in self.server.endpoint.items():
+                res.update(endp.supports())
 
         res.update(self.context.claims._supports)
         return res
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index d368409..9329ee3 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -88,7 +88,7 @@ def build_entity_config(entity_id: str,
                     func(args=_args, kwargs_spec=kwargs_spec, **items)
                 else:
                     func(args=_args, kwargs_spec=kwargs_spec, **federation_endpoints(*items))
-        elif services == []:
+        elif items == []:
             pass
         else:  # There is a difference between None == default and [] which means none
             func(args=_args, kwargs_spec=kwargs_spec)
-- 
2.43.0


From b83475123ee78e5cc450621cf18e102436cc874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:19 +0000
Subject: [PATCH 56/91] fix: file references in lists are loaded too

---
 src/fedservice/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 9329ee3..dda2423 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -318,8 +318,8 @@ def load_values_from_file(config):
             for v in val:
                 if isinstance(v, dict):
                     _list.append(load_values_from_file(v))
-                elif isinstance(val, str) and val.startswith("file:"):
-                    res[key] = _import(val)
+                elif isinstance(v, str) and v.startswith("file:"):
+                    _list.append(_import(v))
                 else:
                     _list.append(v)
             res[key] = _list
-- 
2.43.0


From 4da876dbc59acfb4d69424f4aa3f9c0c6ba4f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 57/91] fix: entities don't share trust anchors and trust marks
 (stores of them are kept)

---
 src/fedservice/entity/function/trust_chain_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 80b9f36..6601b6d 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -84,7 +84,7 @@ class TrustChainCollector(Function):
                  ):
         Function.__init__(self, upstream_get)
         # Other entities may have been given the same trust anchors
-        self.trust_anchors = trust_anchors.copy()
+        self.trust_anchors = trust_anchors.copy() if isinstance(trust_anchors, dict) else trust_anchors
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
-- 
2.43.0


From b22587c1f61949a7edf8dec4eafaa9cd5e6ca3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 58/91] fix: authority hints that aren't there yet, and trust
 marks kept by a class

---
 src/fedservice/entity/context.py | 7 +++++--
 src/fedservice/utils.py          | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 932baee..165695a 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -58,7 +58,10 @@ class FederationContext(ImpExp):
 
         self.trust_marks = trust_marks or config.get('trust_marks', [])
         self.trusted_roots = trusted_roots or config.get('trusted_roots', {})
-        self.authority_hints = authority_hints or config.get('authority_hints', [])
+        if authority_hints is None or authority_hints == "":
+            authority_hints = config.get('authority_hints', [])
+        # May be something that is empty now but won't be later on
+        self.authority_hints = authority_hints
 
         self.trust_chain = {}
         # self.issuer = self.entity_id
@@ -145,7 +148,7 @@ class FederationContext(ImpExp):
         elif isinstance(_hints, str):
             return json.loads(open(_hints, "r").read())
         elif isinstance(_hints, Callable):
-            return _hints()
+            return _hints() or []
         else:
             raise ValueError("authority_hints")
 
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index dda2423..68ea32e 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -160,6 +160,8 @@ def make_federation_entity(entity_id: str,
     if trust_marks:
         if isinstance(trust_marks, list):
             trust_marks = trust_marks.copy()
+        elif isinstance(trust_marks, dict) and "class" in trust_marks:
+            trust_marks = execute(trust_marks)
         fe.context.trust_marks = trust_marks
 
     if trust_mark_entity:
-- 
2.43.0


From 075b2b2eea54bbe762879df6f0bd569ad0a5d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 59/91] fix: a federation entity's policy and logo are part of
 its metadata

---
 src/fedservice/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index fd84528..cf7b063 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -109,6 +109,8 @@ class FederationEntity(Message):
         "name": SINGLE_OPTIONAL_STRING,
         "contacts": OPTIONAL_LIST_OF_STRINGS,
         "policy_url": SINGLE_OPTIONAL_STRING,
+        "policy_uri": SINGLE_OPTIONAL_STRING,
+        "logo_uri": SINGLE_OPTIONAL_STRING,
         "homepage_uri": SINGLE_OPTIONAL_STRING,
         # "federation_trust_marks": SINGLE_OPTIONAL_JSON,
         "organization_name": SINGLE_OPTIONAL_STRING,
-- 
2.43.0


From b1ff603ff6d1d90e5653e31d3a99f0d74056872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 60/91] fix: requests to endpoints that have a query part, and
 to a given status endpoint, went elsewhere

---
 src/fedservice/entity/client/list.py          |  7 ++-----
 .../entity/client/trust_mark_list.py          |  4 ++--
 .../entity/client/trust_mark_status.py        | 20 ++++++++++---------
 3 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/fedservice/entity/client/list.py b/src/fedservice/entity/client/list.py
index bfca07e..39c83d1 100644
--- a/src/fedservice/entity/client/list.py
+++ b/src/fedservice/entity/client/list.py
@@ -1,9 +1,9 @@
 from typing import Callable
 from typing import Optional
 from typing import Union
-from urllib.parse import urlencode
 
 from idpyoidc.client.configure import Configuration
+from idpyoidc.message import Message
 from idpyoidc.message.oauth2 import ResponseMessage
 
 from fedservice.entity.function.trust_anchor import get_verified_endpoint
@@ -54,7 +54,4 @@ class List(FederationService):
             if val:
                 qpart[arg] = val
 
-        if qpart:
-            return {"url": f"{endpoint}?{urlencode(qpart)}", 'method': self.http_method}
-        else:
-            return {"url": f"{endpoint}", 'method': self.http_method}
+        return {"url": Message(**qpart).request(endpoint), 'method': self.http_method}
diff --git a/src/fedservice/entity/client/trust_mark_list.py b/src/fedservice/entity/client/trust_mark_list.py
index 7317505..7f73b3e 100644
--- a/src/fedservice/entity/client/trust_mark_list.py
+++ b/src/fedservice/entity/client/trust_mark_list.py
@@ -1,11 +1,11 @@
 from typing import Callable
 from typing import Optional
 from typing import Union
-from urllib.parse import urlencode
 
 from cryptojwt.jws.jws import factory
 from idpyoidc.client.configure import Configuration
 from idpyoidc.exception import MissingAttribute
+from idpyoidc.message import Message
 from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import ResponseMessage
 
@@ -57,6 +57,6 @@ class TrustMarkList(FederationService):
             if not fetch_endpoint:
                 raise MissingAttribute('fetch_endpoint')
 
-        _url = f"{fetch_endpoint}?{urlencode(_q_args)}"
+        _url = Message(**_q_args).request(fetch_endpoint)
 
         return {"url": _url, 'method': method}
diff --git a/src/fedservice/entity/client/trust_mark_status.py b/src/fedservice/entity/client/trust_mark_status.py
index 39d6ddb..b8a36c4 100644
--- a/src/fedservice/entity/client/trust_mark_status.py
+++ b/src/fedservice/entity/client/trust_mark_status.py
@@ -1,11 +1,11 @@
 from typing import Callable
 from typing import Optional
 from typing import Union
-from urllib.parse import urlencode
 
 from cryptojwt.jws.jws import factory
 from idpyoidc.client.configure import Configuration
 from idpyoidc.exception import MissingAttribute
+from idpyoidc.message import Message
 from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import ResponseMessage
 
@@ -53,16 +53,18 @@ class TrustMarkStatus(FederationService):
 
         if "trust_mark" in request_args:
             _q_args = {'trust_mark': request_args["trust_mark"]}
-            _jws = factory(request_args["trust_mark"])
-            tm_payload = _jws.jwt.payload()
-            fetch_endpoint = tm_payload['iss']
         else:
             _q_args = {k: v for k, v in request_args.items() if k in ['sub', 'trust_mark_id', 'iat']}
-            if not fetch_endpoint:
-                fetch_endpoint = kwargs.get("endpoint")
-                if not fetch_endpoint:
-                    raise MissingAttribute('fetch_endpoint')
 
-        _url = f"{fetch_endpoint}?{urlencode(_q_args)}"
+        if not fetch_endpoint:
+            fetch_endpoint = kwargs.get("endpoint")
+        if not fetch_endpoint:
+            if "trust_mark" in request_args:
+                _jws = factory(request_args["trust_mark"])
+                fetch_endpoint = _jws.jwt.payload()['iss']
+            else:
+                raise MissingAttribute('fetch_endpoint')
+
+        _url = Message(**_q_args).request(fetch_endpoint)
 
         return {"url": _url, 'method': method}
-- 
2.43.0


From ef9e167741ce7bd92b5032ef5c24c180e946de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 61/91] fix: unsigned answers, and statements about somebody
 else than asked for, were accepted by the federation client

---
 src/fedservice/entity/client/__init__.py      |  8 +++++-
 .../entity/client/entity_configuration.py     | 11 ++++++++
 .../entity/client/entity_statement.py         | 13 +++++++++-
 src/fedservice/entity/client/resolve.py       |  6 +++++
 src/fedservice/entity/service.py              | 26 +++++++++++++++++++
 5 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 1d40d71..6b12006 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -22,11 +22,13 @@ from idpyoidc.exception import FormatError
 from idpyoidc.exception import ParseError
 from idpyoidc.key_import import import_jwks
 from idpyoidc.message import Message
+from idpyoidc.message.oauth2 import is_error_message
 from idpyoidc.node import ClientUnit
 from requests import request
 
 from fedservice.defaults import DEFAULT_FEDERATION_ENTITY_SERVICES
 from fedservice.entity import FederationContext
+from fedservice.entity.service import FederationService
 
 logger = logging.getLogger(__name__)
 
@@ -305,10 +307,14 @@ class FederationClient(FederationClientEntity):
         logger.debug("do_request info: {}".format(_info))
 
         _state = kwargs.get("state", "")
-        return self.service_request(
+        response = self.service_request(
             _srv, response_body_type=response_body_type, state=_state,
             behaviour_args=behaviour_args, **_info
         )
+        if isinstance(_srv, FederationService) and isinstance(response, Message) and \
+                not is_error_message(response):
+            _srv.verify_answer(response, request_args=request_args, **kwargs)
+        return response
 
     def set_client_id(self, client_id):
         self.get_context().set("client_id", client_id)
diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ac5053d..3dc4da8 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -39,6 +39,7 @@ class EntityConfiguration(FederationService):
     http_method = "GET"
     response_body_type = "jwt"
     response_content_type = "application/entity-statement+jwt"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
@@ -114,6 +115,9 @@ class EntityConfiguration(FederationService):
         _jws = getattr(response, "_jws", None)
         if not _jws:
             raise ValueError(f"Entity Configuration of '{response['iss']}' is not signed")
+        if response["iss"] != response["sub"]:
+            raise ValueError(f"Not an Entity Configuration: '{response['iss']}' about "
+                             f"'{response['sub']}'")
 
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
@@ -122,3 +126,10 @@ class EntityConfiguration(FederationService):
         _collector.config_cache[response["iss"]] = _config
 
         return response
+
+    def verify_answer(self, response, request_args=None, **kwargs):
+        FederationService.verify_answer(self, response, request_args, **kwargs)
+        _args = request_args or kwargs
+        _entity_id = _args.get("entity_id", _args.get("iss"))
+        if _entity_id and response["sub"] != _entity_id:
+            raise ValueError(f"Not the Entity Configuration of {_entity_id}")
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index aecef8a..2023e89 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -7,6 +7,7 @@ from urllib.parse import urlencode
 from idpyoidc.client.configure import Configuration
 from idpyoidc.message import Message
 from idpyoidc.message import oauth2
+from idpyoidc.message.oauth2 import is_error_message
 from idpyoidc.message.oauth2 import ResponseMessage
 
 from fedservice import message
@@ -40,6 +41,7 @@ class EntityStatement(FederationService):
     endpoint_name = "federation_fetch_endpoint"
     response_body_type = "jose"
     response_content_type = "application/entity-statement+jwt"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
@@ -81,7 +83,10 @@ class EntityStatement(FederationService):
             else:
                 logger.debug(f"Entity Configuration for '{issuer}' not cached")
                 _ec = _federation_entity.client.do_request("entity_configuration", entity_id=issuer)
-            fetch_endpoint = _ec["metadata"]["federation_entity"][self.endpoint_name]
+                if is_error_message(_ec):
+                    raise AttributeError("Missing endpoint")
+            fetch_endpoint = _ec.get("metadata", {}).get("federation_entity", {}).get(
+                self.endpoint_name)
             if not fetch_endpoint:
                 raise AttributeError("Missing endpoint")
 
@@ -92,3 +97,9 @@ class EntityStatement(FederationService):
                 msg['sub'] = subject
 
         return {"url": msg.request(fetch_endpoint), 'method': method}
+
+    def verify_answer(self, response, request_args=None, **kwargs):
+        FederationService.verify_answer(self, response, request_args, **kwargs)
+        for claim, param in [("iss", "issuer"), ("sub", "subject")]:
+            if kwargs.get(param) and response[claim] != kwargs[param]:
+                raise ValueError(f"Not the {param} asked for: {response[claim]}")
diff --git a/src/fedservice/entity/client/resolve.py b/src/fedservice/entity/client/resolve.py
index 165d54e..d5e3f8b 100644
--- a/src/fedservice/entity/client/resolve.py
+++ b/src/fedservice/entity/client/resolve.py
@@ -19,6 +19,7 @@ class Resolve(FederationService):
     service_name = "resolve"
     http_method = "GET"
     response_body_type = "jose"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
@@ -49,3 +50,8 @@ class Resolve(FederationService):
         _req.verify()
 
         return {"url": _req.request(endpoint), 'method': self.http_method}
+
+    def verify_answer(self, response, request_args=None, **kwargs):
+        FederationService.verify_answer(self, response, request_args, **kwargs)
+        if response.get("sub") != request_args["sub"]:
+            raise ValueError(f"Not the metadata of {request_args['sub']}")
diff --git a/src/fedservice/entity/service.py b/src/fedservice/entity/service.py
index 64339f5..2ee8b06 100644
--- a/src/fedservice/entity/service.py
+++ b/src/fedservice/entity/service.py
@@ -1,13 +1,39 @@
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jws.jws import factory
 from idpyoidc.client.service import Service
 from idpyoidc.message import Message
 
 from fedservice.entity.utils import get_federation_entity
 
 
+def is_signed(response) -> bool:
+    _jws = getattr(response, "_jws", None)
+    try:
+        return bool(_jws and factory(_jws))
+    except Exception:
+        return False
+
+
 class FederationService(Service):
+    # The answer to a request must be signed
+    signed_response = False
+
+    def verify_answer(self,
+                      response: Message,
+                      request_args: Optional[dict] = None,
+                      **kwargs):
+        """
+        Verifies that a response, which is not an error message, is an answer to the request made.
+
+        :param response: The verified response
+        :param request_args: The request arguments used in the request
+        :param kwargs: The extra keyword arguments used in the request
+        """
+        if self.signed_response and not is_signed(response):
+            raise ValueError(f"The response to the {self.service_name} request is not signed")
+
     def gather_verify_arguments(
             self,
             response: Optional[Union[dict, Message]] = None,
-- 
2.43.0


From ad0978ec508395a483e68d503c255c91298d7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 62/91] fix: trawling a federation believed anybody, went round
 in loops and stopped at the first failure; who named unverified entities

---
 src/fedservice/entity/__init__.py   | 78 ++++++++++++++++-------------
 src/fedservice/entity/server/who.py | 74 ++++++++++++++++-----------
 2 files changed, 86 insertions(+), 66 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 59ab9b3..c795fa3 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -309,50 +309,56 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
-        if subordinate in self.function.trust_chain_collector.config_cache:
-            _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        else:
-            _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
-
-            # add subjects key/-s to keyjar
-            _kj = self.get_federation_entity().keyjar
-            _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
-
-            # Fetch Entity Configuration
-            _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
+    def list_subordinates(self, superior, **criteria):
+        try:
+            _subordinates = self.client.do_request("list", entity_id=superior, **criteria)
+        except Exception as err:
+            logger.error(f"Could not list the subordinates of {superior}: {err}")
+            return []
 
-        if entity_type in _ec["metadata"]:
-            _issuers = [_ec["sub"]]
-        else:
-            _issuers = []
+        if not isinstance(_subordinates, list):  # an error message
+            return []
+        return [entity_id for entity_id in _subordinates if isinstance(entity_id, str)]
 
-        if "federation_list_endpoint" not in _ec["metadata"]["federation_entity"]:
+    def trawl(self, superior, subordinate, entity_type, visited: Optional[set] = None):
+        """
+        Finds all entities of a specific type in the part of a federation that has a specific
+        subordinate at the top.
+
+        :param superior: The superior that listed the subordinate
+        :param subordinate: Where to start
+        :param entity_type: The entity type
+        :param visited: Entities that have been dealt with
+        :return: List of entity IDs
+        """
+        if visited is None:
+            visited = set()
+        if subordinate in visited:
+            return []
+        visited.add(subordinate)
+
+        # Only what verified trust chains say about the subordinate can be trusted
+        _metadata = self.get_verified_metadata(subordinate)
+        if not _metadata:
+            logger.warning(f"No trust chain for '{subordinate}', listed by '{superior}'")
+            return []
+
+        _issuers = []
+        if entity_type in _metadata:
+            _issuers.append(subordinate)
+
+        if "federation_list_endpoint" not in _metadata.get("federation_entity", {}):
             return _issuers
 
         # One step down the tree
         # All subordinates that are of a specific entity_type
-        _added_issuers = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                entity_type=entity_type)
-        if _added_issuers is None:
-            pass
-        else:
-            _issuers.extend(_added_issuers)
-
-        # All subordinates that are intermediates
-        _intermediates = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                intermediate=True)
+        _issuers.extend(self.list_subordinates(subordinate, entity_type=entity_type))
 
-        # For all intermediates go further down the tree
-        if _intermediates:
-            for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
-                if _ids:
-                    _issuers.extend(_ids)
+        # All subordinates that are intermediates. Go further down the tree
+        for entity_id in self.list_subordinates(subordinate, intermediate=True):
+            _issuers.extend(self.trawl(subordinate, entity_id, entity_type, visited))
 
-        return _issuers
+        return list(dict.fromkeys(_issuers))
 
     def verify_trust_mark(self, trust_mark: str, check_with_issuer: Optional[bool] = True):
         _trust_mark_payload = get_payload(trust_mark)
diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index c2dc3ab..00d2ec8 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -1,4 +1,3 @@
-import json
 import logging
 from typing import Optional
 from typing import Union
@@ -22,8 +21,8 @@ class Who(Endpoint):
 
     def __init__(self, upstream_get, **kwargs):
         Endpoint.__init__(self, upstream_get, **kwargs)
-        self.entity_type = kwargs.get("entity_type", "credential_issuer")
-        if self.entity_type == "credential_issuer":
+        self.entity_type = kwargs.get("entity_type", "openid_credential_issuer")
+        if self.entity_type == "openid_credential_issuer":
             self.credential_type = kwargs.get("credential_type", "PersonIdentificationData")
             self.trust_mark_id = kwargs.get("trust_mark_id",
                                             "http://dc4eu.example.com/PersonIdentificationData/se")
@@ -31,7 +30,30 @@ class Who(Endpoint):
             self.credential_type = ""
             self.trust_mark_id = kwargs.get("trust_mark_id", "")
 
-    def process_request(self, request=None, trust_anchor: str = "" ,**kwargs):
+    def supports_credential_type(self, metadata, credential_type):
+        try:
+            return any(credential_type in _credential["credential_definition"]["type"]
+                       for _credential in
+                       metadata['openid_credential_issuer']["credentials_supported"])
+        except (KeyError, TypeError):
+            return False
+
+    def has_trust_mark(self, federation_entity, entity_id, trust_mark_id):
+        for _trust_chain in federation_entity.get_trust_chains(entity_id):
+            for _mark in _trust_chain.verified_chain[-1].get("trust_marks", []):
+                try:
+                    _trust_mark = federation_entity.verify_trust_mark(_mark,
+                                                                      check_with_issuer=True)
+                except Exception as err:
+                    logger.warning(f"Trust mark of '{entity_id}' not accepted: {err}")
+                    continue
+                # must be a trust mark for this entity
+                if _trust_mark and _trust_mark.get("sub") == entity_id and \
+                        _trust_mark.get("id") == trust_mark_id:
+                    return True
+        return False
+
+    def process_request(self, request=None, trust_anchor: str = "", **kwargs):
         if not request:
             request = {}
 
@@ -44,8 +66,7 @@ class Who(Endpoint):
         # Am I the TA or not
         if trust_anchor and trust_anchor == self.upstream_get("attribute", "entity_id"):
             # list my subordinates
-            list_resp = _federation_entity.do_request(
-                'list', entity_id=self.upstream_get("attribute", "entity_id"))
+            list_resp = list(_federation_entity.server.subordinate.keys())
         elif trust_anchor:
             # ask the TA for it's subordinates
             # Check that it's a TA I trust
@@ -57,39 +78,32 @@ class Who(Endpoint):
             raise AttributeError("Missing trust anchor specification")
 
         # print(f"Subordinates to TA: {list_resp}")
+        if not isinstance(list_resp, list):
+            return self.error_cls(error="temporarily_unavailable",
+                                  error_description="Couldn't list the subordinates of the Trust Anchor")
+
+        visited = {trust_anchor}
         for entity_id in list_resp:
             servers.extend(
-                _federation_entity.trawl(_federation_entity.entity_id, entity_id,
-                                         entity_type=_entity_type))
+                _federation_entity.trawl(trust_anchor, entity_id, entity_type=_entity_type,
+                                         visited=visited))
 
+        # Only what verified trust chains say about an entity can be trusted
         _srv = {}
+        for eid in dict.fromkeys(servers):
+            _metadata = _federation_entity.get_verified_metadata(eid)
+            if _metadata and _entity_type in _metadata:
+                _srv[eid] = _metadata
+
         credential_type = request.get("credential_type", self.credential_type)
         if credential_type:
-            for eid in set(servers):
-                _metadata = _federation_entity.get_verified_metadata(eid)
-                # logger.info(json.dumps(oci_metadata, sort_keys=True, indent=4))
-                for cs in _metadata['openid_credential_issuer']["credentials_supported"]:
-                    if credential_type in cs["credential_definition"]["type"]:
-                        _srv[eid] = _metadata
-                        break
+            _srv = {eid: _metadata for eid, _metadata in _srv.items()
+                    if self.supports_credential_type(_metadata, credential_type)}
 
         tm_id = request.get("trust_mark_id", self.trust_mark_id)
         if tm_id:
-            server_to_use = []
-            for eid, metadata in _srv.items():
-                _trust_chains = _federation_entity.get_trust_chains(eid)
-                if not _trust_chains:
-                    return "Couldn't collect Trust Chains", 400
-                else:
-                    _trust_chain = _trust_chains[0]
-
-                _ec = _trust_chain.verified_chain[-1]
-                if "trust_marks" in _ec:
-                    for _mark in _ec["trust_marks"]:
-                        _verified_trust_mark = _federation_entity.verify_trust_mark(
-                            _mark, check_with_issuer=True)
-                        if _verified_trust_mark.get("id") == tm_id:
-                            server_to_use.append(eid)
+            server_to_use = [eid for eid in _srv.keys()
+                             if self.has_trust_mark(_federation_entity, eid, tm_id)]
         else:
             server_to_use = list(_srv.keys())
 
-- 
2.43.0


From 0a5ed2e11896f708541c42434222913a191b3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 63/91] fix: an unsigned trust mark, or another one than asked
 for, was accepted by the federation client

---
 src/fedservice/entity/client/trust_mark.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fedservice/entity/client/trust_mark.py b/src/fedservice/entity/client/trust_mark.py
index b202eb7..ba12c74 100644
--- a/src/fedservice/entity/client/trust_mark.py
+++ b/src/fedservice/entity/client/trust_mark.py
@@ -26,6 +26,7 @@ class TrustMark(FederationService):
     service_name = "trust_mark"
     http_method = "GET"
     response_body_type = "application/trust_mark+jwt"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
@@ -56,6 +57,12 @@ class TrustMark(FederationService):
 
         return TrustMarkRequest(**request_args)
 
+    def verify_answer(self, response, request_args=None, **kwargs):
+        FederationService.verify_answer(self, response, request_args, **kwargs)
+        for claim, param in [("id", "trust_mark_id"), ("sub", "sub")]:
+            if response.get(claim) != request_args[param]:
+                raise ValueError(f"Not the trust mark asked for: {response.get(claim)}")
+
     def get_endpoint(self):
         federation_entity = get_federation_entity(self)
         trust_chains=federation_entity.get_trust_chains(federation_entity.client.context.issuer)
-- 
2.43.0


From a1f04e7004dc6e9c6572f4a74e9668ce00013c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 64/91] fix: a list was accepted where the federation client
 needs a signed statement

---
 src/fedservice/entity/client/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 6b12006..1cbe51c 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -311,8 +311,8 @@ class FederationClient(FederationClientEntity):
             _srv, response_body_type=response_body_type, state=_state,
             behaviour_args=behaviour_args, **_info
         )
-        if isinstance(_srv, FederationService) and isinstance(response, Message) and \
-                not is_error_message(response):
+        if isinstance(_srv, FederationService) and not (
+                isinstance(response, Message) and is_error_message(response)):
             _srv.verify_answer(response, request_args=request_args, **kwargs)
         return response
 
-- 
2.43.0


From 878b23067b2f76c50d6949bbf7c6ad1aaa61bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 65/91] fix: an entity that can't be reached ended the walk
 through a federation

---
 src/fedservice/entity/__init__.py   | 13 ++++++++++++-
 src/fedservice/entity/server/who.py |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index c795fa3..b9c2721 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -320,6 +320,17 @@ class FederationEntity(Unit):
             return []
         return [entity_id for entity_id in _subordinates if isinstance(entity_id, str)]
 
+    def find_verified_metadata(self, entity_id: str):
+        """
+        Like get_verified_metadata, but an entity whose trust chains can't be collected is just an
+        entity that can't be verified.
+        """
+        try:
+            return self.get_verified_metadata(entity_id)
+        except Exception as err:
+            logger.error(f"Could not verify '{entity_id}': {err!r}")
+            return None
+
     def trawl(self, superior, subordinate, entity_type, visited: Optional[set] = None):
         """
         Finds all entities of a specific type in the part of a federation that has a specific
@@ -338,7 +349,7 @@ class FederationEntity(Unit):
         visited.add(subordinate)
 
         # Only what verified trust chains say about the subordinate can be trusted
-        _metadata = self.get_verified_metadata(subordinate)
+        _metadata = self.find_verified_metadata(subordinate)
         if not _metadata:
             logger.warning(f"No trust chain for '{subordinate}', listed by '{superior}'")
             return []
diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index 00d2ec8..68ab6eb 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -91,7 +91,7 @@ class Who(Endpoint):
         # Only what verified trust chains say about an entity can be trusted
         _srv = {}
         for eid in dict.fromkeys(servers):
-            _metadata = _federation_entity.get_verified_metadata(eid)
+            _metadata = _federation_entity.find_verified_metadata(eid)
             if _metadata and _entity_type in _metadata:
                 _srv[eid] = _metadata
 
-- 
2.43.0


From ee0122c721855f54b0a5be19a33ea5b1795eb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:06 +0000
Subject: [PATCH 66/91] fix: a trust anchor couldn't verify the trust marks of
 its own federation

---
 src/fedservice/entity/function/trust_chain_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6601b6d..8e5811a 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -185,7 +185,8 @@ class TrustChainCollector(Function):
         signed by a configured trust anchor or be the end of a verifiable trust chain.
         """
         _federation_entity = get_federation_entity(self)
-        if entity_id in self.trust_anchors:
+        _verifier = _federation_entity.function.verifier
+        if entity_id in _verifier.get_trust_anchors(_federation_entity):
             _, _signed_config = self.get_verified_config(entity_id)
             _trust_chains = verify_trust_chains(_federation_entity, [[_signed_config]])
         else:
-- 
2.43.0


From 9018d93418cacb07453bbb5a6048921f02735966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 67/91] fix: authorization requests crashed when the server
 doesn't support request authentication

---
 src/fedservice/appclient/oauth2/authorization.py | 7 +++++--
 src/fedservice/appclient/oidc/authorization.py   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 2ee8ffb..0a424fa 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -33,6 +33,8 @@ class Authorization(authorization.Authorization):
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
@@ -54,8 +56,9 @@ class Authorization(authorization.Authorization):
 
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
-        if _ams:
-            for endpoint in _request_endpoints:
+        # When the claim is missing get_metadata_claim returns (doesn't raise) a KeyError
+        if _ams and not isinstance(_ams, KeyError):
+            for endpoint in _request_endpoints or []:
                 if endpoint in _ams:
                     _func = getattr(self, f'_use_{endpoint}')
                     post_args = _func(_context, post_args, _ams, _entity_type)
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index e816048..1a71732 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -32,6 +32,8 @@ class Authorization(authorization.Authorization):
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
@@ -45,8 +47,9 @@ class Authorization(authorization.Authorization):
                                            ['openid_provider', 'oauth_authorization_server'])
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
-        if _auth_meth_supported:
-            for endpoint in _request_endpoints:
+        # When the claim is missing get_metadata_claim returns (doesn't raise) a KeyError
+        if _auth_meth_supported and not isinstance(_auth_meth_supported, KeyError):
+            for endpoint in _request_endpoints or []:
                 if endpoint in _auth_meth_supported:
                     _func = getattr(self, f'_use_{endpoint}')
                     post_args = _func(_context, post_args, _auth_meth_supported)
-- 
2.43.0


From 8c8ea75528f2d8ceb886c29fe8b44179e1760a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 68/91] fix: an unregistered client sent unauthenticated
 authorization requests

---
 src/fedservice/appclient/oauth2/authorization.py | 14 ++++++++++----
 src/fedservice/appclient/oidc/authorization.py   | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 0a424fa..efca556 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -35,6 +35,13 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
+    @staticmethod
+    def _must_be_registered(context):
+        # am I already registered ?
+        if not context.registration_response:  # Not registered
+            raise OtherError("Can not send an authorization request without being registered"
+                             " and automatic registration not supported")
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
@@ -63,11 +70,10 @@ class Authorization(authorization.Authorization):
                     _func = getattr(self, f'_use_{endpoint}')
                     post_args = _func(_context, post_args, _ams, _entity_type)
                     break
+            else:  # none that I can use
+                self._must_be_registered(_context)
         else:  # The OP does not support any authn methods
-            # am I already registered ?
-            if not _context.registration_response:  # Not registered
-                raise OtherError("Can not send an authorization request without being registered"
-                                 " and automatic registration not supported")
+            self._must_be_registered(_context)
 
         client_id = request_args.get('client_id')
         if not client_id:
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index 1a71732..70e3458 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -34,6 +34,13 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
+    @staticmethod
+    def _must_be_registered(context):
+        # am I already registered ?
+        if not context.registration_response:  # Not registered
+            raise OtherError("Can not send an authorization request without being registered"
+                             " and automatic registration not supported")
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
@@ -54,11 +61,10 @@ class Authorization(authorization.Authorization):
                     _func = getattr(self, f'_use_{endpoint}')
                     post_args = _func(_context, post_args, _auth_meth_supported)
                     break
+            else:  # none that I can use
+                self._must_be_registered(_context)
         else:  # The OP does not support any authn methods
-            # am I already registered ?
-            if not _context.registration_response:  # Not registered
-                raise OtherError("Can not send an authorization request without being registered"
-                                 " and automatic registration not supported")
+            self._must_be_registered(_context)
 
         client_id = request_args.get('client_id')
         if not client_id:
-- 
2.43.0


From 1858717f49e14ce2a66b196bc99896652258b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 69/91] fix: the verified metadata of the provider wasn't used
 when making authorization requests

---
 src/fedservice/appclient/stand_alone_client_entity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index ccc6a68..ea85364 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -74,6 +74,7 @@ class StandAloneClientEntity(ClientEntity):
             if _pi["issuer"] != context.issuer:
                 raise ValueError(f"{context.issuer} can't provide metadata for {_pi['issuer']}")
             save_trust_chains(federation_entity.context, _trust_chains)
+            context.server_metadata = trust_chain.metadata
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
-- 
2.43.0


From 04eb0237be80923e40e3703048370ec59c18f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 70/91] fix: a client with a registration service of its own
 was never registered

---
 src/fedservice/appclient/stand_alone_client_entity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index ea85364..68ab717 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -181,7 +181,8 @@ class StandAloneClientEntity(ClientEntity):
             if 'automatic' in _possible:
                 return
 
-        if _federation_entity.get_service("registration"):  # means I can do dynamic client registration
+        # means I can do dynamic client registration
+        if self.get_service("registration") or _federation_entity.get_service("registration"):
             if request_args is None:
                 request_args = {}
 
@@ -190,9 +191,10 @@ class StandAloneClientEntity(ClientEntity):
                 request_args.update({k: v for k, v in behaviour_args.items() if k in _params})
 
             # root = topmost_unit(_federation_entity)
-            _endpoint_name = _federation_entity.client.get_service("registration").endpoint_name
+            _registrar = self if self.get_service("registration") else _federation_entity
+            _endpoint_name = _registrar.get_service("registration").endpoint_name
             endpoint = _context.provider_info[_endpoint_name]
-            load_registration_response(_federation_entity, request_args=request_args,
+            load_registration_response(_registrar, request_args=request_args,
                                        behaviour_args={"client": self},
                                        endpoint=endpoint)
         else:
-- 
2.43.0


From 550e3647d0ec1a547ca8c0e4e08d926214e12fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 71/91] fix: response type was lost, and claims requests
 crashed, when logging in

---
 .../appclient/stand_alone_client_entity.py           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 68ab717..900611c 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -7,7 +7,6 @@ from typing import Optional
 from cryptojwt.exception import Unsupported
 from cryptojwt.jwt import utc_time_sans_frac
 from cryptojwt.key_bundle import keybundle_from_local_file
-from idpyoidc.claims import Claims
 from idpyoidc.client.defaults import DEFAULT_RESPONSE_MODE
 from idpyoidc.client.exception import ConfigurationError
 from idpyoidc.client.exception import OidcServiceError
@@ -20,6 +19,7 @@ from idpyoidc.message.oauth2 import AuthorizationRequest
 from idpyoidc.message.oauth2 import AuthorizationResponse
 from idpyoidc.message.oauth2 import is_error_message
 from idpyoidc.message.oauth2 import ResponseMessage
+from idpyoidc.message.oidc import Claims
 from idpyoidc.message.oidc import OpenIDSchema
 from idpyoidc.transform import create_registration_request
 from idpyoidc.util import rndstr
@@ -206,11 +206,11 @@ class StandAloneClientEntity(ClientEntity):
             _response_type = req_args.get("response_type")
             if _response_type:
                 return _response_type
+
+        if default_response_type in context.claims.get_usage("response_types"):
+            return default_response_type
         else:
-            if default_response_type in context.claims.get_usage("response_types"):
-                return default_response_type
-            else:
-                return context.claims.get_usage("response_types")[0]
+            return context.claims.get_usage("response_types")[0]
 
     def _get_response_mode(self, context, response_type, request_args):
         if request_args:
@@ -272,7 +272,7 @@ class StandAloneClientEntity(ClientEntity):
             raise Unsupported(
                 "Could not pick a redirect_uri based on the given response_type and response_mode"
             )
-        except [MissingRequiredAttribute, ValueError]:
+        except (MissingRequiredAttribute, ValueError):
             raise
 
         request_args = {
-- 
2.43.0


From 71a9fc73d11b48af9ce28ac6b8a15b80091658d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 72/91] fix: error responses without state and tokens without a
 subject ended in a KeyError

---
 src/fedservice/appclient/stand_alone_client_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 900611c..8c197f8 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -605,7 +605,7 @@ class StandAloneClientEntity(ClientEntity):
         authorization_response = self.finalize_auth(response)
         if is_error_message(authorization_response):
             return {
-                "state": authorization_response["state"],
+                "state": authorization_response.get("state", ""),
                 "error": authorization_response["error"],
             }
 
@@ -651,7 +651,7 @@ class StandAloneClientEntity(ClientEntity):
 
         if _id_token:
             _context.cstate.bind_key(_id_token["sub"], _state)
-        else:
+        elif "sub" in inforesp:
             _context.cstate.bind_key(inforesp["sub"], _state)
 
         return {
-- 
2.43.0


From 624fab5c211f8c56010cf77c28a39d425b7555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:28 +0000
Subject: [PATCH 73/91] fix: a client that had been given a client ID when
 registering went on using its entity ID

---
 src/fedservice/appclient/__init__.py             | 3 ++-
 src/fedservice/appclient/oauth2/authorization.py | 4 ++--
 src/fedservice/appclient/oidc/authorization.py   | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..7be1a60 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -140,7 +140,8 @@ class ClientEntity(ClientUnit):
         return self
 
     def get_client_id(self):
-        return self.entity_id
+        # The server may have given me one when I registered
+        return self.context.claims.get_usage("client_id") or self.entity_id
 
     def get_metadata(self, entity_type="", *args):
         if not entity_type:
diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index efca556..cd8160b 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -21,7 +21,7 @@ class Authorization(authorization.Authorization):
             post_args['recv'] = context.get_metadata_claim("authorization_endpoint", [entity_type])
             post_args["with_jti"] = True
             post_args["lifetime"] = self.conf.get("request_object_expires_in", 300)
-            post_args['issuer'] = self.upstream_get('attribute', 'entity_id')
+            post_args['issuer'] = self.upstream_get('unit').get_client_id()
         else:
             raise OtherError("Using request object in authentication not supported by OP")
 
@@ -77,7 +77,7 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            request_args['client_id'] = self.upstream_get('unit').get_client_id()
 
         return request_args, post_args
 
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index 70e3458..dbf77aa 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -20,7 +20,7 @@ class Authorization(authorization.Authorization):
                                                            ['openid_provider', 'oauth_authorization_server'])
             post_args["with_jti"] = True
             post_args["lifetime"] = self.conf.get("request_object_expires_in", 300)
-            post_args['issuer'] = self.upstream_get('attribute', 'entity_id')
+            post_args['issuer'] = self.upstream_get('unit').get_client_id()
         else:
             raise OtherError("Using request object in authentication not supported by OP")
 
@@ -68,6 +68,6 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            request_args['client_id'] = self.upstream_get('unit').get_client_id()
 
         return request_args, post_args
-- 
2.43.0


From 54ee043a12a423015c1fc2b84a6a01cd07b33e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:28 +0000
Subject: [PATCH 74/91] fix: OAuth2 clients couldn't make a URL out of a signed
 authorization request

---
 src/fedservice/appclient/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index cd8160b..289d4a4 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -89,6 +89,6 @@ class Authorization(authorization.Authorization):
             _args = {k: request_args[k] for k in self.msg_type().required_parameters() if k in request_args}
             _req = construct_request_parameter(service, request_args, **kwargs)
             _args["request"] = _req
-            return _args
+            return self.msg_type(**_args)
         else:
             return request_args
-- 
2.43.0


From 52ba2a832869fdc65ba0d0151d32fb8841fed256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:31 +0000
Subject: [PATCH 75/91] fix: a statement with critical policy operators may
 also set values

The values of the known operators were deserialized, which fails for value and
default, when checking whether the unknown operators in a metadata policy are
critical.
---
 src/fedservice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index cf7b063..b3b7efe 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -370,7 +370,8 @@ class MetadataPolicy(Message):
     def verify(self, **kwargs):
         for typ, _policy in self.items():
             for attr, item in _policy.items():
-                _p = Policy(**item)
+                # The operators' values may be of any type
+                _p = Policy(**{op: val for op, val in item.items() if op not in Policy.c_param})
                 _p.verify(**kwargs)
 
 
-- 
2.43.0


From 980578569dd0badc4b4d25e010f398fd2db2da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:31 +0000
Subject: [PATCH 76/91] fix: refuse trust chains with critical extensions that
 aren't understood

The claims and policy operators that the issuer of a statement said were
critical were never looked at when a trust chain was verified.
---
 src/fedservice/entity/function/verifier.py | 33 +++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 4d84c71..bdfcc3f 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -2,6 +2,7 @@ import logging
 from copy import deepcopy
 from typing import Callable
 from typing import List
+from typing import Optional
 
 from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
@@ -13,15 +14,23 @@ from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
+from fedservice.exception import UnknownCriticalExtension
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.message import EntityStatement
+from fedservice.message import Policy
 
 logger = logging.getLogger(__name__)
 
 
 class TrustChainVerifier(Function):
 
-    def __init__(self, upstream_get: Callable):
+    def __init__(self,
+                 upstream_get: Callable,
+                 known_extensions: Optional[List[str]] = None,
+                 known_policy_extensions: Optional[List[str]] = None):
         Function.__init__(self, upstream_get)
+        self.known_extensions = known_extensions or []
+        self.known_policy_extensions = known_policy_extensions or []
 
     @staticmethod
     def get_trust_anchors(federation_entity):
@@ -53,6 +62,26 @@ class TrustChainVerifier(Function):
 
         return True
 
+    def verify_critical(self, entity_statement):
+        """
+        Verifies that all extensions the issuer of a statement regards as critical are understood.
+
+        :param entity_statement: A verified entity statement
+        """
+        _critical = set(entity_statement.get('crit') or [])
+        _unknown = _critical.intersection(entity_statement).difference(
+            EntityStatement.c_param, self.known_extensions)
+
+        _critical = set(entity_statement.get('policy_language_crit') or [])
+        if _critical:
+            for _policy in (entity_statement.get('metadata_policy') or {}).values():
+                for _operators in _policy.values():
+                    _unknown.update(_critical.intersection(_operators).difference(
+                        Policy.c_param, self.known_policy_extensions))
+
+        if _unknown:
+            raise UnknownCriticalExtension(_unknown)
+
     def verify_trust_chain(self, entity_statement_list):
         """
         Verifies the trust chain. Works its way down from the Trust Anchor to the leaf.
@@ -94,6 +123,8 @@ class TrustChainVerifier(Function):
                 if res['exp'] < utc_time_sans_frac():
                     raise ValueError(f"Expired entity statement: {res['iss']} on {res['sub']}")
 
+                self.verify_critical(res)
+
                 try:
                     _jwks = res['jwks']
                 except KeyError:
-- 
2.43.0


From 9cf6567f7c3aa688b3ff19f21b4e6ccd76a6d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:51 +0000
Subject: [PATCH 77/91] fix: use the arguments given for services and functions

Arguments for single services and functions were ignored, as was everything
but the names when functions were given as a dictionary.
---
 src/fedservice/build_entity.py | 10 ++++++++++
 src/fedservice/utils.py        |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index da5e5cc..0112031 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -65,6 +65,11 @@ class FederationEntityBuilder():
                 if key in kwargs["services"]:
                     kwargs["services"][key]["kwargs"].update(val)
 
+        if args:
+            for item_type, _kwargs in args.items():
+                if item_type in kwargs["services"]:
+                    kwargs["services"][item_type]["kwargs"].update(_kwargs)
+
         self.conf['client'] = {
             'class': 'fedservice.entity.client.FederationClient',
             'kwargs': kwargs
@@ -127,6 +132,11 @@ class FederationEntityBuilder():
                 if key in kwargs["functions"]:
                     kwargs["functions"][key]["kwargs"].update(val)
 
+        if args:
+            for item_type, _kwargs in args.items():
+                if item_type in kwargs["functions"]:
+                    kwargs["functions"][item_type]["kwargs"].update(_kwargs)
+
         self.conf['function'] = {
             'class': 'idpyoidc.node.Collection',
             'kwargs': kwargs
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 68ea32e..841505a 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -81,7 +81,10 @@ def build_entity_config(entity_id: str,
                 else:
                     func(args=_args, kwargs_spec=kwargs_spec, **federation_services(*items))
             elif name == "function":
-                func(args=_args, kwargs_spec=kwargs_spec, **federation_functions(*items))
+                if isinstance(items, dict):
+                    func(args=_args, kwargs_spec=kwargs_spec, **items)
+                else:
+                    func(args=_args, kwargs_spec=kwargs_spec, **federation_functions(*items))
             elif name == "endpoint":
                 if isinstance(items, dict):
                     # _filtered_spec = {k: v for k, v in items.items() if k in FEDERATION_ENDPOINTS}
-- 
2.43.0


From af4a24b09db3bf2ad8c06c50f9d1f3bf01b57295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:17 +0000
Subject: [PATCH 78/91] fix: keys and identifiers in statements from files
 about quoted entity IDs

The keys of a subject that was given as a quoted entity ID were not included in
the statement, and a subject whose host starts with https wasn't made into an
entity ID.
---
 src/fedservice/fetch_entity_statement/__init__.py | 14 ++++++++------
 src/fedservice/fetch_entity_statement/fs2.py      |  7 +------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/fedservice/fetch_entity_statement/__init__.py b/src/fedservice/fetch_entity_statement/__init__.py
index 21e3ef2..9186d70 100644
--- a/src/fedservice/fetch_entity_statement/__init__.py
+++ b/src/fedservice/fetch_entity_statement/__init__.py
@@ -25,13 +25,15 @@ class FetchEntityStatement:
     def make_entity_id(self, netloc):
         return self.entity_id_pattern.format(netloc)
 
+    def make_subject_id(self, sub):
+        if sub.startswith(("https%3A%2F%2F", "https://")):  # A, probably quoted, entity ID
+            return unquote_plus(sub)
+        return self.make_entity_id(sub)
+
     def create_entity_statement(self, sub, **kwargs):
         _info = self.gather_info(sub)
         _info.update(kwargs)
-        _info['jwks'] = self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub))
-        if sub.startswith("https"):
-            return create_entity_statement(self.make_entity_id(self.iss), unquote_plus(sub),
-                                           self.keyjar, **_info)
-
-        return create_entity_statement(self.make_entity_id(self.iss), self.make_entity_id(sub),
+        _sub_id = self.make_subject_id(sub)
+        _info['jwks'] = self.keyjar.export_jwks(issuer_id=_sub_id)
+        return create_entity_statement(self.make_entity_id(self.iss), _sub_id,
                                        self.keyjar, **_info)
diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index a59c346..e7f60e6 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -2,7 +2,6 @@ import json
 import logging
 import os
 from urllib.parse import parse_qs
-from urllib.parse import unquote_plus
 from urllib.parse import urlparse
 
 from idpyoidc.key_import import import_jwks_from_file
@@ -42,11 +41,7 @@ class FSFetchEntityStatement(FetchEntityStatement):
         if iss_id not in self.keyjar:
             self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))
 
-        if sub.startswith("https%3A%2F%2F"):
-            sub_id = unquote_plus(sub)
-        else:
-            sub_id = self.make_entity_id(sub)
-
+        sub_id = self.make_subject_id(sub)
         logger.debug('Subject ID: %s', sub_id)
         if sub_id not in self.keyjar:
             self.load_jwks(self.iss, sub, sub_id)
-- 
2.43.0


From 828f9044ad8d9b20d2704cb8b6024578d6054241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:17 +0000
Subject: [PATCH 79/91] fix: FSPublisher mixed up subject and issuer

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index e7f60e6..b1c0779 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -96,6 +96,6 @@ class FSPublisher():
         else:
             _qs = parse_qs(p.query)
             pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(p.netloc, pt.netloc)
+            _jws = self._create_entity_statement(pt.netloc, p.netloc)
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From d53ee56469b33bda941bbc28a669da0bab541fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:17 +0000
Subject: [PATCH 80/91] fix: load an issuer's keys as the issuer's

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index b1c0779..ee7c1b0 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -39,7 +39,7 @@ class FSFetchEntityStatement(FetchEntityStatement):
         iss_id = self.make_entity_id(self.iss)
         logger.debug('Statement Issuer ID: %s', iss_id)
         if iss_id not in self.keyjar:
-            self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))
+            self.load_jwks(self.iss, self.iss, iss_id)
 
         sub_id = self.make_subject_id(sub)
         logger.debug('Subject ID: %s', sub_id)
-- 
2.43.0


From ae044a4fe392008a377b4ccaf53ef8fcebcbda83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:39 +0000
Subject: [PATCH 81/91] fix: an invalid trust chain in an authorization request
 doesn't unregister the client

---
 src/fedservice/appserver/oidc/authorization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index fd34455..614e140 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -95,11 +95,16 @@ class Authorization(authorization.Authorization):
         client_info = _context.cdb.get(_cid)
         if client_info is None or "automatic_registered" in client_info:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported', []):
-                if client_info and "automatic_registered" in client_info:  # Remove the old one
-                    del _context.cdb[_cid]
                 # try the federation way
                 _trust_chain = request.get('trust_chain', [])
-                registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                try:
+                    registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                except NoTrustedChains:
+                    # Anyone can provide an invalid trust chain, that doesn't say anything
+                    # about the client. That I can't find a valid one does.
+                    if client_info and not _trust_chain:  # Remove the old one
+                        del _context.cdb[_cid]
+                    raise
                 if registered_client_id is None:
                     return {
                         'error': 'unauthorized_client',
-- 
2.43.0


From 71499cad1a5a7d9d5cbbc5be5788a73381b4b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:56 +0000
Subject: [PATCH 82/91] fix: an automatically registered client with a new
 client_id needn't authenticate under its old one

---
 src/fedservice/appserver/oauth2/authorization.py | 3 ++-
 src/fedservice/appserver/oidc/authorization.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index e2b0d6b..fc5a4b7 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -99,7 +99,8 @@ class Authorization(authorization.Authorization):
                     logger.debug('Automatic registration done')
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 614e140..8d3d239 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -115,7 +115,8 @@ class Authorization(authorization.Authorization):
                     _context.cdb[registered_client_id]["automatic_registered"] = True
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
-- 
2.43.0


From 2b14508cffc429d44bb1be67ac37035978554d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:54 +0000
Subject: [PATCH 83/91] fix: an authorization request is refused if the client
 can't be registered anew

---
 src/fedservice/appserver/oidc/authorization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 8d3d239..a21a210 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -5,6 +5,7 @@ from typing import Optional
 from idpyoidc.message import oidc
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.node import topmost_unit
+from idpyoidc.server.exception import UnAuthorizedClient
 from idpyoidc.server.oidc import authorization
 
 from fedservice.entity.function import get_verified_trust_chains
@@ -106,6 +107,10 @@ class Authorization(authorization.Authorization):
                         del _context.cdb[_cid]
                     raise
                 if registered_client_id is None:
+                    if client_info:  # What is registered isn't what the trust chain says
+                        if not _trust_chain:
+                            del _context.cdb[_cid]
+                        raise UnAuthorizedClient("Registration refused")
                     return {
                         'error': 'unauthorized_client',
                         'error_description': 'Unknown client'
-- 
2.43.0


From 93df13e23c8cbc5f397bb7acd03e513e706b2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:16 +0000
Subject: [PATCH 84/91] fix: a refused OAuth2 registration doesn't leave the
 client's keys behind

---
 src/fedservice/appserver/oauth2/authorization.py   | 14 ++++++++++----
 .../appserver/oauth2/pushed_authorization.py       | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index fc5a4b7..26533e5 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -63,9 +63,6 @@ class Authorization(authorization.Authorization):
         _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
-        # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
-        import_client_keys(trust_chain.metadata['oauth_client'], self.upstream_get('attribute', 'keyjar'), entity_id)
-
         req = OauthClientMetadata(**trust_chain.metadata['oauth_client'])
         req['client_id'] = entity_id
         kwargs = {}
@@ -76,10 +73,19 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            _client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        if _client_id != entity_id:
+            # The client signs in its own name.
+            _keyjar = self.upstream_get('attribute', 'keyjar')
+            if entity_id in _keyjar:
+                del _keyjar[entity_id]
+            # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
+            import_client_keys(trust_chain.metadata['oauth_client'], _keyjar, entity_id)
+        return _client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index f5261e9..cbd00c8 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -54,9 +54,6 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
 
         _metadata = trust_chain.metadata['oauth_client']
 
-        # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import the keys
-        import_client_keys(_metadata, self.upstream_get('attribute', 'keyjar'), entity_id)
-
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
         kwargs = {}
@@ -68,10 +65,19 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            _client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        if _client_id != entity_id:
+            # The client signs in its own name.
+            _keyjar = self.upstream_get('attribute', 'keyjar')
+            if entity_id in _keyjar:
+                del _keyjar[entity_id]
+            # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
+            import_client_keys(_metadata, _keyjar, entity_id)
+        return _client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
-- 
2.43.0


From 08cafa2fec0f84c450497ffd13e707f8c28d1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:34 +0000
Subject: [PATCH 85/91] fix: trust marks given to make_federation_combo as a
 function or a file

The presence of a class was looked for in whatever was given, which is a TypeError for a function
and a misunderstanding for a file whose path happens to contain 'class'.
---
 src/fedservice/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 841505a..c5b6d02 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -259,12 +259,11 @@ def make_federation_combo(entity_id: str,
             federation_entity.server.policy[id] = info
 
     if trust_marks:
-        if "class" in trust_marks:
-            federation_entity.context.trust_marks = execute(trust_marks)
-        else:
-            if isinstance(trust_marks, list):
-                trust_marks = trust_marks.copy()
-            federation_entity.context.trust_marks = trust_marks
+        if isinstance(trust_marks, list):
+            trust_marks = trust_marks.copy()
+        elif isinstance(trust_marks, dict) and "class" in trust_marks:
+            trust_marks = execute(trust_marks)
+        federation_entity.context.trust_marks = trust_marks
 
     if trust_mark_issuers:
         if "class" in trust_mark_issuers:
-- 
2.43.0


From 6a52a9ec492826dbf5b25ed87042ff71c75cd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:27 +0000
Subject: [PATCH 86/91] fix: one odd item in a trust anchor's list doesn't stop
 the who endpoint

As when intermediates list their subordinates, what isn't an entity ID is left out.
---
 src/fedservice/entity/server/who.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index 68ab6eb..82c24c5 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -84,6 +84,8 @@ class Who(Endpoint):
 
         visited = {trust_anchor}
         for entity_id in list_resp:
+            if not isinstance(entity_id, str):
+                continue
             servers.extend(
                 _federation_entity.trawl(trust_anchor, entity_id, entity_type=_entity_type,
                                          visited=visited))
-- 
2.43.0


From 255ffb8be5333dd459bc04b8f547b437f615384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:36 +0000
Subject: [PATCH 87/91] fix: building a combo doesn't change the configuration
 of its guises

The HTTP parameters were written into the caller's configuration, and stuck to
every combo built from it later.
---
 src/fedservice/combo/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/combo/__init__.py b/src/fedservice/combo/__init__.py
index 678bb0e..1fbde3f 100644
--- a/src/fedservice/combo/__init__.py
+++ b/src/fedservice/combo/__init__.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from typing import Any
 from typing import Optional
 from typing import Union
@@ -36,7 +37,7 @@ class Combo(Unit):
         for key, spec in config.items():
             if isinstance(spec, dict) and 'class' in spec:
                 if httpc_params:
-                    self._add_httpc_params(spec, httpc_params)
+                    spec = self._add_httpc_params(spec, httpc_params)
                 logger.info(f"Initiating entity type: '{key}' with config: {spec}")
                 self._part[key] = execute(spec, upstream_get=self.unit_get,
                                           entity_id=self.entity_id, httpc=httpc,
@@ -46,13 +47,18 @@ class Combo(Unit):
         return config.get("httpc_params")
 
     def _add_httpc_params(self, spec, httpc_params):
-        spec_kwargs = spec.get("kwargs", {})
+        if "kwargs" not in spec:
+            return spec
+        # The specification belongs to whoever provided it, so the addition is made to a copy.
+        spec_kwargs = dict(spec["kwargs"])
         if "config" in spec_kwargs:
             if httpc_params and "httpc_params" not in spec_kwargs["config"]:
+                spec_kwargs["config"] = copy(spec_kwargs["config"])
                 spec_kwargs["config"]["httpc_params"] = httpc_params
         else:
             if "httpc_params" not in spec_kwargs:
                 spec_kwargs["httpc_params"] = httpc_params
+        return {**spec, "kwargs": spec_kwargs}
 
     def __getitem__(self, item):
         if item in self._part:
-- 
2.43.0


From 351570a280e0e7a670d3a224dcc09d4d8e7f65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:16 +0000
Subject: [PATCH 88/91] fix: a server entity doesn't write its identifier into
 the caller's configuration

---
 src/fedservice/appserver/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index fc23524..1eae1cb 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -131,8 +131,7 @@ class ServerEntity(ServerUnit):
                             config=config)
 
         if not isinstance(config, Base):
-            config['issuer'] = entity_id
-            config['base_url'] = entity_id
+            config = {**config, 'issuer': entity_id, 'base_url': entity_id}
             if self.server_type == "oauth2":
                 config = ASConfiguration(config)
             else:
-- 
2.43.0


From a88ec9a0eb5246b63ef41a8f4dffad7de284b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:38 +0000
Subject: [PATCH 89/91] fix: a client entity doesn't change the configuration
 it is given

---
 src/fedservice/appclient/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index 7be1a60..0aebd9f 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -1,5 +1,6 @@
 import logging
 import re
+from copy import copy
 from json import JSONDecodeError
 from typing import Callable
 from typing import Optional
@@ -58,6 +59,8 @@ class ClientEntity(ClientUnit):
     ):
         if config is None:
             config = {}
+        else:  # The configuration belongs to whoever provided it, so work on a copy
+            config = copy(config)
 
         self.client_type = config.get('client_type', client_type)
         self.entity_type = config.get("entity_type", entity_type)
-- 
2.43.0


From 33d848919b4672b7aa3cc83d4217a97ca2897b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:50 +0000
Subject: [PATCH 90/91] fix: explicit registration of an OAuth2 client that has
 other roles as well

The client's role was picked at random among its entity types
---
 src/fedservice/appserver/oidc/registration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 38b46da..d89765c 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -45,6 +45,8 @@ class Registration(registration.Registration):
         _entity_types = set(payload['metadata'].keys())
         if 'openid_relying_party' in _entity_types:
             opponent_entity_type = 'openid_relying_party'
+        elif 'oauth_client' in _entity_types:
+            opponent_entity_type = 'oauth_client'
         elif len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
         else:
-- 
2.43.0


From c61e4c5c115631f98fa7794d8aa1f5915b91e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:48 +0000
Subject: [PATCH 91/91] fix: a registration response doesn't state what wasn't
 registered

Claims that the server has no support for are left out of a registration,
the response stated them as registered all the same.
---
 src/fedservice/appserver/__init__.py          | 22 +++++++++++++++++++
 .../appserver/oauth2/registration.py          |  4 ++--
 src/fedservice/appserver/oidc/registration.py |  4 ++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 1eae1cb..d3c2843 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -92,6 +92,28 @@ def register_client(endpoint: Endpoint, method: Callable, req: Message, **kwargs
     return response_info
 
 
+def registered_metadata(endpoint: Endpoint, req: Message, response_args: Message) -> dict:
+    """
+    The metadata that a client is told it's registered with. What the server didn't accept, because
+    it has no support for it, isn't part of that.
+
+    :param endpoint: The registration endpoint
+    :param req: Registration request
+    :param response_args: What the registration resulted in
+    :return: dictionary
+    """
+    _context = endpoint.upstream_get("context")
+    _registered = _context.cdb[response_args["client_id"]]
+    _metadata = {}
+    for key, val in req.to_dict().items():
+        if key not in _context.claims.register2preferred:
+            _metadata[key] = val
+        elif key in _registered:
+            _metadata[key] = _registered[key]
+    _metadata.update(response_args)
+    return _metadata
+
+
 class ServerEntity(ServerUnit):
     name = 'openid_provider'
     parameter = {"endpoint": [Endpoint], "context": EndpointContext}
diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 4afee6b..549ce10 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -22,6 +22,7 @@ from idpyoidc.util import split_uri
 
 from fedservice.appserver import import_client_keys
 from fedservice.appserver import register_client
+from fedservice.appserver import registered_metadata
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
@@ -86,8 +87,7 @@ class Registration(Endpoint):
         response_info = self.step2_process_request(req, **kwargs)
         if "response_args" in response_info:
             _context = _federation_entity.context
-            _policy_metadata = req.to_dict()
-            _policy_metadata.update(response_info['response_args'])
+            _policy_metadata = registered_metadata(self, req, response_info['response_args'])
             # Should I filter out stuff I have no reason to change ?
             _policy_metadata = {k: v for k, v in _policy_metadata.items() if k not in [
                 'application_type',
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index d89765c..9f416c9 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -6,6 +6,7 @@ from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
 from fedservice.appserver import register_client
+from fedservice.appserver import registered_metadata
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function import verify_trust_chains
@@ -83,8 +84,7 @@ class Registration(registration.Registration):
                 except KeyError:
                     pass
 
-            _policy_metadata = req.to_dict()
-            _policy_metadata.update(response_info['response_args'])
+            _policy_metadata = registered_metadata(self, req, response_info['response_args'])
             # Should I filter out stuff I have no reason to change ?
             _policy_metadata = {k: v for k, v in _policy_metadata.items() if k not in [
                 'application_type',
-- 
2.43.0

