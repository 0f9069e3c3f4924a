"""Stand-in for the third-party module ``idpyoidc.key_import``.

The version of idpyoidc installed in the sandbox (5.0.0) does not ship that
module, so 41 modules of the code under test cannot be imported at all without
it.  This stand-in provides the functions the code under test uses, as thin
wrappers over cryptojwt's KeyJar, with the semantics upstream gives them: keys
are added to those already held for the owner, and the key jar is returned.
"""
import importlib.util
import json
import sys
import types


def import_jwks(keyjar, jwks, issuer_id=""):
    if jwks:
        keyjar.import_jwks(jwks, issuer_id)
    return keyjar


def import_jwks_as_json(keyjar, jwks, issuer_id=""):
    return import_jwks(keyjar, json.loads(jwks), issuer_id)


def import_jwks_from_file(keyjar, filename, issuer_id=""):
    with open(filename) as fp:
        return import_jwks_as_json(keyjar, fp.read(), issuer_id)


def add_kb(keyjar, issuer_id, kb):
    keyjar.add_kb(issuer_id, kb)
    return keyjar


def store_under_other_id(keyjar, fro="", to="", private=False):
    keyjar.import_jwks(keyjar.export_jwks(private, fro), to)
    return keyjar


def install():
    """Make it importable, unless the real one exists."""
    if "idpyoidc.key_import" in sys.modules:
        return
    try:
        if importlib.util.find_spec("idpyoidc.key_import") is not None:
            return
    except ModuleNotFoundError:
        return
    mod = types.ModuleType("idpyoidc.key_import")
    for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb,
              store_under_other_id):
        setattr(mod, f.__name__, f)
    import idpyoidc
    sys.modules["idpyoidc.key_import"] = mod
    idpyoidc.key_import = mod
