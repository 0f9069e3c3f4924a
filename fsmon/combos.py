"""Entities of the code under test that are more than a federation entity."""
import copy
import os

from .world import ALL_SERVICES

ALGS = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]

CRYPT = {"kwargs": {"keys": {"key_defs": [
    {"type": "OCT", "use": ["enc"], "kid": "password"},
    {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}


def _combo(entity_id, entity_type, preference=None, authority_hints=None, endpoints=None,
           services=None, anchors=None, functions=None, **kwargs):
    from fedservice.utils import make_federation_combo
    return make_federation_combo(
        entity_id,
        key_config={"key_defs": copy.deepcopy(ALGS)},
        preference=preference if preference is not None else {},
        authority_hints=authority_hints,
        endpoints=endpoints or ["entity_configuration"],
        services=services or ALL_SERVICES,
        functions=functions or ["trust_chain_collector", "verifier", "policy",
                                "trust_mark_verifier"],
        trust_anchors=copy.deepcopy(anchors) if anchors else {},
        httpc_params={"verify": False},
        entity_type=entity_type, **kwargs)


def rp_config(entity_id, **over):
    conf = {
        "client_type": "oidc",
        "redirect_uris": [entity_id + "/cb"],
        "keys": {"key_defs": copy.deepcopy(ALGS)},
        "preference": {
            "grant_types": ["authorization_code", "implicit", "refresh_token"],
            "id_token_signed_response_alg": "ES256",
            "token_endpoint_auth_method": "private_key_jwt",
            "token_endpoint_auth_signing_alg": "ES256",
            "client_registration_types": ["automatic", "explicit"]},
    }
    conf.update(over)
    return conf


def rp_combo(entity_id, config=None, client_services=None, **kwargs):
    from fedservice.defaults import DEFAULT_OIDC_FED_SERVICES, federation_services
    s = federation_services("entity_configuration", "entity_statement")
    s.update(DEFAULT_OIDC_FED_SERVICES)
    s.update(client_services or {})
    return _combo(entity_id, {"openid_relying_party": {
        "class": "fedservice.appclient.ClientEntity",
        "kwargs": {"config": config or rp_config(entity_id), "services": copy.deepcopy(s)}}},
        **kwargs)


def op_config(**over):
    conf = {
        "metadata_schema": "fedservice.message.OPMetadata",
        "server_type": "oidc",
        "httpc_params": {"verify": False, "timeout": 1},
        "preference": {
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
            "client_registration_types_supported": ["automatic", "explicit"],
        },
        "token_handler_args": {
            "jwks_def": {"private_path": "", "read_only": True, "key_defs": [
                {"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
            "code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
            "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken",
                      "kwargs": {"lifetime": 3600, "add_claims_by_scope": True}},
            "refresh": {"class": "idpyoidc.server.token.jwt_token.JWTToken",
                        "kwargs": {"lifetime": 3600}},
            "id_token": {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}},
        },
        "endpoint": {
            "registration": {"path": "registration",
                             "class": "fedservice.appserver.oidc.registration.Registration",
                             "kwargs": {"client_auth_method": None}},
            "authorization": {"path": "authorization",
                              "class": "fedservice.appserver.oidc.authorization.Authorization",
                              "kwargs": {"response_types_supported": ["code", "id_token",
                                                                      "code id_token"],
                                         "response_modes_supported": ["query", "fragment",
                                                                      "form_post"],
                                         "claims_parameter_supported": True,
                                         "request_parameter_supported": True,
                                         "request_uri_parameter_supported": True}},
            "token": {"path": "token", "class": "idpyoidc.server.oidc.token.Token",
                      "kwargs": {"client_authn_method": ["client_secret_post",
                                                         "client_secret_basic",
                                                         "client_secret_jwt",
                                                         "private_key_jwt"]}},
            "userinfo": {"path": "userinfo", "class": "idpyoidc.server.oidc.userinfo.UserInfo",
                         "kwargs": {}},
        },
        "template_dir": "template",
        "session_params": {"encrypter": CRYPT},
    }
    conf.update(over)
    return copy.deepcopy(conf)


def op_combo(entity_id, config=None, **kwargs):
    return _combo(entity_id, {"openid_provider": {
        "class": "fedservice.appserver.ServerEntity",
        "kwargs": {"key_conf": {"key_defs": copy.deepcopy(ALGS)},
                   "config": config or op_config()}}}, **kwargs)


def as_config(registration="oauth2", **over):
    conf = {
        "server_type": "oauth2",
        "httpc_params": {"verify": False, "timeout": 1},
        "preference": {
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
        },
        "token_handler_args": {
            "jwks_def": {"private_path": "", "read_only": True, "key_defs": [
                {"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
            "code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
            "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken",
                      "kwargs": {"lifetime": 3600, "add_claims_by_scope": True}},
        },
        "endpoint": {
            "registration": {
                "path": "registration",
                "class": f"fedservice.appserver.{registration}.registration.Registration",
                "kwargs": {}},
            "authorization": {
                "path": "authorization",
                "class": "fedservice.appserver.oauth2.authorization.Authorization",
                "kwargs": {"response_types_supported": ["code", "id_token", "code id_token"],
                           "response_modes_supported": ["query", "fragment", "form_post"],
                           "request_parameter_supported": True,
                           "request_uri_parameter_supported": True,
                           "client_registration_types_supported": ["automatic", "explicit"]}},
            "pushed_authorization": {
                "path": "pushed_authorization",
                "class": "fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization",
                "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic",
                                                   "client_secret_jwt", "private_key_jwt"]}},
            "token": {"path": "token", "class": "idpyoidc.server.oauth2.token.Token",
                      "kwargs": {"client_authn_method": ["client_secret_post",
                                                         "client_secret_basic",
                                                         "client_secret_jwt",
                                                         "private_key_jwt"]}},
        },
        "template_dir": "template",
        "session_params": {"encrypter": CRYPT},
    }
    conf.update(over)
    return copy.deepcopy(conf)


def as_combo(entity_id, config=None, **kwargs):
    return _combo(entity_id, {"oauth_authorization_server": {
        "class": "fedservice.appserver.ServerEntity",
        "kwargs": {"key_conf": {"key_defs": copy.deepcopy(ALGS)},
                   "config": config or as_config()}}}, **kwargs)


def oauth_client_combo(entity_id, config=None, client_services=None, **kwargs):
    from fedservice.defaults import DEFAULT_OAUTH2_FED_SERVICES, federation_services
    s = federation_services("entity_configuration", "entity_statement")
    s.update(DEFAULT_OAUTH2_FED_SERVICES)
    s.update(client_services or {})
    if config is None:
        config = rp_config(entity_id, client_type="oauth2",
                           preference={"grant_types": ["authorization_code"]})
    return _combo(entity_id, {"oauth_client": {
        "class": "fedservice.appclient.ClientEntity",
        "kwargs": {"config": config, "services": copy.deepcopy(s)}}}, **kwargs)


def standalone_rp_combo(entity_id, config, drop=(), more=None, **kwargs):
    """A relying party that does the whole of a login itself."""
    from fedservice.defaults import COMBINED_DEFAULT_OIDC_SERVICES
    services = {k: v for k, v in COMBINED_DEFAULT_OIDC_SERVICES.items() if k not in drop}
    services.update(more or {})
    return _combo(entity_id, {"openid_relying_party": {
        "class": "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
        "kwargs": {"config": config,
                   "services": copy.deepcopy(services)}}}, **kwargs)
