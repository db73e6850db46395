"""For each specific ceremony error, the condition whose failure it names.

The checker demands that every exit with that error contradicts the condition.
Requirements only; never executed.
"""
import base64

from urllib.parse import urlparse

from sa_dsl import implies
from sa_specs.ceremony import (client_data, flags_ok, required_present,
                               same_origin, sha256, token_binding_state)
from sa_specs.messages import origin_tuple

from webauthn_rp.parsers import (parse_attestation_object,
                                 parse_authenticator_data)


def reg_type(credential):
    data = client_data(credential.response.client_data_JSON)
    assert data.get('type') == 'webauthn.create'


def auth_type(credential):
    data = client_data(credential.response.client_data_JSON)
    assert data.get('type') == 'webauthn.get'


def challenge(credential, expected_challenge):
    data = client_data(credential.response.client_data_JSON)
    got = base64.b64decode(data.get('challenge') + '===', b'-_')
    assert got == expected_challenge


def origin(credential, expected_origin):
    data = client_data(credential.response.client_data_JSON)
    origin_tuple(data.get('origin'))
    given = urlparse(data.get('origin'))
    if isinstance(expected_origin, str):
        origin_tuple(expected_origin)
        assert same_origin(given, urlparse(expected_origin))
    else:
        for e in expected_origin:
            origin_tuple(e)
        assert any(same_origin(given, urlparse(e)) for e in expected_origin)


def token_binding(credential, token_binding):
    token_binding_state(credential, token_binding)


def reg_data(credential):
    obj = parse_attestation_object(credential.response.attestation_object)
    return obj[0].auth_data


def auth_data(credential):
    return parse_authenticator_data(credential.response.authenticator_data)


def reg_rp_hash(credential, rp):
    assert reg_data(credential).rp_id_hash == sha256(rp.id.encode('utf-8'))


def auth_rp_hash(credential, rp, stored):
    data = auth_data(credential)
    if stored.rp_entity is not None:
        assert data.rp_id_hash == sha256(stored.rp_entity.id.encode('utf-8'))
    else:
        assert data.rp_id_hash == sha256(rp.id.encode('utf-8'))


def reg_presence(credential):
    assert reg_data(credential).flags & 1


def auth_presence(credential):
    assert auth_data(credential).flags & 1


def reg_verification(credential, require_user_verification):
    assert implies(require_user_verification, reg_data(credential).flags & 4)


def auth_verification(credential, require_user_verification):
    assert implies(require_user_verification, auth_data(credential).flags & 4)


def reg_extensions(credential, expected_extensions):
    required_present(reg_data(credential).extensions, expected_extensions)


def auth_extensions(credential, expected_extensions):
    required_present(auth_data(credential).extensions, expected_extensions)


def allowed(credential, allow_credentials):
    if allow_credentials is not None:
        assert any(c.id == credential.raw_id for c in allow_credentials)


def known(stored):
    assert stored is not None


def user_id(user, stored):
    if user is not None:
        assert user.id == stored.user_entity.id


def user_handle(credential, user, stored):
    handle = credential.response.user_handle
    if user is None:
        assert handle is not None
    if handle is not None:
        assert handle == stored.user_entity.id


def rp_found(rp, stored):
    assert rp is not None or stored.rp_entity is not None


def rp_ids(rp, stored):
    if rp is not None and stored.rp_entity is not None:
        assert rp.id == stored.rp_entity.id


def counter(credential, ignore_clone_error, stored):
    if stored.signature_count is not None and not ignore_clone_error:
        assert auth_data(credential).sign_count > stored.signature_count
