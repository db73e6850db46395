"""When a ceremony has to succeed: every requirement the library makes.

The checker demands that every exit by exception contradicts these. Never
executed.
"""
import base64

from sa_specs.causes import origin
from sa_specs.ceremony import (client_data, flags_ok, ownership,
                               relying_party, required_present, sha256,
                               token_binding_state)
from sa_specs.messages import client_data as well_formed

from webauthn_rp.attesters import attest
from webauthn_rp.parsers import (parse_attestation_object,
                                 parse_authenticator_data)
from webauthn_rp.verifiers import verify


def client_side(kind, credential, expected_challenge, expected_origin,
                token_binding):
    raw = credential.response.client_data_JSON
    well_formed(raw)
    data = client_data(raw)
    assert data.get('type') == kind
    got = base64.b64decode(data.get('challenge') + '===', b'-_')
    assert got == expected_challenge
    origin(credential, expected_origin)
    token_binding_state(credential, token_binding)


def registration(credential, user, rp, expected_challenge, expected_origin,
                 token_binding, require_user_verification,
                 expected_extensions):
    client_side('webauthn.create', credential, expected_challenge,
                expected_origin, token_binding)
    obj = parse_attestation_object(credential.response.attestation_object)
    data = obj[0].auth_data
    assert 'authData' in obj[1]
    assert data is not None
    assert data.attested_credential_data is not None
    assert data.rp_id_hash == sha256(rp.id.encode('utf-8'))
    flags_ok(data.flags, require_user_verification)
    required_present(data.extensions, expected_extensions)
    attest(obj[0].att_stmt, obj[0], obj[1]['authData'],
           sha256(credential.response.client_data_JSON))


def authentication(credential, expected_challenge, expected_origin, rp, user,
                   allow_credentials, token_binding,
                   require_user_verification, expected_extensions,
                   ignore_clone_error, stored):
    assert stored is not None
    client_side('webauthn.get', credential, expected_challenge,
                expected_origin, token_binding)
    ownership(credential, allow_credentials, user, stored)
    relying_party(rp, stored)
    response = credential.response
    data = parse_authenticator_data(response.authenticator_data)
    if stored.rp_entity is not None:
        assert data.rp_id_hash == sha256(stored.rp_entity.id.encode('utf-8'))
    if rp is not None:
        assert data.rp_id_hash == sha256(rp.id.encode('utf-8'))
    flags_ok(data.flags, require_user_verification)
    required_present(data.extensions, expected_extensions)
    verify(stored.credential_public_key, response.signature,
           response.authenticator_data + sha256(response.client_data_JSON))
    if stored.signature_count is not None and not ignore_clone_error:
        assert data.sign_count > stored.signature_count


# ---- nothing unexpected about the input, whether or not it is acceptable
def usual_client_side(credential, expected_origin):
    raw = credential.response.client_data_JSON
    well_formed(raw)
    base64.b64decode(client_data(raw).get('challenge') + '===', b'-_')


def usual_registration(credential, rp, expected_origin):
    usual_client_side(credential, expected_origin)
    obj = parse_attestation_object(credential.response.attestation_object)
    assert 'authData' in obj[1]
    assert obj[0].auth_data is not None
    assert obj[0].auth_data.attested_credential_data is not None
    rp.id.encode('utf-8')
    attest(obj[0].att_stmt, obj[0], obj[1]['authData'],
           sha256(credential.response.client_data_JSON))


def usual_authentication(credential, rp, expected_origin, stored):
    usual_client_side(credential, expected_origin)
    if rp is not None:
        rp.id.encode('utf-8')
    if stored is not None and stored.rp_entity is not None:
        stored.rp_entity.id.encode('utf-8')
    response = credential.response
    parse_authenticator_data(response.authenticator_data)
    if stored is not None:
        verify(stored.credential_public_key, response.signature,
               response.authenticator_data +
               sha256(response.client_data_JSON))
