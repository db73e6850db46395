"""What a successful ceremony must have established (requirements only).

These functions are never executed: the checker reads them with the same
abstract interpreter as the code. An assert states a requirement; a library
call that can fail states the requirement that it does not.
"""
import base64
import hashlib
import json
from urllib.parse import urlparse

import cbor2
from sa_dsl import implies, is_type

from webauthn_rp.attesters import attest
from webauthn_rp.parsers import (parse_attestation_object,
                                 parse_authenticator_data)
from webauthn_rp.verifiers import verify


def port_of(url):
    if url.port is not None:
        return url.port
    return 80 if url.scheme == 'http' else 443


def same_origin(a, b):
    return (a.scheme == b.scheme and a.netloc == b.netloc
            and port_of(a) == port_of(b))


def client_data(raw):
    data = json.loads(raw.decode('utf-8'))
    assert type(data) is dict, 'client data is a JSON object'
    return data


def bound(kind, raw, expected_challenge, expected_origin):
    data = client_data(raw)
    assert data.get('type') == kind, 'client data type'
    assert isinstance(data.get('challenge'), str), 'challenge is text'
    got = base64.b64decode(data.get('challenge') + '===', b'-_')
    assert got == expected_challenge, 'challenge equals the expected one'
    assert isinstance(data.get('origin'), str), 'origin is text'
    origin = urlparse(data.get('origin'))
    assert origin.scheme == 'http' or origin.scheme == 'https', 'web origin'
    if isinstance(expected_origin, str):
        ok = same_origin(origin, urlparse(expected_origin))
        assert ok, 'origin equals the expected one'
    else:
        ok = any(same_origin(origin, urlparse(e)) for e in expected_origin)
        assert ok, 'origin equals one of the expected ones'


def registration_binding(credential, expected_challenge, expected_origin):
    bound('webauthn.create', credential.response.client_data_JSON,
          expected_challenge, expected_origin)


def authentication_binding(credential, expected_challenge, expected_origin):
    bound('webauthn.get', credential.response.client_data_JSON,
          expected_challenge, expected_origin)


def token_binding_state(credential, token_binding):
    data = client_data(credential.response.client_data_JSON)
    given = data.get('tokenBinding')
    if token_binding is None:
        assert given is None, 'no token binding unless one is expected'
    else:
        assert given is not None, 'token binding present when expected'
        assert type(given) is dict, 'token binding is an object'
        assert given.get('status') == token_binding.status.value, \
            'token binding status'
        assert given.get('id') == token_binding.id, 'token binding id'


def sha256(data):
    return hashlib.sha256(data).digest()


def auth_data_of(credential):
    raw = cbor2.loads(credential.response.attestation_object)['authData']
    assert type(raw) is bytes, 'authenticator data is a byte string'
    return raw


# ---- RP ID hash
def registration_rp_hash(credential, rp):
    raw = auth_data_of(credential)
    assert raw[:32] == sha256(rp.id.encode('utf-8')), 'RP ID hash'


def authentication_rp_hash(credential, rp, stored):
    raw = credential.response.authenticator_data
    if stored.rp_entity is not None:
        rp_id = stored.rp_entity.id
    else:
        assert rp is not None, 'a relying party is in force'
        rp_id = rp.id
    assert raw[:32] == sha256(rp_id.encode('utf-8')), 'RP ID hash'


# ---- user presence and verification
def flags_ok(flags, require_user_verification):
    assert flags & 1, 'user present'
    if require_user_verification:
        assert flags & 4, 'user verified'


def registration_user(credential, require_user_verification):
    raw = auth_data_of(credential)
    flags_ok(raw[32], require_user_verification)


def authentication_user(credential, require_user_verification):
    flags_ok(credential.response.authenticator_data[32],
             require_user_verification)


# ---- required extensions
def registration_extensions(credential, expected_extensions):
    obj = parse_attestation_object(credential.response.attestation_object)
    required_present(obj[0].auth_data.extensions, expected_extensions)


def authentication_extensions(credential, expected_extensions):
    data = parse_authenticator_data(credential.response.authenticator_data)
    required_present(data.extensions, expected_extensions)


def required_present(outputs, expected_extensions):
    if expected_extensions is not None:
        for e in expected_extensions:
            assert outputs is not None, 'extension outputs are there'
            assert getattr(outputs, e.key) is not None, \
                'required extension output present'


# ---- attestation
def attested(credential):
    obj = parse_attestation_object(credential.response.attestation_object)
    return attest(obj[0].att_stmt, obj[0], obj[1]['authData'],
                  sha256(credential.response.client_data_JSON))


# ---- assertion signature
def signature(credential, stored):
    response = credential.response
    verify(stored.credential_public_key, response.signature,
           response.authenticator_data + sha256(response.client_data_JSON))


# ---- ownership
def ownership(credential, allow_credentials, user, stored):
    if allow_credentials is not None:
        assert any(c.id == credential.raw_id for c in allow_credentials), \
            'credential is an allowed one'
    assert stored is not None, 'storage knows the credential'
    handle = credential.response.user_handle
    if user is not None:
        assert stored.user_entity.id == user.id, 'owned by the supplied user'
        assert implies(handle is not None, handle == user.id), 'user handle'
    else:
        assert handle is not None, 'user handle present'
        assert handle == stored.user_entity.id, 'user handle'


# ---- relying party of an authentication
def relying_party(rp, stored):
    assert rp is not None or stored.rp_entity is not None, 'an RP is known'
    if rp is not None and stored.rp_entity is not None:
        assert rp.id == stored.rp_entity.id, 'RP IDs agree'


def handed_over(rp, user, stored, handed_rp, handed_user):
    assert handed_rp is not None, 'an RP is handed over'
    if stored.rp_entity is None:
        assert handed_rp is rp, 'the supplied RP is handed over'
    elif rp is None:
        assert handed_rp is stored.rp_entity, 'the registered RP is handed'
    else:
        assert handed_rp is rp or handed_rp is stored.rp_entity, \
            'one of the two RPs is handed over'
    if user is None:
        assert handed_user is stored.user_entity, 'the registered user'
    else:
        assert handed_user is user or handed_user is stored.user_entity, \
            'the user is handed over'


# ---- clone detection
def counter(credential, ignore_clone_error, stored):
    if stored.signature_count is not None and not ignore_clone_error:
        raw = credential.response.authenticator_data
        assert int.from_bytes(raw[33:37], 'big') > stored.signature_count, \
            'counter is strictly greater than the stored one'


# ---- everything that has passed before the storage is written
def registration_checks(credential, user, rp, expected_challenge,
                        expected_origin, token_binding,
                        require_user_verification, expected_extensions):
    registration_binding(credential, expected_challenge, expected_origin)
    token_binding_state(credential, token_binding)
    obj = parse_attestation_object(credential.response.attestation_object)
    data = obj[0].auth_data
    assert data.rp_id_hash == sha256(rp.id.encode('utf-8')), 'RP ID hash'
    flags_ok(data.flags, require_user_verification)
    required_present(data.extensions, expected_extensions)
    attested(credential)
    return obj[0]


def authentication_checks(credential, expected_challenge, expected_origin, rp,
                          user, allow_credentials, token_binding,
                          require_user_verification, expected_extensions,
                          ignore_clone_error, stored):
    authentication_binding(credential, expected_challenge, expected_origin)
    token_binding_state(credential, token_binding)
    ownership(credential, allow_credentials, user, stored)
    relying_party(rp, stored)
    if stored.rp_entity is not None:
        rp_id = stored.rp_entity.id
    else:
        rp_id = rp.id
    data = parse_authenticator_data(credential.response.authenticator_data)
    assert data.rp_id_hash == sha256(rp_id.encode('utf-8')), 'RP ID hash'
    flags_ok(data.flags, require_user_verification)
    required_present(data.extensions, expected_extensions)
    signature(credential, stored)
    if stored.signature_count is not None and not ignore_clone_error:
        assert data.sign_count > stored.signature_count, 'counter'
    return data
