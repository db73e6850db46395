"""JSON conversion, one reference per kind of value. Never executed."""
import base64
import re

from webauthn_rp.converters import jsonify
from webauthn_rp.utils import snake_to_camel_case


def of_enum(data, convert_case):
    return jsonify(data.value, convert_case)


def of_dict(data, convert_case):
    for k in data:
        assert type(k) is str, 'string keys'
    if convert_case:
        return {snake_to_camel_case(k): jsonify(v, convert_case)
                for k, v in data.items() if v is not None}
    return {k: jsonify(v, convert_case)
            for k, v in data.items() if v is not None}


def of_object(data, convert_case):
    d = data.__dict__
    if convert_case:
        return {snake_to_camel_case(k): jsonify(v, convert_case)
                for k, v in d.items() if v is not None}
    return {k: jsonify(v, convert_case)
            for k, v in d.items() if v is not None}


def of_bytes(data, convert_case):
    return base64.b64encode(data).decode('ascii')


def of_scalar(data, convert_case):
    return data


def of_sequence(data, convert_case):
    return [jsonify(x, convert_case) for x in data]


def of_none(data, convert_case):
    return None


def camel(s):
    chunks = [x for x in re.split(r'_+', s) if x]
    if chunks:
        return chunks[0] + ''.join([x[0].upper() + x[1:]
                                    for x in chunks[1:]])
    return ''


# member names of the WebAuthn dictionaries and messages
WIRE = {
    'FAR': 'FAR',
    'FRR': 'FRR',
    'aaguid': 'aaguid',
    'accuracy': 'accuracy',
    'alg': 'alg',
    'allow_credentials': 'allowCredentials',
    'altitude': 'altitude',
    'altitude_accuracy': 'altitudeAccuracy',
    'appid': 'appid',
    'att_stmt': 'attStmt',
    'attestation': 'attestation',
    'attestation_object': 'attestationObject',
    'attested_credential_data': 'attestedCredentialData',
    'auth_data': 'authData',
    'authenticator_attachment': 'authenticatorAttachment',
    'authenticator_data': 'authenticatorData',
    'authenticator_selection': 'authenticatorSelection',
    'authn_sel': 'authnSel',
    'base_IV': 'baseIV',
    'biometric_perf_bounds': 'biometricPerfBounds',
    'cert_info': 'certInfo',
    'challenge': 'challenge',
    'client_data_JSON': 'clientDataJSON',
    'content': 'content',
    'content_type': 'contentType',
    'credential_id': 'credentialId',
    'credential_id_length': 'credentialIdLength',
    'credential_public_key': 'credentialPublicKey',
    'display_name': 'displayName',
    'ecdaa_key_id': 'ecdaaKeyId',
    'exclude_credentials': 'excludeCredentials',
    'extensions': 'extensions',
    'exts': 'exts',
    'fmt': 'fmt',
    'heading': 'heading',
    'icon': 'icon',
    'id': 'id',
    'key_ops': 'keyOps',
    'latitude': 'latitude',
    'loc': 'loc',
    'longitude': 'longitude',
    'mediation': 'mediation',
    'name': 'name',
    'origin': 'origin',
    'pub_area': 'pubArea',
    'pub_key_cred_params': 'pubKeyCredParams',
    'public_key': 'publicKey',
    'raw_id': 'rawId',
    'require_resident_key': 'requireResidentKey',
    'response': 'response',
    'rp': 'rp',
    'rp_id': 'rpId',
    'rp_id_hash': 'rpIdHash',
    'sig': 'sig',
    'sign_count': 'signCount',
    'signature': 'signature',
    'speed': 'speed',
    'status': 'status',
    'timeout': 'timeout',
    'token_binding': 'tokenBinding',
    'transports': 'transports',
    'tx_auth_generic': 'txAuthGeneric',
    'tx_auth_simple': 'txAuthSimple',
    'type': 'type',
    'user': 'user',
    'user_handle': 'userHandle',
    'user_verification': 'userVerification',
    'uvi': 'uvi',
    'uvm': 'uvm',
    'ver': 'ver',
    'x5c': 'x5c',
    # the shapes of other names
    '': '',
    '_': '',
    'a__b_c': 'aBC',
    '_a__b': 'aB',
    'a_b_': 'aB',
    'a_Bc_dE': 'aBcDE',
    'Ab_c': 'AbC',
    'a_1b': 'a1b',
    'a-b_c.d': 'a-bC.d',
}
