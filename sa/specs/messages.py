"""What the parsers accept, and what they return.

Requirements only; never executed.
"""
import base64
import json
from urllib.parse import urlparse

import cbor2
from sa_dsl import cbor_item, make

from webauthn_rp.parsers import (parse_android_key_attestation_statement,
                                 parse_android_safetynet_attestation_statement,
                                 parse_authenticator_data, parse_cose_key,
                                 parse_extensions,
                                 parse_fido_u2f_attestation_statement,
                                 parse_none_attestation_statement,
                                 parse_packed_attestation_statement,
                                 parse_tpm_attestation_statement)
from webauthn_rp.types import (
    AndroidKeyAttestationStatement, AndroidSafetyNetAttestationStatement,
    AttestationObject, AttestationStatementFormatIdentifier,
    AttestedCredentialData, AuthenticationExtensionsClientOutputs,
    AuthenticatorAssertionResponse, AuthenticatorAttestationResponse,
    AuthenticatorData, CollectedClientData, Coordinates,
    COSEAlgorithmIdentifier, COSEKeyOperation, COSEKeyType,
    EC2CredentialPublicKey, EC2Curve, FIDOU2FAttestationStatement,
    NoneAttestationStatement, OKPCredentialPublicKey, OKPCurve, Origin,
    PackedAttestationStatement, PackedECDAAAttestationStatement,
    PackedX509AttestationStatement, PublicKeyCredential, TokenBinding,
    TokenBindingStatus, TPMAttestationStatement, TPMECDAAAttestationStatement,
    TPMX509AttestationStatement)
from webauthn_rp.validators import validate

ALGORITHMS = (-7, -35, -36, -8, 'ES256', 'ES384', 'ES512', 'EdDSA')
OPERATIONS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 'sign', 'verify', 'encrypt',
              'decrypt', 'wrap key', 'unwrap key', 'derive key',
              'derive bits', 'MAC create', 'MAC verify')


def label(d, key, allowed, what):
    """an identifier: an integer or text of the registry"""
    v = d.get(key)
    assert type(v) in (int, str), what + ' is an integer or text'
    assert v in allowed, what + ' is registered'
    return v


def required(d, key, kind, what):
    v = d.get(key)
    assert type(v) is kind, what + ' has its type'
    return v


def optional(d, key, kind, what):
    v = d.get(key)
    if v is not None:
        assert type(v) is kind, what + ' has its type'
    return v


def operations(k):
    ops = k.get(4)
    if ops is None:
        return None
    assert type(ops) in (list, tuple), 'operations are a list'
    assert len(ops) > 0, 'not empty'
    assert all(type(o) in (int, str) for o in ops), 'of integers or texts'
    assert all(o in OPERATIONS for o in ops), 'registered ones'
    return [COSEKeyOperation(o) for o in ops]


def okp_key(k):
    x = required(k, -2, bytes, 'x')
    crv = label(k, -1, (6, 7, 'Ed25519', 'Ed448'), 'the curve')
    size = 32 if crv in (6, 'Ed25519') else 57
    assert len(x) == size, 'x has the size of the curve'
    kty = label(k, 1, (1, 2, 4, 'OKP', 'EC2', 'Symmetric'), 'the key type')
    kid = optional(k, 2, bytes, 'the key ID')
    alg = label(k, 3, ALGORITHMS, 'the algorithm')
    ops = operations(k)
    iv = optional(k, 5, bytes, 'the base IV')
    return make(OKPCredentialPublicKey, kty=COSEKeyType(kty), kid=kid,
                alg=COSEAlgorithmIdentifier(alg), key_ops=ops, base_IV=iv,
                crv=OKPCurve(crv), x=x)


def ec2_key(k):
    x = required(k, -2, bytes, 'x')
    y = required(k, -3, bytes, 'y')
    crv = label(k, -1, (1, 2, 3, 'P-256', 'P-384', 'P-521'), 'the curve')
    size = 32 if crv in (1, 'P-256') else 48 if crv in (2, 'P-384') else 66
    assert len(x) == size, 'x has the size of the curve'
    assert len(y) == size, 'y has the size of the curve'
    kty = label(k, 1, (1, 2, 4, 'OKP', 'EC2', 'Symmetric'), 'the key type')
    kid = optional(k, 2, bytes, 'the key ID')
    alg = label(k, 3, ALGORITHMS, 'the algorithm')
    ops = operations(k)
    iv = optional(k, 5, bytes, 'the base IV')
    return make(EC2CredentialPublicKey, kty=COSEKeyType(kty), kid=kid,
                alg=COSEAlgorithmIdentifier(alg), key_ops=ops, base_IV=iv,
                crv=EC2Curve(crv), x=x, y=y)


def okp_public_key(credential_public_key):
    return okp_key(credential_public_key)


def ec2_public_key(credential_public_key):
    return ec2_key(credential_public_key)


def cose_map(credential_public_key):
    k = credential_public_key
    kty = label(k, 1, (1, 2, 'OKP', 'EC2'), 'the key type')
    if kty in (1, 'OKP'):
        return okp_key(k)
    return ec2_key(k)


def cose_bytes(credential_public_key):
    k = cbor2.loads(credential_public_key)
    assert type(k) is dict, 'a map'
    kty = label(k, 1, (1, 2, 'OKP', 'EC2'), 'the key type')
    if kty in (1, 'OKP'):
        return okp_key(k)
    return ec2_key(k)


def client_data(client_data_JSON):
    d = json.loads(client_data_JSON.decode('utf-8'))
    assert type(d) is dict, 'an object'
    assert isinstance(d.get('type'), str), 'type is text'
    assert isinstance(d.get('challenge'), str), 'challenge is text'
    assert isinstance(d.get('origin'), str), 'origin is text'
    t = d.get('tokenBinding')
    binding = None
    if t is not None:
        assert type(t) is dict, 'token binding is an object'
        assert t.get('status') in ('present', 'supported'), 'with a status'
        if t.get('status') == 'present':
            assert t.get('id') is not None, 'with an ID if present'
        binding = make(TokenBinding, status=TokenBindingStatus(t['status']),
                       id=t.get('id'))
    return make(CollectedClientData, type=d.get('type'),
                challenge=d.get('challenge'), origin=d.get('origin'),
                token_binding=binding)


def origin_tuple(origin):
    assert '://' in origin, 'a scheme'
    u = urlparse(origin)
    port = u.port
    assert not u.path, 'no path'
    assert not u.params, 'no parameters'
    assert not u.query, 'no query'
    assert not u.fragment, 'no fragment'
    assert u.netloc, 'an authority'
    assert u.scheme in ('http', 'https'), 'a web scheme'
    if port is None:
        port = 80 if u.scheme == 'http' else 443
    return Origin(scheme=u.scheme, hostname=u.netloc, port=port)


def only(d, *allowed):
    assert all(k in allowed for k in d.keys()), 'no other members'


def text(d, key):
    v = d.get(key)
    assert type(v) is str, key + ' is text'
    return v


def decoded(d, key):
    return base64.b64decode(text(d, key))


def credential(data):
    only(data, 'id', 'rawId', 'response', 'type')
    id_ = text(data, 'id')
    type_ = text(data, 'type')
    raw_id = decoded(data, 'rawId')
    r = data.get('response')
    assert type(r) is dict, 'response is a map'
    cdj = decoded(r, 'clientDataJSON')
    if 'attestationObject' in r:
        only(r, 'clientDataJSON', 'attestationObject')
        return make(PublicKeyCredential, id=id_, type=type_, raw_id=raw_id,
                    response=make(AuthenticatorAttestationResponse,
                                  client_data_JSON=cdj,
                                  attestation_object=decoded(
                                      r, 'attestationObject')))
    only(r, 'clientDataJSON', 'authenticatorData', 'signature', 'userHandle')
    data_ = decoded(r, 'authenticatorData')
    sig = decoded(r, 'signature')
    handle = None
    if r.get('userHandle') is not None:
        handle = decoded(r, 'userHandle')
    return make(PublicKeyCredential, id=id_, type=type_, raw_id=raw_id,
                response=make(AuthenticatorAssertionResponse,
                              client_data_JSON=cdj, authenticator_data=data_,
                              signature=sig, user_handle=handle))


def extension_outputs(extensions):
    e = extensions
    only(e, 'appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts',
         'uvi', 'loc', 'uvm', 'biometricPerfBounds')
    appid = optional(e, 'appid', bool, 'appid')
    simple = optional(e, 'txAuthSimple', str, 'txAuthSimple')
    generic = optional(e, 'txAuthGeneric', bytes, 'txAuthGeneric')
    sel = optional(e, 'authnSel', bool, 'authnSel')
    exts = e.get('exts')
    if exts is not None:
        assert type(exts) in (list, tuple), 'exts is a list'
        assert all(type(x) is str for x in exts), 'exts has texts'
    uvi = optional(e, 'uvi', bytes, 'uvi')
    loc = optional(e, 'loc', dict, 'loc')
    where = None
    if loc is not None:
        assert all(type(v) in (int, float) for v in loc.values()), 'numbers'
        only(loc, 'latitude', 'longitude', 'altitude', 'accuracy',
             'altitudeAccuracy', 'heading', 'speed')
        where = make(Coordinates, latitude=loc.get('latitude'),
                     longitude=loc.get('longitude'),
                     altitude=loc.get('altitude'),
                     accuracy=loc.get('accuracy'),
                     altitude_accuracy=loc.get('altitudeAccuracy'),
                     heading=loc.get('heading'), speed=loc.get('speed'))
    uvm = optional(e, 'uvm', list, 'uvm')
    if uvm is not None:
        assert all(type(x) is list for x in uvm), 'uvm has lists'
        assert all(all(type(n) is int for n in x) for x in uvm), 'of integers'
    bounds = optional(e, 'biometricPerfBounds', bool, 'biometricPerfBounds')
    return make(AuthenticationExtensionsClientOutputs, appid=appid,
                tx_auth_simple=simple, tx_auth_generic=generic,
                authn_sel=sel, exts=exts, uvi=uvi, loc=where, uvm=uvm,
                biometric_perf_bounds=bounds)


def certificates(s):
    x5c = s.get('x5c')
    assert type(x5c) in (list, tuple), 'x5c is a list'
    assert all(type(c) is bytes for c in x5c), 'of byte strings'
    return x5c


def algorithm(s):
    return COSEAlgorithmIdentifier(label(s, 'alg', ALGORITHMS, 'alg'))


def packed(att_stmt):
    s = att_stmt
    alg = algorithm(s)
    sig = required(s, 'sig', bytes, 'sig')
    if 'x5c' in s:
        only(s, 'alg', 'sig', 'x5c')
        return make(PackedX509AttestationStatement, alg=alg, sig=sig,
                    x5c=certificates(s))
    if 'ecdaaKeyId' in s:
        only(s, 'alg', 'sig', 'ecdaaKeyId')
        return make(PackedECDAAAttestationStatement, alg=alg, sig=sig,
                    ecdaa_key_id=required(s, 'ecdaaKeyId', bytes, 'key ID'))
    only(s, 'alg', 'sig')
    return make(PackedAttestationStatement, alg=alg, sig=sig)


def tpm(att_stmt):
    s = att_stmt
    alg = algorithm(s)
    sig = required(s, 'sig', bytes, 'sig')
    ver = required(s, 'ver', str, 'ver')
    cert = required(s, 'certInfo', bytes, 'certInfo')
    area = required(s, 'pubArea', bytes, 'pubArea')
    if 'x5c' in s:
        only(s, 'alg', 'sig', 'ver', 'certInfo', 'pubArea', 'x5c')
        return make(TPMX509AttestationStatement, alg=alg, sig=sig, ver=ver,
                    cert_info=cert, pub_area=area, x5c=certificates(s))
    if 'ecdaaKeyId' in s:
        only(s, 'alg', 'sig', 'ver', 'certInfo', 'pubArea', 'ecdaaKeyId')
        return make(TPMECDAAAttestationStatement, alg=alg, sig=sig, ver=ver,
                    cert_info=cert, pub_area=area,
                    ecdaa_key_id=required(s, 'ecdaaKeyId', bytes, 'key ID'))
    only(s, 'alg', 'sig', 'ver', 'certInfo', 'pubArea')
    return make(TPMAttestationStatement, alg=alg, sig=sig, ver=ver,
                cert_info=cert, pub_area=area)


def android_key(att_stmt):
    s = att_stmt
    only(s, 'alg', 'sig', 'x5c')
    return make(AndroidKeyAttestationStatement, alg=algorithm(s),
                sig=required(s, 'sig', bytes, 'sig'), x5c=certificates(s))


def safetynet(att_stmt):
    s = att_stmt
    only(s, 'ver', 'response')
    return make(AndroidSafetyNetAttestationStatement,
                ver=required(s, 'ver', str, 'ver'),
                response=required(s, 'response', bytes, 'response'))


def fido_u2f(att_stmt):
    s = att_stmt
    only(s, 'sig', 'x5c')
    return make(FIDOU2FAttestationStatement,
                sig=required(s, 'sig', bytes, 'sig'), x5c=certificates(s))


def none(att_stmt):
    only(att_stmt)
    return make(NoneAttestationStatement)


def authenticator_data(auth_data):
    d = auth_data
    assert len(d) >= 37, 'the fixed part'
    flags = d[32]
    end = 37
    attested = None
    if flags & 0x40:
        assert len(d) >= 55, 'AAGUID and length'
        size = int.from_bytes(d[53:55], 'big')
        assert len(d) >= 55 + size, 'the credential ID'
        key, end = cbor_item(d, 55 + size)
        assert type(key) is dict, 'the key is a map'
        k = parse_cose_key(key)
        validate(k)
        attested = make(AttestedCredentialData, aaguid=d[37:53],
                        credential_id_length=size,
                        credential_id=d[55:55 + size],
                        credential_public_key=k)
    ext = None
    if flags & 0x80:
        m, end = cbor_item(d, end)
        assert type(m) is dict, 'the extensions are a map'
        ext = parse_extensions(m)
    assert end >= len(d), 'nothing is left over'
    return make(AuthenticatorData, rp_id_hash=d[:32], flags=flags,
                sign_count=int.from_bytes(d[33:37], 'big'),
                attested_credential_data=attested, extensions=ext)


def attestation_object(attestation_object):
    m = cbor2.loads(attestation_object)
    assert type(m) is dict, 'a map'
    assert type(m.get('authData')) is bytes, 'authData is bytes'
    assert type(m.get('fmt')) is str, 'fmt is text'
    assert type(m.get('attStmt')) is dict, 'attStmt is a map'
    fmt = m['fmt']
    s = m['attStmt']
    data = parse_authenticator_data(m['authData'])
    if fmt == 'packed':
        stmt = parse_packed_attestation_statement(s)
    elif fmt == 'tpm':
        stmt = parse_tpm_attestation_statement(s)
    elif fmt == 'android-key':
        stmt = parse_android_key_attestation_statement(s)
    elif fmt == 'android-safetynet':
        stmt = parse_android_safetynet_attestation_statement(s)
    elif fmt == 'fido-u2f':
        stmt = parse_fido_u2f_attestation_statement(s)
    else:
        assert fmt == 'none', 'a known format'
        stmt = parse_none_attestation_statement(s)
    return make(AttestationObject, auth_data=data,
                fmt=AttestationStatementFormatIdentifier(fmt),
                att_stmt=stmt), m
