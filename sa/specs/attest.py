"""What each attestation procedure and signature check must establish.

Requirements only; never executed.
"""
import cryptography.x509
from cryptography.hazmat.primitives.asymmetric.ec import (
    ECDSA, SECP256R1, EllipticCurvePublicKey)
from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PublicKey
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey
from cryptography.hazmat.primitives.hashes import SHA256, SHA384, SHA512
from cryptography.hazmat.primitives.serialization import (Encoding,
                                                          PublicFormat)
from cryptography.x509.oid import ObjectIdentifier
from pyasn1.codec.der.decoder import decode
from sa_dsl import implies

from webauthn_rp.asn1 import KeyDescription
from webauthn_rp.converters import cryptography_public_key
from webauthn_rp.types import AttestationType, EC2CredentialPublicKey


def attested_data(att_obj):
    return att_obj.auth_data.attested_credential_data


def fido_u2f(att_stmt, att_obj, client_data_hash):
    assert len(att_stmt.x5c) == 1, 'exactly one certificate'
    cert = cryptography.x509.load_der_x509_certificate(att_stmt.x5c[0])
    key = cert.public_key()
    assert isinstance(key, EllipticCurvePublicKey), 'an elliptic-curve key'
    assert isinstance(key.curve, SECP256R1), 'on P-256'
    cpk = attested_data(att_obj).credential_public_key
    assert isinstance(cpk, EC2CredentialPublicKey), 'an EC2 credential key'
    assert len(cpk.x) == 32, '32-byte x'
    assert len(cpk.y) == 32, '32-byte y'
    key.verify(
        att_stmt.sig, b'\x00' + att_obj.auth_data.rp_id_hash +
        client_data_hash + attested_data(att_obj).credential_id + b'\x04' +
        cpk.x + cpk.y, ECDSA(SHA256()))
    return AttestationType.BASIC, [cert]


def hash_named(alg):
    """the hash of an ECDSA algorithm identifier"""
    assert alg.name in ('ES256', 'ES384', 'ES512'), 'an ECDSA algorithm'
    if alg.name == 'ES256':
        return SHA256()
    if alg.name == 'ES384':
        return SHA384()
    return SHA512()


def android_key(att_stmt, att_obj, auth_data, client_data_hash):
    assert len(att_stmt.x5c) > 0, 'a certificate'
    cert = cryptography.x509.load_der_x509_certificate(att_stmt.x5c[0])
    key = cert.public_key()
    assert isinstance(key, (EllipticCurvePublicKey, Ed25519PublicKey,
                            Ed448PublicKey)), 'an elliptic-curve key'
    if isinstance(key, (Ed25519PublicKey, Ed448PublicKey)):
        key.verify(att_stmt.sig, auth_data + client_data_hash)
    else:
        key.verify(att_stmt.sig, auth_data + client_data_hash,
                   ECDSA(hash_named(att_stmt.alg)))
    own = cryptography_public_key(attested_data(att_obj).credential_public_key)
    assert own.public_bytes(
        Encoding.DER, PublicFormat.SubjectPublicKeyInfo) == key.public_bytes(
            Encoding.DER,
            PublicFormat.SubjectPublicKeyInfo), 'the credential key'
    ext = cert.extensions.get_extension_for_oid(
        ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'))
    desc = decode(ext.value.value, KeyDescription())[0]
    assert desc['attestationChallenge'].asOctets() == client_data_hash, \
        'client data hash as challenge'
    soft = desc['softwareEnforced']
    tee = desc['teeEnforced']
    assert not soft['allApplications'].hasValue(), 'bound to applications'
    assert not tee['allApplications'].hasValue(), 'bound to applications (tee)'
    assert tee['origin'].hasValue(), 'an origin'
    assert int(tee['origin']) == 0, 'generated on the device'
    assert tee['purpose'].hasValue(), 'a purpose'
    assert tee['purpose'].count(2) > 0, 'for signing'
    return AttestationType.BASIC, [cert]


def no_attestation(att_stmt):
    return AttestationType.NONE, None
