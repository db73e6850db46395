"""Keys: validation, conversion, encoding, signatures.

Requirements only; never executed.
"""
import cbor2
from cryptography.hazmat.primitives.asymmetric.ec import (
    ECDSA, SECP256R1, SECP384R1, SECP521R1, EllipticCurvePublicNumbers)
from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PublicKey
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey
from cryptography.hazmat.primitives.hashes import SHA256, SHA384, SHA512

from webauthn_rp.converters import cryptography_public_key
from webauthn_rp.types import EC2CredentialPublicKey, OKPCredentialPublicKey
from webauthn_rp.validators import validate


def hash_named(alg):
    assert alg is not None, 'an algorithm'
    assert alg.name in ('ES256', 'ES384', 'ES512'), 'an ECDSA algorithm'
    if alg.name == 'ES256':
        return SHA256()
    if alg.name == 'ES384':
        return SHA384()
    return SHA512()


def verified(credential_public_key, signature, data):
    k = credential_public_key
    assert isinstance(k, (EC2CredentialPublicKey,
                          OKPCredentialPublicKey)), 'a known key class'
    key = cryptography_public_key(k)
    if isinstance(k, EC2CredentialPublicKey):
        key.verify(signature, data, ECDSA(hash_named(k.alg)))
    else:
        key.verify(signature, data)


def ec2_converted(credential_public_key):
    k = credential_public_key
    name = k.crv.name
    assert name in ('P_256', 'P_384', 'P_521'), 'a known curve'
    if name == 'P_256':
        curve = SECP256R1()
    elif name == 'P_384':
        curve = SECP384R1()
    else:
        curve = SECP521R1()
    return EllipticCurvePublicNumbers(int.from_bytes(k.x, 'big'),
                                      int.from_bytes(k.y, 'big'),
                                      curve).public_key()


def okp_converted(credential_public_key):
    k = credential_public_key
    assert k.crv.name in ('ED25519', 'ED448'), 'a known curve'
    if k.crv.name == 'ED25519':
        return Ed25519PublicKey.from_public_bytes(k.x)
    return Ed448PublicKey.from_public_bytes(k.x)


def ec2_valid(credential_public_key):
    k = credential_public_key
    assert k.crv.name in ('P_256', 'P_384', 'P_521'), 'a NIST curve'
    assert k.alg.name in ('ES256', 'ES384', 'ES512'), 'an ECDSA algorithm'


def okp_valid(credential_public_key):
    k = credential_public_key
    assert k.crv.name in ('ED25519', 'ED448'), 'an Edwards curve'
    assert k.alg.name == 'EDDSA', 'EdDSA'


def gate(data):
    """the key of attested credential data was validated"""
    a = data.attested_credential_data
    if a is not None:
        validate(a.credential_public_key)


def gate_inline(data):
    a = data.attested_credential_data
    if a is not None:
        k = a.credential_public_key
        assert isinstance(k, (EC2CredentialPublicKey,
                              OKPCredentialPublicKey)), 'a known key class'
        if isinstance(k, EC2CredentialPublicKey):
            ec2_valid(k)
        else:
            okp_valid(k)


def encoded(credential_public_key):
    k = credential_public_key
    d = {1: k.kty.value, 3: k.alg.value, -1: k.crv.value, -2: k.x}
    if isinstance(k, EC2CredentialPublicKey):
        d[-3] = k.y
    if k.kid is not None:
        d[2] = k.kid
    if k.key_ops is not None:
        d[4] = [o.value for o in k.key_ops]
    if k.base_IV is not None:
        d[5] = k.base_IV
    return cbor2.dumps(d)
