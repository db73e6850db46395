"""The registered values of every identifier.

Each x is a use, is_x what it has to give. Requirements only; never executed.
Sources: IANA COSE registries (RFC 8152), W3C Web Authentication Level 1,
W3C Credential Management Level 1, keymaster_defs.h.
"""
from cryptography.hazmat.primitives.hashes import SHA256, SHA384, SHA512

from webauthn_rp import constants
from webauthn_rp.types import (
    AttestationConveyancePreference,
    AttestationStatementFormatIdentifier,
    AttestationType,
    AuthenticatorAttachment,
    AuthenticatorDataFlag,
    AuthenticatorTransport,
    COSEAlgorithmIdentifier,
    COSEKeyOperation,
    COSEKeyType,
    CredentialMediationRequirement,
    EC2Curve,
    ExtensionIdentifier,
    OKPCurve,
    PublicKeyCredentialType,
    TokenBindingStatus,
    UserVerificationRequirement)
from webauthn_rp.utils import curve_coordinate_byte_length, ec2_hash_algorithm


def of_PublicKeyCredentialType():
    x = PublicKeyCredentialType
    return (x.PUBLIC_KEY.name, x.PUBLIC_KEY.value)


def is_of_PublicKeyCredentialType():
    return ('PUBLIC_KEY', 'public-key')


def of_AuthenticatorTransport():
    x = AuthenticatorTransport
    return (x.USB.name, x.USB.value,
            x.NFC.name, x.NFC.value,
            x.BLE.name, x.BLE.value,
            x.INTERNAL.name, x.INTERNAL.value)


def is_of_AuthenticatorTransport():
    return ('USB', 'usb',
            'NFC', 'nfc',
            'BLE', 'ble',
            'INTERNAL', 'internal')


def of_COSEAlgorithmIdentifier_Name():
    x = COSEAlgorithmIdentifier.Name
    return (x.ES256.name, x.ES256.value,
            x.ES384.name, x.ES384.value,
            x.ES512.name, x.ES512.value,
            x.EDDSA.name, x.EDDSA.value)


def is_of_COSEAlgorithmIdentifier_Name():
    return ('ES256', 'ES256',
            'ES384', 'ES384',
            'ES512', 'ES512',
            'EDDSA', 'EdDSA')


def of_COSEAlgorithmIdentifier_Value():
    x = COSEAlgorithmIdentifier.Value
    return (x.ES256.name, x.ES256.value,
            x.ES384.name, x.ES384.value,
            x.ES512.name, x.ES512.value,
            x.EDDSA.name, x.EDDSA.value)


def is_of_COSEAlgorithmIdentifier_Value():
    return ('ES256', -7,
            'ES384', -35,
            'ES512', -36,
            'EDDSA', -8)


def of_AuthenticatorAttachment():
    x = AuthenticatorAttachment
    return (x.PLATFORM.name, x.PLATFORM.value,
            x.CROSS_PLATFORM.name, x.CROSS_PLATFORM.value)


def is_of_AuthenticatorAttachment():
    return ('PLATFORM', 'platform',
            'CROSS_PLATFORM', 'cross-platform')


def of_AttestationConveyancePreference():
    x = AttestationConveyancePreference
    return (x.NONE.name, x.NONE.value,
            x.INDIRECT.name, x.INDIRECT.value,
            x.DIRECT.name, x.DIRECT.value)


def is_of_AttestationConveyancePreference():
    return ('NONE', 'none',
            'INDIRECT', 'indirect',
            'DIRECT', 'direct')


def of_UserVerificationRequirement():
    x = UserVerificationRequirement
    return (x.REQUIRED.name, x.REQUIRED.value,
            x.PREFERRED.name, x.PREFERRED.value,
            x.DISCOURAGED.name, x.DISCOURAGED.value)


def is_of_UserVerificationRequirement():
    return ('REQUIRED', 'required',
            'PREFERRED', 'preferred',
            'DISCOURAGED', 'discouraged')


def of_ExtensionIdentifier():
    x = ExtensionIdentifier
    return (x.APPID.name, x.APPID.value,
            x.TX_AUTH_SIMPLE.name, x.TX_AUTH_SIMPLE.value,
            x.TX_AUTH_GENERIC.name, x.TX_AUTH_GENERIC.value,
            x.AUTHN_SEL.name, x.AUTHN_SEL.value,
            x.EXTS.name, x.EXTS.value,
            x.UVI.name, x.UVI.value,
            x.LOC.name, x.LOC.value,
            x.UVM.name, x.UVM.value,
            x.BIOMETRIC_PERF_BOUNDS.name, x.BIOMETRIC_PERF_BOUNDS.value)


def is_of_ExtensionIdentifier():
    return ('APPID', 'appid',
            'TX_AUTH_SIMPLE', 'txAuthSimple',
            'TX_AUTH_GENERIC', 'txAuthGeneric',
            'AUTHN_SEL', 'authnSel',
            'EXTS', 'exts',
            'UVI', 'uvi',
            'LOC', 'loc',
            'UVM', 'uvm',
            'BIOMETRIC_PERF_BOUNDS', 'biometricPerfBounds')


def of_CredentialMediationRequirement():
    x = CredentialMediationRequirement
    return (x.SILENT.name, x.SILENT.value,
            x.OPTIONAL.name, x.OPTIONAL.value,
            x.REQUIRED.name, x.REQUIRED.value)


def is_of_CredentialMediationRequirement():
    return ('SILENT', 'silent',
            'OPTIONAL', 'optional',
            'REQUIRED', 'required')


def of_TokenBindingStatus():
    x = TokenBindingStatus
    return (x.SUPPORTED.name, x.SUPPORTED.value,
            x.PRESENT.name, x.PRESENT.value)


def is_of_TokenBindingStatus():
    return ('SUPPORTED', 'supported',
            'PRESENT', 'present')


def of_AuthenticatorDataFlag():
    x = AuthenticatorDataFlag
    return (x.UP.name, x.UP.value,
            x.RFU1.name, x.RFU1.value,
            x.UV.name, x.UV.value,
            x.RFU2.name, x.RFU2.value,
            x.AT.name, x.AT.value,
            x.ED.name, x.ED.value)


def is_of_AuthenticatorDataFlag():
    return ('UP', 1,
            'RFU1', 2,
            'UV', 4,
            'RFU2', 56,
            'AT', 64,
            'ED', 128)


def of_COSEKeyType_Name():
    x = COSEKeyType.Name
    return (x.OKP.name, x.OKP.value,
            x.EC2.name, x.EC2.value,
            x.SYMMETRIC.name, x.SYMMETRIC.value)


def is_of_COSEKeyType_Name():
    return ('OKP', 'OKP',
            'EC2', 'EC2',
            'SYMMETRIC', 'Symmetric')


def of_COSEKeyType_Value():
    x = COSEKeyType.Value
    return (x.OKP.name, x.OKP.value,
            x.EC2.name, x.EC2.value,
            x.SYMMETRIC.name, x.SYMMETRIC.value)


def is_of_COSEKeyType_Value():
    return ('OKP', 1,
            'EC2', 2,
            'SYMMETRIC', 4)


def of_COSEKeyOperation_Name():
    x = COSEKeyOperation.Name
    return (x.SIGN.name, x.SIGN.value,
            x.VERIFY.name, x.VERIFY.value,
            x.ENCRYPT.name, x.ENCRYPT.value,
            x.DECRYPT.name, x.DECRYPT.value,
            x.WRAP_KEY.name, x.WRAP_KEY.value,
            x.UNWRAP_KEY.name, x.UNWRAP_KEY.value,
            x.DERIVE_KEY.name, x.DERIVE_KEY.value,
            x.DERIVE_BITS.name, x.DERIVE_BITS.value,
            x.MAC_CREATE.name, x.MAC_CREATE.value,
            x.MAC_VERIFY.name, x.MAC_VERIFY.value)


def is_of_COSEKeyOperation_Name():
    return ('SIGN', 'sign',
            'VERIFY', 'verify',
            'ENCRYPT', 'encrypt',
            'DECRYPT', 'decrypt',
            'WRAP_KEY', 'wrap key',
            'UNWRAP_KEY', 'unwrap key',
            'DERIVE_KEY', 'derive key',
            'DERIVE_BITS', 'derive bits',
            'MAC_CREATE', 'MAC create',
            'MAC_VERIFY', 'MAC verify')


def of_COSEKeyOperation_Value():
    x = COSEKeyOperation.Value
    return (x.SIGN.name, x.SIGN.value,
            x.VERIFY.name, x.VERIFY.value,
            x.ENCRYPT.name, x.ENCRYPT.value,
            x.DECRYPT.name, x.DECRYPT.value,
            x.WRAP_KEY.name, x.WRAP_KEY.value,
            x.UNWRAP_KEY.name, x.UNWRAP_KEY.value,
            x.DERIVE_KEY.name, x.DERIVE_KEY.value,
            x.DERIVE_BITS.name, x.DERIVE_BITS.value,
            x.MAC_CREATE.name, x.MAC_CREATE.value,
            x.MAC_VERIFY.name, x.MAC_VERIFY.value)


def is_of_COSEKeyOperation_Value():
    return ('SIGN', 1,
            'VERIFY', 2,
            'ENCRYPT', 3,
            'DECRYPT', 4,
            'WRAP_KEY', 5,
            'UNWRAP_KEY', 6,
            'DERIVE_KEY', 7,
            'DERIVE_BITS', 8,
            'MAC_CREATE', 9,
            'MAC_VERIFY', 10)


def of_EC2Curve_Name():
    x = EC2Curve.Name
    return (x.P_256.name, x.P_256.value,
            x.P_384.name, x.P_384.value,
            x.P_521.name, x.P_521.value)


def is_of_EC2Curve_Name():
    return ('P_256', 'P-256',
            'P_384', 'P-384',
            'P_521', 'P-521')


def of_EC2Curve_Value():
    x = EC2Curve.Value
    return (x.P_256.name, x.P_256.value,
            x.P_384.name, x.P_384.value,
            x.P_521.name, x.P_521.value)


def is_of_EC2Curve_Value():
    return ('P_256', 1,
            'P_384', 2,
            'P_521', 3)


def of_OKPCurve_Name():
    x = OKPCurve.Name
    return (x.ED25519.name, x.ED25519.value,
            x.ED448.name, x.ED448.value)


def is_of_OKPCurve_Name():
    return ('ED25519', 'Ed25519',
            'ED448', 'Ed448')


def of_OKPCurve_Value():
    x = OKPCurve.Value
    return (x.ED25519.name, x.ED25519.value,
            x.ED448.name, x.ED448.value)


def is_of_OKPCurve_Value():
    return ('ED25519', 6,
            'ED448', 7)


def of_AttestationStatementFormatIdentifier():
    x = AttestationStatementFormatIdentifier
    return (x.PACKED.name, x.PACKED.value,
            x.TPM.name, x.TPM.value,
            x.ANDROID_KEY.name, x.ANDROID_KEY.value,
            x.ANDROID_SAFETYNET.name, x.ANDROID_SAFETYNET.value,
            x.FIDO_U2F.name, x.FIDO_U2F.value,
            x.NONE.name, x.NONE.value)


def is_of_AttestationStatementFormatIdentifier():
    return ('PACKED', 'packed',
            'TPM', 'tpm',
            'ANDROID_KEY', 'android-key',
            'ANDROID_SAFETYNET', 'android-safetynet',
            'FIDO_U2F', 'fido-u2f',
            'NONE', 'none')


def of_AttestationType():
    x = AttestationType
    return (x.BASIC.name, x.BASIC.value,
            x.ATTCA.name, x.ATTCA.value,
            x.ECDAA.name, x.ECDAA.value,
            x.SELF.name, x.SELF.value,
            x.NONE.name, x.NONE.value,
            x.UNCERTAIN.name, x.UNCERTAIN.value)


def is_of_AttestationType():
    return ('BASIC', 'Basic',
            'ATTCA', 'AttCA',
            'ECDAA', 'ECDAA',
            'SELF', 'Self',
            'NONE', 'None',
            'UNCERTAIN', 'Uncertain')


def COSEAlgorithmIdentifier_lookup(v):
    return COSEAlgorithmIdentifier(v)


def is_COSEAlgorithmIdentifier_lookup(v):
    assert type(v) in (int, str), 'an integer or text'
    if type(v) is int:
        assert v in (-7, -35, -36, -8), 'registered'
        return COSEAlgorithmIdentifier.Value(v)
    assert v in ('ES256', 'ES384', 'ES512', 'EdDSA'), 'registered'
    return COSEAlgorithmIdentifier.Name(v)


def COSEKeyType_lookup(v):
    return COSEKeyType(v)


def is_COSEKeyType_lookup(v):
    assert type(v) in (int, str), 'an integer or text'
    if type(v) is int:
        assert v in (1, 2, 4), 'registered'
        return COSEKeyType.Value(v)
    assert v in ('OKP', 'EC2', 'Symmetric'), 'registered'
    return COSEKeyType.Name(v)


def COSEKeyOperation_lookup(v):
    return COSEKeyOperation(v)


def is_COSEKeyOperation_lookup(v):
    assert type(v) in (int, str), 'an integer or text'
    if type(v) is int:
        assert v in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10), 'registered'
        return COSEKeyOperation.Value(v)
    assert v in ('sign', 'verify', 'encrypt', 'decrypt', 'wrap key', 'unwrap key', 'derive key', 'derive bits', 'MAC create', 'MAC verify'), 'registered'
    return COSEKeyOperation.Name(v)


def EC2Curve_lookup(v):
    return EC2Curve(v)


def is_EC2Curve_lookup(v):
    assert type(v) in (int, str), 'an integer or text'
    if type(v) is int:
        assert v in (1, 2, 3), 'registered'
        return EC2Curve.Value(v)
    assert v in ('P-256', 'P-384', 'P-521'), 'registered'
    return EC2Curve.Name(v)


def OKPCurve_lookup(v):
    return OKPCurve(v)


def is_OKPCurve_lookup(v):
    assert type(v) in (int, str), 'an integer or text'
    if type(v) is int:
        assert v in (6, 7), 'registered'
        return OKPCurve.Value(v)
    assert v in ('Ed25519', 'Ed448'), 'registered'
    return OKPCurve.Name(v)


def coordinates():
    f = curve_coordinate_byte_length
    return (f(EC2Curve.Name.P_256), f(EC2Curve.Value.P_256),
            f(EC2Curve.Name.P_384), f(EC2Curve.Value.P_384),
            f(EC2Curve.Name.P_521), f(EC2Curve.Value.P_521),
            f(OKPCurve.Name.ED25519), f(OKPCurve.Value.ED25519),
            f(OKPCurve.Name.ED448), f(OKPCurve.Value.ED448))


def is_coordinates():
    return (32, 32, 48, 48, 66, 66, 32, 32, 57, 57)


def hashes():
    f = ec2_hash_algorithm
    x = COSEAlgorithmIdentifier
    return (f(x.Name.ES256), f(x.Value.ES256), f(x.Name.ES384),
            f(x.Value.ES384), f(x.Name.ES512), f(x.Value.ES512))


def is_hashes():
    return SHA256(), SHA256(), SHA384(), SHA384(), SHA512(), SHA512()


def keymaster():
    return constants.KM_ORIGIN_GENERATED, constants.KM_PURPOSE_SIGN


def is_keymaster():
    return 0, 2
