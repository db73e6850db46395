"""The ASN.1 classes. Only analysed."""
from webauthn_rp.asn1 import (AuthorizationList, KeyDescription, RootOfTrust,
                              SecurityLevel, VerifiedBootState)


def component_AuthorizationList():
    return AuthorizationList.componentType


def component_KeyDescription():
    return KeyDescription.componentType


def component_RootOfTrust():
    return RootOfTrust.componentType


def component_SecurityLevel():
    return SecurityLevel.componentType


def component_VerifiedBootState():
    return VerifiedBootState.componentType
