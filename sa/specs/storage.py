"""What storage returns for a credential: its parts and their defaults.

Each x is a use, is_x what it has to give. Requirements only; never
executed.
"""
from webauthn_rp.registrars import CredentialData


def named_CredentialData(key, count, user, rp):
    d = CredentialData(credential_public_key=key, signature_count=count,
                       user_entity=user, rp_entity=rp)
    return (d.credential_public_key, d.signature_count, d.user_entity,
            d.rp_entity)


def is_named_CredentialData(key, count, user, rp):
    return key, count, user, rp


def placed_CredentialData(key, count, user, rp):
    d = CredentialData(key, count, user, rp)
    return (d.credential_public_key, d.signature_count, d.user_entity,
            d.rp_entity)


def is_placed_CredentialData(key, count, user, rp):
    return key, count, user, rp


def least_CredentialData(key, count, user):
    d = CredentialData(key, count, user)
    return (d.credential_public_key, d.signature_count, d.user_entity,
            d.rp_entity)


def is_least_CredentialData(key, count, user):
    return key, count, user, None
