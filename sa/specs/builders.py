"""What the builders build.

Each x is a use, is_x what it has to give. Requirements only;
never executed.
"""
from copy import deepcopy
from typing import Optional, Sequence

from sa_dsl import make

from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)
from webauthn_rp.types import (
    AttestationConveyancePreference, AuthenticationExtensionsClientInputs,
    AuthenticatorSelectionCriteria, CredentialCreationOptions,
    CredentialMediationRequirement, CredentialRequestOptions,
    PublicKeyCredentialCreationOptions, PublicKeyCredentialDescriptor,
    PublicKeyCredentialParameters, PublicKeyCredentialRequestOptions,
    PublicKeyCredentialRpEntity, PublicKeyCredentialUserEntity,
    UserVerificationRequirement)


def creation_build(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    return b.build(user=user, challenge=challenge)


def is_creation_build(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_rp(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: PublicKeyCredentialRpEntity,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.rp(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_rp(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: PublicKeyCredentialRpEntity,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=new,
            pub_key_cred_params=deepcopy(pub_key_cred_params),
            timeout=deepcopy(timeout),
            authenticator_selection=deepcopy(authenticator_selection),
            extensions=deepcopy(extensions),
            attestation=deepcopy(attestation),
            exclude_credentials=deepcopy(exclude_credentials),
            user=user,
            challenge=challenge))


def creation_keep_rp(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: PublicKeyCredentialRpEntity,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.rp(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_rp(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: PublicKeyCredentialRpEntity,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_pub_key_cred_params(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Sequence[PublicKeyCredentialParameters],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.pub_key_cred_params(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_pub_key_cred_params(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Sequence[PublicKeyCredentialParameters],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=deepcopy(rp),
            pub_key_cred_params=new,
            timeout=deepcopy(timeout),
            authenticator_selection=deepcopy(authenticator_selection),
            extensions=deepcopy(extensions),
            attestation=deepcopy(attestation),
            exclude_credentials=deepcopy(exclude_credentials),
            user=user,
            challenge=challenge))


def creation_keep_pub_key_cred_params(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Sequence[PublicKeyCredentialParameters],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.pub_key_cred_params(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_pub_key_cred_params(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Sequence[PublicKeyCredentialParameters],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_timeout(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[int],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.timeout(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_timeout(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[int],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=deepcopy(rp),
            pub_key_cred_params=deepcopy(pub_key_cred_params),
            timeout=new,
            authenticator_selection=deepcopy(authenticator_selection),
            extensions=deepcopy(extensions),
            attestation=deepcopy(attestation),
            exclude_credentials=deepcopy(exclude_credentials),
            user=user,
            challenge=challenge))


def creation_keep_timeout(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[int],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.timeout(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_timeout(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[int],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_authenticator_selection(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticatorSelectionCriteria],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.authenticator_selection(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_authenticator_selection(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticatorSelectionCriteria],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=deepcopy(rp),
            pub_key_cred_params=deepcopy(pub_key_cred_params),
            timeout=deepcopy(timeout),
            authenticator_selection=new,
            extensions=deepcopy(extensions),
            attestation=deepcopy(attestation),
            exclude_credentials=deepcopy(exclude_credentials),
            user=user,
            challenge=challenge))


def creation_keep_authenticator_selection(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticatorSelectionCriteria],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.authenticator_selection(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_authenticator_selection(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticatorSelectionCriteria],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_extensions(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticationExtensionsClientInputs],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.extensions(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_extensions(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticationExtensionsClientInputs],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=deepcopy(rp),
            pub_key_cred_params=deepcopy(pub_key_cred_params),
            timeout=deepcopy(timeout),
            authenticator_selection=deepcopy(authenticator_selection),
            extensions=new,
            attestation=deepcopy(attestation),
            exclude_credentials=deepcopy(exclude_credentials),
            user=user,
            challenge=challenge))


def creation_keep_extensions(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticationExtensionsClientInputs],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.extensions(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_extensions(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[AuthenticationExtensionsClientInputs],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_attestation(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: AttestationConveyancePreference,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.attestation(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_attestation(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: AttestationConveyancePreference,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=deepcopy(rp),
            pub_key_cred_params=deepcopy(pub_key_cred_params),
            timeout=deepcopy(timeout),
            authenticator_selection=deepcopy(authenticator_selection),
            extensions=deepcopy(extensions),
            attestation=new,
            exclude_credentials=deepcopy(exclude_credentials),
            user=user,
            challenge=challenge))


def creation_keep_attestation(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: AttestationConveyancePreference,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.attestation(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_attestation(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: AttestationConveyancePreference,
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_set_exclude_credentials(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[Sequence[PublicKeyCredentialDescriptor]],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    c = b.exclude_credentials(new)
    return c.build(user=user, challenge=challenge)


def is_creation_set_exclude_credentials(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[Sequence[PublicKeyCredentialDescriptor]],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=deepcopy(rp),
            pub_key_cred_params=deepcopy(pub_key_cred_params),
            timeout=deepcopy(timeout),
            authenticator_selection=deepcopy(authenticator_selection),
            extensions=deepcopy(extensions),
            attestation=deepcopy(attestation),
            exclude_credentials=new,
            user=user,
            challenge=challenge))


def creation_keep_exclude_credentials(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[Sequence[PublicKeyCredentialDescriptor]],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(
        rp=rp,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)
    b.exclude_credentials(new)
    return b.build(user=user, challenge=challenge)


def is_creation_keep_exclude_credentials(
        rp: Optional[PublicKeyCredentialRpEntity],
        pub_key_cred_params: Optional[Sequence[PublicKeyCredentialParameters]],
        timeout: Optional[int],
        authenticator_selection: Optional[AuthenticatorSelectionCriteria],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        attestation: Optional[AttestationConveyancePreference],
        exclude_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]],
        new: Optional[Sequence[PublicKeyCredentialDescriptor]],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    assert rp is not None, 'rp is set'
    assert pub_key_cred_params is not None, 'pub_key_cred_params is set'
    assert attestation is not None, 'attestation is set'
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=timeout,
            authenticator_selection=authenticator_selection,
            extensions=extensions,
            attestation=attestation,
            exclude_credentials=exclude_credentials,
            user=user,
            challenge=challenge))


def creation_default(
        rp: PublicKeyCredentialRpEntity,
        pub_key_cred_params: Sequence[PublicKeyCredentialParameters],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    b = CredentialCreationOptionsBuilder(rp=rp, pub_key_cred_params=pub_key_cred_params)
    return b.build(user=user, challenge=challenge)


def is_creation_default(
        rp: PublicKeyCredentialRpEntity,
        pub_key_cred_params: Sequence[PublicKeyCredentialParameters],
        user: PublicKeyCredentialUserEntity,
        challenge: bytes):
    return make(
        CredentialCreationOptions,
        public_key=make(
            PublicKeyCredentialCreationOptions,
            rp=rp,
            pub_key_cred_params=pub_key_cred_params,
            timeout=None,
            authenticator_selection=None,
            extensions=None,
            attestation=AttestationConveyancePreference.NONE,
            exclude_credentials=None,
            user=user,
            challenge=challenge))


def request_build(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_build(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=timeout,
            rp_id=rp_id,
            extensions=extensions,
            user_verification=user_verification,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_set_mediation(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: CredentialMediationRequirement,
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    c = b.mediation(new)
    return c.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_set_mediation(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: CredentialMediationRequirement,
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    return make(
        CredentialRequestOptions,
        mediation=new,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=deepcopy(timeout),
            rp_id=deepcopy(rp_id),
            extensions=deepcopy(extensions),
            user_verification=deepcopy(user_verification),
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_keep_mediation(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: CredentialMediationRequirement,
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    b.mediation(new)
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_keep_mediation(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: CredentialMediationRequirement,
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=timeout,
            rp_id=rp_id,
            extensions=extensions,
            user_verification=user_verification,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_set_timeout(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[int],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    c = b.timeout(new)
    return c.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_set_timeout(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[int],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=deepcopy(mediation),
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=new,
            rp_id=deepcopy(rp_id),
            extensions=deepcopy(extensions),
            user_verification=deepcopy(user_verification),
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_keep_timeout(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[int],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    b.timeout(new)
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_keep_timeout(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[int],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=timeout,
            rp_id=rp_id,
            extensions=extensions,
            user_verification=user_verification,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_set_rp_id(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[str],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    c = b.rp_id(new)
    return c.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_set_rp_id(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[str],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=deepcopy(mediation),
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=deepcopy(timeout),
            rp_id=new,
            extensions=deepcopy(extensions),
            user_verification=deepcopy(user_verification),
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_keep_rp_id(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[str],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    b.rp_id(new)
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_keep_rp_id(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[str],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=timeout,
            rp_id=rp_id,
            extensions=extensions,
            user_verification=user_verification,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_set_extensions(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[AuthenticationExtensionsClientInputs],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    c = b.extensions(new)
    return c.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_set_extensions(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[AuthenticationExtensionsClientInputs],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=deepcopy(mediation),
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=deepcopy(timeout),
            rp_id=deepcopy(rp_id),
            extensions=new,
            user_verification=deepcopy(user_verification),
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_keep_extensions(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[AuthenticationExtensionsClientInputs],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    b.extensions(new)
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_keep_extensions(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[AuthenticationExtensionsClientInputs],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=timeout,
            rp_id=rp_id,
            extensions=extensions,
            user_verification=user_verification,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_set_user_verification(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[UserVerificationRequirement],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    c = b.user_verification(new)
    return c.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_set_user_verification(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[UserVerificationRequirement],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=deepcopy(mediation),
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=deepcopy(timeout),
            rp_id=deepcopy(rp_id),
            extensions=deepcopy(extensions),
            user_verification=new,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_keep_user_verification(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[UserVerificationRequirement],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder(
        mediation=mediation,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        user_verification=user_verification)
    b.user_verification(new)
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_keep_user_verification(
        mediation: Optional[CredentialMediationRequirement],
        timeout: Optional[int],
        rp_id: Optional[str],
        extensions: Optional[AuthenticationExtensionsClientInputs],
        user_verification: Optional[UserVerificationRequirement],
        new: Optional[UserVerificationRequirement],
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    assert mediation is not None, 'mediation is set'
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=timeout,
            rp_id=rp_id,
            extensions=extensions,
            user_verification=user_verification,
            challenge=challenge,
            allow_credentials=allow_credentials))


def request_default(
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    b = CredentialRequestOptionsBuilder()
    return b.build(challenge=challenge, allow_credentials=allow_credentials)


def is_request_default(
        challenge: bytes,
        allow_credentials: Optional[Sequence[PublicKeyCredentialDescriptor]]):
    return make(
        CredentialRequestOptions,
        mediation=CredentialMediationRequirement.OPTIONAL,
        public_key=make(
            PublicKeyCredentialRequestOptions,
            timeout=None,
            rp_id=None,
            extensions=None,
            user_verification=UserVerificationRequirement.PREFERRED,
            challenge=challenge,
            allow_credentials=allow_credentials))
