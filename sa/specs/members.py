"""The members of every type and their defaults.

Each x is a use, is_x what it has to give. Requirements only; never
executed.
"""
from sa_dsl import make

from webauthn_rp.types import (
    AndroidKeyAttestationStatement,
    AndroidSafetyNetAttestationStatement,
    AttestationConveyancePreference,
    AttestationObject,
    AttestationStatement,
    AttestedCredentialData,
    AuthenticationExtensionsClientInputs,
    AuthenticationExtensionsClientOutputs,
    AuthenticatorAssertionResponse,
    AuthenticatorAttestationResponse,
    AuthenticatorBiometricPerfBounds,
    AuthenticatorData,
    AuthenticatorResponse,
    AuthenticatorSelectionCriteria,
    CollectedClientData,
    Coordinates,
    Credential,
    CredentialCreationOptions,
    CredentialMediationRequirement,
    CredentialPublicKey,
    CredentialRequestOptions,
    EC2CredentialPublicKey,
    FIDOU2FAttestationStatement,
    NoneAttestationStatement,
    OKPCredentialPublicKey,
    Origin,
    PackedAttestationStatement,
    PackedECDAAAttestationStatement,
    PackedX509AttestationStatement,
    PublicKeyCredential,
    PublicKeyCredentialCreationOptions,
    PublicKeyCredentialDescriptor,
    PublicKeyCredentialEntity,
    PublicKeyCredentialParameters,
    PublicKeyCredentialRequestOptions,
    PublicKeyCredentialRpEntity,
    PublicKeyCredentialUserEntity,
    TPMAttestationStatement,
    TPMECDAAAttestationStatement,
    TPMX509AttestationStatement,
    TokenBinding,
    TxAuthGenericArg,
    UserVerificationRequirement)


def all_PublicKeyCredentialEntity(name, icon):
    return PublicKeyCredentialEntity(name=name, icon=icon)


def is_all_PublicKeyCredentialEntity(name, icon):
    return make(PublicKeyCredentialEntity, name=name, icon=icon)


def few_PublicKeyCredentialEntity(name):
    return PublicKeyCredentialEntity(name=name)


def is_few_PublicKeyCredentialEntity(name):
    return make(PublicKeyCredentialEntity, name=name, icon=None)


def all_PublicKeyCredentialRpEntity(name, icon, id):
    return PublicKeyCredentialRpEntity(name=name, icon=icon, id=id)


def is_all_PublicKeyCredentialRpEntity(name, icon, id):
    return make(PublicKeyCredentialRpEntity, name=name, icon=icon, id=id)


def few_PublicKeyCredentialRpEntity(name, id):
    return PublicKeyCredentialRpEntity(name=name, id=id)


def is_few_PublicKeyCredentialRpEntity(name, id):
    return make(PublicKeyCredentialRpEntity, name=name, icon=None, id=id)


def all_PublicKeyCredentialUserEntity(name, icon, id, display_name):
    return PublicKeyCredentialUserEntity(
        name=name,
        icon=icon,
        id=id,
        display_name=display_name)


def is_all_PublicKeyCredentialUserEntity(name, icon, id, display_name):
    return make(
        PublicKeyCredentialUserEntity,
        name=name,
        icon=icon,
        id=id,
        display_name=display_name)


def few_PublicKeyCredentialUserEntity(name, id, display_name):
    return PublicKeyCredentialUserEntity(
        name=name,
        id=id,
        display_name=display_name)


def is_few_PublicKeyCredentialUserEntity(name, id, display_name):
    return make(
        PublicKeyCredentialUserEntity,
        name=name,
        icon=None,
        id=id,
        display_name=display_name)


def all_PublicKeyCredentialParameters(type, alg):
    return PublicKeyCredentialParameters(type=type, alg=alg)


def is_all_PublicKeyCredentialParameters(type, alg):
    return make(PublicKeyCredentialParameters, type=type, alg=alg)


def all_PublicKeyCredentialDescriptor(type, id, transports):
    return PublicKeyCredentialDescriptor(
        type=type,
        id=id,
        transports=transports)


def is_all_PublicKeyCredentialDescriptor(type, id, transports):
    return make(
        PublicKeyCredentialDescriptor,
        type=type,
        id=id,
        transports=transports)


def few_PublicKeyCredentialDescriptor(type, id):
    return PublicKeyCredentialDescriptor(type=type, id=id)


def is_few_PublicKeyCredentialDescriptor(type, id):
    return make(
        PublicKeyCredentialDescriptor,
        type=type,
        id=id,
        transports=None)


def all_TxAuthGenericArg(content_type, content):
    return TxAuthGenericArg(content_type=content_type, content=content)


def is_all_TxAuthGenericArg(content_type, content):
    return make(TxAuthGenericArg, content_type=content_type, content=content)


def all_Coordinates(
        latitude,
        longitude,
        altitude,
        accuracy,
        altitude_accuracy,
        heading,
        speed):
    return Coordinates(
        latitude=latitude,
        longitude=longitude,
        altitude=altitude,
        accuracy=accuracy,
        altitude_accuracy=altitude_accuracy,
        heading=heading,
        speed=speed)


def is_all_Coordinates(
        latitude,
        longitude,
        altitude,
        accuracy,
        altitude_accuracy,
        heading,
        speed):
    return make(
        Coordinates,
        latitude=latitude,
        longitude=longitude,
        altitude=altitude,
        accuracy=accuracy,
        altitude_accuracy=altitude_accuracy,
        heading=heading,
        speed=speed)


def few_Coordinates(latitude, longitude, accuracy):
    return Coordinates(
        latitude=latitude,
        longitude=longitude,
        accuracy=accuracy)


def is_few_Coordinates(latitude, longitude, accuracy):
    return make(
        Coordinates,
        latitude=latitude,
        longitude=longitude,
        altitude=None,
        accuracy=accuracy,
        altitude_accuracy=None,
        heading=None,
        speed=None)


def all_AuthenticatorBiometricPerfBounds(FAR, FRR):
    return AuthenticatorBiometricPerfBounds(FAR=FAR, FRR=FRR)


def is_all_AuthenticatorBiometricPerfBounds(FAR, FRR):
    return make(AuthenticatorBiometricPerfBounds, FAR=FAR, FRR=FRR)


def all_AuthenticationExtensionsClientInputs(
        appid,
        tx_auth_simple,
        tx_auth_generic,
        authn_sel,
        exts,
        uvi,
        loc,
        uvm,
        biometric_perf_bounds):
    return AuthenticationExtensionsClientInputs(
        appid=appid,
        tx_auth_simple=tx_auth_simple,
        tx_auth_generic=tx_auth_generic,
        authn_sel=authn_sel,
        exts=exts,
        uvi=uvi,
        loc=loc,
        uvm=uvm,
        biometric_perf_bounds=biometric_perf_bounds)


def is_all_AuthenticationExtensionsClientInputs(
        appid,
        tx_auth_simple,
        tx_auth_generic,
        authn_sel,
        exts,
        uvi,
        loc,
        uvm,
        biometric_perf_bounds):
    return make(
        AuthenticationExtensionsClientInputs,
        appid=appid,
        tx_auth_simple=tx_auth_simple,
        tx_auth_generic=tx_auth_generic,
        authn_sel=authn_sel,
        exts=exts,
        uvi=uvi,
        loc=loc,
        uvm=uvm,
        biometric_perf_bounds=biometric_perf_bounds)


def few_AuthenticationExtensionsClientInputs():
    return AuthenticationExtensionsClientInputs()


def is_few_AuthenticationExtensionsClientInputs():
    return make(
        AuthenticationExtensionsClientInputs,
        appid=None,
        tx_auth_simple=None,
        tx_auth_generic=None,
        authn_sel=None,
        exts=None,
        uvi=None,
        loc=None,
        uvm=None,
        biometric_perf_bounds=None)


def all_AuthenticationExtensionsClientOutputs(
        appid,
        tx_auth_simple,
        tx_auth_generic,
        authn_sel,
        exts,
        uvi,
        loc,
        uvm,
        biometric_perf_bounds):
    return AuthenticationExtensionsClientOutputs(
        appid=appid,
        tx_auth_simple=tx_auth_simple,
        tx_auth_generic=tx_auth_generic,
        authn_sel=authn_sel,
        exts=exts,
        uvi=uvi,
        loc=loc,
        uvm=uvm,
        biometric_perf_bounds=biometric_perf_bounds)


def is_all_AuthenticationExtensionsClientOutputs(
        appid,
        tx_auth_simple,
        tx_auth_generic,
        authn_sel,
        exts,
        uvi,
        loc,
        uvm,
        biometric_perf_bounds):
    return make(
        AuthenticationExtensionsClientOutputs,
        appid=appid,
        tx_auth_simple=tx_auth_simple,
        tx_auth_generic=tx_auth_generic,
        authn_sel=authn_sel,
        exts=exts,
        uvi=uvi,
        loc=loc,
        uvm=uvm,
        biometric_perf_bounds=biometric_perf_bounds)


def few_AuthenticationExtensionsClientOutputs():
    return AuthenticationExtensionsClientOutputs()


def is_few_AuthenticationExtensionsClientOutputs():
    return make(
        AuthenticationExtensionsClientOutputs,
        appid=None,
        tx_auth_simple=None,
        tx_auth_generic=None,
        authn_sel=None,
        exts=None,
        uvi=None,
        loc=None,
        uvm=None,
        biometric_perf_bounds=None)


def all_AuthenticatorSelectionCriteria(
        authenticator_attachment,
        require_resident_key,
        user_verification):
    return AuthenticatorSelectionCriteria(
        authenticator_attachment=authenticator_attachment,
        require_resident_key=require_resident_key,
        user_verification=user_verification)


def is_all_AuthenticatorSelectionCriteria(
        authenticator_attachment,
        require_resident_key,
        user_verification):
    return make(
        AuthenticatorSelectionCriteria,
        authenticator_attachment=authenticator_attachment,
        require_resident_key=require_resident_key,
        user_verification=user_verification)


def few_AuthenticatorSelectionCriteria():
    return AuthenticatorSelectionCriteria()


def is_few_AuthenticatorSelectionCriteria():
    return make(
        AuthenticatorSelectionCriteria,
        authenticator_attachment=None,
        require_resident_key=False,
        user_verification=UserVerificationRequirement.PREFERRED)


def all_PublicKeyCredentialCreationOptions(
        rp,
        user,
        challenge,
        pub_key_cred_params,
        timeout,
        authenticator_selection,
        extensions,
        attestation,
        exclude_credentials):
    return PublicKeyCredentialCreationOptions(
        rp=rp,
        user=user,
        challenge=challenge,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)


def is_all_PublicKeyCredentialCreationOptions(
        rp,
        user,
        challenge,
        pub_key_cred_params,
        timeout,
        authenticator_selection,
        extensions,
        attestation,
        exclude_credentials):
    return make(
        PublicKeyCredentialCreationOptions,
        rp=rp,
        user=user,
        challenge=challenge,
        pub_key_cred_params=pub_key_cred_params,
        timeout=timeout,
        authenticator_selection=authenticator_selection,
        extensions=extensions,
        attestation=attestation,
        exclude_credentials=exclude_credentials)


def few_PublicKeyCredentialCreationOptions(
        rp,
        user,
        challenge,
        pub_key_cred_params):
    return PublicKeyCredentialCreationOptions(
        rp=rp,
        user=user,
        challenge=challenge,
        pub_key_cred_params=pub_key_cred_params)


def is_few_PublicKeyCredentialCreationOptions(
        rp,
        user,
        challenge,
        pub_key_cred_params):
    return make(
        PublicKeyCredentialCreationOptions,
        rp=rp,
        user=user,
        challenge=challenge,
        pub_key_cred_params=pub_key_cred_params,
        timeout=None,
        authenticator_selection=None,
        extensions=None,
        attestation=AttestationConveyancePreference.NONE,
        exclude_credentials=None)


def all_PublicKeyCredentialRequestOptions(
        challenge,
        timeout,
        rp_id,
        extensions,
        allow_credentials,
        user_verification):
    return PublicKeyCredentialRequestOptions(
        challenge=challenge,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        allow_credentials=allow_credentials,
        user_verification=user_verification)


def is_all_PublicKeyCredentialRequestOptions(
        challenge,
        timeout,
        rp_id,
        extensions,
        allow_credentials,
        user_verification):
    return make(
        PublicKeyCredentialRequestOptions,
        challenge=challenge,
        timeout=timeout,
        rp_id=rp_id,
        extensions=extensions,
        allow_credentials=allow_credentials,
        user_verification=user_verification)


def few_PublicKeyCredentialRequestOptions(challenge):
    return PublicKeyCredentialRequestOptions(challenge=challenge)


def is_few_PublicKeyCredentialRequestOptions(challenge):
    return make(
        PublicKeyCredentialRequestOptions,
        challenge=challenge,
        timeout=None,
        rp_id=None,
        extensions=None,
        allow_credentials=None,
        user_verification=UserVerificationRequirement.PREFERRED)


def all_CredentialCreationOptions(public_key):
    return CredentialCreationOptions(public_key=public_key)


def is_all_CredentialCreationOptions(public_key):
    return make(CredentialCreationOptions, public_key=public_key)


def all_CredentialRequestOptions(mediation, public_key):
    return CredentialRequestOptions(
        mediation=mediation,
        public_key=public_key)


def is_all_CredentialRequestOptions(mediation, public_key):
    return make(
        CredentialRequestOptions,
        mediation=mediation,
        public_key=public_key)


def few_CredentialRequestOptions(public_key):
    return CredentialRequestOptions(public_key=public_key)


def is_few_CredentialRequestOptions(public_key):
    return make(
        CredentialRequestOptions,
        mediation=CredentialMediationRequirement.OPTIONAL,
        public_key=public_key)


def all_AuthenticatorResponse(client_data_JSON):
    return AuthenticatorResponse(client_data_JSON=client_data_JSON)


def is_all_AuthenticatorResponse(client_data_JSON):
    return make(AuthenticatorResponse, client_data_JSON=client_data_JSON)


def all_AuthenticatorAttestationResponse(
        client_data_JSON,
        attestation_object):
    return AuthenticatorAttestationResponse(
        client_data_JSON=client_data_JSON,
        attestation_object=attestation_object)


def is_all_AuthenticatorAttestationResponse(
        client_data_JSON,
        attestation_object):
    return make(
        AuthenticatorAttestationResponse,
        client_data_JSON=client_data_JSON,
        attestation_object=attestation_object)


def all_AuthenticatorAssertionResponse(
        client_data_JSON,
        authenticator_data,
        signature,
        user_handle):
    return AuthenticatorAssertionResponse(
        client_data_JSON=client_data_JSON,
        authenticator_data=authenticator_data,
        signature=signature,
        user_handle=user_handle)


def is_all_AuthenticatorAssertionResponse(
        client_data_JSON,
        authenticator_data,
        signature,
        user_handle):
    return make(
        AuthenticatorAssertionResponse,
        client_data_JSON=client_data_JSON,
        authenticator_data=authenticator_data,
        signature=signature,
        user_handle=user_handle)


def few_AuthenticatorAssertionResponse(
        client_data_JSON,
        authenticator_data,
        signature):
    return AuthenticatorAssertionResponse(
        client_data_JSON=client_data_JSON,
        authenticator_data=authenticator_data,
        signature=signature)


def is_few_AuthenticatorAssertionResponse(
        client_data_JSON,
        authenticator_data,
        signature):
    return make(
        AuthenticatorAssertionResponse,
        client_data_JSON=client_data_JSON,
        authenticator_data=authenticator_data,
        signature=signature,
        user_handle=None)


def all_Credential(id, type):
    return Credential(id=id, type=type)


def is_all_Credential(id, type):
    return make(Credential, id=id, type=type)


def all_PublicKeyCredential(id, type, raw_id, response):
    return PublicKeyCredential(
        id=id,
        type=type,
        raw_id=raw_id,
        response=response)


def is_all_PublicKeyCredential(id, type, raw_id, response):
    return make(
        PublicKeyCredential,
        id=id,
        type=type,
        raw_id=raw_id,
        response=response)


def all_TokenBinding(status, id):
    return TokenBinding(status=status, id=id)


def is_all_TokenBinding(status, id):
    return make(TokenBinding, status=status, id=id)


def few_TokenBinding(status):
    return TokenBinding(status=status)


def is_few_TokenBinding(status):
    return make(TokenBinding, status=status, id=None)


def all_CollectedClientData(type, challenge, origin, token_binding):
    return CollectedClientData(
        type=type,
        challenge=challenge,
        origin=origin,
        token_binding=token_binding)


def is_all_CollectedClientData(type, challenge, origin, token_binding):
    return make(
        CollectedClientData,
        type=type,
        challenge=challenge,
        origin=origin,
        token_binding=token_binding)


def few_CollectedClientData(type, challenge, origin):
    return CollectedClientData(type=type, challenge=challenge, origin=origin)


def is_few_CollectedClientData(type, challenge, origin):
    return make(
        CollectedClientData,
        type=type,
        challenge=challenge,
        origin=origin,
        token_binding=None)


def all_CredentialPublicKey(kty, kid, alg, key_ops, base_IV):
    return CredentialPublicKey(
        kty=kty,
        kid=kid,
        alg=alg,
        key_ops=key_ops,
        base_IV=base_IV)


def is_all_CredentialPublicKey(kty, kid, alg, key_ops, base_IV):
    return make(
        CredentialPublicKey,
        kty=kty,
        kid=kid,
        alg=alg,
        key_ops=key_ops,
        base_IV=base_IV)


def few_CredentialPublicKey(kty):
    return CredentialPublicKey(kty=kty)


def is_few_CredentialPublicKey(kty):
    return make(
        CredentialPublicKey,
        kty=kty,
        kid=None,
        alg=None,
        key_ops=None,
        base_IV=None)


def all_EC2CredentialPublicKey(kty, kid, alg, key_ops, base_IV, x, y, crv):
    return EC2CredentialPublicKey(
        kty=kty,
        kid=kid,
        alg=alg,
        key_ops=key_ops,
        base_IV=base_IV,
        x=x,
        y=y,
        crv=crv)


def is_all_EC2CredentialPublicKey(kty, kid, alg, key_ops, base_IV, x, y, crv):
    return make(
        EC2CredentialPublicKey,
        kty=kty,
        kid=kid,
        alg=alg,
        key_ops=key_ops,
        base_IV=base_IV,
        x=x,
        y=y,
        crv=crv)


def few_EC2CredentialPublicKey(kty, x, y, crv):
    return EC2CredentialPublicKey(kty=kty, x=x, y=y, crv=crv)


def is_few_EC2CredentialPublicKey(kty, x, y, crv):
    return make(
        EC2CredentialPublicKey,
        kty=kty,
        kid=None,
        alg=None,
        key_ops=None,
        base_IV=None,
        x=x,
        y=y,
        crv=crv)


def all_OKPCredentialPublicKey(kty, kid, alg, key_ops, base_IV, crv, x):
    return OKPCredentialPublicKey(
        kty=kty,
        kid=kid,
        alg=alg,
        key_ops=key_ops,
        base_IV=base_IV,
        crv=crv,
        x=x)


def is_all_OKPCredentialPublicKey(kty, kid, alg, key_ops, base_IV, crv, x):
    return make(
        OKPCredentialPublicKey,
        kty=kty,
        kid=kid,
        alg=alg,
        key_ops=key_ops,
        base_IV=base_IV,
        crv=crv,
        x=x)


def few_OKPCredentialPublicKey(kty, crv, x):
    return OKPCredentialPublicKey(kty=kty, crv=crv, x=x)


def is_few_OKPCredentialPublicKey(kty, crv, x):
    return make(
        OKPCredentialPublicKey,
        kty=kty,
        kid=None,
        alg=None,
        key_ops=None,
        base_IV=None,
        crv=crv,
        x=x)


def all_AttestedCredentialData(
        aaguid,
        credential_id_length,
        credential_id,
        credential_public_key):
    return AttestedCredentialData(
        aaguid=aaguid,
        credential_id_length=credential_id_length,
        credential_id=credential_id,
        credential_public_key=credential_public_key)


def is_all_AttestedCredentialData(
        aaguid,
        credential_id_length,
        credential_id,
        credential_public_key):
    return make(
        AttestedCredentialData,
        aaguid=aaguid,
        credential_id_length=credential_id_length,
        credential_id=credential_id,
        credential_public_key=credential_public_key)


def few_AttestedCredentialData(aaguid, credential_id_length, credential_id):
    return AttestedCredentialData(
        aaguid=aaguid,
        credential_id_length=credential_id_length,
        credential_id=credential_id)


def is_few_AttestedCredentialData(
        aaguid,
        credential_id_length,
        credential_id):
    return make(
        AttestedCredentialData,
        aaguid=aaguid,
        credential_id_length=credential_id_length,
        credential_id=credential_id,
        credential_public_key=None)


def all_AuthenticatorData(
        rp_id_hash,
        flags,
        sign_count,
        attested_credential_data,
        extensions):
    return AuthenticatorData(
        rp_id_hash=rp_id_hash,
        flags=flags,
        sign_count=sign_count,
        attested_credential_data=attested_credential_data,
        extensions=extensions)


def is_all_AuthenticatorData(
        rp_id_hash,
        flags,
        sign_count,
        attested_credential_data,
        extensions):
    return make(
        AuthenticatorData,
        rp_id_hash=rp_id_hash,
        flags=flags,
        sign_count=sign_count,
        attested_credential_data=attested_credential_data,
        extensions=extensions)


def few_AuthenticatorData(rp_id_hash, flags, sign_count):
    return AuthenticatorData(
        rp_id_hash=rp_id_hash,
        flags=flags,
        sign_count=sign_count)


def is_few_AuthenticatorData(rp_id_hash, flags, sign_count):
    return make(
        AuthenticatorData,
        rp_id_hash=rp_id_hash,
        flags=flags,
        sign_count=sign_count,
        attested_credential_data=None,
        extensions=None)


def all_AttestationStatement(alg, sig):
    return AttestationStatement(alg=alg, sig=sig)


def is_all_AttestationStatement(alg, sig):
    return make(AttestationStatement, alg=alg, sig=sig)


def few_AttestationStatement():
    return AttestationStatement()


def is_few_AttestationStatement():
    return make(AttestationStatement, alg=None, sig=None)


def all_PackedAttestationStatement(alg, sig):
    return PackedAttestationStatement(alg=alg, sig=sig)


def is_all_PackedAttestationStatement(alg, sig):
    return make(PackedAttestationStatement, alg=alg, sig=sig)


def all_PackedX509AttestationStatement(alg, sig, x5c):
    return PackedX509AttestationStatement(alg=alg, sig=sig, x5c=x5c)


def is_all_PackedX509AttestationStatement(alg, sig, x5c):
    return make(PackedX509AttestationStatement, alg=alg, sig=sig, x5c=x5c)


def all_PackedECDAAAttestationStatement(alg, sig, ecdaa_key_id):
    return PackedECDAAAttestationStatement(
        alg=alg,
        sig=sig,
        ecdaa_key_id=ecdaa_key_id)


def is_all_PackedECDAAAttestationStatement(alg, sig, ecdaa_key_id):
    return make(
        PackedECDAAAttestationStatement,
        alg=alg,
        sig=sig,
        ecdaa_key_id=ecdaa_key_id)


def all_TPMAttestationStatement(alg, sig, ver, cert_info, pub_area):
    return TPMAttestationStatement(
        alg=alg,
        sig=sig,
        ver=ver,
        cert_info=cert_info,
        pub_area=pub_area)


def is_all_TPMAttestationStatement(alg, sig, ver, cert_info, pub_area):
    return make(
        TPMAttestationStatement,
        alg=alg,
        sig=sig,
        ver=ver,
        cert_info=cert_info,
        pub_area=pub_area)


def all_TPMX509AttestationStatement(alg, sig, ver, cert_info, pub_area, x5c):
    return TPMX509AttestationStatement(
        alg=alg,
        sig=sig,
        ver=ver,
        cert_info=cert_info,
        pub_area=pub_area,
        x5c=x5c)


def is_all_TPMX509AttestationStatement(
        alg,
        sig,
        ver,
        cert_info,
        pub_area,
        x5c):
    return make(
        TPMX509AttestationStatement,
        alg=alg,
        sig=sig,
        ver=ver,
        cert_info=cert_info,
        pub_area=pub_area,
        x5c=x5c)


def all_TPMECDAAAttestationStatement(
        alg,
        sig,
        ver,
        cert_info,
        pub_area,
        ecdaa_key_id):
    return TPMECDAAAttestationStatement(
        alg=alg,
        sig=sig,
        ver=ver,
        cert_info=cert_info,
        pub_area=pub_area,
        ecdaa_key_id=ecdaa_key_id)


def is_all_TPMECDAAAttestationStatement(
        alg,
        sig,
        ver,
        cert_info,
        pub_area,
        ecdaa_key_id):
    return make(
        TPMECDAAAttestationStatement,
        alg=alg,
        sig=sig,
        ver=ver,
        cert_info=cert_info,
        pub_area=pub_area,
        ecdaa_key_id=ecdaa_key_id)


def all_AndroidKeyAttestationStatement(alg, sig, x5c):
    return AndroidKeyAttestationStatement(alg=alg, sig=sig, x5c=x5c)


def is_all_AndroidKeyAttestationStatement(alg, sig, x5c):
    return make(AndroidKeyAttestationStatement, alg=alg, sig=sig, x5c=x5c)


def all_AndroidSafetyNetAttestationStatement(ver, response):
    return AndroidSafetyNetAttestationStatement(ver=ver, response=response)


def is_all_AndroidSafetyNetAttestationStatement(ver, response):
    return make(
        AndroidSafetyNetAttestationStatement,
        alg=None,
        sig=None,
        ver=ver,
        response=response)


def all_FIDOU2FAttestationStatement(sig, x5c):
    return FIDOU2FAttestationStatement(sig=sig, x5c=x5c)


def is_all_FIDOU2FAttestationStatement(sig, x5c):
    return make(FIDOU2FAttestationStatement, alg=None, sig=sig, x5c=x5c)


def all_AttestationObject(auth_data, fmt, att_stmt):
    return AttestationObject(auth_data=auth_data, fmt=fmt, att_stmt=att_stmt)


def is_all_AttestationObject(auth_data, fmt, att_stmt):
    return make(
        AttestationObject,
        auth_data=auth_data,
        fmt=fmt,
        att_stmt=att_stmt)


def all_NoneAttestationStatement():
    return NoneAttestationStatement()


def is_all_NoneAttestationStatement():
    return make(NoneAttestationStatement, alg=None, sig=None)


def all_Origin(scheme, hostname, port):
    o = Origin(scheme=scheme, hostname=hostname, port=port)
    return o.scheme, o.hostname, o.port, o[0], o[1], o[2]


def is_all_Origin(scheme, hostname, port):
    return scheme, hostname, port, scheme, hostname, port
