"""Extension identifiers, attributes and wire names.

Each x is a use, is_x what it has to give. Requirements only; never executed.
"""
from webauthn_rp.types import (AuthenticationExtensionsClientInputs,
                               AuthenticationExtensionsClientOutputs,
                               ExtensionIdentifier)
from webauthn_rp.utils import snake_to_camel_case


def keys():
    return [m.key for m in (
        ExtensionIdentifier.APPID, ExtensionIdentifier.TX_AUTH_SIMPLE,
        ExtensionIdentifier.TX_AUTH_GENERIC, ExtensionIdentifier.AUTHN_SEL,
        ExtensionIdentifier.EXTS, ExtensionIdentifier.UVI,
        ExtensionIdentifier.LOC, ExtensionIdentifier.UVM,
        ExtensionIdentifier.BIOMETRIC_PERF_BOUNDS)]


def is_keys():
    return ['appid', 'tx_auth_simple', 'tx_auth_generic', 'authn_sel', 'exts',
            'uvi', 'loc', 'uvm', 'biometric_perf_bounds']


def wire():
    return [snake_to_camel_case(m.key) for m in ExtensionIdentifier]


def is_wire():
    return [m.value for m in ExtensionIdentifier]


def inputs():
    i = AuthenticationExtensionsClientInputs()
    return [hasattr(i, m.key) for m in ExtensionIdentifier]


def is_inputs():
    return [True for m in ExtensionIdentifier]


def outputs():
    o = AuthenticationExtensionsClientOutputs()
    return [hasattr(o, m.key) for m in ExtensionIdentifier]


def is_outputs():
    return [True for m in ExtensionIdentifier]


def filled(appid, tx_auth_simple, tx_auth_generic, authn_sel, exts, uvi, loc,
           uvm, biometric_perf_bounds):
    i = AuthenticationExtensionsClientInputs(
        appid=appid, tx_auth_simple=tx_auth_simple,
        tx_auth_generic=tx_auth_generic, authn_sel=authn_sel, exts=exts,
        uvi=uvi, loc=loc, uvm=uvm,
        biometric_perf_bounds=biometric_perf_bounds)
    o = AuthenticationExtensionsClientOutputs(
        appid=appid, tx_auth_simple=tx_auth_simple,
        tx_auth_generic=tx_auth_generic, authn_sel=authn_sel, exts=exts,
        uvi=uvi, loc=loc, uvm=uvm,
        biometric_perf_bounds=biometric_perf_bounds)
    return [(getattr(i, m.key), getattr(o, m.key)) for m in (
        ExtensionIdentifier.APPID, ExtensionIdentifier.TX_AUTH_SIMPLE,
        ExtensionIdentifier.TX_AUTH_GENERIC, ExtensionIdentifier.AUTHN_SEL,
        ExtensionIdentifier.EXTS, ExtensionIdentifier.UVI,
        ExtensionIdentifier.LOC, ExtensionIdentifier.UVM,
        ExtensionIdentifier.BIOMETRIC_PERF_BOUNDS)]


def is_filled(appid, tx_auth_simple, tx_auth_generic, authn_sel, exts, uvi,
              loc, uvm, biometric_perf_bounds):
    return [(x, x) for x in (appid, tx_auth_simple, tx_auth_generic,
                             authn_sel, exts, uvi, loc, uvm,
                             biometric_perf_bounds)]
