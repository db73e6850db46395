"""One checking function per property."""
import ast
import os

from .project import AnalysisBroken
from .interp import ANY
from .models import norm_attr
from .state import UNBOUND
from .terms import gamma
from .rules import *

ASSUMPTIONS = [
    'The library models (json, cbor2, base64, hashlib, urllib.parse, struct, '
    'io, re, enum, dataclasses, cryptography, pyasn1) describe the installed '
    'versions.',
    'Declared types of entry point parameters hold; nothing is assumed about '
    'decoded messages.',
    'Python assertions are not relied on (the result holds under -O too).',
]
# fewest obligations a sound run has on the confirmed tree (a lower count
# means that the rules matched nothing)
MINIMUM = {}

REG = 'backends.CredentialsBackend.handle_credential_attestation'
AUTH = 'backends.CredentialsBackend.handle_credential_assertion'
REGISTRAR = 'registrars.CredentialsRegistrar'
PARSE_AO = 'parsers.parse_attestation_object'
PARSE_AD = 'parsers.parse_authenticator_data'
ATTEST = 'attesters.attest'
VERIFY = 'verifiers.verify'


def C01(c):
    r = c.run(REG, (PARSE_AO, ATTEST), (REGISTRAR, ))
    s = c.spec(r, 'ceremony.registration_binding')
    c.success('every successful registration is bound', r, s)


def C02(c):
    r = c.run(AUTH, (PARSE_AD, VERIFY), (REGISTRAR, ))
    s = c.spec(r, 'ceremony.authentication_binding')
    c.success('every successful authentication is bound', r, s)


def C03(c):
    for name, op in ((REG, (PARSE_AO, ATTEST)), (AUTH, (PARSE_AD, VERIFY))):
        r = c.run(name, op, (REGISTRAR, ))
        s = c.spec(r, 'ceremony.token_binding_state')
        c.success('token binding state matches', r, s)


GET = 'get_credential_data'
OPAQUE_REG = (PARSE_AO, ATTEST)
OPAQUE_AUTH = (PARSE_AD, VERIFY)
KEYS = ('parsers.parse_cose_key', 'validators.validate',
        'parsers.parse_extensions')
STMTS = tuple('parsers.parse_%s_attestation_statement' % x
              for x in ('packed', 'tpm', 'android_key', 'android_safetynet',
                        'fido_u2f', 'none'))


def reg(c, opaque=OPAQUE_REG):
    return c.run(REG, opaque, (REGISTRAR, ))


def auth(c, opaque=OPAQUE_AUTH):
    """(run, the credential data the storage returned)"""
    r = c.run(AUTH, opaque, (REGISTRAR, ))
    e = c.the_event('the storage is asked for the credential', r, GET)
    if e is None:
        return r, None
    asked = e.args.get('credential_id')
    want = mk('attr', r.params['credential'], 'raw_id')
    ok, why = agree(r.ctx, asked, want)
    c.ob('the storage is asked for the credential', e.site,
         'asked for the raw ID of the given credential', ok, why)
    return r, e.term


# ---- what the ceremonies rely on, as far as acceptance goes
def part(t, *path):
    """a component of a result: field names, or keys in a 1-tuple"""
    for p in path:
        t = item(t, const(p[0])) if type(p) is tuple else field(t, p)
    return t


def field(t, name):
    if t.op == 'gamma':
        return gamma(t.args[0], field(t.args[1], name),
                     field(t.args[2], name))
    if t.op in ('rec', 'nt'):
        return dict(t.args[1]).get(name, UNBOUND)
    return norm_attr(t, name)


def same_parts(c, rule, r, s, parts):
    if not r.returns:
        return c.never(rule, r)
    for what, path in parts:
        c.equal_terms(rule, r, r.ctx, part(r.value, *path),
                      part(s.value, *path), r.site(), what)


def attestation_parts(c, rule, *parts):
    """these parts of a parsed attestation object are the transmitted ones"""
    def way(*opaque):
        def go():
            r = c.run(PARSE_AO, opaque)
            s = c.spec(r, 'messages.attestation_object')
            same_parts(c, rule, r, s, [AO_PARTS[p] for p in parts])
        return go
    c.either(way(PARSE_AD, *STMTS), way(*STMTS))


AO_PARTS = {
    'stmt': ('the statement parsed as its format says',
             ((0, ), 'att_stmt')),
    'data': ('the parsed authenticator data', ((0, ), 'auth_data')),
    'raw': ('the raw authenticator data', ((1, ), ('authData', ))),
}


def data_parts(c, rule, *parts):
    """these fields of parsed authenticator data are the transmitted ones"""
    def way(*opaque):
        def go():
            r = c.run(PARSE_AD, opaque)
            s = c.spec(r, 'messages.authenticator_data')
            same_parts(c, rule, r, s, [('the field ' + p, (p, ))
                                       for p in parts])
        return go
    c.either(way(*KEYS), way(*KEYS[2:]))


def parsed_only(c, rule, name, spec):
    """a parser accepts and returns only what the reference does"""
    r = c.run(name)
    s = c.spec(r, spec)
    if c.goals(s):
        c.success(rule, r, s)
    c.value(rule, r, s)


def verified_only(c, rule):
    """the signature primitive returns only for a verified signature"""
    def way(*opaque):
        def go():
            r = c.run(VERIFY, opaque)
            c.success(rule, r, c.spec(r, 'keys.verified'))
        return go
    c.either(way(CPK), way())
    converted_only(c, rule)


def converted_only(c, rule):
    """key conversion returns only the same key"""
    f = c.fn(CPK)
    for cls, spec in ((EC2, 'keys.ec2_converted'),
                      (OKP, 'keys.okp_converted')):
        r = c.run(f, assume=known_key(c, f, cls))
        s = c.spec(r, spec)
        c.success(rule, r, s)
        c.value(rule, r, s)


def C04(c):
    r = reg(c, (ATTEST, ) + KEYS + STMTS)
    c.success('RP ID hash of a registration', r,
              c.spec(r, 'ceremony.registration_rp_hash'))
    r, cd = auth(c, (VERIFY, ) + KEYS)
    if cd is not None:
        c.success('RP ID hash of an authentication', r,
                  c.spec(r, 'ceremony.authentication_rp_hash', stored=cd))


def C05(c):
    r = reg(c, (ATTEST, ) + KEYS + STMTS)
    c.success('user flags of a registration', r,
              c.spec(r, 'ceremony.registration_user'))
    r, cd = auth(c, (VERIFY, ) + KEYS)
    c.success('user flags of an authentication', r,
              c.spec(r, 'ceremony.authentication_user'))


def C06(c):
    r = reg(c)
    c.success('required extensions of a registration', r,
              c.spec(r, 'ceremony.registration_extensions'))
    r, cd = auth(c)
    c.success('required extensions of an authentication', r,
              c.spec(r, 'ceremony.authentication_extensions'))
    rule = 'an output is there only when the authenticator sent it'
    attestation_parts(c, rule, 'data')
    data_parts(c, rule, 'extensions')
    parsed_only(c, rule, PARSE + 'extensions', 'messages.extension_outputs')
    for r in uses(c, 'extensions', lambda x: 'types.ExtensionIdentifier'):
        pass


def C07(c):
    r = reg(c)
    s = c.spec(r, 'ceremony.attested')
    c.success('attestation procedure', r, s)
    e = c.the_event('the storage is told', r, 'register_credential_attestation')
    if e is not None:
        c.equal_terms('attestation result', r, r.ctx, e.args.get('att_type'),
                      item(s.value, const(0)), e.site, 'attestation type')
        c.equal_terms('attestation result', r, r.ctx,
                      e.args.get('trusted_path'), item(s.value, const(1)),
                      e.site, 'trust path')
    attestation_parts(c, 'what the procedure is given', 'stmt', 'data', 'raw')


def C08(c):
    r, cd = auth(c)
    if cd is not None:
        c.success('assertion signature', r,
                  c.spec(r, 'ceremony.signature', stored=cd))
    verified_only(c, 'the primitive accepts only a verified signature')


def C09(c):
    r, cd = auth(c)
    if cd is not None:
        c.success('credential ownership', r,
                  c.spec(r, 'ceremony.ownership', stored=cd))


def C10(c):
    r, cd = auth(c)
    if cd is None:
        return
    c.success('relying party resolution', r,
              c.spec(r, 'ceremony.relying_party', stored=cd))
    e = c.the_event('the storage is told', r, 'register_credential_assertion')
    if e is not None:
        c.success('what the storage is told', r,
                  c.spec(r, 'ceremony.handed_over', stored=cd,
                         handed_rp=e.args.get('rp'),
                         handed_user=e.args.get('user')))


def C11(c):
    r, cd = auth(c, (VERIFY, ) + KEYS)
    if cd is None:
        return
    s = c.spec(r, 'ceremony.counter', stored=cd)
    c.success('clone detection', r, s)
    cls = c.cls('errors.SignatureCountError').qual
    raw = mk('attr', mk('attr', r.params['credential'], 'response'),
             'authenticator_data')
    cnt = mk('beuint', mk('slice', raw, const(33), const(37)))
    n = 0
    for i, x in enumerate(r.raises):
        mine = any(c.p.hier(q, cls) is True for q in x.exc.classes)
        n += mine
        last = [f for f in x.state.trail[-2:] if cnt in subterms(f)]
        if mine or last and not any(
                v.name == 'register_credential_assertion'
                for g, v in x.state.events):
            c.ob('the counter rejects nothing else', x.exc.site,
                 'a rejection over the counter only when a stored count is '
                 'not exceeded and the caller did not opt out',
                 contradicts(r, i, s.facts),
                 'raised although the counter is acceptable')
    c.ob('the counter rejects nothing else', r.site(),
         'a signature count error is reported somewhere', n > 0,
         'no exit with SignatureCountError')


def C12(c):
    for name, write, reads in (
        ('registration', 'register_credential_attestation', ()),
        ('authentication', 'register_credential_assertion', (GET, ))):
        if name == 'registration':
            r, cd = reg(c), None
        else:
            r, cd = auth(c)
            if cd is None:
                continue
        e = c.the_event('written once (%s)' % name, r, write)
        if e is None:
            continue
        # which callbacks, and how often
        for exit_, evs in [('the normal return', r.events)] + [
            ('the exit at %s' % x.exc.site, x.state.events)
                for x in r.raises]:
            seen = [v.name for g, v in evs]
            other = [n for n in seen if n != write and n not in reads]
            twice = [n for n in set(seen) if seen.count(n) > 1]
            c.ob('callbacks of the %s' % name, exit_,
                 'only %s before %s' % ('/'.join((write, ) + reads), exit_),
                 not other, 'also calls %s' % other)
            c.ob('callbacks of the %s' % name, exit_,
                 'each at most once before %s' % exit_, not twice,
                 '%s called more than once' % twice)
        # with everything checked before
        given = {} if cd is None else {'stored': cd}
        s = c.spec(r, 'ceremony.%s_checks' % name, **given)
        base = prepare(list(e.facts), r.it.hier)
        for g, msg in c.goals(s):
            ok = entails(base, g, 2000)
            c.ob('written only after every check (%s)' % name, e.site,
                 (msg + ': ' if msg else '') + show(g)[:300], ok,
                 '%s is called without this being established' % write)
        # with what
        want = {'credential': r.params['credential']}
        if name == 'registration':
            want.update(att=s.value, user=r.params['user'],
                        rp=r.params['rp'])
        else:
            want.update(authenticator_data=s.value)
            c.success('who is written', r,
                      c.spec(r, 'ceremony.handed_over', stored=cd,
                             handed_rp=e.args.get('rp'),
                             handed_user=e.args.get('user')))
        for k, v in want.items():
            c.equal_terms('what is written (%s)' % name, r, base,
                          e.args.get(k), v, e.site, 'argument ' + k)
        # normal return iff accepted by the storage
        done = And(ok_of(e.term), eq(e.term, NONE))
        c.ob('return means stored (%s)' % name, r.site(),
             'a normal return implies that %s raised nothing and returned '
             'None' % write, r.proves(done), 'not established at the return')
        for i, x in enumerate(r.raises):
            if any(v.name == write for g, v in x.state.events):
                ok = contradicts(r, i, [done])
                c.ob('stored means return (%s)' % name, x.exc.site,
                     'an exit by exception after %s only when it raised or '
                     'did not return None' % write, ok,
                     'rejects after the storage accepted')
        c.equal_terms('result (%s)' % name, r, r.ctx, r.value, NONE, r.site(),
                      'the result')


LIB = 'errors.WebAuthnRPError'


def C13(c):
    lib = c.cls(LIB).qual
    internal = c.cls('errors.InternalError').qual
    failed = c.cls('errors.RegistrationError').qual
    for k in sorted(c.p.classes.values(), key=lambda k: k.qual):
        if k.mod is c.cls(LIB).mod and c.p.hier(
                k.qual, 'BaseException') is True:
            c.ob('every error of the library is a library error',
                 '%s:%s (%s)' % (os.path.relpath(k.mod.path, c.p.root),
                                 k.node.lineno, k.qual.split(':')[1]),
                 '%s derives from the base error' % k.name,
                 c.p.hier(k.qual, lib) is True and 'BaseException' not in
                 k.bases, 'it does not')
    for name in (REG, AUTH):
        r = c.run(name, OPAQUE_REG if name is REG else OPAQUE_AUTH,
                  (REGISTRAR, ))
        c.classes('only library errors leave', r, (LIB, ))
        # the same when an argument, or a part of it, has the wrong type
        d = c.run(name, OPAQUE_REG if name is REG else OPAQUE_AUTH,
                  (REGISTRAR, ), doubt=True)
        c.classes('only library errors leave, whatever the arguments are',
                  d, (LIB, ))
        c.equal_terms('result', r, r.ctx, r.value, NONE, r.site(),
                      'the result of a ceremony')
        for x in r.raises:
            e = x.exc.cause
            while e is not None:
                own = e.explicit and all(
                    c.p.hier(k, lib) is True for k in e.classes)
                c.ob('library errors come out unchanged', x.exc.site,
                     'not a replacement of a library error (%s)' % e.origin,
                     not own, '%s replaces %s raised at %s' %
                     (x.exc.origin, e.origin, e.site))
                e = e.cause
            e = x.exc
            while e is not None:
                if e.term.op == 'excof' and e.term.args[0].op == 'cb':
                    c.ob('callback failures are registration errors',
                         x.exc.site, 'an exception of a storage callback '
                         'comes out as a registration error',
                         all(c.p.hier(k, failed) is True
                             for k in x.exc.classes),
                         '%s comes out after %s' % (x.exc.origin, e.origin))
                e = e.cause
            if internal in x.exc.classes:
                e = x.exc.cause
                c.ob('internal error only for other exceptions', x.exc.site,
                     'raised while handling an exception that is not the '
                     "library's", e is not None, 'raised on its own')
        for e, site, facts in r.it.swallowed:
            if e.term.op == 'excof':
                # may be caught for a while, as long as success implies that
                # the operation did not fail
                bad = not (r.proves(ok_of(e.term.args[0]))
                           or r.proves(Not(And(*facts))))
            else:
                bad = e.explicit and not r.proves(
                    Not(And(*facts))) and any(
                    c.p.hier(k, lib) is True or k == ANY for k in e.classes)
            c.ob('no failure becomes success', site,
                 'the handler does not swallow %s' % e.origin, not bad,
                 'control continues after %s' % e.origin)
            if e.term.op != 'excof' or e.term.args[0].op != 'cb':
                continue
            # and where it is caught for a while, no other error follows
            for i, x in enumerate(r.raises):
                if all(c.p.hier(k, failed) is True for k in x.exc.classes):
                    continue
                called = [g for g, v in x.state.events
                          if v.term is e.term.args[0]]
                ok = not called or entails(
                    r.rctx(i), Or(Not(Or(*called)), ok_of(e.term.args[0]),
                                  Not(And(*facts))))
                c.ob('callback failures are registration errors', x.exc.site,
                     'no other error is raised once a storage callback '
                     'failed', ok, '%s may follow %s, caught at %s' %
                     (x.exc.origin, e.origin, site))


CAUSES = (
    # error, registration condition, authentication condition
    ('ClientDataTypeError', 'reg_type', 'auth_type'),
    ('ChallengeError', 'challenge', 'challenge'),
    ('OriginError', 'origin', 'origin'),
    ('TokenBindingError', 'token_binding', 'token_binding'),
    ('RPIDHashError', 'reg_rp_hash', 'auth_rp_hash'),
    ('UserPresenceError', 'reg_presence', 'auth_presence'),
    ('UserVerificationError', 'reg_verification', 'auth_verification'),
    ('ExtensionError', 'reg_extensions', 'auth_extensions'),
    ('CredentialNotAllowedError', None, 'allowed'),
    ('CredentialDataError', None, 'known'),
    ('UserIDError', None, 'user_id'),
    ('UserHandleError', None, 'user_handle'),
    ('RPNotFoundError', None, 'rp_found'),
    ('RPIDError', None, 'rp_ids'),
    ('SignatureCountError', None, 'counter'),
)


def C14(c):
    for k, name in enumerate((REG, AUTH)):
        r = reg(c) if k == 0 else auth(c)[0]
        stored = None
        if k:
            evs = c.named_events(r, GET) or [
                p for x in r.raises for p in x.state.events
                if p[1].name == GET
            ]
            stored = evs[0][1].term if evs else NONE
        for err, *conds in CAUSES:
            cls = c.cls('errors.' + err).qual
            cond = conds[k]
            n = 0
            spec = None
            for i, x in enumerate(r.raises):
                if not any(c.p.hier(q, cls) is True for q in x.exc.classes):
                    continue
                n += 1
                if cond is None:
                    c.ob('cause of ' + err, x.exc.site,
                         '%s does not leave a registration' % err, False,
                         'raised: %s' % x.exc.origin)
                    continue
                if spec is None:
                    a = c.p.funcs['sa_specs.causes:' + cond].node.args.args
                    given = {}
                    if any(p.arg == 'stored' for p in a):
                        given['stored'] = stored
                    spec = c.spec(r, 'causes.' + cond, **given)
                c.ob('cause of ' + err, x.exc.site,
                     'raised only when the condition "%s" fails' % cond,
                     contradicts(r, i, spec.facts),
                     '%s raised although the condition may hold' % err)
            if cond is not None:
                c.ob('cause of ' + err, r.site(),
                     '%s is raised somewhere in the ceremony' % err, n > 0,
                     'no exit with this error: its condition is not reported')
        usual = c.spec(r, 'accept.usual_' + (
            'authentication' if k else 'registration'),
            **({'stored': stored} if k else {})).facts
        internal = c.cls('errors.InternalError').qual
        for i, x in enumerate(r.raises):
            # (the text of a hostile value in an error message may fail)
            if internal in x.exc.classes and not (
                    x.exc.cause is not None and x.exc.cause.term.op == 'excof'
                    and x.exc.cause.term.args[0].op == 'fmt'):
                c.ob('a failed condition is no internal error', x.exc.site,
                     'internal error only for input, storage or primitives '
                     'that misbehave', contradicts(r, i, usual),
                     'internal error although nothing unexpected happened: '
                     '%s' % (x.exc.cause or x.exc).origin)


def C45(c):
    for name in ('registration', 'authentication'):
        if name == 'registration':
            r, cd = reg(c), None
        else:
            r, cd = auth(c)
            if cd is None:
                continue
        given = {} if cd is None else {'stored': cd}
        parts = []
        for err, *conds in CAUSES:
            cond = conds[cd is not None]
            if cond is not None:
                a = c.p.funcs['sa_specs.causes:' + cond].node.args.args
                parts.append(c.spec(r, 'causes.' + cond, **{
                    k: v for k, v in given.items()
                    if any(p.arg == k for p in a)}).facts)
        parts.append(c.spec(r, 'accept.' + name, **given).facts)
        for i, x in enumerate(r.raises):
            # the storage did its part
            served = []
            for g, e in x.state.events:
                served.append(ok_of(e.term))
                if e.name != GET:
                    served.append(eq(e.term, NONE))
            c.ob('every requirement met means accepted (%s)' % name,
                 x.exc.site, 'rejection (%s) only of a ceremony that fails a '
                 'requirement' % '/'.join(
                     k.split(':')[-1] for k in x.exc.classes),
                 any(contradicts(r, i, list(p) + served) for p in parts),
                 'raised for a ceremony that meets them all: %s' %
                 x.exc.origin)


U2F = 'attesters.attest_fido_u2f'
ANDROID = 'attesters.attest_android_key'
CPK = 'converters.cryptography_public_key'


def has_attested_data(c, f):
    """The attestation object of a registration carries attested data."""
    a = f.node.args
    o = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1]
    d = mk('attr', mk('attr', mk('param', o), 'auth_data'),
           'attested_credential_data')
    return (Not(eq(d, NONE)), )


def C15(c):
    r = c.run(U2F, assume=has_attested_data(c, c.fn(U2F)))
    s = c.spec(r, 'attest.fido_u2f')
    c.success('accepted only as specified', r, s)
    c.value('accepted as Basic with its certificate', r, s)
    c.classes('rejected with an attestation error', r,
              ('errors.AttestationError', ))
    c.rejects('rejected only if a condition fails', r, s)
    rule = 'the statement and the data are the transmitted ones'
    attestation_parts(c, rule, 'stmt', 'data')
    data_parts(c, rule, 'rp_id_hash', 'attested_credential_data')
    parsed_only(c, rule, PARSE + 'fido_u2f_attestation_statement',
                'messages.fido_u2f')


def C16(c):
    r = c.run(ANDROID, (CPK, ), assume=has_attested_data(c, c.fn(ANDROID)))
    s = c.spec(r, 'attest.android_key')
    c.success('accepted only as specified', r, s)
    c.value('accepted as Basic with the first certificate', r, s)
    att = c.cls('errors.AttestationError').qual
    c.rejects('attestation error only if a condition fails', r, s,
              only=lambda e: att in e.classes)
    own = ('cryptography.exceptions.InvalidSignature',
           'cryptography.exceptions.UnsupportedAlgorithm',
           'cryptography.x509.ExtensionNotFound', 'pyasn1.error.PyAsn1Error',
           'ValueError', 'IndexError', 'KeyError')
    for x in r.raises:
        bad = [k for k in x.exc.classes if k in own]
        c.ob('the specific rejections are attestation errors', x.exc.site,
             'no plain exception for a failed condition: ' + x.exc.origin,
             not bad, '%s escapes' % bad)
    rule = 'the statement and the data are the transmitted ones'
    attestation_parts(c, rule, 'stmt', 'data', 'raw')
    data_parts(c, rule, 'attested_credential_data')
    parsed_only(c, rule, PARSE + 'android_key_attestation_statement',
                'messages.android_key')
    converted_only(c, 'the credential key is converted faithfully')
    C35(c, ('KeyDescription', 'AuthorizationList'))


def isa(c, name, t):
    return mk('isinst', t, c.cls(name).qual)


def first_param(f):
    a = f.node.args
    return mk('param', [x.arg for x in a.posonlyargs + a.args][0])


ATT_CLASSES = ('types.FIDOU2FAttestationStatement',
               'types.AndroidKeyAttestationStatement',
               'types.NoneAttestationStatement')


def C17(c):
    f = c.fn(ATTEST)
    stmt = first_param(f)
    is_ = [isa(c, n, stmt) for n in ATT_CLASSES]
    for name, proc, own in (('fido-u2f', U2F, is_[0]),
                            ('android-key', ANDROID, is_[1])):
        r = c.run(f, assume=(own, ))
        s = c.reference(r, c.fn(proc), assume=(own, ))
        c.success('%s only by its own procedure' % name, r, s)
        c.value('%s only by its own procedure' % name, r, s)
    r = c.run(f, assume=(is_[2], ))
    s = c.spec(r, 'attest.no_attestation')
    c.value('the none format carries nothing', r, s)
    c.ob('the none format carries nothing', r.site(), 'it is accepted',
         not r.raises, 'rejected: %s' % [x.exc.origin for x in r.raises])
    # everything else
    r = c.run(f, assume=tuple(Not(x) for x in is_))
    c.ob('everything else is refused', r.site(),
         'no normal return for a statement of another class', not r.returns,
         'accepted: %s' % show(r.value)[:200])
    c.classes('everything else is refused', r,
              ('errors.UnimplementedError', ))
    anything(c, f, ATT_CLASSES, 'everything else is refused',
             'the attestation')
    c.ob('everything else is refused', r.site(), 'there is an exit',
         bool(r.raises), 'no exit')
    attestation_parts(c, 'a format is parsed as its own statement only',
                      'stmt')


def C18(c):
    def way(*opaque):
        def go():
            r = c.run(VERIFY, opaque)
            s = c.spec(r, 'keys.verified')
            c.success('the signature was verified', r, s)
            c.equal_terms('nothing is returned', r, r.ctx, r.value, NONE,
                          r.site(), 'the result')
            c.rejects('refused only for a reason', r, s)
            ver = c.cls('errors.VerificationError').qual
            for x in r.raises:
                bad = [k for k in x.exc.classes
                       if k == 'cryptography.exceptions.InvalidSignature'
                       or k == ANY]
                c.ob('an invalid signature is a verification error',
                     x.exc.site, 'not %s' % x.exc.origin, not bad,
                     '%s escapes' % bad)
        return go
    c.either(way(CPK), way())
    anything(c, c.fn(VERIFY), (EC2, OKP), 'other key classes are refused',
             'the verification')
    converted_only(c, 'the key it verifies with is the given key')


def known_key(c, f, name, kty=None):
    """assumption: the first argument is a key of the class"""
    k = first_param(f)
    out = [isa(c, name, k)]
    if kty is not None:
        out += [eq(mk('attr', mk('attr', k, 'kty'), 'name'), const(kty)),
                Not(eq(mk('attr', k, 'alg'), NONE))]
    return tuple(out)


EC2 = 'types.EC2CredentialPublicKey'
OKP = 'types.OKPCredentialPublicKey'


def refused(c, name, what):
    f = c.fn(name)
    k = first_param(f)
    r = c.run(f, assume=(Not(isa(c, EC2, k)), Not(isa(c, OKP, k))))
    c.ob('other key classes are refused', r.site(),
         'no normal return for another key class', not r.returns,
         '%s returns' % what)
    c.classes('other key classes are refused', r,
              ('errors.UnimplementedError', ))
    anything(c, f, (EC2, OKP), 'other key classes are refused', what)


def anything(c, f, classes, rule, what):
    """a first argument of no known class, whatever its annotation says"""
    k = first_param(f)
    r = c.run(f, assume=tuple(Not(isa(c, n, k)) for n in classes),
              types={k.args[0]: ('any', )})
    c.ob(rule, r.site(), 'no normal return for an argument of any other class',
         not r.returns, '%s returns %s' % (what, show(r.value)[:200]))


def C19(c):
    f = c.fn(CPK)
    for cls, spec in ((EC2, 'keys.ec2_converted'),
                      (OKP, 'keys.okp_converted')):
        r = c.run(f, assume=known_key(c, f, cls))
        s = c.spec(r, spec)
        n = cls.split('.')[1]
        c.success('%s: converted only as specified' % n, r, s)
        c.value('%s: the same key' % n, r, s)
        c.rejects('%s: refused only for a reason' % n, r, s)
        c.classes('%s: refused with a library error' % n, r,
                  ('errors.PublicKeyConversionError',
                   'errors.UnimplementedError',
                   'cryptography.exceptions.UnsupportedAlgorithm'))
    refused(c, CPK, 'the conversion')


def C20(c):
    f = c.fn('validators.validate')
    for cls, spec, kty in ((EC2, 'keys.ec2_valid', 'EC2'),
                           (OKP, 'keys.okp_valid', 'OKP')):
        r = c.run(f, assume=known_key(c, f, cls, kty))
        s = c.spec(r, spec)
        n = cls.split('.')[1]
        c.success('%s: valid only as specified' % n, r, s)
        c.rejects('%s: refused only for a reason' % n, r, s)
        c.classes('%s: refused with a validation error' % n, r,
                  ('errors.ValidationError', ))
    refused(c, 'validators.validate', 'the validation')

    def way(spec, *opaque):
        def go():
            r = c.run(PARSE_AD, opaque)
            s = c.spec(r, spec, data=r.value)
            c.success('no attested key without validation', r, s)
        return go
    c.either(way('keys.gate', *KEYS), way('keys.gate_inline', *KEYS[2:]))


def C22(c):
    f = c.fn('converters.cose_key')
    for cls in (EC2, OKP):
        k = known_key(c, f, cls)
        r = c.run(f, assume=k + (Not(eq(mk('attr', first_param(f), 'alg'),
                                        NONE)), ))
        s = c.spec(r, 'keys.encoded')
        n = cls.split('.')[1]
        c.value('%s: every member under its label' % n, r, s)
        c.ob('%s: every key is encoded' % n, r.site(), 'no exit',
             not r.raises,
             '; '.join('%s at %s' % (x.exc.origin, x.exc.site)
                       for x in r.raises))
    refused(c, 'converters.cose_key', 'the encoding')


def parsed(c, name, spec, assume=(), opaque=(), given=None, at=None):
    """a parser accepts exactly what the reference accepts, as it says"""
    r = c.run(name, opaque, assume=tuple(assume))
    r.at = at
    s = c.spec(r, spec, **(given or {}))
    n = name.split('.')[-1] if isinstance(name, str) else name.node.name
    if c.goals(s):
        c.success('%s accepts only' % n, r, s)
    c.value('%s returns' % n, r, s)
    c.rejects('%s refuses only' % n, r, s)
    return r


PARSER = ('errors.ParserError', )
PARSE = 'parsers.parse_'


def C21(c):
    for n in ('okp', 'ec2'):
        r = parsed(c, PARSE + n + '_public_key',
                   'messages.%s_public_key' % n)
        c.classes('refused with a parser error', r, PARSER)
    f = c.fn(PARSE + 'cose_key')
    k = first_param(f)
    for t, spec, errs in (('dict', 'messages.cose_map', PARSER),
                          ('bytes', 'messages.cose_bytes',
                           PARSER + ('errors.DecodingError', ))):
        r = parsed(c, PARSE + 'cose_key', spec,
                   assume=(mk('typeis', k, t), ))
        c.classes('refused with a parser error', r, errs)


def C23(c):
    def way(*opaque):
        return lambda: parsed(c, PARSE_AD, 'messages.authenticator_data',
                              opaque=opaque)
    c.either(way(*KEYS), way(*KEYS[2:]))


def C24(c):
    def way(*opaque):
        return lambda: parsed(c, PARSE_AO, 'messages.attestation_object',
                              opaque=opaque)
    c.either(way(PARSE_AD, *STMTS), way(*STMTS))


FORMATS = ('packed', 'tpm', 'android_key', 'android_safetynet', 'fido_u2f',
           'none')


def C25(c):
    for n in FORMATS:
        r = parsed(c, PARSE + n + '_attestation_statement',
                   'messages.' + n.replace('android_safety', 'safety'))
        c.classes('refused with a parser error', r, PARSER)


def C26(c):
    r = parsed(c, PARSE + 'extensions', 'messages.extension_outputs')
    c.classes('refused with a parser error', r, PARSER)


def C27(c):
    r = parsed(c, PARSE + 'client_data', 'messages.client_data')
    c.classes('refused with a parser or decoding error', r,
              PARSER + ('errors.DecodingError', ))


def C28(c):
    r = parsed(c, PARSE + 'origin', 'messages.origin_tuple')
    c.classes('refused with an origin error', r, ('errors.OriginError', ))


def C29(c):
    r = parsed(c, PARSE + 'public_key_credential', 'messages.credential')
    c.classes('refused with a parser or decoding error', r,
              PARSER + ('errors.DecodingError', ))


LIBRARY = PARSER + ('errors.DecodingError', 'errors.ValidationError',
                    'errors.OriginError',
                    'errors.UnimplementedError')
PARSERS = ('origin', 'public_key_credential', 'okp_public_key',
           'ec2_public_key', 'extensions') + tuple(
               n + '_attestation_statement' for n in FORMATS) + (
                   'client_data', 'cose_key', 'authenticator_data',
                   'attestation_object')


def C30(c):
    for n in PARSERS:
        r = c.run(PARSE + n)
        c.classes('only documented errors', r, LIBRARY)


def C37(c):
    for n, spec in (('encode', 'codecs.encode'), ('decode', 'codecs.decode')):
        parsed(c, 'utils.url_base64_' + n, spec)


def uses(c, module, where):
    """every use x of a module of references gives what is_x says"""
    n = 0
    start = 'sa_specs.%s:' % module
    for q in sorted(c.p.funcs):
        x = q[len(start):]
        if not q.startswith(start) or x.startswith('is_'):
            continue
        r = parsed(c, c.p.funcs[q], '%s.is_%s' % (module, x),
                   at=where(x))
        n += 1
        yield r
    if not n:
        raise AnalysisBroken('no uses in %s' % module)


JSON = 'converters.jsonify'
CAMEL = 'utils.snake_to_camel_case'
SCALARS = ('str', 'int', 'float', 'bool')
BUILTINS = SCALARS + ('bytes', 'dict', 'list', 'tuple')


def json_kinds(d):
    """(name, reference, type of the argument, further assumptions)"""
    has = mk('hasattr', d, const('__dict__'))
    en = type_atom('isinst', d, 'enum.Enum')
    for t in SCALARS:
        yield t, 'scalar', ('ext', t), ()
    yield 'bytes', 'bytes', ('ext', 'bytes'), ()
    yield 'dict', 'dict', ('map', 'dict'), ()
    for t in ('list', 'tuple'):
        yield t, 'sequence', ('seq', t, ('any', )), (
            Not(has), type_atom('typeis', d, t))
    yield 'enumeration', 'enum', None, (en, )
    # an instance: its members are in a plain dict, under string keys
    v = mk('attr', d, '__dict__')
    k = keys(v)
    yield 'object', 'object', None, (
        Not(en), has, type_atom('typeis', v, 'dict'), Not(eq(d, NONE)),
        Not(exists(k, 0, Not(type_atom('typeis', mk('elem', k, 0), 'str'))))
    ) + tuple(Not(type_atom('isinst', d, t)) for t in BUILTINS)


def C31(c):
    fs = [c.fn(JSON)]
    apps = {f.qual: 'json' for f in fs}

    def errors(rule, r):
        c.classes(rule, r, ('errors.JSONConversionError',
                            'errors.UnimplementedError'),
                  skip=lambda e: e.classes == (ANY, ) and 'call of' in
                  e.origin)

    def one(f, opaque):
        a = [x.arg for x in f.node.args.args]
        if len(a) != 2:
            raise AnalysisBroken('%s does not take a value and a flag' %
                                 f.qual)
        d, cc = [mk('param', x) for x in a]
        g = {'data': d, 'convert_case': cc}
        for name, ref, ty, assume in json_kinds(d):
            r = c.run(f, opaque, assume=assume, apps=apps,
                      types={a[0]: ty} if ty else None)
            s = c.spec(r, 'jsonable.of_' + ref, **g)
            rule = 'conversion of %s' % name
            c.value(rule, r, s)
            c.rejects(rule, r, s)
            errors(rule, r)
            if ref == 'dict':
                c.success(rule, r, s)
            more(r)
        r = c.run(f, opaque, given={a[0]: NONE}, apps=apps)
        g['data'] = NONE
        s = c.spec(r, 'jsonable.of_none', **g)
        c.value('conversion of None', r, s)
        c.rejects('conversion of None', r, s)
        other = [Not(x) for t in BUILTINS
                 for x in (type_atom('isinst', d, t),
                           type_atom('typeis', d, t))]
        r = c.run(f, opaque, apps=apps, assume=other + [
            Not(mk('hasattr', d, const('__dict__'))), Not(eq(d, NONE)),
            Not(type_atom('isinst', d, 'enum.Enum'))])
        c.ob('other values are refused', r.site(), 'no normal return',
             not r.returns, 'a value of another kind is converted')
        errors('other values are refused', r)
        more(r)

    def more(r):
        # a helper that calls itself is held to the same reference
        for q in r.it.recursed - set(apps):
            apps[q] = 'json'
            fs.append(c.p.funcs[q])

    def way(opaque):
        def go():
            start = len(c.obs)
            c.patient = True
            try:
                while True:
                    n = len(fs)
                    for f in fs[:n]:
                        one(f, opaque)
                    if len(fs) == n:
                        break
                    # the helpers it turned out to have count as well
                    del c.obs[start:]
            finally:
                c.patient = False
            if any(not o.ok for o in c.obs[start:]):
                c.failed()
        return go

    c.either(way((CAMEL, )), way(()))
    # asked for by default
    it = c.interp()
    ds, ks = it.fn_defaults(c.fn(JSON))
    ok = len(ds) == 1 and is_const(ds[0]) and bool(cval(ds[0]))
    c.ob('camel case by default', c.site_of(c.fn(JSON)),
         'the flag is true by default', ok,
         'the default is %s' % ', '.join(map(show, ds)))

    def general():
        r = parsed(c, CAMEL, 'jsonable.camel')
        c.classes('every name can be converted', r, ())

    def every_name():
        # each name of the library (constant evaluation)
        f = c.fn(CAMEL)
        wire = it.eval_static(c.p.modules['sa_specs.jsonable'],
                              ast.parse('WIRE', mode='eval').body, 'names')
        for k, v in wire.args:
            n, want = cval(k), cval(v)
            r = c.run(f, given={f.node.args.args[0].arg: k})
            c.ob('names of members', r.site(), '%s is called %s' %
                 (n, want), r.returns and r.value is const(want),
                 'converted to %s' % show(r.value) if r.returns else
                 'refused')

    c.either(general, every_name)


def C32(c):
    for r in uses(c, 'members', lambda x: 'types.' + x.split('_', 1)[1]):
        c.classes('constructors accept every argument', r, ())


def C33(c):
    B = {'creation': 'CredentialCreationOptionsBuilder',
         'request': 'CredentialRequestOptionsBuilder'}
    for r in uses(c, 'builders', lambda x: 'builders.' + B[x.split('_')[0]]):
        c.classes('refused with the builder error', r,
                  ('errors.BuilderError', ))


# registered values beyond the ones the library has to know: a member that is
# added has to be one of these
REGISTERED = {
    'PublicKeyCredentialType': ('public-key', ),
    'AuthenticatorTransport': ('usb', 'nfc', 'ble', 'internal', 'hybrid',
                               'smart-card'),
    'COSEAlgorithmIdentifier.Value': (
        ('ES256', -7), ('ES384', -35), ('ES512', -36), ('EDDSA', -8),
        ('ES256K', -47), ('PS256', -37), ('PS384', -38), ('PS512', -39),
        ('RS256', -257), ('RS384', -258), ('RS512', -259), ('RS1', -65535)),
    'COSEAlgorithmIdentifier.Name': (
        'ES256', 'ES384', 'ES512', 'EdDSA', 'ES256K', 'PS256', 'PS384',
        'PS512', 'RS256', 'RS384', 'RS512', 'RS1'),
    'AuthenticatorAttachment': ('platform', 'cross-platform'),
    'AttestationConveyancePreference': ('none', 'indirect', 'direct',
                                        'enterprise'),
    'UserVerificationRequirement': ('required', 'preferred', 'discouraged'),
    'CredentialMediationRequirement': ('silent', 'optional', 'required',
                                       'conditional'),
    'TokenBindingStatus': ('supported', 'present'),
    'COSEKeyType.Name': ('OKP', 'EC2', 'RSA', 'Symmetric', 'HSS-LMS',
                         'WalnutDSA'),
    'COSEKeyType.Value': (('OKP', 1), ('EC2', 2), ('RSA', 3),
                          ('SYMMETRIC', 4), ('HSS_LMS', 5),
                          ('WALNUTDSA', 6)),
    'COSEKeyOperation.Name': (
        'sign', 'verify', 'encrypt', 'decrypt', 'wrap key', 'unwrap key',
        'derive key', 'derive bits', 'MAC create', 'MAC verify'),
    'EC2Curve.Name': ('P-256', 'P-384', 'P-521', 'secp256k1'),
    'EC2Curve.Value': (('P_256', 1), ('P_384', 2), ('P_521', 3),
                       ('SECP256K1', 8)),
    'OKPCurve.Name': ('X25519', 'X448', 'Ed25519', 'Ed448'),
    'OKPCurve.Value': (('X25519', 4), ('X448', 5), ('ED25519', 6),
                       ('ED448', 7)),
    'AttestationStatementFormatIdentifier': (
        'packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f',
        'none', 'apple', 'compound'),
    'AttestationType': ('Basic', 'AttCA', 'ECDAA', 'Self', 'None',
                        'Uncertain', 'AnonCA'),
    'ExtensionIdentifier': (
        'appid', 'txAuthSimple', 'txAuthGeneric', 'authnSel', 'exts', 'uvi',
        'loc', 'uvm', 'biometricPerfBounds', 'appidExclude', 'credProps',
        'credProtect', 'largeBlob', 'largeBlobKey', 'hmac-secret', 'prf',
        'minPinLength', 'payment'),
}
COSE_PAIRS = ('COSEAlgorithmIdentifier', 'COSEKeyType', 'COSEKeyOperation',
              'EC2Curve', 'OKPCurve')


def enum_members(c, name):
    """((name, value)...) of an enumeration, and its site"""
    k = c.cls('types.' + name)
    if k.kind != 'enum':
        raise AnalysisBroken('%s is not an enumeration' % name)
    it = c.interp()
    return it.enum_members(k), '%s:%d (types.%s)' % (
        os.path.relpath(k.mod.path, c.p.root), k.node.lineno, name)


def C34(c):
    def where(x):
        if x.startswith('of_'):
            return 'types.' + x[3:].replace('_', '.')
        return 'types.' + x[:-7] if x.endswith('_lookup') else x
    for r in uses(c, 'registry', where):
        c.classes('an unknown identifier is a value or key error', r,
                  ('ValueError', 'KeyError'))
    for name, allowed in REGISTERED.items():
        ms, site = enum_members(c, name)
        allowed = [a if isinstance(a, tuple) else (None, a) for a in allowed]
        for n, v in ms:
            c.ob('members are registered', site, '%s = %s is registered' %
                 (n, show(v)),
                 is_const(v) and any(cval(v) == b and type(cval(v)) is type(b)
                                     and a in (None, n) for a, b in allowed),
                 'no such registered identifier')
    for name in COSE_PAIRS:
        a, site = enum_members(c, name + '.Name')
        b, _ = enum_members(c, name + '.Value')
        d = {n for n, _ in a} ^ {n for n, _ in b}
        c.ob('name and value forms agree', site,
             'the name and value forms of %s have the same members' % name,
             not d, 'only in one of them: ' + ', '.join(sorted(d)))


def C38(c):
    for r in uses(c, 'extensions', lambda x: 'types.ExtensionIdentifier'):
        c.classes('no identifier fails', r, ())
    parsed(c, PARSE + 'extensions', 'messages.extension_outputs')


I, O, S, N = 'Integer', 'OctetString', ('SetOf', (('Integer', ), ())), 'Null'
# Android key attestation, certificate extension data schema (the version
# with rollbackResistance and the patch levels): optional fields with their
# explicit context tags
AUTHORIZATION = (
    ('purpose', S, 1), ('algorithm', I, 2), ('keySize', I, 3),
    ('digest', S, 5), ('padding', S, 6), ('ecCurve', I, 10),
    ('rsaPublicExponent', I, 200), ('rollbackResistance', N, 303),
    ('activeDateTime', I, 400), ('originationExpireDateTime', I, 401),
    ('usageExpireDateTime', I, 402), ('noAuthRequired', N, 503),
    ('userAuthType', I, 504), ('authTimeout', I, 505),
    ('allowWhileOnBody', N, 506), ('trustedUserPresenceRequired', N, 507),
    ('trustedConfirmationRequired', N, 508),
    ('unlockedDeviceRequired', N, 509), ('allApplications', N, 600),
    ('applicationId', O, 601), ('creationDateTime', I, 701),
    ('origin', I, 702), ('rollbackResistant', N, 703),
    ('rootOfTrust', ('class', 'RootOfTrust'), 704), ('osVersion', I, 705),
    ('osPatchLevel', I, 706), ('attestationApplicationId', O, 709),
    ('attestationIdBrand', O, 710), ('attestationIdDevice', O, 711),
    ('attestationIdProduct', O, 712), ('attestationIdSerial', O, 713),
    ('attestationIdImei', O, 714), ('attestationIdMeid', O, 715),
    ('attestationIdManufacturer', O, 716), ('attestationIdModel', O, 717),
    ('vendorPatchLevel', I, 718), ('bootPatchLevel', I, 719),
)
SEQUENCES = {
    'KeyDescription': (
        ('attestationVersion', I),
        ('attestationSecurityLevel', ('class', 'SecurityLevel')),
        ('keymasterVersion', I),
        ('keymasterSecurityLevel', ('class', 'SecurityLevel')),
        ('attestationChallenge', O), ('uniqueId', O),
        ('softwareEnforced', ('class', 'AuthorizationList')),
        ('teeEnforced', ('class', 'AuthorizationList'))),
    'RootOfTrust': (
        ('verifiedBootKey', O), ('deviceLocked', 'Boolean'),
        ('verifiedBootState', ('class', 'VerifiedBootState')),
        ('verifiedBootHash', O)),
}
LEVELS = {
    'SecurityLevel': {'Software': 0, 'TrustedEnvironment': 1, 'StrongBox': 2},
    'VerifiedBootState': {'Verified': 0, 'SelfSigned': 1, 'Unverified': 2,
                          'Failed': 3},
}
ASN_HOOKS = ('tagSet', 'subtypeSpec', 'typeId', 'strictConstraints',
             'sizeSpec', 'defaultValue')


def C35(c, only=None):
    from .asn1 import Odd, fields, labels

    def component(name, base, reader):
        k = c.cls('asn1.' + name)
        site = '%s:%d (asn1.%s)' % (os.path.relpath(k.mod.path, c.p.root),
                                    k.node.lineno, name)
        c.ob('base type', site, '%s is a plain %s' % (name, base),
             k.bases == ['pyasn1.type.univ.' + base] and
             not set(k.attrs) & set(ASN_HOOKS), 'another base or tagging')
        r = c.run(c.p.funcs['sa_specs.asn:component_' + name])
        try:
            return reader(r.value), site
        except (Odd, KeyError) as e:
            c.ob('schema', site, 'the component type of %s is a literal '
                 'schema' % name, False, "not one: %s" % (
                     show(e.args[0])[:300] if isinstance(e, Odd) else e))
            return None, site

    def compare(name, got, want, site):
        if got is None:
            return
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else None
            c.ob('fields of %s' % name, site, 'field %d is %r' % (i, w),
                 g == w, 'found %r' % (g, ))
        c.ob('fields of %s' % name, site, 'no further fields',
             len(got) <= len(want), 'found %r' % (got[len(want):], ))

    def ty(t):
        return (t, ) if isinstance(t, str) else t
    for name, fs in SEQUENCES.items():
        if only and name not in only:
            continue
        got, site = component(name, 'Sequence', fields)
        compare(name, got, [(n, 'required', ty(t), ()) for n, t in fs], site)
    got, site = component('AuthorizationList', 'Sequence', fields)
    compare('AuthorizationList', got,
            [(n, 'optional', ty(t), ((0x80, k), ))
             for n, t, k in AUTHORIZATION], site)
    for name, want in LEVELS.items():
        if only and name not in only:
            continue
        got, site = component(name, 'Enumerated', labels)
        if got is not None:
            for w in want:
                c.ob('labels of ' + name, site, '%s is %d' % (w, want[w]),
                     got.get(w) == want[w], 'found %r' % got.get(w))
            c.ob('labels of ' + name, site, 'no further labels',
                 len(got) <= len(want), 'found %r' % got)


def public_functions(c):
    """the functions a module offers: what __all__ names, or else every
    function without a leading underscore"""
    out = []
    for q, f in sorted(c.p.funcs.items()):
        if f.mod.name in c.spec_mods or f.cls is not None or \
                q.split(':')[1] != f.node.name:
            continue
        names = f.mod.exports
        if (f.node.name in names) if names is not None else \
                not f.node.name.startswith('_'):
            out.append(f)
    return out


def C36(c):
    runs = [c.run(f) for f in public_functions(c)]
    # what is cut off here is an entry point of its own above
    runs.append(c.run(REG, OPAQUE_REG, (REGISTRAR, )))
    runs.append(c.run(AUTH, OPAQUE_AUTH, (REGISTRAR, )))
    for q in sorted(c.p.funcs):
        m, x = q.split(':')
        if m in ('sa_specs.members', 'sa_specs.builders') and \
                not x.startswith('is_'):
            r = c.run(c.p.funcs[q])
            if m == 'sa_specs.members':
                r.at = 'types.' + x.split('_', 1)[1]
            else:
                r.at = 'builders (%s)' % x
            runs.append(r)
    if len(runs) < 100:
        raise AnalysisBroken('only %d entry points found' % len(runs))
    for r in runs:
        es = r.it.effects
        c.ob('no state outlives the call', r.site(),
             'neither %s nor anything it calls stores outside the call or '
             'reads changing state' % r.qual.split(':')[1], not es,
             '; '.join('%s: %s at %s' % e for e in es[:4]))


GROUPS = {
    'BackendError': ('ClientDataTypeError', 'ChallengeError',
                     'TokenBindingError', 'RPIDHashError',
                     'UserPresenceError', 'UserVerificationError',
                     'ExtensionError', 'CredentialNotAllowedError',
                     'UserIDError', 'UserHandleError', 'RPNotFoundError',
                     'RPIDError', 'RegistrationError', 'CredentialDataError',
                     'SignatureCountError'),
    'ConverterError': ('JSONConversionError', 'PublicKeyConversionError'),
    'ParserError': ('DecodingError', ),
}
ALONE = ('OriginError', 'VerificationError', 'UnimplementedError',
         'ValidationError', 'BuilderError', 'AttestationError',
         'InternalError')


def C46(c):
    kind = {}
    for n in tuple(GROUPS) + ALONE + sum(GROUPS.values(), ()):
        r = c.p.resolve_name(c.p.module_of('errors'), n)
        kind[n] = r[1] if r is not None and r[0] == 'class' else None
    base = c.cls(LIB)
    within = {x: g for g, xs in GROUPS.items() for x in xs}
    for n, k in kind.items():
        if k is None:
            c.ob('every documented error exists', 'webauthn_rp.errors',
                 n + ' is a class of the library', False, 'it is gone')
            continue
        site = '%s:%d (errors.%s)' % (os.path.relpath(k.mod.path, c.p.root),
                                      k.node.lineno, n)
        c.units.add(k.qual)
        for up in ('WebAuthnRPError', within.get(n)):
            u = base if up == 'WebAuthnRPError' else kind.get(up)
            if u is not None:
                c.ob('every error belongs to its group', site,
                     'a handler for %s catches %s' % (up, n),
                     c.p.hier(k.qual, u.qual) is True, 'it does not')
        for m, o in kind.items():
            if o is None or o is k or within.get(n) == m:
                continue
            c.ob('no error passes for another', site,
                 'a handler for %s does not catch %s' % (m, n),
                 c.p.hier(k.qual, o.qual) is False, 'it does')


CALLBACKS = {
    'register_credential_attestation':
        (('credential', 'att', 'att_type', 'user', 'rp', 'trusted_path'), 5),
    'register_credential_assertion':
        (('credential', 'authenticator_data', 'user', 'rp'), 4),
    GET: (('credential_id', ), 1),
}


def C47(c):
    for name, (want, need) in CALLBACKS.items():
        r = c.run('%s.%s' % (REGISTRAR, name))
        c.ob('a storage operation nobody implemented is refused', r.site(),
             '%s of the base class never returns' % name, not r.returns,
             'it may return')
        c.classes('a storage operation nobody implemented is refused', r,
                  ('errors.UnimplementedError', ))
        a = c.fn('%s.%s' % (REGISTRAR, name)).node.args
        got = [x.arg for x in a.posonlyargs + a.args][1:]
        opt = len(got) - len(a.defaults)
        c.ob('implementations of the documented interface keep working',
             r.site(), '%s takes %s, the first %d required' %
             (name, ', '.join(want), need),
             tuple(got) == want and opt == need and not a.posonlyargs
             and not a.kwonlyargs, 'it takes ' + ', '.join(got))
    for r, reads in ((reg(c), ()), (auth(c)[0], (GET, ))):
        for g, e in r.events:
            want = CALLBACKS.get(e.name)
            c.ob('implementations of the documented interface keep working',
                 e.site, '%s is called with its documented parameters' %
                 e.name, want is not None and set(e.args) == set(want[0]),
                 'called with ' + ', '.join(e.args))
    for r in uses(c, 'storage', lambda x: REGISTRAR.split('.')[0] + '.' +
                  x.split('_', 1)[1]):
        c.classes('constructors accept every argument', r, ())
