"""The ASN.1 schema of a class, read off its component type."""
from .terms import T, cval, is_const

U = 'pyasn1.type.univ.'
FIELD = {'NamedType': 'required', 'OptionalNamedType': 'optional',
         'DefaultedNamedType': 'defaulted'}
TAGCLASS = {'tagClassContext': 0x80, 'tagClassUniversal': 0,
            'tagClassApplication': 0x40, 'tagClassPrivate': 0xc0}


class Odd(Exception):
    """not of a form that has a schema"""


def call_of(t):
    """(external name, positional, keyword arguments) of a call"""
    if not isinstance(t, T) or t.op != 'call':
        raise Odd(t)
    f, pos, kw = t.args
    return f, list(pos), dict(kw)


def number(t):
    if t.op == 'ext':
        n = t.args[0].split('.')[-1]
        if n in TAGCLASS:
            return TAGCLASS[n]
    if is_const(t) and type(cval(t)) is int:
        return cval(t)
    raise Odd(t)


def tag(t):
    """(class, number); the format makes no difference to an explicit tag"""
    f, pos, kw = call_of(t)
    if f.op != 'ext' or not f.args[0].endswith('.Tag'):
        raise Odd(t)
    a = dict(zip(('tagClass', 'tagFormat', 'tagId'), pos), **kw)
    return number(a['tagClass']), number(a['tagId'])


def type_of(t):
    """('Integer',), ('SetOf', element), ('class', name), with explicit tags
    appended outermost last"""
    f, pos, kw = call_of(t)
    if f.op == 'ext' and f.args[0].startswith('pyasn1.type.'):
        n = f.args[0].split('.')[-1]
        if n in ('SetOf', 'SequenceOf'):
            e = pos[0] if pos else kw.pop('componentType', None)
            if e is None or kw or len(pos) > 1:
                raise Odd(t)
            return (n, type_of(e)), ()
        if pos or kw:
            raise Odd(t)
        return (n, ), ()
    if f.op == 'cls':
        if pos or kw:
            raise Odd(t)
        return ('class', f.args[0].split(':')[-1]), ()
    if f.op == 'attr' and f.args[1] == 'subtype' or \
            f.op == 'attr' and is_const(f.args[1]) and \
            cval(f.args[1]) == 'subtype':
        base, tags = type_of(f.args[0])
        if pos or set(kw) != {'explicitTag'}:
            raise Odd(t)
        return base, tags + (tag(kw['explicitTag']), )
    raise Odd(t)


def fields(t):
    """[(name, required/optional/defaulted, type, tags)...] of NamedTypes"""
    f, pos, kw = call_of(t)
    if f.op != 'ext' or not f.args[0].endswith('.NamedTypes') or kw:
        raise Odd(t)
    out = []
    for x in pos:
        g, p, k = call_of(x)
        if g.op != 'ext' or g.args[0].split('.')[-1] not in FIELD:
            raise Odd(x)
        a = dict(zip(('name', 'asn1Object', 'openType'), p), **k)
        if set(a) != {'name', 'asn1Object'}:
            raise Odd(x)
        ty, tags = type_of(a['asn1Object'])
        out.append((cval(a['name']), FIELD[g.args[0].split('.')[-1]], ty,
                    tags))
    return out


def labels(t):
    """{label: number} of NamedValues"""
    f, pos, kw = call_of(t)
    if f.op != 'ext' or not f.args[0].endswith('.NamedValues'):
        raise Odd(t)
    out = {k: number(v) for k, v in kw.items()}
    for i, x in enumerate(pos):
        if x.op != 'tuple':
            raise Odd(x)
        out[cval(x.args[0])] = number(x.args[1])
    return out
