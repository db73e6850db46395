"""What the analysis knows about Python's builtins and the libraries used.

Each model gives the value of an operation as a term and the exceptions it may
raise. Unknown operations become uninterpreted terms that may raise anything.
"""
import ast
import re
import struct as _struct

from .logic import entails
from .project import canon, type_members
from .state import UNBOUND, Dead, H
from .terms import (FALSE, NONE, TRUE, And, Ite, Not, Or, T, beuint, bitand,
                    cat, const, contains_member, count_, cval, elem, eq,
                    exists, forall, gamma, has, is_bool, is_const, is_formula,
                    item, keys, leaves, length, lin, lin_add, linparts, lt, mk,
                    never_none, norm_coll, slice_, static_type, truthy,
                    type_atom)

ANY = '*'

EXT_CONST = {
    'True': TRUE,
    'False': FALSE,
    'None': NONE,
    'Ellipsis': const(Ellipsis),
    'NotImplemented': mk('ext', 'NotImplemented'),
    'typing.TYPE_CHECKING': FALSE,
    'string.ascii_lowercase': const('abcdefghijklmnopqrstuvwxyz'),
    'string.ascii_uppercase': const('ABCDEFGHIJKLMNOPQRSTUVWXYZ'),
    'string.digits': const('0123456789'),
    '__debug__': mk('ext', '__debug__'),
    'http.client.HTTP_PORT': const(80),
    'http.client.HTTPS_PORT': const(443),
}

EC = 'cryptography.hazmat.primitives.asymmetric.ec.'
ED = 'cryptography.hazmat.primitives.asymmetric.ed25519.'
E4 = 'cryptography.hazmat.primitives.asymmetric.ed448.'
HS = 'cryptography.hazmat.primitives.hashes.'
X5 = 'cryptography.x509.'

RETURNS = {
    X5 + 'load_der_x509_certificate': X5 + 'Certificate',
    X5 + 'Certificate.public_key': 'cryptography.PublicKey',
    EC + 'EllipticCurvePublicNumbers.public_key': EC + 'EllipticCurvePublicKey',
    ED + 'Ed25519PublicKey.from_public_bytes': ED + 'Ed25519PublicKey',
    E4 + 'Ed448PublicKey.from_public_bytes': E4 + 'Ed448PublicKey',
    EC + 'EllipticCurvePublicKey.from_encoded_point': EC +
    'EllipticCurvePublicKey',
    'urllib.parse.urlparse': 'urllib.parse.ParseResult',
    'urllib.parse.urlsplit': 'urllib.parse.SplitResult',
    'logging.getLogger': 'logging.Logger',
    're.compile': 're.Pattern',
    'datetime.datetime.now': 'datetime.datetime',
    'struct.Struct': 'struct.Struct',
    'repr': 'str',
    'str': 'str',
    'sorted': 'list',
    'id': 'int',
    'hash': 'int',
}

# methods assumed to be methods whatever the receiver
METHOD_NAMES = {
    'public_key', 'verify', 'public_bytes', 'get_extension_for_oid',
    'get_extension_for_class', 'asOctets', 'hasValue', 'get', 'keys', 'items',
    'values', 'encode', 'decode', 'digest', 'hexdigest', 'update', 'append',
    'add', 'extend', 'join', 'format', 'lower', 'upper', 'strip', 'split',
    'startswith', 'endswith', 'public_numbers', 'asTuple', 'asNumbers',
    'isSameTypeWith', 'getComponentByName', 'getComponentByPosition',
    'prettyPrint', 'pop', 'setdefault', 'copy', 'count', 'index', 'read',
    'read1', 'tell', 'seek', 'finalize', 'difference', 'union',
    'intersection', 'issubset', 'issuperset', 'issuperset', 'isdisjoint',
    'hex', 'replace', 'isupper', 'islower', 'isdigit', 'title', 'capitalize',
    'partition', 'rpartition', 'rsplit', 'rstrip', 'lstrip', 'splitlines',
    'to_bytes', 'bit_length', 'clear', 'insert', 'remove', 'discard',
    'popitem', 'sort', 'reverse', 'unpack', 'unpack_from', 'pack', 'match',
    'fullmatch', 'search', 'findall', 'sub', 'debug', 'info', 'warning',
    'error', 'exception', 'critical', 'zfill', 'isalnum', 'isalpha',
    'casefold', 'swapcase', 'find', 'rfind', 'getvalue', 'group', 'groups'
}

# methods of JSON/CBOR values of unknown type: AttributeError possible
COMMON_METHODS = {
    'get', 'keys', 'items', 'values', 'encode', 'decode', 'lower', 'upper',
    'strip', 'split', 'startswith', 'endswith', 'append', 'join', 'count',
    'index', 'hex', 'replace', 'copy', 'pop', 'find', 'format', 'extend',
    'update', 'difference', 'union', 'isupper', 'islower', 'isdigit'
}

# parameter names, for turning keyword arguments into positional ones
SIGS = {
    X5 + 'load_der_x509_certificate': ('data', 'backend'),
    EC + 'ECDSA': ('algorithm', ),
    EC + 'EllipticCurvePublicNumbers': ('x', 'y', 'curve'),
    EC + 'EllipticCurvePublicKey.from_encoded_point': ('curve', 'data'),
    ED + 'Ed25519PublicKey.from_public_bytes': ('data', ),
    E4 + 'Ed448PublicKey.from_public_bytes': ('data', ),
    'pyasn1.codec.der.decoder.decode': ('substrate', 'asn1Spec'),
    'pyasn1.codec.ber.decoder.decode': ('substrate', 'asn1Spec'),
    X5 + 'ObjectIdentifier': ('dotted_string', ),
    'base64.b64decode': ('s', 'altchars', 'validate'),
    'base64.b64encode': ('s', 'altchars'),
    'base64.urlsafe_b64decode': ('s', ),
    'base64.urlsafe_b64encode': ('s', ),
    'base64.standard_b64decode': ('s', ),
    'base64.standard_b64encode': ('s', ),
    'urllib.parse.urlparse': ('url', 'scheme', 'allow_fragments'),
    'urllib.parse.urlsplit': ('url', 'scheme', 'allow_fragments'),
    'cbor2.loads': ('s', ),
    'cbor2.load': ('fp', ),
    'cbor2.dumps': ('obj', ),
    'json.loads': ('s', ),
    'struct.unpack': ('format', 'buffer'),
    'struct.unpack_from': ('format', 'buffer', 'offset'),
    'struct.pack': None,
    'hmac.compare_digest': ('a', 'b'),
    'hashlib.sha256': ('string', ),
    'hashlib.new': ('name', 'data'),
    'int.from_bytes': ('bytes', 'byteorder', 'signed'),
    'io.BytesIO': ('initial_bytes', ),
    'enumerate': ('iterable', 'start'),
    'typing.cast': ('typ', 'val'),
    'copy.deepcopy': ('x', 'memo'),
    'copy.copy': ('x', ),
}
MSIGS = {
    'verify': ('signature', 'data', 'signature_algorithm'),
    'public_key': ('backend', ),
    'public_bytes': ('encoding', 'format'),
    'get_extension_for_oid': ('oid', ),
    'decode': ('encoding', 'errors'),
    'encode': ('encoding', 'errors'),
    'get': ('key', 'default'),
    'read': ('size', ),
    'read1': ('size', ),
    'to_bytes': ('length', 'byteorder', 'signed'),
}

NONDET = ('random.', 'secrets.', 'time.', 'uuid.', 'os.urandom', 'os.getpid',
          'datetime.datetime.now', 'datetime.datetime.utcnow',
          'datetime.date.today', 'threading.', 'os.environ', 'os.getenv',
          'socket.', 'subprocess.', 'locale.')
LAZY = {'map', 'filter', 'zip', 'enumerate', 'reversed', 'itertools.chain'}
# library functions that do not use up an iterator they are given
KEEPS_ITER = {'iter', 'next', 'isinstance', 'issubclass', 'type', 'id',
              'callable', 'hasattr', 'getattr', 'setattr', 'repr', 'str',
              'print', 'bool', 'hash', 'len', 'typing.cast',
              'typing.identity', 'functools.partial', 'copy.copy'}
TAKES_ITER = {'extend', 'update', 'union', 'intersection', 'difference',
              'issubset', 'issuperset', 'isdisjoint', 'join', 'fromkeys',
              'symmetric_difference', 'difference_update', '__iadd__',
              'intersection_update', 'writelines', 'from_iterable'}

IMPURE_BUILTINS = {'id', 'open', 'input', 'globals', 'exec', 'eval',
                   'setattr', 'delattr', '__import__'}

NOEFFECT = ('logging.', 'warnings.')

PURE_EXT = ('cryptography.', 'pyasn1.')

STR_METHODS = {
    'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'title',
    'capitalize', 'casefold', 'swapcase', 'zfill', 'center', 'ljust', 'rjust',
    'expandtabs', 'removeprefix', 'removesuffix', 'translate'
}
BOOL_METHODS = {
    'startswith', 'endswith', 'isupper', 'islower', 'isdigit', 'isalpha',
    'isalnum', 'isspace', 'isdecimal', 'isnumeric', 'isidentifier',
    'istitle', 'isprintable', 'isascii'
}
BUILTIN_TYPES = ('int', 'str', 'bytes', 'float', 'bool', 'list', 'dict',
                 'tuple', 'set', 'frozenset', 'type', 'object', 'bytearray',
                 'complex', 'memoryview', 'range')

URL_FIELDS = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')


def norm_enc(e):
    e = e.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'utf-8': 'utf-8', 'u8': 'utf-8',
            'us-ascii': 'ascii'}.get(e, e)


def norm_attr(t, name):
    if t.op == 'urlsplit':
        u = mk('urlparse', *t.args)
        if name == 'path':
            return cat(mk('attr', u, 'path'), mk('attr', u, 'params'))
        return mk('attr', u, name)
    if name == 'isValue':
        return mk('fatom', 'asn1has', t)
    if t.op == 'gamma':
        return gamma(t.args[0], norm_attr(t.args[1], name),
                     norm_attr(t.args[2], name))
    return mk('attr', t, name)


def norm_item(f, k):
    if f.op == 'urlparse' and is_const(k) and isinstance(cval(k), int):
        try:
            return mk('attr', f, URL_FIELDS[cval(k)])
        except IndexError:
            pass
    if f.op == 'urlsplit' and is_const(k) and isinstance(cval(k), int):
        fs = ('scheme', 'netloc', 'path', 'query', 'fragment')
        try:
            return norm_attr(f, fs[cval(k)])
        except IndexError:
            pass
    return item(f, k)


def to_const(v):
    """python value -> term"""
    if isinstance(v, (list, tuple)):
        return mk('list' if isinstance(v, list) else 'tuple',
                  *[to_const(x) for x in v])
    return const(v)


def cbor_at(buf, pos):
    if buf.op == 'slice' and buf.args[2] is NONE:
        return cbor_at(buf.args[0], lin_add(buf.args[1], pos))
    return buf, pos


def unpad(s):
    """s with its base64 padding removed, when the padding is enough"""
    if s.op == 'cat':
        last = s.args[-1]
        if is_const(last) and cval(last) and set(cval(last)) in (
            {'='}, {61}) and len(cval(last)) >= 2:
            return cat(*s.args[:-1])
        if last.op == 'strmul' and is_const(last.args[0]) and cval(
                last.args[0]) in ('=', b'='):
            base = cat(*s.args[:-1])
            n = last.args[1]
            L = length(base)
            four = const(4)
            m = mk('imod', L, four)
            if n in (mk('imod', lin(0, ((L, -1), )), four),
                     lin_add(four, m, -1),
                     mk('imod', lin_add(four, m, -1), four)):
                return base
    return None


class Models:
    # ------------------------------------------------------------ helpers
    def fz(self, st, *vs):
        return tuple(self.freeze(st, v) for v in vs)

    def positional(self, sig, args, kwargs):
        """-> (args, kwargs left)"""
        if not sig or not kwargs:
            return tuple(args), tuple(kwargs)
        args = list(args)
        kw = dict(kwargs)
        for n in sig[len(args):]:
            if n in kw:
                args.append(kw.pop(n))
            else:
                break
        return tuple(args), tuple(kw.items())

    def asn1(self, t):
        while True:
            if t.op == 'item' or t.op == 'attr' or t.op in ('elem', 'choose'):
                t = t.args[0]
                continue
            if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[
                    0].startswith('pyasn1.') and t.args[0].args[0].endswith(
                        '.decode'):
                return True
            return False

    def need_str(self, st, f, origin, types=('str', )):
        """TypeError unless f is one of the builtin types"""
        if self.spec:
            return
        cond = self.maybe_none(st, f)
        if cond is not FALSE and 'NoneType' not in types:
            self.raise_if(st, cond, ('TypeError', 'AttributeError'),
                          origin + ' of a value that may be None')
        if f.op in ('item', 'elem', 'unk') and self.dtype(f) == (
                'any', ) and self.known_type(st, f) is None:
            self.check_types(st, f, types, origin)

    def hashable(self, st, k):
        """TypeError when an unknown value used as a key is unhashable"""
        if self.spec or k.op not in ('item', 'elem', 'unk'):
            return
        if self.dtype(k) != ('any', ) or self.asn1(k):
            return
        ty = self.known_type(st, k)
        if ty in ('str', 'int', 'bytes', 'bool', 'float', 'NoneType'):
            return
        bad = Or(type_atom('typeis', k, 'list'), type_atom('typeis', k, 'dict'))
        self.raise_if(st, bad, ('TypeError', ),
                      'an unknown value used as a key may be unhashable')

    # ------------------------------------------------------------ dicts
    def dict_put(self, c, k, v):
        if c.op == 'gamma':
            return gamma(c.args[0], self.dict_put(c.args[1], k, v),
                         self.dict_put(c.args[2], k, v))
        if k.op == 'gamma':
            return gamma(k.args[0], self.dict_put(c, k.args[1], v),
                         self.dict_put(c, k.args[2], v))
        if c.op == 'dict':
            out = []
            hit = False
            unsure = False
            for kk, vv in c.args:
                e = eq(kk, k)
                if e is TRUE:
                    out.append((kk, v))
                    hit = True
                else:
                    if e is not FALSE:
                        unsure = True
                    out.append((kk, vv))
            if hit:
                return mk('dict', *out)
            if not unsure and (is_const(k) or k.op == 'enum'
                               or not c.args):
                return mk('dict', *out, (k, v))
        return mk('dstore', c, k, v)

    def dict_has(self, st, d, k):
        if d.op == 'gamma':
            return Ite(d.args[0], self.dict_has(st, d.args[1], k),
                       self.dict_has(st, d.args[2], k))
        if d.op == 'dict':
            return Or(*[self.equal(st, k, kk) for kk, vv in d.args])
        if d.op == 'dstore':
            return Or(self.equal(st, k, d.args[1]),
                      self.dict_has(st, d.args[0], k))
        if d.op == 'dmerge':
            return Or(self.dict_has(st, d.args[0], k),
                      self.dict_has(st, d.args[1], k))
        if d.op == 'objdict':
            fs = self.objdict_items(st, d)
            if fs is not None:
                return Or(*[self.equal(st, k, const(n)) for n, v in fs])
            return mk('hasattr', d.args[0], k)
        if d.op == 'comp':
            return contains_member(self.freeze(st, k), d)
        if d.op == 'copied' or d.op == 'shallow':
            return self.dict_has(st, d.args[0], k)
        if d.op in ('slice', ):
            return mk('contains', d, k)
        return has(d, self.freeze(st, k))

    def dict_get(self, st, d, k, default=NONE):
        """total lookup (without a default, of a key that is there)"""
        if d.op == 'gamma':
            return gamma(d.args[0], self.dict_get(st, d.args[1], k, default),
                         self.dict_get(st, d.args[2], k, default))
        if k.op == 'gamma':
            return gamma(k.args[0], self.dict_get(st, d, k.args[1], default),
                         self.dict_get(st, d, k.args[2], default))
        if d.op == 'dict':
            r = default
            for kk, vv in reversed(d.args):
                r = vv if r is None else gamma(self.equal(st, k, kk), vv, r)
            return NONE if r is None else r
        if d.op == 'dstore':
            return gamma(self.equal(st, k, d.args[1]), d.args[2],
                         self.dict_get(st, d.args[0], k, default))
        if d.op == 'dmerge':
            return gamma(self.dict_has(st, d.args[1], k),
                         self.dict_get(st, d.args[1], k, default),
                         self.dict_get(st, d.args[0], k, default))
        if d.op == 'objdict':
            fs = self.objdict_items(st, d)
            if fs is not None:
                r = default
                for n, v in reversed(fs):
                    r = v if r is None else gamma(
                        self.equal(st, k, const(n)), v, r)
                return NONE if r is None else r
        if d.op in ('copied', 'shallow'):
            return self.dict_get(st, d.args[0], k, default)
        kf = self.freeze(st, k)
        v = item(d, kf)
        if default is NONE or default is None:
            return v
        return gamma(self.dict_has(st, d, k), v, default)

    # ------------------------------------------------------------ sequences
    def list_append(self, st, obj, v):
        h = st.heap[obj.args[0]]
        st.heap[obj.args[0]] = h.with_val(self.seq_append(h.val, v))

    def seq_append(self, c, v):
        if c.op == 'gamma':
            return gamma(c.args[0], self.seq_append(c.args[1], v),
                         self.seq_append(c.args[2], v))
        if c.op == 'list':
            return mk('list', *c.args, v)
        if c.op == 'cat' and c.args[-1].op == 'list' and len(c.args) > 1:
            return mk('cat', *c.args[:-1], mk('list', *c.args[-1].args, v))
        return mk('cat', c, mk('list', v))

    def set_add(self, c, v):
        if c.op == 'gamma':
            return gamma(c.args[0], self.set_add(c.args[1], v),
                         self.set_add(c.args[2], v))
        if c.op == 'set':
            if v in c.args:
                return c
            return mk('set', *c.args, v)
        return mk('setunion', c, mk('set', v))

    def set_union(self, c, b):
        if b.op == 'gamma':
            return gamma(b.args[0], self.set_union(c, b.args[1]),
                         self.set_union(c, b.args[2]))
        if b.op == 'set':
            for x in b.args:
                c = self.set_add(c, x)
            return c
        if c.op == 'set' and not c.args:
            return b
        return mk('setunion', c, b)

    def seq_cat(self, a, b):
        if a.op == 'gamma':
            return gamma(a.args[0], self.seq_cat(a.args[1], b),
                         self.seq_cat(a.args[2], b))
        if b.op == 'gamma':
            return gamma(b.args[0], self.seq_cat(a, b.args[1]),
                         self.seq_cat(a, b.args[2]))
        if a.op == 'list' and not a.args:
            return b
        if b.op == 'list' and not b.args:
            return a
        if a.op == 'list' and b.op == 'list':
            return mk('list', *a.args, *b.args)
        return mk('cat', a, b)

    def content(self, st, v, base='list'):
        """frozen iterable content of a value, for list()/set()/extend"""
        els = self.concrete_elements(st, v)
        if els is not None:
            return mk(base, *els)
        lv = self.lift(st, v)
        if lv.op == 'gamma':
            return self.map_leaves(st, lv,
                                   lambda x: self.content(st, x, base))
        f = self.freeze(st, v)
        d = self.dtype(f)
        if f.op == 'comp':
            coll, lvl, kind, val, cond = f.args
            if kind == 'dict':
                val = val.args[0]
            return mk('comp', coll, lvl, base, val, cond)
        if ('map', 'dict') in type_members(d) or self.known_type(
                st, f) == 'dict' or f.op in ('dstore', 'dmerge'):
            f = keys(f)
        if f.op in ('items', 'values', 'zip', 'enumerate', 'reversed',
                    'range', 'keys'):
            return mk('aslist' if base == 'list' else 'asset', f)
        if f.op in ('aslist', 'asset'):
            return mk('aslist' if base == 'list' else 'asset', f.args[0])
        return mk('aslist' if base == 'list' else 'asset', f)

    # ------------------------------------------------------------ methods
    def method(self, st, recv, name, args, kwargs, node):
        recv = self.resolve(st, recv)
        if name in TAKES_ITER and not (recv.op == 'obj' and self.h(
                st, recv) is not None and self.h(st, recv).kind == 'rec'):
            args = tuple(self.take(st, a) for a in args)
        if recv.op == 'gamma':
            c, a, b = recv.args
            return self.branch(
                st, c,
                lambda s: self.method(s, a, name, args, kwargs, node),
                lambda s: self.method(s, b, name, args, kwargs, node))
        if name in MSIGS:
            args, kwargs = self.positional(MSIGS[name], args, kwargs)
        args = tuple(self.resolve(st, a) for a in args)
        h = self.h(st, recv)
        if h is not None and h.kind != 'rec':
            m = getattr(self, 'heap_' + h.kind, None)
            return m(st, recv, h, name, args, kwargs, node)
        op = recv.op
        if op == 'cbordecoder' and name == 'decode' and not args:
            return self.x__cbor2__load(st, (recv.args[0], ), recv.args[1],
                                       node)
        if op == 'superext':
            return self.m_superext(st, recv.args[0], name, args, kwargs, node)
        if op in ('fn', 'sdisp'):
            return self.m_sdisp(st, recv, name, args, kwargs, node)
        if op == 'cls' and name.startswith('type.'):
            if name == 'type.__call__':
                c = self.p.classes[recv.args[0]]
                return self.construct(st, c, args, kwargs, node)
            return self.fresh_unk('metaclass')
        if op == 'nt':
            if name == '_replace':
                d = dict(recv.args[1])
                for k, v in kwargs:
                    if k not in d:
                        self.raise_if(st, TRUE, ('ValueError', ), '_replace')
                        raise Dead()
                    d[k] = v
                return mk('nt', recv.args[0],
                          tuple((n, d[n]) for n, v in recv.args[1]))
            if name == '_asdict':
                return self.new(st, 'dict', None,
                                mk('dict', *[(const(n), v)
                                             for n, v in recv.args[1]]))
            recv = mk('tuple', *[v for n, v in recv.args[1]])
            op = 'tuple'
        d = self.dtype(recv) if op not in ('const', ) else ('any', )
        for m in type_members(d):
            if m[0] == 'cls' and m[1] in self.callbacks:
                c = self.p.classes[m[1]]
                if self.lookup_cls(c, name) is not None:
                    return self.callback(st, recv, c, name, args, kwargs,
                                         node)
        if is_const(recv):
            r = self.fold_method(recv, name, args, kwargs)
            if r is not None:
                return r
        ty = self.known_type(st, recv) if op != 'const' else recv.args[0]
        if op in ('dict', 'dstore', 'dmerge', 'objdict'):
            ty = 'dict'
        if op == 'comp':
            ty = recv.args[2]
        if op in ('keys', 'setdiff', 'setunion', 'asset'):
            ty = 'set'
        if op == 'aslist':
            ty = 'list'
        if ty == 'dict' or (name in ('get', 'keys', 'values', 'items')
                            and ty is None and not self.asn1(recv)):
            return self.m_dict(st, recv, name, args, kwargs, node)
        if ty in ('set', 'frozenset'):
            r = self.m_set(st, recv, name, args, kwargs, node)
            if r is not None:
                return r
        if ty in ('list', 'tuple'):
            r = self.m_seq(st, recv, name, args, kwargs, node)
            if r is not None:
                return r
        if ty in ('str', 'bytes') or name in ('encode', 'decode'):
            r = self.m_str(st, recv, ty, name, args, kwargs, node)
            if r is not None:
                return r
        if name in ('difference', 'union', 'intersection', 'issubset',
                    'issuperset', 'isdisjoint'):
            r = self.m_set(st, recv, name, args, kwargs, node)
            if r is not None:
                return r
        if name == 'count' and len(args) == 1 and ty not in ('str', 'bytes'):
            r = self.m_seq(st, recv, name, args, kwargs, node)
            if r is not None:
                return r
        if self.asn1(recv):
            r = self.m_asn1(st, recv, name, args)
            if r is not None:
                return r
        if name == 'to_bytes' and len(args) >= 1:
            return self.m_to_bytes(st, recv, args)
        return self.m_ext(st, recv, name, args, kwargs, node)

    def fold_method(self, recv, name, args, kwargs):
        if recv is NONE:
            return None
        vs = []
        for a in args:
            if is_const(a):
                vs.append(cval(a))
            elif a.op in ('tuple', 'list') and all(
                    is_const(x) for x in a.args):
                vs.append(tuple(cval(x) for x in a.args))
            else:
                return None
        kw = {}
        for k, v in kwargs:
            if not is_const(v):
                return None
            kw[k] = cval(v)
        v = cval(recv)
        if not isinstance(v, (str, bytes, int, float)) or name.startswith(
                '__'):
            return None
        try:
            r = getattr(v, name)(*vs, **kw)
        except Exception:
            return None
        if isinstance(r, (str, bytes, int, float, bool, type(None))):
            return const(r)
        if isinstance(r, (list, tuple)):
            return to_const(r)
        return None

    def m_superext(self, st, selft, name, args, kwargs, node):
        h = self.h(st, selft)
        if name == '__init__':
            if h is not None and h.kind == 'rec' and self.hier(
                    h.cls, 'BaseException') is True:
                val = dict(h.val)
                val['args'] = mk('tuple', *args)
                st.heap[selft.args[0]] = h.with_val(val)
            return NONE
        if name == '__setattr__' and len(args) == 2 and is_const(args[0]):
            return self.set_attr(st, selft, cval(args[0]), args[1], node)
        if name in ('__init_subclass__', '__post_init__'):
            return NONE
        if name == '__new__' and args:
            k = self.resolve(st, args[0])
            c = self.p.classes.get(k.args[0]) if k.op == 'cls' else None
            if c is not None and c.kind != 'namedtuple':
                val = {}
                if self.hier(c.qual, 'BaseException') is True:
                    val['args'] = mk('tuple', *args[1:])
                return self.new(st, 'rec', c.qual, val)
        if name == '__eq__':
            return self.equal(st, selft, args[0])
        t = mk('mcall', mk('superext', self.freeze(st, selft)), name,
               self.fz(st, *args), ())
        self.may_raise(st, t, (ANY, ), 'call of inherited %s' % name)
        return t

    def m_sdisp(self, st, recv, name, args, kwargs, node):
        if name == 'register':
            self.effect('store', 'handler registered on %s' %
                        self.shared_name(recv))
            return args[-1] if args else NONE
        if name == 'dispatch' and args:
            n = self.type_name(args[0])
            if n is not None:
                return self.dispatch_class(recv, n)
        return mk('mcall', recv, name, self.fz(st, *args), ())

    def dispatch_class(self, recv, n):
        return self.fresh_unk('dispatch')

    # ---- heap objects
    def setval(self, st, recv, val):
        h = st.heap[recv.args[0]]
        st.heap[recv.args[0]] = h.with_val(val)

    def heap_list(self, st, recv, h, name, args, kwargs, node):
        if name == 'append':
            self.list_append(st, recv, args[0])
            return NONE
        if name in ('extend', '__iadd__'):
            self.setval(st, recv, self.seq_cat(
                h.val, self.content(st, args[0], 'list')))
            return NONE
        if name == 'copy':
            return self.new(st, 'list', None, h.val)
        if name == 'clear':
            self.setval(st, recv, mk('list'))
            return NONE
        if name == 'insert' and h.val.op == 'list' and is_const(args[0]):
            ls = list(h.val.args)
            ls.insert(cval(args[0]), args[1])
            self.setval(st, recv, mk('list', *ls))
            return NONE
        if name == 'pop' and h.val.op == 'list' and h.val.args and (
                not args or is_const(args[0])):
            ls = list(h.val.args)
            try:
                v = ls.pop(*[cval(a) for a in args])
            except IndexError:
                self.raise_if(st, TRUE, ('IndexError', ), 'pop')
                raise Dead()
            self.setval(st, recv, mk('list', *ls))
            return v
        if name == 'reverse':
            if h.val.op == 'list':
                self.setval(st, recv, mk('list', *reversed(h.val.args)))
            else:
                self.setval(st, recv, mk('reversed', h.val))
            return NONE
        if name in ('insert', 'pop', 'remove', 'sort'):
            self.setval(st, recv, self.fresh_unk('list'))
            if name == 'pop':
                return self.fresh_unk('item')
            return NONE
        f = self.freeze(st, recv)
        r = self.m_seq(st, f, name, args, kwargs, node)
        if r is None:
            self.note('list method %s' % name)
            r = self.fresh_unk('list.' + name)
        return r

    def heap_set(self, st, recv, h, name, args, kwargs, node):
        if name == 'add':
            self.setval(st, recv, self.set_add(h.val, args[0]))
            return NONE
        if name == 'update':
            c = h.val
            for a in args:
                c = self.set_union(c, self.content(st, a, 'set'))
            self.setval(st, recv, c)
            return NONE
        if name in ('discard', 'remove'):
            f = self.freeze(st, recv)
            x = self.freeze(st, args[0])
            if name == 'remove':
                self.raise_if(st, Not(self.contained(st, x, recv, node)),
                              ('KeyError', ), 'set remove')
            self.setval(st, recv, self.set_minus(st, f, mk('set', x)))
            return NONE
        if name == 'difference_update':
            r = self.m_set(st, self.freeze(st, recv), 'difference', args,
                           kwargs, node)
            self.setval(st, recv, self.freeze(st, r))
            return NONE
        if name == 'intersection_update':
            r = self.m_set(st, self.freeze(st, recv), 'intersection', args,
                           kwargs, node)
            self.setval(st, recv, self.freeze(st, r))
            return NONE
        if name == 'copy':
            return self.new(st, 'set', None, h.val)
        if name == 'clear':
            self.setval(st, recv, mk('set'))
            return NONE
        if name == 'pop':
            self.setval(st, recv, self.fresh_unk('set'))
            return self.fresh_unk('member')
        r = self.m_set(st, self.freeze(st, recv), name, args, kwargs, node)
        if r is None:
            self.note('set method %s' % name)
            r = self.fresh_unk('set.' + name)
        return r

    def dict_feed(self, st, recv, a, node):
        """the entries of a mapping or of an iterable of pairs"""
        c = st.heap[recv.args[0]].val
        d = self.dict_items(st, a)
        if d is not None:
            for k, v in d:
                c = self.dict_put(c, k, v)
            self.setval(st, recv, c)
            return NONE
        h = self.h(st, a)
        if h is None or h.kind != 'dict':
            lv = self.lift(st, a)
            if lv.op == 'gamma' and all(
                    self.concrete_elements(st, x) is not None
                for g, x in leaves(lv)):
                return self.on_leaves(
                    st, lv, lambda s, x: self.dict_feed(s, recv, x, node))
            els = self.concrete_elements(st, a)
            if els is not None and a.op not in ('dict', 'objdict'):
                ps = [self.concrete_elements(st, e) for e in els]
                if all(p is not None and len(p) == 2 for p in ps):
                    for k, v in ps:
                        self.set_item(st, recv, k, v, node)
                    return NONE
                self.note('entries from unknown pairs')
        f = self.freeze(st, a)
        if f.op == 'gamma':
            c = self.dict_merge_gamma(st, c, f)
        elif f.op == 'comp' and f.args[2] != 'dict' and \
                f.args[3].op == 'tuple' and c.op == 'dict' and not c.args:
            coll, lvl, kind, val, cond = f.args
            c = mk('comp', coll, lvl, 'dict', val, cond)
        else:
            c = self.dict_merged(st, c, f)
        self.setval(st, recv, c)
        return NONE

    def heap_dict(self, st, recv, h, name, args, kwargs, node):
        if name == 'update':
            for a in args:
                self.dict_feed(st, recv, a, node)
            c = st.heap[recv.args[0]].val
            for k, v in kwargs:
                c = self.dict_put(c, const(k), v)
            self.setval(st, recv, c)
            return NONE
        if name == 'setdefault':
            k = args[0]
            dv = args[1] if len(args) > 1 else NONE
            hk = self.dict_has(st, h.val, k)

            def no(s):
                self.set_item(s, recv, k, dv, node)
                return dv

            return self.branch(st, hk,
                               lambda s: self.dict_get(s, s.heap[
                                   recv.args[0]].val, k), no)
        if name == 'pop':
            k = args[0]
            hk = self.dict_has(st, h.val, k)
            v = self.dict_get(st, h.val, k,
                              args[1] if len(args) > 1 else NONE)
            if len(args) < 2:
                self.raise_if(st, Not(hk), ('KeyError', ), 'dict pop')
            self.setval(st, recv, self.dict_del(st, h.val, k))
            return v
        if name == 'copy':
            return self.new(st, 'dict', None, h.val)
        if name == 'clear':
            self.setval(st, recv, mk('dict'))
            return NONE
        if name == '__setitem__':
            return self.set_item(st, recv, args[0], args[1], node)
        if name == '__delitem__':
            self.del_item(st, recv, args[0], node)
            return NONE
        if name == 'popitem':
            self.raise_if(st, Not(truthy(self.freeze(st, recv))),
                          ('KeyError', ), 'dict popitem')
            self.setval(st, recv, self.fresh_unk('dict'))
            return self.fresh_unk('item')
        return self.m_dict(st, h.val, name, args, kwargs, node)

    def dict_merged(self, st, a, b):
        if a.op == 'dict' and not a.args and \
                self.known_type(st, b) == 'dict':
            return b
        return mk('dmerge', a, b)

    def dict_merge_gamma(self, st, c, f):
        if f.op == 'gamma':
            return gamma(f.args[0], self.dict_merge_gamma(st, c, f.args[1]),
                         self.dict_merge_gamma(st, c, f.args[2]))
        if f.op == 'dict':
            for k, v in f.args:
                c = self.dict_put(c, k, v)
            return c
        return self.dict_merged(st, c, f)

    def dict_del(self, st, c, k):
        if c.op == 'gamma':
            return gamma(c.args[0], self.dict_del(st, c.args[1], k),
                         self.dict_del(st, c.args[2], k))
        if c.op == 'dict':
            es = [(self.equal(st, kk, k), kk, vv) for kk, vv in c.args]
            if all(e in (TRUE, FALSE) for e, _, _ in es):
                return mk('dict', *[(kk, vv) for e, kk, vv in es
                                    if e is FALSE])
        return mk('ddel', c, self.freeze(st, k))

    def heap_bytesio(self, st, recv, h, name, args, kwargs, node):
        buf, pos = h.val
        if name in ('read', 'read1', 'readinto'):
            n = args[0] if args else NONE
            if n is NONE or (is_const(n) and cval(n) is not None
                             and isinstance(cval(n), int) and cval(n) < 0):
                out = slice_(buf, pos, NONE)
                st.heap[recv.args[0]] = h.with_val((buf, length(buf)))
                return out
            n = self.freeze(st, n)
            end = lin_add(pos, n)
            out = slice_(buf, pos, end)
            # the position stops at the end of the buffer; beyond it reads
            # give b'' just as slices do
            st.heap[recv.args[0]] = h.with_val((buf, end))
            return out
        if name == 'tell':
            def tell(s, p):
                end = self.slice_len(s, buf)
                short = lt(end, p)
                if self.known(s, Not(short)):
                    return p
                return gamma(short, end, p)

            return self.on_leaves(st, pos, tell)
        if name == 'seek':
            off = args[0]
            wh = args[1] if len(args) > 1 else const(0)
            if wh is const(0):
                new = off
            elif wh is const(1):
                new = lin_add(pos, off)
            else:
                new = lin_add(length(buf), off)
            st.heap[recv.args[0]] = h.with_val((buf, new))
            return new
        if name in ('getvalue', 'getbuffer'):
            return buf
        if name in ('close', 'flush', '__exit__'):
            return NONE
        if name in ('readable', 'seekable'):
            return TRUE
        if name == '__enter__':
            return recv
        self.note('BytesIO method %s' % name)
        return self.fresh_unk('bytesio.' + name)

    def heap_iter(self, st, recv, h, name, args, kwargs, node):
        if name == '__next__':
            return self.x__next(st, (recv, ), (), node)
        if name == '__iter__':
            return recv
        if name == 'close':
            self.setval(st, recv, mk('list'))
            return NONE
        self.raise_if(st, TRUE, ('AttributeError', ),
                      'method %s of an iterator' % name)
        raise Dead()

    def heap_hash(self, st, recv, h, name, args, kwargs, node):
        alg, data = h.val
        if name == 'update':
            a = self.freeze(st, args[0])
            self.need_str(st, a, 'hashing', ('bytes', ))
            st.heap[recv.args[0]] = h.with_val((alg, cat(data, a)))
            return NONE
        if name in ('digest', 'finalize'):
            return mk('digest', alg, data)
        if name == 'hexdigest':
            return mk('hex', mk('digest', alg, data))
        if name == 'copy':
            return self.new(st, 'hash', None, h.val)
        return self.fresh_unk('hash.' + name)

    # ---- pure values
    def m_dict(self, st, d, name, args, kwargs, node):
        if name == 'get':
            k = args[0]
            dv = args[1] if len(args) > 1 else NONE
            kf = self.freeze(st, k)
            self.hashable(st, kf)
            return self.dict_get(st, d, k, dv)
        if name in ('keys', '__iter__'):
            if d.op == 'dict':
                return mk('keys', d)
            return keys(d)
        if name == 'values':
            return mk('values', d)
        if name == 'items':
            return mk('items', d)
        if name == 'copy':
            return self.new(st, 'dict', None, self.as_it_is(st, d))
        if name == '__contains__':
            return self.dict_has(st, d, args[0])
        if name == '__getitem__':
            return self.subscript(st, d, args[0], node)
        if name in ('pop', 'update', 'setdefault', 'clear', 'popitem',
                    '__setitem__', '__delitem__'):
            if d.op == 'objdict' and name in ('update', '__setitem__'):
                new = self.new_members(st, name, args, kwargs)
                if new is not None:
                    for k, v in new:
                        self.set_attr(st, d.args[0], k, v, node)
                    return NONE
            o = self.modified(st, d, 'dict', 'dict method ' + name)
            if o is not None:
                return self.heap_dict(st, o, st.heap[o.args[0]], name, args,
                                      kwargs, node)
            return self.fresh_unk('dict.' + name)
        self.note('dict method %s' % name)
        return self.fresh_unk('dict.' + name)

    def as_it_is(self, st, d):
        """the members of an object, as they are now"""
        fs = self.dict_items(st, d) if d.op == 'objdict' else None
        return d if fs is None else mk('dict', *fs)

    def new_members(self, st, name, args, kwargs):
        """what an operation on the __dict__ of an object sets, if known"""
        if name == '__setitem__':
            k = self.freeze(st, args[0])
            return [(cval(k), args[1])] if is_const(k) and isinstance(
                cval(k), str) else None
        out = []
        for a in args:
            fs = self.dict_items(st, a)
            if fs is None:
                return None
            out += fs
        if not all(is_const(k) and isinstance(cval(k), str) for k, v in out):
            return None
        return [(cval(k), v) for k, v in out] + list(kwargs)

    def set_minus(self, st, s, other):
        els = self.concrete_elements(st, s)
        if els is None or len(els) > 4:
            return mk('setdiff', s, other)
        out = mk('set')
        for e in els:
            out = gamma(self.member(st, e, other), out,
                        self.map_leaves(
                            st, out, lambda o, e=e: mk('set', *o.args, e)))
        return out

    def m_set(self, st, s, name, args, kwargs, node):
        if name == 'difference':
            r = s
            for a in args:
                c = self.content(st, a, 'set')
                r = self.set_minus(st, r, c)
            return self.new(st, 'set', None, r)
        if name == 'union':
            r = self.new(st, 'set', None, s)
            return_h = st.heap[r.args[0]]
            self.heap_set(st, r, return_h, 'update', args, kwargs, node)
            return r
        if name == 'intersection':
            r = s
            for a in args:
                r = self.set_inter(st, r, self.content(st, a, 'set'))
            return self.new(st, 'set', None, r)
        if name == 'symmetric_difference':
            b = self.content(st, args[0], 'set')
            return self.new(st, 'set', None,
                            mk('setunion', mk('setdiff', s, b),
                               mk('setdiff', b, s)))
        if name == 'issubset':
            return self.subset(st, s, self.content(st, args[0], 'set'))
        if name == 'issuperset':
            return self.subset(st, self.content(st, args[0], 'set'), s)
        if name == 'isdisjoint':
            r = self.set_inter(st, s, self.content(st, args[0], 'set'))
            return Not(truthy(r))
        if name == '__contains__':
            return self.contained(st, args[0], s, node)
        if name == 'copy':
            return self.new(st, 'set', None, s)
        if name in ('add', 'update', 'discard', 'remove', 'clear', 'pop'):
            o = self.modified(st, s, 'set', 'set method ' + name)
            if o is not None:
                return self.heap_set(st, o, st.heap[o.args[0]], name, args,
                                     kwargs, node)
            return self.fresh_unk('set.' + name)
        return None

    def set_inter(self, st, a, b):
        els = self.concrete_elements(st, a)
        if els is not None:
            bels = self.concrete_elements(st, b)
            if bels is not None:
                keep = []
                for x in els:
                    c = contains_member(x, b)
                    if c is TRUE:
                        keep.append(x)
                    elif c is not FALSE:
                        break
                else:
                    return mk('set', *keep)
            c, l, e, _, f = self.generic_element(st, b)
            return mk('comp', c, l, 'set', e, And(f, contains_member(e, a)))
        c, l, e, _, f = self.generic_element(st, a)
        return mk('comp', c, l, 'set', e, And(f, contains_member(e, b)))

    def m_seq(self, st, s, name, args, kwargs, node):
        if name == 'count' and len(args) == 1:
            x = self.freeze(st, args[0])
            els = self.concrete_elements(st, s)
            if els is not None:
                return lin(0, tuple(
                    (gamma(self.equal(st, e, x), const(1), const(0)), 1)
                    for e in els)) if not els else self.sum_terms(
                        st, [gamma(self.equal(st, e, x), const(1), const(0))
                             for e in els])
            c, l, e, _, f = self.generic_element(st, s)
            return count_(c, l, And(f, eq(e, x)))
        if name == 'index':
            x = self.freeze(st, args[0])
            self.raise_if(st, Not(self.contained(st, x, s, node)),
                          ('ValueError', ), 'index')
            return mk('index', s, x)
        if name == '__contains__':
            return self.contained(st, args[0], s, node)
        if name == '__len__':
            return length(s)
        if name == 'copy':
            return self.new(st, 'list', None, self.content(st, s, 'list'))
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear',
                    'sort', 'reverse'):
            o = self.modified(st, s, 'list', 'list method ' + name)
            if o is not None:
                return self.heap_list(st, o, st.heap[o.args[0]], name, args,
                                      kwargs, node)
            return self.fresh_unk('list.' + name)
        return None

    def sum_terms(self, st, ts):
        r = const(0)
        for t in ts:
            if t.op == 'gamma' or r.op == 'gamma':
                r = self.gmap2(r, t, lambda a, b: lin_add(a, b))
            else:
                r = lin_add(r, t)
        return r

    def gmap2(self, a, b, fn):
        if a.op == 'gamma':
            return gamma(a.args[0], self.gmap2(a.args[1], b, fn),
                         self.gmap2(a.args[2], b, fn))
        if b.op == 'gamma':
            return gamma(b.args[0], self.gmap2(a, b.args[1], fn),
                         self.gmap2(a, b.args[2], fn))
        return fn(a, b)

    def m_str(self, st, s, ty, name, args, kwargs, node):
        af = self.fz(st, *args)
        if name == 'encode':
            enc = norm_enc(cval(af[0])) if af and is_const(af[0]) else (
                'utf-8' if not af else None)
            err = cval(af[1]) if len(af) > 1 and is_const(af[1]) else dict(
                kwargs).get('errors', 'strict')
            if type(err) is T:
                err = cval(err) if is_const(err) else '?'
            if enc is None:
                t = mk('mcall', s, name, af, ())
                self.may_raise(st, t, ('LookupError', 'UnicodeEncodeError'),
                               'encode')
                return t
            if s.op == 'decode' and s.args[1:] == ('utf-8', 'strict') and \
                    enc == 'utf-8' and err == 'strict':
                return s.args[0]
            if s.op in ('b64str', ) and enc in ('utf-8', 'ascii', 'latin-1'):
                return mk('b64enc', *s.args)
            t = mk('encode', s, enc, err)
            if s.op not in ('hex', ) and not is_const(s) and err == 'strict':
                self.may_raise(st, t, ('UnicodeEncodeError', ),
                               'encoding as %s' % enc)
            return t
        if name == 'decode':
            enc = norm_enc(cval(af[0])) if af and is_const(af[0]) else (
                'utf-8' if not af else None)
            err = cval(af[1]) if len(af) > 1 and is_const(af[1]) else dict(
                kwargs).get('errors', 'strict')
            if type(err) is T:
                err = cval(err) if is_const(err) else '?'
            if enc is None:
                t = mk('mcall', s, name, af, ())
                self.may_raise(st, t, ('LookupError', 'UnicodeDecodeError'),
                               'decode')
                return t
            if s.op == 'b64enc' and enc in ('utf-8', 'ascii', 'latin-1',
                                            'iso-8859-1'):
                return mk('b64str', *s.args)
            if s.op == 'encode' and s.args[1] == enc == 'utf-8':
                return s.args[0]
            t = mk('decode', s, enc, err)
            if err == 'strict' and enc != 'latin-1':
                self.may_raise(st, t, ('UnicodeDecodeError', ),
                               'decoding as %s' % enc)
            return t
        if name == 'hex' and not af:
            return mk('hex', s)
        if name == 'join':
            return self.m_join(st, s, args[0])
        if name == 'format':
            return self.text(st, s, *af,
                             *[self.freeze(st, v) for k, v in kwargs])
        if name in ('find', 'index') and len(af) == 1:
            c = self.contained(st, af[0], s, node)
            t = mk('strop', 'find', s, af)
            st.assume(Not(lt(t, const(0))))
            if name == 'index':
                self.raise_if(st, Not(c), ('ValueError', ), 'substring index')
                return t
            return gamma(c, t, const(-1))
        if name == 'count' and len(af) == 1:
            c = self.contained(st, af[0], s, node)
            t = mk('strop', 'count', s, af)
            st.assume(lt(const(0), t))
            return gamma(c, t, const(0))
        if name in ('startswith', 'endswith'):
            if len(af) == 1 and af[0].op in ('tuple', ):
                return Or(*[self.m_str(st, s, ty, name, (x, ), (), node)
                            for x in af[0].args])
            if len(af) == 1 and is_const(af[0]):
                n = len(cval(af[0]))
                if ty == 'bytes':
                    # as a comparison of a prefix
                    if n == 0:
                        return TRUE
                    if name == 'startswith':
                        return eq(slice_(s, const(0), const(n)), af[0])
            return mk('fatom', name, s, af)
        if name in BOOL_METHODS:
            return mk('fatom', name, s, af)
        if name in STR_METHODS:
            t = mk('strop', name, s, af)
            self.set_type(t, ('ext', ty or 'str'))
            return t
        if name in ('split', 'rsplit', 'splitlines'):
            t = mk('strop', name, s, af)
            self.set_type(t, ('seq', 'list', ('ext', ty or 'str')))
            return t
        if name in ('partition', 'rpartition'):
            t = mk('strop', name, s, af)
            self.set_type(t, ('tup', (('ext', ty or 'str'), ) * 3))
            c = self.contained(st, af[0], s, node)
            if name == 'partition':
                return mk('tuple', gamma(c, item(t, const(0)), s),
                          gamma(c, af[0], const('' if ty != 'bytes' else b'')),
                          gamma(c, item(t, const(2)),
                                const('' if ty != 'bytes' else b'')))
            return mk('tuple', *[item(t, const(i)) for i in range(3)])
        if name == '__contains__':
            return self.contained(st, af[0], s, node)
        if name == '__len__':
            return length(s)
        if name in ('tobytes', ):
            return s
        return None

    def m_join(self, st, sep, it):
        els = self.concrete_elements(st, it)
        if els is not None:
            if not els:
                return const('' if static_type(sep) == 'str' else b'')
            out = []
            for i, e in enumerate(els):
                if i and not (is_const(sep) and not cval(sep)):
                    out.append(sep)
                out.append(e)
            if any(e.op == 'gamma' for e in out):
                r = out[0]
                for e in out[1:]:
                    r = self.gmap2(r, e, lambda a, b: cat(a, b))
                return r
            return cat(*out)
        lv = self.lift(st, it)
        if lv.op == 'gamma' and all(
                self.concrete_elements(st, x) is not None
                for g, x in leaves(lv)):
            return self.map_leaves(st, lv,
                                   lambda x: self.m_join(st, sep, x))
        f = self.freeze(st, it)
        t = mk('join', sep, f)
        ty = static_type(sep) or 'str'
        self.set_type(t, ('ext', ty))
        return t

    def m_asn1(self, st, x, name, args):
        if name == 'asOctets':
            return x
        if name == 'hasValue':
            return mk('fatom', 'asn1has', x)
        if name in ('getComponentByName', ):
            return item(x, args[0])
        if name in ('__getitem__', ):
            return item(x, args[0])
        if name == '__int__':
            return x
        if name in ('isSameTypeWith', ):
            return mk('fatom', name, x, self.fz(st, *args))
        return None

    def m_to_bytes(self, st, x, args):
        xf = self.freeze(st, x)
        n = args[0]
        order = args[1] if len(args) > 1 else const('big')
        if is_const(xf) and is_const(n) and is_const(order):
            try:
                return const(cval(xf).to_bytes(cval(n), cval(order)))
            except OverflowError:
                pass
        t = mk('tobytes', xf, self.freeze(st, n), order)
        self.set_type(t, ('ext', 'bytes'))
        self.may_raise(st, t, ('OverflowError', ), 'to_bytes')
        return t

    def drop_backend(self, args, kwargs):
        def isb(t):
            return t.op == 'call' and t.args[0].op == 'ext' and t.args[
                0].args[0].endswith('default_backend') or t is NONE

        args = list(args)
        while args and isb(args[-1]):
            args.pop()
        kwargs = tuple((k, v) for k, v in kwargs
                       if not (k == 'backend' and isb(v)))
        return tuple(args), kwargs

    def m_ext(self, st, recv, name, args, kwargs, node):
        rf = self.freeze(st, recv)
        args, kwargs = self.drop_backend(self.fz(st, *args), [
            (k, self.freeze(st, v)) for k, v in kwargs
        ])
        kw = tuple(sorted(kwargs))
        d = self.dtype(rf)
        tn = d[1] if d[0] == 'ext' else ''
        t = mk('mcall', rf, name, args, kw)
        if tn == 'logging.Logger':
            return NONE
        if tn == 'struct.Struct' and rf.op == 'call':
            fmt = rf.args[1][0]
            if name == 'unpack':
                return self.struct_unpack(st, fmt, args[0])
            if name == 'unpack_from':
                return self.struct_unpack_from(
                    st, fmt, args[0], args[1] if len(args) > 1 else const(0))
        if name == 'verify':
            self.may_raise(
                st, t, ('cryptography.exceptions.InvalidSignature', ),
                'signature verification')
            return NONE
        if name == 'public_key':
            self.may_raise(
                st, t, ('ValueError',
                        'cryptography.exceptions.UnsupportedAlgorithm'),
                'construction of a public key')
            return t
        if name in ('get_extension_for_oid', 'get_extension_for_class'):
            self.may_raise(st, t, ('cryptography.x509.ExtensionNotFound', ),
                           'certificate extension lookup')
            return t
        if name in ('public_bytes', 'public_numbers'):
            if name == 'public_bytes':
                self.set_type(t, ('ext', 'bytes'))
            return t
        if tn == 're.Pattern' or tn.startswith('re.'):
            return t
        if name == 'append' or name in ('add', 'extend', 'update', 'insert',
                                        'pop', 'clear', 'setdefault',
                                        'remove', 'discard', 'popitem',
                                        'sort', 'reverse', '__setitem__',
                                        '__delitem__', '__iadd__',
                                        'difference_update',
                                        'intersection_update',
                                        'symmetric_difference_update'):
            self.modified(st, rf, None, 'method ' + name)
        self.may_raise(st, t, (ANY, ), 'call of method %s of %s' %
                       (name, repr(rf)[:40]))
        return t

    # ------------------------------------------------------------ attributes
    def ext_attr(self, st, t, n, name):
        if n in ('urllib.parse.ParseResult', 'urllib.parse.SplitResult'):
            if name in ('geturl', '_replace', 'count', 'index', '_asdict'):
                return mk('bm', t, name)
            r = norm_attr(t, name)
            if name == 'port':
                self.may_raise(st, r, ('ValueError', ), 'url port')
            return r
        if n == 'logging.Logger' or n == 'struct.Struct' or n == 're.Pattern':
            return mk('bm', t, name)
        if name in METHOD_NAMES:
            return mk('bm', t, name)
        return norm_attr(t, name)

    def ext_attr_type(self, n, name):
        if n in ('urllib.parse.ParseResult', 'urllib.parse.SplitResult'):
            if name in URL_FIELDS:
                return ('ext', 'str')
            if name == 'port':
                return ('union', (('ext', 'int'), ('ext', 'NoneType')))
            if name in ('hostname', 'username', 'password'):
                return ('union', (('ext', 'str'), ('ext', 'NoneType')))
        return ('any', )

    # ------------------------------------------------------------ items
    def subscript(self, st, o, i, node):
        o = self.resolve(st, o)
        i = self.resolve(st, i)
        h = self.h(st, o)
        if o.op == 'gamma':
            c, a, b = o.args
            return self.branch(st, c,
                               lambda s: self.subscript(s, a, i, node),
                               lambda s: self.subscript(s, b, i, node))
        if i.op == 'gamma':
            c, a, b = i.args
            return self.branch(st, c,
                               lambda s: self.subscript(s, o, a, node),
                               lambda s: self.subscript(s, o, b, node))
        if h is not None:
            if h.kind == 'rec':
                c = self.p.classes.get(h.cls)
                r = self.lookup_cls(c, '__getitem__') if c else None
                if r is not None:
                    return self.call(st, mk('bm', o, self.func_value(r[1][1])),
                                     (i, ), (), node)
                return self.fresh_unk('item')
            if h.kind == 'dict':
                return self.dict_subscript(st, h.val, i)
            if h.kind in ('list', ):
                v = h.val
                return self.on_content(st, v, lambda s, x: self.seq_subscript(
                    s, x, i, 'list'))
            return self.fresh_unk('item')
        op = o.op
        if op in ('ext', 'fn'):
            return o
        if op == 'cls':
            c = self.p.classes[o.args[0]]
            if c.kind == 'enum':
                return self.enum_by_name(st, c, i)
            return o
        if op == 'typeof':
            return o
        if op in ('dict', 'objdict', 'dstore', 'dmerge') or (
                op == 'comp' and o.args[2] == 'dict'):
            return self.dict_subscript(st, o, i)
        if op == 'nt':
            return self.seq_subscript(st, mk('tuple',
                                             *[v for n, v in o.args[1]]), i,
                                      'tuple')
        if op in ('tuple', 'list'):
            return self.seq_subscript(st, o, i, op)
        if op == 'const':
            if is_const(i):
                try:
                    return const(cval(o)[cval(i)])
                except IndexError:
                    self.raise_if(st, TRUE, ('IndexError', ), 'index')
                    raise Dead()
                except TypeError:
                    self.raise_if(st, TRUE, ('TypeError', ), 'index')
                    raise Dead()
            return self.seq_subscript(st, o, i, o.args[0])
        f = self.freeze(st, o)
        k = self.freeze(st, i)
        if f.op in ('urlparse', 'urlsplit'):
            return norm_item(f, k)
        if self.asn1(f):
            return item(f, k)
        cond = self.maybe_none(st, f)
        if cond is not FALSE:
            self.raise_if(st, cond, ('TypeError', ),
                          'item of a value that may be None')
        ty = self.known_type(st, f)
        if ty == 'dict':
            return self.dict_subscript(st, f, i)
        if ty in ('bytes', 'str', 'list', 'tuple') or f.op in (
                'cat', 'slice', 'aslist', 'comp', 'keys'):
            return self.seq_subscript(st, f, i, ty or 'list')
        d = self.dtype(f)
        for m in type_members(d):
            if m[0] == 'seq':
                return self.seq_subscript(st, f, i, m[1])
            if m[0] == 'tup':
                return self.seq_subscript(st, f, i, 'tuple')
        if d == ('any', ) and not self.spec:
            if is_const(k) and isinstance(cval(k), int) and f.op in (
                    'item', 'elem', 'param') and not self.known_among(
                        st, f, ('list', 'tuple', 'str', 'bytes')):
                # int subscript of an unknown value
                t = item(f, k)
                self.may_raise(st, mk('getitem', f, k),
                               ('KeyError', 'IndexError', 'TypeError'),
                               'item of a value of unknown type')
                return t
            if self.known_among(st, f, ('list', 'tuple', 'str', 'bytes')):
                return self.seq_subscript(st, f, i, 'list')
            if f.op in ('item', 'elem', 'unk', 'param'):
                self.check_types(st, f, ('dict', ),
                                 'item of a value of unknown type')
                return self.dict_subscript(st, f, i)
            t = item(f, k)
            self.may_raise(st, mk('getitem', f, k),
                           ('KeyError', 'IndexError', 'TypeError'),
                           'item of an unknown value')
            return t
        return item(f, k)

    def on_content(self, st, v, fn):
        v = self.resolve(st, v)
        if v.op == 'gamma':
            return self.branch(st, v.args[0],
                               lambda s: self.on_content(s, v.args[1], fn),
                               lambda s: self.on_content(s, v.args[2], fn))
        return fn(st, v)

    def dict_subscript(self, st, d, i):
        k = self.freeze(st, i)
        self.hashable(st, k)
        hk = self.dict_has(st, d, i)
        self.raise_if(st, Not(hk), ('KeyError', ), 'key %s' % repr(k)[:40])
        return self.resolve(st, self.dict_get(st, d, i, None))

    def seq_subscript(self, st, s, i, ty):
        i = self.freeze(st, i)
        if s.op in ('tuple', 'list') and is_const(i) and isinstance(
                cval(i), int):
            n = len(s.args)
            if -n <= cval(i) < n:
                return s.args[cval(i)]
            self.raise_if(st, TRUE, ('IndexError', ), 'index out of range')
            raise Dead()
        sf = self.freeze(st, s)
        if is_const(i) and isinstance(cval(i), int):
            L = length(sf)
            k = cval(i)
            need = k + 1 if k >= 0 else -k
            self.raise_if(st, lt(L, const(need)), ('IndexError', ),
                          'index %d' % k)
            if k < 0:
                i = lin_add(L, i)
        elif i.op == 'idx' and i.args[0] is norm_coll(sf):
            return item(norm_coll(sf), i)
        elif sf.op in ('tuple', 'list') and len(sf.args) <= 8 and ty != 'x':
            # few alternatives
            bad = Not(Or(*[eq(i, const(j)) for j in range(len(sf.args))]))
            self.raise_if(st, bad, ('IndexError', ), 'index')
            r = None
            for j in reversed(range(len(sf.args))):
                r = s.args[j] if r is None else gamma(eq(i, const(j)),
                                                      s.args[j], r)
            return r if r is not None else self.fresh_unk('item')
        else:
            self.raise_if(st, Not(And(lt(i, length(sf)),
                                      Not(lt(i, const(0))))),
                          ('IndexError', ), 'index')
        if ty == 'bytes':
            return beuint(slice_(sf, i, lin_add(i, const(1))))
        if sf.op == 'comp' or sf.op == 'aslist':
            sf2 = norm_coll(sf)
            if sf2.op != 'comp':
                sf = sf2
        if sf.op == 'slice' and ty in ('str', 'list', 'tuple') or \
                sf.op == 'slice' and ty == 'str':
            return item(sf.args[0], lin_add(sf.args[1], i))
        return norm_item(sf, i)

    def enum_by_name(self, st, c, i):
        ms = self.enum_members(c)
        al = self.gcache.get(('enumalias', c.qual), {})
        vals = dict(ms)
        if is_const(i):
            n = al.get(cval(i), cval(i))
            if n in vals:
                return mk('enum', c.qual, n, vals[n])
            self.raise_if(st, TRUE, ('KeyError', ), 'enum member name')
            raise Dead()
        k = self.freeze(st, i)
        anyof = Or(*[eq(k, const(n)) for n, v in ms])
        self.raise_if(st, Not(anyof), ('KeyError', ), 'enum member name')
        r = None
        for n, v in reversed(ms):
            m = mk('enum', c.qual, n, v)
            r = m if r is None else gamma(eq(k, const(n)), m, r)
        return self.resolve(st, r)

    def set_item(self, st, o, i, v, node):
        o = self.resolve(st, o)
        if o.op == 'gamma':
            c, a, b = o.args
            self.branch(st, c, lambda s: self.set_item(s, a, i, v, node),
                        lambda s: self.set_item(s, b, i, v, node))
            return NONE
        h = self.h(st, o)
        i = self.resolve(st, i)
        if h is not None and h.kind == 'dict':
            k = self.freeze(st, i)
            self.setval(st, o, self.dict_put(h.val, k, v))
            return NONE
        if h is not None and h.kind == 'list':
            if h.val.op == 'list' and is_const(i) and isinstance(
                    cval(i), int) and -len(h.val.args) <= cval(i) < len(
                        h.val.args):
                ls = list(h.val.args)
                ls[cval(i)] = v
                self.setval(st, o, mk('list', *ls))
            else:
                self.setval(st, o, self.fresh_unk('list'))
            return NONE
        if h is not None and h.kind == 'rec':
            c = self.p.classes.get(h.cls)
            r = self.lookup_cls(c, '__setitem__') if c else None
            if r is not None:
                self.call(st, mk('bm', o, self.func_value(r[1][1])), (i, v),
                          (), node)
                return NONE
        if o.op == 'objdict':
            k = self.freeze(st, i)
            if is_const(k):
                return self.set_attr(st, o.args[0], cval(k), v, node)
        k = self.known_type(st, o)
        b = self.modified(st, o, k if k in ('dict', 'list') else None,
                          'assignment to an item')
        if b is not None:
            return self.set_item(st, b, i, v, node)
        return NONE

    def del_item(self, st, o, i, node):
        o = self.resolve(st, o)
        h = self.h(st, o)
        if h is not None and h.kind == 'dict':
            k = self.freeze(st, i)
            self.raise_if(st, Not(self.dict_has(st, h.val, k)),
                          ('KeyError', ), 'del')
            self.setval(st, o, self.dict_del(st, h.val, k))
            return
        if h is not None and h.kind == 'list':
            if h.val.op == 'list' and is_const(i):
                ls = list(h.val.args)
                try:
                    del ls[cval(i)]
                    self.setval(st, o, mk('list', *ls))
                    return
                except Exception:
                    pass
            self.setval(st, o, self.fresh_unk('list'))
            return
        k = self.known_type(st, o)
        b = self.modified(st, o, k if k in ('dict', 'list') else None,
                          'deletion of an item')
        if b is not None:
            self.del_item(st, b, i, node)

    # ------------------------------------------------------------ operators
    def binop_leaf(self, st, op, a, b, node):
        ha, hb = self.h(st, a), self.h(st, b)
        n = type(op).__name__
        if ha is not None and ha.kind == 'rec':
            dm = {'Add': '__add__', 'Sub': '__sub__', 'BitAnd': '__and__',
                  'BitOr': '__or__', 'Mult': '__mul__', 'Mod': '__mod__'}
            c = self.p.classes.get(ha.cls)
            r = self.lookup_cls(c, dm.get(n, '?')) if c else None
            if r is not None:
                return self.call(st, mk('bm', a, self.func_value(r[1][1])),
                                 (b, ), (), node)
        if (ha is not None and ha.kind == 'list') or (
                hb is not None and hb.kind == 'list') or (
                    a.op == 'list') or (b.op == 'list'):
            if n == 'Add':
                return self.new(st, 'list', None, self.seq_cat(
                    self.content(st, a, 'list'), self.content(
                        st, b, 'list')))
            if n == 'Mult':
                x, k = (a, b) if not is_const(a) else (b, a)
                els = self.concrete_elements(st, x)
                if els is not None and is_const(k):
                    return self.new(st, 'list', None,
                                    mk('list', *(els * cval(k))))
                return self.new(st, 'list', None, self.fresh_unk('list'))
        if a.op == 'tuple' and b.op == 'tuple' and n == 'Add':
            return mk('tuple', *a.args, *b.args)
        if (ha is not None and ha.kind == 'dict' or a.op == 'dict') and \
                n == 'BitOr':
            r = self.new(st, 'dict', None, ha.val if ha else a)
            self.method(st, r, 'update', (b, ), (), node)
            return r
        sa, sb = self.setty(st, a), self.setty(st, b)
        if (sa or sb) and n in ('Sub', 'BitAnd', 'BitOr', 'BitXor'):
            x = self.freeze(st, a)
            nm = {'Sub': 'difference', 'BitAnd': 'intersection',
                  'BitOr': 'union', 'BitXor': 'symmetric_difference'}[n]
            return self.m_set(st, x, nm, (b, ), (), node)
        a, b = self.fz(st, a, b)
        if is_const(a) and is_const(b):
            r = self.fold_bin(op, a, b)
            if r is not None:
                return r
        if n in ('BitAnd', 'BitOr', 'BitXor') and is_bool(a) and is_bool(b):
            fa, fb = self.truth(st, a), self.truth(st, b)
            if n == 'BitAnd':
                return And(fa, fb)
            if n == 'BitOr':
                return Or(fa, fb)
            return Or(And(fa, Not(fb)), And(Not(fa), fb))
        ta, tb = self.known_type(st, a), self.known_type(st, b)
        if n == 'Mod' and (ta in ('str', 'bytes')):
            return self.text(st, a, b)
        for x in (a, b):
            cond = self.maybe_none(st, x)
            if cond is not FALSE:
                self.raise_if(st, cond, ('TypeError', ),
                              'operator on a value that may be None')
            elif x.op in ('item', 'elem') and self.dtype(x) == (
                    'any', ) and not self.asn1(x):
                if n == 'Add':
                    other = tb if x is a else ta
                    want = (other, ) if other in ('str', 'bytes', 'int') \
                        else ('str', 'bytes', 'int', 'float', 'list', 'tuple')
                else:
                    want = ('int', 'float', 'bool')
                self.check_types(st, x, want,
                                 'operator on a value of unknown type')
        ta, tb = self.known_type(st, a), self.known_type(st, b)
        if n == 'Add':
            if ta in ('str', 'bytes') or tb in ('str', 'bytes') or \
                    'join' in (a.op, b.op):
                if ta and tb and ta != tb and ta in ('str', 'bytes', 'int',
                                                     'NoneType', 'bool') \
                        and tb in ('str', 'bytes', 'int', 'NoneType', 'bool'):
                    self.raise_if(st, TRUE, ('TypeError', ),
                                  'concatenation of %s and %s' % (ta, tb))
                    raise Dead()
                return cat(a, b)
            if ta in ('int', 'bool') or tb in ('int', 'bool'):
                return lin_add(a, b)
            if ta in ('list', 'tuple') or tb in ('list', 'tuple'):
                return cat(a, b)
            return mk('arith', 'Add', a, b)
        if n == 'Sub':
            return lin_add(a, b, -1)
        if n == 'Mult':
            for x, y in ((a, b), (b, a)):
                if self.known_type(st, x) in ('str', 'bytes'):
                    return mk('strmul', x, y)
            if is_const(a) and isinstance(cval(a), int):
                return lin(0, ((b, cval(a)), ))
            if is_const(b) and isinstance(cval(b), int):
                return lin(0, ((a, cval(b)), ))
            return mk('arith', 'Mult', *sorted((a, b)))
        if n == 'BitAnd':
            return bitand(a, b)
        if n == 'BitOr':
            # disjoint bit ranges add up
            for x, y in ((a, b), (b, a)):
                if x is const(0):
                    return y
            return mk('bitor', *sorted((a, b)))
        if n == 'BitXor':
            return mk('bitxor', *sorted((a, b)))
        if n == 'RShift':
            if is_const(b) and cval(b) == 0:
                return a
            return mk('shr', a, b)
        if n == 'LShift':
            if is_const(b) and isinstance(cval(b), int) and cval(b) >= 0:
                return lin(0, ((a, 1 << cval(b)), ))
            return mk('shl', a, b)
        if n == 'Mod':
            if is_const(b) and cval(b) == 0:
                self.raise_if(st, TRUE, ('ZeroDivisionError', ), 'mod')
                raise Dead()
            return mk('imod', a, b)
        if n in ('Div', 'FloorDiv') and not (is_const(b) and cval(b) != 0):
            self.raise_if(st, eq(b, const(0)), ('ZeroDivisionError', ), 'div')
        return mk('arith', n, a, b)

    def setty(self, st, t):
        h = self.h(st, t)
        if h is not None:
            return h.kind == 'set'
        if self.set_like(st, t):
            return True
        if t.op == 'const':
            return False
        return self.known_type(st, t) in ('set', 'frozenset')

    def fold_bin(self, op, a, b):
        import operator as o
        f = {
            'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv,
            'FloorDiv': o.floordiv, 'Mod': o.mod, 'Pow': o.pow,
            'LShift': o.lshift, 'RShift': o.rshift, 'BitAnd': o.and_,
            'BitOr': o.or_, 'BitXor': o.xor
        }.get(type(op).__name__)
        try:
            if type(op).__name__ in ('Pow', 'LShift', 'Mult') and isinstance(
                    cval(b), int) and abs(cval(b)) > 4096:
                return None
            r = f(cval(a), cval(b))
        except Exception:
            return None
        if isinstance(r, (str, bytes, int, float, bool)):
            return const(r)
        return None

    # ------------------------------------------------------------ isinstance
    def isinstance_formula(self, st, v, cv):
        cv = self.resolve(st, cv)
        if cv.op in ('tuple', 'list', 'uniontype'):
            return Or(*[self.isinstance_formula(st, v, c) for c in cv.args])
        if cv.op == 'gamma':
            return Ite(cv.args[0], self.isinstance_formula(st, v, cv.args[1]),
                       self.isinstance_formula(st, v, cv.args[2]))
        v = self.resolve(st, v)
        if v.op == 'gamma':
            return Ite(v.args[0], self.isinstance_formula(st, v.args[1], cv),
                       self.isinstance_formula(st, v.args[2], cv))
        h = self.h(st, cv)
        if h is not None and h.kind in ('list', 'set'):
            return self.isinstance_formula(st, v, h.val)
        n = self.type_name(cv)
        if n is None:
            return type_atom('isinst', self.freeze(st, v), show_cls(cv))
        return self.isinst(st, v if self.h(st, v) else self.freeze(st, v), n)

    # ------------------------------------------------------------ hasattr
    def hasattr_formula(self, st, o, name):
        o = self.resolve(st, o)
        if o.op == 'gamma':
            return Ite(o.args[0], self.hasattr_formula(st, o.args[1], name),
                       self.hasattr_formula(st, o.args[2], name))
        name = self.resolve(st, name)
        if name.op == 'gamma':
            return Ite(name.args[0],
                       self.hasattr_formula(st, o, name.args[1]),
                       self.hasattr_formula(st, o, name.args[2]))
        fin = self.finite_names(name)
        if fin is not None:
            return Or(*[And(c, self.hasattr_formula(st, o, n))
                        for c, n in fin])
        if not is_const(name):
            return mk('hasattr', self.freeze(st, o), self.freeze(st, name))
        n = cval(name)
        h = self.h(st, o)
        c = None
        if h is not None:
            if h.kind != 'rec':
                return const(hasattr({'list': [], 'dict': {}, 'set': set()}
                                     .get(h.kind, 0), n))
            if n in h.val and h.val[n] is not UNBOUND:
                return TRUE
            if n == '__dict__':
                return TRUE
            c = self.p.classes.get(h.cls)
            if c is None:
                return mk('hasattr', self.freeze(st, o), name)
            return self.static_hasattr(c, n)
        if o.op in ('rec', ):
            if any(k == n for k, v in o.args[1]) or n == '__dict__':
                return TRUE
            c = self.p.classes.get(o.args[0])
            return self.static_hasattr(c, n) if c else mk('hasattr', o, name)
        if o.op in ('nt', ):
            if any(k == n for k, v in o.args[1]):
                return TRUE
            if n == '__dict__':
                return FALSE
            c = self.p.classes.get(o.args[0])
            return self.static_hasattr(c, n)
        if o.op in ('enum', 'enumof'):
            if n in ('__dict__', 'value', 'name'):
                return TRUE
            return self.static_hasattr(self.p.classes.get(o.args[0]), n)
        if o.op == 'const':
            return const(hasattr(cval(o), n))
        if o.op == 'cls':
            c = self.p.classes[o.args[0]]
            return TRUE if n == '__dict__' else self.static_hasattr(c, n)
        ty = static_type(o) or st.ctx.types.get(st.ctx.find(o))
        smp = {'str': '', 'bytes': b'', 'int': 0, 'list': [], 'dict': {},
               'tuple': (), 'set': set(), 'bool': True, 'float': 0.5,
               'NoneType': None}
        if ty in smp:
            return const(hasattr(smp[ty], n))
        d = self.dtype(o)
        if d != ('any', ):
            fs = []
            for m in type_members(d):
                if m == ('ext', 'NoneType'):
                    g = eq(o, NONE)
                    fs.append((g, const(hasattr(None, n))))
                elif m[0] == 'ext' and m[1] in smp:
                    fs.append((None, const(hasattr(smp[m[1]], n))))
                elif m[0] == 'map':
                    fs.append((None, const(hasattr({}, n))))
                elif m[0] == 'cls' and m[1] in self.p.classes:
                    c = self.p.classes[m[1]]
                    if c.kind == 'namedtuple' and n == '__dict__':
                        fs.append((None, FALSE))
                    elif n == '__dict__' or n in self.class_fields(c):
                        fs.append((None, TRUE))
                    else:
                        fs.append((None, self.static_hasattr(c, n)))
                else:
                    fs.append((None, None))
            rest = {f for g, f in fs if g is None}
            if len(rest) == 1 and None not in rest:
                r = rest.pop()
                for g, f in fs:
                    if g is not None:
                        r = Ite(g, f, r)
                return r
            if not rest:
                return fs[0][1]
        return mk('hasattr', self.freeze(st, o), name)

    def static_hasattr(self, c, n):
        if self.lookup_cls(c, n) is not None or n in self.class_fields(c):
            return TRUE
        if n in ('__class__', '__doc__', '__eq__', '__hash__', '__init__',
                 '__repr__', '__str__', '__module__'):
            return TRUE
        if c.kind == 'enum' and n in ('value', 'name'):
            return TRUE
        if any(b not in ('object', 'enum.Enum', 'typing.NamedTuple',
                         'abc.ABC', 'typing.Generic')
               for b in self.ext_bases(c)):
            import builtins
            for b in self.ext_bases(c):
                bb = getattr(builtins, b, None)
                if bb is None:
                    return mk('hasattr', mk('cls', c.qual), const(n))
                if hasattr(bb, n):
                    return TRUE
        return FALSE

    def finite_names(self, t):
        """[(condition, const name)] for the name of a finite enumeration"""
        if t.op == 'ename':
            return [(eq(t.args[2], v), const(n)) for n, v in t.args[1]]
        if t.op == 'attr' and t.args[1] == 'name':
            names = []
            for m in type_members(self.dtype(t.args[0])):
                c = self.p.classes.get(m[1]) if m[0] == 'cls' else None
                if c is None or c.kind != 'enum':
                    return None
                for n, v in self.enum_members(c):
                    if n not in names:
                        names.append(n)
            if names:
                return [(eq(t, const(n)), const(n)) for n in names]
        return None

    def getattr_dyn(self, st, o, name, default, node):
        name = self.resolve(st, name)
        if name.op == 'gamma':
            return self.branch(
                st, name.args[0],
                lambda s: self.getattr_dyn(s, o, name.args[1], default, node),
                lambda s: self.getattr_dyn(s, o, name.args[2], default, node))
        fin = self.finite_names(name)
        if fin is not None:
            def go(s, i):
                c, n = fin[i]
                if i == len(fin) - 1:
                    return self.getattr_dyn(s, o, n, default, node)
                return self.branch(
                    s, c, lambda s2: self.getattr_dyn(s2, o, n, default,
                                                      node),
                    lambda s2: go(s2, i + 1))

            return go(st, 0)
        if not is_const(name):
            t = mk('getattr', self.freeze(st, o), self.freeze(st, name))
            if default is not None:
                return gamma(mk('hasattr', *t.args), t, default)
            self.raise_if(st, Not(mk('hasattr', *t.args)),
                          ('AttributeError', ), 'getattr')
            return t
        if default is not None:
            ex = self.hasattr_formula(st, o, name)
            return self.branch(st, ex,
                               lambda s: self.get_attr(s, o, cval(name),
                                                       node),
                               lambda s: default)
        return self.get_attr(st, o, cval(name), node)

    # ------------------------------------------------------------ ext calls
    def call_ext(self, st, name, args, kwargs, node):
        if name in SIGS:
            args, kwargs = self.positional(SIGS[name], args, kwargs)
        args = tuple(self.resolve(st, a) for a in args)
        fn = getattr(self, 'x__' + name.replace('.', '__'), None)
        if name in LAZY:
            return self.lazy(st, lambda s, ts: self.eager(
                s, name, fn, tuple(self.take(s, x, True) for x in ts), kwargs,
                node), args)
        if name not in KEEPS_ITER:
            part = name in ('any', 'all')
            args = tuple(self.take(st, a, part) for a in args)
            kwargs = tuple((k, self.take(st, a)) for k, a in kwargs)
        if fn is not None:
            r = fn(st, args, kwargs, node)
            if r is not None:
                return r
        return self.ext_generic(st, name, args, kwargs, node)

    def eager(self, st, name, fn, args, kwargs, node):
        r = fn(st, args, kwargs, node)
        return self.ext_generic(st, name, args, kwargs,
                                node) if r is None else r

    def ext_generic(self, st, name, args, kwargs, node):
        head = name.split('.')[0]
        if name.startswith('hashlib.'):
            alg = name.split('.')[1]
            data = self.freeze(st, args[0]) if args else const(b'')
            self.need_str(st, data, 'hashing', ('bytes', ))
            return self.new(st, 'hash', None, (alg, data))
        for p in BUILTIN_TYPES:
            if name.startswith(p + '.') and args:
                return self.method(st, args[0], name.split('.')[1], args[1:],
                                   kwargs, node)
        fr = self.fz(st, *args)
        kw = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs))
        if name.startswith(NOEFFECT):
            if name.endswith('getLogger'):
                return mk('call', mk('ext', name), fr, kw)
            return NONE
        if name.startswith(NONDET) or name in IMPURE_BUILTINS:
            self.effect('read', 'call of %s' % name)
            t = mk('call', mk('ext', name), fr, kw + (
                ('$n', const(next(_n))), ))
            self.may_raise(st, t, (ANY, ), 'call of ' + name)
            return t
        if head == 'cryptography':
            fr, kw = self.drop_backend(fr, kw)
            t = mk('call', mk('ext', name), fr, tuple(kw))
            last = name.split('.')[-1]
            if last.startswith('load_'):
                self.may_raise(st, t, ('ValueError', ), 'call of ' + last)
            elif last in ('from_public_bytes', 'from_encoded_point'):
                self.may_raise(st, t, ('ValueError', ), 'call of ' + last)
            return t
        if head == 'pyasn1':
            t = mk('call', mk('ext', name), fr, kw)
            if name.endswith('.decode'):
                self.may_raise(st, t, ('pyasn1.error.PyAsn1Error', ),
                               'ASN.1 decoding')
                self.set_type(t, ('tup', (('any', ), ('ext', 'bytes'))))
                return mk('tuple', item(t, const(0)), item(t, const(1)))
            return t
        t = mk('call', mk('ext', name), fr, kw)
        h = self.hier(name, 'BaseException')
        if h is True:
            return t
        if name.split('.')[-1][:1].isupper() and head in (
                'typing', 'collections', 'enum', 'abc'):
            return t
        self.note('call of %s is not modelled' % name)
        self.may_raise(st, t, (ANY, ), 'call of ' + name)
        return t

    def distinct(self, st, els, kept, node):
        """how many different values there are among a few"""
        if not els:
            return const(len(kept))
        e, rest = els[0], els[1:]
        same = Or(*[self.equal(st, e, k) for k in kept])
        return self.branch(
            st, same, lambda s: self.distinct(s, rest, kept, node),
            lambda s: self.distinct(s, rest, kept + (e, ), node))

    # ---- builtins
    def x__len(self, st, args, kwargs, node):
        v = args[0]
        if self.isiter(st, v):
            self.raise_if(st, TRUE, ('TypeError', ), 'len of an iterator')
            raise Dead()
        if v.op == 'gamma':
            return self.on_leaves(st, v,
                                  lambda s, x: self.x__len(s, (x, ), (),
                                                           node))
        els = self.concrete_elements(st, v)
        h = self.h(st, v)
        if els is None and (v.op == 'dstore' or
                            h is not None and type(h.val) is T and
                            h.val.op == 'dstore'):
            # entries stored under keys that may be equal
            d, ks = v if h is None else h.val, ()
            while d.op == 'dstore':
                d, ks = d.args[0], (d.args[1], ) + ks
            if d.op == 'dict' and len(d.args) + len(ks) <= 4:
                return self.distinct(st, tuple(k for k, x in d.args) + ks,
                                     (), node)
        if els is not None and not (h is not None and h.kind == 'set' or
                                    v.op == 'set'):
            return const(len(els))
        if els is not None:
            # a set: exact when the members are known to differ
            if all(is_const(e) or e.op == 'enum' for e in els):
                return const(len({e for e in els}))
            if len(els) <= 4:
                return self.distinct(st, els, (), node)
        lv = self.lift(st, v)
        if lv.op == 'gamma':
            return self.on_leaves(st, lv,
                                  lambda s, x: self.x__len(s, (x, ), (),
                                                           node))
        if h is not None and h.kind == 'rec':
            c = self.p.classes.get(h.cls)
            r = self.lookup_cls(c, '__len__') if c else None
            if r is not None:
                return self.call(st, mk('bm', v, self.func_value(r[1][1])),
                                 (), (), node)
        f = self.freeze(st, v)
        self.doubted(st, f, 'len', ('TypeError', ))
        cond = self.maybe_none(st, f)
        if cond is not FALSE:
            self.raise_if(st, cond, ('TypeError', ),
                          'len of a value that may be None')
        if f.op in ('item', 'elem', 'unk') and self.dtype(f) == (
                'any', ) and not self.asn1(f):
            self.check_types(st, f, ('bytes', 'str', 'list', 'tuple', 'dict',
                                     'set'), 'len of a value of unknown type')
        if f.op == 'comp' and f.args[2] in ('list', 'gen'):
            coll, lvl, kind, val, cond = f.args
            if cond is TRUE:
                return length(coll)
            return count_(coll, lvl, cond)
        if f.op == 'aslist':
            return length(norm_coll(f))
        return self.slice_len(st, f)

    def known(self, st, f):
        v = st.val(f)
        return v is True or v is None and entails(st.ctx, f, 60)

    def slice_len(self, st, f):
        if f.op == 'slice':
            base, lo, hi = f.args
            end = length(base)
            if hi is NONE:
                if self.known(st, Not(lt(end, lo))):
                    return lin_add(end, lo, -1)
            elif self.known(st, Not(lt(end, hi))) and self.known(
                    st, Not(lt(hi, lo))):
                return lin_add(hi, lo, -1)
        return length(f)

    def x__isinstance(self, st, args, kwargs, node):
        return self.isinstance_formula(st, args[0], args[1])

    def x__issubclass(self, st, args, kwargs, node):
        a = self.type_name(args[0])
        cs = args[1].args if args[1].op == 'tuple' else (args[1], )
        rs = [self.hier(a, self.type_name(c) or '?') if a else None
              for c in cs]
        if any(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
        return mk('fatom', 'issubclass', *self.fz(st, *args))

    def x__type(self, st, args, kwargs, node):
        if len(args) != 1:
            return self.fresh_unk('type')
        def leaf(s, v):
            h = self.h(s, v)
            if h is not None:
                if h.kind == 'rec':
                    return mk('cls', h.cls)
                return mk('ext', {'bytesio': 'io.BytesIO'}.get(h.kind,
                                                               h.kind))
            if v.op in ('rec', 'nt', 'enum', 'enumof') and v.args[
                    0] in self.p.classes:
                return mk('cls', v.args[0])
            sty = static_type(v)
            if sty and sty != 'NoneType':
                return mk('ext', sty)
            if v.op == 'cls':
                return mk('ext', 'type')
            return mk('typeof', v)

        return self.map_leaves(st, args[0], lambda v: leaf(st, v))

    def x__hasattr(self, st, args, kwargs, node):
        return self.hasattr_formula(st, args[0], args[1])

    def x__getattr(self, st, args, kwargs, node):
        return self.getattr_dyn(st, args[0], args[1],
                                args[2] if len(args) > 2 else None, node)

    def x__setattr(self, st, args, kwargs, node):
        n = self.resolve(st, args[1])
        if is_const(n):
            return self.set_attr(st, args[0], cval(n), args[2], node)
        self.note('setattr with a computed name')
        h = self.h(st, args[0])
        if h is not None and h.kind == 'rec':
            st.heap[args[0].args[0]] = h.with_val(
                {k: self.fresh_unk('setattr') for k in h.val})
        else:
            self.effect('store', 'setattr on %s' % self.shared_name(args[0]))
        return NONE

    def x__vars(self, st, args, kwargs, node):
        if not args:
            return self.fresh_unk('vars')
        return self.get_attr(st, args[0], '__dict__', node)

    def x__callable(self, st, args, kwargs, node):
        v = args[0]
        if v.op in ('fn', 'cls', 'closure', 'bm', 'sdisp', 'partial'):
            return TRUE
        return mk('callable', self.freeze(st, v))

    def x__bool(self, st, args, kwargs, node):
        return self.truth(st, args[0]) if args else FALSE

    def x__int(self, st, args, kwargs, node):
        if not args:
            return const(0)
        v = args[0]
        if v.op == 'gamma':
            return self.on_leaves(st, v, lambda s, x: self.x__int(
                s, (x, ) + args[1:], kwargs, node))
        f = self.freeze(st, v)
        if is_const(f):
            try:
                return const(int(cval(f), *[cval(a) for a in args[1:]]))
            except Exception:
                self.raise_if(st, TRUE, ('ValueError', 'TypeError'), 'int')
                raise Dead()
        if len(args) == 1:
            if is_bool(f):
                return gamma(self.truth(st, f), const(1), const(0))
            if self.asn1(f) and f.op == 'elem':
                # what a decoded SET OF contains was decoded
                return f
            if self.asn1(f):
                self.raise_if(st, Not(mk('fatom', 'asn1has', f)),
                              ('pyasn1.error.PyAsn1Error', ),
                              'int of an absent ASN.1 value')
                return f
            ty = self.known_type(st, f)
            if ty == 'int':
                return f
        t = mk('toint', f, *self.fz(st, *args[1:]))
        self.may_raise(st, t, ('ValueError', 'TypeError'), 'int()')
        return t

    def x__float(self, st, args, kwargs, node):
        f = self.freeze(st, args[0]) if args else const(0.0)
        if is_const(f):
            try:
                return const(float(cval(f)))
            except Exception:
                pass
        t = mk('call', mk('ext', 'float'), (f, ), ())
        self.set_type(t, ('ext', 'float'))
        if self.known_type(st, f) not in ('int', 'float', 'bool'):
            self.may_raise(st, t, ('ValueError', 'TypeError'), 'float()')
        return t

    def x__str(self, st, args, kwargs, node):
        if not args:
            return const('')
        v = self.resolve(st, args[0])
        f = self.freeze(st, v)
        if len(args) == 1 and not kwargs:
            if is_const(f) and f.args[0] in ('str', 'int', 'bool',
                                             'NoneType'):
                return const(str(cval(f)))
            if self.known_type(st, f) == 'str':
                return f
        elif len(args) >= 2 or kwargs:
            return self.method(st, f, 'decode', args[1:], kwargs, node)
        return self.text(st, f)

    def x__repr(self, st, args, kwargs, node):
        return self.text(st, const('r'), self.freeze(st, args[0]))

    def x__ascii(self, st, args, kwargs, node):
        return self.text(st, const('a'), self.freeze(st, args[0]))

    def x__format(self, st, args, kwargs, node):
        return self.text(st, *self.fz(st, *args))

    def x__bytes(self, st, args, kwargs, node):
        if not args:
            return const(b'')
        f = self.freeze(st, args[0])
        if len(args) > 1:
            return self.method(st, f, 'encode', args[1:], kwargs, node)
        if self.asn1(f):
            return f
        if self.known_type(st, f) == 'bytes' or f.op == 'bytearray':
            return f
        els = self.concrete_elements(st, args[0])
        if els is not None and all(is_const(e) for e in els):
            try:
                return const(bytes(cval(e) for e in els))
            except Exception:
                pass
        if is_const(f) and isinstance(cval(f), int) and cval(f) < 4096:
            return const(bytes(cval(f)))
        t = mk('call', mk('ext', 'bytes'), (f, ), ())
        self.set_type(t, ('ext', 'bytes'))
        self.may_raise(st, t, ('ValueError', 'TypeError'), 'bytes()')
        return t

    def x__bytearray(self, st, args, kwargs, node):
        return self.x__bytes(st, args, kwargs, node)

    def x__memoryview(self, st, args, kwargs, node):
        return self.freeze(st, args[0])

    def x__bytes__fromhex(self, st, args, kwargs, node):
        if is_const(args[0]):
            try:
                return const(bytes.fromhex(cval(args[0])))
            except Exception:
                pass
        return None

    def x__list(self, st, args, kwargs, node):
        if not args:
            return self.new(st, 'list', None, mk('list'))
        return self.on_leaves(st, args[0], lambda s, v: self.mklist(s, v))

    def mklist(self, st, v):
        self.iter_check(st, v)
        return self.new(st, 'list', None, self.content(st, v, 'list'))

    def x__tuple(self, st, args, kwargs, node):
        if not args:
            return mk('tuple')

        def leaf(s, v):
            els = self.concrete_elements(s, v)
            if els is not None:
                return mk('tuple', *els)
            self.iter_check(s, v)
            return self.content(s, v, 'list')

        return self.on_leaves(st, args[0], leaf)

    def x__set(self, st, args, kwargs, node):
        if not args:
            return self.new(st, 'set', None, mk('set'))

        def leaf(s, v):
            self.iter_check(s, v)
            return self.new(s, 'set', None, self.content(s, v, 'set'))

        return self.on_leaves(st, args[0], leaf)

    def x__frozenset(self, st, args, kwargs, node):
        return self.x__set(st, args, kwargs, node)

    def x__dict(self, st, args, kwargs, node):
        o = self.new(st, 'dict', None, mk('dict'))
        for a in args:
            self.dict_feed(st, o, a, node)
        if kwargs:
            self.heap_dict(st, o, st.heap[o.args[0]], 'update', (), kwargs,
                           node)
        return o

    def x__dict__fromkeys(self, st, args, kwargs, node):
        els = self.concrete_elements(st, args[0])
        v = args[1] if len(args) > 1 else NONE
        if els is None:
            return None
        o = self.new(st, 'dict', None, mk('dict'))
        for e in els:
            self.set_item(st, o, e, v, node)
        return o

    def x__object(self, st, args, kwargs, node):
        return self.fresh_unk('object')

    def x__range(self, st, args, kwargs, node):
        a = self.fz(st, *args)
        if len(a) == 2 and a[0] is const(0):
            a = a[1:]
        return mk('range', *a)

    def x__enumerate(self, st, args, kwargs, node):
        self.iter_check(st, args[0])
        s0 = args[1] if len(args) > 1 else dict(kwargs).get('start', const(0))
        return mk('enumerate', args[0], s0)

    def x__zip(self, st, args, kwargs, node):
        return mk('zip', *args)

    def x__reversed(self, st, args, kwargs, node):
        return mk('reversed', args[0])

    def x__iter(self, st, args, kwargs, node):
        v = args[0]
        if v.op == 'gamma':
            return self.on_leaves(
                st, v, lambda s, x: self.x__iter(s, (x, ) + tuple(args[1:]),
                                                 kwargs, node))
        if self.isiter(st, v) or len(args) > 1:
            return v if len(args) == 1 else None
        els = self.concrete_elements(st, v)
        self.iter_check(st, v)
        return self.new(st, 'iter', None, self.freeze(st, v)
                        if els is None else mk('list', *els))

    def x__sorted(self, st, args, kwargs, node):
        f = self.freeze(st, args[0])
        t = mk('call', mk('ext', 'sorted'), (f, ),
               tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs)))
        if not kwargs:
            els = self.concrete_elements(st, args[0])
            if els is not None and all(is_const(e) for e in els):
                try:
                    return self.new(st, 'list', None, mk('list', *[
                        const(x) for x in sorted(cval(e) for e in els)]))
                except TypeError:
                    pass
        # order aside, the same members
        return self.new(st, 'list', None, mk('aslist', f))

    def x__print(self, st, args, kwargs, node):
        return NONE

    def x__id(self, st, args, kwargs, node):
        return mk('call', mk('ext', 'id'), self.fz(st, *args), ())

    def x__hash(self, st, args, kwargs, node):
        f = self.freeze(st, args[0])
        self.hashable(st, f)
        return mk('pyhash', f)

    def x__abs(self, st, args, kwargs, node):
        f = self.freeze(st, args[0])
        if is_const(f):
            return const(abs(cval(f)))
        return gamma(lt(f, const(0)), lin(0, ((f, -1), )), f)

    def x__min(self, st, args, kwargs, node):
        return self.minmax(st, args, kwargs, True)

    def x__max(self, st, args, kwargs, node):
        return self.minmax(st, args, kwargs, False)

    def minmax(self, st, args, kwargs, mn):
        if len(args) == 2 and not kwargs:
            a, b = self.fz(st, *args)
            c = lt(b, a) if mn else lt(a, b)
            return gamma(c, b, a)
        return mk('call', mk('ext', 'min' if mn else 'max'),
                  self.fz(st, *args),
                  tuple((k, self.freeze(st, v)) for k, v in kwargs))

    def x__divmod(self, st, args, kwargs, node):
        return mk('tuple', mk('arith', 'FloorDiv', *self.fz(st, *args)),
                  mk('imod', *self.fz(st, *args)))

    def x__chr(self, st, args, kwargs, node):
        if is_const(args[0]):
            return const(chr(cval(args[0])))

    def x__ord(self, st, args, kwargs, node):
        if is_const(args[0]):
            return const(ord(cval(args[0])))
        f = self.freeze(st, args[0])
        if f.op == 'slice' and self.known_type(st, f) == 'bytes':
            return beuint(f)

    def quant(self, st, v, existential):
        """any / all over an iterable"""
        v = self.lift(st, v)
        if v.op == 'gamma':
            return Ite(v.args[0], self.quant(st, v.args[1], existential),
                       self.quant(st, v.args[2], existential))
        els = self.concrete_elements(st, v)
        if els is not None:
            fs = [self.truth(st, e) for e in els]
            return Or(*fs) if existential else And(*fs)
        f = self.freeze(st, v)
        if f.op == 'cat':
            rs = [self.quant(st, x, existential) for x in f.args]
            return Or(*rs) if existential else And(*rs)
        if f.op == 'setunion':
            rs = [self.quant(st, x, existential) for x in f.args]
            return Or(*rs) if existential else And(*rs)
        if f.op == 'flat':
            c, l, kind, inner, cond = f.args
            r = self.quant(st, inner, existential)
            if existential:
                return exists(c, l, And(cond, r))
            return forall(c, l, Or(Not(cond), r))
        self.iter_check(st, f)
        c, l, e, _, flt = self.generic_element(st, f)
        t = self.truth(st, e)
        if existential:
            return exists(c, l, And(flt, t))
        return forall(c, l, Or(Not(flt), t))

    def x__any(self, st, args, kwargs, node):
        return self.quant(st, args[0], True)

    def x__all(self, st, args, kwargs, node):
        return self.quant(st, args[0], False)

    def x__sum(self, st, args, kwargs, node):
        els = self.concrete_elements(st, args[0])
        if els is not None and len(args) == 1:
            ts = [gamma(e, const(1), const(0)) if is_formula(e) else e
                  for e in els]
            return self.sum_terms(st, ts)
        f = self.freeze(st, args[0])
        if f.op == 'comp':
            coll, lvl, kind, val, cond = f.args
            if val is const(1):
                return count_(coll, lvl, cond)
            if is_bool(val):
                return count_(coll, lvl, And(cond, self.truth(st, val)))
            return mk('fold', coll, lvl, 'sum', val, cond)
        return mk('call', mk('ext', 'sum'), self.fz(st, *args), ())

    def x__map(self, st, args, kwargs, node):
        f = args[0]
        if len(args) != 2:
            seqs = [self.concrete_elements(st, a) for a in args[1:]]
            if all(s is not None for s in seqs):
                return mk('tuple', *[self.call(st, f, xs, (), node)
                                     for xs in zip(*seqs)])
            return None
        return self.map_over(st, args[1], lambda s, e: (
            self.call(s, f, (e, ), (), node), TRUE))

    def x__filter(self, st, args, kwargs, node):
        f = args[0]

        def go(s, e):
            if f is NONE or f is mk('ext', 'bool'):
                return e, self.truth(s, e)
            return e, self.truth(s, self.call(s, f, (e, ), (), node))

        return self.map_over(st, args[1], go)

    def map_over(self, st, it, fn, spill=frozenset()):
        it = self.lift(st, it)
        if it.op == 'gamma':
            return self.on_leaves(st, it,
                                  lambda s, x: self.map_over(s, x, fn))
        els = self.concrete_elements(st, it)
        if els is not None:
            out = []
            conds = []
            for e in els:
                v, c = fn(st, e)
                out.append(v)
                conds.append(c)
            if all(c in (TRUE, FALSE) for c in conds):
                return mk('tuple', *[v for v, c in zip(out, conds)
                                     if c is TRUE])
            parts = mk('tuple')
            for v, c in zip(out, conds):
                parts = self.gmap2(
                    parts, gamma(c, mk('tuple', v), mk('tuple')),
                    lambda a, b: mk('tuple', *a.args, *b.args))
            return parts
        self.iter_check(st, it)
        c, l, e, _, flt = self.generic_element(st, it)
        el = mk('elem', c, l)
        self.loops = self.loops + [c]
        K0 = self.K
        kk = type(K0)([], K0.rets, [], [])
        s = st.copy()
        # facts learnt about the generic element stay inside
        if elem(c, l).op == 'elem':
            self.enter_element(s, c, elem(c, l))
        p0 = len(s.trail)
        known = dict(s.facts)
        if flt is not TRUE:
            s.assume(flt)
        B = s.copy()
        dead = False
        self.K = kk
        try:
            v, cond = fn(s, e)
            v = self.freeze(s, v)
        except Dead:
            dead = True
        finally:
            self.K = K0
            self.loops = self.loops[:-1]
        more = self.spilled(st, s, spill)
        if more:
            self.forget(st, more)
            return self.map_over(st, it, fn, spill | more)
        self.close_exits(st, B, kk, K0, c, l, el, flt, p0, known)
        self.forget(st, spill)
        if dead:
            if not st.assume(Not(truthy(c, True))):
                raise Dead()
            return mk('list')
        for k, h in s.heap.items():
            if k not in st.heap:
                st.heap[k] = h
        for ff in s.facts:
            if ff not in known and elem(c, l) in ff.elems:
                st.assume(forall(c, l, Or(Not(flt), ff)))
        return mk('comp', c, l, 'gen', v, And(flt, cond))

    def x__next(self, st, args, kwargs, node):
        it = self.resolve(st, args[0])
        if it.op == 'gamma':
            return self.on_leaves(st, it, lambda s, x: self.x__next(
                s, (x, ) + tuple(args[1:]), kwargs, node))
        if self.isiter(st, it):
            h = st.heap[it.args[0]]
            if type(h.val) is tuple:
                meta = self.thunks[h.val[1]][3]
                if meta is not None:
                    _, gen, mod, qual, names, parent, cls = meta
                    st.heap[it.args[0]] = h.with_val(
                        self.unknown_rest())
                    self.genrun = 'first'
                    got = self.run_body(st, gen, mod, qual,
                                        dict(zip(names, h.val[2:])), parent,
                                        cls)
                    return self.on_leaves(
                        st, got, lambda s, x: self.x__next(
                            s, (x, ) + tuple(args[1:]), kwargs, node))

            def go(s, c):
                oid = it.args[0]
                els = self.concrete_elements(s, c)
                s.heap[oid] = s.heap[oid].with_val(
                    mk('list', *els[1:]) if els is not None else
                    self.rest(s, c))
                return self.x__next(s, (c, ) + tuple(args[1:]), kwargs, node)

            return self.on_leaves(st, self.lift(st, self.force(st, it)), go)
        v = self.lift(st, args[0])
        if v.op == 'gamma':
            return self.on_leaves(st, v, lambda s, x: self.x__next(
                s, (x, ) + tuple(args[1:]), kwargs, node))
        default = args[1] if len(args) > 1 else None
        els = self.concrete_elements(st, v)
        if els is not None:
            if els:
                return els[0]
            if default is not None:
                return default
            self.raise_if(st, TRUE, ('StopIteration', ), 'next')
            raise Dead()
        f = self.freeze(st, v)
        if f.op == 'iter':
            f = f.args[0]
        c, l, e, _, flt = self.generic_element(st, f)
        nonempty = exists(c, l, flt)
        if flt is TRUE:
            val = item(c, const(0)) if e is elem(c, l) else mk(
                'choose', c, l, e, flt)
        else:
            val = mk('choose', c, l, e, flt)
        if default is None:
            self.raise_if(st, Not(nonempty), ('StopIteration', ), 'next')
            return val
        return gamma(nonempty, val, default)

    def rest(self, st, c):
        """what is left of a sequence after its first element"""
        f = self.freeze(st, c)
        if f.op == 'iter':
            f = f.args[0]
        if f.op == 'comp' and f.args[2] == 'gen':
            f = mk('comp', *f.args[:2], 'list', *f.args[3:])
        return mk('slice', f, const(1), NONE)

    def x__super(self, st, args, kwargs, node):
        if len(args) == 2 and args[0].op == 'cls':
            return mk('super', args[0].args[0], args[1])

    # ---- typing, functools, operator, copy, ...
    def x__typing__cast(self, st, args, kwargs, node):
        return args[1]

    def x__typing__NewType(self, st, args, kwargs, node):
        return mk('ext', 'typing.identity')

    def x__typing__identity(self, st, args, kwargs, node):
        return args[0]

    def x__functools__partial(self, st, args, kwargs, node):
        return mk('partial', args[0], tuple(args[1:]), tuple(kwargs))

    def x__functools__reduce(self, st, args, kwargs, node):
        els = self.concrete_elements(st, args[1])
        if els is None:
            return None
        if len(args) > 2:
            acc = args[2]
        else:
            acc, els = els[0], els[1:]
        for e in els:
            acc = self.call(st, args[0], (acc, e), (), node)
        return acc

    def x__functools__wraps(self, st, args, kwargs, node):
        return mk('ext', 'typing.identity')

    def x__itertools__chain(self, st, args, kwargs, node):
        els = [self.concrete_elements(st, a) for a in args]
        if all(e is not None for e in els):
            return mk('tuple', *[x for e in els for x in e])
        return mk('cat', *[self.content(st, a, 'list') for a in args])

    def x__operator__attrgetter(self, st, args, kwargs, node):
        return mk('getter', 'attr', tuple(args))

    def x__operator__itemgetter(self, st, args, kwargs, node):
        return mk('getter', 'item', tuple(args))

    def _opcmp(name):
        def f(self, st, args, kwargs, node):
            return self.compare(st, name(), args[0], args[1], node)

        return f

    def _opbin(name):
        def f(self, st, args, kwargs, node):
            return self.binop(st, name(), args[0], args[1], node)

        return f

    x__operator__eq = _opcmp(ast.Eq)
    x__operator__ne = _opcmp(ast.NotEq)
    x__operator__lt = _opcmp(ast.Lt)
    x__operator__le = _opcmp(ast.LtE)
    x__operator__gt = _opcmp(ast.Gt)
    x__operator__ge = _opcmp(ast.GtE)
    x__operator__is_ = _opcmp(ast.Is)
    x__operator__is_not = _opcmp(ast.IsNot)
    x__operator__and_ = _opbin(ast.BitAnd)
    x__operator__or_ = _opbin(ast.BitOr)
    x__operator__add = _opbin(ast.Add)
    x__operator__sub = _opbin(ast.Sub)
    x__operator__mul = _opbin(ast.Mult)
    x__operator__mod = _opbin(ast.Mod)

    def x__operator__contains(self, st, args, kwargs, node):
        return self.contained(st, args[1], args[0], node)

    def x__operator__not_(self, st, args, kwargs, node):
        return Not(self.truth(st, args[0]))

    def x__operator__truth(self, st, args, kwargs, node):
        return self.truth(st, args[0])

    def x__operator__getitem(self, st, args, kwargs, node):
        return self.subscript(st, args[0], args[1], node)

    def x__copy__deepcopy(self, st, args, kwargs, node):
        return self.on_leaves(st, args[0],
                              lambda s, v: self.deep(s, v, {}))

    def deep(self, st, v, seen):
        if v in seen:
            return seen[v]
        h = self.h(st, v)
        if h is not None:
            if h.kind == 'rec':
                o = self.new(st, 'rec', h.cls, {})
                seen[v] = o
                val = {k: self.deep(st, x, seen) for k, x in h.val.items()}
                st.heap[o.args[0]] = st.heap[o.args[0]].with_val(val)
                return o
            if type(h.val) is T:
                o = self.new(st, h.kind, None, self.deep(st, h.val, seen))
                seen[v] = o
                return o
            return self.new(st, h.kind, None, h.val)
        if v.op == 'gamma':
            return gamma(v.args[0], self.deep(st, v.args[1], seen),
                         self.deep(st, v.args[2], seen))
        if v.op in ('list', 'tuple', 'set'):
            return mk(v.op, *[self.deep(st, x, seen) for x in v.args])
        if v.op == 'dict':
            return mk('dict', *[(k, self.deep(st, x, seen))
                                for k, x in v.args])
        if v.op == 'objdict' and self.dict_items(st, v) is not None:
            return self.new(st, 'dict', None, mk('dict', *[
                (k, self.deep(st, x, seen))
                for k, x in self.dict_items(st, v)]))
        if v.op in ('nt', ):
            return mk('nt', v.args[0], tuple((n, self.deep(st, x, seen))
                                             for n, x in v.args[1]))
        if self.immut(st, v):
            return v
        if v.op == 'copied':
            return v
        return mk('copied', v)

    def immut(self, st, v):
        if is_const(v) or is_formula(v) or v.op in (
                'enum', 'enumof', 'ename', 'cls', 'fn', 'ext', 'digest',
                'b64dec', 'b64enc', 'b64str', 'encode', 'decode', 'fmt',
                'hex', 'len', 'lin', 'beuint', 'cat', 'slice') and \
                static_type(v) not in ('list', 'dict', 'set'):
            return True
        d = self.dtype(v)
        if d == ('any', ):
            return False
        for m in type_members(d):
            if m[0] == 'ext' and m[1] in ('str', 'bytes', 'int', 'float',
                                          'bool', 'NoneType'):
                continue
            if m[0] == 'cls' and m[1] in self.p.classes and self.p.classes[
                    m[1]].kind == 'enum':
                continue
            return False
        return True

    def x__copy__copy(self, st, args, kwargs, node):
        def leaf(s, v):
            h = self.h(s, v)
            if h is not None:
                return self.new(s, h.kind, h.cls, dict(h.val) if h.kind ==
                                'rec' else h.val)
            if self.immut(s, v) or v.op in ('tuple', 'nt'):
                return v
            d = self.as_it_is(s, v)
            if d is not v:
                return self.new(s, 'dict', None, d)
            return mk('shallow', v)

        return self.on_leaves(st, args[0], leaf)

    def x__contextlib__suppress(self, st, args, kwargs, node):
        names = []
        for a in args:
            names += self.exc_names(st, a)
        return mk('suppress', tuple(names))

    def x__contextlib__nullcontext(self, st, args, kwargs, node):
        return mk('nullctx', args[0] if args else NONE)

    def x__dataclasses__replace(self, st, args, kwargs, node):
        h = self.h(st, args[0])
        if h is not None and h.kind == 'rec':
            val = dict(h.val)
            val.update(dict(kwargs))
            return self.new(st, 'rec', h.cls, val)

    def x__dataclasses__asdict(self, st, args, kwargs, node):
        h = self.h(st, args[0])
        if h is not None and h.kind == 'rec':
            return self.new(st, 'dict', None, mk('dict', *[
                (const(k), v) for k, v in h.val.items()]))

    def x__collections__OrderedDict(self, st, args, kwargs, node):
        return self.x__dict(st, args, kwargs, node)

    def x__types__MappingProxyType(self, st, args, kwargs, node):
        return args[0]

    def x__inspect__isclass(self, st, args, kwargs, node):
        return self.isinst(st, self.resolve(st, args[0]), 'type')

    # ---- io / codecs
    def x__io__BytesIO(self, st, args, kwargs, node):
        buf = self.freeze(st, args[0]) if args else const(b'')
        return self.new(st, 'bytesio', None, (buf, const(0)))

    def x__hashlib__new(self, st, args, kwargs, node):
        if not is_const(args[0]):
            return None
        alg = cval(args[0]).lower().replace('-', '')
        data = self.freeze(st, args[1]) if len(args) > 1 else const(b'')
        return self.new(st, 'hash', None, (alg, data))

    def crypto_hash(self, st, args, kwargs, node):
        a = self.freeze(st, args[0])
        alg = a.args[0].args[0].split('.')[-1].lower() if a.op == 'call' and \
            a.args[0].op == 'ext' else None
        if alg is None:
            return None
        return self.new(st, 'hash', None, (alg, const(b'')))

    x__cryptography__hazmat__primitives__hashes__Hash = crypto_hash

    # the vocabulary of the reference functions
    def x__sa_dsl__make(self, st, args, kwargs, node):
        return mk('rec', args[0].args[0],
                  tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs)))

    def x__sa_dsl__cbor_item(self, st, args, kwargs, node):
        buf, pos = self.fz(st, args[0], args[1])
        base, p = cbor_at(buf, pos)
        t = mk('cborload', base, p, ())
        self.may_raise(st, t, ('Exception', ), 'CBOR decoding')
        off = lin_add(p, pos, -1)
        return mk('tuple', t, lin_add(mk('cborend', base, p), off, -1))

    def x__sa_dsl__implies(self, st, args, kwargs, node):
        return Or(Not(self.truth(st, args[0])), self.truth(st, args[1]))

    def x__sa_dsl__is_type(self, st, args, kwargs, node):
        return Or(*[self.typeis(st, self.freeze(st, args[0]),
                                self.type_name(a)) for a in args[1:]])

    def x__hmac__compare_digest(self, st, args, kwargs, node):
        a, b = args
        for x in self.fz(st, a, b):
            cond = self.maybe_none(st, x)
            if cond is not FALSE:
                self.raise_if(st, cond, ('TypeError', ), 'compare_digest')
        return self.equal(st, a, b)

    x__secrets__compare_digest = x__hmac__compare_digest
    x__cryptography__hazmat__primitives__constant_time__bytes_eq = \
        x__hmac__compare_digest

    def b64d(self, st, s, alt, val):
        sf = self.freeze(st, s)
        self.need_str(st, sf, 'base64 decoding', ('str', 'bytes'))
        if sf.op == 'encode' and sf.args[1] == 'ascii':
            sf = sf.args[0]
        u = unpad(sf)
        if u is not None and val is not TRUE:
            if u.op == 'encode' and u.args[1] == 'ascii':
                u = u.args[0]
            sf = mk('pad', u)
        if is_const(alt) and isinstance(cval(alt), str):
            alt = const(cval(alt).encode('latin-1'))
        if alt is const(b'+/'):
            alt = NONE
        if sf.op in ('b64str', 'b64enc') and sf.args[1] is alt:
            return sf.args[0]
        t = mk('b64dec', sf, alt, val)
        self.may_raise(st, t, ('ValueError', ), 'base64 decoding')
        return t

    def x__base64__b64decode(self, st, args, kwargs, node):
        alt = self.freeze(st, args[1]) if len(args) > 1 else dict(kwargs).get(
            'altchars', NONE)
        val = self.truth(st, args[2]) if len(args) > 2 else dict(kwargs).get(
            'validate', FALSE)
        return self.b64d(st, args[0], alt, val)

    def x__base64__urlsafe_b64decode(self, st, args, kwargs, node):
        return self.b64d(st, args[0], const(b'-_'), FALSE)

    def x__base64__standard_b64decode(self, st, args, kwargs, node):
        return self.b64d(st, args[0], NONE, FALSE)

    def x__binascii__a2b_base64(self, st, args, kwargs, node):
        return self.b64d(st, args[0], NONE, FALSE)

    def b64e(self, st, b, alt):
        bf = self.freeze(st, b)
        self.need_str(st, bf, 'base64 encoding', ('bytes', ))
        if is_const(alt) and cval(alt) == b'+/':
            alt = NONE
        return mk('b64enc', bf, alt)

    def x__base64__b64encode(self, st, args, kwargs, node):
        alt = self.freeze(st, args[1]) if len(args) > 1 else dict(kwargs).get(
            'altchars', NONE)
        return self.b64e(st, args[0], alt)

    def x__base64__urlsafe_b64encode(self, st, args, kwargs, node):
        return self.b64e(st, args[0], const(b'-_'))

    def x__base64__standard_b64encode(self, st, args, kwargs, node):
        return self.b64e(st, args[0], NONE)

    def x__binascii__b2a_base64(self, st, args, kwargs, node):
        nl = dict(kwargs).get('newline', TRUE)
        t = self.b64e(st, args[0], NONE)
        if nl is FALSE:
            return t
        return cat(t, const(b'\n'))

    def x__binascii__hexlify(self, st, args, kwargs, node):
        return mk('encode', mk('hex', self.freeze(st, args[0])), 'ascii',
                  'strict')

    def x__json__loads(self, st, args, kwargs, node):
        s = self.freeze(st, args[0])
        kw = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs))
        ty = self.known_type(st, s)
        if ty == 'str':
            t = mk('jsonload', s, kw)
        else:
            t = mk('jsonload', mk('autodetect', s), kw)
        self.may_raise(st, t, ('ValueError', 'RecursionError'),
                       'JSON parsing')
        return t

    def x__json__load(self, st, args, kwargs, node):
        h = self.h(st, args[0])
        if h is not None and h.kind == 'bytesio':
            s = self.method(st, args[0], 'read', (), (), node)
            return self.x__json__loads(st, (s, ), kwargs, node)

    def x__json__dumps(self, st, args, kwargs, node):
        t = mk('call', mk('ext', 'json.dumps'), self.fz(st, *args),
               tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs)))
        self.set_type(t, ('ext', 'str'))
        self.may_raise(st, t, ('TypeError', 'ValueError', 'RecursionError'),
                       'JSON encoding')
        return t

    def x__cbor2__loads(self, st, args, kwargs, node):
        b = self.freeze(st, args[0])
        base, pos = cbor_at(b, const(0))
        t = mk('cborload', base, pos, tuple(
            sorted((k, self.freeze(st, v)) for k, v in kwargs)))
        self.may_raise(st, t, ('Exception', ), 'CBOR decoding')
        return t

    def x__cbor2__load(self, st, args, kwargs, node):
        h = self.h(st, args[0])
        if h is None or h.kind != 'bytesio':
            return None
        buf, pos = h.val
        base, p = cbor_at(buf, pos)
        kw = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs))
        t = mk('cborload', base, p, kw)
        off = lin_add(p, pos, -1)
        self.may_raise(st, t, ('Exception', ), 'CBOR decoding')
        h = st.heap[args[0].args[0]]
        st.heap[args[0].args[0]] = h.with_val(
            (buf, lin_add(mk('cborend', base, p), off, -1)))
        return t

    def x__cbor2__CBORDecoder(self, st, args, kwargs, node):
        h = self.h(st, args[0])
        if h is None or h.kind != 'bytesio':
            return None
        return mk('cbordecoder', args[0], tuple(kwargs))

    def x__cbor2__dumps(self, st, args, kwargs, node):
        d = self.freeze(st, args[0])
        t = mk('cbordump', d, tuple(
            sorted((k, self.freeze(st, v)) for k, v in kwargs)))
        self.set_type(t, ('ext', 'bytes'))
        return t

    def struct_fields(self, fmt):
        """[(offset, size, kind)], total for a big-endian format"""
        if not is_const(fmt):
            return None
        f = cval(fmt)
        if isinstance(f, bytes):
            f = f.decode()
        if not f or f[0] not in '>!':
            # one byte fields have no order
            if re.fullmatch(r'[@=<]?[\dBsx]*', f):
                f = '>' + f.lstrip('@=<')
            else:
                return None
        out = []
        off = 0
        for n, c in re.findall(r'(\d*)([a-zA-Z?])', f[1:]):
            if c == 's':
                k = int(n or 1)
                out.append((off, k, 's'))
                off += k
            elif c == 'x':
                off += int(n or 1)
            elif c in 'BHILQ':
                sz = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}[c]
                for _ in range(int(n or 1)):
                    out.append((off, sz, 'u'))
                    off += sz
            else:
                return None
        return out, off

    def struct_unpack(self, st, fmt, b):
        r = self.struct_fields(fmt)
        b = self.freeze(st, b)
        if r is None:
            t = mk('call', mk('ext', 'struct.unpack'), (fmt, b), ())
            self.may_raise(st, t, ('struct.error', ), 'struct.unpack')
            return t
        fs, n = r
        self.raise_if(st, Not(eq(length(b), const(n))), ('struct.error', ),
                      'struct.unpack of the wrong length')
        return self.struct_vals(b, const(0), fs)

    def struct_vals(self, b, base, fs):
        out = []
        for off, sz, kind in fs:
            lo = lin_add(base, const(off))
            s = slice_(b, lo, lin_add(lo, const(sz)))
            if is_const(length(b)) and cval(length(b)) == sz and \
                    lo is const(0):
                s = b
            out.append(s if kind == 's' else beuint(s))
        return mk('tuple', *out)

    def struct_unpack_from(self, st, fmt, b, off):
        r = self.struct_fields(fmt)
        b = self.freeze(st, b)
        off = self.freeze(st, off)
        if r is None:
            t = mk('call', mk('ext', 'struct.unpack_from'), (fmt, b, off), ())
            self.may_raise(st, t, ('struct.error', ), 'struct.unpack_from')
            return t
        fs, n = r
        self.raise_if(st, lt(length(b), lin_add(off, const(n))),
                      ('struct.error', ), 'struct.unpack_from')
        return self.struct_vals(b, off, fs)

    def x__struct__unpack(self, st, args, kwargs, node):
        return self.struct_unpack(st, self.freeze(st, args[0]), args[1])

    def x__struct__unpack_from(self, st, args, kwargs, node):
        return self.struct_unpack_from(
            st, self.freeze(st, args[0]), args[1],
            args[2] if len(args) > 2 else const(0))

    def x__struct__calcsize(self, st, args, kwargs, node):
        if is_const(args[0]):
            return const(_struct.calcsize(cval(args[0])))

    def x__struct__Struct(self, st, args, kwargs, node):
        return mk('call', mk('ext', 'struct.Struct'), self.fz(st, *args), ())

    def x__int__from_bytes(self, st, args, kwargs, node):
        b = self.freeze(st, args[0])
        order = args[1] if len(args) > 1 else dict(kwargs).get(
            'byteorder', const('big'))
        signed = args[2] if len(args) > 2 else dict(kwargs).get(
            'signed', FALSE)
        self.need_str(st, b, 'int.from_bytes', ('bytes', ))
        if order is const('big') and signed is FALSE:
            return beuint(b)
        t = mk('call', mk('ext', 'int.from_bytes'), (b, order, signed), ())
        self.set_type(t, ('ext', 'int'))
        return t

    def x__urllib__parse__urlparse(self, st, args, kwargs, node):
        s = self.freeze(st, args[0])
        extra = self.fz(st, *args[1:])
        self.need_str(st, s, 'url parsing', ('str', ))
        t = mk('urlparse', s, *extra, *[self.freeze(st, v)
                                        for k, v in kwargs])
        self.may_raise(st, t, ('ValueError', ), 'url parsing')
        return t

    def x__urllib__parse__urlsplit(self, st, args, kwargs, node):
        s = self.freeze(st, args[0])
        self.need_str(st, s, 'url parsing', ('str', ))
        t = mk('urlsplit', s, *self.fz(st, *args[1:]),
               *[self.freeze(st, v) for k, v in kwargs])
        self.set_type(t, ('ext', 'urllib.parse.SplitResult'))
        u = mk('urlparse', *t.args)
        self.may_raise(st, u, ('ValueError', ), 'url parsing')
        return t

    def x__re__split(self, st, args, kwargs, node):
        return self.fold_re('split', st, args, kwargs)

    def x__re__sub(self, st, args, kwargs, node):
        return self.fold_re('sub', st, args, kwargs)

    def x__re__findall(self, st, args, kwargs, node):
        return self.fold_re('findall', st, args, kwargs)

    def fold_re(self, name, st, args, kwargs):
        fa = self.fz(st, *args)
        if all(is_const(a) for a in fa) and not kwargs:
            try:
                r = getattr(re, name)(*[cval(a) for a in fa])
                return to_const(r)
            except Exception:
                return None
        t = mk('call', mk('ext', 're.' + name), fa, tuple(
            (k, self.freeze(st, v)) for k, v in kwargs))
        if name == 'sub':
            self.set_type(t, ('ext', 'str'))
        elif is_const(fa[0]) and not re.compile(cval(fa[0])).groups:
            # no groups: every part is text
            self.set_type(t, ('seq', 'list', ('ext', 'str')))
        else:
            self.set_type(t, ('seq', 'list', ('any', )))
        return t

    def x__re__compile(self, st, args, kwargs, node):
        return mk('call', mk('ext', 're.compile'), self.fz(st, *args), ())

    def x__re__match(self, st, args, kwargs, node):
        return mk('call', mk('ext', 're.match'), self.fz(st, *args), ())

    def x__re__fullmatch(self, st, args, kwargs, node):
        return mk('call', mk('ext', 're.fullmatch'), self.fz(st, *args), ())

    def x__re__search(self, st, args, kwargs, node):
        return mk('call', mk('ext', 're.search'), self.fz(st, *args), ())


def show_cls(t):
    return repr(t)[:80]


from itertools import count as _count
_n = _count(1)
