"""Loading /repo's package: modules, classes, enums, functions, types."""
import ast
import builtins
import os

from .terms import FALSE, NONE, TRUE, T, const, mk


class AnalysisBroken(Exception):
    """The code no longer has the shape the analysis needs to give an answer
    (a public anchor vanished, a file does not parse): an error exit."""


class Func:
    def __init__(self, mod, node, qual, cls=None):
        self.mod = mod
        self.node = node
        self.qual = qual  # 'module:Class.name'
        self.cls = cls  # Cls or None
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = getattr(node, 'decorator_list', [])
        self.is_gen = None

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Cls:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.name = node.name
        self.bases = []  # Cls or external name strings
        self.meta = None
        self.attrs = {}  # name -> ast node or Func/Cls (raw class body)
        self.ann = {}  # name -> annotation ast
        self.order = []
        self.kind = 'class'  # class / enum / namedtuple / dataclass
        self.members = None  # enum: name -> value term

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class Module:
    def __init__(self, proj, name, path, tree, src):
        self.proj = proj
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.ns = {}  # name -> entry
        self.order = []

    @property
    def exports(self):
        """the names of __all__, or None"""
        out = None
        for n in self.tree.body:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] \
                if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
            if any(isinstance(t, ast.Name) and t.id == '__all__' for t in ts):
                try:
                    v = list(ast.literal_eval(n.value))
                except (ValueError, TypeError, SyntaxError):
                    return None
                out = (out or []) + v
        return out


# external exception / class hierarchy facts (dotted name -> base)
EXT_BASES = {
    'json.JSONDecodeError': 'ValueError',
    'json.decoder.JSONDecodeError': 'ValueError',
    'binascii.Error': 'ValueError',
    'struct.error': 'Exception',
    're.error': 'Exception',
    'cbor2.CBORError': 'Exception',
    'cbor2.CBORDecodeError': 'cbor2.CBORError',
    'cbor2.CBORDecodeEOF': ('cbor2.CBORDecodeError', 'EOFError'),
    'cbor2.CBORDecodeValueError': ('cbor2.CBORDecodeError', 'ValueError'),
    'cbor2.CBOREncodeError': 'cbor2.CBORError',
    'cryptography.exceptions.InvalidSignature': 'Exception',
    'cryptography.exceptions.InvalidKey': 'Exception',
    'cryptography.exceptions.UnsupportedAlgorithm': 'Exception',
    'cryptography.exceptions.InternalError': 'Exception',
    'cryptography.exceptions.AlreadyFinalized': 'Exception',
    'cryptography.x509.ExtensionNotFound': 'Exception',
    'cryptography.x509.extensions.ExtensionNotFound': 'Exception',
    'cryptography.x509.DuplicateExtension': 'Exception',
    'pyasn1.error.PyAsn1Error': 'Exception',
    'pyasn1.error.SubstrateUnderrunError': 'pyasn1.error.PyAsn1Error',
    'enum.Enum': 'object',
    'enum.IntEnum': 'int',
    'enum.Flag': 'object',
    'enum.IntFlag': 'int',
    'collections.OrderedDict': 'dict',
}

# canonical names of re-exported externals
CANON = {
    'json.decoder.JSONDecodeError': 'json.JSONDecodeError',
    'cbor2.decoder.CBORDecodeError': 'cbor2.CBORDecodeError',
    'cbor2.types.CBORDecodeError': 'cbor2.CBORDecodeError',
    'cryptography.x509.extensions.ExtensionNotFound':
    'cryptography.x509.ExtensionNotFound',
    'cryptography.x509.extensions.UnrecognizedExtension':
    'cryptography.x509.UnrecognizedExtension',
    'cryptography.x509.oid.ObjectIdentifier':
    'cryptography.x509.ObjectIdentifier',
    'cryptography.x509.base.load_der_x509_certificate':
    'cryptography.x509.load_der_x509_certificate',
    'cryptography.x509.base.Certificate': 'cryptography.x509.Certificate',
    'cbor2.decoder.loads': 'cbor2.loads',
    'cbor2.decoder.load': 'cbor2.load',
    'cbor2.encoder.dumps': 'cbor2.dumps',
    'io.BytesIO': 'io.BytesIO',
    'typing.OrderedDict': 'collections.OrderedDict',
}

# disjoint concrete key classes of the cryptography package etc.
OPAQUE_DISJOINT = {
    'cryptography.hazmat.primitives.asymmetric.ec.EllipticCurvePublicKey',
    'cryptography.hazmat.primitives.asymmetric.ed25519.Ed25519PublicKey',
    'cryptography.hazmat.primitives.asymmetric.ed448.Ed448PublicKey',
}


class Hier:
    """subclass tests over repository, builtin and known external classes"""
    def __init__(self, proj):
        self.proj = proj
        self.cache = {}

    def bases(self, name):
        c = self.proj.classes.get(name)
        if c is not None:
            return [b if isinstance(b, str) else b.qual
                    for b in c.bases] or ['object']
        if name in EXT_BASES:
            b = EXT_BASES[name]
            return list(b) if isinstance(b, tuple) else [b]
        b = getattr(builtins, name, None)
        if isinstance(b, type):
            return [x.__name__ for x in b.__bases__]
        if name in ('NoneType', 'function', 'method', 'type', 'module'):
            return ['object']
        return None

    def __call__(self, a, b):
        """True / False / None (unknown)"""
        if a == b or b == 'object':
            return True
        k = (a, b)
        r = self.cache.get(k, 0)
        if r == 0:
            r = self._sub(a, b)
            self.cache[k] = r
        return r

    def _sub(self, a, b):
        if b in ABCS:
            bb = getattr(builtins, a, None)
            if isinstance(bb, type):
                return a in ABCS[b]
            return None
        bs = self.bases(a)
        if bs is None:
            if a in OPAQUE_DISJOINT and b in OPAQUE_DISJOINT:
                return False
            if '.' in a and self.bases(b) is not None:
                # an external class is no subclass of a repo class or of a
                # data builtin
                if b in self.proj.classes or b in DATA_BUILTINS:
                    return False
            return None
        if b in bs:
            return True
        unk = False
        for x in bs:
            if x == 'object':
                continue
            r = self(x, b)
            if r:
                return True
            if r is None:
                unk = True
        return None if unk else False

    def disjoint(self, a, b):
        """No object is an instance of both (single inheritance trees)."""
        if self(a, b) is False and self(b, a) is False:
            return True
        return False

    def mro(self, c):
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            for b in c.bases:
                if isinstance(b, Cls):
                    go(b)

        go(c)
        return out


DATA_BUILTINS = {
    'int', 'str', 'bytes', 'bool', 'float', 'dict', 'list', 'tuple', 'set',
    'frozenset', 'NoneType', 'bytearray'
}
ABCS = {
    'collections.abc.Mapping': {'dict'},
    'typing.Mapping': {'dict'},
    'collections.abc.Sequence': {'list', 'tuple', 'str', 'bytes', 'range'},
    'typing.Sequence': {'list', 'tuple', 'str', 'bytes', 'range'},
    'collections.abc.Collection':
    {'list', 'tuple', 'str', 'bytes', 'set', 'frozenset', 'dict', 'range'},
    'typing.Collection':
    {'list', 'tuple', 'str', 'bytes', 'set', 'frozenset', 'dict', 'range'},
    'collections.abc.Iterable':
    {'list', 'tuple', 'str', 'bytes', 'set', 'frozenset', 'dict', 'range'},
    'numbers.Number': {'int', 'float', 'bool', 'complex'},
    'numbers.Integral': {'int', 'bool'},
}


class Project:
    def __init__(self, root, pkg='webauthn_rp', extra=None):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.hier = Hier(self)
        d = os.path.join(root, pkg)
        if not os.path.isdir(d):
            raise AnalysisBroken('no package directory %s' % d)
        for base, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-len('.__init__')]
                    self.load(rel, p)
        for name, path in (extra or {}).items():
            self.load(name, path)
        for m in list(self.modules.values()):
            self.index(m)
        for c in list(self.classes.values()):
            self.link(c)
        for c in list(self.classes.values()):
            self.classify(c)

    def load(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (path, e))
        self.modules[name] = Module(self, name, path, tree, src)

    # ---- module namespaces: later bindings win, conditionals flattened
    def index(self, m):
        def add(name, entry):
            m.ns[name] = entry
            m.order.append(name)

        def block(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            add(a.asname, ('module', a.name))
                        else:
                            add(a.name.split('.')[0],
                                ('module', a.name.split('.')[0]))
                            # remember that the submodule is loaded
                elif isinstance(s, ast.ImportFrom):
                    src = s.module or ''
                    if s.level:
                        parts = m.name.split('.')
                        isdir = m.path.endswith('__init__.py')
                        cut = s.level - (1 if isdir else 0)
                        base = parts[:len(parts) - cut] if cut else parts
                        src = '.'.join(base + ([src] if src else []))
                    for a in s.names:
                        if a.name == '*':
                            m.ns.setdefault('*', []).append(src)
                            continue
                        add(a.asname or a.name, ('from', src, a.name))
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, s, m.name + ':' + s.name)
                    old = m.ns.get(s.name)
                    # @f.register and redefinitions keep the dispatcher
                    self.funcs[f.qual] = f
                    add(s.name, ('func', f))
                elif isinstance(s, ast.ClassDef):
                    c = self.mkclass(m, s, m.name + ':' + s.name)
                    add(s.name, ('class', c))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            add(t.id, ('expr', s.value))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name):
                                    add(e.id, ('unpack', s.value, i))
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        add(s.target.id, ('expr', s.value))
                elif isinstance(s, ast.If):
                    # TYPE_CHECKING blocks and version switches
                    block(s.body)
                    block(s.orelse)
                elif isinstance(s, ast.Try):
                    block(s.body)
                    for h in s.handlers:
                        pass
                    block(s.orelse)
                    block(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With,
                                    ast.AugAssign)):
                    m.ns.setdefault('#dynamic', []).append(s)

        block(m.tree.body)

    def mkclass(self, m, node, qual):
        c = Cls(m, node, qual)
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, s, qual + '.' + s.name, c)
                self.funcs[f.qual] = f
                c.attrs[s.name] = ('func', f)
                c.order.append(s.name)
            elif isinstance(s, ast.ClassDef):
                k = self.mkclass(m, s, qual + '.' + s.name)
                c.attrs[s.name] = ('class', k)
                c.order.append(s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = ('expr', s.value)
                        c.order.append(t.id)
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name):
                c.ann[s.target.id] = s.annotation
                if s.value is not None:
                    c.attrs[s.target.id] = ('expr', s.value)
                c.order.append(s.target.id)
        return c

    # ---- name resolution (static, for class headers and annotations)
    def resolve_name(self, m, name, _seen=()):
        """('class', Cls) / ('func', Func) / ('ext', dotted) / ('module',
        dotted) / ('expr', node, module) / None"""
        e = m.ns.get(name)
        if e is None:
            for src in m.ns.get('*', ()):
                mm = self.modules.get(src)
                if mm is not None:
                    r = self.resolve_name(mm, name)
                    if r is not None:
                        return r
            if hasattr(builtins, name):
                return ('ext', name)
            return None
        return self.resolve_entry(m, e, name, _seen)

    def resolve_entry(self, m, e, name, _seen=()):
        if e[0] == 'from':
            src, n = e[1], e[2]
            mm = self.modules.get(src)
            if mm is not None:
                if src + '.' + n in self.modules and n not in mm.ns:
                    return ('module', src + '.' + n)
                if (src, n) in _seen:
                    if src + '.' + n in self.modules:
                        return ('module', src + '.' + n)
                    return None
                return self.resolve_name(mm, n, _seen + ((src, n), ))
            return ('ext', canon(src + '.' + n))
        if e[0] == 'module':
            return e
        if e[0] in ('class', 'func'):
            return e
        return (e[0], e, m)

    def resolve_expr(self, m, node):
        """static resolution of a Name/Attribute chain to an entry"""
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if b is None:
                return None
            if b[0] == 'module':
                mm = self.modules.get(b[1])
                if mm is not None:
                    if b[1] + '.' + node.attr in self.modules and \
                            node.attr not in mm.ns:
                        return ('module', b[1] + '.' + node.attr)
                    return self.resolve_name(mm, node.attr)
                return ('ext', canon(b[1] + '.' + node.attr))
            if b[0] == 'ext':
                return ('ext', canon(b[1] + '.' + node.attr))
            if b[0] == 'class':
                a = b[1].attrs.get(node.attr)
                if a is not None:
                    return a
            return None
        return None

    def link(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.mod, b)
            if r is not None and r[0] == 'class':
                c.bases.append(r[1])
            elif r is not None and r[0] in ('ext', 'module'):
                c.bases.append(r[1])
            else:
                c.bases.append(ast.unparse(b))
        for k in c.node.keywords:
            if k.arg == 'metaclass':
                r = self.resolve_expr(c.mod, k.value)
                if r is not None and r[0] == 'class':
                    c.meta = r[1]
                elif r is not None:
                    c.meta = r[1]

    def classify(self, c):
        names = [b if isinstance(b, str) else b.qual for b in c.bases]
        for k in self.hier.mro(c):
            for b in k.bases:
                if isinstance(b, str):
                    if b in ('enum.Enum', 'enum.IntEnum', 'enum.Flag',
                             'enum.IntFlag', 'enum.StrEnum'):
                        c.kind = 'enum'
                    if b == 'typing.NamedTuple' and k is c:
                        c.kind = 'namedtuple'
                    elif b == 'typing.NamedTuple':
                        c.kind = 'namedtuple'
        for d in c.node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            r = self.resolve_expr(c.mod, n)
            if r is not None and r[0] == 'ext' and r[1] in (
                    'dataclasses.dataclass', ):
                c.kind = 'dataclass'

    def module_of(self, short):
        m = self.modules.get(self.pkg + '.' + short)
        if m is None:
            raise AnalysisBroken('module %s is gone' % short)
        return m

    def public(self, short, name):
        """The entry a public name of a module resolves to."""
        m = self.module_of(short)
        r = self.resolve_name(m, name)
        if r is None:
            raise AnalysisBroken('%s.%s is gone' % (short, name))
        return r


def canon(n):
    return CANON.get(n, n)


# ------------------------------------------------------------- annotations
# type values: ('cls', qual) ('ext', name) ('opt', t) ('union', (t...))
# ('seq', t) ('map',) ('any',)
def ann_type(proj, m, node):
    if node is None:
        return ('any', )
    if isinstance(node, ast.Constant):
        if node.value is None:
            return ('ext', 'NoneType')
        if isinstance(node.value, str):
            try:
                return ann_type(proj, m, ast.parse(node.value,
                                                   mode='eval').body)
            except SyntaxError:
                return ('any', )
    if isinstance(node, ast.Subscript):
        r = proj.resolve_expr(m, node.value)
        n = r[1] if r is not None and r[0] == 'ext' else ''
        n = n.split('.')[-1]
        sl = node.slice
        args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        if n == 'Optional':
            return ('union', (ann_type(proj, m, args[0]), ('ext',
                                                           'NoneType')))
        if n == 'Union':
            ts = []
            for a in args:
                t = ann_type(proj, m, a)
                ts.extend(t[1] if t[0] == 'union' else (t, ))
            return ts[0] if len(ts) == 1 else ('union', tuple(ts))
        if n in ('Sequence', 'Collection', 'Iterable'):
            return ('seq', n, ann_type(proj, m, args[0]))
        if n in ('List', 'list', 'Set', 'set', 'FrozenSet', 'frozenset'):
            return ('seq', n.lower(), ann_type(proj, m, args[0]))
        if n in ('Tuple', 'tuple'):
            return ('tup', tuple(ann_type(proj, m, a) for a in args))
        if n in ('Dict', 'dict', 'Mapping'):
            return ('map', 'dict')
        if n in ('Type', 'type'):
            return ('any', )
        return ('any', )
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        a, b = ann_type(proj, m, node.left), ann_type(proj, m, node.right)
        ts = []
        for t in (a, b):
            ts.extend(t[1] if t[0] == 'union' else (t, ))
        return ('union', tuple(ts))
    if isinstance(node, (ast.Name, ast.Attribute)):
        r = proj.resolve_expr(m, node)
        if r is None:
            return ('any', )
        if r[0] == 'class':
            return ('cls', r[1].qual)
        if r[0] == 'ext':
            n = r[1]
            s = n.split('.')[-1]
            if n.startswith('typing.') or n.startswith('collections.abc.'):
                if s in ('Dict', 'Mapping'):
                    return ('map', 'dict')
                if s in ('List', 'Sequence', 'Collection', 'Set'):
                    return ('seq', s.lower() if s in ('List', 'Set') else s,
                            ('any', ))
                return ('any', )
            if n == 'dict':
                return ('map', 'dict')
            if n in ('list', 'set', 'tuple'):
                return ('seq', n, ('any', ))
            return ('ext', n)
        if r[0] == 'expr':
            return ann_type(proj, r[2], r[1][1])
    return ('any', )


def type_members(t):
    return t[1] if t[0] == 'union' else (t, )
