"""Canonical terms and formulas (hash-consed).

A term is one abstract value. Two program expressions that the analysis can
show to compute the same value get the same term object (value numbering).
Formulas are boolean terms. All constructors normalise.
"""
from itertools import count

_TABLE = {}
_UID = count(1)


class T:
    __slots__ = ('op', 'args', 'uid', 'gam', 'elems', 'phis', '_atoms')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.uid = next(_UID)
        gam = op == 'gamma'
        elems = frozenset()
        phis = frozenset()
        if op == 'elem':
            elems = frozenset((self, ))
        if op == 'phi':
            phis = frozenset((self, ))
        for a in args:
            for b in (a if type(a) is tuple else (a, )):
                for c in (b if type(b) is tuple else (b, )):
                    if type(c) is T:
                        gam = gam or c.gam
                        if c.elems:
                            elems = elems | c.elems
                        if c.phis:
                            phis = phis | c.phis
        if op in BINDERS:
            gam = args[0].gam
            bound = T_elem_of(self)
            if bound in elems:
                elems = elems - {bound}
        self.gam = gam
        self.elems = elems
        self.phis = phis
        self._atoms = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


# ops that bind elem(coll, level): args = (coll, level, ...)
BINDERS = ('exists', 'comp', 'last', 'choose', 'count', 'fold')


def T_elem_of(t):
    return _TABLE.get(('elem', (t.args[0], t.args[1])))


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T(op, args)
        _TABLE[key] = t
    return t


_fresh = count(1)


def fresh(op='unk', *args):
    return mk(op, *args, next(_fresh))


def const(v):
    """A constant; the type name is part of the identity (1, True, 1.0)."""
    return mk('const', type(v).__name__, repr(v) if type(v) is float else v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
CONST_TYPES = (int, str, bytes, bool, float, type(None), type(Ellipsis))


def is_const(t):
    return t.op == 'const'


def cval(t):
    if t.args[0] == 'float':
        return float(t.args[1])
    return t.args[1]


FORMULA = {
    'not', 'and', 'or', 'eq', 'lt', 'truthy', 'isinst', 'typeis', 'hasattr',
    'has', 'contains', 'exists', 'ok', 'bit', 'nondet', 'is', 'fatom',
    'callable'
}


def is_formula(t):
    return t.op in FORMULA or t is TRUE or t is FALSE


def is_bool(t):
    if is_formula(t):
        return True
    if t.op == 'gamma':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


# ---------------------------------------------------------------- booleans
def Not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.args[0]
    if f.op == 'and' or f.op == 'or':
        r = _NEG.get(f)
        if r is None:
            r = (Or if f.op == 'and' else And)(*[Not(x) for x in f.args])
            _NEG[f] = r
            _NEG.setdefault(r, f)
        return r
    return mk('not', f)


_NEG = {}
_NARY = {}


def _nary(op, unit, zero, fs):
    k = (op, tuple(fs))
    r = _NARY.get(k)
    if r is None:
        r = _NARY[k] = _nary0(op, unit, zero, fs)
    return r


def _nary0(op, unit, zero, fs):
    out = {}
    for f in fs:
        if f is unit:
            continue
        if f is zero:
            return zero
        for g in (f.args if f.op == op else (f, )):
            out[g] = None
    for g in out:
        if Not_cheap(g) in out:
            return zero
    # absorption: and(a, or(a, b)) = a ; and(a, or(not a, b)) = and(a, b)
    dual = 'or' if op == 'and' else 'and'
    changed = False
    for g in list(out):
        if g.op == dual:
            keep = []
            hit = False
            for h in g.args:
                if h in out:
                    hit = True
                    break
                if Not_cheap(h) in out:
                    continue
                keep.append(h)
            if hit:
                del out[g]
            elif len(keep) != len(g.args):
                del out[g]
                out[(Or if dual == 'or' else And)(*keep)] = None
                changed = True
    if changed:
        return _nary(op, unit, zero, list(out))
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return mk(op, *sorted(out))


def Not_cheap(f):
    if f.op == 'not':
        return f.args[0]
    if f.op in ('and', 'or'):
        return Not(f)
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    return mk('not', f)


def And(*fs):
    return _nary('and', TRUE, FALSE, fs)


def Or(*fs):
    return _nary('or', FALSE, TRUE, fs)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    return Or(And(a, b), And(Not(a), Not(b)))


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return Or(And(c, a), And(Not(c), b))


# ---------------------------------------------------------------- gamma
def gamma(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'gamma' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'gamma' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_formula(a) and is_formula(b):
        return Ite(c, a, b)
    return mk('gamma', c, a, b)


def leaves(t, guard=TRUE, limit=200):
    """[(guard formula, gamma free at the top leaf)]"""
    out = []

    def go(t, g):
        if g is FALSE:
            return
        if t.op == 'gamma':
            c, a, b = t.args
            go(a, And(g, c))
            go(b, And(g, Not(c)))
        else:
            out.append((g, t))

    go(t, guard)
    return out


def first_gamma(t):
    """Some gamma subterm of t (outermost-leftmost), not under binders."""
    if not t.gam:
        return None
    if t.op == 'gamma':
        return t
    args = t.args[:1] if t.op in BINDERS else t.args
    for a in args:
        for b in (a if type(a) is tuple else (a, )):
            for c in (b if type(b) is tuple else (b, )):
                if type(c) is T and c.gam:
                    g = first_gamma(c)
                    if g is not None:
                        return g
    return None


def rebuild(op, args):
    """Rebuild a node through its normalising constructor."""
    f = BUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


BUILD = {}


def builder(op):
    def deco(f):
        BUILD[op] = f
        return f

    return deco


BUILD['not'] = Not
BUILD['and'] = And
BUILD['or'] = Or
BUILD['gamma'] = gamma


def subst(t, m, cache=None):
    """Replace subterms (dict term -> term), renormalising."""
    if cache is None:
        cache = {}
    if t in m:
        return m[t]
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == 'const' or not t.args:
        return t

    mm = m
    if t.op in BINDERS:
        b = T_elem_of(t)
        if b in m:
            mm = {k: v for k, v in m.items() if k is not b}
            cc = {}
        else:
            cc = cache
    else:
        cc = cache

    def go(a):
        if type(a) is T:
            return subst(a, mm, cc)
        if type(a) is tuple:
            return tuple(go(x) for x in a)
        return a

    if t.op in BINDERS:
        coll = subst(t.args[0], m, cache)
        if coll is not t.args[0]:
            old = T_elem_of(t)
            if old is not None:
                mm = dict(mm)
                mm[old] = mk('elem', coll, t.args[1])
                cc = {}
        args = (coll, ) + tuple(go(a) for a in t.args[1:])
    else:
        args = tuple(go(a) for a in t.args)
    if args == t.args:
        r = t
    else:
        r = rebuild(t.op, args)
    cache[t] = r
    return r


def mentions(t, sub):
    seen = set()

    def go(x):
        if x is sub:
            return True
        if x in seen:
            return False
        seen.add(x)
        for a in x.args:
            for b in (a if type(a) is tuple else (a, )):
                for c in (b if type(b) is tuple else (b, )):
                    if type(c) is T and go(c):
                        return True
        return False

    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for a in t.args:
        for b in (a if type(a) is tuple else (a, )):
            for c in (b if type(b) is tuple else (b, )):
                if type(c) is T:
                    subterms(c, seen)
    return seen


LIFT_LIMIT = 96


def lift_atom(op, args):
    """Build atom op(args); gammas inside are lifted into the formula."""
    n = [0]

    def go(args):
        for i, a in enumerate(args):
            if type(a) is T and a.gam:
                g = first_gamma(a)
                if g is None:
                    continue
                n[0] += 1
                if n[0] > LIFT_LIMIT:
                    return mk(op, *args)
                c, x, y = g.args
                ax = subst_gamma(a, g, c, True)
                ay = subst_gamma(a, g, c, False)
                fx = go2(args[:i] + (ax, ) + args[i + 1:], c, True)
                fy = go2(args[:i] + (ay, ) + args[i + 1:], c, False)
                return Ite(c, fx, fy)
        return mk(op, *args)

    def go2(args, c, val):
        # the other arguments may carry the same guard
        args = tuple(
            choose_guard(a, c, val) if type(a) is T and a.gam else a
            for a in args)
        return rebuild(op, args) if op in BUILD else go(args)

    return go(args)


def type_atom(op, t, name):
    """typeis/isinst of a value"""
    return lift_atom(op, (t, name)) if t.gam else mk(op, t, name)


def subst_gamma(t, g, c, val):
    return choose_guard(t, c, val)


def choose_guard(t, c, val, cache=None):
    """t with every gamma on exactly guard c (outside binders) resolved."""
    if not t.gam:
        return t
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == 'gamma' and t.args[0] is c:
        r = choose_guard(t.args[1] if val else t.args[2], c, val, cache)
    elif t.op in BINDERS:
        coll = choose_guard(t.args[0], c, val, cache)
        r = subst(t, {t.args[0]: coll}) if coll is not t.args[0] else t
    else:

        def go(a):
            if type(a) is T:
                return choose_guard(a, c, val, cache)
            if type(a) is tuple:
                return tuple(go(x) for x in a)
            return a

        args = tuple(go(a) for a in t.args)
        r = t if args == t.args else rebuild(t.op, args)
    cache[t] = r
    return r


# ---------------------------------------------------------------- linear ints
@builder('lin')
def lin(c, items):
    """c + sum(coef * term)"""
    acc = {}
    for t, k in items:
        if t.op == 'lin':
            c += k * t.args[0]
            for u, j in t.args[1]:
                acc[u] = acc.get(u, 0) + k * j
        elif is_const(t) and t.args[0] in ('int', 'bool'):
            c += k * int(cval(t))
        else:
            acc[t] = acc.get(t, 0) + k
    its = tuple(sorted(((t, k) for t, k in acc.items() if k),
                       key=lambda p: p[0].uid))
    if not its:
        return const(c)
    if len(its) == 1 and its[0][0].op == 'gamma':
        (t, k), = its
        g, x, y = t.args
        if all(z.op in ('gamma', 'lin', 'len', 'beuint', 'cborend', 'count')
               or is_const(z) and z.args[0] in ('int', 'bool')
               for z in (x, y)):
            return gamma(g, lin(c, ((x, k), )), lin(c, ((y, k), )))
    if c == 0 and len(its) == 1 and its[0][1] == 1:
        return its[0][0]
    return mk('lin', c, its)


def linparts(t):
    if is_const(t) and t.args[0] in ('int', 'bool'):
        return int(cval(t)), ()
    if t.op == 'lin':
        return t.args[0], t.args[1]
    return 0, ((t, 1), )


def lin_add(a, b, kb=1):
    return lin(0, ((a, 1), (b, kb)))


def is_int_term(t):
    if is_const(t):
        return t.args[0] in ('int', 'bool')
    return t.op in ('lin', 'len', 'beuint', 'cborend', 'count', 'bitand',
                    'toint')


OK_LIFT = 3


@builder('ok')
def ok_of(t):
    """the operation succeeded"""
    if t.gam and t.op not in BINDERS:
        guards = {g.args[0] for g in subterms(t) if g.op == 'gamma'}
        if len(guards) <= OK_LIFT:
            return lift_atom('ok', (t, ))
    return mk('ok', t)


@builder('lt')
def lt(a, b):
    """a < b, over the integers."""
    if a.gam or b.gam:
        return lift_atom('lt', (a, b))
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) < cval(b)))
        except TypeError:
            return mk('lt', a, b)
    if (is_const(a) and a.args[0] not in ('int', 'bool')) or (
            is_const(b) and b.args[0] not in ('int', 'bool')):
        return mk('lt', a, b)
    ca, ia = linparts(a)
    cb, ib = linparts(b)
    d = lin(0, ((a, 1), (b, -1)))
    c, items = linparts(d)
    if not items:
        return const(c < 0)
    # sum(items) < -c
    bound = -c
    neg = items[0][1] < 0
    if neg:
        # -s < bound  <=>  s > -bound  <=>  not (s < -bound + 1)
        items = tuple((t, -k) for t, k in items)
        bound = -bound + 1
    s = lin(0, items)
    f = _lt_atom(s, bound)
    return Not(f) if neg else f


def _lt_atom(s, bound):
    if s.op == 'len':
        if bound <= 0:
            return FALSE
        inner = s.args[0]
        if inner.op == 'slice':
            r = _len_slice_lt(inner, bound)
            if r is not None:
                return r
        if bound == 1:
            return Not(truthy(inner, sized=True))
    if s.op == 'beuint' and bound <= 0:
        return FALSE
    if s.op == 'bitand':
        p = _mask_parts(s)
        if p is not None and p[2] >= 0 and bin(p[2]).count('1') <= 8:
            return _bits_lt(*p, bound)
    if s.op == 'count':
        if bound <= 0:
            return FALSE
        if bound == 1:
            coll, lvl, cond = s.args
            return Not(exists(coll, lvl, cond))
    r = _span_lt(s, bound)
    if r is not None:
        return r
    if s.op == 'lin' and len(s.args[1]) == 2 and bound in (0, 1):
        f = _short_read(s, bound)
        if f is not None:
            return f
    return mk('lt', s, const(bound))


def _span_lt(s, bound):
    """decided by 0 <= i < n for the elements i of a range(n)"""
    c, items = linparts(s)
    if not any(t.op == 'elem' and t.args[0].op == 'range' and
               len(t.args[0].args) == 1 or t.op == 'idx' for t, k in items):
        return None
    for low in (True, False):
        parts, base = [], c
        for t, k in items:
            n = None
            if t.op == 'elem' and t.args[0].op == 'range' and len(
                    t.args[0].args) == 1:
                n = t.args[0].args[0]
            elif t.op == 'idx':
                n = length(t.args[0])
            if n is None:
                parts.append((t, k))
            elif (k > 0) != low:
                parts.append((n, k))
                base -= k
        cc, ii = linparts(lin(base, tuple(parts)))
        if ii:
            continue
        if low and cc >= bound:
            return FALSE
        if not low and cc < bound:
            return TRUE
    return None


def _short_read(s, bound):
    """len(x[lo:lo+n]) against a symbolic n, either way round"""
    if linparts(s)[0] != 0:
        return None
    (t1, k1), (t2, k2) = s.args[1]
    for (p, kp), (q, kq) in (((t1, k1), (t2, k2)), ((t2, k2), (t1, k1))):
        if (p.op != 'len' or p.args[0].op != 'slice' or kp != -kq
                or kp not in (1, -1)):
            continue
        x, lo, hi = p.args[0].args
        if hi is NONE or lin_add(hi, lo, -1) is not q:
            continue
        short = And(lt(const(0), q), lt(length(x), hi))
        within = Not(lt(q, const(0)))
        if kp == 1:
            return short if bound == 0 else within
        return Not(short) if bound == 1 else Not(within)
    return None


def _bits_lt(x, sh, m, bound):
    """((x >> sh) & m) < bound, bit by bit from the most significant"""
    if bound <= 0:
        return FALSE
    if m < bound:
        return TRUE
    res = FALSE
    for i in range(max(m.bit_length(), bound.bit_length())):
        b = bit(x, i + sh) if m >> i & 1 else FALSE
        if bound >> i & 1:
            res = Or(Not(b), res)
        else:
            res = And(Not(b), res)
    return res


def le(a, b):
    return Not(lt(b, a))


def slice_bounds(t):
    _, lo, hi = t.args
    return lo, hi


def _len_slice_lt(sl, k):
    """len(a[lo:hi]) < k for constant k > 0, lo >= 0"""
    a, lo, hi = sl.args
    if hi is NONE:
        # len(a) - lo < k
        return lt(length(a), lin_add(lo, const(k)))
    w = lin_add(hi, lo, -1)
    if is_const(w):
        if cval(w) < k:
            return TRUE
        return lt(length(a), lin_add(lo, const(k)))
    if k == 1:
        # empty: a ends before lo, or zero width
        return Or(lt(length(a), lin_add(lo, const(1))), lt(w, const(1)))
    return None


@builder('len')
def length(t):
    if is_const(t) and t.args[0] in ('str', 'bytes'):
        return const(len(cval(t)))
    if t.op == 'gamma':
        return gamma(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op in ('tuple', 'list'):
        return const(len(t.args))
    if t.op == 'nt':
        return const(len(t.args[1]))
    if t.op == 'digest':
        n = {'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha1': 20}.get(
            t.args[0])
        if n:
            return const(n)
    if t.op == 'cat':
        return lin(0, tuple((length(x), 1) for x in t.args))
    if t.op == 'comp' and t.args[0] in ('list', ):
        pass
    if t.op in ('keys', ):
        return length(t.args[0])
    return mk('len', t)


# ---------------------------------------------------------------- equality
def _int_like(t):
    return is_int_term(t)


TYPED = {
    'cat': None,
    'digest': 'bytes',
    'b64dec': 'bytes',
    'b64enc': 'bytes',
    'encode': 'bytes',
    'decode': 'str',
    'beuint': 'int',
    'len': 'int',
    'lin': 'int',
    'count': 'int',
    'cborend': 'int',
    'bitand': 'int',
    'fmt': 'str',
    'tuple': 'tuple',
    'list': 'list',
    'dict': 'dict',
    'set': 'set',
    'hex': 'str',
    'toint': 'int',
    'b64str': 'str',
    'join': None,
    'objdict': 'dict',
    'dstore': 'dict',
    'dmerge': 'dict',
    'strmul': None,
    'tobytes': 'bytes',
    'cbordump': 'bytes',
    'aslist': 'list',
    'asset': 'set',
    'setdiff': 'set',
    'setunion': 'set',
}


def static_type(t):
    """The builtin type of a term when its operator fixes it, else None."""
    if is_const(t):
        return t.args[0]
    if t.op == 'cat':
        for a in t.args:
            s = static_type(a)
            if s:
                return s
        return None
    if t.op == 'slice':
        return static_type(t.args[0])
    if t.op == 'pad':
        return 'str'
    if t.op == 'comp':
        return {'list': 'list', 'set': 'set', 'dict': 'dict'}.get(t.args[2])
    if t.op in FORMULA:
        return 'bool'
    if t.op == 'ext' and t.args[0] in BUILTIN_TYPES:
        return 'type'
    return TYPED.get(t.op)


BUILTIN_TYPES = {'int', 'bool', 'float', 'complex', 'str', 'bytes',
                 'bytearray', 'memoryview', 'dict', 'list', 'tuple', 'set',
                 'frozenset', 'object', 'type'}


NONNULL = {
    'rec', 'nt', 'enum', 'enumof', 'cls', 'fn', 'ext', 'mod', 'lin', 'len',
    'beuint', 'cat', 'digest', 'tuple', 'list', 'set', 'dict', 'comp', 'slice',
    'b64dec', 'b64enc', 'encode', 'decode', 'fmt', 'bm', 'closure', 'obj',
    'keys', 'count', 'cborend', 'bitand', 'hex', 'pyhash', 'ename',
    'hashobj', 'toint', 'pad', 'bytesio', 'cryptoobj', 'frozenset',
    'b64str', 'cbordump', 'excof'
}


def never_none(t):
    return (is_const(t)
            and t is not NONE) or t.op in NONNULL or t.op in FORMULA


@builder('eq')
def eq(a, b):
    if a is b:
        return TRUE
    if a.gam or b.gam:
        return lift_atom('eq', (a, b))
    if is_formula(a) and is_formula(b):
        return Iff(a, b)
    if is_const(a) and is_const(b):
        va, vb = cval(a), cval(b)
        try:
            return const(bool(va == vb))
        except Exception:
            return FALSE
    if b is NONE or (is_const(b) and not is_const(a)):
        a, b = b, a
    # a const on the left if any
    if is_const(a) and b.op == 'copied':
        return eq(b.args[0], a)
    if a is NONE:
        if never_none(b):
            return FALSE
        return mk('eq', b, NONE)
    if is_const(a):
        va = cval(a)
        if b.op == 'enum':
            return FALSE
        if b.op in ('ename', ):
            return _ename_eq(b, va)
        if b.op in ('tuple', 'list', 'dict', 'set', 'rec', 'nt', 'obj', 'fn',
                    'cls', 'enumof', 'comp'):
            return FALSE
        if isinstance(va, (bytes, str)):
            if len(va) == 0:
                st = static_type(b)
                if st == type(va).__name__:
                    return Not(truthy(b))
                if st is None and b.op in ('slice', 'param', 'attr', 'item'):
                    if b.op == 'slice':
                        return Not(truthy(b))
            st = static_type(b)
            if st and st != type(va).__name__:
                return FALSE
            if b.op == 'cat':
                return _cat_eq_const(b, va)
        if is_formula(b):
            if va is True or va == 1:
                return b
            if va is False or va == 0:
                return Not(b)
            return FALSE
        if isinstance(va, bool):
            va = int(va)
        if isinstance(va, int):
            if b.op == 'len' or b.op == 'lin' or b.op in (
                    'beuint', 'count', 'cborend', 'toint'):
                return _lin_eq(b, const(va))
            if b.op == 'bitand':
                return _bit_eq(b, va)
            if static_type(b) in ('str', 'bytes', 'list', 'dict', 'tuple'):
                return FALSE
        return mk('eq', b, a)
    if is_int_term(a) or is_int_term(b):
        return _lin_eq(a, b)
    if a.op == 'nt' and b.op == 'nt':
        if len(a.args[1]) != len(b.args[1]):
            return FALSE
        return And(*[eq(x[1], y[1]) for x, y in zip(a.args[1], b.args[1])])
    if a.op in ('nt', 'tuple') and b.op in ('nt', 'tuple'):
        xs = [x[1] for x in a.args[1]] if a.op == 'nt' else a.args
        ys = [x[1] for x in b.args[1]] if b.op == 'nt' else b.args
        if len(xs) != len(ys):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(xs, ys)])
    if a.op in ('tuple', 'list') and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'enum' and b.op == 'enum':
        return FALSE
    if b.op == 'enum':
        a, b = b, a
    if a.op == 'enum':
        if b.op == 'enumof':
            if b.args[0] != a.args[0]:
                return FALSE
            return eq(b.args[2], _enum_value(a))
        if b.op in ('rec', 'nt', 'tuple', 'list', 'dict', 'set', 'fn', 'cls',
                    'obj'):
            return FALSE
        return mk('eq', b, a)
    if a.op == 'enumof' and b.op == 'enumof':
        if a.args[0] != b.args[0]:
            return FALSE
        return eq(a.args[2], b.args[2])
    if a.op == 'ename' and b.op == 'ename' and a.args[0] == b.args[0]:
        return eq(a.args[2], b.args[2])
    if a.op in ('ename', ) or b.op in ('ename', ):
        if a.op != 'ename':
            a, b = b, a
        # name of enumof(E, raw) compared with an opaque name
        return Or(*[
            And(eq(a.args[2], v), eq(const(n), b)) for n, v in a.args[1]
        ])
    if a.op in ('fn', 'cls', 'ext') and b.op in ('fn', 'cls', 'ext'):
        return FALSE
    if a.op == 'beuint' and b.op == 'beuint':
        return mk('eq', *sorted((a, b)))
    sa, sb = static_type(a), static_type(b)
    if sa and sb and sa != sb and not ({sa, sb} <= {'int', 'bool', 'float'}):
        return FALSE
    return mk('eq', *sorted((a, b)))


def _enum_value(e):
    return e.args[2]


def _ename_eq(b, va):
    for n, v in b.args[1]:
        if n == va:
            return eq(b.args[2], v)
    return FALSE


def _cat_eq_const(b, va):
    return mk('eq', b, const(va))


def _lin_eq(a, b):
    d = lin(0, ((a, 1), (b, -1)))
    c, items = linparts(d)
    if not items:
        return const(c == 0)
    if items[0][1] < 0:
        items = tuple((t, -k) for t, k in items)
        c = -c
    s = lin(0, items)
    v = -c
    if s.op == 'len':
        if v < 0:
            return FALSE
        if v == 0:
            return Not(truthy(s.args[0], sized=True))
        inner = s.args[0]
        if inner.op == 'slice':
            _, lo, hi = inner.args
            if hi is not NONE:
                w = lin_add(hi, lo, -1)
                if is_const(w):
                    if cval(w) == v:
                        return le(hi, length(inner.args[0]))
                    if cval(w) < v:
                        return FALSE
    if s.op == 'lin' and len(s.args[1]) == 2 and v == 0:
        (t1, k1), (t2, k2) = s.args[1]
        # len(x[lo:lo+n]) == n with symbolic n
        for (p, kp), (q, kq) in (((t1, k1), (t2, k2)), ((t2, k2), (t1, k1))):
            if p.op == 'len' and p.args[0].op == 'slice' and kp == -kq:
                x, lo, hi = p.args[0].args
                if hi is not NONE and lin_add(hi, lo, -1) is q:
                    return Or(
                        And(lt(const(-1), q), le(hi, length(x))),
                        And(eq(q, const(0))))
    if s.op == 'count' and v == 0:
        return Not(exists(*s.args))
    if s.op == 'beuint' and v < 0:
        return FALSE
    return mk('eq', s, const(v))


# ---------------------------------------------------------------- bits
@builder('bitand')
def bitand(a, b):
    if is_const(a) and is_const(b):
        return const(cval(a) & cval(b))
    if is_const(a):
        a, b = b, a
    if a.op == 'bitand' and is_const(b) and is_const(a.args[1]):
        return bitand(a.args[0], const(cval(a.args[1]) & cval(b)))
    if a.op == 'gamma':
        return gamma(a.args[0], bitand(a.args[1], b), bitand(a.args[2], b))
    if is_const(b) and a.op == 'shr' and is_const(a.args[1]):
        # (x >> k) & m : keep, eq/truthy know it
        return mk('bitand', a, b)
    if not is_const(b):
        a, b = sorted((a, b))
    return mk('bitand', a, b)


def bit(x, k):
    if is_const(x):
        return const(bool(int(cval(x)) >> k & 1))
    if x.gam:
        return lift_atom('bit', (x, k))
    return mk('bit', x, k)


BUILD['bit'] = bit


def _mask_parts(t):
    """(x, shift, mask) for (x >> shift) & mask"""
    a, b = t.args
    if not is_const(b) or not isinstance(cval(b), int):
        return None
    sh = 0
    if a.op == 'shr' and is_const(a.args[1]):
        sh = cval(a.args[1])
        a = a.args[0]
    return a, sh, cval(b)


def _bit_truthy(t):
    p = _mask_parts(t)
    if p is None:
        return mk('truthy', t)
    x, sh, m = p
    if m < 0:
        return mk('truthy', t)
    return Or(*[bit(x, i + sh) for i in range(m.bit_length()) if m >> i & 1])


def _bit_eq(t, v):
    p = _mask_parts(t)
    if p is None or p[2] < 0:
        return mk('eq', t, const(v))
    x, sh, m = p
    if v & ~m or v < 0:
        return FALSE
    fs = []
    for i in range(m.bit_length()):
        if m >> i & 1:
            b = bit(x, i + sh)
            fs.append(b if v >> i & 1 else Not(b))
    return And(*fs)


# ---------------------------------------------------------------- truthiness
@builder('truthy')
def truthy(t, sized=False):
    if t.gam:
        return lift_atom('truthy', (t, ))
    if is_formula(t):
        return t
    if t.op == 'copied':
        return truthy(t.args[0], sized)
    if is_const(t):
        return const(bool(cval(t)))
    if t.op in ('tuple', 'list', 'set', 'dict'):
        return const(bool(t.args))
    if t.op in ('rec', 'nt', 'enum', 'enumof', 'cls', 'fn', 'ext', 'mod',
                'closure', 'bm', 'obj', 'digest', 'ename'):
        return TRUE
    if t.op == 'comp':
        coll, lvl, kind, val, cond = t.args
        return exists(coll, lvl, cond)
    if t.op in ('keys', ):
        return truthy(t.args[0])
    if t.op in ('aslist', 'asset'):
        return truthy(norm_coll(t), True)
    if t.op == 'len':
        return truthy(t.args[0], True)
    if t.op in ('lin', 'beuint', 'toint'):
        return Not(eq(t, const(0)))
    if t.op == 'count':
        return exists(*t.args)
    if t.op == 'bitand':
        return _bit_truthy(t)
    if t.op == 'slice':
        a, lo, hi = t.args
        if hi is NONE:
            return lt(lo, length(a))
        w = lin_add(hi, lo, -1)
        if is_const(w):
            return lt(lo, length(a)) if cval(w) > 0 else FALSE
        return And(lt(lo, length(a)), lt(const(0), w))
    if t.op == 'cat':
        return Or(*[truthy(x) for x in t.args])
    if t.op == 'setdiff':
        # nonempty difference
        coll, other = t.args
        if coll.op == 'set':
            return Or(*[Not(contains_member(x, other)) for x in coll.args])
        lvl = 0
        e = elem(coll, lvl)
        return exists(coll, lvl, Not(contains_member(e, other)))
    return mk('truthy', t)


# ---------------------------------------------------------------- collections
def elem(coll, lvl=0):
    return mk('elem', coll, lvl)


@builder('elem')
def _elem_build(coll, lvl):
    coll = norm_coll(coll)
    if coll.op == 'values':
        return item(coll.args[0], elem(keys(coll.args[0]), lvl))
    return mk('elem', coll, lvl)


def norm_coll(c):
    """The collection as far as quantification over its members goes."""
    while c.op == 'aslist' or (c.op == 'asset'):
        c = c.args[0]
    return c


@builder('keys')
def keys(d):
    if d.op == 'gamma':
        return gamma(d.args[0], keys(d.args[1]), keys(d.args[2]))
    return mk('keys', d)


@builder('exists')
def exists(coll, lvl, body):
    c = norm_coll(coll)
    if c is not coll:
        e = elem(coll, lvl)
        if e in body.elems:
            body = subst(body, {e: elem(c, lvl)})
        coll = c
    if body is FALSE:
        return FALSE
    if coll.gam:
        return lift_atom('exists', (coll, lvl, body))
    if body is TRUE:
        return truthy(coll, sized=True)
    if coll.op in ('tuple', 'list', 'set') or (coll.op == 'const'):
        e = elem(coll, lvl)
        its = coll.args if coll.op != 'const' else tuple(
            const(x) for x in cval(coll))
        return Or(*[subst(body, {e: x}) for x in its])
    if coll.op == 'comp':
        c2, l2, kind, val, cond = coll.args
        if kind in ('list', 'set', 'gen'):
            b = subst(body, {elem(coll, lvl): val})
            return exists(c2, l2, And(cond, b))
    if body.op == 'or':
        return Or(*[exists(coll, lvl, b) for b in body.args])
    if body.op == 'and':
        e = elem(coll, lvl)
        free = [b for b in body.args if e not in b.elems]
        if free:
            rest = [b for b in body.args if e in b.elems]
            return And(*free, exists(coll, lvl, And(*rest)))
    elif elem(coll, lvl) not in body.elems:
        return And(body, truthy(coll, sized=True))
    return mk('exists', coll, lvl, body)


def forall(coll, lvl, body):
    return Not(exists(coll, lvl, Not(body)))


def contains_member(x, coll):
    """x in coll, for a collection (not a string)."""
    if coll.gam:
        g = first_gamma(coll)
        if coll.op == 'gamma':
            c, a, b = coll.args
            return Ite(c, contains_member(x, a), contains_member(x, b))
    if coll.op in ('tuple', 'list', 'set'):
        return Or(*[eq(x, y) for y in coll.args])
    if coll.op == 'dict':
        return Or(*[eq(x, k) for k, v in coll.args])
    if coll.op == 'keys':
        return has(coll.args[0], x)
    if coll.op == 'nt':
        return Or(*[eq(x, v) for n, v in coll.args[1]])
    if coll.op == 'comp':
        c2, l2, kind, val, cond = coll.args
        if kind == 'dict':
            val = val.args[0]
        return exists(c2, l2, And(cond, eq(val, x)))
    if coll.op == 'setunion':
        return Or(*[contains_member(x, c) for c in coll.args])
    if coll.op == 'setdiff':
        return And(contains_member(x, coll.args[0]),
                   Not(contains_member(x, coll.args[1])))
    if coll.op == 'cat':
        return Or(*[contains_member(x, c) for c in coll.args])
    coll = norm_coll(coll)
    lvl = 0
    while elem(coll, lvl) in x.elems:
        lvl += 1
    return exists(coll, lvl, eq(elem(coll, lvl), x))


@builder('has')
def has(d, k):
    if d.gam or k.gam:
        return lift_atom('has', (d, k))
    if d.op == 'dict':
        return Or(*[eq(k, x) for x, v in d.args])
    if k.op == 'elem' and k.args[0].op == 'keys' and k.args[0].args[0] is d:
        return TRUE
    if d.op == 'comp' and d.args[2] == 'dict':
        return contains_member(k, d)
    return mk('has', d, k)


@builder('item')
def item(d, k):
    if d.op == 'gamma':
        return gamma(d.args[0], item(d.args[1], k), item(d.args[2], k))
    if k.op == 'gamma':
        return gamma(k.args[0], item(d, k.args[1]), item(d, k.args[2]))
    if d.op in ('tuple', 'list') and is_const(k) and isinstance(
            cval(k), int):
        i = cval(k)
        if -len(d.args) <= i < len(d.args):
            return d.args[i]
    if d.op == 'nt' and is_const(k) and isinstance(cval(k), int):
        i = cval(k)
        if -len(d.args[1]) <= i < len(d.args[1]):
            return d.args[1][i][1]
    if d.op == 'dict':
        for kk, v in d.args:
            if kk is k:
                return v
        if is_const(k) and all(is_const(kk) for kk, v in d.args):
            for kk, v in d.args:
                if cval(kk) == cval(k):
                    return v
            return NONE
    if d.op == 'const' and is_const(k) and isinstance(cval(d), (str, bytes)):
        try:
            return const(cval(d)[cval(k)])
        except Exception:
            pass
    if k.op == 'idx':
        # seq[index of the generic element]
        if k.args[0] is d:
            return mk('elem', d, k.args[1])
    if k.op == 'elem' and k.args[0].op == 'range':
        r = k.args[0].args
        if len(r) == 1 and r[0].op == 'len' and r[0].args[0] is d:
            return mk('elem', d, k.args[1])
    return mk('item', d, k)


@builder('cat')
def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            ps = p.args
        else:
            ps = (p, )
        for q in ps:
            if is_const(q) and cval(q) in (b'', '') and len(parts) > 1:
                continue
            if out and is_const(q) and is_const(
                    out[-1]) and q.args[0] == out[-1].args[0]:
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    # adjacent slices of one buffer
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if a.op == 'slice' and b.op == 'slice' and a.args[0] is b.args[0] \
                and a.args[2] is b.args[1] and a.args[2] is not NONE:
            out[i:i + 2] = [slice_(a.args[0], a.args[1], b.args[2])]
        else:
            i += 1
    if not out:
        return parts[0] if parts else const('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


@builder('slice')
def slice_(a, lo, hi):
    """a[lo:hi]; lo a nonnegative int term, hi a term or NONE."""
    if a.op == 'gamma':
        return gamma(a.args[0], slice_(a.args[1], lo, hi),
                     slice_(a.args[2], lo, hi))
    if is_const(a) and is_const(lo) and is_const(hi):
        try:
            return const(cval(a)[cval(lo):cval(hi)])
        except Exception:
            pass
    if a.op == 'slice':
        b, l2, h2 = a.args
        nlo = lin_add(l2, lo)
        if hi is NONE:
            return slice_(b, nlo, h2)
        nhi = lin_add(l2, hi)
        if h2 is NONE:
            return slice_(b, nlo, nhi)
        d = lin_add(h2, nhi, -1)
        if is_const(d):
            return slice_(b, nlo, nhi if cval(d) >= 0 else h2)
    if lo is const(0) and hi is NONE:
        return a
    if a.op == 'list' or a.op == 'tuple':
        if is_const(lo) and is_const(hi):
            return mk(a.op, *a.args[cval(lo):cval(hi)])
    return mk('slice', a, lo, hi)


@builder('beuint')
def beuint(b):
    if is_const(b):
        return const(int.from_bytes(cval(b), 'big'))
    if b.op == 'gamma':
        return gamma(b.args[0], beuint(b.args[1]), beuint(b.args[2]))
    return mk('beuint', b)


def count_(coll, lvl, cond):
    return mk('count', norm_coll(coll), lvl, cond)


# ---------------------------------------------------------------- same
def same(a, b):
    """Structural equality of two frozen values, as a formula; the second
    one is the reference."""
    if a is b:
        return TRUE
    if a.gam or b.gam:
        g = first_gamma(a if a.gam else b)
        c = g.args[0]
        return Ite(c, same(choose_guard(a, c, True), choose_guard(b, c, True)),
                   same(choose_guard(a, c, False), choose_guard(b, c, False)))
    if a.op == 'rec' and b.op == 'rec':
        # b may leave members of a open, not the other way round
        if a.args[0] != b.args[0]:
            return FALSE
        da, db = dict(a.args[1]), dict(b.args[1])
        if not set(db) <= set(da):
            return FALSE
        return And(*[same(da[k], db[k]) for k in db])
    if a.op == 'nt' and b.op == 'nt':
        if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
            return FALSE
        return And(*[
            And(const(x[0] == y[0]), same(x[1], y[1]))
            for x, y in zip(a.args[1], b.args[1])
        ])
    if a.op == b.op and a.op in ('tuple', 'list'):
        if len(a.args) != len(b.args):
            return FALSE
        return And(*[same(x, y) for x, y in zip(a.args, b.args)])
    if a.op == b.op == 'cbordump' and all(
            k == 'canonical' for k, v in a.args[1]):
        return same(a.args[0], b.args[0])
    if a.op == 'dict' and b.op == 'dict':
        da, db = dict(a.args), dict(b.args)
        if set(da) != set(db):
            return FALSE
        return And(*[same(da[k], db[k]) for k in da])
    if a.op == 'comp' and b.op == 'comp':
        c1, l1, k1, v1, d1 = a.args
        c2, l2, k2, v2, d2 = b.args
        if c1 is c2 and k1 == k2:
            if l1 != l2:
                v2 = subst(v2, {elem(c2, l2): elem(c1, l1)})
                d2 = subst(d2, {elem(c2, l2): elem(c1, l1)})
            return forall(c1, l1, And(Iff(d1, d2),
                                      Implies(d1, same(v1, v2))))
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == 'enumof' and b.op == 'enumof' and a.args[0] == b.args[0]:
        return eq(a.args[2], b.args[2])
    if {a.op, b.op} & {'rec'} and not ({a.op, b.op} & {
            'param', 'attr', 'item', 'call', 'mcall', 'cb', 'elem', 'unk',
            'app', 'choose', 'last', 'copied'
    }):
        return FALSE
    return eq(a, b)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 9:
        return '…'
    if type(t) is tuple:
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if type(t) is not T:
        return str(t)
    o, a = t.op, t.args
    if o == 'const':
        return repr(cval(t)) if o == 'const' else ''
    s = lambda x: show(x, d + 1)
    if o == 'param':
        return a[0]
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'not':
        x = a[0]
        if x.op == 'eq':
            return '%s != %s' % (s(x.args[0]), s(x.args[1]))
        return 'not(%s)' % s(x)
    if o == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'lt':
        return '%s < %s' % (s(a[0]), s(a[1]))
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(s(x) for x in a[:12]) + (
            ' …' if len(a) > 12 else '') + ')'
    if o == 'gamma':
        return '{%s if %s else %s}' % (s(a[1]), s(a[0]), s(a[2]))
    if o == 'slice':
        return '%s[%s:%s]' % (s(a[0]), s(a[1]),
                              '' if a[2] is NONE else s(a[2]))
    if o == 'cat':
        return '(' + ' ++ '.join(s(x) for x in a) + ')'
    if o == 'lin':
        return '(' + ' + '.join([str(a[0])] + [
            ('%s*' % k if k != 1 else '') + s(x) for x, k in a[1]
        ]) + ')'
    if o == 'exists':
        return 'any(%s for elem in %s)' % (s(a[2]), s(a[0]))
    if o == 'elem':
        return 'elem(%s)' % s(a[0])
    if o in ('ext', 'cls', 'fn', 'mod'):
        return str(a[0])
    if o == 'enum':
        return '%s.%s' % (a[0].split('.')[-1] if '.' not in a[0] else
                          a[0].split(':')[-1], a[1])
    if o == 'enumof':
        return '%s(%s)' % (a[0].split(':')[-1], s(a[2]))
    if o == 'ename':
        return '%s(%s).name' % (a[0].split(':')[-1], s(a[2]))
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + [
            '%s=%s' % (k, s(v)) for k, v in a[2]
        ]))
    if o == 'cb':
        return 'registrar.%s(%s)' % (a[0], ', '.join('%s=%s' % (k, s(v))
                                                     for k, v in a[1]))
    if o == 'mcall':
        return '%s.%s(%s)' % (s(a[0]), a[1], ', '.join(
            [s(x) for x in a[2]] + ['%s=%s' % (k, s(v)) for k, v in a[3]]))
    if o == 'rec':
        return '%s(%s)' % (a[0].split(':')[-1], ', '.join(
            '%s=%s' % (k, s(v)) for k, v in a[1]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
