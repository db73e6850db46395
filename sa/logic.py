"""Entailment between the analysis' facts: propagation plus bounded splits.

A goal G follows from facts F when asserting F and not G is contradictory.
Literals live in an assignment with a small theory (equalities with constants,
types, integer bounds, map membership, quantifiers over one collection).
Nothing is searched beyond the disjunctions already present in the facts, with
a bound on the number of splits; running out means "not entailed".
"""
import time

from .terms import (BINDERS, FALSE, NONE, TRUE, And, Not, Or, T, const, cval,
                    elem, eq, exists, has, is_const, item, keys, length,
                    lin, linparts, lt,
                    mk, never_none, static_type, subst, subterms, truthy)

HIER = None  # set by project: issubclass(a, b) -> True/False/None


class Contra(Exception):
    pass


class Budget(Exception):
    pass


INT_NAMES = ('int', 'bool')


def _isint(v):
    return isinstance(v, int)


class Ctx:
    __slots__ = ('assign', 'parent', 'cls', 'diseq', 'types', 'ntypes',
                 'lo', 'hi', 'notnone', 'pending', 'skol', 'univ', 'queue',
                 'hier', 'keysof', 'insts', 'dirty', 'exist', 'isin', 'occ',
                 'lins')

    def __init__(self, hier):
        self.assign = {}
        self.lins = ()
        self.parent = {}
        self.cls = {}
        self.diseq = {}
        self.types = {}
        self.ntypes = {}
        self.lo = {}
        self.hi = {}
        self.notnone = set()
        self.pending = []
        self.skol = {}
        self.univ = {}
        self.queue = []
        self.hier = hier
        self.keysof = {}
        self.insts = set()
        self.dirty = True
        self.exist = {}
        self.isin = {}
        self.occ = {}

    def copy(self):
        c = Ctx(self.hier)
        c.assign = dict(self.assign)
        c.parent = dict(self.parent)
        c.cls = dict(self.cls)
        c.diseq = {k: set(v) for k, v in self.diseq.items()}
        c.types = dict(self.types)
        c.ntypes = {k: set(v) for k, v in self.ntypes.items()}
        c.lo = dict(self.lo)
        c.hi = dict(self.hi)
        c.notnone = set(self.notnone)
        c.pending = list(self.pending)
        c.skol = {k: list(v) for k, v in self.skol.items()}
        c.univ = {k: list(v) for k, v in self.univ.items()}
        c.queue = list(self.queue)
        c.keysof = {k: list(v) for k, v in self.keysof.items()}
        c.insts = set(self.insts)
        c.exist = dict(self.exist)
        c.isin = {k: dict(v) for k, v in self.isin.items()}
        c.lins = self.lins
        return c

    # -- union find
    def find(self, t):
        p = self.parent
        while t in p:
            t = p[t]
        return t

    def const_of(self, t):
        if is_const(t) or t.op == 'enum':
            return t
        return self.cls.get(self.find(t))

    # -- evaluation of one atom under what is known
    def atom(self, f):
        v = self.assign.get(f)
        if v is not None:
            return v
        op = f.op
        if op == 'eq':
            a, b = f.args
            return self.eq_val(a, b)
        if op == 'lt':
            s, b = f.args
            r = self.find(s)
            c = self.const_of(s)
            if is_const(b) and _isint(cval(b)):
                k = cval(b)
                if c is not None and is_const(c) and _isint(cval(c)):
                    return cval(c) < k
                hi = self.hi.get(r)
                if hi is not None and hi < k:
                    return True
                lo = self.lo.get(r)
                if lo is None and s.op in ('len', 'beuint', 'count'):
                    lo = 0
                if lo is not None and lo >= k:
                    return False
                if s.op == 'lin':
                    lo2, hi2 = self.lin_bounds(s)
                    if hi2 is not None and hi2 < k:
                        return True
                    if lo2 is not None and lo2 >= k:
                        return False
            return None
        if op == 'truthy':
            x = f.args[0]
            c = self.const_of(x)
            if c is not None:
                if c.op == 'enum':
                    return True
                return bool(cval(c))
            r = self.find(x)
            L = mk('len', x)
            v = self.lo.get(self.find(L))
            if v is not None and v >= 1:
                return True
            c = self.const_of(L)
            if c is not None and is_const(c) and _isint(cval(c)):
                return cval(c) > 0
            return None
        if op == 'typeis':
            x, t = f.args
            c = self.const_of(x)
            if c is not None:
                if c.op == 'enum':
                    return None
                if c.args[0] in ('int', 'bool', 'float'):
                    # == does not separate 1, True and 1.0
                    if t not in ('int', 'bool', 'float'):
                        return False
                    ty = self.types.get(self.find(x))
                    if ty:
                        return ty == t
                    return None
                return c.args[0] == t
            ty = self.types.get(self.find(x))
            if ty is None:
                ty = static_type(x)
            if ty is not None:
                return ty == t
            if t in self.ntypes.get(self.find(x), ()):
                return False
            for C, val in self.isin.get(self.find(x), {}).items():
                s = self.hier(t, C)
                if val and s is False:
                    return False
                if not val and s is True:
                    return False
            if t == 'NoneType' and self.find(x) in self.notnone:
                return False
            return None
        if op == 'isinst':
            x, C = f.args
            c = self.const_of(x)
            ty = None
            if c is not None and is_const(c):
                ty = c.args[0]
                if ty in ('int', 'bool', 'float'):
                    ty = None
                    if self.hier('int', C) is False and self.hier(
                            'float', C) is False:
                        return False
            if ty is None:
                ty = self.types.get(self.find(x)) or static_type(x)
            if ty is not None:
                return self.hier(ty, C)
            for D, val in self.isin.get(self.find(x), {}).items():
                if val:
                    if self.hier(D, C) is True:
                        return True
                    if self.hier.disjoint(D, C):
                        return False
                else:
                    if self.hier(C, D) is True:
                        return False
            return None
        if op == 'has':
            d, k = f.args
            it = item(d, k)
            if it.op == 'item' and self.is_notnone(it):
                return True
            return None
        if op == 'exists':
            return None
        if op == 'bit':
            c = self.const_of(f.args[0])
            if c is not None and is_const(c) and _isint(cval(c)):
                return bool(cval(c) >> f.args[1] & 1)
            return None
        return None

    def apart(self, s):
        """a difference of two integers that are not equal is not 0"""
        items = s.args[1]
        if len(items) != 2 or items[0][1] != -items[1][1] or abs(
                items[0][1]) != 1 or s.args[0] != 0:
            return
        r = self.find(s)
        if items[0][1] < 0 and r not in self.lo and r not in self.hi:
            s = lin(0, tuple((t, -k) for t, k in items))
            r = self.find(s)
        lo, hi = self.lo.get(r), self.hi.get(r)
        if lo != 0 and hi != 0:
            return
        a, b = items[0][0], items[1][0]
        if self.find(b) in self.diseq.get(self.find(a), ()):
            if lo == 0:
                self.set_lo(r, 1)
            if hi == 0:
                self.set_hi(r, -1)

    def lin_bounds(self, s):
        lo = hi = s.args[0]
        for t, k in s.args[1]:
            r = self.find(t)
            c = self.const_of(t)
            if c is not None and is_const(c) and _isint(cval(c)):
                l = h = cval(c)
            else:
                l, h = self.lo.get(r), self.hi.get(r)
                if l is None and t.op in ('len', 'beuint', 'count',
                                          'cborend'):
                    l = 0
                if h is None and t.op == 'beuint' and t.args[
                        0].op == 'slice':
                    w = t.args[0]
                    wd = linparts(w.args[2]), linparts(w.args[1])
                    if w.args[2] is not NONE and wd[0][1] == wd[1][1]:
                        h = 256**(wd[0][0] - wd[1][0]) - 1
            if k > 0:
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
            else:
                lo, hi = (None if lo is None or h is None else lo + k * h,
                          None if hi is None or l is None else hi + k * l)
        return lo, hi

    def is_notnone(self, t):
        if never_none(t):
            return True
        r = self.find(t)
        if r in self.notnone or r in self.types and self.types[
                r] != 'NoneType':
            return True
        c = self.cls.get(r)
        if c is not None:
            return c is not NONE
        return False

    def eq_val(self, a, b):
        ra, rb = self.find(a), self.find(b)
        if ra is rb:
            return True
        ca, cb = self.const_of(a), self.const_of(b)
        if ca is not None and cb is not None:
            if ca.op == 'enum' or cb.op == 'enum':
                return ca is cb
            try:
                return bool(cval(ca) == cval(cb))
            except Exception:
                return False
        if rb in self.diseq.get(ra, ()):
            return False
        for x, y in ((a, cb), (b, ca)):
            if y is None:
                continue
            if y is NONE:
                if self.is_notnone(x):
                    return False
                continue
            r = self.find(x)
            ty = self.types.get(r) or static_type(x)
            if ty is not None and y.op == 'const':
                ct = y.args[0]
                if ct in ('int', 'bool', 'float'):
                    if ty not in ('int', 'bool', 'float'):
                        if ty in ('str', 'bytes', 'dict', 'list', 'tuple',
                                  'NoneType', 'set'):
                            return False
                elif ty != ct and ty in ('str', 'bytes', 'dict', 'list',
                                         'tuple', 'NoneType', 'set', 'int',
                                         'bool', 'float'):
                    return False
            if y.op == 'const' and _isint(cval(y)):
                lo, hi = self.lo.get(r), self.hi.get(r)
                if lo is not None and cval(y) < lo:
                    return False
                if hi is not None and cval(y) > hi:
                    return False
                if lo is not None and lo == hi == cval(y):
                    return True
            tv = self.assign.get(mk('truthy', x))
            if tv is not None and y.op == 'const' and bool(cval(y)) != tv:
                return False
        return None

    def val(self, f, memo=None):
        """True/False/None.  memo: what is already decided about shared
        parts, for as long as nothing is asserted in between."""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        op = f.op
        if op == 'not':
            v = self.val(f.args[0], memo)
            return None if v is None else not v
        if op != 'and' and op != 'or':
            return self.atom(f)
        if memo is None:
            memo = {}
        k = (f, 'v')
        r = memo.get(k, memo)
        if r is not memo:
            return r
        stop = op == 'or'
        r = not stop
        for x in f.args:
            v = self.val(x, memo)
            if v is stop:
                r = stop
                break
            if v is None:
                r = None
        memo[k] = r
        return r

    def simp(self, f, memo=None):
        """f with decided parts removed"""
        op = f.op
        if op == 'and' or op == 'or':
            if memo is None:
                memo = {}
            r = memo.get(f)
            if r is None:
                r = memo[f] = self._simp(f, op, memo)
            return r
        v = self.val(f, memo)
        if v is None:
            return f
        return TRUE if v else FALSE

    def _simp(self, f, op, memo):
        out = []
        ch = False
        for x in f.args:
            y = self.simp(x, memo)
            if y is (FALSE if op == 'and' else TRUE):
                return y
            if y is not x:
                ch = True
            if y is not (TRUE if op == 'and' else FALSE):
                out.append(y)
            else:
                ch = True
        if not ch:
            return f
        return (And if op == 'and' else Or)(*out)

    # -- assertion
    def put(self, f):
        self.queue.append(f)

    def run(self):
        n = 0
        while True:
            while self.queue:
                f = self.queue.pop()
                self._assert(f)
                n += 1
                if n > 60000:
                    raise Budget()
            # re-simplify pending disjunctions
            changed = False
            if self.dirty:
                self.dirty = False
                self.check_lins()
                pend = self.pending
                self.pending = []
                memo = {}
                for f in pend:
                    g = self.simp(f, memo)
                    if g is FALSE:
                        raise Contra()
                    if g is TRUE:
                        continue
                    if g.op == 'or':
                        self.pending.append(g)
                    else:
                        self.queue.append(g)
                        changed = True
            if not self.queue and not self.dirty:
                return
            if not changed and not self.queue and not self.dirty:
                return

    def _assert(self, f):
        if f is TRUE:
            return
        if f is FALSE:
            raise Contra()
        op = f.op
        if op == 'and':
            self.queue.extend(f.args)
            return
        if op == 'or':
            g = self.simp(f)
            if g is TRUE:
                return
            if g is FALSE:
                raise Contra()
            if g.op == 'or':
                self.pending.append(g)
            else:
                self.queue.append(g)
            return
        val = True
        if op == 'not':
            f = f.args[0]
            val = False
            if f.op in ('and', 'or'):
                self.queue.append(Not(f))
                return
        self.lit(f, val)

    def lit(self, f, val):
        known = self.atom(f)
        if known is not None and known != val:
            raise Contra()
        if self.assign.get(f) is not None:
            return
        self.assign[f] = val
        self.dirty = True
        op = f.op
        if op == 'eq':
            a, b = f.args
            if val:
                self.merge(a, b)
                for x, y in ((a, b), (b, a)):
                    if x.op == 'item' and y is NONE:
                        pass
            else:
                ra, rb = self.find(a), self.find(b)
                self.diseq.setdefault(ra, set()).add(rb)
                self.diseq.setdefault(rb, set()).add(ra)
                if b is NONE:
                    self.set_notnone(a)
                if not is_const(a) and not is_const(b) and not (
                        static_type(a) or static_type(b)) in (
                            'str', 'bytes', 'dict', 'list', 'tuple'):
                    s = lin(0, ((a, 1), (b, -1)))
                    if s.op == 'lin':
                        self.apart(s)
                if is_const(b) and _isint(cval(b)):
                    k = cval(b)
                    r = ra
                    if self.lo.get(r) == k:
                        self.set_lo(r, k + 1)
                    if self.hi.get(r) == k:
                        self.set_hi(r, k - 1)
        elif op == 'lt':
            s, b = f.args
            if is_const(b) and _isint(cval(b)):
                k = cval(b)
                r = self.find(s)
                if val:
                    self.set_hi(r, k - 1)
                else:
                    self.set_lo(r, k)
                if s.op == 'lin':
                    self.prop_lin(s)
                    self.apart(s)
        elif op == 'truthy':
            if val:
                self.set_notnone(f.args[0])
            x = f.args[0]
            if x.op == 'item':
                pass
            if val and self.univ.get(x):
                self.some_member(x)
        elif op == 'typeis':
            x, t = f.args
            r = self.find(x)
            if val:
                self.set_type(r, t)
            else:
                self.ntypes.setdefault(r, set()).add(t)
                if t == 'NoneType':
                    self.set_notnone(x)
        elif op == 'isinst':
            x, C = f.args
            r = self.find(x)
            self.isin.setdefault(r, {})[C] = val
            if val:
                self.set_notnone(x)
        elif op == 'ok':
            t = f.args[0]
            if val and type(t) is T and t.op == 'cborload':
                # a decoded item lies within its buffer
                end = mk('cborend', *t.args[:2])
                self.put(Not(lt(length(t.args[0]), end)))
                self.put(lt(t.args[1], end))
        elif op == 'has':
            d, k = f.args
            if not val:
                it = item(d, k)
                self.put(eq(it, NONE))
            else:
                self.add_member(keys(d), k)
        elif op == 'exists':
            coll, lvl, body = f.args
            if val:
                e = elem(coll, lvl)
                # the whole instance facts: witness term
                w = mk('witness', f)
                self.put(truthy(coll))
                b = subst(body, {e: w})
                if coll.op == 'keys':
                    b = self._keyfacts(b, coll, w)
                self.put(b)
                self.add_member(coll, w)
            else:
                u = self.univ.setdefault(coll, [])
                u.append((lvl, body))
                for w in self.skol.get(coll, ()):
                    self.put(Not(subst(body, {elem(coll, lvl): w})))
                if self.assign.get(truthy(coll)) is True:
                    self.some_member(coll)

    def _keyfacts(self, b, coll, w):
        return And(b, mk('has', coll.args[0], w))

    def some_member(self, coll):
        """a nonempty collection that something holds throughout"""
        if not self.skol.get(coll):
            self.add_member(coll, mk('witness', truthy(coll)))

    def add_member(self, coll, w):
        lst = self.skol.setdefault(coll, [])
        if w in lst:
            return
        lst.append(w)
        for lvl, body in self.univ.get(coll, ()):
            self.put(Not(subst(body, {elem(coll, lvl): w})))

    def set_notnone(self, t):
        r = self.find(t)
        if self.cls.get(r) is NONE:
            raise Contra()
        if r not in self.notnone:
            self.notnone.add(r)
            self.dirty = True
        if t.op == 'item' and t not in self.insts:
            self.insts.add(t)
            self.put(has(*t.args))

    def set_type(self, r, t):
        old = self.types.get(r)
        if old is not None:
            if old != t:
                raise Contra()
            return
        if t in self.ntypes.get(r, ()):
            raise Contra()
        c = self.cls.get(r)
        if c is not None and c.op == 'const':
            ct = c.args[0]
            if ct != t and not (ct in ('int', 'bool', 'float')
                                and t in ('int', 'bool', 'float')):
                raise Contra()
        for C, val in self.isin.get(r, {}).items():
            s = self.hier(t, C)
            if s is not None and s != val:
                raise Contra()
        self.types[r] = t
        if t != 'NoneType' and r.op == 'item':
            self.set_notnone(r)
        if t == 'NoneType':
            self.put(eq(r, NONE))
        else:
            self.set_notnone(r)
        self.dirty = True

    def prop_lin(self, s):
        if s not in self.lins:
            self.lins += (s, )

    def check_lins(self):
        for s in self.lins:
            r = self.find(s)
            lo, hi = self.lo.get(r), self.hi.get(r)
            l, h = self.lin_bounds(s)
            if l is not None and hi is not None and l > hi or \
                    h is not None and lo is not None and h < lo:
                raise Contra()

    def set_lo(self, r, k):
        o = self.lo.get(r)
        if o is None or k > o:
            self.lo[r] = k
            self.bounds(r)
            self.dirty = True

    def set_hi(self, r, k):
        o = self.hi.get(r)
        if o is None or k < o:
            self.hi[r] = k
            self.bounds(r)
            self.dirty = True

    def bounds(self, r):
        lo, hi = self.lo.get(r), self.hi.get(r)
        if lo is not None and hi is not None:
            if lo > hi:
                raise Contra()
            if lo == hi and self.cls.get(r) is None:
                self.put(mk('eq', r, const(lo)))
        c = self.cls.get(r)
        if c is not None and c.op == 'const' and _isint(cval(c)):
            v = cval(c)
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Contra()
        d = self.diseq.get(r)
        if d:
            for x in d:
                if is_const(x) and _isint(cval(x)):
                    if cval(x) == lo:
                        self.set_lo(r, lo + 1)
                        return
                    if cval(x) == hi:
                        self.set_hi(r, hi - 1)
                        return

    def merge(self, a, b):
        ra, rb = self.find(a), self.find(b)
        if ra is rb:
            return
        if is_const(ra) or ra.op == 'enum':
            ra, rb = rb, ra
        # ra joins rb
        if rb in self.diseq.get(ra, ()):
            raise Contra()
        ca, cb = self.const_of(ra), self.const_of(rb)
        if ca is not None and cb is not None and ca is not cb:
            if ca.op == 'enum' or cb.op == 'enum' or not cval(ca) == cval(cb):
                raise Contra()
        # mutual constraints through eq_val style checks
        self.parent[ra] = rb
        c = cb or ca
        if c is not None:
            self.cls[rb] = c
        for x in self.diseq.pop(ra, ()):
            self.diseq.setdefault(rb, set()).add(x)
            s = self.diseq.get(x)
            if s is not None:
                s.discard(ra)
                s.add(rb)
        ta = self.types.pop(ra, None)
        nta = self.ntypes.pop(ra, None)
        ia = self.isin.pop(ra, None)
        nn = ra in self.notnone
        la, ha = self.lo.pop(ra, None), self.hi.pop(ra, None)
        if nta:
            self.ntypes.setdefault(rb, set()).update(nta)
            if self.types.get(rb) in nta:
                raise Contra()
        if ia:
            self.isin.setdefault(rb, {}).update(ia)
        if ta is not None:
            self.set_type(rb, ta)
        if c is not None and c.op == 'const':
            ty = self.types.get(rb) or static_type(ra)
            ct = c.args[0]
            if ty and ty != ct and not (ty in ('int', 'bool', 'float')
                                        and ct in ('int', 'bool', 'float')):
                raise Contra()
            if ct in self.ntypes.get(rb, ()) and ct not in ('int', 'bool',
                                                           'float'):
                raise Contra()
            for C, val in self.isin.get(rb, {}).items():
                if ct in ('int', 'bool', 'float'):
                    continue
                s = self.hier(ct, C)
                if s is not None and s != val:
                    raise Contra()
            for x in (a, b, ra):
                tv = self.assign.get(mk('truthy', x))
                if tv is not None and bool(cval(c)) != tv:
                    raise Contra()
        if nn or (rb in self.notnone):
            self.notnone.add(rb)
            if c is NONE:
                raise Contra()
        if c is NONE and (never_none(ra) or never_none(rb) and rb is not NONE):
            raise Contra()
        if la is not None:
            self.set_lo(rb, la)
        if ha is not None:
            self.set_hi(rb, ha)
        self.bounds(rb)
        self.dirty = True


_ATOMS = {}


def atoms_of(f):
    r = f._atoms
    if r is None:
        if f.op in ('and', 'or', 'not'):
            r = frozenset().union(*[atoms_of(x) for x in f.args])
        else:
            r = frozenset((f, ))
        f._atoms = r
    return r


_SUBJ = {}


def subjects(atom):
    """The terms an atom talks about (for relevance)."""
    r = _SUBJ.get(atom)
    if r is None:
        s = set()
        for a in atom.args:
            if type(a) is T and not is_const(a):
                s.add(a)
                if a.op in ('lin', ):
                    for t, k in a.args[1]:
                        s.add(t)
                if a.op in ('len', 'item') and type(a.args[0]) is T:
                    s.add(a)
        if atom.op == 'exists':
            s = {atom.args[0]}
            for x in atoms_of(atom.args[2]):
                s |= {y for y in subjects(x)}
        if atom.op == 'has':
            s = {item(*atom.args), keys(atom.args[0])}
        _SUBJ[atom] = s
        r = s
    return r


def closed(f):
    out = set()
    for a in atoms_of(f):
        out |= subjects(a)
    return out


def prepare(facts, hier):
    """Facts asserted and propagated once: Ctx, or None if contradictory."""
    c = Ctx(hier)
    for f in facts:
        c.put(f)
    try:
        c.run()
    except Contra:
        return None
    return c


class Stats:
    queries = 0
    splits = 0
    budget = 0
    deadline = None


def entails(base, goal, limit=2000):
    """base: result of prepare. True if proved."""
    Stats.queries += 1
    if base is None:
        return True
    if goal is TRUE:
        return True
    if base.val(goal) is True:
        return True
    if goal.op == 'and':
        return all(entails(base, g, limit) for g in goal.args)
    c = base.copy()
    c.put(Not(goal))
    budget = [limit]
    rel = {x: 0 for x in closed(goal)}
    try:
        return _refute(c, rel, budget)
    except Budget:
        Stats.budget += 1
        return False


PROBES = 6


def _refute(c, rel, budget):
    """No assignment satisfies what c says: propagation and case splits on
    the disjunctions that share a subject with the goal (nearest first)."""
    while True:
        try:
            c.run()
        except Contra:
            return True
        budget[0] -= 1
        Stats.splits += 1
        if budget[0] <= 0 or (Stats.deadline is not None
                              and time.monotonic() > Stats.deadline):
            raise Budget()
        cand = []
        for i, f in enumerate(c.pending):
            subj = closed(f)
            lv = min([rel[x] for x in subj if x in rel], default=None)
            if lv is None:
                if not any(x.op == 'witness' for x in subj):
                    continue
                lv = 1
            cand.append(((lv, len(f.args), len(atoms_of(f)), i), f))
        if not cand:
            # nothing relevant by shared subject
            return _congruence(c)
        cand.sort(key=lambda x: x[0])
        # a disjunct that propagation alone refutes is no case
        forced = []
        for k, f in cand[:PROBES]:
            if len(f.args) > 3:
                continue
            for d in f.args:
                p = c.copy()
                p.put(d)
                try:
                    p.run()
                except Contra:
                    forced.append(Not(d))
        if not forced:
            break
        for d in forced:
            c.put(d)
    k, best = cand[0]
    rel2 = dict(rel)
    for x in closed(best):
        rel2.setdefault(x, k[0] + 1)
    d = min(best.args, key=lambda f: len(atoms_of(f)))
    c1 = c.copy()
    c1.put(d)
    if not _refute(c1, rel2, budget):
        return False
    c.put(Not(d))
    return _refute(c, rel2, budget)


def _congruence(c):
    """Last resort at a leaf: equal terms are interchangeable inside others."""
    m = {}
    for a in c.parent:
        b = c.find(a)
        if b is a or a.op not in ('param', 'attr', 'item', 'cb', 'call',
                                  'mcall', 'elem', 'unk', 'app', 'last',
                                  'decode', 'choose'):
            continue
        k = c.const_of(b)
        if k is not None:
            if k.op == 'enum' or is_const(k) and isinstance(
                    cval(k), (str, bytes)):
                m[a] = k
        else:
            m[a] = b
    if not m:
        return False
    c = c.copy()
    n = 0
    for f, v in list(c.assign.items()):
        if not (subterms(f) & m.keys()):
            continue
        g = subst(f, m)
        if g is not f:
            n += 1
            c.put(g if v else Not(g))
    if not n:
        return False
    try:
        c.run()
    except Contra:
        return True
    return False
