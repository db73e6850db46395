"""The abstract interpreter: value numbering with must-facts, interprocedural.

It walks the syntax tree of a function of /repo with abstract values (terms),
joining states wherever control flow joins and treating every loop over an
unknown collection by one generic iteration. Nothing of /repo is executed.
"""
import ast
import struct
import os
from itertools import count

from . import models
from .logic import entails, prepare
from .project import (AnalysisBroken, Cls, Func, ann_type, canon,
                      type_members)
from .state import UNBOUND, Dead, H, State, merge_states
from .terms import (BINDERS, BUILTIN_TYPES, FALSE, NONE, TRUE, ok_of, And, Iff, Implies, Ite, Not,
                    Or, T, beuint, bitand, cat, choose_guard, const,
                    contains_member, count_, cval, elem, eq, exists,
                    first_gamma, forall, gamma, has, is_bool, is_const,
                    is_formula, item, keys, le, leaves, length, lin, lin_add,
                    lt, mentions, mk, never_none, norm_coll, slice_,
                    static_type, subst, subterms, truthy, type_atom)

_oid = count(1)
_uniq = count(1)

ANY = '*'


class Exc:
    """An abstract exception: which classes it may be, and where from."""
    __slots__ = ('classes', 'excl', 'term', 'site', 'explicit', 'origin',
                 'cause')

    def __init__(self, classes, term, site, explicit, origin, excl=(),
                 cause=None):
        self.classes = tuple(classes)
        self.excl = tuple(excl)
        self.term = term
        self.site = site
        self.explicit = explicit
        self.origin = origin
        # the exception being handled when this one was raised
        self.cause = cause

    def narrowed(self, classes, excl):
        return Exc(classes, self.term, self.site, self.explicit, self.origin,
                   excl, self.cause)

    def __repr__(self):
        return '<%s at %s from %s>' % ('/'.join(self.classes), self.site,
                                       self.origin)


class Raise:
    __slots__ = ('state', 'exc')

    def __init__(self, state, exc):
        self.state = state
        self.exc = exc


class K:
    """Where abrupt completions go."""
    __slots__ = ('raises', 'rets', 'brks', 'conts')

    def __init__(self, raises, rets, brks, conts):
        self.raises = raises
        self.rets = rets
        self.brks = brks
        self.conts = conts


class Event:
    __slots__ = ('name', 'args', 'facts', 'prior', 'site', 'term')

    def __init__(self, name, args, facts, prior, site, term):
        self.name = name
        self.args = args
        self.facts = facts
        self.prior = prior
        self.site = site
        self.term = term


class Unsupported(Exception):
    pass


MAX_UNROLL = 130


# classes of decoded values that are an instance of a builtin class
PLAIN = {'str': ('str', ), 'bytes': ('bytes', ), 'dict': ('dict', ),
         'list': ('list', ), 'float': ('float', ), 'int': ('int', 'bool')}


# terms whose parts are references themselves
HOLDERS = ('gamma', 'tuple', 'list', 'set', 'dict', 'nt', 'rec')


class Interp(models.Models):
    def __init__(self, proj, opaque=(), callbacks=(), spec_mods=(),
                 alias=None, recursive=None, apps=None, doubt=False):
        self.p = proj
        # arguments may be of any type: using one may fail
        self.doubt = doubt
        self.hier = proj.hier
        self.opaque = set(opaque)
        self.callbacks = set(callbacks)
        self.spec_mods = set(spec_mods)
        self.alias = alias or {}
        # functions whose calls stay applications of a symbol
        self.apps = apps or {}
        self.entering = None
        # inside a loop body that stands for any number of iterations
        self.nloop = 0
        self.recursed = set()
        self.K = None
        self.ptypes = {}
        self.stack = []
        self.loops = []
        self.closures = {}
        self.cur_exc = []
        self.exc_of = {}
        self.effects = []
        self.yield_hooks = []
        self.thunks = {}
        self.genrun = None
        self.node = None
        self.visited = set()
        self.notes = []
        self.gcache = {}
        self.gbusy = set()
        self.dispatch = None
        self.returns_at = []
        self.reads = []
        self.msgs = {}
        # exceptions whose handler let control continue: (exc, site, facts)
        self.swallowed = []

    # ------------------------------------------------------------ utilities
    def site(self, node=None):
        node = node if node is not None and hasattr(
            node, 'lineno') else self.node
        f = self.stack[-1][0] if self.stack else None
        mod = self.stack[-1][1] if self.stack else None
        path = mod.path if mod is not None else '?'
        path = os.path.relpath(path, self.p.root)
        return '%s:%s (%s)' % (path, getattr(node, 'lineno', '?'),
                               f or '<module>')

    @property
    def spec(self):
        return bool(self.stack) and self.stack[-1][1].name in self.spec_mods

    def note(self, msg):
        m = (self.site(), msg)
        if m not in self.notes:
            self.notes.append(m)

    def effect(self, kind, what):
        e = (kind, what, self.site())
        if e not in self.effects:
            self.effects.append(e)

    def new(self, st, kind, cls, val):
        oid = next(_oid)
        t = mk('obj', oid)
        st.heap[oid] = H(kind, cls, val, self.site())
        return t

    def h(self, st, t):
        if t.op == 'obj':
            return st.heap.get(t.args[0])
        return None

    def fresh_unk(self, tag='unk'):
        return mk('unk', tag, next(_uniq))

    # gamma leaves under the state's knowledge
    def resolve(self, st, t):
        n = 0
        while t.op == 'gamma' and n < 60:
            n += 1
            v = st.val(t.args[0])
            if v is True:
                t = t.args[1]
            elif v is False:
                t = t.args[2]
            else:
                a = self.resolve(st, t.args[1])
                b = self.resolve(st, t.args[2])
                if a is UNBOUND:
                    return b if b is not UNBOUND else UNBOUND
                if b is UNBOUND:
                    return a
                return gamma(t.args[0], a, b)
        return t

    def freeze(self, st, t, seen=None, ref=True):
        """The value without objects. ref: the term stands for a reference
        (so it may have become an object), not for the content of one."""
        if seen is None:
            seen = {}
        moved = st.moved if ref else None
        key = t if ref or not st.moved else (t, )
        if key in seen:
            return seen[key]
        if t.op == 'obj':
            h = st.heap.get(t.args[0])
            if h is None:
                return t
            seen[key] = mk('cyc', t.args[0])
            if h.kind == 'rec':
                r = mk(
                    'rec', h.cls,
                    tuple(
                        sorted((k, self.freeze(st, v, seen))
                               for k, v in h.val.items()
                               if v is not UNBOUND)))
            elif h.kind in ('list', 'set', 'dict'):
                r = self.freeze(st, h.val, seen, False)
            elif h.kind == 'bytesio':
                r = mk('bytesio', *[self.freeze(st, x, seen) for x in h.val])
            elif h.kind == 'iter':
                if type(h.val) is tuple:
                    r = mk('lazy', h.val[1], *[self.freeze(st, x, seen)
                                               for x in h.val[2:]])
                else:
                    r = mk('iter', self.freeze(st, h.val, seen, False))
            elif h.kind == 'hash':
                r = mk('hashobj', h.val[0], self.freeze(st, h.val[1], seen))
            else:
                r = mk('frozenobj', h.kind)
            seen[key] = r
            return r
        if moved and t in moved:
            return self.freeze(st, moved[t], seen)
        if not t.args or t.op == 'const':
            return t
        if not self.has_obj(t) and not (st.moved and t.op in HOLDERS):
            return t
        inner = t.op in ('list', 'set', 'dict', 'tuple', 'nt') or (
            ref and t.op in HOLDERS)

        def go(a):
            if type(a) is T:
                return self.freeze(st, a, seen, inner)
            if type(a) is tuple:
                return tuple(go(x) for x in a)
            return a

        from .terms import rebuild
        r = rebuild(t.op, tuple(go(a) for a in t.args))
        seen[key] = r
        return r

    def relocate(self, st, t):
        """what a reference read now stands for"""
        if t.op == 'gamma':
            a = self.relocate(st, t.args[1])
            b = self.relocate(st, t.args[2])
            if a is not t.args[1] or b is not t.args[2]:
                return gamma(t.args[0], a, b)
            return t
        return st.moved.get(t, t)

    def modified(self, st, t, kind, what):
        """A value from outside is modified in place: the object it becomes
        (None where that cannot be followed)."""
        if t.op not in ('jsonload', 'cborload'):
            self.effect('store', '%s on %s' % (what, self.shared_name(t)))
        if self.nloop or kind is None:
            if not self.nloop:
                st.moved[t] = self.fresh_unk('modified')
            return None
        o = self.new(st, kind, None, t)
        st.moved[t] = o
        return o

    _objcache = {}

    def has_obj(self, t):
        r = self._objcache.get(t)
        if r is not None:
            return r
        r = t.op == 'obj'
        if not r:
            for a in t.args:
                for b in (a if type(a) is tuple else (a, )):
                    for c in (b if type(b) is tuple else (b, )):
                        if type(c) is T and self.has_obj(c):
                            r = True
        self._objcache[t] = r
        return r

    # ------------------------------------------------------------ iterators
    def lazy(self, st, fn, terms, meta=None):
        """an iterator: its elements are computed when it is first used, in
        the state of that moment, and can be used once"""
        n = next(_uniq)
        self.thunks[n] = (fn, self.stack[-1] if self.stack else None, st.fid,
                          meta)
        return self.new(st, 'iter', None, ('thunk', n) + tuple(terms))

    def unknown_rest(self):
        t = self.fresh_unk('iterator')
        self.set_type(t, ('seq', 'list', ('any', )))
        return t

    def isiter(self, st, v):
        h = self.h(st, v)
        return h is not None and h.kind == 'iter'

    def force(self, st, v):
        h = st.heap[v.args[0]]
        if type(h.val) is not tuple:
            return h.val
        fn, frame, fid, meta = self.thunks[h.val[1]]
        st.heap[v.args[0]] = h.with_val(self.unknown_rest())
        save = st.fid
        if fid in st.frames:
            st.fid = fid
        if frame is not None:
            self.stack.append(frame)
        try:
            c = fn(st, h.val[2:])
        finally:
            st.fid = save
            if frame is not None:
                self.stack.pop()
        st.heap[v.args[0]] = h.with_val(c)
        return c

    def take(self, st, v, partial=False):
        """what an iterator still yields; it is used up by this. Any other
        value is returned as it is."""
        v = self.resolve(st, v)
        if v.op == 'gamma':
            if any(self.isiter(st, x) for g, x in leaves(v)):
                return self.on_leaves(st, v,
                                      lambda s, x: self.take(s, x, partial))
            return v
        if not self.isiter(st, v):
            return v
        c = self.force(st, v)
        st.heap[v.args[0]] = st.heap[v.args[0]].with_val(
            self.unknown_rest() if partial else mk('list'))
        return c

    # ------------------------------------------------------------ raising
    def raise_if(self, st, cond, classes, origin, explicit=False, term=None,
                 implicit_spec=True, excl=()):
        """Control leaves with an exception when cond holds."""
        if self.spec and implicit_spec and not explicit:
            return
        v = st.val(cond)
        if v is False:
            return
        if v is None and st.soft and not explicit:
            c = st.ctx.copy()
            from .logic import Contra
            try:
                for f in st.soft:
                    c.put(f)
                c.put(cond)
                c.run()
            except Contra:
                if not st.assume(Not(cond)):
                    raise Dead()
                return
        if v is None and not explicit and entails(st.ctx, Not(cond), 60):
            st.assume(Not(cond))
            return
        s2 = st.copy()
        if s2.guard(cond):
            t = term if term is not None else mk('exc', next(_uniq))
            e = Exc(classes, t, self.site(), explicit, origin, excl)
            self.exc_of[t] = e
            self.K.raises.append(Raise(s2, e))
        if not st.guard(Not(cond)):
            raise Dead()

    def soft_dead(self, st):
        """unreachable while assertions are enabled: the assertion that
        excludes it already accounts for this exit"""
        if not st.soft:
            return False
        from .logic import Contra
        c = st.ctx.copy()
        try:
            for f in st.soft:
                c.put(f)
            c.run()
        except Contra:
            return True
        return False

    def raise_now(self, st, exc):
        if all(':' not in x for x in exc.classes) and self.soft_dead(st):
            raise Dead()
        self.K.raises.append(Raise(st.copy(), exc))
        raise Dead()

    def may_raise(self, st, call, classes, origin, excl=()):
        """An uninterpreted operation: ok(call) or one of the classes."""
        ok = ok_of(call)
        if self.spec:
            if not st.guard(ok):
                raise Dead()
            return
        v = st.val(ok)
        if v is True:
            return
        t = mk('excof', call)
        e = Exc(classes, t, self.site(), False, origin, excl)
        self.exc_of[t] = e
        s2 = st.copy()
        if s2.guard(Not(ok)):
            self.K.raises.append(Raise(s2, e))
        if not st.guard(ok):
            raise Dead()

    def from_argument(self, t):
        while t.op in ('attr', 'item', 'elem', 'witness'):
            t = t.args[0]
        return t.op == 'param' and t.args[0] not in ('self', 'cls')

    def doubted(self, st, t, use, classes):
        if self.doubt and not self.spec and self.from_argument(t):
            self.may_raise(st, mk('doubt', t, use), classes,
                           '%s of an argument of the wrong type' % use)

    # ------------------------------------------------------------ forks
    def branch(self, st, cond, fa, fb):
        """Run fa on the cond side and fb on the other; join; gamma values."""
        cond = self.lower(st, cond)
        v = st.val(cond)
        if v is None and len(st.facts) and entails(st.ctx, cond, 40):
            st.assume(cond)
            v = True
        elif v is None and entails(st.ctx, Not(cond), 40):
            st.assume(Not(cond))
            v = False
        if v is True:
            return fa(st)
        if v is False:
            return fb(st)
        s2 = st.copy()
        out = []
        for s, c, f in ((st, cond, fa), (s2, Not(cond), fb)):
            try:
                if s.guard(c):
                    r = f(s)
                    s.frames[s.fid]['$v'] = r if r is not None else NONE
                    out.append(s if s is not st else st.copy())
            except Dead:
                pass
        if not out:
            raise Dead()
        m = merge_states(out)
        r = m.frames[m.fid].pop('$v')
        st.become(m)
        return r

    def lower(self, st, f):
        return f

    def on_leaves(self, st, t, fn):
        """fn(state, leaf) for each alternative of a gated value."""
        t = self.resolve(st, t)
        if t.op != 'gamma':
            return fn(st, t)
        c, a, b = t.args
        return self.branch(st, c, lambda s: self.on_leaves(s, a, fn),
                           lambda s: self.on_leaves(s, b, fn))

    def lift(self, st, v):
        """the same collection for iteration, with conditionals outermost"""
        v = self.resolve(st, v)
        h = self.h(st, v)
        if h is not None and h.kind != 'rec' and type(h.val) is T:
            inner = self.lift(st, h.val)
            return inner if inner.op == 'gamma' else v
        if v.op == 'gamma':
            c, a, b = v.args
            return gamma(c, self.lift(st, a), self.lift(st, b))
        if v.op in ('enumerate', 'items', 'values', 'keys', 'reversed',
                    'aslist', 'asset', 'iter'):
            inner = self.lift(st, v.args[0])
            if inner.op == 'gamma':
                return self.map_leaves(
                    st, inner,
                    lambda x: self.lift(st, mk(v.op, x, *v.args[1:])))
        if v.op == 'comp' and v.args[0].op == 'gamma':
            c, l, kind, val, cond = v.args

            def over(x):
                m = {elem(c, l): elem(x, l), mk('idx', c, l): mk(
                    'idx', x, l)}
                return mk('comp', x, l, kind, subst(val, m), subst(cond, m))

            return self.map_leaves(st, c, over)
        if v.gam and v.op in ('item', 'attr', 'elem', 'cborload', 'jsonload',
                              'slice', 'keys', 'items', 'values'):
            g = first_gamma(v)
            if g is not None:
                c = g.args[0]
                a, b = choose_guard(v, c, True), choose_guard(v, c, False)
                if a is not v and b is not v:
                    return gamma(c, self.lift(st, a), self.lift(st, b))
        return v

    def map_leaves(self, st, t, fn):
        """pure version: fn(leaf) -> term, no state change"""
        t = self.resolve(st, t)
        if t.op == 'gamma':
            c, a, b = t.args
            return gamma(c, self.map_leaves(st, a, fn),
                         self.map_leaves(st, b, fn))
        return fn(t)

    # ------------------------------------------------------------ types
    def init_nodes(self, k, f, anns):
        """nodes of a constructor and of the helpers it hands itself to:
        (node, name of the instance, annotated values by name, module)"""
        seen = set()

        def go(f, me, anns):
            if f.qual in seen:
                return
            seen.add(f.qual)
            for n in ast.walk(f.node):
                yield n, me, anns, f.mod
                if not isinstance(n, ast.Call):
                    continue
                g, args = None, list(n.args)
                if isinstance(n.func, ast.Name):
                    g = self.p.funcs.get('%s:%s' % (f.mod.name, n.func.id))
                elif isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.value.id == me:
                    e = k.attrs.get(n.func.attr)
                    if e is not None and e[0] == 'func':
                        g, args = e[1], [n.func.value] + args
                if g is None:
                    continue
                ps = [a.arg for a in g.node.args.posonlyargs +
                      g.node.args.args]
                given = list(zip(ps, args)) + [
                    (w.arg, w.value) for w in n.keywords if w.arg]
                given = [(a, v.id) for a, v in given
                         if isinstance(v, ast.Name)]
                mine = [a for a, v in given if v == me]
                if len(mine) == 1:
                    yield from go(g, mine[0], {
                        a: anns[v] for a, v in given if v in anns})

        args = f.node.args.posonlyargs + f.node.args.args
        return go(f, args[0].arg if args else 'self',
                  {a: (a, x) for a, x in anns.items()})

    def field_type(self, c, name):
        """declared type of attribute name of class c"""
        key = (c.qual, name)
        r = self.gcache.get(('ft', key))
        if r is not None:
            return r
        r = ('any', )
        mro = self.hier.mro(c)
        narrow = None
        for i, k in enumerate(mro):
            if name in k.ann:
                r = ann_type(self.p, k.mod, k.ann[name])
                break
            e = k.attrs.get('__init__')
            if e is None or e[0] != 'func':
                continue
            f = e[1]
            anns = {}
            for a in (f.node.args.posonlyargs + f.node.args.args +
                      f.node.args.kwonlyargs):
                anns[a.arg] = a.annotation
            hit = None
            for n, me, anns2, mod in self.init_nodes(k, f, anns):
                tgt = val = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign):
                    tgt, val = n.target, n.value
                if isinstance(tgt, ast.Attribute) and isinstance(
                        tgt.value,
                        ast.Name) and tgt.value.id == me and \
                        tgt.attr == name:
                    if isinstance(n, ast.AnnAssign):
                        hit = ann_type(self.p, mod, n.annotation)
                    elif isinstance(val, ast.Name) and val.id in anns2:
                        own, an = anns2[val.id]
                        hit = ann_type(self.p, k.mod, an)
                        if narrow is not None and own in narrow:
                            # handed over by a derived constructor
                            hit = narrow[own]
            if hit is not None:
                r = hit
                break
            # what the next constructor is given
            got = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute
                ) and n.func.attr == '__init__' and isinstance(
                        n.func.value, ast.Call) and isinstance(
                            n.func.value.func,
                            ast.Name) and n.func.value.func.id == 'super':
                    for w in n.keywords:
                        if isinstance(w.value, ast.Name) and \
                                w.value.id in anns and \
                                anns[w.value.id] is not None:
                            t = ann_type(self.p, k.mod, anns[w.value.id])
                            if narrow is not None and w.value.id in narrow:
                                t = narrow[w.value.id]
                            got[w.arg] = t
            narrow = got
        self.gcache[('ft', key)] = r
        if r == ('any', ) and name not in self.class_fields(c):
            # only a subclass can have it
            outs = []
            for k in self.p.classes.values():
                if k is not c and k.mod.name not in self.spec_mods and \
                        c in self.hier.mro(k):
                    outs.append(self.field_type(k, name))
            if outs:
                outs = [o for o in outs if o != ('any', )] if any(
                    o != ('any', ) for o in outs) else outs
                r = self.mkunion(
                    [m for o in outs for m in type_members(o)])
                self.gcache[('ft', key)] = r
        return r

    def class_fields(self, c):
        """names assigned to self in constructors, and annotated fields"""
        key = ('cf', c.qual)
        if key in self.gcache:
            return self.gcache[key]
        out = []
        for k in self.hier.mro(c):
            for n in k.ann:
                out.append(n)
            for an, e in k.attrs.items():
                if e[0] == 'func':
                    for n, me, _, _ in self.init_nodes(k, e[1], {}):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.ctx, ast.Store) and isinstance(
                                    n.value, ast.Name) and n.value.id == me:
                            out.append(n.attr)
        r = set(out)
        self.gcache[key] = r
        return r

    def dtype(self, t):
        """declared (trusted) type of an opaque term"""
        r = self.ptypes.get(t)
        if r is not None:
            return r
        r = self._dtype(t)
        self.ptypes[t] = r
        return r

    def _dtype(self, t):
        op = t.op
        if op == 'slice':
            d = self.dtype(t.args[0])
            if d[0] == 'seq' or d in (('ext', 'str'), ('ext', 'bytes')):
                return d
        if op == 'comp' and t.args[2] in ('list', 'set'):
            return ('seq', t.args[2], self.dtype(t.args[3]))
        st = static_type(t)
        if st:
            return ('ext', st)
        if op in ('rec', 'nt', 'enumof', 'enum'):
            return ('cls', t.args[0])
        if op == 'attr':
            b = self.dtype(t.args[0])
            outs = []
            for m in type_members(b):
                if m[0] == 'cls':
                    c = self.p.classes.get(m[1])
                    if c is not None:
                        if c.kind == 'enum':
                            ft = self.enum_attr_type(c, t.args[1])
                        else:
                            ft = self.field_type(c, t.args[1])
                        outs.extend(type_members(ft))
                    else:
                        outs.append(('any', ))
                elif m == ('ext', 'NoneType'):
                    continue
                elif m[0] == 'ext':
                    outs.append(self.ext_attr_type(m[1], t.args[1]))
                else:
                    outs.append(('any', ))
            return self.mkunion(outs)
        if op in ('elem', 'choose', 'last', 'witness'):
            c = t.args[0]
            if op == 'witness':
                c = c.args[0]
            return self.elem_type(c)
        if op == 'item':
            b = self.dtype(t.args[0])
            outs = []
            for m in type_members(b):
                if m[0] == 'tup' and is_const(t.args[1]) and isinstance(
                        cval(t.args[1]), int) and -len(
                            m[1]) <= cval(t.args[1]) < len(m[1]):
                    outs.extend(type_members(m[1][cval(t.args[1])]))
                elif m[0] == 'seq':
                    outs.extend(type_members(m[2]))
                elif m[0] == 'ext' and m[1] == 'str':
                    outs.append(('ext', 'str'))
                elif m[0] == 'ext' and m[1] == 'bytes':
                    outs.append(('ext', 'int'))
                else:
                    outs.append(('any', ))
            return self.mkunion(outs)
        if op in ('call', 'mcall', 'cb', 'app'):
            r = self.call_type(t)
            return r
        if op == 'gamma':
            return self.mkunion(
                list(type_members(self.dtype(t.args[1]))) +
                list(type_members(self.dtype(t.args[2]))))
        if op in ('copied', 'aslist'):
            return self.dtype(t.args[0])
        if op == 'urlparse':
            return ('ext', 'urllib.parse.ParseResult')
        return ('any', )

    def enum_attr_type(self, c, name):
        if name in ('value', '_value_'):
            ms = self.enum_members(c)
            ts = {static_type(v) for n, v in ms}
            if len(ts) == 1 and None not in ts:
                return ('ext', ts.pop())
        if name in ('name', '_name_'):
            return ('ext', 'str')
        return ('any', )

    def elem_type(self, c):
        op = c.op
        if op in ('aslist', 'asset'):
            return self.elem_type(c.args[0])
        b = self.dtype(c)
        outs = []
        for m in type_members(b):
            if m[0] == 'seq':
                outs.extend(type_members(m[2]))
            elif m == ('ext', 'str'):
                outs.append(('ext', 'str'))
            elif m == ('ext', 'bytes'):
                outs.append(('ext', 'int'))
            elif m == ('ext', 'NoneType'):
                pass
            elif m[0] == 'tup':
                for x in m[1]:
                    outs.extend(type_members(x))
            else:
                outs.append(('any', ))
        # a union of str and Collection[str]: elements are strings
        return self.mkunion(outs)

    def mkunion(self, ts):
        out = []
        for t in ts:
            for m in type_members(t):
                if m not in out:
                    out.append(m)
        if not out or ('any', ) in out:
            return ('any', )
        return out[0] if len(out) == 1 else ('union', tuple(out))

    def set_type(self, t, ty):
        self.ptypes[t] = ty

    def maybe_none(self, st, t):
        """condition under which an alternative is None"""
        if never_none(t) or t.op in ('obj', 'mod'):
            return FALSE
        if t is NONE:
            return TRUE
        f = eq(t, NONE)
        v = st.val(f)
        if v is not None:
            return TRUE if v else FALSE
        d = self.dtype(t)
        if d == ('any', ):
            return f if t.op in ('item', 'unk', 'param', 'phi', 'elem',
                                 'attr') else FALSE
        if ('ext', 'NoneType') in type_members(d):
            return f
        return FALSE

    def isinst(self, st, t, C):
        """formula: t (a leaf) is an instance of class name C"""
        if C == 'object':
            return TRUE
        h = self.h(st, t)
        ty = None
        if h is not None:
            ty = h.cls if h.kind == 'rec' else {
                'bytesio': 'io.BytesIO'
            }.get(h.kind, h.kind)
        elif t.op in ('rec', 'nt', 'enum', 'enumof'):
            ty = t.args[0]
        elif t.op == 'exc' or t.op == 'excof':
            e = self.exc_of.get(t)
            if e is not None:
                rs = {self.hier(c, C) if c != ANY else None
                      for c in e.classes}
                if rs == {True}:
                    return TRUE
                if rs == {False}:
                    return FALSE
            return type_atom('isinst', t, C)
        else:
            ty = static_type(t)
        if t.op == 'nt' and C == 'tuple':
            return TRUE
        if ty is not None:
            r = self.hier(ty, C)
            if r is not None:
                return TRUE if r else FALSE
            return type_atom('isinst', t, C)
        if t.op in ('fn', 'closure', 'bm', 'sdisp', 'partial'):
            return FALSE if C in ('str', 'bytes', 'int', 'dict', 'list',
                                  'tuple') else type_atom('isinst', t, C)
        if t.op == 'cls':
            return TRUE if C == 'type' else FALSE
        d = self.dtype(t)
        if d != ('any', ):
            rs = []
            for m in type_members(d):
                rs.append(self.member_isinst(m, C))
            if all(r is True for r in rs):
                return TRUE
            if all(r is False for r in rs):
                return FALSE
            if C != 'NoneType' and len(rs) == 2 and \
                    ('ext', 'NoneType') in type_members(d):
                rest = [
                    r for m, r in zip(type_members(d), rs)
                    if m != ('ext', 'NoneType')
                ]
                if all(r is True for r in rest):
                    return Not(eq(t, NONE))
        if C == 'NoneType':
            return eq(t, NONE)
        if C == 'bool':
            # bool cannot be subclassed
            return type_atom('typeis', t, C)
        if C in PLAIN and self.decoded(t):
            return Or(*[type_atom('typeis', t, x) for x in PLAIN[C]])
        return type_atom('isinst', t, C)

    def decoded(self, t):
        """part of a value produced by a JSON or CBOR decoder, or of a
        dictionary given to a parser: builtin values are of the exact class"""
        while t.op in ('item', 'elem', 'values', 'keys', 'copied', 'aslist'):
            t = t.args[0]
            if t.op in ('jsonload', 'cborload'):
                return True
            if t.op == 'param':
                d = self.dtype(t)
                return d[0] == 'map' or d == ('ext', 'dict') or (
                    'union' in d and any(m[0] == 'map' or m == ('ext', 'dict')
                                         for m in type_members(d)))
        return t.op in ('jsonload', 'cborload')

    def member_isinst(self, m, C):
        if m[0] == 'cls':
            c = self.p.classes.get(m[1])
            r = self.hier(m[1], C)
            if r is True:
                return True
            if self.hier(C, m[1]) is False and r is False:
                return False
            if c is not None and c.kind == 'enum' and r is False:
                return False
            return None
        if m[0] == 'ext':
            r = self.hier(m[1], C)
            if r is True:
                return True
            if r is False and self.hier(C, m[1]) is False:
                return False
            return None
        if m[0] == 'seq':
            if m[1] in ('list', 'set', 'tuple', 'frozenset'):
                r = self.hier(m[1], C)
                return r
            if C in ('dict', 'int', 'bool', 'float', 'NoneType'):
                return False
            if C in self.p.classes:
                return False
            if C in ('collections.abc.%s' % m[1], 'typing.%s' % m[1]):
                return True
            return None
        if m[0] == 'map':
            return self.hier('dict', C)
        if m[0] == 'tup':
            return self.hier('tuple', C)
        return None

    def typeis(self, st, t, name):
        """formula: type(t) is name"""
        h = self.h(st, t)
        if h is not None:
            ty = h.cls if h.kind == 'rec' else {
                'bytesio': 'io.BytesIO'
            }.get(h.kind, h.kind)
            return TRUE if ty == name else FALSE
        if t.op == 'copied':
            return self.typeis(st, t.args[0], name)
        if t.op in ('rec', 'nt', 'enum', 'enumof'):
            return TRUE if t.args[0] == name else FALSE
        ty = static_type(t)
        if ty is not None:
            return TRUE if ty == name else FALSE
        if t.op in ('cls', ):
            return TRUE if name == 'type' else FALSE
        d = self.dtype(t)
        if d != ('any', ):
            rs = []
            for m in type_members(d):
                if m[0] == 'ext' and m[1] in ('str', 'bytes', 'int', 'bool',
                                              'float', 'NoneType'):
                    # declared builtin types: the exact class
                    rs.append(m[1] == name)
                elif m[0] == 'map':
                    rs.append(True if name == 'dict' else False)
                elif m[0] == 'cls' and name not in self.p.classes:
                    rs.append(False)
                else:
                    r = self.member_isinst(m, name)
                    rs.append(False if r is False else None)
            if all(r is True for r in rs):
                return TRUE
            if all(r is False for r in rs):
                return FALSE
        return type_atom('typeis', t, name)

    def type_name(self, t):
        """class name of a class-valued term"""
        if t.op == 'cls':
            return t.args[0]
        if t.op == 'ext':
            return t.args[0]
        if t is NONE:
            return 'NoneType'
        if t.op == 'typeof' and t.args[0] is NONE:
            return 'NoneType'
        return None

    # ------------------------------------------------------------ truth
    def truth(self, st, t):
        t = self.resolve(st, t)
        if is_formula(t):
            return t
        if t.op == 'gamma':
            c, a, b = t.args
            return Ite(c, self.truth(st, a), self.truth(st, b))
        h = self.h(st, t)
        if h is not None:
            if h.kind in ('list', 'set', 'dict'):
                return truthy(self.freeze(st, h.val), True) if h.val.op not in (
                    'list', 'set', 'dict', 'tuple') else (
                        TRUE if h.val.args else FALSE)
            return TRUE
        if t.op == 'keys':
            return truthy(t)
        if t.op in ('param', 'attr', 'item', 'elem', 'call', 'mcall', 'cb',
                    'choose', 'last', 'copied'):
            d = self.dtype(t)
            ms = type_members(d)
            if d != ('any', ):
                # objects without __bool__/__len__ are true unless None
                objs = [m for m in ms if m[0] == 'cls']
                if len(objs) + (('ext', 'NoneType') in ms) == len(ms):
                    ok = True
                    for m in objs:
                        c = self.p.classes.get(m[1])
                        if c is None or self.lookup_cls(
                                c, '__bool__') or self.lookup_cls(
                                    c, '__len__') or c.kind == 'namedtuple':
                            ok = ok and c is not None and c.kind == \
                                'namedtuple'
                    if ok:
                        return Not(eq(t, NONE)) if ('ext', 'NoneType') in ms \
                            else TRUE
        if t.op in ('exc', 'excof', 'typeof', 'sdisp', 'partial', 'super'):
            return TRUE
        return truthy(t)

    # ------------------------------------------------------------ names
    def lookup_name(self, st, name, node):
        fid = st.fid
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                break
            v = fr.get(name)
            if v is not None:
                v = self.resolve(st, v)
                if v is UNBOUND:
                    self.raise_if(st, TRUE, ('UnboundLocalError', ),
                                  'read of unbound local %s' % name)
                return v
            fid = fr.get('$parent')
        mod = self.stack[-1][1]
        g = st.frames.get('$G')
        if g is not None and (mod.name, name) in g:
            return g[(mod.name, name)]
        if self.p.resolve_name(mod, name) is None and not self.spec and \
                name != '__name__':
            self.raise_if(st, TRUE, ('NameError', ),
                          'name %s is not defined' % name)
            raise Dead()
        return self.global_value(mod, name)

    def global_value(self, mod, name):
        r = self.p.resolve_name(mod, name)
        if r is None:
            if name in ('__name__', ):
                return const(mod.name)
            raise AnalysisBroken('name %s is not defined in %s' %
                                 (name, mod.name))
        return self.entry_value(r, mod, name)

    def entry_value(self, r, mod, name):
        kind = r[0]
        if kind == 'class':
            return self.class_value(r[1])
        if kind == 'func':
            return self.func_value(r[1])
        if kind == 'ext':
            return self.ext_value(r[1])
        if kind == 'module':
            return mk('mod', r[1])
        if kind in ('expr', 'unpack'):
            e, m = r[1], r[2]
            key = ('glob', id(e[1]), e[2] if kind == 'unpack' else None)
            if key in self.gcache:
                return self.gcache[key]
            if key in self.gbusy:
                return self.fresh_unk('cyclic global')
            self.gbusy.add(key)
            try:
                v = self.eval_static(m, e[1], '%s.%s' % (m.name, name))
                if kind == 'unpack':
                    v = item(v, const(e[2]))
            finally:
                self.gbusy.discard(key)
            self.gcache[key] = v
            return v
        raise AnalysisBroken('cannot resolve %s' % name)

    def eval_static(self, mod, node, what, frame=None):
        """Evaluate a module or class level expression."""
        st = State(self.hier)
        st.frames[0] = dict(frame or {})
        st.frames[0]['$parent'] = None
        st.fid = 0
        saveK, save_stack, saven = self.K, self.stack, self.node
        self.K = K([], [], [], [])
        self.stack = [(what, mod)]
        try:
            v = self.eval(node, st)
            v = self.freeze(st, v)
            self.mutable_static(v)
            return v
        except Dead:
            return self.fresh_unk(what)
        except RecursionError:
            raise
        finally:
            self.K, self.stack, self.node = saveK, save_stack, saven

    def mutable_static(self, v):
        pass

    def ext_value(self, name):
        name = canon(name)
        c = models.EXT_CONST.get(name)
        if c is not None:
            return c
        return mk('ext', name)

    def class_value(self, c):
        if c.qual in self.alias:
            return mk('cls', self.alias[c.qual])
        # class decorators other than dataclass are not modelled
        return mk('cls', c.qual)

    def func_value(self, f):
        key = ('fv', f.qual, id(f.node))
        if key in self.gcache:
            return self.gcache[key]
        v = mk('fn', f.qual)
        cur = self.p.funcs.get(f.qual)
        if cur is not f:
            # shadowed definition
            q = f.qual + '#%d' % f.node.lineno
            self.p.funcs[q] = f
            v = mk('fn', q)
        self.gcache[key] = v
        for d in reversed(f.decorators):
            v = self.decorate(f, d, v)
        self.gcache[key] = v
        return v

    def decorate(self, f, d, v):
        target = d.func if isinstance(d, ast.Call) else d
        name = ''
        if isinstance(target, ast.Attribute):
            name = target.attr
        r = self.p.resolve_expr(f.mod, target)
        if r is not None and r[0] == 'ext':
            n = r[1]
            if n in ('functools.singledispatch', ):
                return mk('sdisp', v.args[0] if v.op == 'fn' else f.qual)
            if n in ('property', 'staticmethod', 'classmethod',
                     'typing.overload', 'abc.abstractmethod',
                     'functools.wraps', 'typing.no_type_check',
                     'typing.final',
                     'typing_extensions.final', 'typing.override'):
                return v
            if n in ('functools.lru_cache', 'functools.cache',
                     'functools.cached_property'):
                self.effects.append(
                    ('cache', '%s memoises its results' % f.qual,
                     '%s:%s (%s)' % (os.path.relpath(f.mod.path, self.p.root),
                                     f.node.lineno, f.name)))
                return v
            if n in ('contextlib.contextmanager', ):
                return mk('ctxfn', v)
        if name == 'register' or name in ('setter', 'getter', 'deleter'):
            return v
        if r is not None and r[0] == 'func':
            # a decorator of the repository: apply it
            st = State(self.hier)
            st.frames[0] = {'$parent': None}
            st.fid = 0
            saveK, ss = self.K, self.stack
            self.K = K([], [], [], [])
            self.stack = [(f.qual, f.mod)]
            try:
                dv = self.eval(d, st)
                w = self.call(st, dv, (v, ), (), d)
                # keep the closure frames alive
                self.static_frames(st)
                return w
            except Dead:
                return v
            finally:
                self.K, self.stack = saveK, ss
        return mk('decorated', v, ast.unparse(d))

    def static_frames(self, st):
        store = self.gcache.setdefault('sframes', {})
        for fid, fr in st.frames.items():
            if fid != 0:
                # what they hold outlives every call: a value, not an object
                # of the call
                store[fid] = {
                    k: self.freeze(st, v)
                    if type(v) is T and not k.startswith('$') else v
                    for k, v in fr.items()}
        hs = self.gcache.setdefault('sheap', {})
        hs.update(st.heap)

    # ------------------------------------------------------------ classes
    def lookup_cls(self, c, name, after=None):
        """(Cls, entry) along the mro"""
        seen = after is None
        for k in self.hier.mro(c):
            if not seen:
                if k is after:
                    seen = True
                continue
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def ext_bases(self, c):
        out = []
        for k in self.hier.mro(c):
            for b in k.bases:
                if isinstance(b, str) and b != 'object':
                    out.append(b)
        return out

    def enum_members(self, c):
        """((name, value term)...) canonical members, aliases dropped"""
        key = ('enum', c.qual)
        if key in self.gcache:
            return self.gcache[key]
        out = []
        vals = {}
        frame = {}
        for n in c.order:
            e = c.attrs.get(n)
            if e is None or e[0] != 'expr':
                continue
            if n.startswith('__') or n in ('_ignore_', '_order_'):
                continue
            v = self.eval_static(c.mod, e[1], c.qual + '.' + n, frame)
            if v.op in ('fn', 'closure', 'sdisp'):
                continue  # functions are methods, not members
            if v.op == 'unk' or v.op == 'call' and v.args[0].op == 'ext' and \
                    v.args[0].args[0] == 'enum.auto':
                v = const(len(out) + 1)
            frame[n] = v
            if v not in vals:
                vals[v] = n
                out.append((n, v))
        r = tuple(out)
        self.gcache[key] = r
        self.gcache[('enumalias', c.qual)] = {
            n: vals[frame[n]]
            for n in frame
        }
        return r

    def cls_attr(self, st, c, name, node):
        """attribute of a class object"""
        if c.kind == 'enum':
            ms = self.enum_members(c)
            al = self.gcache[('enumalias', c.qual)]
            if name in al:
                n = al[name]
                return mk('enum', c.qual, n, dict(ms)[n])
            if name == '__members__':
                return mk(
                    'dict',
                    *[(const(n), mk('enum', c.qual, n, v)) for n, v in ms])
        r = self.lookup_cls(c, name)
        if r is not None:
            k, e = r
            if e[0] == 'func':
                f = e[1]
                decs = self.dec_names(f)
                v = self.func_value(f)
                if 'classmethod' in decs:
                    return mk('bm', mk('cls', c.qual), v)
                return v
            if e[0] == 'class':
                return mk('cls', e[1].qual)
            if e[0] == 'expr':
                key = ('cattr', id(e[1]))
                if key not in self.gcache:
                    self.gcache[key] = self.eval_static(
                        k.mod, e[1], k.qual + '.' + name,
                        self.class_frame(k, e[1]))
                return self.gcache[key]
        if name == '__name__':
            return const(c.name)
        if name in ('__qualname__', ):
            return const(c.qual.split(':')[1])
        if name == '__module__':
            return const(c.mod.name)
        if name == '_fields' and c.kind == 'namedtuple':
            return mk('tuple', *[const(n) for n in self.nt_fields(c)])
        if name == '_make' and c.kind == 'namedtuple':
            return mk('bm', mk('cls', c.qual), '_make')
        if c.meta is not None and isinstance(c.meta, Cls):
            r = self.lookup_cls(c.meta, name)
            if r is not None and r[1][0] == 'func':
                return mk('bm', mk('cls', c.qual), self.func_value(r[1][1]))
        if name == 'register' and any('abc' in b for b in self.ext_bases(c)):
            return mk('ext', 'abc.register')
        eb = self.ext_bases(c)
        if any(b not in ('object', 'enum.Enum', 'typing.NamedTuple',
                         'Exception', 'ValueError', 'KeyError')
               for b in eb) or name in ('__init__', '__new__', '__dict__',
                                        '__doc__', '__mro__', '__bases__',
                                        '__subclasses__', '__call__'):
            return mk('attr', mk('cls', c.qual), name)
        return None

    def class_frame(self, k, node):
        fr = {}
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        for n in names & set(k.attrs):
            e = k.attrs[n]
            if e[0] == 'func':
                fr[n] = self.func_value(e[1])
            elif e[0] == 'class':
                fr[n] = mk('cls', e[1].qual)
            elif e[0] == 'expr' and e[1] is not node:
                fr[n] = self.eval_static(k.mod, e[1], k.qual + '.' + n,
                                         self.class_frame(k, e[1]))
        return fr

    def nt_fields(self, c):
        return [n for n in c.order if n in c.ann]

    def dec_names(self, f):
        out = set()
        for d in f.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            if isinstance(t, ast.Name):
                out.add(t.id)
            elif isinstance(t, ast.Attribute):
                out.add(t.attr)
        return out

    # ------------------------------------------------------------ attributes
    def get_attr(self, st, t, name, node, default=None):
        t = self.resolve(st, t)
        if t.op == 'gamma':
            # a pure field read of every alternative needs no fork
            r = self.pure_attr(st, t, name)
            if r is not None:
                return r
            c, a, b = t.args
            return self.branch(
                st, c, lambda s: self.get_attr(s, a, name, node, default),
                lambda s: self.get_attr(s, b, name, node, default))
        return self.leaf_attr(st, t, name, node, default)

    def pure_attr(self, st, t, name):
        if t.op == 'gamma':
            a = self.pure_attr(st, t.args[1], name)
            if a is None:
                return None
            b = self.pure_attr(st, t.args[2], name)
            if b is None:
                return None
            return gamma(t.args[0], a, b)
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[
                0] == 'struct.Struct' and is_const(t.args[1][0]):
            try:
                if name == 'size':
                    return const(struct.calcsize(cval(t.args[1][0])))
            except struct.error:
                pass
            if name == 'format':
                return t.args[1][0]
        h = self.h(st, t)
        if h is not None and h.kind == 'rec':
            v = h.val.get(name)
            if v is not None and v is not UNBOUND:
                return v
            return None
        if t.op in ('rec', 'nt'):
            for n, v in t.args[1]:
                if n == name:
                    return v
        if t.op == 'enum':
            if name == 'value':
                return t.args[2]
            if name == 'name':
                return const(t.args[1])
        if t.op == 'enumof':
            if name == 'value':
                return t.args[2]
            if name == 'name':
                return mk('ename', *t.args)
        return None

    def attr_error(self, st, cond, t, name, default):
        """AttributeError when cond (returns default gated if given)"""
        self.raise_if(st, cond, ('AttributeError', ),
                      'attribute %s of a value that may lack it' % name)

    def leaf_attr(self, st, t, name, node, default=None):
        if t.op == 'call' and name in ('size', 'format'):
            r = self.pure_attr(st, t, name)
            if r is not None:
                return r
        r = self.leaf_attr0(st, t, name, node)
        if r is None:
            if default is not None:
                return default
            if self.spec:
                return NONE
            self.raise_if(st, TRUE, ('AttributeError', ),
                          'attribute %s does not exist here' % name)
            raise Dead()
        return r

    def leaf_attr0(self, st, t, name, node):
        """value, or None when the attribute certainly does not exist"""
        p = self.pure_attr(st, t, name)
        if p is not None:
            return p
        h = self.h(st, t)
        if h is not None:
            if h.kind == 'rec':
                v = h.val.get(name)
                if v is not None:
                    return v
                if name == '__dict__':
                    return mk('objdict', t)
                c = self.p.classes.get(h.cls)
                if c is None:
                    return mk('attr', t, name)
                return self.inst_attr(st, c, t, name, node)
            if h.kind == 'exc':
                return mk('attr', t, name)
            return mk('bm', t, name)
        op = t.op
        if op == 'const':
            if t is NONE:
                if name in ('__class__', '__doc__'):
                    return mk('typeof', t)
                return None
            ty = {'int': int, 'str': str, 'bytes': bytes, 'float': float,
                  'bool': bool, 'NoneType': type(None)}.get(t.args[0])
            if ty is not None and not hasattr(ty, name):
                return None
            return mk('bm', t, name)
        if op == 'rec':
            c = self.p.classes.get(t.args[0])
            if name == '__dict__':
                return mk('objdict', t)
            if c is not None:
                return self.inst_attr(st, c, t, name, node)
            return mk('attr', t, name)
        if op == 'nt':
            c = self.p.classes.get(t.args[0])
            if name in ('_replace', '_asdict', 'index', 'count', '_fields'):
                if name == '_fields':
                    return mk('tuple', *[const(n) for n, v in t.args[1]])
                return mk('bm', t, name)
            return self.inst_attr(st, c, t, name, node)
        if op in ('enum', 'enumof'):
            c = self.p.classes.get(t.args[0])
            if name in ('_value_', ):
                return t.args[2]
            if name in ('_name_', ):
                return self.pure_attr(st, t, 'name')
            return self.inst_attr(st, c, t, name, node)
        if op == 'cls':
            c = self.p.classes.get(t.args[0])
            return self.cls_attr(st, c, name, node)
        if op == 'mod':
            return self.mod_attr(t.args[0], name)
        if op == 'ext':
            last = t.args[0].rpartition('.')[2]
            if name == '__name__' and (last[:1].isupper() or
                                       t.args[0] in BUILTIN_TYPES):
                return const(last)
            return self.ext_value(t.args[0] + '.' + name)
        if op in ('fn', 'sdisp', 'closure', 'partial', 'ctxfn', 'decorated'):
            if op == 'sdisp' and name in ('register', 'dispatch', 'registry'):
                return mk('bm', t, name)
            if name == '__name__' and op in ('fn', 'sdisp'):
                return const(t.args[0].split(':')[-1].split('.')[-1])
            return mk('attr', t, name)
        if op == 'super':
            return self.super_attr(st, t, name, node)
        if op == 'typeof':
            if name == '__name__':
                return mk('attr', t, name)
            d = self.dtype(t.args[0])
            if d[0] == 'cls':
                return self.cls_attr(st, self.p.classes[d[1]], name, node)
            return mk('attr', t, name)
        if op in ('tuple', 'list', 'set', 'dict', 'comp', 'keys', 'values',
                  'items', 'cat', 'aslist', 'asset', 'setdiff', 'setunion',
                  'digest', 'b64dec', 'b64enc', 'encode', 'decode', 'fmt',
                  'hex', 'len', 'lin', 'count', 'beuint', 'b64str', 'ename',
                  'objdict', 'strop', 'zip', 'range', 'enumerate'):
            return mk('bm', t, name)
        if is_formula(t):
            return mk('bm', t, name)
        if op in ('exc', 'excof'):
            return mk('attr', t, name)
        # opaque values
        if self.doubt:
            self.doubted(st, t, 'attribute ' + name, ('AttributeError', ))
        v = self.overlay_get(st, t, name)
        if v is not None:
            return v
        if op == 'hashobj':
            return mk('bm', t, name)
        d = self.dtype(t)
        ms = type_members(d)
        # a value known to be a builtin
        for ty in ('str', 'bytes', 'dict', 'list', 'tuple', 'int', 'float',
                   'bool', 'set'):
            if st.ctx.types.get(st.ctx.find(t)) == ty or st.ctx.assign.get(
                    type_atom('isinst', t, ty)):
                return mk('bm', t, name)
        if t.gam and self.known_type(st, t) is not None and d == ('any', ):
            return mk('bm', t, name)
        cond = self.maybe_none(st, t)
        if cond is not FALSE:
            self.raise_if(st, cond, ('AttributeError', ),
                          'attribute %s of a value that may be None' % name)
            if cond is TRUE:
                return None
        real = [m for m in ms if m != ('ext', 'NoneType')]
        if len(real) == 1 and real[0][0] == 'cls':
            c = self.p.classes.get(real[0][1])
            if c is not None:
                if name == '__dict__':
                    return mk('objdict', t)
                if name == '__class__':
                    return mk('cls', c.qual)
                if c.qual in self.callbacks:
                    r = self.lookup_cls(c, name)
                    if r is not None and r[1][0] == 'func':
                        return mk('bm', t, name)
                if c.kind == 'enum' and name not in ('value', 'name',
                                                     '_value_', '_name_'):
                    r = self.lookup_cls(c, name)
                    if r is not None:
                        return self.per_member(st, c, t, name, node)
                r = self.lookup_cls(c, name)
                if r is not None:
                    k, e = r
                    if e[0] == 'func':
                        return self.bind_method(st, k, e[1], t, name, node)
                    if e[0] == 'expr' and name not in self.class_fields(c):
                        return self.cls_attr(st, c, name, node)
                return self.mkattr(t, name)
        if len(real) == 1 and real[0][0] in ('map', 'seq', 'tup'):
            return mk('bm', t, name)
        if len(real) == 1 and real[0][0] == 'ext':
            n = real[0][1]
            if n in ('str', 'bytes', 'int', 'float', 'bool', 'dict', 'list',
                     'tuple', 'set'):
                return mk('bm', t, name)
            return self.ext_attr(st, t, n, name)
        if d == ('any', ) and op in ('item', 'elem', 'unk', 'choose') and \
                not self.spec:
            if name in models.COMMON_METHODS:
                # a method of a value of unknown type
                self.may_raise(st, mk('hasattr', t, name),
                               ('AttributeError', ),
                               'method %s of a value of unknown type' % name)
                return mk('bm', t, name)
        if name in models.METHOD_NAMES:
            return mk('bm', t, name)
        return self.mkattr(t, name)

    def mkattr(self, t, name):
        return models.norm_attr(t, name)

    def overlay_get(self, st, t, name):
        g = st.frames.get('$O')
        if g is None:
            return None
        return g.get((t, name))

    def mod_attr(self, modname, name):
        m = self.p.modules.get(modname)
        if m is not None:
            if modname + '.' + name in self.p.modules and name not in m.ns:
                return mk('mod', modname + '.' + name)
            if self.p.resolve_name(m, name) is None:
                return None
            return self.global_value(m, name)
        full = canon(modname + '.' + name)
        return self.ext_value(full)

    def inst_attr(self, st, c, t, name, node):
        r = self.lookup_cls(c, name)
        if r is not None:
            k, e = r
            if e[0] == 'func':
                return self.bind_method(st, k, e[1], t, name, node)
            if e[0] == 'class':
                return mk('cls', e[1].qual)
            return self.cls_attr(st, c, name, node)
        if name == '__class__':
            return mk('cls', c.qual)
        if any(b not in ('object', 'enum.Enum', 'typing.NamedTuple')
               for b in self.ext_bases(c)):
            return mk('attr', t, name)
        r = self.lookup_cls(c, '__getattr__')
        if r is not None:
            return self.call(st, mk('bm', t, self.func_value(r[1][1])),
                             (const(name), ), (), node)
        if c.kind == 'enum':
            v = self.cls_attr(st, c, name, node)
            return v
        return None

    def bind_method(self, st, k, f, t, name, node):
        decs = self.dec_names(f)
        v = self.func_value(f)
        if 'property' in decs or 'cached_property' in decs:
            return self.call(st, mk('bm', t, v), (), (), node)
        if 'staticmethod' in decs:
            return v
        if 'classmethod' in decs:
            return mk('bm', mk('cls', k.qual), v)
        return mk('bm', t, v)

    def per_member(self, st, c, t, name, node):
        """attribute of an unknown member of a finite enumeration"""
        ms = self.enum_members(c)

        def go(s, i):
            n, v = ms[i]
            m = mk('enum', c.qual, n, v)
            if i == len(ms) - 1:
                return self.get_attr(s, m, name, node)
            return self.branch(s, eq(t, m),
                               lambda s2: self.get_attr(s2, m, name, node),
                               lambda s2: go(s2, i + 1))

        return go(st, 0)

    def super_attr(self, st, t, name, node):
        cq, selft = t.args
        after = self.p.classes[cq]
        h = self.h(st, selft)
        if h is not None and h.kind == 'rec':
            c = self.p.classes.get(h.cls, after)
        elif selft.op == 'cls':
            c = self.p.classes[selft.args[0]]
        elif selft.op in ('rec', 'nt', 'enum', 'enumof'):
            c = self.p.classes[selft.args[0]]
        else:
            c = after
        if selft.op == 'cls' and after not in self.hier.mro(c):
            # super() in a metaclass method
            r = self.lookup_cls(after, name, after)
            if r is None:
                return mk('bm', selft, 'type.' + name)
        r = self.lookup_cls(c, name, after)
        if r is not None:
            k, e = r
            if e[0] == 'func':
                return self.bind_method(st, k, e[1], selft, name, node)
        return mk('bm', mk('superext', selft), name)

    def set_attr(self, st, t, name, v, node):
        t = self.resolve(st, t)
        if t.op == 'gamma':
            c, a, b = t.args
            self.branch(st, c,
                        lambda s: self.set_attr(s, a, name, v, node),
                        lambda s: self.set_attr(s, b, name, v, node))
            return NONE
        h = self.h(st, t)
        if h is not None and h.kind == 'rec':
            c = self.p.classes.get(h.cls)
            if c is not None:
                f = self.special(st, t, '__setattr__')
                if f is not None:
                    self.call(st, mk('bm', t, f), (const(name), v), (), node)
                    return NONE
            val = dict(h.val)
            val[name] = v
            st.heap[t.args[0]] = h.with_val(val)
            return NONE
        self.effect(
            'store', 'attribute %s of %s is assigned' %
            (name, self.shared_name(t)))
        g = dict(st.frames.get('$O') or {})
        g[(t, name)] = v
        st.frames['$O'] = g
        return NONE

    def shared_name(self, t):
        if t.op == 'cls':
            return 'class %s' % t.args[0]
        if t.op == 'mod':
            return 'module %s' % t.args[0]
        if t.op in ('fn', 'sdisp'):
            return 'function %s' % t.args[0]
        return 'a value from outside the call (%s)' % repr(t)[:80]

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs, node):
        """args: terms; kwargs: ((name, term)...)"""
        f = self.resolve(st, f)
        if f.op == 'gamma':
            c, a, b = f.args
            return self.branch(st, c,
                               lambda s: self.call(s, a, args, kwargs, node),
                               lambda s: self.call(s, b, args, kwargs, node))
        op = f.op
        if op == 'fn':
            return self.call_func(st, self.p.funcs[f.args[0]], args, kwargs,
                                  node)
        if op == 'closure':
            return self.call_closure(st, f, args, kwargs, node)
        if op == 'cls':
            return self.construct(st, self.p.classes[f.args[0]], args, kwargs,
                                  node)
        if op == 'bm':
            recv, m = f.args
            if type(m) is T:
                if recv.op == 'superinst':
                    recv = recv.args[0]
                return self.call(st, m, (recv, ) + tuple(args), kwargs, node)
            return self.method(st, recv, m, args, kwargs, node)
        if op == 'ext':
            return self.call_ext(st, f.args[0], args, kwargs, node)
        if op == 'sdisp':
            return self.call_dispatch(st, f, args, kwargs, node)
        if op == 'partial':
            g, pa, pk = f.args
            kw = dict(pk)
            kw.update(dict(kwargs))
            return self.call(st, g, tuple(pa) + tuple(args),
                             tuple(kw.items()), node)
        if op == 'ctxfn':
            return mk('ctxcall', f.args[0], tuple(args), tuple(kwargs),
                      next(_uniq))
        if op == 'getter':
            kind, names = f.args
            vs = []
            for n in names:
                if kind == 'attr':
                    v = args[0]
                    for part in cval(n).split('.'):
                        v = self.get_attr(st, v, part, node)
                elif kind == 'item':
                    v = self.subscript(st, args[0], n, node)
                vs.append(v)
            return vs[0] if len(vs) == 1 else mk('tuple', *vs)
        if op == 'typeof':
            d = self.dtype(f.args[0])
            h = self.h(st, f.args[0])
            if h is not None and h.kind == 'rec':
                return self.construct(st, self.p.classes[h.cls], args, kwargs,
                                      node)
            if d[0] == 'cls' and d[1] in self.p.classes:
                return self.construct(st, self.p.classes[d[1]], args, kwargs,
                                      node)
        h = self.h(st, f)
        if h is not None and h.kind == 'rec':
            c = self.p.classes.get(h.cls)
            r = self.lookup_cls(c, '__call__') if c else None
            if r is not None:
                return self.call(st, mk('bm', f, self.func_value(r[1][1])),
                                 args, kwargs, node)
        if f is NONE or op in ('const', 'tuple', 'list', 'dict'):
            self.raise_if(st, TRUE, ('TypeError', ), 'call of a non-callable')
            raise Dead()
        if op == 'decorated':
            self.note('unknown decorator %s' % f.args[1])
            f = f.args[0]
            return self.call(st, f, args, kwargs, node)
        # unknown callee
        fr = tuple(self.freeze(st, a) for a in args)
        kw = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs))
        t = mk('call', self.freeze(st, f), fr, kw)
        self.may_raise(st, t, (ANY, ), 'call of %s' % repr(f)[:60])
        return t

    def bind_args(self, st, a, args, kwargs, defaults, kwdefaults, qual):
        """-> dict, or None after recording the TypeError"""
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        args = list(args)
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            env[n] = v
        bad = None
        kwextra = []
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs:
            if k in env and k in pos[npo:] or k in env and k in kwo:
                bad = 'multiple values for %s' % k
            elif k in pos[npo:] or k in kwo:
                env[k] = v
            elif a.kwarg:
                kwextra.append((const(k), v))
            else:
                bad = 'unexpected keyword %s' % k
        if extra:
            if a.vararg:
                pass
            else:
                bad = 'too many positional arguments'
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = defaults[j]
                else:
                    bad = 'missing argument %s' % n
        for i, n in enumerate(kwo):
            if n not in env:
                if kwdefaults[i] is not None:
                    env[n] = kwdefaults[i]
                else:
                    bad = 'missing argument %s' % n
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, 'dict', None,
                                        mk('dict', *kwextra))
        if bad:
            self.raise_if(st, TRUE, ('TypeError', ),
                          'call of %s: %s' % (qual, bad))
            raise Dead()
        return env

    def fn_defaults(self, f):
        key = ('defs', f.qual, id(f.node))
        if key not in self.gcache:
            a = f.node.args
            ds = [
                self.eval_static(f.mod, d, f.qual + ' default')
                for d in a.defaults
            ]
            ks = [
                None if d is None else self.eval_static(
                    f.mod, d, f.qual + ' default') for d in a.kw_defaults
            ]
            self.gcache[key] = (ds, ks)
        return self.gcache[key]

    def call_func(self, st, f, args, kwargs, node):
        ds, ks = self.fn_defaults(f)
        env = self.bind_args(st, f.node.args, args, kwargs, ds, ks, f.qual)
        if self.entering == f.qual:
            self.entering = None
        elif f.qual in self.apps:
            return self.recursive_call(st, f, env, node)
        if f.qual in self.opaque:
            return self.opaque_call(st, f, env, node)
        if self.depth_of(f.qual) >= 1 or len(self.stack) > 40:
            return self.recursive_call(st, f, env, node)
        return self.run_body(st, f.node, f.mod, f.qual, env, None, f.cls)

    def depth_of(self, qual):
        return sum(1 for q, m in self.stack if q == qual)

    def argorder(self, f, env, st):
        out = []
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in env:
                out.append((x.arg, self.freeze(st, env[x.arg])))
        for x in (a.vararg, a.kwarg):
            if x is not None:
                out.append((x.arg, self.freeze(st, env[x.arg])))
        return tuple(out)

    def opaque_call(self, st, f, env, node):
        t = mk('call', mk('fn', self.alias.get(f.qual, f.qual)), (),
               self.argorder(f, env, st))
        self.may_raise(st, t, (ANY, ), 'call of %s' % f.qual)
        rt = ann_type(self.p, f.mod, f.node.returns)
        self.set_type(t, rt)
        if rt == ('ext', 'NoneType'):
            return NONE
        return self.open_tuple(t)

    def open_tuple(self, t):
        d = self.dtype(t)
        if d[0] == 'tup' and d[1]:
            return mk('tuple', *[item(t, const(i)) for i in range(len(d[1]))])
        return t

    def recursive_call(self, st, f, env, node):
        self.recursed.add(f.qual)
        t = mk('app', self.apps.get(f.qual, f.qual),
               tuple(v for n, v in self.argorder(f, env, st)))
        self.may_raise(st, t, (ANY, ), 'recursive call of %s' % f.qual)
        rt = ann_type(self.p, f.mod, f.node.returns)
        self.set_type(t, rt)
        return t

    def call_type(self, t):
        if t.op == 'call':
            f = t.args[0]
            if f.op == 'fn':
                fn = self.p.funcs.get(f.args[0])
                if fn is not None:
                    return ann_type(self.p, fn.mod, fn.node.returns)
            if f.op == 'ext':
                r = models.RETURNS.get(f.args[0])
                if r is not None:
                    return ('ext', r)
                if f.args[0].split('.')[-1][:1].isupper():
                    return ('ext', f.args[0])
            if f.op == 'cls':
                return ('cls', f.args[0])
        if t.op == 'mcall':
            d = self.dtype(t.args[0])
            if d[0] == 'ext':
                r = models.RETURNS.get(d[1] + '.' + t.args[1])
                if r is not None:
                    return ('ext', r)
        return ('any', )

    def run_body(self, st, node, mod, qual, env, parent, cls=None):
        """Inline a function body; returns its value term."""
        self.visited.add(qual)
        if isinstance(node, ast.Lambda):
            body = [ast.copy_location(ast.Return(value=node.body), node.body)]
        else:
            body = node.body
        key = ('isgen', id(node))
        if key not in self.gcache:
            self.gcache[key] = self.is_generator(node)
        mode, self.genrun = self.genrun, None
        if self.gcache[key] and mode is None:
            names = tuple(env)

            def later(s, ts):
                self.genrun = 'all'
                return self.run_body(s, node, mod, qual,
                                     dict(zip(names, ts)), parent, cls)

            return self.lazy(st, later, [env[k] for k in names],
                             ('gen', node, mod, qual, names, parent, cls))
        fid = next(_uniq)
        fr = dict(env)
        fr['$parent'] = parent
        fr['$cls'] = cls.qual if cls is not None else None
        fr['$fn'] = qual
        a0 = node.args.posonlyargs + node.args.args
        fr['$self'] = a0[0].arg if a0 else None
        save_fid = st.fid
        st.frames[fid] = fr
        st.fid = fid
        saveK = self.K
        save_loops = self.loops
        save_node = self.node
        k = K(saveK.raises, [], [], [])
        self.K = k
        self.loops = []
        self.stack.append((qual, mod))
        out = []
        hook = None
        try:
            acc = None
            if self.gcache[key] and mode == 'all':
                acc = self.new(st, 'list', None, mk('list'))
                self.yield_hooks.append(
                    lambda s, v: self.list_append(s, acc, v))
                hook = True
            elif self.gcache[key] and mode == 'first':

                def first(s, v):
                    s.frames[s.fid]['$ret'] = mk('tuple', v)
                    s.frames[s.fid]['$retsite'] = None
                    self.K.rets.append(s.copy())
                    raise Dead()

                self.yield_hooks.append(first)
                hook = True
            try:
                self.exec_block(body, st)
                st.frames[fid]['$ret'] = NONE
                st.frames[fid]['$retsite'] = None
                out.append(st.copy())
            except Dead:
                pass
            out.extend(k.rets)
        finally:
            if hook:
                self.yield_hooks.pop()
            self.stack.pop()
            self.K = saveK
            self.loops = save_loops
            self.node = save_node
        if not out:
            raise Dead()
        m = merge_states(out)
        v = m.frames[fid].get('$ret', NONE)
        keep = False
        st.become(m)
        st.fid = save_fid
        # closures may still refer to the frame
        if not any(isinstance(n, (ast.Lambda, ast.FunctionDef,
                                  ast.GeneratorExp))
                   for b in body for n in ast.walk(b)) and parent is None:
            st.frames.pop(fid, None)
        if acc is not None:
            return st.heap[acc.args[0]].val
        if mode == 'first':
            return self.map_leaves(
                st, v, lambda x: x if x.op == 'tuple' else mk('tuple'))
        return v

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False

        def go(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.AsyncFunctionDef)):
                    continue
                if go(c):
                    return True
            return False

        return go(node)

    def make_closure(self, st, node, name):
        cid = id(node)
        mod = self.stack[-1][1]
        qual = self.stack[-1][0] + '.<locals>.' + name
        self.closures[cid] = (node, mod, qual)
        a = node.args
        ds = tuple(self.freeze_default(st, self.eval(d, st))
                   for d in a.defaults)
        ks = tuple(mk('nodefault') if d is None else self.eval(d, st)
                   for d in a.kw_defaults)
        return mk('closure', cid, st.fid, ds, ks)

    def freeze_default(self, st, v):
        return v

    def call_closure(self, st, f, args, kwargs, node):
        cid, fid, ds, ks = f.args
        cnode, mod, qual = self.closures[cid]
        env = self.bind_args(st, cnode.args, args, kwargs, list(ds),
                             [None if k.op == 'nodefault' else k for k in ks],
                             qual)
        if self.depth_of(qual) >= 2:
            t = mk('app', qual, tuple(
                self.freeze(st, v) for v in env.values()))
            self.may_raise(st, t, (ANY, ), 'recursive call of %s' % qual)
            return t
        if fid not in st.frames:
            fr = self.gcache.get('sframes', {}).get(fid)
            if fr is not None:
                st.frames[fid] = dict(fr)
                for k, v in self.gcache.get('sheap', {}).items():
                    st.heap.setdefault(k, v)
        return self.run_body(st, cnode, mod, qual, env, fid)

    # ---- singledispatch
    def registry(self):
        if self.dispatch is not None:
            return self.dispatch
        reg = {}

        def target_func(m, node):
            r = self.p.resolve_expr(m, node)
            if r is not None and r[0] == 'func':
                return r[1].qual
            return None

        for m in self.p.modules.values():
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef):
                    for d in s.decorator_list:
                        base = d.func if isinstance(d, ast.Call) else d
                        if isinstance(base,
                                      ast.Attribute) and base.attr == \
                                'register':
                            q = target_func(m, base.value)
                            if q is None:
                                continue
                            if isinstance(d, ast.Call) and d.args:
                                cn = d.args[0]
                            else:
                                a = s.args.posonlyargs + s.args.args
                                cn = a[0].annotation if a else None
                            fobj = None
                            for cand in self.p.funcs.values():
                                if cand.node is s:
                                    fobj = cand
                            if fobj is None:
                                # same name defined again later
                                fobj = Func(m, s, m.name + ':' + s.name +
                                            '#%d' % s.lineno)
                                self.p.funcs[fobj.qual] = fobj
                            reg.setdefault(q, []).append(
                                (m, cn, mk('fn', fobj.qual)))
                elif isinstance(s, ast.Expr) and isinstance(
                        s.value, ast.Call):
                    c = s.value
                    if isinstance(c.func,
                                  ast.Attribute) and c.func.attr == \
                            'register' and len(c.args) == 2:
                        q = target_func(m, c.func.value)
                        if q is not None:
                            reg.setdefault(q, []).append((m, c.args[0],
                                                          c.args[1]))
                    elif isinstance(c.func, ast.Call) and isinstance(
                            c.func.func, ast.Attribute
                    ) and c.func.func.attr == 'register' and len(
                            c.args) == 1 and len(c.func.args) == 1:
                        q = target_func(m, c.func.func.value)
                        if q is not None:
                            reg.setdefault(q, []).append(
                                (m, c.func.args[0], c.args[0]))
        out = {}
        for q, es in reg.items():
            rs = {}
            for m, cn, fn in es:
                if type(fn) is not T:
                    fn = self.eval_static(m, fn, 'registration')
                cv = self.eval_static(m, cn, 'registration')
                for x in (cv.args if cv.op == 'tuple' else
                          (cv.args[1] if cv.op == 'uniontype' else (cv, ))):
                    n = self.type_name(x)
                    if n is None:
                        raise AnalysisBroken('unresolved registration on %s' %
                                             q)
                    rs[n] = fn
            out[q] = rs
        self.dispatch = out
        return out

    def call_dispatch(self, st, f, args, kwargs, node):
        q = f.args[0]
        fn = self.p.funcs[q]
        if q in self.opaque or q in self.apps and self.entering != q:
            return self.call_func(st, fn, args, kwargs, node)
        regs = self.registry().get(q, {})
        if not args:
            self.raise_if(st, TRUE, ('TypeError', ),
                          'dispatch needs a positional argument')
            raise Dead()
        return self.on_leaves(
            st, args[0], lambda s, leaf: self.dispatch_leaf(
                s, fn, regs, leaf, args, kwargs, node))

    def dispatch_leaf(self, st, fn, regs, leaf, args, kwargs, node):
        args = (leaf, ) + tuple(args[1:])
        # most specific first
        names = sorted(regs,
                       key=lambda n: -len([
                           m for m in regs
                           if m != n and self.hier(n, m) is True
                       ]))

        def go(s, i):
            if i == len(names):
                return self.call_plain(s, fn, args, kwargs, node)
            c = self.isinst(s, leaf, names[i])
            return self.branch(
                s, c, lambda s2: self.call(s2, regs[names[i]], args, kwargs,
                                           node), lambda s2: go(s2, i + 1))

        if self.depth_of(fn.qual) >= 1:
            pass
        return go(st, 0)

    def call_plain(self, st, fn, args, kwargs, node):
        return self.call_func(st, fn, args, kwargs, node)

    # ---- construction
    def construct(self, st, c, args, kwargs, node):
        self.visited.add(c.qual)
        if isinstance(c.meta, Cls):
            r = self.lookup_cls(c.meta, '__call__')
            if r is not None and self.depth_of(r[1][1].qual) == 0:
                return self.call(
                    st, self.func_value(r[1][1]),
                    (mk('cls', c.qual), ) + tuple(args), kwargs, node)
        if c.kind == 'enum':
            return self.enum_call(st, c, args, kwargs, node)
        if c.kind == 'namedtuple' and not self.lookup_cls(c, '__new__'):
            fields = []
            cc = c
            for k in self.hier.mro(c):
                if 'typing.NamedTuple' in k.bases:
                    cc = k
            fields = self.nt_fields(cc)
            env = {}
            bad = None
            for n, v in zip(fields, args):
                env[n] = v
            if len(args) > len(fields):
                bad = 'too many arguments'
            for k, v in kwargs:
                if k not in fields or k in env:
                    bad = 'argument %s' % k
                env[k] = v
            for n in fields:
                if n not in env:
                    e = cc.attrs.get(n)
                    if e is not None and e[0] == 'expr':
                        env[n] = self.eval_static(cc.mod, e[1],
                                                  cc.qual + '.' + n)
                    else:
                        bad = 'missing ' + n
            if bad:
                self.raise_if(st, TRUE, ('TypeError', ),
                              'construction of %s: %s' % (c.qual, bad))
                raise Dead()
            return mk('nt', c.qual, tuple((n, env[n]) for n in fields))
        r = self.lookup_cls(c, '__new__')
        if r is not None and r[1][0] == 'func':
            v = self.call(st, self.func_value(r[1][1]),
                          (mk('cls', c.qual), ) + tuple(args), kwargs, node)

            def init(s, x):
                h = self.h(s, x)
                if h is None or h.kind != 'rec' or self.hier(
                        h.cls, c.qual) is not True:
                    return x
                return self.initialise(s, self.p.classes[h.cls], x, args,
                                       kwargs, node)

            return self.on_leaves(st, v, init)
        if c.kind == 'dataclass':
            return self.initialise(st, c, self.new(st, 'rec', c.qual, {}),
                                   args, kwargs, node)
        eb = self.ext_bases(c)
        isexc = self.hier(c.qual, 'BaseException') is True
        if eb and not isexc and not all(
                b in ('object', 'abc.ABC', 'typing.Generic', 'typing.Protocol')
                for b in eb):
            fr = tuple(self.freeze(st, a) for a in args)
            kw = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs))
            t = mk('call', mk('cls', c.qual), fr, kw)
            return t
        o = self.new(st, 'rec', c.qual, {})
        return self.initialise(st, c, o, args, kwargs, node)

    def initialise(self, st, c, o, args, kwargs, node):
        if c.kind == 'dataclass' and '__init__' not in c.attrs:
            return self.dataclass_new(st, c, o, args, kwargs, node)
        isexc = self.hier(c.qual, 'BaseException') is True
        r = self.lookup_cls(c, '__init__')
        if r is not None:
            self.call(st, mk('bm', o, self.func_value(r[1][1])), args, kwargs,
                      node)
        elif isexc:
            h = st.heap[o.args[0]]
            st.heap[o.args[0]] = h.with_val({'args': mk('tuple', *args)})
        elif args or kwargs:
            self.raise_if(st, TRUE, ('TypeError', ),
                          '%s takes no arguments' % c.qual)
            raise Dead()
        return o

    def dataclass_new(self, st, c, o, args, kwargs, node):
        fields = []
        for k in reversed(self.hier.mro(c)):
            for n in k.order:
                if n in k.ann and n not in [x[0] for x in fields]:
                    fields.append((n, k))
        env = {}
        bad = None
        names = [n for n, k in fields]
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kwargs:
            if k not in names or k in env:
                bad = 'argument %s' % k
            env[k] = v
        if len(args) > len(names):
            bad = 'too many arguments'
        for n, k in fields:
            if n not in env:
                e = k.attrs.get(n)
                if e is not None and e[0] == 'expr':
                    v = self.eval_static(k.mod, e[1], k.qual + '.' + n)
                    if v.op == 'call' and v.args[0].op == 'ext' and \
                            v.args[0].args[0] == 'dataclasses.field':
                        kw = dict(v.args[2])
                        if 'default' in kw:
                            v = kw['default']
                        elif 'default_factory' in kw:
                            v = self.call(st, kw['default_factory'], (), (),
                                          node)
                        else:
                            bad = 'missing ' + n
                            v = NONE
                    env[n] = v
                else:
                    bad = 'missing ' + n
        if bad:
            self.raise_if(st, TRUE, ('TypeError', ),
                          'construction of %s: %s' % (c.qual, bad))
            raise Dead()
        if self.special(st, o, '__setattr__') is not None:
            for n in names:
                self.set_attr(st, o, n, env[n], node)
        else:
            h = st.heap[o.args[0]]
            st.heap[o.args[0]] = h.with_val({n: env[n] for n in names})
        r = self.lookup_cls(c, '__post_init__')
        if r is not None:
            self.call(st, mk('bm', o, self.func_value(r[1][1])), (), (), node)
        return o

    def enum_call(self, st, c, args, kwargs, node):
        if len(args) != 1:
            if len(kwargs) == 1 and kwargs[0][0] == 'value' and not args:
                args = (kwargs[0][1], )
            else:
                self.raise_if(st, TRUE, ('TypeError', ), 'enum call')
                raise Dead()
        ms = self.enum_members(c)

        def leaf(s, raw):
            raw = self.freeze(s, raw)
            if raw.op == 'enum' and raw.args[0] == c.qual:
                return raw
            if raw.op == 'enumof' and raw.args[0] == c.qual:
                return raw
            if raw.op == 'unk' and raw.args[0] == 'badtype':
                pass
            mem = Or(*[eq(raw, v) for n, v in ms])
            r = self.lookup_cls(c, '_missing_')
            if r is not None and r[1][0] == 'func' and not self.spec:
                return self.branch(
                    s, mem, lambda s2: self.enum_found(s2, c, ms, raw),
                    lambda s2: self.on_leaves(
                        s2, self.call(s2, self.func_value(r[1][1]),
                                      (mk('cls', c.qual), raw), (), node),
                        supplied))
            self.raise_if(s, Not(mem), ('ValueError', 'RecursionError')
                          if self.unprintable(s, raw) and self.known_type(
                              s, raw) != 'int' else ('ValueError', ),
                          'value lookup in %s' % c.qual,
                          implicit_spec=False)
            if self.spec:
                if not s.guard(mem):
                    raise Dead()
            return self.enum_found(s, c, ms, raw)

        def supplied(s, x):
            if x is NONE:
                self.raise_if(s, TRUE, ('ValueError', ),
                              'value lookup in %s' % c.qual)
                raise Dead()
            return x

        return self.on_leaves(st, args[0], leaf)

    def enum_found(self, st, c, ms, raw):
        if is_const(raw):
            for n, v in ms:
                if eq(raw, v) is TRUE:
                    return mk('enum', c.qual, n, v)
        return mk('enumof', c.qual, ms, raw)

    # ------------------------------------------------------------ callbacks
    def callback(self, st, recv, c, name, args, kwargs, node):
        r = self.lookup_cls(c, name)
        f = r[1][1]
        ds, ks = self.fn_defaults(f)
        env = self.bind_args(st, f.node.args, (recv, ) + tuple(args), kwargs,
                             ds, ks, f.qual)
        fr = tuple((n, self.freeze(st, v)) for n, v in env.items()
                   if v is not recv)
        t = mk('cb', name, fr, next(_uniq))
        self.set_type(t, ann_type(self.p, f.mod, f.node.returns))
        ev = Event(name, dict(fr), dict(st.facts), st.events, self.site(node),
                   t)
        st.events = st.events + ((TRUE, ev), )
        self.may_raise(st, t, (ANY, ), 'callback %s' % name)
        return t

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            self.exec(s, st)

    def exec(self, node, st):
        self.node = node
        m = getattr(self, 'x_' + type(node).__name__, None)
        if m is None:
            self.note('statement %s not modelled' % type(node).__name__)
            return
        m(node, st)

    def x_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return
        self.eval(node.value, st)

    def x_Pass(self, node, st):
        pass

    def x_Import(self, node, st):
        for a in node.names:
            if a.asname:
                st.frame()[a.asname] = mk('mod', a.name)
            else:
                st.frame()[a.name.split('.')[0]] = mk(
                    'mod',
                    a.name.split('.')[0])

    def x_ImportFrom(self, node, st):
        mod = self.stack[-1][1]
        src = node.module or ''
        if node.level:
            parts = mod.name.split('.')
            isdir = mod.path.endswith('__init__.py')
            cut = node.level - (1 if isdir else 0)
            base = parts[:len(parts) - cut] if cut else parts
            src = '.'.join(base + ([src] if src else []))
        for a in node.names:
            mm = self.p.modules.get(src)
            if mm is not None:
                if src + '.' + a.name in self.p.modules and a.name not in \
                        mm.ns:
                    v = mk('mod', src + '.' + a.name)
                else:
                    v = self.global_value(mm, a.name)
            else:
                v = self.ext_value(canon(src + '.' + a.name))
            st.frame()[a.asname or a.name] = v

    def x_FunctionDef(self, node, st):
        v = self.make_closure(st, node, node.name)
        for d in reversed(node.decorator_list):
            dv = self.eval(d, st)
            if dv.op == 'ext' and dv.args[0] == 'contextlib.contextmanager':
                v = mk('ctxfn', v)
            elif dv.op == 'call' or dv.op == 'ext':
                if dv.op == 'ext' or dv.args[0].op == 'ext':
                    n = dv.args[0] if dv.op == 'ext' else dv.args[0].args[0]
                    if n in ('functools.wraps', ):
                        continue
                    if n in ('functools.lru_cache', 'functools.cache',
                     'functools.cached_property'):
                        continue
                    self.note('decorator %s not modelled' % n)
            else:
                v = self.call(st, dv, (v, ), (), d)
        st.frame()[node.name] = v

    def x_ClassDef(self, node, st):
        mod = self.stack[-1][1]
        qual = '%s:%s.<locals>.%s' % (mod.name, self.stack[-1][0].split(
            ':')[-1], node.name)
        if qual not in self.p.classes:
            c = self.p.mkclass(mod, node, qual)
            self.p.link(c)
            self.p.classify(c)
        st.frame()[node.name] = mk('cls', qual)

    def x_Global(self, node, st):
        fr = st.frame()
        g = set(fr.get('$globals', ()))
        g |= set(node.names)
        fr['$globals'] = frozenset(g)

    def x_Nonlocal(self, node, st):
        fr = st.frame()
        g = set(fr.get('$nonlocals', ()))
        g |= set(node.names)
        fr['$nonlocals'] = frozenset(g)

    def x_Return(self, node, st):
        v = NONE if node.value is None else self.eval(node.value, st)
        self.node = node
        st.frame()['$ret'] = v
        self.K.rets.append(st.copy())
        raise Dead()

    def x_Break(self, node, st):
        self.K.brks.append(st.copy())
        raise Dead()

    def x_Continue(self, node, st):
        self.K.conts.append(st.copy())
        raise Dead()

    def x_Assert(self, node, st):
        if self.spec:
            f = self.cond(node.test, st)
            if isinstance(node.msg, ast.Constant):
                self.msgs[f] = str(node.msg.value)
            if not st.guard(f):
                raise Dead()
            return
        # under -O the statement vanishes: it establishes nothing, but it
        # can raise
        s = st.copy()
        try:
            f = self.cond(node.test, s)
        except Dead:
            raise
        from .logic import atoms_of
        for x in atoms_of(f):
            # declared types of the caller's values are trusted
            if x.op == 'eq' and x.args[1] is NONE and self.maybe_none(
                    s, x.args[0]) is FALSE:
                s.assume(Not(x))
                st.assume(Not(x))
        v = s.val(f)
        if v is True:
            return
        self.node = node
        if not entails(s.ctx, f, 200):
            s2 = s.copy()
            c = s2.ctx.copy()
            from .logic import Contra
            dead = False
            try:
                for x in s2.soft:
                    c.put(x)
                c.put(Not(f))
                c.run()
            except Contra:
                dead = True
            if not dead and s2.guard(Not(f)):
                t = mk('exc', next(_uniq))
                e = Exc(('AssertionError', ), t, self.site(node), False,
                        'assert ' + ast.unparse(node.test)[:80])
                self.exc_of[t] = e
                self.K.raises.append(Raise(s2, e))
            if v is False:
                # always fails with assertions on
                pass
        st.soft = st.soft + (f, )

    def x_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.frame()[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                self.del_item(st, o, i, node)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                h = self.h(st, self.resolve(st, o))
                if h is not None and h.kind == 'rec':
                    val = dict(h.val)
                    val.pop(t.attr, None)
                    st.heap[o.args[0]] = h.with_val(val)
                else:
                    self.effect('delete', 'attribute %s deleted' % t.attr)

    def x_Assign(self, node, st):
        v = self.eval(node.value, st)
        for t in node.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, node, st):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, st), st)

    def x_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(st, t.id, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.get_attr(st, o, t.attr, t)
        else:
            o = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            cur = self.subscript(st, o, i, t)
        rhs = self.eval(node.value, st)
        cur = self.resolve(st, cur)
        h = self.h(st, cur)
        if h is not None and h.kind in ('list', 'set', 'dict'):
            # in place
            if h.kind == 'list' and isinstance(node.op, ast.Add):
                self.method(st, cur, 'extend', (rhs, ), (), node)
                v = cur
            elif h.kind == 'set' and isinstance(node.op, ast.BitOr):
                self.method(st, cur, 'update', (rhs, ), (), node)
                v = cur
            elif h.kind == 'set' and isinstance(node.op, ast.Sub):
                self.method(st, cur, 'difference_update', (rhs, ), (), node)
                v = cur
            elif h.kind == 'dict' and isinstance(node.op, ast.BitOr):
                self.method(st, cur, 'update', (rhs, ), (), node)
                v = cur
            else:
                v = self.binop(st, node.op, cur, rhs, node)
        else:
            k = self.known_type(st, cur)
            if cur.op in ('list', 'set', 'dict') or (
                    cur.op in ('param', 'attr', 'item') and
                    not self.immutable(cur)) or k in ('list', 'set', 'dict'):
                v = self.binop(st, node.op, cur, rhs, node)
                o = self.modified(st, cur, k if k in ('list', 'set', 'dict')
                                  else None, 'in-place operator')
                if o is not None:
                    self.setval(st, o, self.content(st, v, k)
                                if k != 'dict' else self.freeze(st, v))
                    v = o
            else:
                v = self.binop(st, node.op, cur, rhs, node)
        if isinstance(t, ast.Name):
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            self.set_attr(st, o, t.attr, v, t)
        else:
            self.set_item(st, o, i, v, t)

    def immutable(self, t):
        d = self.dtype(t)
        return all(
            m[0] == 'ext' and m[1] in ('str', 'bytes', 'int', 'float', 'bool',
                                       'NoneType') for m in type_members(d))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = st.frame()
            if t.id in fr.get('$globals', ()):
                mod = self.stack[-1][1]
                self.effect('store', 'global %s.%s is assigned' %
                            (mod.name, t.id))
                g = dict(st.frames.get('$G') or {})
                g[(mod.name, t.id)] = v
                st.frames['$G'] = g
                return
            if t.id in fr.get('$nonlocals', ()):
                fid = fr.get('$parent')
                while fid is not None and fid in st.frames:
                    if t.id in st.frames[fid]:
                        if fid in self.gcache.get('sframes', {}):
                            self.effect('store', '%s, a variable of a '
                                        'decorator, is assigned' % t.id)
                        st.frames[fid][t.id] = v
                        return
                    fid = st.frames[fid].get('$parent')
            fr[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.set_attr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            self.set_item(st, o, i, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note('assignment target %s' % type(t).__name__)

    def unpack(self, t, v, st):
        n = len(t.elts)
        v = self.take(st, v)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

        def parts(s, v):
            els = self.concrete_elements(s, v)
            if els is not None:
                if star:
                    i = star[0]
                    if len(els) < n - 1:
                        return None
                    mid = len(els) - (n - 1)
                    return (els[:i] + [mk('list', *els[i:i + mid])] +
                            els[i + mid:])
                if len(els) != n:
                    return None
                return els
            f = self.freeze(s, v)
            d = self.dtype(f)
            if star:
                i = star[0]
                if not self.spec:
                    self.iter_check(s, f)
                    self.raise_if(s, lt(length(f), const(n - 1)),
                                  ('ValueError', ),
                                  'unpacking into %d names' % n)
                if i == n - 1 and d[0] in ('list', 'str', 'bytes', 'tuple'):
                    mid = models.slice_(f, const(i), NONE)
                    if d[0] != 'list':
                        mid = self.fresh_unk('unpack')
                    return [self.getitem_raw(f, const(k))
                            for k in range(i)] + [mid]
                return [self.fresh_unk('unpack') for e in t.elts]
            if d[0] == 'tup' and len(d[1]) == n:
                return [item(f, const(i)) for i in range(n)]
            if f.op in ('unk', 'call', 'mcall', 'app') or d[0] == 'tup':
                return [self.getitem_raw(f, const(i)) for i in range(n)]
            if not self.spec:
                self.iter_check(s, f)
                cond = Not(eq(length(f), const(n)))
                self.raise_if(s, cond, ('ValueError', ),
                              'unpacking into %d names' % n)
            return [self.getitem_raw(f, const(i)) for i in range(n)]

        v = self.resolve(st, v)
        lv = leaves(v)
        if len(lv) == 1:
            ps = parts(st, v)
            if ps is None:
                self.raise_if(st, TRUE, ('ValueError', ),
                              'unpacking into %d names' % n)
                raise Dead()
            for e, x in zip(t.elts, ps):
                self.assign(e, x, st)
            return

        def on(s, leaf):
            self.unpack(t, leaf, s)
            return NONE

        self.on_leaves(st, v, on)

    def getitem_raw(self, f, k):
        return models.norm_item(f, k)

    def x_If(self, node, st):
        f = self.cond(node.test, st)

        def a(s):
            self.exec_block(node.body, s)
            return NONE

        def b(s):
            self.exec_block(node.orelse, s)
            return NONE

        self.branch(st, f, a, b)

    def x_Raise(self, node, st):
        if node.exc is None:
            if self.cur_exc:
                e = self.cur_exc[-1]
                self.raise_now(st, self.refined(st, e))
            self.raise_now(
                st,
                Exc(('RuntimeError', ), mk('exc', next(_uniq)),
                    self.site(node), True, 'raise outside a handler'))
        v = self.eval(node.exc, st)
        if node.cause is not None:
            self.eval(node.cause, st)
        self.node = node
        self.on_leaves(st, v, lambda s, leaf: self.raise_value(s, leaf, node))
        raise Dead()

    def refined(self, st, e):
        """what the tests made on a caught exception say of its class"""
        ctx = st.ctx
        if ctx is None:
            return e
        tests = []
        for C, val in ctx.isin.get(ctx.find(e.term), {}).items():
            tests.append(((C, ), val))
        for f in ctx.pending:
            if f.op == 'or' and all(x.op == 'isinst' and x.args[0] is e.term
                                    for x in f.args):
                tests.append((tuple(x.args[1] for x in f.args), True))
        cs, excl = list(e.classes), list(e.excl)
        for Cs, val in tests:
            out = []
            for c in cs:
                if not val:
                    if c != ANY and self.hier(c, Cs[0]) is True:
                        continue
                    if c == ANY and Cs[0] not in excl:
                        excl.append(Cs[0])
                    out.append(c)
                elif c == ANY:
                    out += [C for C in Cs if C not in out]
                elif any(self.hier(c, C) is True for C in Cs):
                    out.append(c)
                else:
                    for C in Cs:
                        if self.hier(c, C) is None:
                            out.append(c)
                        elif self.hier(C, c) is True:
                            out.append(C)
            cs = list(dict.fromkeys(out))
        if not cs or cs == list(e.classes) and excl == list(e.excl):
            return e
        return e.narrowed(tuple(cs), tuple(excl))

    def raise_value(self, st, v, node):
        if v in self.exc_of:
            self.raise_now(st, self.refined(st, self.exc_of[v]))
        cls = None
        h = self.h(st, v)
        if h is not None and h.kind == 'rec':
            cls = h.cls
        elif v.op == 'cls':
            cls = v.args[0]
            # raising a class constructs it
            v = self.construct(st, self.p.classes[cls], (), (), node)
        elif v.op == 'ext':
            cls = v.args[0]
        elif v.op == 'call' and v.args[0].op in ('ext', 'cls'):
            cls = v.args[0].args[0]
        elif v.op == 'rec':
            cls = v.args[0]
        if cls is None:
            cls = ANY
        e = Exc((cls, ), v, self.site(node), True,
                'raise %s' % ast.unparse(node.exc)[:60],
                cause=self.cur_exc[-1] if self.cur_exc else None)
        self.exc_of[v] = e
        self.raise_now(st, e)

    # ---- try
    def x_Try(self, node, st):
        K0 = self.K
        fin = node.finalbody
        if fin:
            Kf = K([], [], [], [])
        else:
            Kf = K0
        Kb = K([], Kf.rets, Kf.brks, Kf.conts)
        normals = []
        self.K = Kb
        s = st.copy()
        body_ok = False
        try:
            self.exec_block(node.body, s)
            body_ok = True
        except Dead:
            pass
        self.K = Kf
        if body_ok:
            try:
                self.exec_block(node.orelse, s)
                normals.append(s)
            except Dead:
                pass
        for r in self.compact(Kb.raises):
            r.state.fid = st.fid
            self.handle(node.handlers, r, normals)
        self.K = K0
        if not fin:
            if not normals:
                raise Dead()
            st.become(merge_states(normals))
            return
        # finally: on every kind of exit
        alive = False
        if normals:
            m = merge_states(normals)
            try:
                self.exec_block(fin, m)
                alive = True
            except Dead:
                pass
        for lst, dst in ((Kf.rets, K0.rets), (Kf.brks, K0.brks),
                         (Kf.conts, K0.conts)):
            for x in lst:
                try:
                    ret = x.frames[x.fid].get('$ret')
                    self.exec_block(fin, x)
                    if ret is not None:
                        x.frames[x.fid]['$ret'] = ret
                    dst.append(x)
                except Dead:
                    pass
        for r in Kf.raises:
            outs = (K0.rets, K0.brks, K0.conts)
            n = [len(x) for x in outs]
            was = list(r.state.facts)
            try:
                r.state.fid = st.fid
                self.exec_block(fin, r.state)
                K0.raises.append(r)
            except Dead:
                pass
            if [len(x) for x in outs] != n and not self.spec:
                self.swallowed.append((r.exc, self.site(fin[0]), was))
        if not alive:
            raise Dead()
        st.become(m)

    x_TryStar = x_Try

    def compact(self, raises):
        return raises

    def handle(self, handlers, r, normals):
        st, exc = r.state, r.exc
        for h in handlers:
            if h.type is None:
                names = ['BaseException']
            else:
                try:
                    tv = self.eval(h.type, st)
                except Dead:
                    return
                names = self.exc_names(st, tv)
            hit = []
            miss = []
            maybe = []
            for c in exc.classes:
                v = self.match(c, names, exc.excl)
                (hit if v is True else miss if v is False else
                 maybe).append(c)
            if not hit and not maybe:
                continue
            if not miss and not maybe:
                self.run_handler(h, st, exc, normals)
                return
            # split on the class of the exception
            f = Or(*[type_atom('isinst', exc.term, n) for n in names])
            s2 = st.copy()
            caught = exc.narrowed(hit + [
                c if c != ANY else n for c in maybe
                for n in (names if c == ANY else (c, ))
            ], exc.excl)
            self.exc_of[exc.term] = exc
            if s2.guard(f):
                self.run_handler(h, s2, caught, normals)
            if not st.guard(Not(f)):
                return
            exc = exc.narrowed(
                miss + maybe,
                exc.excl + tuple(names) if maybe else exc.excl)
        self.K.raises.append(Raise(st, exc))

    def exc_names(self, st, tv):
        tv = self.resolve(st, tv)
        if tv.op in ('tuple', 'list'):
            out = []
            for x in tv.args:
                out += self.exc_names(st, x)
            return out
        h = self.h(st, tv)
        if h is not None and h.kind == 'list':
            return self.exc_names(st, h.val)
        n = self.type_name(tv)
        if n is None:
            raise AnalysisBroken('exception class at %s cannot be resolved' %
                                 self.site())
        return [n]

    def match(self, c, names, excl):
        if c == ANY:
            for n in names:
                if n in ('Exception', 'BaseException'):
                    return True
            # classes already excluded
            left = [
                n for n in names
                if not any(self.hier(n, x) is True for x in excl)
            ]
            return None if left else False
        rs = [self.hier(c, n) for n in names]
        if any(r is True for r in rs):
            return True
        if any(r is None for r in rs):
            return None
        # a maybe: the handler names a subclass of c
        if any(self.hier(n, c) is True for n in names) and c not in names:
            return None
        return False

    def run_handler(self, h, st, exc, normals):
        if h.name:
            st.frame()[h.name] = exc.term
            self.exc_of[exc.term] = exc
        self.cur_exc.append(exc)
        save = self.exc_of.get(exc.term)
        self.exc_of[exc.term] = exc
        outs = (normals, self.K.rets, self.K.brks, self.K.conts)
        n = [len(x) for x in outs]
        was = list(st.facts)
        try:
            self.exec_block(h.body, st)
            if h.name:
                st.frame()[h.name] = UNBOUND
            normals.append(st)
        except Dead:
            pass
        finally:
            if [len(x) for x in outs] != n and not self.spec:
                self.swallowed.append((exc, self.site(h), was))
            self.cur_exc.pop()
            if save is not None:
                self.exc_of[exc.term] = save

    # ---- with
    def x_With(self, node, st):
        self.with_items(list(node.items), node.body, st)

    def with_items(self, items, body, st):
        if not items:
            self.exec_block(body, st)
            return
        it = items[0]
        v = self.resolve(st, self.eval(it.context_expr, st))
        rest = items[1:]

        def inner(s, val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, s)
            self.with_items(rest, body, s)

        if v.op == 'ctxcall':
            self.ctx_generator(v, st, inner)
            return
        if v.op == 'suppress':
            K0 = self.K
            Kb = K([], K0.rets, K0.brks, K0.conts)
            self.K = Kb
            normals = []
            s = st.copy()
            try:
                inner(s, NONE)
                normals.append(s)
            except Dead:
                pass
            self.K = K0
            h = ast.ExceptHandler(type=None, name=None, body=[ast.Pass()])
            for r in Kb.raises:
                r.state.fid = st.fid
                self.handle_named(v.args[0], r, normals)
            if not normals:
                raise Dead()
            st.become(merge_states(normals))
            return
        h = self.h(st, v)
        if h is not None and h.kind == 'rec':
            c = self.p.classes.get(h.cls)
            en = self.lookup_cls(c, '__enter__') if c else None
            ex = self.lookup_cls(c, '__exit__') if c else None
            if en and ex:
                val = self.call(st, mk('bm', v, self.func_value(en[1][1])),
                                (), (), it.context_expr)
                exf = mk('bm', v, self.func_value(ex[1][1]))
                K0 = self.K
                Kb = K([], [], [], [])
                self.K = Kb
                normals = []
                s = st.copy()
                try:
                    inner(s, val)
                    normals.append(s)
                except Dead:
                    pass
                self.K = K0
                outs = []
                for s in normals:
                    try:
                        self.call(s, exf, (NONE, NONE, NONE), (),
                                  it.context_expr)
                        outs.append(s)
                    except Dead:
                        pass
                for lst, dst in ((Kb.rets, K0.rets), (Kb.brks, K0.brks),
                                 (Kb.conts, K0.conts)):
                    for s in lst:
                        try:
                            ret = s.frames[s.fid].get('$ret')
                            self.call(s, exf, (NONE, NONE, NONE), (),
                                      it.context_expr)
                            if ret is not None:
                                s.frames[s.fid]['$ret'] = ret
                            dst.append(s)
                        except Dead:
                            pass
                for r in Kb.raises:
                    s = r.state
                    s.fid = st.fid
                    et = mk('typeof', r.exc.term)
                    self.exc_of[r.exc.term] = r.exc
                    try:
                        res = self.call(s, exf, (et, r.exc.term,
                                                 self.fresh_unk('tb')), (),
                                        it.context_expr)
                        f = self.truth(s, res)
                        v2 = s.val(f)
                        s2 = s.copy()
                        if v2 is not False and s2.guard(f):
                            outs.append(s2)
                        if v2 is not True and s.guard(Not(f)):
                            self.K.raises.append(Raise(s, r.exc))
                    except Dead:
                        pass
                if not outs:
                    raise Dead()
                st.become(merge_states(outs))
                return
        self.note('context manager not modelled: %s' %
                  ast.unparse(it.context_expr)[:60])
        if h is not None and h.kind == 'bytesio':
            inner(st, v)
        else:
            t = mk('mcall', self.freeze(st, v), '__enter__', (), ())
            inner(st, t)

    def handle_named(self, names, r, normals):
        st, exc = r.state, r.exc
        hit, miss, maybe = [], [], []
        for c in exc.classes:
            v = self.match(c, names, exc.excl)
            (hit if v is True else miss if v is False else maybe).append(c)
        if not hit and not maybe:
            self.K.raises.append(r)
            return
        if not self.spec:
            self.swallowed.append((exc, self.site(), list(st.facts)))
        if not miss and not maybe:
            normals.append(st)
            return
        f = Or(*[type_atom('isinst', exc.term, n) for n in names])
        s2 = st.copy()
        if s2.guard(f):
            normals.append(s2)
        if st.guard(Not(f)):
            self.K.raises.append(
                Raise(
                    st,
                    exc.narrowed(
                        miss + maybe,
                        exc.excl + tuple(names) if maybe else exc.excl)))

    def ctx_generator(self, v, st, inner):
        """with over a @contextmanager generator: the body runs at yield"""
        fn, args, kwargs, _ = v.args
        caller_fid = st.fid
        K0 = self.K
        save_loops = self.loops

        def hook(s, val):
            gen_fid = s.fid
            s.fid = caller_fid
            Kg = self.K
            self.K = K(Kg.raises, K0.rets, K0.brks, K0.conts)
            stk = self.stack.pop()
            saved, self.loops = self.loops, save_loops
            hk = self.yield_hooks.pop()
            try:
                inner(s, val)
            finally:
                self.yield_hooks.append(hk)
                self.loops = saved
                self.stack.append(stk)
                self.K = Kg
            s.fid = gen_fid
            return NONE

        self.yield_hooks.append(hook)
        self.genrun = 'hook'
        try:
            self.call(st, fn, args, kwargs, None)
        finally:
            self.genrun = None
            self.yield_hooks.pop()

    # ---- match
    def x_Match(self, node, st):
        subj = self.eval(node.subject, st)

        def go(s, i):
            if i == len(node.cases):
                return NONE
            c = node.cases[i]
            f, binds = self.pattern(s, c.pattern, subj)

            def yes(s2):
                for n, v in binds:
                    s2.frame()[n] = v
                if c.guard is not None:
                    g = self.cond(c.guard, s2)
                    return self.branch(s2, g, body, lambda s3: go(s3, i + 1))
                return body(s2)

            def body(s2):
                self.exec_block(c.body, s2)
                return NONE

            return self.branch(s, f, yes, lambda s2: go(s2, i + 1))

        go(st, 0)

    def pattern(self, st, p, v):
        if isinstance(p, ast.MatchValue):
            return self.equal(st, v, self.eval(p.value, st)), []
        if isinstance(p, ast.MatchSingleton):
            return self.equal(st, v, const(p.value)), []
        if isinstance(p, ast.MatchOr):
            fs = []
            for q in p.patterns:
                f, b = self.pattern(st, q, v)
                fs.append(f)
            return Or(*fs), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            f, b = self.pattern(st, p.pattern, v)
            return f, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchClass):
            cv = self.eval(p.cls, st)
            f = self.isinstance_formula(st, v, cv)
            binds = []
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.map_leaves(st, v, lambda l: self.mkattr(l, a) if self.
                                    pure_attr(st, l, a) is None else self.
                                    pure_attr(st, l, a))
                g, b = self.pattern(st, q, x)
                f = And(f, g)
                binds += b
            if p.patterns:
                for q in p.patterns:
                    g, b = self.pattern(st, q, v)
                    f = And(f, g)
                    binds += b
            return f, binds
        if isinstance(p, ast.MatchSequence) and not any(
                isinstance(q, ast.MatchStar) for q in p.patterns):
            fv = self.freeze(st, v)
            f = eq(length(fv), const(len(p.patterns)))
            binds = []
            for i, q in enumerate(p.patterns):
                g, b = self.pattern(st, q, item(fv, const(i)))
                f = And(f, g)
                binds += b
            return f, binds
        if isinstance(p, ast.MatchMapping):
            fv = self.freeze(st, v)
            f = self.isinst(st, fv, 'dict')
            binds = []
            for kx, q in zip(p.keys, p.patterns):
                kv = self.eval(kx, st)
                g, b = self.pattern(st, q, item(fv, kv))
                f = And(f, has(fv, kv), g)
                binds += b
            return f, binds
        self.note('pattern %s' % type(p).__name__)
        return mk('nondet', 'pattern', next(_uniq)), []

    # ------------------------------------------------------------ loops
    def concrete_elements(self, st, v):
        """list of element terms when statically known, else None"""
        h = self.h(st, v)
        if h is not None:
            if h.kind == 'rec':
                return None
            if type(h.val) is T:
                v = self.resolve(st, h.val)
            else:
                return None
        if v.op in ('tuple', 'list', 'set'):
            return list(v.args)
        if v.op == 'nt':
            return [x for n, x in v.args[1]]
        if v.op in ('urlparse', 'urlsplit'):
            return self.url_fields(v)
        if v.op == 'dict':
            return [k for k, x in v.args]
        if v.op == 'aslist' or v.op == 'asset':
            return self.concrete_elements(st, v.args[0])
        if v.op == 'const' and v.args[0] == 'str':
            return [const(c) for c in cval(v)]
        if v.op == 'const' and v.args[0] == 'bytes':
            return [const(c) for c in cval(v)]
        if v.op == 'range' and all(is_const(a) for a in v.args):
            r = range(*[cval(a) for a in v.args])
            if len(r) <= MAX_UNROLL:
                return [const(i) for i in r]
        if v.op == 'cls':
            c = self.p.classes.get(v.args[0])
            if c is not None and c.kind == 'enum':
                return [
                    mk('enum', c.qual, n, x) for n, x in self.enum_members(c)
                ]
        if v.op == 'keys':
            return self.concrete_elements(st, v.args[0]) if v.args[
                0].op == 'dict' or v.args[0].op == 'obj' else None
        if v.op == 'objdict':
            fs = self.objdict_items(st, v)
            if fs is not None:
                return [const(n) for n, x in fs]
            return None
        if v.op == 'values':
            d = self.dict_items(st, v.args[0])
            return None if d is None else [x for k, x in d]
        if v.op == 'items':
            d = self.dict_items(st, v.args[0])
            return None if d is None else [mk('tuple', k, x) for k, x in d]
        if v.op == 'enumerate':
            e = self.concrete_elements(st, v.args[0])
            s0 = cval(v.args[1]) if is_const(v.args[1]) else None
            if e is None or s0 is None:
                return None
            return [mk('tuple', const(i + s0), x) for i, x in enumerate(e)]
        if v.op == 'zip':
            es = [self.concrete_elements(st, a) for a in v.args]
            if any(e is None for e in es):
                # unequal knowledge: bounded by the shortest known
                return None
            return [mk('tuple', *x) for x in zip(*es)]
        if v.op == 'reversed':
            e = self.concrete_elements(st, v.args[0])
            return None if e is None else list(reversed(e))
        if v.op == 'cat':
            out = []
            for a in v.args:
                e = self.concrete_elements(st, a)
                if e is None or static_type(a) in ('str', 'bytes'):
                    return None
                out += e
            return out
        return None

    def dict_items(self, st, d):
        h = self.h(st, d)
        if h is not None and h.kind == 'dict':
            d = h.val
        if d.op == 'dict':
            return list(d.args)
        if d.op == 'objdict':
            fs = self.objdict_items(st, d)
            return None if fs is None else [(const(n), v) for n, v in fs]
        return None

    def objdict_items(self, st, v):
        o = v.args[0]
        h = self.h(st, o)
        if h is not None and h.kind == 'rec':
            return [(n, x) for n, x in h.val.items() if x is not UNBOUND]
        if o.op == 'rec':
            return list(o.args[1])
        return None

    def generic_element(self, st, coll):
        """(binder coll, lvl, element term, index term or None, filter)"""
        coll = self.freeze(st, coll)
        filt = TRUE
        idx = None
        if coll.op == 'enumerate':
            c, l, e, i, f = self.generic_element(st, coll.args[0])
            ix = mk('idx', c, l)
            if coll.args[1] is not const(0):
                ix = lin_add(ix, coll.args[1])
            return c, l, mk('tuple', ix, e), ix, f
        if coll.op == 'items':
            d = coll.args[0]
            c, l, e, i, f = self.generic_element(st, keys(d))
            return c, l, mk('tuple', e, item(d, e)), None, f
        if coll.op == 'values':
            d = coll.args[0]
            c, l, e, i, f = self.generic_element(st, keys(d))
            return c, l, item(d, e), None, f
        if coll.op in ('reversed', 'aslist', 'asset'):
            return self.generic_element(st, coll.args[0])
        if coll.op == 'range' and len(coll.args) == 1:
            n = coll.args[0]
            if n.op == 'len':
                base = norm_coll(n.args[0])
                lvl = self.lvl_of(base)
                return base, lvl, mk('idx', base, lvl), None, TRUE
        if coll.op == 'zip':
            parts = [self.generic_element(st, a) for a in coll.args]
            c0, l0 = parts[0][0], parts[0][1]
            els = []
            for (c, l, e, i, f) in parts:
                if c is c0 and l == l0:
                    els.append(e)
                else:
                    # aligned by position
                    els.append(mk('item', c, mk('idx', c0, l0)))
            # zip stops at the shorter: only sound when lengths agree; keep
            # the collection distinct so facts about it stay separate
            if all(c is c0 for (c, l, e, i, f) in parts):
                return c0, l0, mk('tuple', *els), None, And(
                    *[f for (_, _, _, _, f) in parts])
            lvl = self.lvl_of(coll)
            e = mk('elem', coll, lvl)
            return coll, lvl, mk(
                'tuple',
                *[item(e, const(j)) for j in range(len(coll.args))]), None, \
                TRUE
        if coll.op == 'comp':
            c2, l2, kind, val, cond = coll.args
            if kind == 'dict':
                val = val.args[0]
            lvl = self.lvl_of(c2)
            if lvl != l2:
                m = {elem(c2, l2): elem(c2, lvl), mk('idx', c2, l2):
                     mk('idx', c2, lvl)}
                val, cond = subst(val, m), subst(cond, m)
            return c2, lvl, val, None, cond
        if coll.op == 'keys' and coll.args[0].op == 'comp' and coll.args[
                0].args[2] == 'dict':
            return self.generic_element(st, coll.args[0])
        d = self.dtype(coll)
        if ('map', 'dict') in type_members(d) or self.known_type(
                st, coll) == 'dict':
            coll = keys(coll)
        coll = norm_coll(coll)
        lvl = self.lvl_of(coll)
        return coll, lvl, mk('elem', coll, lvl), None, TRUE

    def element_facts(self, coll, e):
        """what holds of every element e of coll"""
        base = coll
        while base.op in ('slice', 'aslist', 'asset', 'reversed'):
            base = base.args[0]
        if base is coll or base.op != 'comp':
            return ()
        c2, l2, kind, val, cond = base.args
        if val is mk('elem', c2, l2) and cond is not TRUE:
            return (subst(cond, {val: e}), )
        return ()

    def enter_element(self, st, coll, el):
        """assume what is known of every element about this one"""
        fs = list(self.element_facts(coll, el))
        for lvl, body in st.ctx.univ.get(coll, ()):
            m = {elem(coll, lvl): el}
            if lvl != el.args[1]:
                m[mk('idx', coll, lvl)] = mk('idx', coll, el.args[1])
            fs.append(Not(subst(body, m)))
        for f in fs:
            st.assume(f)

    def known_type(self, st, t):
        s = static_type(t)
        if s:
            return s
        if t.gam:
            g = first_gamma(t)
            if g is not None:
                c = g.args[0]
                a, b = choose_guard(t, c, True), choose_guard(t, c, False)
                if a is not t and b is not t:
                    x = self.known_under(st, c, a)
                    y = self.known_under(st, Not(c), b)
                    return x if x == y else None
        r = st.ctx.find(t)
        ty = st.ctx.types.get(r)
        if ty:
            return ty
        for ty in ('dict', 'str', 'bytes', 'list', 'tuple'):
            if st.ctx.assign.get(type_atom('isinst', t, ty)):
                return ty
        d = self.dtype(t)
        ms = [m for m in type_members(d) if m != ('ext', 'NoneType')]
        if len(ms) == 1:
            if ms[0][0] == 'ext':
                return ms[0][1]
            if ms[0][0] == 'map':
                return 'dict'
            if ms[0][0] == 'seq' and ms[0][1] in ('list', 'set', 'tuple'):
                return ms[0][1]
            if ms[0][0] == 'tup':
                return 'tuple'
        return None

    def known_under(self, st, c, t):
        """the type of t where c holds"""
        s = self.known_type(st, t)
        if s is not None:
            return s
        for ty in ('dict', 'str', 'bytes', 'list', 'tuple', 'int'):
            f = Or(Not(c), type_atom('typeis', t, ty))
            if st.val(f) is True or f in st.facts or entails(
                    st.ctx, f, 60):
                return ty
        return None

    SHOWN = {'str', 'bytes', 'bytearray', 'bool', 'float', 'NoneType', 'type'}

    def unprintable(self, st, t):
        """May turning the value into text fail? Decoded integers can exceed
        the limit for conversion, decoded containers the nesting limit."""
        if is_const(t):
            return False
        if t.op == 'gamma':
            return self.unprintable(st, t.args[1]) or self.unprintable(
                st, t.args[2])
        if t.op in ('list', 'tuple', 'set', 'frozenset', 'dict'):
            return any(
                self.unprintable(st, x) for a in t.args
                for x in (a if type(a) is tuple else (a, ))
                if type(x) is T)
        if t.op in ('keys', 'setdiff', 'setunion', 'setinter', 'asset',
                    'aslist', 'values', 'items'):
            return any(self.unprintable_part(st, x) for x in t.args
                       if type(x) is T)
        if t.op in ('comp', 'flat'):
            c, l, kind, val, cond = t.args
            s = st.copy()
            if elem(c, l).op == 'elem':
                self.enter_element(s, c, elem(c, l))
            s.assume(cond)
            return self.unprintable(s, val)
        if t.op == 'item' and (t.args[0].op in ('list', 'tuple', 'flat') or (
                t.args[0].op == 'comp' and t.args[0].args[2] != 'dict')):
            return self.unprintable(st, t.args[0])
        if t.op in ('elem', 'choose', 'last') and t.args[0].op == 'range':
            return False
        if t.op in ('item', 'elem', 'choose', 'last', 'cborload', 'jsonload',
                    'unk', 'param'):
            r = st.ctx.find(t)
            ty = static_type(t) or st.ctx.types.get(r)
            if ty in self.SHOWN:
                return False
            if st.ctx.const_of(t) is not None:
                return False
            ms = type_members(self.dtype(t))
            return any(m == ('any', ) or m[0] in ('map', 'seq', 'tup') or m in
                       (('ext', 'dict'), ('ext', 'list'), ('ext', 'tuple'))
                       for m in ms) and not self.isstr(st, t)
        return False

    def isstr(self, st, t):
        return any(
            st.ctx.assign.get(type_atom('isinst', t, ty)) for ty in ('str', 'bytes'))

    def unprintable_part(self, st, t):
        """the elements of a collection"""
        if t.op in ('keys', 'setdiff', 'setunion', 'setinter', 'asset',
                    'aslist', 'values', 'items'):
            return any(self.unprintable_part(st, x) for x in t.args
                       if type(x) is T)
        if t.op in ('set', 'list', 'tuple', 'dict', 'frozenset'):
            return self.unprintable(st, t)
        if is_const(t):
            return False
        if t.op in ('comp', 'flat'):
            return self.unprintable(st, t)
        return t.op in ('item', 'elem', 'choose', 'last', 'cborload',
                        'jsonload', 'unk', 'param')

    def text(self, st, *parts):
        """The text form of some values."""
        t = mk('fmt', *parts)
        if not self.spec and any(
                self.unprintable(st, p) for p in parts if type(p) is T):
            self.may_raise(st, t, ('ValueError', 'RecursionError'),
                           'text form of a decoded value')
        return t

    def lvl_of(self, coll):
        return sum(1 for c in self.loops if c is coll)

    def iter_check(self, st, v):
        """iterating over a value that may not be iterable"""
        f = self.freeze(st, v)
        self.doubted(st, f, 'iteration', ('TypeError', ))
        cond = self.maybe_none(st, f)
        if cond is not FALSE:
            self.raise_if(st, cond, ('TypeError', ),
                          'iteration over a value that may be None')
        if f.op in ('item', 'elem', 'unk') and self.dtype(f) == (
                'any', ) and self.known_type(st, f) is None:
            self.check_types(st, f, ('list', 'tuple', 'dict', 'str', 'bytes',
                                     'set'), 'iteration over a value that '
                             'may not be iterable')

    def known_among(self, st, f, types):
        ok = Or(*[type_atom('typeis', f, t) for t in types],
                *[type_atom('isinst', f, t) for t in types])
        return st.val(ok) is True or entails(st.ctx, ok, 100)

    def check_types(self, st, f, types, origin):
        """TypeError unless f is of one of these builtin types"""
        if self.spec or self.known_among(st, f, types):
            return
        ok = Or(*[type_atom('typeis', f, t) for t in types],
                *[type_atom('isinst', f, t) for t in types])
        self.raise_if(st, Not(ok), ('TypeError', ), origin)

    def x_For(self, node, st):
        v = self.eval(node.iter, st)
        self.node = node

        def on(s, leaf):
            self.for_leaf(node, s, leaf)
            return NONE

        def iters(s, leaf):
            if not self.isiter(s, leaf):
                self.on_leaves(s, self.lift(s, leaf), on)
                return NONE
            h = s.heap[leaf.args[0]]
            if type(h.val) is tuple and not node.orelse:
                meta = self.thunks[h.val[1]][3]
                if meta is not None and self.inlineable(node, meta[1]):
                    self.for_yields(node, s, leaf, meta, h.val[2:])
                    return NONE
            c = self.take(s, leaf, True)
            self.on_leaves(s, self.lift(s, c), on)
            if not any(isinstance(x, (ast.Break, ast.Return))
                       for b in node.body for x in ast.walk(b)):
                s.heap[leaf.args[0]] = H('iter', None, mk('list'), None)
            return NONE

        v = self.resolve(st, v)
        if v.op == 'gamma' and not any(self.isiter(st, x)
                                       for g, x in leaves(v)):
            self.on_leaves(st, self.lift(st, v), on)
        else:
            self.on_leaves(st, v, iters)

    def inlineable(self, node, gen):
        """the body of the loop can run where the generator yields"""
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Return, ast.Continue,
                                  ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                    return False
        if not isinstance(node.target, ast.Name) or \
                self.stored_names(node) != {node.target.id}:
            return False
        return not any(isinstance(x, (ast.Try, ast.With, ast.YieldFrom))
                       for x in ast.walk(gen))

    def for_yields(self, node, st, it, meta, ts):
        _, gen, mod, qual, names, parent, cls = meta
        caller = st.fid
        st.heap[it.args[0]] = H('iter', None, mk('list'), None)

        def hook(s, v):
            fid, s.fid = s.fid, caller
            stk = self.stack.pop()
            hk = self.yield_hooks.pop()
            K0 = self.K
            self.K = K(K0.raises, [], [], [])
            try:
                self.assign(node.target, v, s)
                self.exec_block(node.body, s)
            finally:
                self.K = K0
                self.yield_hooks.append(hk)
                self.stack.append(stk)
            s.fid = fid
            return NONE

        self.yield_hooks.append(hook)
        self.genrun = 'hook'
        try:
            self.run_body(st, gen, mod, qual, dict(zip(names, ts)), parent,
                          cls)
        finally:
            self.yield_hooks.pop()
        self.assign(node.target, self.fresh_unk('last yielded'), st)

    def for_leaf(self, node, st, v):
        els = self.concrete_elements(st, v)
        if els is not None and len(els) <= MAX_UNROLL:
            self.unrolled(node, st, els)
            return
        self.iter_check(st, v)
        self.generic_loop(node, st, v)

    def unrolled(self, node, st, els):
        K0 = self.K
        brks = []
        cur = st
        alive = True
        for e in els:
            kk = K(K0.raises, K0.rets, brks, [])
            self.K = kk
            try:
                self.assign(node.target, e, cur)
                self.exec_block(node.body, cur)
                outs = [cur.copy()]
            except Dead:
                outs = []
            finally:
                self.K = K0
            outs += kk.conts
            if not outs:
                alive = False
                break
            cur.become(merge_states(outs))
        outs = []
        if alive:
            try:
                self.exec_block(node.orelse, cur)
                outs.append(cur.copy())
            except Dead:
                pass
        outs += brks
        if not outs:
            raise Dead()
        st.become(merge_states(outs))

    def stored_names(self, node):
        out = set()
        for b in node.body + ([node.target] if hasattr(node, 'target') else
                              []):
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        return out

    def frame_with(self, st, name):
        """frame id a name's store would go to"""
        fr = st.frame()
        if name in fr.get('$nonlocals', ()):
            fid = fr.get('$parent')
            while fid is not None and fid in st.frames:
                if name in st.frames[fid]:
                    return fid
                fid = st.frames[fid].get('$parent')
        return st.fid

    def generic_loop(self, node, st, v, bind=None):
        """One generic iteration; see the module comment."""
        coll, lvl, e, _, filt = self.generic_element(st, v)
        el = mk('elem', coll, lvl)
        ix = mk('idx', coll, lvl)
        names = self.stored_names(node)
        tnames = {n.id for n in ast.walk(node.target)
                  if isinstance(n, ast.Name)} if hasattr(
                      node, 'target') else set()
        self.loops = self.loops + [coll]
        try:
            mutated = {}
            for attempt in range(4):
                lid = next(_uniq)
                r = self.loop_once(node, st, coll, lvl, el, e, filt, names,
                                   tnames, mutated, lid)
                more = r['newmut']
                if not more:
                    break
                mutated.update(more)
            else:
                self.note('loop effects did not stabilise')
        finally:
            self.loops = self.loops[:-1]
        self.loop_finish(node, st, coll, lvl, el, ix, r, tnames)

    def loop_once(self, node, st, coll, lvl, el, e, filt, names, tnames,
                  mutated, lid):
        K0 = self.K
        kk = K([], [], [], [])
        B = st.copy()
        phis = {}
        for n in names - tnames:
            fid = self.frame_with(B, n)
            if n in B.frames[fid] and type(B.frames[fid][n]) is T:
                cur = self.resolve(B, B.frames[fid][n])
                ph = mk('phi', n, lid)
                phis[('v', fid, n)] = (ph, cur)
                ty = self.phi_type(cur)
                if ty:
                    self.set_type(ph, ty)
                if self.h(B, cur) is not None:
                    # rebinding of an object variable: treated as unknown
                    pass
                B.frames[fid][n] = ph
        for oid in mutated:
            h = B.heap.get(oid)
            if h is None:
                continue
            if h.kind == 'rec':
                val = {}
                for k, x in h.val.items():
                    if k in mutated[oid]:
                        ph = mk('phi', k, oid, lid)
                        phis[('f', oid, k)] = (ph, x)
                        val[k] = ph
                    else:
                        val[k] = x
                B.heap[oid] = h.with_val(val)
            elif h.kind == 'iter':
                B.heap[oid] = h.with_val(self.unknown_rest())
            elif type(h.val) is tuple:
                ph = mk('phi', 'obj', oid, lid)
                phis[('t', oid)] = (ph, h.val)
                if h.kind == 'bytesio':
                    B.heap[oid] = h.with_val((h.val[0], ph))
                    self.set_type(ph, ('ext', 'int'))
                else:
                    B.heap[oid] = h.with_val((h.val[0], ph))
            else:
                ph = mk('phi', 'obj', oid, lid)
                phis[('o', oid)] = (ph, h.val)
                B.heap[oid] = h.with_val(ph)
        self.enter_element(B, coll, el)
        base_facts = dict(B.facts)
        p0 = len(B.trail)
        ev0 = B.events
        if filt is not TRUE:
            B.assume(filt)
            base_facts = dict(B.facts)
        B.frames[B.fid]['$inloop'] = const(1)
        self.K = kk
        normals = []
        heap0 = dict(B.heap)
        try:
            try:
                if hasattr(node, 'target'):
                    self.assign(node.target, e, B)
                self.nloop += 1
                try:
                    self.exec_block(node.body, B)
                finally:
                    self.nloop -= 1
                normals.append(B)
            except Dead:
                pass
        finally:
            self.K = K0
        normals += kk.conts
        for s in normals + kk.brks + kk.rets + [r.state for r in kk.raises]:
            pass
        # which pre-existing objects did the normal iteration change
        newmut = {}
        allst = normals
        for s in allst:
            for oid, h0 in heap0.items():
                h1 = s.heap.get(oid)
                if h1 is None or h1 is h0 or oid not in st.heap:
                    continue
                if h0.kind == 'rec':
                    ch = {k for k in set(h0.val) | set(h1.val)
                          if h0.val.get(k) is not h1.val.get(k)}
                    have = mutated.get(oid, set())
                    if not ch <= have:
                        newmut[oid] = ch | have
                elif h0.val is not h1.val and h0.val != h1.val:
                    if oid not in mutated:
                        newmut[oid] = set()
        return dict(kk=kk, normals=normals, phis=phis, base=base_facts, p0=p0,
                    newmut=newmut, filt=filt, lid=lid, ev0=ev0)

    def phi_type(self, cur):
        s = static_type(cur)
        if s in ('int', 'str', 'bytes', 'bool'):
            return ('ext', s)
        return None

    def state_subst(self, s, m):
        """Substitute terms throughout a state."""
        cache = {}

        def go(a):
            if type(a) is T:
                return subst(a, m, cache)
            if type(a) is tuple:
                return tuple(go(x) for x in a)
            return a

        facts = {}
        for f in s.facts:
            facts[go(f)] = True
        facts.pop(TRUE, None)
        s.facts = facts
        s.trail = tuple(go(f) for f in s.trail)
        for fid, fr in s.frames.items():
            for k, v in list(fr.items()):
                if type(v) is T:
                    fr[k] = go(v)
        for oid, h in list(s.heap.items()):
            if h.kind == 'rec':
                s.heap[oid] = h.with_val({k: go(v) for k, v in h.val.items()})
            elif type(h.val) is tuple:
                s.heap[oid] = h.with_val(tuple(
                    go(x) if type(x) is T else x for x in h.val))
            else:
                s.heap[oid] = h.with_val(go(h.val))
        s.soft = tuple(go(f) for f in s.soft)
        s.ctx = prepare(s.facts, s.hier)
        return s.ctx is not None

    def loop_finish(self, node, st, coll, lvl, el, ix, r, tnames):
        kk, phis, base, p0 = r['kk'], r['phis'], r['base'], r['p0']
        filt = r['filt']
        phset = {ph for ph, _ in phis.values()}
        exits = [('raise', x.state, x.exc) for x in kk.raises] + [
            ('ret', s, None) for s in kk.rets
        ] + [('brk', s, None) for s in kk.brks]

        def clean(f):
            return not any(p in phset for p in f.phis)

        conds = []
        for kind, s, exc in exits:
            fs = [f for f in s.facts if f not in base and clean(f)]
            path = [f for f in s.trail[p0:] if clean(f)]
            conds.append(And(filt, *path, *fs))
        early = []
        nk = len(exits)
        notex = TRUE
        ex_formulas = []
        for i, (kind, s, exc) in enumerate(exits):
            tr = And(filt, *[f for f in s.trail[p0:] if clean(f)])
            exf = exists(coll, lvl, tr)
            ex_formulas.append(exf)
        completion_guard = And(*[Not(f) for f in ex_formulas])
        dirty = [
            not all(clean(f) for f in s.trail[p0:])
            for kind, s, exc in exits
        ]
        if any(dirty):
            # an exit that depends on loop state: whether it is taken is not
            # decided by the collection alone
            completion_guard = And(*[
                Not(f) for f, d in zip(ex_formulas, dirty) if not d
            ])
        # exits
        notprev = TRUE
        pre = st.copy()
        for i, (kind, s, exc) in enumerate(exits):
            c = conds[i]
            w = mk('choose', coll, lvl, c)
            wi = mk('chooseidx', coll, lvl, c)
            m = {el: w, ix: wi}
            for ph, init in phis.values():
                m[ph] = self.phi_at_exit(ph, init, coll)
            g = ex_formulas[i]
            if dirty[i]:
                g = And(g, mk('nondet', 'loop exit', r['lid'], i))
            elif nk > 1:
                n_i = mk('nondet', 'first exit', r['lid'], i)
                g = And(g, n_i)
            tail = s.trail[p0:]
            s.trail = s.trail[:p0]
            s.facts = dict(s.facts)
            if not self.state_subst(s, m):
                continue
            # order: the exits before this one were not the one taken
            s.trail = st.trail + ((notprev, ) if notprev is not TRUE else
                                  ()) + (g, )
            if not s.assume(And(notprev, g)):
                continue
            s.assume(subst(c, {k: v for k, v in m.items()}))
            s.assume(exists(coll, lvl, c))
            s.frames[s.fid].pop('$inloop', None)
            notprev = And(notprev, Not(g))
            if kind == 'raise':
                e2 = exc
                t2 = subst(exc.term, m)
                if t2 is not exc.term:
                    e2 = Exc(exc.classes, t2, exc.site, exc.explicit,
                             exc.origin, exc.excl, exc.cause)
                    self.exc_of[t2] = e2
                self.K.raises.append(Raise(s, e2))
            elif kind == 'ret':
                self.K.rets.append(s)
            else:
                early.append(s)
        # completion
        outs = []
        if any(dirty):
            g = And(notprev, completion_guard)
        else:
            g = completion_guard if nk else TRUE
        done = st
        ok = True
        if nk:
            done.trail = done.trail + ((notprev, ) if notprev is not TRUE
                                       else ())
            if notprev is not TRUE:
                ok = done.assume(notprev)
            ok = ok and done.assume(g)
        if r['normals']:
            N = merge_states([s for s in r['normals']])
            if ok:
                # facts of each completed iteration
                nf = [
                    f for f in N.facts
                    if f not in base and clean(f)
                ]
                for f in nf:
                    b = Or(Not(filt), f)
                    if ix in subterms(b):
                        continue
                    if not done.assume(forall(coll, lvl, b)):
                        ok = False
                        break
                self.loop_values(node, done, N, coll, lvl, el, ix, phis,
                                 phset, filt, tnames)
                # events inside the loop: possible
                ev0 = r['ev0']
                extra = N.events[len(ev0):]
                if extra:
                    done.events = done.events + tuple(
                        (mk('nondet', 'in loop', next(_uniq)), ev)
                        for g2, ev in extra)
        else:
            # the body never completes normally: only an empty loop does
            if ok:
                ok = done.assume(
                    Not(exists(coll, lvl, filt)) if filt is not TRUE else
                    Not(truthy(coll, True)))
        if ok:
            done.frames[done.fid].pop('$inloop', None)
            try:
                self.exec_block(node.orelse, done)
                outs.append(done.copy())
            except Dead:
                pass
        outs += early
        if not outs:
            raise Dead()
        st.become(merge_states(outs))

    def phi_at_exit(self, ph, init, coll):
        """value of a loop-carried location when the loop is left early"""
        u = mk('unk', 'loop', ph)
        d = self.ptypes.get(ph)
        if d:
            self.set_type(u, d)
        return u

    def loop_values(self, node, done, N, coll, lvl, el, ix, phis, phset, filt,
                    tnames):
        """Values of loop-carried locations after a completed loop."""
        for key, (ph, init) in phis.items():
            if key[0] == 'v':
                W = N.frames.get(key[1], {}).get(key[2], UNBOUND)
            elif key[0] == 'f':
                h = N.heap[key[1]]
                W = h.val.get(key[2], UNBOUND)
            elif key[0] == 'o':
                W = N.heap[key[1]].val
            else:
                W = N.heap[key[1]].val
                if W == done.heap[key[1]].val:
                    continue
                if W[1] is ph:
                    continue
                done.heap[key[1]] = done.heap[key[1]].with_val(
                    (W[0], self.fresh_unk('pos')))
                continue
            W = self.freeze(N, W) if W is not UNBOUND and not (
                key[0] == 'v' and self.h(N, W) is not None) else W
            r = self.summarise(W, ph, init, coll, lvl, el, ix, phset, filt,
                               key[0] == 'o', done)
            if key[0] == 'v':
                done.frames[key[1]][key[2]] = r
            elif key[0] == 'f':
                h = done.heap[key[1]]
                val = dict(h.val)
                val[key[2]] = r
                done.heap[key[1]] = h.with_val(val)
            else:
                done.heap[key[1]] = done.heap[key[1]].with_val(r)
        # names first bound in the loop
        for fid, fr in N.frames.items():
            if fid not in done.frames or fid == '$O':
                continue
            for k, v in fr.items():
                if type(v) is not T or k.startswith('$'):
                    continue
                if k in tnames or k not in done.frames[fid]:
                    old = done.frames[fid].get(k, UNBOUND)
                    last = self.last_value(v, coll, lvl, el, ix, phset, filt,
                                           N)
                    done.frames[fid][k] = gamma(
                        exists(coll, lvl, filt) if filt is not TRUE else
                        truthy(coll, True), last, old)

    def last_value(self, v, coll, lvl, el, ix, phset, filt, N):
        v = self.freeze(N, v)
        if any(p in phset for p in v.phis) or v.op == 'obj':
            return self.fresh_unk('last')
        if el not in v.elems and ix not in subterms(v):
            return v
        return subst(v, {el: mk('last', coll, lvl, filt),
                         ix: mk('lastidx', coll, lvl, filt)})

    def summarise(self, W, ph, init, coll, lvl, el, ix, phset, filt, isobj,
                  done):
        if W is ph:
            return init
        ini = self.freeze(done, init) if not isobj else init

        def dep(t):
            return any(p in phset for p in t.phis)

        # boolean accumulation
        if is_bool(ini) or ini in (TRUE, FALSE):
            wt = subst(W, {ph: TRUE, mk('truthy', ph): TRUE})
            wf = subst(W, {ph: FALSE, mk('truthy', ph): FALSE})
            if not dep(wt) and not dep(wf):
                i0 = truthy(ini) if not is_formula(ini) else ini
                if wt is TRUE and is_formula(wf):
                    return Or(i0, exists(coll, lvl, And(filt, wf)))
                if wf is FALSE and is_formula(wt):
                    return And(i0, forall(coll, lvl, Or(Not(filt), wt)))
                if is_formula(wt) and is_formula(wf):
                    if wt is wf:
                        pass
        # flag / last assignment
        lv = leaves(W)
        if all(not dep(g) for g, l in lv):
            setl = [(g, l) for g, l in lv if l is not ph]
            if all(not dep(l) for g, l in setl):
                C = And(filt, Or(*[g for g, l in setl]))
                vals = {l for g, l in setl}
                ex = exists(coll, lvl, C)
                if len(vals) == 1:
                    v = vals.pop()
                    if el not in v.elems and ix not in subterms(v):
                        return gamma(ex, v, init)
                    return gamma(
                        ex,
                        subst(v, {el: mk('last', coll, lvl, C),
                                  ix: mk('lastidx', coll, lvl, C)}), init)
                v = setl[-1][1]
                for g, l in reversed(setl[:-1]):
                    v = gamma(g, l, v)
                return gamma(
                    ex,
                    subst(v, {el: mk('last', coll, lvl, C),
                              ix: mk('lastidx', coll, lvl, C)}), init)
            # accumulators: phi ++ piece
            if isobj or True:
                r = self.accum(lv, ph, init, coll, lvl, el, ix, phset, filt)
                if r is not None:
                    return r
        return self.fresh_unk('loop value')

    def accum(self, lv, ph, init, coll, lvl, el, ix, phset, filt):
        """list append, set add, dict store, string concatenation, counter"""
        def dep(t):
            return any(p in phset for p in t.phis)

        adds = []
        for g, l in lv:
            if l is ph:
                continue
            if l.op == 'cat' and l.args[0] is ph and len(l.args) == 2 and \
                    not dep(l.args[1]):
                adds.append((g, 'cat', l.args[1]))
            elif l.op == 'setunion' and l.args[0] is ph and len(
                    l.args) == 2 and not dep(l.args[1]):
                adds.append((g, 'set', l.args[1]))
            elif l.op == 'dstore' and l.args[0] is ph and not dep(
                    l.args[1]) and not dep(l.args[2]):
                adds.append((g, 'dict', mk('tuple', l.args[1], l.args[2])))
            elif l.op == 'lin' and (ph, 1) in l.args[1]:
                rest = lin(l.args[0],
                           tuple(x for x in l.args[1] if x[0] is not ph))
                if dep(rest):
                    return None
                adds.append((g, 'int', rest))
            else:
                return None
        if not adds:
            return init
        kinds = {k for g, k, v in adds}
        if len(kinds) != 1:
            return None
        kind = kinds.pop()
        C = And(filt, Or(*[g for g, k, v in adds]))
        val = adds[-1][2]
        for g, k, v in reversed(adds[:-1]):
            val = gamma(g, v, val)
        if kind == 'int':
            if val is const(1):
                return lin_add(init, count_(coll, lvl, C))
            return lin_add(init, mk('fold', coll, lvl, 'sum', val, C))
        if kind == 'cat':
            # val is list(x) for appends
            if val.op == 'list' and len(val.args) == 1:
                cp = mk('comp', coll, lvl, 'list', val.args[0], C)
                if init.op == 'list' and not init.args:
                    return cp
                return mk('cat', init, cp)
            if static_type(init) in ('str', 'bytes'):
                f = mk('fold', coll, lvl, 'cat', val, C)
                return cat(init, f) if cval_empty(init) is False else f
            return None
        if kind == 'set':
            if val.op == 'set' and len(val.args) == 1:
                cp = mk('comp', coll, lvl, 'set', val.args[0], C)
                if init.op == 'set' and not init.args:
                    return cp
                return mk('setunion', init, cp)
            return None
        if kind == 'dict':
            cp = mk('comp', coll, lvl, 'dict', val, C)
            if init.op == 'dict' and not init.args:
                return cp
            return mk('dmerge', init, cp)
        return None

    def x_While(self, node, st):
        # index loops: i = 0; while i < len(x): ...; i += 1
        r = self.index_while(node, st)
        if r:
            return
        # constant-bounded unrolling
        s = st.copy()
        K0 = self.K
        brks = []
        probe = self.cond_const(node.test, s)
        if probe is not None:
            n = 0
            cur = st
            while n < MAX_UNROLL:
                n += 1
                f = self.cond(node.test, cur)
                v = cur.val(f)
                if v is None:
                    break
                if v is False:
                    outs = []
                    try:
                        self.exec_block(node.orelse, cur)
                        outs.append(cur.copy())
                    except Dead:
                        pass
                    outs += brks
                    if not outs:
                        raise Dead()
                    st.become(merge_states(outs))
                    return
                kk = K(K0.raises, K0.rets, brks, [])
                self.K = kk
                outs = []
                try:
                    self.exec_block(node.body, cur)
                    outs.append(cur.copy())
                except Dead:
                    pass
                finally:
                    self.K = K0
                outs += kk.conts
                if not outs:
                    if not brks:
                        raise Dead()
                    st.become(merge_states(brks))
                    return
                cur.become(merge_states(outs))
        self.havoc_loop(node, st, brks)

    def cond_const(self, test, st):
        s = st.copy()
        K0 = self.K
        self.K = K([], [], [], [])
        try:
            f = self.cond(test, s)
            return s.val(f)
        except Dead:
            return None
        finally:
            self.K = K0

    def index_while(self, node, st):
        t = node.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and isinstance(t.left, ast.Name)
                and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
            return False
        name = t.left.id
        fr = st.frame()
        if name not in fr or self.resolve(st, fr[name]) is not const(0):
            return False
        # exactly one store to the index: += 1 as last statement, no continue
        last = node.body[-1]
        if not (isinstance(last, ast.AugAssign)
                and isinstance(last.target, ast.Name)
                and last.target.id == name and isinstance(last.op, ast.Add)
                and isinstance(last.value, ast.Constant)
                and last.value.value == 1):
            return False
        for b in node.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Continue):
                    return False
                if isinstance(n, ast.Name) and n.id == name and isinstance(
                        n.ctx, ast.Store):
                    return False
        s = st.copy()
        K0 = self.K
        self.K = K([], [], [], [])
        try:
            n = self.eval(t.comparators[0], s)
        except Dead:
            return False
        finally:
            self.K = K0
        n = self.resolve(st, n)
        if n.op != 'len':
            return False
        loop = ast.For(target=ast.Name(id=name, ctx=ast.Store()),
                       iter=ast.Constant(value=None),
                       body=node.body[:-1] or [ast.Pass()],
                       orelse=node.orelse)
        ast.copy_location(loop, node)
        ast.fix_missing_locations(loop)
        self.for_leaf(loop, st, mk('range', n))
        return True

    def havoc_loop(self, node, st, brks0):
        """A loop of unknown shape: forget what it may assign."""
        self.note('loop summarised by forgetting')
        names = self.stored_names(node)
        K0 = self.K
        mut = set()
        for attempt in range(4):
            B = st.copy()
            for n in names:
                fid = self.frame_with(B, n)
                if n in B.frames[fid]:
                    B.frames[fid][n] = self.fresh_unk(n)
            for oid in mut:
                self.havoc_obj(B, oid)
            heap0 = dict(B.heap)
            kk = K([], [], [], [])
            self.K = kk
            try:
                f = self.cond(node.test, B) if hasattr(node, 'test') else \
                    mk('nondet', 'iterate', next(_uniq))
                if not hasattr(node, 'test'):
                    self.assign(node.target, self.fresh_unk('element'), B)
                E = B.copy()
                exited = E.guard(Not(f))
                outs = []
                if B.guard(f):
                    self.nloop += 1
                    try:
                        self.exec_block(node.body, B)
                    finally:
                        self.nloop -= 1
                    outs.append(B)
            except Dead:
                outs = []
                exited = False
            finally:
                self.K = K0
            outs += kk.conts
            new = set()
            for s in outs:
                for oid, h0 in heap0.items():
                    h1 = s.heap.get(oid)
                    if h1 is not None and h1 is not h0 and oid not in mut:
                        if oid in st.heap:
                            new.add(oid)
            if not new:
                break
            mut |= new
        self.K.raises.extend(kk.raises)
        self.K.rets.extend(kk.rets)
        outs = list(brks0) + kk.brks
        if exited:
            try:
                self.exec_block(node.orelse, E)
                outs.append(E)
            except Dead:
                pass
        if not outs:
            raise Dead()
        st.become(merge_states(outs))

    def havoc_obj(self, st, oid):
        h = st.heap[oid]
        if h.kind == 'rec':
            st.heap[oid] = h.with_val(
                {k: self.fresh_unk(k)
                 for k in h.val})
        elif type(h.val) is tuple and h.kind != 'iter':
            st.heap[oid] = h.with_val((h.val[0], self.fresh_unk('pos')))
        else:
            st.heap[oid] = h.with_val(self.fresh_unk('content'))

    x_AsyncFor = None

    # ------------------------------------------------------------ expressions
    def cond(self, node, st):
        """a boolean formula for a test"""
        if isinstance(node, ast.BoolOp):
            return self.bool_cond(node, st)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return Not(self.cond(node.operand, st))
        return self.truth(st, self.eval(node, st))

    def bool_cond(self, node, st):
        isand = isinstance(node.op, ast.And)

        def go(s, i):
            f = self.cond(node.values[i], s)
            if i == len(node.values) - 1:
                return f
            v = s.val(f)
            if v is not None:
                if v == isand:
                    return go(s, i + 1)
                return FALSE if isand else TRUE
            rest = node.values[i + 1:]
            if all(self.simple(n) for n in rest):
                # evaluate under the assumption, without a fork
                pass
            if isand:
                return self.branch(s, f, lambda s2: go(s2, i + 1),
                                   lambda s2: FALSE)
            return self.branch(s, f, lambda s2: TRUE,
                               lambda s2: go(s2, i + 1))

        r = go(st, 0)
        return self.truth(st, r)

    def simple(self, n):
        return isinstance(n, (ast.Name, ast.Constant))

    def eval(self, node, st):
        self.node = node if hasattr(node, 'lineno') else self.node
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.note('expression %s not modelled' % type(node).__name__)
            return self.fresh_unk(type(node).__name__)
        if st.moved:
            return self.relocate(st, m(node, st))
        return m(node, st)

    def e_Constant(self, node, st):
        v = node.value
        if isinstance(v, (int, str, bytes, float, bool, type(None),
                          type(Ellipsis))):
            return const(v)
        return self.fresh_unk('const')

    def e_Name(self, node, st):
        return self.lookup_name(st, node.id, node)

    def e_Attribute(self, node, st):
        o = self.eval(node.value, st)
        self.node = node
        return self.get_attr(st, o, node.attr, node)

    def e_Tuple(self, node, st):
        return self.display(node.elts, st, 'tuple')

    def display(self, nodes, st, op):
        """a tuple, list or set display; where what is unpacked into it has
        alternatives of different shape, so has the display"""
        alts = [(TRUE, ())]
        for e in nodes:
            if isinstance(e, ast.Starred):
                v = self.take(st, self.eval(e.value, st))
                els = self.concrete_elements(st, self.resolve(st, v))
                if els is None:
                    lv = self.lift(st, v)
                    ls = list(leaves(lv)) if lv.op == 'gamma' else [
                        (TRUE, v)]
                    if len(ls) * len(alts) > 16:
                        ls = [(TRUE, v)]
                    new = []
                    for g, x in ls:
                        ex = self.concrete_elements(st, x)
                        if ex is None:
                            ex = [mk('star', self.freeze(st, x))]
                        new += [(And(c, g), a + tuple(ex)) for c, a in alts]
                    alts = new
                    continue
            else:
                els = [self.eval(e, st)]
            alts = [(c, a + tuple(els)) for c, a in alts]
        r = None
        for c, a in reversed(alts):
            x = mk('tuple', *a) if op == 'tuple' else self.seq_content(
                op, list(a))
            r = x if r is None else gamma(c, x, r)
        return r

    def e_List(self, node, st):
        return self.new(st, 'list', None, self.display(node.elts, st, 'list'))

    def seq_content(self, op, els):
        if any(e.op == 'star' for e in els):
            parts = []
            for e in els:
                if e.op == 'star':
                    parts.append(mk('aslist', e.args[0]))
                elif parts and parts[-1].op == 'list':
                    parts[-1] = mk('list', *parts[-1].args, e)
                else:
                    parts.append(mk('list', e))
            if len(parts) == 1:
                return parts[0]
            return mk('cat', *parts) if op == 'list' else mk(
                'setunion', *parts)
        return mk(op, *els)

    def e_Set(self, node, st):
        return self.new(st, 'set', None, self.display(node.elts, st, 'set'))

    def e_Dict(self, node, st):
        d = mk('dict')
        o = self.new(st, 'dict', None, d)
        for k, v in zip(node.keys, node.values):
            if k is None:
                m = self.eval(v, st)
                self.method(st, o, 'update', (m, ), (), node)
            else:
                kt = self.eval(k, st)
                vt = self.eval(v, st)
                self.set_item(st, o, kt, vt, node)
        return o

    def e_Lambda(self, node, st):
        return self.make_closure(st, node, '<lambda>')

    def e_IfExp(self, node, st):
        f = self.cond(node.test, st)
        return self.branch(st, f, lambda s: self.eval(node.body, s),
                           lambda s: self.eval(node.orelse, s))

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)

        def go(s, i):
            v = self.eval(node.values[i], s)
            if i == len(node.values) - 1:
                return v
            f = self.truth(s, v)
            if isand:
                return self.branch(s, f, lambda s2: go(s2, i + 1),
                                   lambda s2: FALSE if is_bool(v) else v)
            return self.branch(s, f, lambda s2: TRUE
                               if is_bool(v) else v,
                               lambda s2: go(s2, i + 1))

        return go(st, 0)

    def e_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            return Not(self.cond(node.operand, st))
        v = self.eval(node.operand, st)

        def leaf(x):
            if is_const(x) and isinstance(cval(x), (int, float)):
                if isinstance(node.op, ast.USub):
                    return const(-cval(x))
                if isinstance(node.op, ast.UAdd):
                    return const(+cval(x))
                return const(~cval(x))
            if isinstance(node.op, ast.USub):
                return lin(0, ((x, -1), ))
            return mk('unary', type(node.op).__name__, x)

        return self.map_leaves(st, v, leaf)

    def e_NamedExpr(self, node, st):
        v = self.eval(node.value, st)
        fid = st.fid
        while st.frames[st.fid].get('$comp'):
            st.fid = st.frames[st.fid]['$parent']
        self.assign(node.target, v, st)
        st.fid = fid
        return v

    def e_Starred(self, node, st):
        return mk('star', self.eval(node.value, st))

    def e_JoinedStr(self, node, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st)
                x = self.freeze(st, x)
                if v.conversion == -1 and v.format_spec is None and (
                        static_type(x) == 'str' or self.known_type(
                            st, x) == 'str'):
                    parts.append(x)
                else:
                    parts.append(self.format_value(st, x, v))
            else:
                parts.append(self.eval(v, st))
        if not parts:
            return const('')
        if all(static_type(p) == 'str' or self.known_type(st, p) == 'str'
               for p in parts):
            return cat(*parts) if len(parts) > 1 else parts[0]
        return mk('fmt', *parts)

    def format_value(self, st, x, v):
        if is_const(x) and v.format_spec is None and v.conversion == -1:
            return const(str(cval(x)))
        return self.text(st, x)

    def e_Compare(self, node, st):
        left = self.eval(node.left, st)
        fs = []
        for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
            right = self.eval(rn, st)
            self.node = node
            fs.append(self.compare(st, op, left, right, node))
            left = right
        return And(*fs)

    def compare(self, st, op, a, b, node):
        if isinstance(op, ast.Eq):
            return self.equal(st, a, b)
        if isinstance(op, ast.NotEq):
            f = self.special(st, self.resolve(st, a), '__ne__')
            if f is not None:
                return self.verdict(st, self.call(
                    st, mk('bm', self.resolve(st, a), f), (b, ), (), node))
            return Not(self.equal(st, a, b))
        if isinstance(op, ast.Is):
            return self.identical(st, a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.identical(st, a, b))
        if isinstance(op, ast.In):
            return self.contained(st, a, b, node)
        if isinstance(op, ast.NotIn):
            return Not(self.contained(st, a, b, node))
        return self.order(st, op, a, b, node)

    def equal(self, st, a, b):
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if a.op == 'gamma':
            c, x, y = a.args
            return Ite(c, self.equal(st, x, b), self.equal(st, y, b))
        if b.op == 'gamma':
            c, x, y = b.args
            return Ite(c, self.equal(st, a, x), self.equal(st, a, y))
        r = self.type_eq(st, a, b)
        if r is not None:
            return r
        r = self.own_equality(st, a, b)
        if r is not None:
            return r
        if a is b:
            return TRUE
        ha, hb = self.h(st, a), self.h(st, b)
        if ha is not None and hb is not None and ha.kind == 'rec' and \
                hb.kind == 'rec':
            c = self.p.classes.get(ha.cls)
            if c is not None and c.kind == 'dataclass':
                if ha.cls != hb.cls:
                    return FALSE
                return And(*[
                    self.equal(st, ha.val[k], hb.val[k]) for k in ha.val
                ])
            return FALSE
        xs, ys = self.parts(st, a), self.parts(st, b)
        if xs is not None and ys is not None and xs[0] == ys[0]:
            if len(xs[1]) != len(ys[1]):
                return FALSE
            return And(*[self.equal(st, x, y)
                         for x, y in zip(xs[1], ys[1])])
        a, b = self.freeze(st, a), self.freeze(st, b)
        for x, y in ((a, b), (b, a)):
            if x.op in ('setdiff', ) and y.op == 'set' and not y.args:
                return Not(truthy(x))
            if y.op in ('set', 'list', 'dict', 'tuple') and not y.args:
                if x.op in ('comp', 'keys', 'aslist', 'asset', 'setdiff'):
                    return Not(truthy(x, True))
                kt = self.known_type(st, x)
                if kt == y.op:
                    return Not(truthy(x, True))
            if is_const(y) and cval(y) in (b'', '') and cval(
                    y) is not None and self.known_type(
                        st, x) == y.args[0]:
                return Not(truthy(x, True))
        if self.set_like(st, a) and self.set_like(st, b):
            return And(self.subset(st, a, b), self.subset(st, b, a))
        return self.enum_eq(a, b)

    def class_of(self, st, t):
        """the project class of a value, when it is known"""
        h = self.h(st, t)
        if h is not None:
            return self.p.classes.get(h.cls) if h.kind == 'rec' else None
        if t.op in ('nt', 'enum', 'enumof'):
            return self.p.classes.get(t.args[0])
        if t.op in ('const', 'cls', 'ext', 'fn', 'list', 'tuple', 'dict'):
            return None
        ms = [m for m in type_members(self.dtype(t))
              if m != ('ext', 'NoneType')]
        if len(ms) == 1 and ms[0][0] == 'cls':
            return self.p.classes.get(ms[0][1])
        return None

    def special(self, st, t, name):
        """the project's own special method of a value's class"""
        if self.spec:
            return None
        c = self.class_of(st, t)
        r = self.lookup_cls(c, name) if c is not None else None
        if r is None or r[1][0] != 'func':
            return None
        if self.depth_of(r[1][1].qual):
            return None
        return self.func_value(r[1][1])

    def own_equality(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            f = self.special(st, x, '__eq__')
            if f is not None:
                r = self.call(st, mk('bm', x, f), (y, ), (), self.node)
                return self.verdict(st, r)
        return None

    def verdict(self, st, r):
        r = self.resolve(st, r)
        if r.op == 'gamma':
            return Ite(r.args[0], self.verdict(st, r.args[1]),
                       self.verdict(st, r.args[2]))
        if r.op == 'ext' and r.args[0] == 'NotImplemented':
            return FALSE
        return self.truth(st, r)

    def parts(self, st, v):
        """(kind, elements) of a sequence compared element by element"""
        h = self.h(st, v)
        if h is not None:
            if h.kind == 'rec' or type(h.val) is not T:
                return None
            v = h.val
        if v.op == 'nt':
            return 'tuple', [x for n, x in v.args[1]]
        if v.op in ('tuple', 'list'):
            return v.op, list(v.args)
        return None

    def member(self, st, x, coll):
        """x equals some element of a collection (not a string)"""
        coll = self.lift(st, coll)
        if coll.op == 'gamma':
            c, a, b = coll.args
            return Ite(c, self.member(st, x, a), self.member(st, x, b))
        if coll.op in ('setunion', 'cat'):
            return Or(*[self.member(st, x, c) for c in coll.args])
        if coll.op in ('asset', 'aslist'):
            c = coll.args[0]
            if c.op == 'keys' or self.known_type(st, c) == 'dict':
                return self.dict_has(
                    st, c.args[0] if c.op == 'keys' else c, x)
        if coll.op == 'setdiff':
            return And(self.member(st, x, coll.args[0]),
                       Not(self.member(st, x, coll.args[1])))
        if coll.op == 'comp' and coll.args[2] != 'dict':
            c, l, kind, val, cond = coll.args
            lvl = l
            while elem(c, lvl) in x.elems:
                lvl += 1
            if lvl != l:
                m = {elem(c, l): elem(c, lvl), mk('idx', c, l):
                     mk('idx', c, lvl)}
                val, cond = subst(val, m), subst(cond, m)
            return exists(c, lvl, And(cond, self.equal(st, val, x)))
        if coll.op not in ('keys', 'dict', 'comp', 'nt'):
            els = self.concrete_elements(st, coll)
            if els is not None:
                return Or(*[self.equal(st, e, x) for e in els])
            c, l, e, _, f = self.generic_element(st, coll)
            if self.special(st, x, '__eq__') is not None or self.special(
                    st, e, '__eq__') is not None:
                return exists(c, l, And(f, self.equal(st, e, x)))
        return contains_member(x, coll)

    def enum_eq(self, a, b):
        """a member looked up by value equals an opaque member of the same
        enumeration exactly when the values are equal"""
        for x, y in ((a, b), (b, a)):
            if x.op == 'enumof' and y.op not in ('enum', 'enumof', 'ename',
                                                 'const', 'gamma'):
                d = self.dtype(y)
                if d == ('cls', x.args[0]):
                    return eq(x.args[2], mk('attr', y, 'value'))
        return eq(a, b)

    def set_like(self, st, t):
        return t.op in ('set', 'asset', 'setunion', 'setdiff', 'keys') or (
            t.op == 'comp' and t.args[2] == 'set')

    def subset(self, st, a, b):
        """every member of a is in b"""
        a, b = self.lift(st, a), self.lift(st, b)
        if a.op == 'gamma':
            c, x, y = a.args
            return Ite(c, self.subset(st, x, b), self.subset(st, y, b))
        if b.op == 'gamma':
            c, x, y = b.args
            return Ite(c, self.subset(st, a, x), self.subset(st, a, y))
        els = self.concrete_elements(st, a)
        if els is not None:
            return And(*[self.member(st, e, b) for e in els])
        if a.op == 'setunion':
            return And(*[self.subset(st, x, b) for x in a.args])
        if a.op == 'setdiff':
            c, l, e, _, f = self.generic_element(st, a.args[0])
            return forall(
                c, l,
                Or(Not(f), self.member(st, e, a.args[1]),
                   self.member(st, e, b)))
        c, l, e, _, f = self.generic_element(st, a)
        return forall(c, l, Or(Not(f), self.member(st, e, b)))

    def type_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof':
                n = self.type_name(y)
                if n is not None:
                    return self.map_leaves(
                        st, x.args[0], lambda l: self.typeis(st, l, n))
                if y.op == 'typeof':
                    if x.args[0] is y.args[0]:
                        return TRUE
        if a.op in ('cls', 'ext') and b.op in ('cls', 'ext'):
            return TRUE if a is b else FALSE
        return None

    def identical(self, st, a, b):
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if a.op == 'gamma':
            c, x, y = a.args
            return Ite(c, self.identical(st, x, b), self.identical(st, y, b))
        if b.op == 'gamma':
            c, x, y = b.args
            return Ite(c, self.identical(st, a, x), self.identical(st, a, y))
        r = self.type_eq(st, a, b)
        if r is not None:
            return r
        if a is b:
            return TRUE
        if a.op == 'obj' or b.op == 'obj':
            return FALSE
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if x.op == 'attr' and (self.enum_constant(x)
                                       or self.declared_given(x)):
                    return FALSE
                if x.op in ('elem', 'witness', 'choose', 'last'):
                    # declared element types are trusted
                    ms = type_members(self.dtype(x))
                    if ms and all(m[0] == 'cls' for m in ms):
                        return FALSE
                return eq(x, NONE)
            if y in (TRUE, FALSE):
                if is_formula(x):
                    return x if y is TRUE else Not(x)
                return And(self.typeis(st, x, 'bool'), eq(x, y))
            if y.op in ('enum', 'enumof', 'cls', 'fn', 'ext'):
                return self.enum_eq(x, y)
        if self.is_enum_typed(a) or self.is_enum_typed(b):
            return eq(a, b)
        if is_const(a) or is_const(b):
            return eq(a, b)
        return mk('is', *sorted((a, b)))

    def declared_given(self, t):
        """a field declared with a type that does not admit None"""
        d = self.dtype(t)
        return not self.doubt and d != ('any', ) and \
            ('ext', 'NoneType') not in type_members(d) and \
            ('any', ) not in type_members(d)

    def enum_constant(self, t):
        """the name or the value of members of enumerations"""
        cs = [m for m in type_members(self.dtype(t.args[0]))
              if m != ('ext', 'NoneType')]
        return bool(cs) and t.args[1] in ('value', 'name') and all(
            m[0] == 'cls' and m[1] in self.p.classes and
            self.p.classes[m[1]].kind == 'enum' and
            self.enum_attr_type(self.p.classes[m[1]],
                                t.args[1]) != ('any', ) for m in cs)

    def is_enum_typed(self, t):
        d = self.dtype(t)
        return d[0] == 'cls' and d[1] in self.p.classes and self.p.classes[
            d[1]].kind == 'enum'

    def contained(self, st, x, coll, node):
        coll = self.lift(st, self.take(st, coll, True))
        if self.doubt:
            self.doubted(st, coll, 'membership', ('TypeError', ))
        if coll.op == 'gamma':
            c, a, b = coll.args
            return Ite(c, self.contained(st, x, a, node),
                       self.contained(st, x, b, node))
        els = self.concrete_elements(st, coll)
        x = self.resolve(st, x)
        if els is not None and not (coll.op == 'const'):
            return Or(*[self.equal(st, x, e) for e in els])
        x = self.freeze(st, x)
        cf = self.freeze(st, coll)
        if is_const(cf) and isinstance(cval(cf), (str, bytes)):
            if is_const(x):
                try:
                    return const(cval(x) in cval(cf))
                except TypeError:
                    pass
            return mk('contains', cf, x)
        if cf.op in ('keys', ):
            return has(cf.args[0], x)
        if cf.op == 'objdict':
            return mk('hasattr', cf.args[0], x)
        if cf.op in ('values', 'items'):
            c, l, e, _, f = self.generic_element(st, cf)
            return exists(c, l, And(f, self.equal(st, e, x)))
        if cf.op in ('comp', 'setunion', 'setdiff', 'cat', 'aslist', 'asset',
                     'set', 'list', 'tuple'):
            if cf.op in ('aslist', 'asset'):
                return self.contained(st, x, cf.args[0], node)
            if static_type(cf) in ('str', 'bytes'):
                return mk('contains', cf, x)
            if cf.op == 'comp' and cf.args[2] == 'dict':
                return self.member(st, x, cf)
            return self.member(st, x, cf)
        cond = self.maybe_none(st, cf)
        if cond is not FALSE:
            self.raise_if(st, cond, ('TypeError', ),
                          'membership test in a value that may be None')
        ty = self.known_type(st, cf)
        if ty == 'dict':
            return has(cf, x)
        if ty in ('str', 'bytes'):
            return mk('contains', cf, x)
        if ty in ('list', 'tuple', 'set'):
            return self.member(st, x, cf)
        d = self.dtype(cf)
        for m in type_members(d):
            if m[0] in ('seq', ):
                return self.member(st, x, cf)
        if cf.op in ('item', 'elem') and d == ('any', ) and not self.spec:
            self.check_types(st, cf, ('list', 'tuple', 'dict', 'str', 'set'),
                             'membership test in a value of unknown type')
        if d[0] == 'ext' and d[1].startswith('pyasn1') or cf.op in (
                'item', ) and self.asn1(cf):
            return self.member(st, x, cf)
        return mk('contains', cf, x)

    def order(self, st, op, a, b, node):
        a = self.freeze(st, self.resolve(st, a))
        b = self.freeze(st, self.resolve(st, b))
        if self.set_like(st, a) or self.set_like(st, b):
            if isinstance(op, ast.LtE):
                return self.subset(st, a, b)
            if isinstance(op, ast.GtE):
                return self.subset(st, b, a)
            if isinstance(op, ast.Lt):
                return And(self.subset(st, a, b), Not(self.subset(st, b, a)))
            return And(self.subset(st, b, a), Not(self.subset(st, a, b)))
        if a.gam:
            g = first_gamma(a)
            if g is a:
                c, x, y = a.args
                return Ite(c, self.order(st, op, x, b, node),
                           self.order(st, op, y, b, node))
        if b.gam and b.op == 'gamma':
            c, x, y = b.args
            return Ite(c, self.order(st, op, a, x, node),
                       self.order(st, op, a, y, node))
        for x in (a, b):
            cond = self.maybe_none(st, x)
            if cond is not FALSE:
                self.raise_if(st, cond, ('TypeError', ),
                              'ordering of a value that may be None')
            elif x.op in ('item', 'elem') and self.dtype(x) == (
                    'any', ) and not self.spec:
                self.check_types(st, x, ('int', 'float', 'bool', 'str',
                                         'bytes'),
                                 'ordering of a value of unknown type')
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return Not(lt(b, a))
        return Not(lt(a, b))

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        self.node = node
        return self.binop(st, node.op, a, b, node)

    def binop(self, st, op, a, b, node):
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if a.op == 'gamma':
            c, x, y = a.args
            return self.branch(st, c,
                               lambda s: self.binop(s, op, x, b, node),
                               lambda s: self.binop(s, op, y, b, node))
        if b.op == 'gamma':
            c, x, y = b.args
            return self.branch(st, c,
                               lambda s: self.binop(s, op, a, x, node),
                               lambda s: self.binop(s, op, a, y, node))
        return self.binop_leaf(st, op, a, b, node)

    def e_Subscript(self, node, st):
        o = self.eval(node.value, st)
        if isinstance(node.slice, ast.Slice):
            lo = NONE if node.slice.lower is None else self.eval(
                node.slice.lower, st)
            hi = NONE if node.slice.upper is None else self.eval(
                node.slice.upper, st)
            step = NONE if node.slice.step is None else self.eval(
                node.slice.step, st)
            self.node = node
            return self.slice_op(st, o, lo, hi, step, node)
        i = self.eval(node.slice, st)
        self.node = node
        o = self.no_iter(st, o)
        return self.subscript(st, o, i, node)

    def no_iter(self, st, o):
        o = self.resolve(st, o)
        if o.op == 'gamma' and any(self.isiter(st, x) for g, x in leaves(o)):
            return self.on_leaves(st, o, self.no_iter)
        if self.isiter(st, o):
            self.raise_if(st, TRUE, ('TypeError', ), 'index of an iterator')
            raise Dead()
        return o

    @staticmethod
    def url_fields(v):
        return [models.norm_item(v, const(k))
                for k in range(6 if v.op == 'urlparse' else 5)]

    def slice_op(self, st, o, lo, hi, step, node):
        o = self.no_iter(st, o)
        if o.op == 'gamma':
            c, a, b = o.args
            return self.branch(
                st, c, lambda s: self.slice_op(s, a, lo, hi, step, node),
                lambda s: self.slice_op(s, b, lo, hi, step, node))
        lo, hi = self.resolve(st, lo), self.resolve(st, hi)
        h = self.h(st, o)
        if h is not None and h.kind in ('list', ):
            if h.val.op == 'list' and is_const(lo) and is_const(
                    hi) and is_const(step):
                r = list(h.val.args)[cval(lo):cval(hi):cval(step)]
                return self.new(st, 'list', None, mk('list', *r))
            f = self.freeze(st, h.val)
            if step is not NONE and step is not const(1):
                return self.new(st, 'list', None, mk('step', f, lo, hi, step))
            return self.new(st, 'list', None, mk('slice', f, lo, hi))
        if o.op in ('urlparse', 'urlsplit'):
            o = mk('tuple', *self.url_fields(o))
        if o.op in ('tuple', 'const', 'list', 'nt') and is_const(
                lo) and is_const(hi) and is_const(step):
            try:
                if o.op == 'const':
                    return const(cval(o)[cval(lo):cval(hi):cval(step)])
                vs = o.args if o.op != 'nt' else [x for n, x in o.args[1]]
                return mk('tuple' if o.op == 'nt' else o.op,
                          *list(vs)[cval(lo):cval(hi):cval(step)])
            except Exception:
                pass
        if o.op == 'ext' or o.op == 'cls':
            return o
        of = self.freeze(st, o)
        cond = self.maybe_none(st, of)
        if cond is not FALSE:
            self.raise_if(st, cond, ('TypeError', ),
                          'slice of a value that may be None')
        if of.op in ('item', 'elem') and self.dtype(of) == ('any', ):
            self.check_types(st, of, ('bytes', 'str', 'list', 'tuple'),
                             'slice of a value of unknown type')
        if step is not NONE and step is not const(1):
            return mk('step', of, lo, hi, step)
        if lo is NONE:
            lo = const(0)
        return self.norm_slice(st, of, lo, hi)

    def norm_slice(self, st, a, lo, hi):
        """Negative constant bounds relative to the length."""
        def fix(x):
            if is_const(x) and isinstance(cval(x), int) and cval(x) < 0:
                y = lin_add(length(a), x)
                return y
            return x

        def nonneg(x):
            if x is NONE:
                return True
            if is_const(x):
                return cval(x) >= 0
            return x.op in ('lin', 'len', 'beuint', 'cborend', 'count', 'idx'
                            ) or True

        lo2, hi2 = fix(lo), fix(hi)
        if (lo2 is not lo or hi2 is not hi):
            # exact when the sequence is long enough
            need = 0
            for x in (lo, hi):
                if is_const(x) and isinstance(cval(x), int) and cval(x) < 0:
                    need = max(need, -cval(x))
            if is_const(length(a)):
                if cval(length(a)) < need:
                    return mk('slice', a, lo, hi)
            elif st.val(le(const(need), length(a))) is not True:
                return mk('slice', a, lo, hi)
        return slice_(a, lo2, hi2)

    def e_Slice(self, node, st):
        return self.fresh_unk('slice')

    # ---- comprehensions
    def e_ListComp(self, node, st):
        v = self.comp(node, st, 'list')
        return self.new(st, 'list', None, v)

    def e_SetComp(self, node, st):
        return self.new(st, 'set', None, self.comp(node, st, 'set'))

    def e_GeneratorExp(self, node, st):
        first = self.eval(node.generators[0].iter, st)
        return self.lazy(
            st, lambda s, ts: self.comp(node, s, 'gen', ts[0]), (first, ))

    def e_DictComp(self, node, st):
        return self.new(st, 'dict', None, self.comp(node, st, 'dict'))

    def comp(self, node, st, kind, first=None):
        """Comprehension in its own frame."""
        fid = next(_uniq)
        save = st.fid
        if first is None:
            first = self.eval(node.generators[0].iter, st)
        first = self.take(st, first, kind == 'gen')
        st.frames[fid] = {'$parent': save, '$cls': st.frames[save].get('$cls'),
                          '$self': None, '$fn': None, '$comp': True}
        st.fid = fid
        v = self.on_leaves(
            st, self.lift(st, first),
            lambda s, leaf: self.comp_gen(node, s, 0, kind, leaf))
        st.fid = save
        st.frames.pop(fid, None)
        return v

    def spilled(self, st, B, done, own=None):
        """what a generic element's evaluation changed outside itself"""
        out = set()
        for oid, h0 in st.heap.items():
            h1 = B.heap.get(oid)
            if h1 is not None and h1 is not h0 and h1.val != h0.val:
                out.add(oid)
        for fid, fr in st.frames.items():
            b = B.frames.get(fid)
            if fid == own or b is None or fid == '$G':
                continue
            for n, x in b.items():
                if not n.startswith('$') and fr.get(n) is not x:
                    out.add((fid, n))
        return out - done

    def forget(self, st, what):
        for k in what:
            if type(k) is tuple:
                st.frames[k[0]][k[1]] = self.fresh_unk(k[1])
            else:
                self.havoc_obj(st, k)

    def comp_gen(self, node, st, i, kind, src=None, spill=frozenset()):
        """content term of generators i.. in state st"""
        g = node.generators[i]
        if src is None:
            src = self.take(st, self.eval(g.iter, st), kind == 'gen')
            src = self.lift(st, src)
            if src.op == 'gamma':
                return self.on_leaves(
                    st, src,
                    lambda s, leaf: self.comp_gen(node, s, i, kind, leaf))
        els = self.concrete_elements(st, src)
        base = {'list': 'list', 'gen': 'list', 'set': 'set',
                'dict': 'dict'}[kind]
        if els is not None and len(els) <= MAX_UNROLL:
            acc = mk(base)
            for e in els:
                self.assign(g.target, e, st)
                acc = self.comp_body(node, st, i, kind, acc, base)
            return acc
        self.iter_check(st, src)
        coll, lvl, e, _, filt = self.generic_element(st, src)
        el = mk('elem', coll, lvl)
        self.loops = self.loops + [coll]
        K0 = self.K
        kk = K([], K0.rets, [], [])
        B = st.copy()
        self.enter_element(B, coll, el)
        p0 = len(B.trail)
        if filt is not TRUE:
            B.assume(filt)
        base_facts = dict(B.facts)
        self.K = kk
        inner = None
        dead = False
        try:
            self.assign(g.target, e, B)
            conds = []
            for c in g.ifs:
                f = self.cond(c, B)
                conds.append(f)
                if not B.assume(f):
                    raise Dead()
            condset = set()
            C = And(filt, *conds)
            if i + 1 < len(node.generators):
                inner = self.comp_gen(node, B, i + 1, kind)
                inner = self.freeze(B, inner)
                val = None
            elif kind == 'dict':
                kx = self.eval(node.key, B)
                vx = self.eval(node.value, B)
                val = mk('tuple', self.freeze(B, kx), self.freeze(B, vx))
            else:
                val = self.freeze(B, self.eval(node.elt, B))
        except Dead:
            dead = True
            val = None
            C = FALSE
        finally:
            self.K = K0
            self.loops = self.loops[:-1]
        more = self.spilled(st, B, spill, st.fid)
        if more:
            self.forget(st, more)
            return self.comp_gen(node, st, i, kind, src, spill | more)
        self.close_exits(st, B, kk, K0, coll, lvl, el, filt, p0, base_facts)
        self.forget(st, spill)
        if not dead:
            for f in B.facts:
                if f not in base_facts and el in f.elems and f not in (
                        C.args if C.op == 'and' else (C, )):
                    if not st.assume(forall(coll, lvl, Or(Not(C), f))):
                        raise Dead()
        if dead:
            if not st.assume(Not(truthy(coll, True))):
                raise Dead()
            return mk(base)
        k2 = 'list' if kind == 'gen' else kind
        if inner is not None:
            if inner.op == 'comp' and el not in inner.args[0].elems and \
                    inner.args[2] == k2 and False:
                pass
            return mk('flat', coll, lvl, k2, inner, C)
        if C is FALSE:
            return mk(base)
        if val.op == 'elem' and val is el and C is TRUE and k2 in ('list',
                                                                  'set'):
            return mk('aslist' if k2 == 'list' else 'asset', coll)
        return mk('comp', coll, lvl, k2, val, C)

    def close_exits(self, st, B, kk, K0, coll, lvl, el, filt, p0, base_facts):
        """exits by exception from a generic element: some element, chosen"""
        notex = []
        prev = TRUE
        for j, r in enumerate(kk.raises):
            s = r.state
            tr = And(filt, *s.trail[p0:],
                     *[f for f in s.facts if f not in base_facts])
            ex = exists(coll, lvl, tr)
            w = mk('choose', coll, lvl, tr)
            s.trail = s.trail[:p0]
            gexit = And(ex, mk('nondet', 'first exit', next(_uniq),
                               j)) if len(kk.raises) > 1 else ex
            if not self.state_subst(s, {el: w}):
                continue
            s.trail = st.trail + ((prev, ) if prev is not TRUE else
                                  ()) + (gexit, )
            if not s.assume(And(prev, gexit)):
                continue
            s.fid = B.fid
            prev = And(prev, Not(gexit))
            notex.append(Not(ex))
            e2 = r.exc
            t2 = subst(e2.term, {el: w})
            if t2 is not e2.term:
                e2 = Exc(e2.classes, t2, e2.site, e2.explicit, e2.origin,
                         e2.excl, e2.cause)
                self.exc_of[t2] = e2
            K0.raises.append(Raise(s, e2))
        if kk.raises:
            if prev is not TRUE:
                st.trail = st.trail + (prev, )
                if not st.assume(prev):
                    raise Dead()
            if not st.assume(And(*notex)):
                raise Dead()

    def comp_body(self, node, st, i, kind, acc, base):
        g = node.generators[i]

        def go(s, j, acc):
            if j < len(g.ifs):
                f = self.cond(g.ifs[j], s)
                return self.branch(s, f, lambda s2: go(s2, j + 1, acc),
                                   lambda s2: acc)
            if i + 1 < len(node.generators):
                inner = self.comp_gen(node, s, i + 1, kind)
                return self.join_content(acc, inner, base)
            if kind == 'dict':
                k = self.eval(node.key, s)
                v = self.eval(node.value, s)
                return self.map_leaves(
                    s, acc, lambda a: self.dict_put(a, self.freeze(s, k), v))
            v = self.eval(node.elt, s)
            return self.map_leaves(s, acc, lambda a: mk(base, *a.args, v))

        return go(st, 0, acc)

    def join_content(self, a, b, base):
        if a.op == base and b.op == base:
            return mk(base, *a.args, *b.args)
        if a.op == base and not a.args:
            return b
        if base == 'list':
            return mk('cat', a, b)
        if base == 'set':
            return mk('setunion', a, b)
        return mk('dmerge', a, b)

    # ---- calls in expressions
    def e_Call(self, node, st):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'super' and not node.args:
            fr = st.frame()
            fid = st.fid
            while fid is not None and not st.frames[fid].get('$cls'):
                fid = st.frames[fid].get('$parent')
            if fid is not None:
                fr = st.frames[fid]
                return mk('super', fr['$cls'], fr[fr['$self']])
        fv = self.eval(f, st)
        raw = [('*', self.eval(a.value, st)) if isinstance(a, ast.Starred)
               else (None, self.eval(a, st)) for a in node.args]
        raw += [('**' if k.arg is None else k.arg, self.eval(k.value, st))
                for k in node.keywords]
        return self.call_raw(st, fv, raw, len(node.args), node)

    def call_raw(self, st, fv, raw, npos, node):
        """argument lists unpacked in a call; alternatives of different
        shape are taken one by one"""
        args, kwargs = [], []
        for i, (k, v) in enumerate(raw):
            if k == '*':
                v = self.take(st, v)
                els = self.concrete_elements(st, v)
                if els is None:
                    f = self.resolve(st, self.freeze(st, v))
                    if f.op == 'gamma':
                        return self.split_raw(st, fv, raw, npos, node, i, f)
                    els = self.concrete_elements(st, f)
                if els is None:
                    d = self.dtype(f)
                    if d[0] == 'tup':
                        els = [item(f, const(i)) for i in range(len(d[1]))]
                    else:
                        self.note('call with unknown *args')
                        els = [mk('star', f)]
                args.extend(els)
            elif k == '**':
                v = self.resolve(st, v)
                d = self.dict_items(st, v)
                if d is None and v.op == 'gamma':
                    r = self.gamma_dict(st, v)
                    if r is not None:
                        kwargs.extend(r)
                        continue
                if d is None:
                    f = self.resolve(st, self.freeze(st, v))
                    if f.op == 'gamma':
                        return self.split_raw(st, fv, raw, npos, node, i, f)
                if d is None:
                    self.note('call with unknown **kwargs')
                    kwargs.append(('**', v))
                else:
                    for kk, vv in d:
                        if is_const(kk):
                            kwargs.append((cval(kk), vv))
                        else:
                            kwargs.append(('**', vv))
            elif i < npos:
                args.append(v)
            else:
                kwargs.append((k, v))
        self.node = node
        return self.call(st, fv, tuple(args), tuple(kwargs), node)

    def split_raw(self, st, fv, raw, npos, node, i, f):
        c, a, b = f.args

        def take(x):
            r = list(raw)
            r[i] = (raw[i][0], x)
            return lambda s: self.call_raw(s, fv, r, npos, node)

        return self.branch(st, c, take(a), take(b))

    def gamma_dict(self, st, v):
        """a gated dict whose alternatives have the same keys"""
        if v.op != 'gamma':
            d = self.dict_items(st, v)
            if d is None or not all(is_const(k) for k, x in d):
                return None
            return [(cval(k), x) for k, x in d]
        a = self.gamma_dict(st, v.args[1])
        b = self.gamma_dict(st, v.args[2])
        if a is None or b is None:
            return None
        da, db = dict(a), dict(b)
        if set(da) != set(db):
            return None
        return [(k, gamma(v.args[0], da[k], db[k])) for k in da]

    def e_Yield(self, node, st):
        v = NONE if node.value is None else self.eval(node.value, st)
        if self.yield_hooks:
            r = self.yield_hooks[-1](st, v)
            return NONE if r is None else r
        return NONE

    def e_YieldFrom(self, node, st):
        key = ('yieldfrom', id(node))
        if key not in self.gcache:
            f = ast.For(
                target=ast.Name('$yielded', ast.Store()), iter=node.value,
                body=[ast.Expr(ast.Yield(ast.Name('$yielded', ast.Load())))],
                orelse=[])
            ast.copy_location(f, node)
            self.gcache[key] = ast.fix_missing_locations(f)
        self.x_For(self.gcache[key], st)
        return NONE

    def e_Await(self, node, st):
        return self.eval(node.value, st)

    def e_FormattedValue(self, node, st):
        return self.text(st, self.freeze(st, self.eval(node.value, st)))


def cval_empty(t):
    if is_const(t) and cval(t) in ('', b''):
        return True
    return False
