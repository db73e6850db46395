"""Abstract states and their joins.

A state holds must-facts (formulas that hold whenever control is there), the
abstract value of every local and object, and a trail: the branch conditions
since the analysis root, used only to tell sibling states apart at a join.
States are joined wherever control flow joins; the joined values are gated
(gamma(condition, then-value, else-value)).
"""
from .logic import Contra, Ctx, prepare
from .terms import (FALSE, NONE, TRUE, And, Not, Or, T, const, gamma, is_const,
                    mk, subst, same, is_formula)

UNBOUND = mk('unbound')
# facts that only summarise which branches reached a join: implied by the
# others, useful for refutation, never a requirement of a reference function
SUMMARY = set()


class Dead(Exception):
    """No control flow continues here."""


class H:
    """heap object (immutable record; updates replace it)"""
    __slots__ = ('kind', 'cls', 'val', 'site')

    def __init__(self, kind, cls, val, site=None):
        self.kind = kind
        self.cls = cls
        self.val = val
        self.site = site

    def with_val(self, val):
        return H(self.kind, self.cls, val, self.site)


class State:
    __slots__ = ('facts', 'ctx', 'trail', 'frames', 'heap', 'events', 'soft',
                 'fid', 'hier', 'moved')

    def __init__(self, hier):
        self.hier = hier
        self.facts = {}
        self.ctx = Ctx(hier)
        self.trail = ()
        self.frames = {}
        self.heap = {}
        self.events = ()
        self.soft = ()
        self.fid = None
        # value from outside -> the object it became when modified in place
        self.moved = {}

    def copy(self):
        s = State.__new__(State)
        s.hier = self.hier
        s.facts = dict(self.facts)
        s.ctx = self.ctx.copy()
        s.trail = self.trail
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.events = self.events
        s.soft = self.soft
        s.fid = self.fid
        s.moved = dict(self.moved)
        return s

    def become(self, o):
        self.facts = o.facts
        self.ctx = o.ctx
        self.trail = o.trail
        self.frames = o.frames
        self.heap = o.heap
        self.events = o.events
        self.soft = o.soft
        self.fid = o.fid
        self.moved = o.moved

    def val(self, f):
        return self.ctx.val(f)

    def assume(self, f):
        """Add a fact; False when the state becomes contradictory."""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f in self.facts:
            return True
        if f.op == 'and':
            for g in f.args:
                if not self.assume(g):
                    return False
            return True
        v = self.ctx.val(f)
        if v is False:
            return False
        self.facts[f] = True
        try:
            self.ctx.put(f)
            self.ctx.run()
        except Contra:
            return False
        return True

    def guard(self, f):
        """assume + remember as a branch condition"""
        if f is TRUE:
            return True
        self.trail = self.trail + (f, )
        return self.assume(f)

    def frame(self):
        return self.frames[self.fid]


def common_prefix(trails):
    n = min(len(t) for t in trails)
    t0 = trails[0]
    for i in range(n):
        x = t0[i]
        for t in trails:
            if t[i] is not x:
                return i
    return n


def merge_states(states, depth=0):
    if len(states) == 1:
        return states[0]
    p = common_prefix([s.trail for s in states])
    groups = {}
    for s in states:
        k = s.trail[p] if len(s.trail) > p else None
        groups.setdefault(k, []).append(s)
    keys = list(groups)
    if len(keys) == 1:
        # identical trails: same abstract point reached twice
        a = states[0]
        b = merge_states(states[1:])
        g = mk('nondet', 'join', a.trail[-1] if a.trail else NONE, len(states))
        return merge2(g, a, b, p)
    if len(keys) == 2 and None not in keys and keys[0] is Not(keys[1]):
        return merge2(keys[0], merge_states(groups[keys[0]]),
                      merge_states(groups[keys[1]]), p)
    # prefer pairing complementary keys first
    k0 = keys[0]
    if k0 is None:
        k0 = keys[1]
    nk = Not(k0)
    m1 = merge_states(groups[k0])
    if nk in groups and len(keys) > 2:
        m2 = merge_states(groups[nk])
        m = merge2(k0, m1, m2, p)
        rest = [s for k in keys if k is not k0 and k is not nk
                for s in groups[k]]
        return merge_states([m] + rest)
    rest = [s for k in keys if k is not k0 for s in groups[k]]
    m2 = merge_states(rest)
    c = And(*m1.trail[p:])
    return merge2(c, m1, m2, p)


def merge_moved(a, b):
    out = {}
    for x, y in ((a, b), (b, a)):
        for t, o in x.moved.items():
            if t in out:
                continue
            out[t] = o
            h = x.heap.get(o.args[0]) if o.op == 'obj' else None
            if h is None:
                continue
            if t not in y.moved:
                y.heap[o.args[0]] = h.with_val(t)
            elif y.moved[t] is not o:
                g = y.heap.get(y.moved[t].args[0]) \
                    if y.moved[t].op == 'obj' else None
                if g is None or g.kind != h.kind:
                    out[t] = mk('nondet', 'moved', t, o)
                else:
                    y.heap[o.args[0]] = g
    return out


def merge2(c, a, b, p):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    s = State(a.hier)
    nc = Not(c)
    facts = {}
    for f in a.facts:
        if f in b.facts:
            facts[f] = True
        else:
            g = Or(nc, f)
            if g is not TRUE:
                facts[g] = True
                if f in SUMMARY:
                    SUMMARY.add(g)
    for f in b.facts:
        if f not in a.facts:
            g = Or(c, f)
            if g is not TRUE:
                facts[g] = True
                if f in SUMMARY:
                    SUMMARY.add(g)
    phi = Or(And(*a.trail[p:]), And(*b.trail[p:]))
    s.trail = a.trail[:p]
    if phi is not TRUE:
        s.trail = s.trail + (phi, )
        if len(phi.args) < 40 and phi not in facts:
            facts[phi] = True
            SUMMARY.add(phi)
    s.facts = facts
    s.ctx = prepare(facts, a.hier)
    if s.ctx is None:
        s.ctx = prepare((), a.hier)
    s.fid = a.fid
    for fid, fa in a.frames.items():
        fb = b.frames.get(fid)
        if fb is None:
            s.frames[fid] = dict(fa)
            continue
        fr = {}
        for k in fa:
            va = fa[k]
            vb = fb.get(k, UNBOUND)
            fr[k] = va if va is vb else (gamma(c, va, vb) if type(va) is T and
                                         type(vb) is T else va)
        for k in fb:
            if k not in fa:
                vb = fb[k]
                fr[k] = gamma(c, UNBOUND, vb) if type(vb) is T else vb
        s.frames[fid] = fr
    for fid, fb in b.frames.items():
        if fid not in a.frames:
            s.frames[fid] = dict(fb)
    if a.moved or b.moved:
        s.moved = merge_moved(a, b)
    for oid, ha in a.heap.items():
        hb = b.heap.get(oid)
        if hb is None or hb is ha:
            s.heap[oid] = ha
            continue
        if ha.kind == 'rec':
            val = {}
            for k in list(ha.val) + [k for k in hb.val if k not in ha.val]:
                va = ha.val.get(k, UNBOUND)
                vb = hb.val.get(k, UNBOUND)
                val[k] = gamma(c, va, vb)
            s.heap[oid] = ha.with_val(val)
        elif ha.kind == 'iter' and (type(ha.val) is tuple or
                                    type(hb.val) is tuple):
            # used up on one side only
            s.heap[oid] = ha if ha.val == hb.val else ha.with_val(
                mk('nondet', 'iterator', oid, c))
        elif type(ha.val) is tuple:
            s.heap[oid] = ha.with_val(
                tuple(gamma(c, x, y) if type(x) is T else x
                      for x, y in zip(ha.val, hb.val)))
        else:
            s.heap[oid] = ha.with_val(gamma(c, ha.val, hb.val))
    for oid, hb in b.heap.items():
        if oid not in a.heap:
            s.heap[oid] = hb
    ea, eb = a.events, b.events
    n = 0
    while n < len(ea) and n < len(eb) and ea[n] == eb[n]:
        n += 1
    s.events = ea[:n] + tuple((And(c, g), e) for g, e in ea[n:]) + tuple(
        (And(nc, g), e) for g, e in eb[n:])
    s.soft = tuple(x for x in a.soft if x in b.soft)
    s.soft = s.soft + tuple(Or(nc, x) for x in a.soft if x not in b.soft
                            ) + tuple(Or(c, x)
                                      for x in b.soft if x not in a.soft)
    return s
