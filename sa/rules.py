"""Rules over analysis results, and the bookkeeping of obligations."""
import os
import sys
import time

from .driver import analyse
from .interp import ANY, Interp
from .logic import Contra, Stats, entails, prepare
from .project import AnalysisBroken, Project
from .state import SUMMARY
from .terms import (FALSE, NONE, TRUE, And, Implies, Not, Or, T, cat, choose_guard, const, exists, keys,
                    cval, eq, first_gamma, is_const, item, mk, ok_of, same, show,
                    subst, subterms, type_atom)

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = 'sa_specs'
AFTER_FAILURE = 60


class NextWay(Exception):
    """this cut of the call graph does not establish the rule"""


class Ob:
    __slots__ = ('rule', 'site', 'text', 'ok', 'detail')

    def __init__(self, rule, site, text, ok, detail=''):
        self.rule = rule
        self.site = site
        self.text = text
        self.ok = ok
        self.detail = detail


class Run:
    """An analysed entry point."""

    def __init__(self, chk, it, res):
        self.chk = chk
        self.it = it
        self.res = res
        self.qual = res.qual
        self.returns = res.state is not None
        if self.returns:
            self.facts = list(res.state.facts)
            self.value = it.freeze(res.state, res.value)
            self.events = res.state.events
        else:
            self.facts = [FALSE]
            self.value = NONE
            self.events = ()
        self.raises = res.raises
        self.params = res.params
        self._ctx = None
        self._rctx = {}
        self.at = None

    @property
    def ctx(self):
        if self._ctx is None:
            self._ctx = prepare(self.facts, self.it.hier)
        return self._ctx

    def rctx(self, i):
        if i not in self._rctx:
            st = self.raises[i].state
            self._rctx[i] = prepare(list(st.facts), self.it.hier)
        return self._rctx[i]

    def proves(self, goal, limit=2000):
        return not self.returns or entails(self.ctx, goal, limit)

    def site(self):
        if self.at:
            return self.at
        return self.chk.site_of(self.chk.p.funcs[self.qual])


class Checker:
    def __init__(self, root, pid):
        self.pid = pid
        extra = {}
        d = os.path.join(HERE, 'specs')
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith('.py'):
                    n = SPEC if f == '__init__.py' else SPEC + '.' + f[:-3]
                    extra[n] = os.path.join(d, f)
        self.p = Project(root, extra=extra)
        self.spec_mods = set(extra)
        self.obs = []
        self.units = set()
        self.n_raises = 0
        self.rules = {}
        self.notes = []
        self.samples = []
        self.runs = []
        self.trying = 0
        self.patient = False
        self.bad = False
        self.unexamined = 0

    # ---- anchors
    def fn(self, name):
        """'module.func' or 'module.Class.method' -> Func, through the public
        name"""
        parts = name.split('.')
        r = self.p.public(parts[0], parts[1])
        if len(parts) == 2:
            if r[0] != 'func':
                raise AnalysisBroken('%s is not a function' % name)
            return r[1]
        if r[0] != 'class':
            raise AnalysisBroken('%s is not a class' % name)
        it = Interp(self.p)
        e = it.lookup_cls(r[1], parts[2])
        if e is None or e[1][0] != 'func':
            raise AnalysisBroken('%s is gone' % name)
        return e[1][1]

    def cls(self, name):
        parts = name.split('.')
        r = self.p.public(parts[0], parts[1])
        if r[0] != 'class':
            raise AnalysisBroken('%s is not a class' % name)
        c = r[1]
        for x in parts[2:]:
            e = c.attrs.get(x)
            if e is None or e[0] != 'class':
                raise AnalysisBroken('%s is gone' % name)
            c = e[1]
        return c

    def interp(self, opaque=(), callbacks=(), **kw):
        return Interp(self.p, opaque=[self.fn(o).qual for o in opaque],
                      callbacks=[self.cls(c).qual for c in callbacks],
                      spec_mods=self.spec_mods, **kw)

    def site_of(self, f):
        return '%s:%s (%s)' % (os.path.relpath(f.mod.path, self.p.root),
                               f.node.lineno, f.qual.split(':')[1])

    def finish(self):
        """What was shown for one call holds after any history of calls only
        if none of them leaves anything behind."""
        if self.pid == 'C36':
            return
        seen = {}
        for r in self.runs:
            es = [e for e in r.it.effects if e[0] in ('store', 'delete')]
            seen.setdefault(r.qual, (r, []))[1].extend(es)
        for r, es in seen.values():
            self.ob('no state outlives the call',
                    es[0][2] if es else r.site(),
                    'nothing that %s reaches stores outside the call, so that '
                    'every call is like the first' % r.qual.split(':')[1],
                    not es, '; '.join('%s: %s at %s' % e for e in es[:4]))

    # ---- analysis
    def run(self, name, opaque=(), callbacks=(), given=None, trust=True,
            assume=(), types=None, **kw):
        f = name if not isinstance(name, str) else self.fn(name)
        it = self.interp(opaque, callbacks, **kw)
        res = analyse(it, f, given=given, trust=trust, assume=assume,
                      types=types)
        r = Run(self, it, res)
        self.units |= {q for q in it.visited
                       if not q.startswith(SPEC)}
        self.n_raises += len(r.raises)
        self.runs.append(r)
        return r

    def spec(self, run, name, **given):
        """Run a reference function on the same parameters, with the same
        interpreter (types of terms are shared)."""
        it = run.it
        q = SPEC + '.' + name.replace('.', ':')
        f = self.p.funcs.get(q)
        if f is None:
            raise AnalysisBroken('no reference function %s' % q)
        a = f.node.args
        g = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in given:
                g[x.arg] = given[x.arg]
            elif x.arg in run.params:
                g[x.arg] = run.params[x.arg]
            else:
                raise AnalysisBroken('parameter %s of %s is gone' %
                                     (x.arg, run.qual))
        save = it.opaque, it.effects
        it.effects = []
        res = analyse(it, f, given=g, trust=False)
        it.effects = save[1]
        if res.state is None:
            if given:
                self.ob('reference ' + name, run.site(),
                        'the values found in the code can meet it', False,
                        'they contradict it')
            raise AnalysisBroken('reference function %s is contradictory' % q)
        s = Run(self, it, res)
        self.check_spec(s)
        return s

    def reference(self, run, f, assume=(), trust=True):
        """A function of the code itself as the reference."""
        it = run.it
        g = {}
        a = f.node.args
        for x, t in zip(a.posonlyargs + a.args, run.params.values()):
            g[x.arg] = t
        save = it.effects
        it.effects = []
        res = analyse(it, f, given=g, trust=trust, assume=assume)
        it.effects = save
        if res.state is None:
            raise AnalysisBroken('%s never returns' % f.qual)
        return Run(self, it, res)

    def named_events(self, run, name=None):
        return [(g, e) for g, e in run.events
                if name is None or e.name == name]

    def the_event(self, rule, run, name):
        """the one call of a callback that every normal return makes"""
        ev = self.named_events(run, name)
        ok = len(ev) == 1 and (ev[0][0] is TRUE or run.proves(ev[0][0]))
        self.ob(rule, ev[0][1].site if ev else run.site(),
                '%s is called exactly once before a normal return' % name, ok,
                '' if ok else '%d calls on the way to a normal return, not '
                'exactly one on every path' % len(ev))
        return ev[0][1] if len(ev) == 1 else None

    def check_spec(self, s):
        for e in s.raises:
            if SPEC not in e.exc.site:
                # in a function of the code that the reference refers to
                continue
            raise AnalysisBroken('reference function %s raises: %r' %
                                 (s.qual, e.exc))

    # ---- obligations
    def either(self, *ways):
        """The same rule against different cuts of the call graph: one that
        establishes everything is enough."""
        start = len(self.obs)
        first = None
        for w in ways:
            del self.obs[start:]
            self.trying += 1
            try:
                w()
                return
            except NextWay:
                pass
            finally:
                self.trying -= 1
            if first is None:
                first = self.obs[start:]
        self.obs[start:] = first
        self.failed()

    def failed(self):
        if self.patient:
            return
        if self.trying:
            raise NextWay()
        self.bad = True
        # the verdict stands: do not spend much longer on the rest
        now = time.monotonic() + AFTER_FAILURE
        if Stats.deadline is None or Stats.deadline > now:
            Stats.deadline = now

    def ob(self, rule, site, text, ok, detail=''):
        if not ok and self.bad and time.monotonic() > Stats.deadline:
            # time is up after an earlier failure: neither shown nor refuted
            self.unexamined += 1
            return ok
        self.obs.append(Ob(rule, site, text, bool(ok), detail))
        if not ok:
            self.failed()
        return ok

    def goals(self, spec):
        out = []
        for f in spec.facts:
            if f in SUMMARY and f not in spec.it.msgs:
                continue
            out.append((f, spec.it.msgs.get(f)))
        return out

    def success(self, rule, run, spec, skip=None):
        """Every requirement of the reference holds when run returns."""
        if not run.returns:
            return self.never(rule, run)
        gs = self.goals(spec)
        if not gs:
            raise AnalysisBroken('reference %s states nothing' % spec.qual)
        for g, msg in gs:
            if skip is not None and skip(g):
                continue
            ok = run.proves(g)
            self.ob(rule, run.site(), (msg + ': ' if msg else '') +
                    show(g)[:400], ok,
                    '' if ok else 'a normal return of %s is not shown to '
                    'imply this' % run.qual)

    def never(self, rule, run):
        return self.ob(rule, run.site(), 'some input is accepted', False,
                       '%s never returns normally: %s' % (run.qual, '; '.join(
                           '%s at %s' % (x.exc.origin, x.exc.site)
                           for x in run.raises[:3])))

    def value(self, rule, run, spec, what='result'):
        if not run.returns:
            return self.never(rule, run)
        self.equal_terms(rule, run, run.ctx, run.value, spec.value,
                         run.site(), what)

    def equal_terms(self, rule, run, ctx, a, b, site, what):
        ok, why = agree(ctx, a, b)
        self.ob(rule, site, '%s is %s' % (what, show(b)[:300]), ok,
                '' if ok else why)

    def rejects(self, rule, run, spec, only=None):
        """No exit by exception while the reference accepts."""
        acc = And(*spec.facts)
        for i, r in enumerate(run.raises):
            if only is not None and not only(r.exc):
                continue
            ok = contradicts(run, i, spec.facts)
            self.ob(rule, r.exc.site,
                    'rejection (%s) only of input the specification rejects' %
                    names(r.exc), ok, '' if ok else
                    'raised for input the specification accepts: %s' %
                    r.exc.origin)

    def classes(self, rule, run, allowed, only=None, skip=None):
        """Every exit by exception is of an allowed class."""
        al = [self.exc(a) for a in allowed]
        for r in run.raises:
            if only is not None and not only(r.exc):
                continue
            if skip is not None and skip(r.exc):
                continue
            bad = [c for c in r.exc.classes
                   if not any(self.p.hier(c, a) is True for a in al)]
            self.ob(rule, r.exc.site, 'raises only %s: %s' %
                    ('/'.join(x.split(':')[-1] for x in allowed),
                     r.exc.origin), not bad, '' if not bad else
                    '%s escapes %s (from %s)' %
                    ('/'.join('any exception' if b == ANY else b
                              for b in bad), run.qual, r.exc.origin))

    def exc(self, name):
        if '.' in name and ':' not in name and name.startswith('errors.'):
            return self.cls(name).qual
        return name


def names(e):
    return '/'.join(c.split(':')[-1] for c in e.classes)


def contradicts(run, i, facts, limit=2000):
    base = run.rctx(i)
    if base is None:
        return True
    return entails(base, Not(And(*facts)), limit)


def agree(ctx, a, b, depth=0):
    """Values a (code) and b (reference) coincide under the facts."""
    if a is b or ctx is None:
        return True, ''
    if a is None or b is None:
        return False, 'found nothing'
    f = same(a, b)
    if f is TRUE or entails(ctx, f, 2000):
        return True, ''
    # say where
    return False, 'found %s' % show(a)[:600]
