"""Analyse one function of the project from its entry, for any arguments."""
import ast

from .interp import Exc, Interp, K, Raise
from .project import AnalysisBroken, Cls, Func, ann_type
from .state import Dead, State, merge_states
from .terms import FALSE, NONE, Not, T, const, eq, mk


class Result:
    """what the analysis of one entry point yields"""

    def __init__(self, it, qual):
        self.it = it
        self.qual = qual
        self.value = None
        self.state = None
        self.raises = []
        self.params = {}


def new_state(it):
    st = State(it.hier)
    return st


def param_env(it, st, f, given, prefix='', trust=True):
    env = {}
    a = f.node.args
    params = {}
    names = a.posonlyargs + a.args + a.kwonlyargs
    for i, x in enumerate(names):
        if x.arg in given:
            env[x.arg] = given[x.arg]
            params[x.arg] = given[x.arg]
            continue
        t = mk('param', prefix + x.arg)
        if trust:
            if f.cls is not None and i == 0:
                ty = ('cls', f.cls.qual)
            else:
                ty = ann_type(it.p, f.mod, x.annotation)
            it.set_type(t, ty)
        env[x.arg] = t
        params[x.arg] = t
    for x in (a.vararg, a.kwarg):
        if x is not None:
            t = mk('param', prefix + x.arg)
            env[x.arg] = t
            params[x.arg] = t
    return env, params


def analyse(it, f, given=None, trust=True, setup=None, assume=(),
            types=None):
    """Value, must-facts and abrupt exits of one function (a Func)."""
    r = Result(it, f.qual)
    st = new_state(it)
    k = K([], [], [], [])
    it.K = k
    fid = 'root'
    st.frames[fid] = {'$parent': None, '$cls': None, '$fn': '<entry>',
                      '$self': None}
    st.fid = fid
    given = dict(given or {})
    if setup is not None:
        given.update(setup(st) or {})
    env, r.params = param_env(it, st, f, given, trust=trust)
    for n, ty in (types or {}).items():
        it.set_type(r.params[n], ty)
    if trust:
        for n, t in r.params.items():
            if n not in given and t in it.ptypes and \
                    it.dtype(t) != ('any', ) and \
                    it.maybe_none(st, t) is FALSE:
                st.assume(Not(eq(t, NONE)))
    for x in assume:
        if not st.assume(x):
            return r
    try:
        if it.func_value(f).op != "fn":
            a = f.node.args
            pos = tuple(env[x.arg] for x in a.posonlyargs + a.args)
            kw = tuple((x.arg, env[x.arg]) for x in a.kwonlyargs)
            it.stack.append(('<entry>', f.mod))
            it.entering = f.qual
            try:
                r.value = it.call(st, it.func_value(f), pos, kw, f.node)
            finally:
                it.stack.pop()
        else:
            r.value = it.run_body(st, f.node, f.mod, f.qual, env, None,
                                  f.cls)
        r.state = st
    except Dead:
        r.state = None
    r.raises = k.raises
    return r
