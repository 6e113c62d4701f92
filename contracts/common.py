"""Helpers shared by the contracts."""
import os
import ast
import z3
from values import *
import lib
import engine
from engine import *
from model import *

SPECS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec')


class Done(Exception):
    """this branch of the harness has nothing more to prove"""


def guarded(fn):
    def h(E):
        try:
            fn(E)
        except Done:
            pass
    h.__name__ = getattr(fn, '__name__', 'h')
    return h


def outcome(E, thunk):
    """('return', value) or ('raise', exception object)"""
    try:
        return 'return', thunk()
    except PyRaise as r:
        return 'raise', r.exc


def same(E, a, b, deep=None):
    r = lib.same(E, a, b, deep=deep)
    if not r:
        E.why = r.why
    return bool(r)


def prove_same(E, a, b, label, deep=None):
    if not E.wants(label):
        return True
    import time
    t0 = time.time()
    r = lib.same(E, a, b, deep=deep)
    d = '' if r else '%s\n  got      %r\n  expected %r' % (r.why, a, b)
    E.record(label, bool(r), 'z3/normalisation', d, time.time() - t0)
    return bool(r)


def conform(E, label, real, spec, deep=None, pure=False):
    """the real function and the spec function have the same outcome"""
    n0 = heap_mark(E)
    k, v = outcome(E, real)
    if pure:
        prove_frame(E, n0, label)
    ks, vs = outcome(E, spec)
    same_outcome(E, label, (k, v), (ks, vs), deep)
    return k, v


def same_outcome(E, label, got, want, deep=None):
    k, v = got
    ks, vs = want
    if k != ks:
        E.fail(label + ': same outcome', 'got %s %r, expected %s %r' % (k, v, ks, vs))
    elif k == 'return':
        prove_same(E, v, vs, label, deep)
    else:
        E.prove(v.cls.name == vs.cls.name, label + ': same exception')


def heap_mark(E):
    return {f: len(v) for f, v in E.heap.items()}


def prove_frame(E, mark, label, allowed=lambda f, t: False):
    """no given object has been changed since the mark"""
    bad = []
    for f, ents in E.heap.items():
        for t, fr, v in ents[mark.get(f, 0):]:
            if isinstance(t, str):
                if not fr.fr and not allowed(f, fr.term):
                    bad.append('%s of %s' % (f, fr.term))
            elif not fr and not allowed(f, t):
                bad.append('%s of %s' % (f, t))
    if bad:
        E.fail(label + ': changes no given object', ', '.join(bad))
    else:
        E.prove(True, label + ': changes no given object')


def each(E, thunk):
    """thunk() from here, case by case, without repeating what came before"""
    def body():
        try:
            thunk()
        except Done:
            pass
        E.end_live()
    for p in E.explore(body):
        if p.kind != 'normal' and str(E.prover.check([f for _, f in p.pc], 4000)[0]) != 'unsat':
            E.record('harness path ends with %s' % p.kind, False, 'evaluation', repr(p.value), 0)
    raise Done()


def aside(E, thunk):
    """obligations of thunk() in the present state, which stays as it is"""
    def body():
        try:
            thunk()
        except Done:
            pass
    for p in E.explore(body):
        if p.kind != 'normal' and str(E.prover.check([f for _, f in p.pc], 4000)[0]) != 'unsat':
            E.record('obligations are stated on every path', False, 'evaluation', '%s %r' % (p.kind, p.value), 0)


def given(E, name, cls):
    return obj(E, name, cls)


def sym_str(E, name, ty='str'):
    t = z3.Const('in:' + name, U)
    if ty == 'str':
        E.fact_once(kindf(t) == 3)
    E.fact_once(z3.Not(fresh_p(t)))
    return SU(t, ty)


def spec_module(E, name):
    E.extra_modules[name] = os.path.join(SPECS, name + '.py')
    return E.module(name)


def spec_fn(E, mod, name):
    return E.module(mod).env.vars[name]


def run(E, f, *args, **kw):
    return E.call(f, list(args), kw)


def method(E, o, name, *args, **kw):
    return E.call(E.getattr(o, name), list(args), kw)
