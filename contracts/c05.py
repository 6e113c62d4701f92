"""C05: == and != of every model class. Members are compared through the contract of
== itself (induction over the nesting)."""
from common import *

TRUSTED = ['equality of dicts of strings is extensional (CPython): an equivalence relation']
MIX = 'mixins.XigtContainerMixin'


def SETUP(E):
    load(E)
    schema(E)
    E.eq_contract = member_eq


def member_eq(E, a, b):
    if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.cls, UserClass) and isinstance(b.cls, UserClass):
        if a.t.eq(b.t):
            return True
        E.fact_once(z3.Implies(a.t == b.t, objeq(a.t, b.t)))
        return objeq(a.t, b.t)
    return NotImplemented


def full(E, o, cls):
    if cls == 'model.XigtCorpus':     # other modes load while iterating: C14
        E.assume(E.term(E.getattr(o, 'mode')) == E.term(E.module('xigt.consts').env.vars['FULL']))
    if cls == MIX:
        own = E.getfield(o, '_container')[0]
        E.assume(z3.And(own.t != NONE, kindf(own.t) == 5, z3.Not(fresh_p(own.t))))


def pairwise(x, y):
    j = z3.Int('j!')
    return z3.And(llen(x) == llen(y), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen(x)),
                                                               objeq(at(x, j), at(y, j))), patterns=[at(x, j), at(y, j)]))


def structural(cls, x, y):
    """the statement of C05, for two objects of the class"""
    cs = []
    if cls != MIX:
        cs += [fld(f, x) == fld(f, y) for f in ('_id', 'type', 'namespace')]
        cs += [dicteq(fld('attributes', x), fld('attributes', y))]
    if cls in ('model.Item', 'metadata.Meta', 'metadata.MetaChild'):
        cs.append(fld('text', x) == fld('text', y))
    if cls == 'metadata.MetaChild':
        cs.append(fld('name', x) == fld('name', y))
    if cls in ('model.XigtCorpus', 'model.Igt', 'model.Tier'):
        cs.append(pairwise(fld('_md', x), fld('_md', y)))
    if cls in MEMBER:
        cs.append(pairwise(x, y))
    return z3.And(cs)


def md_eq(E, cls, a, b):
    """== between the metadata lists of two objects, and between members"""
    if isinstance(a, Obj) and isinstance(b, Obj) and getattr(a.cls, 'name', '') == 'XigtContainerMixin' \
            and getattr(b.cls, 'name', '') == 'XigtContainerMixin':
        return lib.lift(pairwise(a.t, b.t))
    return member_eq(E, a, b)


def h_eq(cls):
    def h(E):
        x, y = given(E, 'x', cls), given(E, 'y', cls)
        full(E, x, cls)
        full(E, y, cls)
        if cls != MIX:
            E.eq_contract = lambda E, a, b: md_eq(E, cls, a, b)
        m = heap_mark(E)
        k, v = outcome(E, lambda: E.call(E.getattr(x, '__eq__'), [y], {}))
        if k == 'raise':
            E.fail('== never raises')
            raise Done()
        prove_frame(E, m, '==')
        E.prove(lib.lift(E.truth(v)) == structural(cls, x.t, y.t), '== is structural equality')
    return h


def h_other(a, b):
    def h(E):
        x, y = given(E, 'x', a), given(E, 'y', b)
        full(E, x, a)
        full(E, y, b)
        k, v = outcome(E, lambda: E.call(E.getattr(x, '__eq__'), [y], {}))
        if k == 'raise':
            E.fail('== never raises')
            raise Done()
        if isinstance(v, lib.Sentinel):
            raise Unsupported('NotImplemented')
        E.prove(lib.neg(E.truth(v)), 'objects of different classes are unequal')
    return h


def h_ne(a, b):
    def h(E):
        x, y = given(E, 'x', a), given(E, 'y', b)
        if x.t.eq(y.t):
            raise Done()
        full(E, x, a)
        full(E, y, b)
        k, v = outcome(E, lambda: lib.compare(E, 'NotEq', x, y))
        if k == 'raise':
            E.fail('!= never raises')
            raise Done()
        w = member_eq(E, x, y)
        E.prove(lib.lift(E.truth(v)) == z3.Not(lib.lift(w)), '!= is the negation of ==')
    return h


def h_laws(cls):
    """reflexive, symmetric, transitive, given that == of members is (structural induction)"""
    def h(E):
        x, y, z = [z3.Const('in:' + n, U) for n in 'xyz']
        d = [z3.Const('d%d!' % i, U) for i in range(3)]
        for eqv in (objeq, dicteq):
            E.assume(z3.ForAll([d[0]], eqv(d[0], d[0]), patterns=[eqv(d[0], d[0])]))
            E.assume(z3.ForAll(d[:2], z3.Implies(eqv(d[0], d[1]), eqv(d[1], d[0])), patterns=[eqv(d[0], d[1])]))
            E.assume(z3.ForAll(d, z3.Implies(z3.And(eqv(d[0], d[1]), eqv(d[1], d[2])), eqv(d[0], d[2])),
                               patterns=[z3.MultiPattern(eqv(d[0], d[1]), eqv(d[1], d[2]))]))
        S = lambda a, b: structural(cls, a, b)
        j = z3.Int('j!')
        E.assume(z3.ForAll([j], objeq(at(x, j), at(x, j)), patterns=[at(x, j)]))
        md = fld('_md', x)
        E.assume(z3.ForAll([j], objeq(at(md, j), at(md, j)), patterns=[at(md, j)]))
        E.prove(S(x, x), '== is reflexive')
        E.prove(z3.Implies(S(x, y), S(y, x)), '== is symmetric')
        E.prove(z3.Implies(z3.And(S(x, y), S(y, z)), S(x, z)), '== is transitive')
    return h


HARNESSES = []
for c in ALL + [MIX]:
    HARNESSES.append(('== of ' + c, guarded(h_eq(c))))
    HARNESSES.append(('laws of == of ' + c, guarded(h_laws(c))))
for a in ALL:
    for b in ALL:
        HARNESSES.append(('!= of %s and %s' % (a, b), guarded(h_ne(a, b))))
        if a != b:
            HARNESSES.append(('== of %s and %s' % (a, b), guarded(h_other(a, b))))
