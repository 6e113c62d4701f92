"""C01/C02: the class invariant of containers, and the contract of every mutator.

Invariant (agree): the id map of a container and its sequence of members describe
each other; every member has the container as parent and the permitted type.
"""
import z3
from values import *
import lib
from engine import *
from model import *

CLASSES = ['model.XigtCorpus', 'model.Igt', 'model.Tier', 'metadata.Metadata', 'metadata.Meta',
           'metadata.MetaChild', 'mixins.XigtContainerMixin']


# ---- the invariant over a sequence and a dict of the pre-state / of a loop head ------

def gp(dt):
    """position of the member with a given id"""
    f = uf('gpos', U, U, I)
    return lambda k: f(dt, k)


def assume_agree(E, parts, dt):
    """the given dict (term dt) is the id map of the sequence of given objects"""
    k = z3.Const('k!', U)
    j = z3.Int('j!')
    off = z3.IntVal(0)
    where = []
    g = gp(dt)
    for p in parts:
        if isinstance(p, Lit):
            t = p.v.t
            E.assume(z3.Implies(idf(t) != NONE, z3.And(dhas(dt, idf(t)), dget(dt, idf(t)) == t, g(idf(t)) == off)))
            where.append((off, off + 1, lambda i, t=t: t))
            off = off + 1
        else:
            e = lambda i, p=p: lib.fm_at(E, p, i).t
            body = z3.Implies(z3.And(p.lo <= j, j < p.hi, idf(e(j)) != NONE),
                              z3.And(dhas(dt, idf(e(j))), dget(dt, idf(e(j))) == e(j),
                                     g(idf(e(j))) == off + j - p.lo))
            E.assume(z3.ForAll([j], body, patterns=[e(j)]))
            where.append((off, off + p.hi - p.lo, lambda i, p=p, off=off, e=e: e(p.lo + i - off)))
            off = z3.simplify(off + p.hi - p.lo)
    gk = g(k)
    E.assume(z3.ForAll([k], z3.Implies(dhas(dt, k), z3.And(
        k != NONE, idf(dget(dt, k)) == k, 0 <= gk, gk < off,
        *[z3.Implies(z3.And(a <= gk, gk < b), el(gk) == dget(dt, k)) for a, b, el in where])),
        patterns=[dhas(dt, k)]))
    if not parts:
        E.assume(z3.ForAll([k], z3.Not(dhas(dt, k)), patterns=[dhas(dt, k)]))


def assume_elems(E, c, parts, cont):
    """type and parent of the members"""
    j = z3.Int('j!')
    for p in parts:
        if isinstance(p, FM):
            e = lib.fm_at(E, p, j).t
            E.assume(z3.ForAll([j], z3.Implies(z3.And(p.lo <= j, j < p.hi), z3.And(
                e != NONE, kindf(e) == 5, z3.Not(fresh_p(e)), fld('_parent', e) == cont)), patterns=[e]))


def container(E, cls, name='c'):
    """a container that satisfies the invariant"""
    c = obj(E, name, cls)
    if cls == 'mixins.XigtContainerMixin':
        own = E.getfield(c, '_container')[0]
        E.assume(own.t != NONE)
        E.assume(z3.And(kindf(own.t) == 5, z3.Not(fresh_p(own.t))))
    d = E.getfield(c, '_dict')[0]
    E.assume(z3.Not(fresh_p(d.t)))
    parts = E.content(c).parts
    assume_agree(E, parts, d.t)
    assume_elems(E, c, parts, E.getfield(c, '_container')[0].t)
    return c


def members(E, c):
    return E.content(c)


# ---- proving it --------------------------------------------------------------------

def any_elem(E, parts, name):
    """fork over the parts: (position as (part number, index), element)"""
    live = [(n, p) for n, p in enumerate(parts)]
    for m, (n, p) in enumerate(live):
        if m < len(live) - 1 and not E.choose('%s in part %d' % (name, n)):
            continue
        if isinstance(p, Lit):
            return (n, z3.IntVal(0)), p.v
        j = E.fresh(I, name)
        E.assume(z3.And(p.lo <= j, j < p.hi))
        if not E.possible():
            raise Infeasible()
        out = []
        E.enter_leaf(p, j, lambda ps: out.extend(ps))
        if not out:
            raise Infeasible()
        if len(out) != 1 or not isinstance(out[0], Lit):
            raise Unsupported('members in groups')
        return (n, j), out[0].v
    raise Infeasible()


def idof(E, o):
    return E.getattr(o, 'id')


def prove_agree(E, c, label):
    """every obligation of the invariant for the present state of c"""
    parts = E.content(c).parts
    D = E.getfield(c, '_dict')[0]
    d = E.dcontent(D)
    cont = E.getfield(c, '_container')[0]
    mcls = E.getfield(c, '_contained_type')[0]
    if E.wants('C01') and E.choose('members are indexed'):
        _, x = any_elem(E, parts, 'm')
        i = idof(E, x)
        if E.decide(lib.lift(lib.is_(E, i, None))):
            E.prove(True, label + ': a member without id needs no entry')
        else:
            r = E.dict_find(d, i)
            if r is None:
                E.fail(label + ': the id of a member is found')
            else:
                E.prove(lib.is_(E, r[0], x), label + ': the id of a member gives that member')
        raise Done()
    if E.wants('C01') and E.choose('entries are members'):
        k = SU(E.fresh(U, 'key'), 'any')
        r = E.dict_find(d, k)
        if r is not None:
            E.prove(lib.seq_member_is(E, r[0], Seq(parts)), label + ': an id that is found belongs to a member')
            E.prove(lib.eq(E, idof(E, r[0]), k), label + ': the object found has the id')
        raise Done()
    if E.wants('C01') and E.choose('ids are unique'):
        p, x = any_elem(E, parts, 'm')
        q, y = any_elem(E, parts, 'n')
        if p[0] > q[0]:
            raise Infeasible()
        if p[0] == q[0]:
            E.assume(p[1] < q[1])
            if not E.possible():
                raise Infeasible()
        i, j = idof(E, x), idof(E, y)
        if not E.decide(lib.lift(lib.is_(E, i, None))):
            E.prove(lib.neg(E.truth(lib.eq(E, i, j))), label + ': no two members share an id')
        raise Done()
    if not E.wants('C02'):
        raise Done()
    _, x = any_elem(E, parts, 'm')
    E.prove(isinstance(x, Obj) and issubclass(x.cls.py, mcls.py), 'C02 ' + label + ': members have the permitted type')
    E.prove(lib.is_(E, E.getattr(x, '_parent'), cont), 'C02 ' + label + ': members have the container as parent')
    raise Done()


class Done(Exception):
    """this branch of the harness has nothing more to prove"""


def guarded(fn):
    def h(E):
        try:
            fn(E)
        except Done:
            pass
    return h


def prove_unchanged(E, c, old, oldd, label):
    """members, order and lookup are what they were"""
    E.prove(same(E, E.content(c), old), label + ': members and order unchanged')
    D = E.getfield(c, '_dict')[0]
    k = SU(E.fresh(U, 'key'), 'any')
    new = E.dict_find(E.dcontent(D), k)
    was = E.dict_find(oldd, k)
    if new is None or was is None:
        E.prove(new is None and was is None, label + ': lookup unchanged')
    else:
        E.prove(lib.is_(E, new[0], was[0]), label + ': lookup unchanged')


def same(E, a, b):
    r = lib.same(E, a, b)
    if not r:
        E.why = r.why
    return bool(r)


# ---- calling -----------------------------------------------------------------------

def call(E, o, name, *args, **kw):
    """(result, None) or (None, exception)"""
    try:
        return E.call(E.getattr(o, name), list(args), kw), None
    except PyRaise as r:
        return None, r.exc


def isexc(E, exc, name):
    return exc is not None and exc.cls.name == name


# ---- loops that change a container ---------------------------------------------------

def loop_rules(E, c):
    """a loop over given objects that puts them one by one into c, or indexes them:
    cut with the class invariant"""
    def rule(E, st, env, it, body):
        if len(E.explorers) > 1:
            return False
        seq = lib.iterate(E, it)
        if len(seq.parts) != 1 or not isinstance(seq.parts[0], FM):
            return False
        fm = seq.parts[0]
        if not lib.uniform(fm):
            return False
        return adding(E, st, env, fm, body) or indexing(E, st, env, fm, body)

    def heads(env, st):
        return [n.id for s in [st.target] + st.body for n in ast.walk(s)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]

    def havoc(E, env, names):
        for n in names:
            if n in (env.locals or ()) or n in env.vars:
                env.vars[n] = Poison('loop variable')

    def newdict(E, c, parts):
        D = E.getfield(c, '_dict')[0]
        t = E.fresh(U, 'index')
        E.assume(z3.Not(fresh_p(t)))
        nd = Obj(t, 'dict', False, E.schema[c.cls.qual, '_dict'].split(':', 1)[1])
        assume_agree(E, parts, t)
        E.set_dcontent(D, DVal(base=nd))
        return nd

    def adding(E, st, env, fm, body):
        # content = content before + elements so far
        cont = E.getfield(c, '_container')[0]
        names = heads(env, st)
        start = E.content(c).parts

        def state(hi):
            v = z3.Int(E.name('p'))
            sub = FM(fm.base, fm.lo, hi, fm.var, fm.leaves, fm.identity)
            parts = start + (sub,)
            E.set_content(c, Seq(parts))
            el = lib.fm_at(E, fm, v)
            E.heap['_parent'] = E.heap.get('_parent', ()) + (
                ('bulk', Bulk(((v, fm.lo, hi),), (), el.t, False, el.cls), cont),)
            newdict(E, c, [p for p in parts])
        if E.choose('loop: an arbitrary iteration'):
            if E.choose('loop: invariant holds on entry'):
                prove_agree(E, c, 'loop entry')
            k = E.fresh(I, 'it')
            E.assume(z3.And(fm.lo <= k, k < fm.hi))
            if not E.possible():
                raise Infeasible()
            state(k)
            havoc(E, env, names)
            x = lib.fm_at(E, fm, k)
            before = {f: len(v) for f, v in E.heap.items()}
            E.alloc_log = []
            body(x)
            new = E.alloc_log
            # frame
            D = E.getfield(c, '_dict')[0]
            for f, ents in E.heap.items():
                for t, fr, v in ents[before.get(f, 0):]:
                    if not isinstance(t, str) and any(t.eq(a) for a in new):
                        continue
                    ok = not isinstance(t, str) and (
                        f == '@seq' and t.eq(c.t) or f == '@dict' and t.eq(D.t) or f == '_parent' and t.eq(x.t))
                    if not ok:
                        raise LoopCarried('loop writes %s' % f)
            want = Seq(start + (FM(fm.base, fm.lo, z3.simplify(k + 1), fm.var, fm.leaves, fm.identity),))
            if E.choose('loop: order'):
                E.prove(same(E, E.content(c), want), 'loop: the element is added at the end')
                raise Done()
            E.set_content(c, Seq(start + (FM(fm.base, fm.lo, k, fm.var, fm.leaves, fm.identity), Lit(x))))
            prove_agree(E, c, 'loop step')
        state(fm.hi)
        havoc(E, env, names)
        return True

    def indexing(E, st, env, fm, body):
        return False
    return rule


import ast
