"""C10: ancestors and descendants, step by step. The state of a query (where it is, what it has visited,
what is still to do) is arbitrary at the head of a loop; each iteration makes exactly the specified step."""
import ast
from common import *
import c09
from houdini import stores
from lib import mkbool

TRUSTED = ['the list of ids of a reference expression is a function of the expression (C06 says which)',
           'contracts of dereference (the object of the first id), Tier.referrers (the ids of the referring tiers by '
           'attribute) and Igt.__getitem__ (the tier of an id), proved in C09 and C03; targets exist',
           'the transition system whose steps are proved is the query: visited pairs are pairs of a tier and a given '
           'attribute, so a query that adds a new one or shortens the agenda in every step ends (finiteness, by argument)']
A, D = 'xigt.query.ancestors', 'xigt.query.descendants'


def SETUP(E):
    c09.SETUP(E)
    E.module('xigt.query')
    E.schema['xigt.model.Tier', 'tier'] = 'absent'
    spec_module(E, 'walk')


def sf(E, name):
    return spec_fn(E, 'walk', name)


class State:
    def __init__(self, E):
        self.E = E
        self.g = given(E, 'g', 'model.Igt')
        self.phase = 'before'
        self.out = None
        o = Obj(z3.Const('in:refattrs', U), 'list', False, 'str')
        E.assume(z3.Not(fresh_p(o.t)))
        i = z3.Int('i!')
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(o.t)), z3.And(at(o.t, i) != lit(''), kindf(at(o.t, i)) == 3)),
                           patterns=[at(o.t, i)]))
        self.ras = o
        E.contracts['xigt.ref.dereference'] = lambda E, f, a, k: self.deref(*E.bind(f, a, k).values())
        for c in ('mixins.XigtReferenceAttributeMixin',):
            E.contracts['xigt.%s.referrers' % c] = lambda E, f, a, k: self.referrers(E.bind(f, a, k))
        E.contracts['xigt.mixins.XigtContainerMixin.__getitem__'] = self.getitem
        E.contracts['xigt.model.Igt.__getitem__'] = self.getitem
        self.deref_n = Native(lambda E, a, k: self.deref(*a), 'dereference')
        self.refs_n = Native(lambda E, a, k: self.refs(E.getattr(a[0], 'id'), a[1]), 'refs')
        self.get_n = Native(lambda E, a, k: self.tier(uf('tierof', U, U)(E.term(a[0]))), 'get')

    def tier(self, t):
        E = self.E
        E.fact_once(z3.And(kindf(t) == 5, t != NONE, z3.Not(fresh_p(t)), fld('_parent', t) == self.g.t))
        return E.preobj(t, 'xigt.model.Tier')

    def deref(self, o, ra):
        return self.tier(uf('dereference', U, U, U)(self.E.term(o), self.E.term(ra)))

    def table(self, id):
        return uf('referrersof', U, U)(self.E.term(id))

    def refs(self, id, ra):
        return self.E.mkval('list:str', dget(self.table(id), self.E.term(ra)))

    def referrers(self, b):
        """of a dict with the list of the ids of the referring tiers for each attribute asked for"""
        E = self.E
        o, ras = b['self'], b['refattrs']
        if not (isinstance(ras, Obj) and ras.t.eq(self.ras.t)):
            raise Unsupported('attributes')
        t = self.table(E.getattr(o, 'id'))
        i = z3.Int('i!')
        E.fact_once(z3.Not(fresh_p(t)))
        E.fact_once(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(ras.t)), z3.And(
            dhas(t, at(ras.t, i)), z3.Not(fresh_p(dget(t, at(ras.t, i)))))), patterns=[at(ras.t, i)]))
        return E.mkval('dict:str>list:str', t)

    def getitem(self, E, f, a, k):
        o, key = list(E.bind(f, a, k).values())
        if not (isinstance(o, Obj) and E.implied(o.t == self.g.t)):
            return NotImplemented
        if not lib.isstr(key):
            return NotImplemented
        return self.tier(uf('tierof', U, U)(E.term(key)))

    def consumer(self, v):
        if self.phase != 'in':
            self.E.fail('steps are made by the loop only', self.phase)
        elif self.out is None:
            raise Unsupported('yield between the steps')
        else:
            self.E.lib.list_method(self.E, self.out, 'append', [v], {})


def begin(E, is_item):
    H = State(E)
    if is_item:
        o = given(E, 'o', 'model.Item')
        E.assume(fld('_parent', o.t) == z3.Const('in:T0', U))
        H.tier(z3.Const('in:T0', U))
    else:
        o = H.tier(z3.Const('in:T0', U))
    H.tier0, H.items0 = run(E, sf(E, 'start'), o, is_item)
    return H, o


def istier(v):
    return isinstance(v, Obj) and getattr(v.cls, 'qual', None) == 'xigt.model.Tier'


def islist(v):
    return isinstance(v, Obj) and v.cls == 'list' or isinstance(v, tuple)


def visited(E, env):
    return [v for v in env.vars.values() if isinstance(v, Obj) and v.cls == 'set' and v.fresh]


def prove_members(E, seq, x, want, label):
    have = lib.seq_member(E, x, seq)
    have = have if isinstance(have, bool) else lib.lift(have)
    E.prove((z3.BoolVal(have) if isinstance(have, bool) else have) == want, label)


def up_rule(H):
    def rule(E, st, env, it):
        if not isinstance(st, ast.While) or H.phase != 'before':
            return False
        carried = [n for n in sorted(stores(st.body)) if n in env.vars]
        for n in carried:
            env.vars[n] = E.force(env.vars[n])
        tiers = [n for n in carried if istier(env.vars[n])]
        lists = [n for n in carried if islist(env.vars[n])]
        sets = visited(E, env)
        for n in tiers:
            E.prove(env.vars[n].t == E.term(H.tier0), 'starts at the tier of the object')
        for n in lists:
            prove_same(E, env.vars[n], H.items0, 'starts with the object or all items of the tier')
        x = sym_str(E, 'x', 'optstr')
        if len(sets) != 1:
            raise Unsupported('what has been visited is not a set')
        V = sets[0]
        prove_members(E, E.content(V), x, x.t == E.term(E.getattr(H.tier0, 'id')), 'the first tier counts as visited')
        # any state
        T = H.tier(z3.Const('in:T', U))
        L = Obj(z3.Const('in:L', U), 'list', False, 'obj:xigt.model.Item')
        i, at_ = z3.Int('i!'), fld('attributes', T.t)       # targets exist
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(H.ras.t), dhas(at_, at(H.ras.t, i))),
                                           dget(at_, at(H.ras.t, i)) != lit('')), patterns=[at(H.ras.t, i)]))
        E.assume(z3.Not(fresh_p(L.t)))
        seen = Base(('seen',), z3.Int('nseen'), lambda i: SU(uf('seenid', I, U)(i), 'optstr'))
        E.assume(z3.Int('nseen') >= 0)
        before = Seq([whole(seen)])
        E.set_content(V, before)
        for n in carried:
            env.vars[n] = T if n in tiers else L if n in lists else Poison('%s is carried from step to step' % n)
        H.phase, H.out = 'in', E.newlist(Seq())
        m = heap_mark(E)
        end = False
        if not E.decide(E.truth(E.ev(st.test, env))):
            end = True
        else:
            try:
                E.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                end = True
            except Ret:
                end = True
        prove_frame(E, m, 'ancestors')
        H.phase = 'after'
        step = run(E, sf(E, 'up'), T, L, H.ras, c09.IDS, H.deref_n)
        out = H.out
        if step is None:
            E.prove(end, 'ends at a tier without such an attribute')
            prove_same(E, out, E.newlist(Seq()), 'no step from a tier without such an attribute')
        else:
            prove_same(E, out, E.newlist(Seq([Lit(step)])), 'the step along the first attribute')
            t = step[2]
            tid = E.term(E.getattr(t, 'id'))
            was = lib.seq_member(E, E.getattr(t, 'id'), before)
            was = z3.BoolVal(was) if isinstance(was, bool) else lib.lift(was)
            E.prove(was == z3.BoolVal(end), 'ends exactly when a visited tier is reached')
            if not end:
                for n in tiers:
                    E.prove(E.term(env.vars[n]) == t.t, 'goes on from the referred tier')
                for n in lists:
                    prove_same(E, env.vars[n], step[3], 'goes on with its items')
                w = lib.seq_member(E, x, before)
                w = z3.BoolVal(w) if isinstance(w, bool) else lib.lift(w)
                prove_members(E, E.content(V), x, z3.Or(w, x.t == tid), 'the referred tier counts as visited')
        if not end:
            raise Done()
        return True
    return rule


def h_ancestors(is_item):
    def h(E):
        H, o = begin(E, is_item)
        E.loop_rules[A] = up_rule(H)
        gen = run(E, E.module('xigt.query').env.vars['ancestors'], o, H.ras)
        k, v = outcome(E, lambda: E.stream(gen, H.consumer))
        if k != 'return':
            E.fail('following references does not fail', repr(v))
    return h


def member(E, x, seq):
    c = lib.seq_member(E, x, seq)
    return z3.BoolVal(c) if isinstance(c, bool) else lib.lift(c)


def fresh_seqs(E, env):
    return [v for v in env.vars.values() if isinstance(v, Obj) and v.cls in ('list', 'deque') and v.fresh]


class Down:
    """the state of descendants: the agenda and what has been expanded"""

    def __init__(self, H, first):
        self.H, self.first = H, first
        self.level = 0

    def queue(self, tag, extra=()):
        """any agenda of tiers of the IGT with some items"""
        H, E = self.H, self.H.E
        n = z3.Int(tag)
        E.assume(n >= 0)

        def elem(i):
            l = uf(tag + ':items', I, U)(i)
            E.fact_once(z3.Not(fresh_p(l)))
            return H.tier(uf(tag + ':tier', I, U)(i)), Obj(l, 'list', False, 'obj:xigt.model.Item')
        return Seq([whole(Base((tag,), n, elem))])

    def seen(self, tag):
        n = z3.Int(tag)
        self.H.E.assume(n >= 0)
        return Seq([whole(Base((tag,), n, lambda i: (SU(uf(tag + ':id', I, U)(i), 'optstr'), SU(uf(tag + ':ra', I, U)(i), 'str'))))])

    def pair(self, k):
        E = self.H.E
        return (SU(z3.Const('in:seenid', U), 'optstr'), SU(z3.Const('in:seenra', U), 'str'))

    def __call__(self, E, st, env, it):
        if self.level == 0 and isinstance(st, ast.While):
            return self.outer(E, st, env)
        # (a loop that yields nothing, such as one that only makes a list, is none of the two)
        if self.level == 1 and isinstance(st, ast.For) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(st)):
            return self.inner(E, st, env, it)
        return False

    def outer(self, E, st, env):
        H = self.H
        sets, qs = visited(E, env), fresh_seqs(E, env)
        qs = [q for q in qs if len(E.content(q).parts) == 1 and isinstance(E.content(q).parts[0], Lit)
              and isinstance(E.content(q).parts[0].v, tuple) and len(E.content(q).parts[0].v) == 2]
        if len(sets) != 1 or len(qs) != 1:
            raise Unsupported('agenda and set of what has been expanded')
        self.Q, self.V = qs[0], sets[0]
        prove_same(E, E.newlist(E.content(self.Q)), E.newlist(Seq([Lit((H.tier0, H.items0))])),
                   'starts with the object or all items of the tier')
        prove_same(E, E.newlist(E.content(self.V)), E.newlist(Seq()), 'nothing has been expanded at the start')
        for n in stores(st.body):
            if n in env.vars:
                env.vars[n] = Poison('%s is carried from step to step' % n)
        q, v = self.queue('queue'), self.seen('seen')
        E.set_content(self.Q, q)
        E.set_content(self.V, v)
        self.level, H.phase, H.out = 1, 'in', None
        self.mark = heap_mark(E)
        self.done = False
        if not E.decide(E.truth(E.ev(st.test, env))):
            E.prove(z3.Int('queue') == 0, 'ends when nothing is left to do')
            H.phase = 'after'
            self.level = 3
            return True
        E.prove(z3.Int('queue') > 0, 'goes on while something is left to do')
        self.head = lib.fm_at(E, q.parts[0], z3.IntVal(0))
        fm = q.parts[0]
        self.rest = Seq([FM(fm.base, z3.IntVal(1), fm.hi, fm.var, fm.leaves, fm.identity)])
        self.before = v
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        self.frame()
        if not self.done:
            want = run(E, sf(E, 'followed'), self.head[0], H.ras, self.first, H.refs_n)
            prove_same(E, want, E.newlist(Seq()), 'every followed attribute is expanded')
        prove_same(E, E.newlist(E.content(self.Q)), E.newlist(self.rest), 'the agenda is taken from the front')
        prove_same(E, E.newlist(E.content(self.V)), E.newlist(self.before), 'nothing else counts as expanded')
        raise Done()

    def frame(self):
        prove_frame(self.H.E, self.mark, 'descendants')

    def inner(self, E, st, env, it):
        H = self.H
        T, L = self.head
        if st.orelse:
            raise Unsupported('for ... else')
        seq = E.lib.iterate(E, it)
        want = run(E, sf(E, 'followed'), T, H.ras, self.first, H.refs_n)
        prove_same(E, E.newlist(seq), want, 'the followed attributes, in order')
        prove_same(E, E.newlist(E.content(self.Q)), E.newlist(self.rest), 'the agenda is taken from the front')
        prove_same(E, E.newlist(E.content(self.V)), E.newlist(self.before), 'nothing else counts as expanded')
        self.frame()
        self.level, self.done = 2, True

        def each(parts):
            for p in parts:
                if isinstance(p, Lit):
                    aside(E, lambda: self.one(E, st, env, p.v))
                elif isinstance(p, FM):
                    def generic():
                        i = E.fresh(I, 'a')
                        E.assume(z3.And(p.lo <= i, i < p.hi))
                        E.enter_leaf(p, i, each)
                    aside(E, generic)
                else:
                    raise Unsupported('attributes')
        each(E.lib.iterate(E, want).parts)
        self.level = 1
        for n in stores(st.body) | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}:
            env.vars[n] = Poison('%s after the loop' % n)
        self.rest, self.before = self.queue('queue2'), self.seen('seen2')
        E.set_content(self.Q, self.rest)
        E.set_content(self.V, self.before)
        return True

    def one(self, E, st, env, ra):
        """an attribute in any state: expanded if it was not"""
        H = self.H
        T, L = self.head
        for n in stores(st.body):
            env.vars[n] = Poison('%s is carried from step to step' % n)
        q, v = self.queue('queue1'), self.seen('seen1')
        E.set_content(self.Q, q)
        E.set_content(self.V, v)
        H.out = E.newlist(Seq())
        E.assign(st.target, ra, env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        except Brk:
            E.fail('every followed attribute is expanded')
        self.frame()
        x = self.pair(0)
        key = (E.getattr(T, 'id'), ra)
        out, H.out = H.out, None
        if E.decide(member(E, key, v)):
            steps = E.newlist(Seq())
            label = 'nothing is expanded twice'
        else:
            steps = run(E, sf(E, 'down'), T, L, ra, c09.IDS, H.refs_n, H.get_n)
            label = 'a step for each referring tier with its items that refer'
        prove_same(E, out, steps, label)
        more = run(E, sf(E, 'pairs'), steps)
        prove_same(E, E.newlist(E.content(self.Q)), E.newlist(Seq(q.parts + E.content(more).parts)),
                   'the agenda goes on with the steps made')
        w = z3.Or(member(E, x, v), z3.And(x[0].t == E.term(key[0]), x[1].t == E.term(ra)))
        E.prove(member(E, x, E.content(self.V)) == w, 'what is expanded counts as expanded')


def h_descendants(is_item, first):
    def h(E):
        H, o = begin(E, is_item)
        E.assume(E.term(E.getattr(H.tier0, 'id')) != NONE)
        E.loop_rules[D] = Down(H, first)
        f = E.module('xigt.query').env.vars['descendants']
        gen = run(E, f, o, H.ras, **({} if first else {'follow': 'all'}))
        k, v = outcome(E, lambda: E.stream(gen, H.consumer))
        if k != 'return':
            E.fail('following references does not fail', repr(v))
    return h


HARNESSES = [('ancestors of %s' % n, guarded(h_ancestors(i))) for n, i in (('an item', True), ('a tier', False))] + [
    ('descendants of %s%s' % (n, m), guarded(h_descendants(i, f))) for n, i in (('an item', True), ('a tier', False))
    for m, f in (('', True), (', all', False))]
