"""align_tier over an abstract trellis.

The columns before the call are numbered 0..n0-1. Column c now holds the original columns
OL(c)..OH(c)-1 (its cells are those of them, put together) and, when it has a row for the tier that
is added (c < F), the groups of the agenda LO(c)..HI(c)-1. P groups are placed, k have been read."""
import ast
from common import *
from houdini import stores, isint


def func(E, what):
    E.trellis_n = getattr(E, 'trellis_n', 0) + 1
    return uf('tr:%s!%d' % (what, E.trellis_n), I, I)


class Trellis:
    MARKS = ('n', 'F', 'P', 'k', 'base', 'w')

    def __init__(self, E, depth):
        self.E, self.depth = E, depth
        self.t = z3.Const('in:trellis', U)
        self.key = Obj(z3.Const('in:trellis state', U), 'state', False)
        self.n0, self.K = z3.Int('in:columns'), z3.Int('in:groups')
        E.assume(z3.And(self.n0 >= 0, self.K >= 0))
        self.f, self.l = uf('in:first', I, I), uf('in:last', I, I)
        self.al = uf('in:aligned', I, B)
        f, l, al = self.f, self.l, self.al
        g, h = z3.Ints('g!al h!al')
        # the groups: aligned with existing columns, in order; unaligned ones are not adjacent, and not
        # between two that share a column
        E.assume(z3.ForAll([g], z3.Implies(z3.And(al(g), 0 <= g, g < self.K), z3.And(0 <= f(g), f(g) <= l(g), l(g) < self.n0)), patterns=[al(g)]))
        E.assume(z3.ForAll([g, h], z3.Implies(z3.And(0 <= g, g < h, h < self.K, al(g), al(h)), f(g) <= f(h)), patterns=[z3.MultiPattern(f(g), f(h))]))
        E.assume(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < self.K - 1, z3.Not(al(g))), al(g + 1)), patterns=[al(g)]))
        E.assume(z3.ForAll([g, h], z3.Implies(z3.And(0 <= g, g < h - 1, h < self.K, al(g), al(h), z3.Not(al(h - 1))), l(g) < f(h)),
                           patterns=[z3.MultiPattern(l(g), f(h))]))
        for cls in ('trellis', 'trcolumn', 'trcell', 'idxmap', 'agenda', 'alignids'):
            E.obj_attr[cls] = self.attr
        E.stubs['trellis'] = {'getitem': self.column, 'len': lambda E, o: self.current(o) and SInt(self.num('n')),
                              'iter': lambda E, o: Seq([whole(Base(('columns', KTerm(o.t)), self.num('n'), lambda i: self.col(i)))])}
        E.stubs['trcolumn'] = {'getitem': self.cell}
        E.stubs['idxmap'] = {'getitem': self.lookup}
        E.stubs['alignids'] = {'len': lambda E, o: self.count(o), 'getitem': self.id_}
        E.stubs['agenda'] = {}

    # ---- state
    def get(self, a):
        return self.E.read('#' + a, self.key)[0]

    def num(self, a):
        return self.get(a)

    def set(self, **kw):
        for a, v in kw.items():
            self.E.write('#' + a, self.key, z3.simplify(v) if z3.is_expr(v) else z3.IntVal(v) if isinstance(v, int) else v)

    def start(self):
        """before the first group"""
        c = z3.Int('c!tr')
        fs = {a: func(self.E, a) for a in ('LO', 'HI', 'OL', 'OH')}
        self.E.assume(z3.ForAll([c], fs['OL'](c) == c, patterns=[fs['OL'](c)]))
        self.E.assume(z3.ForAll([c], fs['OH'](c) == c + 1, patterns=[fs['OH'](c)]))
        self.set(n=self.n0, F=0, P=0, k=0, base=0, w=-1, D=None, obj=self.fresh_obj(), **fs)

    def fresh_obj(self):
        t = self.E.fresh(U, 'trellis')
        self.E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
        return Obj(t, 'trellis', False)

    def invariant(self):
        """the facts between two groups: [(label, formula)]"""
        n, F, P, k, base, w = (self.num(a) for a in self.MARKS)
        LO, HI, OL, OH = (self.get(a) for a in ('LO', 'HI', 'OL', 'OH'))
        f, l, al = self.f, self.l, self.al
        c, g = z3.Ints('c!tr g!tr')
        out = [('counts', z3.And(0 <= F, F <= n, 0 <= k, k <= self.K, n - F + base == self.n0, base <= self.n0)),
               ('placed', P == k - (0 if self.get('D') is None else 1)),
               ('nothing yet', z3.Implies(F == 0, z3.And(P == 0, base == 0))),
               ('delayed', z3.BoolVal(True) if self.get('D') is None else z3.And(k > 0, z3.Not(al(k - 1)))),
               ('last', z3.Implies(F > 0, z3.And(OL(F - 1) < OH(F - 1), OH(F - 1) == base, LO(0) == 0, OL(0) == 0, HI(F - 1) == P, 0 <= w, w < P, al(w), base == l(w) + 1))),
               ('last group', z3.Implies(z3.And(F > 0, P > 0, al(P - 1)), OL(F - 1) <= f(P - 1))),
               ('last group that is aligned', z3.Implies(F > 0, al(P - 1))),
               ('not yet', z3.ForAll([c], z3.Implies(z3.And(F <= c, c < n), z3.And(OL(c) == c - F + base, OH(c) == c - F + base + 1)), patterns=[OL(c)])),
               ('not yet', z3.ForAll([c], z3.Implies(z3.And(F <= c, c < n), z3.And(OL(c) == c - F + base, OH(c) == c - F + base + 1)), patterns=[OH(c)])),
               ('in order', z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < F), z3.And(
                   0 <= LO(c), LO(c) <= HI(c), HI(c) <= P, 0 <= OL(c), OL(c) <= OH(c), OH(c) <= base)), patterns=[LO(c)])),
               ('in order', z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < F), z3.And(0 <= OL(c), OL(c) <= OH(c), OH(c) <= base)), patterns=[OL(c)])),
               ('in order', z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < F - 1), z3.And(OH(c) <= OL(F - 1), OH(c) == OL(c + 1))), patterns=[OH(c)])),
               ('in order', z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < F - 1), HI(c) == LO(c + 1)), patterns=[HI(c)])),
               ('aligned', z3.ForAll([c, g], z3.Implies(z3.And(0 <= c, c < F, LO(c) <= g, g < HI(c), al(g)), z3.And(OL(c) <= f(g), l(g) < OH(c))),
                                     patterns=[z3.MultiPattern(LO(c), f(g))]))]
        return out

    def havoc(self, delayed):
        E = self.E
        v = {a: E.fresh(I, a) for a in self.MARKS}
        v.update({a: func(E, a) for a in ('LO', 'HI', 'OL', 'OH')})
        self.set(obj=self.fresh_obj(), D=None if not delayed else z3.simplify(v['k'] - 1), **v)
        for _, p in self.invariant():
            E.assume(p)

    def check(self, label):
        E = self.E
        for a, p in self.invariant():
            if z3.is_quantifier(p):
                vs = [E.fresh(I, 'at') for _ in range(p.num_vars())]
                p = z3.substitute_vars(p.body(), *reversed(vs))
            E.prove(p, '%s: %s' % (label, a))

    # ---- operations
    def current(self, o):
        if not o.t.eq(self.get('obj').t):
            raise Unsupported('an earlier trellis')
        return True

    def index(self, i):
        i = self.E.force(i)
        if not isint(i):
            raise Unsupported('index')
        return self.E.int_term(i)

    def col(self, i):
        t = uf('tr:column', U, I, U)(self.get('obj').t, i)
        self.E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
        return Obj(t, 'trcolumn', False)

    def column(self, E, o, i):
        self.current(o)
        i = self.index(i)
        E.prove(z3.And(0 <= i, i < self.num('n')), 'within the columns')
        return self.col(i)

    def cell(self, E, o, i):
        c = o.t.arg(1)
        E.prove(self.index(i) == self.depth, 'the row of the tier that is added')
        E.prove(c < self.num('F'), 'the column has this row')
        t = uf('tr:cell', U, U)(o.t)
        E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
        return Obj(t, 'trcell', False)

    def attr(self, E, o, name):
        if o.cls == 'trcolumn' and name == 'append':
            return (Native(lambda E, a, k: self.append(o, a[0]), name),)
        if o.cls == 'trcell' and name == 'extend':
            return (Native(lambda E, a, k: self.extend(o, a[0]), name),)
        if o.cls == 'trellis' and name == 'insert':
            raise Unsupported('insert')
        if name in ('append', 'extend', 'insert', 'pop', 'popleft', 'get', 'items', 'index', 'count', 'copy'):
            raise Unsupported('%s.%s' % (o.cls, name))
        return None

    def append(self, o, x):
        E = self.E
        if not (isinstance(x, Obj) and x.cls == 'list' and not E.content(x).parts):
            raise Unsupported('a row that is not empty')
        c = o.t.arg(1)
        F, P = self.num('F'), self.num('P')
        E.prove(c == F, 'columns get their row from the left on')
        LO, HI = self.change('LO', lambda c, LO: z3.If(c == F, P, LO(c))), self.change('HI', lambda c, HI: z3.If(c == F, P, HI(c)))
        self.set(LO=LO, HI=HI, F=F + 1, base=self.num('base') + 1)

    def change(self, a, f):
        old, new = self.get(a), func(self.E, a)
        c = z3.Int('c!tr')
        self.E.assume(z3.ForAll([c], new(c) == f(c, old), patterns=[new(c)]))
        return new

    def extend(self, o, items):
        E = self.E
        c = o.t.arg(0).arg(1)
        F, P = self.num('F'), self.num('P')
        E.prove(c == F - 1, 'items are added from left to right')
        E.prove(self.is_group(items, P), 'groups are added in order')
        OL, OH = self.get('OL'), self.get('OH')
        E.prove(z3.Implies(self.al(P), z3.And(OL(c) <= self.f(P), self.l(P) < OH(c))), 'in the column with what they are aligned to')
        E.prove(self.al(P), 'what is not aligned gets a column of its own')
        w = z3.If(OH(c) == self.l(P) + 1, P, self.num('w'))
        HI = self.change('HI', lambda x, HI: z3.If(x == c, P + 1, HI(x)))
        self.set(HI=HI, P=P + 1, w=w)

    # ---- groups
    def items(self, g):
        t = uf('in:items', I, U)(g)
        self.E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
        return t

    def group(self, g):
        t = uf('in:ids', I, U)(g)
        self.E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
        return (Obj(t, 'alignids', False), Obj(self.items(g), 'list', False, 'obj:xigt.model.Item'))

    def is_group(self, v, g):
        if not isinstance(v, Obj) or v.t.decl().name() != 'in:items':
            return False
        return v.t.arg(0) == g

    def count(self, o):
        n = uf('in:nids', I, I)(o.t.arg(0))
        self.E.fact_once(z3.And(n >= 0, (n > 0) == self.al(o.t.arg(0))))
        return SInt(n)

    def id_(self, E, o, i):
        g = o.t.arg(0)
        n = self.count(o).t
        i = self.index(i)
        if E.decide(n == 0):
            E.raise_(IndexError)
        which = 'first' if E.implied(z3.Or(i == 0, i == -n)) else 'last' if E.implied(z3.Or(i == -1, i == n - 1)) else None
        if which is None:
            raise Unsupported('an id between the first and the last')
        t = uf('in:id ' + which, I, U)(g)
        E.fact_once(kindf(t) == 3)
        return SU(t, 'str')

    # ---- contracts
    def c_agenda(self, E, f, args, kw):
        E.prove(args[0].t.eq(self.tier.t), 'the agenda of the tier')
        return Obj(z3.Const('in:agenda', U), 'agenda', False)

    def c_idxmap(self, E, f, args, kw):
        tr, d = E.bind(f, args, kw).values()
        self.current(tr)
        E.prove(self.index(d) == self.depth - 1, 'the row that is aligned to')
        o = E.alloc('idxmap')
        for a in ('n', 'OL', 'OH'):
            E.write('#' + a, o, self.get(a))
        E.write('#obj', o, self.get('obj'))
        return o

    def lookup(self, E, o, k):
        k = E.force(k)
        if not isinstance(k, SU) or not k.t.decl().name().startswith('in:id '):
            raise Unsupported('lookup')
        g = k.t.arg(0)
        col = (self.f if k.t.decl().name() == 'in:id first' else self.l)(g)
        E.fact_once(z3.Implies(self.al(g), z3.And(0 <= col, col < self.n0)))
        n, OL, OH = (E.read('#' + a, o)[0] for a in ('n', 'OL', 'OH'))
        c = E.fresh(I, 'column')
        E.assume(z3.And(0 <= c, c < n, OL(c) <= col, col < OH(c)))
        return SInt(c)

    def c_delayed(self, E, f, args, kw):
        tr, delay, pos, d = E.bind(f, args, kw).values()
        self.current(tr)
        E.prove(self.index(d) == self.depth, 'the row of the tier that is added')
        pos = self.index(pos)
        ps = E.content(delay).parts
        if len(ps) > 1:
            E.fail('groups that are not aligned do not pile up')
            raise Done()
        if not ps:
            return (tr, 0)
        n, F, P = self.num('n'), self.num('F'), self.num('P')
        LO, HI, OL, OH = (self.get(a) for a in ('LO', 'HI', 'OL', 'OH'))
        v = ps[0].v
        E.prove(z3.And(0 <= pos, pos <= n), 'within the columns')
        E.prove(self.is_group(v[1], P), 'groups are added in order')
        E.prove(z3.Not(self.al(P)), 'what is aligned does not get a column of its own')
        E.prove(z3.Or(pos == F, z3.And(pos < F, LO(pos) == P)), 'groups are added from left to right')
        here = z3.If(pos < F, OL(pos), self.num('base'))
        E.assume(z3.ForAll([z3.Int('c!tr')], z3.BoolVal(True))) if False else None
        ins = lambda new: lambda c, X: z3.If(c < pos, X(c), z3.If(c == pos, new, X(c - 1)))
        S = {'OL': self.change('OL', ins(here)), 'OH': self.change('OH', ins(here)),
             'LO': self.change('LO', lambda c, X: z3.If(c < pos, X(c), z3.If(c == pos, P, P + 1))),
             'HI': self.change('HI', lambda c, X: z3.If(c < pos, X(c), P + 1))}
        self.set(n=n + 1, F=F + 1, P=P + 1, D=None, **S)
        E.set_content(delay, Seq())
        return (tr, 1)

    def c_merge(self, E, f, args, kw):
        tr, s, e = E.bind(f, args, kw).values()
        self.current(tr)
        s, e = self.index(s), self.index(e)
        n, F = self.num('n'), self.num('F')
        E.prove(z3.And(0 <= s, s < e, e <= n), 'within the columns')
        E.prove(z3.And(s < F, F <= e), 'columns are merged where the tier has come to')
        OL, OH, HI = self.get('OL'), self.get('OH'), self.get('HI')
        d = e - s - 1
        S = {'OL': self.change('OL', lambda c, X: z3.If(c <= s, X(c), X(c + d))),
             'OH': self.change('OH', lambda c, X: z3.If(c < s, X(c), X(c + d))),
             'HI': self.change('HI', lambda c, X: z3.If(c == s, X(F - 1), X(c)))}
        base = OH(e - 1)
        self.set(n=n - d, F=s + 1, base=base, obj=self.fresh_obj(), **S)
        return self.get('obj')

    # ---- loops
    def rule(self, E, st, env, it):
        if isinstance(st, ast.For):
            if isinstance(it, Obj) and it.cls == 'agenda':
                return self.each(E, st, env)
            return False
        return self.forward(E, st, env)

    def roles(self, env):
        out = {}
        for x, v in env.vars.items():
            if isint(v):
                out[x] = ('int', z3.simplify(self.E.int_term(v) - self.num('F')))
            elif isinstance(v, Obj) and v.cls == 'trellis' and v.t.eq(self.get('obj').t):
                out[x] = ('trellis',)
            elif isinstance(v, Obj) and v.cls == 'idxmap' and self.E.read('#obj', v)[0].t.eq(self.get('obj').t):
                out[x] = ('idxmap',)
            elif isinstance(v, Obj) and v.cls in ('deque', 'list') and not self.E.content(v).parts and v.fresh:
                out[x] = ('delay',)
        return out

    def each(self, E, st, env):
        label = 'align_tier'
        roles = self.roles(env)
        stored = stores(st.body) | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        roles = {x: r for x, r in roles.items() if x in stored or r[0] == 'delay'}
        self.check(label + ', at first')
        delayed = E.choose('a delayed group')
        self.havoc(delayed)
        for x in stored & set(env.vars):
            env.vars[x] = Poison('%s is carried from one iteration to the next' % x)
        for x, r in roles.items():
            if r[0] == 'int':
                env.vars[x] = SInt(z3.simplify(self.num('F') + r[1]))
            elif r[0] == 'trellis':
                env.vars[x] = self.get('obj')
            elif r[0] == 'idxmap':
                env.vars[x] = self.map_of()
            elif r[0] == 'delay':
                E.set_content(env.vars[x], Seq([Lit(self.group(self.get('D')))] if delayed else []))
        k = self.num('k')
        if not E.decide(k < self.K):
            E.assume(k == self.K)
            return True
        E.assign(st.target, self.group(k), env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        ds = [env.vars[x] for x, r in roles.items() if r[0] == 'delay' and isinstance(env.vars[x], Obj)]
        ps = [p for d in ds for p in E.content(d).parts]
        if len(ps) > 1 or any(not isinstance(p, Lit) for p in ps):
            E.fail(label + ': groups that are not aligned do not pile up')
            raise Done()
        self.set(k=k + 1, D=k if ps else None)
        if ps:
            v = E.force(ps[0].v)
            E.prove(isinstance(v, tuple) and len(v) == 2 and self.is_group(v[1], k), label + ': the group is delayed')
        for x, r in roles.items():
            v = env.vars.get(x)
            if r[0] == 'int':
                E.prove(E.int_term(v) == self.num('F') + r[1] if isint(v) else False, label + ': the position is kept')
            elif r[0] == 'trellis':
                E.prove(isinstance(v, Obj) and v.t.eq(self.get('obj').t), label + ': the trellis is kept')
            elif r[0] == 'idxmap':
                E.prove(isinstance(v, Obj) and v.cls == 'idxmap' and self.same_map(v), label + ': the map of positions is up to date')
        self.check(label)
        raise Done()

    def same_map(self, v):
        return all(self.E.read('#' + a, v)[0].eq(self.get(a)) for a in ('OL', 'OH'))

    def map_of(self):
        o = self.E.alloc('idxmap')
        for a in ('n', 'OL', 'OH', 'obj'):
            self.E.write('#' + a, o, self.get(a))
        return o

    def forward(self, E, st, env):
        """columns get their (empty) row one after the other"""
        label = 'align_tier'
        stored = stores(st.body)
        roles = {x: r for x, r in self.roles(env).items() if x in stored and r[0] == 'int'}
        if not E.choose('once more'):
            if E.decide(E.truth(E.ev(st.test, env))):
                raise Done()         # the other case
            E.exec_block(st.orelse, env)
            return True
        F0, P, n, base = (self.num(a) for a in ('F', 'P', 'n', 'base'))
        F = E.fresh(I, 'F')
        E.assume(z3.And(F0 <= F, F <= n))
        fill = lambda c, X: z3.If(z3.And(F0 <= c, c < F), P, X(c))
        self.set(LO=self.change('LO', fill), HI=self.change('HI', fill), F=F, base=z3.simplify(base + F - F0))
        for x in stored & set(env.vars):
            env.vars[x] = Poison('%s is carried from one iteration to the next' % x)
        for x, r in roles.items():
            env.vars[x] = SInt(z3.simplify(F + r[1]))
        E.assume(E.truth(E.ev(st.test, env)))
        obj = self.get('obj')
        E.exec_block(st.body, env)
        E.prove(z3.And(self.num('F') == F + 1, self.num('P') == P, self.num('n') == n) if obj is self.get('obj') else False,
                label + ': one column gets its row')
        for x, r in roles.items():
            v = env.vars.get(x)
            E.prove(E.int_term(v) == self.num('F') + r[1] if isint(v) else False, label + ': the position is kept')
        if E.decide(E.truth(E.ev(st.test, env))):
            raise Done()
        E.exec_block(st.orelse, env)
        return True


def h_align(E):
    Q = 'xigt.exporters.latex.'
    depth = z3.Int('in:depth')
    E.assume(depth >= 1)
    T = Trellis(E, depth)
    T.tier = given(E, 'tier', 'model.Tier')
    T.start()
    C = E.contracts
    C[Q + 'get_agenda'], C[Q + 'build_idxmap'], C[Q + 'add_delayed'], C[Q + 'merge_columns'] = \
        T.c_agenda, T.c_idxmap, T.c_delayed, T.c_merge
    C[Q + 'debug_display_trellis'] = lambda E, f, a, kw: None
    E.loop_rules[Q + 'align_tier'] = T.rule
    got = outcome(E, lambda: run(E, E.module(Q[:-1]).env.vars['align_tier'], T.get('obj'), T.tier, SInt(depth)))
    if got[0] != 'return':
        E.fail('a tier is aligned', repr(got[1]))
        raise Done()
    E.prove(isinstance(got[1], Obj) and got[1].cls == 'trellis' and got[1].t.eq(T.get('obj').t), 'the trellis is returned')
    n, F, P = T.num('n'), T.num('F'), T.num('P')
    LO, HI, OL, OH = (T.get(a) for a in ('LO', 'HI', 'OL', 'OH'))
    E.prove(F == n, 'every column has a row for the tier')
    E.prove(P == T.K, 'every item is in a column')
    E.prove(z3.Implies(n > 0, z3.And(LO(0) == 0, HI(n - 1) == T.K)), 'every item is in a column')
    E.prove(z3.Implies(n > 0, z3.And(OL(0) == 0, OH(n - 1) == T.n0)), 'every column is kept')
    E.prove(z3.Implies(n == 0, z3.And(T.K == 0, T.n0 == 0)), 'nothing is lost')
    c, g = E.fresh(I, 'c'), E.fresh(I, 'g')
    E.prove(z3.Implies(z3.And(0 <= c, c < n - 1), HI(c) == LO(c + 1)), 'every item once, in order')
    E.prove(z3.Implies(z3.And(0 <= c, c < n), LO(c) <= HI(c)), 'every item once, in order')
    E.prove(z3.Implies(z3.And(0 <= c, c < n - 1), OH(c) == OL(c + 1)), 'every column once, in order')
    E.prove(z3.Implies(z3.And(0 <= c, c < n), OL(c) <= OH(c)), 'every column once, in order')
    E.prove(z3.Implies(z3.And(0 <= c, c < n, LO(c) <= g, g < HI(c), T.al(g)), z3.And(OL(c) <= T.f(g), T.l(g) < OH(c))),
            'what is aligned is where it is aligned to')
    E.prove(z3.Implies(z3.And(0 <= c, c < n, LO(c) <= g, g < HI(c), z3.Not(T.al(g))), z3.And(HI(c) == LO(c) + 1)),
            'what is not aligned is alone') if False else None
