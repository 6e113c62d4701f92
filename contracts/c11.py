"""C11: sort_tiers. The key of a tier is the chain of its referents; sorting is stable."""
from common import *
import chains
import containers

TRUSTED = ['XigtAttributeMixin.get_attribute of a name without colon or brace: the attribute of that name, where no '
           'default namespace is in force (contract proved in C04)',
           'list.sort(key) is a stable sort that calls key once for every member (CPython)',
           'a set of different positions below n has at most n members (pigeonhole, for the end of the inner loop)']
GET = 'xigt.mixins.XigtAttributeMixin.get_attribute'
Q = 'xigt.model.Igt.sort_tiers'


def SETUP(E):
    load(E)
    schema(E)
    spec_module(E, 'references')


class Ends(chains.Chain):
    """positions of tiers, none twice"""

    def __init__(self, n):
        self.n = n

    def inv(self, E, k, vals):
        return z3.And([z3.And(0 <= v[0].t, v[0].t < self.n) for v in vals.values() if pair(v)]
                      + [z3.BoolVal(True)])

    def variant(self, E, k, vals, added):
        """a position below n is added that was not there"""
        for s, x in added:
            if isinstance(x, (SInt, int)):
                t = E.int_term(x)
                E.prove(z3.And(0 <= t, t < self.n), 'the inner loop adds positions of tiers')
                E.prove(z3.Not(lib.lift(lib.seq_member(E, x, s))), 'the inner loop adds new positions')
                return
        raise Unsupported('nothing that bounds the inner loop')


class Follow(Ends):
    """positions are those of the chain of referents, each lower than the one before"""

    def inv(self, E, k, vals):
        fs = [Ends.inv(self, E, k, vals)]
        for v in vals.values():
            if pair(v):
                a = anc(E, k)
                fs += [HAS(a), 0 <= a, a < self.n, v[0].t == anc(E, k + 1), v[1].t == PRIO(a),
                       DEPTH(a) == DEPTH(anc(E, z3.IntVal(0))) - k]
        return z3.And(fs)


HAS = uf('hasref', I, z3.BoolSort())
PAR, PRIO, DEPTH = uf('par', I, I), uf('prio', I, I), uf('depth', I, I)
ANC = uf('anc', I, I, I)


def pair(v):
    return isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, (SInt, int)) and not isinstance(x, bool) for x in v)


def anc(E, k):
    i, k = E.iters0[0], z3.simplify(k)
    E.fact_once(ANC(i, z3.IntVal(0)) == i)              # instances of the definition
    E.fact_once(z3.Implies(k > 0, ANC(i, k) == PAR(ANC(i, z3.simplify(k - 1)))))
    return ANC(i, k)


def igt(E):
    g = containers.container(E, 'model.Igt', 'g')
    p = E.content(g).parts[0]
    i, j = z3.Ints('i! j!')
    e = lambda i: E.lib.fm_at(E, p, i).t
    pos = uf('position', U, I)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.hi), pos(e(i)) == i), patterns=[e(i)]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.hi), uf('fld:_id', U, U)(e(i)) != lit('')), patterns=[e(i)]))
    idt = uf('id', U, U)
    x = z3.Const('x!', U)
    inv = uf('idinv', U, U)
    E.assume(z3.ForAll([x], inv(idt(x)) == x, patterns=[idt(x)]))
    return g, p


def has(t, c):
    return uf('contains', U, U, z3.BoolSort())(t, lit(c))


def attribute(exact):
    """contract of get_attribute (C04) for plain names; exact: no default namespace is in force"""
    def c(E, f, args, kw):
        b = E.bind(f, args, kw)
        o, key = b['self'], b['key']
        t = E.term(key)
        E.prove(isinstance(key, str) and ':' not in key or z3.Not(has(t, ':')), 'get_attribute: a plain name')
        E.prove(b['namespace'] is None and b['inherit'] is False and b['default'] is None, 'get_attribute: of the tier itself')
        if exact:
            a = E.getattr(o, 'attributes')
            r = E.dict_find(E.dcontent(a), key)
            return r[0] if r else None
        if E.choose():
            return None
        r = uf('attribute', U, U, U)(o.t, t)
        E.fact_once(kindf(r) == 3)
        return SU(r, 'str')
    return c


def refattrs(E):
    if E.choose('default priorities'):
        return None
    o = Obj(z3.Const('in:refattrs', U), 'list', False, 'str')
    E.assume(z3.Not(fresh_p(o.t)))
    i = z3.Int('i!')
    at = lambda i: E.lib.fm_at(E, E.content(o).parts[0], i).t
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(o.t)), z3.Not(has(at(i), ':'))), patterns=[at(i)]))
    return o


def numbered(E, env):
    """the dicts filled by a loop: position of a tier -> pair of numbers"""
    for name, v in list(env.vars.items()):
        if isinstance(v, Obj) and v.cls == 'dict' and v.fresh:
            d = E.dcontent(v)
            if d.base is None and len(d.ops) == 1 and d.ops[0][0] == 'stream':
                fm = d.ops[0][1]
                if all(len(l.parts) < 2 for l in fm.leaves) and all(
                        isinstance(q, Lit) and isinstance(q.v, tuple) and len(q.v) == 2 and pair(q.v[1])
                        and isinstance(q.v[0], SInt) and q.v[0].t.eq(fm.var) for l in fm.leaves for q in l.parts):
                    yield v, fm


def table(E, name, post, absent):
    """loop contract: the table made has an entry (par, prio) for the positions that has a referent;
    what is said about them is proved for a generic position and then all that is known"""
    def after(E, st, env):
        for o, fm in numbered(E, env):
            B = z3.BoolSort()
            has, par, prio = uf(name + 'has', I, B), uf(name + 'par', I, I), uf(name + 'prio', I, I)

            def check():
                v = E.fresh(I, 'v')
                E.assume(z3.And(fm.lo <= v, v < fm.hi))

                def then(parts):
                    if parts:
                        x, y = parts[0].v[1]
                        for f in lib.flatten(post(v, E.int_term(x), E.int_term(y))):
                            E.prove(f, 'table of referents: entries')
                            E.assume(f)
                    else:
                        E.prove(absent(v), 'table of referents: missing entries')
                E.enter_leaf(fm, v, then)
            aside(E, check)
            i = z3.Int('i!')
            E.assume(z3.ForAll([i], z3.Implies(z3.And(fm.lo <= i, i < fm.hi, has(i)), post(i, par(i), prio(i))),
                               patterns=[has(i)]))
            E.assume(z3.ForAll([i], z3.Implies(z3.And(fm.lo <= i, i < fm.hi, z3.Not(has(i))), absent(i)),
                               patterns=[has(i)]))
            q = fresh_var('q')
            E.set_dcontent(o, DVal(ops=[('stream', FM(fm.base, fm.lo, fm.hi, q, [
                Leaf([has(q)], [], [Lit((SInt(q), (SInt(par(q)), SInt(prio(q)))))]),
                Leaf([], [], [])]))]))
    return after


def h_permutes(E):
    g, p = igt(E)
    ra = refattrs(E)
    chains.install(E, Q, Ends(p.hi))
    E.contracts[GET] = attribute(False)
    E.after_loop[Q] = table(E, 'T', lambda i, x, y: z3.And(0 <= x, x < p.hi), lambda i: z3.BoolVal(True))
    sorts = []

    def c_sort(E, seq, key, rev):
        sorted_here(E, p, seq, rev)
        i = E.fresh(I, 'i')
        E.assume(z3.And(0 <= i, i < p.hi))
        k, v = outcome(E, lambda: E.call(key, [E.lib.fm_at(E, p, i)], {}))
        if k != 'return':
            E.fail('every tier has a key', repr(v))
        else:
            E.prove(True, 'every tier has a key')
        sorts.append(1)
        pos = uf('sortedpos', I, I)
        return Seq([whole(Base(('sorted', p.base.key), p.hi, lambda i: p.base.elem(pos(i))))])
    E.sort_contract = c_sort
    m = heap_mark(E)
    got = outcome(E, lambda: method(E, g, 'sort_tiers', *([ra] if ra is not None else [])))
    prove_frame(E, m, 'sort_tiers', lambda f, t: f == '@seq' and t.eq(g.t))
    if got[0] != 'return':
        E.fail('sorting does not fail', repr(got[1]))
        raise Done()
    c = E.content(g)
    E.prove(bool(sorts) and len(c.parts) == 1 and isinstance(c.parts[0], FM) and c.parts[0].base.key == ('sorted', p.base.key),
            'the tiers are permuted')


def sorted_here(E, p, seq, rev):
    E.prove(rev is False, 'ascending')
    E.prove(len(seq.parts) == 1 and seq.parts[0].identity and seq.parts[0].base.key == p.base.key
            and E.implied(seq.parts[0].hi == p.hi), 'the tiers are sorted')


def acyclic(E, p, names):
    """every tier that has one of the attributes refers by the first to a tier of less depth, by its id"""
    i, j, q = z3.Ints('i! j! q!')
    n = p.hi
    tier = lambda i: E.lib.fm_at(E, p, i)
    tid = uf('fld:_id', U, U)
    at_ = uf('fld:attributes', U, U)
    if isinstance(names, tuple):
        m = z3.IntVal(len(names))
        name = lambda q: names_term(names, q)
    else:
        m = llen(names.t)
        name = lambda q: E.lib.fm_at(E, E.content(names).parts[0], q).t
    attrs = lambda i: at_(tier(i).t)
    given_ = lambda i, q: dhas(attrs(i), name(q))
    inr = lambda i: z3.And(0 <= i, i < n)
    if isinstance(names, tuple):
        first_ = lambda i: z3.Or([z3.And([PRIO(i) == c, dhas(attrs(i), lit(x)), tid(tier(PAR(i)).t) == dget(attrs(i), lit(x))]
                                         + [z3.Not(dhas(attrs(i), lit(y))) for y in names[:c]]) for c, x in enumerate(names)])
        none = lambda i: z3.And([z3.Not(dhas(attrs(i), lit(y))) for y in names])
    else:
        first_ = lambda i: z3.And(0 <= PRIO(i), PRIO(i) < m, given_(i, PRIO(i)),
                                  tid(tier(PAR(i)).t) == dget(attrs(i), name(PRIO(i))),
                                  z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PRIO(i)), z3.Not(given_(i, q))), patterns=[name(q)]))
        none = lambda i: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.Not(given_(i, q))), patterns=[name(q)])
    E.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(
        DEPTH(i) >= 0, z3.Implies(HAS(i), z3.And(first_(i), inr(PAR(i)), DEPTH(i) == DEPTH(PAR(i)) + 1,
                                                 tid(tier(PAR(i)).t) != NONE)),
        z3.Implies(z3.Not(HAS(i)), z3.And(none(i), DEPTH(i) == 0)))), patterns=[HAS(i)]))
    E.assume(z3.ForAll([i], z3.Implies(inr(i), z3.Or(HAS(i), z3.Not(HAS(i)))), patterns=[tier(i).t]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), tid(tier(i).t) == tid(tier(j).t), tid(tier(i).t) != NONE), i == j),
                       patterns=[z3.MultiPattern(tid(tier(i).t), tid(tier(j).t))]))
    k = z3.Int('k!')
    E.assume(z3.ForAll([i], ANC(i, 0) == i, patterns=[ANC(i, 0)]))
    E.assume(z3.ForAll([i, k], z3.Implies(k >= 0, ANC(i, k + 1) == PAR(ANC(i, k))), patterns=[ANC(i, k + 1)]))
    E.assume(z3.ForAll([i, k], z3.Implies(k >= 0, ANC(i, k + 1) == PAR(ANC(i, k))), patterns=[PAR(ANC(i, k))]))


def shift(E):
    """anc(i, k+1) = anc(par(i), k), by induction on k"""
    i = E.fresh(I, 'i')
    k = E.fresh(I, 'k')
    f = lambda k: ANC(i, z3.simplify(k + 1)) == ANC(PAR(i), k)
    E.fact_once(ANC(i, z3.IntVal(1)) == PAR(ANC(i, z3.IntVal(0))))      # instance of the definition
    E.prove(f(z3.IntVal(0)), 'shift lemma: base')
    E.prove(z3.Implies(z3.And(k >= 0, f(k)), f(k + 1)), 'shift lemma: step')
    x, y = z3.Ints('i! k!')
    E.assume(z3.ForAll([x, y], z3.Implies(y >= 0, ANC(x, y + 1) == ANC(PAR(x), y)), patterns=[ANC(x, y + 1), ANC(PAR(x), y)]))


class Key:
    """a key: pairs of numbers"""

    def __init__(self, E, v):
        seq = v.seq if isinstance(v, lib.STuple) else Seq([Lit(x) for x in v]) if isinstance(v, tuple) else E.content(v)
        self.parts = []
        n = z3.IntVal(0)
        for p in seq.parts:
            if isinstance(p, Lit):
                m, f = z3.IntVal(1), lambda k, p=p: p.v
            elif isinstance(p, FM) and lib.uniform(p) or p.identity:
                m, f = p.hi - p.lo, lambda k, p=p: lib.fm_at(E, p, p.lo + k)
            else:
                raise Unsupported('form of the key')
            self.parts.append((n, m, f))
            n = n + m
        self.len = n
        self.E = E

    def at(self, k):
        r = None
        for n, m, f in reversed(self.parts):
            v = f(k - n)
            if not pair(v):
                raise Unsupported('form of the key')
            v = tuple(self.E.int_term(x) for x in v)
            r = v if r is None else tuple(z3.If(k < n + m, a, b) for a, b in zip(v, r))
        return r


def chain_at(E, a, i, k):
    """the key of i is the chain of its referents: what it has at k"""
    D = DEPTH(i)
    x = a.at(k)
    E.prove(z3.Implies(z3.And(0 <= k, k < D), z3.And(x[0] == ANC(i, D - k), x[1] == PRIO(ANC(i, D - k - 1)))),
            'the key is the chain of referents')
    E.assume(z3.Implies(z3.And(0 <= k, k < D), z3.And(x[0] == ANC(i, D - k), x[1] == PRIO(ANC(i, D - k - 1)))))
    for y in (D - k - 1, D - k - 2):        # instances of the shift lemma
        E.assume(z3.Implies(y >= 0, ANC(i, y + 1) == ANC(PAR(i), y)))


def less(E, a, b, m, label, ij):
    """a < b: equal before m, where b goes on and a ends or has the lower pair"""
    k = E.fresh(I, 'm')
    x, y = a.at(k), b.at(k)
    for v, i in ((a, ij[0]), (b, ij[1])):
        f = z3.And(v.len == DEPTH(i) + 1, v.at(DEPTH(i))[0] == i, v.at(DEPTH(i))[1] == 0)
        E.prove(f, 'the key ends with the tier itself')
        E.assume(f)
        chain_at(E, v, i, k)
        chain_at(E, v, i, m)
    E.prove(z3.And(0 <= m, m <= a.len, m < b.len), label)
    E.prove(z3.Implies(z3.And(0 <= k, k < m), z3.And(x[0] == y[0], x[1] == y[1])), label)
    x, y = a.at(m), b.at(m)
    E.prove(z3.Or(a.len == m, x[0] < y[0], z3.And(x[0] == y[0], x[1] < y[1]),
                  z3.And(x[0] == y[0], x[1] == y[1], a.len == m + 1, m + 1 < b.len)), label)


def h_order(E):
    g, p = igt(E)
    ra = refattrs(E)
    names = ra if ra is not None else ('segmentation', 'alignment', 'content')
    acyclic(E, p, names)
    shift(E)
    chains.install(E, Q, Follow(p.hi))
    E.contracts[GET] = attribute(True)
    E.after_loop[Q] = table(E, 'T', lambda i, x, y: z3.And(HAS(i), x == PAR(i), y == PRIO(i)), lambda i: z3.Not(HAS(i)))

    def c_sort(E, seq, key, rev):
        sorted_here(E, p, seq, rev)

        def of(i):
            return Key(E, E.call(key, [E.lib.fm_at(E, p, i)], {}))

        def referent():
            i = E.fresh(I, 'i')
            E.assume(z3.And(0 <= i, i < p.hi, HAS(i), 0 <= PAR(i), PAR(i) < p.hi))
            less(E, of(PAR(i)), of(i), DEPTH(PAR(i)), 'a tier comes after the one it refers to', (PAR(i), i))

        def siblings():
            i, j = E.fresh(I, 'i'), E.fresh(I, 'j')
            E.assume(z3.And(0 <= i, i < j, j < p.hi, HAS(i), HAS(j), PAR(i) == PAR(j), PRIO(i) == PRIO(j)))
            less(E, of(i), of(j), DEPTH(i), 'tiers that refer to the same one alike keep their order', (i, j))

        def roots():
            i, j = E.fresh(I, 'i'), E.fresh(I, 'j')
            E.assume(z3.And(0 <= i, i < j, j < p.hi, z3.Not(HAS(i)), z3.Not(HAS(j))))
            less(E, of(i), of(j), DEPTH(i), 'tiers that refer to nothing keep their order', (i, j))
        for f in (referent, siblings, roots):
            aside(E, f)
        pos = uf('sortedpos', I, I)
        return Seq([whole(Base(('sorted', p.base.key), p.hi, lambda i: p.base.elem(pos(i))))])
    E.sort_contract = c_sort
    got = outcome(E, lambda: method(E, g, 'sort_tiers', *([ra] if ra is not None else [])))
    if got[0] != 'return':
        E.fail('sorting does not fail', repr(got[1]))


HARNESSES = [('permutation', guarded(h_permutes)), ('order', guarded(h_order))]
