"""C09: references and the index of an IGT."""
from common import *
import containers
from lib import mkbool

TRUSTED = ['the list of ids of a reference expression is a function of the expression (C06 says which)',
           'a set is iterated once per element (in some order)']
RAS = ('alignment', 'content', 'segmentation')


def SETUP(E):
    load(E)
    E.module('xigt.ref')
    schema(E)
    spec_module(E, 'references')
    E.merge_gets = True
    E.member_pred = True
    L, k, j = z3.Const('L!', U), z3.Const('k!', U), z3.Int('j!')
    mem, wit = uf('lmember', U, U, B), uf('lwitness', U, U, I)
    E.fact_once(z3.ForAll([L, k], z3.Implies(mem(L, k), z3.And(0 <= wit(L, k), wit(L, k) < llen(L), at(L, wit(L, k)) == k)),
                          patterns=[mem(L, k)]))
    E.fact_once(z3.ForAll([L, j], z3.Implies(z3.And(0 <= j, j < llen(L)), mem(L, at(L, j))), patterns=[at(L, j)]))
    E.fact_once(llen(uf('idsof', U, U)(lit(''))) == 0)
    E.contracts['xigt.ref.ids'] = lambda E, f, a, k: ids(E, list(E.bind(f, a, k).values())[0])
    for c in ('Tier', 'Item'):
        E.contracts['xigt.model.%s.allowed_reference_attributes' % c] = lambda E, f, a, k: RAS
    E.contracts['xigt.model.Item.__eq__'] = lambda E, f, a, k: c_eq(E, *E.bind(f, a, k).values())


def c_eq(E, a, b):
    """the items are equal (C05); changes nothing"""
    return mkbool(uf('equal', U, U, B)(E.term(a), E.term(b)))


def ids(E, x):
    x = E.force(x)
    if isinstance(x, str) and not x.strip():
        return E.newlist(Seq())
    t = uf('idsof', U, U)(E.term(x))
    E.fact_once(z3.Not(fresh_p(t)))
    o = Obj(t, 'list', False, 'str')
    # each call makes a list of its own
    return E.newlist(E.content(o))


IDS = Native(lambda E, a, k: ids(E, a[0]))


def fn(E, name):
    return E.module('xigt.ref').env.vars[name]


def igt(E):
    """an IGT with unique ids whose containers satisfy their invariant (C01)"""
    g = containers.container(E, 'model.Igt', 'g')
    return g


def tier_at(E, g, p):
    return E.lib.fm_at(E, E.content(g).parts[0], p)


def unique_items(E, g):
    """the items of the IGT have different ids"""
    p, q = z3.Int('p!'), z3.Int('q!')
    t = tier_at(E, g, p)
    fm = E.content(t).parts[0]
    x = E.lib.fm_at(E, fm, q)
    f, h = uf('tierno', U, I), uf('itemno', U, I)
    n = E.lib.seq_len(E, E.content(g))
    E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < fmhi(E, g), 0 <= q, q < fm.hi, idf(x.t) != NONE),
                                          z3.And(f(idf(x.t)) == p, h(idf(x.t)) == q)), patterns=[x.t]))


def fmhi(E, g):
    return E.content(g).parts[0].hi


def item_of(E, g):
    p, q = E.fresh(I, 'p'), E.fresh(I, 'q')
    E.assume(z3.And(0 <= p, p < fmhi(E, g)))
    fm = E.content(tier_at(E, g, p)).parts[0]
    E.assume(z3.And(0 <= q, q < fm.hi))
    return E.lib.fm_at(E, fm, q)


def h_get_item(E):
    g = igt(E)
    unique_items(E, g)
    m = heap_mark(E)
    got = outcome(E, lambda: method(E, g, 'refresh_indices', referents=False, referrers=False))
    if got[0] != 'return':
        E.fail('refreshing does not fail', repr(got[1]))
        raise Done()
    d = sym_str(E, 'd', 'any')
    if E.choose('an item of the IGT'):
        x = item_of(E, g)
        E.assume(idf(x.t) != NONE)
        i = E.getattr(x, 'id')
        got = method(E, g, 'get_item', i, d)
        E.prove(E.term(got) == x.t, 'an item of the IGT is found by its id')
    else:
        k = sym_str(E, 'k')
        got = method(E, g, 'get_item', k, d)
        if isinstance(got, Obj):
            E.prove(idf(got.t) == k.t, 'the item found has the id')
        else:
            E.prove(E.term(got) == d.t, 'the default otherwise')
            x = item_of(E, g)
            E.prove(idf(x.t) != k.t, 'the default only if no item has the id')


def h_get_any(E):
    g = igt(E)
    d = sym_str(E, 'd', 'any')
    k = sym_str(E, 'k')
    E.assume(z3.Not(uf('isint', U, B)(k.t)))
    m = heap_mark(E)
    got = outcome(E, lambda: method(E, g, 'get_any', k, d))
    prove_frame(E, m, 'get_any')
    t = E.dict_find(E.dcontent(E.getfield(g, '_dict')[0]), k)
    want = t[0] if t is not None else method(E, g, 'get_item', k, d)
    same_outcome(E, 'the tier, or else the item, or else the default', got, ('return', want))


def attrs(E, which):
    if which == 'all':
        return None, RAS
    xs = [sym_str(E, 'ra%d' % n) for n in range(which)]
    if which == 2:
        E.assume(xs[0].t != xs[1].t)
    return E.newlist(Seq([Lit(x) for x in xs])), xs


def h_allowed(cls):
    def h(E):
        o = given(E, 'o', 'model.' + cls)
        if cls == 'Item':
            E.assume(fld('_parent', o.t) != NONE)
        m = heap_mark(E)
        E.contracts['xigt.model.%s.allowed_reference_attributes' % cls] = lambda E, f, a, k: NotImplemented
        got = outcome(E, lambda: method(E, o, 'allowed_reference_attributes'))
        prove_frame(E, m, 'allowed')
        same_outcome(E, 'the known reference attributes', got, ('return', RAS))
    return h


def h_referents(which):
    def h(E):
        g = igt(E)
        i = sym_str(E, 'id')
        E.assume(z3.Not(uf('isint', U, B)(i.t)))
        o = method(E, g, 'get_any', i)
        arg, ras = attrs(E, which)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, 'referents'), g, i, *([arg] if arg is not None else [])))
        prove_frame(E, m, 'referents')
        if o is None:
            E.prove(got[0] == 'raise' and got[1].cls.name == 'XigtLookupError', 'an id of nothing is an error')
            raise Done()
        want = run(E, spec_fn(E, 'references', 'referents'), o, IDS, tuple(ras))
        same_outcome(E, 'the ids of each reference, in order', got, ('return', want))
    return h


def h_referrers(which):
    def h(E):
        g = igt(E)
        i = sym_str(E, 'id')
        E.assume(z3.Not(uf('isint', U, B)(i.t)))
        t = E.dict_find(E.dcontent(E.getfield(g, '_dict')[0]), i)
        x = None if t is not None else method(E, g, 'get_item', i)
        arg, ras = attrs(E, which)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, 'referrers'), g, i, *([arg] if arg is not None else [])))
        prove_frame(E, m, 'referrers')
        if t is None and x is None:
            E.prove(got[0] == 'raise' and got[1].cls.name == 'XigtLookupError', 'an id of nothing is an error')
            raise Done()
        if got[0] != 'return':
            E.fail('finding referrers does not fail', repr(got[1]))
            raise Done()
        others = run(E, spec_fn(E, 'references', 'members' if t is not None else 'items'), g)
        for n, ra in enumerate(ras):
            if not E.choose('attribute %d' % n) and n < len(ras) - 1:
                continue
            have = method(E, got[1], 'get', ra, ())
            want = run(E, spec_fn(E, 'references', 'referring'), others, i, ra, IDS)
            prove_same(E, E.newlist(E.lib.iterate(E, have)), want, 'the ids of the objects that refer to it, in order')
            raise Done()
    return h


def h_dereference(name):
    def h(E):
        cls = 'model.Item' if E.choose('an item') else 'model.Tier'
        o = given(E, 'o', cls)
        ra = sym_str(E, 'ra')
        ats = E.getattr(o, 'attributes')
        v = method(E, ats, 'get', ra)
        if v is None:
            raise Done()
        g = E.force(E.getattr(o, 'igt'))
        if g is None:
            raise Done()
        m = heap_mark(E)
        xs = ids(E, v)
        get = Native(lambda E, a, k: method(E, g, 'get_any', a[0]))
        got = outcome(E, lambda: run(E, fn(E, name), o, ra))
        prove_frame(E, m, name)
        if name == 'dereference':
            E.assume(E.truth(xs))
            same_outcome(E, 'the object of the first id', got, ('return', E.call(get, [E.lib.getitem(E, xs, 0)], {})))
        else:
            want = run(E, spec_fn(E, 'references', 'dereferenced'), xs, get)
            same_outcome(E, 'the object of every id', got, ('return', want))
    return h


def unique_all(E, g):
    """the tiers and items of the IGT have different ids"""
    unique_items(E, g)
    p, q = z3.Int('p!'), z3.Int('q!')
    t = tier_at(E, g, p)
    fm = E.content(t).parts[0]
    x = E.lib.fm_at(E, fm, q)
    f, istier = uf('tierno2', U, I), uf('istier', U, B)
    E.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < fmhi(E, g), idf(t.t) != NONE),
                                       z3.And(f(idf(t.t)) == p, istier(idf(t.t)))), patterns=[t.t]))
    E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < fmhi(E, g), 0 <= q, q < fm.hi, idf(x.t) != NONE),
                                          z3.Not(istier(idf(x.t)))), patterns=[x.t]))


def refreshed(E, **kw):
    g = igt(E)
    unique_all(E, g)
    got = outcome(E, lambda: method(E, g, 'refresh_indices', **kw))
    if got[0] != 'return':
        E.fail('refreshing does not fail', repr(got[1]))
        raise Done()
    return g


def h_ix_referents(E):
    g = refreshed(E, items=False, referrers=False)
    if E.choose('a tier'):
        p = E.fresh(I, 'p')
        E.assume(z3.And(0 <= p, p < fmhi(E, g)))
        o = tier_at(E, g, p)
    else:
        o = item_of(E, g)
    E.assume(idf(o.t) != NONE)
    got = outcome(E, lambda: method(E, g, 'referents', E.getattr(o, 'id')))
    want = run(E, spec_fn(E, 'references', 'referents'), o, IDS, RAS)
    same_outcome(E, 'the index has the ids of each reference', got, ('return', want))


def h_ix_referrers(E):
    g = refreshed(E, items=False, referents=False)
    i = sym_str(E, 'id')

    def rest():
        ra = RAS[0] if E.choose('ra 0') else RAS[1] if E.choose('ra 1') else RAS[2]
        got = outcome(E, lambda: method(E, method(E, g, 'referrers', i), 'get', ra, ()))
        if got[0] != 'return':
            E.fail('looking up referrers does not fail', repr(got[1]))
            raise Done()
        want = run(E, spec_fn(E, 'references', 'referring'), run(E, spec_fn(E, 'references', 'all_of'), g), i, ra, IDS)
        prove_same(E, E.newlist(E.lib.iterate(E, got[1])), want, 'the index has the ids of the objects that refer to it')
    each(E, rest)


HARNESSES = [('allowed attributes, ' + c, guarded(h_allowed(c))) for c in ('Tier', 'Item')] + [('get_item', guarded(h_get_item)), ('get_any', guarded(h_get_any))] + \
    [('%s, %s' % (n, w), guarded(h(w))) for n, h in (('referents', h_referents), ('referrers', h_referrers))
     for w in ('all', 1, 2)] + \
    [(n, guarded(h_dereference(n))) for n in ('dereference', 'dereference_all')] + \
    [('index: referents', guarded(h_ix_referents)), ('index: referrers', guarded(h_ix_referrers))]
