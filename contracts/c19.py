"""C19: LaTeX export. Escaping: every character on its own."""
from common import *
import xmlstub
import trellis
import containers
import ast
from houdini import stores, isint

TRUSTED = ['the table of LaTeX replacements in the specification (what typesets a character)',
           'itertools.zip_longest: row r of all columns; itertools.groupby: the longest runs of equal keys',
           'the ids of a reference expression are a function of the expression (C06, C07)',
           'align_tier works on an abstract trellis: the operations it calls (build_idxmap, add_delayed, merge_columns, '
           'get_agenda) are the contracts proved here, the composition over several tiers (a column of a lower tier is '
           'a run of columns of the tier above) is by argument']
L = 'xigt.exporters.latex'
SPECIAL = {'\\': [r'\textbackslash{}', r'{\textbackslash}', r'$\backslash$'],
           '~': [r'\textasciitilde{}', r'{\textasciitilde}', r'\~{}'],
           '^': [r'\textasciicircum{}', r'{\textasciicircum}', r'\^{}'],
           '&': [r'\&'], '%': [r'\%'], '$': [r'\$'], '#': [r'\#'], '_': [r'\_'], '{': [r'\{'], '}': [r'\}']}


def SETUP(E):
    xmlstub.install(E)
    load(E)
    E.lib.EXT['itertools', 'zip_longest'] = Native(c_zip_longest, 'zip_longest')
    E.lib.EXT['itertools', 'groupby'] = Native(c_groupby, 'groupby')
    E.module(L)
    schema(E)
    spec_module(E, 'grid')


def fn(E, name):
    return E.module(L).env.vars[name]


def h_special(c):
    def h(E):
        got = outcome(E, lambda: run(E, fn(E, 'escape'), c))
        E.prove(got[0] == 'return' and got[1] in SPECIAL[c], 'escape(%r) typesets the character' % c)
    return h


def h_escape(E):
    s = sym_str(E, 's')
    table = {c: run(E, fn(E, 'escape'), c) for c in SPECIAL}
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'escape'), s))
    prove_frame(E, m, 'escape')
    out = E.newlist(Seq())

    def body(ch):
        for c, r in table.items():
            if E.decide(ch.t == lit(c)):
                ch = r
                break
        E.lib.list_method(E, out, 'append', [ch], {})
    E.stream(E.newlist(E.lib.iterate(E, s)), body)
    same_outcome(E, 'every character is replaced on its own', got, ('return', E.lib.join(E, '', out)))


COLUMN = 'list:list:obj:xigt.model.Item'


def columns(E):
    t = z3.Const('in:trellis', U)
    E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
    return Obj(t, 'list', False, COLUMN)


def places(E, tr, *names):
    """0 <= a <= b ... <= number of columns"""
    n = E.int_term(lib.seq_len(E, E.content(tr)))
    out, last = [], z3.IntVal(0)
    for x in names:
        v = z3.Int('in:' + x)
        E.assume(last <= v)
        out.append(SInt(v))
        last = v
    E.assume(last <= n)
    return out


def h_delayed(E):
    tr = columns(E)
    pos, = places(E, tr, 'pos')
    depth = SInt(z3.Int('in:depth'))
    E.assume(z3.Int('in:depth') >= 1)
    items = Obj(z3.Const('in:items', U), 'list', False, 'obj:xigt.model.Item')
    ids = E.newlist(Seq())
    one = E.choose('a delayed group')
    delay = E.call(E.lib.EXT['collections', 'deque'], [E.newlist(Seq([Lit((ids, items))] if one else []))], {})
    want = run(E, spec_fn(E, 'grid', 'inserted'), tr, pos, depth, items) if one else E.newlist(E.content(tr))
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'add_delayed'), tr, delay, pos, depth))
    if got[0] != 'return' or not isinstance(got[1], tuple) or len(got[1]) != 2:
        E.fail('add_delayed', repr(got[1]))
        raise Done()
    E.prove(isinstance(got[1][0], Obj) and got[1][0].t.eq(tr.t), 'the trellis itself')
    prove_same(E, got[1][1], 1 if one else 0, 'the number of new columns')
    E.prove(not E.content(delay).parts, 'nothing stays delayed')
    prove_same(E, E.newlist(E.content(tr)), want, 'a column of its own at the position')


def c_zip_longest(E, args, kw):
    """zip_longest(*columns, fillvalue=x): row r of all columns, x where there is none"""
    fill = kw.get('fillvalue')
    if len(args) != 1 or not isinstance(args[0], lib.StarSeq) or set(kw) - {'fillvalue'}:
        return NotImplemented
    seq = args[0].seq
    if len(seq.parts) != 1 or not isinstance(seq.parts[0], FM):
        raise Unsupported('zip_longest')
    fm = seq.parts[0]
    length = lambda c: E.int_term(lib.seq_len(E, lib.iterate(E, lib.fm_at(E, fm, c))))
    M = E.fresh(I, 'rows')
    c = z3.Int('c!rows')
    w = E.fresh(I, 'longest')
    E.assume(M >= 0)
    E.assume(z3.ForAll([c], z3.Implies(z3.And(fm.lo <= c, c < fm.hi), length(c) <= M)))
    E.assume(z3.If(fm.lo < fm.hi, z3.And(fm.lo <= w, w < fm.hi, length(w) == M), M == 0))
    key = E.fresh(U, 'rows')

    def elem(r):
        return Obj(uf('zrow', U, I, U)(key, r), 'zrow', False)

    def rows(E, o):
        r = o.t.arg(1)
        v = lib.fresh_var('z')
        x = lib.fm_at(E, fm, v)
        q, = lib.iterate(E, x).parts
        n = q.hi - q.lo
        return Seq([FM(fm.base, fm.lo, fm.hi, v, [Leaf((r < n,), (), (Lit(lib.fm_at(E, q, q.lo + r)),)),
                                                  Leaf((z3.Not(r < n),), (), (Lit(fill),))])])
    E.stubs['zrow'] = {'iter': rows}
    return E.newlist(Seq([whole(Base(('rows', KTerm(key)), M, elem))]))


def h_merge(E):
    tr = columns(E)
    n = E.int_term(lib.seq_len(E, E.content(tr)))
    s, e = places(E, tr, 'start', 'end')
    E.assume(s.t < e.t)
    d = z3.Int('in:depth')
    c = z3.Int('c!col')
    # the first column has come to the tier, the others have not
    E.assume(z3.And(d >= 1, llen(at(tr.t, s.t)) == d + 1))
    E.assume(z3.ForAll([c], z3.Implies(z3.And(s.t < c, c < e.t), llen(at(tr.t, c)) == d), patterns=[at(tr.t, c)]))
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'merge_columns'), tr, s, e))
    prove_frame(E, m, 'merge_columns')
    if got[0] != 'return':
        E.fail('merge_columns', repr(got[1]))
        raise Done()
    out = E.content(got[1])
    old = E.content(tr)
    sl = lambda q, a, b: E.newlist(lib.cut(E, q, a, b))
    ln = E.int_term(lib.seq_len(E, out))
    E.prove(ln == n - (e.t - s.t) + 1, 'one column in the place of several')
    prove_same(E, sl(out, z3.IntVal(0), s.t), sl(old, z3.IntVal(0), s.t), 'the columns to the left')
    prove_same(E, sl(out, s.t + 1, ln), sl(old, e.t, n), 'the columns to the right')
    new = lib.seq_index(E, out, s)
    E.prove(E.int_term(lib.seq_len(E, lib.iterate(E, new))) == d + 1, 'a row for every tier')
    r = z3.Int("in:row")
    E.assume(z3.And(0 <= r, r <= d))
    want = run(E, spec_fn(E, 'grid', 'row'), sl(old, s.t, e.t), SInt(r))
    prove_same(E, lib.seq_index(E, lib.iterate(E, new), SInt(r)), want, 'its rows are those of the columns, put together')


def h_idxmap(E):
    """the id of an item of a row is mapped to the column the item is in"""
    tr = columns(E)
    d = z3.Int('in:depth')
    n = E.int_term(lib.seq_len(E, E.content(tr)))
    E.assume(z3.And(d >= 0))
    c = z3.Int('c!col')
    E.assume(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < n), d < llen(at(tr.t, c))), patterns=[at(tr.t, c)]))
    cell = lambda c: at(at(tr.t, c), d)
    idof = lambda c, j: fld('_id', at(cell(c), j))
    j, c2, j2 = z3.Ints('j!col c2!col j2!col')
    inside = lambda c, j: z3.And(0 <= c, c < n, 0 <= j, j < llen(cell(c)))
    E.assume(z3.ForAll([c, j, c2, j2], z3.Implies(z3.And(inside(c, j), inside(c2, j2), idof(c, j) == idof(c2, j2)), z3.And(c == c2, j == j2)),
                       patterns=[z3.MultiPattern(idof(c, j), idof(c2, j2))]))
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'build_idxmap'), tr, SInt(d)))
    prove_frame(E, m, 'build_idxmap')
    if got[0] != 'return':
        E.fail('build_idxmap', repr(got[1]))
        raise Done()
    c, j = E.fresh(I, 'c'), E.fresh(I, 'j')
    E.assume(inside(c, j))
    r = E.dict_find(E.dcontent(got[1]), SU(idof(c, j), 'any'))
    if r is None:
        E.fail('every item of the row is in the map')
        raise Done()
    prove_same(E, r[0], SInt(c), 'the column of an item')


def c_groupby(E, args, kw):
    """itertools.groupby: the longest runs of elements with equal keys"""
    it = args[0]
    key = args[1] if len(args) > 1 else kw.get('key')
    if len(args) > 2 or set(kw) - {'key'}:
        return NotImplemented
    seq = lib.iterate(E, it)
    n = E.int_term(lib.seq_len(E, seq))
    value = lambda x: x if key is None else E.call(key, [x], {})
    name = 'in:' if not getattr(E, 'runs', None) else 'run!%d:' % len(E.runs)
    G, S = z3.Int(name + 'runs'), uf(name + 'run', I, I)
    g = z3.Int('g!run')
    E.assume(z3.And(G >= 0, S(0) == 0, S(G) == n, (G == 0) == (n == 0)))
    E.assume(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < G), z3.And(0 <= S(g), S(g) < S(g + 1), S(g + 1) <= n)), patterns=[S(g)]))
    k = lambda i: value((lambda p: pick(E, p, p.lo))(cutat(E, seq, i, i + 1)[0]))
    E.runs = getattr(E, 'runs', ()) + ((G, S, k),)
    tk = KTerm(E.fresh(U, 'run'))

    def elem(g):
        x = Obj(uf('run', U, I, U)(tk.t, g), 'run', False)
        E.fact_once(z3.Implies(z3.And(0 <= g, g < G), z3.And(0 <= S(g), S(g) < S(g + 1), S(g + 1) <= n)))
        return (k(S(g)), x)
    E.stubs['run'] = {'iter': lambda E, o: Seq(cutat(E, seq, S(o.t.arg(1)), S(o.t.arg(1) + 1)))}
    return E.newlist(Seq([whole(Base(('runs', tk), G, elem))]))


def cutat(E, seq, a, b):
    """elements a..b-1 of a list that is one run (0 <= a < b <= len)"""
    if len(seq.parts) != 1 or not isinstance(seq.parts[0], FM) or lib.counts(seq.parts[0]) != 1:
        raise Unsupported('groupby')
    p = seq.parts[0]
    return [FM(p.base, z3.simplify(p.lo + a), z3.simplify(p.lo + b), p.var, p.leaves, p.identity)]


def pick(E, p, i):
    """element i of an FM with one element per iteration"""
    if p.identity or lib.uniform(p):
        return lib.fm_at(E, p, i)
    sub = lambda x: z3.substitute(x, (p.var, i))
    for leaf in p.leaves:
        if leaf is p.leaves[-1] or E.decide(z3.And(*[sub(c) for c in leaf.guards])):
            for f in leaf.facts + leaf.guards:
                E.assume(sub(f))
            return lib.subst(leaf.parts[0].v, [(p.var, i)])


def c_ids(E, f, args, kw):
    """the ids a reference expression names (C06, C07): a list that depends on the expression only"""
    x, = E.bind(f, args, kw).values()
    if isinstance(x, str) and x == '':
        t = lit(('no ids',))
        E.fact_once(llen(uf('idsof', U, U)(E.term(''))) == 0)
    t = uf('idsof', U, U)(E.term(x))
    E.fact_once(z3.Not(fresh_p(t)))
    return E.newlist(E.content(Obj(t, 'list', False, 'str')))


def expression(E, a, item):
    """the value of a reference attribute of an item: a string, or None"""
    t = uf('attr:' + a, U, U)(item.t)
    E.fact_once(z3.And(z3.Not(fresh_p(t)), z3.Or(t == NONE, kindf(t) == 3)))
    return SU(t, 'any')


def h_agenda(E):
    E.runs = ()
    C = E.contracts
    C['xigt.ref.ids'] = lambda E, f, a, kw: c_ids(E, f, a, kw)
    for a in ('alignment', 'segmentation'):
        C['xigt.mixins.XigtReferenceAttributeMixin.' + a] = lambda E, f, args, kw, a=a: expression(E, a, args[0])
    tier = containers.container(E, 'model.Tier', 't')
    items = E.newlist(lib.iterate(E, E.getattr(tier, 'items')))
    n = E.int_term(lib.seq_len(E, E.content(items)))
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'get_agenda'), tier))
    prove_frame(E, m, 'get_agenda')
    if got[0] != 'return':
        E.fail('get_agenda', repr(got[1]))
        raise Done()
    out = lib.iterate(E, got[1])
    if len(getattr(E, 'runs', ())) != 1:
        raise Unsupported('runs')
    G, S, k = E.runs[0]
    E.prove(E.int_term(lib.seq_len(E, out)) == G, 'a group for every run of items with the same ids')
    if E.choose('about runs'):
        i = z3.Int('in:member')
        E.assume(z3.And(0 <= i, i < n))
        prove_same(E, k(i), run(E, spec_fn(E, 'grid', 'aligned'), lib.seq_index(E, E.content(items), SInt(i))),
                   'runs are of items that are aligned to the same')
        return
    g = z3.Int('in:group')
    E.assume(z3.And(0 <= g, g < G))
    E.assume(z3.And(0 <= S(g), S(g) < S(g + 1), S(g + 1) <= n))
    o, = cutat(E, out, g, g + 1)
    v = E.force(pick(E, o, o.lo))
    if not isinstance(v, tuple) or len(v) != 2:
        E.fail('a group is a pair of ids and items', repr(v))
        raise Done()
    prove_same(E, v[1], E.newlist(lib.cut(E, E.content(items), S(g), S(g + 1))), 'the items of a run, in order')
    want = run(E, spec_fn(E, 'grid', 'aligned'), lib.seq_index(E, E.content(items), SInt(S(g))))
    prove_same(E, v[0], want, 'the ids the first of them is aligned to')


HARNESSES = [('escape(s)', guarded(h_escape))]
for c in SPECIAL:
    HARNESSES.append(('escape(%r)' % c, guarded(h_special(c))))
HARNESSES.append(('align_tier', guarded(trellis.h_align)))
HARNESSES.append(('add_delayed', guarded(h_delayed)))
HARNESSES.append(('build_idxmap', guarded(h_idxmap)))
HARNESSES.append(('merge_columns', guarded(h_merge)))
HARNESSES.append(('get_agenda', guarded(h_agenda)))


def h_group(E):
    """the tiers are added one below the other, the first of them gives the columns"""
    Q = 'xigt.exporters.latex.'
    first = containers.container(E, 'model.Tier', 'first')
    rest = Obj(z3.Const('in:rest', U), 'list', False, 'obj:xigt.model.Tier')
    E.fact_once(z3.And(z3.Not(fresh_p(rest.t)), kindf(rest.t) == 5))
    N = llen(rest.t)
    tiers = E.newlist(Seq((Lit(first),) + E.content(rest).parts))
    states = uf('in:grid after', I, U)

    def state(i):
        t = states(i)
        E.fact_once(z3.And(z3.Not(fresh_p(t)), kindf(t) == 5, t != NONE))
        return Obj(t, 'grid', False)
    start = run(E, spec_fn(E, 'grid', 'first_row'), first)
    now = [None]

    def is_state(v, i):
        return isinstance(v, Obj) and v.cls == 'grid' and v.t.decl().name() == 'in:grid after' and E.implied(v.t.arg(0) == i)

    def c_align(E, f, args, kw):
        tr, tier, depth = E.bind(f, args, kw).values()
        i = now[0]
        if i is None:
            raise Unsupported('align_tier outside of the loop')
        E.prove(is_state(tr, i), 'the grid of the tiers above')
        E.prove(E.int_term(depth) == i + 1 if isint(depth) else False, 'the number of tiers above')
        E.prove(same(E, tier, lib.seq_index(E, E.content(rest), SInt(i))), 'the next tier')
        return state(z3.simplify(i + 1))
    E.contracts[Q + 'align_tier'] = c_align

    def rule(E, st, env, it):
        if not isinstance(st, ast.For):
            return False
        ps = lib.iterate(E, it).parts
        if len(ps) > 1 or ps and (not isinstance(ps[0], FM) or lib.counts(ps[0]) != 1):
            return False
        p = ps[0] if ps else None
        roles = [x for x, v in env.vars.items() if isinstance(v, Obj) and v.cls == 'list' and v.fresh and x in stores(st.body)]
        if len(roles) != 1:
            return False
        x, = roles
        prove_same(E, env.vars[x], start, 'a column for every item of the first tier', deep=True)
        E.prove(p.hi - p.lo == N if p else N == 0, 'every other tier is added')
        again = bool(p) and E.choose('once more')
        for y in stores(st.body) & set(env.vars):
            env.vars[y] = Poison('%s is carried from one iteration to the next' % y)
        if not again:
            env.vars[x] = state(N)
            return True
        i = z3.Int('in:iteration')
        E.assume(z3.And(0 <= i, i < N))
        env.vars[x] = state(i)
        now[0] = i
        E.assign(st.target, pick(E, p, z3.simplify(p.lo + i)), env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        E.prove(is_state(env.vars.get(x), z3.simplify(i + 1)), 'the grid with one more tier')
        raise Done()
    E.loop_rules[Q + 'group_alignments'] = rule
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'group_alignments'), tiers))
    prove_frame(E, m, 'group_alignments')
    if got[0] != 'return':
        E.fail('group_alignments', repr(got[1]))
        raise Done()
    E.prove(is_state(got[1], N), 'the grid of all tiers')


HARNESSES.append(('group_alignments', guarded(h_group)))


def named_joins(E):
    """sep.join(sequence of any length) as a term: the same name for the same sequences"""
    names = []

    def join(E, sep, seq):
        vs = list(E.iters)
        for k, (sep0, seq0, vs0) in enumerate(names):
            if sep0 == sep and len(vs0) == len(vs):
                if same(E, E.newlist(subst(seq0, list(zip(vs0, vs)))), E.newlist(seq)):
                    break
        else:
            k = len(names)
            names.append((sep, seq, vs))
        t = uf('joined:%d' % k, *([I] * len(vs) + [U]))(*vs) if vs else z3.Const('joined:%d' % k, U)
        E.fact_once(kindf(t) == 3)
        return SU(t, 'str')
    E.join_contract = join
    E.joins = names


def h_export(E):
    """one line per tier, one group per column, everything escaped; then the translations"""
    Q = L + '.'
    igt = given(E, 'igt', 'model.Igt')
    E.assume(z3.Not(E.term(E.getattr(igt, 'id')) == NONE))
    named_joins(E)
    j = z3.Int('j')
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen(igt.t)), uf('fld:_id', U, U)(at(igt.t, j)) != NONE),
                       patterns=[uf('fld:_id', U, U)(at(igt.t, j))]))            # precondition: tiers have ids
    types = Obj(z3.Const('in:tier_types', U), 'list', False, 'str')
    E.assume(z3.Not(fresh_p(types.t)))
    config = E.newdict(DVal())
    subs = {k: Obj(z3.Const('in:' + k, U), 'Subs', False) for k in ('item_substitutions', 'tier_substitutions')}
    E.lib.setitem(E, config, 'tier_types', types)
    for k, v in subs.items():
        E.lib.setitem(E, config, k, v)

    def content(x):
        t = uf('contentof', U, U)(E.term(x))
        E.fact_once(z3.Or(t == NONE, kindf(t) == 3))
        return SU(t, 'optstr')

    def c_sub(E, f, a, kw):
        b = E.bind(f, a, kw)
        return E.lib.opaque_str(E, 'subst', b['s'], b['tier_type'], b['subs'])

    def c_escape(E, f, a, kw):
        return E.lib.opaque_str(E, 'escaped', E.bind(f, a, kw)['s'])
    groups, grouped = {}, []

    def wanted(x):
        t = E.force(E.getattr(x, 'type'))
        if t is None:
            return False
        return E.decide(lib.lift(E.lib.member(E, E.lib.str_method(E, t, 'lower', [], {}), types)))

    n = z3.Int('in:ntiers')

    def filtered():
        spec = E.newlist(Seq())
        E.stream(E.newlist(E.content(igt)), lambda x: E.lib.list_method(E, spec, 'append', [x], {}) if wanted(x) else None)
        return spec

    def number(E, v):
        if not same(E, E.newlist(v.seq), filtered()):
            raise Unsupported('number of other things than the tiers of the types asked for')
        E.fact_once(n >= 0)
        return n
    E.slen_term = number

    def chosen(E, f, a, kw):
        """the tiers of these types: from here on any list of tiers"""
        ts, = E.bind(f, a, kw).values()
        prove_same(E, E.newlist(E.content(ts)), filtered(), 'the tiers of the types asked for, in order')
        if not ts.fresh:
            raise Unsupported('tiers that are not collected')
        E.prove(n >= 2, 'two tiers at least')
        tier = uf('chosen', I, U)
        cls = E.module('xigt.model').env.vars['Tier']

        def el(i):
            E.fact_once(z3.Not(fresh_p(tier(i))))
            return Obj(tier(i), cls, False)
        E.set_content(ts, Seq([whole(Base(('chosen',), n, el))]))
        grouped.append(ts)
        t = z3.Const('in:grid', U)
        E.fact_once(z3.Not(fresh_p(t)))
        E.fact_once(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen(t)), llen(at(t, j)) == n), patterns=[at(t, j)]))
        return Obj(t, 'list', False, COLUMN)              # columns of one cell per tier (group_alignments)
    E.contracts.update({Q + 'group_alignments': chosen, Q + 'escape': c_escape, 'xigt.exporters.util.sub': c_sub,
                        'xigt.model.Item.get_content': lambda E, f, a, kw: content(E.bind(f, a, kw)['self'])})
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'export_igt'), igt, config))
    prove_frame(E, m, 'export_igt')
    if got[0] != 'return':
        E.fail('export_igt: does not fail', repr(got[1]))
        raise Done()
    if not grouped:
        E.prove(n < 2, 'an IGT with two tiers of the types asked for is exported')
        prove_same(E, got[1], E.lib.concat(E, ['%\n% cannot export IGT ', E.getattr(igt, 'id'), '\n%']), 'fewer than two tiers')
        return
    ts = E.content(grouped[0])
    grid = Obj(z3.Const('in:grid', U), 'list', False, COLUMN)
    add = lambda o, v: E.lib.list_method(E, o, 'append', [v], {})
    join = lambda sep, o: E.lib.join(E, sep, o)
    text = lambda x, typ, which: E.lib.opaque_str(E, 'subst', E.lib.opaque_str(E, 'escaped', content_or(x)), typ, subs[which])

    def content_or(x):
        v = content(x)
        return v if E.decide(E.truth(v)) else '{}'

    def line(lines, i, t=None):
        t = t or lib.seq_index(E, Seq(ts.parts), i)
        typ = E.getattr(t, 'type')
        toks = E.newlist(Seq())

        def cell(col):
            out = E.newlist(Seq())
            E.stream(E.lib.getitem(E, col, i), lambda x: add(out, text(x, typ, 'item_substitutions')))
            add(toks, E.lib.concat(E, ['{', join(' ', out), '}']))
        E.stream(grid, cell)
        row = E.lib.concat(E, [join(' ', toks), '\\\\'])
        add(lines, E.lib.opaque_str(E, 'subst', row, typ, subs['tier_substitutions']))
    def export(direct):
        lines = E.newlist(Seq())
        add(lines, '\\begin{exe}\\small')
        add(lines, E.lib.concat(E, ['\\ex\\g', E.lib.binop(E, 'Mult', 'l', SInt(n))]))
        if direct:
            E.stream(E.lib.f_enumerate(E, [E.newlist(ts)], {}), lambda p: line(lines, *p))
        else:
            E.stream(E.lib.f_range(E, [SInt(n)], {}), lambda i: line(lines, i))

        def translation(t):
            if E.decide(lib.lift(E.lib.eq(E, E.getattr(t, 'type'), 'translations'))):
                if E.decide(E.int_term(E.lib.seq_len(E, E.content(t))) > 0):
                    x = lib.seq_index(E, E.content(t), 0)
                    add(lines, E.lib.concat(E, ['\\trans ', text(x, E.getattr(t, 'type'), 'tier_substitutions')]))
        E.stream(E.newlist(E.content(igt)), translation)
        add(lines, '\\end{exe}')
        return join('\n', lines)
    want = export(False)
    if not same(E, got[1], want):                  # written as a loop over the tiers, not over their positions
        want = export(True)
    prove_same(E, got[1], want, 'a line per tier, a group per column, everything escaped, then the translations')


HARNESSES.append(('export_igt', guarded(h_export)))


def h_corpus(E):
    """one export per IGT, in order"""
    xc = given(E, 'xc', 'model.XigtCorpus')
    E.write('mode', xc, 'full')
    config = E.newdict(DVal())

    def exported(E, f, a, kw):
        b = E.bind(f, a, kw)
        E.prove(same(E, b['config'], config), 'export_corpus: as configured')
        return E.lib.opaque_str(E, 'exported', b['igt'])
    E.contracts[L + '.export_igt'] = exported
    got = outcome(E, lambda: E.newlist(E.lib.iterate(E, run(E, fn(E, 'export_corpus'), xc, config))))
    spec = E.newlist(Seq())
    E.stream(E.newlist(E.content(xc)), lambda g: E.lib.list_method(E, spec, 'append', [E.lib.opaque_str(E, 'exported', g)], {}))
    same_outcome(E, 'export_corpus: every IGT, in order', got, ('return', spec))


HARNESSES.append(('export_corpus', guarded(h_corpus)))
