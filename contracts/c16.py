"""C16: the validator. Every condition function says exactly when its rule is violated, and by what;
the validators put the records of the right conditions at every object."""
from xml.etree import ElementTree
from common import *
from houdini import stores
import regs
import xmlstub

V = 'xigt.scripts.xigt_validate'
TRUSTED = ['collections.Counter and defaultdict: a count for every key that was counted',
           'igt.get and tier.get by id (C03)', 'Item.value (C08): a string, None, XigtStructureError or KeyError',
           'int() of the decimal numbers of a well-formed span succeeds',
           'loading in transient mode gives the IGTs once, in order (C14); a file that is not well-formed: ParseError',
           'logging.log shows a record of the level in force or above']
ATTRS = ('alignment', 'segmentation', 'content')


def SETUP(E):
    E.close_exits = True
    load(E)
    E.module('xigt.ref')
    xmlstub.install(E)
    E.module(V)
    schema(E)
    spec_module(E, 'rules')
    spec_module(E, 'refs')
    regs.install(E, [regs.IDS])
    E.decimals = True
    E.rx_role_of = regs.role_of
    E.contracts['xigt.mixins.XigtContainerMixin.get'] = c_get
    E.contracts['xigt.model.Item.value'] = c_value
    E.contracts[V + '.get_value'] = c_get_value
    E.contracts['xigt.ref.spans'] = c_spans
    E.contracts['xigt.ref.ids'] = c_ids


def real(E, name):
    return E.module(V).env.vars[name]


def spec(E, name):
    return spec_fn(E, 'rules', name)


# ---- contracts of what the conditions use ----------------------------------------------------

def names(c, k):
    return uf('names', U, U, B)(c, k)


def member(E, c, k):
    """the member of c with the id k"""
    m = MEMBER[c.cls.qual.replace('xigt.', '')]
    t = uf('member', U, U, U)(c.t, E.term(k))
    E.fact_once(z3.Not(fresh_p(t)))
    E.fact_once(idf(t) == E.term(k))
    return E.preobj(t, 'xigt.' + m)


def named(E):
    def f(E, a, kw):
        c, k = E.force(a[0]), a[1]
        return member(E, c, k) if E.decide(names(c.t, E.term(k))) else None
    return Native(f, 'named')


def c_get(E, f, args, kw):
    """by id; a position is also accepted"""
    b = E.bind(f, args, kw)
    c, k = b['self'], b['obj_id'] if 'obj_id' in b else list(b.values())[1]
    if len(args) + len(kw) != 2:
        raise Unsupported('lookup with a default')
    t = E.term(k)
    if E.decide(names(c.t, t)):
        return member(E, c, k)
    if E.implied(regs.IDS.pred(t)) or E.choose('no such position'):
        return None
    x = uf('at', U, U, U)(c.t, t)
    E.assume(idf(x) != t)
    E.fact_once(z3.Not(fresh_p(x)))
    return E.preobj(x, 'xigt.' + MEMBER[c.cls.qual.replace('xigt.', '')])


def value_terms(x):
    """the value, and the text that stands for it: empty if there is no value or it cannot be had"""
    t = uf('value', U, U)(x.t)
    shown = uf('shown', U, U)(x.t)
    none = z3.Or(uf('dangling', U, B)(t), uf('nokey', U, B)(t), t == NONE)
    return t, shown, z3.And(kindf(shown) == 3, shown == z3.If(none, lit(''), t), z3.Or(none, kindf(t) == 3),
                            uf('slen', U, I)(shown) >= 0, z3.Implies(shown == lit(''), uf('slen', U, I)(shown) == 0))


def c_value(E, f, args, kw):
    if len(args) != 1 or kw:
        return NotImplemented
    t, _, fact = value_terms(args[0])
    E.fact_once(fact)
    if E.decide(uf('dangling', U, B)(t)):
        raise PyRaise(E.mkexc(E.module('xigt.errors').env.vars['XigtStructureError'], ()))
    if E.decide(uf('nokey', U, B)(t)):
        E.raise_(KeyError)
    if E.decide(t == NONE):
        return None
    return SU(t, 'str')


def shown(E, x):
    _, s, fact = value_terms(E.force(x))
    E.fact_once(fact)
    return SU(s, 'str')


def c_get_value(E, f, args, kw):
    return shown(E, args[0])


def h_get_value(E):
    x = given(E, 'x', 'model.Item')
    E.contracts.pop(V + '.get_value', None)
    got = checked(E, 'get_value', x)
    same_outcome(E, 'get_value: the value, empty if there is none', got, ('return', shown(E, x)))


def length(E):
    return Native(lambda E, a, kw: E.lib.strlen(E, shown(E, a[0])), 'length')


def toks(E, e):
    return E.newlist(Seq([whole(regs.tok_base(E, E.term(e)))]))


def spans_fn(E):
    return Native(lambda E, a, kw: E.newlist(Seq([whole(regs.span_base(E, E.term(a[0])))])), 'spans')


def c_spans(E, f, args, kw):
    """proved in C07"""
    b = E.bind(f, args, kw)
    e, keep = b.values()
    x = run(E, spec_fn(E, 'refs', 'expanded'), toks(E, e), spans_fn(E))
    return run(E, spec_fn(E, 'refs', 'selections'), x, keep)


def c_ids(E, f, args, kw):
    b = E.bind(f, args, kw)
    e, = b.values()
    return run(E, spec_fn(E, 'refs', 'selected_ids'), toks(E, e))


# ---- conditions --------------------------------------------------------------------------------

def verdict(E, label, got, want):
    """got: outcome of a condition; want: is the rule violated, or the list of what violates it"""
    k, v = got
    if k != 'return':
        E.fail(label + ': does not fail', repr(v))
        raise Done()
    bad = E.decide(E.truth(want))
    is_bad = E.decide(E.truth(v))
    if is_bad != bad:
        E.fail(label + ': reported exactly when violated', 'reported: %s, violated: %s' % (is_bad, bad))
        raise Done()
    E.prove(True, label + ': reported exactly when violated')
    if is_bad:
        template(E, label, v)
    if bad and isinstance(want, Obj):
        details(E, label, v, want)


FIELDS = ('modal', 'id', 'index', 'name', 'scope')


def template(E, label, v):
    """one message, which names only what the context has; ids and attribute names have no braces"""
    label += ': one message'
    if not isinstance(v, str):
        E.prove(isinstance(v, SStr), label)
        v = ''.join(p.v if isinstance(p, Lit) and isinstance(p.v, str) else 'x' for p in v.parts)
    try:
        v.format(**dict.fromkeys(FIELDS, 'x'))
        E.prove(True, label)
    except (KeyError, ValueError, IndexError) as ex:
        E.fail(label, '%r: %r' % (v, ex))


def details(E, label, v, want):
    """the message ends with the list, separated by ', '"""
    if not isinstance(v, SStr):
        E.fail(label + ': what violates the rule is listed', repr(v))
        return
    ps = tail(E, v)
    label += ': what violates the rule is listed'
    if len(ps) == 1 and isinstance(ps[0], Lit) and isinstance(ps[0].v, lib.SJoin) and ps[0].v.sep == ', ':
        prove_same(E, E.newlist(ps[0].v.seq), want, label)
    else:
        prove_same(E, SStr(ps), lib.join(E, ', ', want), label)


def placed_item(E):
    x = given(E, 'x', 'model.Item')
    t, g = fld('_parent', x.t), fld('_parent', fld('_parent', x.t))
    E.assume(z3.And(t != NONE, g != NONE))
    for y in (t, g):
        E.fact_once(z3.Not(fresh_p(y)))
    return x


def placed_tier(E):
    t = given(E, 't', 'model.Tier')
    E.assume(fld('_parent', t.t) != NONE)
    return t


def checked(E, name, *args):
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, real(E, name), *args))
    prove_frame(E, m, name)
    return got


def h_has(name, field):
    def h(E):
        cls = 'model.' + ('Tier' if field == 'type' else ['XigtCorpus', 'Igt', 'Tier', 'Item'][2 * E.choose('a') + E.choose('b')])
        x = given(E, 'x', cls)
        got = checked(E, name, x)
        v = E.getattr(x, field)
        verdict(E, name, got, not E.decide(E.truth(v)))
    return h


def h_unique(E):
    x = given(E, 'x', ['model.XigtCorpus', 'model.Igt', 'model.Tier', 'model.Item'][2 * E.choose('a') + E.choose('b')])
    seen = E.alloc('Seen')
    E.stubs['Seen'] = {'contains': lambda E, o, k: uf('seen', U, B)(E.term(k))}
    got = checked(E, 'id_is_unique', x, seen)
    v = E.getattr(x, 'id')
    verdict(E, 'id_is_unique', got, E.decide(E.truth(v)) and E.decide(uf('seen', U, B)(E.term(v))))


def h_tierref(E):
    t = placed_tier(E)
    attr = sym_str(E, 'attr')
    got = checked(E, 'reference_id_in_igt', t, attr)
    verdict(E, 'reference_id_in_igt', got, run(E, spec(E, 'bad_tier_ref'), t, attr, named(E)))


def expression(E, x, attr):
    """the item's expression is well-formed if it is there and not empty"""
    d = E.getattr(x, 'attributes')
    r = E.dict_find(E.dcontent(d), attr)
    if r is None or not E.decide(E.truth(r[0])):
        return None
    regs.set_role(E, r[0], regs.expr_role(E))
    return r[0]


def h_expr(name, want):
    def h(E):
        attr = sym_str(E, 'attr')
        x = placed_item(E)
        e = expression(E, x, attr)
        got = checked(E, name, x, attr)
        t = run(E, spec(E, 'referred'), x, attr, named(E))
        verdict(E, name, got, want(E, t, toks(E, e)) if t is not None else False)
    return h


def w_missing(E, t, tk):
    return run(E, spec(E, 'missing'), t, tk, named(E))


def w_beyond(E, t, tk):
    return run(E, spec(E, 'beyond'), t, tk, spans_fn(E), named(E), length(E))


def h_refattrs(E):
    t = placed_tier(E)
    E.assume(llen(t.t) >= 0)
    label = 'item_refattrs_specified_on_tier'
    E.sort_set_contract = lambda E, seq: seq        # only what is listed matters, not the order
    got = checked(E, label, t)
    bad = [a for a in ATTRS if E.decide(E.truth(run(E, spec(E, 'lacks'), t, a)))]
    verdict(E, label, got, bool(bad))
    v = got[1]
    if not bad:
        raise Done()
    seq = listed(E, label, v)
    if seq is None:
        raise Done()
    for a in ATTRS:
        E.prove(lib.lift(lib.seq_member(E, a, seq)) == z3.BoolVal(a in bad), label + ': lists exactly the lacking attributes')
    e = z3.Const('in:other', U)
    E.assume(z3.And([e != lit(a) for a in ATTRS]))
    E.prove(z3.Not(lib.lift(lib.seq_member(E, SU(e, 'str'), seq))), label + ': lists only reference attributes')


def tail(E, v):
    """the message after the wording"""
    parts = lib.norm_str(E, v.parts)
    n = max([k + 1 for k, p in enumerate(parts) if isinstance(p, Lit) and isinstance(p.v, str) and len(p.v) > 2] or [0])
    return [Lit(E.text_of.get(KTerm(p.v.t), p.v)) if isinstance(p, Lit) and isinstance(p.v, SU) else p for p in parts[n:]]


def listed(E, label, v):
    """the list at the end of the message"""
    ps = tail(E, v) if isinstance(v, SStr) else ()
    if len(ps) == 1 and isinstance(ps[0], Lit) and isinstance(ps[0].v, lib.SJoin) and ps[0].v.sep == ', ':
        return ps[0].v.seq
    E.fail(label + ': what violates the rule is listed', repr(v))


# ---- overlapping selections ---------------------------------------------------------------------

def tally(E):
    """defaultdict(Counter), to which ranges of positions are added: described by the list of what
    was added. At the end: the keys in some order, times(key, p) how often position p was added"""
    def new(E, args, kw):
        if len(args) != 1 or kw or not isinstance(args[0], Builtin) or args[0].name != 'collections.Counter':
            raise Unsupported('defaultdict of something else than Counter')
        o = E.alloc('Tally')
        E.write('log', o, E.newlist(Seq()))
        return o

    def at(E, o, k):
        if isinstance(k, SU) and k.t.decl().eq(KEY):
            return Obj(COUNT(k.t.arg(0)), 'Counted', False)
        c = E.alloc('Tallied')
        E.write('of', c, o)
        E.write('key', c, k)
        return c

    def update(E, c, x):
        of, key = E.getfield(c, 'of')[0], E.getfield(c, 'key')[0]
        for p in lib.iterate(E, x).parts:
            if not (isinstance(p, FM) and p.identity and p.base.key[0] == 'range'):
                raise Unsupported('something else than a range is counted')
            lo = z3.simplify(p.base.key[1].t + p.lo)
            hi = z3.simplify(p.base.key[1].t + p.hi)
            if E.decide(lo < hi):
                E.lib.list_method(E, E.getfield(of, 'log')[0], 'append', [(key, SInt(lo), SInt(hi))], {})

    def items(E, o):
        E.tallies.append(E.getfield(o, 'log')[0])
        E.fact_once(z3.And(KEYS >= 0))
        return E.newlist(Seq([whole(Base(('tally',), KEYS, lambda i: (SU(KEY(i), 'str'), Obj(COUNT(i), 'Counted', False))))]))
    E.tallies = []
    E.ext_contract['collections.defaultdict'] = new
    views = {'items': lambda kv: kv, 'keys': lambda kv: kv[0], 'values': lambda kv: kv[1]}
    view = lambda E, o, name: lib.map_parts(E.content(items(E, o)), views[name])
    E.obj_attr['Tally'] = lambda E, o, name: (Native(lambda E, a, k: E.newlist(view(E, o, name))),) if name in views else None
    E.stubs['Tally'] = {'getitem': at, 'iter': lambda E, o: view(E, o, 'keys')}
    E.obj_attr['Tallied'] = lambda E, o, name: (Native(lambda E, a, k: update(E, o, a[0])),) if name == 'update' else None

    def positions(E, o):
        t = o.t
        j, p = z3.Ints('j! p!')
        E.fact_once(NPOS(t) >= 0)
        E.fact_once(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NPOS(t)), TIMES(t, POS(t, j)) >= 1), patterns=[POS(t, j)]))
        return Seq([whole(Base(('positions', KTerm(t)), NPOS(t), lambda j: SInt(POS(t, j))))])
    counts = {'keys': lambda E, o: positions(E, o), 'values': lambda E, o: lib.map_parts(positions(E, o), lambda p: times(o, p)),
              'items': lambda E, o: lib.map_parts(positions(E, o), lambda p: (p, times(o, p)))}
    times = lambda o, p: SInt(TIMES(o.t, E.int_term(p)))
    E.obj_attr['Counted'] = lambda E, o, name: (Native(lambda E, a, k: E.newlist(counts[name](E, o))),) if name in counts else None
    E.stubs['Counted'] = {'iter': positions, 'getitem': lambda E, o, k: SInt(TIMES(o.t, E.int_term(k)))}
    i, p = z3.Ints('i! p!')
    c = z3.Const('c!', U)
    # every position that was counted is among them
    E.assume(z3.ForAll([c, p], z3.Implies(TIMES(c, p) >= 1, z3.And(0 <= IDX(c, p), IDX(c, p) < NPOS(c), POS(c, IDX(c, p)) == p)),
                       patterns=[TIMES(c, p)]))


KEYS, KEY, COUNT = z3.Int('tally:n'), uf('tally:key', I, U), uf('tally:count', I, U)
NPOS, POS, TIMES, IDX = uf('tally:npos', U, I), uf('tally:pos', U, I, I), uf('tally:times', U, I, I), uf('tally:idx', U, I, I)


def between(E):
    """the range of positions that a span selects, if any"""
    def f(E, a, kw):
        i, lo, hi, n = a
        bound = spec(E, 'bound')
        l, h = (E.int_term(run(E, bound, x, n)) for x in (lo, hi))
        return E.newlist(Seq([Lit((i, SInt(l), SInt(h)))] if E.decide(l < h) else []))
    return Native(f, 'between')


def h_overlap(E):
    label = 'algnexpr_spans_do_not_overlap'
    attr = sym_str(E, 'attr')
    tally(E)
    x = placed_item(E)
    e = expression(E, x, attr)
    got = checked(E, label, x, attr)
    t = run(E, spec(E, 'referred'), x, attr, named(E))
    if t is None:
        verdict(E, label, got, False)
        raise Done()
    if len(E.tallies) != 1:
        raise Unsupported('selected positions are not counted in one tally')
    want = run(E, spec(E, 'selected'), t, toks(E, e), spans_fn(E), named(E), length(E), between(E))
    prove_same(E, E.tallies[0], want, label + ': every selected position is counted for its item')
    i, p = z3.Ints('i! p!')
    twice = lambda i: z3.Exists([p], TIMES(COUNT(i), p) >= 2)
    k, v = got
    if k != 'return':
        E.fail(label + ': does not fail', repr(v))
        raise Done()
    if not E.decide(E.truth(v)):
        j = E.fresh(I, 'j')
        q = E.fresh(I, 'q')
        E.assume(z3.And(0 <= j, j < KEYS))
        w = IDX(COUNT(j), q)
        E.assume(z3.Implies(TIMES(COUNT(j), q) >= 1, z3.And(0 <= w, w < NPOS(COUNT(j)), POS(COUNT(j), w) == q)))
        E.prove(TIMES(COUNT(j), q) < 2, label + ': reported exactly when violated')
        raise Done()
    seq = listed(E, label, v)
    if seq is None:
        raise Done()
    E.prove(len(seq.parts) == 1 and isinstance(seq.parts[0], FM) and seq.parts[0].base.key == ('tally',)
            and E.implied(z3.And(seq.parts[0].lo == 0, seq.parts[0].hi == KEYS)), label + ': lists ids that are selected')
    j = E.fresh(I, 'j')
    E.assume(z3.And(0 <= j, j < KEYS))

    def then(parts):
        if parts:
            E.prove(len(parts) == 1 and isinstance(parts[0], Lit) and same(E, parts[0].v, SU(KEY(j), 'str')), label + ': lists the id')
            E.prove(twice(j), label + ': what violates the rule is listed')
        else:
            q = E.fresh(I, 'q')
            E.prove(TIMES(COUNT(j), q) < 2, label + ': all that violates the rule is listed')
    aside(E, lambda: E.enter_leaf(seq.parts[0], j, then))


HARNESSES = [('has_id', guarded(h_has('has_id', 'id'))), ('has_type', guarded(h_has('has_type', 'type'))),
             ('id_is_unique', guarded(h_unique))]
HARNESSES += [('get_value', guarded(h_get_value)),
              ('reference_id_in_igt', guarded(h_tierref)),
              ('algnexpr_ids_in_referred_tier', guarded(h_expr('algnexpr_ids_in_referred_tier', w_missing))),
              ('algnexpr_spans_in_aligned_item', guarded(h_expr('algnexpr_spans_in_aligned_item', w_beyond)))]
HARNESSES += [('item_refattrs_specified_on_tier', guarded(h_refattrs))]
HARNESSES += [('algnexpr_spans_do_not_overlap', guarded(h_overlap))]


# ---- which records are put at which object -----------------------------------------------------

LEVEL = {'must': 40, 'should': 30, 'may': 20}
UNIQUE = ('must', 'id_is_unique')


def reports(E):
    """reports made by the validators of parts"""
    def put(E, o, k, v):
        if k not in ('records', 'children'):
            raise Unsupported('report[%r]' % (k,))
        E.write(k, o, v)
    E.stubs['Report'] = {'getitem': lambda E, o, k: report_field(E, o, k), 'setitem': put}
    E.contracts[V + '.validate_condition'] = c_condition
    ids_stub(E)


def report_field(E, o, k):
    if k in ('records', 'children') and E.getfield(o, k):
        return E.getfield(o, k)[0]
    raise Unsupported('report[%r]' % (k,))


def made(E, fn, x):
    """a new report for x by fn, with its own records"""
    o = E.alloc('Report')
    n = uf('nrecords:' + fn, U, I)(x.t)
    E.fact_once(n >= 0)
    E.write('records', o, E.newlist(Seq([whole(Base(('own', fn, KTerm(x.t)), n, lambda i: SU(uf('own', U, I, U)(x.t, i), 'any')))])))
    E.write('of', o, x)
    E.write('by', o, fn)
    return o


def c_validate(fn, part):
    """contract of the validator of a part: its report; its children are the reports of the members, in order"""
    def c(E, f, args, kw):
        b = E.bind(f, args, kw)
        x, ctx = b.values()
        has_context(E, ctx)
        o = made(E, fn, x)
        if part:
            kids = E.newlist(Seq())
            E.stream(x, lambda y: E.lib.list_method(E, kids, 'append', [made(E, part, y)], {}))
            E.write('children', o, kids)
        return o
    return c


def has_context(E, ctx):
    for k in ('id', 'index', 'name', 'scope'):
        E.prove(bool(E.dict_find(E.dcontent(ctx), k)), 'the context has what messages name')


def ids_stub(E):
    """Counter of ids: the list of what was counted"""
    def new(E, args, kw):
        if args or kw:
            raise Unsupported('Counter of something')
        c = E.alloc('Ids')
        E.write('counted', c, E.newlist(Seq()))
        E.write('before', c, None)
        return c

    def get(E, c, k):
        n = SInt(E.fresh(I, 'count'))
        E.write('before', c, (k, n))
        return n

    def put(E, c, k, v):
        b = E.getfield(c, 'before')[0]
        if b is None or not same(E, b[0], k):
            raise Unsupported('assignment of something else than one more')
        E.prove(isinstance(v, SInt) and v.t == b[1].t + 1, 'an id is counted once more')
        E.lib.list_method(E, E.getfield(c, 'counted')[0], 'append', [k], {})
        E.write('before', c, None)
    E.ext_contract['collections.Counter'] = new
    E.stubs['Ids'] = {'getitem': get, 'setitem': put}


MESSAGES = [None, '', 'Each {name} {modal} specify an id {id} {index} {scope}.', ['{modal} a', '{name} b', 'c'], []]


def h_condition(E):
    """a condition is checked with the object and its arguments; each message it gives makes a record"""
    label = 'validate_condition'
    lv = ['must', 'should', 'may', 'must'][2 * E.choose('a') + E.choose('b')]
    m = MESSAGES[-1]
    for k, x in enumerate(MESSAGES[:-1]):
        if E.choose('result %d' % k):
            m = x
            break
    x = given(E, 'x', 'model.Item')
    more = [sym_str(E, 'arg%d' % k) for k in range(2)][:2 * E.choose('arguments')]
    calls = []

    def cond(E, a, kw):
        calls.append(a)
        return E.newlist(Seq([Lit(t) for t in m])) if isinstance(m, list) else m
    ctx = context(E, x)
    mark = heap_mark(E)
    k, r = outcome(E, lambda: run(E, real(E, 'validate_condition'), (real(E, lv), Native(cond, 'condition')) + tuple(more), x, ctx))
    if k != 'return':
        E.fail(label + ': does not fail', repr(r))
        raise Done()
    prove_frame(E, mark, label)
    E.prove(len(calls) == 1 and len(calls[0]) == 1 + len(more) and all(same(E, a, b) for a, b in zip(calls[0], [x] + more)),
            label + ': the condition is checked for the object')
    records(E, label, r, [lv] * len([m] if isinstance(m, str) and m else m or []))


def records(E, label, r, levels):
    ps = E.content(r).parts
    E.prove(len(ps) == len(levels) and all(isinstance(p, Lit) and isinstance(p.v, Obj) for p in ps),
            label + ': a record for every message')
    for p, lv in zip(ps, levels):
        at = dict_of(E, p.v)
        E.prove(at('level') == LEVEL[lv], label + ': with the level of the rule')
        E.prove(lib.isstr(at('message')), label + ': with a message')


def h_validate(E):
    """the records of every condition, in order; nothing below"""
    reports(E)
    x = given(E, 'x', ['model.XigtCorpus', 'model.Igt', 'model.Tier', 'model.Item'][2 * E.choose('a') + E.choose('b')])
    conds = [(real(E, 'must'), real(E, 'has_id')), (real(E, 'should'), real(E, 'has_type')),
             (real(E, 'should'), real(E, 'reference_id_in_igt'), 'alignment')]
    m = heap_mark(E)
    k, r = outcome(E, lambda: run(E, real(E, 'validate'), x, context(E, x), E.newlist(Seq([Lit(c) for c in conds]))))
    prove_frame(E, m, 'validate')
    at = dict_of(E, r)
    expect(E, 'validate: the records of every condition', recs(E, at('records')), x,
           [('must', 'has_id'), ('should', 'has_type'), ('should', 'reference_id_in_igt', 'alignment')])
    prove_same(E, at('children'), E.newlist(Seq()), 'validate: nothing below')


def c_condition(E, f, args, kw):
    """the records of a condition; key: level, condition, its arguments and the object"""
    b = E.bind(f, args, kw)
    cond, x, ctx = b.values()
    has_context(E, ctx)
    make, fn, *more = cond if isinstance(cond, tuple) else [None, None]
    if not isinstance(make, Func) or not isinstance(fn, Func):
        raise Unsupported('condition %r' % (cond,))
    key = []
    for a in more:
        if isinstance(a, Obj) and a.cls == 'Ids':
            # what has been counted before this iteration
            seq = E.content(E.getfield(a, 'counted')[0])
            if not all(isinstance(p, Mark) for p in seq.parts):
                E.fail('an id is compared with those before it')
            key.append(('ids', KTerm(a.t)))
        elif isinstance(a, str):
            key.append(a)
        elif isinstance(a, Obj) and a.cls == 'list' and not E.content(a).parts:
            key.append(('none',))
        else:
            key.append(('value', KTerm(a.t)) if isinstance(a, Obj) else ('other', repr(a)))
    k = ('R', make.name, fn.name) + tuple(key) + (KTerm(x.t),)
    n = uf('nrecords:%s:%s:%d' % (make.name, fn.name, len(key)), U, I)(x.t)
    E.fact_once(n >= 0)
    return E.newlist(Seq([whole(Base(k, n, lambda i: SU(uf('record', U, I, U)(x.t, i), 'any')))]))


def recs(E, o):
    """keys of the conditions whose records are in the list"""
    out = []
    for p in E.content(o).parts:
        if not (isinstance(p, FM) and p.identity and E.implied(z3.And(p.lo == 0, p.hi == p.base.len))):
            raise Unsupported('records: %r' % (p,))
        out.append(p.base.key)
    return out


def norm(k):
    """without the object"""
    return k[1:-1]


def expect(E, label, keys, x, want):
    """the conditions (level, name, ...) on x, each once"""
    got = [norm(k) for k in keys if k[0] == 'R' and k[-1] == KTerm(x.t)]
    E.prove(sorted(map(repr, got)) == sorted(map(repr, want)) and len(got) == len(keys), label)


def dict_of(E, o):
    def at(k):
        r = E.dict_find(E.dcontent(o), k)
        if r is None:
            E.fail('report has ' + k)
            raise Done()
        return r[0]
    return at


def context(E, x, ids=None):
    kw = {} if ids is None else {'ids': ids}
    return run(E, real(E, 'make_context'), x, SInt(z3.Int('in:index')), '<name>', '<scope>', **kw)


def head(E, label, fn, x, ctx):
    m = heap_mark(E)
    k, r = outcome(E, lambda: run(E, real(E, fn), x, ctx))
    if k != 'return':
        E.fail(label + ': does not fail', repr(r))
        raise Done()
    prove_frame(E, m, label)
    at = dict_of(E, r)
    prove_same(E, at('id'), E.getattr(x, 'id'), label + ': report is of this object')
    prove_same(E, at('index'), SInt(z3.Int('in:index')), label + ': with its index')
    return at


ITEM = [('should', 'has_id')] + [(lv, fn, a) for a in ATTRS for lv, fn in (
    ('must', 'algnexpr_ids_in_referred_tier'), ('should', 'algnexpr_spans_in_aligned_item'),
    ('should', 'algnexpr_spans_do_not_overlap'))]
TIER = [('should', 'has_id'), ('should', 'has_type'), ('must', 'item_refattrs_specified_on_tier')] + \
    [('must', 'reference_id_in_igt', a) for a in ATTRS]


def h_item(E):
    reports(E)
    x = given(E, 'x', 'model.Item')
    at = head(E, 'validate_item', 'validate_item', x, context(E, x))
    expect(E, 'validate_item: the rules for items', recs(E, at('records')), x, ITEM)
    prove_same(E, at('children'), E.newlist(Seq()), 'validate_item: nothing below')


def members_of(E, label, x, children, fn, then):
    """the children are the reports of the members in order; then(member, its report)"""
    ps, cs = E.content(x).parts, E.content(children).parts
    E.prove(len(ps) == 1 and len(cs) == 1 and isinstance(cs[0], FM) and cs[0].base.key == ps[0].base.key
            and E.implied(z3.And(cs[0].lo == ps[0].lo, cs[0].hi == ps[0].hi)), label + ': one report for every member')
    i = E.fresh(I, 'i')
    E.assume(z3.And(ps[0].lo <= i, i < ps[0].hi))
    y = lib.fm_at(E, ps[0], i)

    def one(parts):
        E.prove(len(parts) == 1 and isinstance(parts[0], Lit) and isinstance(parts[0].v, Obj)
                and parts[0].v.cls == 'Report' and E.getfield(parts[0].v, 'by')[0] == fn
                and same(E, E.getfield(parts[0].v, 'of')[0], y), label + ': the report of the member')
        then(y, parts[0].v)
    aside(E, lambda: E.enter_leaf(cs[0], i, one))


def counted(E, x, key, label):
    """what was counted: the ids of the members, without those that have none"""
    c = [o for o in E.counters if o.t.eq(key[1].t)]
    if not c:
        E.fail(label)
        raise Done()
    return E.getfield(c[0], 'counted')[0]


def unique(E, label, fn, keys, y, total):
    """the records of y are those of its own report and those of the ids used before"""
    own, more = keys[0], keys[1:]
    E.prove(own == ('own', fn, KTerm(y[0].t)), label + ': its own records')
    E.prove(all(norm(k)[:2] == UNIQUE and k[-1] == KTerm(y[0].t) and len(norm(k)) == 3 and norm(k)[2][0] == 'ids'
                for k in more) and len(more) == 1, label + ': unique among the ids before it')
    for k in more:
        lst = E.getfield(Obj(norm(k)[2][1].t, 'Ids', True), 'counted')[0]
        prove_same(E, run(E, spec(E, 'given'), lst), total, label + ': the ids that are there')


def level(fn, cls, part, sub, rules):
    def h(E):
        reports(E)
        E.contracts[V + '.' + part] = c_validate(part, sub)
        x = given(E, 'x', cls)
        seen, want = None, list(rules)
        if cls == 'model.XigtCorpus':
            E.assume(E.term(E.getattr(x, 'mode')) == E.term(E.module('xigt.consts').env.vars['FULL']))
            if E.choose('ids of other corpora'):
                seen = Obj(z3.Const('in:seen', U), 'Others', False)
                want.append(UNIQUE + (('value', KTerm(seen.t)),))
        at = head(E, fn, fn, x, context(E, x, seen))
        expect(E, fn + ': the rules for it', of_interest(E, recs(E, at('records'))), x, want)
        total = run(E, spec(E, 'ids_of'), x)

        def member(y, r):
            unique(E, fn, part, recs(E, report_field(E, r, 'records')), (y, r), total)
            if fn == 'validate_igt':
                items = run(E, spec(E, 'item_ids_of'), x)
                label = fn + ' (items)'
                members_of(E, label, y, report_field(E, r, 'children'), sub,
                           lambda y, r: unique(E, label, sub, recs(E, report_field(E, r, 'records')), (y, r), items))
        members_of(E, fn, x, at('children'), part, member)
    return h


def of_interest(E, keys):
    """without: unique among no ids at all"""
    return [k for k in keys if not (norm(k)[:2] == UNIQUE and norm(k)[2][0] == 'none')]


HARNESSES += [('validate_item', guarded(h_item)),
              ('validate_tier', guarded(level('validate_tier', 'model.Tier', 'validate_item', None, TIER))),
              ('validate_igt', guarded(level('validate_igt', 'model.Igt', 'validate_tier', 'validate_item', [('should', 'has_id')]))),
              ('validate_corpus', guarded(level('validate_corpus', 'model.XigtCorpus', 'validate_igt', None, [('may', 'has_id')])))]

HARNESSES += [('validate_condition', guarded(h_condition)), ('validate', guarded(h_validate))]


# ---- what is shown: nothing is lost when empty reports are dropped -----------------------------

def LOUD(x):
    """there is a record of the level in x or below"""
    return uf('loud', U, B)(x)


def h_filter(E):
    label = 'filter_empty_reports'
    lv = SInt(z3.Int('in:minlevel')) if E.choose('level') else None
    E.stubs['Rec'] = {'getitem': lambda E, o, k: SInt(uf('level', U, I)(o.t)) if k == 'level' else E.raise_(KeyError)}
    E.stubs['Kept'] = {'len': lambda E, o: SInt(z3.If(LOUD(o.t), z3.IntVal(4), z3.IntVal(0)))}
    made, rep = {}, E.alloc('dict')
    n, m = z3.Ints('in:n in:m')
    E.assume(z3.And(n >= 0, m >= 0))
    child = lambda i: Obj(uf('child', I, U)(i), 'Below', False)
    rs = E.newlist(Seq([whole(Base(('in', 'records'), n, lambda i: Obj(uf('rec', I, U)(i), 'Rec', False)))]))
    cs = E.newlist(Seq([whole(Base(('in', 'children'), m, child))]))
    E.set_dcontent(rep, DVal(ops=(('set', 'records', rs), ('set', 'children', cs))))

    def below(E, f, args, kw):
        b = E.bind(f, args, kw)
        x, level = b.values()
        if not (isinstance(x, Obj) and x.cls == 'Below'):
            return NotImplemented
        E.prove(same(E, level, lv), label + ': the parts with the same level')
        return Obj(uf('kept', U, U)(x.t), 'Kept', False)
    E.contracts[V + '.filter_empty_reports'] = below
    i, j = z3.Ints('i! j!')
    t = uf('kept', U, U)
    one = lambda i: z3.And(0 <= i, i < n, uf('level', U, I)(uf('rec', I, U)(i)) >= lv.t if lv is not None else True)
    two = lambda j: z3.And(0 <= j, j < m, LOUD(t(uf('child', I, U)(j))))
    want = z3.Or(z3.Exists([i], one(i)), z3.Exists([j], two(j)))
    k, r = outcome(E, lambda: run(E, real(E, label), rep, lv))
    if k != 'return':
        E.fail(label + ': does not fail', repr(r))
        raise Done()
    if not E.decide(E.truth(r)):
        E.prove(z3.Not(want), label + ': dropped only if there is nothing to report')
        raise Done()
    at = {}
    for _, x in E.pc:
        engine.exits_in(x, at, set())
    E.prove(z3.Or([f(x) for x in [z3.IntVal(0)] + list(at.values()) for f in (one, two)]), label + ': kept only if there is something to report')
    E.prove(same(E, r, rep), label + ': the report itself')
    at = dict_of(E, r)
    prove_same(E, at('records'), rs, label + ': with its records')
    prove_same(E, E.newlist(E.content(at('children'))), E.newlist(Seq([FM(Base(('in', 'children'), m, child), z3.IntVal(0), m, z3.Int('c!'), [
        Leaf((), (), [Lit(Obj(t(uf('child', I, U)(z3.Int('c!'))), 'Kept', False))])])])), label + ': with its parts')


HARNESSES += [('filter_empty_reports', guarded(h_filter))]


# ---- what is shown: every record, under the heading of its object --------------------------------

SHOW = {'id': 'optstr', 'index': 'any'}


def a_report(E, name):
    """any report, as filtering leaves it"""
    n, m = z3.Ints('in:n in:m')
    E.assume(z3.And(n >= 0, m >= 0))
    rec, child = uf(name + ':rec', I, U), uf(name + ':child', I, U)
    rs = E.newlist(Seq([whole(Base((name, 'records'), n, lambda i: Obj(rec(i), 'Rec', False)))]))
    cs = E.newlist(Seq([whole(Base((name, 'children'), m, lambda i: Obj(child(i), 'Below', False)))]))
    i, idx = sym_str(E, name + '_id', 'optstr'), SInt(z3.Int('in:%s_index' % name))
    rep = E.alloc('dict')
    E.set_dcontent(rep, DVal(ops=(('set', 'records', rs), ('set', 'children', cs), ('set', 'id', i), ('set', 'index', idx))))
    return rep, rs, cs, i, idx


def rec_item(E, o, k):
    if k == 'level':
        return SU(uf('reclevel', U, U)(o.t), 'any')
    if k == 'message':
        t = uf('recmessage', U, U)(o.t)
        E.fact_once(kindf(t) == 3)
        return SU(t, 'str')
    E.raise_(KeyError)


def h_shown(E):
    label = 'print_report'
    E.stubs['Rec'] = {'getitem': rec_item, 'len': lambda E, o: 2}
    E.stubs['Below'] = {'len': lambda E, o: SInt(z3.If(LOUD(o.t), z3.IntVal(4), z3.IntVal(0)))}
    rep, rs, cs, i, idx = a_report(E, 'in')
    level = 2 * E.choose('deeper') + E.choose('deep')
    color = E.choose('color')
    args = Obj(z3.Const('in:args', U), 'args')
    E.write('color', args, color)
    E.printed = out = E.newlist(Seq())
    keep = lambda *v: E.lib.list_method(E, out, 'append', [v], {})
    E.ext_contract['logging.log'] = lambda E, a, kw: keep('log', *a)
    shade = lambda E, o: E.lib.opaque_str(E, 'shade', rec_item(E, o, 'level'))
    E.module(V).env.vars['COLORS'] = Obj(z3.Const('colors', U), 'Colors', False)
    E.stubs['Colors'] = {'getitem': lambda E, o, k: E.lib.opaque_str(E, 'shade', k)}

    def below(E, f, a, kw):
        b = E.bind(f, a, kw)
        x = b['report']
        if not (isinstance(x, Obj) and x.cls == 'Below'):
            return NotImplemented
        E.prove(same(E, b['args'], args), label + ': the parts with the same arguments')
        keep('below', x, b.get('nestlevel', 0))
    E.contracts[V + '.print_report'] = below
    k, r = outcome(E, lambda: run(E, real(E, label), rep, args, *([level] if level else [])))
    if k != 'return':
        E.fail(label + ': does not fail', repr(r))
        raise Done()
    ds = ['corpus', 'igt', 'tier', 'item']
    want = run(E, spec(E, 'shown_report'), rs, cs, i, idx, level, ds[level], color,
               Native(lambda E, a, kw: E.lib.opaque_str(E, 'shade', a[0])))
    prove_same(E, out, want, label + ': its heading, its records and those below, unless there are none')


def h_run(E):
    """one file after the other; ids of corpora are unique among those before"""
    ids_stub(E)
    files = Obj(z3.Const('in:files', U), 'list', False, 'str')
    E.assume(z3.Not(fresh_p(files.t)))
    args = Obj(z3.Const('in:args', U), 'args')
    E.write('files', args, files)
    E.printed = E.newlist(Seq())
    E.ext_contract['open'] = lambda E, a, kw: E.lib.opaque_str(E, 'opened', a[0])
    E.with_contract = lambda E, cm: cm
    E.obj_attr['Logger'] = lambda E, o, name: (Native(lambda E, a, kw: SInt(z3.Int('in:effective'))),) \
        if name == 'getEffectiveLevel' else None
    E.ext_contract['logging.getLogger'] = lambda E, a, kw: Obj(z3.Const('logger', U), 'Logger', False)
    ran = []

    def rule(E, st, env, it):
        if not isinstance(st, ast.For):
            return False
        ps = lib.iterate(E, it).parts
        if len(ps) != 1 or not isinstance(ps[0], FM) or ps[0].base.key != E.prelist(files).key:
            return False
        ran.append(1)
        counters = [v for v in env.vars.values() if isinstance(v, Obj) and v.cls == 'Ids']
        carried = [n for n in sorted(stores(st.body)) if n in env.vars]
        flags = [n for n in carried if isinstance(env.vars[n], bool)]
        lists = [v for v in env.vars.values() if isinstance(v, Obj) and v.cls == 'list' and v.fresh]
        if len(counters) != 1 or len(flags) + len(lists) != 1:
            raise Unsupported('run: state of the loop')
        counted = E.getfield(counters[0], 'counted')[0]
        prove_same(E, counted, E.newlist(Seq()), 'run: no ids before the first file')
        for v in lists:
            prove_same(E, v, E.newlist(Seq()), 'run: nothing has failed before the first file')
        for n in flags:
            E.prove(env.vars[n] is True, 'run: nothing has failed before the first file')
        n0, n1 = z3.Ints('nids npassed')
        E.assume(z3.And(n0 >= 0, n1 >= 0))
        before = Seq([whole(Base(('ids so far',), n0, lambda i: SU(uf('idsofar', I, U)(i), 'str')))])
        passed = Seq([whole(Base(('passed so far',), n1, lambda i: SBool(uf('passed', I, B)(i))))])
        E.set_content(counted, before)
        for v in lists:
            E.set_content(v, passed)
        so_far = SBool(z3.Bool('sofar'))
        for n in carried:
            env.vars[n] = so_far if n in flags else Poison('%s is carried from file to file' % n)
        E.result = run(E, spec(E, 'all_of'), E.newlist(passed)) if lists else so_far
        if not E.choose('more files'):
            return True
        i = E.fresh(I, 'i')
        E.assume(z3.And(ps[0].lo <= i, i < ps[0].hi))
        f = E.prelist(files).elem(i)
        xc = given(E, 'xc', 'model.XigtCorpus')
        loads = E.choose('the file is loaded')
        silent = E.choose('there is nothing to report')
        seen, done = [], []

        def c_load(E, fn, a, kw):
            b = E.bind(fn, a, kw)
            fh = E.term(b['fh'])
            E.prove(z3.Or(fh == E.term(f), fh == E.term(E.lib.opaque_str(E, 'opened', f))), 'run: the file is loaded')
            if not loads:
                E.raise_(ElementTree.ParseError)
            return xc

        def c_validate(E, fn, a, kw):
            x, ctx = E.bind(fn, a, kw).values()
            E.prove(same(E, x, xc), 'run: the corpus is validated')
            at_ = dict_of(E, ctx)
            prove_same(E, at_('index'), SInt(i), 'run: with the number of the file')
            prove_same(E, at_('id'), E.getattr(xc, 'id'), 'run: with its id')
            u = at_('ids')
            E.prove(isinstance(u, Obj) and u.t.eq(counters[0].t), 'run: unique among the corpora before it')
            prove_same(E, E.newlist(E.content(counted)), E.newlist(before), 'run: unique among the corpora before it')
            has_context(E, ctx)
            seen.append('validated')
            return Obj(z3.Const('report', U), 'Whole', False)

        def c_filter(E, fn, a, kw):
            b = E.bind(fn, a, kw)
            if not (isinstance(b['report'], Obj) and b['report'].cls == 'Whole'):
                return NotImplemented
            E.prove(same(E, b['minlevel'], SInt(z3.Int('in:effective'))), 'run: filtered by the level in force')
            return Obj(z3.Const('filtered', U), 'Filtered', False)

        def filtered(E, b):
            ok = isinstance(b['report'], Obj) and b['report'].cls == 'Filtered'
            E.prove(ok, 'run: the filtered report is what counts')
            if not ok:
                raise Done()

        def c_empty(E, fn, a, kw):
            b = E.bind(fn, a, kw)
            filtered(E, b)
            E.prove(b['minlevel'] is None, 'run: what is left after filtering counts')
            return silent

        def c_print(E, fn, a, kw):
            b = E.bind(fn, a, kw)
            filtered(E, b)
            E.prove(same(E, b['args'], args) and same(E, b['nestlevel'], 0), 'run: shown as asked, from the corpus on')
            seen.append('shown')
        E.contracts.update({'xigt.codecs.xigtxml.load': c_load, V + '.validate_corpus': c_validate,
                            V + '.filter_empty_reports': c_filter, V + '.report_is_empty': c_empty,
                            V + '.print_report': c_print})
        E.stubs['Filtered'] = {'len': lambda E, o: 0 if silent else 4}
        E.assign(st.target, lib.fm_at(E, ps[0], i), env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        except (Brk, Ret):
            E.fail('run: every file is validated')
            raise Done()
        if not loads:
            E.prove(seen == [], 'run: a file that cannot be loaded is not validated')
            E.prove(len(E.content(E.printed).parts) == 1, 'run: it is said that a file cannot be loaded')
            new_ids, new = before, passed
        else:
            E.prove(seen == ['validated'] + ([] if silent else ['shown']), 'run: validated once, shown if there is something')
            E.prove(not E.content(E.printed).parts, 'run: nothing else is printed')
            x = E.getattr(xc, 'id')
            has = E.decide(z3.Not(E.term(x) == NONE))
            new_ids = Seq(before.parts + ((Lit(x),) if has else ()))
            new = Seq(passed.parts + (Lit(silent),))
        prove_same(E, E.newlist(E.content(counted)), E.newlist(new_ids), 'run: its id is counted')
        for v in lists:
            prove_same(E, E.newlist(E.content(v)), E.newlist(new), 'run: passes if there is nothing to report')
        for n in flags:
            got = E.truth(env.vars[n])
            E.prove((z3.BoolVal(got) if isinstance(got, bool) else got) == z3.And(so_far.t, z3.BoolVal(silent or not loads)),
                    'run: passes if there is nothing to report')
        raise Done()
    E.loop_rules[V + '.run'] = rule
    k, r = outcome(E, lambda: run(E, real(E, 'run'), args))
    if k != 'return':
        E.fail('run: does not fail', repr(r))
        raise Done()
    if not ran:
        raise Unsupported('run without a loop over the files')
    prove_same(E, r, E.result, 'run: passes if every file passes')


HARNESSES += [('print_report', guarded(h_shown)), ('run', guarded(h_run))]


def arguments_stub(E, args):
    """argparse: some arguments are parsed"""
    def attr(E, o, name):
        if name == 'parse_args':
            return (Native(lambda E, a, kw: args),)
        return (Native(lambda E, a, kw: o),)
    E.obj_attr['Parser'] = attr
    E.ext_contract['argparse.ArgumentParser'] = lambda E, a, kw: Obj(z3.Const('parser', U), 'Parser', False)
    E.obj_attr['args'] = lambda E, o, name: (SInt(z3.Int('in:args.' + name)),)


def h_main(E):
    """the exit status tells whether there was anything to report"""
    args = Obj(z3.Const('in:args', U), 'args')
    arguments_stub(E, args)
    E.ext_contract['logging.basicConfig'] = lambda E, a, kw: None
    ok = E.choose('every file passes')
    ran, left = [], []

    def c_run(E, f, a, kw):
        E.prove(E.bind(f, a, kw)['args'] is args, 'main: runs with its arguments')
        ran.append(1)
        return ok

    def leave(E, a, kw):
        left.append(a[0] if a else None)
        E.raise_(SystemExit)
    E.contracts[V + '.run'] = c_run
    E.ext_contract['sys.exit'] = leave
    k, r = outcome(E, lambda: run(E, E.module(V).env.vars['main']))
    if len(ran) != 1:
        E.fail('main: validates once', repr(ran))
        raise Done()
    code = E.force(left[0]) if left else None
    if isinstance(code, SBool):
        raise Unsupported('exit status %r' % (code,))
    if k != 'return' and not left:
        E.fail('main: does not fail', repr(r))
        raise Done()
    E.prove((code in (None, 0)) == ok, 'main: the exit status is 0 if every file passes, and only then')


HARNESSES += [('main', guarded(h_main))]
