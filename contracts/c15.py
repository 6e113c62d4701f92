"""C15: XigtPath. Every axis selects what it should from a node; a step applies its axis to every
node, in order, then its predicates, then what follows; the tokenizer gives the tokens of a path."""
import re
from common import *
import regs
import rx
import c03

P = 'xigt.xigtpath'
NSMAP = 'xigt.mixins.XigtAttributeMixin.nsmap'
TRUSTED = ['the namespace map in force (C04), Item.value (C08), references (C09), Igt.get_any (C01, C03)',
           're (the automata are compared with the pattern as Python parses it)']
FIELDS = ['igts', 'tiers', 'items', 'metas', 'metadata', 'name', 'text', 'igt', 'tier', 'corpus', '__iter__', 'select']
KINDS = {'model.XigtCorpus': 'igt', 'model.Igt': 'tier', 'model.Tier': 'item', 'metadata.Metadata': 'meta',
         'metadata.Meta': None, 'metadata.MetaChild': None}


def SETUP(E):
    E.inner_stops = None
    load(E)
    E.module('xigt.ref')
    E.module(P)
    schema(E)
    spec_module(E, 'paths')
    E.contracts[NSMAP] = c_nsmap
    for c in ALL:
        for f in FIELDS:     # the given objects have the attributes of their class only
            if E.cls('xigt.' + c).lookup(f) is None:
                E.schema.setdefault(('xigt.' + c, f), 'absent')


def c_nsmap(E, f, args, kw):
    if len(args) != 1:
        return NotImplemented
    return Obj(uf('nsmapof', U, U)(args[0].t), 'dict', False, 'str>str')


def real(E, name):
    return E.module(P).env.vars[name]


def spec(E, name):
    return spec_fn(E, 'paths', name)


def node(E, cls, name='x'):
    x = given(E, name, cls)
    if cls == 'model.XigtCorpus':
        E.assume(E.term(E.getattr(x, 'mode')) == E.term(E.module('xigt.consts').env.vars['FULL']))
    return x


def drained(E, label, thunk):
    """the elements a function gives, as a list"""
    k, v = outcome(E, lambda: E.newlist(lib.drain(E, thunk())))
    if k != 'return':
        E.fail(label + ': does not fail', repr(v))
        raise Done()
    return v


def checked(E, label, name, *args):
    m = heap_mark(E)
    v = drained(E, label, lambda: run(E, real(E, name), *args))
    prove_frame(E, m, label)
    return v


# ---- axes -------------------------------------------------------------------------------------

def below(E, x):
    """metadata and members"""
    q = x.cls.qual.replace('xigt.', '')
    md = E.newlist(E.content(E.getattr(x, 'metadata'))) if q in ('model.XigtCorpus', 'model.Igt', 'model.Tier') else E.newlist(Seq())
    ms = E.newlist(E.content(x)) if q in KINDS else E.newlist(Seq())
    return md, ms


def h_child(cls):
    def h(E):
        x = node(E, cls)
        name = sym_str(E, 'name')
        got = checked(E, 'child', '_find_child', x, name)
        md, ms = below(E, x)
        prove_same(E, got, run(E, spec(E, 'child'), x, name, md, ms, KINDS.get(cls)), 'child: the matching children in order')
    return h


HARNESSES = [('children of a ' + c, guarded(h_child(c))) for c in ALL]


def opaque(E, what, x, ty=None):
    """a list of things, a function of x"""
    t = uf(what, U, U)(E.term(x))
    n = uf('n:' + what, U, I)(E.term(x))
    E.fact_once(n >= 0)
    e = uf('of:' + what, U, I, U)
    return E.newlist(Seq([whole(Base((what, KTerm(E.term(x))), n, lambda i: mk(E, e(E.term(x), i), ty)))]))


def mk(E, t, ty):
    if ty and ty.startswith('obj:'):
        E.fact_once(z3.Not(fresh_p(t)))
        return E.preobj(t, ty[4:])
    return SU(t, ty or 'any')


CHILD = {'model.XigtCorpus': 'model.Igt', 'model.Igt': 'model.Tier', 'model.Tier': 'model.Item', 'model.Item': 'model.Item',
         'metadata.Metadata': 'metadata.Meta', 'metadata.Meta': 'metadata.MetaChild', 'metadata.MetaChild': 'metadata.MetaChild'}


def h_desc(cls):
    def h(E):
        label = 'descendant-or-self'
        x = node(E, cls)
        name = sym_str(E, 'name')
        kids = lambda: opaque(E, 'kids', x, 'obj:xigt.' + CHILD[cls])
        deep = lambda y: opaque(E, 'below', y)

        def c_child(E, f, args, kw):
            a, b = E.bind(f, args, kw).values()
            E.prove(same(E, a, x) and b == '*', label + ': goes on with all children')
            return kids()

        def c_deep(E, f, args, kw):
            a, b = E.bind(f, args, kw).values()
            if same(E, a, x):
                return NotImplemented
            E.prove(same(E, b, name), label + ': goes on with the same name')
            return deep(a)
        E.contracts[P + '._find_child'] = c_child
        E.contracts[P + '._find_descendant_or_self'] = c_deep
        got = checked(E, label, '_find_descendant_or_self', x, name)
        el = E.getattr(x, 'name') if cls == 'metadata.MetaChild' else cls.split('.')[1].lower()
        want = run(E, spec(E, 'descendants'), x, name, el, kids(), Native(lambda E, a, k: deep(a[0]), 'below'))
        prove_same(E, got, want, label + ': itself if it matches, then what is below its children')
    return h


def names(E, d):
    """the keys are names: '{uri}name', or plain without ':'"""
    k = z3.Const('k!attr', U)
    has, starts = lambda s, p: uf('contains', U, U, B)(s, lit(p)), lambda s, p: uf('startswith', U, U, B)(s, lit(p))
    E.assume(z3.ForAll([k], z3.Implies(dhas(d.t, k), z3.Or(starts(k, '{'), z3.Not(has(k, ':')))), patterns=[dhas(d.t, k)]))


def h_attr(kind):
    def h(E):
        label = 'attribute'
        cls = ALL[sum(2 ** k * E.choose('class %d' % k) for k in range(3)) % len(ALL)]
        x = node(E, cls)
        names(E, E.getattr(x, 'attributes'))
        E.assume(z3.Not(dhas(uf('nsmapof', U, U)(x.t), NONE)))
        if kind != 'other':
            got = checked(E, label, '_find_attr', x, kind)
            want = E.newlist(Seq())
            if kind == '*':
                want = run(E, spec(E, 'attributes'), x)
            elif kind != 'name' or cls == 'metadata.MetaChild':
                v = E.getattr(x, kind)
                if not E.decide(E.term(v) == NONE):
                    want = E.newlist(Seq([Lit(v)]))
            prove_same(E, got, want, label + ': is selected')
            raise Done()
        name = sym_str(E, 'attr')
        for k in ('id', 'type', 'name', '*'):
            E.assume(name.t != lit(k))
        prefix, local = run(E, spec(E, 'split'), name)
        if prefix is not None:
            E.assume(z3.And(E.term(prefix) != lit(''), E.term(local) != lit('*')))
        if E.decide(E.truth(lib.str_method(E, local, 'startswith', ['{'], {}))) or E.decide(E.truth(lib.contains(E, local, ':'))):
            raise Done()      # not the name of an attribute
        got = checked(E, label, '_find_attr', x, name)
        prove_same(E, got, run(E, spec(E, 'attribute'), x, name), label + ': is selected')
    return h


HARNESSES += [('below a ' + c, guarded(h_desc(c))) for c in ALL]
HARNESSES += [('attribute ' + k, guarded(h_attr(k))) for k in ('id', 'type', 'name', '*', 'other')]


# ---- functions ----------------------------------------------------------------------------------

def c_sort(E, seq, key, rev):
    """the keys of a dict in order, or its (key, value) pairs in the order of the keys"""
    if key is not None or rev is not False or len(seq.parts) != 1:
        raise Unsupported('sort')
    p = seq.parts[0]
    if not isinstance(p, FM) or not E.implied(z3.And(p.lo == 0, p.hi == p.base.len)):
        raise Unsupported('sort')
    k = z3.Const('in:refd', U)

    def elem(i):
        ki = SU(uf('sortedkey', U, I, U)(k, i), 'str')
        E.fact_once(dhas(k, ki.t))
        v = lib.fm_at(E, p, i)
        return (ki, E.dict_find(E.dcontent(refs_dict(E)), ki)[0]) if isinstance(v, tuple) else ki
    return Seq([whole(Base(('sorted', p.base.key), p.base.len, elem))])


def refs_dict(E):
    return Obj(z3.Const('in:refd', U), 'dict', False, 'str>list:str')


def h_refs(name, function):
    def h(E):
        label = name
        x = node(E, ['model.Tier', 'model.Item'][E.choose('item')])
        t = fld('_parent', x.t)
        for y in (t, fld('_parent', t)) if x.cls.name == 'Item' else (t,):
            E.assume(y != NONE)
            E.fact_once(z3.Not(fresh_p(y)))
        igt = E.force(E.getattr(x, 'igt'))
        some = E.newlist(Seq([Lit('alignment'), Lit(sym_str(E, 'refattr'))])) if E.choose('attributes given') else None
        E.sort_contract = c_sort

        def c_refs(E, f, args, kw):
            b = E.bind(f, args, kw)
            g, i, ra = b.values()
            E.prove(same(E, g, igt) and same(E, i, E.getattr(x, 'id')), label + ': the references of the object')
            E.prove(ra is some or same(E, ra, some), label + ': by the given attributes')
            return refs_dict(E)
        got_any = lambda i: SU(uf('any:get', U, U, U)(igt.t, E.term(i)), 'any')

        def c_get(E, f, args, kw):
            b = list(E.bind(f, args, kw).values())
            E.prove(same(E, b[0], igt) and len(b) < 3 or b[2] is None, label + ': the members of the IGT')
            return got_any(b[1])
        E.contracts['xigt.ref.' + function] = c_refs
        E.contracts['xigt.model.Igt.get_any'] = c_get
        got = checked(E, label, name, x, some)
        keys = E.newlist(c_sort(E, lib.iterate(E, refs_dict(E)), None, False))
        ids = Native(lambda E, a, k: E.dict_find(E.dcontent(refs_dict(E)), a[0])[0], 'ids')
        want = run(E, spec(E, 'referred'), keys, ids, Native(lambda E, a, k: got_any(a[0]), 'get'))
        prove_same(E, got, want, label + ': the objects referenced')
    return h


def h_function(E):
    label = 'function'
    kind = ['text', 'value', 'referent', 'referrer'][2 * E.choose('a') + E.choose('b')]
    cls = ['model.Item', 'metadata.Meta', 'metadata.MetaChild', 'model.Tier'][2 * E.choose('c') + E.choose('d')]
    if (kind == 'value' and cls != 'model.Item') or (kind == 'text' and cls == 'model.Tier') \
            or (kind[:2] == 're' and cls[0] != 'm') or (kind[:2] == 're' and cls[:4] == 'meta'):
        raise Done()
    x = node(E, cls)
    value = SU(uf('value', U, U)(x.t), 'any')
    E.contracts['xigt.model.Item.value'] = lambda E, f, a, k: value if same(E, a[0], x) and len(a) == 1 else NotImplemented
    a, b = sym_str(E, 'tok1'), sym_str(E, 'tok2')
    lit_of = lambda t: SU(uf('literal', U, U)(E.term(t)), 'str')
    for t in (a, b):
        E.assume(t.t != lit(','))
    E.contracts[P + '._unquote'] = lambda E, f, args, kw: lit_of(args[0])
    args = [[], [a], [a, ',', b]][(2 * E.choose('e') + E.choose('f')) % 3]
    refs = {}
    for n in ('_find_referent', '_find_referrer'):
        def c(E, f, av, kw, n=n):
            o, ra = E.bind(f, av, kw).values()
            E.prove(same(E, o, x), label + ': of the object')
            if args:
                prove_same(E, ra, E.newlist(Seq([Lit(lit_of(t)) for t in args if t != ','])), label + ': by the attributes given')
            else:
                E.prove(ra is None or same(E, ra, None), label + ': by any attribute')
            return opaque(E, n, x)
        E.contracts[P + '.' + n] = c
    got = checked(E, label, '_function', x, kind, E.newlist(Seq([Lit(t) for t in args])))
    if kind == 'text':
        want = E.newlist(Seq([Lit(E.getattr(x, 'text'))]))
    elif kind == 'value':
        want = E.newlist(Seq([Lit(value)]))
    else:
        want = opaque(E, '_find_' + kind, x)
    prove_same(E, got, want, label + ': gives what it is named for')


HARNESSES += [('referents', guarded(h_refs('_find_referent', 'referents'))),
              ('referrers', guarded(h_refs('_find_referrer', 'referrers'))), ('function', guarded(h_function))]


# ---- what is read up to an end ------------------------------------------------------------------

def token(i):
    return uf('token', I, U)(i)


NTOK = z3.Int('in:ntokens')


def inner(E, stops):
    """tokens, none of which is a stop"""
    E.inner_stops = None
    i = z3.Int('i!tok')
    E.assume(NTOK >= 1)
    E.assume(z3.ForAll([i], z3.And(kindf(token(i)) == 3, z3.Not(fresh_p(token(i))), *[token(i) != lit(s) for s in stops]),
                       patterns=[token(i)]))
    return tokens_from(z3.IntVal(0), NTOK)


def within(i):
    """how many predicates are open after i tokens of the path in a predicate"""
    return uf('within', I, I)(i)


def inner_path(E, stops):
    """the tokens of a path: its own predicates are closed, and no stop is outside of them"""
    E.assume(NTOK >= 1)
    E.fact_once(z3.And(within(z3.IntVal(0)) == 0, within(NTOK) == 0))
    i = z3.Int('i!tok')
    E.assume(z3.ForAll([i], token_facts(i, stops), patterns=[token(i)]))
    return tokens_from(z3.IntVal(0), NTOK)


def token_facts(i, stops):
    t = token(i)
    return z3.Implies(z3.And(0 <= i, i < NTOK), z3.And(
        kindf(t) == 3, z3.Not(fresh_p(t)), within(i) >= 0,
        within(i + 1) == within(i) + z3.If(t == lit('['), 1, z3.If(t == lit(']'), -1, 0)),
        z3.Implies(within(i) == 0, z3.And([t != lit(s) for s in stops]))))


def tokens_from(lo, hi):
    v = fresh_var('z')
    return FM(Base(('tokens',), NTOK, lambda i: SU(token(i), 'str')), lo, hi, v, [Leaf((), (), (Lit(SU(token(v), 'str')),))],
              identity=True)


def is_tokens(p):
    return isinstance(p, FM) and p.base.key == ('tokens',)


def stored(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def consuming(E, st, env, it):
    """a loop that moves tokens, one by one, from the front of a deque to the end of a list: at the
    head of the loop the first i have been moved"""
    if not isinstance(st, ast.While):
        return False
    lists = {n: v for n, v in env.vars.items() if isinstance(v, Obj) and v.cls in ('list', 'deque')}
    tested = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
    if isinstance(st.test, ast.Constant) and st.test.value:
        tested = set(lists)     # the loop ends by break
    src = [v for n, v in lists.items() if n in tested and E.content(v).parts and is_tokens(E.content(v).parts[0])]
    if len({v.t.get_id() for v in src}) != 1:
        return False
    if any(n in env.vars and n in lists for n in stored(st.body)):
        raise Unsupported('lists are replaced in a loop')
    src = src[0]
    tail = E.content(src).parts[1:]
    acc = [v for n, v in lists.items() if v is not src and not E.content(v).parts
           and any(isinstance(x, ast.Name) and x.id == n for s in st.body for x in ast.walk(s))]
    i = E.fresh(I, 'i')
    E.assume(z3.And(0 <= i, i <= NTOK))
    # what counts the open predicates
    open_ = [n for n in stored(st.body) if n in env.vars and isinstance(env.vars[n], int) and not isinstance(env.vars[n], bool)]
    if len(open_) > 1 or [n for n in stored(st.body) if n in env.vars and n not in open_]:
        raise Unsupported('variables changed in a loop that reads tokens')
    if open_:
        c0 = env.vars[open_[0]]
        env.vars[open_[0]] = SInt(within(i) + c0)
    if E.inner_stops is not None:
        E.fact_once(token_facts(i, E.inner_stops))

    def state(k):
        return [(src, Seq((tokens_from(k, NTOK),) + tuple(tail)))] + [(a, Seq([tokens_from(z3.IntVal(0), k)])) for a in acc]
    for o, c in state(i):
        E.set_content(o, c)
    def ends():
        E.prove(i == NTOK, 'the loop ends at the first stop')
        for o, c in state(NTOK):
            E.set_content(o, Seq(tail) if o is src else c)
        if open_:
            env.vars[open_[0]] = c0
        return True
    if not E.decide(E.truth(E.ev(st.test, env))):
        return ends()
    here = [(o, E.content(o)) for o, c in state(i)]
    try:
        E.exec_block(st.body, env)
    except Cont:
        pass
    except Brk:
        for o, c in here:
            prove_same(E, E.newlist(E.content(o)), E.newlist(c), 'nothing is read when the loop ends')
        if open_:
            E.prove(E.int_term(env.vars[open_[0]]) == within(i) + c0, 'how many predicates are open')
        return ends()
    E.prove(i < NTOK, 'the loop ends at the first stop')
    if open_:
        E.prove(E.int_term(env.vars[open_[0]]) == within(i + 1) + c0, 'how many predicates are open')
    for o, c in state(i + 1):
        prove_same(E, E.newlist(E.content(o)), E.newlist(c), 'what is read is kept, in order')
    raise Done()


def h_predicate(kind):
    def h(E):
        label = 'predicate'
        E.inner_stops = (']', '=', '!=')
        sub = inner_path(E, E.inner_stops)
        rest = [Lit(sym_str(E, 'rest%d' % k)) for k in range(2)]
        lit_tok = sym_str(E, 'quoted')
        val = SU(uf('literal', U, U)(lit_tok.t), 'str')
        end = [Lit(']')] if kind == 'has' else [Lit(kind), Lit(lit_tok), Lit(']')]
        steps = E.newlist(Seq([Lit('['), sub] + end + rest), 'deque')
        x = node(E, 'model.Item')
        found = lambda: opaque(E, 'found', x)
        path = lib.join(E, '', E.newlist(Seq([tokens_from(z3.IntVal(0), NTOK)])))

        def c_unquote(E, f, args, kw):
            E.prove(same(E, args[0], lit_tok), label + ': compared with the literal')
            return val

        def c_findall(E, f, args, kw):
            o, p = E.bind(f, args, kw).values()
            E.prove(same(E, o, x), label + ': the path is followed from the node')
            prove_same(E, p, path, label + ': the path inside')
            return found()
        E.contracts[P + '._unquote'] = c_unquote
        E.contracts[P + '.findall'] = c_findall
        E.contracts[P + '.iterfind'] = c_findall

        def c_find(E, f, args, kw):
            l = c_findall(E, f, args, kw)
            if not E.decide(E.truth(l)):
                return None
            return lib.getitem(E, l, 0)
        E.contracts[P + '.find'] = c_find
        E.loop_rules[P + '._make_predicate_test'] = consuming
        k, p = outcome(E, lambda: run(E, real(E, '_make_predicate_test'), steps))
        if k != 'return':
            E.fail(label + ': does not fail', repr(p))
            raise Done()
        prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq(rest)), label + ': the steps go on after it')
        got = E.decide(E.truth(run(E, p, x)))
        w = run(E, spec(E, 'some' if kind == 'has' else 'equal'), *([found()] if kind == 'has' else [found(), val]))
        want = E.decide(E.truth(w))
        E.prove(got == (want if kind != '!=' else not want), label + ': keeps exactly the nodes it should')
    return h


HARNESSES += [('predicate ' + k, guarded(h_predicate(k))) for k in ('has', '=', '!=')]


# ---- steps --------------------------------------------------------------------------------------

def nodes(E, what='objs'):
    """a list of nodes"""
    n = z3.Int('in:n' + what)
    E.fact_once(n >= 0)
    e = uf('in:' + what, I, U)
    return E.newlist(Seq([whole(Base(('in', what), n, lambda i: node_at(E, e(i))))]))


def node_at(E, t):
    E.fact_once(z3.Not(fresh_p(t)))
    return Obj(t, 'Node', False)


def per_node(E, name, key=()):
    """contract of an axis: what it gives for a node"""
    def c(E, f, args, kw):
        b = list(E.bind(f, args, kw).values())
        return axis(E, name, b[0], b[1:])
    E.contracts[P + '.' + name] = c


def axis(E, name, x, more):
    k = []
    for m in more:
        k.append(tuple(KTerm(E.term(v)) for v in elems(E, m)) if isinstance(m, Obj) else KTerm(E.term(m)))
    t = E.term(x)
    ts = [t] + [E.term(v) for m in more for v in (elems(E, m) if isinstance(m, Obj) else [m])]
    u = [U] * len(ts)
    what = '%s/%d' % (name, len(ts))
    n = uf('n:' + what, *u, I)(*ts)
    E.fact_once(n >= 0)
    return E.newlist(Seq([whole(Base((name,) + tuple(KTerm(x) for x in ts), n, lambda i: node_at(E, uf(what, *u, I, U)(*ts, i))))]))


def elems(E, o):
    ps = E.content(o).parts
    if not all(isinstance(p, Lit) for p in ps):
        if len(ps) == 1 and is_tokens(ps[0]):
            return [SU(lit('all tokens'), 'str')]
        raise Unsupported('arguments of an axis')
    return [p.v for p in ps]


KEYWORDS = ('text', 'value', 'referent', 'referrer')


def step_kinds(E):
    name = sym_str(E, 'name')
    for k in ('(', '//', '@', '..', '.', '/', '[', ']', ')', '|', '=', '!=', ',') + KEYWORDS:
        E.fact_once(name.t != lit(k))
    f = lambda n, *more: lambda E, x: axis(E, n, x, more)
    return {'child': ([Lit(name)], f('_find_child', name)),
            'keyword as a name': ([Lit('text')], f('_find_child', 'text')),
            'descendant': ([Lit('//'), Lit(name)], f('_find_descendant_or_self', name)),
            'attribute': ([Lit('@'), Lit(name)], f('_find_attr', name)),
            'function': ([Lit('value'), Lit('('), Lit(')')], lambda E, x: axis(E, '_function', x, ['value', E.newlist(Seq())])),
            'function with arguments': ([Lit('referent'), Lit('('), inner(E, (')',)), Lit(')')], lambda E, x: axis(
                E, '_function', x, ['referent', E.newlist(Seq([tokens_from(z3.IntVal(0), NTOK)]))])),
            'self': ([Lit('.')], None), 'parent': ([Lit('..')], 'parent'), 'group': ([Lit('('), Lit('GROUP')], 'group')}


KINDSOF = ('child', 'keyword as a name', 'descendant', 'attribute', 'function', 'function with arguments', 'self', 'parent', 'group')
TAILS = {'end': [], 'another step': ['/', 'x'], 'below': ['//', 'x'], 'end of a group': [')', 'x'], 'alternative': ['|', 'x'],
         'end of a predicate': [']', 'x'], 'comparison': ['=', 'x']}


def machinery(E, objs, label):
    E.obj_attr['Node'] = lambda E, o, n: (Obj(uf('fld:_parent', U, U)(o.t), 'Node?', False),) if n == '_parent' else None
    for n in ('_find_child', '_find_descendant_or_self', '_find_attr', '_function'):
        per_node(E, n)

    def c_group(E, f, args, kw):
        o, steps = E.bind(f, args, kw).values()
        prove_same(E, E.newlist(lib.iterate(E, o)), objs, label + ': the group applies to all nodes')
        E.prove(same(E, lib.list_method(E, steps, 'popleft', [], {}), 'GROUP'), label + ': the group is read')
        return nodes(E, 'group')
    E.contracts[P + '._disjunction'] = c_group


def basis(E, objs, how):
    if how is None:
        return objs
    if how == 'group':
        return nodes(E, 'group')
    if how == 'parent':
        return run(E, spec(E, 'parents'), objs)
    return run(E, spec(E, 'flat'), objs, Native(lambda E, a, k: how(E, a[0]), 'axis'))


def h_step(kind, tail):
    def h(E):
        label = 'step'
        objs = nodes(E)
        head, how = step_kinds(E)[kind]
        more = TAILS[tail]
        steps = E.newlist(Seq(head + [Lit(t) for t in more]), 'deque')
        machinery(E, objs, label)
        E.loop_rules[P + '._step'] = consuming
        want = basis(E, objs, how)
        depth = []

        def c_step(E, f, args, kw):
            if not depth:
                depth.append(1)
                return NotImplemented
            o, s = E.bind(f, args, kw).values()
            prove_same(E, E.newlist(lib.iterate(E, o)), want, label + ': the next step starts from what is selected')
            t = more[1:] if more[0] == '/' else more
            prove_same(E, E.newlist(E.content(s)), E.newlist(Seq([Lit(x) for x in t])), label + ': the next step is read')
            E.prove(s is steps or same(E, s, steps), label + ': the steps are shared')
            E.set_content(s, Seq([Lit('REST')]))
            return nodes(E, 'next')
        E.contracts[P + '._step'] = c_step
        got = drained(E, label, lambda: run(E, real(E, '_step'), objs, steps))
        if more and more[0] in ('/', '//'):
            want, left = nodes(E, 'next'), ['REST']
        else:
            left = more
        prove_same(E, got, want, label + ': selects from every node, in order')
        prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq([Lit(x) for x in left])), label + ': reads what belongs to it')
    return h


HARNESSES += [('step %s, %s' % (k, t), guarded(h_step(k, t))) for k in KINDSOF for t in TAILS]


def h_no_step(E):
    objs = nodes(E)
    steps = E.newlist(Seq(), 'deque')
    prove_same(E, drained(E, 'step', lambda: run(E, real(E, '_step'), objs, steps)), objs, 'no step: selects the nodes themselves')


# predicates, any number of them

NPRED = z3.Int('in:npredicates')
HOLDS = uf('holds', I, U, B)          # the k-th predicate, of a node


def preds_from(k, hi):
    v = fresh_var('z')
    return FM(Base(('predicates',), NPRED, lambda i: '['), k, hi, v, [Leaf((), (), (Lit('['),))])


def kept(E, k):
    """what is left after k predicates: opaque"""
    n = uf('n:kept', I, I)(k)
    E.fact_once(n >= 0)
    return E.newlist(Seq([whole(Base(('kept', KTerm(k)), n, lambda i: node_at(E, uf('kept', I, I, U)(k, i))))]))


def one_by_one(objs, label):
    """loop over predicates: at its head k of them have been applied"""
    def rule(E, st, env, it):
        lists = {n: v for n, v in env.vars.items() if isinstance(v, Obj) and v.cls == 'deque'}
        src = [v for v in lists.values() if E.content(v).parts and isinstance(E.content(v).parts[0], FM)
               and E.content(v).parts[0].base.key == ('predicates',)]
        if not isinstance(st, ast.While) or not src:
            return False
        src, = src
        tail = tuple(E.content(src).parts[1:])
        carried = [n for n in stored(st.body) if n in env.vars]
        if len(carried) != 1 or same(E, env.vars[carried[0]], src):
            raise Unsupported('more than the nodes is changed by the loop over predicates')
        res, = carried
        prove_same(E, E.newlist(lib.iterate(E, env.vars[res])), objs, label + ': predicates apply to what the axis selects')
        k = E.fresh(I, 'k')
        E.assume(z3.And(0 <= k, k <= NPRED))
        E.set_content(src, Seq((preds_from(k, NPRED),) + tail))
        E.pred_at = k
        env.vars[res] = kept(E, k)
        if not E.decide(E.truth(E.ev(st.test, env))):
            E.prove(k == NPRED, label + ': every predicate applies')
            E.set_content(src, Seq(tail))
            env.vars[res] = kept(E, NPRED)
            return True
        E.exec_block(st.body, env)
        E.prove(k < NPRED, label + ': every predicate applies')
        for n in stored(st.body) - {res}:     # what is evaluated later sees later values
            env.vars[n] = Native(lambda E, a, kw: SBool(uf('another', U, B)(E.term(a[0]))), 'later')
        prove_same(E, E.newlist(lib.iterate(E, env.vars[res])), run(E, spec(E, 'kept'), kept(E, k), Native(
            lambda E, a, kw: SBool(HOLDS(k, E.term(a[0]))), 'holds')), label + ': a predicate keeps the nodes it holds for')
        prove_same(E, E.newlist(E.content(src)), E.newlist(Seq((preds_from(k + 1, NPRED),) + tail)), label + ': one predicate is read')
        raise Done()
    return rule


def h_predicates(tail):
    def h(E):
        label = 'predicates'
        objs = nodes(E)
        name = step_kinds(E)['child'][0][0]
        more = [Lit(t) for t in TAILS[tail]]
        E.assume(NPRED >= 1)
        steps = E.newlist(Seq([name, preds_from(z3.IntVal(0), NPRED)] + more), 'deque')
        machinery(E, objs, label)
        base = run(E, spec(E, 'flat'), objs, Native(lambda E, a, k: axis(E, '_find_child', a[0], [name.v]), 'axis'))
        E.loop_rules[P + '._step'] = one_by_one(base, label)

        def c_pred(E, f, args, kw):
            s, = E.bind(f, args, kw).values()
            E.prove(same(E, lib.list_method(E, s, 'popleft', [], {}), '['), label + ': a predicate is read')
            k = getattr(E, 'pred_at', z3.IntVal(0))
            return Native(lambda E, a, kw: SBool(HOLDS(k, E.term(a[0]))), 'predicate')
        E.contracts[P + '._make_predicate_test'] = c_pred
        depth = []
        want = kept(E, NPRED)

        def c_step(E, f, args, kw):
            if not depth:
                depth.append(1)
                return NotImplemented
            o, s = E.bind(f, args, kw).values()
            prove_same(E, E.newlist(lib.iterate(E, o)), want, label + ': the next step starts from what is kept')
            E.set_content(s, Seq([Lit('REST')]))
            return nodes(E, 'next')
        E.contracts[P + '._step'] = c_step
        got = drained(E, label, lambda: run(E, real(E, '_step'), objs, steps))
        if tail in ('another step', 'below'):
            want, more = nodes(E, 'next'), [Lit('REST')]
        prove_same(E, got, want, label + ': what all of them hold for')
        prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq(more)), label + ': the steps go on after them')
    return h


HARNESSES += [('no step', guarded(h_no_step))] + [('predicates, ' + t, guarded(h_predicates(t))) for t in TAILS]


# ---- where a path starts, groups ----------------------------------------------------------------

def h_expr(first):
    def h(E):
        label = 'expression'
        x = node_at(E, z3.Const('in:x', U))
        corpus = node_at(E, z3.Const('in:corpus', U))
        objs = E.newlist(Seq([Lit(x)]))
        steps = E.newlist(Seq([Lit(first), Lit('a'), Lit('b')]), 'deque')

        def c_corpus(E, f, args, kw):
            E.prove(same(E, args[0], x), label + ': starts at the corpus of the node')
            return corpus

        def c_step(E, f, args, kw):
            o, s = E.bind(f, args, kw).values()
            start = corpus if first in ('/', '//') else x
            prove_same(E, E.newlist(lib.iterate(E, o)), E.newlist(Seq([Lit(start)])), label + ': starts at the corpus or at the node')
            prove_same(E, E.newlist(E.content(s)), E.newlist(Seq([Lit(t) for t in ([] if first == '/' else [first]) + ['a', 'b']])),
                       label + ': all steps are taken')
            E.prove(same(E, s, steps), label + ': the steps are shared')
            E.set_content(s, Seq([Lit('REST')]))
            return nodes(E, 'next')
        E.contracts[P + '._get_corpus'] = c_corpus
        E.contracts[P + '._step'] = c_step
        got = drained(E, label, lambda: run(E, real(E, '_expr'), objs, steps))
        prove_same(E, got, nodes(E, 'next'), label + ': selects what the steps select')
        prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq([Lit('REST')])), label + ': the steps that are left')
    return h


def h_corpus(E):
    """the corpus an object belongs to"""
    label = 'the corpus of a node'
    root = uf('root', U, U)
    cls = ALL[sum(2 ** k * E.choose('class %d' % k) for k in range(3)) % len(ALL)]
    x = node(E, cls)

    def up(E, o):
        """an object belongs to the same corpus as what it is part of"""
        if o.cls.name == 'XigtCorpus':
            E.fact_once(root(o.t) == o.t)
        else:
            p = fld('_parent', o.t)
            E.fact_once(p != NONE)
            E.fact_once(root(o.t) == root(p))
            E.fact_once(z3.Not(fresh_p(p)))

    def rule(E, st, env, it):
        if not isinstance(st, ast.While):
            return False
        names = [n for n in stored(st.body) if n in env.vars]
        if len(names) != 1:
            raise Unsupported('loop up to the corpus')
        n, = names
        E.prove(root(E.term(env.vars[n])) == root(x.t), label + ': goes up')
        c = ALL[sum(2 ** k * E.choose('now %d' % k) for k in range(3)) % len(ALL)]
        y = given(E, 'y:' + c, c)
        up(E, y)
        E.assume(root(y.t) == root(x.t))
        env.vars[n] = y
        if not E.decide(E.truth(E.ev(st.test, env))):
            return True
        E.exec_block(st.body, env)
        E.prove(root(E.term(env.vars[n])) == root(x.t), label + ': goes up')
        raise Done()
    E.loop_rules[P + '._get_corpus'] = rule
    up(E, x)
    k, v = outcome(E, lambda: run(E, real(E, '_get_corpus'), x))
    if k != 'return':
        E.fail(label + ': does not fail', repr(v))
        raise Done()
    E.prove(isinstance(v, Obj) and isinstance(v.cls, UserClass) and v.cls.name == 'XigtCorpus', label + ': is a corpus')
    E.prove(E.term(v) == root(x.t), label + ': the one it belongs to')


HARNESSES += [('expression ' + f, guarded(h_expr(f))) for f in ('/', '//', 'x')] + [('corpus', guarded(h_corpus))]


NALT = z3.Int('in:nalternatives')


def alts_from(k):
    """the alternatives from the k-th on, each with what follows it"""
    v = fresh_var('z')
    return FM(Base(('alternatives',), NALT, lambda i: SU(uf('alternative', I, U)(i), 'str')), k, NALT, v,
              [Leaf((), (), (Lit(SU(uf('alternative', I, U)(v), 'str')),))])


def alternatives_at(E, k):
    """the k-th, what follows it, and the others"""
    last = E.decide(k == NALT - 1)
    return [Lit(SU(uf('alternative', I, U)(k), 'str'))] + ([Lit(')')] if last else [Lit('|'), alts_from(k + 1)])


def selected(E, x, k):
    t = E.term(x)
    n = uf('n:alt', U, I, I)(t, k)
    E.fact_once(n >= 0)
    return whole(Base(('alternative', KTerm(t), KTerm(k)), n, lambda i: node_at(E, uf('alt', U, I, I, U)(t, k, i))))


def by_alternatives(E, x, hi):
    """what the first alternatives select from x"""
    v = fresh_var('z')
    return FM(Base(('range alternatives',), NALT, lambda i: SInt(i)), z3.IntVal(0), hi, v, [Leaf((), (), (selected(E, x, v),))])


def by_nodes(E, objs, hi):
    o, = E.content(objs).parts
    v = fresh_var('z')
    return FM(o.base, z3.IntVal(0), hi, v, [Leaf((), (), (by_alternatives(E, lib.fm_at(E, o, v), NALT),))])


def h_group(E):
    """(a | b | ...): every alternative from every node, in order; afterwards the steps go on after it"""
    label = 'group'
    objs = nodes(E)
    o, = E.content(objs).parts
    E.assume(z3.And(NALT >= 1, o.hi >= 1))
    rest = [Lit(sym_str(E, 'rest%d' % k)) for k in range(2)]
    full = lambda: Seq(alternatives_at(E, z3.IntVal(0)) + rest)
    steps = E.newlist(full(), 'deque')
    cur = {}

    def c_expr(E, f, args, kw):
        ob, s = E.bind(f, args, kw).values()
        k = cur['k']
        prove_same(E, E.newlist(lib.iterate(E, ob)), E.newlist(Seq([Lit(cur['x'])])), label + ': an alternative starts at one node')
        t = lib.list_method(E, s, 'popleft', [], {})
        E.prove(isinstance(t, SU) and E.term(t) == uf('alternative', I, U)(k), label + ': the alternatives in order')
        return E.newlist(Seq([selected(E, cur['x'], k)]))
    E.contracts[P + '._expr'] = c_expr

    def lists(env, cls):
        out = []
        for n, v in env.vars.items():
            if isinstance(v, Obj) and v.cls == cls and not any(v.t.eq(w.t) for _, w in out):
                out.append((n, v))
        return out

    def alternatives(E, st, env, it):
        """at the head: k alternatives have been read and followed"""
        if not isinstance(st, ast.While) or 'x' not in cur:
            return False
        used = [env.vars[x.id] for s in st.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in env.vars]
        used = [v for v in used if isinstance(v, Obj)]
        src = [v for _, v in lists(env, 'deque') if any(w.t.eq(v.t) for w in used)]
        acc = [v for _, v in lists(env, 'list') if not v.t.eq(objs.t) and any(w.t.eq(v.t) for w in used)]
        if len(src) != 1 or len(acc) != 1:
            raise Unsupported('loop over alternatives')
        (src,), (acc,) = src, acc
        prove_same(E, E.newlist(E.content(src)), E.newlist(full()), label + ': every node gets all alternatives')
        before = tuple(E.content(acc).parts)
        k = E.fresh(I, 'k')
        E.assume(z3.And(0 <= k, k < NALT))
        E.set_content(src, Seq(alternatives_at(E, k) + rest))
        E.set_content(acc, Seq(before + (by_alternatives(E, cur['x'], k),)))
        cur['k'] = k
        ended = False
        try:
            if not E.decide(E.truth(E.ev(st.test, env))):
                ended = True
            else:
                E.exec_block(st.body, env)
        except Cont:
            pass
        except Brk:
            ended = True
        if ended:
            E.prove(k == NALT - 1, label + ': ends with the last alternative')
            prove_same(E, E.newlist(E.content(src)), E.newlist(Seq(rest)), label + ': all alternatives are read')
            prove_same(E, E.newlist(E.content(acc)), E.newlist(Seq(before + (by_alternatives(E, cur['x'], k), selected(E, cur['x'], k)))),
                       label + ': what the alternatives select, in order')
            E.set_content(src, Seq(rest))
            E.set_content(acc, Seq(before + (by_alternatives(E, cur['x'], NALT),)))
            return True
        E.prove(k < NALT - 1, label + ': ends with the last alternative')
        prove_same(E, E.newlist(E.content(src)), E.newlist(Seq([alts_from(k + 1)] + rest)), label + ': an alternative is read')
        prove_same(E, E.newlist(E.content(acc)), E.newlist(Seq(before + (by_alternatives(E, cur['x'], k), selected(E, cur['x'], k)))),
                   label + ': what the alternatives select, in order')
        raise Done()

    def over_nodes(E, st, env, it):
        """at the head: i nodes are done; the given steps have been read by the first"""
        if not isinstance(st, ast.For):
            return alternatives(E, st, env, it)
        seq = lib.iterate(E, it)
        prove_same(E, E.newlist(seq), objs, label + ': for every node')
        acc = [v for n, v in lists(env, 'list') if not E.content(v).parts]
        more = [(n, v) for n, v in env.vars.items() if isinstance(v, Obj) and v.cls == 'deque' and not v.t.eq(steps.t)]
        for n, v in more:
            prove_same(E, E.newlist(E.content(v)), E.newlist(full()), label + ': the steps are kept for the next node')
        if len(acc) != 1:
            raise Unsupported('loop over nodes')
        acc, = acc
        changed = [n for n in stored(st.body) if n in env.vars]
        first = E.choose('first node')
        i = z3.IntVal(0) if first else E.fresh(I, 'i')
        E.assume(z3.And(0 <= i, i < o.hi) if first else z3.And(1 <= i, i <= o.hi))
        if not first:
            E.set_content(steps, Seq(rest))
            for n in changed:
                if not (isinstance(env.vars[n], Obj) and env.vars[n].cls == 'deque'):
                    raise Unsupported('%s is carried from node to node' % n)
                env.vars[n] = E.newlist(full(), 'deque')
        E.set_content(acc, Seq([by_nodes(E, objs, i)]))
        if not first and E.choose('all nodes are done'):
            E.assume(i == o.hi)
            E.set_content(acc, Seq([by_nodes(E, objs, o.hi)]))
            return True
        E.assume(i < o.hi)
        cur['x'] = lib.fm_at(E, o, i)
        E.assign(st.target, cur['x'], env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq(rest)), label + ': the group is read')
        for n in changed:
            v = env.vars[n]
            ok = isinstance(v, Obj) and v.cls == 'deque' and v.fresh
            E.prove(ok and not v.t.eq(steps.t) and not any(v.t.eq(w.t) for _, w in more), label + ': the next node has steps of its own')
            if ok:
                prove_same(E, E.newlist(E.content(v)), E.newlist(full()), label + ': the next node has all the steps')
        if not changed and not more:
            raise Unsupported('the alternatives are read for one node only')
        prove_same(E, E.newlist(E.content(acc)), E.newlist(Seq([by_nodes(E, objs, i), by_alternatives(E, cur['x'], NALT)])),
                   label + ': what is selected from the nodes, in order')
        raise Done()
    E.loop_rules[P + '._disjunction'] = over_nodes
    got = drained(E, label, lambda: run(E, real(E, '_disjunction'), objs, steps))
    prove_same(E, got, E.newlist(lib.drain(E, E.newlist(Seq([by_nodes(E, objs, o.hi)])))), label + ': every alternative from every node')
    prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq(rest)), label + ': the steps go on after it')


HARNESSES += [('group', guarded(h_group))]


def depth(i):
    """how many groups are open after i tokens"""
    return uf('depth', I, I)(i)


def h_group_empty(E):
    """from no nodes a group selects nothing; the steps go on after it"""
    label = 'group, no nodes'
    E.assume(NTOK >= 1)
    rest = [Lit(sym_str(E, 'rest%d' % k)) for k in range(2)]
    objs = E.newlist(Seq())
    steps = E.newlist(Seq([tokens_from(z3.IntVal(0), NTOK)] + rest), 'deque')
    E.fact_once(z3.And(depth(z3.IntVal(0)) == 1, depth(NTOK) == 0))

    def rule(E, st, env, it):
        if not isinstance(st, ast.While):
            return False
        tested = [x.id for x in ast.walk(st.test) if isinstance(x, ast.Name) and isinstance(env.vars.get(x.id), (int, SInt))]
        if len(tested) != 1:
            raise Unsupported('loop to the end of a group')
        n, = tested
        if [m for m in stored(st.body) if m in env.vars] != [n]:
            raise Unsupported('loop to the end of a group')
        E.prove(E.int_term(env.vars[n]) == 1, label + ': one group is open')
        i = E.fresh(I, 'i')
        E.assume(z3.And(0 <= i, i <= NTOK))
        E.fact_once(z3.Implies(i < NTOK, z3.And(depth(i) > 0, kindf(token(i)) == 3, depth(i + 1) == depth(i) + z3.If(
            token(i) == lit('('), 1, z3.If(token(i) == lit(')'), -1, 0)))))
        E.set_content(steps, Seq([tokens_from(i, NTOK)] + rest))
        env.vars[n] = SInt(depth(i))
        if not E.decide(E.truth(E.ev(st.test, env))):
            E.prove(i == NTOK, label + ': ends where the group is closed')
            E.set_content(steps, Seq(rest))
            return True
        E.prove(i < NTOK, label + ': ends where the group is closed')
        E.exec_block(st.body, env)
        E.prove(E.int_term(env.vars[n]) == depth(i + 1), label + ': how many groups are open')
        prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq([tokens_from(i + 1, NTOK)] + rest)), label + ': a token is read')
        raise Done()
    E.loop_rules[P + '._disjunction'] = rule
    got = drained(E, label, lambda: run(E, real(E, '_disjunction'), objs, steps))
    prove_same(E, got, E.newlist(Seq()), label + ': nothing')
    prove_same(E, E.newlist(E.content(steps)), E.newlist(Seq(rest)), label + ': the steps go on after it')


HARNESSES += [('group, no nodes', guarded(h_group_empty))]


# ---- a path -------------------------------------------------------------------------------------

def h_path(name):
    def h(E):
        label = name
        x = node_at(E, z3.Const('in:x', U))
        path = sym_str(E, 'path')
        toks = E.newlist(Seq([tokens_from(z3.IntVal(0), NTOK)]))
        E.assume(NTOK >= 0)

        def c_tokenize(E, f, args, kw):
            p, = E.bind(f, args, kw).values()
            E.prove(same(E, p, path), label + ': of the given path')
            return E.newlist(E.content(toks))

        def c_expr(E, f, args, kw):
            o, s = E.bind(f, args, kw).values()
            prove_same(E, E.newlist(lib.iterate(E, o)), E.newlist(Seq([Lit(x)])), label + ': starts at the object')
            prove_same(E, E.newlist(E.content(s)), toks, label + ': all steps are taken')
            E.prove(isinstance(s, Obj) and s.cls == 'deque', label + ': a queue of steps')
            E.set_content(s, Seq())
            return nodes(E, 'found')
        E.contracts[P + '.tokenize'] = c_tokenize
        E.contracts[P + '._expr'] = c_expr

        def call():
            v = run(E, real(E, name), x, path)
            return v if name == 'find' else E.newlist(lib.drain(E, v))
        if E.decide(E.truth(lib.str_method(E, path, 'endswith', ['/'], {}))):
            k, v = outcome(E, call)
            E.prove(k == 'raise' and v.cls.name == 'XigtPathError', label + ': a path does not end with a slash')
            raise Done()
        k, v = outcome(E, call)
        if k != 'return':
            E.fail(label + ': does not fail', repr(v))
            raise Done()
        none = E.decide(NTOK == 0)
        if name == 'find':
            if none or E.decide(z3.Int('in:nfound') == 0):
                E.prove(v is None or same(E, v, None), label + ': None if there is nothing')
            else:
                E.prove(same(E, v, node_at(E, uf('in:found', I, U)(z3.IntVal(0)))), label + ': the first')
        else:
            if name == 'findall':
                E.prove(isinstance(E.call(real(E, name), [x, path], {}), Obj), label + ': a list')
            prove_same(E, v, E.newlist(Seq()) if none else nodes(E, 'found'), label + ': what the steps select')
    return h


HARNESSES += [(n, guarded(h_path(n))) for n in ('iterfind', 'findall', 'find')]


# ---- tokens --------------------------------------------------------------------------------------

_cs = rx.cset
SPACE, QUOTE, BSL, NL, SLASH, DOT, BANG, EQ, STAR, COLON = map(_cs, (r'\s', '"', r'\\', r'\n', '/', r'\.', '!', '=', r'\*', ':'))
NAMECH = ~_cs(r'[./\[\]!=|()",@]') & ~SPACE & ~STAR & ~COLON
_n, _B = frozenset(), frozenset({'B'})


def pathspec():
    """path strings and where their tokens begin: the separators, '//' and '..' and '!=' whole, a
    quoted literal whole, a name (no white space; '*' alone or after 'prefix:')"""
    ops = [_cs(c) for c in (r'\[', r'\]', r'\(', r'\)', r'\|', ',', '@')]

    def then(name=True, slash=True, dot=True):
        ts = [(m, 'op', _n, _B) for m in ops] + [(EQ, 'op', _n, _B), (BANG, '!', _n, _B), (QUOTE, 'str', _n, _B)]
        if name:
            ts += [(NAMECH, 'name', _n, _B), (STAR, 'nm-', _n, _B)]
        return ts + ([(SLASH, '/', _n, _B)] if slash else []) + ([(DOT, '.', _n, _B)] if dot else [])
    T = {0: then() + [(SPACE, 0, _n, _n)],
         'op': then() + [(SPACE, 'op', _n, _n)],
         '!': [(EQ, 'op', _n, _n)],
         'name': then(name=False) + [(NAMECH, 'name', _n, _n), (COLON, 'colon', _n, _n), (SPACE, 'nm-', _n, _n)],
         'colon': [(NAMECH, 'name', _n, _n), (STAR, 'nm-', _n, _n)],
         'nm-': then(name=False) + [(SPACE, 'nm-', _n, _n)],
         '/': then(slash=False) + [(SLASH, '//', _n, _n), (SPACE, '//', _n, _n)],
         '//': then(slash=False) + [(SPACE, '//', _n, _n)],
         '.': then(dot=False) + [(DOT, '..', _n, _n), (SPACE, '..', _n, _n)],
         '..': then(dot=False) + [(SPACE, '..', _n, _n)],
         'str': [(QUOTE, 'op', _n, _n), (BSL, 'esc', _n, _n), (~QUOTE & ~BSL, 'str', _n, _n)],
         'esc': [(~NL, 'str', _n, _n)]}
    return rx.Spec(0, T, {q: _n for q in (0, 'op', 'name', 'nm-', '/', '//', '.', '..')})


def escspec():
    """the inside of a quoted literal: group 1 an escape, group 2 the character escaped"""
    f = frozenset
    end = f({('e', 1), ('e', 2), 'end'})
    T = {0: [(BSL, 'esc', _n, f({('s', 1)})), (~BSL & ~QUOTE, 0, _n, _n)],
         'esc': [(~NL, 'x', _n, f({('s', 2)}))],
         'x': [(BSL, 'esc', end, f({('s', 1)})), (~BSL & ~QUOTE, 0, end, _n)]}
    return rx.Spec(0, T, {0: _n, 'x': end})


def h_tokenize(E):
    label = 'tokenize'
    path = sym_str(E, 'path')
    n = z3.Int('in:nmatches')
    E.fact_once(n >= 0)
    found = lambda: E.newlist(Seq([whole(Base(('matches',), n, lambda i: sstr(E, uf('matched', I, U)(i))))]))

    def sstr(E, t):
        E.fact_once(kindf(t) == 3)
        return SU(t, 'str')

    def c_found(E, r, args, kw, how):
        if len(args) != 1 or kw or not same(E, args[0], path):
            return NotImplemented
        try:
            ce = rx.pieces(regs.prog(r), PATHS, SPACE)
        except rx.RxUnsupported as ex:
            raise Unsupported('regular expression %r: %s' % (r.pattern, ex))
        if ce is not None:
            E.fail('the tokens of a path', 'of %r: %r' % (ce, re.compile(r.pattern, int(r.flags)).findall(ce)))
            raise Done()
        E.record('the tokens of a path', True, 'automata', '', 0.0)
        if how == 'finditer':
            raise Unsupported('finditer')
        return found()
    for how in ('findall', 'finditer'):
        E.regex_contract[how] = lambda E, r, a, k, how=how: c_found(E, r, a, k, how)
    got = drained(E, label, lambda: run(E, real(E, 'tokenize'), path))
    prove_same(E, got, run(E, spec(E, 'pieces'), found()), label + ': what is matched, without white space')


PATHS, ESCAPES = pathspec(), escspec()


def h_unquote(E):
    label = 'literal'
    if E.choose('quoted'):
        inner = sym_str(E, 'inner')
        t = SStr([Lit('"'), Lit(inner), Lit('"')])
        want = SU(uf('unescaped', U, U)(inner.t), 'str')
        E.fact_once(kindf(want.t) == 3)

        def c_sub(E, r, args, kw):
            a = dict(zip(('repl', 'string', 'count', 'flags'), args), **kw)
            if a.get('count', 0) != 0 or not set(a) <= {'repl', 'string', 'count', 'flags'} or not E.lib.isstr(a['string']):
                raise Unsupported('sub')
            flags = int(r.flags) | int(a.get('flags') or 0)
            E.prove(same(E, a['string'], inner), label + ': what is between the quotes')
            repl = a['repl']
            if isinstance(repl, str):
                try:
                    g = re.compile('(%s)' % r.pattern, flags).groups
                    ok = re._parser.parse_template(repl, re.compile(r.pattern, flags)) == ['', 1, '']
                except re.error:
                    raise Unsupported('template %r' % repl)
                E.prove(ok, label + ': an escape stands for its character')
            else:
                raise Unsupported('replacement')
            if g != 2:
                raise Unsupported('groups of %r' % r.pattern)
            try:
                ce = rx.tokens(rx.Prog('(%s)' % r.pattern, flags), ESCAPES, wholegroup=True)
            except rx.RxUnsupported as ex:
                raise Unsupported('regular expression %r: %s' % (r.pattern, ex))
            if ce is not None:
                E.fail(label + ': the escapes', 'of %r' % ce)
                raise Done()
            E.record(label + ': the escapes', True, 'automata', '', 0.0)
            return want
        E.regex_contract['sub'] = c_sub
    else:
        t = want = sym_str(E, 'token')
        E.assume(z3.Not(uf('startswith', U, U, B)(t.t, lit('"'))))
    k, v = outcome(E, lambda: run(E, real(E, '_unquote'), t))
    if k != 'return':
        E.fail(label + ': does not fail', repr(v))
        raise Done()
    prove_same(E, v, want, label + ': without quotes and escapes, other tokens as they are')


HARNESSES += [('tokenize', guarded(h_tokenize)), ('literal', guarded(h_unquote))]
