"""C01 (and C02, which selects the obligations labelled C02): every mutator of every
container class keeps the class invariant, does exactly what it should to the
sequence of members, and changes nothing when it refuses."""
from containers import *

TRUSTED = ['semantics of list, dict (CPython)', 'the id of a given object is a field read (xigt.mixins.XigtAttributeMixin.id, verified in C06)']


def SETUP(E):
    load(E)
    schema(E)
    E.eq_contract = eq_contract
    E.label_filter = lambda l: not l.startswith('C02')


def eq_contract(E, a, b):
    """== of model objects is a relation (C05 decides which); identity implies it"""
    if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.cls, UserClass) and isinstance(b.cls, UserClass):
        if a.t.eq(b.t):
            return True
        E.assumptions.add('== between model objects has no side effects and is reflexive (decided by C05)')
        E.fact_once(z3.Implies(a.t == b.t, objeq(a.t, b.t)))
        return objeq(a.t, b.t)
    return NotImplemented


class Ctx:
    pass


def setup(E, cls):
    X = Ctx()
    X.c = container(E, cls)
    X.old = E.content(X.c)
    X.oldd = E.dcontent(E.getfield(X.c, '_dict')[0])
    X.n = lib.seq_len(E, X.old).t
    X.cont = E.getfield(X.c, '_container')[0]
    E.loop_fallback = [loop_rules(E, X.c)]
    X.m = 'xigt.' + MEMBER[cls]
    return X


def new_arg(E, cls, name='x'):
    """an object given to an operation"""
    x = obj(E, name, MEMBER[cls])
    return x


def refused(E, X, exc, names, label, reason, x=None, parent0=None):
    E.prove(exc.cls.name in names, label + ': refused with ' + '/'.join(names))
    E.prove(reason, label + ': refused only for a reason')
    if x is not None:
        E.prove(lib.is_(E, E.getattr(x, '_parent'), parent0), 'C02 ' + label + ': a refused object keeps its parent')
    if E.choose('unchanged'):
        prove_unchanged(E, X.c, X.old, X.oldd, label + ' refused')
    raise Done()


def has_id(X, t):
    return dhas(X.oldd.base.t, t)


def op_add(name):
    def h(E, cls):
        X = setup(E, cls)
        x = new_arg(E, cls)
        p0 = E.getattr(x, '_parent')
        if name == 'insert':
            i = SInt(z3.Int('in:i'))
            _, exc = call(E, X.c, 'insert', i, x)
            spec = E.newlist(X.old)
            lib.list_method(E, spec, 'insert', [i, x], {})
            want = E.content(spec)
        else:
            _, exc = call(E, X.c, name, x)
            want = Seq(X.old.parts + (Lit(x),))
        ix = idf(x.t)
        if exc is not None:
            refused(E, X, exc, ['XigtError'], name, z3.And(ix != NONE, has_id(X, ix)), x, p0)
        E.prove(z3.Not(z3.And(ix != NONE, has_id(X, ix))), name + ': a duplicate id is refused')
        if E.choose('order'):
            E.prove(same(E, E.content(X.c), want), name + ': exactly the new member, at its place')
            raise Done()
        prove_agree(E, X.c, name)
    return h


def op_wrong(name):
    def h(E, cls):
        X = setup(E, cls)
        wrongs = [c for c in ALL if c != MEMBER[cls]]
        w = None
        for c in wrongs:
            if c is wrongs[-1] or E.choose('wrong type ' + c):
                w = c
                break
        x = obj(E, 'w', w)
        p0 = E.getattr(x, '_parent', 'none')
        args = [x]
        if name == 'insert':
            args = [SInt(z3.Int('in:i')), x]
        if name == '__setitem__':
            i = z3.Int('in:i')
            E.assume(z3.And(0 <= i, i < X.n))
            args = [SInt(i), x]
        if name in ('extend', '__iadd__'):
            args = [E.newlist(Seq([Lit(x)]))]
        _, exc = call(E, X.c, name, *args)
        if exc is None:
            E.fail('C02 ' + name + ': an object of another type is refused')
            raise Done()
        E.prove(exc.cls.name == 'XigtStructureError', 'C02 ' + name + ': refused with XigtStructureError')
        if p0 != 'none':
            E.prove(same(E, E.getattr(x, '_parent', 'none'), p0), 'C02 ' + name + ': a refused object keeps its parent')
        prove_unchanged(E, X.c, X.old, X.oldd, name + ' of wrong type')
    return h


def op_setitem(key):
    def h(E, cls):
        X = setup(E, cls)
        x = new_arg(E, cls)
        p0 = E.getattr(x, '_parent')
        if key == 'int':
            t = z3.Int('in:i')
            k = SInt(t)
        else:
            k = SU(z3.Const('in:k', U), 'str')
            E.assume(kindf(k.t) == 3)
            E.assume(uf('isint', U, B)(k.t))
            t = uf('intval', U, I)(k.t)
        inr = z3.And(-X.n <= t, t < X.n)
        _, exc = call(E, X.c, '__setitem__', k, x)
        idx = z3.If(t < 0, t + X.n, t)
        ix = idf(x.t)
        dup = z3.And(ix != NONE, has_id(X, ix), gp(X.oldd.base.t)(ix) != idx)
        if exc is not None:
            if exc.cls.name == 'IndexError':
                refused(E, X, exc, ['IndexError'], 'item assignment', z3.Not(inr), x, p0)
            refused(E, X, exc, ['XigtError'], 'item assignment', z3.And(inr, dup), x, p0)
        E.prove(z3.And(inr, z3.Not(dup)), 'item assignment: accepted only at a position, without duplicating an id')
        if E.choose('order'):
            spec = E.newlist(X.old)
            lib.list_method(E, spec, '__setitem__', [SInt(t), x], {})
            E.prove(same(E, E.content(X.c), E.content(spec)), 'item assignment: replaces exactly the addressed member')
            raise Done()
        prove_agree(E, X.c, 'item assignment')
    return h


def op_pop(how):
    def h(E, cls):
        X = setup(E, cls)
        if how == 'pop':
            _, exc = call(E, X.c, 'pop')
            t = z3.IntVal(-1)
            res = _
        else:
            t = z3.Int('in:i')
            res, exc = call(E, X.c, how, SInt(t))
        inr = z3.And(-X.n <= t, t < X.n)
        if exc is not None:
            refused(E, X, exc, ['IndexError'], how, z3.Not(inr))
        E.prove(inr, how + ': only an existing position')
        removed(E, X, SInt(t), how, res if how != '__delitem__' else NotImplemented)
    return h


def removed(E, X, i, label, res=NotImplemented):
    spec = E.newlist(X.old)
    if E.choose('order'):
        y = lib.list_method(E, spec, 'pop', [i], {})
        E.prove(same(E, E.content(X.c), E.content(spec)), label + ': takes out exactly the addressed member, keeps the order')
        if res is not NotImplemented:
            E.prove(isinstance(res, Obj) and lib.is_(E, res, y), label + ': returns the member taken out')
        raise Done()
    if E.choose('gone'):
        y = lib.list_method(E, spec, 'pop', [i], {})
        iy = idof(E, y)
        if not E.decide(lib.lift(lib.is_(E, iy, None))):
            r = E.dict_find(E.dcontent(E.getfield(X.c, '_dict')[0]), iy)
            if r is None:
                E.prove(True, label + ': its id is not found any more')
            else:
                E.fail(label + ': its id is not found any more')
        raise Done()
    prove_agree(E, X.c, label)


def op_delkey(E, cls):
    """del c['id'] or c['3']"""
    X = setup(E, cls)
    k = SU(z3.Const('in:k', U), 'str')
    E.assume(kindf(k.t) == 3)
    isint, val = uf('isint', U, B)(k.t), uf('intval', U, I)(k.t)
    byid = has_id(X, k.t)
    ok = z3.Or(byid, z3.And(isint, -X.n <= val, val < X.n))
    _, exc = call(E, X.c, '__delitem__', k)
    if exc is not None:
        refused(E, X, exc, ['KeyError', 'IndexError'], 'del by key', z3.Not(ok))
    E.prove(ok, 'del by key: only a member')
    idx = SInt(z3.If(byid, gp(X.oldd.base.t)(k.t), val))
    removed(E, X, idx, 'del by key')


def op_remove(E, cls):
    X = setup(E, cls)
    x = new_arg(E, cls)
    j = z3.Int('j!')
    e = lambda i: at(X.c.t, i)
    ismember = z3.Exists([j], z3.And(0 <= j, j < X.n, e(j) == x.t))
    equal = z3.Exists([j], z3.And(0 <= j, j < X.n, objeq(e(j), x.t)))
    _, exc = call(E, X.c, 'remove', x)
    if exc is not None:
        refused(E, X, exc, ['ValueError'], 'remove', z3.Not(ismember))
    E.prove(z3.Or(ismember, equal), 'remove: only a member (or an equal one)')
    if E.choose('a member'):
        # the given object itself is a member: it is taken out (its first position)
        k = E.fresh(I, 'where')
        E.assume(z3.And(0 <= k, k < X.n, e(k) == x.t))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), e(j) != x.t), patterns=[e(j)]))
        if not E.possible():
            raise Infeasible()
        removed(E, X, SInt(k), 'remove of a member')
    E.assume(z3.Not(ismember))
    k = E.fresh(I, 'where')
    E.assume(z3.And(0 <= k, k < X.n, objeq(e(k), x.t)))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(objeq(e(j), x.t))), patterns=[e(j)]))
    if not E.possible():
        raise Infeasible()
    removed(E, X, SInt(k), 'remove of an equal object')


def op_clear(E, cls):
    X = setup(E, cls)
    _, exc = call(E, X.c, 'clear')
    if exc is not None:
        E.fail('clear: never refused')
        raise Done()
    if E.choose('order'):
        E.prove(same(E, E.content(X.c), Seq()), 'clear: no member is left')
        raise Done()
    prove_agree(E, X.c, 'clear')


def given_list(E, cls, name='xs'):
    t = z3.Const('in:' + name, U)
    E.fact_once(z3.Not(fresh_p(t)))
    o = Obj(t, 'list', False, 'obj:xigt.' + MEMBER[cls])
    j = z3.Int('j!')
    n = llen(t)
    E.assume(n >= 0)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(at(t, j) != NONE, kindf(at(t, j)) == 5,
                                                                   z3.Not(fresh_p(at(t, j))))), patterns=[at(t, j)]))
    return o


def op_many(name):
    """extend, +=, and the setters"""
    def h(E, cls):
        X = setup(E, cls)
        src = given_list(E, cls)
        if E.choose('extended by its own members') if name in ('extend', '__iadd__') else False:
            src = X.c
            if cls == 'model.XigtCorpus':     # other modes load while iterating: C14
                E.assume(E.term(E.getattr(X.c, 'mode')) == E.term(E.module('xigt.consts').env.vars['FULL']))
        xs = E.content(src)
        if name in ('extend', '__iadd__'):
            r, exc = call(E, X.c, name, src)
            want = Seq(X.old.parts + xs.parts)
            if exc is None and name == '__iadd__':
                E.prove(isinstance(r, Obj) and lib.is_(E, r, X.c), '+=: gives the container itself')
        else:
            try:
                E.setattr(X.c, name, src)
                exc = None
            except PyRaise as r:
                exc = r.exc
            want = xs
        if exc is not None:
            E.prove(exc.cls.name == 'XigtError', name + ': refused with XigtError')
            prove_agree(E, X.c, name + ' refused')
        if E.choose('order'):
            E.prove(same(E, E.content(X.c), want), name + ': the members in the given order')
            raise Done()
        prove_agree(E, X.c, name)
    return h


def op_setmd(E, cls):
    """assigning a list of metadata to a corpus, igt or tier"""
    o = obj(E, 'o', cls)
    md = E.getfield(o, '_md')[0]
    c = container(E, 'mixins.XigtContainerMixin')
    E.assume(md.t == c.t)
    E.assume(uf('owner', U, U)(c.t) == o.t)
    E.loop_fallback = [loop_rules(E, E.getfield(o, '_md')[0])]
    src = given_list(E, 'mixins.XigtContainerMixin')
    if E.choose('its own metadata'):
        src = md
    xs = E.content(src)
    try:
        E.setattr(o, 'metadata', src)
        exc = None
    except PyRaise as r:
        exc = r.exc
    m = E.getfield(o, '_md')[0]
    if exc is not None:
        E.prove(exc.cls.name == 'XigtError', 'metadata: refused with XigtError')
        prove_agree(E, m, 'metadata refused')
    if E.choose('order'):
        E.prove(same(E, E.content(m), xs), 'metadata: the metadata in the given order')
        raise Done()
    if E.choose('owner'):
        E.prove(lib.is_(E, E.getfield(m, '_container')[0], o), 'C02 metadata belongs to the object carrying it')
        raise Done()
    prove_agree(E, m, 'metadata')


KW = {'model.XigtCorpus': 'igts', 'model.Igt': 'tiers', 'model.Tier': 'items', 'metadata.Metadata': 'metas',
      'metadata.Meta': 'children', 'metadata.MetaChild': 'children'}


def op_init(E, cls):
    src = given_list(E, cls)
    xs = E.content(src)
    C = E.cls('xigt.' + cls)
    args = []
    if cls == 'metadata.MetaChild':
        args = [SU(z3.Const('in:name', U), 'str')]
    made = []

    def rule(E, st, env, it, body):
        o = env.vars.get('self')
        if not (isinstance(o, Obj) and o.cls is C):
            return False
        return loop_rules(E, o)(E, st, env, it, body)
    E.loop_fallback = [rule]
    # the indices over items of an Igt are C09's concern
    E.contracts['xigt.model.Igt.refresh_indices'] = lambda E, f, a, k: None
    try:
        c = E.call(C, args, {KW[cls]: src})
        exc = None
    except PyRaise as r:
        exc = r.exc
    if exc is not None:
        E.prove(exc.cls.name in ('XigtError', 'ValueError'), 'construction: refused with XigtError (duplicate ids)')
        raise Done()
    if E.choose('order'):
        E.prove(same(E, E.content(c), xs), 'construction: the members in the given order')
        raise Done()
    if E.choose('what it accepts'):
        t, own = E.getfield(c, '_contained_type'), E.getfield(c, '_container')
        if t is None or own is None:
            raise Unsupported('containers without _contained_type and _container')
        E.prove(t[0] is E.cls('xigt.' + MEMBER[cls]), 'C02 construction: only members of the permitted type are accepted')
        E.prove(lib.is_(E, own[0], c), 'C02 construction: the container of its members is the object itself')
        raise Done()
    prove_agree(E, c, 'construction')


def op_emptymd(E, cls):
    """a new object has empty metadata of its own"""
    C = E.cls('xigt.' + cls)
    if cls == 'model.Igt':
        E.contracts['xigt.model.Igt.refresh_indices'] = lambda E, f, a, k: None
    c = E.call(C, [], {})
    m = E.getattr(c, 'metadata')
    E.prove(same(E, E.content(m), Seq()), 'a new object has no metadata')
    E.prove(lib.is_(E, E.getfield(m, '_container')[0], c), 'C02 metadata belongs to the object carrying it')
    E.prove(E.getfield(m, '_contained_type')[0] is E.cls('xigt.metadata.Metadata'), 'C02 only metadata is accepted as metadata')
    if E.wants('C01'):
        prove_agree(E, m, 'new metadata')


def op_refresh(E, cls):
    """members may have changed their ids: afterwards the map describes them again"""
    c = obj(E, 'c', cls)
    if cls == 'mixins.XigtContainerMixin':
        own = E.getfield(c, '_container')[0]
        E.assume(z3.And(own.t != NONE, kindf(own.t) == 5, z3.Not(fresh_p(own.t))))
    old = E.content(c)
    n = lib.seq_len(E, old).t
    assume_elems(E, c, old.parts, E.getfield(c, '_container')[0].t)
    E.loop_fallback = [index_rule(E, c)]
    _, exc = call(E, c, 'refresh_index')
    j, k = z3.Ints('j! k!')
    e = lambda i: at(c.t, i)
    dup = z3.Exists([j, k], z3.And(0 <= j, j < k, k < n, idf(e(j)) != NONE, idf(e(j)) == idf(e(k))))
    if exc is not None:
        E.prove(exc.cls.name == 'XigtError', 'refresh: refused with XigtError')
        E.prove(dup, 'refresh: refused only if two members share an id')
        E.prove(same(E, E.content(c), old), 'refresh: members and order unchanged')
        raise Done()
    if E.choose('order'):
        E.prove(same(E, E.content(c), old), 'refresh: members and order unchanged')
        raise Done()
    prove_agree(E, c, 'refresh')


def op_refresh_igt(E, cls):
    """refreshing the indices of an IGT with tiers=True repairs the lookup of its tiers"""
    c = obj(E, 'c', cls)
    old = E.content(c)
    assume_elems(E, c, old.parts, E.getfield(c, '_container')[0].t)

    def refresh_index(E, f, a, k):
        # the contract proved by 'refresh': refused for two members with one id, else the lookup agrees
        o = a[0] if a else k['self']
        if not lib.is_(E, o, c):
            raise Unsupported('refreshing another container')
        if E.choose('two members share an id'):
            raise Infeasible()
        t = E.fresh(U, 'index')
        E.assume(z3.Not(fresh_p(t)))
        assume_agree(E, E.content(c).parts, t)
        D = E.getfield(c, '_dict')[0]
        E.set_dcontent(D, DVal(base=Obj(t, 'dict', False, E.schema[c.cls.qual, '_dict'].split(':', 1)[1])))
        return None
    E.contracts['xigt.mixins.XigtContainerMixin.refresh_index'] = refresh_index
    E.loop_fallback = [index_rule(E, c)]
    _, exc = call(E, c, 'refresh_indices', True, False, False, False)
    if exc is not None:
        E.fail('refresh_indices: does not fail', repr(exc))
        raise Done()
    if E.choose('order'):
        E.prove(same(E, E.content(c), old), 'refresh_indices: members and order unchanged')
        raise Done()
    prove_agree(E, c, 'refresh_indices(tiers=True)')


def index_rule(E, c):
    """cut of the indexing loop: the map describes the members seen so far"""
    def rule(E, st, env, it, body):
        if len(E.explorers) > 1:
            return False
        seq = lib.iterate(E, it)
        if len(seq.parts) != 1 or not isinstance(seq.parts[0], FM) or not seq.parts[0].identity:
            return False
        fm = seq.parts[0]
        D = E.getfield(c, '_dict')[0]
        if not E.choose('loop: an arbitrary iteration'):
            state(E, c, fm, fm.hi)
            poison(env, st)
            return True
        if E.choose('loop: invariant holds on entry'):
            d = E.dcontent(D)
            E.prove(d.base is None and not d.ops, 'refresh: starts with an empty map')
            raise Done()
        k = E.fresh(I, 'it')
        E.assume(z3.And(fm.lo <= k, k < fm.hi))
        if not E.possible():
            raise Infeasible()
        state(E, c, fm, k)
        poison(env, st)
        before = {f: len(v) for f, v in E.heap.items()}
        E.alloc_log = []
        body(lib.fm_at(E, fm, k))
        for f, ents in E.heap.items():
            for t, fr, v in ents[before.get(f, 0):]:
                if isinstance(t, str) or not (any(t.eq(a) for a in E.alloc_log) or f == '@dict' and t.eq(D.t)):
                    raise LoopCarried('loop writes %s' % f)
        # the invariant for k + 1 members
        E.set_content(c, Seq((FM(fm.base, fm.lo, z3.simplify(k + 1), fm.var, fm.leaves, True),)))
        prove_agree(E, c, 'refresh step')

    def state(E, c, fm, hi):
        D = E.getfield(c, '_dict')[0]
        t = E.fresh(U, 'index')
        E.assume(z3.Not(fresh_p(t)))
        assume_agree(E, (FM(fm.base, fm.lo, hi, fm.var, fm.leaves, True),), t)
        E.set_dcontent(D, DVal(base=Obj(t, 'dict', False, E.schema[c.cls.qual, '_dict'].split(':', 1)[1])))

    def poison(env, st):
        for s in [st.target] + st.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env.vars[n.id] = Poison('loop variable')
    return rule


SETTER = {'model.XigtCorpus': 'igts', 'model.Igt': 'tiers', 'model.Tier': 'items', 'metadata.Metadata': 'metas',
          'metadata.Meta': 'children', 'metadata.MetaChild': 'children'}


def for_class(cls):
    out = []

    def add(name, fn):
        out.append(('%s %s' % (cls.split('.')[1], name), guarded(lambda E, fn=fn: fn(E, cls))))
    for n in ('append', 'insert', 'add'):
        add(n, op_add(n))
    for n in ('append', 'insert', 'extend', '__iadd__', '__setitem__'):
        add('wrong type ' + n, op_wrong(n))
    add('setitem', op_setitem('int'))
    add('setitem by decimal', op_setitem('str'))
    for n in ('pop', 'pop(i)', 'del'):
        pass
    add('pop', op_pop('pop'))
    add('del', op_pop('__delitem__'))
    add('del by key', op_delkey)
    add('remove', op_remove)
    add('clear', op_clear)
    add('extend', op_many('extend'))
    add('iadd', op_many('__iadd__'))
    add('refresh', op_refresh)
    if cls == 'model.Igt':
        add('refresh indices', op_refresh_igt)
    if cls in SETTER:
        add('assign ' + SETTER[cls], op_many(SETTER[cls]))
        add('construct', op_init)
    if cls in ('model.XigtCorpus', 'model.Igt', 'model.Tier'):
        add('assign metadata', op_setmd)
        add('new metadata', op_emptymd)
    return out


HARNESSES = [h for cls in CLASSES for h in for_class(cls)]
