"""C03: [], get and select of every container class, for every container satisfying C01."""
from common import *
import containers
from containers import container, CLASSES, gp
import c01

TRUSTED = ['semantics of list, dict (CPython); int(str) (an uninterpreted partial function)']


def SETUP(E):
    load(E)
    schema(E)
    E.eq_contract = c01.eq_contract
    for c in ALL:
        for f in FIELDS:     # the given objects have the attributes of their class only
            if E.cls('xigt.' + c).lookup(f) is None:
                E.schema.setdefault(('xigt.' + c, f), 'absent')


def oldstate(E, c):
    d = E.dcontent(E.getfield(c, '_dict')[0])
    return E.content(c), d.base.t


def want_str(E, k, old, dt):
    """what c[k] gives for a string"""
    if E.decide(dhas(dt, k.t)):
        # the member whose id is k (C01: the map describes the members)
        g = gp(dt)(k.t)
        return 'return', lib.seq_index(E, old, SInt(g))
    if E.decide(uf('isint', U, B)(k.t)):
        return outcome(E, lambda: lib.seq_index(E, old, SInt(uf('intval', U, I)(k.t))))
    return 'raise', E.mkexc(BCls(KeyError), ())


def key(E):
    if E.choose('string key'):
        return sym_str(E, 'k')
    return SInt(z3.Int('in:i'))


def want(E, k, old, dt):
    if isinstance(k, SInt):
        return outcome(E, lambda: lib.seq_index(E, old, k))
    return want_str(E, k, old, dt)


def byid_is_member(E, k, old, dt):
    """C01 lemma used by the oracle: an id in the map is the id of the member at gp"""
    pass


def h_getitem(E, cls):
    c = container(E, cls)
    old, dt = oldstate(E, c)
    k = key(E)
    m = heap_mark(E)
    got = outcome(E, lambda: lib.getitem(E, c, k))
    prove_frame(E, m, 'c[k]')
    same_outcome(E, 'c[k] is the member with that id, else at that position', got, want(E, k, old, dt))


def h_slice(E, cls):
    c = container(E, cls)
    old, dt = oldstate(E, c)
    if E.choose('plain slice'):
        lo = SInt(z3.Int('in:lo')) if E.choose('lo') else None
        hi = SInt(z3.Int('in:hi')) if E.choose('hi') else None
        st = None
    else:
        lo, hi = SInt(z3.Int('in:lo')), SInt(z3.Int('in:hi'))
        st = SInt(z3.Int('in:step'))
        E.assume(st.t != 0)
    m = heap_mark(E)
    got = outcome(E, lambda: lib.getitem(E, c, lib.Slice(lo, hi, st)))
    prove_frame(E, m, 'c[slice]')
    exp = outcome(E, lambda: lib.seq_slice(E, old, lo, hi, st))
    if got[0] == 'return':
        E.prove(isinstance(got[1], Obj) and got[1].cls == 'list' and got[1].fresh, 'c[slice] gives a new list')
        got = 'return', E.content(got[1])
    same_outcome(E, 'c[slice] is the slice of the members', got, exp)


def h_get(E, cls):
    c = container(E, cls)
    old, dt = oldstate(E, c)
    k = key(E)
    dflt = SU(z3.Const('in:default', U), 'any') if E.choose('default given') else None
    m = heap_mark(E)
    args = [k] + ([dflt] if dflt is not None else [])
    got = outcome(E, lambda: method(E, c, 'get', *args))
    prove_frame(E, m, 'get')
    exp = want(E, k, old, dt)
    if exp[0] == 'raise':
        exp = 'return', dflt
    same_outcome(E, 'get gives the member or the default', got, exp)


FIELDS = ['id', 'type', 'text', 'name', 'namespace', 'alignment', 'nosuchattribute']


def nsmap_contract(E, f, args, kw):
    """C04: the namespace map in force"""
    if len(args) != 1:
        return NotImplemented
    return Obj(uf('nsmapof', U, U)(args[0].t), 'dict', False, 'optstr>str')


def h_select(fields):
    def h(E, cls):
        c = container(E, cls)
        if cls == 'model.XigtCorpus':     # other modes load while iterating: C14
            E.assume(E.term(E.getattr(c, 'mode')) == E.term(E.module('xigt.consts').env.vars['FULL']))
        old, dt = oldstate(E, c)
        E.contracts['xigt.mixins.XigtAttributeMixin.nsmap'] = nsmap_contract
        # criteria are strings or None, as the fields are
        crit = {f: SU(z3.Const('in:' + f, U), 'optstr') for f in fields}
        m = heap_mark(E)
        got = outcome(E, lambda: lib.drain(E, E.call(E.getattr(c, 'select'), [], dict(crit))))
        prove_frame(E, m, 'select')
        val = dict(crit)
        if 'namespace' in val:
            nm = nsmap_contract(E, None, [c], {})
            r = E.dict_find(E.dcontent(nm), val['namespace'])
            if r is not None:
                val['namespace'] = r[0]

        def spec():
            out = E.newlist(Seq())

            def body(x):
                for f in fields:
                    v = E.getattr(x, f, None)
                    if not E.decide(E.truth(lib.eq(E, v, val[f]))):
                        return
                lib.list_method(E, out, 'append', [x], {})
            E.run_parts(old.parts, body)
            return E.content(out)
        same_outcome(E, 'select gives exactly the matching members in order', got, outcome(E, spec))
    return h


SELECTS = [[], ['id'], ['type'], ['text'], ['name'], ['namespace'], ['alignment'], ['nosuchattribute'],
           ['id', 'type'], ['type', 'namespace'], ['namespace', 'text'], ['alignment', 'type', 'namespace'],
           ['name', 'text', 'namespace']]

HARNESSES = []
for cls in CLASSES:
    for n, fn in [('getitem', h_getitem), ('slice', h_slice), ('get', h_get)]:
        HARNESSES.append(('%s %s' % (cls.split('.')[1], n), guarded(lambda E, fn=fn, cls=cls: fn(E, cls))))
    if cls != 'mixins.XigtContainerMixin':
        for fs in SELECTS:
            HARNESSES.append(('%s select(%s)' % (cls.split('.')[1], ','.join(fs)),
                              guarded(lambda E, fs=fs, cls=cls: h_select(fs)(E, cls))))
