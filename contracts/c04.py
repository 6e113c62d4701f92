"""C04: get_attribute and nsmap of every model class; recursion to the parent by contract
(induction over the depth of nesting)."""
from common import *

TRUSTED = ['semantics of dict, str.startswith, str.split, % (CPython)',
           'a parent chain is finite (the induction over the depth of nesting is on it)']

PARENTS = [('model.Item', 'model.Tier'), ('model.Tier', 'model.Igt'), ('model.Igt', 'model.XigtCorpus'),
           ('model.XigtCorpus', None), ('metadata.Metadata', 'model.Tier'), ('metadata.Metadata', 'model.Igt'),
           ('metadata.Metadata', 'model.XigtCorpus'), ('metadata.Meta', 'metadata.Metadata'),
           ('metadata.MetaChild', 'metadata.Meta'), ('metadata.MetaChild', 'metadata.MetaChild')]


def SETUP(E):
    load(E)
    schema(E)
    spec_module(E, 'attr')
    for c in ALL:
        E.schema['xigt.' + c, '_nsmap'] = 'opt:dict:str>str'


def given_obj(E, cls, parent):
    if parent:
        E.schema['xigt.' + cls, '_parent'] = 'opt:obj:xigt.' + parent
    return given(E, 'o', cls)


def parent_of(E, o, parent):
    if parent is None:
        return None
    return E.force(E.getfield(o, '_parent')[0])


def nsmapof(t):
    return uf('nsmapof', U, U)(t)


def nsdict(E, o):
    """the namespace map in force on a given object (contract of nsmap)"""
    d = nsmapof(o.t)
    E.fact_once(z3.Not(fresh_p(d)))
    k = z3.Const('k!', U)
    # prefixes are strings
    E.fact_once(z3.ForAll([k], z3.Implies(dhas(d, k), kindf(k) == 3), patterns=[dhas(d, k)]))
    return Obj(d, 'dict', False, 'str>str')


NSMAP = 'xigt.mixins.XigtAttributeMixin.nsmap'
GET = 'xigt.mixins.XigtAttributeMixin.get_attribute'


def h_nsmap(cls, parent):
    def h(E):
        o = given_obj(E, cls, parent)

        def c(E, f, args, kw):
            if len(args) != 1 or args[0].t.eq(o.t):
                return NotImplemented
            return nsdict(E, args[0])
        E.contracts[NSMAP] = c
        m = heap_mark(E)
        got = outcome(E, lambda: E.getattr(o, 'nsmap'))
        prove_frame(E, m, 'nsmap')
        if got[0] != 'return':
            E.fail('nsmap: gives a map')
            raise Done()
        own = E.force(E.getfield(o, '_nsmap')[0])
        p = parent_of(E, o, parent)
        if own is not None:
            prove_same(E, got[1], own, 'nsmap: its own map if it has one')
        elif p is not None:
            prove_same(E, got[1], nsdict(E, p), 'nsmap: the map of the nearest enclosing object that has one')
        else:
            prove_same(E, got[1], E.newdict(DVal()), 'nsmap: empty if there is none')
    return h


def h_set_nsmap(cls):
    def h(E):
        o = given_obj(E, cls, None)
        if E.choose('a map'):
            t = z3.Const('in:map', U)
            E.assume(z3.Not(fresh_p(t)))
            d = Obj(t, 'dict', False, 'str>str')
        else:
            d = None
        m = heap_mark(E)
        E.setattr(o, 'nsmap', d)
        prove_frame(E, m, 'assigning nsmap', lambda f, t: t.eq(o.t) and f == '_nsmap')
        E.contracts.clear()
        now = E.force(E.getfield(o, '_nsmap')[0])
        if d is None:
            E.prove(now is None, 'assigning nsmap: None means none of its own')
        else:
            E.prove(now is not None and now.fresh, 'assigning nsmap: a copy')
            prove_same(E, now, d, 'assigning nsmap: with the same content')
    return h


def h_get(cls, parent):
    def h(E):
        o = given_obj(E, cls, parent)
        p = parent_of(E, o, parent)
        expand = spec_fn(E, 'attr', 'expand')
        look = uf('inherited', U, U, U, U)

        def c_nsmap(E, f, args, kw):
            return nsdict(E, args[0]) if len(args) == 1 else NotImplemented

        def c_get(E, f, args, kw):
            if args[0].t.eq(o.t):
                return NotImplemented
            b = E.bind(f, args, kw)
            if b['inherit'] is not True:
                return NotImplemented
            # induction hypothesis, for the parent with its own namespace map
            k, v = outcome(E, lambda: run(E, expand, b['key'], b['namespace'], nsdict(E, b['self'])))
            if k == 'raise':
                raise PyRaise(v)
            return SU(look(b['self'].t, E.term(v), E.term(b['default'])), 'any')
        E.contracts[NSMAP] = c_nsmap
        E.contracts[GET] = c_get
        key = sym_str(E, 'key')
        ns = SU(z3.Const('in:namespace', U), 'optstr') if E.choose('namespace given') else None
        dflt = SU(z3.Const('in:default', U), 'any') if E.choose('default given') else None
        inherit = E.choose('inherit')
        kw = {}
        if ns is not None:
            kw['namespace'] = ns
        if dflt is not None:
            kw['default'] = dflt
        if inherit:
            kw['inherit'] = True
        m = heap_mark(E)
        got = outcome(E, lambda: E.call(E.getattr(o, 'get_attribute'), [key], kw))
        prove_frame(E, m, 'get_attribute')
        k, name = outcome(E, lambda: run(E, expand, key, ns, nsdict(E, o)))
        if k == 'raise':
            raise Done()          # a prefix that is not declared: nothing is claimed
        attrs = E.getfield(o, 'attributes')[0]
        r = E.dict_find(E.dcontent(attrs), name)
        if r is not None:
            want = r[0]
        elif inherit and p is not None:
            want = SU(look(p.t, E.term(name), E.term(dflt)), 'any')
        else:
            want = dflt
        same_outcome(E, 'get_attribute: the value under the expanded name', got, ('return', want))
    return h


HARNESSES = []
for c, p in PARENTS:
    HARNESSES.append(('nsmap %s in %s' % (c, p), guarded(h_nsmap(c, p))))
    HARNESSES.append(('get_attribute %s in %s' % (c, p), guarded(h_get(c, p))))
for c in ALL:
    HARNESSES.append(('set nsmap ' + c, guarded(h_set_nsmap(c))))
