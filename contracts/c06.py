"""C06: accepted ids and names; references that consist of one id."""
from common import *
import regs
from regs import IDS, NAMES

TRUSTED = ['semantics of str methods and of the backtracking matcher of re (modelled as the ordered '
           'thread list over the pattern parsed by re itself)']

IDCLS = [c for c in ALL if c != 'metadata.MetaChild']


def SETUP(E):
    load(E)
    E.module('xigt.ref')
    schema(E)
    regs.install(E, [IDS, NAMES])


def value(E):
    if E.choose('None'):
        return None
    return sym_str(E, 'value')


def ok(lang, v):
    return True if v is None else lang.pred(v.t)


def h_set(cls):
    def h(E):
        o = given(E, 'o', cls)
        v = value(E)
        m = heap_mark(E)
        got = outcome(E, lambda: E.setattr(o, 'id', v))
        if got[0] == 'return':
            E.prove(ok(IDS, v), 'setting an id: only None and well-formed ids are accepted')
            prove_same(E, E.getattr(o, 'id'), v, 'setting an id: it becomes the id')
            prove_frame(E, m, 'setting an id', lambda f, t: t.eq(o.t) and f == '_id')
        else:
            E.prove(got[1].cls.name == 'ValueError', 'setting an id: refused with ValueError')
            c = ok(IDS, v)
            E.prove(False if c is True else z3.Not(c), 'setting an id: None and every well-formed id are accepted')
            prove_frame(E, m, 'refused id')
    return h


ARGS = {'model.XigtCorpus': (), 'model.Igt': (), 'model.Tier': (), 'model.Item': (), 'metadata.Metadata': (),
        'metadata.Meta': ()}


def h_new(cls):
    def h(E):
        v = value(E)
        got = outcome(E, lambda: E.call(E.cls('xigt.' + cls), [], {'id': v}))
        if got[0] == 'return':
            E.prove(ok(IDS, v), 'constructing: only None and well-formed ids are accepted')
            prove_same(E, E.getattr(got[1], 'id'), v, 'constructing: it becomes the id')
        else:
            E.prove(got[1].cls.name == 'ValueError', 'constructing: refused with ValueError')
            c = ok(IDS, v)
            E.prove(False if c is True else z3.Not(c), 'constructing: None and every well-formed id are accepted')
    return h


def h_name(E):
    v = sym_str(E, 'value')
    got = outcome(E, lambda: E.call(E.cls('xigt.metadata.MetaChild'), [v], {}))
    if got[0] == 'return':
        E.prove(NAMES.pred(v.t), 'metachild: only well-formed names are accepted')
        prove_same(E, E.getattr(got[1], 'name'), v, 'metachild: it becomes the name')
    else:
        E.prove(got[1].cls.name == 'ValueError', 'metachild: refused with ValueError')
        E.prove(z3.Not(NAMES.pred(v.t)), 'metachild: every well-formed name is accepted')


def h_ref(fn, *args):
    def h(E):
        v = sym_str(E, 'value')
        E.assume(IDS.pred(v.t))
        E.assume(v.t != lit(''))
        regs.set_role(E, v, regs.id_role())
        m = heap_mark(E)
        got = outcome(E, lambda: E.call(E.module('xigt.ref').env.vars[fn], [v] + list(args), {}))
        prove_frame(E, m, fn)
        want = v if fn in ('expand', 'compress') else E.newlist(Seq([Lit(v)]))
        same_outcome(E, '%s of an id: leaves it whole' % fn, got, ('return', want))
    return h


HARNESSES = []
for c in IDCLS:
    HARNESSES.append(('set id ' + c, guarded(h_set(c))))
    HARNESSES.append(('new ' + c, guarded(h_new(c))))
HARNESSES.append(('new metadata.MetaChild', guarded(h_name)))
for f, a in (('ids', ()), ('selections', ()), ('selections', (False,)), ('spans', ()), ('spans', (False,)),
             ('expand', ()), ('compress', ())):
    HARNESSES.append(('%s%s' % (f, a or ''), guarded(h_ref(f, *a))))
