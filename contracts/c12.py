"""C12: JSON round trip, object by object.

Encoding an object in the context of its container's prefix map, and decoding the result in the same
context, gives the object again: its fields are equal, the map in force in it is the same, and its
parts are, in order, what decoding gives for the encodings of its parts in that map (the contract of
the functions for parts; induction over the nesting)."""
from common import *
import ctor
import regs

TRUSTED = ['json: dicts with string keys, lists, strings and None come back as they were',
           'the nesting of metadata children is finite', 'the prefix map in force of an object (nsmap: C04)']
M = 'xigt.codecs.xigtjson'
NSMAP = 'xigt.mixins.XigtAttributeMixin.nsmap'


def SETUP(E):
    load(E)
    E.module(M)
    schema(E)
    E.string_facts = True
    E.contracts[NSMAP] = c_nsmap
    spec_module(E, 'copies')
    regs.install(E, [regs.IDS, regs.NAMES])
    E.contracts['xigt.model.Igt.refresh_indices'] = lambda E, f, args, kw: None    # C09


def c_nsmap(E, f, args, kw):
    if len(args) != 1 or args[0].fresh:
        return NotImplemented
    return Obj(uf('nsmapof', U, U)(args[0].t), 'dict', False, 'str>str')


def has(u, c):
    return uf('contains', U, U, B)(u, lit(c))


def starts(u, c):
    return uf('startswith', U, U, B)(u, lit(c))


def prefixes(E, d):
    """the keys are prefixes"""
    k = z3.Const('k!prefix', U)
    E.assume(z3.ForAll([k], z3.Implies(dhas(d.t, k), z3.And(z3.Not(has(k, ':')), z3.Not(starts(k, '{')))),
                       patterns=[dhas(d.t, k)]))


def names(E, d):
    """the keys are names: '{uri}name', or plain without ':'"""
    k = z3.Const('k!attr', U)
    E.assume(z3.ForAll([k], z3.Implies(dhas(d.t, k), z3.If(starts(k, '{'), has(k, '}'), z3.Not(has(k, ':')))),
                       patterns=[dhas(d.t, k)]))


def fn(E, name):
    return E.module(M).env.vars[name]


def opaque(E, name, ety, *ts):
    """a dict that is a function of the terms"""
    t = uf(name, *([U] * (len(ts) + 1)))(*ts) if ts else z3.Const(name, U)
    E.fact_once(z3.Not(fresh_p(t)))
    E.fact_once(z3.And(kindf(t) == 5, t != NONE))
    return Obj(t, 'dict', False, ety)


def history(E):
    """any encoding that went before"""
    inv = fn(E, 'inv_nsmap')
    E.set_dcontent(inv, DVal(opaque(E, 'before:inv', 'str>str')))
    return inv


def plain(E, x, cls):
    """ids and namespaces are not the empty string"""
    for f in ('_id', 'namespace'):
        v = E.getfield(x, f)
        if v and v[0] is not None:
            E.assume(E.term(v[0]) != lit(''))
            if f == '_id':
                E.assume(z3.Implies(E.term(v[0]) != NONE, regs.IDS.pred(E.term(v[0]))))
    if cls == 'model.XigtCorpus':
        E.assume(E.term(E.getattr(x, 'mode')) == E.term(E.module('xigt.consts').env.vars['FULL']))


def only(E, mark, label, o):
    def ok(f, t):
        return f == '@dict' and t.eq(o.t)
    prove_frame(E, mark, label, ok)


# ---- what all classes have in common ------------------------------------------------------------

def h_common(cls, top, cases=()):
    def h(E):
        x = given(E, 'x', cls)
        plain(E, x, cls)
        for f, none in zip(('_id', 'type'), cases):
            E.assume((E.term(E.getfield(x, f)[0]) == NONE) == none)
        ns = None if top else opaque(E, 'in:ns', 'str>str')
        if ns is not None:
            prefixes(E, ns)
        own = c_nsmap(E, None, [x], {})
        prefixes(E, own)
        at = E.getfield(x, 'attributes')[0]
        names(E, at)
        inv = history(E)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, '_make_obj'), x, ns))
        if got[0] != 'return':
            E.fail('encoding does not fail', repr(got[1]))
            raise Done()
        only(E, m, 'encoding', inv)
        obj, active = got[1]
        want = E.newdict(DVal(None if ns is None else E.dcontent(ns).base))
        E.lib.dict_update(E, want, own)
        prove_same(E, active, want, 'the map in force here')
        # the keys
        o = E.newdict(DVal(None))
        for key, val in (('id', E.getattr(x, 'id')), ('type', E.getattr(x, 'type')), ('namespace', E.getattr(x, 'namespace'))):
            if E.force(val) is not None:
                E.lib.setitem(E, o, key, val)
        for key in ('attributes', 'namespaces'):
            v = E.lib.dict_get(E, obj, key, None)
            if v is None and key == 'namespaces':
                prove_same(E, want, E.newdict(DVal(None if ns is None else E.dcontent(ns).base)),
                           'no namespaces: the map in force is that of the container')
            if v is not None:
                E.lib.setitem(E, o, key, v)
        prove_same(E, obj, o, 'id, type and namespace are stored, and nothing else')
        # the inverse map
        E.prove(E.dict_find(E.dcontent(inv), None) is None, 'the inverse map has strings only')
        k = SU(E.fresh(U, 'uri'), 'str')
        r = E.dict_find(E.dcontent(inv), k)
        if r is not None:
            p = E.dict_find(E.dcontent(want), r[0])
            if p is None:
                E.fail('the inverse map has prefixes in force')
            else:
                prove_same(E, p[0], k, 'the inverse map')
        got = outcome(E, lambda: run(E, fn(E, 'active_namespaces'), obj, ns))
        same_outcome(E, 'the map in force is decoded', got, ('return', want))
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, 'decode_attributes'), obj, want))
        prove_frame(E, m, 'decoding')
        same_outcome(E, 'the attributes are decoded', got, ('return', at))
    return h


# ---- object by object ---------------------------------------------------------------------------

PARTS = {'model.XigtCorpus': {'metadata': 'metadata', 'igt': 'igts'}, 'model.Igt': {'metadata': 'metadata', 'tier': 'tiers'},
         'model.Tier': {'metadata': 'metadata', 'item': 'items'}, 'model.Item': {},
         'metadata.Metadata': {'meta': 'metas'}, 'metadata.Meta': {'metachild': 'children'},
         'metadata.MetaChild': {'metachild': 'children'}}
CLS = {'igt': 'model.Igt', 'tier': 'model.Tier', 'item': 'model.Item', 'metadata': 'metadata.Metadata',
       'meta': 'metadata.Meta', 'metachild': 'metadata.MetaChild'}
OF = {'model.XigtCorpus': ''}
OF.update({v: '_' + k for k, v in CLS.items()})


class Round:
    """the contracts of _make_obj & co. for the object, and of encode_*/decode_* for its parts"""

    def __init__(self, E, x, cls, ns):
        self.E, self.x, self.cls, self.ns = E, x, cls, ns
        self.inv = history(E)
        self.own = z3.Const('in:has-namespaces', B)
        self.obj = None
        t = x.t
        self.enc_at = opaque(E, 'enc:attributes', 'str>str', t)
        self.nss = opaque(E, 'enc:namespaces', 'str>str', t)
        self.A = opaque(E, 'in:active', 'str>str')
        prefixes(E, self.A)
        C = E.contracts
        C[M + '._make_obj'] = self.make
        C[M + '.active_namespaces'] = self.active
        C[M + '.decode_attributes'] = self.attrs
        C['copies.copyof'] = self.copyof
        for k in PARTS[cls]:
            C[M + '.encode_' + k] = lambda E, f, a, kw, k=k: self.encode(k, f, a, kw)
            C[M + '.decode_' + k] = lambda E, f, a, kw, k=k: self.decode(k, f, a, kw)

    def is_ns(self, n):
        if self.ns is None:
            return n is None
        return isinstance(n, Obj) and n.t.eq(self.ns.t)

    def active_map(self):
        if self.E.decide(self.own):
            return self.A
        return self.ns

    def make(self, E, f, args, kw):
        if kw or not isinstance(args[0], Obj) or not args[0].t.eq(self.x.t):
            raise Unsupported('_make_obj of another object')
        if len(args) == 1:
            args = args + [None]
        if not self.is_ns(args[1]):
            E.fail('encoded in the context of the container', repr(args[1]))
            raise Done()
        x = self.x
        o = E.newdict(DVal(None))
        v = E.getattr(x, 'id')
        for key, val in (('id', E.getattr(x, 'id')), ('type', E.getattr(x, 'type'))):
            if E.force(val) is not None:
                E.lib.setitem(E, o, key, val)
        if E.decide(E.truth(E.getfield(x, 'attributes')[0])):
            E.lib.setitem(E, o, 'attributes', self.enc_at)
        if E.force(E.getattr(x, 'namespace')) is not None:
            E.lib.setitem(E, o, 'namespace', E.getattr(x, 'namespace'))
        a = self.active_map()
        if E.decide(self.own):
            E.lib.setitem(E, o, 'namespaces', self.nss)
        inv = opaque(E, 'inverse', 'str>str')
        u = z3.Const('u!inv', U)
        d = DVal(a)
        p = dget(inv.t, u)
        if a is None:
            E.assume(z3.ForAll([u], z3.Not(dhas(inv.t, u)), patterns=[dhas(inv.t, u)]))
        else:
            E.assume(z3.ForAll([u], z3.Implies(dhas(inv.t, u), z3.And(u != NONE, dhas(a.t, p), dget(a.t, p) == u, z3.Not(has(p, ':')))),
                               patterns=[dhas(inv.t, u)]))
        E.set_dcontent(self.inv, DVal(inv))
        self.obj = o
        return o, E.newdict(DVal(a))

    def active(self, E, f, args, kw):
        if kw or len(args) != 2 or self.obj is None or not args[0].t.eq(self.obj.t):
            raise Unsupported('active_namespaces of something else')
        if not self.is_ns(args[1]):
            E.fail('decoded in the context of the container', repr(args[1]))
            raise Done()
        return E.newdict(DVal(self.active_map()))

    def context(self, E, n, what):
        prove_same(E, n, E.newdict(DVal(self.active_map())), 'parts are %s in the map in force' % what)

    def attrs(self, E, f, args, kw):
        if kw or len(args) != 2 or self.obj is None or not args[0].t.eq(self.obj.t):
            raise Unsupported('decode_attributes of something else')
        self.context(E, args[1], 'decoded (attributes)')
        src = E.getfield(self.x, 'attributes')[0]
        return E.newdict(E.dcontent(src))

    def encode(self, k, f, args, kw):
        E = self.E
        if isinstance(args[0], Obj) and args[0].t.eq(self.x.t):
            return NotImplemented
        if kw or len(args) != 2 or not isinstance(args[0], Obj):
            raise Unsupported('encode_%s' % k)
        self.context(E, args[1], 'encoded')
        return opaque(E, 'enc:' + k, 'str>any', args[0].t)

    def decode(self, k, f, args, kw):
        E = self.E
        if self.obj is not None and isinstance(args[0], Obj) and args[0].t.eq(self.obj.t):
            return NotImplemented
        if kw or len(args) != 2 or not isinstance(args[0], Obj) or args[0].t.decl().name() != 'enc:' + k:
            E.fail('parts are decoded from their encodings', repr(args))
            raise Done()
        self.context(E, args[1], 'decoded')
        return self.copy(args[0].t.arg(0), CLS[k])

    def copy(self, t, cls):
        E = self.E
        c = uf('copyof', U, U)(t)
        E.fact_once(z3.And(c != NONE, kindf(c) == 5, z3.Not(fresh_p(c))))
        return Obj(c, E.cls('xigt.' + cls), False)

    def copyof(self, E, f, args, kw):
        return self.copy(args[0].t, args[0].cls.qual[5:])


def h_object(cls, top):
    def h(E):
        x = given(E, 'x', cls)
        plain(E, x, cls)
        ns = None if top else opaque(E, 'in:ns', 'str>str')
        if ns is not None:
            prefixes(E, ns)
        R = Round(E, x, cls, ns)
        own = E.decide(R.own)
        if cls == 'metadata.MetaChild':
            E.assume(regs.NAMES.pred(E.term(E.getattr(x, 'name'))))
            E.assume(z3.Not(has(E.term(E.getattr(x, 'name')), ':')))
            for f in ('_id', 'type'):
                E.assume(E.term(E.getfield(x, f)[0]) == NONE)
            n = E.getattr(x, 'namespace')
            if E.force(n) is not None:      # a URI, not a prefix
                for a in (R.A, ns):
                    if a is not None:
                        E.assume(z3.Not(dhas(a.t, E.term(n))))
        ctor.install(E)
        a = () if top else (ns,)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, 'encode' + OF[cls]), x, *a))
        if got[0] != 'return':
            E.fail('encoding does not fail', repr(got[1]))
            raise Done()
        only(E, m, 'encoding', R.inv)
        if R.obj is None or not got[1].t.eq(R.obj.t):
            raise Unsupported('encoding without _make_obj')
        if top:
            got = outcome(E, lambda: run(E, fn(E, 'decode'), got[1]))
        else:
            got = outcome(E, lambda: run(E, fn(E, 'decode' + OF[cls]), got[1], ns))
        if got[0] != 'return':
            E.fail('decoding does not fail', repr(got[1]))
            raise Done()
        y = got[1]
        E.prove(isinstance(y.cls, UserClass) and y.cls is x.cls, 'the class')
        E.prove(y.fresh is True, 'a new object')
        for f in ctor.FIELDS[cls] + (('mode',) if top else ()):
            if f == '_nsmap':
                want = E.newdict(DVal(R.A)) if own else None
                prove_same(E, E.force(E.getfield(y, f)[0]), want, 'the prefix map')
            else:
                prove_same(E, E.force(E.getfield(y, f)[0]), E.force(E.getfield(x, f)[0]), f.strip('_'))
        for k, what in PARTS[cls].items():
            src, dst = (E.getfield(x, '_md')[0], E.getfield(y, '_md')[0]) if what == 'metadata' else (x, y)
            want = run(E, spec_fn(E, 'copies', 'copies'), E.newlist(E.content(src)))
            prove_same(E, E.newlist(E.content(dst)), want, 'the %s, in order' % what)
    return h


def h_strings(E):
    """loads(dumps(c)) is decode(encode(c))"""
    x = given(E, 'x', 'model.XigtCorpus')
    e, y = opaque(E, 'in:encoded', 'str>any'), given(E, 'y', 'model.XigtCorpus')
    indent = sym_str(E, 'indent', 'any')

    def is_(v, t):
        return isinstance(v, Obj) and v.t.eq(t)

    def encode(E, f, a, kw):
        E.prove(len(a) == 1 and not kw and is_(a[0], x.t), 'the corpus is encoded')
        return e

    def decode(E, f, a, kw):
        kw = dict(zip(('mode', 'nsmap'), a[1:]), **kw)
        E.prove(is_(a[0], e.t) and kw.get('nsmap') is None, 'what was encoded is decoded')
        E.prove(E.truth(E.lib.eq(E, kw.get('mode', 'full'), 'full')), 'all IGTs are loaded')
        return y

    def jdumps(E, a, kw):
        E.prove(len(a) == 1 and is_(a[0], e.t) and set(kw) <= {'indent'}, 'the encoding is written')
        return SU(uf('jsontext', U, U)(e.t), 'str')

    def jloads(E, a, kw):
        E.prove(len(a) == 1 and not kw and z3.is_true(z3.simplify(E.term(a[0]) == uf('jsontext', U, U)(e.t))),
                'the text is read')
        return e
    E.contracts[M + '.encode'], E.contracts[M + '.decode'] = encode, decode
    E.ext_contract['json.dumps'], E.ext_contract['json.loads'] = jdumps, jloads
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'loads'), run(E, fn(E, 'dumps'), x, indent=indent)))
    prove_frame(E, m, 'dumps and loads')
    same_outcome(E, 'loads(dumps(c)) is decode(encode(c))', got, ('return', y))


HARNESSES = [('what all have in common, corpus', guarded(h_common('model.XigtCorpus', True)))]
for a in (True, False):
    for b in (True, False):
        HARNESSES.append(('what all have in common (%s id, %s type)' % ('no' if a else 'an', 'no' if b else 'a'),
                          guarded(h_common('model.Tier', False, (a, b)))))
for c in ALL:
    HARNESSES.append((c, guarded(h_object(c, c == 'model.XigtCorpus'))))
HARNESSES.append(('loads(dumps(c))', guarded(h_strings)))
