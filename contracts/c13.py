"""C13: XML round trip, object by object.

An element is built for an object in the context of the prefix map of its container; written and
read again (the trusted contract of XML: names are resolved in the map in force, white space may
have been added where there was no text), and decoded it gives the object again; its parts are, in
order, what decoding gives for the elements of its parts (the contract of the functions for parts;
induction over the nesting)."""
from common import *
import ctor
import ast
import regs
import xmlstub
import c12
from c12 import has, starts, opaque, prefixes, plain, PARTS, CLS, OF, c_nsmap

M = 'xigt.codecs.xigtxml'
TRUSTED = ['ElementTree writes an element with the tag, attributes, text and children it was given, and reads it back '
           'with all names resolved in the prefix map in force, text and attribute values unchanged (bounded search)',
           'a _QName is hashed and written as its text', 'the nesting of metadata children is finite',
           'the prefix map in force of an object (nsmap: C04)',
           'events of iterparse (C14 proves how they are consumed)']


def SETUP(E):
    xmlstub.install(E)
    load(E)
    E.lib.EXT['xml.etree.ElementTree', 'QName'] = spec_module(E, 'qname').env.vars['QName']
    E.lib.EXT['xml.etree.ElementTree', '_namespace_map'] = Obj(z3.Const('in:namespace map', U), 'dict', False, 'str>str')
    E.module(M)
    schema(E)
    E.string_facts = True
    E.contracts[c12.NSMAP] = c_nsmap
    spec_module(E, 'copies')
    spec_module(E, 'xml')
    regs.install(E, [regs.IDS, regs.NAMES])
    E.contracts['xigt.model.Igt.refresh_indices'] = lambda E, f, args, kw: None    # C09
    v = E.module(M).env.vars
    E.real_qname = v['_QName']
    v['_QName'] = Native(qname, '_QName')
    E.ext_contract[xmlstub.ET + 'Element'] = new_element
    E.obj_attr['outelem'] = out_attr
    E.obj_attr['inelem'] = in_attr
    E.stubs['outelem'] = {'setattr': ('text', 'tail'), 'len': lambda E, o: lib.seq_len(E, E.content(kids(E, o))), 'iter': lambda E, o: E.content(kids(E, o))}
    E.stubs['inelem'] = {'len': lambda E, o: lib.seq_len(E, E.content(kids(E, o))), 'iter': lambda E, o: E.content(kids(E, o))}


def fn(E, name):
    return E.module(M).env.vars[name]


def qname(E, a, kw):
    if len(a) != 1 or set(kw) - {'sortkey'}:
        raise Unsupported('_QName')
    return a[0]


def kids(E, o):
    return E.getfield(o, 'children')[0]


def new_element(E, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('Element with attributes')
    o = E.alloc('outelem')
    E.write('tag', o, args[0])
    E.write('text', o, None)
    E.write('tail', o, None)
    E.write('sets', o, E.newlist(Seq()))
    E.write('children', o, E.newlist(Seq()))
    return o


def out_attr(E, o, name):
    if name in ('append', 'extend'):
        return (BMethod('list', name, kids(E, o)),)
    if name == 'set':
        def put(E, a, k):
            lib.list_method(E, E.getfield(o, 'sets')[0], 'append', [(a[0], a[1])], {})
        return (Native(put, 'set'),)
    raise Unsupported('Element.%s of an element that is built' % name)


def in_attr(E, o, name):
    ps = E.content(E.getfield(o, 'pairs')[0]).parts
    if name == 'get':
        return (Native(lambda E, a, k: in_get(E, ps, *a), 'get'),)
    if name == 'items':
        return (Native(lambda E, a, k: E.newlist(Seq(ps)), 'items'),)
    if name == 'keys':
        return (Native(lambda E, a, k: E.newlist(lib.map_parts(Seq(ps), lambda kv: kv[0])), 'keys'),)
    if name == 'findall':
        return (Native(lambda E, a, k: E.newlist(named(E, kids(E, o), a[0])), 'findall'),)
    if name == 'find':
        raise Unsupported('Element.find')
    if name == 'clear':
        def clear(E, a, k):
            E.write('cleared', o, True)
            E.write('pairs', o, Poison('a cleared element'))
            E.write('children', o, Poison('a cleared element'))
            E.write('text', o, None)
        return (Native(clear, 'clear'),)
    if name == 'attrib':
        return (Obj(o.t, 'inattrib', True),)
    raise Unsupported('Element.%s' % name)


def in_get(E, ps, key, default=None):
    if not isinstance(key, str):
        # attributes of an element have different names
        for p in ps:
            r = (p.v[1],) if isinstance(p, Lit) and lib.isstr(p.v[0]) and E.term(p.v[0]).eq(E.term(key)) \
                else lib.at_key(E, p, E.term(key))
            if r is not None:
                return r[0]
        raise Unsupported('an attribute of any name')
    for p in ps:
        if isinstance(p, Lit):
            k, v = p.v
            if E.decide(E.truth(lib.eq(E, k, key))):
                return v
        elif not all(isinstance(l.parts[0].v, tuple) for l in p.leaves):
            raise Unsupported('attributes')
    return default


def named(E, xs, tag):
    if tag not in CLS:
        raise Unsupported('findall(%r)' % (tag,))

    def keep(ps):
        out = []
        for p in ps:
            if isinstance(p, Lit):
                if p.v.t.decl().name() == 'read:' + tag:
                    out.append(p)
            elif isinstance(p, FM) and not p.identity:
                out.append(FM(p.base, p.lo, p.hi, p.var, [Leaf(l.guards, l.facts, keep(l.parts)) for l in p.leaves]))
            else:
                raise Unsupported('children')
        return tuple(out)
    ps = [p for p in keep(E.content(xs).parts) if isinstance(p, Lit) or any(l.parts for l in p.leaves)]
    return Seq(ps)


class Round:
    """the contracts of encode and decode of the parts"""

    def __init__(self, E, x, cls):
        self.E, self.x, self.cls = E, x, cls
        self.own = c_nsmap(E, None, [x], {})
        self.F = None
        self.contexts = []
        C = E.contracts
        C['copies.copyof'] = lambda E, f, a, kw: self.copy(a[0].t, a[0].cls.qual[5:])
        for k in CLS:
            C[M + '._build_' + k] = lambda E, f, a, kw, k=k: self.build(k, f, a, kw)
            C[M + '.default_decode_' + k] = lambda E, f, a, kw, k=k: self.decode(k, f, a, kw)

    def build(self, k, f, args, kw):
        E = self.E
        x, ns = E.bind(f, args, kw).values()
        if isinstance(x, Obj) and x.t.eq(self.x.t):
            return NotImplemented
        if not isinstance(x, Obj) or not isinstance(x.cls, UserClass) or x.cls.qual != 'xigt.' + CLS[k]:
            E.fail('parts are built as what they are', repr(x))
            raise Done()
        # what is taken to be declared is
        def subset():
            p = SU(E.fresh(U, 'prefix'), 'str')
            v = E.dict_find(E.dcontent(ns), p)
            if v is not None:
                w = E.dict_find(E.dcontent(self.own), p)
                if w is None:
                    E.fail('parts are built in the map in force', 'a prefix that is not')
                else:
                    prove_same(E, v[0], w[0], 'parts are built in the map in force')
        aside(E, subset)
        t = uf('built:' + k, U, U)(x.t)
        E.fact_once(z3.Not(fresh_p(t)))
        E.fact_once(z3.And(t != NONE, kindf(t) == 5))
        return Obj(t, 'outpart', False)

    def read(self, seq):
        def rd(v):
            if not (isinstance(v, Obj) and v.cls == 'outpart'):
                raise Unsupported('child %r' % (v,))
            k = v.t.decl().name().split(':')[1]
            return Obj(uf('read:' + k, U, U)(v.t.arg(0)), 'inpart', False)
        return lib.map_parts(seq, rd)

    def decode(self, k, f, args, kw):
        E = self.E
        a = E.bind(f, args, kw)
        e = a['elem']
        if isinstance(e, Obj) and e.cls == 'inelem':
            return NotImplemented
        if not isinstance(e, Obj) or e.cls != 'inpart' or e.t.decl().name() != 'read:' + k:
            E.fail('parts are decoded as what they are', repr(e))
            raise Done()
        return self.copy(e.t.arg(0), CLS[k])

    def copy(self, t, cls):
        E = self.E
        c = uf('copyof', U, U)(t)
        E.fact_once(z3.And(c != NONE, kindf(c) == 5, z3.Not(fresh_p(c))))
        return Obj(c, E.cls('xigt.' + cls), False)


def names(E, x, cls, own):
    """attribute names are plain, without ':' and none of those with a meaning of their own, or
    '{uri}name' with a URI that has a prefix (never the empty one)"""
    at = E.getfield(x, 'attributes')[0]
    c12.names(E, at)
    k = z3.Const('k!plain', U)
    u = uf('before:}', U, U)(uf('tail1', U, U)(k))
    p = uf('prefixof', U, U)(u)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(dhas(at.t, k), starts(k, '{')), z3.And(
        dhas(own.t, p), dget(own.t, p) == u, p != lit(''), u != lit(''), z3.Not(z3.And(dhas(own.t, lit('')), dget(own.t, lit('')) == u)))),
        patterns=[dhas(at.t, k)]))
    no = ['xmlns'] + ([] if cls == 'metadata.MetaChild' else ['id', 'type'])
    E.assume(z3.ForAll([k], z3.Implies(dhas(at.t, k), z3.And(*[k != lit(s) for s in no])), patterns=[dhas(at.t, k)]))


def strip(t):
    return uf('strfn:strip', U, U)(t)


def blank(E):
    t = z3.Const('in:blank', U)
    E.fact_once(z3.And(kindf(t) == 3, t != lit(''), strip(t) == lit('')))
    return SU(t, 'str')


def setting(E, cls):
    """an object and the map its container has in force"""
    top, child = cls == 'model.XigtCorpus', cls == 'metadata.MetaChild'
    x = given(E, 'x', cls)
    plain(E, x, cls)
    own = c_nsmap(E, None, [x], {})
    prefixes(E, own)
    E.assume(z3.Not(dhas(own.t, NONE)))
    E.assume(z3.Not(dhas(own.t, lit('xmlns'))))
    names(E, x, cls, own)
    ns = E.newdict(DVal()) if top else opaque(E, 'in:context', 'str>str')
    if not top:
        prefixes(E, ns)
    n = E.term(E.getfield(x, 'namespace')[0])
    if child:
        t = E.term(E.getattr(x, 'name'))
        E.assume(z3.And(regs.NAMES.pred(t), z3.Not(has(t, ':')), z3.Not(starts(t, '{')), t != lit('')))
        for f in ('_id', 'type'):
            E.assume(E.term(E.getfield(x, f)[0]) == NONE)
        p = uf('prefixof', U, U)(n)
        E.assume(z3.Implies(n != NONE, z3.And(dhas(own.t, p), dget(own.t, p) == n, z3.Not(has(n, '}')))))
    else:
        E.assume(n == NONE)
        E.assume(z3.Not(dhas(own.t, lit(''))))
    if 'text' in ctor.FIELDS[cls]:       # no text, or text that is not white space
        t = E.term(E.getfield(x, 'text')[0])
        E.assume(z3.Or(t == NONE, z3.And(t != lit(''), strip(t) != lit(''))))
    if top:
        E.write('mode', x, 'full')
    return x, own, ns


def tag_of(E, x, cls):
    return E.getattr(x, 'name') if cls == 'metadata.MetaChild' else {v: k for k, v in CLS.items()}.get(cls, 'xigt-corpus')


def h_header(cls, cases=()):
    """the element of an object: its tag, its attributes, the prefixes it declares"""
    top, child = cls == 'model.XigtCorpus', cls == 'metadata.MetaChild'

    def h(E):
        x, own, ns = setting(E, cls)
        for f, none in zip(('_id', 'type'), cases):
            E.assume((E.term(E.getfield(x, f)[0]) == NONE) == none)
        tag = tag_of(E, x, cls)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, '_build_elem'), tag, x, ns))
        if got[0] != 'return':
            E.fail('encoding does not fail', repr(got[1]))
            raise Done()
        prove_frame(E, m, 'encoding')
        e = got[1]
        if not isinstance(e, Obj) or e.cls != 'outelem':
            raise Unsupported('no element is built')
        sets = E.getfield(e, 'sets')[0]
        for f in ('text', 'tail'):
            prove_same(E, E.getfield(e, f)[0], None, 'nothing else')
        prove_same(E, kids(E, e), E.newlist(Seq()), 'nothing else')

        def in_force():
            """everything in the map of the object is in force in its element"""
            if not top:
                FP = opaque(E, 'in:scope of the container', 'str>str')
                k = z3.Const('k!scope', U)
                E.assume(z3.ForAll([k], z3.Implies(dhas(ns.t, k), z3.And(dhas(FP.t, k), dget(FP.t, k) == dget(ns.t, k))),
                                   patterns=[dhas(ns.t, k)]))
            p = SU(E.fresh(U, 'prefix'), 'str')
            v = E.dict_find(E.dcontent(own), p)
            if v is None:
                return
            D = run(E, spec_fn(E, 'xml', 'declared'), sets)
            w = E.dict_find(E.dcontent(D), p)
            if w is None and not top:
                w = E.dict_find(E.dcontent(FP), p)
            if w is None:
                E.fail('the map in force is declared', 'a prefix that is not')
            else:
                prove_same(E, w[0], v[0], 'the map in force is declared')
        aside(E, in_force)
        F = opaque(E, 'in:scope', 'str>str')
        k = z3.Const('k!own', U)
        E.assume(z3.ForAll([k], z3.Implies(dhas(own.t, k), z3.And(dhas(F.t, k), dget(F.t, k) == dget(own.t, k))), patterns=[dhas(own.t, k)]))
        n = E.getfield(x, 'namespace')[0]
        E.assume(z3.Implies(E.term(n) == NONE, z3.Not(dhas(F.t, lit('')))))
        k, v = outcome(E, lambda: run(E, spec_fn(E, 'xml', 'tag'), E.getfield(e, 'tag')[0], F))
        if k != 'return':
            E.fail('the prefixes that are used are declared', repr(v))
            raise Done()
        k, s = outcome(E, lambda: run(E, fn(E, '_qname_split'), v))
        if k != 'return':
            E.fail('decoding does not fail', repr(s))
            raise Done()
        prove_same(E, E.newlist(lib.iterate(E, s)), E.newlist(Seq([Lit(n), Lit(tag)])), 'namespace and name of the element')
        k, v = outcome(E, lambda: run(E, spec_fn(E, 'xml', 'attributes'), sets, F))
        if k != 'return':
            E.fail('the prefixes that are used are declared', repr(v))
            raise Done()
        prove_same(E, v, E.newlist(pairs(E, x)), 'the attributes')
    return h


def pairs(E, x):
    out = []
    for key in ('id', 'type'):
        v = E.force(E.getattr(x, key))
        if v is not None:
            out.append(Lit((key, v)))
    return Seq(tuple(out) + tuple(lib.iterate(E, lib.dict_method(E, E.getfield(x, 'attributes')[0], 'items', [], {})).parts))


def h_object(cls):
    top, child = cls == 'model.XigtCorpus', cls == 'metadata.MetaChild'

    def h(E):
        x, own, ns = setting(E, cls)
        R = Round(E, x, cls)
        ctor.install(E)
        tag = tag_of(E, x, cls)

        def c_elem(E, f, args, kw):
            t, o, n = E.bind(f, args, kw).values()
            E.prove(same(E, t, tag) and isinstance(o, Obj) and o.t.eq(x.t), 'the element of the object')
            prove_same(E, n, ns, 'the element is built in the context of the container')
            return new_element(E, [t], {})
        E.contracts[M + '._build_elem'] = c_elem
        m = heap_mark(E)
        name = 'corpus' if top else 'metachild' if child else tag
        got = outcome(E, lambda: run(E, fn(E, '_build_' + name), x, *([] if top else [ns])))
        if got[0] != 'return':
            E.fail('encoding does not fail', repr(got[1]))
            raise Done()
        prove_frame(E, m, 'encoding')
        e = got[1]
        if not isinstance(e, Obj) or e.cls != 'outelem':
            raise Unsupported('no element is built')
        if E.content(E.getfield(e, 'sets')[0]).parts:
            raise Unsupported('attributes are set outside of _build_elem')
        # written and read
        i = E.alloc('inelem')
        n = E.force(E.getfield(x, 'namespace')[0])
        E.write('tag', i, tag if n is None else lib.concat(E, ['{', n, '}', tag]))
        E.write('pairs', i, E.newlist(pairs(E, x)))
        E.write('nsmap', i, opaque(E, 'in:scope', 'str>str'))
        E.write('children', i, E.newlist(R.read(E.content(kids(E, e)))))
        text = E.force(E.getfield(e, 'text')[0])
        if text is None and cls in ('metadata.Meta', 'metadata.MetaChild') and E.choose('white space is added'):
            text = blank(E)
        E.write('text', i, text)
        copies = lambda l: run(E, spec_fn(E, 'copies', 'copies'), E.newlist(E.content(l)))
        args = [i]
        if top and E.choose('IGTs apart'):
            igts = E.content(copies(x))

            def consume(E, o):
                in_attr(E, i, 'clear')[0].fn(E, [], {})
                return igts
            E.stubs['lateigts'] = {'iter': consume}
            args += [Obj(z3.Const('in:late igts', U), 'lateigts', False)]
        got = outcome(E, lambda: run(E, fn(E, 'default_decode_' + ('xigtcorpus' if top else name)), *args))
        if got[0] != 'return':
            E.fail('decoding does not fail', repr(got[1]))
            raise Done()
        y = got[1]
        E.prove(isinstance(y, Obj) and isinstance(y.cls, UserClass) and y.cls is x.cls, 'the class')
        E.prove(y.fresh is True, 'a new object')
        for f in ctor.FIELDS[cls]:
            if f == 'attributes':
                prove_same(E, E.getattr(y, f), E.getattr(x, f), f)
            elif f != '_nsmap':
                prove_same(E, E.force(E.getfield(y, f)[0]), E.force(E.getfield(x, f)[0]), f.strip('_'))
        for k, what in PARTS[cls].items():
            src, dst = (E.getfield(x, '_md')[0], E.getfield(y, '_md')[0]) if what == 'metadata' else (x, y)
            prove_same(E, E.newlist(E.content(dst)), copies(src), 'the %s, in order' % what)
    return h


# ---- white space, prefixes in force, files ------------------------------------------------------

def white(E, v):
    """nothing, or white space"""
    v = E.force(v)
    if v is None:
        return True
    if isinstance(v, str):
        return not v.strip()
    if isinstance(v, SStr):
        return all(isinstance(q, Lit) and white(E, q.v) for q in v.parts)
    if z3.is_app(v.t) and v.t.decl().name() == 'repeat':
        if v.t.arg(0).eq(E.term(' ')):
            return True
        return white(E, SU(v.t.arg(0), 'str'))
    return E.decide(z3.Or(v.t == lit(''), strip(v.t) == lit('')))


def h_indent(E):
    label = 'indentation'
    E.assume(strip(lit('')) == lit(''))
    n = z3.Int('in:nchildren')
    E.assume(n >= 0)

    def elem(t):
        E.fact_once(z3.And(z3.Not(fresh_p(t)), t != NONE, kindf(t) == 5))
        return Obj(t, 'treeelem', False)
    at = uf('in:child', I, U)
    base = Base(('children',), n, lambda i: elem(at(i)), True)
    e = elem(z3.Const('in:elem', U))
    E.stubs['treeelem'] = {'setattr': ('text', 'tail'), 'len': lambda E, o: SInt(n) if o.t.eq(e.t) else None,
                           'iter': lambda E, o: Seq([whole(base)]),
                           'getitem': lambda E, o, k: lib.getitem(E, E.newlist(Seq([whole(base)])), k)}
    old = lambda o, f: SU(fld(f, o.t), 'optstr')

    def attr(E, o, name):
        if name in ('text', 'tail'):
            return E.read(name, o) or (old(o, name),)
        raise Unsupported('Element.%s' % name)
    E.obj_attr['treeelem'] = attr
    i = z3.Int('i!child')
    E.assume(z3.ForAll([i], at(i) != e.t, patterns=[at(i)]))

    def c_indent(E, f, args, kw):
        b = E.bind(f, args, kw)
        if isinstance(b['elem'], Obj) and b['elem'].t.eq(e.t):
            return NotImplemented
        E.prove(isinstance(b['elem'], Obj) and b['elem'].cls == 'treeelem', label + ': of the children')
    E.contracts[M + '._indent'] = c_indent
    indent = None if E.choose('no indent') else SInt(z3.Int('in:indent'))
    level = SInt(z3.Int('in:level'))
    E.assume(z3.Int('in:level') >= 0)
    k, v = outcome(E, lambda: run(E, fn(E, '_indent'), e, indent, level))
    if k != 'return':
        E.fail(label + ' does not fail', repr(v))
        raise Done()
    which = E.choose('a child')
    if which:
        j = E.fresh(I, 'j')
        E.assume(z3.And(0 <= j, j < n))
        o = elem(at(j))
    else:
        o = e
    for f in ('text', 'tail'):
        was, now = old(o, f), E.getattr(o, f)
        if same(E, now, was):
            E.prove(True, label + ': only white space is added')
            continue
        E.prove(not (which and f == 'text'), label + ': the text of children is their own')
        E.prove(not (f == 'text' and E.decide(n == 0)), label + ': no text where there are no children')
        E.prove(bool(white(E, was)) and bool(white(E, now)), label + ': only white space is added')


def h_events(E):
    """at the start of an element its prefix map is what has been declared and not gone out of scope;
    events are passed on as they are"""
    label = 'events'
    Q = M + '.ns_iterparse'
    fh = Obj(z3.Const('in:file', U), 'file', False)
    parser = Obj(z3.Const('in:parser', U), 'nsparser', False)

    def iterparse(E, args, kw):
        args = list(args)
        if not args or not isinstance(args[0], Obj) or not args[0].t.eq(fh.t):
            E.fail(label + ' of the file')
            raise Done()
        ev = args[1] if len(args) > 1 else kw.get('events')
        ev = E.force(ev)
        ev = {p.v for p in lib.iterate(E, ev).parts} if ev is not None else {'end'}
        E.prove(ev == {'start', 'end', 'start-ns', 'end-ns'}, label + ' of all kinds that are needed')
        return parser
    E.ext_contract[xmlstub.ET + 'iterparse'] = iterparse
    E.stubs['nsparser'] = {'iter': lambda E, o: rounds}
    E.stubs['evelem'] = {'setattr': ('tag', 'attrib')}
    E.obj_attr['evelem'] = lambda E, o, name: E.read(name, o) or None
    rounds = Seq([Lit(Obj(z3.Const('in:parser', U), 'nsevents', False))])
    seen = {}

    def is_events(it):
        return isinstance(it, Obj) and (it.cls == 'nsparser' or it.cls == 'iterator' and len(E.content(it).parts) == 1
                                        and isinstance(E.content(it).parts[0], Lit)
                                        and getattr(E.content(it).parts[0].v, 'cls', None) == 'nsevents')

    def rule(E, st, env, it):
        if not isinstance(st, ast.For) or not is_events(it):
            return False
        stack = in_scope(E)
        mine = []
        for k, v in env.vars.items():
            if isinstance(v, Obj) and v.cls in ('list', 'deque') and not E.content(v).parts:
                mine.append(k)
        n = lib.seq_len(E, stack)
        before = {k: env.vars[k] for k in mine}
        for k in mine:
            E.set_content(env.vars[k], stack)
        what = E.choose('an event')
        if not what:
            return True
        kind = E.choose('a declaration'), E.choose('begins')
        e = None
        if kind == (True, True):
            e = (SU(z3.Const('in:prefix', U), 'str'), SU(z3.Const('in:uri', U), 'str'))
            ev, want = 'start-ns', Seq(stack.parts + (Lit(e),))
        elif kind == (True, False):
            E.assume(E.int_term(n) > 0)
            ev = 'end-ns'
            want = E.content(lib.getitem(E, E.newlist(stack), lib.Slice(None, -1, None)))
        else:
            e = E.alloc('evelem')
            E.write('tag', e, SU(z3.Const('in:tag', U), 'str'))
            E.assume(kindf(z3.Const('in:tag', U)) == 3)
            E.write('attrib', e, opaque(E, 'in:attrib', 'str>str'))
            ev, want = ('start' if kind[1] else 'end'), stack
        seen.clear()
        seen.update(n=0)
        seen['expect'] = (ev, e, stack) if not kind[0] else None
        E.assign(st.target, (ev, e), env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        for k in mine:
            v = env.vars.get(k)
            if not isinstance(v, Obj) or v.cls not in ('list', 'deque'):
                raise Unsupported('the stack of declarations')
            prove_same(E, E.newlist(E.content(v)), E.newlist(want), label + ': what is in scope')
        if not kind[0]:
            E.prove(seen['n'] == 1, label + ': each is passed on once')
        raise Done()
    E.loop_rules[Q] = rule

    def consume(v):
        x = seen.get('expect')
        if x is None:
            E.fail(label + ': declarations are not passed on')
            raise Done()
        ev, e, stack = x
        seen['n'] += 1
        if not (isinstance(v, tuple) and len(v) == 2):
            raise Unsupported('event %r' % (v,))
        E.prove(v[0] == ev and isinstance(v[1], Obj) and v[1].t.eq(e.t), label + ': passed on as they are')
        prove_same(E, E.getfield(e, 'tag')[0], SU(z3.Const('in:tag', U), 'str'), label + ': the tag is kept')
        at = E.getfield(e, 'attrib')[0]
        old = opaque(E, 'in:attrib', 'str>str')
        prove_same(E, E.newlist(lib.iterate(E, lib.dict_method(E, at, 'items', [], {}))),
                   E.newlist(lib.iterate(E, lib.dict_method(E, old, 'items', [], {}))), label + ': the attributes are kept')
        if ev == 'start':
            nm = E.getattr(at, 'nsmap')
            want = E.call(E.builtins['dict'], [E.newlist(stack)], {})
            prove_same(E, nm, want, label + ': the prefix map is what is in scope')
    got = outcome(E, lambda: E.stream(run(E, fn(E, 'ns_iterparse'), fh), consume))
    if got[0] != 'return':
        E.fail(label + ' end without an error', repr(got[1]))


def in_scope(E):
    """a stack of declarations"""
    n = z3.Int('in:declared')
    E.fact_once(n >= 0)

    def at(i):
        p, u = uf('in:declared prefix', I, U)(i), uf('in:declared uri', I, U)(i)
        E.fact_once(z3.And(kindf(p) == 3, kindf(u) == 3))
        return (SU(p, 'str'), SU(u, 'str'))
    return Seq([whole(Base(('declared',), n, at))])


def h_strings(files):
    """dumps is the text of the indented tree of the corpus; loads decodes the events of the text"""
    def h(E):
        x, y = given(E, 'x', 'model.XigtCorpus'), given(E, 'y', 'model.XigtCorpus')
        indent, enc, mode = sym_str(E, 'indent', 'any'), sym_str(E, 'encoding'), 'full'
        obj = lambda name, cls: Obj(z3.Const('in:' + name, U), cls, False)
        root, events, text = obj('root', 'tree'), obj('events', 'eventstream'), uf('xmltext', U, U)
        is_ = lambda v, o: isinstance(v, Obj) and v.t.eq(o.t)
        state = {'indented': 0, 'written': 0}
        where = obj('file', 'textfile')
        buf = obj('buffer', 'bytefile')
        E.obj_attr['textfile'] = lambda E, o, name: (buf,) if name == 'buffer' and state['buffer'] else None
        E.obj_attr['bytefile'] = lambda E, o, name: None
        state['buffer'] = files and E.choose('the file has a buffer')

        def build(E, f, a, kw):
            E.prove(is_(E.bind(f, a, kw)['xc'], x), 'the corpus is encoded')
            return root

        def ind(E, f, a, kw):
            b = E.bind(f, a, kw)
            E.prove(is_(b['elem'], root) and E.force(b['level']) == 0, 'the tree is indented')
            prove_same(E, b['indent'], indent, 'the tree is indented')
            state['indented'] += 1
            return None
        E.contracts[M + '._build_corpus'], E.contracts[M + '._indent'] = build, ind

        def written(E, enc):
            E.prove(state['indented'] == 1, 'the tree is indented, then written')
            state['written'] += 1
            return SU(text(root.t), 'str')

        def tostring(E, a, kw):
            E.prove(len(a) in (1, 2) and is_(a[0], root) and set(kw) <= {'encoding'}, 'the tree is written')
            prove_same(E, a[1] if len(a) > 1 else kw.get('encoding'), 'unicode', 'as text')
            return written(E, None)

        def tree(E, a, kw):
            E.prove(len(a) == 1 and not kw and is_(a[0], root), 'the tree is written')
            return obj('tree', 'elementtree')

        def write(E, a, kw):
            f, e = (list(a) + [kw.get('encoding')])[:2]
            prove_same(E, e, enc, 'in the encoding asked for')
            uni = E.decide(E.truth(E.lib.eq(E, enc, 'unicode')))
            E.prove(is_(f, buf if state['buffer'] and not uni else where), 'bytes go to the buffer of a text file')
            written(E, e)
            return None
        E.ext_contract[xmlstub.ET + 'tostring'] = tostring
        E.ext_contract[xmlstub.ET + 'ElementTree'] = tree
        E.obj_attr['elementtree'] = lambda E, o, name: (Native(write, 'write'),) if name == 'write' else None

        def stringio(E, a, kw):
            prove_same(E, a[0], SU(text(root.t), 'str'), 'the text is read')
            return where
        E.ext_contract['io.StringIO'] = stringio
        E.lib.EXT['io', 'StringIO'] = Native(stringio, 'StringIO')
        E.module(M).env.vars['StringIO'] = Native(stringio, 'StringIO')

        def parse(E, f, a, kw):
            b = E.bind(f, a, kw)
            E.prove(is_(b['fh'], where), 'the file is read')
            E.prove({p.v for p in lib.iterate(E, b['events']).parts} == {'start', 'end'}, 'starts and ends are looked at')
            return events

        def decode(E, f, a, kw):
            b = E.bind(f, a, kw)
            E.prove(is_(b['events'], events), 'the events are decoded')
            prove_same(E, b['mode'], mode, 'in the mode asked for')
            return y
        E.contracts[M + '.ns_iterparse'], E.contracts[M + '.default_decode'] = parse, decode
        E.obj_attr['eventstream'] = lambda E, o, name: None
        m = heap_mark(E)
        if not files:
            got = outcome(E, lambda: run(E, fn(E, 'loads'), run(E, fn(E, 'dumps'), x, indent=indent)))
        else:
            got = outcome(E, lambda: run(E, fn(E, 'dump'), where, x, encoding=enc, indent=indent))
            same_outcome(E, 'dump', got, ('return', None))
            E.prove(state['written'] == 1, 'the tree is written once')
            if not E.choose('any mode'):
                got = outcome(E, lambda: run(E, fn(E, 'load'), where))
            else:
                mode = sym_str(E, 'mode')
                got = outcome(E, lambda: run(E, fn(E, 'load'), where, mode))
        prove_frame(E, m, 'writing and reading')
        same_outcome(E, 'what is read is what is decoded from what was written', got, ('return', y))
    return h


def h_qname(E):
    """a _QName is equal to and split as its text, whatever it is sorted by"""
    C = E.real_qname
    t, u = sym_str(E, 't'), sym_str(E, 'u')
    kw = {'sortkey': fn(E, 'xigt_attrsort')} if E.choose('sorted') else {}
    k, q = outcome(E, lambda: E.call(C, [t], kw))
    if k != 'return':
        E.fail('a name is made', repr(q))
        raise Done()
    prove_same(E, E.getattr(q, 'text'), t, 'its text')
    other = E.call(C, [u], kw) if E.choose('two names') else u
    want = E.term(t) == E.term(u)
    for a, b in ((q, other), (other, q)):
        E.prove(E.truth(lib.compare(E, 'Eq', a, b)) == want, 'equal as their texts')
        E.prove(E.truth(lib.compare(E, 'NotEq', a, b)) == z3.Not(want), 'equal as their texts')
    prove_same(E, E.newlist(lib.iterate(E, run(E, fn(E, '_qname_split'), q))), E.newlist(lib.iterate(E, run(E, fn(E, '_qname_split'), t))),
               'split as their texts')


HARNESSES = [('element, ' + c, guarded(h_header(c))) for c in ('model.XigtCorpus', 'metadata.MetaChild')]
HARNESSES += [('element (%s id, %s type)' % ('no' if a else 'an', 'no' if b else 'a'), guarded(h_header('model.Tier', (a, b))))
              for a in (True, False) for b in (True, False)]
HARNESSES += [('element, %s (%s id, %s type)' % (c, 'no' if a else 'an', 'no' if b else 'a'), guarded(h_header(c, (a, b))))
              for c in ('model.Igt', 'model.Item', 'metadata.Metadata', 'metadata.Meta') for a in (True, False) for b in (True, False)]
HARNESSES += [(c, guarded(h_object(c))) for c in ALL]
HARNESSES += [('indent', guarded(h_indent))]
HARNESSES += [('events', guarded(h_events))]
HARNESSES += [('loads(dumps(c))', guarded(h_strings(False))), ('dump, load', guarded(h_strings(True)))]
HARNESSES += [('names', guarded(h_qname))]


def h_part(name, cls):
    """encode_igt, ...: the text of the indented element of the object alone"""
    def h(E):
        x = given(E, 'x', cls)
        indent, enc = sym_str(E, 'indent', 'any'), sym_str(E, 'encoding')
        root = Obj(z3.Const('in:root', U), 'tree', False)
        is_ = lambda v, o: isinstance(v, Obj) and v.t.eq(o.t)
        done = []

        def build(E, f, a, kw):
            vs = list(E.bind(f, a, kw).values())
            E.prove(is_(vs[0], x), 'encode: the object')
            if len(vs) > 1:
                prove_same(E, vs[1], E.newdict(DVal()), 'encode: nothing is declared around it')
            return root

        def ind(E, f, a, kw):
            b = E.bind(f, a, kw)
            E.prove(is_(b['elem'], root) and E.force(b['level']) == 0, 'encode: the tree is indented')
            prove_same(E, b['indent'], indent, 'encode: the tree is indented')
            done.append(1)
            return None

        def tostring(E, a, kw):
            E.prove(len(a) in (1, 2) and is_(a[0], root) and set(kw) <= {'encoding'}, 'encode: the tree is written')
            prove_same(E, a[1] if len(a) > 1 else kw.get('encoding'), enc, 'encode: in the encoding asked for')
            E.prove(done == [1], 'encode: the tree is indented, then written')
            return SU(uf('xmltext', U, U)(root.t), 'str')
        E.contracts[M + '._build_' + {'xigtcorpus': 'corpus'}.get(name, name)] = build
        E.contracts[M + '._indent'] = ind
        E.ext_contract[xmlstub.ET + 'tostring'] = tostring
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, 'encode_' + name), x, encoding=enc, indent=indent))
        prove_frame(E, m, 'encode')
        same_outcome(E, 'encode: the text of the object', got, ('return', SU(uf('xmltext', U, U)(root.t), 'str')))
    return h


HARNESSES += [('encode ' + n, guarded(h_part(n, c))) for n, c in
              (('xigtcorpus', 'model.XigtCorpus'), ('igt', 'model.Igt'), ('tier', 'model.Tier'), ('item', 'model.Item'),
               ('metadata', 'metadata.Metadata'), ('meta', 'metadata.Meta'), ('metachild', 'metadata.MetaChild'))]
