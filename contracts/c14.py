"""C14: every loading mode delivers the same IGTs, in order.

The source of a corpus is a sequence S of IGTs; k of them have been taken. Rely/guarantee between
iterations of one corpus: between two steps of an iteration any number of other iterations may
take further IGTs (k grows); every step leaves the members = S[:k] (incremental)."""
from common import *
import ctor
import loops
import xmlstub

TRUSTED = ['generators run only between two of their yields', 'iterparse gives the start and end events of a '
           'document in order, well nested, with one root element', 'the IGTs of a source have different ids (C01)',
           'append and extend add their IGTs as members with the corpus as parent (xigt.mixins.XigtContainerMixin, C01, C02)']
CORPUS = 'xigt.model.XigtCorpus'


def SETUP(E):
    xmlstub.install(E)
    load(E)
    schema(E)
    E.module('xigt.codecs.xigtxml')
    E.module('xigt.codecs.xigtjson')
    spec_module(E, 'attr')


def whole_to(b, k):
    return Seq([whole(b, z3.IntVal(0), k)])


class Source(loops.Ghost):
    def __init__(self, E, xc, mode):
        self.xc, self.mode = xc, mode
        self.n = z3.Const('in:n', I)
        at_ = uf('in:source', I, U)
        E.assume(self.n >= 0)

        def elem(i):
            E.fact_once(z3.And(z3.Not(fresh_p(at_(i))), kindf(at_(i)) == 5))
            return E.preobj(at_(i), 'xigt.model.Igt')
        self.S = Base(('source',), self.n, elem, True)
        self.obj = Obj(z3.Const('in:generator', U), 'source')
        E.next_contract = self.next
        E.write('_generator', xc, self.obj)
        E.write('mode', xc, mode)
        k = E.fresh(I, 'k')
        E.assume(z3.And(0 <= k, k <= self.n))
        self.set(E, k=k, y=z3.IntVal(0), pending=z3.IntVal(0), y0=z3.IntVal(0))
        self.members(E)

    def get(self, E, name):
        return E.read('#' + name, self.xc)[0]

    def set(self, E, **kw):
        for a, v in kw.items():
            E.write('#' + a, self.xc, SInt(z3.simplify(v)))

    def num(self, E, name):
        return self.get(E, name).t

    def members(self, E):
        E.set_content(self.xc, whole_to(self.S, self.num(E, 'k')) if self.mode == 'incremental' else Seq())

    def others(self, E):
        """other iterations may run"""
        k = E.fresh(I, 'k')
        E.assume(z3.And(self.num(E, 'k') <= k, k <= self.n))
        self.set(E, k=k)
        self.members(E)
        m = self.mode
        if E.choose('another iteration has ended'):
            E.assume(k == self.n)
            if not E.possible():
                raise Infeasible()
            m = 'full'
        E.write('mode', self.xc, m)

    def havoc(self, E):
        k, y = E.fresh(I, 'k'), E.fresh(I, 'y')
        E.assume(z3.And(0 <= y, y <= k, k <= self.n))
        self.set(E, k=k, y=y, y0=y, k0=k, pending=z3.IntVal(0))
        self.members(E)

    def values(self, E):
        return {'yielded': self.get(E, 'y'), 'taken': self.get(E, 'k')}

    def source(self, E, it):
        return isinstance(it, Obj) and it.cls == 'source'

    def step(self, E, it):
        k = self.num(E, 'k')
        E.prove(self.num(E, 'pending') == 0, 'every IGT taken from the source is '
                + ('added' if self.mode == 'incremental' else 'yielded'))
        if not E.decide(k < self.n):
            self.set(E, exhausted=z3.IntVal(1))
            return None
        self.set(E, k=k + 1, pending=z3.IntVal(1))
        return (self.S.elem(k),)

    def next(self, E, a):
        if not self.source(E, a[0]):
            raise Unsupported('next')
        v = self.step(E, a[0])
        if v is not None:
            return v[0]
        if len(a) > 1:
            return a[1]
        E.raise_(StopIteration)

    def append(self, E, f, args, kw):
        c, x = args
        if c is not self.xc and not c.t.eq(self.xc.t):
            return NotImplemented
        k = self.num(E, 'k')
        E.prove(E.lib.seq_len(E, E.content(c)) .t == k - 1 if not isinstance(E.lib.seq_len(E, E.content(c)), int)
                else E.lib.seq_len(E, E.content(c)) == k - 1, 'an IGT is added once, right after it is taken')
        E.prove(x.t == self.S.elem(k - 1).t, 'what is added is the IGT taken')
        E.set_content(c, whole_to(self.S, k))
        E.write('_parent', x, c)
        if self.mode == 'incremental':
            self.set(E, pending=z3.IntVal(0))
        return None

    def in_step(self, E):
        if self.mode == 'incremental':
            n = E.lib.seq_len(E, E.content(self.xc))
            E.prove(E.int_term(n) == self.num(E, 'k'), 'every IGT taken is a member')
        else:
            E.prove(E.lib.seq_len(E, E.content(self.xc)) == 0, 'nothing becomes a member')

    def consume(self, E, v):
        y = self.num(E, 'y')
        if self.mode == 'incremental':
            E.prove(y < self.n, 'no more IGTs than the source has')
            E.prove(E.term(v) == self.S.elem(y).t, 'the IGTs are yielded in order')
        else:
            E.prove(self.num(E, 'pending') == 1, 'an IGT is yielded once')
            E.prove(E.term(v) == self.S.elem(self.num(E, 'k') - 1).t, 'the IGT yielded is the one taken')
            p = E.getfield(v, '_parent')[0]
            E.prove(E.term(p) == self.xc.t, 'its parent is the corpus')
            self.set(E, pending=z3.IntVal(0))
        self.in_step(E)
        # the iteration may be abandoned here: what it leaves behind goes on with the rest
        m = E.read('mode', self.xc)[0]
        if m != self.mode:
            E.prove(self.num(E, 'k') == self.n if m == 'full' else False, 'an iteration that is abandoned can be taken up again')
        E.prove(self.source(E, E.read('_generator', self.xc)[0]), 'the source is kept')
        self.set(E, y=y + 1)
        self.others(E)

    def end(self, E):
        E.prove(self.num(E, 'pending') == 0, 'every IGT taken from the source is '
                + ('added' if self.mode == 'incremental' else 'yielded'))
        self.in_step(E)


def h_mode(mode):
    def h(E):
        xc = given(E, 'xc', 'model.XigtCorpus')
        g = Source(E, xc, mode)
        E.contracts['xigt.mixins.XigtContainerMixin.append'] = g.append
        loops.install(E, CORPUS + '.__iter__', g)
        gen = method(E, xc, '__iter__')
        got = outcome(E, lambda: E.stream(gen, lambda v: g.consume(E, v)))
        if got[0] != 'return':
            E.fail('an iteration ends without an error', repr(got[1]))
            raise Done()
        E.prove(g.num(E, 'k') == g.n, 'the source is exhausted')
        E.prove(g.num(E, 'pending') == 0, 'every IGT taken from the source is yielded')
        g.in_step(E)
        if mode == 'incremental':
            E.prove(g.num(E, 'y') == g.n, 'all IGTs are yielded, from the first on')
            E.prove(E.read('mode', xc)[0] in ('full', 'incremental'), 'afterwards the corpus can be iterated again')
    return h


def h_full(E):
    xc = given(E, 'xc', 'model.XigtCorpus')
    E.write('mode', xc, 'full')
    m = heap_mark(E)
    got = outcome(E, lambda: E.newlist(E.lib.iterate(E, method(E, xc, '__iter__'))))
    prove_frame(E, m, 'iteration')
    same_outcome(E, 'exactly the members, in order', got, ('return', E.newlist(E.content(xc))))


def h_init(mode):
    def h(E):
        ctor.install(E)
        src = None
        if E.choose('a source'):
            src = Obj(z3.Const('in:igts', U), 'list', False, 'obj:xigt.model.Igt')
        C = E.cls(CORPUS)
        kw = {'mode': mode}
        if src is not None or E.choose('None'):
            kw['igts'] = src
        if mode == 'full' and E.choose('default mode'):
            del kw['mode']
        got = outcome(E, lambda: E.call(C, [], kw))
        if got[0] != 'return':
            E.fail('a corpus is made', repr(got[1]))
            raise Done()
        xc = got[1]
        want = E.content(src) if src is not None else Seq()
        prove_same(E, E.getfield(xc, 'mode')[0], mode, 'the mode is kept')
        if mode == 'full':
            prove_same(E, E.newlist(E.content(xc)), E.newlist(want), 'full: the IGTs are members')
        else:
            prove_same(E, E.newlist(E.content(xc)), E.newlist(Seq()), 'no members yet')
            it = E.getfield(xc, '_generator')[0]
            if not isinstance(it, Obj) or it.cls != 'iterator':
                raise Unsupported('the source is not an iterator')
            prove_same(E, E.newlist(E.content(it)), E.newlist(want), 'the source gives the IGTs in order')
    return h


# ---- loading --------------------------------------------------------------------------------

class Captured(Exception):
    def __init__(self, kw):
        self.kw = kw


def capture(E):
    def c(E, f, args, kw):
        b = E.bind(f, args, kw)
        raise Captured(b)
    E.contracts[CORPUS + '.__init__'] = c


def made(E, thunk):
    try:
        thunk()
    except Captured as c:
        return c.kw
    except PyRaise as r:
        E.fail('a corpus is made', repr(r.exc))
        raise Done()
    E.fail('a corpus is made')
    raise Done()


def opaque_fn(E, name, n=1):
    """a decoding function is a function of its first argument"""
    def c(E, f, args, kw):
        t = uf('fn:' + name, U, U)(E.term(args[0]))
        return SU(t, 'any')
    return c


def h_json(E):
    capture(E)
    for n in ('decode_igt', 'decode_metadata', 'decode_attributes', 'active_namespaces'):
        E.contracts['xigt.codecs.xigtjson.' + n] = opaque_fn(E, n)
    E.contracts['xigt.codecs.xigtjson.active_namespaces'] = lambda E, f, a, k: E.newdict(DVal())
    igts = Obj(z3.Const('in:igts', U), 'list', False, 'any')
    o = E.newdict(DVal(None, [('set', 'igts', igts)] if E.choose('IGTs') else []))
    has = E.lib.dict_has(E, E.dcontent(o), 'igts')
    mode = sym_str(E, 'mode')
    fn = E.module('xigt.codecs.xigtjson').env.vars['decode']
    kw = made(E, lambda: run(E, fn, o, mode=mode))
    prove_same(E, kw.get('mode'), mode, 'the mode is passed on')
    f = uf('fn:decode_igt', U, U)
    b = E.prelist(igts)
    v = z3.Int('v!decoded')
    want = Seq([FM(b, z3.IntVal(0), b.len, v, [Leaf((), (), (Lit(SU(f(E.term(b.elem(v))), 'any')),))])]) \
        if E.decide(E.truth(has)) else Seq()
    got = kw.get('igts')
    prove_same(E, E.newlist(Seq()) if got is None else E.newlist(E.lib.iterate(E, got)), E.newlist(want), 'every IGT, in order')


class Events(loops.Ghost):
    """a document: events 0..N, depth(p) after event p, below the root"""

    def __init__(self, E):
        self.N = z3.Const('in:N', I)
        E.assume(self.N >= 1)
        self.d, self.st = uf('depth', I, I), uf('isstart', I, B)
        self.ob = Obj(z3.Const('in:events', U), 'events')
        self.root = self.elem_(E, 0)
        E.assume(z3.And(self.d(z3.IntVal(-1)) == 0, self.d(z3.IntVal(0)) == 0, self.st(z3.IntVal(0))))
        E.assume(z3.And(z3.Not(self.st(self.N)), self.d(self.N) == -1,
                        self.elem_(E, self.N).t == self.root.t))
        E.assume(fld('tag', self.root.t) == lit('xigt-corpus'))
        E.next_contract = self.next
        E.obj_attr['pelem'] = self.attr
        self.set(E, p=z3.IntVal(-1), y=z3.IntVal(0))

    def elem_(self, E, p):
        t = uf('evelem', I, U)(z3.IntVal(p) if isinstance(p, int) else p)
        return Obj(t, 'pelem')

    def attr(self, E, o, name):
        if name == 'tag':
            t = fld('tag', o.t)
            E.fact_once(kindf(t) == 3)
            return (SU(t, 'str'),)
        if name == 'clear':
            return (Native(lambda E, a, k: None),)
        raise Unsupported('Element.%s' % name)

    def set(self, E, **kw):
        for a, v in kw.items():
            E.write('#' + a, self.ob, SInt(z3.simplify(v)))

    def num(self, E, a):
        return E.read('#' + a, self.ob)[0].t

    def facts(self, E, p):
        """about event p >= 1"""
        d, st = self.d, self.st
        E.fact_once(z3.Implies(z3.And(1 <= p, p <= self.N), d(p) == d(p - 1) + z3.If(st(p), 1, -1)))
        E.fact_once(z3.Implies(z3.And(0 <= p, p < self.N), d(p) >= 0))
        E.fact_once(z3.Implies(z3.And(1 <= p, p <= self.N - 1), d(p - 1) >= 0))
        E.fact_once(z3.Implies(z3.And(1 <= p, p < self.N), self.elem_(E, p).t != self.root.t))
        E.fact_once(z3.Implies(p == self.N, d(p - 1) == 0))

    def event(self, E, p):
        self.facts(E, p)
        return ('start' if E.decide(self.st(p)) else 'end', self.elem_(E, p))

    def next(self, E, a):
        if not (isinstance(a[0], Obj) and a[0].cls == 'events'):
            raise Unsupported('next')
        p = self.num(E, 'p')
        E.prove(p < self.N, 'nothing is read beyond the end of the document')
        self.leave(E, p)
        p = z3.simplify(p + 1)
        self.set(E, p=p)
        return self.event(E, p)

    def havoc(self, E):
        p, y = E.fresh(I, 'p'), E.fresh(I, 'y')
        E.assume(z3.And(self.lo - 1 <= p, 0 <= p, p <= self.N))
        self.set(E, p=p, p0=p, y=y)
        E.write('#ev', self.ob, self.event(E, p))

    def values(self, E):
        p = self.num(E, 'p')
        self.facts(E, p)
        self.facts(E, z3.simplify(p - 1))
        k, e = self.event(E, p)
        return {'depth': SInt(self.d(p)), 'depth before': SInt(self.d(p - 1)), 'kind': k, 'element': e}

    def toplevel(self, p, start, tag):
        """event p starts (ends) an element below the root with this tag"""
        s = self.st(p) if start else z3.Not(self.st(p))
        return z3.And(1 <= p, p < self.N, s, self.d(p - 1 if start else p) == 0,
                      fld('tag', uf('evelem', I, U)(p)) == lit(tag))


class Skip(Events):
    def states(self, E):
        p = self.num(E, 'p')
        return {'event examined': z3.Not(self.toplevel(p, True, 'igt')), 'not at the end': p < self.N}

    def leave(self, E, p):
        E.prove(z3.Not(self.toplevel(p, True, 'igt')), 'no IGT is skipped')


class Elements(Events):
    def states(self, E):
        p, y = self.num(E, 'p'), self.num(E, 'y')
        return {'nothing yielded for the event yet': y == 0, 'event dealt with': y == self.due(p),
                'not at the end': p < self.N, 'beyond the start': p >= self.lo}

    def due(self, p):
        return z3.If(self.toplevel(p, False, 'igt'), 1, 0)

    def leave(self, E, p):
        E.prove(self.num(E, 'y') == self.due(p), 'every IGT is yielded, once')
        self.set(E, y=z3.IntVal(0))

    def consume(self, E, v):
        p = self.num(E, 'p')
        E.prove(self.toplevel(p, False, 'igt'), 'only IGTs of the corpus are yielded')
        E.prove(E.term(v) == self.elem_(E, p).t, 'the IGT that has been read completely')
        self.set(E, y=self.num(E, 'y') + 1)


def fnx(E, name):
    return E.module('xigt.codecs.xigtxml').env.vars[name]


def h_skip(E):
    """default_decode: up to the first IGT"""
    g = Skip(E)
    g.lo = z3.IntVal(0)
    capture(E)
    q = 'xigt.codecs.xigtxml.'
    seen = {}

    def c(E, f, args, kw):
        b = E.bind(f, args, kw)
        raise Captured(b)
    E.contracts[q + 'default_decode_xigtcorpus'] = c
    loops.install(E, q + 'default_decode', g)

    def elements(E, f, args, kw):
        seen.update(E.bind(f, args, kw))
        return Gen(lambda c: None, E.alloc('generator'))
    E.contracts[q + 'iter_elements'] = elements
    mode = sym_str(E, 'mode')
    kw = made(E, lambda: run(E, fnx(E, 'default_decode'), g.ob, mode=mode))
    p = g.num(E, 'p')
    prove_same(E, kw.get('mode'), mode, 'the mode is passed on')
    E.prove(E.term(kw.get('elem')) == g.root.t, 'the corpus is the root element')
    if kw.get('igts') is None:
        E.prove(p == g.N, 'no IGTs: there is none up to the end')
        return
    E.prove(g.toplevel(p, True, 'igt'), 'the IGTs are read from the start of the first one')
    gen = kw['igts']
    if not isinstance(gen, Gen):
        raise Unsupported('the IGTs are not a generator')
    E.stream(gen, lambda v: None)
    E.prove(bool(seen) and E.term(seen.get('events')) == g.ob.t, 'the IGTs are read from the same events')
    prove_same(E, seen.get('tag'), 'igt', 'IGTs are read')


def h_elements(E):
    g = Elements(E)
    q = 'xigt.codecs.xigtxml.iter_elements'
    p0 = E.fresh(I, 'first')
    g.facts(E, p0)
    E.assume(g.toplevel(p0, True, 'igt'))
    g.set(E, p=p0)
    g.lo = p0 + 1
    loops.install(E, q, g)
    brk = E.newlist(Seq([Lit(('end', 'xigt-corpus'))]))
    gen = run(E, fnx(E, 'iter_elements'), 'igt', g.ob, g.root, break_on=brk)
    got = outcome(E, lambda: E.stream(gen, lambda v: g.consume(E, v)))
    if got[0] != 'return':
        E.fail('reading ends without an error', repr(got[1]))
        raise Done()
    E.prove(g.num(E, 'p') == g.N, 'reading ends at the end of the corpus')
    E.prove(g.num(E, 'y') == g.due(g.num(E, 'p')), 'every IGT is yielded, once')


HARNESSES = [('full', guarded(h_full)), ('incremental', guarded(h_mode('incremental'))),
             ('transient', guarded(h_mode('transient')))] + [
    ('new corpus, %s' % m, guarded(h_init(m))) for m in ('full', 'incremental', 'transient')] + [
    ('json', guarded(h_json)), ('xml: first IGT', guarded(h_skip)), ('xml: IGTs', guarded(h_elements))]
