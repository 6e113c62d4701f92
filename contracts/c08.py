"""C08: item values and resolution of references, function by function: resolve against the
contract of Item.value, value against that of resolve_ref, resolve_ref against that of resolve
(the references are acyclic, so the recursion is well-founded)."""
from common import *
import regs
from regs import IDS

TRUSTED = ['the recursion value/resolve_ref/resolve is well-founded (precondition: acyclic references)',
           'lookup of a member by id (get: C03, get_item: C09)',
           'int() of the decimal numbers of a well-formed span succeeds (int(str) is an uninterpreted function)']
REFS = ('content', 'segmentation')


def SETUP(E):
    load(E)
    E.module('xigt.ref')
    spec_module(E, 'values')
    schema(E)
    E.schema['xigt.model.Tier', 'get_item'] = 'absent'
    regs.install(E, [IDS])
    E.decimals = True
    E.rx_role_of = regs.role_of


def lookups(E):
    """members by id: a function of the container and the id"""
    def get(E, f, args, kw):
        b = E.bind(f, args, kw)
        names = list(b)
        c, k = b[names[0]], b[names[1]]
        d = b.get('default')
        if d is not None:
            raise Unsupported('lookup with a default')
        m = MEMBER[c.cls.qual.replace('xigt.', '')] if f.name == 'get' else 'model.Item'
        t = uf('member:' + f.name, U, U, U)(c.t, E.term(k))
        if E.decide(t == NONE):
            return None
        E.fact_once(z3.Not(fresh_p(t)))
        return E.preobj(t, 'xigt.' + m)
    E.contracts['xigt.mixins.XigtContainerMixin.get'] = get
    E.contracts['xigt.model.Igt.get_item'] = get


def c_value(E, f, args, kw):
    """an item's value: a string or None, or the error of a missing object"""
    b = E.bind(f, args, kw)
    ra = b.get('refattrs', REFS)
    x = b['self']
    t = uf('value', U, U, U)(x.t, E.term(ra) if not isinstance(ra, tuple) else lit(repr(ra)))
    if E.decide(uf('dangling', U, B)(t)):
        raise PyRaise(E.mkexc(E.module('xigt.errors').env.vars['XigtStructureError'], ()))
    return SU(t, 'optstr') if not E.decide(t == NONE) else None


def spans_fn(E):
    def f(E, args, kw):
        return E.newlist(Seq([whole(regs.span_base(E, E.term(args[0])))]))
    return Native(f, 'spans')


def h_resolve(cls, pad):
    def h(E):
        lookups(E)
        E.contracts['xigt.model.Item.value'] = c_value
        c = given(E, 'c', cls)
        inner = sym_str(E, 'e')
        E.assume(inner.t != lit(''))
        e = inner
        if pad:    # white space around the expression
            e = sym_str(E, 'padded')
            E.assume(E.term(E.lib.str_method(E, e, 'strip', [], {})) == inner.t)
            regs.set_role(E, E.lib.str_method(E, e, 'strip', [], {}), regs.expr_role(E, ws=False))
        else:
            E.assume(E.term(E.lib.str_method(E, e, 'strip', [], {})) == inner.t)
            regs.set_role(E, E.lib.str_method(E, e, 'strip', [], {}), regs.expr_role(E, ws=False))
        regs.set_role(E, inner, regs.expr_role(E, ws=False))
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, E.module('xigt.ref').env.vars['resolve'], c, e))
        prove_frame(E, m, 'resolve')
        toks = E.newlist(Seq([whole(regs.tok_base(E, E.term(E.lib.str_method(E, e, 'strip', [], {}))))]))
        get = 'get_item' if cls == 'model.Igt' else 'get'
        member = Native(lambda E, a, k: method(E, c, get, a[0]), 'member')
        want = outcome(E, lambda: run(E, spec_fn(E, 'values', 'resolved'), toks, spans_fn(E), member))
        same_outcome(E, 'resolve: the selected values in order, cut and joined', got, want)
    return h


def item(E):
    x = given(E, 'x', 'model.Item')
    return x


def c_ref(E, f, args, kw):
    b = E.bind(f, args, kw)
    x, a = list(b.values())[:2]
    t = uf('resolved:' + f.name, U, U, U)(x.t, E.term(a))
    if E.decide(uf('dangling', U, B)(t)):
        raise PyRaise(E.mkexc(E.module('xigt.errors').env.vars['XigtStructureError'], ()))
    E.fact_once(kindf(t) == 3)
    return SU(t, 'str')


def h_value(which):
    def h(E):
        x = item(E)
        E.contracts['xigt.model.Item.resolve_ref'] = c_ref
        kw = {}
        attrs = list(REFS)
        if which == 'given':
            a, b = sym_str(E, 'a'), sym_str(E, 'b')
            attrs = [a, b]
            kw = {'refattrs': (a, b) if E.choose('tuple') else E.newlist(Seq([Lit(a), Lit(b)]))}
        elif which == 'none':
            attrs = []
            kw = {'refattrs': None if E.choose('None') else ()}
        m = heap_mark(E)
        got = outcome(E, lambda: E.call(E.getattr(x, 'value'), [], dict(kw)))
        prove_frame(E, m, 'value')
        want = outcome(E, lambda: run(E, spec_fn(E, 'values', 'value'), x, E.newlist(Seq([Lit(a) for a in attrs]))))
        same_outcome(E, 'value: the text, else by the first reference there is', got, want)
        if which == 'default':
            got = outcome(E, lambda: method(E, x, 'get_content'))
            same_outcome(E, 'get_content is value', got, want)
    return h


def h_ref(E):
    x = item(E)
    lookups(E)
    E.contracts['xigt.ref.resolve'] = c_ref
    a = sym_str(E, 'a')
    m = heap_mark(E)
    got = outcome(E, lambda: method(E, x, 'resolve_ref', a))
    prove_frame(E, m, 'resolve_ref')
    member = Native(lambda E, a, k: method(E, a[0], 'get', a[1]), 'member')
    resolve = Native(lambda E, a, k: run(E, E.module('xigt.ref').env.vars['resolve'], *a), 'resolve')
    want = outcome(E, lambda: run(E, spec_fn(E, 'values', 'resolve_ref'), x, a, member, resolve))
    same_outcome(E, 'resolve_ref: through the tier named by the same attribute', got, want)


def h_span(E):
    x = item(E)
    E.contracts['xigt.model.Item.value'] = c_value

    def end(n):
        return SInt(z3.Int('in:' + n)) if E.choose(n) else None
    a, b = end('start'), end('stop')
    m = heap_mark(E)
    got = outcome(E, lambda: method(E, x, 'span', a, b))
    prove_frame(E, m, 'span')
    same_outcome(E, 'span(m, n) is value()[m:n]', got,
                 outcome(E, lambda: run(E, spec_fn(E, 'values', 'span'), x, a, b)))


HARNESSES = [('resolve in a tier', guarded(h_resolve('model.Tier', False))),
             ('resolve in an igt', guarded(h_resolve('model.Igt', False))),
             ('resolve, white space around', guarded(h_resolve('model.Tier', True))),
             ('value', guarded(h_value('default'))), ('value by given attributes', guarded(h_value('given'))),
             ('value by no attributes', guarded(h_value('none'))),
             ('resolve_ref', guarded(h_ref)), ('span', guarded(h_span))]
