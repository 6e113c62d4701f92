"""Library objects described by contracts: collections.Counter."""
from common import *

COUNTER = 'collections.Counter'


def tuple_value(E, v):
    """the value of an instance of a class derived from tuple"""
    if isinstance(v, Obj) and isinstance(v.cls, UserClass) and v.cls.isbuiltin(tuple):
        return lib.STuple(E.content(v))
    return v


def install_counter(E):
    def items(E, c):
        return E.getfield(c, 'counted')[0]

    def new(E, args, kw):
        if kw or len(args) > 1:
            raise Unsupported('Counter')
        c = E.alloc('Counter')
        s = E.newlist(Seq())
        if args:
            count(E, s, args[0])
        E.write('counted', c, s)
        E.write('before', c, None)
        return c

    def count(E, s, objs):
        E.stream(objs, lambda v: E.lib.list_method(E, s, 'append', [tuple_value(E, v)], {}))

    def get(E, c, k):
        n = SInt(E.fresh(I, 'count'))
        E.write('before', c, (k, n))
        return n

    def put(E, c, k, v):
        b = E.getfield(c, 'before')[0]
        if b is None or not same(E, b[0], k) or not isinstance(v, SInt):
            raise Unsupported('Counter: assignment of something else than one more')
        E.prove(v.t == b[1].t + 1, 'counted once')
        E.lib.list_method(E, items(E, c), 'append', [tuple_value(E, k)], {})
        E.write('before', c, None)

    def common(E, c, args, kw):
        if args or kw:
            raise Unsupported('most_common(n)')
        E.counted = items(E, c)
        n, v, m = z3.Int('distinct'), uf('common', I, U), uf('times', I, I)
        E.fact_once(n >= 0)
        return E.newlist(Seq([whole(Base(('common',), n, lambda i: (SU(v(i), 'any'), SInt(m(i)))))]))

    def attr(E, o, name):
        if name == 'most_common':
            return (Native(lambda E, a, k: common(E, o, a, k)),)
        if name == 'update':
            return (Native(lambda E, a, k: count(E, items(E, o), a[0])),)
        raise Unsupported('Counter.%s' % name)
    E.ext_contract[COUNTER] = new
    E.obj_attr['Counter'] = attr
    E.stubs['Counter'] = {
        'getitem': get, 'setitem': put,
        'len': lambda E, c: lib.SLen(lib.SetOf(E.content(items(E, c))))}
