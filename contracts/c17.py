"""C17: partitioning. The index is a set of entries (key, input file, number of the IGT in it):
index adds one entry for every IGT, run writes one file for every key, write writes exactly the
IGTs of the entries of its key. An IGT has one entry, so it is in one file."""
from common import *
import ctor
import xmlstub

TRUSTED = ['a defaultdict of defaultdicts of sets is a set of triples, iterated key by key, files in the order of their '
           'first entry', 'different keys that are valid file names give different paths in the output directory',
           'loading delivers the IGTs of a file in order, the same ones each time (C14)', 'dump writes the corpus (C13)',
           'xigtpath.find (C15)']
M = 'xigt.scripts.xigt_partition'


def SETUP(E):
    xmlstub.install(E)
    load(E)
    E.lib.EXT['collections', 'defaultdict'] = Builtin('collections.defaultdict')
    E.ext_contract['collections.defaultdict'] = lambda E, a, k: new_index(E)
    E.ext_contract['os.path.join'] = join
    E.module(M)
    schema(E)
    spec_module(E, 'partition')
    E.contracts['xigt.codecs.xigtxml.load'] = c_load
    E.stubs['index'] = {'getitem': lambda E, o, k: part(E, 'index1', o, k)}
    E.stubs['index1'] = {'getitem': lambda E, o, k: part(E, 'numbers', o, k)}
    E.stubs['numbers'] = {'contains': lambda E, o, x: uf('hasnumber', U, U, B)(o.t, E.term(x))}
    E.obj_attr['numbers'] = numbers_attr
    E.obj_attr['index'] = index_attr
    E.obj_attr['index1'] = index_attr


def join(E, a, kw):
    if len(a) != 2:
        raise Unsupported('path.join')
    return E.lib.opaque_str(E, 'path.join', *a)


def igts(E, fn):
    t = uf('igtsof', U, U)(E.term(fn))
    E.fact_once(z3.Not(fresh_p(t)))
    return Obj(t, 'list', False, 'obj:xigt.model.Igt')


def c_load(E, f, args, kw):
    b = E.bind(f, args, kw)
    return igts(E, b['fh'])


def new_index(E):
    o = E.alloc('index')
    E.write('root', o, o)
    E.write('keys', o, ())
    E.write('entries', o, E.newlist(Seq()))
    return o


def part(E, cls, o, k):
    r = E.getfield(o, 'root')
    if r is None:
        raise Unsupported('lookup in a group')
    n = E.alloc(cls)
    E.write('root', n, r[0])
    E.write('keys', n, E.getfield(o, 'keys')[0] + (k,))
    return n


def numbers_attr(E, o, name):
    if name == 'add':
        def add(E, a, kw):
            r = E.getfield(o, 'root')[0]
            E.lib.list_method(E, E.getfield(r, 'entries')[0], 'append', [E.getfield(o, 'keys')[0] + (a[0],)], {})
        return (Native(add),)
    raise Unsupported('set.%s' % name)


def groups(E, t, cls):
    """the items of a map: unknown keys, groups of entries"""
    n, k, v = uf('ngroups', U, I)(t), uf('gkey', U, I, U), uf('gval', U, I, U)
    E.fact_once(n >= 0)

    def el(i):
        E.fact_once(kindf(k(t, i)) == 3)
        return (SU(k(t, i), 'str'), Obj(v(t, i), cls))
    return E.newlist(Seq([whole(Base(('groups', KTerm(t)), n, el))]))


def index_attr(E, o, name):
    if name == 'items':
        return (Native(lambda E, a, k: groups(E, o.t, 'index1' if o.cls == 'index' else 'numbers')),)
    if name in ('keys', 'values'):
        n = 0 if name == 'keys' else 1
        return (Native(lambda E, a, k: E.newlist(E.lib.map_parts(
            E.content(groups(E, o.t, 'index1' if o.cls == 'index' else 'numbers')), lambda x: x[n]))),)
    raise Unsupported('dict.%s' % name)


def fn(E, name):
    return E.module(M).env.vars[name]


def h_index(dflt):
    def h(E):
        name, by = sym_str(E, 'fn'), sym_str(E, 'by')
        default = sym_str(E, 'default') if dflt else '---'

        def find(E, x):
            t = uf('found', U, U, U)(E.term(x), by.t)
            E.fact_once(z3.Not(fresh_p(t)))
            return SU(t, 'optstr')

        def c(E, f, args, kw):
            b = list(E.bind(f, args, kw).values())
            E.prove(E.term(b[1]) == by.t, 'the key path is used')
            return find(E, b[0])
        E.contracts['xigt.xigtpath.find'] = c
        idx = new_index(E)
        old = given(E, 'old', 'model.Igt')
        E.lib.list_method(E, E.getfield(idx, 'entries')[0], 'append', [('old', 'old', 0)], {})
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, 'index'), name, by, idx, *([default] if dflt else [])))
        prove_frame(E, m, 'index')
        want = run(E, spec_fn(E, 'partition', 'entries'), igts(E, name), name,
                   Native(lambda E, a, k: find(E, a[0])), default)
        if got[0] != 'return':
            E.fail('indexing does not fail', repr(got[1]))
            raise Done()
        prove_same(E, E.getfield(idx, 'entries')[0], E.newlist(Seq((Lit(('old', 'old', 0)),) + E.content(want).parts)),
                   'one entry for every IGT, under its key')
    return h


def h_write(E):
    ctor.install(E)
    out = sym_str(E, 'out')
    files = Obj(z3.Const('in:files', U), 'index1')
    dumped = []

    def c(E, f, args, kw):
        b = E.bind(f, args, kw)
        dumped.append((b['f'], E.content(b['xc'])))
    E.contracts['xigt.codecs.xigtxml.dump'] = c
    got = outcome(E, lambda: run(E, fn(E, 'write'), out, files))
    if got[0] != 'return':
        E.fail('writing does not fail', repr(got[1]))
        raise Done()
    E.prove(len(dumped) == 1, 'one file is written')
    if len(dumped) != 1:
        raise Done()
    prove_same(E, dumped[0][0], out, 'the output file is written')
    want = run(E, spec_fn(E, 'partition', 'content'), groups(E, files.t, 'numbers'),
               Native(lambda E, a, k: igts(E, a[0])))
    prove_same(E, E.newlist(dumped[0][1]), want, 'exactly the IGTs of the group, in order')


def h_run(E):
    args = Obj(z3.Const('in:args', U), 'args')
    infiles = Obj(z3.Const('in:infiles', U), 'list', False, 'str')
    vals = {'key_path': sym_str(E, 'key_path'), 'outdir': sym_str(E, 'outdir'), 'infiles': infiles,
            'default_key': sym_str(E, 'default_key')}
    for k, v in vals.items():
        E.write(k, args, v)
    calls, writes = E.newlist(Seq()), E.newlist(Seq())
    state = {'idx': None}

    def index(E, f, a, kw):
        b = E.bind(f, a, kw)
        i = b['idx']
        E.prove(isinstance(i, Obj) and i.cls == 'index' and (state['idx'] is None or i.t.eq(state['idx'].t)),
                'all files go into one index')
        state['idx'] = i
        E.lib.list_method(E, calls, 'append', [(b['fn'], b['by'], b['default_key'])], {})

    def write(E, f, a, kw):
        b = E.bind(f, a, kw)
        E.lib.list_method(E, writes, 'append', [(b['out_fn'], b['fn_idx'])], {})
    E.contracts[M + '.index'] = index
    E.contracts[M + '.write'] = write
    E.contracts[M + '.create_outdir'] = lambda E, f, a, kw: E.prove(
        E.term(a[0]) == vals['outdir'].t, 'the output directory is created')
    E.stubs['index1']['len'] = lambda E, o: SInt(uf('ngroups', U, I)(o.t))
    got = outcome(E, lambda: run(E, fn(E, 'run'), args))
    if got[0] != 'return':
        E.fail('partitioning does not fail', repr(got[1]))
        raise Done()
    want = run(E, spec_fn(E, 'partition', 'indexed'), infiles, vals['key_path'], vals['default_key'])
    prove_same(E, calls, want, 'every input file is indexed, once, in order')
    if state['idx'] is None:
        return
    want = run(E, spec_fn(E, 'partition', 'outputs'), groups(E, state['idx'].t, 'index1'), vals['outdir'],
               Native(lambda E, a, k: join(E, a, k)))
    prove_same(E, writes, want, 'every group is written to the file named by its key, once')


def h_key(E):
    k = sym_str(E, 'k')
    got = outcome(E, lambda: run(E, fn(E, 'normalize_key'), k))
    same_outcome(E, "the key with '-' for ':'", got, ('return', E.lib.str_method(E, k, 'replace', [':', '-'], {})))


HARNESSES = [('index', guarded(h_index(True))), ('index, default', guarded(h_index(False))), ('write', guarded(h_write)),
             ('run', guarded(h_run)), ('key', guarded(h_key))]
