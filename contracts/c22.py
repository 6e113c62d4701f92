"""C22: query counts and description templates."""
from common import *
from houdini import stores
import stubs
import xmlstub

TRUSTED = ['collections.Counter counts equal objects, most_common gives every distinct one with its count, largest first',
           'string.Formatter.parse gives the literal texts and fields of a template, str.format and '
           'Formatter.vformat format the given fields and turn doubled braces into braces',
           'xigtpath.findall (C15), loading (C13)', 'argparse calls AgendaAction with the values of an option; a description follows an action']
M = 'xigt.scripts.xigt_query'


def SETUP(E):
    xmlstub.install(E)
    load(E)
    E.extra_modules['string'] = os.path.join(SPECS, 'formatter.py')
    stubs.install_counter(E)
    E.module(M)
    schema(E)
    spec_module(E, 'query')
    E.contracts['xigt.xigtpath.findall'] = lambda E, f, a, k: findall(E, *a, **k)


def findall(E, node, path):
    t = uf('findall', U, U, U)(E.term(node), E.term(path))
    E.fact_once(z3.Not(fresh_p(t)))
    return Obj(t, 'list', False, 'any')


def fn(E, name):
    return E.module(M).env.vars[name]


def agendum(E, name='agendum'):
    ks = {k: sym_str(E, name + '_' + k) for k in ('action', 'query', 'subquery', 'description')}
    ks['result'] = None
    return E.newdict(DVal(None, [('set', k, v) for k, v in ks.items()])), ks


def h_number(which):
    def h(E):
        xc = given(E, 'xc', 'model.XigtCorpus')
        a, ks = agendum(E)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, fn(E, which + '_pattern'), xc, a))
        prove_frame(E, m, which)
        want = run(E, spec_fn(E, 'query', which), findall(E, xc, ks['query']), ks['description'])
        same_outcome(E, which + ': the number of ' + ('matches' if which == 'count' else 'distinct matches'), got, ('return', want))
    return h


def h_tally(E):
    xc = given(E, 'xc', 'model.XigtCorpus')
    a, ks = agendum(E)
    m = heap_mark(E)
    E.counted = None
    got = outcome(E, lambda: run(E, fn(E, 'tally_pattern'), xc, a))
    prove_frame(E, m, 'tally')
    if E.counted is None:
        raise Unsupported('tally without Counter.most_common')
    sub = Native(lambda E, a, k: findall(E, a[0], ks['subquery']), 'find')
    want = run(E, spec_fn(E, 'query', 'groups'), findall(E, xc, ks['query']), sub)
    prove_same(E, E.counted, want, 'one tally for every match, by all subquery results in order')
    n, v, t = z3.Int('distinct'), uf('common', I, U), uf('times', I, I)
    common = E.newlist(Seq([whole(Base(('common',), n, lambda i: (SU(v(i), 'any'), SInt(t(i)))))]))
    want = run(E, spec_fn(E, 'query', 'tallies'), common, ks['description'])
    same_outcome(E, 'every distinct tuple with its number, largest first', got, ('return', want))


def h_agenda(E):
    """every agendum is answered by its own action, in order"""
    xc = given(E, 'xc', 'model.XigtCorpus')
    for w in ('tally', 'unique', 'count', 'find'):
        def c(E, f, args, kw, w=w):
            b = E.bind(f, args, kw)
            E.prove(E.term(b['xc']) == xc.t, 'the corpus is queried')
            t = uf('answer:' + w, U, U)(E.term(b['agendum']))
            if w == 'tally':
                E.fact_once(z3.Not(fresh_p(t)))
                return Obj(t, 'list', False, 'any')
            return None if w == 'find' else SU(t, 'any')
        E.contracts[M + '.' + w + '_pattern'] = c
    base = Obj(z3.Const('in:agenda', U), 'list', False, 'dict:str>str')
    E.assume(z3.Not(fresh_p(base.t)))
    i = z3.Int('i!agendum')
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0), dhas(E.prelist(base).elem(i).t, lit('action')))))
    got = outcome(E, lambda: run(E, fn(E, 'process_agenda'), xc, base))
    call = lambda w: Native(lambda E, a, k: run(E, fn(E, w + '_pattern'), xc, a[0]))
    want = run(E, spec_fn(E, 'query', 'process'), base, call('tally'), call('unique'), call('count'))
    same_outcome(E, 'the answers in the order of the agenda', got, ('return', want))


def h_format(E):
    f = sym_str(E, 'template')
    n = z3.Int('in:n')
    E.assume(n >= 0)
    L, N, S, C = (uf('in:' + k, I, U) for k in ('lit', 'name', 'spec', 'conv'))

    def tok(i):
        for b in '{}':
            E.fact_once(z3.Not(uf('contains', U, U, B)(L(i), lit(b))))
        E.fact_once(z3.And(kindf(L(i)) == 3, z3.Or(kindf(N(i)) == 3, N(i) == NONE)))
        E.fact_once(z3.And(z3.Or(kindf(S(i)) == 3, S(i) == NONE), z3.Or(kindf(C(i)) == 3, C(i) == NONE)))
        E.fact_once(z3.And((N(i) == NONE) == (S(i) == NONE), z3.Implies(N(i) == NONE, C(i) == NONE)))
        # implicit and explicit positions are not fields by name
        return (SU(L(i), 'str'), SU(N(i), 'optstr'), SU(S(i), 'optstr'), SU(C(i), 'optstr'))
    base = Base(('tokens',), n, tok)
    kwargs = Obj(z3.Const('in:kwargs', U), 'dict', False, 'str>str')
    seen = []

    def parse(E, f_, args, kw):
        E.prove(E.term(args[1]) == f.t, 'the template itself is parsed')
        return E.newlist(Seq([whole(base)]))

    def vformat(E, f_, args, kw):
        b = E.bind(f_, args, kw)
        seen.append(b)
        return SU(z3.Const('formatted', U), 'str')
    E.contracts['string.Formatter.parse'] = parse
    E.contracts['string.Formatter.vformat'] = vformat
    i = z3.Int('i!name')
    sf = fn(E, 'safe_format')
    if not isinstance(sf, BoundMethod):
        raise Unsupported('safe_format')
    hd = lambda name: run(E, E.module('string').env.vars['head'], name)

    # names that are neither empty nor numbers
    def named(i):
        h = E.term(hd(SU(N(i), 'str')))
        return z3.And(h != lit(''), z3.Not(uf('strp:isdigit', U, B)(h)))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, N(i) != NONE), named(i))))
    got = outcome(E, lambda: method(E, sf.self, 'vformat', f, (), kwargs))
    if got[0] != 'return':
        E.fail('formatting does not fail', repr(got[1]))
        raise Done()
    if len(seen) != 1:
        raise Unsupported('formatting without one call of Formatter.vformat')
    b = seen[0]
    E.prove(E.term(b['kwargs']) == kwargs.t, 'the given fields are substituted')
    prove_same(E, got[1], SU(z3.Const('formatted', U), 'str'), 'the result is returned')
    want = run(E, E.module('string').env.vars['prepared'], E.newlist(Seq([whole(base)])), kwargs)
    prove_same(E, b['format_string'], want, 'exactly the given fields stay fields, all else becomes literal text')


def h_wiring(E):
    """safe_format is the format method of a SafeFormatter, which formats by vformat"""
    sf = fn(E, 'safe_format')
    got = []
    C = sf.self.cls
    E.contracts[C.qual + '.vformat'] = lambda E, f, a, k: got.append((a, k))
    t, v = sym_str(E, 't'), sym_str(E, 'v')
    run(E, sf, t, query=v)
    if len(got) != 1:
        E.fail('safe_format formats once')
        return
    a, k = got[0]
    prove_same(E, a[1], t, 'the template is formatted')
    prove_same(E, a[2], (), 'no positions')
    prove_same(E, a[3], E.newdict(DVal(None, [('set', 'query', v)])), 'the fields are given')


# ---- the command ------------------------------------------------------------------------------

def printing(E):
    E.printed = E.newlist(Seq())
    return E.printed


def h_find(E):
    xc = given(E, 'xc', 'model.XigtCorpus')
    a, ks = agendum(E)
    m = heap_mark(E)
    out = printing(E)
    got = outcome(E, lambda: run(E, fn(E, 'find_pattern'), xc, a))
    prove_frame(E, m, 'find')
    want = run(E, spec_fn(E, 'query', 'found'), findall(E, xc, ks['query']), ks['description'])
    if got[0] != 'return':
        E.fail('find does not fail', repr(got[1]))
        raise Done()
    prove_same(E, out, want, 'one line for every match, in order')


def results(E, t):
    n = uf('nresults', U, I)(t)
    num, desc = uf('rnumber', U, I, I), uf('rtext', U, I, U)

    def el(i):
        E.fact_once(kindf(desc(t, i)) == 3)
        return (SInt(num(t, i)), SU(desc(t, i), 'str'))
    E.fact_once(n >= 0)
    return E.newlist(Seq([whole(Base(('results', KTerm(t)), n, el))]))


def h_print(E):
    rs = results(E, z3.Const('in:results', U))
    out = printing(E)
    got = outcome(E, lambda: run(E, fn(E, 'print_results'), rs))
    if got[0] != 'return':
        E.fail('printing does not fail', repr(got[1]))
        raise Done()
    prove_same(E, out, run(E, spec_fn(E, 'query', 'lines'), rs), 'one line for every result, in order, numbers aligned')


def namespace(E, **kw):
    o = Obj(z3.Const('in:args', U), 'args')
    for k, v in kw.items():
        E.write(k, o, v)
    return o


def h_command(base):
    def h(E):
        infiles = Obj(z3.Const('in:infiles', U), 'list', False, 'str')
        E.assume(z3.Not(fresh_p(infiles.t)))
        args = namespace(E, infiles=infiles, basename=base)
        head, agenda = sym_str(E, 'heading'), E.newlist(Seq())
        out = printing(E)
        name = lambda f: E.lib.opaque_str(E, 'basename', f) if base else f
        E.ext_contract['os.path.basename'] = lambda E, a, kw: E.lib.opaque_str(E, 'basename', a[0])
        E.contracts[M + '.make_job'] = lambda E, f, a, kw: E.newdict(DVal(None, [
            ('set', 'agenda', agenda), ('set', 'file_description', head)]))
        E.contracts['xigt.codecs.xigtxml.load'] = lambda E, f, a, kw: Obj(
            uf('loaded', U, U)(E.term(E.bind(f, a, kw)['fh'])), schema(E) or 'Corpus', False)

        def process(E, f, a, kw):
            b = E.bind(f, a, kw)
            E.prove(same(E, b['agenda'], agenda), 'the agenda of the job')
            return SU(uf('answers', U, U)(E.term(b['xc'])), 'any')
        E.contracts[M + '.process_agenda'] = process
        E.contracts[M + '.print_results'] = lambda E, f, a, kw: E.lib.list_method(E, out, 'append', list(a), {})
        got = outcome(E, lambda: run(E, fn(E, 'run'), args))
        if got[0] != 'return':
            E.fail('the command does not fail', repr(got[1]))
            raise Done()
        heading = lambda E, a, kw: (E.lib.str_method(E, head, 'format', [], {'filename': name(a[0])}),)
        res = lambda E, a, kw: SU(uf('answers', U, U)(uf('loaded', U, U)(E.term(a[0]))), 'any')
        prove_same(E, out, run(E, spec_fn(E, 'query', 'reports'), infiles, Native(heading), Native(res)),
                   'for every file its heading, its results and an empty line')
    return h


ACTIONS = ('find', 'tally', 'unique', 'count', 'description')


def h_job(E):
    """any agenda so far, any next argument: it becomes the next agendum, or the description of the last one"""
    def c_format(E, f, a, kw):
        E.prove(set(kw) == {'query', 'subquery'} and len(a) == 2, 'query and subquery are substituted')
        return E.lib.opaque_str(E, 'safe_format', a[1], kw['query'], kw['subquery'])
    E.contracts['string.Formatter.format'] = c_format
    fmt = lambda t, q, s: E.lib.opaque_str(E, 'safe_format', t, q, s)
    given_args = Obj(z3.Const('in:agenda', U), 'list', False, 'any')
    E.assume(z3.Not(fresh_p(given_args.t)))
    desc = sym_str(E, 'file_description') if E.choose('a description of files') else None
    args = namespace(E, agenda=given_args, file_description=desc)
    steps = []

    def agenda_of(env):
        """the agenda: the list that is in the job"""
        for v in env.vars.values():
            if isinstance(v, Obj) and v.cls == 'dict' and v.fresh:
                r = E.dict_find(E.dcontent(v), 'agenda')
                if r is not None:
                    return r[0]
        raise Unsupported('make_job without a job')

    def rule(E, st, env, it):
        if not isinstance(st, ast.For) or not (isinstance(it, Obj) and E.implied(it.t == given_args.t)):
            return False
        ag = agenda_of(env)
        prove_same(E, ag, E.newlist(Seq()), 'the agenda is empty at first')
        steps.append(1)
        # any agenda
        n, A = z3.Int('nagenda'), uf('agendum', I, U)
        E.assume(n >= 0)

        def el(i):
            for k in ('action', 'query', 'subquery', 'description'):
                E.fact_once(dhas(A(i), lit(k)))
                E.fact_once(kindf(dget(A(i), lit(k))) == 3)
            E.fact_once(z3.Not(fresh_p(A(i))))
            return Obj(A(i), 'dict', False, 'str>str')
        before = Seq([whole(Base(('agenda so far',), n, el))])
        if E.choose('more arguments'):
            act = next((a for a in ACTIONS[:-1] if E.choose(a)), ACTIONS[-1])
            v, w = sym_str(E, 'value'), sym_str(E, 'value2')
            vals = v if act == 'description' else E.newlist(Seq([Lit(v)] + ([Lit(w)] if act == 'tally' else [])))
            if act == 'description':
                E.assume(n > 0)
                last = el(z3.simplify(n - 1))
                old = E.dcontent(last)
                was = [E.dict_find(old, k)[0] for k in ('query', 'subquery')]
            E.set_content(ag, before)
            carried = [x for x in sorted(stores(st.body)) if x in env.vars]
            for x in carried:
                env.vars[x] = Poison('%s is carried from argument to argument' % x)
            m = heap_mark(E)
            E.assign(st.target, (act, vals), env)
            try:
                E.exec_block(st.body, env)
            except Cont:
                pass
            if act == 'description':
                prove_frame(E, m, 'make_job', lambda f, t: E.implied(t == last.t))
                prove_same(E, E.newlist(E.content(ag)), E.newlist(before), 'a description adds nothing to the agenda')
                d = E.dcontent(last)
                for k in ('action', 'query', 'subquery'):
                    prove_same(E, E.dict_find(d, k)[0], E.dict_find(old, k)[0], 'a description changes nothing else')
                prove_same(E, E.dict_find(d, 'description')[0], fmt(v, *was), 'it is the description of the last one')
            else:
                prove_frame(E, m, 'make_job')
                want = run(E, spec_fn(E, 'query', 'asked'), act, vals, Native(lambda E, a, k: fmt(*a)))
                prove_same(E, E.newlist(E.content(ag)), E.newlist(Seq(before.parts + (Lit(want),))),
                           'an action becomes the next agendum')
            raise Done()
        E.set_content(ag, before)
        E.final = before
        return True
    E.loop_rules[M + '.make_job'] = rule
    got = outcome(E, lambda: run(E, fn(E, 'make_job'), args))
    if got[0] != 'return':
        E.fail('making the job does not fail', repr(got[1]))
        raise Done()
    if not steps:
        raise Unsupported('make_job without a loop over the agenda')
    d = E.dcontent(got[1])
    prove_same(E, E.newlist(E.content(E.dict_find(d, 'agenda')[0])), E.newlist(E.final), 'the agenda of the job')
    want = desc if desc is not None and E.decide(E.truth(desc)) else '{filename}:'
    prove_same(E, E.dict_find(d, 'file_description')[0], want, 'the heading of files')


def h_action(E):
    """options are kept in the order in which they are given"""
    C = fn(E, 'AgendaAction')
    o = E.alloc(C)
    E.write('dest', o, sym_str(E, 'dest'))
    ns = E.alloc('Namespace')
    old = None
    if E.choose('not the first'):
        old = Obj(z3.Const('in:agenda', U), 'list', False, 'any')
        E.assume(z3.Not(fresh_p(old.t)))
        E.write('agenda', ns, old)
    E.stubs['Namespace'] = {'setattr': ('agenda',), 'contains': lambda E, o, k: E.getfield(o, k) is not None}
    was = E.content(old).parts if old is not None else ()
    v = SU(z3.Const('in:values', U), 'any')
    got = outcome(E, lambda: E.call(o, [SU(z3.Const('in:parser', U), 'any'), ns, v], {}))
    if got[0] != 'return':
        E.fail('AgendaAction does not fail', repr(got[1]))
        raise Done()
    now = E.getfield(ns, 'agenda')
    if now is None:
        E.fail('the option is kept')
        raise Done()
    prove_same(E, E.newlist(E.content(now[0])), E.newlist(Seq(tuple(was) + (Lit((SU(z3.Const('in:dest', U), 'str'), v)),))),
               'an option is put behind those before it')


HARNESSES = [('find', guarded(h_find)), ('print_results', guarded(h_print)), ('make_job', guarded(h_job)),
             ('run', guarded(h_command(False))), ('run, base names', guarded(h_command(True))), ('options', guarded(h_action))]
HARNESSES += [('count', guarded(h_number('count'))), ('unique', guarded(h_number('unique'))), ('tally', guarded(h_tally)),
             ('agenda', guarded(h_agenda)), ('format', guarded(h_format)), ('safe_format', guarded(h_wiring))]
