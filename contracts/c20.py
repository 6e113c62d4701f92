"""C20: Toolbox lines keep their byte columns; segments of words and morphemes."""
import re
from re import _parser, _constants
from common import *
import regs
import rx
import ctor
import houdini
from houdini import stores
import xmlstub

TRUSTED = ['a token decoded from n bytes has at most n characters, and white space bytes decode to themselves '
           '(true of the ASCII-compatible encodings Toolbox files use)', 'str.ljust, startswith, strip, slicing and join (CPython)']
T = 'xigt.importers.toolbox'


def SETUP(E):
    xmlstub.install(E)
    xmlstub.toolbox_stubs(E)
    load(E)
    E.module(T)
    E.string_facts = True
    spec_module(E, 'columns')
    houdini.install(E)
    regs.install(E)
    for how in ('match', 'fullmatch'):
        E.regex_contract[how] = lambda E, r, a, k, how=how: c_literal(E, r, how, a)


def fn(E, name):
    return E.module(T).env.vars[name]


def c_literal(E, r, how, args):
    """match of a pattern that is a plain string"""
    tree = list(_parser.parse(r.pattern, int(r.flags)))
    if len(args) != 1 or any(op is not _constants.LITERAL for op, _ in tree):
        raise Unsupported('%s of %r' % (how, r.pattern))
    s = ''.join(chr(a) for _, a in tree)
    v = E.force(args[0])
    if not E.decide(E.truth(E.lib.startswith(E, v, s) if how == 'match' else E.lib.eq(E, v, s))):
        return None
    o = E.alloc('match')
    E.write('const', o, (s,))
    E.write('span', o, (0, len(s)))
    return o


def toks(E, n=1):
    o = Obj(z3.Const('in:src_toks', U), 'list', False, 'str')
    E.assume(z3.Not(fresh_p(o.t)))
    E.assume(llen(o.t) >= n)
    s = E.fresh(I, 's')
    E.assume(z3.And(0 <= s, s < llen(o.t)))
    return o, SInt(s)


def h_words(E):
    o, s = toks(E)
    line = sym_str(E, 'line')
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'align_word'), 'words', s, (line, o)))
    prove_frame(E, m, 'align_word')
    want = run(E, spec_fn(E, 'columns', 'place'), s, o)
    if got[0] != 'return':
        E.fail('a segment for every token', repr(got[1]))
        raise Done()
    beg, end, flag = E.lib.unpack(E, got[1], 3)
    prove_same(E, beg, want[0], 'a token starts where the joined tokens have it')
    prove_same(E, end, want[1], 'a token ends where the joined tokens have its end')


def h_morphemes(E):
    o, s = toks(E)
    word = sym_str(E, 'word')
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'align_word'), 'morphemes', s, (word, o)))
    prove_frame(E, m, 'align_word')
    if got[0] != 'return':
        E.fail('a segment for every morpheme', repr(got[1]))
        raise Done()
    beg, end, flag = [E.force(x) for x in E.lib.unpack(E, got[1], 3)]
    b, e = E.int_term(beg), E.int_term(end)
    low = E.lib.str_method(E, word, 'lower', [], {})
    n = E.int_term(E.lib.strlen(E, low))
    tok = E.lib.getitem(E, o, s)
    lone = llen(o.t) == 1
    E.prove(z3.And(0 <= b, b <= e), '0 <= begin <= end')
    k = E.int_term(E.lib.strlen(E, tok))
    E.prove(z3.Or(e <= n, z3.And(lone, e <= k)), 'never beyond the longer of the word and a lone morpheme')
    if E.decide(lone):
        E.prove(z3.And(b == 0, e == k), 'a lone morpheme is the whole word')
        return
    f = E.decide(E.truth(E.lib.eq(E, flag, 0)))
    if f:
        if not E.decide(s.t == llen(o.t) - 1):
            bare = E.lib.str_method(E, tok, 'strip', ['-=~.'], {})
            occ = uf('occurs', U, U, I, B)(E.term(low), E.term(bare), b)
            E.prove(z3.And(occ, e - b == E.int_term(E.lib.strlen(E, bare))),
                    'a precise segment covers the morpheme')
    else:
        E.prove(e == n, 'an imprecise segment is the remainder of the word')


# ---- columns ---------------------------------------------------------------------------------

BS = rx.cset(r'[ \t\n\r\f\v]')


def tiles(E, line):
    """white space, a token, white space; the next one starts where this one ends"""
    t = E.term(line)
    n = uf('ntiles', U, I)(t)
    E.fact_once(n >= 0)
    st, en = uf('tstart', U, I, I), uf('tend', U, I, I)
    nb = E.int_term(E.lib.strlen(E, line))

    def elem(i):
        E.fact_once(z3.And(0 <= st(t, i), st(t, i) < en(t, i), en(t, i) <= nb))
        o = Obj(uf('tile', U, I, U)(t, i), 'tile')
        return o
    return E.newlist(Seq([whole(Base(('tiles', KTerm(t)), n, elem))]))


def tile_attr(E, o, name):
    t, i = o.t.children()
    if name == 'start':
        return (Native(lambda E, a, k: SInt(uf('tstart', U, I, I)(t, i))),)
    if name == 'end':
        return (Native(lambda E, a, k: SInt(uf('tend', U, I, I)(t, i))),)
    if name == 'span':
        return (Native(lambda E, a, k: (SInt(uf('tstart', U, I, I)(t, i)), SInt(uf('tend', U, I, I)(t, i)))),)
    if name == 'group':
        def g(E, a, k):
            if a and a[0] != 0:
                raise Unsupported('group of a tile')
            r = uf('tbytes', U, I, U)(t, i)
            E.fact_once(kindf(r) == 3)
            n = E.lib.strlen(E, SU(r, 'str'))
            E.fact_once(n.t == uf('tend', U, I, I)(t, i) - uf('tstart', U, I, I)(t, i))
            return SU(r, 'str')
        return (Native(g),)
    raise Unsupported('match.%s' % name)


def c_finditer(E, r, args, kw):
    if not isinstance(r.pattern, bytes):
        return NotImplemented
    p = regs.prog(Pat(r))
    ce = regs.tokens(p, TILES)
    if ce is not None:
        E.fail('every token is found with the white space around it', repr(ce))
        raise Done()
    ce = rx.lang_equal(p, 'search', rx.Prog(r'[\s\S]*[^ \t\n\r\f\v][\s\S]*'))
    if ce is not None:
        E.fail('there is a token exactly if there is something but white space', repr(ce))
        raise Done()
    E.record('tokens with their white space tile the line', True, 'automata', '', 0.0)
    return tiles(E, args[0])


class Pat:
    def __init__(self, r):
        self.pattern, self.flags = r.pattern.decode('latin-1'), int(r.flags) | re.ASCII


f = frozenset
# before the first token, in a token, in the white space after one: it ends where the next starts
TILES = rx.Spec('s', {'s': [(BS, 'b', f(), f({('s', 1)})), (~BS, 't', f(), f({('s', 1)}))],
                      'b': [(BS, 'b', f(), f()), (~BS, 't', f(), f())],
                      't': [(~BS, 't', f(), f()), (BS, 'a', f(), f())],
                      'a': [(BS, 'a', f(), f()), (~BS, 't', f({('e', 1), 'end'}), f({('s', 1)}))]},
                {'t': f({('e', 1), 'end'}), 'a': f({('e', 1), 'end'})})


def h_columns(E):
    E.bytes_as_str = True       # the line is a string of bytes
    E.regex_contract['finditer'] = c_finditer

    def c_findall(E, r, args, kw):
        """the texts of the matches, if there are no groups"""
        l = c_finditer(E, r, args, kw)
        if l is NotImplemented:
            return l
        if re.compile(r.pattern, int(r.flags)).groups:
            raise Unsupported('groups')
        out = E.newlist(Seq())
        E.stream(l, lambda m: E.lib.list_method(E, out, 'append', [method(E, m, 'group')], {}))
        return out
    E.regex_contract['findall'] = c_findall
    for how in ('split', 'sub', 'search', 'match', 'fullmatch'):
        def other(E, r, args, kw, before=E.regex_contract.get(how), how=how):
            if isinstance(r.pattern, bytes):
                raise Unsupported('%s of bytes' % how)
            return before(E, r, args, kw) if before else NotImplemented
        E.regex_contract[how] = other
    E.obj_attr['tile'] = tile_attr
    line, enc = sym_str(E, 'line'), sym_str(E, 'encoding')
    got = outcome(E, lambda: run(E, fn(E, '_respace_decode'), line, enc))
    if got[0] != 'return':
        E.fail('every line decodes', repr(got[1]))
        raise Done()
    body = E.lib.str_method(E, line, 'rstrip', [b'\n'], {})
    want = run(E, spec_fn(E, 'columns', 'respaced'), tiles(E, body), enc)
    prove_same(E, got[1], want, 'every token with its white space, padded to its number of bytes')
    # a piece has as many characters as its bytes, so that the next one starts at its byte column
    i = E.fresh(I, 'piece')
    E.assume(z3.And(0 <= i, i < uf('ntiles', U, I)(E.term(body))))
    m = E.lib.getitem(E, tiles(E, body), SInt(i))
    raw = method(E, m, 'group')
    dec = E.lib.str_method(E, raw, 'decode', [enc], {})
    E.assume(E.int_term(E.lib.strlen(E, dec)) <= E.int_term(E.lib.strlen(E, raw)))
    w = run(E, spec_fn(E, 'columns', 'padded'), m, enc)
    E.prove(E.int_term(E.lib.strlen(E, w)) == uf('tend', U, I, I)(E.term(body), i) - uf('tstart', U, I, I)(E.term(body), i),
            'a piece has one character per byte')


# ---- tiers -----------------------------------------------------------------------------------

def groups(E):
    """aligned tokens: pairs of a token (or None) and its list of tokens"""
    n, tgt, src = z3.Int('in:ngroups'), uf('group:tok', I, U), uf('group:toks', I, U)
    E.assume(n >= 0)

    def el(i):
        E.fact_once(z3.Not(fresh_p(src(i))))
        E.fact_once(z3.Or(tgt(i) == NONE, kindf(tgt(i)) == 3))
        return (SU(tgt(i), 'any'), Obj(src(i), 'list', False, 'str'))
    return n, el, E.newlist(Seq([whole(Base(('groups',), n, el))]))


def h_tier(E):
    """one item for every token, in order, numbered from 1, with its reference"""
    label = 'tier: '
    schema(E)
    regs.install(E, [regs.IDS])
    ctor.install(E)
    env0 = E.module(T).env.vars
    models = E.module('xigt.model').env.vars
    n, el, aln = groups(E)
    nothing = E.choose('nothing is aligned')
    if nothing:
        aln = E.newlist(Seq([Lit((None, None))]))
    tid, typ = sym_str(E, 'tier_id'), sym_str(E, 'tier_type')
    E.assume(regs.IDS.pred(tid.t))
    if E.choose('words'):
        typ = 'words'
    elif E.choose('morphemes'):
        typ = 'morphemes'
    segments = E.decide(z3.Or(E.term(typ) == lit('words'), E.term(typ) == lit('morphemes')))
    ra = sym_str(E, 'refattr') if E.choose('with a reference attribute') else None
    other = given(E, 'other', 'model.Tier') if E.choose('with a tier to align with') else None
    aligned = ra is not None and other is not None
    if aligned:
        E.assume(z3.Not(E.term(ra) == lit('id')))
        E.assume(regs.IDS.pred(E.term(E.getattr(other, 'id'))))
        m = E.lib.seq_len(E, E.content(other))
        E.assume(E.int_term(m) == n)                         # precondition: a group for every item

    def seg(i, s):
        ts = [uf('seg:' + x, I, I, I)(i, s) for x in ('begin', 'end', 'flag')]
        E.fact_once(z3.And(0 <= ts[0], ts[0] <= ts[1], z3.Or(ts[2] == 0, ts[2] == -1)))
        return tuple(SInt(t) for t in ts)
    at = {}

    def c_align(E, f, a, kw):
        b = E.bind(f, a, kw)
        p = b['src_data']
        E.prove(same(E, b['tier_type'], typ), label + 'a segment of the tier at hand')
        x, y = E.lib.unpack(E, p, 2)
        E.prove(z3.BoolVal('i' in at and isinstance(y, Obj) and y.t.eq(el(at['i'])[1].t)), label + 'a segment of the group at hand')
        s = E.int_term(b['s'])
        E.prove(z3.And(0 <= s, s < llen(y.t)), label + 'a segment of a token of the group')
        return seg(at['i'], s)

    def c_zip(E, a, kw):
        """of sequences of the same length"""
        if kw or len(a) != 2:
            raise Unsupported('zip_longest')
        x, y = [E.lib.seq_len(E, E.lib.iterate(E, q)) for q in a]
        E.prove(E.int_term(x) == E.int_term(y), label + 'a group for every item')
        return E.lib.f_zip(E, a, {})
    env0['zip_longest'] = Native(c_zip, 'zip_longest')
    E.contracts[T + '.align_word'] = c_align
    out, ran = {}, []

    def expected(i, first, direct):
        """the items of a group"""
        toks = el(i)[1]
        spec = E.newlist(Seq())
        target = None
        if aligned:
            target = E.getattr(E.lib.fm_at(E, E.content(other).parts[0], i), 'id')

        def body(s, tok=None):
            if direct:
                s, tok = s
            d = E.newdict(DVal())
            if aligned:
                v = target
                if segments:
                    b, e, _ = seg(i, E.int_term(s))
                    v = E.lib.concat(E, [target, '[', E.lib.to_str(E, b), ':', E.lib.to_str(E, e), ']'])
                E.lib.setitem(E, d, ra, v)
            num = E.lib.binop(E, 'Add', s, SInt(first + 1))
            E.lib.list_method(E, spec, 'append', [(E.lib.concat(E, [tid, E.lib.to_str(E, num)]), d,
                                                   tok if direct else E.lib.getitem(E, toks, s))], {})
        E.stream(E.lib.f_enumerate(E, [toks], {}) if direct else E.lib.f_range(E, [SInt(llen(toks.t))], {}), body)
        return spec

    def rule(E, st, env, it):
        if not isinstance(st, ast.For) or at:
            return False
        ps = E.lib.iterate(E, it).parts
        if len(ps) != 1 or not isinstance(ps[0], FM) or not E.implied(ps[0].hi - ps[0].lo == n):
            return False
        ran.append(1)
        carried = [x for x in sorted(stores(st.body)) if x in env.vars]
        lists = [v for v in env.vars.values() if isinstance(v, Obj) and v.cls == 'list' and v.fresh and not v.t.eq(aln.t)]
        lists = [v for k, v in enumerate(lists) if not any(v.t.eq(w.t) for w in lists[:k])]
        lists = [v for v in lists if not E.content(v).parts]
        if len(lists) != 1:
            raise Unsupported('make_tier: where the items are collected')
        items = lists[0]
        counters = {x: env.vars[x] for x in carried if isinstance(env.vars[x], int) and not isinstance(env.vars[x], bool)}
        k = z3.Int('sofar')
        E.assume(k >= 0)
        before = whole(Base(('items so far',), k, lambda j: Obj(uf('itemsofar', I, U)(j), models['Item'], False)))
        E.set_content(items, Seq([before]))
        for x in carried:
            env.vars[x] = SInt(k + counters[x]) if x in counters else Poison('%s is carried from group to group' % x)
        if not E.choose('more groups'):
            out['items'] = E.content(items)
            return True
        i = E.fresh(I, 'i')
        E.assume(z3.And(0 <= i, i < n))
        at['i'] = i
        if aligned:                                          # precondition: with ids
            E.assume(E.term(E.getattr(E.lib.fm_at(E, E.content(other).parts[0], i), 'id')) != NONE)
        E.assign(st.target, E.lib.fm_at(E, ps[0], z3.simplify(ps[0].lo + i)), env)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        except (Brk, Ret):
            E.fail(label + 'every group is used')
            raise Done()
        new = E.content(items).parts
        if not new or not isinstance(new[0], FM) or new[0].base.key != before.base.key:
            E.fail(label + 'items are appended', repr(new))
            raise Done()
        got = E.newlist(Seq())

        def view(x):
            E.lib.list_method(E, got, 'append', [(E.getattr(x, 'id'), E.getattr(x, 'attributes'), E.getattr(x, 'text'))], {})
        E.stream(E.newlist(Seq(new[1:])), view)
        direct = any(isinstance(q, FM) and q.base.key[0] == 'list' for q in E.content(got).parts)   # over the tokens or their positions
        prove_same(E, got, expected(i, k, direct), label + 'one item for every token, in order, with its number and reference')
        for x, v0 in counters.items():
            if not E.implied(E.int_term(E.force(env.vars[x])) == k + llen(el(i)[1].t) + v0):
                raise Unsupported('make_tier: %s is no number of items' % x)
        raise Done()
    E.loop_rules[T + '.make_tier'] = rule
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, env0['make_tier'], typ, tid, ra, aln, other))
    if got[0] != 'return':
        E.fail(label + 'is built', repr(got[1]))
        raise Done()
    if not nothing and not ran:
        raise Unsupported('make_tier without a loop over the groups')
    t = got[1]
    prove_same(E, E.getattr(t, 'id'), tid, label + 'its id')
    prove_same(E, E.getattr(t, 'type'), typ, label + 'its type')
    d = E.newdict(DVal())
    if aligned and not nothing:
        E.lib.setitem(E, d, ra, E.getattr(other, 'id'))
    prove_same(E, E.getattr(t, 'attributes'), d, label + 'it refers to the tier it is aligned with')
    prove_same(E, E.newlist(E.content(t)), E.newlist(out['items'] if not nothing else Seq()), label + 'its items are those built')


def h_phrase(E):
    """one item: all tokens, joined by single spaces"""
    schema(E)
    regs.install(E, [regs.IDS])
    ctor.install(E)
    n, el, aln = groups(E)
    tid = sym_str(E, 'tier_id')
    E.assume(regs.IDS.pred(tid.t))
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, fn(E, 'make_phrase_tier'), tid, aln))
    prove_frame(E, m, 'phrase tier')
    if got[0] != 'return':
        E.fail('phrase tier: is built', repr(got[1]))
        raise Done()
    t = got[1]
    prove_same(E, E.getattr(t, 'id'), tid, 'phrase tier: its id')
    prove_same(E, E.getattr(t, 'type'), 'phrases', 'phrase tier: its type')
    its = E.content(t).parts
    if len(its) != 1 or not isinstance(its[0], Lit):
        E.fail('phrase tier: one item', repr(its))
        raise Done()
    toks = E.newlist(Seq())
    E.stream(aln, lambda p: E.stream(p[1], lambda x: E.lib.list_method(E, toks, 'append', [x], {})))
    x = its[0].v
    prove_same(E, E.getattr(x, 'id'), E.lib.concat(E, [tid, '1']), 'phrase tier: the id of its item')
    prove_same(E, E.getattr(x, 'text'), E.lib.join(E, ' ', toks), 'phrase tier: the tokens joined by single spaces')


HARNESSES = [('words', guarded(h_words)), ('morphemes', guarded(h_morphemes)), ('columns', guarded(h_columns)),
             ('tier', guarded(h_tier)), ('phrase tier', guarded(h_phrase))]
