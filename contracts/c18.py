"""C18: sort keys are lists of natural keys; sorting sorts every list by its key.

A key is compared as Python compares lists: that the elements at even positions are strings and
those at odd positions integers, for every object, makes any two keys comparable and the order the
one of the statement. list.sort (a stable permutation) is trusted."""
import re
from re import _parser, _constants
from common import *
import regs
import xmlstub
import rx

TRUSTED = ['list.sort sorts stably by keys that are comparable, list comparison is lexicographic',
           'int() accepts a string of the digits \\d matches unless it is too long, and then ValueError is raised as for '
           'strings without digits; Decimal accepts it and denotes the same number; such strings are isdecimal()', 'xigtpath.find returns a string or None (precondition of the statement)',
           'reading, writing and printing the file (C13)']


def SETUP(E):
    xmlstub.install(E)
    load(E)
    E.module('xigt.scripts.xigt_sort')
    schema(E)
    spec_module(E, 'sortkeys')
    regs.install(E)
    E.regex_contract['split'] = c_split
    E.int_limit = True                       # int() refuses long strings of digits
    E.ext_contract['decimal.Decimal'] = decimal


def decimal(E, args, kw):
    """Decimal of a run of digits: the same number, of any length"""
    if len(args) != 1 or kw or not E.lib.isstr(args[0]) or isinstance(args[0], str):
        raise Unsupported('Decimal')
    t = E.term(args[0])
    if not E.implied(uf('isint', U, B)(t)):
        raise Unsupported('Decimal of something else')
    d = uf('decimalof', U, U)(t)
    E.fact_once(z3.And(kindf(d) == 3, uf('isint', U, B)(d), z3.Not(uf('toolong', U, B)(d)), uf('intval', U, I)(d) == uf('intval', U, I)(t)))
    return SU(d, 'str')


def number(E, s):
    """the number a run of digits denotes"""
    s = E.force(s)
    return int(s) if isinstance(s, str) else SInt(uf('intval', U, I)(E.term(s)))


D = rx.cset(r'\d')
O = ~D
f = frozenset
DIGITS = rx.Spec('o', {'o': [(O, 'o', f(), f()), (D, 'd', f(), f({('s', 1)}))],
                       'd': [(D, 'd', f(), f()), (O, 'o', f({('e', 1), 'end'}), f())]},
                 {'o': f(), 'd': f({('e', 1), 'end'})})


def piece(E, t, i):
    p = uf('piece', U, I, U)(t, i)
    E.fact_once(kindf(p) == 3)
    E.fact_once(uf('isint', U, B)(p) == (i % 2 == 1))
    E.fact_once(uf('strp:isdecimal', U, B)(p) == (i % 2 == 1))
    return SU(p, 'str')


def pieces(E, s):
    """text, digits, text, ..., text: as unknown strings"""
    s = E.force(s)
    if isinstance(s, str):
        return E.newlist(Seq([Lit(x) for x in re.split(r'(\d+)', s)]))
    t = E.term(s)
    n = uf('npieces', U, I)(t)
    E.fact_once(z3.And(n >= 1, n % 2 == 1))
    return E.newlist(Seq([whole(Base(('pieces', KTerm(t)), n, lambda i: piece(E, t, i)))]))


def c_split(E, r, args, kw):
    if len(args) != 1 or kw:
        return NotImplemented
    p = regs.prog(r)
    tree = list(_parser.parse(r.pattern, int(r.flags)))
    if p.groups != 1 or len(tree) != 1 or tree[0][0] is not _constants.SUBPATTERN:
        s = '1a'
        got = re.compile(r.pattern, int(r.flags)).split(s)
        if got != re.split(r'(\d+)', s):
            E.fail('digits are split off', 'split(%r) = %r' % (s, got))
            raise Done()
        raise Unsupported('split by %r' % r.pattern)
    ce = regs.tokens(p, DIGITS)
    if ce is not None:
        E.fail('digits are split off', 'split(%r) = %r' % (ce, re.compile(r.pattern, int(r.flags)).split(ce)))
        raise Done()
    E.record('exactly the runs of digits are split off', True, 'automata', '', 0.0)
    return pieces(E, args[0])


def find(E, x, k):
    t = uf('xpfind', U, U, U)(E.term(x), E.term(k))
    E.fact_once(z3.Not(fresh_p(t)))
    return SU(t, 'optstr')


def sortkey_fn(E):
    return E.module('xigt.scripts.xigt_sort').env.vars['make_sortkey']


def h_key(E):
    def c(E, f, args, kw):
        if len(args) != 2 or kw:
            return NotImplemented
        return find(E, *args)
    E.contracts['xigt.xigtpath.find'] = c
    keys = Obj(z3.Const('in:sortkeys', U), 'list', False, 'str')
    E.assume(z3.Not(fresh_p(keys.t)))
    x = given(E, 'x', 'model.Igt')
    m = heap_mark(E)
    kf = run(E, sortkey_fn(E), keys)
    got = outcome(E, lambda: run(E, kf, x))
    prove_frame(E, m, 'sort key')
    nat = lambda fn: Native(lambda E, a, k: fn(E, *a))
    want = run(E, spec_fn(E, 'sortkeys', 'key'), x, keys, nat(find), nat(pieces), nat(number))
    if got[0] != 'return':
        E.fail('a sort key never fails', repr(got[1]))
        raise Done()
    prove_same(E, got[1], want, 'one natural key per key path, in order')


# ---- the command ----------------------------------------------------------------------------

ARGS = ('igt_key', 'tier_key', 'tier_deps', 'item_key')


def list_term(k):
    if k[0] == 'list':
        return k[1].t
    if k[0] == 'sorted':
        return uf('sortedlist', U, U, U)(list_term(k[1]), k[2].t)
    return uf('depslist', U, U)(list_term(k[1]))


def sort_contract(E, seq, key, rev):
    """stable sort: a permutation that depends on the old order and the key only"""
    if rev is not False:
        raise Unsupported('reverse sort')
    if len(seq.parts) != 1 or not isinstance(seq.parts[0], FM) or not seq.parts[0].identity:
        raise Unsupported('sort of a list built here')
    p = seq.parts[0]
    if not (E.implied(p.lo == 0) and E.implied(p.hi == p.base.len)):
        raise Unsupported('sort of a part')
    kt = E.term(key)
    lt = list_term(p.base.key)
    pos = uf('sorted', U, U, I, I)
    n = p.base.len

    def elem(i):
        E.fact_once(z3.And(0 <= pos(lt, kt, i), pos(lt, kt, i) < n))
        return p.base.elem(pos(lt, kt, i))
    return Seq([whole(Base(('sorted', p.base.key, KTerm(kt)), n, elem))])


def key_of(keys):
    return SU(uf('sortkey', U, U)(keys), 'any')


def h_run(E):
    def c_key(E, f, args, kw):
        k = args[0]
        if isinstance(k, Obj) and k.cls == 'list':
            return key_of(k.t)
        return NotImplemented
    E.contracts['xigt.scripts.xigt_sort.make_sortkey'] = c_key
    E.sort_contract = sort_contract
    xc = given(E, 'xc', 'model.XigtCorpus')
    E.assume(fld('mode', xc.t) == lit('full'))
    out = []

    def c_load(E, f, args, kw):
        E.write('loaded', xc, args[0])
        return xc
    E.contracts['xigt.codecs.xigtxml.load'] = c_load
    E.contracts['xigt.codecs.xigtxml.dump'] = lambda E, f, a, k: out.append(('dump', a))
    E.contracts['xigt.codecs.xigtxml.dumps'] = lambda E, f, a, k: E.lib.opaque_str(E, 'dumps', *a)

    def c_sort_tiers(E, f, args, kw):
        igt = args[0]
        ra = kw.get('refattrs', args[1] if len(args) > 1 else None)
        seq = E.content(igt)
        p = seq.parts[0]
        pos = uf('bydeps', U, I, I)
        lt = list_term(p.base.key)
        n = p.base.len

        def elem(i):
            E.fact_once(z3.And(0 <= pos(lt, i), pos(lt, i) < n))
            return p.base.elem(pos(lt, i))
        E.write('refattrs', igt, E.newlist(E.lib.iterate(E, ra)))
        E.set_content(igt, Seq([whole(Base(('bydeps', p.base.key), n, elem))]))
    E.contracts['xigt.model.Igt.sort_tiers'] = c_sort_tiers
    args = E.alloc(UserClass('Namespace', [], {}, 'argparse.Namespace'))
    E.write('infile', args, sym_str(E, 'infile'))
    E.write('in_place', args, E.choose('in place'))
    val = {}
    for a in ARGS:
        v = None
        if E.choose(a):
            if a == 'tier_deps':
                v = 'segmentation, alignment'
            else:
                v = Obj(z3.Const('in:' + a, U), 'list', False, 'str')
                E.assume(llen(v.t) > 0)
        val[a] = v
        E.write(a, args, v)
    run(E, E.module('xigt.scripts.xigt_sort').env.vars['run'], args)

    def expect(seq, key):
        return seq if key is None else sort_contract(E, seq, key_of(key.t), False)

    def compare(o, want, what):
        got = E.content(o)
        E.prove(len(got.parts) == 1 and isinstance(got.parts[0], FM) and got.parts[0].identity
                and got.parts[0].base.key == want.parts[0].base.key, what)
    c = expect(Seq((whole(E.prelist(xc)),)), val['igt_key'])
    compare(xc, c, 'the IGTs are sorted by the IGT keys, if there are any')
    i, j = E.fresh(I, 'igt'), E.fresh(I, 'tier')
    b = c.parts[0].base
    E.assume(z3.And(0 <= i, i < b.len))
    igt = b.elem(i)
    old = Seq((whole(E.prelist(igt)),))
    if val['tier_key'] is not None:
        t = expect(old, val['tier_key'])
        compare(igt, t, 'the tiers of every IGT are sorted by the tier keys')
    elif val['tier_deps']:
        got = E.content(igt)
        E.prove(got.parts[0].base.key == ('bydeps', old.parts[0].base.key), 'the tiers of every IGT are sorted by their references')
        ra = E.read('refattrs', igt)
        prove_same(E, E.newlist(E.content(ra[0])) if ra else None,
                   E.newlist(Seq([Lit('segmentation'), Lit('alignment')])), 'reference attributes in the given order')
    else:
        compare(igt, old, 'the tiers keep their order')
    tier = E.content(igt).parts[0].base.elem(j)      # (the tiers are permuted: this is any of them)
    E.assume(z3.And(0 <= j, j < llen(igt.t)))
    compare(tier, expect(Seq((whole(E.prelist(tier)),)), val['item_key']),
            'the items of every tier are sorted by the item keys, if there are any')


HARNESSES = [('keys', guarded(h_key)), ('command', guarded(h_run))]
