"""Contracts of the compiled regular expressions, proved by automata (pyvc/rx.py) for the
patterns of the tree under check before they are used."""
import re
import z3
import rx
from common import *

ID = rx.Prog(r'[a-zA-Z][-.\w]*')
NAME = rx.Prog(r'[^\W\d][-.\w]*')


class Lang:
    """a language given by a specification pattern, as a predicate on strings"""

    def __init__(self, name, prog):
        self.name, self.prog = name, prog

    def pred(self, t):
        return uf('in:' + self.name, U, B)(t)


IDS = Lang('id', ID)
NAMES = Lang('name', NAME)

_cache = {}


def prog(r):
    k = ('prog', r.pattern, int(r.flags))
    if k not in _cache:
        try:
            _cache[k] = rx.Prog(r.pattern, int(r.flags))
        except rx.RxUnsupported as ex:
            raise Unsupported('regular expression %r: %s' % (r.pattern, ex))
    return _cache[k]


def equal(p, how, lang):
    k = ('eq', id(p), how, lang.name)
    if k not in _cache:
        try:
            _cache[k] = rx.lang_equal(p, how, lang.prog)
        except rx.RxUnsupported as ex:
            raise Unsupported('regular expression %r: %s' % (p.pattern, ex))
    return _cache[k]


def tokens(p, spec):
    k = ('tok', id(p), id(spec))
    if k not in _cache:
        try:
            _cache[k] = (rx.tokens(p, spec, wholegroup=True),)
        except rx.RxUnsupported as ex:
            raise Unsupported('regular expression %r: %s' % (p.pattern, ex))
    return _cache[k][0]


# ---- match / fullmatch / search -----------------------------------------------------------

def install(E, langs=()):
    E.rx_langs = list(langs)
    E.rx_roles = {}
    for how in ('match', 'fullmatch', 'search'):
        E.regex_contract[how] = lambda E, r, args, kw, how=how: c_match(E, r, how, args)
    E.regex_contract['findall'] = lambda E, r, args, kw: c_findall(E, r, args[0])
    E.regex_contract['finditer'] = lambda E, r, args, kw: c_findall(E, r, args[0], True)
    E.match_method = match_method


def c_match(E, r, how, args):
    if len(args) != 1:
        raise Unsupported('match with positions')
    v = E.force(args[0])
    if v is None or isinstance(v, (int, bool, Obj, tuple)):
        E.raise_(TypeError, 'expected string')
    if isinstance(v, str):
        m = getattr(re.compile(r.pattern, int(r.flags)), how)(v)
        if m is None:
            return None
        o = E.alloc('match')
        E.write('const', o, (m.group(0),) + m.groups())
        E.write('span', o, m.span())
        return o
    p = prog(r)
    st = structured(E, v) if how == 'match' else None
    if st is not None:
        return match_structured(E, r, p, *st)
    t = E.term(v)
    sh = shape(v, E)
    if isinstance(v, SStr):
        sl = strlen_(E, v)
        E.fact_once(uf('slen', U, I)(t) == (sl.t if isinstance(sl, SInt) else sl))
    if sh is not None:
        for L in E.rx_langs:
            k = ('shape', sh, L.name)
            if k not in _cache:
                _cache[k] = rx.included(rx.Prog(sh), 'fullmatch', L.prog, 'fullmatch')
            if _cache[k] is None:
                E.fact_once(L.pred(t))
    k = '%s:%r:%d' % (how, r.pattern, int(r.flags))
    cond = uf('rx:' + k, U, B)(t)
    for L in E.rx_langs:
        ce = equal(p, how, L)
        if ce is None:
            E.fact_once(cond == L.pred(t))
        else:
            E.assumptions.add('')
            E.assumptions.discard('')
            E.rx_notes = getattr(E, 'rx_notes', set()) | {
                '%s of %r differs from language %s on %r' % (how, r.pattern, L.name, ce[0])}
    n = uf('slen', U, I)(t)
    end = uf('rxend:' + k, U, I)(t)
    if how == 'match':
        for L in E.rx_langs:
            if equal(p, 'match_all', L) is None:
                E.fact_once(z3.And(cond, end == n) == L.pred(t))
    if not E.decide(cond):
        return None
    strlen_(E, v)
    E.fact_once(z3.And(0 <= end, end <= n))
    if how == 'fullmatch':
        E.fact_once(end == n)
    o = E.alloc('match')
    E.write('re', o, r)
    E.write('string', o, v)
    E.write('end', o, SInt(end))
    E.write('how', o, how)
    g0 = uf('rxg0:' + k, U, U)(t)
    E.fact_once(kindf(g0) == 3)
    if how != 'search':
        E.fact_once((end == n) == (g0 == t))
    E.write('g0', o, SU(g0, 'str'))
    return o


def shape(v, E=None):
    """a pattern that covers the values of a string built of literals and decimal numbers"""
    if not isinstance(v, SStr):
        return None
    out = ''
    for q in v.parts:
        if not isinstance(q, Lit):
            return None
        if isinstance(q.v, str):
            out += re.escape(q.v)
        elif isinstance(q.v, SU) and q.v.t.decl().name() == 'strfn:str' and q.v.t.num_args() \
                and q.v.t.arg(0).decl().name() == 'boxint':
            out += '-?[0-9]+'
        elif E is not None and isinstance(q.v, SU) and len(v.parts) > 1:
            ls = [L for L in E.rx_langs if E.implied(L.pred(q.v.t))]
            if not ls:
                return None
            out += '(?:%s)' % ls[0].prog.pattern
        else:
            return None
    return out


def strlen_(E, v):
    return E.lib.strlen(E, v)


def match_method(E, o, name, args):
    g = lambda f: (E.read(f, o) or (None,))[0]
    const = g('const')
    if const is not None:
        if name == 'groups':
            return tuple(const[1:])
        if name in ('group', '__getitem__'):
            k = args[0] if args else 0
            if isinstance(k, int) and len(args) <= 1:
                return const[k]
        if name == 'start' and g('span') and not args:
            return g('span')[0]
        if name == 'end' and g('span') and not args:
            return g('span')[1]
        if name == 'span' and g('span') and not args:
            return g('span')
    else:
        if name == 'end' and not args and g('end') is not None:
            return g('end')
        if name == 'start' and not args and g('how') in ('match', 'fullmatch'):
            return 0
        if name == 'span' and not args and g('how') in ('match', 'fullmatch'):
            return (0, g('end'))
        if name == 'group' and (not args or args[0] == 0):
            return g('g0')
    raise Unsupported('match.%s' % name)


# ---- findall over strings of known structure ------------------------------------------------

class Role:
    """what is known of a string: alternatives [(Spec, groups, builder)]; the first whose marked
    tokens the pattern yields (with the right number of groups) is used"""

    def __init__(self, alts, empty=None):
        self.alts = alts


def set_role(E, v, role):
    E.rx_roles[KTerm(E.term(v))] = role


def c_findall(E, r, v, matches=False):
    v = E.force(v)
    if isinstance(v, str):
        rr = re.compile(r.pattern, int(r.flags))
        if matches:
            return match_iter(E, Seq([Lit((m.group(0),) + m.groups()) for m in rr.finditer(v)]), True)
        return E.newlist(Seq([Lit(x) for x in rr.findall(v)]))
    role = None
    if isinstance(v, SStr):
        role = getattr(E, 'rx_role_of', lambda E, v: None)(E, v)
    else:
        role = E.rx_roles.get(KTerm(E.term(v)))
        if role is None and hasattr(E, 'rx_role_of'):
            role = E.rx_role_of(E, v)
    if role is None:
        return NotImplemented
    if callable(role):
        role = role()
    p = prog(r)
    first = None
    for spec, groups, build in role.alts:
        if groups != max(p.groups, 1):
            continue
        ce = tokens(p, spec)
        if ce is None:
            E.record('tokens of %r' % r.pattern[:40], True, 'automata', '', 0.0)
            return match_iter(E, build(E, v)) if matches else E.newlist(build(E, v))
        if first is None:
            first = ce, spec
    if first is None:
        raise Unsupported('no specification for the tokens of %r' % r.pattern)
    ce, spec = first
    got = re.compile(r.pattern, int(r.flags)).findall(ce)
    want = spec.tokens(ce, max(p.groups, 1))
    if got == want:
        raise Unsupported('automata disagree with re on %r' % ce)
    E.fail('tokens of %r' % r.pattern[:40], 'findall(%r) = %r, expected %r' % (ce, got, want))
    raise Done()


def match_iter(E, seq, whole_match=False):
    """the iterator of finditer: matches with the groups that findall gives; a group that findall
    gives as '' may not have taken part in the match"""
    def group(x):
        t = E.term(x)
        if not E.decide(t == lit('')):
            return x
        m = uf('group', U, U)(t)
        E.fact_once(z3.Or(m == lit(''), m == NONE))
        return SU(m, 'optstr')

    def start(consumer):
        def body(x):
            o = E.alloc('match')
            if whole_match:
                E.write('const', o, x)
            else:
                gs = x if isinstance(x, tuple) else (x,)
                E.write('const', o, (None if isinstance(x, tuple) else x,) + tuple(group(g) for g in gs))
            consumer(o)
        E.stream(E.newlist(seq), body)
    return Gen(start, E.alloc('generator'), 'finditer')


# ---- reference expressions ------------------------------------------------------------------

_L, _W, _D = rx.cset('[a-zA-Z]'), rx.cset(r'[-.\w]'), rx.cset(r'\d')
_M, _C, _P = rx.cset('-'), rx.cset(':'), rx.cset('[+,]')
_LB, _RB, _S = rx.cset(r'\['), rx.cset(']'), rx.cset(r'\s')
_N = frozenset()


def refspec(ws=True, groups='dir', lastws=False):
    """well-formed expressions; groups: which of delimiter/id/range become groups, in order.
    lastws: of several space characters only the last is the delimiter"""
    num = {c: n + 1 for n, c in enumerate(groups)}

    def m(*evs):
        out = set()
        for k, c in evs:
            if k == 'end':
                out.add('end')
            elif c in num:
                out.add((k, num[c]))
        return frozenset(out)
    E_ = ('end', '')
    T = {}
    T[0] = [(_L, 'id', _N, m(('s', 'i')))]
    # without the range, a token ends with its id
    iend = [('e', 'i')] if 'r' in num else [('e', 'i'), E_]
    rend = [E_] if 'r' in num else []
    T['id'] = [(_W, 'id', _N, _N), (_LB, 'lb', m(*iend), _N)]
    T['rb'] = []
    for q, close in (('id', [('e', 'i'), E_]), ('rb', rend)):
        T[q] = T[q] + [(_P, 'dl', m(*close), m(('s', 'd')))]
        if ws:
            T[q] = T[q] + [(_S, 'ws', m(*close), m(('s', 'd')))]
    T['dl'] = [(_L, 'id', m(('e', 'd'), ('s', 'i')), _N)]
    if ws:
        T['ws'] = [(_S, 'ws', _N, m(('s', 'd')) if lastws else _N), (_L, 'id', m(('e', 'd'), ('s', 'i')), _N)]
    T['lb'] = [(_M, 'am', m(('s', 'r')), _N), (_D, 'a', m(('s', 'r')), _N)]
    T['am'] = [(_D, 'a', _N, _N)]
    T['a'] = [(_D, 'a', _N, _N), (_C, 'b0', _N, _N)]
    T['b0'] = [(_M, 'bm', _N, _N), (_D, 'b', _N, _N)]
    T['bm'] = [(_D, 'b', _N, _N)]
    T['b'] = [(_D, 'b', _N, _N), (_P, 'sd', _N, _N), (_RB, 'rb', m(('e', 'r')), _N)]
    T['sd'] = [(_M, 'am', _N, _N), (_D, 'a', _N, _N)]
    return rx.Spec(0, T, {'id': m(('e', 'i'), E_), 'rb': m(*rend)})


def rangespec():
    """the inside of brackets: (delimiter, start, end)"""
    T = {}
    f = frozenset
    T[0] = [(_M, 'am', _N, f({('s', 2)})), (_D, 'a', _N, f({('s', 2)}))]
    T['am'] = [(_D, 'a', _N, _N)]
    T['a'] = [(_D, 'a', _N, _N), (_C, 'b0', f({('e', 2)}), _N)]
    T['b0'] = [(_M, 'bm', f({('s', 3)}), _N), (_D, 'b', f({('s', 3)}), _N)]
    T['bm'] = [(_D, 'b', _N, _N)]
    T['b'] = [(_D, 'b', _N, _N), (_P, 'sd', f({('e', 3), 'end'}), f({('s', 1)}))]
    T['sd'] = [(_M, 'am', f({('e', 1), ('s', 2)}), _N), (_D, 'a', f({('e', 1), ('s', 2)}), _N)]
    return rx.Spec(0, T, {'b': f({('e', 3), 'end'})})


def idspec(groups):
    """a single id"""
    num = {c: n + 1 for n, c in enumerate(groups)}
    k = num['i']
    return rx.Spec(0, {0: [(_L, 'id', _N, frozenset({('s', k)}))], 'id': [(_W, 'id', _N, _N)]},
                   {'id': frozenset({('e', k), 'end'})})


DID = refspec()
DID_LAST = refspec(lastws=True)
ID_ONLY = refspec(groups='i')
RANGE = rangespec()
ONE_DID, ONE_ID = idspec('dir'), idspec('i')


def id_role():
    return Role([(ONE_DID, 3, lambda E, v: Seq([Lit(('', v, ''))])),
                 (ONE_ID, 1, lambda E, v: Seq([Lit(v)]))])


def selspec():
    """an id with one span: groups delimiter, id, inside of the brackets"""
    f = frozenset
    T = {0: [(_L, 'id', _N, f({('s', 2)}))],
         'id': [(_W, 'id', _N, _N), (_LB, 'lb', f({('e', 2)}), _N)],
         'lb': [(_M, 'am', f({('s', 3)}), _N), (_D, 'a', f({('s', 3)}), _N)],
         'am': [(_D, 'a', _N, _N)],
         'a': [(_D, 'a', _N, _N), (_C, 'b0', _N, _N)],
         'b0': [(_M, 'bm', _N, _N), (_D, 'b', _N, _N)],
         'bm': [(_D, 'b', _N, _N)],
         'b': [(_D, 'b', _N, _N), (_RB, 'rb', f({('e', 3)}), _N)],
         'rb': []}
    return rx.Spec(0, T, {'rb': f({'end'})})


def spanspec():
    """one span: groups delimiter, start, end"""
    f = frozenset
    T = {0: [(_M, 'am', _N, f({('s', 2)})), (_D, 'a', _N, f({('s', 2)}))],
         'am': [(_D, 'a', _N, _N)],
         'a': [(_D, 'a', _N, _N), (_C, 'b0', f({('e', 2)}), _N)],
         'b0': [(_M, 'bm', f({('s', 3)}), _N), (_D, 'b', f({('s', 3)}), _N)],
         'bm': [(_D, 'b', _N, _N)],
         'b': [(_D, 'b', _N, _N)]}
    return rx.Spec(0, T, {'b': f({('e', 3), 'end'})})


ONE_SEL, ONE_SPAN = selspec(), spanspec()


def structured(E, v):
    """(Spec, values of its three groups) of a string that is a bare id, an id with one span, or a span"""
    def is_tok(q, *names):
        return isinstance(q, Lit) and isinstance(q.v, SU) and z3.is_app(q.v.t) and q.v.t.decl().name() in names
    if isinstance(v, SU):
        return (ONE_DID, ('', v, '')) if is_tok(Lit(v), 'tok:id') else None
    if not isinstance(v, SStr):
        return None
    ps = E.lib.norm_str(E, v.parts)
    con = lambda q, s: isinstance(q, Lit) and q.v == s
    if len(ps) == 6 and is_tok(ps[0], 'tok:id') and con(ps[1], '[') and is_tok(ps[2], 'tok:start') \
            and con(ps[3], ':') and is_tok(ps[4], 'tok:end') and con(ps[5], ']'):
        return ONE_SEL, ('', ps[0].v, SStr(ps[2:5]))
    if len(ps) == 3 and is_tok(ps[0], 'tok:start') and con(ps[1], ':') and is_tok(ps[2], 'tok:end'):
        return ONE_SPAN, ('', ps[0].v, ps[2].v)
    return None


def match_structured(E, r, p, spec, groups):
    """the match at the start of a string of known structure: its tokens are a single one that
    starts there. A group that matched nothing is '' or None."""
    if p.groups != 3:
        raise Unsupported('no specification for the match of %r' % r.pattern)
    ce = tokens(p, spec)
    if ce is not None:
        got = re.compile(r.pattern, int(r.flags)).findall(ce)
        if got == spec.tokens(ce, 3):
            raise Unsupported('automata disagree with re on %r' % ce)
        E.fail('tokens of %r' % r.pattern[:40], 'findall(%r) = %r, expected %r' % (ce, got, spec.tokens(ce, 3)))
        raise Done()
    E.record('tokens of %r' % r.pattern[:40], True, 'automata', '', 0.0)
    absent = SU(z3.Const('nothing matched', U), 'optstr')
    E.fact_once(z3.Or(absent.t == NONE, absent.t == lit('')))
    o = E.alloc('match')
    E.write('const', o, (None,) + tuple(absent if isinstance(g, str) and g == '' else g for g in groups))
    return o


# ---- symbolic well-formed expressions -----------------------------------------------------

def tok(which, e, i):
    return uf('tok:' + which, U, I, U)(e, i)


def toks_n(e):
    return uf('ntok', U, I)(e)


def is_range(t):
    return z3.is_app(t) and t.decl().name() == 'tok:range'


def S_(E, t):
    E.fact_once(kindf(t) == 3)
    return SU(t, 'str')


def tok_elem(E, e, i):
    p, d, r = tok('delim', e, i), tok('id', e, i), tok('range', e, i)
    E.fact_once(d != lit(''))
    E.fact_once(IDS.pred(d))
    E.fact_once((p == lit('')) == (i == 0))
    return (S_(E, p), S_(E, d), S_(E, r))


def span_elem(E, r, j):
    d, a, b = tok('sdelim', r, j), tok('start', r, j), tok('end', r, j)
    E.fact_once(z3.And(a != lit(''), b != lit('')))
    if getattr(E, 'decimals', False):    # int() of well-formed numbers succeeds
        E.fact_once(z3.And(uf('isint', U, B)(a), uf('isint', U, B)(b)))
    E.fact_once((d == lit('')) == (j == 0))
    return (S_(E, d), S_(E, a), S_(E, b))


def spans_n(r):
    return uf('nspan', U, I)(r)


def tok_base(E, e):
    E.fact_once(toks_n(e) >= 1)
    return Base(('tokens', KTerm(e)), toks_n(e), lambda i: tok_elem(E, e, i))


def span_base(E, r):
    E.fact_once(spans_n(r) >= 1)
    return Base(('spans', KTerm(r)), spans_n(r), lambda j: span_elem(E, r, j))


def expr_role(E, ws=True):
    """a well-formed expression"""
    def trip(E, v):
        return Seq([whole(tok_base(E, E.term(v)))])

    def only_ids(E, v):
        b = tok_base(E, E.term(v))
        v = fresh_var('t')
        d = tok('id', b.key[1].t, v)
        return Seq([FM(b, z3.IntVal(0), b.len, v,
                       [Leaf((), (kindf(d) == 3, d != lit(''), IDS.pred(d)), (Lit(SU(d, 'str')),))])])
    return Role([(DID if ws else DID_NOWS, 3, trip), (ID_ONLY if ws else ID_ONLY_NOWS, 1, only_ids)])


DID_NOWS = refspec(ws=False)
ID_ONLY_NOWS = refspec(ws=False, groups='i')


def range_role(E):
    return Role([(RANGE, 3, lambda E, v: Seq([whole(span_base(E, E.term(v)))]))])


def role_of(E, v):
    """the inside of brackets of a token"""
    if isinstance(v, SU) and is_range(v.t):
        if E.implied(v.t != lit('')):
            return range_role(E)
    return None


# ---- strings character by character ---------------------------------------------------------

import numpy as np
import hashlib


def chars(E, s):
    """the characters of an unknown string"""
    return E.lib.iterate(E, s)


def in_class(mask, t):
    """predicate 'the one-character string t is in the class'; complements are recognised"""
    neg = bool(mask[0])
    m = ~mask if neg else mask
    if not m.any():
        c = z3.BoolVal(False)
    else:
        h = hashlib.sha1(np.packbits(m).tobytes()).hexdigest()[:16]
        c = uf('chr:' + h, U, B)(t)
    return z3.Not(c) if neg else c


def char_mask(pred):
    return np.array([bool(pred(n)) for n in range(rx.N)])


def install_sub(E):
    def c(E, r, args, kw):
        if len(args) != 2 or kw:
            return NotImplemented
        repl, s = args[0], E.force(args[1])
        if not isinstance(s, SU):
            return NotImplemented
        p = prog(r)
        try:
            mask = rx.single(p)
        except rx.RxUnsupported as ex:
            raise Unsupported(str(ex))
        if mask is None:
            raise Unsupported('sub: matches are not single characters')
        out = E.newlist(Seq())

        def body(ch):
            if E.decide(in_class(mask, ch.t)):
                if isinstance(repl, (Func, BoundMethod, Native)):
                    o = E.alloc('match')
                    E.write('g0', o, ch)
                    v = E.call(repl, [o], {})
                elif isinstance(repl, str) and '\\' not in repl:
                    v = repl
                else:
                    # backslashes are special in a replacement string
                    v = E.lib.opaque_str(E, 'template', repl, ch)
                if not E.lib.isstr(v):
                    raise Unsupported('replacement %r' % (v,))
            else:
                v = ch
            E.lib.list_method(E, out, 'append', [v], {})
        E.stream(E.newlist(chars(E, s)), body)
        return E.lib.join(E, '', out)
    E.regex_contract['sub'] = c
