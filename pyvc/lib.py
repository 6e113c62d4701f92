"""Builtin operations of the symbolic evaluator."""
import sys
import importlib
import z3
from values import *
import engine as en
from engine import (Unsupported, LoopCarried, PyRaise, Ret, Brk, Cont, Infeasible, Obj, Func,
                    BoundMethod, Builtin, BMethod, BUnbound, Native, BCls, UserClass, Gen, Regex,
                    Module, ExtModule, StreamExit)

LISTS = ('list', 'set', 'deque', 'frozenset')


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class Sentinel:
    pass


# ---- strings -----------------------------------------------------------------

def isstr(v):
    return isinstance(v, (str, SStr)) or isinstance(v, SU) and v.ty == 'str'


def norm_str(E, parts):
    """merge literal parts"""
    out = []
    for p in parts:
        if isinstance(p, Lit) and isinstance(p.v, str):
            if p.v == '':
                continue
            if out and isinstance(out[-1], Lit) and isinstance(out[-1].v, str):
                out[-1] = Lit(out[-1].v + p.v)
                continue
        if isinstance(p, Lit) and isinstance(p.v, SStr):
            out = list(norm_str(E, tuple(out) + p.v.parts))
            continue
        out.append(p)
    return tuple(out)


def concat(E, vs):
    parts = []
    for v in vs:
        if isinstance(v, SStr):
            parts.extend(v.parts)
        elif isinstance(v, (str, SU)):
            parts.append(Lit(v))
        else:
            raise Unsupported('concatenation with %r' % (v,))
    parts = norm_str(E, parts)
    if not parts:
        return ''
    if len(parts) == 1 and isinstance(parts[0], Lit):
        return parts[0].v
    return SStr(parts)


def strterm(E, v):
    ts = []
    for p in norm_str(E, v.parts):
        if not isinstance(p, Lit):
            raise Unsupported('term of a string of unknown structure')
        ts.append(E.term(p.v))
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = scat(x, t)
    if len(ts) > 1:
        E.fact_once(kindf(t) == 3)
        if E.string_facts:
            n = strlen(E, v)
            E.fact_once(uf('slen', U, I)(t) == E.int_term(n))
            sepfacts(E, t, [p.v for p in norm_str(E, v.parts)])
        if any(isinstance(p, Lit) and isinstance(p.v, str) for p in v.parts):
            E.fact_once(t != lit(''))
    return t


def sepfacts(E, t, vs):
    """t is vs[0] + ':...': it splits there, when there is no ':' before"""
    if not isinstance(vs[0], str) and isinstance(vs[1], str) and vs[1][:1] == ':':
        c = ':'
        a = E.term(vs[0])
        rest = [vs[1][1:]] + list(vs[2:]) if len(vs[1]) > 1 else list(vs[2:])
        b = E.term(concat(E, rest)) if rest else lit('')
        has = uf('contains', U, U, B)
        E.fact_once(has(t, lit(c)))
        E.fact_once(z3.Implies(z3.Not(has(a, lit(c))), z3.And(uf('before:' + c, U, U)(t) == a,
                                                               uf('after:' + c, U, U)(t) == b)))
        st = uf('startswith', U, U, B)
        E.fact_once(z3.Implies(z3.Not(st(a, lit('{'))), z3.Not(st(t, lit('{')))))
    elif isinstance(vs[0], str):
        E.fact_once(uf('startswith', U, U, B)(t, lit(vs[0][0])))


def str_nonempty(E, v):
    conds = []
    for p in v.parts:
        if isinstance(p, Lit):
            c = E.truth(p.v)
            if c is True:
                return True
            if c is not False:
                conds.append(c)
        elif isinstance(p, FM):
            conds.append(fm_nonempty(E, p, lambda x: x))
        else:
            raise LoopCarried('string accumulator read in loop')
    return z3.Or(conds) if conds else False


def opaque_str(E, what, *vs):
    """string that is a function of its arguments"""
    ts = []
    for v in vs:
        try:
            ts.append(E.term(v))
        except LoopCarried:
            raise
        except Unsupported:
            t = E.fresh(U, 'str')
            E.assume(kindf(t) == 3)
            if what == 'str':
                E.text_of[KTerm(t)] = v
            return SU(t, 'str')
    f = uf('strfn:' + what, *([U] * (len(ts) + 1)))
    t = f(*ts) if ts else z3.Const('strfn:' + what, U)
    E.fact_once(kindf(t) == 3)
    return SU(t, 'str')


def to_str(E, v):
    if isinstance(v, SU) and v.ty != 'str':
        x = E.force(v) if v.ty == 'optstr' else v
        if x is None:
            return 'None'
        if isinstance(x, SU) and x.ty == 'str':
            return x
        return opaque_str(E, 'str', v)
    if isstr(v):
        return v
    if isinstance(v, (bool, int)) or v is None:
        return str(v)
    if isinstance(v, SInt):
        return opaque_str(E, 'str', v)
    if isinstance(v, Obj):
        m = v.cls.lookup('__str__') if isinstance(v.cls, UserClass) else None
        if m and isinstance(m[0], Func):
            return E.force(E.call(m[0], [v], {}))
        t = E.fresh(U, 'str')
        E.assume(kindf(t) == 3)
        return SU(t, 'str')
    return opaque_str(E, 'str', v)


def sterm(E, v):
    return E.term(v)


def contains(E, s, sub):
    """sub in s, for a literal sub"""
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    if isinstance(s, SStr) and isinstance(sub, str) and len(sub) == 1:
        cs = []
        for p in s.parts:
            if not isinstance(p, Lit):
                raise Unsupported('contains on unknown structure')
            c = contains(E, p.v, sub)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return z3.Or(cs) if cs else False
    t, u = E.term(s), E.term(sub)
    if isinstance(sub, str) and sub:
        E.fact_once(z3.Implies(t == lit(''), z3.Not(uf('contains', U, U, B)(t, u))))
    return uf('contains', U, U, B)(t, u)


def startswith(E, s, p):
    if isinstance(p, tuple):
        cs = [startswith(E, s, x) for x in p]
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return z3.Or(cs) if cs else False
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if isinstance(s, SStr) and isinstance(p, str):
        f = norm_str(E, s.parts)[0]
        if isinstance(f, Lit) and isinstance(f.v, str):
            if len(f.v) >= len(p):
                return f.v.startswith(p)
            if not p.startswith(f.v):
                return False
        elif isinstance(f, Lit) and len(p) == 1:
            if E.decide(E.truth(f.v)):
                return startswith(E, f.v, p)
            return startswith(E, concat(E, [x.v for x in norm_str(E, s.parts)[1:]]), p)
    t, u = E.term(s), E.term(p)
    r = uf('startswith', U, U, B)(t, u)
    if E.string_facts:
        n, m = E.int_term(strlen(E, s)), E.int_term(strlen(E, p))
        E.fact_once(z3.Implies(r, m <= n))
        occ = uf('occurs', U, U, I, B)
        E.fact_once(r == occ(t, u, z3.IntVal(0)))
        if isinstance(s, SU) and t.decl().name() == 'strslice' and t.arg(2).eq(NONE) and t.arg(3).eq(NONE) \
                and not t.arg(1).eq(NONE):
            lo = unboxint(t.arg(1))
            E.fact_once(z3.Implies(z3.And(0 <= lo, lo <= uf('slen', U, I)(t.arg(0))), r == occ(t.arg(0), u, lo)))
    if isinstance(p, str) and p:
        E.fact_once(z3.Implies(t == lit(''), z3.Not(r)))
        if len(p) == 1:
            E.fact_once(z3.Implies(r, uf('contains', U, U, B)(t, u)))
    return r


def split1(E, s, sep, rsplit=False):
    """(before, after) at the first (last) sep, or None"""
    if isinstance(s, str):
        if sep not in s:
            return None
        return tuple(s.rsplit(sep, 1) if rsplit else s.split(sep, 1))
    if isinstance(s, SStr) and len(sep) == 1:
        parts = norm_str(E, s.parts)
        order = range(len(parts) - 1, -1, -1) if rsplit else range(len(parts))
        for n in order:
            p = parts[n]
            if not isinstance(p, Lit):
                raise Unsupported('split of unknown structure')
            if E.decide(E.truth(contains(E, p.v, sep))):
                a, b = split1(E, p.v, sep, rsplit)
                return (concat(E, [x.v for x in parts[:n]] + [a]),
                        concat(E, [b] + [x.v for x in parts[n + 1:]]))
        return None
    if not E.decide(E.truth(contains(E, s, sep))):
        return None
    t = E.term(s)
    k = 'r' if rsplit else ''
    a = uf(k + 'before:' + sep, U, U)(t)
    b = uf(k + 'after:' + sep, U, U)(t)
    for x in (a, b):
        E.fact_once(kindf(x) == 3)
    if len(sep) == 1:
        E.fact_once(z3.Not(uf('contains', U, U, B)(b if rsplit else a, lit(sep))))
    va, vb = SU(a, 'str'), SU(b, 'str')
    E.fact_once(t == E.term(concat(E, [va, sep, vb])))
    return va, vb


def fmt(E, f, args, kw):
    """str.format with a literal format"""
    if not isinstance(f, str):
        return opaque_str(E, 'format:' + ','.join([str(len(args))] + list(kw)), f, *args, *kw.values())
    out, n, i = [], 0, 0
    while i < len(f):
        c = f[i]
        if c in '{}' and f[i:i + 2] == c * 2:
            out.append(c)
            i += 2
        elif c == '{':
            j = f.find('}', i)
            if j < 0:
                E.raise_(ValueError, 'format')
            name = f[i + 1:j]
            if name == '' or name.isdigit():
                k = n if name == '' else int(name)
                n += 1
                if k >= len(args):
                    E.raise_(IndexError)
                v = args[k]
            elif name.isidentifier() and name in kw:
                v = kw[name]
            else:
                raise Unsupported('format field %s' % name)
            out.append(to_str(E, v))
            i = j + 1
        else:
            j = i
            while j < len(f) and f[j] not in '{}':
                j += 1
            out.append(f[i:j])
            i = j
    return concat(E, out)


def percent(E, f, args):
    if not isinstance(f, str):
        raise Unsupported('%% of unknown format')
    if isinstance(args, Obj) or not isinstance(args, tuple):
        args = (args,)
    out, n, i = [], 0, 0
    while i < len(f):
        if f[i] == '%':
            if f[i + 1] == '%':
                out.append('%')
            elif f[i + 1] == 's':
                out.append(to_str(E, args[n]))
                n += 1
            elif f[i + 1] in 'di' and isinstance(args[n], (int, SInt)):
                out.append(to_str(E, int(args[n]) if isinstance(args[n], bool) else args[n]))
                n += 1
            elif f[i + 1] == 'r':
                out.append(opaque_str(E, 'fmtr', args[n]))
                n += 1
            else:
                raise Unsupported('%%%s' % f[i + 1])
            i += 2
        else:
            j = f.find('%', i)
            j = len(f) if j < 0 else j
            out.append(f[i:j])
            i = j
    return concat(E, out)


def strlen(E, s):
    if isinstance(s, str):
        return len(s)
    if isinstance(s, SU):
        t = uf('slen', U, I)(s.t)
        E.fact_once(t >= 0)
        E.fact_once((t == 0) == (s.t == lit('')))
        return SInt(t)
    tot, c = [], 0
    for p in s.parts:
        if not isinstance(p, Lit):
            raise Unsupported('length of string of unknown structure')
        x = strlen(E, p.v)
        if isinstance(x, int):
            c += x
        else:
            tot.append(x.t)
    return SInt(z3.Sum(tot + [z3.IntVal(c)])) if tot else c


STRFN = {'strip', 'lower', 'upper', 'title', 'rstrip', 'lstrip', 'replace', 'ljust', 'rjust',
         'capitalize', 'expandtabs', 'decode', 'encode', 'center', 'zfill', 'casefold', 'swapcase',
         'removeprefix', 'removesuffix', 'translate'}
BOOLFN = {'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum', 'isdecimal', 'isnumeric', 'endswith'}


def str_method(E, s, name, args, kw):
    if isinstance(s, str) and all(isinstance(a, (str, int, type(None))) for a in args) and not kw \
            and name not in ('join', 'format', 'split', 'partition', 'encode', 'splitlines', 'rsplit'):
        try:
            return getattr(s, name)(*args)
        except Exception as ex:
            E.raise_(type(ex))
    if name == 'join':
        return join(E, s, args[0])
    if name == 'format':
        return fmt(E, s, args, kw)
    if name == 'startswith':
        return mkbool(startswith(E, s, args[0]))
    if name in ('split', 'rsplit', 'partition'):
        sep = args[0] if args else None
        maxs = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(maxs, int):
            if name == 'partition':
                return s.partition(sep)
            return E.newlist(Seq([Lit(x) for x in getattr(s, name)(sep, maxs)]))
        if name == 'partition':
            if not isinstance(sep, str):
                raise Unsupported('partition at unknown separator')
            r = split1(E, s, sep)
            return (s, '', '') if r is None else (r[0], sep, r[1])
        if maxs == 1 and isinstance(sep, str):
            r = split1(E, s, sep, name == 'rsplit')
            return E.newlist(Seq([Lit(s)] if r is None else [Lit(r[0]), Lit(r[1])]))
        t = E.term(s)
        key = ('split', name, sep if sep is None else KTerm(E.term(sep)), maxs if isinstance(maxs, int) else 'x', KTerm(t))
        st = lit(('splitkey',) + (name, sep if isinstance(sep, (str, type(None))) else 'x', maxs if isinstance(maxs, int) else 'x'))
        n = uf('splitn', U, U, I)(st, t)
        E.fact_once(n >= (0 if sep is None else 1))
        return E.newlist(Seq([whole(Base(key, n, lambda i: mkstr(uf('splitpart', U, U, I, U)(st, t, i))))]))
    if name == 'splitlines':
        t = E.term(s)
        n = uf('splitlinesn', U, I)(t)
        E.fact_once(n >= 0)
        return E.newlist(Seq([whole(Base(('splitlines', KTerm(t)), n,
                                         lambda i: mkstr(uf('splitlinesp', U, I, U)(t, i))))]))
    if name in STRFN:
        r = opaque_str(E, name + ''.join(':%s' % k for k in kw), s, *(list(args) + list(kw.values())))
        if name == 'replace' and len(args) == 2 and isinstance(args[0], str) and args[0]:
            E.fact_once(z3.Implies(z3.Not(uf('contains', U, U, B)(E.term(s), lit(args[0]))), E.term(r) == E.term(s)))
        if E.string_facts:
            n, m = E.int_term(strlen(E, r)), E.int_term(strlen(E, s))
            if name in ('strip', 'lstrip', 'rstrip'):
                E.fact_once(n <= m)
            elif name in ('ljust', 'rjust', 'center'):
                w = E.int_term(args[0])
                E.fact_once(n == z3.If(m < w, w, m))
        return r
    if name in BOOLFN:
        ts = [E.term(a) for a in [s] + list(args)]
        return SBool(uf('strp:' + name, *([U] * len(ts) + [B]))(*ts))
    if name in ('find', 'rfind', 'index', 'count'):
        ts = [E.term(a) for a in [s] + list(args)]
        return SInt(uf('stri:' + name, *([U] * len(ts) + [I]))(*ts))
    raise Unsupported('str.%s' % name)


def mkstr(t):
    return SU(t, 'str')


def join(E, sep, it):
    seq = iterate(E, it)
    if isinstance(sep, str) and sep == '' or len(seq.parts) <= 1 and all(isinstance(p, Lit) for p in seq.parts):
        for p in seq.parts:
            check_strs(E, p)
        parts = norm_str(E, seq.parts)
        if not parts:
            return ''
        if len(parts) == 1 and isinstance(parts[0], Lit):
            return parts[0].v
        return SStr(parts)
    if all(isinstance(p, Lit) for p in seq.parts):
        vs = []
        for n, p in enumerate(seq.parts):
            if not isstr(p.v):
                E.raise_(TypeError)
            if n:
                vs.append(sep)
            vs.append(p.v)
        return concat(E, vs)
    for p in seq.parts:
        check_strs(E, p)
    h = getattr(E, 'join_contract', None)
    if h is not None:
        return h(E, sep, seq)
    return SJoin(sep, seq)


class SJoin(Val):
    """sep.join(seq) of unknown length"""
    __slots__ = ('sep', 'seq')

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, seq

    def subst(self, pairs):
        return SJoin(subst(self.sep, pairs), subst(self.seq, pairs))


def check_strs(E, p):
    """every element of the part is a string (else TypeError)"""
    if isinstance(p, Lit):
        v = p.v
        if isstr(v) or isinstance(v, SJoin):
            return
        if isinstance(v, SU) and v.ty == 'optstr':
            if not E.decide(v.t != NONE):
                E.raise_(TypeError, 'join')
            return
        if v is None or isinstance(v, (int, SInt)):
            E.raise_(TypeError, 'join')
        raise Unsupported('join of %r' % (v,))
    if isinstance(p, FM):
        bad = []
        for leaf in p.leaves:
            for q in leaf.parts:
                if isinstance(q, Lit):
                    if isstr(q.v):
                        continue
                    if isinstance(q.v, SU) and q.v.ty == 'optstr':
                        bad.append(z3.And(list(leaf.guards) + [q.v.t == NONE]))
                        continue
                    raise Unsupported('join of %r' % (q.v,))
                elif isinstance(q, FM):
                    check_strs(E, q)
        if bad:
            v = p.var
            ex = z3.Exists([v], z3.And(p.lo <= v, v < p.hi, z3.Or(bad)))
            if E.decide(ex):
                E.raise_(TypeError, 'join')
        return
    raise LoopCarried('join of an accumulator')


def mkbool(c):
    if isinstance(c, bool):
        return c
    return SBool(c)


# ---- comparison ----------------------------------------------------------------

def scalar(v):
    return v is None or isinstance(v, (str, bool, int, SU, SStr, SInt, SBool))


def lift(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def eq(E, a, b):
    """a == b as Python bool or z3 Bool"""
    for v in (a, b):
        if isinstance(v, Poison):
            if E.havoc_dicts:
                return E.choose()
            raise LoopCarried(v.why)
    if isinstance(a, SBool) and isinstance(b, (bool, SBool)) or isinstance(b, SBool) and isinstance(a, bool):
        return lift(E.truth(a)) == lift(E.truth(b))
    conc = (str, int, bool, type(None))
    if isinstance(a, conc) and isinstance(b, conc):
        return a == b
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return E.int_term(a) == E.int_term(b)
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        o = b if isinstance(a, (SInt, SBool)) else a
        if o is None or isstr(o) or isinstance(o, (Obj, tuple)) or isinstance(o, SU) and o.ty == 'optstr':
            return False
    if isinstance(a, SU) and a.ty.startswith('opt:') or isinstance(b, SU) and b.ty.startswith('opt:'):
        if a is None or b is None:
            return E.term(a) == E.term(b)
        return eq(E, E.force(a), E.force(b))
    if scalar(a) and scalar(b):
        if isstr(a) and b is None or isstr(b) and a is None:
            return False
        for x, y in ((a, b), (b, a)):
            # s[:n] == 'literal of length n' is s.startswith('literal')
            if isinstance(x, SU) and isinstance(y, str):
                o, how, n = E.end_of.get(KTerm(x.t), (None, None, None))
                if how is not None and len(y) >= n:
                    return False if len(y) > n else lift(E.truth(str_method(E, o, how, [y], {})))
        if isinstance(a, SStr) or isinstance(b, SStr):
            if not simple_str(a) or not simple_str(b):
                r = same(E, a, b)
                if r is True:
                    return True
                raise Unsupported('comparison of strings of unknown structure')
        return str_eq(E, a, b)
    if isinstance(a, SJoin) or isinstance(b, SJoin):
        if same(E, a, b) is True:
            return True
        if a is None or b is None:
            return False
        raise Unsupported('comparison of joined strings')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        cs = [eq(E, x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return z3.And(cs) if cs else True
    if isinstance(a, Obj) and isinstance(a.cls, UserClass) or isinstance(b, Obj) and isinstance(b.cls, UserClass):
        return obj_eq(E, a, b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.t.eq(b.t):
            return True
        if a.cls in LISTS and b.cls in LISTS:
            if a.cls != b.cls:
                return False
            return seq_eq(E, E.content(a), E.content(b))
        if a.cls == 'dict' and b.cls == 'dict':
            return dict_eq(E, a, b)
        return False
    if isinstance(a, (Func, UserClass, BCls, Module, Builtin)) or isinstance(b, (Func, UserClass, BCls, Module, Builtin)):
        return a is b or a == b
    if isinstance(a, Obj) or isinstance(b, Obj) or isinstance(a, tuple) or isinstance(b, tuple):
        x = b if isinstance(a, (Obj, tuple)) else a
        if scalar(x) and not (isinstance(x, SU) and x.ty == 'any'):
            return False
        if isinstance(a, (Obj, tuple)) and isinstance(b, (Obj, tuple)):
            return False
    raise Unsupported('comparison of %r and %r' % (a, b))


def simple_str(v):
    return not isinstance(v, SStr) or all(isinstance(p, Lit) for p in v.parts)


def str_eq(E, a, b):
    """equality of scalars by terms, cancelling common literal ends"""
    if (isinstance(a, SStr) or isinstance(b, SStr)) and isstr(a) and isstr(b):
        pa = list(norm_str(E, a.parts)) if isinstance(a, SStr) else ([Lit(a)] if a != '' else [])
        pb = list(norm_str(E, b.parts)) if isinstance(b, SStr) else ([Lit(b)] if b != '' else [])
        for rev in (False, True):
            while pa and pb:
                k = -1 if rev else 0
                x, y = pa[k].v, pb[k].v
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if (x[-n:] != y[-n:]) if rev else (x[:n] != y[:n]):
                        return False
                    cut = (lambda z: z[:-n]) if rev else (lambda z: z[n:])
                    for ps, z in ((pa, x), (pb, y)):
                        if len(z) == n:
                            ps.pop(k)
                        else:
                            ps[k] = Lit(cut(z))
                elif not isinstance(x, str) and not isinstance(y, str) and E.term(x).eq(E.term(y)):
                    pa.pop(k)
                    pb.pop(k)
                else:
                    break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p.v, str) for p in rest):
                return False
            return z3.And([E.term(p.v) == lit('') for p in rest])
        a, b = concat(E, [p.v for p in pa]), concat(E, [p.v for p in pb])
        # x <sep> y == x' <sep> y' with sep in neither x nor x'
        ra, rb = sepsplit(E, a), sepsplit(E, b)
        if ra and rb and ra[1] == rb[1]:
            return z3.And(lift(str_eq(E, ra[0], rb[0])), lift(str_eq(E, ra[2], rb[2])))
    return E.term(a) == E.term(b)


def sepsplit(E, a):
    if isinstance(a, SStr) and len(a.parts) >= 2 and isinstance(a.parts[1].v, str) and not isinstance(a.parts[0].v, str):
        sep = a.parts[1].v[0]
        if E.implied(z3.Not(lift(contains(E, a.parts[0].v, sep))), 300):
            return a.parts[0].v, sep, concat(E, [a.parts[1].v[1:]] + [p.v for p in a.parts[2:]])
    return None


def obj_eq(E, a, b):
    if isinstance(a, SU) or isinstance(b, SU):
        a2, b2 = E.force(a), E.force(b)
        if a2 is not a or b2 is not b:
            return eq(E, a2, b2)
    if E.eq_contract is not None:
        r = E.eq_contract(E, a, b)
        if r is not NotImplemented:
            return r
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj) and isinstance(x.cls, UserClass):
            m = x.cls.lookup('__eq__')
            if m is None:
                continue
            if isinstance(m[0], Func):
                r = E.call(m[0], [x, y], {})
                if isinstance(r, Sentinel):
                    continue
                c = E.truth(r)
                return c
            if isinstance(m[0], BUnbound) and isinstance(y, Obj):
                return seq_eq(E, E.content(x), E.content(y))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.t.eq(b.t):
            return True
        if a.fresh and b.fresh or a.fresh != b.fresh:
            return False
        return a.t == b.t
    return False


def dict_eq(E, a, b):
    da, db = E.dcontent(a), E.dcontent(b)
    if da.base is not None and db.base is not None and not da.ops and not db.ops \
            and isinstance(da.base, Obj) and isinstance(db.base, Obj):
        if da.base.t.eq(db.base.t):
            return True
        E.fact_once(z3.Implies(da.base.t == db.base.t, dicteq(da.base.t, db.base.t)))
        return dicteq(da.base.t, db.base.t)
    if not da.ops and not db.ops and da.base is None and db.base is None:
        return True
    for x, y in ((da, db), (db, da)):
        if x.base is None and not x.ops and isinstance(y.base, Obj) and not y.ops:
            return dlen(y.base.t) == 0
    raise Unsupported('comparison of dicts')


def seq_eq(E, a, b):
    """list equality: length and elements"""
    if len(a.parts) == len(b.parts) and all(isinstance(p, Lit) for p in a.parts + b.parts):
        return eq(E, tuple(p.v for p in a.parts), tuple(p.v for p in b.parts))
    if all(isinstance(p, Lit) for p in a.parts + b.parts):
        return False
    if same(E, a, b, probe=True) is True:
        return True
    # two plain sequences: pointwise
    if len(a.parts) == 1 and len(b.parts) == 1 and all(isinstance(x, FM) and uniform(x) for x in (a.parts[0], b.parts[0])):
        x, y = a.parts[0], b.parts[0]
        v = fresh_var('e')
        ea, eb = fm_at(E, x, x.lo + v), fm_at(E, y, y.lo + v)
        c = eq(E, ea, eb)
        return z3.And(x.hi - x.lo == y.hi - y.lo,
                      z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < x.hi - x.lo), lift(c))))
    for x, y in ((a, b), (b, a)):                   # as long as a literal, and its elements
        if len(x.parts) == 1 and isinstance(x.parts[0], FM) and uniform(x.parts[0]) \
                and all(isinstance(p, Lit) for p in y.parts):
            x, n = x.parts[0], len(y.parts)
            cs = [eq(E, fm_at(E, x, z3.simplify(x.lo + j)), p.v) for j, p in enumerate(y.parts)] \
                if E.possible(x.hi - x.lo == n) else [False]
            return False if any(c is False for c in cs) else z3.And(x.hi - x.lo == n, *[lift(c) for c in cs])
    raise Unsupported('comparison of lists of unknown structure')


def compare(E, op, a, b):
    if op in ('Eq', 'NotEq'):
        if op == 'NotEq':
            if isinstance(a, Obj) and isinstance(a.cls, UserClass):
                m = a.cls.lookup('__ne__')
                if m and isinstance(m[0], Func):
                    return E.call(m[0], [a, b], {})
                if m and isinstance(m[0], BUnbound) and m[0].kind == 'list':
                    if isinstance(b, Obj) and isinstance(b.cls, UserClass) and b.cls.isbuiltin(list):
                        c = seq_eq(E, E.content(a), E.content(b))
                        return mkbool(not c if isinstance(c, bool) else z3.Not(c))
        c = eq(E, a, b)
        if op == 'NotEq':
            c = (not c) if isinstance(c, bool) else z3.Not(c)
        return mkbool(c)
    if op in ('Is', 'IsNot'):
        c = is_(E, a, b)
        if op == 'IsNot':
            c = (not c) if isinstance(c, bool) else z3.Not(c)
        return mkbool(c)
    if op in ('In', 'NotIn'):
        c = member(E, a, b)
        if op == 'NotIn':
            c = (not c) if isinstance(c, bool) else z3.Not(c)
        return mkbool(c)
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        if isinstance(a, int) and isinstance(b, int):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        x, y = E.int_term(a), E.int_term(b)
        return SBool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if a is None or b is None:
        E.raise_(TypeError, 'comparison')
    h = getattr(E, 'slen_term', None)
    if h is not None and (isinstance(a, SLen) or isinstance(b, SLen)):      # a name for the number, from the harness
        return compare(E, op, *[SInt(h(E, x)) if isinstance(x, SLen) else x for x in (a, b)])
    raise Unsupported('ordering of %r and %r' % (a, b))


def is_(E, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise LoopCarried('poison')
    if a is None or b is None:
        o = b if a is None else a
        if o is None:
            return True
        if isinstance(o, SU):
            return o.t == NONE if o.ty != 'str' else False
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        o = b if isinstance(a, bool) else a
        w = a if isinstance(a, bool) else b
        if isinstance(o, bool):
            return o == w
        if isinstance(o, SBool):
            return o.t if w else z3.Not(o.t)
        if isinstance(o, (Obj, str)) or isstr(o):
            return False
        raise Unsupported('is bool')
    a, b = E.force(a), E.force(b)
    if a is None or b is None:
        return a is b
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.t.eq(b.t):
            return True
        if a.fresh != b.fresh:
            return False
        if a.fresh and not a.t.decl().eq(b.t.decl()):
            return False
        return a.t == b.t
    if isinstance(a, Obj) or isinstance(b, Obj):
        o, x = (a, b) if isinstance(a, Obj) else (b, a)
        if isinstance(x, SU) and x.ty == 'any':
            return o.t == x.t
        return False
    if isinstance(a, (UserClass, BCls, Func, Module, Sentinel, Builtin)) or isinstance(b, (UserClass, BCls, Func, Module, Sentinel, Builtin)):
        return a is b or a == b
    if isinstance(a, SU) and isinstance(b, SU) and a.t.eq(b.t):
        return True
    raise Unsupported('identity of values')


def member(E, x, c):
    """x in c"""
    if isinstance(c, (str, SStr)) or isinstance(c, SU) and c.ty in ('str',):
        if not isstr(x):
            if x is None:
                E.raise_(TypeError)
            x = E.force(x)
            if x is None:
                E.raise_(TypeError)
        return contains(E, c, x)
    c = E.force(c)
    if isinstance(c, Obj) and stub(E, c, 'contains'):
        return stub(E, c, 'contains')(E, c, x)
    if isinstance(c, Obj) and isinstance(c.cls, UserClass):
        m = c.cls.lookup('__contains__')
        if m and isinstance(m[0], Func):
            return E.truth(E.call(m[0], [c, x], {}))
    if isinstance(c, Obj) and c.cls == 'dict':
        return dict_has(E, E.dcontent(c), x)
    if isinstance(c, Gen):
        return E.truth(call_any(E, c, lambda v: eq(E, v, x)))
    return seq_member(E, x, iterate(E, c) if not (isinstance(c, Obj) and c.cls in LISTS) else E.content(c))


def seq_member(E, x, seq):
    conds = []
    for p in seq.parts:
        if isinstance(p, Lit):
            c = eq(E, p.v, x)
            if c is True:
                return True
            if c is not False:
                conds.append(c)
        elif isinstance(p, FM):
            c = given_member(E, p, x) if len(seq.parts) == 1 else None
            conds.append(c if c is not None else fm_exists(E, p, lambda v: eq(E, v, x), lambda q: given_member(E, q, x)))
        else:
            raise LoopCarried('membership in an accumulator')
    return z3.Or(conds) if conds else False


def given_member(E, p, x):
    """x is an element of p, all of a given list, as a predicate (E.member_pred)"""
    if E.member_pred and p.identity and isinstance(p.base.key, tuple) \
            and p.base.key[0] == 'list' and z3.is_int_value(p.lo) and p.lo.as_long() == 0 and p.hi.eq(p.base.len):
        return uf('lmember', U, U, B)(p.base.key[1].t, E.term(x))
    return None


def seq_member_is(E, x, seq):
    """x is (identically) an element of seq"""
    conds = []
    for p in seq.parts:
        if isinstance(p, Lit):
            c = is_(E, p.v, x)
            if c is True:
                return True
            if c is not False:
                conds.append(c)
        else:
            conds.append(fm_exists(E, p, lambda v: is_(E, v, x)))
    return z3.Or(conds) if conds else False


def fm_exists(E, p, cond, inner=lambda q: None):
    """exists an element of the FM that satisfies cond"""
    alts = []
    v = fresh_var('x')
    sub = [(p.var, v)]
    for leaf in p.leaves:
        cs = []
        for q in leaf.parts:
            q = subst(q, sub)
            if isinstance(q, Lit):
                c = pure(E, lambda: cond(q.v))
                if c is True:
                    cs.append(z3.BoolVal(True))
                elif c is not False:
                    cs.append(c)
            elif isinstance(q, FM):
                c = inner(q)
                cs.append(c if c is not None else fm_exists(E, q, cond, inner))
            else:
                raise LoopCarried('accumulator')
        if cs:
            alts.append(z3.And([z3.substitute(g, *sub) for g in leaf.guards] + [z3.Or(cs)]))
    if not alts:
        return z3.BoolVal(False)
    return exists(E, p.base, v, p.lo, p.hi, z3.Or(alts))


def pure(E, fn):
    """condition as a formula without forking"""
    n = len(E.pc)
    paths = E.explore(lambda: fn())
    fs = []
    for p in paths:
        if p.kind != 'normal':
            raise Unsupported('exception inside a quantified condition')
        g = [x for isg, x in p.pc[n:] if isg]
        c = p.value
        if isinstance(c, SBool):
            c = c.t
        if c is False:
            continue
        fs.append((g, c))
    if len(paths) == 1 and not fs:
        return False
    if len(paths) == 1 and not fs[0][0]:
        return fs[0][1]
    out = [z3.And(g + ([] if c is True else [c])) if (g or c is not True) else z3.BoolVal(True) for g, c in fs]
    return z3.Or(out) if out else False


def fm_nonempty(E, p, f=None):
    """some element exists (f given: of strings, some nonempty element)"""
    alts = []
    always = True
    for leaf in p.leaves:
        cs = []
        for q in leaf.parts:
            if isinstance(q, Lit):
                c = True if f is None else E.truth(q.v)
                if c is True:
                    cs = [True]
                    break
                if c is not False:
                    cs.append(c)
            elif isinstance(q, FM):
                cs.append(fm_nonempty(E, q, f))
        if True in cs:
            alts.append(z3.And(list(leaf.guards)) if leaf.guards else z3.BoolVal(True))
            continue
        always = False
        if cs:
            alts.append(z3.And(list(leaf.guards) + [z3.Or(cs)]))
    if always:
        return p.lo < p.hi
    if not alts:
        return z3.BoolVal(False)
    v = fresh_var('n')
    return z3.Exists([v], z3.And(p.lo <= v, v < p.hi, z3.substitute(z3.Or(alts), (p.var, v))))


def seq_nonempty(E, seq):
    conds = []
    for p in seq.parts:
        if isinstance(p, Lit):
            return True
        if isinstance(p, FM):
            conds.append(fm_nonempty(E, p))
        else:
            raise LoopCarried('emptiness of an accumulator')
    return z3.Or(conds) if conds else False


def dict_nonempty(E, d):
    if any(op[0] == 'set' for op in d.ops) and not any(op[0] == 'del' for op in d.ops):
        return True
    if not d.ops:
        if d.base is None:
            return False
        if isinstance(d.base, Mark):
            raise LoopCarried('emptiness of dict accumulator')
        E.fact_once(dlen(d.base.t) >= 0)
        return dlen(d.base.t) > 0
    conds = []
    if d.base is not None:
        E.fact_once(dlen(d.base.t) >= 0)
        conds.append(dlen(d.base.t) > 0)
    for op in d.ops:
        if op[0] == 'stream':
            conds.append(fm_nonempty(E, op[1]))
        elif op[0] == 'over':
            E.fact_once(dlen(op[1].t) >= 0)
            conds.append(dlen(op[1].t) > 0)
        else:
            raise Unsupported('emptiness of dict')
    return z3.Or(conds)


def uniform(p):
    return len(p.leaves) == 1 and not p.leaves[0].guards and len(p.leaves[0].parts) == 1 \
        and isinstance(p.leaves[0].parts[0], Lit)


def counts(p):
    """number of elements per iteration, if constant"""
    ns = set()
    for leaf in p.leaves:
        if not all(isinstance(q, Lit) for q in leaf.parts):
            return None
        ns.add(len(leaf.parts))
    return ns.pop() if len(ns) == 1 else None


def fm_at(E, p, idx):
    """element at index idx of a uniform FM (facts are assumed)"""
    if p.identity:
        return p.base.elem(idx)
    for f in p.leaves[0].facts:
        E.assume(z3.Implies(z3.And(p.lo <= idx, idx < p.hi), z3.substitute(f, (p.var, idx))))
    return subst(p.leaves[0].parts[0].v, [(p.var, idx)])


def seq_len(E, seq):
    n, ts = 0, []
    for p in seq.parts:
        if isinstance(p, Lit):
            n += 1
        elif isinstance(p, FM):
            c = counts(p)
            if c is None:
                return SLen(seq)
            if p.identity or True:
                ts.append(c * (p.hi - p.lo))
        else:
            raise LoopCarried('length of an accumulator')
    return SInt(z3.simplify(z3.Sum(ts + [z3.IntVal(n)]))) if ts else n


class SLen(Val):
    """number of elements of a sequence without closed form"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def subst(self, pairs):
        return SLen(subst(self.seq, pairs))


def first(E, seq, last=False):
    """first (last) element, as 1-tuple; None if empty (forks)"""
    parts = seq.parts if not last else tuple(reversed(seq.parts))
    for p in parts:
        if isinstance(p, Lit):
            return (p.v,)
        if not isinstance(p, FM):
            raise LoopCarried('element of an accumulator')
        ne = fm_nonempty(E, p)
        if not E.decide(ne):
            continue
        if uniform(p):
            return (fm_at(E, p, z3.simplify(p.lo if not last else p.hi - 1)),)
        w = E.fresh(I, 'first')
        v = fresh_var('q')
        # formula of "iteration v contributes"
        contrib = []
        for leaf in p.leaves:
            cs = []
            for q in leaf.parts:
                cs.append(z3.BoolVal(True) if isinstance(q, Lit) else fm_nonempty(E, q))
            if cs:
                contrib.append(z3.And(list(leaf.guards) + [z3.Or(cs)]))
        cf = z3.Or(contrib)
        E.assume(z3.And(p.lo <= w, w < p.hi, z3.substitute(cf, (p.var, w))))
        rng = z3.And(p.lo <= v, v < w) if not last else z3.And(w < v, v < p.hi)
        E.assume(z3.ForAll([v], z3.Implies(rng, z3.Not(z3.substitute(cf, (p.var, v))))))
        out = []
        E.enter_leaf(p, w, lambda ps: out.append(first(E, Seq(ps), last)))
        if not out or out[0] is None:
            raise Infeasible()
        return out[0]
    return None


def seq_index(E, seq, i):
    """seq[i]; raises IndexError"""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and all(isinstance(p, Lit) for p in seq.parts):
        n = len(seq.parts)
        if not -n <= i < n:
            E.raise_(IndexError)
        return seq.parts[i].v
    if isinstance(i, int) and i == 0 or isinstance(i, int) and i == -1:
        r = first(E, seq, i == -1)
        if r is None:
            E.raise_(IndexError)
        return r[0]
    n = seq_len(E, seq)
    if isinstance(n, SLen):
        raise Unsupported('index into a filtered list')
    n = E.int_term(n)
    t = E.int_term(i)
    if E.decide(t < 0):
        t = t + n
        if E.decide(t < 0):
            E.raise_(IndexError)
    elif not E.decide(t < n):
        E.raise_(IndexError)
    off = z3.IntVal(0)
    for k, p in enumerate(seq.parts):
        if isinstance(p, Lit):
            if k == len(seq.parts) - 1 or E.decide(t == off):
                return p.v
            off = off + 1
        else:
            if not uniform(p):
                raise Unsupported('index into a list of groups')
            if k == len(seq.parts) - 1 or E.decide(t < off + (p.hi - p.lo)):
                return fm_at(E, p, z3.simplify(p.lo + t - off))
            off = off + (p.hi - p.lo)
    raise Infeasible()


def clamp(E, x, n, default):
    """slice bound as term within 0..n"""
    if x is None:
        return default
    t = E.int_term(x)
    if E.decide(t < 0):
        t = t + n
        if E.decide(t < 0):
            t = z3.IntVal(0)
    elif not E.decide(t <= n):
        t = n
    return z3.simplify(t)


def seq_slice(E, seq, lo, hi, step=None):
    if step is not None:
        if step == -1 and lo is None and hi is None and all(isinstance(p, Lit) for p in seq.parts):
            return Seq(tuple(reversed(seq.parts)))
        if not (isinstance(step, int) and step == 1):
            return opaque_slice(E, seq, lo, hi, step)
    if lo is None and hi is None:
        return seq
    conc = (int, type(None))
    if all(isinstance(p, Lit) for p in seq.parts) and isinstance(lo, conc) and isinstance(hi, conc):
        return Seq(seq.parts[lo:hi])
    n = seq_len(E, seq)
    if isinstance(n, SLen):
        raise Unsupported('slice of a filtered list')
    n = E.int_term(n)
    a = clamp(E, lo, n, z3.IntVal(0))
    b = clamp(E, hi, n, n)
    return cut(E, seq, a, b)


def opaque_slice(E, seq, lo, hi, step):
    if len(seq.parts) == 1 and isinstance(seq.parts[0], FM) and seq.parts[0].identity:
        p = seq.parts[0]
        args = tuple(KTerm(E.term(x)) for x in (lo, hi, step))
        ts = [x.t for x in args]
        key = ('slice', p.base.key, KTerm(p.lo), KTerm(p.hi)) + args
        n = uf('slicelen', I, U, U, U, I)(p.hi - p.lo, *ts)
        E.fact_once(n >= 0)
        E.fact_once(n <= p.hi - p.lo)
        pos = uf('slicepos', I, U, U, U, I, I)
        return Seq([whole(Base(key, n, lambda i: p.base.elem(p.lo + pos(p.hi - p.lo, ts[0], ts[1], ts[2], i))))])
    raise Unsupported('slice with step')


def cut(E, seq, a, b):
    """elements a..b-1 (0 <= a, b <= len)"""
    if not E.decide(a < b):
        return Seq()
    out = []
    off = z3.IntVal(0)
    for p in seq.parts:
        if isinstance(p, Lit):
            if E.decide(z3.And(a <= off, off < b)):
                out.append(p)
            off = off + 1
        else:
            if counts(p) != 1:
                raise Unsupported('slice of groups')
            m = p.hi - p.lo
            s = z3.IntVal(0)
            if not E.decide(a <= off):
                s = a - off
                if not E.decide(s < m):
                    off = off + m
                    continue
            e = m
            if not E.decide(off + m <= b):
                e = b - off
            if E.decide(s < e):
                out.append(FM(p.base, z3.simplify(p.lo + s), z3.simplify(p.lo + e), p.var, p.leaves, p.identity))
            off = off + m
    return Seq(out)


# ---- iteration -------------------------------------------------------------------

def iterate(E, v):
    """Seq of the elements of an iterable"""
    v = E.force(v) if isinstance(v, SU) else v
    if isinstance(v, Seq):
        return v
    if isinstance(v, tuple):
        return Seq([Lit(x) for x in v])
    if isinstance(v, str):
        return Seq([Lit(c) for c in v])
    if isinstance(v, (SU, SStr)) and isstr(v):
        t = E.term(v)
        n = strlen(E, v)
        ch = uf('charat', U, I, U)
        return Seq([whole(Base(('chars', KTerm(t)), E.int_term(n), lambda i: SU(ch(t, i), 'str')))])
    if isinstance(v, Obj):
        if isinstance(v.cls, UserClass):
            m = v.cls.lookup('__iter__')
            if m is None:
                E.raise_(TypeError, 'not iterable')
            if isinstance(m[0], Func):
                return drain(E, v)
            return E.content(v)
        if v.cls in ('list', 'deque'):
            return E.content(v)
        h = stub(E, v, 'iter')
        if h is not None:
            return h(E, v)
        if v.cls in ('set', 'frozenset'):
            s = E.content(v)
            if len(s.parts) <= 1 and all(isinstance(p, Lit) for p in s.parts):
                return s
            return set_iter(E, v, s)
        if v.cls == 'dict':
            return Seq([p for p in map_parts(dict_items(E, E.dcontent(v)), lambda kv: kv[0]).parts])
    if isinstance(v, Gen):
        return drain(E, v)
    if v is None or isinstance(v, (int, SInt, SBool)):
        E.raise_(TypeError, 'not iterable')
    raise Unsupported('iteration over %r' % (v,))


def set_iter(E, v, s):
    """elements of a set, once each, in unknown order"""
    if len(s.parts) == 1 and isinstance(s.parts[0], FM) and s.parts[0].base.distinct and s.parts[0].identity:
        pass
    t = E.fresh(U, 'setiter')
    n = uf('setn', U, I)(t)
    el = uf('setel', U, I, U)
    E.assume(n >= 0)
    v_ = fresh_var('s')
    E.assume(z3.ForAll([v_], z3.Implies(z3.And(0 <= v_, v_ < n),
             lift(seq_member(E, SU(el(t, v_), 'any'), s))), patterns=[el(t, v_)]))
    pos = uf('setpos', U, U, I)
    E.assume(z3.ForAll([v_], z3.Implies(z3.And(0 <= v_, v_ < n), pos(t, el(t, v_)) == v_), patterns=[el(t, v_)]))
    ty = set_type(s)
    return Seq([whole(Base(('setiter', KTerm(t), KSeq(s)), n, lambda i: E.mkval(ty, el(t, i)), True))])


def set_type(s):
    for p in s.parts:
        q = p
        while isinstance(q, FM):
            q = [x for l in q.leaves for x in l.parts][0]
        if isinstance(q, Lit):
            if isstr(q.v):
                return 'str'
            if isinstance(q.v, SU):
                return q.v.ty
    raise Unsupported('type of set elements')


def drain(E, it):
    out = E.newlist(Seq())

    def body(v):
        E.set_content(out, Seq(E.content(out).parts + (Lit(v),)))
    E.stream(it, body)
    return E.content(out)


def map_parts(seq, f):
    def mp(p):
        if isinstance(p, Lit):
            return Lit(f(p.v))
        if isinstance(p, FM):
            return FM(p.base, p.lo, p.hi, p.var,
                      [Leaf(l.guards, l.facts, [mp(q) for q in l.parts]) for l in p.leaves])
        raise LoopCarried('accumulator')
    return Seq([mp(p) for p in seq.parts])


def dict_items(E, d):
    """Seq of (key, value)"""
    if isinstance(d.base, Mark):
        raise LoopCarried('iteration over a dict accumulator')
    try:
        seq = dict_items_(E, d)
    except NeedMap:
        return dict_items_(E, DVal(materialise(E, d)))
    if any(op[0] == 'stream' for op in d.ops):
        E.listed.append((d, seq))       # the keys are different
    return seq


def own_key(E, d, k):
    """(value,) if k is the key of a known element of the dict that has been iterated over"""
    for x, seq in E.listed:
        if x is not d:
            continue
        kt = E.term(k)
        for p in seq.parts:
            r = at_key(E, p, kt)
            if r is not None:
                return r
    return None


def at_key(E, p, kt):
    if isinstance(p, Lit):
        return None
    for leaf in p.leaves:
        for q in leaf.parts:
            if isinstance(q, FM):
                if len(leaf.parts) != 1:
                    continue
                for l2 in q.leaves:
                    if len(l2.parts) == 1 and isinstance(l2.parts[0], Lit):
                        r = try_key(E, [(p, leaf), (q, l2)], l2.parts[0].v, kt)
                        if r is not None:
                            return r
            elif isinstance(q, Lit) and len(leaf.parts) == 1:
                r = try_key(E, [(p, leaf)], q.v, kt)
                if r is not None:
                    return r
    return None


def try_key(E, path, kv, kt):
    vs = [p.var for p, _ in path]
    env = {}
    if not unify(E.term(kv[0]), kt, vs, env) or len(env) != len(vs):
        return None
    sub = [(v, env[v.get_id()]) for v in vs]
    cond = []
    for p, leaf in path:
        cond += [p.lo <= p.var, p.var < p.hi] + list(leaf.guards)
    if not E.implied(z3.substitute(z3.And(cond), *sub)):
        return None
    for p, leaf in path:
        for f in leaf.facts:
            E.assume(z3.substitute(f, *sub))
    return (subst(Seq((Lit(kv[1]),)).parts, sub)[0].v,)


def unify(pat, t, vs, env):
    """the values of the variables with which the pattern is the term"""
    for v in vs:
        if pat.eq(v):
            if v.get_id() in env:
                return env[v.get_id()].eq(t)
            env[v.get_id()] = t
            return True
    if not z3.is_app(pat) or not z3.is_app(t):
        return pat.eq(t)
    if not pat.decl().eq(t.decl()) or pat.num_args() != t.num_args():
        return False
    return all(unify(a, b, vs, env) for a, b in zip(pat.children(), t.children()))


class NeedMap(Exception):
    pass


def materialise(E, d):
    """a dict with the content of d, in unknown order"""
    for x, o in E.maps:
        if x is d:
            break
    else:
        etys = set()
        parts = [d.base] if d.base is not None else []
        parts += [op[1] for op in d.ops if op[0] == 'over']
        etys |= {b.ety for b in parts}
        if any(op[0] not in ('over', 'stream', 'set') for op in d.ops):
            raise Unsupported('iteration over a dict with deletions')
        for op in d.ops:
            if op[0] == 'set':
                etys.add('%s>%s' % (valtype(op[1]), valtype(op[2])))
            elif op[0] == 'stream':
                for l in op[1].leaves:
                    for q in l.parts:
                        if not isinstance(q, Lit) or len(l.parts) > 1:
                            raise Unsupported('iteration over a dict built in nested loops')
                        etys.add('%s>%s' % (valtype(q.v[0]), valtype(q.v[1])))
        ety = etys.pop() if len(etys) == 1 else 'any>any'
        o = Obj(E.fresh(U, 'map'), 'dict', False, ety)
        E.maps.append((d, o))
    T = o.t
    k = z3.Const('mk!', U)
    hasf, getf = z3.BoolVal(False), None
    if d.base is not None:
        hasf, getf = dhas(d.base.t, k), dget(d.base.t, k)
    facts = []
    for n, op in enumerate(d.ops):
        if op[0] == 'over':
            h, g = dhas(op[1].t, k), dget(op[1].t, k)
        elif op[0] == 'set':
            h, g = k == E.term(op[1]), E.term(op[2])
        else:
            fm = op[1]
            w = uf('mapwit:%d' % n, U, U, I)(T, k)
            sub = [(fm.var, w)]
            hs, g = [], None
            for l in fm.leaves:
                if not l.parts:
                    continue
                kt, vt = E.term(l.parts[0].v[0]), E.term(l.parts[0].v[1])
                cond = z3.And(list(l.guards) + [z3.BoolVal(True)])
                for f in l.facts:
                    facts.append(z3.ForAll([k], z3.Implies(z3.And(fm.lo <= w, w < fm.hi, z3.substitute(cond, *sub)),
                                                            z3.substitute(f, *sub)), patterns=[w]))
                hs.append((z3.And(cond, kt == k), vt))
            m = z3.Or([c for c, _ in hs]) if hs else z3.BoolVal(False)
            h = exists(E, fm.base, fm.var, fm.lo, fm.hi, m)
            v = fm.var
            facts.append(z3.ForAll([k], z3.Implies(h, z3.And(
                fm.lo <= w, w < fm.hi, z3.substitute(m, *sub))), patterns=[dhas(T, k), w]))
            facts.append(z3.ForAll([k, v], z3.Implies(z3.And(fm.lo <= v, v < fm.hi, m), v <= w), patterns=[z3.MultiPattern(
                dhas(T, k), hs[0][1])] if False else []))
            g = None
            for c, vt in hs:
                vt = z3.substitute(vt, *sub)
                g = vt if g is None else z3.If(z3.substitute(c, *sub), vt, g)
            if g is None:
                continue
        getf = g if getf is None else z3.If(h, g, getf)
        hasf = z3.Or(hasf, h)
    facts.append(z3.ForAll([k], dhas(T, k) == hasf, patterns=[dhas(T, k)]))
    if getf is not None:
        facts.append(z3.ForAll([k], z3.Implies(dhas(T, k), dget(T, k) == getf), patterns=[dget(T, k)]))
    for b in parts if False else ([d.base] if d.base is not None else []) + [op[1] for op in d.ops if op[0] == 'over']:
        facts.append(z3.ForAll([k], z3.Implies(dhas(b.t, k), dhas(T, k)), patterns=[dhas(b.t, k)]))
    E.fact_once(z3.Not(fresh_p(T)))
    for f in facts:
        E.fact_once(f)
    return o


def valtype(v):
    if isinstance(v, SU):
        return v.ty
    if isstr(v):
        return 'str'
    return 'any'


def exists(E, base, v, lo, hi, body):
    """there is v in lo..hi-1 with body; the elements of a dict are found by their keys"""
    body = z3.simplify(body)
    if z3.is_false(body):
        return body
    if isinstance(base.key, tuple) and base.key and base.key[0] == 'items':
        t = base.key[1].t
        out = []
        for alt in (body.children() if z3.is_or(body) else [body]):
            cs = flatten(alt)
            hit = None
            for c in cs:
                if z3.is_eq(c):
                    for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                        if a.eq(dkey(t, v)) and not mentions(b, v):
                            hit = b
                            break
                if hit is not None:
                    break
            if hit is None:
                out.append(z3.Exists([v], z3.And(lo <= v, v < hi, alt)))
                continue
            p = dpos(t, hit)
            rest = z3.substitute(z3.substitute(z3.And(cs), (dkey(t, v), hit)), (v, p))
            whole_ = z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(dlen(t))
            out.append(z3.And([dhas(t, hit), rest] + ([] if whole_ else [lo <= p, p < hi])))
        return z3.simplify(z3.Or(out))
    t = one_point(body, v)
    if t is not None:
        return z3.simplify(z3.And(lo <= t, t < hi, z3.substitute(body, (v, t))))
    return z3.Exists([v], z3.And(lo <= v, v < hi, body))


def one_point(f, v):
    """the only value of v with which f can hold, if f says so outright"""
    f = z3.simplify(f)
    if z3.is_or(f):
        ts = [one_point(c, v) for c in f.children()]
        return ts[0] if all(t is not None and t.eq(ts[0]) for t in ts) else None
    for c in flatten(f):
        if z3.is_eq(c):
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if a.eq(v) and not mentions(b, v):
                    return b
        elif z3.is_or(c):
            t = one_point(c, v)
            if t is not None:
                return t
    return None


def flatten(f):
    if z3.is_and(f):
        return [x for c in f.children() for x in flatten(c)]
    return [f]


def mentions(t, v):
    if t.eq(v):
        return True
    if z3.is_quantifier(t):
        return mentions(t.body(), v)
    return any(mentions(c, v) for c in t.children())


def dict_items_(E, d):
    parts = []
    if d.base is not None:
        t = d.base.t
        n = dlen(t)
        E.fact_once(n >= 0)
        kt, vt = d.base.ety.split('>')
        v = fresh_var('d')
        k = z3.Const('dk!', U)
        E.fact_once(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n), z3.And(dhas(t, dkey(t, v)), dpos(t, dkey(t, v)) == v)),
                              patterns=[dkey(t, v)]))
        E.fact_once(z3.ForAll([k], z3.Implies(dhas(t, k), z3.And(0 <= dpos(t, k), dpos(t, k) < n, dkey(t, dpos(t, k)) == k)),
                              patterns=[dhas(t, k)]))
        parts.append(whole(Base(('items', KTerm(t)), n,
                                lambda i: (E.mkval(kt, dkey(t, i)), E.mkval(vt, dget(t, dkey(t, i)))), True)))
    for op in d.ops:
        if op[0] == 'set':
            # replaces in place if present
            hit = None
            for n, p in enumerate(parts):
                if isinstance(p, Lit):
                    if E.decide(E.truth(eq(E, p.v[0], op[1]))):
                        hit = n
                        break
                else:
                    c = fm_exists(E, p, lambda kv: eq(E, kv[0], op[1]))
                    if E.decide(c):
                        raise NeedMap
            if hit is not None:
                parts[hit] = Lit((parts[hit].v[0], op[2]))
            else:
                parts.append(Lit((op[1], op[2])))
        elif op[0] == 'stream':
            p = op[1]
            if simple_leaves(p) and all(isinstance(x, Lit) for x in parts):
                if injective(E, p) and all(not E.decide(fm_exists(E, p, lambda kv: eq(E, kv[0], x.v[0]))) for x in parts):
                    parts.append(p)
                else:
                    raise NeedMap
            elif distinct_keys(E, parts + [p]):
                parts.append(p)
            else:
                raise NeedMap
        elif op[0] == 'over':
            raise NeedMap
        else:
            raise Unsupported('iteration over a dict with deletions')
    return Seq(parts)


def simple_leaves(fm):
    return all(len(l.parts) <= 1 and all(isinstance(p, Lit) for p in l.parts) for l in fm.leaves)


def generic(E, parts):
    """any element of the sequence: (position, element)"""
    parts = list(parts)
    for n, p in enumerate(parts):
        if n < len(parts) - 1 and not E.choose('an element of part %d' % n):
            continue
        if isinstance(p, Lit):
            return (n,), p.v
        if not isinstance(p, FM):
            raise Unsupported('element of an accumulator')
        j = E.fresh(I, 'any')
        E.assume(z3.And(p.lo <= j, j < p.hi))
        if not E.possible():
            raise Infeasible()
        out = []
        E.enter_leaf(p, j, lambda ps: out.extend(ps))
        if not out:
            raise Infeasible()
        pos, x = generic(E, out)
        return (n, j) + pos, x
    raise Infeasible()


def same_position(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return z3.BoolVal(False)
        else:
            cs.append(x == y)
    return z3.And(cs) if cs else z3.BoolVal(True)


def distinct_keys(E, parts):
    """different elements (pairs) of the sequence have different keys"""
    def body():
        p, x = generic(E, parts)
        q, y = generic(E, parts)
        E.assume(z3.Not(same_position(p, q)))
        if not E.possible():
            return True
        E.assume(lift(eq(E, x[0], y[0])))
        return not E.possible()
    return all(p.value for p in E.explore(body))


def injective(E, fm):
    """different iterations give different keys"""
    if not simple_leaves(fm):
        return False
    i, j = E.fresh(I, 'inj'), E.fresh(I, 'inj')

    def body():
        E.assume(z3.And(fm.lo <= i, i < j, j < fm.hi))
        ks = []
        E.enter_leaf(fm, i, lambda ps: ks.append(ps))
        E.enter_leaf(fm, j, lambda ps: ks.append(ps))
        if not ks[0] or not ks[1]:
            return True
        c = eq(E, ks[0][0].v[0], ks[1][0].v[0])
        return not E.possible(lift(c))
    return all(p.value for p in E.explore(body))


# ---- dicts --------------------------------------------------------------------------

def dict_has(E, d, k):
    """condition; forks over operations"""
    if not d.ops and isinstance(d.base, Obj):
        kt = E.term(k)
        E.dict_fact(d.base, kt)
        return dhas(d.base.t, kt)
    if not d.ops and d.base is None:
        return False
    return E.dict_find(d, k) is not None


def emit(E, o, k, ev):
    """something happens to the list (or dict) at key k of a dict that a loop fills"""
    v = E.read('@view', o)
    if v is not None:
        return emit(E, v[0][0], v[0][1], ('sub', k, ev))
    d = E.dcontent(o)
    E.set_dcontent(o, DVal(d.base, d.ops + (('group1', k, ev),), d.factory))


def view(E, o, k, kind):
    """the list (or dict) at key k of a dict that a loop fills: it can be added to, not read"""
    m = Mark(('view',))
    if kind == 'list':
        x = E.newlist(Seq((m,)))
    else:
        x = E.newdict(DVal(m, (), kind[1]))
    E.write('@view', x, (o, k))
    return x


def filling(E, o, k, make):
    """o[k] of a dict of lists (dicts of lists ...) that a loop fills, or None"""
    d = E.dcontent(o)
    if not isinstance(d.base, Mark):
        return None
    for op in reversed(d.ops):
        if op[0] == 'group':
            break
        if op[0] != 'group1':
            return None
        if E.decide(E.truth(eq(E, op[1], k))):
            return view(E, o, k, op[2][1] if op[2][0] == 'touch' else 'list')
    x = make()
    if not isinstance(x, Obj) or not x.fresh:
        return None
    if x.cls == 'list' and not E.content(x).parts:
        kind = 'list'
    elif x.cls == 'dict' and E.dcontent(x).base is None and not E.dcontent(x).ops:
        kind = ('dict', E.dcontent(x).factory)
    else:
        return None
    emit(E, o, k, ('touch', kind))
    return view(E, o, k, kind)


def keyed_iteration(E, fm, body):
    """a loop over a set in which only the iteration for the key looked up does anything"""
    key = fm.base.key
    k = E.keyed
    if not (isinstance(key, tuple) and key and key[0] == 'setiter') or len(fm.leaves) != 1 or fm.leaves[0].guards \
            or not z3.is_int_value(fm.lo) or fm.lo.as_long() != 0 or not fm.hi.eq(fm.base.len):
        return False
    x = fm.base.elem(fm.var)
    for p in fm.leaves[0].parts:
        if not isinstance(p, Lit) or not E.term(p.v[0]).eq(E.term(x)) or mentions_any(E, p.v[1], fm.var):
            return False
    if E.decide(E.truth(mkbool(lift(seq_member(E, k, key[2].s))))):
        for p in fm.leaves[0].parts:
            body((k,) + tuple(p.v[1:]))
    return True


def mentions_any(E, v, var):
    """the variable may occur in the value"""
    return repr(subst(v, [(var, z3.Int('?1'))])) != repr(v)


def group_find(E, d, n, k):
    """d[k], where d.ops[n] adds to the lists in d; None if there is no such key"""
    prev = E.dict_find(DVal(d.base, d.ops[:n], d.factory), k)
    touched, out, kinds = E.newlist(Seq()), E.newlist(Seq()), []

    def body(x):
        k2, ev = x
        if not E.decide(E.truth(eq(E, k2, k))):
            return
        list_method(E, touched, 'append', [True], {})
        if ev[0] == 'app':
            kinds.append('list')
            list_method(E, out, 'append', [ev[1]], {})
        elif ev[0] == 'sub':
            list_method(E, out, 'append', [(ev[1], ev[2])], {})
        else:
            kinds.append(ev[1])
    old, E.keyed = E.keyed, k
    try:
        E.stream(E.newlist(Seq((d.ops[n][1],))), body)
    finally:
        E.keyed = old
    if prev is None and not E.decide(E.truth(touched)):
        return None
    if 'list' in kinds or prev is not None and prev[0].cls == 'list':
        return (E.newlist(Seq((E.content(prev[0]).parts if prev is not None else ()) + E.content(out).parts)),)
    fs = [x[1] for x in kinds]
    pd = E.dcontent(prev[0]) if prev is not None else DVal(None, (), fs[0] if fs else None)
    return (E.newdict(DVal(pd.base, pd.ops + tuple(('group', p) for p in E.content(out).parts), pd.factory)),)


def dict_get(E, o, k, default=NotImplemented):
    d = E.dcontent(o)
    if default is NotImplemented:
        r = filling(E, o, k, lambda: E.call(d.factory, [], {}) if d.factory is not None else None)
        if r is not None:
            return r
    r = E.dict_find(d, k)
    if r is not None:
        return r[0]
    if default is not NotImplemented:
        return default
    if d.factory is not None:
        v = E.call(d.factory, [], {})
        setitem(E, o, k, v)
        return v
    E.raise_(KeyError, k)


def dict_update(E, o, other):
    d = E.dcontent(o)
    if isinstance(other, Obj) and other.cls == 'dict':
        od = E.dcontent(other)
        if d.base is None and not d.ops:
            E.set_dcontent(o, DVal(od.base, od.ops, d.factory))
            return
        if not isinstance(od.base, Mark) and all(op[0] in ('set', 'stream', 'over') for op in od.ops):
            new = ((('over', od.base),) if od.base is not None else ()) + od.ops
            E.set_dcontent(o, DVal(d.base, d.ops + new, d.factory))
            return
        seq = dict_items(E, od)
    elif isinstance(other, Obj) and other.cls in ('set', 'frozenset') \
            and all(isinstance(p, FM) and injective(E, p) for p in E.content(other).parts) and len(E.content(other).parts) <= 1:
        seq = E.content(other)       # different keys: the order does not matter
    else:
        seq = iterate(E, other)
    ops = []
    for p in seq.parts:
        if isinstance(p, Lit):
            k, v = unpack(E, p.v, 2)
            ops.append(('set', k, v))
        else:
            ops.append(('stream', map_parts(Seq([p]), lambda kv: tuple(unpack(E, kv, 2))).parts[0]))
    E.set_dcontent(o, DVal(d.base, d.ops + tuple(ops), d.factory))


def dict_method(E, o, name, args, kw):
    d = E.dcontent(o)
    if name == 'get':
        if E.merge_gets and len(args) > 1 and isstr(args[1]) and not d.ops and isinstance(d.base, Obj) \
                and (d.base.ety or '').endswith('>str'):
            # one value, no case distinction
            kt = E.term(args[0])
            E.dict_fact(d.base, kt)
            x = E.mkval('str', dget(d.base.t, kt))
            return SU(z3.If(dhas(d.base.t, kt), x.t, E.term(args[1])), 'str')
        r = E.dict_find(d, args[0])
        if r is not None:
            return r[0]
        return args[1] if len(args) > 1 else kw.get('default')
    if name in ('items', 'keys', 'values'):
        s = dict_items(E, d)
        if name == 'items':
            r = E.newlist(s)
        else:
            r = E.newlist(map_parts(s, (lambda kv: kv[0]) if name == 'keys' else (lambda kv: kv[1])))
        return r
    if name == 'update':
        if args:
            dict_update(E, o, args[0])
        for k, v in kw.items():
            setitem(E, o, k, v)
        return None
    if name == 'setdefault':
        r = filling(E, o, args[0], lambda: args[1] if len(args) > 1 else None)
        if r is not None:
            return r
        r = E.dict_find(d, args[0])
        if r is not None:
            return r[0]
        v = args[1] if len(args) > 1 else None
        setitem(E, o, args[0], v)
        return v
    if name == '__init__':
        if args:
            dict_update(E, o, args[0])
        for k, v in kw.items():
            setitem(E, o, k, v)
        return None
    if name == 'clear':
        E.set_dcontent(o, DVal(factory=d.factory))
        return None
    if name == 'copy':
        return E.newdict(DVal(d.base, d.ops, d.factory))
    if name == 'pop':
        r = E.dict_find(d, args[0])
        if r is None:
            if len(args) > 1:
                return args[1]
            E.raise_(KeyError, args[0])
        delitem(E, o, args[0])
        return r[0]
    if name == '__contains__':
        return mkbool(dict_has(E, d, args[0]))
    if name == '__getitem__':
        return dict_get(E, o, args[0])
    raise Unsupported('dict.%s' % name)


# ---- subscripts ----------------------------------------------------------------------

def stub(E, o, op):
    """operation of an object that a contract describes"""
    return E.stubs.get(o.cls, {}).get(op) if isinstance(o.cls, str) else None


def getitem(E, o, k):
    o = E.force(o)
    if isinstance(o, Obj):
        if isinstance(o.cls, UserClass):
            m = o.cls.lookup('__getitem__')
            if m is None:
                E.raise_(TypeError)
            if isinstance(m[0], Func):
                return E.call(m[0], [o, k], {})
            if o.cls.isbuiltin(dict):
                return dict_get(E, o, k)
            return list_method(E, o, '__getitem__', [k], {})
        if o.cls in ('list', 'deque'):
            return list_method(E, o, '__getitem__', [k], {})
        if o.cls == 'dict':
            return dict_get(E, o, k)
        h = stub(E, o, 'getitem')
        if h is not None:
            return h(E, o, k)
    if isinstance(o, tuple):
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                E.raise_(IndexError)
        if isinstance(k, Slice):
            return o[slice(k.lo, k.hi, k.step)]
        if isinstance(k, SInt):
            return seq_index(E, Seq([Lit(x) for x in o]), k)
    if isstr(o):
        return str_index(E, o, k)
    if o is None:
        E.raise_(TypeError, 'subscript of None')
    if isinstance(o, Seq):
        return seq_index(E, o, k)
    raise Unsupported('subscript of %r' % (o,))


def str_index(E, o, k):
    if isinstance(k, Slice):
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
            return o[slice(k.lo, k.hi, k.step)]
        if k.lo is None and k.hi is None and k.step is None:
            return o
        if isinstance(k.lo, int) and k.lo > 0 and k.hi is None and k.step is None and isinstance(o, SStr):
            parts = norm_str(E, o.parts)
            if isinstance(parts[0], Lit) and isinstance(parts[0].v, str) and len(parts[0].v) >= k.lo:
                return concat(E, [SStr((Lit(parts[0].v[k.lo:]),) + parts[1:])])
        if isinstance(o, SStr) and k.step is None and isinstance(k.hi, int) and k.hi < 0 \
                and (k.lo is None or isinstance(k.lo, int) and k.lo >= 0):
            parts = list(norm_str(E, o.parts))
            text = lambda q: q.v if isinstance(q, Lit) and isinstance(q.v, str) else ''
            if len(parts) > 1 and len(text(parts[0])) >= (k.lo or 0) and len(text(parts[-1])) >= -k.hi:
                parts[-1] = Lit(parts[-1].v[:k.hi])
                if k.lo:
                    parts[0] = Lit(parts[0].v[k.lo:])
                return concat(E, [SStr(tuple(parts))])
        # s[1:] of a string known to start with a given character
        if k.lo == 1 and k.hi is None and k.step is None and isinstance(o, SU):
            for c in '{(["\'':
                st = uf('startswith', U, U, B)(o.t, lit(c))
                if ('startswith', c) and E.implied(st, 300):
                    r = SU(uf('tail1', U, U)(o.t), 'str')
                    E.fact_once(kindf(r.t) == 3)
                    E.fact_once(o.t == scat(lit(c), r.t))
                    for x in ':}' if E.string_facts else '':
                        E.fact_once(uf('contains', U, U, B)(o.t, lit(x)) == uf('contains', U, U, B)(r.t, lit(x)))
                    return r
        ts = [E.term(x) for x in (o, k.lo, k.hi, k.step)]
        r = uf('strslice', U, U, U, U, U)(*ts)
        E.fact_once(kindf(r) == 3)
        if E.string_facts and k.step is None:
            n, m = E.int_term(strlen(E, SU(r, 'str'))), E.int_term(strlen(E, o))
            def bound(x, d):
                if x is None:
                    return d
                x = E.int_term(x)
                x = z3.If(x < 0, x + m, x)
                return z3.If(x < 0, 0, z3.If(x > m, m, x))
            lo, hi = bound(k.lo, z3.IntVal(0)), bound(k.hi, m)
            E.fact_once(n == z3.If(lo < hi, hi - lo, 0))
        if k.step is None:
            if k.lo in (None, 0) and isinstance(k.hi, int) and k.hi > 0:
                E.end_of[KTerm(r)] = (o, 'startswith', k.hi)
            elif k.hi is None and isinstance(k.lo, int) and k.lo < 0:
                E.end_of[KTerm(r)] = (o, 'endswith', -k.lo)
        return SU(r, 'str')
    if isinstance(o, str) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            E.raise_(IndexError)
    if isinstance(k, (int, SInt)):
        t = E.int_term(k)
        n = E.int_term(strlen(E, o))
        if E.decide(t < 0):
            t = t + n
            if E.decide(t < 0):
                E.raise_(IndexError)
        elif not E.decide(t < n):
            E.raise_(IndexError)
        r = uf('charat', U, I, U)(E.term(o), z3.simplify(t))
        E.fact_once(kindf(r) == 3)
        E.fact_once(r != lit(''))
        if isinstance(k, int) and k in (0, -1):
            E.end_of[KTerm(r)] = (o, 'startswith' if k == 0 else 'endswith', 1)
        return SU(r, 'str')
    E.raise_(TypeError)


def setitem(E, o, k, v):
    o = E.force(o)
    if isinstance(o, Obj):
        if isinstance(o.cls, UserClass):
            m = o.cls.lookup('__setitem__')
            if m is None:
                E.raise_(TypeError)
            if isinstance(m[0], Func):
                return E.call(m[0], [o, k, v], {})
            return list_method(E, o, '__setitem__', [k, v], {})
        if o.cls == 'list':
            return list_method(E, o, '__setitem__', [k, v], {})
        if o.cls == 'dict':
            d = E.dcontent(o)
            E.set_dcontent(o, DVal(d.base, d.ops + (('set', k, v),), d.factory))
            return
        h = stub(E, o, 'setitem')
        if h is not None:
            return h(E, o, k, v)
    raise Unsupported('item assignment to %r' % (o,))


def delitem(E, o, k):
    o = E.force(o)
    if isinstance(o, Obj):
        if isinstance(o.cls, UserClass):
            m = o.cls.lookup('__delitem__')
            if isinstance(m[0], Func):
                return E.call(m[0], [o, k], {})
            return list_method(E, o, '__delitem__', [k], {})
        if o.cls == 'list':
            return list_method(E, o, '__delitem__', [k], {})
        if o.cls == 'dict':
            d = E.dcontent(o)
            if E.dict_find(d, k) is None:
                E.raise_(KeyError, k)
            # drop a literal assignment of the same key
            ops = [op for op in d.ops]
            if all(op[0] == 'set' for op in ops) and d.base is None:
                keep = [op for op in ops if not E.decide(E.truth(eq(E, op[1], k)))]
                E.set_dcontent(o, DVal(None, keep, d.factory))
            else:
                E.set_dcontent(o, DVal(d.base, d.ops + (('del', k),), d.factory))
            return
    raise Unsupported('item deletion')


def unpack(E, v, n):
    if isinstance(v, tuple):
        if len(v) != n:
            E.raise_(ValueError, 'unpack')
        return v
    s = iterate(E, v)
    if all(isinstance(p, Lit) for p in s.parts):
        if len(s.parts) != n:
            E.raise_(ValueError, 'unpack')
        return [p.v for p in s.parts]
    ln = seq_len(E, s)
    if isinstance(ln, SLen):
        raise Unsupported('unpacking')
    if not E.decide(E.int_term(ln) == n):
        E.raise_(ValueError, 'unpack')
    return [seq_index(E, s, i) for i in range(n)]


# ---- lists ------------------------------------------------------------------------------

def list_method(E, o, name, args, kw):
    v = E.read('@view', o)
    if v is not None:
        if name != 'append':
            raise LoopCarried('a list in a dict that a loop fills')
        return emit(E, v[0][0], v[0][1], ('app', args[0]))
    seq = E.content(o)
    if name == 'append':
        E.set_content(o, Seq(seq.parts + (Lit(args[0]),)))
        return None
    if name in ('extend', '__iadd__'):
        s = iterate(E, args[0])
        E.set_content(o, Seq(E.content(o).parts + s.parts))
        return None if name == 'extend' else o
    if name == '__iter__':
        return E.newlist(seq)
    if name == '__len__':
        return seq_len(E, seq)
    if name == '__getitem__':
        k = args[0]
        if isinstance(k, Slice):
            return E.newlist(seq_slice(E, seq, k.lo, k.hi, k.step))
        if isinstance(k, SymSlice):
            return E.newlist(opaque_slice(E, seq, k.lo, k.hi, k.step))
        if not isinstance(k, (int, SInt)):
            E.raise_(TypeError, 'list index')
        return seq_index(E, seq, k)
    if name == '__setitem__':
        k, v = args
        if isinstance(k, Slice):
            if k.lo is None and k.hi is None and k.step is None:
                E.set_content(o, iterate(E, v))
                return None
            raise Unsupported('slice assignment')
        if not isinstance(k, (int, SInt)):
            E.raise_(TypeError, 'list index')
        a, b = split_at(E, seq, k)
        E.set_content(o, Seq(a.parts + (Lit(v),) + b.parts[1]))
        return None
    if name in ('__delitem__', 'pop'):
        k = args[0] if args else -1
        if isinstance(k, Slice) and k.lo is None and k.hi is None:
            E.set_content(o, Seq())
            return None
        if not isinstance(k, (int, SInt)):
            E.raise_(TypeError, 'list index')
        a, b = split_at(E, seq, k)
        E.set_content(o, Seq(a.parts + b.parts[1]))
        return b.parts[0] if name == 'pop' else None
    if name == 'popleft':
        return list_method(E, o, 'pop', [0], {})
    if name == 'appendleft':
        E.set_content(o, Seq((Lit(args[0]),) + seq.parts))
        return None
    if name == 'insert':
        k, v = args
        if isinstance(k, int) and k == 0:
            E.set_content(o, Seq((Lit(v),) + seq.parts))
            return None
        n = E.int_term(seq_len(E, seq))
        t = clamp(E, k, n, None)
        a, b = cut(E, seq, z3.IntVal(0), t), cut(E, seq, t, n)
        E.set_content(o, Seq(a.parts + (Lit(v),) + b.parts))
        return None
    if name == 'clear':
        E.set_content(o, Seq())
        return None
    if name == 'copy':
        return E.newlist(seq)
    if name in ('index', 'remove', 'count'):
        if name == 'count':
            raise Unsupported('list.count')
        i = find_index(E, seq, args[0])
        if i is None:
            E.raise_(ValueError, 'not in list')
        if name == 'index':
            return i
        list_method(E, o, '__delitem__', [i], {})
        return None
    if name == 'sort':
        E.set_content(o, sorted_seq(E, seq, kw.get('key'), kw.get('reverse', False)))
        return None
    if name == 'reverse':
        E.set_content(o, reverse(E, seq))
        return None
    if name == '__contains__':
        return mkbool(seq_member(E, args[0], seq))
    if name == '__eq__':
        return mkbool(seq_eq(E, seq, iterate(E, args[0])))
    if name == '__init__':
        E.set_content(o, iterate(E, args[0]) if args else Seq())
        return None
    raise Unsupported('list.%s' % name)


class Split:
    def __init__(self, head, tail):
        self.parts = (head, tail)


def split_at(E, seq, k):
    """(Seq before k, Split(element, parts after)); raises IndexError"""
    if isinstance(k, int) and all(isinstance(p, Lit) for p in seq.parts):
        n = len(seq.parts)
        if not -n <= k < n:
            E.raise_(IndexError)
        k %= n
        return Seq(seq.parts[:k]), Split(seq.parts[k].v, seq.parts[k + 1:])
    n = E.int_term(nolen(seq_len(E, seq)))
    t = E.int_term(k)
    if E.decide(t < 0):
        t = t + n
        if E.decide(t < 0):
            E.raise_(IndexError)
    elif not E.decide(t < n):
        E.raise_(IndexError)
    t = z3.simplify(t)
    v = seq_index(E, seq, SInt(t))
    a = cut(E, seq, z3.IntVal(0), t)
    b = cut(E, seq, z3.simplify(t + 1), n)
    return a, Split(v, b.parts)


def nolen(n):
    if isinstance(n, SLen):
        raise Unsupported('length of a filtered list')
    return n


def find_index(E, seq, x):
    """position of the first equal element, or None (forks)"""
    off = z3.IntVal(0)
    for p in seq.parts:
        if isinstance(p, Lit):
            c = E.truth(eqi(E, p.v, x))
            if E.decide(c):
                return SInt(z3.simplify(off))
            off = off + 1
        elif isinstance(p, FM):
            if not uniform(p):
                raise Unsupported('index in groups')
            v = fresh_var('x')
            cond = pure(E, lambda: eqi(E, fm_at(E, p, v), x))
            cond = lift(cond)
            if E.decide(z3.Exists([v], z3.And(p.lo <= v, v < p.hi, cond))):
                w = E.fresh(I, 'idx')
                E.assume(z3.And(p.lo <= w, w < p.hi, z3.substitute(cond, (v, w))))
                E.assume(z3.ForAll([v], z3.Implies(z3.And(p.lo <= v, v < w), z3.Not(cond))))
                return SInt(z3.simplify(off + w - p.lo))
            off = off + (p.hi - p.lo)
        else:
            raise LoopCarried('accumulator')
    return None


def eqi(E, a, b):
    """identity or equality, as list.index compares"""
    if isinstance(a, Obj) and isinstance(b, Obj):
        i = is_(E, a, b)
        if i is True:
            return True
        c = eq(E, a, b)
        if i is False:
            return c
        if c is True:
            return True
        return i if c is False else z3.Or(i, c)
    return eq(E, a, b)


def reverse(E, seq):
    out = []
    for p in reversed(seq.parts):
        if isinstance(p, Lit):
            out.append(p)
        elif uniform(p):
            n = p.hi - p.lo
            key = ('rev', fmkey(p))
            out.append(whole(Base(key, n, lambda i, p=p: fm_at(E, p, p.hi - 1 - i))))
        else:
            raise Unsupported('reversed')
    return Seq(out)


def fmkey(p):
    if p.identity:
        return (p.base.key, KTerm(p.lo), KTerm(p.hi))
    c = z3.Int('fmk')
    q = subst(p.leaves[0].parts[0].v, [(p.var, c)])
    return (p.base.key, KTerm(p.lo), KTerm(p.hi), repr(q))


def sorted_seq(E, seq, key, rev):
    """contract of sorted(): see contracts that use it"""
    h = getattr(E, 'sort_contract', None)
    if h is None:
        raise Unsupported('sort')
    return h(E, seq, key, rev)


def set_method(E, o, name, args, kw):
    seq = E.content(o)
    if name == 'add':
        E.set_content(o, Seq(seq.parts + (Lit(args[0]),)))
        return None
    if name == 'update':
        for a in args:
            E.set_content(o, Seq(E.content(o).parts + asset(E, a).parts))
        return None
    if name == 'union':
        ps = seq.parts
        for a in args:
            ps = ps + asset(E, a).parts
        return E.newlist(Seq(ps), 'set')
    if name == 'clear':
        E.set_content(o, Seq())
        return None
    if name in ('intersection', 'difference', 'isdisjoint', 'issubset', 'issuperset'):
        other = asset(E, args[0])
        if name == 'issuperset':
            seq, other = other, seq
        out = E.newlist(Seq(), 'set')
        want = name in ('intersection', 'isdisjoint')

        def body(v):
            c = seq_member(E, v, other)
            if E.decide(c if want else (not c if isinstance(c, bool) else z3.Not(c))):
                E.set_content(out, Seq(E.content(out).parts + (Lit(v),)))
        E.run_parts(seq.parts, body)
        if name in ('intersection', 'difference'):
            return out
        c = seq_nonempty(E, E.content(out))
        return mkbool(not c if isinstance(c, bool) else z3.Not(c))
    if name in ('remove', 'discard'):
        raise Unsupported('set.%s' % name)
    if name == '__contains__':
        return mkbool(seq_member(E, args[0], seq))
    if name == 'copy':
        return E.newlist(seq, 'set')
    raise Unsupported('set.%s' % name)


def asset(E, a):
    if isinstance(a, Obj) and a.cls in ('set', 'frozenset'):
        return E.content(a)
    return iterate(E, a)


class SymSlice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


# ---- attributes of builtin values ---------------------------------------------------------

def getattr_(E, o, name):
    if isstr(o):
        if hasattr(str, name) or name == 'decode' and getattr(E, 'bytes_as_str', False):
            return (BMethod('str', name, o),)
        return None
    if isinstance(o, Obj):
        if o.cls == 'match':
            return (BMethod('match', name, o),)
        k = o.cls if not isinstance(o.cls, BCls) else None
        if k is not None:
            py = {'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'deque': __import__('collections').deque}.get(k)
            if py is not None:
                if hasattr(py, name) or name in ('default_factory',):
                    return (BMethod(k, name, o),)
                return None
            f = E.getfield(o, name)
            if f is not None:
                return f
            h = E.obj_attr.get(k)
            if h is not None:
                return h(E, o, name)
            raise Unsupported('attribute %s of %s' % (name, k))
        f = E.getfield(o, name)
        if f is not None:
            return f
        if name == '__class__':
            return (o.cls,)
        if name in ('with_traceback',):
            raise Unsupported(name)
        return None
    if o is None or isinstance(o, (bool, int, SInt, SBool)):
        if name == '__class__':
            return (BCls(type(o)),)
        if hasattr(type(o) if not isinstance(o, (SInt, SBool)) else int, name):
            raise Unsupported('attribute %s of %r' % (name, o))
        return None
    if isinstance(o, tuple):
        if hasattr(tuple, name):
            return (BMethod('tuple', name, o),)
    if isinstance(o, Slice):
        if name == 'indices':
            return (Native(lambda E, a, k: slice_indices(E, o, a[0]), 'indices'),)
        if name in ('start', 'stop', 'step'):
            return ({'start': o.lo, 'stop': o.hi, 'step': o.step}[name],)
        return None
    if isinstance(o, Regex):
        return (BMethod('regex', name, o),)
    if isinstance(o, ExtModule):
        return (extattr(E, o.name, name),)
    if isinstance(o, BCls):
        if name == '__name__':
            return (o.name,)
        if hasattr(o.py, name):
            return (BUnbound(o.py.__name__, name),)
        return None
    if isinstance(o, Builtin):
        return (EXT.get((o.name, name)) or Builtin(o.name + '.' + name),)
    if isinstance(o, (Func,)):
        if name == '__name__':
            return (o.name,)
        if name == '__doc__' and not isinstance(o.node, en.ast.Lambda):
            return (en.ast.get_docstring(o.node, clean=False),)
        return None
    if isinstance(o, Gen):
        raise Unsupported('generator.%s' % name)
    if isinstance(o, SU):
        raise Unsupported('attribute %s of %r' % (name, o))
    if isinstance(o, BoundMethod):
        return None
    if isinstance(o, SJoin):
        return (BMethod('sjoin', name, o),)
    raise Unsupported('attribute %s of %r' % (name, o))


def stdclass(b):
    """a class of the standard library"""
    if isinstance(b, Builtin) and '.' in b.name:
        mod, _, name = b.name.rpartition('.')
        if mod.split('.')[0] in __import__('sys').stdlib_module_names:
            c = getattr(__import__('importlib').import_module(mod), name, None)
            if isinstance(c, type):
                return BCls(c)
    return b


def extattr(E, mod, name):
    if (mod, name) in EXT:
        return EXT[mod, name]
    if mod.split('.')[0] in sys.stdlib_module_names and mod != 'sys':
        v = getattr(importlib.import_module(mod), name, None)
        if type(v) in (int, str, float):       # constants of the standard library
            return v
    return Builtin(mod + '.' + name)


def enter(E, cm):
    h = getattr(E, 'with_contract', None)
    if h:
        return h(E, cm)
    raise Unsupported('with')


# ---- calls ------------------------------------------------------------------------------------

def call_any(E, it, pred):
    """any(pred(x) for x in it), with early exit"""
    hit = []

    def body(v):
        if E.decide(E.truth(pred(v))):
            raise Brk()
    try:
        E.stream(it, body)
    except Brk:
        return True
    return False


def call(E, f, args, kw):
    if isinstance(f, BCls):
        return call_class(E, f, args, kw)
    if isinstance(f, BMethod):
        if f.kind == 'list' or f.kind == 'deque' or isinstance(f.self, Obj) and isinstance(f.self.cls, UserClass) and f.kind == 'list':
            return list_method(E, f.self, f.name, args, kw)
        if f.kind == 'dict':
            return dict_method(E, f.self, f.name, args, kw)
        if f.kind in ('set', 'frozenset'):
            return set_method(E, f.self, f.name, args, kw)
        if f.kind == 'str':
            return str_method(E, f.self, f.name, args, kw)
        if f.kind == 'regex':
            return regex_method(E, f.self, f.name, args, kw)
        if f.kind == 'match':
            return E.match_method(E, f.self, f.name, args)
        if f.kind == 'tuple':
            if f.name == 'index':
                i = find_index(E, Seq([Lit(x) for x in f.self]), args[0])
                if i is None:
                    E.raise_(ValueError)
                return i
            if f.name == 'count':
                raise Unsupported('tuple.count')
        raise Unsupported('%s.%s' % (f.kind, f.name))
    if isinstance(f, BUnbound):
        if f.name == '__init__' and f.kind == 'object':
            return None
        if not args:
            raise Unsupported('unbound call')
        self_ = E.force(args[0])
        if f.kind == 'list' and isinstance(self_, Obj):
            return list_method(E, self_, f.name, args[1:], kw)
        if f.kind == 'dict' and f.name == 'fromkeys':
            raise Unsupported('fromkeys')
        if f.kind == 'dict':
            return dict_method(E, self_, f.name, args[1:], kw)
        if f.kind == 'str':
            if f.name == 'maketrans':
                raise Unsupported('maketrans')
            return str_method(E, self_, f.name, args[1:], kw)
        if f.kind == 'set':
            return set_method(E, self_, f.name, args[1:], kw)
        if f.kind == 'chain' and f.name == 'from_iterable':
            return chain_iter(E, args[0])
        if f.name == '__init__' and f.kind in ('Exception', 'BaseException'):
            E.write('args', self_, tuple(args[1:]))
            return None
        raise Unsupported('%s.%s' % (f.kind, f.name))
    if isinstance(f, Builtin):
        fn = FN.get(f.name)
        if fn is not None:
            return fn(E, args, kw)
        h = E.ext_contract.get(f.name)
        if h is not None:
            return h(E, args, kw)
        for pre in ('warnings.', 'logging.'):
            if f.name.startswith(pre):
                return None
        raise Unsupported('call of %s' % f.name)
    if f is None:
        E.raise_(TypeError, 'not callable')
    raise Unsupported('call of %r' % (f,))


def chain_iter(E, outer):
    out = E.newlist(Seq())

    def body(v):
        s = iterate(E, v)
        E.set_content(out, Seq(E.content(out).parts + s.parts))
    E.stream(outer, body)
    return out


def regex_method(E, r, name, args, kw):
    h = E.regex_contract.get(name)
    if h is not None:
        v = h(E, r, args, kw)
        if v is not NotImplemented:
            return v
    if name == 'findall':
        s = args[0]
        if isinstance(s, str):
            import re
            return E.newlist(Seq([Lit(x) for x in re.compile(r.pattern, r.flags).findall(s)]))
        import re
        g = re.compile(r.pattern, r.flags).groups
        t = E.term(s)
        k = lit(('re', r.pattern, r.flags))
        n = uf('re.n', U, U, I)(k, t)
        E.fact_once(n >= 0)
        f = uf('re.g', U, U, I, I, U)

        def elem(i):
            gs = tuple(E.mkval('str', f(k, t, i, z3.IntVal(j))) for j in range(max(g, 1)))
            return gs if g > 1 else gs[0]
        return E.newlist(Seq([whole(Base(('findall', r.pattern, r.flags, KTerm(t)), n, elem))]))
    if name in ('match', 'search', 'fullmatch'):
        if isinstance(args[0], str):
            raise Unsupported('match of a literal')
        t = E.term(args[0])
        if E.decide(uf('re.' + name, U, U, B)(lit(('re', r.pattern, r.flags)), t)):
            o = E.alloc('match')
            E.write('re', o, r)
            E.write('string', o, args[0])
            E.write('how', o, name)
            return o
        return None
    if name == 'sub':
        if all(isinstance(a, (str, SU, SStr)) for a in args[:2]) and len(args) == 2:
            k = lit(('re', r.pattern, r.flags))
            ts = [E.term(a) for a in args[:2]]
            t = uf('re.sub', U, U, U, U)(k, *ts)
            E.fact_once(kindf(t) == 3)
            return SU(t, 'str')
    if name == 'split':
        t = E.term(args[0])
        k = lit(('re', r.pattern, r.flags))
        n = uf('re.splitn', U, U, I)(k, t)
        E.fact_once(n >= 1)
        return E.newlist(Seq([whole(Base(('resplit', r.pattern, r.flags, KTerm(t)), n,
                                         lambda i: E.mkval('str', uf('re.splitp', U, U, I, U)(k, t, i))))]))
    raise Unsupported('regex.%s' % name)


def call_class(E, c, args, kw):
    py = c.py
    if issubclass(py, BaseException):
        return E.mkexc(c, args)
    if py is list:
        if not args:
            return E.newlist(Seq())
        return E.newlist(iterate(E, args[0]))
    if py is tuple:
        if not args:
            return ()
        if isinstance(args[0], tuple):
            return args[0]
        s = iterate(E, args[0])
        if all(isinstance(p, Lit) for p in s.parts):
            return tuple(p.v for p in s.parts)
        return STuple(s)
    if py in (set, frozenset):
        s = Seq() if not args else asset(E, args[0])
        return E.newlist(s, 'set')
    if py is dict:
        o = E.newdict(DVal())
        if args:
            a = E.force(args[0])
            dict_update(E, o, a)
        for k, v in kw.items():
            setitem(E, o, k, v)
        return o
    if py is str:
        return to_str(E, args[0]) if args else ''
    if py is int:
        return to_int(E, args[0]) if args else 0
    if py is bool:
        return mkbool(E.truth(args[0])) if args else False
    if py is object:
        return E.alloc('object')
    if py is type:
        a = E.force(args[0])
        if isinstance(a, Obj) and isinstance(a.cls, (UserClass, BCls)):
            return a.cls
        if isstr(a):
            return BCls(str)
        if isinstance(a, Obj):
            return BCls({'list': list, 'dict': dict, 'set': set}[a.cls])
        return BCls(type(a))
    if py.__name__ == 'deque':
        return E.newlist(iterate(E, args[0]) if args else Seq(), 'deque')
    if py.__name__ == 'defaultdict':
        h = E.ext_contract.get('collections.defaultdict')
        if h is not None:
            return h(E, args, kw)
        o = E.alloc('dict')
        E.set_dcontent(o, DVal(factory=args[0] if args else None))
        if len(args) > 1:
            dict_update(E, o, args[1])
        return o
    if py.__name__ == 'OrderedDict':
        o = E.newdict(DVal())
        if args:
            dict_update(E, o, args[0])
        return o
    if py.__name__ == 'chain':
        out = E.newlist(Seq())
        for a in args:
            E.set_content(out, Seq(E.content(out).parts + iterate(E, a).parts))
        return out
    if py is slice:
        a = list(args) + [None] * 3
        return Slice(None, a[0], None) if len(args) == 1 else Slice(a[0], a[1], a[2])
    raise Unsupported('call of class %s' % c.name)


class STuple(Val):
    """tuple of unknown length"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def subst(self, pairs):
        return STuple(subst(self.seq, pairs))


def to_int(E, v):
    v = E.force(v)
    if isinstance(v, (int, SInt)):
        return int(v) if isinstance(v, bool) else v
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            E.raise_(ValueError)
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, 1, 0))
    if isstr(v):
        t = E.term(v)
        E.fact_once(z3.Implies(t == lit(''), z3.Not(uf('isint', U, B)(t))))
        if not E.decide(uf('isint', U, B)(t)):
            E.raise_(ValueError, 'int')
        if getattr(E, 'int_limit', False) and E.decide(uf('toolong', U, B)(t)):
            E.raise_(ValueError, 'int: too many digits')
        return SInt(uf('intval', U, I)(t))
    E.raise_(TypeError, 'int')


def f_len(E, a, kw):
    v = E.force(a[0])
    if isstr(v):
        return strlen(E, v)
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, Obj):
        if isinstance(v.cls, UserClass):
            m = v.cls.lookup('__len__')
            if m is None:
                E.raise_(TypeError)
            if isinstance(m[0], Func):
                return E.call(m[0], [v], {})
            return seq_len(E, E.content(v))
        if v.cls in ('list', 'deque'):
            return seq_len(E, E.content(v))
        h = stub(E, v, 'len')
        if h is not None:
            return h(E, v)
        if v.cls in ('set', 'frozenset'):
            return SLen(SetOf(E.content(v)))
        if v.cls == 'dict':
            d = E.dcontent(v)
            if d.base is None and not d.ops:
                return 0
            if not d.ops:
                E.fact_once(dlen(d.base.t) >= 0)
                return SInt(dlen(d.base.t))
            return seq_len(E, dict_items(E, d))
    if v is None or isinstance(v, (int, SInt)):
        E.raise_(TypeError, 'len')
    raise Unsupported('len of %r' % (v,))


class SetOf(Val):
    """a sequence counted as a set"""
    __slots__ = ('parts',)

    def __init__(self, seq):
        self.parts = seq.parts

    def subst(self, pairs):
        return SetOf(Seq(subst(self.parts, pairs)))


def f_isinstance(E, a, kw):
    v, cls = a
    if isinstance(cls, tuple):
        for c in cls:
            if E.decide(E.truth(f_isinstance(E, [v, c], {}))):
                return True
        return False
    v = E.force(v)
    if isinstance(v, Obj) and isinstance(v.cls, (UserClass, BCls)):
        if isinstance(cls, (UserClass, BCls)):
            return issubclass(v.cls.py, cls.py)
        raise Unsupported('isinstance')
    if not isinstance(cls, (BCls, UserClass)):
        raise Unsupported('isinstance of %r' % (cls,))
    py = cls.py
    if py is object:
        return True
    if v is None:
        return py is type(None)
    if isstr(v) or isinstance(v, SJoin):
        return py is str
    if isinstance(v, (bool, SBool)):
        return py in (bool, int)
    if isinstance(v, (int, SInt)):
        return py is int
    if isinstance(v, (Slice, SymSlice)):
        return py is slice
    if isinstance(v, tuple) or isinstance(v, STuple):
        return py is tuple
    if isinstance(v, Obj):
        return py.__name__ == v.cls
    if isinstance(v, SU) and v.ty == 'any':
        if py in (list, dict, set, tuple):
            raise Unsupported('isinstance of any')
        return SBool(kindf(v.t) == {str: 3, int: 2, bool: 1}.get(py, 5)) if py in (str, int, bool) else False
    if isinstance(v, (UserClass, BCls)):
        return py is type
    raise Unsupported('isinstance of %r' % (v,))


def f_hasattr(E, a, kw):
    return E.getattr_(a[0], a[1]) is not None


def f_getattr(E, a, kw):
    if not isinstance(a[1], str):
        h = getattr(E, 'getattr_contract', None)
        if h is not None:
            return h(E, a)
        raise Unsupported('getattr with unknown name')
    if len(a) == 3:
        try:
            return E.getattr(a[0], a[1], a[2])
        except PyRaise as r:
            if issubclass(r.exc.cls.py, AttributeError):
                return a[2]
            raise
    return E.getattr(a[0], a[1])


def f_any(E, a, kw):
    return call_any(E, a[0], lambda v: v)


def f_all(E, a, kw):
    r = call_any(E, a[0], lambda v: E.lib.neg(E.truth(v)))
    return not r


def neg(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def f_next(E, a, kw):
    it = a[0]
    if isinstance(it, Gen):
        out = []

        def body(v):
            out.append(v)
            raise Brk()
        try:
            E.stream(it, body)
        except Brk:
            return out[-1]
        if len(a) > 1:
            return a[1]
        E.raise_(StopIteration)
    h = getattr(E, 'next_contract', None)
    if h is not None:
        return h(E, a)
    if isinstance(it, Obj) and it.cls == 'iterator':
        s = E.content(it)
        r = first(E, s)
        if r is None:
            if len(a) > 1:
                return a[1]
            E.raise_(StopIteration)
        n = seq_len(E, s)
        E.set_content(it, cut(E, s, z3.IntVal(1), E.int_term(nolen(n))))
        return r[0]
    raise Unsupported('next')


def f_iter(E, a, kw):
    if isinstance(a[0], Gen):
        return a[0]
    h = getattr(E, 'iter_contract', None)
    if h is not None:
        return h(E, a)
    return E.newlist(iterate(E, a[0]), 'iterator')


def f_enumerate(E, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    s = iterate(E, a[0])
    off = E.int_term(start)
    out = []
    for p in s.parts:
        if isinstance(p, Lit):
            o = z3.simplify(off)
            out.append(Lit((o.as_long() if z3.is_int_value(o) else SInt(o), p.v)))
            off = off + 1
        elif isinstance(p, FM) and counts(p) == 1:
            leaves = []
            for l in p.leaves:
                leaves.append(Leaf(l.guards, l.facts,
                                   [Lit((SInt(z3.simplify(off + p.var - p.lo)), l.parts[0].v))]))
            out.append(FM(p.base, p.lo, p.hi, p.var, leaves))
            off = off + (p.hi - p.lo)
        else:
            raise Unsupported('enumerate')
    return E.newlist(Seq(out))


def f_zip(E, a, kw):
    seqs = [iterate(E, x) for x in a]
    if all(all(isinstance(p, Lit) for p in s.parts) for s in seqs):
        return E.newlist(Seq([Lit(t) for t in zip(*[[p.v for p in s.parts] for s in seqs])]))
    if len(seqs) == 2 and all(len(s.parts) == 1 and isinstance(s.parts[0], FM) and uniform(s.parts[0]) for s in seqs):
        x, y = [s.parts[0] for s in seqs]
        if x.base.key == y.base.key and x.lo.eq(y.lo) and x.hi.eq(y.hi):
            v = fresh_var('z')
            lx, ly = subst(x.leaves[0], [(x.var, v)]), subst(y.leaves[0], [(y.var, v)])
            return E.newlist(Seq([FM(x.base, x.lo, x.hi, v, [Leaf((), tuple(lx.facts) + tuple(ly.facts),
                                                                 [Lit((lx.parts[0].v, ly.parts[0].v))])])]))
        n, m = x.hi - x.lo, y.hi - y.lo
        ln = n if E.implied(n == m) else z3.If(n < m, n, m)
        key = ('zip', fmkey(x), fmkey(y))
        return E.newlist(Seq([whole(Base(key, z3.simplify(ln),
                                         lambda i: (fm_at(E, x, z3.simplify(x.lo + i)), fm_at(E, y, z3.simplify(y.lo + i)))))]))
    raise Unsupported('zip')


def f_range(E, a, kw):
    if all(isinstance(x, int) for x in a):
        return E.newlist(Seq([Lit(i) for i in range(*a)]))
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) == 3 and a[2] != 1:
        raise Unsupported('range with step')
    lo, hi = E.int_term(lo), E.int_term(hi)
    if not E.decide(lo <= hi):
        return E.newlist(Seq())
    return E.newlist(Seq([whole(Base(('range', KTerm(lo)), hi - lo, lambda i: SInt(lo + i)))]))


def slice_indices(E, o, n):
    if o.step not in (None, 1):
        raise Unsupported('slice with step')
    n = E.int_term(n)

    def bound(x, default):
        if x is None:
            return default
        t = E.int_term(x)
        return z3.If(t < 0, z3.If(t + n < 0, 0, t + n), z3.If(t > n, n, t))
    return (SInt(z3.simplify(bound(o.lo, z3.IntVal(0)))), SInt(z3.simplify(bound(o.hi, n))), 1)


def f_sorted(E, a, kw):
    h = getattr(E, 'sort_set_contract', None)
    if h is not None and isinstance(a[0], Obj) and a[0].cls in ('set', 'frozenset') and not kw:
        return E.newlist(h(E, E.content(a[0])))
    return E.newlist(sorted_seq(E, iterate(E, a[0]), kw.get('key'), kw.get('reverse', False)))


def f_filter(E, a, kw):
    fn, it = a
    out = E.newlist(Seq())

    def start(consumer):
        def body(v):
            if E.decide(E.truth(E.call(fn, [v], {}) if fn is not None else v)):
                consumer(v)
        E.stream(it, body)
    return Gen(start, E.alloc('generator'), 'filter')


def f_map(E, a, kw):
    if len(a) != 2:
        raise Unsupported('map')
    fn, it = a

    def start(consumer):
        E.stream(it, lambda v: consumer(E.call(fn, [v], {})))
    return Gen(start, E.alloc('generator'), 'map')


def seq_extreme(E, op, s):
    """the least or greatest number of a sequence of any length: the same for the same sequence"""
    if E.iters:
        raise Unsupported('min/max in a loop')
    if not E.decide(E.truth(E.newlist(s))):
        E.raise_(ValueError)
    lst = E.newlist(s)
    for o, other, t in E.extremes:
        if o == op and same(E, E.newlist(other), lst):
            return SInt(t)
    t = E.fresh(I, op)
    E.extremes = E.extremes + ((op, s, t),)
    return SInt(t)


def f_minmax(op):
    def f(E, a, kw):
        if kw:
            raise Unsupported('min/max with key')
        if len(a) == 1:
            s = iterate(E, a[0])
            if not all(isinstance(p, Lit) for p in s.parts):
                return seq_extreme(E, op, s)
            a = [p.v for p in s.parts]
        if not a:
            E.raise_(ValueError)
        if all(isinstance(x, int) for x in a):
            return (min if op == 'min' else max)(a)
        if not all(isinstance(x, (int, SInt)) for x in a):
            raise Unsupported('min/max of %r' % (a,))
        t = E.int_term(a[0])
        for x in a[1:]:
            x = E.int_term(x)
            t = z3.If(x < t if op == 'min' else x > t, x, t)
        return SInt(t)
    return f


def f_sum(E, a, kw):
    s = iterate(E, a[0])
    t = a[1] if len(a) > 1 else 0
    for p in s.parts:
        if isinstance(p, Lit):
            t = binop(E, 'Add', t, p.v)
            continue
        d = None
        for leaf in reversed(p.leaves):
            x = 0
            for q in leaf.parts:
                if not isinstance(q, Lit):
                    raise Unsupported('sum of groups')
                x = binop(E, 'Add', x, q.v)
            x = E.int_term(x)
            d = x if d is None else z3.If(z3.And(list(leaf.guards)) if leaf.guards else z3.BoolVal(True), x, d)
        if isinstance(t, int):
            t = SInt(z3.IntVal(t))
        p.base.elem(p.var)       # its facts
        t = SInt(z3.simplify(t.t + E.sum_term(z3.simplify(d, som=True), p.var, p.lo, p.hi)))
    return t


def f_reversed(E, a, kw):
    v = a[0]
    if isinstance(v, tuple):
        return E.newlist(Seq([Lit(x) for x in reversed(v)]))
    return E.newlist(reverse(E, iterate(E, v)))


def f_callable(E, a, kw):
    return isinstance(a[0], (Func, BoundMethod, UserClass, BCls, Native, Builtin, BMethod))


def f_setattr(E, a, kw):
    E.setattr(a[0], a[1], a[2])


def f_re_compile(E, a, kw):
    if not isinstance(a[0], (str, bytes)):
        raise Unsupported('re.compile of unknown pattern')
    fl = a[1] if len(a) > 1 else kw.get('flags', 0)
    return Regex(a[0], fl)


def re_fn(name):
    def f(E, a, kw):
        r = f_re_compile(E, [a[0]], {}) if not isinstance(a[0], Regex) else a[0]
        return regex_method(E, r, name, list(a[1:]), kw)
    return f


def f_print(E, a, k):
    """what is printed is kept where a contract is about it"""
    if getattr(E, 'printed', None) is not None:
        if k:
            raise Unsupported('print with %s' % ', '.join(sorted(k)))
        list_method(E, E.printed, 'append', [tuple(a)], {})
    return None


import re as _re
FN = {
    'len': f_len, 'isinstance': f_isinstance, 'hasattr': f_hasattr, 'getattr': f_getattr,
    'any': f_any, 'all': f_all, 'next': f_next, 'iter': f_iter, 'enumerate': f_enumerate,
    'zip': f_zip, 'range': f_range, 'sorted': f_sorted, 'filter': f_filter, 'map': f_map,
    'min': f_minmax('min'), 'max': f_minmax('max'), 'sum': f_sum, 'reversed': f_reversed,
    'callable': f_callable, 'setattr': f_setattr, 're.compile': f_re_compile,
    'print': f_print, 'id': lambda E, a, k: SU(uf('id', U, U)(E.term(a[0])), 'any'),
    'repr': lambda E, a, k: opaque_str(E, 'repr', a[0]),
    'abs': lambda E, a, k: abs(a[0]) if isinstance(a[0], int) else SInt(z3.If(a[0].t < 0, -a[0].t, a[0].t)),
    'itertools.chain.from_iterable': lambda E, a, k: chain_iter(E, a[0]),
    'issubclass': lambda E, a, k: issubclass(a[0].py, a[1].py),
    'collections.namedtuple': lambda E, a, k: BCls(tuple),
}
for _n in ('match', 'findall', 'sub', 'split', 'search', 'fullmatch', 'finditer'):
    FN['re.' + _n] = re_fn(_n)

import collections as _c
import itertools as _it
EXT = {
    ('collections', 'deque'): BCls(_c.deque), ('collections', 'defaultdict'): BCls(_c.defaultdict),
    ('collections', 'OrderedDict'): BCls(_c.OrderedDict), ('itertools', 'chain'): BCls(_it.chain),
    ('re', 'DOTALL'): int(_re.DOTALL), ('re', 'UNICODE'): int(_re.UNICODE), ('re', 'I'): int(_re.I), ('re', 'M'): int(_re.M),
    ('re', 'VERBOSE'): int(_re.VERBOSE), ('re', 'X'): int(_re.X),
    ('re', 'IGNORECASE'): int(_re.I), ('re', 'MULTILINE'): int(_re.M), ('re', 'S'): int(_re.S), ('re', 'U'): int(_re.U),
    ('re', 'ASCII'): int(_re.A),
}
BUILTINS = {n: Builtin(n) for n in FN if '.' not in n}
for _c2 in (list, tuple, dict, set, frozenset, str, int, bool, object, slice, type):
    BUILTINS[_c2.__name__] = BCls(_c2)
BUILTINS['property'] = Builtin('property')
BUILTINS['open'] = Builtin('open')
BUILTINS['NotImplemented'] = Sentinel()
import builtins as _b
for _n in dir(_b):
    _x = getattr(_b, _n)
    if isinstance(_x, type) and issubclass(_x, BaseException):
        BUILTINS[_n] = BCls(_x)


# ---- operators ------------------------------------------------------------------------------------

def binop(E, op, a, b):
    a, b = E.force(a), E.force(b)
    num = (int, SInt)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
                        'Mod': lambda: a % b, 'FloorDiv': lambda: a // b, 'BitOr': lambda: a | b}[op]()
            except ZeroDivisionError:
                E.raise_(ZeroDivisionError)
            except KeyError:
                raise Unsupported('operator ' + op)
        x, y = E.int_term(a), E.int_term(b)
        if op in ('Add', 'Sub', 'Mult'):
            return SInt(z3.simplify({'Add': x + y, 'Sub': x - y, 'Mult': x * y}[op]))
        if op in ('Mod', 'FloorDiv') and isinstance(b, int) and b > 0:
            return SInt(x % y if op == 'Mod' else x / y)     # Euclidean, as Python's for b > 0
        raise Unsupported('operator ' + op)
    if op == 'Add':
        if isstr(a) and isstr(b):
            return concat(E, [a, b])
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls in ('list', 'deque') and b.cls in ('list', 'deque'):
            return E.newlist(Seq(E.content(a).parts + E.content(b).parts))
        if isinstance(a, Obj) and isinstance(b, Obj) and (isinstance(a.cls, UserClass) and a.cls.isbuiltin(list) or a.cls == 'list'):
            return E.newlist(Seq(E.content(a).parts + E.content(b).parts))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if a is None or b is None or isinstance(a, num) != isinstance(b, num):
            E.raise_(TypeError, '+')
    if op == 'Mod' and isstr(a):
        return percent(E, a, b)
    if op == 'Mult':
        if isinstance(a, str) and isinstance(b, int) or isinstance(a, int) and isinstance(b, str):
            return a * b
        if isinstance(a, SInt) and isstr(b):
            a, b = b, a
        if isstr(a) and isinstance(b, SInt):
            r = uf('repeat', U, I, U)(E.term(a), b.t)
            E.fact_once(kindf(r) == 3)
            return SU(r, 'str')
        if isinstance(a, Obj) and a.cls == 'list' and isinstance(b, int):
            return E.newlist(Seq(E.content(a).parts * b))
        if isinstance(a, Obj) and a.cls == 'list' and isinstance(b, SInt) and all(isinstance(p, Lit) for p in E.content(a).parts):
            ps = E.content(a).parts
            if not ps or not E.decide(b.t > 0):
                return E.newlist(Seq())
            fm = whole(Base(('range', KTerm(z3.IntVal(0))), b.t, lambda i: SInt(i)))
            return E.newlist(Seq([FM(fm.base, fm.lo, fm.hi, fm.var, [Leaf((), (), ps)])]))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls in ('set', 'frozenset') and b.cls in ('set', 'frozenset'):
        n = {'BitAnd': 'intersection', 'BitOr': 'union', 'Sub': 'difference'}.get(op)
        if n:
            return set_method(E, a, n, [b], {})
    raise Unsupported('operator %s on %r, %r' % (op, a, b))


def augop(E, op, a, b):
    if op == 'Add' and isinstance(a, Obj):
        if isinstance(a.cls, UserClass):
            m = a.cls.lookup('__iadd__')
            if isinstance(m[0], Func):
                return E.call(m[0], [a, b], {})
        if a.cls == 'list' or isinstance(a.cls, UserClass) and a.cls.isbuiltin(list):
            list_method(E, a, 'extend', [b], {})
            return a
    if op == 'BitOr' and isinstance(a, Obj) and a.cls == 'set':
        set_method(E, a, 'update', [b], {})
        return a
    return binop(E, op, a, b)


# ---- structural equality ------------------------------------------------------------------------

class Diff:
    """why two values are not shown to be the same; falsy"""

    def __init__(self, why):
        self.why = why

    def __bool__(self):
        return False

    def __repr__(self):
        return 'Diff(%s)' % self.why


def same(E, a, b, probe=False, deep=None):
    """a and b are the same value on every continuation of this path: True or Diff.
    deep: function(E, objA, objB) -> True/Diff for two heap objects that differ in identity"""
    r = _same(E, a, b, deep)
    return r


def _prove(E, c, what=''):
    if c is True:
        return True
    if c is False:
        return True if not E.possible(timeout=4000) else Diff(what or 'false')
    r = E.prover.valid(E.facts() + [z3.Not(c)], 8000)
    return True if r == z3.unsat else Diff('%s: %s not shown' % (what, c))


def _same(E, a, b, deep):
    if isinstance(a, SBool):
        a = E.truth(a)
    if isinstance(b, SBool):
        b = E.truth(b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        if not isinstance(a, (bool, z3.BoolRef)) or not isinstance(b, (bool, z3.BoolRef)):
            return _prove(E, False, 'bool against %r' % (b,))
        return _prove(E, lift(a) == lift(b), 'condition')
    if isinstance(a, SU) and a.ty.startswith('opt:') or isinstance(b, SU) and b.ty.startswith('opt:'):
        if isinstance(a, SU) and isinstance(b, SU):
            if a.t.eq(b.t):
                return True
        return branches(E, lambda: _same(E, E.force(a), E.force(b), deep))
    if isinstance(a, (SLen, SLen)) and isinstance(b, SLen):
        if type(a.seq) is not type(b.seq):
            return Diff('lengths of different kinds')
        if isinstance(a.seq, SetOf):
            return set_same(E, Seq(a.seq.parts), Seq(b.seq.parts), deep)
        return seq_same(E, a.seq.parts, b.seq.parts, deep, lengths=True)
    if isinstance(a, SJoin) and isinstance(b, SJoin):
        r = _same(E, a.sep, b.sep, deep)
        return r and seq_same(E, a.seq.parts, b.seq.parts, deep)
    if isinstance(a, STuple) and isinstance(b, STuple):
        return seq_same(E, a.seq.parts, b.seq.parts, deep)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return _prove(E, False, 'tuples of different length')
        for x, y in zip(a, b):
            r = _same(E, x, y, deep)
            if not r:
                return r
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_same(E, a.parts, b.parts, deep)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.t.eq(b.t):
            return True
        if a.cls in ('list', 'deque') and b.cls in ('list', 'deque'):
            return seq_same(E, E.content(a).parts, E.content(b).parts, deep)
        if a.cls == 'dict' and b.cls == 'dict':
            return dict_same(E, E.dcontent(a), E.dcontent(b), deep)
        if a.cls in ('set', 'frozenset') and b.cls in ('set', 'frozenset'):
            return set_same(E, E.content(a), E.content(b), deep)
        if deep is not None:
            return deep(E, a, b)
        if a.fresh and not a.t.decl().eq(b.t.decl()):
            return _prove(E, False, 'different objects %r %r' % (a, b))
        return _prove(E, a.t == b.t, 'identity')
    if isinstance(a, (SStr, SU, str)) and isinstance(b, (SStr, SU, str)) and \
            (isinstance(a, SStr) and not simple_str(a) or isinstance(b, SStr) and not simple_str(b)):
        pa = a.parts if isinstance(a, SStr) else ((Lit(a),) if a != '' else ())
        pb = b.parts if isinstance(b, SStr) else ((Lit(b),) if b != '' else ())
        return str_same(E, pa, pb, deep)
    if (scalar(a) and scalar(b)):
        c = pure(E, lambda: eq(E, a, b))
        return _prove(E, c, '%r == %r' % (a, b))
    if isinstance(a, (SU, Obj)) and isinstance(b, (SU, Obj)):
        return _prove(E, E.term(a) == E.term(b), '%r == %r' % (a, b))
    if isinstance(a, (Func, UserClass, BCls, Module, Builtin)) or isinstance(b, (Func, UserClass, BCls, Module, Builtin)):
        return True if (a is b or a == b) else _prove(E, False, 'different functions')
    return _prove(E, False, 'different kinds: %r / %r' % (a, b))


def branches(E, fn):
    """fn() on every branch below this point must be True"""
    for p in E.explore(fn):
        if p.kind != 'normal':
            return Diff('exception while comparing')
        if not p.value:
            return p.value if p.value is not None else Diff('?')
    return True


def empty_part(E, p):
    """provably contributes nothing"""
    if isinstance(p, Lit):
        return False
    if not isinstance(p, FM):
        return False
    if not E.possible(p.lo < p.hi, 2000):
        return True
    for leaf in p.leaves:
        if leaf.parts:
            v = fresh_var('z')
            sub = [(p.var, v)]
            here = E.snap()
            try:
                E.assume(z3.And(p.lo <= v, v < p.hi))
                for x in leaf.guards + leaf.facts:
                    E.assume(z3.substitute(x, *sub))
                poss = E.possible(timeout=2000)
                if poss:
                    if not all(empty_part(E, subst(q, sub)) for q in leaf.parts):
                        return False
            except Infeasible:
                pass
            finally:
                E.restore(here)
    return True


def splitparts(ps):
    out = []
    for p in ps:
        if isinstance(p, Lit) and isinstance(p.v, str):
            out.extend(Lit(c) for c in p.v)
        elif isinstance(p, Lit) and isinstance(p.v, SStr):
            out.extend(splitparts(p.v.parts))
        else:
            out.append(p)
    return tuple(out)


def str_same(E, pa, pb, deep):
    """strings as sequences of parts; literals character by character"""
    pa, pb = splitparts(pa), splitparts(pb)
    return seq_same(E, pa, pb, deep, strings=True)


def lit_same(E, x, y, deep, strings, lengths):
    if lengths:
        return True
    return _same(E, x, y, deep)


def seq_same(E, pa, pb, deep=None, strings=False, lengths=False):
    pa, pb = list(pa), list(pb)
    if strings:
        pa = [p for p in splitparts(pa)]
        pb = [p for p in splitparts(pb)]
    while pa or pb:
        if not pa or not pb:
            rest = pa or pb
            if strings:
                rest = [p for p in rest if not (isinstance(p, Lit) and E.implied(lift(str_eq(E, p.v, ''))))]
            if all(empty_part(E, p) for p in rest):
                return True
            return _prove(E, False, 'one side has more elements: %r' % (rest,))
        x, y = pa[0], pb[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            r = lit_same(E, x.v, y.v, deep, strings, lengths)
            if not r and strings:
                # an empty piece on one side
                if E.implied(lift(str_eq(E, x.v, ''))):
                    pa.pop(0)
                    continue
                if E.implied(lift(str_eq(E, y.v, ''))):
                    pb.pop(0)
                    continue
            if not r:
                return r
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, FM) and isinstance(y, FM) and not x.base.key == y.base.key and key_same(E, x.base.key, y.base.key):
            y = pb[0] = FM(x.base, y.lo, y.hi, y.var, y.leaves, y.identity)
        if isinstance(x, FM) and isinstance(y, FM) and x.base.key == y.base.key and E.implied(x.lo == y.lo):
            if E.implied(x.hi == y.hi):
                r = fm_same(E, x, y, deep, strings, lengths)
                if r:
                    pa.pop(0)
                    pb.pop(0)
                    continue
            elif E.implied(x.hi <= y.hi):
                y1 = FM(y.base, y.lo, x.hi, y.var, y.leaves, y.identity)
                r = fm_same(E, x, y1, deep, strings, lengths)
                if r:
                    pa.pop(0)
                    pb[0] = FM(y.base, x.hi, y.hi, y.var, y.leaves, y.identity)
                    continue
            elif E.implied(y.hi <= x.hi):
                x1 = FM(x.base, x.lo, y.hi, x.var, x.leaves, x.identity)
                r = fm_same(E, x1, y, deep, strings, lengths)
                if r:
                    pb.pop(0)
                    pa[0] = FM(x.base, y.hi, x.hi, x.var, x.leaves, x.identity)
                    continue
            else:
                r = Diff('ranges [%s,%s) and [%s,%s)' % (x.lo, x.hi, y.lo, y.hi))
        else:
            r = Diff('parts %r / %r' % (x, y))
        if empty_part(E, x):
            pa.pop(0)
            continue
        if empty_part(E, y):
            pb.pop(0)
            continue
        # peel one element
        done = False
        for p, ps in ((x, pa), (y, pb)):
            if isinstance(p, FM) and E.implied(p.lo < p.hi):
                q = pb[0] if ps is pa else pa[0]
                if isinstance(q, Lit) or isinstance(q, FM) and not (q.base.key == p.base.key):
                    if isinstance(q, FM) and not E.implied(q.hi == q.lo + 1):
                        continue
                    sub = [(p.var, p.lo)]
                    leafs = list(p.leaves)
                    if len(leafs) > 1:
                        p.base.elem(p.lo)        # its facts
                        leafs = [l for l in leafs if E.implied(z3.And([z3.BoolVal(True)] + [z3.substitute(g, *sub) for g in l.guards]))][:1]
                    if len(leafs) == 1:
                        for f in leafs[0].facts:
                            E.assume(z3.substitute(f, *sub))
                        head = [Lit(p.base.elem(p.lo))] if p.identity else [subst(z, sub) for z in leafs[0].parts]
                        if strings:
                            head = list(splitparts(head))
                        ps[0:1] = head + [FM(p.base, z3.simplify(p.lo + 1), p.hi, p.var, p.leaves, p.identity)]
                        done = True
                        break
        if done:
            continue
        if not E.possible(timeout=3000):
            return True
        return r
    return True


def key_same(E, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(key_same(E, x, y) for x, y in zip(a, b))
    if isinstance(a, KTerm) and isinstance(b, KTerm):
        return a.t.eq(b.t) or a.t.sort() == b.t.sort() and E.implied(a.t == b.t)
    return a == b


def fm_same(E, x, y, deep, strings, lengths):
    if x.identity and y.identity:
        return True
    v = E.fresh(I, 'j')
    here = E.snap()
    try:
        E.assume(z3.And(x.lo <= v, v < x.hi))
        E.iters.append(v)
        for la in x.leaves:
            h1 = E.snap()
            try:
                for g in la.guards + la.facts:
                    E.assume(z3.substitute(g, (x.var, v)))
                if not E.possible(timeout=2000):
                    continue
                for lb in y.leaves:
                    h2 = E.snap()
                    try:
                        for g in lb.guards + lb.facts:
                            E.assume(z3.substitute(g, (y.var, v)))
                        if not E.possible(timeout=2000):
                            continue
                        pa = [Lit(x.base.elem(v))] if x.identity else [subst(p, [(x.var, v)]) for p in la.parts]
                        pb = [Lit(y.base.elem(v))] if y.identity else [subst(p, [(y.var, v)]) for p in lb.parts]
                        r = seq_same(E, pa, pb, deep, strings, lengths)
                        if not r:
                            return Diff('%s\n  under %s' % (r.why, [f for _, f in E.pc[-8:]]))
                    except Infeasible:
                        continue
                    finally:
                        E.restore(h2)
            except Infeasible:
                continue
            finally:
                E.restore(h1)
        return True
    finally:
        E.restore(here)


def item_keys(E, d):
    """loops over the items of a dict whose keys provably are the keys of that dict say so"""
    ops = []
    for op in d.ops:
        if op[0] == 'stream' and isinstance(op[1].base.key, tuple) and op[1].base.key and op[1].base.key[0] == 'items':
            fm = op[1]
            t = fm.base.key[1].t
            leaves = []
            for l in fm.leaves:
                if len(l.parts) == 1 and isinstance(l.parts[0], Lit):
                    kv = l.parts[0].v
                    kt = E.term(kv[0])
                    if not kt.eq(dkey(t, fm.var)):
                        i = E.fresh(I, 'item')

                        def body():
                            E.assume(z3.And(fm.lo <= i, i < fm.hi))
                            fm.base.elem(i)
                            for g in list(l.guards) + list(l.facts):
                                E.assume(z3.substitute(g, (fm.var, i)))
                            if not E.possible():
                                return True
                            k = subst(kv[0], [(fm.var, i)])
                            return E.implied(E.term(k) == dkey(t, i))
                        if all(p.value for p in E.explore(body)):
                            ety = valtype(fm.base.elem(fm.var)[0])
                            l = Leaf(l.guards, l.facts, (Lit((SU(dkey(t, fm.var), ety), kv[1])),))
                leaves.append(l)
            op = (op[0], FM(fm.base, fm.lo, fm.hi, fm.var, leaves))
        ops.append(op)
    return DVal(d.base, tuple(ops), d.factory)


def dict_same(E, da, db, deep):
    """same keys and values (order not compared)"""
    if da is db:
        return True
    da, db = item_keys(E, da), item_keys(E, db)

    def simple(d):
        return d.base is None and all(op[0] == 'set' and isinstance(op[1], str) for op in d.ops)
    if simple(da) and simple(db):
        xa = {op[1]: op[2] for op in da.ops}
        xb = {op[1]: op[2] for op in db.ops}
        if set(xa) != set(xb):
            return _prove(E, False, 'different keys %s / %s' % (sorted(xa), sorted(xb)))
        for k in xa:
            r = _same(E, xa[k], xb[k], deep)
            if not r:
                return Diff('[%r]: %s' % (k, r.why))
        return True
    k = SU(E.fresh(U, 'anykey'), 'any')

    def cmp():
        a = E.dict_find(da, k)
        b = E.dict_find(db, k)
        if (a is None) != (b is None):
            return _prove(E, False, 'key in one dict only')
        if a is None:
            return True
        return _same(E, a[0], b[0], deep)
    return branches(E, cmp)


def set_same(E, sa, sb, deep):
    r = seq_same(E, sa.parts, sb.parts, deep)
    if r:
        return True
    k = SU(E.fresh(U, 'anyelem'), 'any')

    def cmp():
        a = lift(seq_member(E, k, sa))
        b = lift(seq_member(E, k, sb))
        return _prove(E, a == b, 'set membership')
    return branches(E, cmp)
