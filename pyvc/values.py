"""Terms and values of the symbolic evaluator.

All unknown scalars and object identities are terms of one uninterpreted sort U
(strings, None, object references); lengths and indices are mathematical
integers. Concrete Python values (None, bool, int, str, tuple of values) are used
as they are.
"""
import z3

# total functions of the z3 API, without the error check after each call
for _n in ('Z3_get_ast_kind', 'Z3_get_ast_id', 'Z3_is_eq_ast', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_sort_kind',
           'Z3_is_finite_set_sort'):
    _w = getattr(z3.z3, _n, None)
    if getattr(_w, '__defaults__', None) and hasattr(_w.__defaults__[0], 'f'):
        setattr(z3.z3, _n, _w.__defaults__[0].f)


def _substitute(t, *m):
    """z3.substitute without its checks"""
    n = len(m)
    a, b = (z3.z3.Ast * n)(), (z3.z3.Ast * n)()
    for i, (x, y) in enumerate(m):
        a[i], b[i] = x.ast, y.ast
    return z3.z3._to_expr_ref(_raw_substitute(t.ctx.ctx, t.ast, n, a, b), t.ctx)


_raw_substitute = z3.z3.Z3_substitute
z3.substitute = _substitute

U = z3.DeclareSort('U')
I = z3.IntSort()
B = z3.BoolSort()

_ufs = {}


def uf(name, *sorts):
    k = (name,) + sorts
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


# kinds of scalars: 0 None, 1 bool, 2 int, 3 str, 4 tuple, 5 object, 6 other
kindf = uf('kind', U, I)
codef = uf('code', U, I)            # distinct for distinct literals and fresh objects
fresh_p = uf('fresh', U, B)         # object allocated during the run
boxint = uf('boxint', I, U)
unboxint = uf('unboxint', U, I)
at = uf('at', U, I, U)              # i-th member of a list of the pre-state
llen = uf('llen', U, I)
dhas = uf('dhas', U, U, B)          # dicts of the pre-state
dget = uf('dget', U, U, U)
dlen = uf('dlen', U, I)
dkey = uf('dkey', U, I, U)
dpos = uf('dpos', U, U, I)
scat = uf('scat', U, U, U)
objeq = uf('objeq', U, U, B)        # contract of == on model objects
dicteq = uf('dicteq', U, U, B)

_lits = {}
_litn = [10]
AXIOMS = []


def lit(s):
    if s not in _lits:
        c = z3.Const('lit:%r' % (s,), U)
        _lits[s] = c
        _litn[0] += 1
        AXIOMS.append(codef(c) == _litn[0])
        AXIOMS.append(z3.Not(fresh_p(c)))
        if isinstance(s, str):
            AXIOMS.append(kindf(c) == 3)
    return _lits[s]


NONE = z3.Const('None', U)
TRUE = z3.Const('True', U)
FALSE = z3.Const('False', U)
AXIOMS += [kindf(NONE) == 0, codef(NONE) == 1, kindf(TRUE) == 1, codef(TRUE) == 2,
           kindf(FALSE) == 1, codef(FALSE) == 3, z3.Not(fresh_p(NONE))]


class Val:
    __slots__ = ()


class SU(Val):
    """Unknown scalar. ty: 'str', 'optstr', 'any'."""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty='str'):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'SU(%s:%s)' % (self.t, self.ty)


class SInt(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SStr(Val):
    """Concatenation of parts: Lit of str or SU, FM (whose leaves give such parts),
    Mark."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class Obj(Val):
    """A heap object. cls: UserClass or a builtin kind ('list', 'dict', 'set', 'deque')"""
    __slots__ = ('t', 'cls', 'fresh', 'ety')

    def __init__(self, t, cls, fresh=False, ety=None):
        self.t, self.cls, self.fresh, self.ety = t, cls, fresh, ety

    def __repr__(self):
        return 'Obj(%s:%s)' % (self.t, getattr(self.cls, 'name', self.cls))


class Poison(Val):
    """Value that must not be read: assigned in, or carried around, a summarised loop."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Last(Poison):
    """The target of a loop after it: the last element, or what it was before."""
    __slots__ = ('fm', 'before')

    def __init__(self, fm, before):
        self.why, self.fm, self.before = 'assigned in a loop', fm, before


class Opaque(Val):
    """A value whose only use is identity of the expression that made it."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


# ---- sequences --------------------------------------------------------------

class Lit:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '<%r>' % (self.v,)


class Mark:
    """Contents of an accumulator at the head of an arbitrary iteration."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return '<mark %s>' % (self.loc,)


class Leaf:
    __slots__ = ('guards', 'facts', 'parts')

    def __init__(self, guards, facts, parts):
        self.guards, self.facts, self.parts = tuple(guards), tuple(facts), tuple(parts)

    def __repr__(self):
        return '{%s => %r}' % (list(self.guards), self.parts)


class Base:
    """A sequence of unknown length: key (hashable), length term, element function."""
    __slots__ = ('key', 'len', 'elem', 'distinct')

    def __init__(self, key, length, elem, distinct=False):
        self.key, self.len, self.elem, self.distinct = key, length, elem, distinct

    def __repr__(self):
        return 'Base%r' % (self.key,)


class FM:
    """For i in range(lo, hi): the parts of the leaf whose guards hold."""
    __slots__ = ('base', 'lo', 'hi', 'var', 'leaves', 'identity')

    def __init__(self, base, lo, hi, var, leaves, identity=False):
        self.base, self.lo, self.hi = base, lo, hi
        self.var, self.leaves, self.identity = var, tuple(leaves), identity

    def __repr__(self):
        return 'FM(%r[%s:%s] %s %r)' % (self.base, self.lo, self.hi, self.var,
                                       'id' if self.identity else self.leaves)


class Seq(Val):
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'Seq%r' % (self.parts,)


_vn = [0]


def fresh_var(prefix='v'):
    _vn[0] += 1
    return z3.Int('%s!%d' % (prefix, _vn[0]))


def whole(base, lo=None, hi=None):
    """the elements lo..hi of a base, as a part"""
    lo = z3.IntVal(0) if lo is None else lo
    hi = base.len if hi is None else hi
    v = fresh_var('w')
    return FM(base, lo, hi, v, [Leaf((), (), (Lit(base.elem(v)),))], identity=True)


# ---- dicts --------------------------------------------------------------------

class DVal(Val):
    """base: None (empty), pre-state dict Obj, or Mark; ops: ('set',k,v), ('del',k),
    ('stream', FM) whose leaves hold Lit((k, v)), ('group', FM) whose leaves hold
    Lit((k1,..,kn, v)): v appended to the list at [k1]..[kn]"""
    __slots__ = ('base', 'ops', 'factory')

    def __init__(self, base=None, ops=(), factory=None):
        self.base, self.ops, self.factory = base, tuple(ops), factory

    def __repr__(self):
        return 'DVal(%s, %r)' % (self.base, self.ops)


# ---- substitution ------------------------------------------------------------

def subst(v, pairs):
    """Replace z3 constants in a value. pairs: [(old, new)]"""
    if not pairs or v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SU):
        return SU(z3.substitute(v.t, *pairs), v.ty)
    if isinstance(v, SInt):
        return SInt(z3.substitute(v.t, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, *pairs))
    if isinstance(v, SStr):
        return SStr(subst(v.parts, pairs))
    if isinstance(v, Seq):
        return Seq(subst(v.parts, pairs))
    if isinstance(v, Lit):
        return Lit(subst(v.v, pairs))
    if isinstance(v, Leaf):
        return Leaf(subst(v.guards, pairs), subst(v.facts, pairs), subst(v.parts, pairs))
    if isinstance(v, FM):
        pairs = [p for p in pairs if not p[0].eq(v.var)]
        return FM(subst_base(v.base, pairs), subst(v.lo, pairs), subst(v.hi, pairs),
                  v.var, subst(v.leaves, pairs), v.identity)
    if isinstance(v, Obj):
        return Obj(z3.substitute(v.t, *pairs), v.cls, v.fresh, v.ety)
    if isinstance(v, DVal):
        return DVal(subst(v.base, pairs), tuple((op[0],) + subst(op[1:], pairs) for op in v.ops),
                    v.factory)
    if hasattr(v, 'subst'):
        return v.subst(pairs)
    return v


def subst_base(b, pairs):
    key = subst_key(b.key, pairs)
    if key == b.key:
        return b
    return Base(key, z3.substitute(b.len, *pairs),
                lambda i, _e=b.elem, _p=tuple(pairs): _subst_elem(_e, i, _p), b.distinct)


def _subst_elem(e, i, pairs):
    m = fresh_var('m')
    E = ENGINE[0]
    n0 = len(E.pc)
    v = e(m)
    facts = E.pc[n0:]
    del E.pc[n0:]
    for g, f in facts:
        f = z3.substitute(z3.substitute(f, *pairs), (m, i))
        E.pc.append((True, f)) if g else E.fact_once(f)
    return subst(subst(v, pairs), [(m, i)])


ENGINE = [None]


def subst_key(k, pairs):
    if isinstance(k, tuple):
        return tuple(subst_key(x, pairs) for x in k)
    if isinstance(k, KTerm):
        return KTerm(z3.substitute(k.t, *pairs))
    if isinstance(k, KSeq):
        return KSeq(subst(k.s, pairs))
    return k


class KSeq:
    """What a base is made of; not part of its identity."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, KSeq)

    def __hash__(self):
        return 7


class KTerm:
    """A term inside a base key (comparable by syntactic identity)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, KTerm) and self.t.eq(o.t)

    def __hash__(self):
        return self.t.hash()

    def __repr__(self):
        return str(self.t)
