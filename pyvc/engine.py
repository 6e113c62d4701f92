"""Symbolic evaluator of the Python code under /repo (see DESIGN.md)."""
import ast
import os
import sys
import time
import z3
from values import *

REPO = os.environ.get('XIGT_REPO', '/repo')
CROSS = os.environ.get('PYVC_CROSS') == '1'


class Unsupported(Exception):
    """The construct is outside the evaluator's reach: no obligation is generated."""


class LoopCarried(Unsupported):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


class Abort(Exception):
    """stop exploring (budget)"""


# the functions the contracts were written for
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'functions.txt')) as _f:
    KNOWN = frozenset(_f.read().split())


# ---- code objects -----------------------------------------------------------

class Env:
    __slots__ = ('vars', 'parent', 'locals', 'qual', 'globals_', 'role', 'func')

    def __init__(self, parent=None, locals_=None, qual='', globals_=None):
        self.vars = {}
        self.parent = parent
        self.locals = locals_
        self.qual = self.role = qual     # role: the function whose loop rules are used
        self.globals_ = globals_
        self.func = None


class Module:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return '<module %s>' % self.name


class ExtModule:
    def __init__(self, name):
        self.name = name


class Func:
    def __init__(self, name, node, env, defaults, kwdefaults, qual, module):
        self.name, self.node, self.env = name, node, env
        self.defaults, self.kwdefaults, self.qual, self.module = defaults, kwdefaults, qual, module
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    def __repr__(self):
        return '<func %s>' % self.qual


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<builtin %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class BMethod:
    """builtin method `name` of value self (kind: list, dict, str...)"""

    def __init__(self, kind, name, self_):
        self.kind, self.name, self.self = kind, name, self_


class BUnbound:
    """list.append etc. without receiver"""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class Native:
    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class Property:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class BCls:
    """builtin class"""

    def __init__(self, py):
        self.py = py
        self.name = py.__name__

    def __eq__(self, o):
        return isinstance(o, BCls) and o.py is self.py

    def __hash__(self):
        return hash(self.py)

    def __repr__(self):
        return '<class %s>' % self.name


class UserClass:
    def __init__(self, name, bases, attrs, qual):
        self.name, self.bases, self.attrs, self.qual = name, bases, attrs, qual
        self.py = type(name, tuple(b.py for b in bases) or (object,), {})
        self.py._uc = self
        self.mro = [c.__dict__.get('_uc') or BCls(c) for c in self.py.__mro__]

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, UserClass):
                if name in c.attrs:
                    return c.attrs[name], c
            elif c.py is not object and hasattr(c.py, name):
                return BUnbound(c.py.__name__, name), c
        return None

    def isbuiltin(self, py):
        return issubclass(self.py, py)

    def __repr__(self):
        return '<class %s>' % self.name


class Gen(Val):
    """a generator; stream(body) runs it, calling body for each element"""
    __slots__ = ('start', 'obj', 'what')

    def __init__(self, start, obj, what=''):
        self.start, self.obj, self.what = start, obj, what


class Super:
    """super(C, o): what the classes after C have"""

    def __init__(self, after, obj):
        self.after, self.obj = after, obj


class Regex:
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags

    def __repr__(self):
        return '<re %r>' % self.pattern


def own_nodes(node):
    """nodes of a function body without nested scopes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                          ast.ListComp, ast.SetComp, ast.DictComp)):
            if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(node):
    out, nl = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nl.update(n.names)
    return out - nl


class Explorer:
    def __init__(self, name, prefix):
        self.name, self.prefix = name, prefix
        self.taken = []
        self.pending = []
        self.count = 0
        self.labels = []

    def here(self):
        return '%s/%s' % (self.name, ''.join('%d' % b for b in self.taken))


class Path:
    def __init__(self, kind, value, snap, pc, labels, taken):
        self.kind, self.value, self.snap, self.pc = kind, value, snap, pc
        self.labels, self.taken = labels, taken


class StreamExit(Exception):
    """the consumer of a generator leaves its loop"""

    def __init__(self, token, exc):
        self.token, self.exc = token, exc


ABSENT = Poison('not assigned before the loop')


SLOW = float(os.environ.get('PYVC_SLOW') or 0)
_T, _F = z3.BoolVal(True), z3.BoolVal(False)
TRUE_ID, FALSE_ID = _T.get_id(), _F.get_id()
_OTHER = {}


class Prover:
    """z3 behind a cache; counts queries and time"""

    def __init__(self):
        self.cache = {}
        self.queries = 0
        self.time = 0.0
        self.keep = []
        self.backends = {}

    def valid(self, fs, timeout):
        """are the formulas contradictory? an obligation: z3, and cvc5 where z3 gives up (or, with
        PYVC_CROSS, for every obligation)"""
        r, _ = self.check(fs, timeout)
        self.backends['z3'] = self.backends.get('z3', 0) + (r == z3.unsat)
        if r == z3.unsat and not CROSS or r == z3.sat:
            return r
        t = time.time()
        c = cvc5_check(fs, timeout)
        self.time += time.time() - t
        if r == z3.unsat:
            k = {'unsat': 'cvc5 agrees', 'sat': 'CVC5 DISAGREES'}.get(c, 'cvc5 undecided')
            self.backends[k] = self.backends.get(k, 0) + 1
            return r if c != 'sat' else z3.unknown
        if c == 'unsat':
            self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
            return z3.unsat
        return r

    def check(self, fs, timeout=2000, want_model=False):
        ids = {}
        for f in fs:
            try:
                i = f.ident
            except AttributeError:
                i = f.ident = f.get_id()
            ids[i] = f
        if FALSE_ID in ids:
            return z3.unsat, None
        ids.pop(TRUE_ID, None)
        fs = list(ids.values())
        key = (timeout,) + tuple(sorted(ids))
        if key in self.cache and not want_model:
            return self.cache[key], None
        s = z3.SimpleSolver()
        s.set('timeout', timeout)
        s.set('random_seed', 1)
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        ctx, sv = s.ctx.ref(), s.solver
        for f in AXIOMS:
            z3.Z3_solver_assert(ctx, sv, f.ast)
        for f in fs:
            z3.Z3_solver_assert(ctx, sv, f.ast)
        t = time.time()
        r = s.check()
        t = time.time() - t
        self.time += t
        self.queries += 1
        self.cache[key] = r
        if SLOW and t > SLOW:
            import traceback
            print('SLOW %.1f %s %d facts  %s' % (t, r, len(fs), ' < '.join(
                '%s:%d' % (x.name, x.lineno) for x in reversed(traceback.extract_stack()[-14:-1]))), str(fs[-1])[:300], file=sys.stderr)
        self.keep.append(fs)
        m = None
        if want_model and r != z3.unsat:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return r, m


class Bulk:
    """a write to `term` for all values of the binders (var, lo, hi) that satisfy the guards"""
    __slots__ = ('binders', 'guards', 'term', 'fr', 'cls')

    def __init__(self, binders, guards, term, fr, cls=None):
        self.binders, self.guards, self.term, self.fr = tuple(binders), tuple(guards), term, fr
        self.cls = cls


def disjoint(a, b):
    """no object is of both classes"""
    if a is None or b is None or a is b:
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a != b
    if isinstance(a, UserClass) and isinstance(b, UserClass):
        return not issubclass(a.py, b.py) and not issubclass(b.py, a.py)
    return False


def cvc5_check(fs, timeout):
    """'unsat', 'sat' or 'unknown' from cvc5 on the same obligation"""
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.SimpleSolver()
    s.add(*AXIOMS)
    s.add(*fs)
    text = '(set-logic ALL)\n' + s.to_smt2()
    try:
        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption('tlimit-per', str(timeout))
        ps = cvc5.InputParser(sv)
        ps.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
        sm = ps.getSymbolManager()
        while True:
            c = ps.nextCommand()
            if c.isNull():
                break
            r = c.invoke(sv, sm).strip()
            if r in ('sat', 'unsat', 'unknown'):
                return r
            if 'error' in r:
                return 'unknown'
    except Exception:
        return 'unknown'
    return 'unknown'


def unify(p, t, xs, m):
    """match pattern p with variables xs against t"""
    for x in xs:
        if p.eq(x):
            k = x.get_id()
            if k in m:
                return m[k].eq(t)
            m[k] = t
            return True
    if p.eq(t):
        return True
    if z3.is_app(p) and z3.is_app(t) and p.decl().eq(t.decl()) and p.num_args() == t.num_args() and p.num_args():
        return all(unify(a, b, xs, m) for a, b in zip(p.children(), t.children()))
    return False


def has_var(t, v):
    """does term t contain constant v?"""
    i = v.get_id()
    if i not in _OTHER:
        _OTHER[i] = v, z3.FreshConst(v.sort(), 'other')
    return not z3.substitute(t, (v, _OTHER[i][1])).eq(t)


def mentions(v, c):
    if isinstance(v, z3.ExprRef):
        return has_var(v, c)
    if isinstance(v, (SU, SInt, SBool, Obj)):
        return has_var(v.t, c)
    if isinstance(v, (SStr, Seq)):
        return any(mentions(p, c) for p in v.parts)
    if isinstance(v, Lit):
        return mentions(v.v, c)
    if isinstance(v, Leaf):
        return any(mentions(x, c) for x in v.guards + v.parts)
    if isinstance(v, FM):
        return any(mentions(x, c) for x in (v.lo, v.hi, v.base.len) + v.leaves) or key_mentions(v.base.key, c)
    if isinstance(v, tuple):
        return any(mentions(x, c) for x in v)
    if isinstance(v, DVal):
        return any(mentions(x, c) for op in v.ops for x in op[1:])
    return False


def exits_in(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        exits_in(t.body(), out, seen)
    elif z3.is_app(t):
        if t.decl().name().startswith('exit!'):
            out[t.get_id()] = t
        for x in t.children():
            exits_in(x, out, seen)


def some_exit(g, f, parts):
    """leaf of a path on which an inner loop was left at an index that what it yields does not
    depend on: there is such an index (the index is not constrained otherwise)"""
    ks, seen = {}, set()
    for x in g:
        exits_in(x, ks, seen)
    for k in ks.values():
        if any(o.get_id() != k.get_id() and has_var(o, k) for o in ks.values()) or any(mentions(p, k) for p in parts):
            continue
        at = [x for x in g if has_var(x, k)]
        z = fresh_var('z')
        at2 = [z3.substitute(x, (k, z)) for x in at]
        if len(at) == 2 and z3.is_quantifier(at[1]) and at[1].is_forall():
            # the first index that satisfies the condition exists if any does
            q = z3.Int('q!first')
            body = z3.substitute_vars(at[1].body(), q)
            if at[1].num_vars() == 1 and is_first(at[0], body, k, q):
                at2 = at2[:1]
        new = z3.Exists([z], z3.And(at2))
        i = [n for n, x in enumerate(g) if has_var(x, k)][0]
        g = [x for x in g[:i] if not has_var(x, k)] + [new] + [x for x in g[i:] if not has_var(x, k)]
        f = [x for x in f if not has_var(x, k)]
    return Leaf(g, f, parts)


_firsts = {}


def is_first(at, body, k, q):
    """the least index that satisfies at(k) has body(q) for every q"""
    key = (at.get_id(), body.get_id(), k.get_id())
    if key not in _firsts:
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(at, z3.Not(body), z3.Not(z3.And(z3.substitute(at, (k, q)), q < k)))
        _firsts[key] = (s.check() == z3.unsat, at, body, k)
    return _firsts[key][0]


def key_mentions(k, c):
    if isinstance(k, tuple):
        return any(key_mentions(x, c) for x in k)
    if isinstance(k, KTerm):
        return has_var(k.t, c)
    return False


class Engine:
    MAXDEPTH = 60

    def __init__(self, repo=REPO):
        self.repo = repo
        ENGINE[0] = self
        self.modules = {}
        self.prover = Prover()
        self.contracts = {}
        self.loop_rules = {}
        self.loop_fallback = []
        self.close_exits = False   # leaves of loops without the exit indices of inner loops
        self.end_of = {}        # strings that are the beginning or the end of another
        self.text_of = {}       # str() of a value without term
        self.after_loop = {}
        self.schema = {}
        self.class_inv = {}
        self.functions = {}      # qualname -> times evaluated
        self.obligations = []
        self.contracted = set()
        self.alloc_log = []
        self.live = 0
        self.assumptions = set()
        self.maxpaths = 3000
        self.intern = {}
        self.ext_contract = {}
        self.regex_contract = {}
        self.obj_attr = {}
        self.stubs = {}
        self.havoc_dicts = set()
        self.keyed = None
        self.merge_gets = False
        self.member_pred = False
        self.maps = []
        self.listed = []
        self.eq_contract = None
        self.string_facts = False    # facts about lengths and prefixes of strings
        self.extra_modules = {}
        self.explorers = []
        self.label_filter = None
        self.mute = 0
        self.deadline = None
        self.reset()
        import lib
        self.lib = lib
        self.builtins = lib.BUILTINS
        self.objs = {}

    def reset(self):
        self.pc = []
        self.heap = {}
        self.envs = []
        self.role = ''
        self.iters = []
        self.outs = []
        self.depth = 0
        self.noeq = set()
        self.extremes = ()       # least and greatest members of sequences

    # -- state ---------------------------------------------------------------

    def snap(self):
        return (list(self.pc), dict(self.heap), list(self.envs),
                [dict(e.vars) for e in self.envs], list(self.iters), list(self.outs), self.depth,
                frozenset(self.noeq), self.extremes)

    def restore(self, s):
        pc, heap, envs, vs, iters, outs, depth, noeq, self.extremes = s
        self.pc, self.heap, self.envs = list(pc), dict(heap), list(envs)
        for e, v in zip(envs, vs):
            e.vars = dict(v)
        self.iters, self.outs, self.depth = list(iters), list(outs), depth
        self.noeq = set(noeq)

    def name(self, prefix):
        ex = self.explorers[-1]
        ex.count += 1
        k = '%s#%d' % (ex.here(), ex.count)
        n = self.intern.setdefault(k, len(self.intern))
        return '%s!%d' % (prefix, n)

    def fresh(self, sort, prefix='k'):
        n = self.name(prefix)
        if self.iters:
            f = uf(n, *([I] * len(self.iters) + [sort]))
            return f(*self.iters)
        return z3.Const(n, sort)

    def alloc(self, cls):
        t = self.fresh(U, 'new')
        d = t.decl().name()
        n = int(d.split('!')[1])
        self.assume(z3.And(fresh_p(t), codef(t) == -n - 1, kindf(t) == 5))
        self.alloc_log.append(t)
        return Obj(t, cls, True)

    # -- logic ---------------------------------------------------------------

    def assume(self, f, guard=False):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        i = f.ident = f.get_id()
        if i == TRUE_ID:
            return
        if i == FALSE_ID:
            raise Infeasible()
        self.pc.append((guard, f))

    def facts(self):
        return [f for _, f in self.pc]

    def implied(self, f, timeout=1000):
        if isinstance(f, bool):
            return f
        r, _ = self.prover.check(self.facts() + [z3.Not(f)], timeout)
        return r == z3.unsat

    def possible(self, f=True, timeout=1000):
        if f is False:
            return False
        r, _ = self.prover.check(self.facts() + ([] if f is True else [f]), timeout)
        return r != z3.unsat

    def decide(self, c, label=None):
        """branch on a condition (Python bool or z3 Bool)"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Abort('time budget')
        ex = self.explorers[-1]
        n = len(ex.taken)
        # implied decisions are also recorded in the prefix so that replays are cheap
        if n < len(ex.prefix):
            b, forced = ex.prefix[n]
        else:
            if not self.possible(c):
                b, forced = False, True
            elif not self.possible(z3.Not(c)):
                b, forced = True, True
            else:
                b, forced = True, False
                ex.pending.append([(t, fo) for t, fo in zip(ex.taken, ex.forced)] + [(False, False)])
        ex.taken.append(b)
        ex.forced.append(forced)
        if label or not forced:
            ex.labels.append((label or '', b))
        if not forced:
            self.assume(c if b else z3.Not(c), guard=True)
        return b

    def choose(self, label=''):
        """unconditional fork"""
        ex = self.explorers[-1]
        n = len(ex.taken)
        if n < len(ex.prefix):
            b, forced = ex.prefix[n]
        else:
            b, forced = True, False
            ex.pending.append([(t, fo) for t, fo in zip(ex.taken, ex.forced)] + [(False, False)])
        ex.taken.append(b)
        ex.forced.append(forced)
        ex.labels.append((label, b))
        return b

    def explore(self, fn, name=None):
        """all paths of fn() from the present state"""
        base = self.snap()
        if self.explorers:
            ex = self.explorers[-1]
            ex.count += 1
            name = '%s>%d' % (ex.here(), ex.count)
        stack = [[]]
        paths = []
        while stack:
            prefix = stack.pop()
            self.restore(base)
            ex = Explorer(name, prefix)
            ex.forced = []
            self.explorers.append(ex)
            kind, val = 'normal', None
            try:
                val = fn()
            except Ret as r:
                kind, val = 'return', r.v
            except Brk:
                kind = 'break'
            except Cont:
                kind = 'continue'
            except PyRaise as r:
                kind, val = 'raise', r.exc
            except StreamExit as r:
                kind, val = 'exit', r
            except Infeasible:
                kind = None
            finally:
                self.explorers.pop()
            stack.extend(reversed(ex.pending))
            if kind:
                paths.append(Path(kind, val, self.snap(), list(self.pc), ex.labels, ex.taken))
            if len(paths) + len(stack) > self.maxpaths:
                raise Unsupported('too many paths')
        self.restore(base)
        return paths

    # -- heap ------------------------------------------------------------------

    def write(self, field, obj, v):
        self.objs[KTerm(obj.t)] = obj
        self.heap[field] = self.heap.get(field, ()) + ((obj.t, obj.fresh, v),)

    def read(self, field, obj):
        """the value written last, or None if the pre-state value is to be used"""
        t = obj.t
        for ent in reversed(self.heap.get(field, ())):
            wt, wf, v = ent
            if isinstance(wt, str):
                r = self.read_bulk(wf, v, t, obj)
                if r is not None:
                    return r
                continue
            if wt.eq(t):
                return (v,)
            if wf != obj.fresh:
                continue
            if disjoint(getattr(self.objs.get(KTerm(wt)), 'cls', None), obj.cls):
                continue
            if wf:
                if wt.decl().eq(t.decl()):
                    pairs = [(a, b) for a, b in zip(wt.children(), t.children()) if not a.eq(b)]
                    if all(z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
                           and not any(a.eq(x) for x in self.iters) for a, b in pairs):
                        return (subst(v, pairs),)
                    raise Unsupported('object of another iteration: %s %s' % (wt, t))
                continue
            if self.decide(wt == t):
                return (v,)
        return None

    def read_bulk(self, bulk, v, t, obj):
        if bulk.fr != obj.fresh or disjoint(bulk.cls, obj.cls):
            return None
        # structural match: the written term with its variables instantiated
        m = {}
        if unify(bulk.term, t, [x for x, _, _ in bulk.binders], m) and len(m) == len(bulk.binders):
            sub = [(x, m[x.get_id()]) for x, _, _ in bulk.binders]
            c = z3.And([z3.substitute(z3.And(lo <= x, x < hi), *sub) for x, lo, hi in bulk.binders]
                       + [z3.substitute(g, *sub) for g in bulk.guards])
            if self.decide(c):
                return (subst(v, sub),)
            if bulk.fr:
                return None
            # else another element may be the same object
        elif bulk.fr:
            return None
        xs = [x for x, _, _ in bulk.binders]
        body = z3.And([z3.And(lo <= x, x < hi) for x, lo, hi in bulk.binders] + list(bulk.guards)
                      + [bulk.term == t])
        if self.decide(z3.Exists(xs, body)):
            sub = [(x, self.fresh(I, 'w')) for x in xs]
            self.assume(z3.substitute(body, *sub))
            return (subst(v, sub),)
        return None

    def content(self, obj):
        """Seq of a list-like object"""
        r = self.read('@seq', obj)
        if r is not None:
            return r[0]
        if obj.fresh:
            return Seq()
        return Seq((whole(self.prelist(obj)),))

    def prelist(self, obj):
        """Base of the contents in the pre-state"""
        t = obj.t
        ety = self.elem_type(obj)
        n = llen(t)
        self.fact_once(n >= 0)
        return Base(('list', KTerm(t)), n, lambda i: self.mkval(ety, at(t, i)))

    def elem_type(self, obj):
        if obj.ety is not None:
            return obj.ety
        ct = getattr(obj.cls, 'qual', obj.cls)
        e = self.schema.get((ct, '@elem'))
        if e is None:
            raise Unsupported('no element type for %s' % ct)
        return e

    def set_content(self, obj, seq):
        self.write('@seq', obj, seq)

    def fact_once(self, f):
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        i = f.ident = f.get_id()
        if i == TRUE_ID:
            return
        for _, g in self.pc:
            try:
                if g.ident == i:
                    return
            except AttributeError:
                g.ident = g.get_id()
                if g.ident == i:
                    return
        self.pc.append((False, f))

    def mkval(self, ty, t):
        """typed value for a pre-state term"""
        if ty == 'str':
            self.fact_once(kindf(t) == 3) if not self.iters_in(t) else None
            return SU(t, 'str')
        if ty == 'optstr' or ty == 'any':
            return SU(t, ty)
        if ty == 'int':
            return SInt(unboxint(t))
        if ty == 'bool':
            return SBool(t == TRUE)
        if ty.startswith('opt:'):
            return SU(t, ty)
        if ty.startswith('obj:'):
            return self.preobj(t, ty[4:])
        if ty.startswith('dict:') or ty.startswith('list:'):
            k, e = ty.split(':', 1)
            return Obj(t, k, False, e)
        raise Unsupported('type %s' % ty)

    def iters_in(self, t):
        return False

    def preobj(self, t, qual):
        cls = self.cls(qual)
        return Obj(t, cls, False)

    def cls(self, qual):
        mod, _, name = qual.rpartition('.')
        v = self.module(mod).env.vars.get(name)
        if not isinstance(v, UserClass):
            raise Unsupported('class %s not found' % qual)
        return v

    def force(self, v):
        """resolve optional objects"""
        if isinstance(v, SU) and v.ty.startswith('opt:'):
            if self.decide(v.t == NONE):
                return None
            return self.mkval(v.ty[4:], v.t)
        if isinstance(v, SU) and v.ty == 'optstr':
            if self.decide(v.t == NONE):
                return None
            self.fact_once(kindf(v.t) == 3)
            return SU(v.t, 'str')
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        return v

    def getfield(self, obj, name):
        """instance field, as 1-tuple, or None if there is none"""
        r = self.read(name, obj)
        if r is not None:
            if isinstance(r[0], Poison):
                raise LoopCarried(r[0].why)
            return r
        if not obj.fresh and isinstance(obj.cls, UserClass):
            ty = self.schema.get((obj.cls.qual, name))
            if ty == 'absent':
                return None
            if ty is not None:
                return (self.prefield(obj, name, ty),)
            if not name.startswith('__') and obj.cls.lookup(name) is None:
                raise Unsupported('field %s of a given %s' % (name, obj.cls.name))
        return None

    def prefield(self, obj, name, ty):
        if callable(ty):
            return ty(self, obj)
        t = uf('fld:' + name, U, U)(obj.t)
        v = self.mkval(ty, t)
        inv = self.class_inv.get((obj.cls.qual, name))
        if inv:
            inv(self, obj, v)
        return v

    # -- dicts -----------------------------------------------------------------

    def dcontent(self, obj):
        r = self.read('@dict', obj)
        if r is not None:
            return r[0]
        if obj.fresh:
            return DVal()
        return DVal(base=obj)

    def set_dcontent(self, obj, d):
        self.write('@dict', obj, d)

    def key_eq(self, a, b):
        return self.lib.eq(self, a, b)

    def dict_find(self, d, k):
        """(value,) or None; forks"""
        if self.listed:
            r = self.lib.own_key(self, d, k)
            if r is not None:
                return r
        for n in range(len(d.ops) - 1, -1, -1):
            op = d.ops[n]
            if op[0] == 'set':
                if self.decide(self.truth(self.key_eq(op[1], k))):
                    return (op[2],)
            elif op[0] == 'del':
                if self.decide(self.truth(self.key_eq(op[1], k))):
                    return None
            elif op[0] == 'over':
                kt = self.term(k)
                if self.decide(dhas(op[1].t, kt)):
                    self.dict_fact(op[1], kt)
                    return (self.mkval(op[1].ety.split('>')[1], dget(op[1].t, kt)),)
            elif op[0] == 'stream':
                r = self.stream_find(op[1], k)
                if r is not None:
                    return r
            elif op[0] == 'group':
                return self.lib.group_find(self, d, n, k)
            else:
                raise Unsupported('dict op ' + op[0])
        if d.base is None:
            return None
        if isinstance(d.base, Mark):
            if d.base.loc in self.havoc_dicts:
                if self.choose():
                    return None
                return (Poison('dict read in loop'),)
            ex = LoopCarried('dict read in loop')
            ex.loc = d.base.loc
            raise ex
        kt = self.term(k)
        if self.decide(dhas(d.base.t, kt)):
            self.dict_fact(d.base, kt)
            return (self.mkval(d.base.ety.split('>')[1], dget(d.base.t, kt)),)
        return None

    def dict_fact(self, base, kt):
        p = dpos(base.t, kt)
        self.fact_once(z3.Implies(dhas(base.t, kt), z3.And(0 <= p, p < dlen(base.t),
                                                         dkey(base.t, p) == kt)))

    def stream_cond(self, fm, k):
        """an iteration sets key k; in terms of fm.var"""
        conds = []
        alike = []
        for leaf in fm.leaves:
            cs = []
            for p in leaf.parts:
                if isinstance(p, FM):
                    c = self.lib.exists(self, p.base, p.var, p.lo, p.hi, self.stream_cond(p, k))
                elif isinstance(p, Lit):
                    c = self.lib.eq(self, p.v[0], k)
                    c = c if not isinstance(c, SBool) else c.t
                    if isinstance(c, bool):
                        c = z3.BoolVal(c)
                else:
                    raise Unsupported('stream lookup')
                cs.append(c)
            if cs:
                conds.append(z3.And(list(leaf.guards) + [z3.Or(cs)]))
            alike.append(z3.simplify(z3.Or(cs)) if cs else None)
        if len(alike) > 1 and all(c is not None and c.eq(alike[0]) for c in alike):
            return alike[0]     # the leaves cover every iteration
        return z3.Or(conds) if conds else z3.BoolVal(False)

    def stream_find(self, fm, k):
        v = fm.var
        m = self.stream_cond(fm, k)
        if z3.is_app(m) and not isinstance(k, str):
            self.fact_once(uf('seen', U, z3.BoolSort())(self.term(k)))   # so that it is found inside quantifiers
        if not self.decide(self.lib.exists(self, fm.base, v, fm.lo, fm.hi, m)):
            return None
        w = self.lib.one_point(m, v)
        only = w is not None
        if not only:
            w = self.fresh(I, 'w')
        self.assume(z3.And(fm.lo <= w, w < fm.hi, z3.substitute(m, (v, w))))
        v2 = fresh_var('q')
        if not only:
            self.assume(z3.ForAll([v2], z3.Implies(z3.And(w < v2, v2 < fm.hi),
                                                   z3.Not(z3.substitute(m, (v, v2))))))
        out = []
        for leaf in fm.leaves:
            if not leaf.parts:
                continue
            g = z3.And([z3.BoolVal(True)] + [z3.substitute(x, (v, w)) for x in leaf.guards])
            out.append((g, leaf))
        for n, (g, leaf) in enumerate(out):
            if n == len(out) - 1 or self.decide(g):
                if n == len(out) - 1:
                    self.assume(g)
                for f in leaf.facts:
                    self.assume(z3.substitute(f, (v, w)))
                fm.base.elem(w)
                parts = subst(leaf.parts, [(v, w)])
                for i in range(len(parts) - 1, -1, -1):
                    p = parts[i]
                    if isinstance(p, FM):
                        r = self.stream_find(p, k)
                        if r is not None:
                            return r
                    elif i == 0 and not any(isinstance(x, FM) for x in parts) or self.decide(self.truth(self.key_eq(p.v[0], k))):
                        return (p.v[1],)
                raise Infeasible()
        raise Infeasible()

    # -- terms -----------------------------------------------------------------

    def term(self, v):
        """U term of a scalar"""
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (str, int, bytes)):
            if isinstance(v, int):
                return boxint(z3.IntVal(v))
            return lit(v)
        if isinstance(v, SU):
            return v.t
        if isinstance(v, SInt):
            self.fact_once(unboxint(boxint(v.t)) == v.t)
            return boxint(v.t)
        if isinstance(v, SBool):
            return z3.If(v.t, TRUE, FALSE)
        if isinstance(v, Obj):
            return v.t
        if isinstance(v, tuple):
            ts = [self.term(x) for x in v]
            return uf('tup%d' % len(ts), *([U] * (len(ts) + 1)))(*ts)
        if isinstance(v, SStr):
            return self.lib.strterm(self, v)
        if isinstance(v, (Func, UserClass, BCls)):
            return lit(('code', getattr(v, 'qual', v.__class__.__name__ + getattr(v, 'name', ''))))
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        raise Unsupported('no term for %r' % (v,))

    def truth(self, v):
        """condition (bool or z3 Bool) for `if v`"""
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, SBool):
            return v.t
        if v is None:
            return False
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SU):
            if v.ty == 'str':
                return v.t != lit('')
            if v.ty == 'optstr':
                return z3.And(v.t != NONE, v.t != lit(''))
            if v.ty.startswith('opt:'):
                x = self.force(v)
                return self.truth(x)
            if v.ty == 'any':
                return uf('truthy', U, B)(v.t)
            raise Unsupported('truth of %r' % v)
        if isinstance(v, SStr):
            return self.lib.str_nonempty(self, v)
        if isinstance(v, Seq):
            return self.lib.seq_nonempty(self, v)
        if isinstance(v, Obj):
            if isinstance(v.cls, UserClass):
                m = v.cls.lookup('__bool__') or v.cls.lookup('__len__')
                if m is None:
                    return True
                if isinstance(m[0], Func):
                    r = self.call(BoundMethod(m[0], v), [], {})
                    return self.truth(r)
                return self.lib.seq_nonempty(self, self.content(v))
            if v.cls in ('list', 'set', 'deque', 'frozenset'):
                return self.lib.seq_nonempty(self, self.content(v))
            if v.cls == 'dict':
                return self.lib.dict_nonempty(self, self.dcontent(v))
            h = self.stubs.get(v.cls, {}).get('len') if isinstance(v.cls, str) else None
            if h is not None:
                return self.truth(h(self, v))
            return True
        if isinstance(v, Poison):
            raise LoopCarried(v.why)
        if isinstance(v, Gen):
            return True
        return True

    # -- modules ---------------------------------------------------------------

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        root = name.split('.')[0]
        if root == 'xigt' and '.' in name:
            self.module(name.rpartition('.')[0])     # the package first, as Python does
            if name in self.modules:
                return self.modules[name]
        if root == 'xigt':
            p = os.path.join(self.repo, *name.split('.'))
            path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
            if not os.path.exists(path):
                raise Unsupported('no module ' + name)
        elif name in self.extra_modules:
            path = self.extra_modules[name]
        else:
            m = self.modules[name] = ExtModule(name)
            return m
        src = open(path).read()
        tree = ast.parse(src, path)
        env = Env(qual=name)
        env.vars['__name__'] = name
        env.vars['__file__'] = path
        m = self.modules[name] = Module(name, env)
        ex = Explorer('module:' + name, [])
        ex.forced = []
        saved = self.explorers
        if saved and saved[-1].name and not saved[-1].name.startswith('module:'):
            raise Unsupported('module %s loaded late' % name)
        self.explorers = saved + [ex]
        self.envs.append(env)
        self.loading = getattr(self, 'loading', 0) + 1
        try:
            self.exec_block(tree.body, env)
        except PyRaise as r:
            self.modules.pop(name)
            raise Unsupported('module %s raises %r' % (name, r.exc))
        except Unsupported:
            self.modules.pop(name)
            raise
        finally:
            self.explorers = saved
            self.loading -= 1
        if ex.pending:
            self.modules.pop(name)
            raise Unsupported('module %s: fork at import' % name)
        if '.' in name:
            self.modules[name.rpartition('.')[0]].env.vars[name.rpartition('.')[2]] = m
        return m

    # -- statements ------------------------------------------------------------

    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'x_' + st.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s' % st.__class__.__name__)
        try:
            return m(st, env)
        except Unsupported as ex:
            if not getattr(ex, 'where', None):
                ex.where = '%s:%s' % (env.qual, getattr(st, 'lineno', '?'))
            raise

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Global(self, st, env):
        pass

    x_Nonlocal = x_Global

    def x_Return(self, st, env):
        raise Ret(self.ev(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise Brk()

    def x_Continue(self, st, env):
        raise Cont()

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            get = lambda: self.name_lookup(t.id, env)
            put = lambda v: self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            get = lambda: self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        else:
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            get = lambda: self.lib.getitem(self, o, k)
            put = lambda v: self.lib.setitem(self, o, k, v)
        a = get()
        b = self.ev(st.value, env)
        put(self.lib.augop(self, st.op.__class__.__name__, a, b))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            xs = self.lib.unpack(self, v, n)
            for e, x in zip(t.elts, xs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsupported('assignment to %s' % t.__class__.__name__)

    def setvar(self, name, v, env):
        e = env
        if env.locals is not None and name not in env.locals:
            e = env.parent   # nonlocal / global
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('assignment to unknown outer variable %s' % name)
        e.vars[name] = v

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                raise Unsupported('del attribute')

    def x_If(self, st, env):
        if self.decide(self.truth(self.ev(st.test, env)), 'line %d' % st.lineno):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.decide(self.truth(self.ev(st.test, env))):
            self.raise_(AssertionError)

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, 'vars', {}).get('@exc')
            e = env
            while e is not None and cur is None:
                cur = e.vars.get('@exc')
                e = e.parent
            if cur is None:
                raise Unsupported('raise without exception')
            raise PyRaise(cur)
        v = self.ev(st.exc, env)
        if isinstance(v, (UserClass, BCls)):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def raise_(self, pycls, *args):
        raise PyRaise(self.mkexc(BCls(pycls), args))

    def mkexc(self, cls, args):
        o = self.alloc(cls)
        self.write('args', o, tuple(args))
        return o

    def exc_match(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(exc, c) for c in cls)
        return issubclass(exc.cls.py, cls.py)

    def x_Try(self, st, env):
        if st.finalbody:
            try:
                self.try_body(st, env)
            except (PyRaise, Brk, Cont, Ret):
                self.exec_block(st.finalbody, env)
                raise
            self.exec_block(st.finalbody, env)
            return
        self.try_body(st, env)

    def try_body(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyRaise as r:
            for h in st.handlers:
                if h.type is None or self.exc_match(r.exc, self.ev(h.type, env)):
                    if h.name:
                        self.setvar(h.name, r.exc, env)
                    old = env.vars.get('@exc')
                    env.vars['@exc'] = r.exc
                    self.exec_block(h.body, env)
                    if old is None:
                        env.vars.pop('@exc', None)
                    else:
                        env.vars['@exc'] = old
                    return
            raise
        else:
            self.exec_block(st.orelse, env)

    def x_With(self, st, env):
        for item in st.items:
            cm = self.ev(item.context_expr, env)
            v = self.lib.enter(self, cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        self.exec_block(st.body, env)
        for item in st.items:
            pass

    def x_Import(self, st, env):
        for al in st.names:
            m = self.module(al.name)
            if al.asname:
                env.vars[al.asname] = m
            else:
                env.vars[al.name.split('.')[0]] = self.module(al.name.split('.')[0])

    def x_ImportFrom(self, st, env):
        if st.level:
            pkg = env
            while pkg.parent is not None:
                pkg = pkg.parent
            base = pkg.qual.split('.')
            isp = pkg.vars.get('__file__', '').endswith('__init__.py')
            base = base[:len(base) - st.level + (1 if isp else 0)]
            modname = '.'.join(base + ([st.module] if st.module else []))
        else:
            modname = st.module
        if modname == '__future__':
            return
        m = self.module(modname)
        for al in st.names:
            if al.name == '*':
                if not isinstance(m, Module):
                    raise Unsupported('import * from ' + modname)
                for k, v in list(m.env.vars.items()):
                    if not k.startswith('_'):
                        env.vars[k] = v
                continue
            if isinstance(m, Module):
                if al.name in m.env.vars:
                    v = m.env.vars[al.name]
                else:
                    v = self.module(modname + '.' + al.name)
            else:
                v = self.lib.extattr(self, modname, al.name)
            env.vars[al.asname or al.name] = v

    def x_FunctionDef(self, st, env):
        f = self.mkfunc(st, env, st.name)
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                f = Property(f)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                p = self.name_lookup(d.value.id, env)
                f = Property(p.fget, f)
            elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                f = StaticM(f)
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                f = ClassM(f)
            else:
                raise Unsupported('decorator')
        self.setvar(st.name, f, env)

    def mkfunc(self, node, env, name):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        e = env
        while e.parent is not None:
            e = e.parent
        return Func(name, node, env, defaults, kwd, '%s.%s' % (env.qual, name), e.qual)

    def x_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        bases = [self.lib.stdclass(b) for b in bases]
        for b in bases:
            if not isinstance(b, (UserClass, BCls)):
                raise Unsupported('base class %r' % b)
        cenv = Env(env, None, '%s.%s' % (env.qual, st.name))
        self.envs.append(cenv)
        self.exec_block(st.body, cenv)
        attrs = dict(cenv.vars)
        for v in attrs.values():
            if isinstance(v, Func):
                v.cls = None
        c = UserClass(st.name, bases, attrs, '%s.%s' % (env.qual, st.name))
        for v in attrs.values():
            for f in ([v] if isinstance(v, Func) else [v.fget, v.fset] if isinstance(v, Property) else
                      [v.f] if isinstance(v, (StaticM, ClassM)) else []):
                if isinstance(f, Func):
                    f.cls = c
                    f.env = env if f.env is cenv else f.env
        self.setvar(st.name, c, env)

    def x_For(self, st, env):
        self.for_loop(st, env)
        h = self.after_loop.get(env.role)
        if h is not None:
            h(self, st, env)

    def for_loop(self, st, env):
        rule = self.loop_rules.get(env.role)
        it = self.ev(st.iter, env)
        if rule is not None:
            if rule(self, st, env, it):
                return

        def body(v):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except Cont:
                pass
        here = self.snap() if self.loop_fallback else None
        last = self.last_value(st, it, env)
        try:
            self.stream(it, body)
            if last is not None and isinstance(env.vars.get(st.target.id), Poison):
                env.vars[st.target.id] = last
        except Brk:
            return
        except Unsupported:
            if not self.loop_fallback:
                raise
            self.restore(here)
            try:
                for fb in self.loop_fallback:
                    if fb(self, st, env, it, body):
                        break
                    self.restore(here)
                else:
                    raise
            except Brk:
                return
        self.exec_block(st.orelse, env)

    def last_value(self, st, it, env):
        """of the target of a loop over a sequence"""
        if not isinstance(st.target, ast.Name) or isinstance(it, Gen):
            return None
        if not isinstance(it, Seq) and not (isinstance(it, Obj) and (
                it.cls in ('list', 'deque') or isinstance(it.cls, str) and {'len', 'iter'} <= set(self.stubs.get(it.cls, ())))):
            return None
        before = env.vars.get(st.target.id)
        if before is None or isinstance(before, Poison):
            before = Poison('assigned in a loop')
        if any(isinstance(n, ast.Name) and n.id == st.target.id and isinstance(n.ctx, (ast.Store, ast.Del))
               for b in st.body for n in ast.walk(b)):
            return None
        try:
            ps = self.lib.iterate(self, it).parts
        except Unsupported:
            return None
        if len(ps) == 1 and isinstance(ps[0], FM) and ps[0].identity:
            return Last(ps[0], before)
        return None

    def stream(self, it, body):
        """run body for every element of an iterable; body may raise Brk/Ret/PyRaise"""
        it = self.force(it)
        if isinstance(it, Obj) and isinstance(it.cls, UserClass):
            m = it.cls.lookup('__iter__')
            if m is not None and isinstance(m[0], Func):
                it = self.call(m[0], [it], {})
        if not isinstance(it, Gen):
            self.run_parts(self.lib.iterate(self, it).parts, body)
            return
        if self.read('@gen', it.obj) is not None:
            raise Unsupported('generator used again')
        self.write('@gen', it.obj, True)
        token = self.name('stream')

        def consumer(v):
            try:
                body(v)
            except (Brk, Ret, Cont, PyRaise) as ex:
                raise StreamExit(token, ex)
        try:
            it.start(consumer)
        except StreamExit as s:
            if s.token == token:
                raise s.exc
            raise

    def x_While(self, st, env):
        rule = self.loop_rules.get(env.role)
        if rule is not None:
            if rule(self, st, env, None):
                return
        n = 0
        while True:
            c = self.truth(self.ev(st.test, env))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
                elif not self.possible(c):
                    c = False
                elif not self.possible(z3.Not(c)):
                    c = True
                else:
                    raise Unsupported('while loop without invariant')
            if not c:
                break
            n += 1
            if n > 40:
                raise Unsupported('while loop: unrolled 40 times')
            try:
                self.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                return
        self.exec_block(st.orelse, env)

    # -- loops over sequences ----------------------------------------------------

    def run_parts(self, parts, body, env=None):
        for p in parts:
            if isinstance(p, Lit):
                body(p.v)
            elif isinstance(p, FM):
                self.run_fm(p, body)
            else:
                raise LoopCarried('iteration over an accumulator')

    def enter_leaf(self, fm, idx, then):
        """continue with the parts of the leaf that applies at index idx"""
        n = len(fm.leaves)
        for k, leaf in enumerate(fm.leaves):
            sub = [(fm.var, idx)]
            g = [z3.substitute(x, *sub) for x in leaf.guards]
            c = z3.And(g) if g else True
            if k == n - 1:
                if c is not True:
                    self.assume(c)
                    if not self.possible():
                        raise Infeasible()
            elif not self.decide(c):
                continue
            for f in leaf.facts:
                self.assume(z3.substitute(f, *sub))
            el = fm.base.elem(idx)       # also for the facts that come with it
            if fm.identity:
                return then((Lit(el),))
            return then(tuple(subst(p, sub) for p in leaf.parts))

    def run_fm(self, fm, body):
        if not self.possible(fm.lo < fm.hi):
            return
        if self.keyed is not None and self.lib.keyed_iteration(self, fm, body):
            return
        # a single iteration?
        if self.implied(fm.hi == fm.lo + 1, 300):
            self.enter_leaf(fm, fm.lo, lambda parts: self.run_parts(parts, body))
            return
        base = self.snap()
        var = z3.Int(self.name('i'))
        npc = len(self.pc)

        def iteration():
            self.iters.append(var)
            self.assume(z3.And(fm.lo <= var, var < fm.hi))
            self.elem_inv(fm, var)
            n = len(self.pc)
            self.mark_pc = n
            self.enter_leaf(fm, var, lambda parts: self.run_parts(parts, body))

        marks = {}
        ints = {}
        cands = {}       # dicts that are read in the loop: guess of what an iteration adds
        for attempt in range(8):
            def it():
                self.set_marks(marks)
                iteration()
            try:
                paths = self.explore(it)
            except LoopCarried as ex:
                loc = getattr(ex, 'loc', None)
                if loc not in marks or loc in cands or loc in self.havoc_dicts:
                    raise
                self.restore(base)
                self.havoc_dicts.add(loc)
                try:
                    cands[loc] = self.guess(it, loc, npc, var, fm)
                finally:
                    self.havoc_dicts.discard(loc)
                    self.restore(base)
                if cands[loc] is None:
                    raise
                init = marks[loc][0]
                lo, leaves = fm.lo, cands[loc]
                q = fresh_var('q')
                leaves = [Leaf([z3.substitute(x, (var, q)) for x in l.guards], [z3.substitute(x, (var, q)) for x in l.facts],
                               subst(l.parts, [(var, q)])) for l in leaves]
                cands[loc] = leaves, q
                marks[loc] = (init, DVal(init.base, init.ops + (('stream', FM(fm.base, lo, var, q, leaves)),), init.factory))
                continue
            new = self.written(base, paths, var, marks)
            if not new - set(marks):
                # closed forms of counters
                upd = False
                for loc, (init, mark) in list(marks.items()):
                    if isinstance(mark, SInt) and loc not in ints:
                        d = self.deltas(loc, mark, paths, npc, fm, var)
                        ints[loc] = d
                        if d is None:
                            self.no_use(mark.t, loc, paths, npc)
                        if d is not None:
                            t = z3.simplify(self.int_term(init) + self.total(d, fm.lo, var))
                            marks[loc] = (init, SInt(t))
                            upd = True
                self.restore(base)
                if not upd:
                    break
                continue
            for loc in new:
                if loc not in marks:
                    marks[loc] = self.mk_mark(loc, base)
        else:
            raise Unsupported('loop: written locations do not settle')
        exits = [p for p in paths if p.kind not in ('normal', 'continue')]
        normal = [p for p in paths if p.kind in ('normal', 'continue')]
        for loc in cands:
            self.confirm(loc, cands[loc], marks[loc], normal, npc, var, fm)
        self.restore(base)
        leafs = []
        for p in normal:
            g, f = self.leaf_pc(p, npc, var, fm)
            leafs.append((p, g, f))
        if not exits:
            self.apply_summary(fm, fm.lo, fm.hi, var, leafs, marks, base, ints)
            return
        conds = []
        for p in exits:
            g, f = self.leaf_pc(p, npc, var, fm)
            conds.append(z3.And(g) if g else z3.BoolVal(True))
        ex = z3.simplify(z3.Or(conds))
        q = fresh_var('q')
        if self.choose('loop exit'):
            # no iteration leaves the loop
            if z3.is_true(ex):
                self.assume(fm.lo >= fm.hi)
            self.assume(z3.ForAll([q], z3.Implies(z3.And(fm.lo <= q, q < fm.hi),
                                                  z3.Not(z3.substitute(ex, (var, q))))), guard=True)
            if not self.possible():
                raise Infeasible()
            self.apply_summary(fm, fm.lo, fm.hi, var, leafs, marks, base, ints)
            return
        k = self.fresh(I, 'exit')
        self.assume(z3.And(fm.lo <= k, k < fm.hi, z3.substitute(ex, (var, k))), guard=True)
        if z3.is_true(ex):
            self.assume(k == fm.lo)
        self.assume(z3.ForAll([q], z3.Implies(z3.And(fm.lo <= q, q < k),
                                              z3.Not(z3.substitute(ex, (var, q))))), guard=True)
        if not self.possible():
            raise Infeasible()
        self.apply_summary(fm, fm.lo, k, var, leafs, marks, base, ints)
        self.elem_inv(fm, k)
        self.enter_leaf(fm, k, lambda parts: self.run_parts(parts, body))
        raise Infeasible()   # must have left the loop

    def guess(self, it, loc, npc, var, fm):
        """what an iteration adds to a dict, whatever it reads there; None: it depends"""
        leaves = []
        for p in self.explore(it):
            if p.kind not in ('normal', 'continue'):
                continue
            self.restore(p.snap)
            v = self.locval(p, loc)
            if not isinstance(v, DVal) or not isinstance(v.base, Mark) or any(op[0] not in ('set', 'stream') for op in v.ops):
                return None
            g, f = self.leaf_pc(p, npc, var, fm)
            parts = [Lit(tuple(op[1:])) if op[0] == 'set' else op[1] for op in v.ops]
            for l in leaves:
                if len(l.guards) == len(g) and all(a.eq(b) for a, b in zip(l.guards, g)):
                    if repr(l.parts) != repr(tuple(parts)):
                        return None
                    break
            else:
                leaves.append(Leaf(g, f, parts))
        return leaves

    def confirm(self, loc, cand, mark, paths, npc, var, fm):
        """every iteration adds what was guessed"""
        leaves, q = cand
        m = mark[1]
        for p in paths:
            self.restore(p.snap)
            v = self.locval(p, loc)
            if v is None:
                v = m
            if not isinstance(v, DVal) or v.ops[:len(m.ops)] != m.ops or any(op[0] not in ('set', 'stream') for op in v.ops):
                raise LoopCarried('dict read in loop')
            parts = Seq([Lit(tuple(op[1:])) if op[0] == 'set' else op[1] for op in v.ops[len(m.ops):]])

            def same():
                r = []
                self.enter_leaf(FM(fm.base, fm.lo, fm.hi, q, leaves), var, lambda ps: r.append(Seq(ps)))
                return bool(self.lib.seq_same(self, r[0].parts, parts.parts))
            if not all(x.value for x in self.explore(same)):
                raise LoopCarried('dict read in loop: what is added depends on it')
            self.restore(p.snap)

    def elem_inv(self, fm, idx):
        pass

    def leaf_pc(self, p, npc, var, fm):
        """guards and facts that path p added to the state before the loop"""
        g, f = [], []
        for isg, x in p.pc[npc:]:
            (g if isg else f).append(x)
        # the range is no guard
        return g, f

    def set_marks(self, marks):
        for loc, (init, mark) in marks.items():
            if loc[0] == 'var':
                env = self.envs[loc[1]]
                if mark is ABSENT:
                    env.vars.pop(loc[2], None)
                else:
                    env.vars[loc[2]] = mark
            else:
                _, field, t, fr = loc
                self.heap[field] = self.heap.get(field, ()) + ((t.t, fr, mark),)

    def mk_mark(self, loc, base):
        if loc[0] == 'var':
            vs = base[3][loc[1]]
            if loc[2] not in vs:
                return (None, ABSENT)
            init = vs[loc[2]]
            what = loc[2]
        else:
            _, field, t, fr = loc
            what = field
            here = self.snap()
            self.restore(base)
            o = Obj(t.t, None, fr)
            init = None
            for ent in reversed(self.heap.get(field, ())):
                if isinstance(ent[0], str):
                    raise Unsupported('loop after bulk write')
                if ent[0].eq(t.t):
                    init = ent[2]
                    break
                if not ent[1] and not fr:
                    raise Unsupported('possible alias of a location written in a loop')
            else:
                if not fr:
                    init = ('pre', field)
                elif field == '@seq':
                    init = Seq()
                elif field == '@dict':
                    init = DVal()
                else:
                    init = ('unset', field)
            self.restore(here)
        if isinstance(init, Seq):
            return (init, Seq((Mark(loc),)))
        if isinstance(init, DVal):
            return (init, DVal(base=Mark(loc), factory=init.factory))
        if init == ('pre', '@seq'):
            o = self.objs.get(loc[2])
            if o is None:
                raise Unsupported('pre-state list written in a loop')
            return (Seq((whole(self.prelist(o)),)), Seq((Mark(loc),)))
        if init == ('pre', '@dict'):
            o = self.objs.get(loc[2])
            if o is None:
                raise Unsupported('pre-state dict written in a loop')
            return (DVal(base=o), DVal(base=Mark(loc)))
        if isinstance(init, (int, SInt)) and not isinstance(init, bool):
            return (init, SInt(z3.Int('m!%d' % self.intern.setdefault(('mark', loc), len(self.intern)))))
        if isinstance(init, (str, SStr)) or isinstance(init, SU) and init.ty == 'str':
            return (init, SStr((Mark(loc),)))
        return (init, Poison('%s is carried from one iteration to the next' % what))

    def no_use(self, m, loc, paths, npc):
        """a counter without closed form may only be counted up"""
        for p in paths:
            for _, x in p.pc[npc:]:
                if has_var(x, m):
                    raise LoopCarried('counter read in the loop')
            vs = p.snap[3]
            for n, d in enumerate(vs):
                for k, v in d.items():
                    if ('var', n, k) != loc and mentions(v, m):
                        raise LoopCarried('counter read in the loop')
            for field, ents in p.snap[1].items():
                for t, fr, v in ents:
                    if not (loc[0] == 'heap' and loc[1] == field and not isinstance(t, str) and t.eq(loc[2].t)) \
                            and mentions(v, m):
                        raise LoopCarried('counter read in the loop')

    def int_term(self, v):
        return z3.IntVal(v) if isinstance(v, int) else v.t

    def locval(self, p, loc):
        """value of a location at the end of path p (state of p restored)"""
        if loc[0] == 'var':
            return self.envs[loc[1]].vars.get(loc[2], ABSENT)
        _, field, t, fr = loc
        for ent in reversed(self.heap.get(field, ())):
            if isinstance(ent[0], str):
                continue
            if ent[0].eq(t.t):
                return ent[2]
            if not ent[1] and not fr:
                raise Unsupported('possible alias of a location written in a loop')
        return None

    def deltas(self, loc, mark, paths, npc, fm, var):
        """what an iteration adds to a counter: a number, or (term, var), or None"""
        ds = []
        for p in paths:
            if p.kind not in ('normal', 'continue'):
                continue
            self.restore(p.snap)
            v = self.locval(p, loc)
            if not isinstance(v, (int, SInt)) or isinstance(v, bool):
                return None
            d = z3.simplify(self.int_term(v) - mark.t)
            if has_var(d, mark.t):
                return None
            g, f = self.leaf_pc(p, npc, var, fm)
            if any(has_var(x, mark.t) for x in g):
                return None
            ds.append((g, d))
        if not ds:
            return None
        if len({d.get_id() for _, d in ds}) == 1 and z3.is_int_value(ds[0][1]):
            return ds[0][1].as_long()
        t = ds[-1][1]
        for g, d in reversed(ds[:-1]):
            t = z3.If(z3.And(g) if g else z3.BoolVal(True), d, t)
        return (z3.simplify(t, som=True), var)

    def total(self, d, lo, hi):
        """the sum of d over lo..hi-1"""
        if isinstance(d, int):
            return d * (hi - lo)
        return self.sum_term(d[0], d[1], lo, hi)

    def sum_term(self, t, var, lo, hi):
        if not has_var(t, var):
            return t * (hi - lo)
        if z3.is_add(t):
            return z3.Sum([self.sum_term(x, var, lo, hi) for x in t.children()])
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            return t.arg(0) * self.sum_term(t.arg(1), var, lo, hi)
        consts, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                raise LoopCarried('sum over a quantified term')
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(var):
                consts.append(x)
            stack.extend(reversed(x.children()))
        name = z3.substitute(t, (var, z3.Int('#')), *[(c, z3.Const('#%d' % n, c.sort())) for n, c in enumerate(consts)])
        F = uf('sum ' + name.sexpr(), *([c.sort() for c in consts] + [I, I]))
        a, b = F(*consts, lo), F(*consts, hi)
        n0 = len(self.pc)
        self.pc.append((False, z3.And(lo <= var, var < hi)))
        pos = self.implied(t >= 0, 300)
        del self.pc[n0:]
        if pos:
            self.fact_once(z3.Implies(lo <= hi, a <= b))
        return b - a

    def written(self, base, paths, var, marks):
        """locations (existing before the loop) written by the paths"""
        out = set()
        bheap, benvs, bvars = base[1], base[2], base[3]
        for p in paths:
            heap, envs, vs = p.snap[1], p.snap[2], p.snap[3]
            for n, e in enumerate(benvs):
                for k, v in vs[n].items():
                    if k.startswith('@') and k != '@out':
                        continue
                    loc = ('var', n, k)
                    if k in bvars[n]:
                        if v is not bvars[n][k] and not (loc in marks and v is marks[loc][1]):
                            out.add(loc)
                    else:
                        out.add(loc)
            for field, ents in heap.items():
                b = bheap.get(field, ())
                new = ents[len(b):]
                for t, fr, v in new:
                    if isinstance(t, str):
                        continue
                    if has_var(t, var):
                        continue
                    if fr and self.allocated_in(t, base):
                        continue
                    out.add(('heap', field, KTerm(t), fr))
        return out

    def allocated_in(self, t, base):
        """a fresh object without the iteration variable can only stem from before the loop"""
        return False

    def apply_summary(self, fm, lo, hi, var, leafs, marks, base, ints):
        """set the state to the one after the iterations lo..hi-1"""
        nheap = {}
        vals = {loc: [] for loc in marks}
        bheap = base[1]
        newents = {}
        here = self.snap()
        for p, g, f in leafs:
            self.restore(p.snap)
            for loc in marks:
                vals[loc].append((g, f, self.locval(p, loc)))
            for field, ents in self.heap.items():
                n0 = len(bheap.get(field, ()))
                for t, fr, v in ents[n0:]:
                    if isinstance(t, str):
                        inner = Bulk(fr.binders + ((var, lo, hi),), fr.guards + tuple(g), fr.term, fr.fr, fr.cls)
                        if not has_var(fr.term, var) and mentions(v, var):
                            v = Poison('written by several iterations')
                        newents.setdefault(field, []).append((t, inner, v))
                    elif has_var(t, var):
                        if fr:
                            newents.setdefault(field, []).append((t, fr, v))
                        else:
                            newents.setdefault(field, []).append(
                                ('bulk', Bulk(((var, lo, hi),), tuple(g), t, fr,
                                                getattr(self.objs.get(KTerm(t)), 'cls', None)), v))
        self.restore(here)
        for field, ents in newents.items():
            self.heap[field] = self.heap.get(field, ()) + tuple(ents)
        for loc, (init, mark) in marks.items():
            v = self.combine(fm, lo, hi, var, loc, init, mark, vals[loc], ints)
            if v is self:    # unchanged
                continue
            if loc[0] == 'var':
                self.envs[loc[1]].vars[loc[2]] = v
            else:
                self.heap[loc[1]] = self.heap.get(loc[1], ()) + ((loc[2].t, loc[3], v),)

    def combine(self, fm, lo, hi, var, loc, init, mark, vals, ints):
        def unchanged(v):
            if v is mark:
                return True
            if isinstance(mark, Seq) and isinstance(v, Seq):
                return len(v.parts) == 1 and isinstance(v.parts[0], Mark) and v.parts[0].loc == loc
            if isinstance(mark, SInt) and isinstance(v, SInt):
                return v.t.eq(mark.t)
            return False
        if not vals or all(unchanged(v) for _, _, v in vals):
            return self
        if isinstance(mark, Seq):
            leaves = []
            for g, f, v in vals:
                if not (isinstance(v, Seq) and v.parts and isinstance(v.parts[0], Mark)
                        and v.parts[0].loc == loc) or any(isinstance(x, Mark) for x in v.parts[1:]):
                    raise LoopCarried('accumulator is not only appended to')
                leaves.append(some_exit(g, f, v.parts[1:]) if self.close_exits else Leaf(g, f, v.parts[1:]))
            return Seq(init.parts + (FM(fm.base, lo, hi, var, leaves),))
        if isinstance(mark, SStr):
            leaves = []
            for g, f, v in vals:
                if not (isinstance(v, SStr) and v.parts and isinstance(v.parts[0], Mark)
                        and v.parts[0].loc == loc) or any(isinstance(x, Mark) for x in v.parts[1:]):
                    return Poison('string carried from one iteration to the next')
                leaves.append(Leaf(g, f, v.parts[1:]))
            ip = init.parts if isinstance(init, SStr) else (() if init == '' else (Lit(init),))
            return SStr(ip + (FM(fm.base, lo, hi, var, leaves),))
        if isinstance(mark, DVal) and not isinstance(mark.base, Mark) or isinstance(mark, DVal) and mark.ops:
            # confirmed guess
            (_, p), = mark.ops[len(init.ops):]
            return DVal(init.base, init.ops + (('stream', FM(p.base, lo, hi, p.var, p.leaves)),), init.factory)
        if isinstance(mark, DVal):
            kinds = set()
            leaves = []
            for g, f, v in vals:
                if not (isinstance(v, DVal) and isinstance(v.base, Mark) and v.base.loc == loc):
                    raise LoopCarried('dict replaced in loop')
                parts = []
                for op in v.ops:
                    if op[0] in ('set', 'group1'):
                        kinds.add('stream' if op[0] == 'set' else 'group')
                        parts.append(Lit(tuple(op[1:])))
                    elif op[0] in ('stream', 'group'):
                        kinds.add(op[0])
                        parts.append(op[1])
                    else:
                        raise LoopCarried('dict op %s in loop' % op[0])
                leaves.append(some_exit(g, f, parts) if self.close_exits else Leaf(g, f, parts))
            if len(kinds) != 1:
                raise LoopCarried('mixed dict operations in a loop')
            return DVal(init.base, init.ops + ((kinds.pop(), FM(fm.base, lo, hi, var, leaves)),),
                        init.factory)
        if isinstance(mark, SInt):
            d = ints.get(loc)
            if d is not None:
                return SInt(z3.simplify(self.int_term(init) + self.total(d, lo, hi)))
            return Poison('counter')
        # flags: every path leaves it alone or sets the same constant
        consts = [v for _, _, v in vals if not unchanged(v)]
        if mark is not ABSENT and all(isinstance(v, (bool, int, str, type(None))) for v in consts) \
                and len({(type(v), v) for v in consts}) == 1 and not isinstance(init, (Poison, tuple)):
            gs = [z3.And(g) if g else z3.BoolVal(True) for g, _, v in vals if not unchanged(v)]
            ex = z3.Exists([var], z3.And(lo <= var, var < hi, z3.Or(gs)))
            return consts[0] if self.decide(ex) else init
        if mark is ABSENT:
            return Poison('assigned in a loop')
        return Poison('assigned in a loop (last iteration)')

    # -- expressions -------------------------------------------------------------

    def ev(self, n, env):
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s' % n.__class__.__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        if isinstance(n.value, (float, complex)) or n.value is Ellipsis:
            raise Unsupported('constant %r' % (n.value,))
        return n.value

    def e_Name(self, n, env):
        return self.name_lookup(n.id, env)

    def name_lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Last):
                    v = e.vars[name] = v.fm.base.elem(z3.simplify(v.fm.hi - 1)) if self.decide(v.fm.lo < v.fm.hi) else v.before
                if isinstance(v, Poison):
                    raise LoopCarried('%s: %s' % (name, v.why))
                return v
            if e.locals is not None and name in e.locals:
                if e is env:
                    self.raise_(UnboundLocalError, name)
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        raise Unsupported('name %s' % name)

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        return self.lib.getitem(self, self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        return self.lib.Slice(*[self.ev(x, env) if x is not None else None
                                for x in (n.lower, n.upper, n.step)])

    def e_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = self.lib.iterate(self, self.ev(e.value, env))
                if not all(isinstance(p, Lit) for p in s.parts):
                    raise Unsupported('starred of unknown length')
                out.extend(p.v for p in s.parts)
            else:
                out.append(self.ev(e, env))
        return tuple(out)

    def e_List(self, n, env):
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts.extend(self.lib.iterate(self, self.ev(e.value, env)).parts)
            else:
                parts.append(Lit(self.ev(e, env)))
        return self.newlist(Seq(parts))

    def newlist(self, seq, cls='list'):
        o = self.alloc(cls)
        self.set_content(o, seq)
        return o

    def newdict(self, d):
        o = self.alloc('dict')
        self.set_dcontent(o, d)
        return o

    def e_Set(self, n, env):
        return self.newlist(Seq([Lit(self.ev(e, env)) for e in n.elts]), 'set')

    def e_Dict(self, n, env):
        o = self.newdict(DVal())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, o, self.ev(v, env))
            else:
                self.lib.setitem(self, o, self.ev(k, env), self.ev(v, env))
        return o

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env, '<lambda>')

    def e_IfExp(self, n, env):
        if self.decide(self.truth(self.ev(n.test, env))):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def e_BoolOp(self, n, env):
        v = None
        for k, e in enumerate(n.values):
            v = self.ev(e, env)
            if k == len(n.values) - 1:
                return v
            if isinstance(v, (SBool, z3.BoolRef)):
                c = self.decide(self.truth(v))
                v = c
            else:
                c = self.decide(self.truth(v))
            if isinstance(n.op, ast.And) and not c:
                return v
            if isinstance(n.op, ast.Or) and c:
                if isinstance(v, SU) and v.ty == 'optstr':
                    v = SU(v.t, 'str')
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else SBool(z3.Not(c))
        if isinstance(n.op, ast.USub):
            return -v if isinstance(v, int) else SInt(-v.t)
        raise Unsupported('unary operator')

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.lib.binop(self, n.op.__class__.__name__, a, b)

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        res = True
        for op, e in zip(n.ops, n.comparators):
            b = self.ev(e, env)
            r = self.lib.compare(self, op.__class__.__name__, a, b)
            if len(n.ops) == 1:
                return r
            if not self.decide(self.truth(r)):
                return False
            a = b
        return res

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    x = self.ev(v.value, env)
                    parts.append(self.lib.opaque_str(self, 'fmt', x))
                    continue
                x = self.ev(v.value, env)
                parts.append(self.lib.to_str(self, x) if v.conversion == -1
                             else self.lib.opaque_str(self, 'repr', x))
        return self.lib.concat(self, parts)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.keywords:
            return self.super_(n, env)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.lib.iterate(self, self.ev(a.value, env))
                if all(isinstance(p, Lit) for p in s.parts):
                    args.extend(p.v for p in s.parts)
                else:
                    args.append(self.lib.StarSeq(s))
            elif isinstance(f, BCls) and f.py in (dict, list, set, tuple) and len(n.args) == 1 \
                    and not n.keywords:
                args.append(self.or_empty(a, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                d = self.dcontent(v)
                if d.base is not None or any(op[0] != 'set' or not isinstance(op[1], str)
                                             for op in d.ops):
                    raise Unsupported('** of unknown dict')
                for op in d.ops:
                    kw[op[1]] = op[2]
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def super_(self, n, env):
        args = [self.ev(a, env) for a in n.args]
        if not args:
            e = env
            while e is not None and getattr(e, 'func', None) is None:
                e = e.parent
            if e is None or getattr(e.func, 'cls', None) is None or not e.func.node.args.args:
                raise Unsupported('super()')
            args = [e.func.cls, e.vars[e.func.node.args.args[0].arg]]
        c, o = args[0], self.force(args[1])
        if not (isinstance(c, UserClass) and isinstance(o, Obj) and isinstance(o.cls, UserClass) and c in o.cls.mro):
            raise Unsupported('super of %r' % (c,))
        return Super(c, o)

    def or_empty(self, n, env):
        """argument of a copying constructor: a builtin dict or list `x` and `x or []` give
        equal copies"""
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) == 2:
            e = n.values[1]
            if isinstance(e, (ast.List, ast.Tuple)) and not e.elts or isinstance(e, ast.Dict) and not e.keys:
                v = self.ev(n.values[0], env)
                if isinstance(v, Obj) and v.cls in ('dict', 'list'):
                    return v
                if v is None:
                    return self.ev(e, env)
                return v if self.decide(self.truth(v)) else self.ev(e, env)
        return self.ev(n, env)

    def e_ListComp(self, n, env):
        return self.newlist(self.comp(n, env, lambda e: Lit(self.ev(n.elt, e))))

    def e_SetComp(self, n, env):
        return self.newlist(self.comp(n, env, lambda e: Lit(self.ev(n.elt, e))), 'set')

    def e_GeneratorExp(self, n, env):
        it = self.ev(n.generators[0].iter, env)

        def start(consumer):
            self.comp(n, env, lambda e: consumer(self.ev(n.elt, e)), it)
        return Gen(start, self.alloc('generator'), 'genexp')

    def e_DictComp(self, n, env):
        o = self.newdict(DVal())

        def add(e):
            self.lib.setitem(self, o, self.ev(n.key, e), self.ev(n.value, e))
            return None
        self.comp(n, env, add)
        return o

    def comp(self, n, env, emit, first=None):
        cenv = Env(env, None, env.qual)
        cenv.role = env.role
        self.envs.append(cenv)
        out = self.newlist(Seq())

        def level(k):
            if k == len(n.generators):
                p = emit(cenv)
                if p is not None:
                    self.set_content(out, Seq(self.content(out).parts + (p,)))
                return
            g = n.generators[k]
            it = first if k == 0 and first is not None else self.ev(g.iter, cenv if k else env)

            def body(v):
                self.assign(g.target, v, cenv)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, cenv))):
                        return
                level(k + 1)
            self.stream(it, body)
        level(0)
        return self.content(out)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        self.emit(v)
        return None

    def emit(self, v):
        consumer = self.outs[-1]
        saved = self.outs
        self.outs = self.outs[:-1]
        consumer(v)
        self.outs = saved

    def e_YieldFrom(self, n, env):
        it = self.ev(n.value, env)
        rule = getattr(self, 'yieldfrom_rules', {}).get(env.role)
        if rule is None or not rule(self, it, self.emit):
            self.stream(it, self.emit)
        return None

    def e_Starred(self, n, env):
        raise Unsupported('starred expression')

    # -- calls -------------------------------------------------------------------

    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, UserClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj) and isinstance(f.cls, UserClass):
            m = f.cls.lookup('__call__')
            if m:
                return self.call(m[0], [f] + list(args), kw)
        return self.lib.call(self, f, args, kw)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        if any(isinstance(x, self.lib.StarSeq) for x in args):
            raise Unsupported('* of unknown length')
        if len(args) > len(names) and not a.vararg:
            self.raise_(TypeError, 'arguments')
        for n, v in zip(names, args):
            vars_[n] = v
        if a.vararg:
            vars_[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vars_:
                    self.raise_(TypeError, 'multiple values')
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_(TypeError, 'unexpected keyword %s' % k)
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vars_.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vars_.setdefault(n, d)
        for n in names:
            if n not in vars_:
                self.raise_(TypeError, 'missing argument')
        if a.kwarg:
            o = self.newdict(DVal(None, [('set', k, v) for k, v in extra.items()]))
            vars_[a.kwarg.arg] = o
        return vars_

    def call_func(self, f, args, kw, real=False):
        if not real:
            c = self.contracts.get(f.qual)
            if c is not None:
                r = c(self, f, args, kw)
                if r is not NotImplemented:
                    self.contracted.add(f.qual)
                    return r
        vars_ = self.bind(f, args, kw)
        self.functions[f.qual] = self.functions.get(f.qual, 0) + 1
        env = Env(f.env, local_names(f.node), f.qual)
        env.vars = vars_
        env.func = f
        if f.qual.startswith('xigt.') and f.qual not in KNOWN:
            env.role = self.role      # a helper that is new: part of the function that calls it
        self.envs.append(env)
        if f.isgen:
            return Gen(lambda consumer: self.run_gen(f, env, consumer), self.alloc('generator'), f.qual)
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported('recursion without contract: ' + f.qual)
        role, self.role = self.role, env.role
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            self.exec_block(f.node.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.role = role

    def run_gen(self, f, env, consumer):
        n = len(self.outs)
        role = self.role

        def consume(v):
            self.role = role
            consumer(v)
            self.role = env.role
        self.outs = self.outs + [consume]
        self.role = env.role
        try:
            self.exec_block(f.node.body, env)
        except Ret:
            pass
        finally:
            self.role = role
        self.outs = self.outs[:n]

    def instantiate(self, cls, args, kw):
        if cls.isbuiltin(BaseException):
            m = cls.lookup('__init__')
            o = self.mkexc(cls, args)
            if m and isinstance(m[0], Func):
                self.call(m[0], [o] + list(args), kw)
            return o
        o = self.alloc(cls)
        if cls.isbuiltin(tuple) and not isinstance((cls.lookup('__new__') or [None])[0], Func) and len(args) <= 1 and not kw:
            self.set_content(o, self.lib.iterate(self, args[0]) if args else Seq())
            return o
        if cls.isbuiltin(list):
            self.set_content(o, Seq())
        m = cls.lookup('__init__')
        if m and isinstance(m[0], Func):
            self.call(m[0], [o] + list(args), kw)
        elif m is not None and args:
            raise Unsupported('constructor of %s' % cls.name)
        return o

    # -- attributes ----------------------------------------------------------------

    def getattr(self, o, name, default=NotImplemented):
        r = self.getattr_(o, name)
        if r is None:
            if default is not NotImplemented:
                return default
            self.raise_(AttributeError, name)
        return r[0]

    def getattr_(self, o, name):
        """(value,) or None for AttributeError"""
        o = self.force(o)
        if isinstance(o, Obj) and isinstance(o.cls, UserClass):
            if name == '__class__':
                return (o.cls,)
            m = o.cls.lookup(name)
            if m is not None and isinstance(m[0], Property):
                return (self.call(m[0].fget, [o], {}),)
            f = self.getfield(o, name)
            if f is not None:
                return f
            if m is None:
                if name in ('__eq__', '__ne__'):
                    return (Native(lambda E, a, k: self.lib.compare(E, 'Eq' if name == '__eq__' else 'NotEq', o, a[0])),)
                return None
            v = m[0]
            if isinstance(v, Func):
                return (BoundMethod(v, o),)
            if isinstance(v, BUnbound):
                return (BMethod(v.kind, v.name, o),)
            if isinstance(v, StaticM):
                return (v.f,)
            if isinstance(v, ClassM):
                return (BoundMethod(v.f, o.cls),)
            return (v,)
        if isinstance(o, Super):
            mro = o.obj.cls.mro
            for c in mro[mro.index(o.after) + 1:]:
                if isinstance(c, UserClass):
                    v = c.attrs.get(name)
                    if v is None and name not in c.attrs:
                        continue
                    return ((BoundMethod(v, o.obj),) if isinstance(v, Func) else
                            (self.call(v.fget, [o.obj], {}),) if isinstance(v, Property) else
                            (BoundMethod(v.f, o.obj.cls),) if isinstance(v, ClassM) else
                            (v.f,) if isinstance(v, StaticM) else (v,))
                if c.py is object:
                    return (Native(lambda E, a, k: None),) if name == '__init__' else None
                if hasattr(c.py, name):
                    return (BMethod(c.py.__name__, name, o.obj),)
            return None
        if isinstance(o, UserClass):
            if name == '__name__':
                return (o.name,)
            m = o.lookup(name)
            if m is None:
                return None
            if isinstance(m[0], StaticM):
                return (m[0].f,)
            if isinstance(m[0], ClassM):
                return (BoundMethod(m[0].f, o),)
            return (m[0],)
        if isinstance(o, Module):
            if name in o.env.vars:
                return (o.env.vars[name],)
            try:
                return (self.module(o.name + '.' + name),)
            except Unsupported:
                return None
        return self.lib.getattr_(self, o, name)

    def setattr(self, o, name, v):
        o = self.force(o)
        if o is None:
            self.raise_(AttributeError, name)
        if isinstance(o, Obj):
            if isinstance(o.cls, UserClass):
                m = o.cls.lookup(name)
                if m is not None and isinstance(m[0], Property):
                    if m[0].fset is None:
                        self.raise_(AttributeError, name)
                    self.call(m[0].fset, [o, v], {})
                    return
            elif name in self.stubs.get(o.cls, {}).get('setattr', ()) if isinstance(o.cls, str) else False:
                pass
            elif not isinstance(o.cls, BCls):
                raise Unsupported('setattr on %s' % o.cls)
            self.objs.setdefault(KTerm(o.t), o)
            self.write(name, o, v)
            return
        raise Unsupported('setattr on %r' % (o,))

    # -- obligations -----------------------------------------------------------------

    def prove(self, c, label):
        """obligation: c (value or z3 Bool) holds here"""
        if not self.wants(label):
            return True
        c = self.truth(c)
        t0 = time.time()
        detail = ''
        if isinstance(c, bool):
            ok = c or not self.possible(timeout=4000)
            if not ok:
                detail = 'false on a feasible path'
            how = 'evaluation'
        else:
            r = self.prover.valid(self.facts() + [z3.Not(c)], 10000)
            ok = r == z3.unsat
            how = 'z3'
            if not ok:
                r, m = self.prover.check(self.facts() + [z3.Not(c)], 10000, want_model=True)
                ok = r == z3.unsat
                detail = '' if ok else 'z3: %s\nobligation: %s\nassumptions: %s\nmodel: %s' % (
                    r, c, '\n  '.join(str(f) for f in self.facts()), m)
        self.record(label, ok, how, detail, time.time() - t0)
        return ok

    def wants(self, label):
        """is this obligation one of the property under check?"""
        return self.label_filter is None or self.label_filter(label)

    def fail(self, label, detail=''):
        """the present path violates the contract unless it is infeasible"""
        if not self.wants(label):
            return True
        t0 = time.time()
        ok = not self.possible(timeout=4000)
        self.record(label, ok, 'z3', detail + '\npath: ' + '\n  '.join(str(f) for f in self.facts()), time.time() - t0)
        return ok

    def record(self, label, ok, how, detail, dt):
        if self.mute:
            return
        path = [ex.labels for ex in self.explorers]
        self.obligations.append({'label': label, 'ok': bool(ok), 'how': how, 'detail': detail,
                                 'path': [l for ls in path for l in ls if l[0]], 'time': dt})

    def end_live(self):
        """count path ends that are not provably unreachable (vacuity guard)"""
        if self.possible(timeout=3000):
            self.live += 1

    def run(self, name, fn):
        """explore a harness: fn(E) on every path"""
        n0 = len(self.obligations)
        self.harness = name
        mh = getattr(self, 'module_heap0', None)
        paths = self.explore(lambda: fn(self), name=name)
        for o in self.obligations[n0:]:
            o['harness'] = name
        return paths
