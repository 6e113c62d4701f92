"""While loops that follow a function from value to value (x = f(x)) and collect what they meet:
the loop is a sequence c(0), c(1), ... of values with c(k+1) = f(c(k)); the collections are described
by it at the head of every iteration."""
import ast
from common import *
from houdini import stores


class Chain:
    """hooks for a property: inv(E, k, values) -> formula (proved for every iteration);
    variant(E, k, values, sets) -> proves that the loop ends"""

    def inv(self, E, k, vals):
        return None

    def variant(self, E, k, vals, added):
        pass


def install(E, qual, hooks):
    E.loop_rules[qual] = lambda E, st, env, it: isinstance(st, ast.While) and rule(E, st, env, hooks)


def shape(E, v, name, k):
    """the value at iteration k, of the shape of v"""
    if isinstance(v, tuple):
        return tuple(shape(E, x, '%s_%d' % (name, n), k) for n, x in enumerate(v))
    if isinstance(v, (SInt, int)) and not isinstance(v, bool):
        return SInt(E.chainf(name, I)(*E.iters0, k))
    if lib.isstr(v):
        t = E.chainf(name, U)(*E.iters0, k)
        E.fact_once(kindf(t) == 3)
        return SU(t, 'str')
    raise Unsupported('%s is carried from one iteration to the next' % name)


def equal(E, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return z3.And([equal(E, x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return E.int_term(a) == E.int_term(b)
    if lib.isstr(a) and lib.isstr(b):
        return E.term(a) == E.term(b)
    return None


def rule(E, st, env, hooks):
    if st.orelse:
        raise Unsupported('while ... else')
    if not E.decide(E.truth(E.ev(st.test, env))):
        return True
    tag = E.name('chain')
    E.iters0 = list(E.iters)
    E.chainf = lambda name, s: uf('%s:%s' % (tag, name), *([I] * (len(E.iters0) + 1) + [s]))
    carried = [n for n in sorted(stores(st.body)) if n in env.vars and not isinstance(env.vars[n], Poison)]
    v0 = {n: env.vars[n] for n in carried}
    base = E.snap()
    k = z3.Int(E.name('k'))
    N = E.fresh(I, 'N')

    def at_(j):
        return {n: shape(E, v0[n], n, j) for n in carried}

    def enter(j):
        env.vars.update(at_(j))

    # what an iteration does
    def once():
        E.iters.append(k)
        E.assume(z3.And(0 <= k, k < N))
        once.n = len(E.pc)
        enter(k)
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        return dict((n, env.vars[n]) for n in carried)

    npc = len(E.pc)
    n0 = len(E.alloc_log)
    paths = E.explore(once)
    E.restore(base)
    new_objs = {t.get_id() for t in E.alloc_log[n0:]}
    grown = {}          # list or set -> what is added
    for p in paths:
        if p.kind != 'normal':
            raise Unsupported('while loop is left from inside')
        E.restore(p.snap)
        seen = {}
        for field, ents in p.snap[1].items():
            for t, fr, v in ents[len(base[1].get(field, ())):]:
                if isinstance(t, str) or not fr:
                    raise Unsupported('while loop changes given objects')
                if t.get_id() in new_objs:
                    continue
                if field != '@seq':
                    raise Unsupported('while loop changes %s' % field)
                seen[t.get_id()] = t, v
        for i, (t, v) in seen.items():
            E.restore(base)
            old = E.content(Obj(t, 'list', True)).parts
            new = v.parts
            if not (len(new) >= len(old) and all(a is b for a, b in zip(old, new))):
                raise Unsupported('while loop does something else than adding to a list')
            add = new[len(old):]
            if i in grown and repr(grown[i][2]) != repr(add):
                raise Unsupported('while loop adds different things')
            if len(add) != 1 or not isinstance(add[0], Lit):
                raise Unsupported('while loop adds several things')
            grown[i] = t, old, add
        if paths and set(seen) != set(grown):
            raise Unsupported('while loop adds different things')
    E.restore(base)

    cbase = Base(('chain', tag, tuple(KTerm(x) for x in E.iters0)), N, lambda i: SInt(i))

    def contents(j):
        for t, old, add in grown.values():
            q = fresh_var('c')
            E.set_content(Obj(t, 'list', True), Seq(old + (FM(cbase, z3.IntVal(0), j, q, [
                Leaf((), (), subst(add, [(k, q)]))]),)))

    def cond(j):
        """the condition at the head of iteration j, as a formula"""
        here = E.snap()
        n0 = [0]

        def body():
            contents(j)
            enter(j)
            n0[0] = len(E.pc)
            return E.decide(E.truth(E.ev(st.test, env)))
        out = []
        for p in E.explore(body):
            if p.kind != 'normal':
                raise Unsupported('condition of the while loop')
            if p.value:
                out.append(z3.And([f for _, f in p.pc[n0[0]:]] + [z3.BoolVal(True)]))
        E.restore(here)
        return z3.Or(out) if out else z3.BoolVal(False)

    E.assume(N >= 1)
    E.assume(equal_all(E, at_(z3.IntVal(0)), v0))
    # every iteration was entered, and leads to the next one
    here = E.snap()
    E.assume(z3.And(0 <= k, k < N))
    c = cond(k)
    E.restore(here)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), c), patterns=[first(at_(k))]))
    steps = []
    for p in paths:
        e = equal_all(E, at_(k + 1), p.value)
        if e is not None:
            steps.append(z3.And([f for _, f in p.pc[npc:]] + [e]))
    step = z3.Or(steps) if steps else z3.BoolVal(False)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N - 1), step), patterns=[first(at_(k)), first(at_(k + 1))]))
    inv = hooks.inv(E, z3.IntVal(0), at_(z3.IntVal(0)))
    if inv is not None:
        prove_all(E, inv, 'loop invariant on entry')

        def keeps():
            E.iters.append(k)
            E.assume(z3.And(0 <= k, k < N - 1))
            E.assume(hooks.inv(E, k, at_(k)))
            E.assume(step)
            prove_all(E, hooks.inv(E, k + 1, at_(k + 1)), 'loop invariant is kept')
        aside(E, keeps)
        E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), hooks.inv(E, k, at_(k))), patterns=[first(at_(k))]))

    def ends():
        E.iters.append(k)
        E.assume(z3.And(0 <= k, k < N))
        contents(k)
        enter(k)
        E.assume(c)
        hooks.variant(E, k, at_(k), [(E.content(Obj(t, 'list', True)), subst(add, [])[0].v) for t, _, add in grown.values()])
    aside(E, ends)
    # the last iteration
    contents(N - 1)
    enter(N - 1)
    try:
        E.exec_block(st.body, env)
    except Cont:
        pass
    last = {n: env.vars[n] for n in carried}
    contents(N)
    env.vars.update(last)
    if E.decide(E.truth(E.ev(st.test, env))):
        raise Infeasible()
    return True


def prove_all(E, f, label):
    for x in lib.flatten(f):
        E.prove(x, label)


def equal_all(E, a, b):
    out = []
    for n in a:
        e = equal(E, a[n], b[n])
        if e is None:
            return None
        out.append(e)
    return z3.And(out + [z3.BoolVal(True)])


def first(vals):
    for v in vals.values():
        while isinstance(v, tuple):
            v = v[0]
        return v.t
