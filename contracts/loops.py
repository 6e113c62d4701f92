"""Loops over sources with a hidden state (iterators, event streams): invariants are inferred from
candidate facts that relate the local variables to the ghost state."""
import ast
from common import *
from houdini import stores, isint


class Ghost:
    """ghost state of a loop. havoc(E): to an arbitrary state; values(E): {name: value} the local
    variables may be equal to (numbers also plus or minus 1); states(E): {name: formula} what may
    hold whenever an iteration begins; end(E): obligations after an iteration; step(E): next
    element of the source, or None (for loops only)"""

    def havoc(self, E):
        pass

    def values(self, E):
        return {}

    def states(self, E):
        return {}

    def end(self, E):
        pass

    def source(self, E, it):
        return False

    def step(self, E, it):
        raise Unsupported('for loop over this source')


def equal(E, v, g):
    if isinstance(v, Poison):
        return False
    if isint(g):
        return isint(v) and E.int_term(v) == E.int_term(g)
    if isinstance(v, (SU, Obj, str, type(None))) and isinstance(g, (SU, Obj, str, type(None))):
        return E.term(v) == E.term(g)
    return False


def plus(E, g, d):
    return g if d == 0 else SInt(z3.simplify(E.int_term(g) + d))


def choices(E, env, carried, ghost):
    vals = ghost.values(E)
    out = [(('#', n, 0), f) for n, f in ghost.states(E).items()]
    for n in carried:
        v = env.vars.get(n)
        for g, x in vals.items():
            for d in ((0, 1, -1) if isint(x) else (0,)):
                out.append(((n, g, d), equal(E, v, plus(E, x, d))))
        if v is None or isinstance(v, (bool, str)):
            out.append(((n, '=', v), True))
    return out


def holds(E, f):
    return f if isinstance(f, bool) else E.implied(f, 500)


def install(E, qual, ghost):
    E.loop_rules[qual] = lambda E, st, env, it: rule(E, st, env, it, ghost)
    E.yieldfrom_rules = getattr(E, 'yieldfrom_rules', {})
    E.yieldfrom_rules[qual] = lambda E, it, emit: yieldfrom(E, it, emit, ghost)


def yieldfrom(E, it, emit, ghost):
    if not ghost.source(E, it):
        return False
    ghost.havoc(E)
    v = ghost.step(E, it)
    if v is None:
        return True
    emit(v[0])
    ghost.end(E)
    raise Done()


def rule(E, st, env, it, ghost):
    if isinstance(st, ast.For) and not ghost.source(E, it):
        return False
    if any(isinstance(n, ast.NamedExpr) for n in ast.walk(st)):
        raise Unsupported('assignment expression in a loop')
    names = stores(st.body) | ({n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
                               if isinstance(st, ast.For) else set())
    carried = [n for n in sorted(names) if n in env.vars]
    live = [k for k, f in choices(E, env, carried, ghost) if holds(E, f)]
    kind = {n: isint(env.vars[n]) for n in carried}
    base = E.snap()

    def goes_on():
        return E.decide(E.truth(E.ev(st.test, env)))

    # a loop with a flag: whether it goes on is decided at the end of an iteration
    rotated = isinstance(st, ast.While) and any(isinstance(env.vars.get(n.id), bool) for n in ast.walk(st.test)
                                                if isinstance(n, ast.Name) and n.id in carried) \
        and not any(isinstance(n, ast.Call) for n in ast.walk(st.test))
    if rotated and not goes_on():
        E.exec_block(st.orelse, env)
        return True

    def head():
        ghost.havoc(E)
        states = ghost.states(E)
        for k in live:
            if k[0] == '#':
                E.assume(states[k[1]])
        vals = ghost.values(E)
        for n in carried:
            ks = [k for k in live if k[0] == n]
            if ks:
                _, g, d = ks[0]
                env.vars[n] = d if g == '=' else plus(E, vals[g], d)
                for _, g, d in ks[1:]:
                    if g != '=':
                        E.fact_once(equal(E, env.vars[n], plus(E, vals[g], d)))
            elif kind[n]:
                env.vars[n] = SInt(E.fresh(I, n))
            else:
                env.vars[n] = Poison('%s is carried from one iteration to the next' % n)

    def iteration():
        """True if the loop ends regularly, False after an iteration; Brk etc. pass through"""
        head()
        if isinstance(st, ast.For):
            v = ghost.step(E, it)
            if v is None:
                return True
            E.assign(st.target, v[0], env)
        elif not goes_on():
            if rotated:
                raise Infeasible()      # found out after the iteration before
            return True
        try:
            E.exec_block(st.body, env)
        except Cont:
            pass
        if rotated and not goes_on():
            ghost.end(E)
            return True
        return False

    E.mute = getattr(E, 'mute', 0) + 1
    try:
        while True:
            paths = E.explore(lambda: quiet(iteration))
            drop = set()
            for p in paths:
                if p.kind == 'normal' and p.value is False:
                    E.restore(p.snap)
                    now = dict(choices(E, env, carried, ghost))
                    drop |= {k for k in live if k not in drop and not holds(E, now.get(k, False))}
            E.restore(base)
            if not drop:
                break
            live = [k for k in live if k not in drop]
    finally:
        E.mute -= 1
    E.invariants = getattr(E, 'invariants', {})
    E.invariants[env.qual, st.lineno] = [k[1] if k[0] == '#' else '%s = %s%+d' % k if k[1] != '=' else '%s is %r' % (k[0], k[2]) for k in live]
    try:
        ends = iteration()
    except Brk:
        return True
    if not ends:
        ghost.end(E)
        raise Done()
    E.exec_block(st.orelse, env)
    return True


def quiet(f):
    try:
        return f()
    except Done:
        return None
