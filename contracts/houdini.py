"""Loops that carry strings or numbers from one iteration to the next: the invariant is the
largest conjunction of candidate facts (order of lengths and numbers, being a prefix) that holds
on entry and is kept by an arbitrary iteration."""
import ast
from common import *


def stores(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def isint(v):
    return isinstance(v, SInt) or isinstance(v, int) and not isinstance(v, bool)


def install(E, limit=10):
    E.loop_fallback.append(lambda E, st, env, it, body: infer(E, st, env, it, body, limit))


def infer(E, st, env, it, body, limit):
    seq = E.lib.iterate(E, it)
    if len(seq.parts) != 1 or not isinstance(seq.parts[0], FM):
        return False
    fm = seq.parts[0]
    names = stores(st.body) | stores([ast.Expr(st.target)] if False else []) | {
        n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    carried, other = [], []
    for n in sorted(names):
        v = env.vars.get(n)
        if isint(v) or lib.isstr(v):
            carried.append(n)
        else:
            other.append(n)
    if not carried:
        return False
    base = E.snap()
    kinds = {n: 'int' if isint(env.vars[n]) else 'str' for n in carried}

    def havoc():
        for n in carried:
            if kinds[n] == 'int':
                env.vars[n] = SInt(E.fresh(I, n))
            else:
                t = E.fresh(U, n)
                E.fact_once(kindf(t) == 3)
                env.vars[n] = SU(t, 'str')
        for n in other:
            if n in env.vars:
                env.vars[n] = Poison('%s in a loop' % n)

    scope = [n for n, v in env.vars.items() if not n.startswith('@') and (isint(v) or lib.isstr(v))]
    scope = [n for n in scope if n in carried] + [n for n in scope if n not in carried]
    scope = scope[:limit]

    def facts():
        ms = {}
        for n in scope:
            v = env.vars[n]
            if isint(v):
                ms[n] = E.int_term(v)
            elif lib.isstr(v):
                ms['len ' + n] = E.int_term(lib.strlen(E, v))
            else:
                return {}
        out = {}
        car = lambda *xs: any(x.split()[-1] in carried for x in xs)
        for a in ms:
            if car(a):
                out[('0<=', a)] = ms[a] >= 0
            for b in ms:
                if a != b and car(a, b):
                    out[('<=', a, b)] = ms[a] <= ms[b]
                for c in ms:
                    if a < b and c not in (a, b) and car(a, b, c):
                        out[('+<=', a, b, c)] = ms[a] + ms[b] <= ms[c]
        strs = [n for n in scope if lib.isstr(env.vars[n])]
        for a in strs:
            for b in strs:
                if a != b and (a in carried or b in carried):
                    c = lib.startswith(E, env.vars[b], env.vars[a])
                    out[('prefix', a, b)] = z3.BoolVal(c) if isinstance(c, bool) else c
        return out

    live = {k for k, f in facts().items() if E.implied(f, 300)}
    E.restore(base)
    n0 = len(E.alloc_log)

    def iteration():
        havoc()
        fs = facts()
        for k in sorted(live):
            E.fact_once(fs[k])
        i = E.fresh(I, 'it')
        E.assume(z3.And(fm.lo <= i, i < fm.hi))
        E.enter_leaf(fm, i, lambda parts: E.run_parts(parts, body))

    while True:
        paths = E.explore(iteration)
        new = {t.get_id() for t in E.alloc_log[n0:]}
        drop = set()
        for p in paths:
            if p.kind not in ('normal', 'continue'):
                continue
            for field, ents in p.snap[1].items():
                for t, fr, v in ents[len(base[1].get(field, ())):]:
                    if isinstance(t, str) or not fr or t.get_id() not in new:
                        E.restore(base)
                        return False
            E.restore(p.snap)
            fs = facts()
            drop |= {k for k in live - drop if k not in fs or not E.implied(fs[k], 300)}
        E.restore(base)
        if not drop:
            break
        live -= drop
    E.invariants = getattr(E, 'invariants', {})
    E.invariants[env.qual, st.lineno] = sorted(map(str, live))
    if E.choose('an arbitrary iteration'):
        iteration()
        raise Infeasible()      # (covered by the invariant)
    havoc()
    fs = facts()
    for k in sorted(live):
        E.fact_once(fs[k])
    return True
