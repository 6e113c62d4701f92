"""C07: expand, compress, selections, spans and ids of well-formed reference expressions.

A well-formed expression is the text of its tokens (delimiter, id, inside of the brackets); that
findall yields these tokens for every well-formed string is proved by automata (regs.py)."""
from common import *
import ast
import itertools
import regs
from houdini import stores
from regs import IDS

TRUSTED = ['semantics of str methods and of the backtracking matcher of re (modelled as the ordered '
           'thread list over the pattern parsed by re itself)',
           'a string of the specification automaton is the concatenation of its marked tokens (by construction)']


def SETUP(E):
    load(E)
    E.module('xigt.ref')
    spec_module(E, 'refs')
    schema(E)
    regs.install(E, [IDS])
    E.rx_role_of = regs.role_of


def expr(E, name='e'):
    e = sym_str(E, name)
    E.assume(e.t != lit(''))
    regs.set_role(E, e, regs.expr_role(E))
    return e


def toks(E, e):
    return E.newlist(Seq([whole(regs.tok_base(E, e.t))]))


def spans_fn(E):
    def f(E, args, kw):
        r = args[0]
        return E.newlist(Seq([whole(regs.span_base(E, r.t))]))
    return Native(f, 'spans')


def sf(E, name):
    return spec_fn(E, 'refs', name)


def real(E, name):
    return E.module('xigt.ref').env.vars[name]


def h_selections(keep):
    def h(E):
        e = expr(E)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, real(E, 'selections'), e, keep))
        prove_frame(E, m, 'selections')
        want = run(E, sf(E, 'selections'), toks(E, e), keep)
        same_outcome(E, 'selections: the selections in order' + (' with their delimiters' if keep else ''),
                     got, ('return', want))
        if keep and got[0] == 'return':
            j = E.lib.join(E, '', got[1])
            prove_same(E, j, run(E, sf(E, 'text'), toks(E, e)), 'joining selections(e) gives e')
    return h


def h_default(fn):
    """delimiters are kept unless asked otherwise"""
    def h(E):
        e = expr(E)
        if fn == 'spans':
            contract_expand(E)
        got = outcome(E, lambda: run(E, real(E, fn), e))
        t = toks(E, e)
        if fn == 'spans':
            t = run(E, sf(E, 'expanded'), t, spans_fn(E))
        want = run(E, sf(E, 'selections'), t, True)
        same_outcome(E, fn + ': keeps delimiters by default', got, ('return', want))
    return h


def h_ids(E):
    e = expr(E)
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, real(E, 'ids'), e))
    prove_frame(E, m, 'ids')
    same_outcome(E, 'ids: the selected ids in order', got, ('return', run(E, sf(E, 'selected_ids'), toks(E, e))))


def h_expand(E):
    e = expr(E)
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, real(E, 'expand'), e))
    prove_frame(E, m, 'expand')
    x = run(E, sf(E, 'expanded'), toks(E, e), spans_fn(E))
    same_outcome(E, 'expand: every span on its own id', got, ('return', run(E, sf(E, 'text'), x)))


def contract_expand(E):
    """expand(e) is the well-formed expression whose tokens are the expanded ones"""
    def c(E, f, args, kw):
        v = args[0]
        if not isinstance(v, SU) or len(args) != 1 or kw:
            return NotImplemented
        t = uf('expand', U, U)(v.t)
        E.fact_once(z3.And(kindf(t) == 3, t != lit('')))
        r = SU(t, 'str')
        x = run(E, sf(E, 'expanded'), toks(E, v), spans_fn(E))
        seq = E.content(x)
        ids = run(E, sf(E, 'selected_ids'), x)
        regs.set_role(E, r, regs.Role([(regs.DID, 3, lambda E, v: seq), (regs.ID_ONLY, 1, lambda E, v: E.content(ids))]))
        return r
    E.contracts['xigt.ref.expand'] = c


def h_spans(keep):
    def h(E):
        e = expr(E)
        contract_expand(E)
        m = heap_mark(E)
        got = outcome(E, lambda: run(E, real(E, 'spans'), e, keep))
        prove_frame(E, m, 'spans')
        x = run(E, sf(E, 'expanded'), toks(E, e), spans_fn(E))
        want = run(E, sf(E, 'selections'), x, keep)
        same_outcome(E, 'spans(e) = selections(expand(e))', got, ('return', want))
    return h


def strs(E, o):
    """text of a list of strings"""
    return E.lib.join(E, '', o)


def carried(E, st, env):
    """the variables of the loop of compress: text that is finished, text of an open bracket (or None: all text is
    in one place), and the other ones that are carried from token to token"""
    used = {n.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name)} & set(env.vars)
    grows = {x.target.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    grows |= {t.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)
              and t.id in {n.id for n in ast.walk(x.value) if isinstance(n, ast.Name)}}
    texts = [x for x in sorted(used) if isinstance(env.vars[x], str) and env.vars[x] == '' and x in grows
             or isinstance(env.vars[x], Obj) and env.vars[x].cls == 'list' and env.vars[x].fresh and not E.content(env.vars[x]).parts]
    tested = {n.id for x in st.body for t in ast.walk(x) if isinstance(t, (ast.If, ast.IfExp)) for n in conditions(t.test)}
    aux = sorted(used & stores(st.body) - set(texts))
    opened = [x for x in texts if x in tested]
    if len(aux) <= 2 and all(env.vars[x] is None or isinstance(env.vars[x], (str, bool)) for x in aux):
        if len(texts) == 1:
            return texts[0], None, aux
        if len(texts) == 2 and len(opened) == 1:
            return [x for x in texts if x not in opened][0], opened[0], aux
    raise Unsupported('compress: the state of the loop is not that of the invariant')


ANY = object()


def kinds_of(v):
    """what a carried variable may be, from what it is before the loop"""
    if isinstance(v, bool):
        return ['open', 'closed'] if v is False else ['closed', 'open']
    return ['id of the open bracket', 'last id', 'last range', 'id of the last bracket']


def conditions(e):
    """the names whose truth decides e"""
    if isinstance(e, ast.Name):
        return [e]
    if isinstance(e, ast.BoolOp):
        return [n for v in e.values for n in conditions(v)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return conditions(e.operand)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'bool') and len(e.args) == 1:
        return conditions(e.args[0])
    if isinstance(e, ast.Compare):
        return [n for v in [e.left] + e.comparators if isinstance(v, ast.Call) for n in conditions(v)]
    return []


def h_compress(E):
    e = expr(E)
    ghost = {}

    def rule(E, st, env, it):
        if it is None or ghost.get('done'):
            raise Unsupported('second loop in compress')
        ghost['done'] = True
        closed_, open_, aux = carried(E, st, env)
        texts = [x for x in (closed_, open_) if x is not None and isinstance(env.vars[x], str)]

        def put(x, parts):
            """text, in the way the code keeps it"""
            env.vars[x] = E.newlist(Seq([Lit(p) for p in parts])) if x not in texts else E.lib.concat(E, parts) if parts else ''
        txt = lambda x: env.vars[x] if x in texts else strs(E, env.vars[x])
        first = {x: env.vars[x] for x in aux}
        ghost['aux'] = aux, first
        seq = E.lib.iterate(E, it)
        fms = seq.parts
        if len(fms) != 1 or not isinstance(fms[0], FM) or not fms[0].identity:
            raise Unsupported('compress: loop over something else')
        base = fms[0].base
        prove_same(E, txt(closed_), '', 'compress: loop entered with no text')
        if open_ is not None:
            E.prove(not E.decide(E.truth(env.vars[open_])), 'compress: loop entered with no open bracket')
        T, S2 = sym_str(E, 'closed'), sym_str(E, 'open')

        def value(kind, x, prev, opened):
            """the invariant of a carried variable after the token prev; ANY: nothing is known"""
            if kind == 'open':
                return opened
            if kind == 'closed':
                return not opened
            if kind == 'last id':
                return prev[1]
            if kind == 'last range':
                return prev[2]
            return prev[1] if opened else first[x] if kind == 'id of the open bracket' else ANY

        def state(i, kinds):
            """the invariant after i tokens, i >= 1"""
            prev = base.elem(i - 1)
            put(closed_, [T])
            opened = E.decide(prev[2].t != lit(''))
            if open_ is not None:
                put(open_, [S2] if opened else [])
            for x in aux:
                v = value(kinds[x], x, prev, opened)
                if v is ANY:
                    v = SU(z3.Const('in:stale ' + x, U), 'optstr')
                    E.fact_once(z3.Or(v.t == NONE, kindf(v.t) == 3))
                env.vars[x] = v
            return prev, E.lib.concat(E, [T, S2]) if opened and open_ is not None else T

        def iteration(kinds):
            i = E.fresh(I, 'i')
            E.assume(z3.And(0 <= i, i < base.len))
            if E.decide(i == 0):
                prev, before = None, ''
            else:
                prev, before = state(i, kinds)
            cur = base.elem(i)
            E.assign(st.target, cur, env)
            try:
                E.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                E.fail('compress: every token is looked at')
                return
            want = E.lib.concat(E, [before, run(E, sf(E, 'piece'), prev, *cur)])
            prove_same(E, E.lib.concat(E, [txt(x) for x in (closed_, open_) if x is not None]), want,
                       'compress: merges exactly the adjacent bracketed selections of one id')
            opened = E.decide(cur[2].t != lit(''))
            if open_ is not None:
                E.prove(E.decide(E.truth(env.vars[open_])) == opened, 'compress: a bracket is open after a bracketed token')
            for x in aux:
                v = value(kinds[x], x, cur, opened)
                if v is not ANY:
                    prove_same(E, env.vars[x], v, 'compress: last id' if not isinstance(v, bool) else 'compress: open or not')

        def after(kinds):
            last, text = state(base.len, kinds)
            ghost['text'] = E.lib.concat(E, [text, ']']) if E.decide(last[2].t != lit('')) else text
            return True
        if E.choose('an arbitrary iteration'):
            inductive(iteration)
            raise Done()
        return after(inductive(iteration, True))

    def inductive(iteration, quiet=False):
        """the first choice of invariants of the carried variables that is kept by every iteration (if there is none,
        what fails for the first is reported)"""
        aux, first = ghost['aux']
        choices = [dict(zip(aux, ks)) for ks in itertools.product(*[kinds_of(first[x]) for x in aux])]
        reported = None
        for kinds in choices:
            n = len(E.obligations)
            E.explore(lambda: iteration(kinds))
            new = E.obligations[n:]
            del E.obligations[n:]
            if all(o['ok'] for o in new):
                E.obligations.extend([] if quiet else new)
                return kinds
            if reported is None:
                reported = new
        E.obligations.extend([] if quiet else reported)
        return choices[0]
    E.loop_rules['xigt.ref.compress'] = rule
    m = heap_mark(E)
    got = outcome(E, lambda: run(E, real(E, 'compress'), e))
    prove_frame(E, m, 'compress')
    if 'text' not in ghost:
        raise Unsupported('compress without its loop')
    same_outcome(E, 'compress: the open bracket is closed at the end', got, ('return', ghost['text']))


def h_laws(E):
    """the laws, from the contracts above. An expression is a sequence of atoms, spans and bare
    ids: (bracketed?, delimiter, id, start, end, opens a selection?). expand sets the last flag of
    every atom, compress sets it to the negation of 'bracketed, after a bracketed atom of the same
    id' (piece), both leave the rest and the order alone."""
    br, idd, fl = uf('a:br', I, B), uf('a:id', I, U), uf('a:first', I, B)
    p, n = z3.Ints('p n')

    def k(br, idd):
        return lambda p: z3.Not(z3.And(p > 0, br(p), br(p - 1), idd(p) == idd(p - 1)))

    def K(T):
        b, i, f = T
        return (b, i, k(b, i))

    def X(T):
        b, i, f = T
        return (b, i, lambda p: z3.BoolVal(True))
    T = (lambda p: br(p), lambda p: idd(p), lambda p: fl(p))
    E.assume(z3.And(0 <= p, p < n))
    # well-formed: what does not open a selection goes on with a bracket of the same id
    E.assume(z3.Implies(z3.Not(fl(p)), z3.And(p > 0, br(p), br(p - 1), idd(p) == idd(p - 1))))

    def eqv(A, Bx, label):
        E.prove(z3.And(A[0](p) == Bx[0](p), A[1](p) == Bx[1](p), A[2](p) == Bx[2](p)), label)
    eqv(X(K(T)), X(T), 'expand(compress(e)) = expand(e)')
    eqv(K(X(T)), K(T), 'compress(expand(e)) = compress(e)')
    eqv(X(X(T)), X(T), 'expand is idempotent')
    eqv(K(K(T)), K(T), 'compress is idempotent')
    # the flag that piece() gives to the first atom of a token, and to the others
    r_i, r_prev, same_id, j = z3.Bool('ri'), z3.Bool('rprev'), z3.Bool('same'), z3.Int('j')
    E.assume(z3.And(j >= 0, z3.Implies(z3.Not(r_i), j == 0)))
    merged = z3.And(p > 0, r_prev, r_i, same_id)
    flag_piece = z3.And(j == 0, z3.Not(merged))
    prev_br = z3.If(j == 0, r_prev, r_i)
    prev_same = z3.If(j == 0, same_id, z3.BoolVal(True))
    kflag = z3.Not(z3.And(z3.Or(p > 0, j > 0), r_i, prev_br, prev_same))
    E.prove(flag_piece == kflag, 'compress on tokens is compress on atoms')


HARNESSES = [('ids', guarded(h_ids)), ('expand', guarded(h_expand)), ('compress', guarded(h_compress)),
             ('laws', guarded(h_laws))]
for k in (True, False):
    HARNESSES.append(('selections keep=%s' % k, guarded(h_selections(k))))
    HARNESSES.append(('spans keep=%s' % k, guarded(h_spans(k))))
for f in ('selections', 'spans'):
    HARNESSES.append((f + ' default', guarded(h_default(f))))
