#!/usr/bin/env python3
"""Rewrite the sources below DIR/xigt without changing what they do: refactor.py KIND DIR [FILE FUNC]

Development aid: the checks have to stay quiet on the result (they do not read this file)."""
import ast
import os
import sys


class Base(ast.NodeTransformer):
    """statement transformer: one(st) -> list of statements or None"""

    def __init__(self):
        self.n = 0
        self.func = []
        self.cls = []

    def fresh(self, what):
        self.n += 1
        return '%s_%d' % (what, self.n)

    def body(self, sts):
        out = []
        for i, s in enumerate(sts):
            s = self.visit(s)
            r = self.one(s, sts[i + 1:]) if self.func else None
            out.extend(r if r is not None else [s])
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.body(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_FunctionDef(self, node):
        self.func.append(node)
        self.generic_visit(node)
        self.func.pop()
        return node

    def visit_ClassDef(self, node):
        self.cls.append(node)
        saved, self.func = self.func, []
        self.generic_visit(node)
        self.func = saved
        self.cls.pop()
        return node

    def one(self, st, rest):
        return None


def N(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def names(node, ctx=ast.Store):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


class TempReturn(Base):
    """return E -> x = E; return x"""

    def one(self, st, rest):
        if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
            x = self.fresh('result')
            return [ast.Assign([N(x, True)], st.value), ast.Return(N(x))]


class Invert(Base):
    """if c: A else: B -> if not c: B else: A"""

    def one(self, st, rest):
        if isinstance(st, ast.If) and st.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body)]


class Guard(Base):
    """for ..: if c: A -> for ..: if not c: continue; A   and the same with functions that end in an if"""

    def one(self, st, rest):
        if isinstance(st, ast.For) and len(st.body) == 1 and isinstance(st.body[0], ast.If) and not st.body[0].orelse:
            c = st.body[0]
            st.body = [ast.If(ast.UnaryOp(ast.Not(), c.test), [ast.Continue()], [])] + c.body
            return [st]


class Unguard(Base):
    """for ..: if c: continue; A -> for ..: if not c: A"""

    def one(self, st, rest):
        if isinstance(st, ast.For) and len(st.body) > 1 and isinstance(st.body[0], ast.If) and not st.body[0].orelse \
                and len(st.body[0].body) == 1 and isinstance(st.body[0].body[0], ast.Continue):
            c = st.body[0]
            st.body = [ast.If(ast.UnaryOp(ast.Not(), c.test), st.body[1:], [])]
            return [st]


class Unroll(Base):
    """x = [E for ..] -> x = []; for ..: x.append(E) (also dicts, sets, returns)"""

    def one(self, st, rest):
        if not isinstance(st, (ast.Assign, ast.Return)) or isinstance(st, ast.Assign) and (
                len(st.targets) != 1 or not isinstance(st.targets[0], ast.Name)):
            return
        v = st.value
        if not isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
            return
        x = self.fresh('out')
        if isinstance(v, ast.DictComp):
            init = ast.Dict([], [])
            inner = ast.Assign([ast.Subscript(N(x), v.key, ast.Store())], v.value)
        else:
            init = ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Call(N('set'), [], [])
            inner = ast.Expr(ast.Call(ast.Attribute(N(x), 'append' if isinstance(v, ast.ListComp) else 'add', ast.Load()), [v.elt], []))
        ren = {}
        for g in v.generators:
            for n in names(g.target):
                ren[n] = self.fresh(n)
        sub = Rename(ren)
        first = v.generators[0].iter
        body = [sub.visit(inner)]
        for g in reversed(v.generators):
            for c in reversed(g.ifs):
                body = [ast.If(sub.visit(c), body, [])]
            it = g.iter if g.iter is first else sub.visit(g.iter)
            body = [ast.For(sub.visit(g.target), it, body, [])]
        out = [ast.Assign([N(x, True)], init)] + body
        if isinstance(st, ast.Return):
            return out + [ast.Return(N(x))]
        return out + [ast.Assign(st.targets, N(x))]


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.Name(self.m[n.id], n.ctx)
        return n


class Locals(Base):
    """local variables get other names"""

    def visit_FunctionDef(self, node):
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        if has(node, ast.Global, ast.Nonlocal) or any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in node.body for n in ast.walk(b)):
            return node
        imported = {al.asname or al.name for n in ast.walk(node) if isinstance(n, (ast.Import, ast.ImportFrom)) for al in n.names}
        exc = {n.name for n in ast.walk(node) if isinstance(n, ast.ExceptHandler) and n.name}
        loc = set()
        for b in node.body:
            loc |= names(b)
        m = {x: x + '_' for x in loc - params - imported - exc}
        node.body = [Rename(m).visit(b) for b in node.body]
        return node


class Extract(Base):
    """def f(args): BODY -> a helper with the body, called by f"""

    def __init__(self):
        super().__init__()
        self.extra = []

    def helper(self, node):
        a = node.args
        if a.vararg or a.kwarg or node.decorator_list or has(node, ast.Yield, ast.YieldFrom) or node.name.startswith('__'):
            return None
        body = node.body
        doc = []
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if len(body) < 2 or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for b in body for n in ast.walk(b)):
            return None
        h = '_%s_helper' % node.name.strip('_')
        ps = [x.arg for x in a.args + a.kwonlyargs]
        new = ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [])
        new.type_params = []
        if self.cls:
            call = ast.Call(ast.Attribute(N(ps[0]), h, ast.Load()), [N(p) for p in ps[1:]], [])
        else:
            call = ast.Call(N(h), [N(p) for p in ps], [])
        node.body = doc + [ast.Return(call)]
        return new

    def generic_visit(self, node):
        if isinstance(node, (ast.Module, ast.ClassDef)):
            out = []
            for s in node.body:
                if isinstance(s, ast.ClassDef):
                    self.cls.append(s)
                    self.generic_visit(s)
                    self.cls.pop()
                elif isinstance(s, ast.FunctionDef):
                    h = self.helper(s)
                    if h is not None:
                        out.append(h)
                out.append(s)
            node.body = out
        return node


def outer(f):
    return {x.arg for x in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}


class LoopBody(Base):
    """for x in xs: BODY -> a local function with the body, where nothing is assigned outside"""

    def one(self, st, rest):
        if not isinstance(st, ast.For) or st.orelse or len(st.body) == 1 and isinstance(st.body[0], ast.Expr):
            return
        if any(has(b, ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom) for b in st.body):
            return
        stored = set().union(*[names(b) for b in st.body])
        target = names(st.target)
        whole = self.func[-1]
        inside = {id(n) for b in st.body for n in ast.walk(b)}
        used = {n.id for n in ast.walk(whole) if isinstance(n, ast.Name) and id(n) not in inside} | outer(whole)
        if stored & used or target & stored:
            return
        h = self.fresh('step')
        d = ast.FunctionDef(h, ast.arguments([], [ast.arg(t) for t in sorted(target)], None, [], [], None, []), st.body, [])
        d.type_params = []
        st.body = [ast.Expr(ast.Call(N(h), [N(t) for t in sorted(target)], []))]
        return [d, st]


class Conditional(Base):
    """x = A if c else B -> if c: x = A else: x = B"""

    def one(self, st, rest):
        if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
            e = st.value
            mk = (lambda v: ast.Return(v)) if isinstance(st, ast.Return) else (lambda v: ast.Assign(st.targets, v))
            return [ast.If(e.test, [mk(e.body)], [mk(e.orelse)])]


class Merge(Base):
    """if c: x = A else: x = B -> x = A if c else B"""

    def one(self, st, rest):
        if isinstance(st, ast.If) and len(st.body) == len(st.orelse) == 1:
            a, b = st.body[0], st.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return [ast.Assign(a.targets, ast.IfExp(st.test, a.value, b.value))]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(st.test, a.value, b.value))]


class AnyAll(Base):
    """if any(E for x in xs) -> a loop with a flag"""

    def one(self, st, rest):
        e = st.test if isinstance(st, ast.If) else st.value if isinstance(st, (ast.Return, ast.Assign)) else None
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1):
            return
        g = e.args[0].generators[0]
        x = self.fresh('found')
        ren = Rename({n: self.fresh(n) for n in names(g.target)})
        anyq = e.func.id == 'any'
        test = ren.visit(e.args[0].elt)
        body = [ast.If(test if anyq else ast.UnaryOp(ast.Not(), test), [ast.Assign([N(x, True)], ast.Constant(anyq)), ast.Break()], [])]
        for c in reversed(g.ifs):
            body = [ast.If(ren.visit(c), body, [])]
        pre = [ast.Assign([N(x, True)], ast.Constant(not anyq)), ast.For(ren.visit(g.target), g.iter, body, [])]
        if isinstance(st, ast.If):
            st.test = N(x)
        else:
            st.value = N(x)
        return pre + [st]


class NextLoop(Base):
    """for x in xs -> it = iter(xs); while True: try: x = next(it) except StopIteration: break"""

    def one(self, st, rest):
        if isinstance(st, ast.For) and not st.orelse:
            it = self.fresh('it')
            return [ast.Assign([N(it, True)], ast.Call(N('iter'), [st.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([st.target], ast.Call(N('next'), [N(it)], []))],
                              [ast.ExceptHandler(N('StopIteration'), None, [ast.Break()])], [], [])] + st.body, [])]


class Enumerate(Base):
    """for x in xs -> for i, x in enumerate(xs)"""

    def one(self, st, rest):
        if isinstance(st, ast.For):
            return [ast.For(ast.Tuple([N(self.fresh('i'), True), st.target], ast.Store()), ast.Call(N('enumerate'), [st.iter], []), st.body, st.orelse)]


class Listed(Base):
    """for x in xs -> for x in list(xs)"""

    def one(self, st, rest):
        if isinstance(st, ast.For) and not has(self.func[-1], ast.Yield, ast.YieldFrom):
            st.iter = ast.Call(N('list'), [st.iter], [])
            return [st]


class Format(Base):
    """'..{}..'.format(a) -> f-strings; '%s' % -> format"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            s = n.func.value.value
            parts = s.split('{}')
            if len(parts) == len(n.args) + 1 and not any('{' in p or '}' in p for p in parts):
                vs = []
                for i, p in enumerate(parts):
                    if p:
                        vs.append(ast.Constant(p))
                    if i < len(n.args):
                        vs.append(ast.FormattedValue(n.args[i], -1, None))
                return ast.JoinedStr(vs)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            s = n.left.value
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if s.count('%') == s.count('%s') == len(args) and '{' not in s and isinstance(n.right, (ast.Tuple, ast.Constant, ast.Name, ast.Attribute, ast.Call)):
                return ast.Call(ast.Attribute(ast.Constant(s.replace('%s', '{}')), 'format', ast.Load()), args, [])
        return n


class Alias(Base):
    """the value of an attribute call's receiver in a variable: x.f.append(y) -> t = x.f; t.append(y)"""

    def one(self, st, rest):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and isinstance(st.value.func.value, (ast.Attribute, ast.Subscript)):
            x = self.fresh('target')
            pre = ast.Assign([N(x, True)], st.value.func.value)
            st.value.func.value = N(x)
            return [pre, st]


class TempArgs(Base):
    """f(g(x)) as a statement or assigned -> t = g(x); f(t)"""

    def one(self, st, rest):
        v = st.value if isinstance(st, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) \
                and not isinstance(getattr(v.func, 'value', None), ast.Call):
            x = self.fresh('arg')
            pre = ast.Assign([N(x, True)], v.args[0])
            v.args[0] = N(x)
            return [pre, st]


class TempTest(Base):
    """if E -> t = E; if t"""

    def one(self, st, rest):
        if isinstance(st, ast.If) and not isinstance(st.test, (ast.Name, ast.Constant)):
            x = self.fresh('test')
            pre = ast.Assign([N(x, True)], st.test)
            st.test = N(x)
            return [pre, st]


class Demorgan(Base):
    """a and b -> not (not a or not b) in tests; is not -> not is; not in -> not .. in"""

    def test(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), self.test(v)) for v in t.values]))
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.IsNot, ast.NotIn, ast.NotEq)):
            op = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}[type(t.ops[0])]()
            return ast.UnaryOp(ast.Not(), ast.Compare(t.left, [op], t.comparators))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n


class Nested(Base):
    """if a and b: A (no else) -> if a: if b: A"""

    def one(self, st, rest):
        if isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And):
            body = st.body
            for v in reversed(st.test.values):
                body = [ast.If(v, body, [])]
            return body


class Noop(Base):
    """statements that do nothing"""

    def visit_FunctionDef(self, node):
        super().visit_FunctionDef(node)
        i = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, ast.parse('unused_ = 0').body[0])
        return node


class SingleReturn(Base):
    """if c: return A; return B -> if c: r = A else: r = B; return r"""

    def body(self, sts):
        sts = super().body(sts)
        if self.func and len(sts) >= 2 and isinstance(sts[-1], ast.Return) and sts[-1].value is not None and isinstance(sts[-2], ast.If) \
                and not sts[-2].orelse and isinstance(sts[-2].body[-1], ast.Return) and sts[-2].body[-1].value is not None:
            x = self.fresh('value')
            c, r = sts[-2], sts[-1]
            c.body = c.body[:-1] + [ast.Assign([N(x, True)], c.body[-1].value)]
            c.orelse = [ast.Assign([N(x, True)], r.value)]
            sts = sts[:-1] + [ast.Return(N(x))]
        return sts


class Constants(Base):
    """tuples of constants move to the module"""

    def __init__(self):
        super().__init__()
        self.made = []

    def visit_Tuple(self, n):
        if self.func and isinstance(n.ctx, ast.Load) and n.elts and all(isinstance(e, ast.Constant) for e in n.elts):
            x = self.fresh('_CONST')
            self.made.append(ast.Assign([N(x, True)], n))
            return N(x)
        return self.generic_visit(n)

    def visit_FunctionDef(self, node):
        d = node.args.defaults
        node.args.defaults = []
        super().visit_FunctionDef(node)
        node.args.defaults = d
        return node

    def finish(self, tree):
        i = 0
        while i < len(tree.body) and not isinstance(tree.body[i], (ast.FunctionDef, ast.ClassDef)):
            i += 1
        tree.body[i:i] = self.made


class Comprehend(Base):
    """x = []; for ..: [if c:] x.append(E) -> x = [E for .. if c]"""

    def body(self, sts):
        sts = super().body(sts)
        if not self.func:
            return sts
        out = []
        i = 0
        while i < len(sts):
            s = sts[i]
            if i + 1 < len(sts) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and isinstance(s.value, ast.List) and not s.value.elts and isinstance(sts[i + 1], ast.For):
                r = self.comp(s.targets[0].id, sts[i + 1])
                if r is not None:
                    out.append(ast.Assign(s.targets, r))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out

    def comp(self, x, f):
        gens = []
        while True:
            if isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                gens.append(ast.comprehension(f.target, f.iter, [], 0))
            elif isinstance(f, ast.If) and not f.orelse and len(f.body) == 1:
                gens[-1].ifs.append(f.test)
            elif isinstance(f, ast.Expr) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Attribute) \
                    and f.value.func.attr == 'append' and isinstance(f.value.func.value, ast.Name) and f.value.func.value.id == x:
                e = f.value.args[0]
                if x in names(e, ast.Load) or any(x in names(g.iter, ast.Load) for g in gens):
                    return None
                return ast.ListComp(e, gens)
            else:
                return None
            f = f.body[0]


class Keywords(Base):
    """str methods and builtins are left alone; assignments of several targets are split"""

    def one(self, st, rest):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple) \
                and len(st.value.elts) == len(st.targets[0].elts):
            ts = [self.fresh('v') for _ in st.value.elts]
            return [ast.Assign([N(t, True)], v) for t, v in zip(ts, st.value.elts)] + \
                [ast.Assign([a], N(t)) for a, t in zip(st.targets[0].elts, ts)]
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)):
            return [ast.Assign([st.target], ast.BinOp(N(st.target.id), st.op, st.value))] if not isinstance(st.value, (ast.List, ast.ListComp)) else None


class Elif(Base):
    """if c: ...return  rest -> if c: ... else: rest"""

    def body(self, sts):
        sts = super().body(sts)
        for i, s in enumerate(sts[:-1]):
            if self.func and isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = sts[i + 1:]
                return sts[:i + 1]
        return sts


KINDS = {c.__name__.lower(): c for c in Base.__subclasses__()}


def main():
    kind, d = sys.argv[1:3]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    n = 0
    for root, _, files in os.walk(os.path.join(d, 'xigt')):
        for f in files:
            p = os.path.join(root, f)
            if not f.endswith('.py') or only and only not in p:
                continue
            tree = ast.parse(open(p).read())
            before = ast.dump(tree)
            t = KINDS[kind]()
            tree = t.visit(tree)
            if hasattr(t, 'finish'):
                t.finish(tree)
            ast.fix_missing_locations(tree)
            if ast.dump(tree) != before:
                n += 1
                open(p, 'w').write(ast.unparse(tree) + '\n')
    print(kind, n, 'files')


if __name__ == '__main__':
    main()
