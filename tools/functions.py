#!/usr/bin/env python3
"""List the functions of /repo/xigt in contracts/functions.txt (run when contracts are written, not by checks)."""
import ast
import os
out = []


def walk(body, qual):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = qual + '.' + n.name
            if isinstance(n, ast.FunctionDef):
                out.append(q)
            walk(n.body, q)
        else:
            for f in ('body', 'orelse', 'finalbody'):
                walk([x for x in getattr(n, f, []) if isinstance(x, ast.AST)], qual) if isinstance(getattr(n, f, None), list) else None


for root, _, files in os.walk('/repo/xigt'):
    for f in files:
        if f.endswith('.py'):
            p = os.path.join(root, f)
            m = os.path.relpath(p, '/repo')[:-3].replace('/', '.').replace('.__init__', '')
            walk(ast.parse(open(p).read()).body, m)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'functions.txt'), 'w').write('\n'.join(sorted(set(out))) + '\n')
