#!/usr/bin/env python3
"""Development tool: write spec/ref_<module>.py, the reference definitions of a module, from the reviewed tree (docstrings, logging and
debug prints removed).  Run once per module after reviewing it; the result is committed and never regenerated by a check."""
import ast
import os
import sys
sys.argv, args = [sys.argv[0]], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib.util
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ref.py')).read().rsplit('\nmain()', 1)[0]
ns = {}
exec(compile(src, 'ref.py', 'exec'), ns)
Clean = ns['Clean']
for mod in args:
    t = ast.parse(open(f'/repo/termfactory/{mod}.py').read())
    out = [f'"""Reference definitions for {mod} (see DESIGN.md)."""']
    for s in t.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If):
            if isinstance(s.test, ast.Constant) and s.test.value:
                out += [ast.unparse(x) for x in s.body]
            continue
        if isinstance(s, ast.FunctionDef):
            s = Clean().visit(s)
            out.append('\n')
        if isinstance(s, ast.ClassDef):
            for f in s.body:
                if isinstance(f, ast.FunctionDef):
                    Clean().visit(f)
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and 'log' in ast.unparse(s.value.func):
            continue
        out.append(ast.unparse(s))
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', f'ref_{mod}.py')
    open(p, 'w').write('\n'.join(out) + '\n')
    print(p, len(out))
