#!/usr/bin/env python3
"""Development tool: print a cleaned transcription of repository functions (no docstrings, logging, debug prints) as a starting point
for a specification.  ref.py module func [func ...]"""
import ast
import builtins
import sys
import textwrap

LOG = {'debug', 'info', 'warning', 'error', 'flow', 'critical'}


def is_log(s):
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
        return False
    f = s.value.func
    return (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'log' and f.attr in LOG) or \
        (isinstance(f, ast.Name) and f.id in ('old_print_wrapper', 'print', 'print_triplet'))


class Clean(ast.NodeTransformer):
    def body(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if is_log(s):
                continue
            s = self.visit(s)
            if s is None:
                continue
            if isinstance(s, list):
                out += s
            else:
                out.append(s)
        return out

    def visit_If(self, s):
        if isinstance(s.test, ast.Constant) and not s.test.value:
            return self.body(s.orelse) or None
        s.body = self.body(s.body)
        s.orelse = self.body(s.orelse)
        if not s.body and not s.orelse:
            return None
        s.body = s.body or [ast.Pass()]
        return s

    def visit_For(self, s):
        s.body = self.body(s.body) or [ast.Pass()]
        s.orelse = self.body(s.orelse)
        return s

    visit_While = visit_For

    def visit_FunctionDef(self, s):
        s.body = self.body(s.body) or [ast.Pass()]
        return s

    def visit_With(self, s):
        s.body = self.body(s.body) or [ast.Pass()]
        return s


def free_names(fn):
    bound = set()
    used = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            (used if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
        elif isinstance(n, ast.FunctionDef):
            bound.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
    return used - bound - set(dir(builtins))


def main():
    mod, names = sys.argv[1], sys.argv[2:]
    t = ast.parse(open(f'/repo/termfactory/{mod}.py').read())
    fns = [n for n in t.body if isinstance(n, ast.FunctionDef) and (not names or n.name in names)]
    free = set()
    out = []
    for f in fns:
        free |= free_names(f)
        f = Clean().visit(f)
        f.decorator_list = []
        dom = {}
        for a in f.args.args:
            a.annotation = ast.Constant('TODO')
        target = f.name
        f.name = 'ref_' + f.name.strip('_')
        out.append(f"@spec('{mod}.{target}', props='')\n" + ast.unparse(f))
    print(textwrap.fill('# free: ' + ', '.join(sorted(free)), 150))
    print('\n\n'.join([''] + out))


main()
