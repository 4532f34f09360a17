#!/usr/bin/env python3
"""refactor.py NAME OUT   write a behaviour-preserving variant of /repo/termfactory to OUT/termfactory (development aid: checks must stay quiet on it)"""
import ast
import os
import random
import shutil
import sys

REPO = '/repo/termfactory'


def names(f):
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {a.arg for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs}


def fresh(f, base):
    used = names(f)
    i = 0
    while f'{base}{i}' in used:
        i += 1
    return f'{base}{i}'


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and not isinstance(n.test, ast.Constant):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Unelif(ast.NodeTransformer):
    """continue / return guards become else branches"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return)) and body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def visit(self, n):
        self.generic_visit(n)
        if isinstance(n, (ast.For, ast.FunctionDef)):
            n.body = self.block(n.body)
        return n


class Range(ast.NodeTransformer):
    """for i, x in enumerate(xs)  ->  for i in range(len(xs)): x = xs[i]"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(it.args[0], ast.Name) \
                and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            xs = it.args[0]
            stores = [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == xs.id and isinstance(x.ctx, ast.Store)]
            muts = [x for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == xs.id]
            istore = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == n.target.elts[0].id and isinstance(x.ctx, ast.Store)]
            if stores or muts or istore:
                return n
            i = n.target.elts[0].id
            n.iter = ast.parse(f'range(len({xs.id}))', mode='eval').body
            bind = ast.Assign([n.target.elts[1]], ast.parse(f'{xs.id}[{i}]', mode='eval').body)
            n.target = ast.Name(i, ast.Store())
            n.body.insert(0, bind)
        return n


class Unplus(ast.NodeTransformer):
    """s += e -> s = s + e for strings"""
    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and stringish(n.value):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), ast.Add(), n.value))
        return n


def stringish(v):
    if isinstance(v, ast.JoinedStr) or isinstance(v, ast.Constant) and isinstance(v.value, str):
        return True
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        return stringish(v.left) or stringish(v.right)
    if isinstance(v, ast.IfExp):
        return stringish(v.body) or stringish(v.orelse)
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'join'


class Unformat(ast.NodeTransformer):
    """f-strings become concatenations"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                if v.conversion != -1 or v.format_spec is not None:
                    return n
                parts.append(ast.Call(ast.Name('str', ast.Load()), [v.value], []))
        if not parts:
            return n
        out = parts[0]
        for p in parts[1:]:
            out = ast.BinOp(out, ast.Add(), p)
        return out


class Unformat2(ast.NodeTransformer):
    """f-strings become ''.join or str.format"""
    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        text, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.conversion != -1 or v.format_spec is not None:
                    return n
                text += '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), 'format', ast.Load()), args, [])


class Comp(ast.NodeTransformer):
    """x = [e for ...]  ->  loop with append"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        self.cur = n
        n.body = self.block(n.body, n)
        return n

    def block(self, body, f):
        out = []
        for s in body:
            for field in ('body', 'orelse'):
                if isinstance(getattr(s, field, None), list) and not isinstance(s, ast.FunctionDef):
                    setattr(s, field, self.block(getattr(s, field), f))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and not s.value.generators[0].is_async:
                acc = fresh(f, 'collected_')
                comp = s.value
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [comp.elt], []))]
                used = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
                bound = {x.id for g in comp.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                ren = {b: fresh(f, b + '_in_') for b in bound}

                class R(ast.NodeTransformer):
                    def visit_Name(self, m):
                        return ast.Name(ren[m.id], m.ctx) if m.id in ren else m
                for g in reversed(comp.generators):
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    inner = [ast.For(g.target, g.iter, inner, [])]
                if bound & {x.id for x in ast.walk(comp.generators[0].iter) if isinstance(x, ast.Name)}:
                    out.append(s)
                    continue
                out.append(ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())))
                out += [R().visit(x) for x in inner]
                out.append(ast.Assign(s.targets, ast.Name(acc, ast.Load())))
            else:
                out.append(s)
        return out


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal)) and x is not n for x in ast.walk(n)):
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs} | ({n.args.kwarg.arg} if n.args.kwarg else set()) | ({n.args.vararg.arg} if n.args.vararg else set())
        debug = {x.value.id for j in ast.walk(n) if isinstance(j, ast.JoinedStr) for x in ast.walk(j) if isinstance(x, ast.FormattedValue) and isinstance(x.value, ast.Name)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        ren = {x: 'v_' + x for x in loc}

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.copy_location(ast.Name(ren[m.id], m.ctx), m) if m.id in ren else m
        n.body = [R().visit(s) for s in n.body]
        return n


class Extract:
    """the body of each loop of a function without jumps and without rebinding becomes nothing; whole functions become wrappers of an implementation"""
    def apply(self, tree):
        out = []
        for s in tree.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs:
                impl = '_impl_of_' + s.name.strip('_')
                inner = ast.FunctionDef(impl, ast.arguments([], s.args.args, None, [], [], None, []), s.body, [], None, type_params=[])
                call = ast.Call(ast.Name(impl, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in s.args.args], [])
                out.append(inner)
                out.append(ast.FunctionDef(s.name, s.args, [ast.Return(call)], [], None, type_params=[]))
            else:
                out.append(s)
        tree.body = out
        return tree


class Helper:
    """right-hand sides of assignments made of local names only become helper functions"""
    def apply(self, tree):
        out, count = [], 0
        mod = {s.name for s in tree.body if isinstance(s, ast.FunctionDef)}
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                helpers = []
                params = {a.arg for x in ast.walk(s) if isinstance(x, ast.FunctionDef) for a in x.args.args + x.args.kwonlyargs + [y for y in (x.args.vararg, x.args.kwarg) if y]}
                loc = params | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                nest = {x.name for x in ast.walk(s) if isinstance(x, ast.FunctionDef) and x is not s}
                for x in ast.walk(s):
                    if isinstance(x, ast.Assign) and isinstance(x.value, (ast.BinOp, ast.ListComp, ast.IfExp, ast.JoinedStr)) and len(list(ast.walk(x.value))) > 8:
                        bound = {y.id for c in ast.walk(x.value) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
                        free = sorted({y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)} & loc - bound)
                        if {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)} & nest or any(isinstance(y, (ast.NamedExpr, ast.Lambda)) for y in ast.walk(x.value)) or len(free) > 6:
                            continue
                        if any(isinstance(y, ast.Call) and getattr(y.func, 'attr', '') == 'pop' for y in ast.walk(x.value)):
                            continue
                        name = f'_{s.name.strip("_")}_part_{count}'
                        count += 1
                        helpers.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(x.value)], [], None, type_params=[]))
                        x.value = ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])
                out += helpers
            out.append(s)
        tree.body = out
        return tree


class LoopHelper:
    """bodies of for loops whose only effect is `acc.append(...)` or `string += ...` move to a helper returning the addition"""
    def apply(self, tree):
        out, count = [], 0
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                helpers = []
                loc = {a.arg for a in s.args.args + s.args.kwonlyargs} | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if any(isinstance(x, ast.FunctionDef) and x is not s for x in ast.walk(s)):
                    out.append(s)
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.For) and len(x.body) == 1 and isinstance(x.body[0], ast.AugAssign) and isinstance(x.body[0].target, ast.Name) and isinstance(x.body[0].op, ast.Add):
                        e = x.body[0].value
                    elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'append' and len(list(ast.walk(x.value.args[0]))) > 6:
                        e = x.value.args[0]
                    else:
                        continue
                    free = sorted({y.id for y in ast.walk(e) if isinstance(y, ast.Name)} & loc)
                    bound = {y.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for y in ast.walk(c.target) if isinstance(y, ast.Name)}
                    free = [f for f in free if f not in bound]
                    if any(isinstance(y, (ast.NamedExpr, ast.Lambda)) for y in ast.walk(e)) or len(free) > 6:
                        continue
                    name = f'_{s.name.strip("_")}_piece_{count}'
                    count += 1
                    helpers.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(e)], [], None, type_params=[]))
                    call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])
                    if isinstance(x, ast.For):
                        x.body[0].value = call
                    else:
                        x.value.args[0] = call
                out += helpers
            out.append(s)
        tree.body = out
        return tree


class Inline(ast.NodeTransformer):
    """a name assigned once and read once in the next statement disappears"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        self.f = n
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for s in body:
            for field in ('body', 'orelse'):
                if isinstance(getattr(s, field, None), list) and not isinstance(s, ast.FunctionDef):
                    setattr(s, field, self.block(getattr(s, field)))
            if out and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)):
                v = out[-1].targets[0].id
                uses = [x for x in ast.walk(self.f) if isinstance(x, ast.Name) and x.id == v]
                here = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(here) == 1 and not any(isinstance(x, (ast.comprehension, ast.Lambda, ast.JoinedStr)) for x in ast.walk(s)):
                    val = out.pop().value

                    class R(ast.NodeTransformer):
                        def visit_Name(self, m):
                            return val if m.id == v else m
                    out.append(R().visit(s))
                    continue
            out.append(s)
        return out


class Temp(ast.NodeTransformer):
    """returned and tested expressions get a name first"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body, n)
        return n

    def block(self, body, f):
        out = []
        for s in body:
            for field in ('body', 'orelse'):
                if isinstance(getattr(s, field, None), list) and not isinstance(s, ast.FunctionDef):
                    setattr(s, field, self.block(getattr(s, field), f))
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out.append(ast.Assign([ast.Name('outcome', ast.Store())], s.value))
                s.value = ast.Name('outcome', ast.Load())
            elif isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)) and body and s in body:
                out.append(ast.Assign([ast.Name('condition', ast.Store())], s.test))
                s.test = ast.Name('condition', ast.Load())
            out.append(s)
        return out


class Demorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        if all(isinstance(v, (ast.Compare, ast.UnaryOp)) for v in n.values):
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)):
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}[type(n.ops[0])]
            return ast.Compare(n.comparators[0], [sw()], [n.left])
        return n


class Listadd(ast.NodeTransformer):
    """strings are collected in a list and joined at the end"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, ast.FunctionDef) and x is not n for x in ast.walk(n)):
            return n
        first = next((s for s in n.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and s.value.value == ''), None)
        if first is None:
            return n
        v = first.targets[0].id
        uses = [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == v]
        augs = [x for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v and isinstance(x.op, ast.Add)]
        rets = [x for x in ast.walk(n) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == v]
        if len(uses) != 1 + len(augs) + len(rets) or not rets or any(v in {y.id for y in ast.walk(a.value) if isinstance(y, ast.Name)} for a in augs):
            return n

        class R(ast.NodeTransformer):
            def visit_AugAssign(self, a):
                if a in augs:
                    return ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [a.value], []))
                return a

            def visit_Return(self, r):
                if r in rets:
                    return ast.Return(ast.Call(ast.Attribute(ast.Constant(''), 'join', ast.Load()), [ast.Name(v, ast.Load())], []))
                return r
        first.value = ast.List([], ast.Load())
        return R().visit(n)


class While(ast.NodeTransformer):
    """for x in range(...) -> while"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) in (1, 2) and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)) and not any(isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store) for s in n.body for x in ast.walk(s)):
            lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
            hi = it.args[-1]
            if not all(isinstance(x, (ast.Constant, ast.Name, ast.BinOp, ast.Add, ast.Sub, ast.Load)) for x in ast.walk(hi)):
                return n
            if {x.id for x in ast.walk(hi) if isinstance(x, ast.Name)} & {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                return n
            v = n.target.id
            return [ast.Assign([ast.Name(v, ast.Store())], lo),
                    ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [hi]), n.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


class Kwargs:
    """positional arguments of calls to functions of the same module become keywords"""
    def apply(self, tree):
        defs = {s.name: [a.arg for a in s.args.args] for s in tree.body if isinstance(s, ast.FunctionDef) and not s.args.vararg}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in defs and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) > 1:
                ps = defs[n.func.id]
                if len(n.args) <= len(ps):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps[1:], n.args[1:])] + n.keywords
                    n.args = n.args[:1]
        return tree


class Setdefault(ast.NodeTransformer):
    """nested functions move to module level is not tried; `x not in y` and `len(x) == 0` spelled differently"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Gt) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
            return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.GtE) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, int):
            return ast.Compare(n.left, [ast.Gt()], [ast.Constant(n.comparators[0].value - 1)])
        return n


ALL = {c.__name__.lower(): c for c in (Invert, Unelif, Range, Unplus, Unformat, Unformat2, Comp, Rename, Extract, Helper, LoopHelper, Inline, Temp, Demorgan, Listadd, While, Kwargs, Setdefault)}


def main():
    name, out = sys.argv[1:3]
    dst = os.path.join(out, 'termfactory')
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree(os.path.dirname(REPO), out, symlinks=True)
    for fn in sorted(os.listdir(dst)):
        if not fn.endswith('.py') or fn.startswith('test'):
            continue
        p = os.path.join(dst, fn)
        tree = ast.parse(open(p, encoding='utf8').read())
        for t in name.split('+'):
            c = ALL[t]()
            tree = c.apply(tree) if hasattr(c, 'apply') else c.visit(tree)
            ast.fix_missing_locations(tree)
            tree = ast.parse(ast.unparse(tree))
        open(p, 'w', encoding='utf8').write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main()
