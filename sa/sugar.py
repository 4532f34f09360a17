"""Source forms reduced to simpler ones before analysis: match statements, and local names for an item of a container."""
import ast
import copy

MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard'}


def at(new, old):
    for n in ast.walk(new):
        if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, 'lineno'):
            ast.copy_location(n, old)
    return ast.fix_missing_locations(new)


class Put(ast.NodeTransformer):
    """a name replaced by an expression"""
    def __init__(self, table):
        self.table = table

    def visit_Name(self, n):
        if n.id in self.table and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.table[n.id]), n)
        return n


# ---------------------------------------------------------------- match
def load(n):
    return ast.Name(n, ast.Load())


def pattern(p, x):
    """(conditions, [(name, expression)]) under which a pattern accepts x; None: not reduced"""
    if isinstance(p, ast.MatchValue):
        return [ast.Compare(x, [ast.Eq()], [p.value])], []
    if isinstance(p, ast.MatchSingleton):
        return [ast.Compare(x, [ast.Is()], [ast.Constant(p.value)])], []
    if isinstance(p, ast.MatchAs):
        if p.pattern is None:
            return [], [(p.name, x)] if p.name else []
        r = pattern(p.pattern, x)
        return r and (r[0], r[1] + [(p.name, x)])
    if isinstance(p, ast.MatchOr):
        rs = [pattern(q, x) for q in p.patterns]
        if any(r is None or r[1] for r in rs):
            return None
        return [ast.BoolOp(ast.Or(), [both(r[0]) for r in rs])], []
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        same = isinstance(x, ast.Tuple) and len(x.elts) == len(p.patterns)
        conds = [] if same else [ast.Compare(ast.Call(load('len'), [x], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
        binds = []
        for i, q in enumerate(p.patterns):
            r = pattern(q, x.elts[i] if same else ast.Subscript(x, ast.Constant(i), ast.Load()))
            if r is None:
                return None
            conds += r[0]
            binds += r[1]
        return conds, binds
    if isinstance(p, ast.MatchClass) and not p.patterns:
        conds, binds = [ast.Call(load('isinstance'), [x, p.cls], [])], []
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            r = pattern(q, ast.Attribute(x, a, ast.Load()))
            if r is None:
                return None
            conds += r[0]
            binds += r[1]
        return conds, binds
    return None


def both(conds):
    return ast.Constant(True) if not conds else conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)


class Matches(ast.NodeTransformer):
    count = 0

    def visit_Match(self, n):
        self.generic_visit(n)
        pre = []
        x = n.subject

        def hold(e):
            if isinstance(e, (ast.Name, ast.Constant)):
                return e
            self.count += 1
            name = f'matched__{self.count}'
            pre.append(ast.Assign([ast.Name(name, ast.Store())], e, lineno=n.lineno))
            return load(name)
        x = ast.Tuple([hold(e) for e in x.elts], ast.Load()) if isinstance(x, ast.Tuple) else hold(x)
        chain = []
        for c in reversed(n.cases):
            r = pattern(c.pattern, x)
            if r is None:
                return n
            conds, binds = r
            if c.guard is not None:
                conds = conds + [Put(dict(binds)).visit(copy.deepcopy(c.guard))]
            body = [ast.Assign([ast.Name(k, ast.Store())], copy.deepcopy(v), lineno=n.lineno) for k, v in binds] + c.body
            chain = [ast.If(copy.deepcopy(both(conds)), body, chain)] if conds else body
        return [at(s, n) for s in pre + chain]


# ---------------------------------------------------------------- local names for items
def root(e):
    while isinstance(e, ast.Subscript) or is_setdefault(e):
        e = e.value if isinstance(e, ast.Subscript) else e.func.value
    return e.id if isinstance(e, ast.Name) else None


def is_setdefault(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'setdefault' and len(e.args) == 2 and not e.keywords


def item(e):
    """the subscript expression that denotes what e returned"""
    if isinstance(e, ast.Subscript):
        return ast.Subscript(item(e.value), e.slice, ast.Load())
    if is_setdefault(e):
        return ast.Subscript(item(e.func.value), e.args[0], ast.Load())
    return e


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def calls(e):
    return any(isinstance(n, ast.Call) and not is_setdefault(n) and not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'max', 'min', 'sum', 'abs', 'str', 'tuple')) for n in ast.walk(e))


def changed_through(stmts, x):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == x:
                return True
            if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and root(n) == x:
                return True
            if is_setdefault(n) and root(n) == x:
                return True
    return False


def stored(stmts):
    return {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}


def replaced(stmts, base):
    """is an item of the container given another object"""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and root(n) == base:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT - {'setdefault'} and root(n.func.value) == base:
                return True
    return False


def alias_block(fn, body):
    for j, s in enumerate(body):
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                alias_block(fn, getattr(s, f))
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            continue
        e, x = s.value, s.targets[0].id
        if not (isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice) or is_setdefault(e)) or calls(e):
            continue
        base, rest = root(e), body[j + 1:]
        if base is None or base == x or not changed_through(rest, x):
            continue
        inside = {id(n) for r in rest for n in ast.walk(r)}
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and n is not s.targets[0]]
        if any(id(n) not in inside for n in uses):
            continue
        if any(isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == x for r in rest for n in ast.walk(r)):
            continue
        aug = {id(n.target) for r in rest for n in ast.walk(r) if isinstance(n, ast.AugAssign)}
        if any(not isinstance(n.ctx, ast.Load) and id(n) not in aug for n in uses):
            continue
        if names(item(e)) & (stored(rest) - {x}) or replaced(rest, base):
            continue
        it = item(e)

        class Use(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id == x:
                    new = copy.deepcopy(it)
                    for y in ast.walk(new):
                        if isinstance(y, (ast.expr, ast.stmt)):
                            ast.copy_location(y, n)
                    new.ctx = n.ctx
                    return new
                return n
        body[j] = ast.copy_location(ast.Expr(e), s)
        body[j + 1:] = [Use().visit(r) for r in rest]
        return alias_block(fn, body)


def reduce(tree):
    Matches().visit(tree)
    for fn in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        alias_block(fn, fn.body)
