"""May-mutate analysis: which parameters and which module-level objects a function can change.

A value is a tuple of sets of roots, one per depth: what the object itself may be, what its elements may be, what theirs
may be, and so on (the last one stands for everything deeper).
Roots are ('param', name), ('inner', name, depth), ('global', module, name), ('default', module.func, param).  Flow-sensitive over local names,
joined at branches, iterated over loops; calls of repository functions use their summaries (fixpoint).
"""
import ast
from .src import kept_by

E = frozenset()
K = 4
NEW = (E,) * K
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'appendleft', 'extendleft', 'popleft', 'rotate',
            'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', 'move_to_end', 'subtract'}
ELEMENT = {'get', 'pop', 'setdefault', 'popitem', 'popleft', '__getitem__'}
VIEW = {'items', 'values', 'keys', 'copy', 'elements', 'most_common', '_replace', '_asdict', 'union', 'intersection', 'difference'}
TUPLES = {'zip', 'zip_longest', 'enumerate', 'product', 'permutations', 'combinations', 'combinations_with_replacement', 'groupby', 'pairwise'}
SCALAR = {'len', 'sum', 'str', 'int', 'float', 'bool', 'repr', 'isinstance', 'any', 'all', 'abs', 'ord', 'chr', 'range', 'print', 'hash', 'id', 'round', 'type', 'format', 'factorial'}


def join(*vs):
    return tuple(frozenset().union(*(v[k] for v in vs)) for k in range(K)) if vs else NEW


def down(v, n=1):
    """the value put n containers deep"""
    for _ in range(n):
        v = (E,) + v[:K - 2] + (v[K - 2] | v[K - 1],)
    return v


def elem(v):
    """an element of the object"""
    return v[1:] + v[-1:]


def again(v):
    """a new object with the same elements"""
    return (E,) + v[1:]


def whole(rs):
    """anything that has these roots anywhere"""
    return (rs,) * K


def smear(*vs):
    """a new object made from the contents of these in an unknown way"""
    rs = frozenset().union(*(x for v in vs for x in v[1:])) if vs else E
    return (E,) + (rs,) * (K - 1)


def shallow(*vs):
    """a new container holding these objects"""
    return down(join(*vs))


def mutable(n):
    """can the object that a module-level expression makes be changed in place"""
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
        return name in ('list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter', 'sorted', 'bytearray', 'SimpleNamespace', 'copy', 'deepcopy', 'split', 'fromkeys', 'count', 'iter', 'cycle')
    if isinstance(n, ast.Tuple):
        return any(mutable(x) for x in n.elts)
    if isinstance(n, ast.IfExp):
        return mutable(n.body) or mutable(n.orelse)
    if isinstance(n, ast.BinOp):
        return mutable(n.left) or mutable(n.right)
    if isinstance(n, ast.Subscript):
        return isinstance(n.slice, ast.Slice) and mutable(n.value) or inside(n.value)
    return False


def inside(n):
    """can it hold objects that can be changed in place"""
    if isinstance(n, (ast.List, ast.Set, ast.Tuple)):
        return any(mutable(x) for x in n.elts)
    if isinstance(n, ast.Dict):
        return any(mutable(x) for x in n.values)
    if isinstance(n, (ast.ListComp, ast.SetComp)):
        return mutable(n.elt)
    if isinstance(n, ast.DictComp):
        return mutable(n.value)
    return False


class Summary:
    def __init__(self):
        self.mut = {}            # root -> first site (text)
        self.ret = NEW

    def key(self):
        return frozenset(self.mut), self.ret


class Analysis:
    def __init__(self, modules):
        """modules: name -> Module (names as imported)"""
        self.modules = modules
        self.sums = {}
        self.sites = {}          # ('global', m, n) -> [(func, node, how)]
        self.stack = []
        for _ in range(6):
            before = {k: s.key() for k, s in self.sums.items()}
            self.sites = {}
            for m in {id(m): m for m in modules.values()}.values():
                for f in m.funcs.values():
                    self.run(f)
            if before == {k: s.key() for k, s in self.sums.items()}:
                break

    # ---------------------------------------------------------------- functions
    def run(self, f):
        k = (f.module.name, f.name)
        s = self.sums.setdefault(k, Summary())
        a = f.node.args
        env = {}
        pos = a.posonlyargs + a.args
        for p in pos + a.kwonlyargs:
            # truncation dictionaries hold integers
            env[p.arg] = (frozenset([('param', p.arg)]),) + tuple(E if 'trunc' in p.arg else frozenset([('inner', p.arg, k)]) for k in range(1, K))
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (isinstance(d, ast.Call) and getattr(d.func, 'id', '') in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict')):
                r = ('default', f'{f.module.name}.{f.name}', p.arg)
                env[p.arg] = tuple(x | {r} for x in env[p.arg])
        for p in (a.vararg, a.kwarg):
            if p is not None:
                env[p.arg] = (E,) + tuple(frozenset([('inner', p.arg, k)]) for k in range(1, K))
        w = Walk(self, f, env, s)
        w.block(f.node.body)
        s.ret = join(s.ret, w.ret)
        n = self.kept(f)
        if n:
            r = ('global', f.module.name, f'results kept by {n} of {f.name}')
            s.ret = tuple(x | {r} for x in s.ret)
        return s

    def kept(self, f):
        def find(name):
            r = self.resolve(f.module, name)
            m = self.modules.get(r[0]) if r else None
            return m.funcs.get(r[1]) if m else None
        return kept_by(f, find)

    def resolve(self, m, name, seen=()):
        """(home module, name) of a module-level name"""
        if name in m.imports:
            mod, attr = m.imports[name]
            if attr is None:
                return ('module', mod)
            if mod in self.modules and mod not in seen:
                return self.resolve(self.modules[mod], attr, seen + (mod,)) or (mod, attr)
            return ('extern', f'{mod}.{attr}')
        if name in m.funcs or name in m.assigns or name in m.classes:
            return (m.name, name)
        for st in m.stars:
            if st in self.modules and st not in seen:
                r = self.resolve(self.modules[st], name, seen + (m.name,))
                if r:
                    return r
        return None


    def globalv(self, mod, name):
        m = self.modules.get(mod)
        g = frozenset([('global', mod, name)])
        if m is None:
            return NEW
        if name in m.assigns:
            ns = m.assigns[name]
            if not any(n is not None and mutable(n) for n in ns):
                return NEW
            empty = any(isinstance(n, (ast.List, ast.Dict, ast.Set)) and not (getattr(n, 'elts', None) or getattr(n, 'values', None)) or isinstance(n, ast.Call) for n in ns)
            return whole(g) if empty or any(n is not None and inside(n) for n in ns) else (g,) + (E,) * (K - 1)
        if name in m.funcs or name in m.classes:
            return whole(g)      # attributes of a function or class
        return NEW


class Walk:
    def __init__(self, an, f, env, summ, depth=0):
        self.an, self.f, self.m, self.env, self.s, self.ret, self.depth = an, f, f.module, env, summ, NEW, depth
        self.local = {}
        self.globals = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}

    # -------------------------------------------------------------- effects
    def mutate(self, v, node, how):
        for r in v[0]:
            self.s.mut.setdefault(r, f'{self.m.name}.{self.f.qual}:{node.lineno} {how}')
            if r[0] in ('global', 'default'):
                self.an.sites.setdefault(r, []).append((self.f, node, how))

    def grow(self, target, v, depth=1):
        """the object denoted by an expression now also holds v"""
        if isinstance(target, ast.Name) and target.id in self.env:
            self.env[target.id] = join(self.env[target.id], down(v, depth))
        elif isinstance(target, (ast.Subscript, ast.Attribute)):
            self.grow(target.value, v, depth + (not (isinstance(target, ast.Subscript) and isinstance(target.slice, ast.Slice))))
        elif isinstance(target, ast.Call) and isinstance(target.func, ast.Attribute) and target.func.attr in ELEMENT:
            self.grow(target.func.value, v, depth + 1)

    # -------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, *bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            outs.append(self.env)
        keys = set().union(*outs)
        self.env = {k: join(*(o[k] for o in outs if k in o)) for k in keys}

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.local[s.name] = s
            self.env.pop(s.name, None)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.ev(s.target)
                listy = isinstance(s.value, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.SetComp, ast.DictComp)) or (isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') in ('list', 'sorted', 'set', 'dict'))
                if listy and isinstance(s.op, (ast.Add, ast.BitOr, ast.Mult, ast.BitAnd, ast.Sub)):
                    self.mutate(old, s, f'{s.target.id} {type(s.op).__name__}= list')
                if s.target.id in self.globals:
                    self.note_global(s.target.id, s)
                else:
                    self.env[s.target.id] = join(old, again(v))
            else:
                self.mutate(self.ev(s.target.value), s, f'{ast.unparse(s.target)} is reassigned')
                self.grow(s.target.value, join(v, again(v)))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value), s, f'del {ast.unparse(t)}')
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                before = dict(self.env)
                self.bind(s.target, elem(it), None)
                self.block(s.body)
                self.env = {k: join(*(o[k] for o in (before, self.env) if k in o)) for k in set(before) | set(self.env)}
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test)
                before = dict(self.env)
                self.block(s.body)
                self.env = {k: join(*(o[k] for o in (before, self.env) if k in o)) for k in set(before) | set(self.env)}
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            c = s.test.value if isinstance(s.test, ast.Constant) else None
            if c is None:
                self.branch(s.body, s.orelse)
            else:
                self.block(s.body if c else s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            self.branch(*[h.body for h in s.handlers], [])
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = join(self.ret, self.ev(s.value))
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.branch(*[c.body for c in s.cases], [])

    def note_global(self, name, node):
        r = ('global', self.m.name, name)
        self.s.mut.setdefault(r, f'{self.m.name}.{self.f.qual}:{node.lineno} global {name} is rebound')
        self.an.sites.setdefault(r, []).append((self.f, node, 'rebound'))

    def bind(self, t, v, value):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.note_global(t.id, t)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            same = isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts)
            vals = [self.ev(x) for x in value.elts] if same else [elem(v)] * len(t.elts)
            for x, y in zip(t.elts, vals):
                self.bind(x, y, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, again(v), None)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            base = self.ev(t.value)
            self.mutate(base, t, f'{ast.unparse(t)} is assigned')
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                self.grow(t.value, elem(v))
            else:
                self.grow(t.value, v)

    # -------------------------------------------------------------- expressions
    def ev(self, n):
        if n is None or isinstance(n, ast.Constant):
            return NEW
        if isinstance(n, ast.Name):
            if n.id in self.env and n.id not in self.globals:
                return self.env[n.id]
            if n.id in self.local:
                return NEW
            r = self.an.resolve(self.m, n.id)
            if r and r[0] not in ('module', 'extern'):
                return self.an.globalv(*r)
            return NEW
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id not in self.env:
                r = self.an.resolve(self.m, n.value.id)
                if r and r[0] == 'module' and r[1] in self.an.modules:
                    h = self.an.resolve(self.an.modules[r[1]], n.attr)
                    if h and h[0] not in ('module', 'extern'):
                        return self.an.globalv(*h)
            return elem(self.ev(n.value))
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value)
            if isinstance(n.slice, ast.Slice):
                return again(v)
            self.ev(n.slice)
            return elem(v)
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            return join(*[again(self.ev(x.value)) if isinstance(x, ast.Starred) else shallow(self.ev(x)) for x in n.elts])
        if isinstance(n, ast.Dict):
            return join(*[again(self.ev(x)) if k is None else shallow(self.ev(x)) for k, x in zip(n.keys, n.values)])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in n.generators:
                it = self.ev(g.iter)
                self.bind(g.target, elem(it), None)
                for c in g.ifs:
                    self.ev(c)
            v = shallow(self.ev(n.value), self.ev(n.key)) if isinstance(n, ast.DictComp) else shallow(self.ev(n.elt))
            self.env = saved
            return v
        if isinstance(n, ast.IfExp):
            self.ev(n.test)
            return join(self.ev(n.body), self.ev(n.orelse))
        if isinstance(n, ast.BoolOp):
            return join(*[self.ev(x) for x in n.values])
        if isinstance(n, ast.BinOp):
            return join(again(self.ev(n.left)), again(self.ev(n.right)))
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.bind(n.target, v, None)
            return v
        if isinstance(n, ast.Lambda):
            return NEW
        if isinstance(n, ast.Starred):
            return self.ev(n.value)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return NEW

    def call(self, n):
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in self.local:
                return self.inline(self.local[f.id], n, args, kws)
            if f.id in self.env:
                return shallow(*args, *kws.values())
            r = self.an.resolve(self.m, f.id)
            if r and r[0] in self.an.modules and r[1] in self.an.modules[r[0]].funcs:
                return self.known(self.an.modules[r[0]].funcs[r[1]], n, args, kws)
            if f.id in SCALAR or r and r[0] == 'extern' and r[1].rsplit('.', 1)[-1] in SCALAR | {'deepcopy'}:
                return NEW
            if f.id in ('next', 'getattr'):
                return join(elem(args[0]), *args[1:]) if args else NEW
            if f.id in ('max', 'min'):
                return join(*args, *map(elem, args))
            if f.id in ('list', 'tuple', 'set', 'sorted', 'reversed', 'iter', 'frozenset', 'deque'):
                return again(join(*args))
            if f.id == 'filter':
                return again(join(*args[1:]))
            if f.id == 'chain' and not any(isinstance(a, ast.Starred) for a in n.args):
                return again(join(*args))
            if f.id in TUPLES and not any(isinstance(a, ast.Starred) for a in n.args):
                return down(again(join(*args)))
            if f.id in TUPLES:
                return down(smear(*args))
            if f.id == 'reduce':
                return elem(smear(*args))
            if f.id in ('dict', 'map'):
                return join(smear(*args), shallow(*kws.values()))
            if f.id == 'setattr' and args:
                self.mutate(args[0], n, 'setattr')
                return NEW
            return shallow(*args, *kws.values())
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id not in self.env:
                r = self.an.resolve(self.m, f.value.id)
                if r and r[0] == 'module':
                    if r[1] in self.an.modules:
                        h = self.an.resolve(self.an.modules[r[1]], f.attr)
                        if h and h[0] in self.an.modules and h[1] in self.an.modules[h[0]].funcs:
                            return self.known(self.an.modules[h[0]].funcs[h[1]], n, args, kws)
                        return shallow(*args, *kws.values())
                    if f.attr == 'deepcopy':
                        return NEW
                    if f.attr == 'copy':
                        return again(args[0]) if args else NEW
                    if f.attr in TUPLES:
                        return down(again(join(*args)) if not any(isinstance(a, ast.Starred) for a in n.args) else smear(*args))
                    return smear(*map(down, args))
            base = self.ev(f.value)
            if f.attr in MUTATORS:
                self.mutate(base, n, f'{ast.unparse(f)}()'[:60])
                vals = [join(a, elem(a)) if f.attr in ('extend', 'update') else a for a in args] + list(kws.values())
                if f.attr in ('extend', 'extendleft'):
                    vals = [elem(a) for a in args]
                if vals:
                    self.grow(f.value, join(*vals))
            if f.attr in ELEMENT:
                return join(elem(base), *args)
            if f.attr in ('items', 'most_common'):
                return down(again(base))
            if f.attr in VIEW:
                return join(again(base), *map(again, args), shallow(*kws.values()))
            if base[0] & {g for g in base[0] if g[0] == 'global' and g[2] in self.an.modules.get(g[1], self.m).classes}:
                return shallow(*args)
            return smear(base, *args) if f.attr not in ('format', 'join', 'split', 'replace', 'strip', 'write', 'count', 'index') else NEW
        self.ev(f)
        return shallow(*args, *kws.values())

    def known(self, fn, n, args, kws):
        s = self.an.sums.get((fn.module.name, fn.name))
        if s is None:
            return NEW
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        val = dict(zip(names, args))
        star = any(isinstance(x, ast.Starred) for x in n.args)
        if star:
            allv = join(*[elem(v) if isinstance(x, ast.Starred) else v for x, v in zip(n.args, args)])
            val = dict.fromkeys(names, allv)
        if a.vararg:
            val[a.vararg.arg] = shallow(*args[len(names):])
        rest = []
        for k, v in kws.items():
            if k is None:
                rest.append(v)
            elif k in names or k in [p.arg for p in a.kwonlyargs]:
                val[k] = v
            else:
                rest.append(shallow(v))
        if a.kwarg:
            val[a.kwarg.arg] = again(join(*rest))
        for r, site in list(s.mut.items()):
            if r[0] in ('param', 'inner'):
                v = val.get(r[1])
                if v is not None:
                    for q in v[0 if r[0] == 'param' else r[2]]:
                        self.s.mut.setdefault(q, f'{site} (called from {self.m.name}.{self.f.qual}:{n.lineno})')
                        if q[0] in ('global', 'default'):
                            self.an.sites.setdefault(q, []).append((self.f, n, f'passed to {fn.name}, {site}'))
            elif r[0] == 'default':
                if r[2] not in val:
                    self.s.mut.setdefault(r, site)
            else:
                self.s.mut.setdefault(r, site)

        def sub(rs):
            out = set()
            for r in rs:
                if r[0] in ('param', 'inner'):
                    out |= val.get(r[1], NEW)[0 if r[0] == 'param' else r[2]]
                else:
                    out.add(r)
            return frozenset(out)
        out = [sub(x) for x in s.ret]
        # what is deeper than the deepest level of a parameter is in its deepest level
        return tuple(out)

    def inline(self, node, n, args, kws):
        if self.depth > 4:
            return shallow(*args)
        saved_env, saved_ret = dict(self.env), self.ret
        names = [p.arg for p in node.args.posonlyargs + node.args.args]
        for p in names + [x.arg for x in node.args.kwonlyargs]:
            self.env[p] = NEW
        self.env.update(zip(names, args))
        self.env.update({k: v for k, v in kws.items() if k})
        self.ret = NEW
        self.depth += 1
        self.block(node.body)
        self.depth -= 1
        out = self.ret
        bound = set(names)
        env = self.env
        self.env = {k: (env[k] if k in env and k not in bound else v) for k, v in saved_env.items()}
        self.ret = saved_ret
        return out
