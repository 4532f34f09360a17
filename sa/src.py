"""Source model of the repository: parsed modules, import resolution, functions.

Nothing of the repository is imported or executed: files are read and parsed.
"""
import ast
import os
from . import sugar

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'termfactory'


class AnchorError(Exception):
    """an anchor of a rule (module, function, table) has vanished"""


class Func:
    """a function definition (module level, method or nested)"""
    def __init__(self, module, qual, node, parent=None, cls=None):
        self.module, self.qual, self.node, self.parent, self.cls = module, qual, node, parent, cls
        self.name = node.name if hasattr(node, 'name') else '<lambda>'

    def __repr__(self):
        return f'{self.module.name}.{self.qual}'

    @property
    def where(self):
        return f'{PKG}/{self.module.name}.py:{self.qual}'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


CACHES = {'lru_cache', 'cache', 'cached', 'memoize', 'memoise'}
KNOWN = CACHES | {'spec', 'wraps', 'contextmanager', 'staticmethod', 'classmethod', 'property', 'singledispatch', 'overload', 'no_type_check', 'override'}


def deco_name(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''


def plain_decorators(tree):
    """`@d def f(x): B` and `def f(x): B; f = d(f)` become `def f(x): (def w(x): B); return d(w)(x)`"""
    defs = {}
    for s in list(tree.body):
        if isinstance(s, ast.FunctionDef):
            defs[s.name] = s
            for d in reversed([d for d in s.decorator_list if deco_name(d) not in KNOWN]):
                s.decorator_list.remove(d)
                s._decorators = getattr(s, '_decorators', []) + [d]
                wrap(s, lambda inner, d=d: ast.Call(d, [inner], []))
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in defs:
            f = defs[s.targets[0].id]
            if isinstance(s.value, ast.Call) and deco_name(s.value) in KNOWN or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Call) and deco_name(s.value.func) in KNOWN:
                f.decorator_list.append(s.value.func)
            else:
                value = s.value
                f._decorators = getattr(f, '_decorators', []) + [n for n in ast.walk(value) if isinstance(n, ast.Call)]
                class Inner(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.copy_location(ast.Name(f'__{f.name}', n.ctx), n) if n.id == f.name else n
                wrap(f, lambda inner: Inner().visit(value))
            tree.body.remove(s)


def keeps(f):
    """a decorator that stores something in a container of its own: what the inner function returned may be handed out again"""
    made = {t.id for s in f.body if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Dict, ast.List, ast.Call)) for t in s.targets if isinstance(t, ast.Name)}
    for g in ast.walk(f):
        if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f:
            for n in ast.walk(g):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in made:
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'append', 'update', 'add') and isinstance(n.func.value, ast.Name) and n.func.value.id in made:
                    return True
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    return True
    return False


def kept_by(f, resolve):
    """name of the decorator that keeps the results of a function, or None; resolve(name) -> Func or None"""
    for d in f.node.decorator_list:
        if deco_name(d) in CACHES:
            return deco_name(d)
    for d in getattr(f.node, '_decorators', []):
        g = resolve(deco_name(d))
        if g is not None and keeps(g.node):
            return deco_name(d)
    return None


def wrap(f, outer):
    import copy
    a = f.args
    inner = ast.FunctionDef(name=f'__{f.name}', args=copy.deepcopy(a), body=f.body, decorator_list=[], returns=None, type_comment=None, lineno=f.lineno, col_offset=f.col_offset)
    if 'type_params' in ast.FunctionDef._fields:
        inner.type_params = []
    args = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else [])
    kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
    ret = ast.Return(ast.Call(outer(ast.Name(inner.name, ast.Load())), args, kws))
    f.body = [inner, ret]
    for n in [inner] + list(ast.walk(ret)):
        if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, 'lineno'):
            ast.copy_location(n, f)
    ast.fix_missing_locations(f)


class Module:
    def __init__(self, name, path, text=None):
        self.name, self.path = name, path
        if text is None:
            with open(path, encoding='utf-8') as fp:
                text = fp.read()
        self.text = text
        self.tree = ast.parse(self.text, path)
        self.funcs = {}          # top level functions
        self.all_funcs = []      # including nested and methods
        self.classes = {}
        self.assigns = {}        # module level name -> list of value nodes (or None if opaque binding)
        self.imports = {}        # name -> (module, attr or None)
        self.stars = []
        plain_decorators(self.tree)
        sugar.reduce(self.tree)
        self._collect(self.tree.body)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self._collect_funcs(self.tree, '', None, None)
        self._collect_main(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(s.module)
                    else:
                        self.imports[a.asname or a.name] = (s.module, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        same = isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts)
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, []).append(s.value.elts[i] if same else None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(None)
            elif isinstance(s, ast.If):
                c = const_bool(s.test)
                if c is not False:
                    self._collect(s.body)
                if c is not True:
                    self._collect(s.orelse)
            elif isinstance(s, (ast.For, ast.While)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.assigns.setdefault(n.id, []).append(None)
            elif isinstance(s, (ast.With, ast.Try)):
                self._collect(s.body)

    def _collect_main(self, body):
        """the statements run by `python module.py` as a function of their own"""
        main = []
        for s in body:
            t = s.test if isinstance(s, ast.If) else None
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and {ast.dump(x) for x in (t.left, t.comparators[0])} == {
                    ast.dump(ast.parse('__name__', mode='eval').body), ast.dump(ast.parse("'__main__'", mode='eval').body)}:
                main.extend(s.body)
        if main:
            node = ast.parse('def __main__(): pass').body[0]
            node.body = main
            node.lineno = main[0].lineno
            f = Func(self, '__main__', node, None, None)
            self.funcs['__main__'] = f

    def _collect_funcs(self, node, prefix, parent, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(self, prefix + c.name, c, parent, cls)
                c._func = f
                self.all_funcs.append(f)
                if parent is None and cls is None:
                    self.funcs[c.name] = f
                if cls is not None and parent is None:
                    cls.methods[c.name] = f
                self._collect_funcs(c, prefix + c.name + '.', f, None)
            elif isinstance(c, ast.ClassDef):
                k = Cls(self, c)
                self.classes[c.name] = k
                self._collect_funcs(c, prefix + c.name + '.', None, k)
            else:
                self._collect_funcs(c, prefix, parent, cls)


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.assigns = {}
        for s in node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value


def const_bool(test):
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = const_bool(test.operand)
        return None if v is None else not v
    if isinstance(test, ast.BoolOp):
        vs = [const_bool(v) for v in test.values]
        if isinstance(test.op, ast.And):
            if False in vs:
                return False
            return True if all(v is True for v in vs) else None
        if True in vs:
            return True
        return False if all(v is False for v in vs) else None
    return None


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        d = os.path.join(self.root, PKG)
        self.modules = {}
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                self.modules[fn[:-3]] = Module(fn[:-3], os.path.join(d, fn))

    def module(self, name):
        if name not in self.modules:
            raise AnchorError(f'module {name} not found')
        return self.modules[name]

    def func(self, module, name):
        m = self.module(module)
        r = self.resolve(m, name)
        if r is None or r[0] != 'func':
            raise AnchorError(f'function {module}.{name} not found')
        return r[1]

    def norm(self, modname, at=None):
        """module name as used in import statements -> internal module or None"""
        if modname is None:
            return None
        parts = modname.split('.')
        if parts[0] == PKG:
            parts = parts[1:]
        if len(parts) == 1 and getattr(at, 'is_spec', False) and 'ref_' + parts[0] in self.modules:
            return self.modules['ref_' + parts[0]]          # a specification refers to the reference definitions
        if len(parts) == 1 and parts[0] in self.modules:
            return self.modules[parts[0]]
        return None

    def resolve(self, m, name, _seen=None):
        """resolve a module-global name.

        -> ('func', Func) | ('class', Cls) | ('assign', Module, name, values) | ('module', Module)
         | ('extmod', dotted) | ('ext', dotted) | None
        """
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.funcs:
            return ('func', m.funcs[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.assigns:
            return ('assign', m, name, m.assigns[name])
        if name in m.imports:
            mod, attr = m.imports[name]
            im = self.norm(mod, m)
            if attr is None:
                return ('module', im) if im else ('extmod', mod)
            if im:
                r = self.resolve(im, attr, _seen)
                if r is None and attr in self.modules:
                    return ('module', self.modules[attr])
                return r
            if mod in (PKG,) and attr in self.modules:
                return ('module', self.modules[attr])
            return ('ext', f'{mod}.{attr}')
        for s in m.stars:
            im = self.norm(s, m)
            if im:
                r = self.resolve(im, name, _seen)
                if r is not None:
                    return r
        return None

    def io_functions(self):
        """names of the functions that touch files, directly or through the functions they call"""
        if getattr(self, '_io', None) is None:
            calls, io = {}, set()
            for m in self.modules.values():
                for f in m.funcs.values():
                    name = f'{m.name}.{f.name}'
                    out = calls.setdefault(name, set())
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Name):
                            r = self.resolve(m, n.id)
                            if r and r[0] == 'func':
                                out.add(f'{r[1].module.name}.{r[1].name}')
                            if n.id == 'open':
                                io.add(name)
                        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                            r = self.resolve(m, n.value.id)
                            if r and r[0] == 'module' and n.attr in r[1].funcs:
                                out.add(f'{r[1].name}.{n.attr}')
                            if n.attr in ('dump', 'remove', 'unlink', 'write_text', 'makedirs', 'rename', 'system'):
                                io.add(name)
            while True:
                new = {n for n, c in calls.items() if n not in io and c & io}
                if not new:
                    break
                io |= new
            self._io = io
        return self._io

    def functions(self):
        for m in self.modules.values():
            yield from m.all_funcs
