"""Names, imports and call signatures: nothing is used that is not there."""
import ast
import builtins
import symtable
from . import rule, Result
from .purity import repo_modules

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__', '__spec__', '__path__', '__class__'}


def module_names(mods, m, seen=()):
    """names bound at module level; None when a star import cannot be resolved"""
    out = set()
    for n in ast.walk(m.tree):
        p = n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if scope(n) is m.tree:
                out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and scope(n) is m.tree:
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)) and scope(n) is m.tree:
            for a in n.names:
                if a.name == '*':
                    if n.module in mods and n.module not in seen:
                        s = module_names(mods, mods[n.module], seen + (m.name,))
                        if s is None:
                            return None
                        out |= {x for x in s if not x.startswith('_')}
                    elif n.module not in mods:
                        return None
                else:
                    out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.Global):
            out |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name and scope(n) is m.tree:
            out.add(n.name)
    return out


def scope(n):
    p = getattr(n, '_parent', None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Module, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        p = p._parent
    return p


def undefined(mods, m):
    """(function, name) for every name a function reads that nothing binds"""
    names = module_names(mods, m)
    if names is None:
        return None
    out = set()

    def go(t, func):
        for c in t.get_children():
            f = func
            if c.get_type() in ('function', symtable.SymbolTableType.FUNCTION if hasattr(symtable, 'SymbolTableType') else 'function'):
                f = func if func and c.get_name() in ('lambda', 'listcomp', 'genexpr', 'setcomp', 'dictcomp') else (c.get_name() if func is None else func)
            go(c, f)
        if t.get_type() == 'module' or str(t.get_type()) == 'SymbolTableType.MODULE':
            for s in t.get_symbols():
                if s.is_referenced() and not s.is_assigned() and not s.is_imported() and s.get_name() not in names | BUILTINS:
                    out.add(('<module>', s.get_name()))
            return
        for s in t.get_symbols():
            if s.is_referenced() and s.is_global() and s.get_name() not in names and s.get_name() not in BUILTINS:
                out.add((func or t.get_name(), s.get_name()))
    go(symtable.symtable(m.text, m.path, 'exec'), None)
    return out


def dead_branch(n):
    """inside `if False`, or after a raise or return of the same block"""
    p, c = getattr(n, '_parent', None), n
    while p is not None:
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(p, field, None)
            if isinstance(block, list) and c in block:
                if any(isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)) for s in block[:block.index(c)]):
                    return True
        if isinstance(p, ast.If) and isinstance(p.test, ast.Constant) and not p.test.value and c in p.body:
            return True
        if isinstance(p, ast.If) and isinstance(p.test, ast.BoolOp) and isinstance(p.test.op, ast.And) and isinstance(p.test.values[0], ast.Constant) and not p.test.values[0].value and c in p.body:
            return True
        p, c = getattr(p, '_parent', None), p
    return False


def owner(n):
    p = n
    while p is not None and not (isinstance(p, ast.FunctionDef) and scope(p).__class__ is ast.Module):
        p = getattr(p, '_parent', None)
    return p.name if p is not None else '<module>'


def signature_error(node, call):
    """why a call does not fit a definition, or None"""
    a = node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if node.decorator_list:
        return None
    pos = [p.arg for p in a.posonlyargs + a.args]
    kwo = [p.arg for p in a.kwonlyargs]
    if len(call.args) > len(pos) and not a.vararg:
        return f'{len(call.args)} positional arguments for {len(pos)}'
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return f'two values for {k.arg}'
        if k.arg not in pos and k.arg not in kwo and not a.kwarg:
            return f'no parameter {k.arg}'
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] + [p for p, d in zip(kwo, a.kw_defaults) if d is None]
    missing = [p for p in need if p not in given]
    return f'no value for {", ".join(missing)}' if missing else None


def problems(mods):
    """{(module, function, text)} with the line of each; and how many uses were inspected"""
    out, count, skipped = {}, 0, []
    names = {k: module_names(mods, x) for k, x in mods.items()}
    for m in mods.values():
        u = undefined(mods, m)
        if u is None:
            skipped.append(f'{m.name}: star import of a module that is not part of the repository')
        else:
            for f, n in u:
                line = next((x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and owner(x) == f), 0)
                nodes = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and owner(x) == f]
                if not nodes or not all(map(dead_branch, nodes)):
                    out[(m.name, f, f'name {n} is not defined')] = line
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module in mods and not n.level:
                have = names[n.module]
                for a in n.names:
                    count += 1
                    if a.name != '*' and have is not None and a.name not in have:
                        out[(m.name, owner(n), f'{n.module} has no {a.name} to import')] = n.lineno
            elif isinstance(n, ast.Call):
                node = None
                sc, bound = n, set()
                if isinstance(n.func, ast.Name):
                    loc = nested(n, n.func.id)
                    if loc is not None:
                        node = loc
                    else:
                        node = resolve(mods, m, n.func.id)
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    imp = m.imports.get(n.func.value.id)
                    if imp and imp[1] is None and imp[0] in mods:
                        node = resolve(mods, mods[imp[0]], n.func.attr)
                if isinstance(node, ast.FunctionDef):
                    count += 1
                    e = signature_error(node, n)
                    if e and not dead_branch(n):
                        out[(m.name, owner(n), f'call of {node.name}: {e}')] = n.lineno
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                imp = m.imports.get(n.value.id)
                if imp and imp[1] is None and imp[0] in mods and not shadowed(n, n.value.id):
                    count += 1
                    have = names[imp[0]]
                    if have is not None and n.attr not in have and n.attr not in BUILTINS and not dead_branch(n):
                        out[(m.name, owner(n), f'{imp[0]} has no {n.attr}')] = n.lineno
    return out, count, skipped


def shadowed(n, name):
    p = n
    while p is not None:
        if isinstance(p, ast.FunctionDef):
            if name in {a.arg for a in p.args.args + p.args.kwonlyargs} or any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(p)):
                return True
        p = getattr(p, '_parent', None)
    return False


def nested(n, name):
    """a definition of this name in an enclosing function; 'other' when the name is bound otherwise there"""
    p = getattr(n, '_parent', None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            if name in {a.arg for a in p.args.args + p.args.kwonlyargs + p.args.posonlyargs}:
                return 'other'
            if isinstance(p, ast.FunctionDef):
                defs = [x for x in ast.walk(p) if isinstance(x, ast.FunctionDef) and x is not p and x.name == name]
                stores = [x for x in ast.walk(p) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
                if stores or len(defs) > 1:
                    return 'other'
                if defs:
                    return defs[0]
        p = getattr(p, '_parent', None)
    return None


def resolve(mods, m, name, seen=()):
    if name in m.imports:
        mod, attr = m.imports[name]
        if attr is not None and mod in mods and mod not in seen:
            return resolve(mods, mods[mod], attr, seen + (m.name,))
        return None
    if name in m.funcs and name not in m.assigns:
        return m.funcs[name].node
    if name in m.assigns or name in m.classes:
        return None
    for s in m.stars:
        if s in mods and s not in seen:
            r = resolve(mods, mods[s], name, seen + (m.name,))
            if r is not None:
                return r
    return None


# the third part of a labelled term is always a tuple, never an empty set
UNREACHED = {('latex_zhz', 'name sys is not defined')}
ROOTS = {'_glue_': None, 'driver': None, 'truncations': None, 'truncation_keys': None,
         'code_residual_equations': {'generate_residual_equations_file'}, 'code_w_equations': {'generate_w_operator_equations_file'},
         'code_dt_equations': {'generate_dt_amplitude_equations_file'}, 'latex_w_equations': {'ground_state_w_equations_latex', 'excited_state_w_equations_latex'},
         'latex_full_cc': {'generate_full_cc_latex'}, 'latex_zhz': {'generate_z_t_symmetric_latex'}, 'latex_eT_zhz': {'generate_eT_z_t_symmetric_latex'},
         'code_full_cc': {'generate_full_cc_python'}, 'code_eT_zhz': {'generate_eT_zhz_python'}}


def reachable(mods):
    """functions (module, name) that a request can reach, by references"""
    todo = [(k, f) for k, fs in ROOTS.items() if k in mods for f in mods[k].funcs if fs is None or f in fs]
    seen = set(todo)
    while todo:
        k, f = todo.pop()
        m = mods[k]
        for n in ast.walk(m.funcs[f].node):
            node = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not dead_branch(n):
                node = resolve_ref(mods, m, n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and not dead_branch(n):
                imp = m.imports.get(n.value.id)
                if imp and imp[1] is None and imp[0] in mods:
                    node = resolve_ref(mods, mods[imp[0]], n.attr)
            if node and node not in seen:
                seen.add(node)
                todo.append(node)
    return seen


def resolve_ref(mods, m, name, seen=()):
    if name in m.imports:
        mod, attr = m.imports[name]
        if attr is not None and mod in mods and mod not in seen:
            return resolve_ref(mods, mods[mod], attr, seen + (m.name,))
        return None
    if name in m.funcs:
        return (m.name, name)
    for s in m.stars:
        if s in mods and s not in seen:
            r = resolve_ref(mods, mods[s], name, seen + (m.name,))
            if r is not None:
                return r
    return None


@rule('P22', 'every name, import and call signature that a request can reach exists')
def names(ctx):
    res = Result()
    mods = repo_modules(ctx)
    found, count, skipped = problems(mods)
    live = reachable(mods)
    for s in skipped:
        res.skip(s)
    for _ in range(count - len(found)):
        res.ok()
    sites = [(mod, what) for mod, f, what in found if f == '<module>' or (mod, f) in live]
    for (mod, f, what), line in sorted(found.items()):
        if f != '<module>' and (mod, f) not in live or (mod, what) in UNREACHED and sites.count((mod, what)) == 1:
            res.skip(f'{mod}.{f}: {what} (no request reaches this function)')
        else:
            res.bad(f'termfactory/{mod}.py:{line} {f}', what, key=f'{mod}.{f}: {what}')
    for k, f in sorted(live):
        res.ok(f'{k}.{f}: every name resolves')
    return res
