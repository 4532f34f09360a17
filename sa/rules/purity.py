"""State that outlives a request, and arguments changed behind the caller's back."""
import ast
from . import rule, Result
from .. import effects

SKIP = {'log_conf'}
QUIET_CALLS = {'print', 'debug', 'info', 'warning', 'error', 'critical', 'flow', 'log', 'exception', 'lock'}


def repo_modules(ctx):
    return {k: m for k, m in ctx.repo.modules.items() if not getattr(m, 'is_spec', False)}


def ref_modules(ctx):
    out = {}
    for k, m in ctx.repo.modules.items():
        if k.startswith('ref_'):
            out[k] = out[k[4:]] = m
    return out


def in_log(n):
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if name in QUIET_CALLS:
                return True
        if isinstance(n, (ast.FunctionDef, ast.Module)):
            return False
    return False


def uses(mods, an, root):
    """every read of a module-level object: (module, function or None, node)"""
    _, mod, name = root
    out = []
    for m in mods.values():
        for f in m.all_funcs:
            if f.parent is not None:
                continue
            bound = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id not in bound and isinstance(n.ctx, ast.Load):
                    if an.resolve(m, n.id) == (mod, name):
                        out.append((m, f, n))
                elif isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name):
                    r = an.resolve(m, n.value.id)
                    if r == ('module', mod):
                        out.append((m, f, n))
    return out


def names_in(f, expr, seen=()):
    """parameters of f that an expression is computed from"""
    out = set()
    for n in ast.walk(expr):
        if isinstance(n, ast.Name):
            out.add(n.id)
    todo = set(out) - set(seen)
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in todo:
            out |= names_in(f, s.value, tuple(seen) + (s.targets[0].id,))
    return out


def memo(mods, an, root):
    """is this object only a table of results of one function, keyed by every parameter of it"""
    us = uses(mods, an, root)
    funcs = {id(f): f for _, f, _ in us}
    if len(funcs) != 1:
        return False
    f = next(iter(funcs.values()))
    if any(g.node is not f.node for g, _, _ in an.sites.get(root, ())):
        return False          # what is kept is changed by those who receive it
    params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs}
    if f.node.args.vararg or f.node.args.kwarg:
        params |= {a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a}
    keys = []
    for _, _, n in us:
        p = n._parent
        if isinstance(p, ast.Subscript) and p.value is n:
            keys.append(p.slice)
        elif isinstance(p, ast.Compare) and n in p.comparators and isinstance(p.ops[0], (ast.In, ast.NotIn)):
            keys.append(p.left)
        elif isinstance(p, ast.Attribute) and p.attr in ('get', 'setdefault') and isinstance(p._parent, ast.Call) and p._parent.args:
            keys.append(p._parent.args[0])
        else:
            return False
    return bool(keys) and all(params <= names_in(f, k) for k in keys)


def observed(mods, an, root):
    """is the object read for anything but logging and its own update"""
    for m, f, n in uses(mods, an, root):
        if in_log(n):
            continue
        p = n._parent
        if isinstance(p, ast.Attribute) and p.attr in ('append', 'add', 'extend', 'update', 'clear') and isinstance(p._parent, ast.Call) and isinstance(p._parent._parent, ast.Expr):
            continue
        if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store) and p.value is n and isinstance(p._parent, (ast.Assign, ast.AugAssign)):
            continue
        if isinstance(p, ast.AugAssign) and p.target is n:
            continue
        return True
    return False


def used_again(mods, an, m, f, param):
    """a call of f whose argument for `param` the caller reads again afterwards, or None"""
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    for k in mods.values():
        for g in k.all_funcs:
            for n in ast.walk(g.node):
                if not isinstance(n, ast.Call):
                    continue
                t = n.func
                r = None
                if isinstance(t, ast.Name):
                    r = an.resolve(k, t.id)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    b = an.resolve(k, t.value.id)
                    r = (b[1], t.attr) if b and b[0] == 'module' else None
                if r != (m.name, f.name):
                    continue
                args = [x for i, x in enumerate(n.args) if i < len(names) and names[i] == param] + [x.value for x in n.keywords if x.arg == param]
                for x in args:
                    if isinstance(x, ast.Name) and read_after(g.node, n, x.id):
                        return f'termfactory/{k.name}.py:{n.lineno} {g.qual}'
    return None


def read_after(fn, call, name):
    """is a local name read again, with the same value, after a call"""
    if in_log(call):
        return False
    end = (call.end_lineno, call.end_col_offset)
    reads = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and not in_log(n)]
    writes = sorted((n.lineno, n.col_offset) for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store))
    stop = next((w for w in writes if w > end), (1 << 30, 0))
    # the statement that the call is in may rebind the name
    s = call
    loops = []
    inside = None
    while s is not fn:
        p = s._parent
        if isinstance(s, ast.stmt) and inside is None:
            inside = s
        if isinstance(s, (ast.For, ast.While)) and s is not inside:
            loops.append(s)
        s = p
    if isinstance(inside, ast.Return) or isinstance(inside, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in inside.targets):
        return False
    if any(end < (r.lineno, r.col_offset) < stop for r in reads):
        branch = [r for r in reads if end < (r.lineno, r.col_offset) < stop and not exclusive(call, r, fn)]
        if branch:
            return True
    for lp in loops:
        if not any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(lp)):
            return True
    return False


def exclusive(a, b, fn):
    """on different branches of one condition"""
    def path(n):
        out = {}
        while n is not fn:
            p = n._parent
            if isinstance(p, ast.If):
                out[p] = 'body' if n in p.body else 'orelse' if n in p.orelse else 'test'
            n = p
        return out
    pa, pb = path(a), path(b)
    return any(k in pb and {pa[k], pb[k]} == {'body', 'orelse'} for k in pa)


@rule('P02', 'no function changes a module-level object, a default value or a kept result')
def shared(ctx):
    res = Result()
    mods = repo_modules(ctx)
    an = effects.Analysis(mods)
    base = effects.Analysis(ref_modules(ctx))
    known = set(base.sites)
    for m in mods.values():
        if m.name in SKIP:
            continue
        for f in m.funcs.values():
            touched = [r for r in an.sums[(m.name, f.name)].mut if r[0] in ('global', 'default')]
            if not touched:
                res.ok(f'{f.where}: no write to shared objects on any path')
    for root, sites in sorted(an.sites.items(), key=str):
        if root in known or root[1] in SKIP or all(f.module.name in SKIP for f, _, _ in sites):
            continue
        f, node, how = sites[0]
        where = f'termfactory/{f.module.name}.py:{node.lineno} {f.qual}'
        if root[0] == 'default':
            res.bad(where, f'the default value of parameter {root[2]} of {root[1]} is changed ({how}): later calls that leave it out start from the changed value', key=f'default {root[1]}.{root[2]}')
            continue
        rebound = all(h == 'rebound' for _, _, h in sites)
        if not rebound and memo(mods, an, root):
            res.skip(f'{where}: {root[1]}.{root[2]} is a table of results keyed by every parameter')
            continue
        if not rebound and root[2] in getattr(mods.get(root[1]), 'assigns', {}) and not observed(mods, an, root):
            res.skip(f'{where}: {root[1]}.{root[2]} is written but never read')
            continue
        if rebound and not any(not in_log(n) and not (isinstance(n._parent, ast.AugAssign)) for _, _, n in uses(mods, an, root)):
            res.skip(f'{where}: {root[1]}.{root[2]} is written but never read')
            continue
        res.bad(where, f'shared object {root[1]}.{root[2]} is changed ({how}): what is generated later depends on what was generated before', key=f'global {root[1]}.{root[2]}')
    # arguments of the functions a user calls
    for m in mods.values():
        if m.name in SKIP | {'driver'}:
            continue
        for f in m.funcs.values():
            ref = base.sums.get((f'ref_{m.name}', f.name))
            if ref is None and m.name in {k[4:] for k in ctx.repo.modules if k.startswith('ref_')}:
                continue
            bad = [r for r in an.sums[(m.name, f.name)].mut if r[0] in ('param', 'inner') and (ref is None or r[:2] not in {x[:2] for x in ref.mut})]
            where = f.where
            if f.name.startswith('_') and (m.name, f.name) not in (('_glue_', '_generate_latex'), ('_glue_', '_generate_python')):
                if ref is None:
                    continue
                # a helper may use up what was made for it, not what its caller goes on to use
                later = [(r, w) for r in bad for w in [used_again(mods, an, m, f, r[1])] if w]
                bad = [r for r, _ in later]
                where = later[0][1] if later else where
            if bad:
                site = an.sums[(m.name, f.name)].mut[bad[0]]
                res.bad(where, f'{f.name} changes its argument {bad[0][1]}: {site}', key=f'argument {m.name}.{f.name}.{bad[0][1]}')
            else:
                res.ok(f'{f.where}: arguments untouched')
    return res


# ------------------------------------------------------------------ results kept although they come from files
FILE_CALLS = {'open', 'read_text', 'write_text', 'read_bytes', 'write_bytes', 'fdopen'}


def touches_files(mods, an, m, f, seen):
    """the first file access of a function or of those it calls: (where, reads, writes) or None"""
    if (m.name, f.name) in seen:
        return None
    seen.add((m.name, f.name))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if name in FILE_CALLS:
                return f'termfactory/{m.name}.py:{n.lineno} {name}'
    for n in ast.walk(f.node):
        r = None
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r = an.resolve(m, n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            b = an.resolve(m, n.value.id)
            r = (b[1], n.attr) if b and b[0] == 'module' else None
        if r and r[0] in mods and r[1] in mods[r[0]].funcs:
            t = touches_files(mods, an, mods[r[0]], mods[r[0]].funcs[r[1]], seen)
            if t:
                return t
    return None


def kept_files(ctx, wanted, title):
    res = Result()
    mods = repo_modules(ctx)
    an = effects.Analysis(mods)
    roots = [r for r in an.sites if r[0] == 'global']
    tables = {}
    for r in roots:
        us = uses(mods, an, r)
        funcs = {id(f): (m, f) for m, f, _ in us}
        if memo(mods, an, r):
            m, f = next(iter(funcs.values()))
            tables[(m.name, f.name)] = f'{r[1]}.{r[2]}'
    for m in mods.values():
        if m.name in SKIP or not wanted(m):
            continue
        for f in m.all_funcs:
            how = an.kept(f) or tables.get((m.name, f.name))
            t = touches_files(mods, an, m, f, set()) if how else None
            if t:
                res.bad(f'{f.where}', f'its results are kept ({how}) although it reads or writes a file ({t}): {title}', key=f'kept {m.name}.{f.name}')
            else:
                res.ok(f'{f.where}: ' + ('kept results come from the arguments alone' if how else 'computed anew on every call'))
    return res


@rule('P02', 'no kept result comes from a file')
def kept_any(ctx):
    return kept_files(ctx, lambda m: True, 'later requests get what an earlier one found')


@rule('P15', 'saving and loading happen on every call')
def kept_trunc(ctx):
    return kept_files(ctx, lambda m: m.name in ('truncations', 'truncation_keys'), 'a later load returns the earlier contents, a later save does nothing')


@rule('P05', 'every generation writes')
def kept_gen(ctx):
    return kept_files(ctx, lambda m: m.name not in ('truncations', 'truncation_keys', 'driver'), 'a repeated request writes nothing')


# ------------------------------------------------------------------ sources outside the request
AMBIENT_MODULES = {'random', 'secrets', 'time', 'datetime', 'uuid', 'platform', 'socket', 'getpass', 'tempfile', 'glob', 'locale', 'gc', 'tracemalloc', 'resource', 'threading', 'multiprocessing'}
AMBIENT_OS = {'environ', 'getenv', 'getpid', 'getppid', 'listdir', 'scandir', 'walk', 'urandom', 'getcwd', 'stat', 'getlogin', 'uname', 'cpu_count', 'times'}
AMBIENT_PATH = {'exists', 'isfile', 'isdir', 'getmtime', 'getsize', 'getctime', 'getatime', 'abspath', 'realpath', 'expanduser', 'expandvars'}
AMBIENT_SYS = {'argv', 'flags', 'hash_info', 'getrefcount', 'maxsize', 'platform', 'version_info', 'version', 'path', 'modules', 'getsizeof'}
AMBIENT_NP = {'random'}
GENERATORS = ('latex_full_cc', 'latex_zhz', 'latex_eT_zhz', 'latex_w_equations', 'code_full_cc', 'code_eT_zhz', 'code_residual_equations', 'code_w_equations', 'code_dt_equations',
              'helper_funcs', '_glue_', 'truncations', 'truncation_keys', 'latex_defines', 'common_imports', 'code_import_statements_module', 'reference_latex_headers', 'namedtuple_defines')


def all_imports(m):
    """names imported anywhere in the module, inside functions too"""
    if not hasattr(m, '_all_imports'):
        out = dict(m.imports)
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    out.setdefault(a.asname or a.name.split('.')[0], (a.name if a.asname else a.name.split('.')[0], None))
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    out.setdefault(a.asname or a.name, (s.module or '', a.name))
        m._all_imports = out
    return m._all_imports


def ambient(m, n, bound):
    """name of the outside source an expression reads, or None"""
    imports = all_imports(m)

    def mod(x):
        return imports[x][0] if x in imports and imports[x][1] is None else None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'open' and n.func.id not in bound:
        mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), ast.Constant('r'))
        if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and set(x.value) & set('r+a') and set(x.value) <= set('rwaxbt+') for x in ast.walk(mode)):
            return 'the previous contents of a file'
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound:
        if n.id in ('id', 'hash', 'globals', 'vars') and n.id not in m.assigns and n.id not in imports and n.id not in m.funcs:
            return f'{n.id}()'
        if n.id in imports and imports[n.id][1] is not None:
            a, b = imports[n.id]
            if a.split('.')[0] in AMBIENT_MODULES and b not in ('sleep',):
                return f'{a}.{b}'
            if a == 'os' and b in AMBIENT_OS or a == 'os.path' and b in AMBIENT_PATH or a == 'sys' and b in AMBIENT_SYS:
                return f'{a}.{b}'
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id not in bound:
        a = mod(n.value.id)
        if a in AMBIENT_MODULES and n.attr != 'sleep':
            return f'{a}.{n.attr}'
        if a == 'os' and n.attr in AMBIENT_OS or a == 'sys' and n.attr in AMBIENT_SYS or a == 'numpy' and n.attr in AMBIENT_NP:
            return f'{a}.{n.attr}'
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == 'path' and isinstance(n.value.value, ast.Name) and mod(n.value.value.id) == 'os' and n.attr in AMBIENT_PATH:
        return f'os.path.{n.attr}'
    return None


def escapes(f, node):
    """does a value computed from node reach anything but logging?  names are followed through plain assignments"""
    tainted, done = [node], set()
    while tainted:
        n = tainted.pop()
        if in_log(n):
            continue
        p, inner = n, n
        while not isinstance(p, ast.stmt):
            inner, p = p, p._parent
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if inner not in ts and all(isinstance(t, ast.Name) for t in ts):
                for t in ts:
                    if t.id not in done:
                        done.add(t.id)
                        tainted += [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
                continue
        if isinstance(p, ast.Expr) and isinstance(p.value, ast.Call) and p.value.func is inner:
            continue      # called for nothing
        if isinstance(p, ast.Expr) and ast.dump(p.value) == ast.dump(n):
            continue
        if isinstance(p, ast.Expr) and isinstance(p.value, ast.Call) and n in ast.walk(p.value.func):
            continue
        if isinstance(p, (ast.Import, ast.ImportFrom)):
            continue
        return n
    return None


@rule('P01', 'nothing outside the request flows into what is generated')
def outside(ctx):
    res = Result()
    refs = ref_modules(ctx)
    for name in GENERATORS:
        m = ctx.repo.modules.get(name)
        if m is None:
            continue
        base = {}
        if name in refs:
            for f in refs[name].all_funcs:
                for n in ast.walk(f.node):
                    a = ambient(refs[name], n, ())
                    if a:
                        base.setdefault(a, 0)
        scopes = [(f.where, f.node, {a.arg for a in f.node.args.args + f.node.args.kwonlyargs} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
                  for f in m.all_funcs if f.parent is None]
        top = ast.Module(body=[s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and not is_main(s)], type_ignores=[])
        scopes.append((f'termfactory/{name}.py', top, set()))
        for where, node, bound in scopes:
            bad = None
            for n in ast.walk(node):
                a = ambient(m, n, bound)
                if a and a not in base:
                    hit = n if node is top else escapes(node, n)
                    if hit is not None:
                        bad = (a, n)
                        break
            if bad:
                res.bad(f'{where}:{bad[1].lineno}', f'{bad[0]} reaches the output', key=f'{name} {bad[0]}')
            else:
                res.ok(f'{where}: no outside source')
    return res


def is_main(s):
    return isinstance(s, ast.If) and '__name__' in ast.unparse(s.test)
