"""The options of the command line: flags, destination, arity, type and default of each documented option."""
import ast
from . import rule, Result

ANSATZ = {'eT_z_t ansatz', 'z_t ansatz', 'full cc'}
# dest: (flags, kind, default)
WANTED = {
    'log_path': ({'-l', '--log_path'}, 'str', 'default_logging_file.txt'),
    'stdlog': ({'-s', '--stdlog'}, 'flag', False),
    't': ({'-t'}, 'ints', None),
    'ansatz': ({'-a', '--ansatz'}, 'str', None),
    'excited_state': ({'-es', '--excited_state'}, 'flag', False),
    'remove_f_terms': ({'-rf', '--remove_f_terms'}, 'parsed', False),
    'code': ({'-c', '--code'}, 'flag', False),
    'lhs': ({'-lhs'}, 'flag', False),
    'path': ({'-p', '--path'}, 'str', None),
}


class Unresolved(Exception):
    pass


def literal(m, n):
    if isinstance(n, ast.Name):
        v = m.assigns.get(n.id)
        if v and len(v) == 1 and v[0] is not None:
            return literal(m, v[0])
        raise Unresolved(n.id)
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
        return [literal(m, x) for x in n.elts]
    try:
        return ast.literal_eval(n)
    except Exception:
        raise Unresolved(ast.unparse(n))


def name_of(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


def option(m, call):
    """(flags, dest, keyword nodes) of one add_argument call"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        raise Unresolved('star arguments')
    flags = [literal(m, a) for a in call.args]
    kw = {k.arg: k.value for k in call.keywords}
    if 'dest' in kw:
        dest = literal(m, kw['dest'])
    else:
        longs = [f for f in flags if f.startswith('--')]
        dest = (longs or flags)[0].lstrip('-').replace('-', '_')
    return flags, dest, kw


def kind_of(m, kw):
    """flag, str, ints, parsed or other; None when the source does not tell"""
    action = kw.get('action')
    if action is not None:
        if name_of(action) == 'BooleanOptionalAction':
            return 'flag'
        a = literal(m, action)
        if a == 'store_true':
            return 'flag'
        if a == 'store_const':
            return 'flag' if literal(m, kw['const']) is True else 'other'
        if a != 'store':
            return 'other'
    nargs = literal(m, kw['nargs']) if 'nargs' in kw else None
    typ = name_of(kw['type']) if 'type' in kw else 'str'
    if nargs is None:
        if typ == 'str':
            return 'str'
        if typ in ('bool', 'int', 'float', 'list', 'tuple', 'dict', 'set'):
            return f'other ({typ})'
        return 'parsed'
    if nargs in ('+', '*'):
        if typ == 'int':
            return 'ints'
        return f'other ({typ})' if typ in ('str', 'bool', 'float') else None
    return f'other (nargs={nargs!r})'


@rule('P16', 'every documented command line option keeps its flags, destination, arity, type and default')
def options(ctx):
    res = Result()
    m = ctx.repo.modules.get('driver')
    if m is None:
        res.skip('no driver module')
        return res
    calls = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument']
    if not calls:
        res.skip('no add_argument call in the driver')
        return res
    found, defaults = {}, {}
    try:
        for c in calls:
            p = c
            while getattr(p, '_parent', None) is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
                p = p._parent
                if isinstance(p, (ast.For, ast.While, ast.If, ast.ListComp, ast.Lambda)):
                    raise Unresolved(f'add_argument inside {type(p).__name__}')
            flags, dest, kw = option(m, c)
            found[dest] = (c, flags, kw)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'set_defaults':
                for k in n.keywords:
                    defaults[k.arg] = literal(m, k.value)
    except Unresolved as e:
        res.skip(f'options are not written out: {e}')
        return res
    for dest, (flags, kind, default) in WANTED.items():
        want = f'{"/".join(sorted(flags))}'
        if dest not in found:
            users = [n for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and n.attr == dest]
            other = next((d for d, (_, fl, _) in found.items() if flags & set(fl)), None)
            if other is not None and not users:
                dest_, (c, fl, kw) = other, found[other]      # renamed destination
            else:
                res.bad('termfactory/driver.py', f'no option {want} with destination {dest}', key=f'driver.option.{dest}')
                continue
        else:
            dest_, (c, fl, kw) = dest, found[dest]
        where = f'termfactory/driver.py:{c.lineno} add_argument({want})'
        try:
            bad = None
            k = kind_of(m, kw)
            d = defaults[dest_] if dest_ in defaults else literal(m, kw['default']) if 'default' in kw else (False if k == 'flag' and name_of(kw.get('action')) is None and literal(m, kw['action']) == 'store_true' else None)
            if not flags <= set(fl):
                bad = f'flags {sorted(flags - set(fl))} are gone'
            elif k is None:
                res.skip(f'{where}: type not understood')
                continue
            elif k != kind:
                bad = f'is a {k} option, documented as {kind}'
            elif d != default and not (kind == 'flag' and not d) and not (kind == 'parsed' and d in ('False', 'false')):
                bad = f'default is {d!r}, documented {default!r}'
            elif 'required' in kw and literal(m, kw['required']):
                bad = 'is required'
            elif dest == 'ansatz' and 'choices' in kw and not ANSATZ <= set(literal(m, kw['choices'])):
                bad = 'does not accept every ansatz'
            elif dest == 't' and 'choices' in kw:
                bad = 'restricts the truncation values' if not set(range(1, 9)) <= set(literal(m, kw['choices'])) else None
            if bad:
                res.bad(where, bad, key=f'driver.option.{dest}')
            else:
                res.ok(where)
        except Unresolved as e:
            res.skip(f'{where}: {e}')
    return res
