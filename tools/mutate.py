#!/usr/bin/env python3
"""Development tool: mutation score of the specifications.  mutate.py PATTERN [--max N] [--show]
Mutants are made in memory (syntax tree of the target function); each is compared with the specifications of that function."""
import ast
import copy
import multiprocessing
import os
import random
import signal
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
from sa import equiv, src

SWAP = {'m': 'n', 'n': 'm', 'm_h': 'n_h', 'n_h': 'm_h', 'm_o': 'n_o', 'n_o': 'm_o', 'm_t': 'n_t', 'n_t': 'm_t', 'm_l': 'n_l', 'n_l': 'm_l', 'm_r': 'n_r', 'n_r': 'm_r', 'm_lhs': 'n_lhs', 'n_lhs': 'm_lhs', 'rank': 'm'}


def is_log(n):
    from tools_ref import is_log as f
    return f(n)


def logish(s):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        f = s.value.func
        return (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'log') or (isinstance(f, ast.Name) and f.id in ('old_print_wrapper', 'print', 'print_triplet'))
    return False


def mutants(fn):
    """(description, mutated copy)"""
    nodes = []

    def rec(n, inlog):
        if isinstance(n, ast.stmt) and logish(n):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.If) and src.const_bool(n.test) is False:
            for c in n.orelse:
                rec(c, inlog)
            return
        nodes.append(n)
        for name, f in ast.iter_fields(n):
            if isinstance(n, ast.Assert) and name == 'msg':
                continue
            if isinstance(n, ast.arguments) and name == 'annotation':
                continue
            for c in (f if isinstance(f, list) else [f]):
                if isinstance(c, ast.AST):
                    rec(c, inlog)
    for b in fn.body:
        rec(b, False)

    def edit(n, desc, change):
        save = copy.copy(n.__dict__)
        line = getattr(n, 'lineno', 0)
        change(n)
        m = copy.deepcopy_fn(fn)
        n.__dict__.clear()
        n.__dict__.update(save)
        return (f'{line}: {desc}', m)
    for n in nodes:
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                alts = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
                a = alts.get(type(op))
                if a:
                    yield edit(n, f'compare {type(op).__name__}->{a.__name__}', lambda x: setattr(x, 'ops', n.ops[:i] + [a()] + n.ops[i + 1:]))
        elif isinstance(n, ast.BoolOp):
            yield edit(n, 'and<->or', lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    yield edit(n, f'drop operand {i}', lambda x: setattr(x, 'values', x.values[:i] + x.values[i + 1:] if len(x.values) > 2 else [x.values[1 - i]] * 2))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, (ast.JoinedStr,)) and not isinstance(n.right, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield edit(n, '+<->-', lambda x: setattr(x, 'op', ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield edit(n, f'{n.value}->not', lambda x: setattr(x, 'value', not x.value))
            elif isinstance(n.value, int):
                yield edit(n, f'{n.value}->+1', lambda x: setattr(x, 'value', x.value + 1))
            elif isinstance(n.value, str) and n.value:
                yield edit(n, f'{n.value[:20]!r} changed', lambda x: setattr(x, 'value', x.value[:-1] + ('q' if x.value[-1] != 'q' else 'w')))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            yield edit(n, f'.{n.attr}->.{SWAP[n.attr]}', lambda x: setattr(x, 'attr', SWAP[x.attr]))
        elif isinstance(n, ast.Continue) or isinstance(n, ast.Break):
            pass
        elif isinstance(n, ast.If):
            yield edit(n, 'if negated', lambda x: setattr(x, 'test', ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x.test)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield edit(n, 'not dropped', lambda x: setattr(x, 'operand', ast.copy_location(ast.UnaryOp(ast.Not(), x.operand), x.operand)))
    # statement deletion
    for n in [fn] + nodes:
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Delete)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript)):
                        if logish(s) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            continue
                        yield edit(n, f'delete line {s.lineno}: {ast.unparse(s)[:60]}', lambda x: setattr(x, field, b[:i] + [ast.copy_location(ast.Pass(), s)] + b[i + 1:]))
                for i in range(len(b) - 1):
                    if all(isinstance(q, (ast.AugAssign, ast.Expr)) and not logish(q) and not (isinstance(q, ast.Expr) and isinstance(q.value, ast.Constant)) for q in b[i:i + 2]):
                        yield edit(n, f'swap lines {b[i].lineno}', lambda x: setattr(x, field, b[:i] + [b[i + 1], b[i]] + b[i + 2:]))


copy.deepcopy_fn = lambda f: ast.unparse(f)


def work(job):
    target, desc, text = job
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(100)
    m, f = target.rsplit('.', 1)
    mod = REPO.modules[m]
    fn = mod.funcs[f].node
    lines = mod.text.splitlines(keepends=True)
    ind = ' ' * fn.col_offset
    if f == '__main__':
        n = next(x for x in mod.tree.body if isinstance(x, ast.If) and x.body is fn.body or (isinstance(x, ast.If) and x.body[0] is fn.body[0]))
        fn = n
        text = text.replace('def __main__():', "if __name__ == '__main__':", 1)
        fn.decorator_list = []
    first = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
    new = ''.join(lines[:first - 1]) + '\n'.join(ind + l for l in text.splitlines()) + '\n' + ''.join(lines[fn.end_lineno:])
    try:
        REPO.modules[m] = src.Module(m, mod.path, new)
        out = []
        for s in SPECS:
            if s.target == target:
                v = equiv.check(REPO, s, tries=TRIES, seed=1)
                out.append(v.status + (':' + v.detail[:90] if v.status == 'undecided' else ''))
                if v.status == 'violated':
                    break
        signal.alarm(0)
        return target, desc, out
    except TimeoutError:
        return target, desc, ['undecided: timeout']
    except Exception as e:
        signal.alarm(0)
        return target, desc, [f'undecided: crash {type(e).__name__} {e}'[:120]]
    finally:
        REPO.modules[m] = mod


def main():
    global REPO, SPECS, TRIES
    pat = sys.argv[1]
    mx = int(sys.argv[sys.argv.index('--max') + 1]) if '--max' in sys.argv else 60
    TRIES = 250
    REPO, SPECS = equiv.load()
    jobs = []
    rng = random.Random(1)
    for t in sorted({s.target for s in SPECS if pat in s.target}):
        m, f = t.rsplit('.', 1)
        if f not in REPO.modules[m].funcs:
            print('no mutants for', t)
            continue
        ms = list(mutants(REPO.modules[m].funcs[f].node))
        seen = set()
        ms = [x for x in ms if not (x[1] in seen or seen.add(x[1]))]
        if len(ms) > mx:
            ms = rng.sample(ms, mx)
        jobs += [(t, d, x) for d, x in ms]
    stat = {}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for t, d, out in pool.imap(work, jobs):
            st = 'killed' if any(o in ('violated', 'known') for o in out) and 'violated' in out else ('undecided' if any(o.startswith('undecided') for o in out) else 'survived')
            stat.setdefault(t, {}).setdefault(st, []).append((d, out))
    tot = {}
    for t, s in stat.items():
        print(t, {k: len(v) for k, v in s.items()})
        for k in ('undecided', 'survived'):
            for d, o in s.get(k, [])[:(400 if '--show' in sys.argv else 6)]:
                print('    ', k, d, [x for x in o if x != 'holds'][:1])
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + len(v)
    print(tot)


main()
