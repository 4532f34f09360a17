#!/usr/bin/env python3
"""Development self-test of the summariser (not part of any check): the value of a function's summary on a valuation is compared with
what the function returns when it is run.   python3-vt tools/selftest.py [pattern] [--n 60]

Runs in a scratch directory with `open` replaced by a recorder.
"""
import builtins
import importlib
import resource
import signal
import io
import os
import sys
import tempfile
import copy
import logging

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO + '/termfactory')
from sa import equiv, domains as dm                    # noqa
from sa.evalt import Obj, Eval, SetV, Unsupported, Undefined, TooBig, norm_value   # noqa
from sa.terms import Member                            # noqa

resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _stop(*_):
    raise TimeoutError()


signal.signal(signal.SIGALRM, _stop)
logging.disable(logging.CRITICAL)


def classes():
    out = {}
    import pkgutil
    for m in pkgutil.iter_modules([REPO + '/termfactory']):
        if m.name in ('driver', 'log_conf', '__main__') or m.name.startswith('test'):
            continue
        try:
            mod = importlib.import_module(m.name)
        except Exception as e:
            print('import', m.name, e)
            continue
        for n, c in vars(mod).items():
            if isinstance(c, type) and issubclass(c, tuple) and hasattr(c, '_fields'):
                out.setdefault(c.__name__, c)
                out.setdefault(n, c)
    return out


def real(v, C):
    if isinstance(v, Obj):
        c = C.get(v._cls)
        if c is None:
            raise KeyError(v._cls)
        return c(**{k: real(x, C) for k, x in v._f.items()})
    if isinstance(v, list):
        return [real(x, C) for x in v]
    if isinstance(v, tuple):
        return tuple(real(x, C) for x in v)
    if isinstance(v, dict):
        return {real(k, C): real(x, C) for k, x in v.items()}
    if isinstance(v, Member):
        from truncation_keys import TruncationsKeys
        return next(k for k in TruncationsKeys if k.value == v.value or k.name == v.name)
    return v


def canon(v):
    if hasattr(v, '_fields'):
        return ('nt',) + tuple(canon(x) for x in v)
    if isinstance(v, Obj):
        return ('nt',) + tuple(canon(x) for x in v._f.values())
    if isinstance(v, (list, tuple)):
        return tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted(((canon(k), canon(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted((canon(x) for x in v), key=repr))
    if isinstance(v, SetV):
        return ('set',) + tuple(sorted((canon(x) for x in v.elems()), key=repr))
    if isinstance(v, Member):
        return ('m', v.value if isinstance(v.value, str) else v.name)
    import enum
    if isinstance(v, enum.Enum):
        return ('m', v.value)
    if isinstance(v, bool):
        return v
    return v


def strip(v):
    """named tuples compared as tuples"""
    if isinstance(v, tuple):
        if v and v[0] == 'nt':
            v = v[1:]
        return tuple(strip(x) for x in v)
    return v


def build(name, d, env):
    if isinstance(d, dict) and '%' in d:
        return Obj(d['%'], {k: build(f'{name}.{k}', s, env) for k, s in d.items() if k != '%'})
    if isinstance(d, dict):
        return {(Member('TruncationsKeys', k[1:], k[1:]) if k.startswith('@') else k): build(f'{name}[{k}]', s, env) for k, s in d.items()}
    if isinstance(d, tuple) and d and d[0] == 'const':
        return d[1]
    if isinstance(d, tuple):
        return tuple(build(f'{name}.{i}', s, env) for i, s in enumerate(d))
    if isinstance(d, list):
        return [build(f'{name}.{i}', s, env) for i, s in enumerate(d)]
    return env[name]


class Rec(io.StringIO):
    def close(self):
        self.final = self.getvalue()
        super().close()


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 and not sys.argv[1].startswith('--') else ''
    n = int(sys.argv[sys.argv.index('--n') + 1]) if '--n' in sys.argv else 60
    repo, specs = equiv.load()
    os.chdir(tempfile.mkdtemp())
    C = classes()
    tot = {}
    for s in specs:
        if pat not in s.target or s.target.startswith('_glue_') or s.opts.get('stubs') or s.target.endswith('__main__') or s.target.startswith('driver'):
            continue
        m, f = s.target.rsplit('.', 1)
        try:
            mod = importlib.import_module(m)
            fn = getattr(mod, f)
        except Exception as e:
            print('skip', s.target, e)
            continue
        func = equiv.target_func(repo, s.target)
        decl = equiv.domain_of(s)
        leaves = {}
        names = [x.arg for x in func.node.args.args]
        dn = list(decl)

        def bind(interp):
            vals, refs = equiv.bindings(interp, decl, leaves)
            out = {}
            a = func.node.args
            nd, npos = len(a.defaults), len(a.args)
            for i, nme in enumerate(names):
                if nme in vals:
                    out[nme] = vals[nme]
                elif i < len(dn) and dn[i] not in names:
                    out[nme] = vals[dn[i]]
                elif i >= npos - nd:
                    from sa.gvn import Frame
                    interp.stack.append(Frame(None, func.module))
                    out[nme] = interp.ev(a.defaults[i - (npos - nd)])
                    interp.stack.pop()
            if a.kwarg:
                from sa.terms import mk, K
                out[a.kwarg.arg] = interp.new(mk('DICT', tuple((K(k), v) for k, v in vals.items() if k not in out)))
            return out, refs
        try:
            v, mut, ip = equiv.summarise(repo, func, bind, {}, trace=True, raises=bool(s.opts.get('raises')))
        except Exception as e:
            print('SUMMARY', s.target, type(e).__name__, str(e)[:100])
            continue
        rc = equiv.raise_cond(ip)
        files = ip.deref(ip.files)
        unfold = equiv.Unfold(repo)
        rng = dm.Rng(7)
        rng.hints, rng.shints = equiv.hints(v, v)
        st = {'ok': 0, 'bad': 0, 'undef': 0, 'unsup': 0, 'raise': 0, 'raise?': 0, 'big': 0}
        shown = 0
        why = {}
        for i in range(n):
            rng.big, rng.long = i % 7 == 5, i % 9 == 4
            env = dm.valuation(rng, leaves)
            pre = s.opts.get('where')
            if pre and not eval(pre, {k: equiv._ns(x) for k, x in env.items()}):
                continue
            kw = {}
            args0 = {k: build(k, d, env) for k, d in decl.items()}
            for j, k in enumerate(decl):
                kw[k if (k in names or func.node.args.kwarg) else names[j]] = real(copy.deepcopy(args0[k]), C)
            ofs = {}
            ropen = builtins.open

            def rec(path, mode='r', *a, **k):
                if 'w' in mode or 'a' in mode:
                    r = Rec()
                    ofs[str(path)] = r
                    return r
                raise FileNotFoundError(path)
            sysx = os.system
            os.system = lambda *a: 0
            builtins.open = rec
            stdout = sys.stdout
            sys.stdout = io.StringIO()
            signal.alarm(10)
            try:
                got = ('ok', fn(**kw))
            except (TimeoutError, MemoryError):
                got = None
            except BaseException as e:
                got = ('raise', e)
            finally:
                signal.alarm(0)
                builtins.open = ropen
                os.system = sysx
                sys.stdout = stdout
            if got is None:
                st['big'] += 1
                continue
            E = Eval(copy.deepcopy(env), {k: dm.DOMAINS[d] for k, d in dm.EXTERNAL.items()}, unfold)
            try:
                r = False
                try:
                    r = E(rc)
                except (Undefined, Unsupported):
                    r = '?'
                if got[0] == 'raise':
                    if r is True:
                        st['raise'] += 1
                        continue
                    try:
                        if files is not None and any(x[0] == 'raise' for x in E(files)):
                            st['raise'] += 1
                            continue
                        val = E(v)
                        for x in mut.values():
                            E(x)
                    except Undefined:
                        st['raise'] += 1
                        continue
                    st['raise?'] += 1
                    why.setdefault('missed ' + repr(got[1])[:80], env)
                    continue
                if r is True:
                    st['bad'] += 1
                    why.setdefault('summary raises', env)
                    continue
                val = E(v)
                a, b = strip(canon(val)), strip(canon(got[1]))
                if a != b and s.opts.get('value', True):
                    st['bad'] += 1
                    d = equiv._diff(repr(a), repr(b))
                    why.setdefault(f'value: summary {d["specified"][:400]}\n          real    {d["code"][:400]}', env)
                    continue
                if ofs:
                    from sa.terms import mk
                    fs = E(mk('FILES', files))
                    w = {eval(p) if p[0] in '\'"' else p: t for p, t in fs[2]}
                    rr = {p: getattr(x, 'final', None) for p, x in ofs.items()}
                    if w != rr:
                        st['bad'] += 1
                        d = equiv._diff(repr(sorted(w.items())), repr(sorted(rr.items())))
                        why.setdefault(f'files: summary {d["specified"][:400]}\n          real    {d["code"][:400]}', env)
                        continue
                bad = False
                for k, x in mut.items():
                    if k in decl:
                        j = dn.index(k)
                        key = k if (k in names or func.node.args.kwarg) else names[j]
                        if strip(canon(E(x))) != strip(canon(kw[key])):
                            bad = True
                            why.setdefault(f'argument {k}: summary {canon(E(x))!r:.300} real {canon(kw[key])!r:.300}', env)
                st['bad' if bad else 'ok'] += 1
            except Undefined as e:
                st['undef'] += 1
                why.setdefault('undefined ' + str(e), env)
            except Unsupported as e:
                st['unsup'] += 1
                why.setdefault('unsupported ' + str(e), env)
            except TooBig:
                st['big'] += 1
        flag = '' if st['bad'] == st['undef'] == st['unsup'] == st['raise?'] == 0 and st['ok'] > 10 else ' <<<<'
        print(s.target, s.name, {k: x for k, x in st.items() if x}, ('UNMODELLED ' + str(ip.unmodelled[:3])) if ip.unmodelled else '', flag)
        for k, e in list(why.items())[:4]:
            print('      ', k, '   on', {a: repr(b)[:200] for a, b in e.items()})
        sys.stdout.flush()


main()
