#!/usr/bin/env python3
"""Development self-test: summaries of the small programs in corpus/idioms.py against running them.
python3-vt tools/idioms.py [pattern]   'BAD': the summary is wrong (could raise false alarms); 'unsup'/'unmod': no opinion (quiet)."""
import copy
import importlib.util
import io
import os
import random
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import equiv                                   # noqa
from sa.src import Module                              # noqa
from sa.terms import V, walk                           # noqa
from sa.evalt import Eval, Obj, SetV, Unsupported, Undefined, TooBig   # noqa
sys.setrecursionlimit(30000)
PATH = os.environ.get('IDIOMS', os.path.join(HERE, 'tools', 'corpus', 'idioms.py'))


def kind(n):
    return {'n': 'int', 'm': 'int', 'k': 'int', 'xs': 'list', 'ys': 'list', 'ss': 'list', 's': 'str', 't': 'str', 'xss': 'list', 'd': None, 'b': 'bool'}[n]


def val(n, r):
    ints = lambda: [r.randrange(5) for _ in range(r.choice([0, 1, 2, 3, 4, 5]))]
    st = lambda: ''.join(r.choice('abx') for _ in range(r.randrange(4)))
    return {'int': lambda: r.randrange(6), 'xs': ints, 'ys': ints, 'ss': lambda: [st() for _ in range(r.randrange(6))], 's': st, 't': st,
            'xss': lambda: [ints() for _ in range(r.randrange(4))], 'd': lambda: {k: r.randrange(3) for k in r.sample('abcd', r.randrange(4))},
            'b': lambda: r.random() < .5}['int' if n in 'nmk' else n]()


def canon(v):
    if isinstance(v, Obj):
        return ('t',) + tuple(canon(x) for x in v._f.values())
    if isinstance(v, list):
        return ('t',) + tuple(canon(x) for x in v)
    if isinstance(v, tuple):
        return ('t',) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple((canon(k), canon(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ('s',) + tuple(sorted((canon(x) for x in v), key=repr))
    if isinstance(v, SetV):
        return ('s',) + tuple(sorted((canon(x) for x in v.elems()), key=repr))
    return v


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    spec = importlib.util.spec_from_file_location('idioms', PATH)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    repo, _ = equiv.load()
    m = Module('idioms', PATH)
    repo.modules['idioms'] = m
    tally = {}
    for name, f in m.funcs.items():
        if name.startswith('_') or '.' in name or pat not in name:
            continue
        names = [a.arg for a in f.node.args.args]
        refs = {}

        def bind(ip):
            out = {}
            for n in names:
                v = V(n, kind(n))
                if kind(n) == 'list':
                    v = refs[n] = ip.new(v)
                out[n] = v
            return out, refs
        try:
            v, mut, ip = equiv.summarise(repo, f, bind)
        except Exception as e:
            import traceback
            traceback.print_exc(limit=-3)
            print(f'{name:28} CRASH {type(e).__name__} {e}')
            tally['crash'] = tally.get('crash', 0) + 1
            continue
        rc = equiv.raise_cond(ip)
        unk = {x.op for x in walk(v)} & equiv.UNKNOWN
        r = random.Random(3)
        st, why = {}, None
        unfold = equiv.Unfold(repo)
        for _ in range(40):
            env = {n: val(n, r) for n in names}
            args = copy.deepcopy(env)
            so = sys.stdout
            sys.stdout = io.StringIO()
            try:
                got = getattr(mod, name)(**args)
                ok = True
            except Exception as e:
                ok, got = False, e
            finally:
                sys.stdout = so
            E = Eval(copy.deepcopy(env), {}, unfold)
            try:
                try:
                    bad = E(rc)
                except (Undefined, Unsupported):
                    bad = False
                if not ok:
                    if bad:
                        k = 'ok'
                    else:
                        try:
                            x = E(v)
                            k = 'missed raise'
                            why = why or (k, env, x, got)
                        except Undefined:
                            k = 'ok'
                elif bad:
                    k = 'BAD'
                    why = why or (k, env, 'raise', got)
                else:
                    x = E(v)
                    k = 'ok' if canon(x) == canon(got) else 'BAD'
                    if k == 'BAD':
                        why = why or (k, env, x, got)
                    for n, t in mut.items():
                        if canon(E(t)) != canon(args[n]):
                            k = 'BAD'
                            why = why or (f'arg {n}', env, E(t), args[n])
            except Undefined as e:
                k = 'BAD'
                why = why or ('undef ' + str(e), env, None, got)
            except Unsupported as e:
                k = 'unsup'
                why = why or (k + ' ' + str(e), env, None, got)
            except TooBig:
                k = 'big'
            except Exception as e:
                k = 'CRASH'
                why = why or (k + repr(e), env, None, got)
            st[k] = st.get(k, 0) + 1
        res = 'crash' if 'CRASH' in st else 'bad' if 'BAD' in st else 'unsup' if 'unsup' in st else 'ok'
        if res == 'bad' and (ip.unmodelled or unk):
            res = 'unmod'
        tally[res] = tally.get(res, 0) + 1
        if res != 'ok' or 'missed raise' in st:
            print(f'{name:28} {res.upper():6} {st} {ip.unmodelled[:2] or ""} {sorted(unk) or ""}')
            if why:
                print('      ', why[0], {k: x for k, x in why[1].items()}, '\n         summary', repr(why[2])[:300], '\n         real   ', repr(why[3])[:300])
    print(tally)


main()
