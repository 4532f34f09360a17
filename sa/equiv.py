"""Comparison of a repository function with its specification function.

Both are reduced to normal forms by the same value numbering (gvn.py).  Identical normal forms: the
obligation holds for every input.  Different normal forms: the difference is reported only when the
repository side is fully understood and a valuation of the leaves separates the two terms; otherwise the
obligation is undecided (recorded in the evidence, no alarm).
"""
import ast
import os
import random
import sys
import time
from .src import Repo, Module, AnchorError
from .gvn import Interp, Budget, Frame
from .terms import *
from . import terms as tm
from .evalt import Eval, Obj, SetV, Unsupported, Undefined, TooBig, norm_value
from . import domains as dm
from .domains import DOMAINS, KIND
from .tags import extend

sys.setrecursionlimit(30000)

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


# ------------------------------------------------------------------ specifications
ALL = []


class Spec:
    def __init__(self, func, target, props, opts, line, decl=None, variant=''):
        self.func, self.target, self.props, self.opts, self.line, self.decl, self.variant = func, target, props, opts, line, decl, variant

    @property
    def name(self):
        return self.func.name + self.variant

    @property
    def id(self):
        return f'{self.func.module.name}.{self.name}'


def load(repo=None):
    """repository model extended with the specification modules, and the list of specifications"""
    repo = repo or Repo()
    specs, tables = [], []
    for fn in sorted(os.listdir(SPECDIR)):
        if not fn.endswith('.py'):
            continue
        m = Module(fn[:-3], os.path.join(SPECDIR, fn))
        repo.modules[m.name] = m
        m.is_spec = True
        if m.name.startswith('ref_'):
            m.ref_of = m.name[4:]
            continue
        if m.name.startswith('tab_'):
            tables.append(m)
            continue
        for f in m.funcs.values():
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'spec':
                    target = ast.literal_eval(d.args[0])
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    props = kw.pop('props', '').split()
                    specs.append(Spec(f, target, props, kw, d.lineno))
    for m in repo.modules.values():
        for name, nodes in m.assigns.items():
            n = nodes[-1]
            if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'namedtuple' and n.args and isinstance(n.args[0], ast.Constant):
                Eval.typenames.setdefault(name, n.args[0].value)
    for m in tables:
        seen, rows = {}, {}
        exec(compile(m.tree, m.name, 'exec'), rows)      # a table of this framework, not code of the repository
        for node, row in zip(m.assigns['TABLE'][-1].elts, rows['TABLE']):
            target, props, decl, opts = row
            mod, name = target.rsplit('.', 1)
            ref = repo.modules['ref_' + mod].funcs[name]
            seen[target] = seen.get(target, 0) + 1
            specs.append(Spec(ref, target, props.split(), opts, node.lineno, decl, '' if seen[target] == 1 else f'#{seen[target]}'))
    for s in specs:
        if s.opts.get('facets') != 'refusal':
            s.props = extend(s.target, s.props)
    ALL[:] = specs
    return repo, specs


def domain_of(spec, func=None):
    """leaf declarations from the annotations of the specification function"""
    out = {}
    if spec.decl is not None and (func is None or func is spec.func):
        return dict(spec.decl)
    a = (func or spec.func).node.args
    for x in a.args + a.kwonlyargs:
        out[x.arg] = ast.literal_eval(x.annotation) if x.annotation is not None else None
    return out


def bindings(interp, decl, leaves):
    """symbolic arguments for one side; returns (values by position, {name: ref} of mutable arguments)"""
    vals, refs = {}, {}
    for name, d in decl.items():
        v = make_arg(interp, name, d, leaves, refs)
        vals[name] = v
    return vals, refs


def make_arg(interp, name, d, leaves, refs):
    if isinstance(d, dict) and '%' in d:
        return mk('NT', d['%'], tuple((k, make_arg(interp, f'{name}.{k}', sub, leaves, refs)) for k, sub in d.items() if k != '%'))
    if isinstance(d, dict):
        items = []
        for k, sub in d.items():
            kk = K(k)
            if isinstance(k, str) and k.startswith('@'):
                kk = K(Member('TruncationsKeys', k[1:], k[1:]))
            items.append((kk, make_arg(interp, f'{name}[{k}]', sub, leaves, refs)))
        r = interp.new(mk('DICT', tuple(items)))
        refs[name] = r
        return r
    if isinstance(d, tuple) and d and d[0] == 'function':
        return mk('FUNC', *d[1].rsplit('.', 1))
    if isinstance(d, tuple) and d and d[0] == 'const':
        return K(d[1])
    if isinstance(d, tuple):
        return mk('TUP', tuple(make_arg(interp, f'{name}.{i}', sub, leaves, refs) for i, sub in enumerate(d)))
    if isinstance(d, list):
        r = interp.new(mk('LIST', tuple(IT(TRUE, make_arg(interp, f'{name}.{i}', sub, leaves, refs)) for i, sub in enumerate(d))))
        refs[name] = r
        return r
    if d is None:
        return V(name)
    if not dm.known(d) and not d.startswith('?'):
        raise ValueError(f'unknown domain {d}')
    leaves[name] = d
    if KIND.get(d) == 'list':
        r = interp.new(V(name, 'list'))
        refs[name] = r
        return r
    return V(name, KIND.get(d))


def summarise(repo, func, argvals_fn, opaque=(), max_depth=9, raises=False, trace=False, stubs=None):
    interp = Interp(repo, opaque=opaque, max_depth=max_depth)
    interp.stubs = stubs or {}
    interp.effects, interp.heap, interp.loops, interp.alive, interp.stack = [], {}, [], TRUE, []
    if trace:
        interp.files = interp.new(mk('LIST', ()))
        interp.trace_raises = raises
    args, refs = argvals_fn(interp)
    interp.arg_refs = set(refs.values())
    from .gvn import Frame
    fr = Frame(func, func.module)
    fr.env.update(args)
    v = interp.exec_func(fr, func.node)
    out = interp.deref(v)
    mut = {n: interp.deref(r) for n, r in refs.items()}
    return out, mut, interp


def same_function(repo, fn):
    """is the reference definition of a (recursive) function the repository's, by induction on the recursion?"""
    cache = repo.__dict__.setdefault('_same', {})
    m = fn.module
    home = getattr(m, 'ref_of', m.name)
    key = (home, fn.name)
    if key not in cache:
        cache[key] = False
        a = repo.modules[home].funcs.get(fn.name) if home in repo.modules else None
        b = repo.modules['ref_' + home].funcs.get(fn.name) if 'ref_' + home in repo.modules else None
        if a is not None and b is not None and [x.arg for x in a.node.args.args] == [x.arg for x in b.node.args.args]:
            out = []
            for f in (a, b):
                ip = Interp(repo, opaque={f'{home}.{fn.name}'})
                ip.files = ip.new(mk('LIST', ()))
                ip.trace_raises = True
                v = ip.exec_func(_frame(f), f.node)
                out.append((ip.deref(v), ip.deref(ip.files), raise_cond(ip), bool(ip.unmodelled)))
            cache[key] = out[0] == out[1] and not out[0][3]
    return cache[key]


def _frame(f):
    fr = Frame(f, f.module)
    fr.env.update({x.arg: V(x.arg) for x in f.node.args.args})
    return fr


UNKNOWN = {'OPQ', 'EACHB', 'APP', 'RES', 'EXC', 'WHILE', 'OPQD', 'NTC', 'PREV', 'PARTIAL', 'PHI', 'FUNC', 'CLOS', 'SLICE', 'GLOB', 'REF'}


class Verdict:
    def __init__(self, spec, status, detail='', witness=None, where=None):
        self.spec, self.status, self.detail, self.witness, self.where = spec, status, detail, witness, where
        self.same_calls = False


def target_func(repo, target):
    m, f = target.rsplit('.', 1)
    return repo.func(m, f)


def check(repo, spec, tries=400, seed=1, mode='full'):
    v = check0(repo, spec, tries, seed, mode)
    if v.status == 'violated':
        alts = {(s.func.module.name, s.func.name): s.func.module.funcs[s.opts['known']] for s in ALL if s.opts.get('known') and s.target != spec.target and s.func.module is spec.func.module}
        if alts:
            # the deviation may be the recorded one of a function called from here, which is reported there
            Interp.alts = alts
            try:
                w = check0(repo, spec, tries, seed, mode)
            finally:
                Interp.alts = {}
            if w.status in ('holds', 'known'):
                return w
    return v


def check0(repo, spec, tries=400, seed=1, mode='full'):
    """verdict on one specification; a recorded deviation (`known`) is recognised by its own description

    mode  full   every facet agrees with the specification
          det    the code does not depend on the order of unordered collections where the specification does not
          args   the code leaves its arguments as the specification does
          total  the code has a value wherever the specification has one
    """
    if spec.opts.get('known') and mode != 'full':
        v = check1(repo, spec, spec.func.module.funcs[spec.opts['known']], spec.opts.get('opaque', {}), tries, seed, mode=mode)
        if v.status == 'holds':
            return v
    v = check1(repo, spec, spec.func, spec.opts.get('opaque', {}), tries, seed, mode=mode)
    if v.status == 'violated' and spec.opts.get('known'):
        alt = spec.func.module.funcs[spec.opts['known']]
        w = check1(repo, spec, alt, spec.opts.get('opaque', {}), tries, seed, mode=mode)
        if w.status == 'holds':
            return Verdict(spec, 'known', (ast.get_docstring(alt.node) or alt.name), v.witness, v.where)
    if v.status == 'violated' and spec.opts.get('opaque') and not spec.opts.get('closed'):
        # the code may no longer go through the functions left uninterpreted: compare with everything in place
        Interp.until = time.time() + 60
        try:
            w = check1(repo, spec, spec.func, {}, tries, seed, limit=25, mode=mode)
        finally:
            Interp.until = None
        proved = w.status == 'holds' and w.detail.startswith('identical')
        if w.status == 'violated' or proved or not v.same_calls or not all(as_specified(repo, n, tries, seed) for n in spec.opts['opaque'] if '>' not in n):
            v = w
    return v


def called(v, mut, names, files):
    """the uninterpreted functions a summary goes through"""
    return {x.a[0] for t in [v, files] + list(mut.values()) for x in walk(t) if x.op == 'CALL' and x.a[0] in names}


def as_specified(repo, name, tries, seed):
    """does an uninterpreted function of the repository meet its own specification"""
    own = [s for s in ALL if s.target == name]
    funcs = lambda s: [s.func] + ([s.func.module.funcs[s.opts['known']]] if s.opts.get('known') else [])
    return bool(own) and all(any(check1(repo, s, f, s.opts.get('opaque', {}), tries // 4, seed, limit=15).status == 'holds' for f in funcs(s)) for s in own)


def same_signature(repo, name):
    """does an uninterpreted function still take the parameters that its reference definition takes"""
    m, _, f = name.rpartition('.')
    a = repo.modules[m].funcs.get(f) if m in repo.modules else None
    b = repo.modules['ref_' + m].funcs.get(f) if 'ref_' + m in repo.modules else None
    if a is None:
        return False
    return b is None or [x.arg for x in a.node.args.args + a.node.args.kwonlyargs] == [x.arg for x in b.node.args.args + b.node.args.kwonlyargs]


def check1(repo, spec, sfunc, opaque, tries, seed, limit=60, mode='full'):
    try:
        fn = target_func(repo, spec.target)
    except AnchorError as e:
        return Verdict(spec, 'missing', str(e))
    decl = domain_of(spec, sfunc)
    leaves = {}

    def args_spec(interp):
        if spec.decl is None or sfunc is not spec.func:
            return bindings(interp, decl, leaves)
        return args_for(interp, sfunc)

    def args_repo(interp):
        return args_for(interp, fn)

    def args_for(interp, fn):
        vals, refs = bindings(interp, decl, leaves)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        pos = list(vals.values())
        out = {}
        nd = len(a.defaults)
        npos = len(a.posonlyargs + a.args)
        for i, n in enumerate(names):
            if n in vals:
                out[n] = vals[n]
            elif i < len(pos) and i < npos and list(vals)[i] not in names:
                out[n] = pos[i]
            elif i >= npos - nd and i < npos:
                interp.stack.append(Frame(None, fn.module))
                out[n] = interp.ev(a.defaults[i - (npos - nd)])
                interp.stack.pop()
            else:
                out[n] = V(n)
        if a.kwarg:
            kw = {k: v for k, v in vals.items() if k not in out}
            out[a.kwarg.arg] = interp.new(mk('DICT', tuple((K(k), v) for k, v in kw.items())))
        return out, refs
    try:
        raises = bool(spec.opts.get('raises'))
        stubs = {n: (lambda ip, n=n, d=d: make_arg(ip, n, d, leaves, {})) for n, d in spec.opts.get('stubs', {}).items()}
        sv, sm, si = summarise(repo, sfunc, args_spec, opaque, raises=raises, trace=True, stubs=stubs)
        rv, rm, ri = summarise(repo, fn, args_repo, opaque, raises=raises, trace=True, stubs=stubs)
    except (Budget, RecursionError) as e:
        return Verdict(spec, 'undecided', f'summary too large ({type(e).__name__})', where=fn.where)
    facets = [('returned value', sv, rv)] if spec.opts.get('value', True) else []
    for n in sm if spec.opts.get('args', True) else ():
        facets.append((f'argument {n} after the call', sm[n], rm[n]))
    sc, rc = raise_cond(si), raise_cond(ri)
    if raises:
        # a refused input has no result
        facets = [(n, a, b) if a is b else (n, mk('ITE', sc, NONE, a), mk('ITE', rc, NONE, b)) for n, a, b in facets]
    if spec.opts.get('raises', True):
        facets.append(('raise condition', sc, rc))
    sf, rf = si.deref(si.files), ri.deref(ri.files)
    if any(x.op == 'TUP' and x.a[0] and isk(x.a[0][0], str) and x.a[0][0].a[0] in ('open', 'write', 'call', 'system') for t in (sf, rf) for x in walk(t)):
        facets.append(('files written', mk('FILES', sf), mk('FILES', rf)))
    if spec.opts.get('facets') == 'refusal':
        # which requests are refused, and what has been written when that happens
        facets = [('refused requests', sc, rc), ('files written for a refused request', mk('ITE', sc, mk('FILES', sf), NONE), mk('ITE', sc, mk('FILES', rf), NONE))]
    funcs = {k: DOMAINS[d] for k, d in opaque.items()}
    funcs.update({k: DOMAINS[d] for k, d in dm.EXTERNAL.items()})
    if mode == 'args':
        facets = [x for x in facets if x[0].startswith('argument ')]
        if not facets:
            return Verdict(spec, 'holds', 'no mutable argument', where=fn.where)
    for name, s, r in facets:
        if s is r:
            continue
        unk = {x.op for x in walk(r)} & UNKNOWN - ({x.op for x in walk(s)} & UNKNOWN)
        st, w = separate(s, r, leaves, tries, seed, spec, funcs, repo, limit, mode, name)
        if st == 'equal' or (st == 'undecided' and name == 'raise condition' and not raises):
            continue
        if st == 'undecided' or unk or ri.unmodelled:
            return Verdict(spec, 'undecided', f'{name}: {w if st == "undecided" else sorted(unk) + ri.unmodelled[:2]}', where=fn.where)
        what = {'det': 'follows the order of an unordered collection', 'total': 'is not defined where the specification is'}.get(mode, 'differs from the specification')
        v = Verdict(spec, 'violated', f'{name} {what}', w, fn.where)
        v.same_calls = called(sv, sm, opaque, sf) == called(rv, rm, opaque, rf) and all(same_signature(repo, n) for n in opaque if '>' not in n)
        return v
    proof = all(s is r for _, s, r in facets)
    return Verdict(spec, 'holds', 'identical normal forms' if proof else 'normal forms agree under every valuation tried', where=fn.where)


class Unfold:
    """summaries of repository functions for calls the value numbering did not expand (recursion, depth limit)"""
    def __init__(self, repo):
        self.repo, self.cache, self.values = repo, {}, {}

    KIND = {int: 'int', bool: 'bool', str: 'str', list: 'list', tuple: 'tuple'}

    def __call__(self, name, args, kw):
        if '.' not in name:
            return None
        m, f = name.rsplit('.', 1)
        if m not in self.repo.modules or f not in self.repo.modules[m].funcs:
            return None
        fn = self.repo.modules[m].funcs[f]
        a = fn.node.args
        if a.vararg or a.kwarg:
            return None
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        env = dict(zip(names, args))
        env.update(kw)
        kinds = tuple((n, self.KIND.get(type(env[n]))) for n in names if n in env)
        key = (name, kinds)
        if key not in self.cache:
            def bind(interp):
                out = {n: V(n, k) for n, k in kinds}
                npos, nd = len(a.posonlyargs + a.args), len(a.defaults)
                interp.stack.append(Frame(None, fn.module))
                for i, n in enumerate(names):
                    if n not in out:
                        d = a.defaults[i - (npos - nd)] if npos - nd <= i < npos else (a.kw_defaults[i - npos] if i >= npos else None)
                        out[n] = interp.ev(d) if d is not None else V(n)
                interp.stack.pop()
                return out, {}
            v, _, ip = summarise(self.repo, fn, bind, opaque={name})
            pure = not ip.unmodelled and not any(e.kind in ('mutate', 'setattr', 'global', 'stmt') for e in ip.effects)
            self.cache[key] = (v, raise_cond(ip)) if pure else None
        c = self.cache[key]
        return None if c is None else (env, c[0], c[1])


def hints(s, r):
    ints, strs = set(), set()
    for x in list(walk(s)) + list(walk(r)):
        if x.op == 'K':
            if isinstance(x.a[0], bool):
                continue
            if isinstance(x.a[0], int) and -1 <= x.a[0] <= 12:
                ints |= {x.a[0], x.a[0] + 1, x.a[0] - 1}
        elif x.op in ('CALLM', 'IN', 'EQ'):
            for y in walk(x):
                if y.op == 'K' and isinstance(y.a[0], str) and 0 < len(y.a[0]) <= 24:
                    strs.add(y.a[0])
        elif x.op in ('GE', 'LIN', 'EQ0'):
            for y in walk_consts(x):
                if isinstance(y, int) and not isinstance(y, bool) and abs(y) <= 12:
                    ints |= {abs(y), abs(y) + 1, abs(y) - 1}
    return sorted(i for i in ints if 0 <= i <= 12), sorted(strs)[:30]


def constants(t):
    out = set()
    for x in walk(t):
        if x.op == 'K' and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
            out.add(abs(x.a[0]))
        elif x.op in ('GE', 'LIN', 'EQ0'):
            out |= {abs(y) for y in walk_consts(x) if isinstance(y, int) and not isinstance(y, bool)}
    return out


def walk_consts(x):
    for a in x.a:
        if isinstance(a, int):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, int):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, int):
                            yield c


def raise_cond(interp):
    c = FALSE
    for e in interp.effects:
        if e.kind == 'raise':
            g = e.guard
            for it, k in reversed(e.loops):
                g = mkany(it, k, g)
            c = disj(c, g)
    return c


def mkeval(env, funcs, unfold, rng):
    e = Eval(env, funcs, unfold)
    e.shints, e.fresh, e.turn = rng.shints, rng.fresh, rng.turn
    if rng.deep:
        e.fuel = 2500000
    return e


def separate(s, r, leaves, tries, seed, spec=None, funcs=None, repo=None, limit=60, mode='full', facet=''):
    unfold = Unfold(repo) if repo is not None else None
    rng = dm.Rng(seed)
    rng.hints, rng.shints = hints(s, r)
    rng.fresh = sorted(constants(r) - constants(s))[:12]
    done = 0
    rng.deep = limit < 60
    end = time.time() + limit
    for n in range(tries):
        now = time.time()
        if now > end and (done >= 40 or now > end + limit):
            break
        rng.turn, rng.wide = n, n % 3 == 2
        rng.big, rng.long, rng.tiny = n % 7 == 5, n % 9 == 4, n % 5 == 3 or limit < 60
        env = dm.valuation(rng, leaves)
        pre = spec.opts.get('where') if spec else None
        if pre and not eval(pre, {k: _ns(v) for k, v in env.items()}):
            continue
        try:
            a = norm_value(mkeval(env, funcs, unfold, rng)(s))
        except (Undefined, TooBig):
            continue
        except Unsupported as e:
            return 'undecided', f'specification side: {e}'
        try:
            b = norm_value(mkeval(env, funcs, unfold, rng)(r))
        except TooBig:
            continue
        except Undefined as e:
            if mode == 'det':
                continue
            return 'differ', {'leaves': {k: repr(v) for k, v in env.items()}, 'specified': repr(a)[:400], 'code': f'undefined ({e})'}
        except Unsupported as e:
            return 'undecided', str(e)
        done += 1
        if mode == 'det':
            SetV.salt = b'other order'
            try:
                b2 = norm_value(mkeval(env, funcs, unfold, rng)(r))
                a2 = norm_value(mkeval(env, funcs, unfold, rng)(s)) if b2 != b else a
            except (Undefined, TooBig, Unsupported):
                continue
            finally:
                SetV.salt = b''
            if b2 != b and a2 == a:
                return 'differ', {'leaves': {k: repr(v) for k, v in env.items()}, **dict(zip(('one order', 'another order'), _diff(repr(b), repr(b2)).values()))}
            continue
        if mode == 'total' and not (facet in ('raise condition', 'refused requests') and b is True and a is False):
            continue
        if a != b:
            return 'differ', {'leaves': {k: repr(v) for k, v in env.items()}, **_diff(repr(a), repr(b))}
    if done < 20:
        return 'undecided', 'too few usable valuations'
    return 'equal', None


def _diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    lo = max(0, n - 120)
    return {'specified': ('…' if lo else '') + a[lo:n + 240], 'code': ('…' if lo else '') + b[lo:n + 240]}


class _NS:
    def __init__(self, d):
        self.__dict__.update(d)


def _ns(v):
    if isinstance(v, Obj):
        return _NS({k: _ns(x) for k, x in v._f.items()})
    if isinstance(v, list):
        return [_ns(x) for x in v]
    return v
