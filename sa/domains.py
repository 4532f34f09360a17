"""Leaf domains for the random interpretation of summary terms.

Values respect the representation invariants of the repository (leg counts that agree between the operators of a term), so that code
relying on an invariant is not told apart from code that recomputes it.  A domain `group.part` draws the group once per valuation.
`rng.hints` are the small integers and strings that occur as constants in the two terms being compared.
"""
import random
from .evalt import Obj


class Rng(random.Random):
    hints = ()
    shints = ()
    big = False        # larger counts
    long = False       # longer lists
    tiny = False       # least values
    wide = False       # one or two truncations up to their documented maximum
    turn = 0
    deep = False       # long evaluations
    fresh = ()         # constants of the code that the specification does not have


def pick(rng, base, lo=0, hi=9):
    hs = rng.hints
    if rng.fresh and rng.random() < 0.2:
        v = rng.choice(rng.fresh) + rng.choice([0, 0, 1, 1, -1])
        if lo <= v <= max(hi, 6):
            return v
    if hs and rng.random() < 0.15:
        v = rng.choice(hs)
        if lo <= v <= hi:
            return v
    if rng.big and lo < 7 and rng.random() < 0.5:
        return rng.randint(lo, min(hi, 7))
    return rng.choice(base)


def count(rng, lo, hi):
    """length of a list"""
    if rng.fresh and rng.random() < 0.2:
        v = rng.choice(rng.fresh) + rng.choice([0, 0, 1, 1, -1])
        if lo <= v <= 40:
            return v
    if rng.long and rng.random() < 0.6:
        return rng.randint(max(lo, 4), 8)
    if rng.hints and rng.random() < 0.1:
        v = rng.choice(rng.hints)
        if lo <= v <= 9:
            return v
    return rng.randint(lo, hi)


def lst(rng, one, lo=0, hi=4):
    n = count(rng, lo, hi)
    out = []
    for _ in range(n):
        if out and rng.random() < 0.3:
            out.append(rng.choice(out))
        else:
            out.append(one(rng))
    return out


small = lambda r: pick(r, [0, 0, 1, 1, 2, 3])
nat = lambda r: pick(r, [0, 1, 2, 3, 4, 5, 6, 7, 8])
pos = lambda r: pick(r, [1, 2, 3, 4, 5, 6, 7, 8], lo=1)
upto6 = lambda r: pick(r, [1, 1, 2, 2, 3, 4, 5, 6], lo=1, hi=6)


def gop(name, m, n):
    return Obj('general_operator_namedtuple', {'name': name, 'rank': m + n, 'm': m, 'n': n})


def op(rng):
    m, n = pick(rng, [0, 0, 1, 1, 2, 3, 4, 6]), pick(rng, [0, 0, 1, 1, 2, 3, 4, 6])
    return gop('s' + (f'^{m}' if m else '') + (f'_{n}' if n else ''), m, n)


def omega(rng):
    m, n = small(rng), small(rng)
    return gop('d' * m + 'b' * n, m, n)


def hop(m, n):
    return Obj('h_operator_namedtuple', {'rank': m + n, 'm': m, 'n': n})


def h(rng):
    return hop(pick(rng, [0, 0, 1, 1, 2, 3, 4]), pick(rng, [0, 0, 1, 1, 2, 3, 4]))


def ct(rng):
    f = {k: pick(rng, [0, 0, 0, 1, 1, 2, 3], hi=5) for k in ('m_h', 'n_h', 'm_o', 'n_o')}
    return mkct(**f)


def mkct(m_h, n_h, m_o, n_o):
    return Obj('disconnected_namedtuple' if m_h == 0 and n_h == 0 else 'connected_namedtuple', {'m_h': m_h, 'n_h': n_h, 'm_o': m_o, 'n_o': n_o})


# ---------------------------------------------------------------- one product of omega, h and amplitudes that may balance
def split(rng, total, k):
    """total spread over k places"""
    out = [0] * k
    for _ in range(total):
        out[rng.randrange(k)] += 1
    return out


def product_group(rng):
    k = count(rng, 1, 3)
    sop = lambda: gop('1', 0, 0) if rng.random() < .06 else (lambda m, n: gop('s' + (f'^{m}' if m else '') + (f'_{n}' if n else ''), m, n))(*rng.choice([(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 0)] if rng.random() < .7 else [(1, 0)]))
    prod = [sop() for _ in range(k)]
    sm, sn = sum(x._f['m'] for x in prod), sum(x._f['n'] for x in prod)
    if rng.random() < 0.75:
        extra = rng.choice([0, 0, 0, 1, 2])          # legs between omega and h
        e2 = rng.choice([0, 0, 0, 1])
        on, hn = split(rng, sm, 2)
        om, hm = split(rng, sn, 2)
        om, hn, on, hm = om + extra, hn + extra, on + e2, hm + e2
    else:
        om, on, hm, hn = [small(rng) for _ in range(4)]
        if rng.random() < .5:
            # little for omega and h to contract with
            prod = rng.choice([[], [gop('1', 0, 0)], [gop('s^1', 1, 0)], [gop('s_1', 0, 1)]])
            sm, sn = sum(x._f['m'] for x in prod), sum(x._f['n'] for x in prod)
            if rng.random() < .6:
                hm, hn = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1)])
            elif rng.random() < .6:
                om, on = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1)])
    prods = [prod] + [[sop() for _ in range(len(prod))] for _ in range(rng.randint(0, 2))]
    rng.shuffle(prods)
    return {'omega': gop('d' * om + 'b' * on, om, on), 'h': hop(hm, hn), 'product': prod, 'products': prods,
            'nof_creation': om + hm + sm}


# ---------------------------------------------------------------- connected full cc terms
def fcc_term(rng, om=None, on=None, closed=False):
    """[omega, h, amplitudes] with agreeing leg counts; closed: one amplitude takes all of omega"""
    if om is None:
        om, on = small(rng), small(rng)
    k = count(rng, 1, 3)
    if rng.random() < 0.12 and not closed:
        ts = [mkct(0, 0, 0, 0)]
        m_o, n_o = on, om
        return fcc_build(om, on, ts, m_o, n_o)
    if closed:
        first = mkct(0, 0, on, om)
        ts = [first] + [mkct(*rng.choice([(1, 0), (0, 1), (1, 1), (2, 0)]), 0, 0) for _ in range(k - 1)]
        rng.shuffle(ts)
        return fcc_build(om, on, ts, 0, 0)
    up, low = split(rng, on, k + 1), split(rng, om, k + 1)       # legs of omega: last place is h
    ts = []
    for i in range(k):
        mh, nh = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)])
        if mh + nh + up[i] + low[i] == 0:
            mh = 1
        if rng.hints and rng.random() < .05:
            mh = pick(rng, [1, 2], hi=6)
        ts.append(mkct(mh, nh, up[i], low[i]))
    if len(ts) > 1 and rng.random() < .3 and ts[0]._f['m_o'] + ts[0]._f['n_o'] == 0:
        ts[1:1] = [ts[0]]
    return fcc_build(om, on, ts, up[k], low[k])


def fcc_build(om, on, ts, h_m_o, h_n_o):
    g = lambda k: [t._f[k] for t in ts]
    hm, hn = h_m_o + sum(g('n_h')), h_n_o + sum(g('m_h'))
    o = Obj('connected_omega_operator_namedtuple', {'rank': om + on, 'm': om, 'n': on, 'm_h': h_n_o, 'n_h': h_m_o, 'm_t': g('n_o'), 'n_t': g('m_o')})
    hh = Obj('connected_h_operator_namedtuple', {'rank': hm + hn, 'm': hm, 'n': hn, 'm_o': h_m_o, 'n_o': h_n_o, 'm_t': g('n_h'), 'n_t': g('m_h')})
    return [o, hh, ts]


def fcc_group(rng):
    t = fcc_term(rng)
    return {'omega': t[0], 'h': t[1], 'ts': t[2], 'term': t}


def fcc_equation(rng, lo=0, hi=4, closed=False, simple=False):
    om, on = small(rng), small(rng)
    if simple:
        om, on = rng.choice([0, 1]), rng.choice([0, 1])
    if closed and om + on == 0:
        om = 1
    n = count(rng, lo, hi) if hi < 10 else rng.randint(lo, hi)
    out = []
    for _ in range(n):
        out.append(rng.choice(out) if out and rng.random() < .2 else fcc_term(rng, om, on, closed))
    return out


def linked_equation(rng):
    """linked disconnected terms of one equation: some amplitudes contract with omega only, the rest of omega with h or other amplitudes"""
    om, on = rng.choice([(1, 1), (2, 0), (0, 2), (1, 2), (3, 0), (0, 3), (2, 1), (2, 2)] if rng.random() < .9 else [(1, 0), (2, 2), (0, 1)])
    out = []
    for _ in range(count(rng, 1, 4)):
        if out and rng.random() < .2:
            out.append(rng.choice(out))
            continue
        k = rng.choice([1, 1, 2])
        up, low = split(rng, on, k + 2), split(rng, om, k + 2)       # the disconnected ones, one connected amplitude, h
        ts = [mkct(0, 0, up[i], low[i]) for i in range(k) if up[i] + low[i]]
        mh, nh = rng.choice([(1, 0), (0, 1), (1, 1), (2, 0), (0, 2)])
        for _ in range(rng.choice([1, 1, 2])):
            ts.append(mkct(mh, nh, up[k], low[k]))
            up[k] = low[k] = 0
        rng.shuffle(ts)
        out.append(fcc_build(om, on, ts, up[k + 1], low[k + 1]))
    return out


def linked_group(rng):
    terms = linked_equation(rng)
    t = rng.choice(terms)
    common = []
    for x in terms + [rng.choice(terms)]:
        f = [y for y in x[2] if y._f['m_h'] == y._f['n_h'] == 0]
        if f not in common or rng.random() < .1:
            common.append(f if rng.random() < .8 else f[::-1])
    if rng.random() < .5:
        common.sort(key=len, reverse=True)
    return {'common': common, 'h': t[1], 'ts': t[2]}


def fccw_group(rng):
    """terms of one full cc equation and ranks that cover them"""
    lo = lambda t: max(t[1]._f['m'], t[1]._f['n']) <= 6 and all(sum(x._f.values()) <= 6 for x in t[2])
    terms = [t for t in fcc_equation(rng, 0, 4) if lo(t)]
    hmax = max([0] + [max(t[1]._f['m'], t[1]._f['n']) for t in terms])
    tmax = max([0] + [sum(x._f.values()) for t in terms for x in t[2]])
    return {'terms': terms, 'H': rng.randint(max(1, hmax), max(2, hmax)), 'CC': rng.randint(max(1, tmax), max(2, tmax))}


def eq_group(rng):
    terms = fcc_equation(rng, 1, 4)
    return {'terms': terms, 'omega': terms[0][0]}


def rec(cls, **kinds):
    def gen(rng):
        return Obj(cls, {k: DOMAINS[v](rng) for k, v in kinds.items()})
    return gen


def word(r):
    if r.fresh and r.random() < .25:
        v = max(r.fresh) + r.choice([0, 1])
        if 3 < v <= 3000000:
            return ''.join(r.choice('abxyz') for _ in range(7)) * (v // 7 + 1)
    if r.shints and r.random() < .4:
        return ''.join(r.choice([r.choice('abxyz'), r.choice(r.shints)]) for _ in range(r.randint(1, 3)))
    return ''.join(r.choice('abxyz') for _ in range(r.randint(0, 3)))


# ---------------------------------------------------------------- residual, W and amplitude equations
def res_h(rng):
    m, n = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]) if rng.random() < .8 else (pick(rng, [0, 1, 2, 3], hi=6), pick(rng, [0, 1, 2, 3], hi=6))
    return gop('h' + (f'^{m}' if m else '') + (f'_{n}' if n else '') if m + n else 'h_0', m, n)


def res_term(rng):
    hi, hk = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)])
    wi, wk = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6]), rng.choice([hk, hk, hk, rng.choice([0, 1, 2])])
    return Obj('residual_term', {'prefactor': rng.choice(['1.0', '(1/2)', '(1/(2*6))', '(3/24)', 1.0]), 'h': Obj('h_namedtuple', {'max_i': hi, 'max_k': hk}),
                                 'w': Obj('w_namedtuple', {'max_i': wi, 'max_k': wk, 'order': wi + wk})})


def prefactor(rng):
    n, d = rng.choice([1, 1, 2, 3, 6, 10, 15]), rng.randint(1, 6)
    return rng.choice(['', f'({n}/{d}!)', f'({n}/{d}!)', '(1/2)', f'({n}/{d})', f'({n}/(2*{d}!))', f'({n}/{d}!)*(1/2)', '(1/2) * '])


def raw_prefactor(rng):
    n, d = rng.choice([1, 1, 2, 3, 5, 15, 21]), rng.randint(1, 6)
    if rng.random() < .3:
        n = d
    if n % 2 == 0 and n != d:
        n += 1
    return f'({n}/{d}!)' + rng.choice(['', '*(1/2)'])


def h_label(rng):
    up, low = [f'i_{i+1}' for i in range(rng.randint(0, 3))], [f'k_{i+1}' for i in range(rng.randint(0, 3))]
    return 'h' + ('^{' + ','.join(up) + '}' if up else '') + ('_{' + ','.join(low) + '}' if low else ('_0' if not up else ''))


def w_label(rng):
    if rng.random() < .15:
        return ''
    return 'w^{' + ','.join([f'i_{i+1}' for i in range(rng.randint(0, 3))] + [f'k_{i+1}' for i in range(rng.randint(0, 3))]) + '}'


def res_terms(rng):
    """the terms of one residual, distinct and in an order the generator may produce"""
    out = []
    for _ in range(count(rng, 0, 7)):
        t = res_term(rng)
        if t not in out:
            out.append(t)
    return out


def partition_of(rng, n):
    out = []
    while n > 0:
        k = rng.randint(1, n)
        out.append(k)
        n -= k
    return tuple(sorted(out, reverse=True))


def part_order_group(rng):
    n = pick(rng, [1, 2, 3, 4, 5, 6], lo=1, hi=6)
    return {'partition': partition_of(rng, n), 'order': n}


def parts_order_group(rng):
    n = pick(rng, [1, 2, 3, 4, 5, 6], lo=1, hi=6)
    return {'partitions': [partition_of(rng, n) for _ in range(rng.randint(0, 4))], 'order': n}


def perm_group(rng):
    n = rng.randint(1, 4)
    full = rng.random() < .5
    fix = ['ac', 'cd', 'de', 'eb', 'fb'][:n if full else rng.randint(1, 4)]
    parts = [partition_of(rng, n) for _ in range(rng.randint(1, 3))]
    if any(len(p) > len(fix) for p in parts):
        parts = [(n,)]
    return {'n': n, 'l_fix': fix, 'l_t': [['t_' + 'ijkl'[:k] for k in p] for p in parts],
            'l_perm': [tuple(rng.sample('ijkl'[:n], n)) for _ in range(rng.randint(0, 3))]}


# ---------------------------------------------------------------- z ansatz: contractions between projection, z, h and z
def zhz_term(rng, kind=None, legs=None):
    """[LHS, h, [z_left, z_right]] with agreeing leg counts; c[a, b]: creation operators of a contracted with annihilation operators of b"""
    kind = kind or rng.choice(['second', 'third', 'third', 'third', 'fourth'])
    nodes = ['lhs', 'h'] + (['l'] if kind != 'third' else []) + (['r'] if kind != 'second' else [])
    pairs = [(a, b) for a in nodes for b in nodes if a != b]
    c = dict.fromkeys(pairs, 0)
    for _ in range(legs if legs is not None else pick(rng, [0, 1, 2, 2, 3, 3, 4, 5, 6], hi=6)):
        p = rng.choice(pairs)
        if kind == 'third' and p[1] == 'r' and rng.random() < .7:
            p = (p[1], p[0])                    # ground state: the z carry no annihilation operators
        c[p] += 1
    g = lambda a, b: c.get((a, b), 0)
    m = {a: sum(g(a, b) for b in nodes) for a in nodes}
    n = {a: sum(g(b, a) for b in nodes) for a in nodes}

    def node(cls, a, others):
        f = {'rank': m[a] + n[a], 'm': m[a], 'n': n[a]}
        for b in others:
            f['m_' + b], f['n_' + b] = g(a, b), g(b, a)
        return Obj(cls, f)
    dis = lambda a: 'disconnected' if g(a, 'h') == g('h', a) == 0 else 'connected'
    lhs = node('connected_lhs_operator_namedtuple', 'lhs', ['l', 'h', 'r'])
    h = node('connected_h_z_operator_namedtuple', 'h', ['lhs', 'l', 'r'])
    zl = node(dis('l') + '_z_left_operator_namedtuple', 'l', ['lhs', 'h', 'r']) if 'l' in nodes else None
    zr = node(dis('r') + '_z_right_operator_namedtuple', 'r', ['lhs', 'h', 'l']) if 'r' in nodes else None
    return [lhs, h, [zl, zr]]


def zhz_group(kind):
    def gen(rng):
        t = zhz_term(rng, kind)
        return {'LHS': t[0], 'h': t[1], 'zl': t[2][0], 'zr': t[2][1], 'term': t}
    return gen


def zname(m, n):
    return 'z' + (f'^{m}' if m else '') + (f'_{n}' if n else '')


def zprod_group(rng):
    """operators before their contraction"""
    kind = rng.choice(['second', 'third', 'third', 'fourth'])
    L, h, (zl, zr) = zhz_term(rng, kind, legs=rng.choice([1, 1, 2, 2, 3, 4]))
    bare = lambda z: gop(None, 0, 0) if z is None else gop(zname(z._f['m'], z._f['n']), z._f['m'], z._f['n'])
    off = lambda z: gop(zname(z._f['m'] + 1, z._f['n']), z._f['m'] + 1, z._f['n']) if z._f['name'] is not None else z
    pair = (bare(zl), bare(zr))
    pairs = [pair] + [rng.choice([pair, (off(pair[0]), pair[1]), (pair[0], off(pair[1])), (off(pair[0]), off(pair[1]))]) for _ in range(rng.randint(0, 2))]
    rng.shuffle(pairs)
    m, n = L._f['m'], L._f['n']
    hm, hn = h._f['m'], h._f['n']
    if rng.random() < .2:
        hm = small(rng)
    lab = [zhz_term(rng, kind, legs=rng.choice([1, 2, 3])) for _ in range(rng.randint(0, 2))]
    ops = lambda z: None if z._f['name'] is None else Obj('z_operator_namedtuple', {'maximum_rank': 2, 'operator_list': [z] + [gop(zname(i, 0), i, 0) for i in range(rng.randint(0, 3))]})
    return {'LHS': gop('d' * m + 'b' * n, m, n), 'h': hop(hm, hn), 'pair': pair, 'pairs': pairs, 'left': pair[0], 'right': pair[1], 'zlists': [[zl, zr]],
            'H': Obj('hamiltonian_namedtuple', {'maximum_rank': 2, 'operator_list': [hop(hm, hn)] + [hop(*rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)])) for _ in range(rng.randint(0, 2))]}),
            'ZL': ops(pair[0]), 'ZR': ops(pair[1])}


def zhz_equation(kind, legs=None):
    return lambda r: lst(r, lambda q: zhz_term(q, kind, legs), 0, 4) if r.random() < .7 else [zhz_term(r, kind, 1) for _ in range(r.randint(12, 22))]


# ---------------------------------------------------------------- eT z ansatz: contractions between projection, t's, h and z
def eT_term(rng, legs=None, left=False, nt=None, pure=False, full=False):
    """[LHS, t_list, h, (z_left, z_right), count]; `left`: with a z on the left; `pure`: the ground state only (t annihilates, z creates)"""
    k = nt if nt is not None else (0 if rng.tiny else rng.choice([0, 0, 1, 1, 2, 2, 3]))
    ts = [f't{i}' for i in range(k)]
    nodes = ['lhs'] + ts + ['h'] + (['l'] if left else []) + ['r']
    pairs = [(a, b) for a in nodes for b in nodes if a != b and (full or a not in ts) and not (b in ts and a in ts) and not (pure and (b in 'lr' or a == 'lhs'))]
    c = dict.fromkeys(pairs, 0)
    for t in ts:
        c[rng.choice([p for p in pairs if p[1] == t])] += 1
    for _ in range(legs if legs is not None else 0 if rng.tiny else pick(rng, [0, 1, 1, 2, 2, 3, 4, 5], hi=6)):
        c[rng.choice(pairs)] += 1
    g = lambda a, b: c.get((a, b), 0)
    m = {a: sum(g(a, b) for b in nodes) for a in nodes}
    n = {a: sum(g(b, a) for b in nodes) for a in nodes}
    seq = ts if ts else ['t0']

    def node(cls, a, others, wrap=None):
        f = {'rank': m.get(a, 0) + n.get(a, 0), 'm': m.get(a, 0), 'n': n.get(a, 0)}
        for b in others:
            if b == 't':
                f['m_t'], f['n_t'] = wrap(g(a, t) for t in seq), wrap(g(t, a) for t in seq)
            else:
                f['m_' + b], f['n_' + b] = g(a, b), g(b, a)
        return Obj(cls, f)
    dis = lambda a: 'disconnected' if g(a, 'h') == g('h', a) == 0 else 'connected'
    lhs = node('connected_eT_lhs_operator_namedtuple', 'lhs', ['l', 't', 'h', 'r'], list)
    h = node('connected_eT_h_z_operator_namedtuple', 'h', ['lhs', 't', 'l', 'r'], list)
    zl = node(dis('l') + '_eT_z_left_operator_namedtuple', 'l', ['lhs', 't', 'h', 'r'], tuple) if left else None
    zr = node(dis('r') + '_eT_z_right_operator_namedtuple', 'r', ['lhs', 't', 'h', 'l'], tuple)
    tt = tuple(node(dis(t) + '_t_operator_namedtuple', t, ['lhs', 'l', 'h', 'r']) for t in seq)
    return [lhs, tt, h, (zl, zr), rng.choice([1, 1, 1, 2, 3])]


def eT_group(**kw):
    def gen(rng):
        t = eT_term(rng, **kw)
        return {'LHS': t[0], 'ts': t[1], 'h': t[2], 'zl': t[3][0], 'zr': t[3][1], 'term': t, 't': rng.choice(t[1])}
    return gen


def tname(m, n):
    return 's' + (f'^{m}' if m else '') + (f'_{n}' if n else '')


def eTprod_group(rng):
    """operators before their contraction"""
    L, ts, h, (zl, zr), _ = eT_term(rng, legs=rng.choice([0, 1, 1, 2, 2, 3]), pure=rng.random() < .6, left=rng.random() < .25, nt=rng.choice([0, 1, 1, 2, 2]))
    op1 = lambda t: gop('1', 0, 0) if t._f['rank'] == 0 else gop(tname(t._f['m'], t._f['n']), t._f['m'], t._f['n'])
    tl = [op1(t) for t in ts]
    bare = lambda z: gop(None, 0, 0) if z is None else gop(zname(z._f['m'], z._f['n']), z._f['m'], z._f['n'])
    left, right = bare(zl), bare(zr)
    off = lambda z: gop(zname(z._f['m'] + 1, z._f['n']), z._f['m'] + 1, z._f['n']) if z._f['name'] is not None else z
    pairs = [(left, right)] + [(left, rng.choice([off(right), right])) for _ in range(rng.randint(0, 1))]
    eT = [tl] + [list(reversed(tl))] * (len(tl) > 1) + [[rng.choice(tl + [gop('s_1', 0, 1), gop('s_2', 0, 2)]) for _ in tl] for _ in range(rng.randint(0, 1))]
    rng.shuffle(eT)
    m, n = L._f['m'], L._f['n']
    hm, hn = h._f['m'], h._f['n']
    if rng.random() < .2:
        hm = small(rng)
    series = rng.choice([eT] if len(tl) > 1 else [gop('1', 0, 0)] if tl[0]._f['rank'] == 0 else [[x[0] for x in eT]])
    perms = [(tuple(tl), (zl, zr))] if False else [(ts, (zl, zr))] + [(tuple(reversed(ts)), (zl, zr)) for _ in range(rng.randint(0, 2))]
    ops = lambda z: None if z._f['name'] is None else Obj('z_operator_namedtuple', {'maximum_rank': 2, 'operator_list': [z] + [gop(zname(i, 0), i, 0) for i in range(rng.randint(0, 2))]})
    return {'LHS': gop('d' * m + 'b' * n, m, n), 'h': hop(hm, hn), 'ts': tuple(tl), 'eT': eT, 'left': left, 'right': right, 'pairs': pairs, 'pair': (zl, zr), 'pair0': (None, zr),
            'triplets': [(tuple(rng.choice(eT)), *p) for p in pairs], 'perms': perms, 'unique': perms[:1], 'count': {p: rng.randint(1, 3) for p in perms}, 'series': series,
            'H': Obj('hamiltonian_namedtuple', {'maximum_rank': 2, 'operator_list': [hop(hm, hn)] + [hop(*rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)])) for _ in range(rng.randint(0, 1))]}),
            'ZL': ops(left), 'ZR': ops(right)}


def eTfree_group(rng):
    """operators that need not fit together"""
    n1 = lambda: 0 if rng.tiny else pick(rng, [0, 0, 0, 1, 1, 2], hi=3)
    om, on = n1(), n1()
    if rng.random() < .4:                       # nearly everything empty: operators that could only join with themselves
        v = [0] * 8
        if rng.random() < .7:
            v[rng.randrange(8)] = rng.randint(1, 2)
        p = lambda f, i: f(v[i], v[i + 1])
        ts = [gop(tname(*x), *x) for x in rng.choice([[(0, 0)], [(v[0], v[1])], [(0, 0), (v[0], v[1])]])]
        lr = [(gop(None, 0, 0) if x == (0, 0) and rng.random() < .5 else gop(zname(*x), *x)) for x in [(v[2], v[3]), (v[4], v[5])]]
        om, on = rng.choice([(0, 0), (1, 1), (1, 2), (2, 1), (v[6], v[7])])
        hm, hn = rng.choice([(0, 0), (1, 1), (1, 2), (2, 1), (v[6], v[7])])
        return {'LHS': gop('d' * om + 'b' * on, om, on), 'h': hop(hm, hn), 'ts': tuple(ts), 'eT': [ts], 'left': lr[0], 'right': lr[1], 'pairs': [tuple(lr)]}
    ts = [gop(tname(a, b), a, b) for a, b in [(rng.choice([0, 0, 0, n1()]), n1()) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 2))]]
    z = lambda: (lambda a, b: gop(zname(a, b), a, b))(n1(), rng.choice([0, n1()]))
    left = gop(None, 0, 0) if rng.random() < .5 else z()
    right = z()
    if rng.random() < .6:                       # legs that at least balance
        lack = om + left._f['m'] + right._f['m'] + sum(t._f['m'] for t in ts) - on - left._f['n'] - right._f['n'] - sum(t._f['n'] for t in ts)
        k = n1()
        hh = hop(k + max(0, -lack), k + max(0, lack))
    else:
        hh = hop(n1(), n1())
    other = [gop(tname(0, 1), 0, 1) for _ in ts]
    return {'LHS': gop('d' * om + 'b' * on, om, on), 'h': hh, 'ts': tuple(ts), 'eT': [ts] + [other] * rng.randint(0, 1), 'left': left, 'right': right, 'pairs': [(left, right), (left, z())][:rng.randint(1, 2)]}


def eT_equation(**kw):
    return lambda r: lst(r, lambda q: eT_term(q, full=q.random() < .2, **kw), 0, 4) if r.random() < .7 else [eT_term(r, legs=1, nt=r.choice([0, 1])) for _ in range(r.randint(5, 14))]


def eT_expansion(rng):
    top, order = (1, 1) if rng.tiny else rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)])
    ops = [gop(tname(0, i + 1), 0, i + 1) for i in range(top)]
    out, cur = [gop('1', 0, 0), ops], [[o] for o in ops]
    for _ in range(order - 1):
        cur = [c + [o] for c in cur for o in ops]
        out.append(cur)
    return out


def eT_code_group(rng):
    top = rng.choice([2, 3])
    H = Obj('hamiltonian_namedtuple', {'maximum_rank': 3, 'operator_list': [hop(0, 0), hop(1, 0), hop(0, 1), hop(1, 1)]})
    Z = Obj('z_operator_namedtuple', {'maximum_rank': top, 'operator_list': [gop(zname(i, j), i, j) for i in range(top + 1) for j in range(top + 1 - i) if not j or rng.random() < .3]})
    om = Obj('omega_namedtuple', {'maximum_rank': top, 'operator_list': [gop('b' * i, 0, i) for i in range(top + 1)]})
    terms, n = [], 0 if rng.random() < .1 else rng.randint(1, 5)
    nt = rng.choice([0, 1, None])
    while len(terms) < n:
        t = eT_term(rng, legs=rng.choice([0, 1, 1, 2, 3]), nt=nt)
        if max(t[2]._f['m'], t[2]._f['n']) <= 3 and t[3][1]._f['rank'] <= 8 and max(x._f['rank'] for x in t[1]) <= top:
            terms.append(t)
            if rng.random() < .3 and len(terms) < n:
                terms.append(t)
    zdict = {k: {rng.choice(['', '(1 / 2) * ', '(3 / 4) * ']): lst(rng, word, 0, 3) for _ in range(rng.randint(0, 2))} for k in range(rng.randint(0, 3))}
    a = lambda i, j: gop(tname(i, j), i, j)
    mixed = [gop('1', 0, 0), [a(1, 0), a(0, 1)][rng.randint(0, 1):], [[a(1, 0), a(0, 1)], [a(0, 1), a(0, 1)], [a(1, 0), a(1, 0)]][:rng.randint(0, 3)]]
    return {'operators': (om, H, Z, eT_expansion(rng)), 'terms': terms, 'zdict': zdict, 'mixed': mixed}


GROUPS = {'lk': linked_group, 'eTfree': eTfree_group, 'eT': eT_group(), 'eTx': eT_group(full=True), 'eTl': eT_group(left=True, full=True), 'eTprod': eTprod_group, 'eTc': eT_code_group, 'z2': zhz_group('second'), 'z3': zhz_group('third'), 'z4': zhz_group('fourth'), 'zprod': zprod_group, 'part_order': part_order_group, 'parts_order': parts_order_group, 'perm': perm_group, 'fcc': fcc_group, 'prod': product_group, 'eq': eq_group, 'fccw': fccw_group}

DOMAINS = {
    'op': op,
    'eT_terms': eT_equation(), 'eT_exp': eT_expansion,
    'z2_terms': zhz_equation('second'), 'z3_terms': zhz_equation('third'), 'z4_terms': zhz_equation('fourth'),
    'Z': lambda r: (lambda top: Obj('z_operator_namedtuple', {'maximum_rank': top, 'operator_list': [gop(zname(i, 0), i, 0) for i in range(top + 1)]}))(r.randint(1, 2)),
    'Hz': lambda r: Obj('hamiltonian_namedtuple', {'maximum_rank': 2, 'operator_list': [hop(*x) for x in [(0, 0), (0, 1), (1, 0), (0, 2), (1, 1), (2, 0)] if r.random() < .7]}),
    'omega1': lambda r: (lambda m, n: gop('d' * m + 'b' * n, m, n))(*r.choice([(0, 0), (1, 0), (0, 1), (0, 2), (1, 1), (0, 3)])),
    'ops': lambda r: lst(r, op, 0, 4),
    'h': h,
    'opss': lambda r: lst(r, lambda q: lst(q, op, 0, 3), 0, 4),
    'ctss': lambda r: lst(r, lambda q: lst(q, ct, 0, 3), 0, 4),
    'terms_fcc': lambda r: fcc_equation(r, 0, 4),
    'terms_linked': linked_equation,
    'terms_fcc1': lambda r: fcc_equation(r, 1, 4, closed=True),
    'terms_fcc_long': lambda r: fcc_equation(r, 0, 4) if r.random() < .7 else fcc_equation(r, 12, 24, simple=True),
    'ops1': lambda r: lst(r, op, 1, 4),
    'H': lambda r: Obj('hamiltonian_namedtuple', {'maximum_rank': 4, 'operator_list': lst(r, h, 0, 4)}),
    'omega': omega,
    'Omega': lambda r: Obj('omega_namedtuple', {'maximum_rank': 2, 'operator_list': lst(r, omega, 0, 3)}),
    'pfacs': lambda r: lst(r, lambda q: f'factorial({q.randint(2, 4)})', 0, 4),
    'ct': ct,
    'cts': lambda r: lst(r, ct, 0, 4),
    'cts1': lambda r: lst(r, ct, 1, 4),
    'nat': nat,
    'small': small,
    'pos': pos,
    'rank6': upto6,
    'nats': lambda r: lst(r, small, 0, 4),
    'part_any': lambda r: tuple(sorted(lst(r, lambda q: q.randint(1, 4), 1, 9), reverse=True)),
    'counts': lambda r: {k + 1: r.choice([1, 1, 2, 3]) for k in range(r.randint(0, 4))},
    'w_latex': lambda r: Obj('w_namedtuple_latex', dict(zip('mn', r.choice([(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 0), (0, 0)])))),
    'part': lambda r: tuple(sorted(lst(r, lambda q: q.randint(1, 4), 1, 4), reverse=True)),
    'parts': lambda r: lst(r, DOMAINS['part'], 0, 3),
    'parts1': lambda r: lst(r, DOMAINS['part'], 1, 5),
    'bool': lambda r: r.random() < 0.5,
    'str': word,
    'strs': lambda r: lst(r, word, 0, 4),
    'fac': lambda r: f'{r.randint(2, 4)}!',
    'facs': lambda r: lst(r, DOMAINS['fac'], 0, 4),
    'res_h': res_h, 'res_term': res_term, 'prefactor': prefactor, 'raw_prefactor': raw_prefactor, 'h_label': h_label, 'w_label': w_label,
    'res_terms': res_terms, 'res_term_lists': lambda r: [res_terms(r) for _ in range(5)],
    'none': lambda r: None,
    'side': lambda r: r.choice(['LHS', 'RHS']),
}

KIND = {'part_any': 'tuple', 'eTc.zdict': 'dict', 'eTx.ts': 'tuple', 'eTfree.ts': 'tuple', 'eT.ts': 'tuple', 'eTl.ts': 'tuple', 'eTprod.ts': 'tuple', 'eTprod.pair': 'tuple', 'eTprod.pair0': 'tuple', 'eTc.operators': 'tuple', 'eTprod.count': 'dict', 'zprod.pair': 'tuple', 'part_order.partition': 'tuple', 'part_order.order': 'int', 'parts_order.partitions': 'list', 'parts_order.order': 'int', 'perm.n': 'int',
        'perm.l_t': 'list', 'perm.l_fix': 'list', 'perm.l_perm': 'list', 'counts': 'dict', 'fccw.H': 'int', 'fccw.CC': 'int', 'nat': 'int', 'small': 'int', 'pos': 'int', 'rank6': 'int', 'bool': 'bool', 'str': 'str', 'side': 'str', 'fac': 'str', 'part': 'tuple',
        'prod.nof_creation': 'int', 'prefactor': 'str', 'raw_prefactor': 'str', 'h_label': 'str', 'w_label': 'str', 'res_terms': 'list', 'res_term_lists': 'list'}
for _k in ('lk.common lk.ts terms_linked eTc.mixed eTfree.eT eTfree.pairs eT_terms eT_exp eT.term eTl.term eTc.terms eTprod.eT eTprod.pairs eTprod.triplets eTprod.perms eTprod.unique z2_terms z3_terms z4_terms zprod.pairs zprod.zlists z2.term z3.term z4.term pfacs fccw.terms facs ops opss ctss terms_fcc terms_fcc1 terms_fcc_long ops1 cts cts1 strs nats parts parts1 fcc.ts fcc.term eq.terms '
           'prod.product prod.products').split():
    KIND[_k] = 'list'


# calls out of the repository whose result the analysis leaves open
EXTERNAL = {'§read': 'str', 'os.path.isfile': 'bool', 'os.path.exists': 'bool'}


class _Kinds(dict):
    def get(self, d, default=None):
        if isinstance(d, str) and d.startswith('oneof:') and 'None' in d.split(':')[1].split('|'):
            return default
        if isinstance(d, str) and d not in self and ':' in d:
            return {'int': 'int', 'oneof': 'str', 'list': 'list'}.get(d.split(':')[0], default)
        return dict.get(self, d, default)


class _Domains(dict):
    """also `int:lo:hi`, `oneof:a|b|c`, `list:lo:hi:domain`"""
    def __missing__(self, d):
        head, _, rest = d.partition(':')
        if head == 'int':
            lo, hi = [int(x) for x in rest.split(':')]
            g = lambda r: lo if r.tiny and r.random() < .7 else pick(r, list(range(lo, hi + 1)), lo, hi)
        elif head == 'oneof':
            xs = [None if x == 'None' else x for x in rest.split('|')]
            g = lambda r: r.choice(xs)
        elif head == 'list':
            lo, hi, one = rest.split(':', 2)
            g = lambda r: lst(r, self[one], int(lo), int(hi))
        elif d.split('.')[0] in GROUPS:
            group, part = d.split('.', 1)
            return lambda r: GROUPS[group](r)[part]
        else:
            raise KeyError(d)
        self[d] = g
        return g

    def __contains__(self, d):
        return dict.__contains__(self, d) or d.split(':')[0] in ('int', 'oneof', 'list')


KIND = _Kinds(KIND)
DOMAINS = _Domains(DOMAINS)


def known(dom):
    return dom in DOMAINS or dom.split('.')[0] in GROUPS


MAXIMA = {'maximum_hamiltonian_rank': 6, 'maximum_coupled_cluster_rank': 6, 's_taylor_max_order': 6, 'omega_max_order': 6, 'maximum_T_rank': 1, 'eT_taylor_max_order': 8}


def valuation(rng, leaves):
    """values of all leaves"""
    groups, env = {}, {}
    high = {}
    if rng.wide:
        keys = [n for n, d in leaves.items() if '[@' in n and isinstance(d, str) and d.startswith('int:')]
        for n in rng.sample(keys, min(len(keys), rng.randint(1, 2))):
            high[n] = rng.randint(1, MAXIMA.get(n.split('[@', 1)[1].rstrip(']'), 2))
        for n in keys:
            high.setdefault(n, rng.randint(1, 2) if not n.endswith('_T_rank]') else 1)
    for name, d in leaves.items():
        if name in high and int(d.split(':')[1]) <= high[name]:
            env[name] = high[name]
            continue
        if d in DOMAINS:
            env[name] = DOMAINS[d](rng)
        else:
            g, part = d.split('.', 1)
            if g not in groups:
                groups[g] = GROUPS[g](rng)
            env[name] = groups[g][part]
    return env


def all_partitions(*args):
    """the partitions of a small number: what the recursion is assumed to return for smaller numbers, and callers are given"""
    if len(args) != 1 or isinstance(args[0], bool) or not isinstance(args[0], int) or not 1 <= args[0] <= 9:
        return None

    def go(n, top):
        return [()] if n == 0 else [(k,) + p for k in range(min(n, top), 0, -1) for p in go(n - k, k)]
    return go(args[0], args[0])


for _k in ('parts', 'parts1'):
    DOMAINS[_k].exact = all_partitions
