# small programs in the idioms a maintainer may use; parameter names give the kinds: n,m,k int; xs,ys list of int; ss list of str; s,t str; xss list of lists; d dict str->int; b bool
import itertools
import itertools as it
import math
from collections import defaultdict, Counter, namedtuple, OrderedDict
from functools import reduce

LABELS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
TABLE = {0: 'zero', 1: 'one', 2: 'two'}
point = namedtuple('point', ['x', 'y'])


def early_return_mutation(xs, n):
    out = []
    if n > 2:
        out.append(n)
        return out
    out.append(1)
    for x in xs:
        out.append(x)
    return out


def return_in_loop(xs, n):
    for i, x in enumerate(xs):
        if x > n:
            return i, x
    return None


def return_in_loop_after_append(xs, n):
    out = []
    for x in xs:
        out.append(x)
        if x > n:
            return out
    return out + [n]


def break_loop(xs, n):
    tot = 0
    for x in xs:
        if x > n:
            break
        tot += x
    else:
        tot += 100
    return tot


def break_nested(xss, n):
    out = []
    for xs in xss:
        for x in xs:
            if x == n:
                break
            out.append(x)
        else:
            out.append('full')
        out.append('|')
    return out


def continue_loop(xs, n):
    out = ''
    for i, x in enumerate(xs):
        if x == n:
            continue
        out += f"{i}:{x} "
        if x > n:
            out += '! '
            continue
        out += '. '
    return out


def while_count(n):
    out = []
    i = 0
    while i < n:
        out.append(i * i)
        i += 1
    return out, i


def while_break(xs, n):
    i = 0
    acc = ''
    while True:
        if i >= len(xs):
            break
        if xs[i] == n:
            i += 1
            continue
        acc += str(xs[i])
        i += 1
    return acc


def while_pop(xs):
    stack = list(xs)
    out = []
    while stack:
        out.append(stack.pop())
        if stack:
            out.append(stack.pop(0))
    return out


def while_list_rebind(xs):
    out = []
    rest = xs
    while rest:
        out.append((rest[0], rest.count(rest[0])))
        rest = [x for x in rest if x != rest[0]]
    return out


def rebind_in_for(xs):
    res = []
    for x in xs:
        res = [x] + res
    return res


def rebind_cond(xs, n):
    res = []
    for x in xs:
        if x > n:
            res.append(x)
        else:
            res = [x] + res
    res.reverse()
    return res


def rebind_reset(xs, n):
    out = []
    cur = []
    for x in xs:
        cur.append(x)
        if len(cur) == 2:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def chunks(xs, n):
    k = n + 1
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def alias_list(xs):
    a = []
    b = a
    for x in xs:
        b.append(x)
    a.append(99)
    return a, b, len(b)


def alias_cond(xs, b):
    a = [1]
    c = [2]
    z = a if b else c
    z.append(3)
    return a, c, z


def inner_alias(xs):
    rows = [[] for _ in range(3)]
    first = rows[0]
    for x in xs:
        rows[x % 3].append(x)
    first.append(7)
    return rows


def same_inner(xs):
    rows = [[0]] * 2
    rows[0].append(1)
    return rows


def copy_then_mutate(xs):
    ys = xs.copy()
    ys.append(4)
    zs = xs[:]
    zs.insert(0, 5)
    ws = list(xs)
    ws.extend([1, 2])
    return xs, ys, zs, ws


def mutate_arg(xs, n):
    xs.append(n)
    xs[0] = n + 1
    return len(xs)


def mutate_inner_arg(xss):
    for xs in xss:
        xs.sort()
        xs.append(1)
    return xss


def dict_build(ss):
    out = {}
    for s in ss:
        out[s] = len(s)
    return out


def dict_count(ss):
    out = {}
    for s in ss:
        if s in out:
            out[s] += 1
        else:
            out[s] = 1
    return sorted(out.items())


def dict_get_count(ss):
    out = {}
    for s in ss:
        out[s] = out.get(s, 0) + 1
    return out


def dict_setdefault(ss):
    out = {}
    for s in ss:
        out.setdefault(len(s), []).append(s)
    return out


def dict_defaultdict(ss):
    out = defaultdict(list)
    for s in ss:
        out[len(s)].append(s)
    return sorted((k, v) for k, v in out.items())


def dict_defaultint(xs):
    out = defaultdict(int)
    for x in xs:
        out[x] += 1
    return [out[i] for i in range(3)]


def dict_comp(ss):
    return {s: i for i, s in enumerate(ss)}


def dict_of_lists(xs):
    out = {'even': [], 'odd': []}
    for x in xs:
        if x % 2 == 0:
            out['even'].append(x)
        else:
            out['odd'].append(x)
    return out


def dict_update(d, n):
    e = {'a': 1}
    e.update(d)
    e['z'] = n
    f = {**d, 'q': 2}
    f.pop('q')
    return e, f


def dict_iter(d):
    out = ''
    for k in sorted(d):
        out += k + str(d[k])
    for k, v in d.items():
        out += f'{k}={v};'
    return out


def dict_del(d, n):
    e = dict(d)
    e['k'] = n
    del e['k']
    return e


def counter(xs):
    c = Counter(xs)
    return sorted(c.items())


def counter_method(ss):
    return [ss.count(s) for s in ss]


def set_ops(xs, ys):
    a = set(xs)
    b = set(ys)
    return sorted(a & b), sorted(a | b), sorted(a - b), sorted(a ^ b), len(a)


def set_seen(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def set_methods(xs, n):
    s = set(xs)
    s.discard(n)
    s.update([1, 2])
    return sorted(s)


def fromkeys(xs):
    return list(dict.fromkeys(xs))


def list_contains_dedup(xss):
    out = []
    for xs in xss:
        if xs not in out:
            out.append(xs)
    return out


def list_ops(xs, n):
    ys = xs + [n] * 2
    ys += [1]
    ys[-1] = 7
    del ys[0]
    ys.insert(1, 9)
    ys.remove(9)
    return ys, ys[::-1], ys[-2:], ys.index(7)


def list_pop(xs):
    ys = list(xs)
    a = ys.pop() if ys else None
    b = ys.pop(0) if ys else None
    return a, b, ys


def nested_comp(xss):
    return [x for xs in xss for x in xs if x > 1], [[x + 1 for x in xs] for xs in xss]


def cond_comp(xs, n):
    return [('big' if x > n else 'small') for x in xs], sum(1 for x in xs if x == n), any(x > n for x in xs), all(x <= n for x in xs)


def gen_expr(xs):
    return ', '.join(str(x) for x in xs), sum(x * x for x in xs), max((x for x in xs), default=0), tuple(x for x in xs)


def generator(n):
    def g(k):
        for i in range(k):
            yield i
            if i % 2:
                yield -i
    return list(g(n))


def generator_early(xs, n):
    def g():
        for x in xs:
            if x == n:
                return
            yield x
    return list(g())


def nested_func(xs, n):
    def add(x, y=1):
        return x + y + n
    return [add(x) for x in xs] + [add(x, y=2) for x in xs]


def closure_state(xs):
    out = []

    def put(x):
        out.append(x)
        return len(out)
    r = [put(x) for x in xs]
    return out, r


def lambda_sort(ss):
    return sorted(ss, key=lambda s: (len(s), s)), sorted(ss, key=len, reverse=True), max(ss, key=len) if ss else ''


def map_filter(xs, n):
    return list(map(lambda x: x + n, xs)), list(filter(lambda x: x > n, xs)), list(map(str, xs))


def starmap(xs, ys):
    return list(itertools.starmap(lambda a, b: a * b, zip(xs, ys)))


def zips(xs, ss):
    out = []
    for x, s in zip(xs, ss):
        out.append(s * x)
    for i, (x, s) in enumerate(zip(xs, ss), start=1):
        out.append((i, s, x))
    return out


def zip_uneven(xs, ss):
    return [(x, s) for s, x in zip(ss, xs)], list(zip(xs, xs[1:])), list(itertools.zip_longest(xs, ss, fillvalue=0))


def unpacking(xs, n):
    a, *rest = [n] + xs
    *init, last = xs + [n]
    (p, q), r = (1, 2), 3
    p, q = q, p
    return a, rest, init, last, p, q, r


def swap_loop(n):
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    return a


def star_args(xs, n):
    def f(*args, **kwargs):
        return sum(args), kwargs.get('k', 0), len(kwargs)
    return f(*xs, k=n), f(1, 2), f(**{'k': 3, 'l': 4})


def kw_only(n):
    def f(a, *, b=2, c=None):
        if c is None:
            c = a
        return a, b, c
    return f(n), f(n, b=1), f(n, c=0)


def strings(s, t, n):
    return (s + t).upper(), s.replace('a', t), s.strip('x'), s[:n], s[n:], s[-1:], f'{s!r}', f'{n:03d}', f'{s:>5}', '%s-%d' % (s, n), '{}+{}'.format(s, n), s.join(['p', 'q', 'r']), s * n


def string_build(xs):
    out = ''
    for i in range(len(xs)):
        out += LABELS[i] + str(xs[i])
        if i < len(xs) - 1:
            out += ', '
    return out


def string_trim(ss):
    out = ''
    for s in ss:
        out += s + ' + '
    out = out[:-3]
    return out


def join_list(ss):
    lines = []
    lines.append('start')
    for s in ss:
        if s:
            lines.append(f'  {s}')
    lines.append('end')
    return '\n'.join(lines)


def join_pairs(ss):
    return ''.join(ss), ' '.join(s for s in ss if s), ','.join([s for s in ss] + ['last']), '-'.join(sorted(set(ss)))


def strip_lines(s):
    return s.rstrip(), s.lstrip('a'), s.split('a'), s.startswith('a'), s.endswith(('a', 'b')), 'a' in s, s.count('a'), s.find('a')


def chained_cmp(n, m):
    return 0 < n <= m < 5, n == m == 2, not n, n and m, n or m, n is None, (n > 1) == (m > 1)


def conditional_expr(n, m):
    return 'a' if n else 'b' if m else 'c', (n if n > m else m), min(n, m), max(n, m, 2), abs(n - m), divmod(n + 4, m + 1), (n + 3) // 2, (n * 7) % 3, n ** 2, -n


def arithmetic(n, m):
    return math.factorial(n), math.comb(n + 2, 2), (n - m) * (n + m), n / (m + 1), round(n / 3, 2), int(n / 2), float(n), sum([n, m]), math.prod([n + 1, m + 1])


def bool_ops(n, b):
    return b and n > 1, b or n, not b, bool(n), b is True, n > 0 and not b, int(b)


def ranges(n, m):
    return list(range(n)), list(range(n, n + m)), list(range(m, -1, -1)), list(range(0, 10, n + 1)), sum(range(n))


def reversed_loop(xs):
    out = []
    for x in reversed(xs):
        out.append(x)
    for i in range(len(xs) - 1, -1, -1):
        out.append(xs[i] + i)
    return out


def index_loop(xs, ys):
    out = []
    for i in range(len(xs)):
        for j in range(i + 1, len(xs)):
            out.append(xs[i] * 10 + xs[j])
    return out


def triangular(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def products(xs, n):
    out = []
    for a, b in it.product(xs, repeat=2):
        out.append((a, b))
    for p in it.product([0, 1], range(n)):
        out.append(p)
    return out


def perms(xs):
    return [p for p in it.permutations(xs[:3], 2)], sorted(set(it.permutations(xs[:3]))), list(it.combinations(xs[:4], 2)), list(it.chain([1], xs)), list(it.chain.from_iterable([xs, xs]))


def accumulate(xs):
    return list(it.accumulate(xs)), list(it.islice(xs, 2)), [(k, len(list(g))) for k, g in it.groupby(sorted(xs))]


def product_of_lists(xss):
    return [tuple(p) for p in it.product(*xss[:2])]


def flags(xs, n):
    found = False
    first = True
    out = ''
    for x in xs:
        if not first:
            out += ','
        first = False
        if x == n:
            found = True
        out += str(x)
    return found, out


def counters(xs, n):
    a = b = 0
    for x in xs:
        if x > n:
            a += 1
        elif x == n:
            b += 2
        else:
            a -= 1
            b += a
    return a, b


def last_value(xs):
    y = None
    for x in xs:
        y = x
    return y


def running_max(xs):
    best = -1
    where = None
    for i, x in enumerate(xs):
        if x > best:
            best = x
            where = i
    return best, where


def namedtuples(n, m):
    p = point(n, y=m)
    q = p._replace(x=5)
    a, b = q
    return p.x + p.y, q, a, b, p == (n, m), p[0], isinstance(p, point), list(p)


def namedtuple_list(xs):
    ps = [point(x, x + 1) for x in xs]
    return [p.y for p in ps if p.x > 1], sum(p.x for p in ps), sorted(ps, key=lambda p: -p.x)


def try_except(xs, n):
    try:
        return xs[n]
    except IndexError:
        return 'none'


def assertion(n):
    assert n < 4, 'too big'
    return n


def raises(n, m):
    if n > 3:
        raise ValueError('n')
    if m > 3:
        raise NotImplementedError
    return n + m


def match_dict(n):
    return TABLE.get(n, 'many'), (TABLE[n] if n in TABLE else None), len(TABLE), sorted(TABLE)


def global_list(n):
    return LABELS[:n], LABELS[n % 8], ''.join(LABELS[i] for i in range(n))


def walrus(xs):
    return [y for x in xs if (y := x * 2) > 2]


def reduce_sum(xs):
    return reduce(lambda a, b: a * 2 + b, xs, 1)


def recursion(n):
    def f(k):
        if k <= 0:
            return [[]]
        return [[k] + r for r in f(k - 1)]
    return f(n)


def top_recursion(n):
    if n <= 0:
        return 1
    return n * top_recursion(n - 1) + len(str(n))


def double_loop_counter(xss):
    out = []
    c = 0
    for xs in xss:
        for x in xs:
            c += 1
            out.append((c, x))
        c += 10
    return out, c


def offset_labels(xs):
    out = []
    start = 0
    for x in xs:
        out.append(''.join(LABELS[start:start + x]))
        start += x
    return out


def label_iterator(xs):
    names = iter(LABELS)
    return [next(names) for x in xs if x > 1]


def label_count(xs):
    c = itertools.count(2)
    return [(next(c), x) for x in xs]


def label_pop(xs):
    pool = list(LABELS)
    out = []
    for x in xs[:8]:
        out.append(pool.pop(0) * x)
    return out, len(pool)


def remove_while(xs, n):
    ys = list(xs)
    while n in ys:
        ys.remove(n)
    return ys


def enumerate_mutate(xs):
    ys = list(xs)
    for i, y in enumerate(ys):
        ys[i] = y + i
    return ys


def inplace_index(xs):
    ys = [0] * 5
    for x in xs:
        ys[x % 5] += x
    return ys


def grid(n, m):
    g = [[0] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            g[i][j] = i * j
    return g


def tuple_ops(n, m):
    t = (n, m)
    t += (3,)
    t = t + (4,)
    return t, t[1:], t * 2, t.count(n), len(t), max(t), sorted(t)


def list_of_tuples_sorted(xs):
    pairs = [(x, -i) for i, x in enumerate(xs)]
    pairs.sort()
    best = pairs[-1] if pairs else None
    pairs.sort(key=lambda p: p[1])
    return pairs, best


def conditional_append_else(xs, n, b):
    out = []
    for x in xs:
        if b:
            if x > n:
                out.append('p')
            elif x < n:
                out.append('q')
        else:
            out.append('r' if x else 's')
    return out


def guard_clauses(n, m, b):
    if b:
        if n == m:
            return 'eq'
        if n < m:
            return 'lt'
    elif n == 0:
        return 'zero'
    if m == 0:
        return 'mzero'
    return 'end'


def none_default(xs, n):
    acc = None
    for x in xs:
        if acc is None:
            acc = x
        else:
            acc = acc * 2 + x
    return acc


def multi_target(n):
    a = b = [n]
    a.append(1)
    return a, b


def aug_list_slice(xs):
    ys = list(xs)
    ys[1:2] = [7, 8]
    ys[:0] = [9]
    return ys


def any_all_nested(xss, n):
    return any(all(x > n for x in xs) for xs in xss), all(any(x == n for x in xs) for xs in xss), [i for i, xs in enumerate(xss) if n in xs]


def sum_lists(xss):
    return sum(xss, []), [len(xs) for xs in xss], sum(map(len, xss)), sum(len(xs) for xs in xss)


def minmax(xs, n):
    return (min(xs) if xs else n), max(xs + [n]), min(n, *xs) if xs else n, max(len(xs), n)


def formatted(n, s):
    return f"{s}^{{{n}}}_{{{s}}}", f"{n}{'s' if n != 1 else ''}", "a" "b" f"{n}", f"{n + 1}", f"{'x' * n}", f"{n:>{3}}"


def tabulate(ss):
    tab = ' ' * 4
    return ''.join(f'{tab}{s}\n' for s in ss), '\n'.join([tab + s for s in ss]) + '\n'


def iterate_string(s):
    out = []
    for ch in s:
        if ch.isalpha():
            out.append(ch.upper())
    return ''.join(out), list(s), sorted(s), set(s) == set('ab')


def ord_chr(n):
    return chr(ord('a') + n), ord('c') - 97


def comp_cond_chain(xs, ys):
    return [(x, y) for x in xs for y in ys if x != y if x + y > 2]


def dict_nested(ss):
    out = {}
    for s in ss:
        out[s] = {'n': len(s), 'l': []}
        out[s]['l'].append(s)
    return out


def dict_tuple_key(xs, ys):
    out = {}
    for x in xs:
        for y in ys:
            out[(x, y)] = x * y
    return len(out), sorted(out)


def dict_in_loop_exists(ss):
    out = {}
    for s in ss:
        if s not in out:
            out[s] = []
        out[s].append(len(out))
    return out


def while_else(n):
    i = 0
    while i < n:
        if i == 3:
            break
        i += 1
    else:
        return 'done', i
    return 'broke', i


def while_two(n, m):
    out = []
    while n > 0 and m > 0:
        out.append((n, m))
        if n > m:
            n -= 2
        else:
            m -= 1
    return out, n, m


def nested_break_flag(xss, n):
    hit = None
    for i, xs in enumerate(xss):
        for j, x in enumerate(xs):
            if x == n:
                hit = (i, j)
                break
        if hit is not None:
            break
    return hit


def deep_return(xss, n):
    for xs in xss:
        for x in xs:
            if x == n:
                return 'found', xs
        if len(xs) > 3:
            return 'long', xs
    return 'none', []


def early_continue_accumulate(xss):
    out = []
    for xs in xss:
        if not xs:
            continue
        sub = []
        for x in xs:
            if x == 0:
                continue
            sub.append(x)
        if len(sub) < 2:
            continue
        out.append(sub)
    return out


def loop_var_after(xs):
    for i in range(3):
        pass
    return i


def shadow(xs, n):
    n = n + 1
    xs = [x + n for x in xs]
    n = len(xs)
    return xs, n


def list_equality(xs, ys):
    return xs == ys, xs < ys, xs != [], xs == [1], (1, 2) == tuple(xs)


def helper_mutates(xs):
    out = []
    _push(out, 1)
    for x in xs:
        _push(out, x)
    return out


def _push(l, x):
    l.append(x)
    l.append(x + 1)


def helper_returns_alias(xs):
    a = []
    b = _same(a)
    b.append(1)
    return a


def _same(x):
    return x


def helper_pair(n, m):
    a, b = _pair(n, m)
    return b, a


def _pair(n, m):
    if n > m:
        return n, m
    return m, n


def default_mutable(n):
    return _acc(n), _acc(n, [5])


def _acc(n, l=None):
    l = [] if l is None else l
    l = l + [n]
    return l


def print_and_return(n):
    print('x', n)
    return n


def operator_chain(n, m, k):
    return n + m * k - (n - m) * 2, (n + m) * (k + 1), n - -m, +n, n * m * k, (n + 1) ** 2 - n * n


def truthiness(xs, s, d, n):
    return bool(xs), bool(s), bool(d), not xs, [] or 'e', (xs or [1]), (s and 'y'), None or n


def int_str(n):
    return int(str(n) + '1'), str(n) == '2', len(str(n)), str([n, 'a']), str((n,)), repr('q'), str(None), str(True)


def sorted_nested(xss):
    return sorted(xss), sorted(xss, key=len), sorted([sorted(xs) for xs in xss]), [sorted(xs, reverse=True) for xs in xss]


def slice_assign_loop(xs):
    out = []
    prev = 0
    for x in xs:
        out.append((prev, x))
        prev = x
    return out


def pairwise_flags(xs):
    return [a < b for a, b in zip(xs[:-1], xs[1:])]


def mod_grouping(ss):
    out = ''
    for i, s in enumerate(ss):
        if i % 3 == 0 and i > 0:
            out += '\n'
        out += s
    return out


def lines_of(ss, n):
    k = n + 1
    lines = [' '.join(ss[i * k:(i + 1) * k]) for i in range(math.ceil(len(ss) / k))]
    return '\n'.join(lines)


def lines_of2(ss, n):
    k = n + 2
    full = len(ss) // k
    out = ''
    for i in range(full):
        out += ' '.join(ss[i * k:(i + 1) * k]) + '\n'
    if len(ss) % k:
        out += ' '.join(ss[full * k:])
    return out


def two_lists(xs, n):
    small, large = [], []
    for x in xs:
        (small if x < n else large).append(x)
    return small, large


def getattr_loop(n, m):
    p = point(n, m)
    return [getattr(p, f) for f in ('x', 'y')], hasattr(p, 'z'), p._fields, p._asdict()


def dispatch(n, m):
    table = {'add': lambda a, b: a + b, 'mul': lambda a, b: a * b}
    return table['add'](n, m), [f(n, m) for f in table.values()]


def func_table(n):
    fs = [_pair, _min2]
    return [f(n, 2) for f in fs]


def _min2(a, b):
    return min(a, b)


def pass_function(xs):
    return _apply(_double, xs)


def _apply(f, xs):
    return [f(x) for x in xs]


def _double(x):
    return 2 * x


class Box:
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v


def objects(n):
    b = Box(n)
    return b.get()


def ternary_list(n, b):
    xs = [1, 2] if b else []
    xs.append(n)
    return xs


def append_in_branches(n, m):
    out = []
    if n > m:
        out.append('a')
    else:
        out.append('b')
    if n == m:
        out = ['c']
    out.append('d')
    return out


def list_in_dict_cond(n, m):
    d = {'a': [], 'b': []}
    if n > m:
        d['a'].append(n)
    else:
        d['b'].append(m)
    d['a'].append(0)
    return d


def del_slice(xs):
    ys = list(xs)
    del ys[1:3]
    return ys


def clear_list(xs):
    ys = list(xs)
    zs = ys
    ys.clear()
    ys.append(1)
    return zs


def nested_dict_update(ss, n):
    d = {}
    for i, s in enumerate(ss):
        d.setdefault(s, {})[i] = n
    return d


def str_of_tuple(n):
    return f"{(0, 1) + (n,)}", f"{[n]}"


def remove_from_copy(xs):
    for x in xs.copy():
        if x > 1:
            xs.remove(x)
    return xs


def remove_indices(xs):
    ys = list(xs)
    for i in reversed(range(len(ys))):
        if ys[i] == 1:
            del ys[i]
    return ys


def nested_append(xss):
    out = []
    for xs in xss:
        out.append([])
        for x in xs:
            out[-1].append(x + 1)
    return out


def extend_gen(xs):
    out = [0]
    out.extend(x for x in xs if x)
    out += (1, 2)
    out += [x for x in xs]
    return out


# ---- second batch
from functools import partial
from operator import itemgetter, attrgetter
import operator


def zip_star(xs, ys):
    pairs = list(zip(xs, ys))
    if not pairs:
        return (), ()
    a, b = zip(*pairs)
    return a, b


def dict_zip(ss, xs):
    return dict(zip(ss, xs)), {k: v for k, v in zip(ss, xs) if v}


def itemget(xs, ys):
    return sorted(zip(xs, ys), key=itemgetter(1)), sorted([point(x, 1) for x in xs], key=attrgetter('x'))


def partials(xs, n):
    f = partial(_pair, n)
    return [f(x) for x in xs]


def join_map(xs):
    return ' '.join(map(str, xs)), ''.join(map(lambda x: LABELS[x], xs)), sum(map(len, [str(x) for x in xs]))


def nested_ternary_string(n, m, b):
    pre = '' if n == 0 else f'{n}' if n > 0 else '-'
    return pre + ('+' if b else '-') + (f'{m}' * 2 if m else '')


def str_accumulate_cond(xs, n):
    s = ''
    for i, x in enumerate(xs):
        sep = ', ' if i else ''
        s += sep
        s += f'{x}' if x != n else '*'
    return s


def list_index(xs, n):
    return xs.index(n) if n in xs else -1, [i for i, x in enumerate(xs) if x == n]


def multi_return_branches(n, m):
    if n == 0:
        result = 'zero'
    elif n == 1:
        result = 'one'
        if m:
            result += '!'
    else:
        result = f'n{n}'
    return result


def unify_lists(xs, ys):
    out = list(xs)
    for y in ys:
        if y not in out:
            out.append(y)
    out.sort()
    return out


def running_dict_of_lists(xs, ys):
    groups = {}
    for x, y in zip(xs, ys):
        if x in groups:
            groups[x].append(y)
        else:
            groups[x] = [y]
    return groups


def running_dict_of_sums(xs, ys):
    groups = {}
    for x, y in zip(xs, ys):
        groups[x] = groups.get(x, 0) + y
    return {k: v for k, v in groups.items() if v > 1}


def group_keys_then_loop(ss):
    groups = {}
    for s in ss:
        groups.setdefault(len(s), []).append(s)
    out = ''
    for k in sorted(groups.keys()):
        out += f'{k}:' + ','.join(groups[k]) + ';'
    return out


def two_dicts(ss):
    a, b = {}, {}
    for s in ss:
        if s.startswith('a'):
            a[s] = len(b)
        else:
            b[s] = len(a)
    return a, b


def dict_default_nested(xs, ys):
    d = defaultdict(lambda: defaultdict(int))
    for x in xs:
        for y in ys:
            d[x][y] += 1
    return sorted((k, sorted(v.items())) for k, v in d.items())


def enumerate_dict(d):
    return [f'{i}{k}{v}' for i, (k, v) in enumerate(d.items())], list(d.keys()), list(d.values()), sum(d.values()), max(d.values(), default=0)


def dict_membership(d, s):
    return s in d, s in d.keys(), d.get(s), [k for k in 'abc' if k not in d]


def dict_pop_default(d):
    e = dict(d)
    v = e.pop('a', None)
    return v, e, d


def list_of_dicts(ss):
    rows = [{'name': s, 'n': len(s)} for s in ss]
    for r in rows:
        r['n'] += 1
    return rows


def matrix_transpose(xss):
    if not xss:
        return []
    w = min(len(xs) for xs in xss)
    return [[xs[i] for xs in xss] for i in range(w)]


def early_exit_all(xs, n):
    for x in xs:
        if x > n:
            return False
    return True


def early_exit_any(xss, n):
    for xs in xss:
        for x in xs:
            if x == n:
                return True
    return False


def find_first(xs, n):
    return next((x for x in xs if x > n), None)


def count_if(xss):
    return sum(1 for xs in xss if xs), sum(len(xs) > 1 for xs in xss), len([xs for xs in xss if len(xs) == 2])


def nested_lists_build(n, m):
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            row.append(i + j)
        out.append(row)
    return out


def nested_lists_shared_row(n):
    out = []
    row = []
    for i in range(n):
        row.append(i)
        out.append(row)
    return out


def nested_lists_copy_row(n):
    out = []
    row = []
    for i in range(n):
        row.append(i)
        out.append(list(row))
    return out


def row_appended_then_changed(xs):
    out = []
    for x in xs:
        row = [x]
        out.append(row)
        row.append(x + 1)
    return out


def last_item_changed(xs):
    out = []
    for x in xs:
        out.append([x])
        out[-1].append(0)
    return out


def outer_list_last_changed(xs):
    out = [[]]
    for x in xs:
        if x == 0:
            out.append([])
        else:
            out[-1].append(x)
    return out


def split_by_sum(xs, n):
    groups, cur, tot = [], [], 0
    for x in xs:
        if tot + x > n and cur:
            groups.append(cur)
            cur, tot = [], 0
        cur.append(x)
        tot += x
    groups.append(cur)
    return groups


def mutate_in_helper_loop(xss):
    for xs in xss:
        _push(xs, 0)
    return xss


def return_tuple_of_lists(xs):
    a, b = _split(xs)
    a.append(9)
    return a, b


def _split(xs):
    lo = [x for x in xs if x < 2]
    hi = [x for x in xs if x >= 2]
    return lo, hi


def helper_early_return(xs, n):
    return [_classify(x, n) for x in xs]


def _classify(x, n):
    if x < n:
        return 'lt'
    if x == n:
        return 'eq'
    return 'gt'


def helper_with_loop_return(xss, n):
    return [_first_over(xs, n) for xs in xss]


def _first_over(xs, n):
    for x in xs:
        if x > n:
            return x
    return -1


def helper_list_default(xs):
    return _collect(xs), _collect(xs, [7])


def _collect(xs, acc=None):
    if acc is None:
        acc = []
    for x in xs:
        acc.append(x)
    return acc


def chained_methods(s, t):
    return s.replace('a', 'b').upper().strip('X'), (s + t).split('a')[-1], ' '.join(s.split('b')).lower()


def slicing_steps(xs, s):
    return xs[::2], xs[1::2], xs[-3:-1], s[::-1], xs[len(xs) // 2:], xs[:-1], xs[-1:]


def boolean_flags(xs, ys):
    same = len(xs) == len(ys) and all(x == y for x, y in zip(xs, ys))
    return same, (not xs) or (not ys), bool(xs) != bool(ys)


def xor_flags(n, m):
    return (n == 1) ^ (m == 1), (n > 1) | (m > 1), (n > 1) & (m > 1)


def int_division(n, m):
    q, r = divmod(n, m + 1)
    return q, r, n // (m + 1) == q, n % 2 == 0, -n // 2, -n % 3


def float_cmp(n, m):
    return n / 2 > m, n / (m + 1) >= 1, 0.5 * n < m, n / 2 == m, n / 2 <= 1.5


def string_cmp(s, t, ss):
    return s < t, s == t, s != '', max(s, t), min(ss) if ss else s, sorted([s, t]), s in ss


def tuple_cmp(n, m):
    return (n, m) < (m, n), (n, 1) == (1, n), (n,) + (m,) == (n, m), max((n, 0), (m, 1))


def star_unpack_call(xs):
    return _three(*(xs + [0, 0, 0])[:3]), _three(**{'a': 1, 'b': 2, 'c': len(xs)})


def _three(a, b, c):
    return f'{a}-{b}-{c}'


def inner_function_captures_loop(xs):
    out = []
    for i in range(len(xs)):
        def lab(j):
            return LABELS[i] + LABELS[j]
        out.append(lab(0))
    return out


def nonlocal_counter(xs):
    c = 0

    def bump(x):
        nonlocal c
        c += x
        return c
    r = [bump(x) for x in xs]
    return r, c


def conditional_import_like(b):
    f = _double if b else _neg
    return f(3)


def _neg(x):
    return -x


def index_while(xs, n):
    i = 0
    while i < len(xs) and xs[i] != n:
        i += 1
    return i


def countdown(n):
    out = ''
    while n > 0:
        out += str(n)
        n -= 1
    return out


def list_while_extend(n):
    xs = [1]
    while len(xs) < n:
        xs.append(sum(xs))
    return xs


def for_else_return(xs, n):
    for x in xs:
        if x == n:
            break
    else:
        return 'absent'
    return 'present'


def swap_items(xs):
    ys = list(xs)
    if len(ys) > 1:
        ys[0], ys[-1] = ys[-1], ys[0]
    return ys


def bubble(xs):
    ys = list(xs)
    for i in range(len(ys)):
        for j in range(len(ys) - 1):
            if ys[j] > ys[j + 1]:
                ys[j], ys[j + 1] = ys[j + 1], ys[j]
    return ys


def sorted_dedup_tuples(xss):
    return sorted(set(tuple(xs) for xs in xss)), sorted({tuple(sorted(xs)) for xs in xss})


def list_remove_dups_keep_order(xss):
    seen, out = [], []
    for xs in xss:
        key = tuple(sorted(xs))
        if key in seen:
            continue
        seen.append(key)
        out.append(xs)
    return out


def format_method(n, s):
    return '{0}_{1}'.format(s, n), '{a}{b}'.format(a=n, b=s), '{:d}'.format(n), '{{{}}}'.format(n)


def percent(n, s):
    return '%d%s' % (n, s), '%02d' % n, '%%'


def multi_line(n):
    text = (
        f'a{n}\n'
        'b\n'
    )
    text += '\n'.join([
        'c',
        f'd{n}',
    ])
    return text, text.splitlines(), text.count('\n')


def enumerate_reversed(xs):
    return list(enumerate(reversed(xs))), [xs[-i] for i in range(1, len(xs) + 1)], list(reversed(range(len(xs))))


def cumulative(xs):
    tot, out = 0, []
    for x in xs:
        tot = tot + x
        out.append(tot)
    return out


def product_accum(xs):
    p = 1
    for x in xs:
        p *= x + 1
    return p


def max_accum(xs):
    m = 0
    for x in xs:
        m = max(m, x)
    return m


def alternating(xs):
    sign = 1
    tot = 0
    for x in xs:
        tot += sign * x
        sign = -sign
    return tot


def state_machine(s):
    state = 'start'
    out = ''
    for ch in s:
        if state == 'start' and ch == 'a':
            state = 'in'
        elif state == 'in' and ch == 'b':
            state = 'start'
            out += '|'
        else:
            out += ch
    return out, state


def none_checks(n, b):
    x = n if b else None
    y = [] if x is None else [x]
    return y, x is not None, x or 5


def type_checks(n, s, xs):
    return isinstance(n, int), isinstance(s, str), isinstance(xs, (list, tuple)), type(s) == str


def any_in(xs, ss):
    return any(x in (1, 2) for x in xs), [s for s in ss if 'a' in s or 'b' in s], not any(s == '' for s in ss)


def min_len(xss):
    return min((len(xs) for xs in xss), default=0), max([len(xs) for xs in xss] + [0]), max(xss, key=len, default=[])


def flatten_recursive_free(xss):
    out = []
    for xs in xss:
        out += xs
    return out, [*out, 1], (*out,), {*out} == set(out)


def extend_self(xs):
    ys = list(xs)
    ys += ys
    ys.extend(ys[:1])
    return ys


def loop_over_copy_and_mutate(xs):
    for x in list(xs):
        if x == 0:
            xs.append(9)
    return xs


def insert_front(xs):
    out = []
    for x in xs:
        out.insert(0, x)
    return out


def insert_mid(xs):
    out = [0, 0]
    for x in xs:
        out.insert(1, x)
    return out


def pop_loop(xs):
    ys = list(xs)
    out = []
    for _ in range(len(ys)):
        out.append(ys.pop())
    return out, ys


def string_index_loop(s):
    out = ''
    for i in range(len(s)):
        if i + 1 < len(s) and s[i] == s[i + 1]:
            continue
        out += s[i]
    return out


def lines_loop(ss):
    text = ''
    for i, s in enumerate(ss):
        text += s
        text += '\n' if (i + 1) % 2 == 0 else ' '
    return text.rstrip()


def conditional_list_extend(n, b):
    out = ['a']
    out += ['b'] if b else []
    out += ['c'] * (n > 2)
    return out + (['d'] if n else ['e'])


def range_len_enumerate(ss):
    for i in range(len(ss)):
        ss[i] = ss[i] + str(i)
    return ss


def list_slice_replace(ss):
    ss[:] = [s.upper() for s in ss]
    return ss


def list_of_dicts_then_nested_setdefault(n, xs):
    out = []
    for i in range(n + 1):
        out.append(dict([(i, {}) for i in range(3)]))
    for x in xs:
        out[min(x, n)].setdefault(x, {}).setdefault(x + 1, {}).setdefault('p', [])
        out[min(x, n)][x][x + 1]['p'].append(x)
    r = []
    for i in range(n + 1):
        for k in sorted(out[i].keys()):
            r.append((i, k, list(out[i][k].items())))
    return r


def del_in_nested_elements(xss):
    for i, e in enumerate(xss):
        cnt = [1 for x in e if x > 2]
        del e[:sum(cnt)]
    return [x for x in xss if x != []]


def is_fresh(xs, d):
    out = []
    if xs is []:
        out.append(1)
    if d is not {}:
        out.append(2)
    return out


def del_in_nested_elements_continue(xss, n):
    il, jl = [], []
    for i, e in enumerate(xss):
        if len(e) > n:
            il.append(i)
            continue
        for j, x in enumerate(e):
            if x > 2:
                jl.append(1)
            continue
        del e[:sum(jl)]
    del xss[:sum(il)]
    return [x for x in xss if x != []]


def del_two_levels(xss, n):
    yss = [[a, a[1:]] for a in xss]
    il = []
    for e in yss:
        if len(e[0]) > n:
            il.append(1)
            continue
        for f in e:
            del f[:1]
        del e[:len(il)]
    return yss


def pop_inner_only(xss):
    yss = [[a, a[1:]] for a in xss]
    for e in yss:
        for f in e:
            if f:
                f.pop()
    return yss


def try_index_continue(xs, ys):
    out = []
    for x in xs:
        pos, off = [], 0
        try:
            for y in [x, x + 1]:
                pos.append(ys.index(y, off))
                off = pos[-1] + 1
        except ValueError as e:
            if 'not in' in str(e):
                continue
            else:
                raise e
        else:
            if pos != [] and x > 1:
                out.append(pos)
                break
            else:
                out.append(x)
    return out


def try_dict(d, ss):
    out = []
    for s in ss:
        try:
            v = d[s]
        except KeyError:
            v = 0
        out.append(v)
    return out


def try_return(d, s):
    try:
        v = d[s]
    except KeyError:
        return -1
    return v + 1


def try_lookup_tuple(xs, n):
    try:
        v = xs[n]
    except (IndexError, KeyError):
        v = None
    return v


def try_else_unbound_result(xss, ys):
    k = 0
    for i, fs in enumerate(xss):
        pos, off = [], 0
        try:
            for y in fs:
                pos.append(ys.index(y, off))
                off = pos[-1] + 1
        except ValueError as e:
            if 'not in' in str(e):
                continue
            else:
                raise e
        else:
            if pos != [] and len(set(pos)) == len(pos):
                k = i
                res = [t for i, t in enumerate(ys) if i not in pos]
                break
            else:
                res = ys
    return k, res


def found_unbound(xs, n):
    for x in xs:
        if x > n:
            hit = x * 2
            break
    if any(x > n for x in xs):
        return hit
    return None


def last_match_unbound(xs, n):
    for x in xs:
        if x > n:
            hit = x * 2
    if any(x > n for x in xs):
        return hit
    return None


def fmt_1(n, s):
    return 'a{}b{}'.format(n, s)


def fmt_2(n, s):
    return '{1}-{0}-{x}'.format(n, s, x=n + 1)


def fmt_3(n, s):
    return '%s and %d%%' % (s, n)


def fmt_4(s):
    return 'x%sy' % s


def fmt_5(n):
    return 'x%dy' % n


def fmt_6(n, s):
    return '{:>5}|{:02d}'.format(s, n)


def fmt_7(n, s):
    return '%5s|%02d' % (s, n)


def fmt_8(xs):
    return 'v{}'.format(xs)


def fmt_9(xs, n):
    return f'{xs}' + str((n,)) + '{}'.format((n, 'a'))


def fmt_10(d):
    return str(d)


def fmt_11(xss):
    return repr(xss) + '{!r}'.format('a')


def fmt_12(s, n):
    t = s + '{}'
    return t.format(n)


def fmt_13(s, t):
    return '{{{}}}_{{{}}}'.format(s, t)


def fmt_14(s, t):
    return '%s' % (s + t)


def inner_1(xss):
    for j in range(len(xss)):
        e2 = xss[j]
        del e2[:1]
    return xss


def inner_2(xss):
    for j in range(len(xss)):
        e2 = xss[j]
        e2.append(j)
    return xss


def inner_3(xss):
    for j in range(len(xss)):
        xss[j].append(j)
    return xss


def inner_4(xss):
    for j in range(len(xss)):
        e2 = xss[j]
        k = [1 for x in e2 if x > 1]
        del e2[:sum(k)]
    return [x for x in xss if x != []]


def inner_5(xss):
    if len(xss) > 1:
        e = xss[1]
        e.append(5)
    return xss


def inner_6(xss):
    out = []
    for i in range(len(xss)):
        e = xss[i]
        if len(e) > 2:
            e.pop()
            continue
        out.append(len(e))
    return (out, xss)


def inner_7(n, xs):
    q = [xs, [n]]
    for i in range(len(q)):
        e = q[i]
        del e[:1]
    return (q, xs)


def inner_8(n, xss):
    q = [xss, [[n]]]
    js = []
    for i in range(len(q)):
        e = q[i]
        for j in range(len(e)):
            g = e[j]
            if len(g) == 1:
                js.append(1)
                continue
            del g[:1]
        del e[:sum(js)]
    return q


def logged(f):
    def inner(*args, **kwargs):
        return f(*args, **kwargs)
    return inner


def dropping(k):
    def deco(f):
        from functools import wraps

        @wraps(f)
        def inner(xs, n):
            return f(xs[k:], n)
        return inner
    return deco


@logged
def decorated(xs, n):
    return [x + n for x in xs if x > n]


@dropping(2)
def decorated_factory(xs, n):
    return [x + n for x in xs]


def rebound(xs, n):
    out = []
    for x in xs:
        out.append(x * n)
    return out


rebound = dropping(1)(rebound)


def decorated_local(xs, n):
    def twice(f):
        return lambda x: f(f(x))

    @twice
    def inc(x):
        return x + n
    return [inc(x) for x in xs]


def calls_decorated(xs, n):
    return decorated(xs, n=n) + decorated_factory(xs, n) + rebound(xs, n)
