import itertools
import functools
import operator
from collections import Counter, defaultdict, OrderedDict, deque


def set_and(xs, ys):
    c = set(xs) & set(ys)
    if not c:
        return 'none'
    return sorted(c)

def set_sub(xs, ys):
    c = set(xs) - set(ys)
    return len(c), bool(c), sorted(c)

def set_le(xs, ys):
    return set(xs) <= set(ys), set(xs) < set(ys), set(xs) >= set(ys), set(xs) == set(ys)

def set_xor(xs, ys):
    c = set(xs) ^ set(ys)
    return 0 if not c else max(c)

def set_meths(xs, ys):
    a = set(xs)
    return sorted(a.union(ys)), sorted(a.intersection(ys)), sorted(a.difference(ys)), a.isdisjoint(ys), a.issubset(ys), a.issuperset(ys)

def set_update(xs, ys):
    a = set()
    a.update(xs)
    a |= set(ys)
    a -= {0}
    a &= {0, 1, 2}
    return sorted(a)

def set_in_genupd(n):
    a = {(n,)}
    for x in range(1, n):
        a.update((x, y) for y in range(x))
    return sorted(a)

def set_unpack(xs):
    return sorted({*xs, 7})

def counter_sub(xs, ys):
    c = Counter(xs) - Counter(ys)
    return sorted(c.elements())

def counter_and(xs, ys):
    a, b = Counter(xs), Counter(ys)
    common = a & b
    a -= common
    b -= common
    return sorted(a.elements()), sorted(b.elements())

def counter_get(xs):
    c = Counter(xs)
    return c[3], c.get(9, 0), sum(c.values()), len(c)

def list_remove(xs, ys):
    xs = list(xs)
    for y in ys:
        if y in xs:
            xs.remove(y)
    return xs

def remove_common(xs, ys):
    a, b = list(xs), list(ys)
    for f in set(a) & set(b):
        for _ in range(min(a.count(f), b.count(f))):
            a.remove(f)
            b.remove(f)
    return sorted(a), sorted(b)

def unpack_one(n):
    d = {'a': n}
    (v,) = d.values()
    [k] = d
    return k, v

def star_mid(xs):
    if len(xs) < 2:
        return None
    a, *b, c = xs
    return a, b, c

def partition_str(s):
    a, b, c = s.partition('x')
    return a + '|' + c

def rpartition_str(s):
    return s.rpartition('a')

def split_max(s):
    return s.split('a', 1)[0]

def removeprefix(s):
    return s.removeprefix('a').removesuffix('b')

def str_percent(n, s):
    return "_{%s}" % s + '%d-%s' % (n, s)

def str_format_pos(n, s):
    return "{0}{1}{0}".format(n, s)

def str_format_kw(n, s):
    return "{a}-{b}".format(a=n, b=s)

def str_mult(n):
    return '-' * n + 'a'

def chained(n, m):
    return 0 < n <= m

def chained_eq(n, m):
    return n == m == 0

def any_in(n, m):
    return 1 in (n, m)

def max_gt(n, m):
    return max(n, m) >= 2

def min_gt(n, m, k):
    return min(n, m, k)

def max_default(xs):
    return max(xs, default=0)

def max_key(ss):
    return max(ss, key=len, default='')

def sum_start(xss):
    return sum(xss, [])

def sum_bools(xs):
    return sum(x > 2 for x in xs)

def count_if(xs):
    return len([x for x in xs if x])

def zip_star(xs):
    ps = [(x, x + 1) for x in xs]
    if not ps:
        return None
    a, b = zip(*ps)
    return list(a), list(b)

def unzip_map(xs):
    ps = [(x, x + 1) for x in xs]
    a, b = map(list, zip(*ps)) if ps else ([], [])
    return a, b

def gen_unpack(s):
    a, b = (s.count(c) for c in 'ab')
    return a, b

def dict_get_dispatch(n):
    f = {0: 'zero', 1: 'one'}.get(n)
    if f is None:
        return 'many'
    return f

def dict_func_dispatch(n):
    def one(x):
        return x + 1
    def two(x):
        return x * 2
    f = {0: one, 1: two}.get(n, one)
    return f(n)

def dict_setdefault(xs):
    d = {}
    for i, x in enumerate(xs):
        d.setdefault(x % 2, []).append(i)
    return d

def dict_setdefault_alias(xs):
    d = {}
    for i, x in enumerate(xs):
        dest = d.setdefault(x % 2, [])
        dest.append(i)
    return d

def defaultdict_list(xs):
    d = defaultdict(list)
    for i, x in enumerate(xs):
        d[x % 2] += [i]
    return dict(d)

def dict_merge(d, n):
    return {**d, 'z': n}

def dict_or(d):
    return d | {'z': 1}

def dict_fromkeys(ss):
    return list(dict.fromkeys(ss))

def dict_of_pairs(xs):
    return dict((x, i) for i, x in enumerate(xs))

def dict_pop(d):
    d = dict(d)
    d.pop('a', None)
    return d

def try_except_key(d):
    try:
        return d['a']
    except KeyError:
        return -1

def nested_dict_list(n, m):
    t = [{j: [] for j in range(n)} for _ in range(m)]
    for i in range(m):
        for j in range(n):
            if (i + j) % 2:
                t[i][j].append(i * j)
    return t

def table_alias(n, m, xs):
    t = [{j: {} for j in range(3)} for _ in range(3)]
    for x in xs:
        dest = t[x % 3][(x + 1) % 3].setdefault('p' * (x % 2), [])
        dest.append(x)
        dest.extend([n, m])
    return t

def list_extend_gen(n):
    out = []
    out.extend(f'{i}' for i in range(n))
    out += ['e']
    return out

def list_plus_star(xs, ys):
    return ['a', *xs, *[y + 1 for y in ys], 'b']

def list_mult(n, s):
    return [s] * n + ['z']

def slice_assign(xs):
    xs = list(xs)
    xs[1:2] = [9, 9]
    return xs

def del_last(xs):
    xs = list(xs)
    while xs and xs[-1] > 1:
        del xs[-1]
    return xs

def pop_loop(xs):
    xs = list(xs)
    out = []
    while xs:
        out.append(xs.pop(0))
    return out

def reduce_cat(ss):
    return functools.reduce(lambda a, b: a + b, ss, '')

def reduce_mul(xs):
    return functools.reduce(operator.mul, xs, 1)

def accumulate(xs):
    return list(itertools.accumulate(xs))

def chain_iter(xss):
    return list(itertools.chain.from_iterable(xss))

def chain_two(xs, ys):
    return list(itertools.chain(xs, [0], ys))

def product_two(xs, n):
    return [(a, b) for a, b in itertools.product(xs, range(n))]

def product_repeat(n):
    return list(itertools.product(range(n), repeat=2))

def combos(xs):
    return list(itertools.combinations(xs, 2))

def perms(xs):
    return sorted(set(itertools.permutations(xs[:3])))

def islice(xs, n):
    return list(itertools.islice(xs, n))

def takewhile(xs):
    return list(itertools.takewhile(lambda x: x < 3, xs))

def groupby(xs):
    return [(k, len(list(g))) for k, g in itertools.groupby(sorted(xs))]

def starmap(xs):
    return list(itertools.starmap(lambda a, b: a * b, zip(xs, xs)))

def filter_none(ss):
    return list(filter(None, ss))

def map_str(xs):
    return ', '.join(map(str, xs))

def map_two(xs, ys):
    return list(map(lambda a, b: a - b, xs, ys))

def partial(n, m):
    f = functools.partial(lambda a, b: a * 10 + b, n)
    return f(m)

def ternary_chain(n):
    return 'a' if n == 0 else 'b' if n == 1 else 'c'

def match_stmt(n):
    match n:
        case 0:
            return 'zero'
        case 1 | 2:
            return 'few'
        case _:
            return 'many'

def match_tuple(n, m):
    match (n > 0, m > 0):
        case (True, True):
            return 1
        case (True, False):
            return 2
        case _:
            return 3

def for_else(xs):
    for x in xs:
        if x == 3:
            r = 'found'
            break
    else:
        r = 'no'
    return r

def while_walrus(xs):
    it = iter(xs)
    out = []
    while (x := next(it, None)) is not None:
        out.append(x)
    return out

def walrus_if(s):
    if (n := s.find('a')) >= 0:
        return n
    return -1

def continue_two(xs):
    out = []
    for x in xs:
        if x == 0:
            continue
        if x > 3:
            out.append('big')
            continue
        out.append(x)
    return out

def nested_break(xss):
    for xs in xss:
        for x in xs:
            if x == 2:
                break
        else:
            continue
        return xs
    return None

def enumerate_start(ss):
    return [f'{i}:{s}' for i, s in enumerate(ss, start=1)]

def reversed_range(n):
    return [i for i in reversed(range(n))] + list(range(n, -1, -1))

def sorted_key_neg(xs):
    return sorted(xs, key=lambda x: -x)

def sorted_tuple_key(ss):
    return sorted(ss, key=lambda s: (len(s), s))

def sort_inplace(ss):
    ss = list(ss)
    ss.sort(key=len, reverse=True)
    return ss

def join_lines(n):
    lines = ['a']
    for i in range(n):
        lines.append(f'{i}')
    return '\n'.join(lines) + '\n'

def str_acc(xs):
    s = ''
    for i, x in enumerate(xs):
        if i:
            s += ', '
        s += str(x)
    return s

def str_trim(xs):
    s = ''
    for x in xs:
        s += f'{x},'
    return s[:-1]

def trim_last_line(ss):
    out = []
    for s in ss:
        out.append(s + ' +')
    if out:
        out[-1] = out[-1][:-2]
    return out

def last_special(ss):
    return [s + ' +' for s in ss[:-1]] + ss[-1:]

def bool_ops(n, m):
    return (n and m) or 5

def or_default(s):
    return s or 'empty'

def not_not(xs):
    return not not xs

def is_none(n):
    x = None
    if n > 2:
        x = n
    return x is None, x is not None

def tuple_index(n):
    return ('a', 'b')[n > 2]

def dict_bool_key(n):
    return {True: 'y', False: 'n'}[n > 2]

def divmod_use(n):
    q, r = divmod(n, 2)
    return q * 10 + r

def pow_use(n):
    return 2 ** n, pow(2, n), n // 2, n % 3

def closure_counter(n):
    count = 0
    def inc():
        nonlocal count
        count += 1
        return count
    for _ in range(n):
        inc()
    return count

def inner_gen(n):
    def g():
        for i in range(n):
            if i % 2:
                yield i
    return list(g())

def gen_from(n):
    def g():
        yield 'a'
        yield from range(n)
    return list(g())

def recursion(n):
    def fact(k):
        return 1 if k <= 1 else k * fact(k - 1)
    return fact(n)

def multi_assign(n):
    a = b = n
    a += 1
    return a, b

def swap(n, m):
    n, m = m, n
    return n, m

def aug_sub(xs):
    xs = list(xs)
    for i in range(len(xs)):
        xs[i] += i
    return xs

def dict_aug(xs):
    d = {'a': 0}
    for x in xs:
        d['a'] += x
    return d['a']

def dict_items_sorted(d):
    return [f'{k}={v}' for k, v in sorted(d.items())]

def dict_comp_filter(d):
    return {k: v for k, v in d.items() if v}

def any_all(xs):
    return any(x > 3 for x in xs), all(x > 0 for x in xs)

def range_step(n):
    return list(range(0, n, 2)), list(range(n))[::2], list(range(n))[::-1]

def str_index(s):
    return s[0] if s else '', s[-1:] , s[::-1]

def str_enumerate(s):
    return ''.join(c.upper() if i % 2 else c for i, c in enumerate(s))

def str_dict_map(s):
    d = {'a': 'X', 'b': 'Y'}
    return ''.join(f'{d[c]}{i}' for c, i in zip(s, '0123') if c in d) or '1'

def str_translate(s):
    return s.translate(str.maketrans('ab', 'xy'))

def str_replace_loop(s):
    for c in 'ab':
        s = s.replace(c, '')
    return s

def str_predicates(s):
    return s.startswith(('a', 'b')), s.endswith('x'), s.isalpha(), s == ''

def zip_longest(xs, ys):
    return list(itertools.zip_longest(xs, ys, fillvalue=0))

def pairwise(xs):
    return [(a, b) for a, b in zip(xs, xs[1:])]

def triple_nest(n):
    return [(i, j, k) for i in range(n) for j in range(i) for k in range(j) if i + j + k > 3]

def bisect_like(xs):
    lo = 0
    for x in sorted(xs):
        if x < 2:
            lo += 1
    return lo

def deque_use(xs):
    q = deque(xs)
    q.appendleft(9)
    q.append(8)
    return list(q)

def isinstance_use(n):
    return isinstance(n, int), isinstance('a', (str, list))

def getattr_use(n):
    return getattr(n, 'real')

def lambda_default(xs):
    fs = [lambda k, x=x: x + k for x in xs]
    return [f(1) for f in fs]

def early_guard(xs):
    if not xs:
        return []
    first, *rest = xs
    return [first] + [r - first for r in rest]

def assert_use(n):
    assert n >= 0, 'negative'
    return n

def raise_use(n):
    if n > 100:
        raise ValueError(n)
    return n

def string_multiline(n, s):
    return (
        f"def {s}():\n"
        f"    return {n}\n"
    )

def list_index(xs):
    return xs.index(3) if 3 in xs else -1

def list_count(xs):
    return [xs.count(x) for x in sorted(set(xs))]

def list_eq(xs, ys):
    return xs == ys, xs < ys, xs + [1] == [*xs, 1]

def tuple_cmp(n, m):
    return (n, m) == (1, 2), (n, m) < (2, 2)

def flags(n, m):
    both = n > 0 and m > 0
    either = n > 0 or m > 0
    return both is True, either != both, both ^ either, both & either

def nested_fn_list(n):
    out = []
    def add(x):
        out.append(x)
    for i in range(n):
        add(i)
        add(-i)
    return out

def helper_tuple_acc(xs):
    lo, hi = 0, 0
    for x in xs:
        lo, hi = min(lo, x), max(hi, x)
    return lo, hi

def offset_closure(xs):
    off = {'a': 0, 'b': 0}
    def take(kind, k):
        start = off[kind]
        off[kind] = start + k
        return start
    return [take('a' if x % 2 else 'b', x) for x in xs]
