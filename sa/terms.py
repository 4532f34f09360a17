"""Hash-consed value-number terms with normalising constructors.

Integer expressions are kept as linear forms, integer comparisons as `form >= 0` / `form == 0`,
booleans as flattened and/or/not, strings as concatenations, lists as guarded item sequences.
Two pieces of source that compute the same value by reordered statements, extracted helpers,
inverted branches or rewritten loops get the same term.
"""
import hashlib

_intern = {}


VOLATILE = {'REF', 'PHI', 'SELF'}
_NOVOL = frozenset()


def _vol(a):
    v = _NOVOL
    for x in a:
        w = x.vol if isinstance(x, T) else (_vol(x) if isinstance(x, tuple) else _NOVOL)
        if w and not w <= v:
            v = v | w if v else w
    return v


class T:
    __slots__ = ('op', 'a', 'd', '_ty', '_nn', 'vol')

    def __init__(self, op, a, d):
        self.op, self.a, self.d = op, a, d
        self._ty = self._nn = 0
        v = _vol(a)
        self.vol = v | {self} if op in VOLATILE else v      # heap references and loop-carried values in the term

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.d < o.d


def _dig(x, h):
    if isinstance(x, T):
        h.update(b'T'); h.update(x.d)
    elif isinstance(x, tuple):
        h.update(b'(')
        for y in x:
            _dig(y, h)
        h.update(b')')
    else:
        h.update((type(x).__name__ + ':' + repr(x) + ';').encode())


def mk(op, *a):
    h = hashlib.blake2b(op.encode(), digest_size=12)
    _dig(a, h)
    d = h.digest()
    t = _intern.get(d)
    if t is None:
        t = _intern[d] = T(op, a, d)
    return t


# ------------------------------------------------------------------ printing
def show(t, depth=9):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    op, a = t.op, t.a
    s = lambda x: show(x, depth - 1)
    if op == 'K':
        return repr(a[0])
    if op == 'V':
        return a[0]
    if op == 'A':
        return f'{s(a[0])}.{a[1]}'
    if op == 'I':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'SL':
        return f'{s(a[0])}[{"" if is_none(a[1]) else s(a[1])}:{"" if is_none(a[2]) else s(a[2])}]'
    if op == 'LIN':
        out = []
        for x, c in a[1]:
            out.append((f'{c}*' if c not in (1, -1) else ('-' if c == -1 else '')) + s(x))
        if a[0] or not out:
            out.append(str(a[0]))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if op == 'GE':
        return f'{s(a[0])} >= 0'
    if op == 'EQ0':
        return f'{s(a[0])} == 0'
    if op == 'EQ':
        return f'{s(a[0])} == {s(a[1])}'
    if op == 'NOT':
        return f'not({s(a[0])})'
    if op in ('AND', 'OR'):
        return '(' + f' {op.lower()} '.join(s(x) for x in a[0]) + ')'
    if op == 'ITE':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if op == 'ELEM':
        return f'elem{a[1] or ""}({s(a[0])})'
    if op == 'IDX':
        return f'index{a[1] or ""}({s(a[0])})'
    if op == 'CAT':
        return '«' + '⋅'.join(x.a[0] if x.op == 'K' else '{' + s(x) + '}' for x in a[0]) + '»'
    return f'{op}(' + ', '.join(s(x) for x in a) + ')'


# ------------------------------------------------------------------ basics
class Member:
    """a member of an enumeration: identified by class and value"""
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, Member) and (self.cls, self.value) == (o.cls, o.value)

    def __hash__(self):
        return hash((self.cls, self.value))

    def __repr__(self):
        return f'<{self.cls}: {self.value!r}>'

    def __str__(self):
        return f'{self.cls}.{self.name}'

    def __lt__(self, o):
        return repr(self) < repr(o)


def K(v):
    return mk('K', v)


NONE, TRUE, FALSE = K(None), K(True), K(False)
UNB = mk('UNB')      # a name that no path has bound
ZERO, ONE = K(0), K(1)


def is_none(t):
    return t is NONE


def isk(t, *ty):
    return isinstance(t, T) and t.op == 'K' and (not ty or isinstance(t.a[0], ty))


def isint(t):
    return t.op == 'K' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)


def V(name, kind=None):
    return mk('V', name, kind)


def _num_attr(n):
    return n in ('m', 'n', 'rank', 'order', 'maximum_rank', 'max_i', 'max_k', 'numerator', 'denominator') or (
        n[:2] in ('m_', 'n_') and n not in ('m_t', 'n_t'))


_STR_METH = {'replace', 'join', 'capitalize', 'strip', 'lower', 'upper', 'format', 'rstrip', 'lstrip', 'title', 'ljust', 'rjust', 'center'}


def ty(t):
    r = t._ty
    if r == 0:
        r = t._ty = _typ(t)
    return r


def _typ(t):
    op = t.op
    if op == 'K':
        v = t.a[0]
        if isinstance(v, bool):
            return 'bool'
        return {int: 'int', float: 'int', str: 'str'}.get(type(v))
    if op == 'BIN' and t.a[0] in ('&', '|', '^', '*'):
        x, y = ty(t.a[1]), ty(t.a[2])
        for kind in ('set', 'counter', 'dict', 'list', 'tuple', 'str'):
            if kind in (x, y):
                return kind
        if x == y == 'bool' and t.a[0] != '*':
            return 'bool'
        return 'int' if t.a[0] == '*' or 'int' in (x, y) or 'bool' in (x, y) else None
    if op in ('LIN', 'LEN', 'SUM', 'PSUM', 'IDX', 'MUL', 'BIN'):
        return 'int'
    if op in ('GE', 'EQ0', 'EQ', 'NOT', 'AND', 'OR', 'IN', 'ISINST', 'ANY', 'PANY', 'TRUTH', 'LT', 'SUBSET'):
        return 'bool'
    if op in ('CAT', 'STR', 'STRF', 'PCT', 'REP', 'JOIN', 'EACHS'):
        return 'str'
    if op in ('LIST', 'SORTED'):
        return 'list'
    if op in ('TUP', 'NT', 'TUPL'):
        return 'tuple'
    if op in ('DICT', 'DICTOF'):
        return 'dict'
    if op == 'SET':
        return 'set'
    if op in ('FIX', 'PFIX'):
        return ty(t.a[2])
    if op in ('LAST', 'PREVLAST'):
        x, y = ty(t.a[2]), ty(t.a[3])
        return y if x == y or t.a[2] is NONE or t.a[2] is UNB else None
    if op == 'REVERSED':
        return 'list'
    if op == 'MUT':
        return ty(t.a[1])
    if op == 'V':
        return t.a[1]
    if op == 'A':
        if _num_attr(t.a[1]):
            return 'int'
        if t.a[1] in ('name', 'value'):
            return 'str'
        if t.a[1] in ('m_t', 'n_t', 'operator_list'):
            return 'list'
        return None
    if op == 'I':
        if t.a[0].op == 'A' and t.a[0].a[1] in ('m_t', 'n_t'):
            return 'int'
        if ty(t.a[0]) == 'str':
            return 'str'
        if t.a[0].op in ('FIX', 'PFIX', 'WHL') and isint(t.a[1]):
            x = t.a[0].a[1 if t.a[0].op == 'WHL' else 2]
            if x.op == 'TUP' and 0 <= t.a[1].a[0] < len(x.a[0]):
                return ty(x.a[0][t.a[1].a[0]])
        if t.a[0].op == 'LIST' or t.a[0].op == 'TUP':
            ts = {ty(x.a[1]) if x.op == 'IT' else None for x in t.a[0].a[0]} if t.a[0].op == 'LIST' else {ty(x) for x in t.a[0].a[0]}
            if len(ts) == 1:
                return ts.pop()
        if t.a[0].op == 'DICT':
            ts = {ty(v) for k, v in t.a[0].a[0]}
            if len(ts) == 1:
                return ts.pop()
        return None
    if op == 'ELEM':
        b = t.a[0]
        if b.op == 'RANGE':
            return 'int'
        if ty(b) == 'str':
            return 'str'
        if b.op == 'A' and b.a[1] in ('m_t', 'n_t'):
            return 'int'
        if b.op == 'LIST' and b.a[0]:
            ts = {ty(x.a[1]) if x.op == 'IT' else None for x in b.a[0]}
            if len(ts) == 1:
                return ts.pop()
        return None
    if op == 'SL':
        return ty(t.a[0])
    if op == 'ITE':
        x, y = ty(t.a[1]), ty(t.a[2])
        return x if x == y else None
    if op == 'PHI':
        return t.a[2]
    if op == 'CALLM' and t.a[0] in _STR_METH:
        return 'str'
    if op == 'CALL' and t.a[0] in ('collections.Counter', 'Counter') or op == 'SETMINUS' and ty(t.a[0]) == 'counter':
        return 'counter'
    if op == 'SETMINUS' or op == 'CALLM' and t.a[0] in ('union', 'intersection', 'difference', 'symmetric_difference'):
        return 'set'
    if op == 'CALL' and t.a[0] in ('math.factorial', 'math.comb', 'int', 'abs', 'round', 'max', 'min', 'math.perm', 'math.prod'):
        return 'int'
    if op == 'CALL' and t.a[0] in ('str', 'repr'):
        return 'str'
    return None


def nonneg(t):
    """terms known to be non negative integers (operator leg counts, lengths, factorials)"""
    r = t._nn
    if r == 0:
        r = t._nn = _nonneg(t)
    return r


def _nonneg(t):
    op = t.op
    if op == 'K':
        return isinstance(t.a[0], (int, float)) and t.a[0] >= 0
    if op in ('LEN', 'IDX'):
        return True
    if op == 'A':
        return _num_attr(t.a[1])
    if op == 'I':
        return t.a[0].op == 'A' and t.a[0].a[1] in ('m_t', 'n_t')
    if op == 'ELEM':
        return (t.a[0].op == 'RANGE' and nonneg(t.a[0].a[0])) or (t.a[0].op == 'A' and t.a[0].a[1] in ('m_t', 'n_t'))
    if op == 'LIN':
        return t.a[0] >= 0 and all(c >= 0 and nonneg(x) for x, c in t.a[1])
    if op in ('SUM', 'PSUM'):
        return nonneg(t.a[2])
    if op == 'MUL':
        return all(nonneg(x) for x in t.a[0])
    if op == 'ITE':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if op == 'CALL' and t.a[0] in ('math.factorial', 'math.comb'):
        return True
    if op == 'V':
        return False
    return False


# ------------------------------------------------------------------ arithmetic
def lin(t):
    """-> (const, {term: coef})"""
    if t.op == 'K' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return t.a[0], {}
    if t.op == 'LIN':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('LIN', c, tuple(sorted(d.items(), key=lambda kv: kv[0].d)))


def ladd(a, b, s=1):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(c1 + s * c2, d)


def scale(a, k):
    c, d = lin(a)
    return mklin(c * k, {x: v * k for x, v in d.items()})


def add(a, b):
    ta, tb = ty(a), ty(b)
    if ta == 'str' or tb == 'str':
        return cat([a, b])
    if ta in ('list',) or tb in ('list',):
        return lconcat(a, b)
    if ta == 'tuple' or tb == 'tuple':
        if a.op == 'TUP' and b.op == 'TUP':
            return mk('TUP', a.a[0] + b.a[0])
        return mk('ADDU', a, b)
    if ta == 'int' or tb == 'int':
        return ladd(a, b)
    return mk('ADDU', a, b)


def sub(a, b):
    if 'set' in (ty(a), ty(b)) or ty(a) == 'counter' or a.op == 'SET':
        return mk('SETMINUS', a, b)
    return ladd(a, b, -1)


def mul(a, b):
    if isint(a) or isk(a, float):
        a, b = b, a
    if isint(b) or isk(b, float):
        k = b.a[0]
        if ty(a) == 'str':
            if isk(a) and len(a.a[0]) * k <= 4000:
                return K(a.a[0] * k)
            return mk('REP', a, b)
        if a.op == 'LIST':
            return mk('LIST', a.a[0] * k) if len(a.a[0]) * k < 64 else mk('BIN', '*', a, b)
        if ty(a) in ('int', None):
            return scale(a, k)
    if ty(a) == 'str' or ty(b) == 'str':
        if ty(b) == 'str':
            a, b = b, a
        return mk('REP', a, b)
    fa = list(a.a[0]) if a.op == 'MUL' else [a]
    fb = list(b.a[0]) if b.op == 'MUL' else [b]
    return mk('MUL', tuple(sorted(fa + fb, key=lambda x: x.d)))


def binop(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if isint(a) and isint(b):
        try:
            if op == '//':
                return K(a.a[0] // b.a[0])
            if op == '%':
                return K(a.a[0] % b.a[0])
            if op == '/':
                return K(a.a[0] / b.a[0])
            if op == '**' and abs(b.a[0]) < 64:
                return K(a.a[0] ** b.a[0])
        except ZeroDivisionError:
            pass
    if op == '%' and ty(a) == 'str':
        return mk('PCT', a, b)
    return mk('BIN', op, a, b)


# ------------------------------------------------------------------ strings
def tostr(t):
    if ty(t) == 'str':
        return t
    if isk(t):
        return K(str(t.a[0]))
    if t.op == 'ITE':
        return ite(t.a[0], tostr(t.a[1]), tostr(t.a[2]))
    return mk('STR', t)


def cat(parts):
    out = []
    for p in parts:
        for x in (p.a[0] if p.op == 'CAT' else (p,)):
            if isk(x, str):
                if x.a[0] == '':
                    continue
                if out and isk(out[-1], str):
                    out[-1] = K(out[-1].a[0] + x.a[0])
                    continue
            out.append(x)
    if not out:
        return K('')
    if len(out) == 1:
        return out[0]
    return mk('CAT', tuple(out))


def pieces(t):
    return list(t.a[0]) if t.op == 'CAT' else ([] if isk(t, str) and t.a[0] == '' else [t])


# ------------------------------------------------------------------ lists
def IT(g, v):
    return mk('IT', g, v)


def mklist(vals):
    return mk('LIST', tuple(IT(TRUE, v) for v in vals))


def litems(t):
    """items of a list term"""
    if t.op == 'LIST':
        return t.a[0]
    if t.op == 'TUP':
        return tuple(IT(TRUE, v) for v in t.a[0])
    if t.op == 'TUPL':
        return litems(t.a[0])
    return (mk('SPL', TRUE, t),)


def guard_item(g, it):
    if g is TRUE:
        return it
    if g is FALSE:
        return None
    if it.op in ('IT', 'SPL'):
        return mk(it.op, conj(g, it.a[0]), it.a[1])
    return mk('GRD', g, it)


def guard_items(g, items):
    return tuple(x for x in (guard_item(g, i) for i in items) if x is not None)


def lconcat(a, b):
    ia, ib = litems(a), litems(b)
    if len(ia) == 1 and ia[0].op == 'SPL' and ia[0].a[0] is TRUE and not ib:
        return a
    return mk('LIST', ia + ib)


def EACH(it, k, items):
    """items contributed for each element of `it` (k-th nesting over the same iterable)"""
    items = tuple(items)
    if not items:
        return None
    # [x for x in X]  ==  X
    if len(items) == 1 and items[0].op == 'IT' and items[0].a[0] is TRUE and items[0].a[1] is elem(it, k):
        return mk('SPL', TRUE, it)
    return mk('EACH', it, k, items)


def length(t):
    if isk(t, str):
        return K(len(t.a[0]))
    if t.op == 'TUP':
        return K(len(t.a[0]))
    if t.op == 'NT':
        return K(len(t.a[1]))
    if t.op == 'DICT':
        return K(len(t.a[0]))
    if t.op == 'LIST' and all(i.op == 'IT' and i.a[0] is TRUE for i in t.a[0]):
        return K(len(t.a[0]))
    if t.op == 'LIST' and len(t.a[0]) == 1 and t.a[0][0].op == 'EACH':
        e = t.a[0][0]
        if len(e.a[2]) == 1 and e.a[2][0].op == 'IT' and e.a[2][0].a[0] is TRUE:
            return length(e.a[0])
    if t.op == 'RANGE' and all(isint(x) for x in t.a):
        return K(len(range(*[x.a[0] for x in t.a])))
    if t.op in ('SORTED', 'REVERSED', 'TUPL'):
        return length(t.a[0])
    return mk('LEN', t)


def elem(it, k=0):
    if it.op in ('REVERSED',):
        pass
    return mk('ELEM', it, k)


def lsum(it, k, body):
    """sum of body over the elements of `it`"""
    if body is ZERO:
        return ZERO
    c, d = lin(body)
    tot = ladd(ZERO, scale(length(it), c)) if c else ZERO
    for x, v in d.items():
        if varies(x, it, k):
            tot = ladd(tot, mk('SUM', it, k, x) if v == 1 else scale(mk('SUM', it, k, x), v))
        else:
            tot = ladd(tot, scale(mul(length(it), x), v))
    return tot


def psum(it, k, body):
    """sum of body over the elements of `it` before the current one"""
    if body is ZERO:
        return ZERO
    c, d = lin(body)
    tot = scale(mk('IDX', it, k), c) if c else ZERO
    for x, v in d.items():
        tot = ladd(tot, scale(mk('PSUM', it, k, x), v))
    return tot


def sumlist(t):
    tot = ZERO
    for i in litems(t):
        tot = add(tot, _sumitem(i)) if tot is not ZERO else _sumitem(i)
    return tot


def _sumitem(i):
    if i.op == 'IT':
        return ite(i.a[0], i.a[1], ZERO)
    if i.op == 'SPL':
        x = i.a[1]
        if x.op == 'LIST':
            return ite(i.a[0], sumlist(x), ZERO)
        return ite(i.a[0], mk('SUM', x, 0, elem(x, 0)), ZERO)
    if i.op == 'GRD':
        return ite(i.a[0], _sumitem(i.a[1]), ZERO)
    tot = ZERO
    for j in i.a[2]:
        tot = ladd(tot, _sumitem(j))
    return lsum(i.a[0], i.a[1], tot)


def anylist(t):
    out = []
    for i in litems(t):
        out.append(_anyitem(i))
    return disj(*out)


def _anyitem(i):
    if i.op == 'IT':
        return conj(i.a[0], truth(i.a[1]))
    if i.op == 'SPL':
        return conj(i.a[0], mkany(i.a[1], 0, truth(elem(i.a[1], 0))))
    if i.op == 'GRD':
        return conj(i.a[0], _anyitem(i.a[1]))
    return mkany(i.a[0], i.a[1], disj(*[_anyitem(j) for j in i.a[2]]))


def mkany(it, k, c):
    if c is FALSE:
        return FALSE
    if c.op == 'OR':
        return disj(*[mkany(it, k, x) for x in c.a[0]])
    if not varies(c, it, k):
        return conj(c, neg(eq0(length(it))))
    if c.op == 'AND':
        inn = [x for x in c.a[0] if varies(x, it, k)]
        out = [x for x in c.a[0] if x not in inn]
        if out:
            return conj(mkany(it, k, conj(*inn)), *out)
    return mk('ANY', it, k, c)


# ------------------------------------------------------------------ booleans
def truth(t):
    if isk(t):
        return K(bool(t.a[0]))
    y = ty(t)
    if y == 'bool':
        return t
    if y == 'int':
        return neg(eq0(t))
    if y in ('list', 'str', 'tuple', 'dict', 'set', 'counter'):
        return neg(eq0(length(t)))
    if t.op == 'ITE':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ('FUNC', 'CLOS', 'PARTF', 'METH', 'EXT', 'NTYPE', 'CLASS'):
        return TRUE
    return mk('TRUTH', t)


def ge0(t):
    c, d = lin(t)
    if not d:
        return K(c >= 0)
    if nonneg(t):
        return TRUE
    if t.op == 'ITE' and (isint(t.a[1]) or isint(t.a[2])):
        return ite(t.a[0], ge0(t.a[1]), ge0(t.a[2]))
    # -x + c with c == 0 and x nonneg  ==>  x == 0 is the canonical `not x >= 1`
    return mk('GE', t)


def eq0(t):
    c, d = lin(t)
    if not d:
        return K(c == 0)
    if c == 0 and nonneg(t):
        return neg(ge0(ladd(t, K(1), -1)))
    if c == 0 and all(v <= 0 for v in d.values()) and nonneg(scale(t, -1)):
        return neg(ge0(ladd(scale(t, -1), K(1), -1)))
    if c > 0 and nonneg(t):
        return FALSE
    if t.op == 'ITE' and (isint(t.a[1]) or isint(t.a[2])):
        return ite(t.a[0], eq0(t.a[1]), eq0(t.a[2]))
    first = min(d, key=lambda x: x.d)
    if d[first] < 0:
        t = scale(t, -1)
    return mk('EQ0', t)


def eq(a, b):
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return K(a.a[0] == b.a[0] and (a.a[0] is None) == (b.a[0] is None))
    ta, tb = ty(a), ty(b)
    if ta == 'bool' and tb == 'bool':
        return ite(a, b, neg(b))
    if ta == 'bool' and isk(b):
        return a if b.a[0] == 1 else neg(a)
    if tb == 'bool' and isk(a):
        return b if a.a[0] == 1 else neg(b)
    if isk(a):
        a, b, ta, tb = b, a, tb, ta
    # comparison with an empty container is a length test
    if (b.op == 'LIST' and not b.a[0]) or (b.op == 'TUP' and not b.a[0]) or (b.op == 'DICT' and not b.a[0]) or (isk(b, str) and b.a[0] == ''):
        if a.op in ('LIST', 'TUP', 'DICT', 'NT') and ta != tb:
            return FALSE
        return eq0(length(a))
    if b is NONE and a.op == 'ITE':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if a.op == 'ITE' and (isk(b) or (isk(a.a[1]) and isk(a.a[2]))):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ITE' and isk(b.a[1]) and isk(b.a[2]):
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'TUP' and b.op == 'TUP':
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        return conj(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])])
    if b is NONE and a.op in ('NT', 'LIST', 'TUP', 'DICT', 'LIN', 'CAT', 'STR', 'FUNC', 'CLOS', 'PARTF', 'METH', 'EXT', 'NTYPE', 'SET'):
        return FALSE
    if (ta == 'int' or tb == 'int') and not (isk(b) and not isinstance(b.a[0], int)):
        return eq0(ladd(a, b, -1))
    if b.d < a.d and not isk(b):
        a, b = b, a
    return mk('EQ', a, b)


def cmp(op, a, b):
    if op == '==' or op == 'is':
        return eq(a, b)
    if op in ('!=', 'is not'):
        return neg(eq(a, b))
    if op in ('<', '<=', '>', '>=') and ty(a) == ty(b) == 'set':
        return mk('SUBSET', a, b, op[0] == '<' and len(op) == 1) if op[0] == '<' else mk('SUBSET', b, a, len(op) == 1)
    if op in ('<', '<=', '>', '>='):
        if not (wholeish(a) and wholeish(b)):
            if op in ('>', '<='):
                a, b = b, a
            r = mk('LT', a, b)              # a < b, b > a;  a >= b, b <= a are its negations
            return r if op in ('<', '>') else mk('NOT', r)
        if op == '<':
            return ge0(ladd(ladd(b, a, -1), K(1), -1))
        if op == '<=':
            return ge0(ladd(b, a, -1))
        if op == '>':
            return ge0(ladd(ladd(a, b, -1), K(1), -1))
        return ge0(ladd(a, b, -1))
    if op == 'in':
        return member(a, b)
    if op == 'not in':
        return neg(member(a, b))
    raise ValueError(op)


def wholeish(t):
    """not known to be anything but an integer"""
    if ty(t) in ('str', 'list', 'tuple', 'set', 'dict'):
        return False
    return not fractional(t)


def fractional(t):
    if isk(t, float):
        return True
    if t.op == 'BIN':
        return t.a[0] == '/' or (t.a[0] in ('**', '%', '//') and (fractional(t.a[1]) or fractional(t.a[2])))
    if t.op == 'CALL':
        return t.a[0] in ('float', 'math.sqrt', 'math.log', 'math.exp') or (t.a[0] in ('sum', 'max', 'min', 'abs') and any(fractional(x) for x in t.a[1] if isinstance(x, T)))
    if t.op == 'LIN':
        return isinstance(t.a[0], float) or any(isinstance(c, float) or fractional(x) for x, c in t.a[1])
    if t.op == 'MUL':
        return any(fractional(x) for x in t.a[0])
    if t.op == 'ITE':
        return fractional(t.a[1]) or fractional(t.a[2])
    if t.op in ('SUM', 'PSUM'):
        return fractional(t.a[2])
    return False


def member(a, b):
    if b.op == 'SET' and b.a[0].op in ('LIST', 'TUP'):
        b = b.a[0]
    if b.op in ('LIST', 'TUP') and len(litems(b)) <= 40 and all(i.op == 'IT' for i in litems(b)):
        return disj(*[conj(i.a[0], eq(a, i.a[1])) for i in litems(b)])
    if b.op == 'DICT':
        return disj(*[eq(a, k) for k, _ in b.a[0]])
    if isk(a, str) and isk(b, str):
        return K(a.a[0] in b.a[0])
    return mk('IN', a, b)


def neg(t):
    if isk(t):
        return K(not t.a[0])
    op = t.op
    if op == 'NOT':
        return t.a[0]
    if op == 'AND':
        return disj(*[neg(x) for x in t.a[0]])
    if op == 'OR':
        return conj(*[neg(x) for x in t.a[0]])
    if op == 'GE':
        # not (x >= 0)  <=>  -x - 1 >= 0 ; keep one canonical polarity
        return ge_neg(t)
    if op == 'ITE' and ty(t) == 'bool':
        return ite(t.a[0], neg(t.a[1]), neg(t.a[2]))
    return mk('NOT', t)


def ge_neg(t):
    return mk('GE', ladd(scale(t.a[0], -1), K(1), -1))


def is_neg_of(a, b):
    return neg(a) is b


def conj(*xs):
    out = []
    seen = set()

    def put(x):
        if x.op == 'AND':
            for y in x.a[0]:
                put(y)
        elif x not in seen:
            seen.add(x)
            out.append(x)
    for x in xs:
        if x.op not in ('AND',) and ty(x) != 'bool' and not isk(x):
            x = truth(x)
        put(x)
    out = [x for x in out if not (isk(x) and x.a[0])]
    if any(isk(x) for x in out):
        return FALSE
    s = set(out)
    for x in out:
        if neg(x) in s:
            return FALSE
    # unit propagation into disjunctions:  a and (not a or b)  ==  a and b
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == 'OR':
                keep = []
                drop = False
                for y in x.a[0]:
                    if y in s:
                        drop = True
                        break
                    if neg(y) in s:
                        continue
                    keep.append(y)
                if drop:
                    out.remove(x); s.discard(x); changed = True
                elif len(keep) != len(x.a[0]):
                    out.remove(x); s.discard(x)
                    z = disj(*keep)
                    if z is FALSE:
                        return FALSE
                    return conj(*out, z)
    out = _dominated(out, True)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('AND', tuple(sorted(out, key=lambda x: x.d)))


def _dominated(out, is_and):
    """drop comparisons implied by a tighter one on the same form; None when contradictory"""
    bounds = {}
    for x in out:
        if x.op == 'GE':
            c, d = lin(x.a[0])
            key = tuple(sorted(((k.d, v) for k, v in d.items())))
            bounds.setdefault(key, []).append((c, x))
    if len(bounds) < 2 and all(len(v) < 2 for v in bounds.values()):
        return out
    drop = set()
    for key, l in bounds.items():
        if len(l) > 1:
            l.sort(key=lambda p: p[0])
            keep = l[0] if is_and else l[-1]
            drop |= {x for c, x in l if x is not keep[1]}
        if is_and:
            nk = tuple(sorted((k, -v) for k, v in key))
            if nk in bounds:
                c1 = min(c for c, _ in l)
                c2 = min(c for c, _ in bounds[nk])
                if c1 + c2 < 0:          # d + c1 >= 0 and -d + c2 >= 0
                    return None
    return [x for x in out if x not in drop]


def disj(*xs):
    out = []
    seen = set()

    def put(x):
        if x.op == 'OR':
            for y in x.a[0]:
                put(y)
        elif x not in seen:
            seen.add(x)
            out.append(x)
    for x in xs:
        if x.op not in ('OR',) and ty(x) != 'bool' and not isk(x):
            x = truth(x)
        put(x)
    out = [x for x in out if not (isk(x) and not x.a[0])]
    if any(isk(x) for x in out):
        return TRUE
    s = set(out)
    for x in out:
        if neg(x) in s:
            return TRUE
    # a or (not a and b) == a or b ; absorption a or (a and b) == a
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == 'AND':
                parts = x.a[0]
                if any(y in s for y in parts):
                    out.remove(x); s.discard(x); changed = True
                    continue
                keep = [y for y in parts if neg(y) not in s]
                if len(keep) != len(parts):
                    out.remove(x); s.discard(x)
                    return disj(*out, conj(*keep))
                # a and B  or  not a and B  ==  B
                for z in list(out):
                    if z is not x and z.op == 'AND' and len(z.a[0]) == len(parts):
                        p, q = set(parts), set(z.a[0])
                        dx, dz = p - q, q - p
                        if len(dx) == 1 and len(dz) == 1 and neg(next(iter(dx))) is next(iter(dz)):
                            out.remove(x); out.remove(z)
                            return disj(*out, conj(*(p & q)))
                    elif z is not x and z.op == 'AND' and set(parts) < set(z.a[0]):
                        out.remove(z); s.discard(z); changed = True
                if changed:
                    break
    # factor a common conjunct
    out = _dominated(out, False)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    ands = [set(x.a[0]) if x.op == 'AND' else {x} for x in out]
    common = set.intersection(*ands)
    if common:
        rest = [conj(*(a - common)) for a in ands]
        return conj(disj(*rest), *common)
    return mk('OR', tuple(sorted(out, key=lambda x: x.d)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'NOT':
        return ite(c.a[0], b, a)
    # canonical polarity for comparisons
    if c.op == 'GE':
        n = ge_neg(c)
        if n.d < c.d:
            return ite_(n, b, a)
    elif c.op in ('AND', 'OR'):
        n = neg(c)
        if n.d < c.d:
            return ite_(n, b, a)
    return ite_(c, a, b)


def ite_(c, a, b):
    a, b = assume(a, c, True), assume(b, c, False)
    if a is b:
        return a
    ta, tb = ty(a), ty(b)
    if ta == 'bool' and tb == 'bool':
        if a is TRUE:
            return disj(c, b)
        if a is FALSE:
            return conj(neg(c), b)
        if b is FALSE:
            return conj(c, a)
        if b is TRUE:
            return disj(neg(c), a)
    if (ta == 'int' and tb == 'int') and (a.op == 'LIN' or b.op == 'LIN'):
        c1, d1 = lin(a)
        c2, d2 = lin(b)
        common = {k: v for k, v in d1.items() if d2.get(k) == v}
        cc = c1 if c1 == c2 else 0
        if common or cc:
            base = mklin(cc, common)
            return ladd(base, ite_(c, ladd(a, base, -1), ladd(b, base, -1)))
    if ta == 'str' and tb == 'str' and (a.op == 'CAT' or b.op == 'CAT'):
        pa, pb = pieces(a), pieces(b)
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        j = 0
        while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
            j += 1
        if i or j:
            return cat(pa[:i] + [ite_(c, cat(pa[i:len(pa) - j]), cat(pb[i:len(pb) - j]))] + (pa[len(pa) - j:] if j else []))
        # literal common prefix / suffix
        if pa and pb and isk(pa[0], str) and isk(pb[0], str):
            x, y = pa[0].a[0], pb[0].a[0]
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n:
                return cat([K(x[:n]), ite_(c, cat([K(x[n:])] + pa[1:]), cat([K(y[n:])] + pb[1:]))])
    if ta == 'list' and tb == 'list' and (a.op == 'LIST' or b.op == 'LIST'):
        ia, ib = litems(a), litems(b)
        i = 0
        while i < len(ia) and i < len(ib) and ia[i] is ib[i]:
            i += 1
        return mk('LIST', ia[:i] + guard_items(c, ia[i:]) + guard_items(neg(c), ib[i:]))
    if a.op == 'TUP' and b.op == 'TUP' and len(a.a[0]) == len(b.a[0]):
        return mk('TUP', tuple(ite(c, x, y) for x, y in zip(a.a[0], b.a[0])))
    if a.op == 'NT' and b.op == 'NT' and a.a[0] == b.a[0]:
        return mk('NT', a.a[0], tuple((f, ite(c, x, dict(b.a[1])[f])) for f, x in a.a[1]))
    if a.op == 'DICT' and b.op == 'DICT' and [k for k, _ in a.a[0]] == [k for k, _ in b.a[0]]:
        return mk('DICT', tuple((k, ite(c, x, y)) for (k, x), (_, y) in zip(a.a[0], b.a[0])))
    return mk('ITE', c, a, b)


def assume(t, c, val):
    """simplify the top of t knowing the condition c has the given value"""
    if t.op == 'ITE':
        if t.a[0] is c:
            return assume(t.a[1] if val else t.a[2], c, val)
        if t.a[0] is neg(c):
            return assume(t.a[2] if val else t.a[1], c, val)
        if val and c.op == 'AND' and t.a[0] in c.a[0]:
            return assume(t.a[1], c, val)
        if not val and c.op == 'OR' and t.a[0] in c.a[0]:
            return assume(t.a[2], c, val)
    elif ty(t) == 'bool' and not isk(t):
        if t is c:
            return K(val)
        if t is neg(c):
            return K(not val)
    return t


# ------------------------------------------------------------------ traversal
_REBUILD = {
    'LIN': lambda a: _rlin(a),
    'GE': lambda a: ge0(a[0]),
    'EQ0': lambda a: eq0(a[0]),
    'EQ': lambda a: eq(*a),
    'NOT': lambda a: neg(a[0]),
    'AND': lambda a: conj(*a[0]),
    'OR': lambda a: disj(*a[0]),
    'ITE': lambda a: ite(*a),
    'CAT': lambda a: cat(a[0]),
    'STR': lambda a: tostr(a[0]),
    'LEN': lambda a: length(a[0]),
    'MUL': lambda a: _rmul(a[0]),
    'BIN': lambda a: binop(*a),
    'ADDU': lambda a: add(*a),
    'TRUTH': lambda a: truth(a[0]),
    'IN': lambda a: member(*a),
    'ANY': lambda a: mkany(*a),
    'SUM': lambda a: lsum(*a),
    'A': lambda a: attr(*a),
    'I': lambda a: index(*a),
    'SL': lambda a: slc(*a),
}


def _rlin(a):
    t = K(a[0])
    for x, c in a[1]:
        t = ladd(t, scale(x, c))
    return t


def _rmul(fs):
    t = ONE
    for f in fs:
        t = mul(t, f)
    return t


def rebuild(op, a):
    f = _REBUILD.get(op)
    return f(a) if f else mk(op, *a)


def mapt(t, fn, memo=None, skip=None):
    """bottom-up rewrite: fn(term) -> term or None (keep); skip(term): nothing in it changes"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if skip is not None and skip(x):
            return x
        r = fn(x)
        if r is None:
            if x.op in ('K', 'V'):
                r = x
            else:
                na = tuple(go(y) for y in x.a)
                r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def subst(t, m, memo=None):
    """replace references and loop-carried values"""
    if not m:
        return t
    if not t.vol:
        return t
    return mapt(t, m.get, memo, lambda x: not any(k in m for k in x.vol))


def subst_any(t, m):
    return mapt(t, m.get)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            st.extend(x.a)


_mem = {}


def varies(t, it, k):
    """may the value of t change from one iteration over (it, k) to the next?"""
    r = _mem.get((t, it, k))
    if r is None:
        r = _mem[(t, it, k)] = any((y.op in PREFIXED and y.a[0] is it and y.a[1] == k) or y.op in ('PHI', 'SELF') for y in walk(t))
    return r


PREFIXED = {'ELEM', 'IDX', 'PSUM', 'PCAT', 'PANY', 'PFIX', 'PREVLAST', 'PREV'}


def mentions(t, x):
    r = _mem.get((t, x))
    if r is None:
        r = _mem[(t, x)] = any(y is x for y in walk(t))
    return r


# ------------------------------------------------------------------ access
def attr(b, n):
    if isk(b, Member) and n in ('name', 'value'):
        return K(getattr(b.a[0], n))
    if b.op == 'NT':
        for f, v in b.a[1]:
            if f == n:
                return v
    if b.op == 'ITE' and b.a[1].op in ('NT', 'ITE') and b.a[2].op in ('NT', 'ITE'):
        return ite(b.a[0], attr(b.a[1], n), attr(b.a[2], n))
    return mk('A', b, n)


def index(b, i):
    if b.op == 'TUPL':
        b = b.a[0]
    if b.op == 'DICT':
        for k, v in reversed(b.a[0]):
            if k is i:
                return v
            if not (isk(k) and isk(i)) and not (k.op in ('TUP', 'GCONST', 'ENUMM') or i.op in ('TUP', 'GCONST', 'ENUMM')):
                break       # may be the same key
    if b.op == 'UPD':
        if b.a[1] is i:
            return b.a[2]
    if isint(i):
        n = i.a[0]
        if isk(b, str) and -len(b.a[0]) <= n < len(b.a[0]):
            return K(b.a[0][n])
        if b.op == 'TUP' and -len(b.a[0]) <= n < len(b.a[0]):
            return b.a[0][n]
        if b.op == 'NT' and -len(b.a[1]) <= n < len(b.a[1]):
            return b.a[1][n][1]
        if b.op == 'LIST':
            its = b.a[0]
            if n >= 0 and len(its) > n and all(x.op == 'IT' and x.a[0] is TRUE for x in its[:n + 1]):
                return its[n].a[1]
            if n < 0 and len(its) >= -n and all(x.op == 'IT' and x.a[0] is TRUE for x in its[n:]):
                return its[n].a[1]
    if i.op == 'IDX' and i.a[0] is b:
        return elem(b, i.a[1])
    if b.op == 'ITE' and b.a[1].op in ('TUP', 'LIST', 'DICT', 'ITE') and b.a[2].op in ('TUP', 'LIST', 'DICT', 'ITE'):
        return ite(b.a[0], index(b.a[1], i), index(b.a[2], i))
    return mk('I', b, i)


def slc(b, lo, hi, step=NONE):
    if all(isint(x) or x is NONE for x in (lo, hi, step)):
        s = slice(lo.a[0], hi.a[0], step.a[0])
        if isk(b, str):
            return K(b.a[0][s])
        if b.op == 'TUP':
            return mk('TUP', b.a[0][s])
        if b.op == 'LIST' and all(i.op == 'IT' and i.a[0] is TRUE for i in b.a[0]):
            return mk('LIST', b.a[0][s])
    if lo is NONE and step is NONE:
        lo = ZERO
    if lo is hi and lo is not NONE and step is NONE and ty(b) == 'str':
        return K('')
    return mk('SL', b, lo, hi, step)
