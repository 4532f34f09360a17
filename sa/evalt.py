"""Random interpretation of terms (not of the repository's code).

Two normal forms that are not identical are compared on a few hundred valuations of their leaves; they are
reported as different only when a valuation tells them apart.  The filter removes differences that come
from an incomplete normaliser (e.g. two spellings of the same linear condition).
"""
import fractions
import itertools
import math
import random
import hashlib
from .terms import T, Member, mk, show, walk


class Unsupported(Exception):
    pass


class Undefined(Exception):
    """the term has no value on this valuation (index out of range, assertion in the specification ...)"""


class TooBig(Exception):
    """the valuation makes the term too large to be worth evaluating"""


class Obj:
    """a leaf with lazily chosen attributes"""
    __slots__ = ('_f', '_cls')

    def __init__(self, cls, fields):
        self._cls, self._f = cls, fields

    def key(self):
        return (self._cls,) + tuple(_fz(v) for v in self._f.values())

    def __eq__(self, o):
        return (isinstance(o, Obj) and self.seq() == o.seq()) or (isinstance(o, tuple) and self.seq() == o)

    def __hash__(self):
        return hash(self.seq())

    def __lt__(self, o):
        return self.seq() < o.seq()

    def seq(self):
        return tuple(_fz(v) for v in self._f.values())

    def __repr__(self):
        return f'{self._cls}({", ".join(f"{k}={v!r}" for k, v in self._f.items())})'


class SetV:
    """a set; remembers the elements as they were inserted"""
    def __init__(self, xs=()):
        self.d = {}
        for x in xs:
            self.d.setdefault(_norm(x), x)

    salt = b''

    def elems(self):
        return [self.d[k] for k in sorted(self.d, key=lambda x: hashlib.md5(self.salt + repr(x).encode()).digest())]

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __repr__(self):
        return '{' + ', '.join(repr(x) for x in self.elems()) + '}'


class CounterV(dict):
    def __missing__(self, k):
        return 0

    def combine(self, op, o):
        keys = list(self) + [k for k in o if k not in self]
        f = {'&': min, '|': max, '+': lambda a, b: a + b, '-': lambda a, b: a - b}[op]
        return CounterV({k: f(self[k], o.get(k, 0)) for k in keys if f(self[k], o.get(k, 0)) > 0})


def _fz(v):
    if isinstance(v, list):
        return tuple(_fz(x) for x in v)
    return v


# ------------------------------------------------------------------ evaluation
HEAVY = {'LIST', 'SORTED', 'SET', 'EACHS', 'SUM', 'PSUM', 'ANY', 'PANY', 'PCAT', 'JOIN', 'CAT', 'FIX', 'PFIX', 'LAST', 'PREVLAST', 'ITE', 'CALL', 'CALLM', 'PROD',
         'I', 'DICTOF', 'WHL', 'UPD', 'MUT', 'LEN', 'LIN', 'AND', 'OR', 'TUPL', 'DICT', 'NT'}
_free = {}


def free(t):
    """loop positions the value of t depends on; None: also on something that is not a loop position"""
    if t in _free:
        return _free[t]
    op, out = t.op, set()
    if op == 'V' and t.a[0] == '§key':
        _free[t] = None
        return None
    bad = False

    def go(x):
        nonlocal bad
        if isinstance(x, T):
            f = free(x)
            if f is None:
                bad = True
            else:
                out.update(f)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    if op == 'FIRST':
        bad = True
    elif op in ('SORTED',):
        go(t.a[0])
        for k, v in t.a[1]:
            if k != 'key':
                go(v)
            else:
                bad = bad or any(y.op in ('ELEM', 'IDX', 'SELF') for y in walk(v))
    elif op in ('EACH', 'EACHS', 'SUM', 'ANY', 'LAST'):
        go(t.a[2:])
        out.discard((t.a[0], t.a[1]))
        go(t.a[0])
    elif op == 'WHL':
        go(t.a[2:])
        out.discard(('S', t.a[0], 0))
        go(t.a[1])
    elif op in ('FIX', 'PFIX'):
        go(t.a[3])
        out.discard((t.a[0], t.a[1]))
        out.discard(('S', t.a[0], t.a[1]))
        go(t.a[2])
        if op == 'PFIX':
            out.add((t.a[0], t.a[1]))
        go(t.a[0])
    else:
        go(t.a)
        if op in ('ELEM', 'IDX', 'PSUM', 'PCAT', 'PANY', 'PREVLAST'):
            out.add((t.a[0], t.a[1]))
        elif op == 'SELF':
            out.add(('S', t.a[0], t.a[1]))
    r = _free[t] = None if bad else frozenset(out)
    return r


class Unbound(TooBig):
    """a name without a value was read"""


_NOVALUE = object()


class _Shown:
    """stands for a value of which only the text matters"""
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Eval:
    typenames = {}          # namedtuple variable -> name of the type

    fresh = ()
    turn = 0

    def __init__(self, env, funcs=None, unfold=None):
        self.funcs = funcs or {}
        self.unfold = unfold    # name, kinds of the arguments -> summary of a repository function
        self.depth = 0
        self.shints = ()
        self.env = env          # leaf name -> value
        self.bound = {}         # (iterable term, k) -> (list, index)
        self.self_ = {}
        self.memo = {}
        self.keep = []
        self.fuel = 400000

    def __call__(self, t):
        return self.ev(t)

    def rng(self, key):
        from .domains import Rng
        r = Rng(f'{self.turn}{key}')
        r.shints, r.fresh = self.shints, self.fresh
        return r

    def ev(self, t):
        self.fuel -= 1
        if self.fuel < 0:
            raise TooBig()
        m = getattr(self, 'o_' + t.op, None)
        if m is None:
            raise Unsupported(t.op)
        if t.op not in HEAVY:
            return m(t)
        fr = free(t)
        if fr is None:
            return m(t)
        b, sf = self.bound, self.self_
        try:
            key = (t,) + tuple((id(b[k][0]), b[k][1]) if len(k) == 2 else id(sf[k[1:]]) for k in fr)
        except KeyError:
            return m(t)
        if key in self.memo:
            return self.memo[key]
        v = m(t)
        for k in fr:
            self.keep.append(b[k][0] if len(k) == 2 else sf[k[1:]])
        self.memo[key] = v
        return v

    def o_UNB(self, t):
        raise Unbound('unbound')          # an unbound name: this valuation decides nothing

    def o_OKAY(self, t):
        import builtins
        types = tuple(getattr(builtins, n) for n in t.a[0])
        for x in t.a[1]:
            try:
                self.ev(x)
            except Undefined as e:
                c = e.__context__
                if c is None:
                    raise Unsupported('exception')
                if isinstance(c, types):
                    return False
                raise
        return True

    def o_EXCV(self, t):
        for x in t.a[1]:
            try:
                self.ev(x)
            except Undefined as e:
                if e.__context__ is None:
                    raise Unsupported('exception')
                return str(e.__context__)
        raise Undefined('no exception')

    def o_K(self, t):
        return t.a[0]

    def o_V(self, t):
        n = t.a[0]
        if n in self.env:
            return self.env[n]
        raise Unsupported('leaf ' + n)

    def o_GCONST(self, t):
        return self.ev(t.a[2])

    def o_GLOB(self, t):
        raise Unsupported('glob')

    def o_A(self, t):
        b = self.ev(t.a[0])
        if isinstance(b, Obj) and t.a[1] in b._f:
            return b._f[t.a[1]]
        if isinstance(b, Member) and t.a[1] in ('name', 'value'):
            return getattr(b, t.a[1])
        if isinstance(b, Obj) and t.a[1] == '_fields':
            return tuple(b._f)
        if isinstance(b, fractions.Fraction) and t.a[1] in ('numerator', 'denominator'):
            return getattr(b, t.a[1])
        if t.a[1].startswith('_'):
            raise Unsupported('attribute')
        raise Undefined(f'attribute {t.a[1]}')

    def o_I(self, t):
        b, i = self.ev(t.a[0]), self.ev(t.a[1])
        if isinstance(b, Obj):
            b = list(b._f.values())
        try:
            return b[_fz(i)]
        except (IndexError, KeyError, TypeError):
            raise Undefined('index')

    def o_SL(self, t):
        b = self.ev(t.a[0])
        lo, hi, st = [self.ev(x) for x in t.a[1:]] + [None] * (4 - len(t.a))
        if isinstance(b, Obj):
            b = tuple(b._f.values())
        try:
            return b[slice(lo, hi, st)]
        except TypeError:
            raise Undefined('slice')

    def o_LIN(self, t):
        s = t.a[0]
        for x, c in t.a[1]:
            v = self.ev(x)
            if not isinstance(v, (int, float)):
                raise Undefined('int')
            s += c * v
        return s

    def o_GE(self, t):
        x = t.a[0]
        if x.op == 'LIN' and len(x.a[1]) == 2 and x.a[0] in (0, -1) and sorted(c for _, c in x.a[1]) == [-1, 1]:
            (u, cu), (v, _) = x.a[1]
            a, b = self.ev(u), self.ev(v)
            if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
                a, b = (a, b) if cu == 1 else (b, a)
                if isinstance(a, (str, list, tuple, Obj)) and isinstance(b, (str, list, tuple, Obj)):
                    a, b = _norm(a), _norm(b)
                    try:
                        return a >= b if x.a[0] == 0 else a > b
                    except TypeError:
                        raise Undefined('compare')
        v = self.ev(x)
        if not isinstance(v, (int, float)):
            if isinstance(v, (str, list, tuple, dict, SetV, Obj)):
                raise Unsupported('comparison')
            raise Undefined('compare')
        return v >= 0

    def o_LT(self, t):
        a, b = _norm(self.ev(t.a[0])), _norm(self.ev(t.a[1]))
        try:
            return a < b
        except TypeError:
            raise Undefined('compare')

    def o_SLICE(self, t):
        return slice(*[self.ev(x) for x in t.a])

    def o_EQ0(self, t):
        x = t.a[0]
        if x.op == 'LIN':
            vs = [(self.ev(y), c) for y, c in x.a[1]]
            if any(not isinstance(v, (int, float)) for v, _ in vs):
                return False            # things of different types are different
            return x.a[0] + sum(v * c for v, c in vs) == 0
        return self.ev(x) == 0

    def o_EQ(self, t):
        return _norm(self.ev(t.a[0])) == _norm(self.ev(t.a[1]))

    def o_NOT(self, t):
        return not self.ev(t.a[0])

    def o_TRUTH(self, t):
        return bool(self.ev(t.a[0]))

    def _lazy(self, xs, stop):
        und = None
        for x in xs:
            try:
                if bool(self.ev(x)) == stop:
                    return stop
            except Undefined as e:
                und = e
        if und:
            raise und
        return not stop

    def o_AND(self, t):
        return self._lazy(t.a[0], False)

    def o_OR(self, t):
        return self._lazy(t.a[0], True)

    def o_ITE(self, t):
        return self.ev(t.a[1]) if self.ev(t.a[0]) else self.ev(t.a[2])

    def o_IN(self, t):
        b = self.ev(t.a[1])
        a = self.ev(t.a[0])
        if isinstance(b, str):
            return isinstance(a, str) and a in b
        return _norm(a) in [_norm(x) for x in self.seq(b)]

    def o_ISINST(self, t):
        v = self.ev(t.a[0])
        n = t.a[1]
        if isinstance(v, Obj):
            return v._cls == n or n == 'tuple'
        return type(v).__name__ == n

    # strings
    def o_CAT(self, t):
        out = []
        for x in t.a[0]:
            v = self.ev(x)
            if not isinstance(v, str):
                raise Undefined('str')
            out.append(v)
        return ''.join(out)

    def o_STR(self, t):
        return str(self.printable(self.ev(t.a[0])))

    def printable(self, v):
        """v, or something that prints as v does"""
        if isinstance(v, (Obj, list, tuple, dict, SetV)):
            return _Shown(self.text(v))
        return v

    def text(self, v):
        if isinstance(v, list):
            return f'[{", ".join(self.text(x) for x in v)}]'
        if isinstance(v, tuple):
            return f'({", ".join(self.text(x) for x in v)}{"," if len(v) == 1 else ""})'
        if isinstance(v, dict):
            return f'{{{", ".join(f"{self.text(k)}: {self.text(x)}" for k, x in v.items())}}}'
        if not isinstance(v, Obj):
            if not isinstance(v, (str, int, float, bool, type(None), complex, fractions.Fraction)):
                raise Unsupported('str of objects')
            return repr(v)
        if v._cls not in self.typenames:
            raise Unsupported('str of object')
        return f'{self.typenames[v._cls]}({", ".join(f"{k}={self.text(x)}" for k, x in v._f.items())})'

    def o_STRF(self, t):
        try:
            return format(self.printable(self.ev(t.a[0])), self.ev(t.a[1]))
        except (TypeError, ValueError):
            raise Unsupported('format')

    def o_PCT(self, t):
        try:
            v = self.ev(t.a[1])
            return self.ev(t.a[0]) % (tuple(self.printable(x) for x in v) if isinstance(v, tuple) else self.printable(v))
        except (TypeError, ValueError):
            raise Undefined('%')

    def o_REP(self, t):
        return self.ev(t.a[0]) * self.ev(t.a[1])

    def o_JOIN(self, t):
        xs = self.seq(self.ev(t.a[1]))
        if not all(isinstance(x, str) for x in xs):
            raise Undefined('join')
        return self.ev(t.a[0]).join(xs)

    def o_EACHS(self, t):
        return ''.join(self.over(t.a[0], t.a[1], lambda: self.ev(t.a[2])))

    def o_PCAT(self, t):
        return ''.join(self.prefix(t.a[0], t.a[1], lambda: self.ev(t.a[2])))

    # loops
    def seq(self, v):
        if isinstance(v, (list, tuple, str, range)):
            return list(v)
        if isinstance(v, Obj):
            return list(v._f.values())
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=lambda x: repr(_norm(x)))
        if isinstance(v, SetV):
            return v.elems()
        raise Unsupported('iterate ' + type(v).__name__)

    def over(self, it, k, f):
        l = self.seq(self.ev(it))
        key = (it, k)
        save = self.bound.get(key)
        out = []
        try:
            for i in range(len(l)):
                self.bound[key] = (l, i)
                out.append(f())
        finally:
            if save is None:
                self.bound.pop(key, None)
            else:
                self.bound[key] = save
        return out

    def prefix(self, it, k, f):
        key = (it, k)
        if key not in self.bound:
            raise Unsupported('prefix outside of its loop')
        l, n = self.bound[key]
        out = []
        try:
            for i in range(n):
                self.bound[key] = (l, i)
                out.append(f())
        finally:
            self.bound[key] = (l, n)
        return out

    def o_ELEM(self, t):
        key = (t.a[0], t.a[1])
        if key not in self.bound:
            raise Unsupported('element outside of its loop')
        l, i = self.bound[key]
        return l[i]

    def o_IDX(self, t):
        key = (t.a[0], t.a[1])
        if key not in self.bound:
            raise Unsupported('index outside of its loop')
        return self.bound[key][1]

    def o_SUM(self, t):
        return sum(self.over(t.a[0], t.a[1], lambda: self.ev(t.a[2])))

    def o_PSUM(self, t):
        return sum(self.prefix(t.a[0], t.a[1], lambda: self.ev(t.a[2])))

    def o_ANY(self, t):
        return any(self.over(t.a[0], t.a[1], lambda: bool(self.ev(t.a[2]))))

    def o_LAST(self, t):
        r = self.over(t.a[0], t.a[1], lambda: self.ev(t.a[3]))
        return r[-1] if r else self.ev(t.a[2])

    def o_PREVLAST(self, t):
        r = self.prefix(t.a[0], t.a[1], lambda: self.ev(t.a[3]))
        return r[-1] if r else self.ev(t.a[2])

    def _fold(self, t, run):
        k = (t.a[0], t.a[1])
        save = self.self_.get(k, self)
        self.self_[k] = _NOVALUE if t.a[2].op == 'UNB' else self.ev(t.a[2])

        def step():
            try:
                self.self_[k] = self.ev(t.a[3])
            except Unbound:
                if self.self_[k] is not _NOVALUE:
                    raise
        run(t.a[0], t.a[1], step)
        r = self.self_[k]
        if r is _NOVALUE:
            raise Unbound('unbound')
        if save is self:
            self.self_.pop(k, None)
        else:
            self.self_[k] = save
        return r

    def o_WHL(self, t):
        k = (t.a[0], 0)
        save = self.self_.get(k, self)
        v = self.ev(t.a[1])
        for _ in range(200):
            self.self_[k] = v
            if not self.ev(t.a[2]):
                break
            v = self.ev(t.a[3])
        else:
            raise TooBig()
        if save is self:
            self.self_.pop(k, None)
        else:
            self.self_[k] = save
        return v

    def o_RES(self, t):
        meth, old, args = t.a
        if meth == 'pop':
            v, a = self.ev(old), [self.ev(x) for x in args]
            try:
                if isinstance(v, list):
                    return v[a[0] if a else -1]
                if isinstance(v, dict) and a and meth == 'pop':
                    return v[_fz(a[0])] if _fz(a[0]) in v or len(a) < 2 else a[1]
            except (IndexError, KeyError, TypeError):
                raise Undefined('pop')
        if meth == 'setdefault':
            v, a = self.ev(old), [self.ev(x) for x in args]
            if isinstance(v, dict):
                return v.get(_fz(a[0]), a[1] if len(a) > 1 else None)
        raise Unsupported('result of ' + meth)

    def o_FIX(self, t):
        if t.a[0].op == 'WHILE':
            raise Unsupported('while')
        return self._fold(t, self.over)

    def o_PFIX(self, t):
        if t.a[0].op == 'WHILE':
            raise Unsupported('while')
        return self._fold(t, self.prefix)

    def o_SELF(self, t):
        if (t.a[0], t.a[1]) not in self.self_:
            raise Unsupported('self')
        r = self.self_[(t.a[0], t.a[1])]
        if r is _NOVALUE:
            raise Unbound('unbound')
        return r

    def o_PANY(self, t):
        return any(self.prefix(t.a[0], t.a[1], lambda: bool(self.ev(t.a[2]))))

    def o_FIRST(self, t):
        loops, g, v = t.a
        found = []

        def go(j):
            if found:
                return
            if j == len(loops):
                if self.ev(g):
                    found.append(self.ev(v))
                return
            self.over(loops[j][0], loops[j][1], lambda: None if found else go(j + 1))
        go(0)
        if not found:
            raise Undefined('first')
        return found[0]

    # containers
    def items(self, its):
        out = []
        for i in its:
            if i.op == 'IT':
                if i.a[0].op == 'K' or True:
                    if self.ev(i.a[0]):
                        out.append(self.ev(i.a[1]))
            elif i.op == 'SPL':
                if self.ev(i.a[0]):
                    out.extend(self.seq(self.ev(i.a[1])))
            elif i.op == 'GRD':
                if self.ev(i.a[0]):
                    out.extend(self.items((i.a[1],)))
            elif i.op == 'EACH':
                for x in self.over(i.a[0], i.a[1], lambda: self.items(i.a[2])):
                    out.extend(x)
            else:
                raise Unsupported(i.op)
        return out

    def o_LIST(self, t):
        return self.items(t.a[0])

    def o_TUP(self, t):
        return tuple(self.ev(x) for x in t.a[0])

    def o_TUPL(self, t):
        return tuple(self.seq(self.ev(t.a[0])))

    def o_NT(self, t):
        return Obj(t.a[0], {f: self.ev(v) for f, v in t.a[1]})

    def o_DICT(self, t):
        return {_fz(self.ev(k)): self.ev(v) for k, v in t.a[0]}

    def o_DICTOF(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, dict):
            return dict(v)
        try:
            return {_fz(k): x for k, x in self.seq(v)}
        except (TypeError, ValueError):
            raise Undefined('dict')

    def o_SET(self, t):
        return SetV(self.seq(self.ev(t.a[0])))

    def o_LISTOFSET(self, t):
        return self.seq(self.ev(t.a[0]))

    def o_SETMINUS(self, t):
        b = self.ev(t.a[1])
        a = self.ev(t.a[0])
        if isinstance(a, CounterV) and isinstance(b, dict):
            return a.combine('-', b)
        b = SetV(self.seq(b)).d
        return SetV(x for x in self.seq(a) if _norm(x) not in b)

    def o_SORTED(self, t):
        opts = dict(t.a[1])
        rev = False
        if 'reverse' in opts:
            rev = bool(self.ev(opts['reverse']))
        try:
            if 'key' in opts:
                save = self.env.get('§key')
                dec = []
                for x in self.seq(self.ev(t.a[0])):
                    self.env['§key'] = x
                    dec.append((_norm(self.ev(opts['key'])), x))
                self.env['§key'] = save
                return [x for _, x in sorted(dec, key=lambda p: p[0], reverse=rev)]
            return sorted(self.seq(self.ev(t.a[0])), key=_norm, reverse=rev)
        except TypeError:
            raise Undefined('sort')

    def o_REVERSED(self, t):
        return list(reversed(self.seq(self.ev(t.a[0]))))

    def o_PARTIAL(self, t):
        raise Unsupported('partial list')

    def o_RANGE(self, t):
        a = [self.ev(x) for x in t.a]
        try:
            r = range(*a)
        except (TypeError, ValueError):
            raise Undefined('range')
        if len(r) > 64:
            raise Unsupported('range')
        return list(r)

    def o_ENUM(self, t):
        return [(i, x) for i, x in enumerate(self.seq(self.ev(t.a[0])), self.ev(t.a[1]))]

    def o_ZIP(self, t):
        return list(zip(*[self.seq(self.ev(x)) for x in t.a[0]]))

    def o_PROD(self, t):
        return list(itertools.product(*[self.seq(self.ev(x)) for x in t.a[0]]))

    def o_ITEMS(self, t):
        d = self.ev(t.a[0])
        if not isinstance(d, dict):
            raise Undefined('items')
        return list(d.items())

    def o_VALUES(self, t):
        d = self.ev(t.a[0])
        return list(d.values()) if isinstance(d, dict) else Unsupported

    def o_GET(self, t):
        d = self.ev(t.a[0])
        return d.get(_fz(self.ev(t.a[1])), self.ev(t.a[2]))

    def o_LEN(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, Obj):
            return len(v._f)
        try:
            return len(v)
        except TypeError:
            raise Undefined('len')

    def o_MUL(self, t):
        r = 1
        for x in t.a[0]:
            r *= self.ev(x)
        return r

    def o_ADDU(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        try:
            if isinstance(a, Obj):
                a = tuple(a._f.values())
            if isinstance(b, Obj):
                b = tuple(b._f.values())
            return a + b
        except TypeError:
            raise Undefined('add')

    def o_SUBSET(self, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if not isinstance(a, SetV) or not isinstance(b, SetV):
            raise Undefined('compare')
        return all(k in b.d for k in a.d) and (not t.a[2] or len(a.d) < len(b.d))

    def o_BIN(self, t):
        op, a, b = t.a[0], self.ev(t.a[1]), self.ev(t.a[2])
        if isinstance(a, CounterV) and isinstance(b, dict):
            return a.combine(op, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if op == '&':
                return SetV(x for x in a.elems() if _norm(x) in b.d)
            if op == '|':
                return SetV(a.elems() + b.elems())
            if op == '^':
                return SetV([x for x in a.elems() if _norm(x) not in b.d] + [x for x in b.elems() if _norm(x) not in a.d])
        try:
            return {'//': lambda: a // b, '%': lambda: a % b, '/': lambda: a / b, '**': lambda: a ** b, '|': lambda: a | b,
                    '&': lambda: a & b, '*': lambda: a * b, '^': lambda: a ^ b}[op]()
        except KeyError:
            raise Unsupported(op)
        except (TypeError, ZeroDivisionError):
            raise Undefined(op)

    def o_CALL(self, t):
        name = t.a[0]
        args = []
        for x in t.a[1]:
            if x.op == 'STAR':
                args.extend(self.seq(self.ev(x.a[0])))
            else:
                args.append(self.ev(x))
        kw = {k: self.ev(v) for k, v in (t.a[2] if len(t.a) > 2 else ()) if k != 'key'}
        if name in self.funcs:
            # uninterpreted function: any fixed function of the arguments will do
            key = repr((name, [norm_value(a) for a in args], sorted((k, norm_value(v)) for k, v in kw.items())))
            exact = getattr(self.funcs[name], 'exact', None)
            r = exact(*args, *kw.values()) if exact is not None else None
            return r if r is not None else self.funcs[name](self.rng(key))
        if name in ('repr', 'str') and args:
            args[0] = self.printable(args[0])
        f = {'math.factorial': math.factorial, 'math.comb': math.comb, 'fractions.Fraction': fractions.Fraction, 'max': max, 'min': min, 'abs': abs, 'int': int, 'str': str,
             'math.prod': math.prod, 'round': round, 'ord': ord, 'chr': chr, 'math.ceil': math.ceil, 'math.floor': math.floor, 'math.sqrt': math.sqrt,
             'math.perm': math.perm, 'math.gcd': math.gcd, 'bool': bool, 'len': len, 'float': float, 'repr': repr}.get(name)
        if name in ('max', 'min', 'sum') and args and not isinstance(args[0], (int, float)):
            args = [self.seq(args[0])] + args[1:] if len(args) == 1 or name == 'sum' else args
            key = dict(t.a[2]).get('key') if len(t.a) > 2 else None
            try:
                if name == 'sum':
                    r = args[1] if len(args) > 1 else kw.get('start', 0)
                    for x in args[0]:
                        r = r + x
                    return r
                if not args[0] and len(args) == 1:
                    if 'default' in kw:
                        return kw['default']
                    raise Undefined(name)
                xs = args[0] if len(args) == 1 else args
                best = None
                for x in xs:
                    if key is not None:
                        self.env['§key'] = x
                        m = _norm(self.ev(key))
                    else:
                        m = _norm(x)
                    if best is None or (m > best[0] if name == 'max' else m < best[0]):
                        best = (m, x)
                return best[1]
            except TypeError:
                raise Undefined(name)
        if name == 'json.dumps':
            return 'json:' + repr((unordered(norm_value(args[0])), sorted(kw.items())))
        try:
            if f:
                if name == 'math.prod':
                    return math.prod(self.seq(args[0]))
                return f(*args, **kw)
            if name in ('itertools.permutations', 'itertools.combinations', 'itertools.combinations_with_replacement', 'itertools.product'):
                fn = getattr(itertools, name.split('.')[1])
                r = list(itertools.islice(fn(*[self.seq(a) if not isinstance(a, int) else a for a in args], **kw), 5041))
                if len(r) > 5040:
                    raise TooBig()
                self.fuel -= len(r) // 4
                return r
            if name == 'divmod':
                return divmod(*args)
            if name == 'itertools.chain.from_iterable':
                return [y for x in self.seq(args[0]) for y in self.seq(x)]
            if name == 'itertools.groupby' and len(args) == 1 and not (len(t.a) > 2 and t.a[2]):
                return [(k, list(g)) for k, g in itertools.groupby(self.seq(args[0]))]
            if name == 'zip':
                return list(zip(*[self.seq(a) for a in args]))
            if name == 'next' and len(args) == 2:
                xs = self.seq(args[0])
                return xs[0] if xs else args[1]
            if name == 'itertools.chain':
                return [y for x in args for y in self.seq(x)]
            if name == 'itertools.accumulate' and len(args) == 1:
                return list(itertools.accumulate(self.seq(args[0])))
            if name == 'itertools.islice':
                return list(itertools.islice(self.seq(args[0]), *args[1:]))
            if name == 'itertools.zip_longest':
                return list(itertools.zip_longest(*[self.seq(a) for a in args], fillvalue=kw.get('fillvalue')))
            if name == 'itertools.repeat' and len(args) == 2:
                return [args[0]] * args[1]
            if name == 'dict.fromkeys':
                return {_fz(k): (args[1] if len(args) > 1 else None) for k in self.seq(args[0])}
            if name in ('collections.Counter', 'Counter'):
                if args and isinstance(args[0], dict):
                    return CounterV(args[0])
                d = CounterV()
                for x in self.seq(args[0]) if args else ():
                    d[_norm(x)] = d.get(_norm(x), 0) + 1
                return d
        except (TypeError, ValueError):
            raise Undefined(name)
        if self.unfold is not None and self.depth < 12:
            key = (name, repr(args), repr(sorted(kw.items())))
            if key in self.unfold.values:
                v = self.unfold.values[key]
                if isinstance(v, Exception):
                    raise v
                return v
            r = self.unfold(name, args, kw)
            if r is not None:
                env, value, bad = r
                sub = Eval(env, self.funcs, self.unfold)
                sub.depth, sub.fuel, sub.shints, sub.fresh, sub.turn = self.depth + 1, self.fuel, self.shints, self.fresh, self.turn
                try:
                    if bad is not None and sub(bad):
                        raise Undefined('raise in ' + name)
                    v = self.unfold.values[key] = sub(value)
                    return v
                except Undefined as e:
                    self.unfold.values[key] = e
                    raise
                finally:
                    self.fuel = sub.fuel
        raise Unsupported('call ' + name)

    def o_FILES(self, t):
        """what a sequence of file effects leaves behind, up to the first refusal"""
        out, order = {}, []
        def entries():
            if t.a[0].op == 'LIST':
                for i in t.a[0].a[0]:
                    yield from self.seq(self.ev(mk('LIST', (i,))))
            else:
                yield from self.seq(self.ev(t.a[0]))
        for e in entries():
            e = list(e)
            if e[0] == 'raise':
                return ('refused', order, sorted(out.items()))
            if e[0] == 'open':
                path, mode = repr(norm_value(e[1])), e[2]
                if 'a' in mode or '+' in mode:
                    out.setdefault(path, '<old contents>')
                else:
                    out[path] = ''
            elif e[0] == 'write':
                path = repr(norm_value(e[1]))
                out[path] = out.get(path, '<closed>') + (e[2] if isinstance(e[2], str) else repr(norm_value(e[2])))
            else:
                order.append(unordered(norm_value(e)))
        return ('done', order, sorted(out.items()))

    def o_CALLM(self, t):
        meth, b = t.a[0], self.ev(t.a[1])
        args = [self.ev(x) for x in t.a[2]]
        kw = {k: self.ev(v) for k, v in (t.a[3] if len(t.a) > 3 else ())}
        if isinstance(b, str) and meth in ('replace', 'strip', 'lower', 'upper', 'capitalize', 'count', 'index', 'find', 'startswith',
                                           'endswith', 'split', 'join', 'lstrip', 'rstrip', 'title', 'format', 'rsplit', 'partition',
                                           'rpartition', 'isdigit', 'splitlines', 'ljust', 'rjust', 'center', 'zfill', 'removeprefix',
                                           'removesuffix', 'isupper', 'islower', 'isalpha', 'rfind', 'rindex', 'swapcase', 'expandtabs'):
            if meth == 'format':
                args, kw = [self.printable(a) for a in args], {k: self.printable(a) for k, a in kw.items()}
            try:
                return getattr(b, meth)(*args, **kw)
            except (ValueError, TypeError, IndexError, KeyError):
                raise Undefined(meth)
        if isinstance(b, (list, tuple)) and meth in ('count', 'index'):
            try:
                return getattr([_norm(x) for x in b], meth)(*[_norm(a) for a in args])
            except ValueError:
                raise Undefined(meth)
        if isinstance(b, CounterV):
            if meth == 'elements':
                return [k for k, n in b.items() for _ in range(n)]
            if meth == 'most_common':
                r = sorted(b.items(), key=lambda p: -p[1])
                return r[:args[0]] if args else r
            if meth == 'total':
                return sum(b.values())
        if isinstance(b, SetV) and args and isinstance(args[0], (SetV, list, tuple)):
            o = SetV(self.seq(args[0]))
            if meth == 'isdisjoint':
                return not any(k in o.d for k in b.d)
            if meth == 'intersection':
                return SetV(x for x in b.elems() if _norm(x) in o.d)
            if meth == 'difference':
                return SetV(x for x in b.elems() if _norm(x) not in o.d)
            if meth == 'union':
                return SetV(b.elems() + o.elems())
            if meth == 'issubset':
                return all(k in o.d for k in b.d)
            if meth == 'issuperset':
                return all(k in b.d for k in o.d)
        if isinstance(b, Obj) and meth == '_asdict' and not t.a[2]:
            return dict(b._f)
        if isinstance(b, fractions.Fraction) and meth in ('as_integer_ratio', 'limit_denominator'):
            return getattr(b, meth)(*args)
        raise Unsupported('method ' + meth)

    def o_MUT(self, t):
        meth, old, args = t.a
        v = self.ev(old)
        a = [self.ev(x) for x in args]
        if isinstance(v, SetV):
            if meth in ('add', 'discard', 'remove', 'update', 'clear', 'difference_update', 'intersection_update'):
                o = SetV([a[0]] if meth in ('add', 'discard', 'remove') else [x for y in a for x in self.seq(y)])
                if meth in ('add', 'update'):
                    return SetV(v.elems() + o.elems())
                if meth == 'remove' and not all(k in v.d for k in o.d):
                    raise Undefined('remove')
                if meth == 'clear':
                    return SetV()
                return SetV(x for x in v.elems() if (_norm(x) in o.d) == (meth == 'intersection_update'))
            raise Unsupported('mut ' + meth)
        v = list(v) if isinstance(v, (list, tuple)) else (type(v)(v) if isinstance(v, dict) else Unsupported)
        if v is Unsupported:
            raise Unsupported('mut')
        try:
            if isinstance(v, dict):
                a = [_fz(a[0])] + a[1:] if a and meth != 'update' else a
                if meth == 'del':
                    del v[a[0]]
                    return v
                if isinstance(v, CounterV) and meth in ('update', 'subtract') and a:
                    for k, n in (a[0].items() if isinstance(a[0], dict) else [(_fz(x), 1) for x in self.seq(a[0])]):
                        v[k] = v[k] + (n if meth == 'update' else -n)
                    return v
                if meth == 'update' and a and not isinstance(a[0], dict):
                    a = [{_fz(k): x for k, x in self.seq(a[0])}]
                if meth in ('pop', 'setdefault', 'update', 'clear', 'popitem'):
                    getattr(v, meth)(*a)
                    return v
            elif meth in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'del'):
                if meth == 'remove':
                    v.pop([_norm(x) for x in v].index(_norm(a[0])))
                elif meth == 'del':
                    del v[a[0]]
                elif meth == 'extend':
                    v.extend(self.seq(a[0]))
                else:
                    getattr(v, meth)(*a)
                return v
        except (IndexError, ValueError, TypeError, KeyError):
            raise Undefined(meth)
        raise Unsupported('mut ' + meth)

    def o_UPD(self, t):
        d = self.ev(t.a[0])
        if not isinstance(d, (dict, list)):
            raise Undefined('upd')
        i = self.ev(t.a[1])
        if isinstance(i, slice):
            d = list(d)
            d[i] = self.seq(self.ev(t.a[2]))
            return d
        d = type(d)(d) if isinstance(d, dict) else list(d)
        try:
            d[_fz(self.ev(t.a[1]))] = self.ev(t.a[2])
        except (IndexError, TypeError):
            raise Undefined('upd')
        return d


def _norm(v):
    if isinstance(v, Obj):
        return tuple(_norm(x) for x in v._f.values())
    if isinstance(v, (list, tuple)):
        return tuple(_norm(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((k, _norm(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted((_norm(x) for x in v), key=repr))
    if isinstance(v, SetV):
        return ('set',) + tuple(sorted(v.d, key=repr))
    if isinstance(v, bool):
        return v
    return v




def unordered(v):
    """dictionaries as sets of pairs"""
    if isinstance(v, tuple):
        if v and v[0] == 'dict':
            return ('dict',) + tuple(sorted((unordered(x) for x in v[1:]), key=repr))
        return tuple(unordered(x) for x in v)
    return v


def norm_value(v):
    """comparison key of a result: unlike `_norm` it keeps the type of named tuples and list / tuple apart"""
    if isinstance(v, Obj):
        return (v._cls,) + tuple(norm_value(x) for x in v._f.values())
    if isinstance(v, (list, tuple)):
        return tuple(norm_value(x) for x in v)
    if isinstance(v, dict):
        d = [(k, norm_value(x)) for k, x in v.items()]
        if any(isinstance(k, Member) for k in v):
            d.sort(key=repr)
        return ('dict',) + tuple(d)
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted((norm_value(x) for x in v), key=repr))
    if isinstance(v, SetV):
        return ('set',) + tuple(sorted(v.d, key=repr))
    return v
