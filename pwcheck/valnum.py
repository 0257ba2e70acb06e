"""Value graphs of functions, compared with reference value graphs.

objint evaluates a function on arrays whose elements are symbols; every element of the
result is then a term over these symbols (its value graph). A reference is written here as
another value graph over the same symbols. Two graphs get the same value number if they
agree under a random interpretation of the symbols (Gulwani and Necula: Global value
numbering using random interpretation, POPL 2004). Nothing of the analysed program runs:
what is interpreted are the terms read off its source. A term with a function that has no
interpretation here is 'unknown', which never counts as a difference.
"""
import cmath
import itertools
import math
import random

from .objint import Arr, Top, Obj, term, strides


class Unknown(Exception):
    pass


class Undefined(Exception):
    """no value at this sample point (division by zero, domain error)"""


class S:
    """symbolic scalar of a reference"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t.t if isinstance(t, S) else t if isinstance(t, tuple) else ('const', t)

    def __add__(self, o):
        return S(('op', '+', self.t, S(o).t))

    def __radd__(self, o):
        return S(('op', '+', S(o).t, self.t))

    def __sub__(self, o):
        return S(('op', '-', self.t, S(o).t))

    def __rsub__(self, o):
        return S(('op', '-', S(o).t, self.t))

    def __mul__(self, o):
        return S(('op', '*', self.t, S(o).t))

    def __rmul__(self, o):
        return S(('op', '*', S(o).t, self.t))

    def __truediv__(self, o):
        return S(('op', '/', self.t, S(o).t))

    def __rtruediv__(self, o):
        return S(('op', '/', S(o).t, self.t))

    def __pow__(self, o):
        return S(('op', '**', self.t, S(o).t))

    def __rpow__(self, o):
        return S(('op', '**', S(o).t, self.t))

    def __neg__(self):
        return S(('op', '*', ('const', -1), self.t))

    def __mod__(self, o):
        return S(('op', '%', self.t, S(o).t))


def fn(name):
    return lambda *a: S(('f', name) + tuple(S(x).t for x in a))


sqrt, sin, cos, tan, exp, log, acos, cosh, sinh, tanh, floor, absv = [fn(x) for x in (
    'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'arccos', 'cosh', 'sinh', 'tanh', 'floor', 'abs')]
PI = S(('const', math.pi))


def U(name, *a):
    """uninterpreted function"""
    return S(('f', 'U:' + name) + tuple(S(x).t for x in a))



def red(name, xs):
    return S(('red', name) + tuple(S(x).t for x in xs))


def where(c, a, b):
    return S(('f', 'where', S(c).t, S(a).t, S(b).t))


def lt(a, b):
    return S(('op', '<', S(a).t, S(b).t))


def sym(name, shape):
    """nested lists of symbols"""
    if not shape:
        return S(('el', name))

    def build(pre, rest):
        if not rest:
            return S(('el', name) + pre)
        return [build(pre + (i,), rest[1:]) for i in range(rest[0])]
    return build((), tuple(shape))


def arr(name, shape, dtype='f8'):
    """the same symbols as argument of the analysed function"""
    return Arr(shape, ('src', 'in', name), dtype, [('el', name) + ix for ix in itertools.product(*[range(n) for n in shape])])


def scal(name, kind='float'):
    return Top(('el', name), kind)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [e for y in x for e in flat(y)]
    return [S(x).t]


def shape_of(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if x else ())
    return ()


# -- evaluation --------------------------------------------------------------

def _det(m):
    n = len(m)
    m = [list(r) for r in m]
    d = 1.0
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if m[p][i] == 0:
            return 0.0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for k in range(i + 1, n):
            f = m[k][i] / m[i][i]
            m[k] = [a - f * b for a, b in zip(m[k], m[i])]
    return d


def _solve(m, b):
    n = len(m)
    a = [list(r) + [x] for r, x in zip(m, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(a[k][i]))
        if a[p][i] == 0:
            raise Undefined()
        a[i], a[p] = a[p], a[i]
        for k in range(n):
            if k != i:
                f = a[k][i] / a[i][i]
                a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return [a[i][n] / a[i][i] for i in range(n)]


def _sgn(x):
    return (x > 0) - (x < 0)


def _root(x):
    return cmath.sqrt(x) if isinstance(x, complex) or x < 0 else math.sqrt(x)


def _pow(a, b):
    if not isinstance(a, complex) and a < 0 and b != int(b):
        return complex(a) ** b
    return a ** b


def _m(f, c):
    return lambda x: c(x) if isinstance(x, complex) else f(x)


UN = {
    'sqrt': _root, 'sin': _m(math.sin, cmath.sin), 'cos': _m(math.cos, cmath.cos), 'tan': _m(math.tan, cmath.tan),
    'exp': _m(math.exp, cmath.exp), 'log': _m(math.log, cmath.log), 'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan,
    'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'cosh': _m(math.cosh, cmath.cosh), 'sinh': _m(math.sinh, cmath.sinh),
    'tanh': _m(math.tanh, cmath.tanh), 'abs': abs, 'absolute': abs, 'fabs': abs, 'floor': math.floor, 'ceil': math.ceil, 'log10': math.log10,
    'log2': math.log2, 'round': round, 'rint': round, 'around': round, 'float': lambda x: x if isinstance(x, complex) else float(x), 'int': int,
    'trunc': math.trunc, 'sign': _sgn, 'square': lambda x: x * x, 'negative': lambda x: -x, 'conj': lambda x: x.conjugate(),
    'real': lambda x: x.real, 'imag': lambda x: x.imag, 'degrees': math.degrees, 'radians': math.radians, 'rad2deg': math.degrees,
    'deg2rad': math.radians, 'float64': lambda x: x, 'asarray': lambda x: x, 'array': lambda x: x, 'bool': bool, 'logical_not': lambda x: not x,
    'invert': lambda x: not x, 'isnan': lambda x: x != x, 'isfinite': lambda x: abs(x) < 1e300, 'expm1': math.expm1, 'log1p': math.log1p, 'copy': lambda x: x,
    'erf': math.erf, 'cbrt': math.cbrt, 'arcsinh': math.asinh, 'arccosh': math.acosh, 'arctanh': math.atanh, 'nan_to_num': lambda x: x, 'reciprocal': lambda x: 1.0 / x, 'neg': lambda x: -x, 'not': lambda x: not x, 'angle': cmath.phase,
}
BIN = {
    'fmt': lambda a, b: float(b % a), '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b,
    '%': lambda a, b: a % b, '**': _pow, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
    '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '&': lambda a, b: a and b, '|': lambda a, b: a or b,
    'power': _pow, 'pow': _pow, 'arctan2': math.atan2, 'atan2': math.atan2, 'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b,
    'fmod': math.fmod, 'minimum': min, 'maximum': max, 'hypot': math.hypot, 'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b, 'true_divide': lambda a, b: a / b, 'floor_divide': lambda a, b: a // b,
    'logical_and': lambda a, b: a and b, 'logical_or': lambda a, b: a or b, 'is': lambda a, b: a is b,
}


def _mean(v):
    return sum(v) / len(v)


RED = {
    'sum': sum, 'mean': _mean, 'average': _mean, 'min': min, 'max': max, 'prod': math.prod, 'any': any, 'all': all,
    'norm': lambda v: math.sqrt(sum(abs(x) ** 2 for x in v)), 'std': lambda v: math.sqrt(sum((x - _mean(v)) ** 2 for x in v) / len(v)),
    'var': lambda v: sum((x - _mean(v)) ** 2 for x in v) / len(v), 'cumsum': sum, 'cumprod': math.prod,
    'argmin': lambda v: v.index(min(v)), 'argmax': lambda v: v.index(max(v)),
    'median': lambda v: (sorted(v)[len(v) // 2] + sorted(v)[(len(v) - 1) // 2]) / 2,
}
EXTC = {'math.pi': math.pi, 'numpy.pi': math.pi, 'math.e': math.e, 'numpy.e': math.e, 'numpy.inf': math.inf, 'numpy.nan': math.nan}


class Sample:
    """one random interpretation of the symbols"""

    def __init__(self, seed, ranges=None):
        self.seed = seed
        self.ranges = ranges or {}
        self.memo = {}
        self.keep = []
        self.seen_unknown = set()

    def leaf(self, t):
        key = t[1:]
        r = self.ranges.get(key, self.ranges.get(key[0], (0.2, 0.9)))
        if callable(r):
            return r(key, self)
        rnd = random.Random(repr((self.seed, key)))
        if len(r) == 3:
            return r[2](rnd.randint(r[0], r[1]))
        return rnd.uniform(*r)

    def ev(self, t):
        k = id(t)
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Exception):
                raise v
            return v
        self.keep.append(t)
        try:
            v = self._ev(t)
            if isinstance(v, float) and v != v:
                raise Undefined()
        except (ZeroDivisionError, OverflowError, ValueError) as e:
            self.memo[k] = Undefined(str(e))
            raise self.memo[k]
        except TypeError as e:
            self.memo[k] = Unknown(str(e))
            raise self.memo[k]
        except (Unknown, Undefined) as e:
            self.memo[k] = e
            raise
        self.memo[k] = v
        return v

    def evs(self, ts):
        return [self.ev(x) for x in ts]

    def _ev(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == 'const':
            if t[1] is None or isinstance(t[1], str):
                raise Unknown('const %r' % (t[1],))
            return t[1]
        if k in ('el', 'param'):
            return self.leaf(t)
        if k == 'ext':
            if t[1] in EXTC:
                return EXTC[t[1]]
            raise Unknown(t[1])
        if k == 'dim':
            e = t[1]
            if isinstance(e, int):
                return e
            if isinstance(e, tuple) and e and e[0] == 'nnz':
                return sum(bool(x) for x in self.evs(e[1:]))
            raise Unknown('dim')
        if k == 'op':
            if len(t) == 4:
                if t[1] in ('in', 'not in') and t[2][0] == 'const' and t[3] in (('ext', 'os.environ'), ('ext', 'environ')):
                    # present or not: both are sampled
                    return random.Random(repr((self.seed, t[2]))).random() < 0.5
                if t[1] in BIN:
                    return BIN[t[1]](self.ev(t[2]), self.ev(t[3]))
            elif len(t) == 3 and t[1] in UN:
                return UN[t[1]](self.ev(t[2]))
            elif len(t) == 3 and t[1] == '-':
                return -self.ev(t[2])
            raise Unknown('op %s' % t[1])
        if k == 'unset':
            raise Undefined('memory that is never set')
        if k == 'bool':
            return bool(self.ev(t[1]))
        if k == 'red':
            if t[1] in RED:
                return RED[t[1]](self.evs(t[2:]))
            raise Unknown(t[1])
        if k in ('f', 'call'):
            name = t[1].split('.')[-1]
            a = t[2:]
            if any(isinstance(x, tuple) and x and x[0] == 'kw' for x in a):
                raise Unknown('%s with keywords' % name)
            if name.startswith('U:'):
                return self.generic(name, self.evs(a))
            if name == 'pick':
                i = self.ev(a[0])
                i = int(i.real) if isinstance(i, complex) else int(i)
                if not -(len(a) - 1) <= i < len(a) - 1:
                    raise Undefined('index')
                return self.ev(a[1:][i])
            if name == 'where' and len(a) == 3:
                return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
            if k == 'f' and name in ('inv', 'det', 'solve', 'fft', 'ifft', 'sort', 'argsort'):
                return self.special(name, a)
            if name in UN and len(a) == 1:
                return UN[name](self.ev(a[0]))
            if name == 'fmt' and len(a) == 2 and a[1][0] == 'const' and isinstance(a[1][1], str):
                return float(a[1][1] % self.ev(a[0]))
            if name in BIN and len(a) == 2:
                return BIN[name](self.ev(a[0]), self.ev(a[1]))
            if name == 'clip' and len(a) == 3:
                return min(max(self.ev(a[0]), self.ev(a[1])), self.ev(a[2]))
            raise Unknown(name)
        raise Unknown(str(k))

    def generic(self, name, v):
        """random interpretation of an uninterpreted function: a fixed smooth function of all arguments"""
        rnd = random.Random(repr((self.seed, name, len(v))))
        r = 1.0 + rnd.random()
        for x in v:
            x = complex(x)
            w, p, q = rnd.uniform(0.02, 0.2), rnd.uniform(0.5, 1.5), rnd.uniform(0, 6)
            r += w * math.sin(p * math.log1p(abs(x)) + q) + (w * math.tanh(x.real) + w * math.atan(x.imag))
        return r

    def special(self, name, a):
        if name == 'det':
            n = math.isqrt(len(a))
            v = self.evs(a)
            return _det([v[i * n:i * n + n] for i in range(n)])
        i = a[0][1]
        v = self.evs(a[1:])
        if name == 'inv':
            n = math.isqrt(len(v))
            return _solve([v[r * n:r * n + n] for r in range(n)], [1.0 if r == i % n else 0.0 for r in range(n)])[i // n]
        if name == 'solve':
            n = int((math.isqrt(1 + 4 * len(v)) - 1) // 2)
            return _solve([v[r * n:r * n + n] for r in range(n)], v[n * n:])[i]
        if name in ('fft', 'ifft'):
            n = len(v)
            s = -1 if name == 'fft' else 1
            r = sum(x * cmath.exp(s * 2j * math.pi * i * j / n) for j, x in enumerate(v))
            return r if s < 0 else r / n
        if name == 'sort':
            return sorted(v)[i]
        if name == 'argsort':
            return sorted(range(len(v)), key=lambda j: v[j])[i]
        raise Unknown(name)


def leaves(t, out=None, seen=None):
    """the symbols a term depends on"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if id(t) in seen:
        return out
    seen.add(id(t))
    if isinstance(t, tuple):
        if t and t[0] == 'el':
            out.add(t[1:])
        else:
            for x in t:
                if isinstance(x, tuple):
                    leaves(x, out, seen)
    return out


def close(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a == b:
        return True
    d = abs(a - b)
    return d <= tol * max(abs(a), abs(b)) or d < 1e-300


def elements(v):
    """(shape, terms) of a value of the analysed function, or None"""
    if isinstance(v, Arr):
        if v.data is None or v.shape is None or not all(isinstance(d, int) for d in v.shape):
            return None
        return tuple(v.shape), list(v.data)
    if isinstance(v, Top):
        return (), [v.term]
    if isinstance(v, bool) or isinstance(v, (int, float, complex)):
        return (), [('const', v)]
    if isinstance(v, (list, tuple)):
        subs = [elements(x) for x in v]
        if not subs:
            return (0,), []
        if any(s is None for s in subs):
            return None
        if len({s[0] for s in subs}) == 1:
            return (len(v),) + subs[0][0], [e for s in subs for e in s[1]]
        return ('ragged',), [e for s in subs for e in s[1]]
    return None
