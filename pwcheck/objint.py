"""Abstract interpretation of the object-handling (glue) code of the package.

Domain: names, numbers, strings, lists, dicts, sets and objects of package classes
are kept exactly (with a heap of attributes); arrays are (shape over symbolic
dimensions, provenance term, dtype class, optionally one provenance term per
element); everything else is an unknown value with a provenance term. Calls of
package functions are followed except for `opaque` ones (numeric kernels), which
become terms. A test whose outcome is unknown splits the analysis (trace
partitioning, bounded), repeated occurrences of the same test are consistent.
Loops over unknown or symbolic ranges are analysed with one generic iteration.
Nothing of the analysed code is executed.
"""
import ast
import builtins
import math
import bisect
import itertools
import os
import re
import string

from .model import FunctionInfo, ClassInfo, ModuleInfo, dotted, walk_scope

MAXSTEPS = 60000
MAXPATHS = 80


class Unsupported(Exception):
    pass


class AbsRaise(Exception):
    def __init__(self, name, msg='', node=None):
        Exception.__init__(self, name)
        self.name = name
        self.msg = msg
        self.node = node


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------------------
# values
# ---------------------------------------------------------------------------
class Dim:
    """a symbolic array dimension (generic: different from every constant)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Dim) and o.e == self.e

    def __hash__(self):
        return hash(('Dim', self.e))

    def __repr__(self):
        return 'Dim(%s)' % (self.e,)


class Top:
    """unknown value"""
    def __init__(self, term, kind=None, n=None):
        self.term = term
        self.kind = kind
        self.n = n

    def __repr__(self):
        return 'Top(%s)' % (self.term,)


class DType:
    def __init__(self, name):
        self.name = name


class Arr:
    def __init__(self, shape, term, dtype='f8', data=None):
        self.shape = tuple(shape) if shape is not None else None
        self._term = term
        self.dtype = dtype
        self.data = data
        self.base = None           # (Arr, index) of a view
        self.fill = None           # partial assignments of an empty array
        self.mutated = False

    @property
    def term(self):
        return self._term

    def __repr__(self):
        return 'Arr(%s, %s)' % (self.shape, show(self._term))


class Obj:
    def __init__(self, cls, tag=None):
        self.cls = cls
        self.attrs = {}
        self.tag = tag

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.tag)


class Fn:
    def __init__(self, fi, closure=None):
        self.fi = fi
        self.closure = closure


class Raw:
    """a function below its decorators"""
    def __init__(self, fn):
        self.fn = fn


class Bound:
    def __init__(self, fn, selfv):
        self.fn = fn
        self.selfv = selfv


class Meth:
    """method of a builtin value"""
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Ext:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('Ext', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Cls:
    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(id(self.ci))


class Mod:
    def __init__(self, mi):
        self.mi = mi


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Gen:
    """result of a generator (function or expression)"""
    def __init__(self, items, generic=False):
        self.items = items
        self.generic = generic

    def __repr__(self):
        return 'Gen(%r)' % (self.items,)


class Range:
    """range over a symbolic number"""
    def __init__(self, args):
        self.args = args


class Slice:
    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def full(self):
        return self.start is None and self.stop is None and self.step is None

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.start, self.stop, self.step)


FULL = Slice(None, None, None)


def flagval(v):
    if isinstance(v, Ext) and v.name.startswith('re.') and v.name[3:].isupper():
        return int(getattr(re, v.name[3:], 0))
    return v


def conc(v):
    """value is fully known"""
    if isinstance(v, (Top, Dim, Arr, Obj, Gen, Range)):
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(conc(x) for x in v)
    if isinstance(v, dict):
        return all(conc(x) for x in v.values())
    return True


def term(v):
    if isinstance(v, (Top, Arr)):
        return v.term
    if isinstance(v, Dim):
        return ('dim', v.e)
    if v is None or v is Ellipsis or isinstance(v, (bool, int, float, str, bytes, complex)):
        return ('const', v if v is not Ellipsis else '...')
    if isinstance(v, Slice):
        return ('slice', term(v.start), term(v.stop), term(v.step))
    if isinstance(v, (list, tuple)):
        return ('seq',) + tuple(term(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted((term(x) for x in v), key=repr))
    if isinstance(v, dict):
        return ('dict',) + tuple((k if isinstance(k, str) else repr(k), term(x)) for k, x in v.items())
    if isinstance(v, Obj):
        return ('obj', v.cls.name, v.tag)
    if isinstance(v, Ext):
        return ('ext', v.name)
    if isinstance(v, Cls):
        return ('cls', v.ci.name)
    if isinstance(v, Fn):
        return ('fn', v.fi.qual)
    if isinstance(v, Range):
        return ('range',) + tuple(term(x) for x in v.args)
    if isinstance(v, Gen):
        return ('gen',) + tuple(term(x) for x in v.items)
    if isinstance(v, DType):
        return ('dtype', v.name)
    if isinstance(v, Meth):
        return ('meth', term(v.obj), v.name)
    if isinstance(v, Bound):
        return ('bound', v.fn.fi.qual, term(v.selfv))
    if isinstance(v, Mod):
        return ('mod', v.mi.name)
    return ('?', type(v).__name__)


def show(t, d=4):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d == 0:
        return '..'
    k = t[0]
    if k == 'const':
        return '...' if t[1] == '...' else repr(t[1])
    if k == 'src':
        return '%s.%s' % (t[1], t[2])
    if k == 'param':
        return t[1]
    if k == 'dim':
        return show(t[1], d)
    if k == 'slice':
        if all(x == ('const', None) for x in t[1:]):
            return ':'
        return ':'.join('' if x == ('const', None) else show(x, d - 1) for x in t[1:])
    if k == 'seq':
        return '(' + ', '.join(show(x, d - 1) for x in t[1:]) + ')'
    if k == 'getitem':
        i = t[2]
        return '%s[%s]' % (show(t[1], d - 1), ', '.join(show(x, d - 1) for x in i[1:]) if i[0] == 'seq' else show(i, d - 1))
    if k == 'op':
        if len(t) == 4:
            return '(%s %s %s)' % (show(t[2], d - 1), t[1], show(t[3], d - 1))
        return '%s(%s)' % (t[1], ', '.join(show(x, d - 1) for x in t[2:]))
    if k == 'call':
        return '%s(%s)' % (t[1].split('.')[-1], ', '.join(show(x, d - 1) for x in t[2:]))
    if k == 'kw':
        return '%s=%s' % (t[1], show(t[2], d - 1))
    return '%s(%s)' % (k, ', '.join(show(x, d - 1) for x in t[1:]))


def subterm(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(subterm(y, x) for y in t if isinstance(y, tuple))


def subst(t, f, memo=None):
    memo = {} if memo is None else memo
    if id(t) in memo:
        return memo[id(t)]
    r = f(t)
    if r is None:
        r = t
        if isinstance(t, tuple):
            new = [subst(y, f, memo) if isinstance(y, tuple) else y for y in t]
            if any(x is not y for x, y in zip(new, t)):
                r = tuple(new)
    memo[id(t)] = r
    return r


def sources(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'src':
            out.add((t[1], t[2]))
        else:
            for y in t:
                if isinstance(y, tuple):
                    sources(y, out)
    return out


BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
         ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BUILTINS = {'len', 'list', 'tuple', 'set', 'frozenset', 'dict', 'range', 'enumerate', 'zip', 'sorted', 'reversed', 'isinstance',
            'issubclass', 'hasattr', 'getattr', 'setattr', 'delattr', 'type', 'str', 'repr', 'int', 'float', 'bool', 'abs', 'min',
            'max', 'sum', 'any', 'all', 'map', 'filter', 'iter', 'next', 'print', 'super', 'eval', 'id', 'callable', 'slice',
            'object', 'complex', 'round', 'divmod', 'bytes', 'open', 'vars', 'ord', 'chr', 'hash', 'exec', 'input', 'format',
            'property', 'staticmethod', 'classmethod', 'pow', 'dir', 'globals', 'locals', 'iter', 'NotImplemented', 'Ellipsis'}
FMTSPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0-9.*]*)[hlL]?([diouxXeEfFgGcrsa%])')
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'add', 'update', 'discard', 'clear', 'setdefault',
            'popitem'}
# numpy functions whose result has the shape of the first argument
SAMESHAPE = {'remainder', 'mod', 'sqrt', 'abs', 'absolute', 'exp', 'log', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'floor', 'ceil', 'round',
             'around', 'rint', 'conj', 'real', 'imag', 'sign', 'negative', 'cumsum', 'cumprod', 'sort', 'argsort', 'isnan',
             'isfinite', 'rad2deg', 'deg2rad', 'degrees', 'radians', 'fft', 'ifft', 'roll', 'flip', 'flipud', 'fliplr', 'clip', 'square', 'trunc',
             'power', 'fmod', 'invert', 'logical_not', 'nan_to_num', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'log10',
             'log2', 'log1p', 'expm1', 'cbrt', 'reciprocal', 'fabs', 'isinf', 'angle', 'real_if_close'}
MATHFN = {'acos', 'asin', 'atan', 'atan2', 'arctan2', 'pow', 'cosh', 'sinh', 'tanh', 'log10', 'log2', 'hypot', 'fabs', 'minimum', 'maximum'}
ELEMENTWISE2 = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'logical_and': '&',
                'logical_or': '|', 'power': '**', 'remainder': '%', 'mod': '%', 'floor_divide': '//'}
REDUCE = {'sum', 'mean', 'min', 'max', 'prod', 'std', 'var', 'any', 'all', 'argmin', 'argmax', 'amin', 'amax', 'median', 'average'}


def prod(shape):
    n = 1
    for x in shape:
        n *= x
    return n


def strides(shape):
    out, n = [], 1
    for x in reversed(shape):
        out.append(n)
        n *= x
    return list(reversed(out))


_STORED = {}


def stored_names(m):
    r = _STORED.get(id(m.tree))
    if r is None:
        r = _STORED[id(m.tree)] = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return r


def every_name(m):
    """the builtins and all names bound anywhere in the module"""
    k = (id(m.tree), 'every')
    r = _STORED.get(k)
    if r is None:
        r = set(dir(builtins)) | stored_global(m) | {'__doc__', '__package__', '__spec__'}
        for x in walk_scope(m.tree.body):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                r.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    if a.name == '*':
                        r = Everything()
                        _STORED[k] = r
                        return r
                    r.add((a.asname or a.name).split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
            elif isinstance(x, ast.Global):
                r.update(x.names)
        _STORED[k] = r
    return r


class Everything(set):
    def __contains__(self, x):
        return True


def stored_global(m):
    """names bound at module scope by something else than an import"""
    k = (id(m.tree), 'global')
    r = _STORED.get(k)
    if r is None:
        r = _STORED[k] = {x.id for x in walk_scope(m.tree.body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
            {n for x in ast.walk(m.tree) if isinstance(x, ast.Global) for n in x.names}
    return r


def has_data(a):
    return isinstance(a, Arr) and a.data is not None and a.shape is not None and all(isinstance(d, int) for d in a.shape)


def constval(x):
    """a float that depends on no symbol, as number"""
    if isinstance(x, Top) and x.term[0] in ('op', 'f', 'red', 'call'):
        from . import valnum
        if not valnum.leaves(x.term):
            try:
                v = valnum.Sample(0).ev(x.term)
            except (valnum.Unknown, valnum.Undefined):
                return x
            if type(v) in (int, float):
                return v
    return x


def isstrs(a):
    return has_data(a) and bool(a.data) and all(e[0] == 'const' and isinstance(e[1], str) for e in a.data)


def has_els(a):
    """array with one term per element, not all of them whole numbers"""
    return has_data(a) and any(e[0] not in ('const', 'unset') or e[0] == 'const' and isinstance(e[1], float) for e in a.data)


class Frame:
    def __init__(self, fi, module, env, closure=None, node=None):
        self.fi = fi
        self.module = module
        self.env = env
        self.closure = closure
        self.yields = None
        self.vague = False         # some loop of this call ran for an unknown number of items
        self.node = node


class Interp:
    def __init__(self, prog, opaque=(), models=None, maxpaths=MAXPATHS, inline=None, shapes=None, globs=None):
        self.prog = prog
        self.globs = globs            # () -> {(module, name): value}, made afresh
        self.opaque = set(opaque)
        self.models = models or {}
        self.shapes = shapes or {}   # shapes of opaque results
        self.maxpaths = maxpaths
        self.inline_ok = inline
        self.calls = set()          # functions followed
        self.foreign = set()        # calls that may do input or output and have no model
        self.notes = []
        self.truncated = False

    # -- driver ----------------------------------------------------------
    asserts = False     # assertions may fail (else they are taken to hold)
    whilemax = 1        # iterations with an unknown test
    numtest = None      # decides tests without symbols
    splitmask = False   # x[mask]: one path for every value of the mask

    def explore(self, fn):
        """run fn(self) for every resolution of the unknown tests; yields
        (outcome, value, decisions)"""
        todo = [[]]
        n = 0
        while todo:
            ch = todo.pop()
            n += 1
            if n > self.maxpaths:
                self.truncated = True
                return
            self.choices = list(ch)
            self.pos = 0
            self.facts = {}
            self.path = []
            self.uid = 0
            self.steps = 0
            self.modcache = dict(self.globs()) if self.globs else {}
            if self.texts is not None:
                self.texts = {}
            self.stack = []
            try:
                r = ('ok', fn(self))
            except AbsRaise as e:
                r = ('raise', e)
            except Unsupported as e:
                r = ('unsupported', str(e))
            except RecursionError:
                r = ('unsupported', 'recursion')
            # alternatives of the decisions that were made freshly
            for k in range(len(ch), len(self.choices)):
                todo.append(self.choices[:k] + [not self.choices[k]])
            yield r[0], r[1], list(self.path)

    bounds = None       # name of an input -> (low, high)
    texts = None        # numbers in strings: text -> term, for the ones that stand for an unknown number

    # -- text with unknown numbers: each is written as a number of its own that is read back as the same term
    def num_text(self, v, spec='s'):
        """the text of one formatted value, or None"""
        if isinstance(v, Arr):
            e = v.data[0] if has_data(v) and len(v.data) == 1 and len(v.shape) == 0 else None
            v = None if e is None else e[1] if e[0] == 'const' else Top(e, 'float')
        if isinstance(v, Top) and v.term[0] == 'const':
            v = v.term[1]
        if conc(v) and isinstance(v, (str, int, float, bool)):
            return v
        if not isinstance(v, Top) or v.kind not in ('float', 'int', None):
            return None
        t = v.term
        kind = spec[-1:]
        if kind in 'diu':
            t = ('f', 'int', t)
        elif kind in 'eEfFgG' and not ('.' in spec and spec[spec.index('.') + 1:-1].isdigit() and int(spec[spec.index('.') + 1:-1]) >= 14 and kind in 'eEgG'):
            t = ('f', 'fmt', t, ('const', '%' + spec))
        elif kind not in 'srdiueEfFgG' and kind:
            return None
        for k, q in self.texts.items():
            if q == t:
                return k
        n = len(self.texts)
        k = '7.%012d' % (104729 + 7919 * n) if kind not in 'diu' else '7%011d' % (104729 + 7919 * n)
        self.texts[k] = t
        return k

    def fmt_text(self, a, b):
        args = list(b) if isinstance(b, tuple) else b if isinstance(b, dict) else [b]
        out, pos, k = [], 0, 0
        for m in FMTSPEC.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(0).endswith('%'):
                out.append('%')
                continue
            if '*' in m.group(2):
                return None
            if m.group(1) is not None:
                if not isinstance(args, dict) or m.group(1) not in args:
                    return None
                v = args[m.group(1)]
            else:
                if isinstance(args, dict):
                    return None
                if k >= len(args):
                    raise AbsRaise('TypeError', 'not enough arguments for format string', None)
                v = args[k]
                k += 1
            x = self.num_text(v, m.group(2) + m.group(3))
            if x is None:
                return None
            if not (isinstance(x, str) and x in self.texts):
                try:
                    x = ('%' + m.group(2) + m.group(3)) % (x,)
                except (TypeError, ValueError):
                    raise AbsRaise('TypeError', 'format', None)
            out.append(x)
        if not isinstance(args, dict) and k != len(args):
            raise AbsRaise('TypeError', 'not all arguments converted', None)
        out.append(a[pos:])
        return ''.join(out)

    def format_text(self, o, args, kws):
        out, k = [], 0
        for lit, field, spec, convn in string.Formatter().parse(o):
            out.append(lit)
            if field is None:
                continue
            if convn or not (field == '' or field.isidentifier() or field.isdigit()) or '{' in (spec or ''):
                return None
            if field == '':
                if k >= len(args):
                    return None
                v = args[k]
                k += 1
            elif field.isdigit():
                if int(field) >= len(args):
                    return None
                v = args[int(field)]
            elif field in kws:
                v = kws[field]
            else:
                return None
            x = self.num_text(v, spec or 's')
            if x is None:
                return None
            if not (isinstance(x, str) and x in self.texts):
                try:
                    x = format(x, spec)
                except (TypeError, ValueError):
                    return None
            out.append(x)
        return ''.join(out)

    def text_num(self, s, kind='float'):
        """the value of a text that stands for an unknown number, or None"""
        if self.texts is None or not isinstance(s, str):
            return None
        s = s.strip()
        t = self.texts.get(s)
        if t is None and s[:1] in '+-' and s[1:] in self.texts:
            t = self.texts[s[1:]] if s[0] == '+' else ('neg', self.texts[s[1:]])
        return None if t is None else Top(t, kind)


    def bound_of(self, t):
        if t[0] == 'const' and isinstance(t[1], (int, float)):
            return t[1], t[1]
        if t[0] == 'el':
            r = self.bounds.get(t[1:], self.bounds.get(t[1]))
            return r if isinstance(r, tuple) else None
        return None

    def decide(self, t, node=None):
        if t[0] == 'op' and t[1] == 'not':
            return not self.decide(t[2], node)
        if t in self.facts:
            return self.facts[t]
        if self.numtest is not None:
            # a test of numbers only
            v = self.numtest(t)
            if v is not None:
                return v
        if self.bounds and t[0] == 'op' and len(t) == 4 and t[1] in ('<', '<=', '>', '>='):
            a, b = self.bound_of(t[2]), self.bound_of(t[3])
            if a and b:
                if a[1] < b[0]:
                    return t[1] in ('<', '<=')
                if b[1] < a[0]:
                    return t[1] in ('>', '>=')
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = True
            self.choices.append(v)
        self.pos += 1
        self.facts[t] = v
        self.path.append((t, v))
        return v

    def fresh(self, what='v'):
        self.uid += 1
        return '%s%d' % (what, self.uid)

    # -- truth -----------------------------------------------------------
    def truth(self, v, node=None):
        if isinstance(v, Dim):
            return True
        if isinstance(v, Top):
            return self.decide(v.term, node)
        if isinstance(v, Arr):
            return self.decide(('bool', v.term), node)
        if isinstance(v, (Obj, Fn, Bound, Meth, Ext, Cls, Mod, Gen, DType, Slice)):
            return True
        if isinstance(v, Range):
            return True
        return bool(v)

    # -- functions -------------------------------------------------------
    def call_fn(self, fn, args, kws, node=None, selfv=None):
        fi = fn.fi
        if len(self.stack) > 40:
            raise Unsupported('call depth')
        n = fi.node
        a = n.args
        args = list(args)
        if selfv is not None:
            args = [selfv] + args
        env = {}
        fr = Frame(fi, fi.module, env, fn.closure, node)
        pos = [x.arg for x in a.posonlyargs + a.args]
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            raise AbsRaise('TypeError', 'too many arguments for %s' % fi.qual, node)
        kw = dict(kws)
        for k in list(kw):
            if k in pos or k in fi.kwonly:
                if k in env:
                    raise AbsRaise('TypeError', 'multiple values for %s' % k, node)
                env[k] = kw.pop(k)
        if kw and not a.kwarg:
            raise AbsRaise('TypeError', 'unexpected keyword %s for %s' % (sorted(kw)[0], fi.qual), node)
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            env[a.kwarg.arg] = kw
        dfr = fn.closure or Frame(None, fi.module, {}, None)
        for name, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if name not in env:
                env[name] = self.ev(d, dfr)
        for name in pos + fi.kwonly:
            if name not in env:
                raise AbsRaise('TypeError', 'missing argument %s of %s' % (name, fi.qual), node)
        self.calls.add(fi)
        self.stack.append(fr)
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, fr)
            if fi.is_gen:
                fr.yields = []
            try:
                self.block(n.body, fr)
                r = None
            except _Return as e:
                r = e.v
            if fi.is_gen:
                return Gen(fr.yields, fr.vague)
            return r
        finally:
            self.stack.pop()

    def new(self, ci, args, kws, node=None, tag=None):
        o = Obj(ci, tag or self.fresh('obj'))
        init = ci.find('__init__')
        if init is not None:
            self.call_fn(Fn(init), args, kws, node, o)
        elif (args or kws) and not ci.has_ext_base():
            raise AbsRaise('TypeError', '%s takes no arguments' % ci.name, node)
        return o

    # -- statements ------------------------------------------------------
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, n, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported('too many steps')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        m(n, fr)

    def s_Expr(self, n, fr):
        self.ev(n.value, fr)

    def s_Pass(self, n, fr):
        pass

    def s_Return(self, n, fr):
        raise _Return(self.ev(n.value, fr) if n.value is not None else None)

    def s_Break(self, n, fr):
        raise _Break()

    def s_Continue(self, n, fr):
        raise _Continue()

    def s_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def s_AugAssign(self, n, fr):
        op = BINOP[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.name(t, fr)
            v = self.ev(n.value, fr)
            fr.env[t.id] = self.inplace(op, cur, v, n)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr, t)
            v = self.ev(n.value, fr)
            self.setattr(o, t.attr, self.inplace(op, cur, v, n), n)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.getitem(o, i, t)
            v = self.ev(n.value, fr)
            self.setitem(o, i, self.binop(op, cur, v, n), n)
        else:
            raise Unsupported('augassign')

    def inplace(self, op, cur, v, node):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v, node)
            if isinstance(r, Arr) and r.term == cur.term and r.data == cur.data:
                return cur
            self.mutate(cur, r.term if isinstance(r, Arr) else term(r), r.data if isinstance(r, Arr) else None)
            return cur
        if isinstance(cur, list) and op == '+':
            if isinstance(v, (list, tuple)):
                cur.extend(v)
                return cur
            raise Unsupported('list +=')
        if isinstance(cur, set) and isinstance(v, (set, frozenset)):
            r = self.binop(op, cur, v, node)
            cur.clear()
            cur.update(r)
            return cur
        return self.binop(op, cur, v, node)

    def mutate(self, arr, t, data=None):
        arr._term = t
        arr.data = data
        arr.mutated = True
        arr.fill = None
        if arr.base is not None:
            b, i = arr.base
            self.store(b, i, Arr(arr.shape, t, arr.dtype, data))

    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs:
                        raise AbsRaise('AttributeError', t.attr, n)
                    del o.attrs[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.ev(t.slice, fr)
                if isinstance(o, (dict, list)) and conc(i):
                    try:
                        del o[i]
                    except (KeyError, IndexError):
                        raise AbsRaise('KeyError', repr(i), n)
                else:
                    raise Unsupported('del')

    def s_If(self, n, fr):
        if self.truth(self.ev(n.test, fr), n.test):
            self.block(n.body, fr)
        else:
            self.block(n.orelse, fr)

    def s_Assert(self, n, fr):
        v = self.ev(n.test, fr)
        if isinstance(v, (Top, Arr)):
            if self.asserts and (isinstance(v, Top) or has_data(v) and len(v.data) == 1):
                if not self.decide(v.term if isinstance(v, Top) else v.data[0], n):
                    raise AbsRaise('AssertionError', '', n)
                return
            t = v.term if isinstance(v, Top) else ('bool', v.term)
            self.facts[t] = True
            return
        if not self.truth(v):
            raise AbsRaise('AssertionError', '', n)

    def s_Raise(self, n, fr):
        if n.exc is None:
            raise AbsRaise('Exception', '', n)
        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        raise AbsRaise((dotted(e) or 'Exception').split('.')[-1], '', n)

    def s_Try(self, n, fr):
        try:
            try:
                self.block(n.body, fr)
            except AbsRaise as e:
                for h in n.handlers:
                    names = []
                    if h.type is not None:
                        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append((dotted(x) or '').split('.')[-1])
                    if h.type is None or e.name in names or 'Exception' in names or 'BaseException' in names or \
                            ('LookupError' in names and e.name in ('KeyError', 'IndexError')):
                        if h.name:
                            fr.env[h.name] = Top(('exc', e.name))
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(n.orelse, fr)
        finally:
            self.block(n.finalbody, fr)

    def s_With(self, n, fr):
        for it in n.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(n.body, fr)

    def s_FunctionDef(self, n, fr):
        fi = fr.module.fn_by_node.get(n)
        if fi is None:
            raise Unsupported('nested def')
        fr.env[n.name] = Fn(fi, fr)

    def s_ClassDef(self, n, fr):
        ci = fr.module.fn_by_node.get(n)
        fr.env[n.name] = Cls(ci)

    def s_Import(self, n, fr):
        for name, t in self.prog.import_targets(fr.module, n):
            fr.env[name] = self.entity(t, name)

    s_ImportFrom = s_Import

    def s_Global(self, n, fr):
        raise Unsupported('global')

    s_Nonlocal = s_Global

    def s_For(self, n, fr):
        it = self.ev(n.iter, fr)
        items, generic = self.iterate(it, n)
        fr.vague = fr.vague or generic
        broke = False
        for x in items:
            self.assign(n.target, x, fr)
            try:
                self.block(n.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(n.orelse, fr)

    def s_While(self, n, fr):
        k = 0
        while True:
            v = self.ev(n.test, fr)
            if isinstance(v, (Top, Arr)):
                if k >= self.whilemax:
                    if self.whilemax > 1:
                        raise Unsupported('more than %d iterations of a loop' % self.whilemax)
                    fr.vague = True
                    break
                k += 1
            if not self.truth(v):
                self.block(n.orelse, fr)
                break
            try:
                self.block(n.body, fr)
            except _Break:
                break
            except _Continue:
                continue
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise Unsupported('too many steps')

    # -- iteration -------------------------------------------------------
    def iterate(self, v, node=None):
        """(items, generic): generic items stand for every element"""
        if isinstance(v, (list, tuple)):
            return list(v), False
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr), False
        if isinstance(v, dict):
            return list(v), False
        if isinstance(v, str):
            return list(v), False
        if isinstance(v, range):
            return list(v), False
        if isinstance(v, Gen):
            return list(v.items), v.generic
        if isinstance(v, Range):
            return [Top(('loopvar', term(v), self.fresh('i')), 'int')], True
        if isinstance(v, Arr):
            if v.shape and isinstance(v.shape[0], int) and v.shape[0] <= 40:
                return [self.getitem(v, i, node) for i in range(v.shape[0])], False
            i = Top(('loopvar', ('len', v.term), self.fresh('i')), 'int')
            return [self.getitem(v, i, node)], True
        if isinstance(v, Top):
            return [Top(('elem', v.term))], True
        if isinstance(v, Obj):
            f = v.cls.find('__iter__')
            if f is not None:
                r = self.call_fn(Fn(f), [], {}, node, v)
                if isinstance(r, Gen):
                    return r.items, r.generic
                if isinstance(r, Obj) and r.cls.find('__next__'):
                    # one generic step
                    return [Top(('elem', term(v)))], True
            return [Top(('elem', term(v)))], True
        if v is None or isinstance(v, (int, float)):
            raise AbsRaise('TypeError', 'iteration over %s' % type(v).__name__, node)
        raise Unsupported('iteration over %s' % type(v).__name__)

    # -- assignment ------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            if isinstance(v, (list, tuple)):
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                    after = k - i - 1
                    vs = list(v)
                    parts = vs[:i] + [vs[i:len(vs) - after]] + vs[len(vs) - after:]
                    for x, y in zip(t.elts, parts):
                        self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                    return
                if len(v) != k:
                    raise AbsRaise('ValueError', 'unpack', t)
                for x, y in zip(t.elts, v):
                    self.assign(x, y, fr)
            elif isinstance(v, Arr) and v.shape:
                if isinstance(v.shape[0], int) and v.shape[0] != k:
                    raise AbsRaise('ValueError', 'unpack', t)
                for i, x in enumerate(t.elts):
                    self.assign(x, self.getitem(v, i, t), fr)
            elif isinstance(v, (Top, Arr)):
                for i, x in enumerate(t.elts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Top(('getitem', v.term, ('const', i))), fr)
            elif isinstance(v, Gen):
                self.assign(t, list(v.items), fr)
            else:
                raise Unsupported('unpack %s' % type(v).__name__)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('target')

    def setattr(self, o, name, v, node=None):
        if isinstance(o, Obj):
            p = o.cls.find(name)
            if p is not None and any(d and d.endswith('.setter') for d in p.deco_names):
                self.call_fn(Fn(p), [v], {}, node, o)
                return
            o.attrs[name] = v
        elif isinstance(o, Arr) and name == 'shape':
            o.shape = tuple(v) if isinstance(v, (list, tuple)) else None
        elif isinstance(o, Top):
            pass
        else:
            raise Unsupported('setattr on %s' % type(o).__name__)

    # -- names -----------------------------------------------------------
    def name(self, n, fr):
        f = fr
        while f is not None:
            if n.id in f.env:
                return f.env[n.id]
            f = f.closure
        if fr.fi is not None and n.id in fr.fi.local_names():
            raise AbsRaise('UnboundLocalError', n.id, n)
        r = self.prog.module_attr(fr.module, n.id)
        if r is not None:
            return self.entity(r, n.id)
        if n.id not in every_name(fr.module) and not fr.module.path.endswith('.txt'):
            raise AbsRaise('NameError', n.id, n)
        return self.module_var(fr.module, n.id)

    def module_var(self, m, name):
        key = (m.name, name)
        if key in self.modcache:
            return self.modcache[key]
        vals = [s.value for s in m.tree.body if isinstance(s, ast.Assign)
                and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)]
        v = None
        imp = m.imports.get(name)
        if not vals and isinstance(imp, tuple) and imp[0] == 'attr' and imp[1] is not m and name not in stored_global(m):
            # a variable imported from another module of the program
            v = self.modcache[key] = self.module_var(imp[1], imp[2])
            return v
        if len(vals) == 1:
            self.modcache[key] = Top(('global', m.name + '.' + name))
            try:
                v = self.ev(vals[0], Frame(None, m, {}, None))
            except (Unsupported, AbsRaise):
                v = Top(('global', m.name + '.' + name))
        elif vals or name in stored_names(m):
            v = Top(('global', m.name + '.' + name))
            self.modcache[key] = v
            if not vals:
                v = self.chosen(m, name, v)
        elif name in BUILTINS or name[:1].isupper():
            v = Ext(name)
        elif name in ('__name__', '__file__'):
            v = Top(('global', name), 'str')
        else:
            # names of star imports of outside modules
            v = Ext(m.name + '.' + name) if any(isinstance(s, ast.ImportFrom) and s.names[0].name == '*'
                                                for s in m.tree.body) else Ext(name)
        self.modcache[key] = v
        return v

    def entity(self, r, name):
        if isinstance(r, FunctionInfo):
            return Fn(r)
        if isinstance(r, ClassInfo):
            return Cls(r)
        if isinstance(r, ModuleInfo):
            return Mod(r)
        if isinstance(r, str):
            return Ext(r)
        if isinstance(r, tuple) and r and r[0] == 'attr':
            return self.module_var(r[1], r[2])
        return Top(('global', name))

    # -- attributes ------------------------------------------------------
    def chosen(self, m, name, v):
        """a name that is bound in one branch of an if statement of the module"""
        sets = lambda body: [s for s in body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)]
        ifs = [s for s in m.tree.body if isinstance(s, ast.If) and (sets(s.body) or sets(s.orelse))]
        if len(ifs) != 1 or any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(m.tree)):
            return v
        try:
            t = self.ev(ifs[0].test, Frame(None, m, {}, None))
            if not isinstance(t, bool):
                return v
            l = sets(ifs[0].body if t else ifs[0].orelse)
            return self.ev(l[-1].value, Frame(None, m, {}, None)) if l else v
        except (Unsupported, AbsRaise):
            return v

    def class_attr(self, ci, name):
        def val(c, s, e):
            # names of the class body come first
            env = {}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id != name and x.id not in env:
                    for q in c.node.body:
                        if q is s:
                            break
                        if isinstance(q, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in q.targets):
                            env[x.id] = val(c, q, q.value)
            return self.ev(e, Frame(None, c.module, env, None))
        for c in ci.mro():
            for s in c.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return True, val(c, s, s.value)
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    return True, val(c, s, s.value)
            if name in c.methods:
                return False, None
        return False, None

    def getattr(self, o, name, node=None):
        if name == 'eps' and isinstance(o, (Top, Arr)) and o.term == ('call', 'numpy.finfo', ('ext', 'float')):
            return 2.220446049250313e-16
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return Cls(o.cls)
            if name == '__dict__':
                return o.attrs
            m = o.cls.find(name)
            if m is not None:
                if m.is_static():
                    return Fn(m)
                if m.is_classmethod():
                    return Bound(Fn(m), Cls(o.cls))
                if 'property' in m.deco_names:
                    return self.call_fn(Fn(m), [], {}, node, o)
                if any((d or '').split('.')[-1] in ('lazyprop', 'cached_property') for d in m.deco_names):
                    v = self.call_fn(Fn(m), [], {}, node, o)
                    o.attrs[name] = v
                    return v
                return Bound(Fn(m), o)
            ok, v = self.class_attr(o.cls, name)
            if ok:
                return v
            if o.cls.has_ext_base():
                return Top(('attr', term(o), name))
            raise AbsRaise('AttributeError', '%s.%s' % (o.cls.name, name), node)
        if isinstance(o, Top) and o.term[0] == 'flags' and name.lower() in ('f_contiguous', 'c_contiguous', 'fnc', 'forc'):
            # the memory order of an argument is the caller's choice
            return True if name == 'forc' else Top(('op', '>=' if name[0].lower() == 'c' else '<', ('el', 'order of ' + o.term[1]), ('const', 1.25)), 'bool')
        if isinstance(o, Top) and o.kind in ('float', 'int', 'complex') and name in ('ndim', 'shape', 'size'):
            return {'ndim': 0, 'shape': (), 'size': 1}[name]
        if isinstance(o, Arr):
            if name == 'shape':
                return o.shape if o.shape is not None else Top(('attr', o.term, 'shape'), 'shape')
            if name == 'ndim':
                return len(o.shape) if o.shape is not None else Top(('attr', o.term, 'ndim'), 'int')
            if name == 'T':
                return self.transpose(o, None)
            if name == 'dtype':
                return DType(o.dtype)
            if name == 'size':
                if o.shape is not None and all(isinstance(x, int) for x in o.shape):
                    return prod(o.shape)
                return Dim(('size', o.term))
            if name == 'flags' and o.term[:2] == ('src', 'in'):
                return Top(('flags', o.term[2]))
            if name in ('nbytes', 'itemsize') and o.shape is not None and all(isinstance(x, int) for x in o.shape):
                b = {'bool': 1, 'c16': 16, 'f4': 4, 'i4': 4}.get(o.dtype, 8)
                return b if name == 'itemsize' else b * prod(o.shape)
            if name in ('real', 'imag'):
                return Arr(o.shape, ('call', 'numpy.' + name, o.term), o.dtype, [('f', name, e) for e in o.data] if has_els(o) else None)
            return Meth(o, name)
        if isinstance(o, DType):
            if name == 'kind':
                return o.name[0]
            return Top(('attr', ('dtype', o.name), name))
        if isinstance(o, Mod):
            r = self.prog.module_attr(o.mi, name)
            if r is not None:
                return self.entity(r, name)
            return self.module_var(o.mi, name)
        if isinstance(o, Cls):
            ok, v = self.class_attr(o.ci, name)
            if ok:
                return v
            m = o.ci.find(name)
            if m is not None:
                if m.is_classmethod():
                    return Bound(Fn(m), o)
                return Fn(m)
            if name == '__name__':
                return o.ci.name
            return Top(('attr', term(o), name))
        if isinstance(o, Ext):
            if o.name in ('numpy', 'scipy'):
                if name == 'newaxis':
                    return None
                if name in ('pi', 'e', 'inf'):
                    return getattr(math, name)
            return Ext(o.name + '.' + name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.methods:
                    return Bound(Fn(c.methods[name]), o.obj)
            return Ext('object.' + name)
        if isinstance(o, Slice):
            return getattr(o, name)
        if isinstance(o, Top):
            if o.kind in ('list', 'dict', 'str', 'set'):
                return Meth(o, name)
            return Top(('attr', o.term, name))
        if isinstance(o, (str, list, tuple, dict, set, frozenset, bytes, int, float, range)):
            if not hasattr(o, name):
                raise AbsRaise('AttributeError', '%s.%s' % (type(o).__name__, name), node)
            if isinstance(o, (int, float)) and name in ('real', 'imag'):
                return getattr(o, name)
            return Meth(o, name)
        if isinstance(o, Fn):
            if name == '__name__':
                return o.fi.name
            return Top(('attr', term(o), name))
        if isinstance(o, Dim):
            return Meth(o, name)
        if isinstance(o, (re.Pattern, re.Match)):
            if not hasattr(o, name):
                raise AbsRaise('AttributeError', name, node)
            v = getattr(o, name)
            return Meth(o, name) if callable(v) else v
        if o is None:
            raise AbsRaise('AttributeError', 'None.%s' % name, node)
        if isinstance(o, Gen):
            return Meth(o, name)
        return Top(('attr', term(o), name))

    def hasattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs or o.cls.find(name) is not None or self.class_attr(o.cls, name)[0]:
                return True
            return Top(('hasattr', term(o), name)) if o.cls.has_ext_base() else False
        if isinstance(o, Arr):
            return name in ('copy', 'shape', 'ndim', 'dtype', 'T', '__len__', '__iter__', '__getitem__', 'tolist', 'mean', 'sum')
        if isinstance(o, Top):
            if o.kind == 'list':
                return hasattr([], name)
            if o.kind == 'dict':
                return hasattr({}, name)
            if o.kind == 'str':
                return hasattr('', name)
            if o.kind in ('float', 'int'):
                return hasattr(0.0, name)
            return Top(('hasattr', o.term, name), 'bool')
        if isinstance(o, Dim):
            return hasattr(0, name)
        if isinstance(o, (Ext, Fn, Meth, Bound, Mod, Cls)):
            return Top(('hasattr', term(o), name), 'bool')
        return hasattr(o, name)

    # -- indexing --------------------------------------------------------
    def norm_index(self, i, ndim):
        """index as a list with one entry per axis / None, or None"""
        items = list(i) if isinstance(i, tuple) else [i]
        if isinstance(i, list) and any(isinstance(x, Slice) or x is None or x is Ellipsis for x in i):
            # numpy >= 1.23: a list is an index array, never a sequence of slices
            raise AbsRaise('IndexError', 'list of slices as index', None)
        n = sum(1 for x in items if x is not None and x is not Ellipsis)
        for x in items:
            if isinstance(x, Arr) and x.dtype == 'bool' and x.shape is not None and len(x.shape) > 1:
                return None
        k = [j for j, x in enumerate(items) if x is Ellipsis]
        if len(k) > 1 or n > ndim:
            return None
        if k:
            items[k[0]:k[0] + 1] = [FULL] * (ndim - n)
        else:
            items += [FULL] * (ndim - n)
        return items

    def index_term(self, i):
        if isinstance(i, tuple):
            return ('seq',) + tuple(term(x) for x in i)
        return ('seq', term(i))

    def getitem(self, o, i, node=None):
        r = self.getitem_(o, i, node)
        if isinstance(o, Arr) and self.texts is not None:
            # one string of an array of strings
            e = r.term if isinstance(r, Top) else r.data[0] if isinstance(r, Arr) and r.shape == () and has_data(r) else None
            if isinstance(e, tuple) and e[0] == 'const' and isinstance(e[1], str):
                return e[1]
        return r

    def getitem_(self, o, i, node=None):
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, bool) or isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise AbsRaise('IndexError', '', node)
            if isinstance(i, Slice):
                if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    return o[i.start:i.stop:i.step]
            if isinstance(i, (Top, Dim, Slice)):
                return Top(('getitem', term(o), term(i)))
            raise AbsRaise('TypeError', 'index', node)
        if isinstance(o, dict):
            if conc(i):
                try:
                    if i in o:
                        return o[i]
                except TypeError:
                    raise Unsupported('unhashable key')
                raise AbsRaise('KeyError', repr(i), node)
            return Top(('getitem', term(o), term(i)))
        if isinstance(o, Obj):
            f = o.cls.find('__getitem__')
            if f is not None:
                return self.call_fn(Fn(f), [i], {}, node, o)
            return Top(('getitem', term(o), term(i)))
        if isinstance(o, Arr):
            return self.arr_getitem(o, i, node)
        if isinstance(o, Top) and o.kind in ('float', 'int') and isinstance(i, tuple) and i and all(x is None for x in i):
            return Arr((1,) * len(i), ('getitem', o.term, term(i)), 'f8', [o.term])
        if isinstance(o, Top):
            return Top(('getitem', o.term, term(i)), 'int' if o.kind == 'shape' and not isinstance(i, Slice) else
                       'shape' if o.kind == 'shape' else None)
        if isinstance(o, range) and isinstance(i, int):
            return o[i]
        if isinstance(o, Ext):
            if o.name.split('.')[-1] in ('s_', 'index_exp'):
                return i
            return Top(('getitem', term(o), term(i)))
        if o is None:
            raise AbsRaise('TypeError', 'None[]', node)
        if isinstance(o, Gen):
            raise AbsRaise('TypeError', 'generator[]', node)
        return Top(('getitem', term(o), term(i)))

    def slice_range(self, s, n):
        """range of the indices of slice s on an axis of known size n, or None"""
        if all(x is None or (isinstance(x, int) and not isinstance(x, bool)) for x in (s.start, s.stop, s.step)):
            return range(*slice(s.start, s.stop, s.step).indices(n))
        return None

    def slice_dim(self, s, d):
        if s.full():
            return d
        if isinstance(d, int):
            r = self.slice_range(s, d)
            if r is not None:
                return len(r)
        return Dim(('len', d.e if isinstance(d, Dim) else d, term(s)))

    def arr_getitem(self, o, i, node):
        t = ('getitem', o.term, self.index_term(i))
        if o.shape is None:
            items = list(i) if isinstance(i, tuple) else [i]
            return Arr(None, t, o.dtype)
        if self.splitmask and isinstance(i, Arr) and i.dtype == 'bool' and has_data(i) and i.shape and len(i.shape) == 1 and \
                len(i.data) <= 6 and o.shape[:1] == i.shape:
            return self.arr_getitem(o, [k for k, e in enumerate(i.data) if (bool(e[1]) if e[0] == 'const' else self.decide(e, node))], node)
        if isinstance(i, Arr) and i.dtype == 'bool' and has_data(i) and has_data(o) and i.shape == o.shape:
            r = Arr((Dim(('masked', 0, i.term)),), t, o.dtype)
            r.masked = (i.term, list(o.data))
            return r
        idx = self.norm_index(i, len(o.shape))
        if idx is None:
            nd = sum(1 for x in (i if isinstance(i, tuple) else (i,)) if x is not None and x is not Ellipsis)
            if nd > len(o.shape) and not any(isinstance(x, (Top, Arr)) for x in (i if isinstance(i, tuple) else (i,))):
                raise AbsRaise('IndexError', 'too many indices', node)
            return Arr(None, t, o.dtype)
        idx = [[k for k, e in enumerate(x.data) if e[1]] if isinstance(x, Arr) and x.dtype == 'bool' and has_data(x) and x.shape is not None and
               len(x.shape) == 1 and all(e[0] == 'const' for e in x.data) else x for x in idx]
        idx = [[e[1] for e in x.data] if isinstance(x, Arr) and x.dtype != 'bool' and x.data is not None and x.shape is not None and
               len(x.shape) == 1 and all(e[0] == 'const' and type(e[1]) is int for e in x.data) else x for x in idx]
        shape, sel, fancy, known = [], [], False, True
        ax = 0
        for x in idx:
            if x is None:
                shape.append(1)
                continue
            d = o.shape[ax]
            ax += 1
            if isinstance(x, Slice):
                shape.append(self.slice_dim(x, d))
                r = self.slice_range(x, d) if isinstance(d, int) else None
                sel.append(list(r) if r is not None else None)
            elif isinstance(x, (int, Dim)) and not isinstance(x, bool):
                if isinstance(x, int) and isinstance(d, int) and not -d <= x < d:
                    raise AbsRaise('IndexError', '', node)
                sel.append(x)
            elif isinstance(x, Top):
                if x.kind == 'int' or x.kind is None:
                    sel.append(None)
                else:
                    known = False
            elif isinstance(x, Arr):
                fancy = True
                if x.shape is not None and len(x.shape) == 1:
                    shape.append(Dim(('masked', d.e if isinstance(d, Dim) else d, x.term)) if x.dtype == 'bool' else x.shape[0])
                else:
                    known = False
                sel.append(None)
            elif isinstance(x, (list, tuple)):
                fancy = True
                if all(isinstance(y, int) and not isinstance(y, bool) for y in x):
                    shape.append(len(x))
                    sel.append(list(x))
                else:
                    shape.append(len(x))
                    sel.append(None)
            else:
                known = False
        if not known:
            return Arr(None, t, o.dtype)
        nf = sum(1 for x in idx if isinstance(x, (Arr, list, tuple)))
        if nf > 1:
            # joint fancy indices
            fl = [x for x in idx if isinstance(x, (list, tuple))]
            if nf == len(fl) == len(o.shape) and len(set(map(len, fl))) == 1 and o.data is not None and \
                    all(isinstance(s, list) for s in sel):
                st = strides(o.shape)
                data = [o.data[sum((s[k] % n) * q for s, n, q in zip(sel, o.shape, st))] for k in range(len(fl[0]))]
                return Arr((len(fl[0]),), t, o.dtype, data)
            if nf == len(fl) and len(set(map(len, fl))) == 1:
                shape2 = [len(fl[0])]
                ax = 0
                for x in idx:
                    if x is None:
                        shape2.append(1)
                        continue
                    d = o.shape[ax]
                    ax += 1
                    if isinstance(x, Slice):
                        shape2.append(self.slice_dim(x, d))
                data = None
                # x[:, [..], [..]]: adjacent at the end, or at the front
                pos = [j for j, x in enumerate(y for y in idx if y is not None) if isinstance(x, (list, tuple))]
                if o.data is not None and all(isinstance(d, int) for d in o.shape) and not any(x is None for x in idx) \
                        and all(isinstance(s, (list, int)) for s in sel) and pos == list(range(pos[0], pos[0] + len(pos))):
                    st = strides(o.shape)
                    pre = [s if isinstance(s, list) else [s] for s in sel[:pos[0]]]
                    post = [s if isinstance(s, list) else [s] for s in sel[pos[-1] + 1:]]
                    data = []
                    shp = [len(s) for s in sel[:pos[0]] if isinstance(s, list)] + [len(fl[0])] + \
                          [len(s) for s in sel[pos[-1] + 1:] if isinstance(s, list)]
                    for a in itertools.product(*pre):
                        for k in range(len(fl[0])):
                            mid = [sel[p][k] for p in pos]
                            for b in itertools.product(*post):
                                full = list(a) + mid + list(b)
                                data.append(o.data[sum((v % n) * q for v, n, q in zip(full, o.shape, st))])
                    return Arr(shp, t, o.dtype, data)
                return Arr(None, t, o.dtype)
            return Arr(None, t, o.dtype)
        data = None
        tops = [k for k, x in enumerate(y for y in idx if y is not None) if isinstance(x, Top) and x.kind == 'int']
        if len(tops) == 1 and has_els(o) and not fancy and all(isinstance(s, (list, int)) or k in tops for k, s in enumerate(sel)) and \
                len(sel) == len(o.shape) and 0 < o.shape[tops[0]] < 20:
            # the element at a computed place
            k0 = tops[0]
            it = [x for x in idx if x is not None][k0].term
            st = strides(o.shape)
            lists = [s if isinstance(s, list) else [s] for s in sel[:k0] + [0] + sel[k0 + 1:]]
            data = []
            for c in itertools.product(*lists):
                b = sum((v % n) * q for v, n, q in zip(c, o.shape, st))
                data.append(('f', 'pick', it) + tuple(o.data[b + j * st[k0]] for j in range(o.shape[k0])))
            if not shape:
                return Top(data[0], 'float')
        elif o.data is not None and all(isinstance(d, int) for d in o.shape) and all(isinstance(s, (list, int)) for s in sel):
            st = strides(o.shape)
            lists = [s if isinstance(s, list) else [s] for s in sel]
            data = [o.data[sum((v % n) * q for v, n, q in zip(c, o.shape, st))] for c in itertools.product(*lists)]
        if not shape and all(isinstance(s, int) for s in sel) and data is not None:
            d = data[0]
            if isinstance(d, tuple) and len(d) == 2 and d[0] == 'const' and type(d[1]) in (int, float, bool):
                return d[1]
            return d if not (isinstance(d, tuple) and d) else Top(d, 'float')
        r = Arr(shape, t, o.dtype, data)
        if not fancy:
            r.base = (o, i)
        if not shape:
            return Top(t, 'float')
        return r

    def setitem(self, o, i, v, node=None):
        if isinstance(o, list):
            if isinstance(i, int):
                try:
                    o[i] = v
                    return
                except IndexError:
                    raise AbsRaise('IndexError', '', node)
            if isinstance(i, Slice) and conc(v) and isinstance(v, (list, tuple)):
                o[i.start:i.stop:i.step] = v
                return
            raise Unsupported('list store')
        if isinstance(o, dict):
            if conc(i):
                o[i] = v
                return
            o[repr(term(i))] = v
            return
        if isinstance(o, Arr):
            self.store(o, i, v, node)
            return
        if isinstance(o, Obj):
            f = o.cls.find('__setitem__')
            if f is not None:
                self.call_fn(Fn(f), [i, v], {}, node, o)
                return
        if isinstance(o, Top):
            o.term = ('store', o.term, term(i), term(v))
            return
        raise Unsupported('setitem on %s' % type(o).__name__)

    def elems_of(self, v, shape):
        """elements of v broadcast to shape (known sizes), or None"""
        if isinstance(v, Arr):
            if v.data is None or v.shape is None:
                return None
            vs, vd = list(v.shape), v.data
        elif isinstance(v, (list, tuple)):
            a = self.mkarray(v)
            if a is None or a.data is None:
                return None
            vs, vd = list(a.shape), a.data
        elif isinstance(v, (int, float, complex, str)):
            vs, vd = [], [('const', v)]
        elif isinstance(v, Top):
            vs, vd = [], [v.term]
        else:
            return None
        while len(vs) > len(shape) and vs[0] == 1:
            vs = vs[1:]
        if len(vs) > len(shape):
            return None
        vs = [1] * (len(shape) - len(vs)) + vs
        for a, b in zip(vs, shape):
            if a != b and a != 1:
                return None
        st = strides(vs)
        out = []
        for c in itertools.product(*[range(n) for n in shape]):
            out.append(vd[sum((0 if n == 1 else k) * q for k, n, q in zip(c, vs, st))])
        return out

    def store(self, o, i, v, node=None):
        it = self.index_term(i)
        vt = term(v)
        old = o.term
        # element-wise
        data = None
        if isinstance(i, Arr) and i.dtype == 'bool' and has_data(i) and has_data(o) and i.shape == o.shape:
            ev = None
            if getattr(v, 'masked', None) is not None and v.masked[0] == i.term:
                ev = v.masked[1]
            elif not isinstance(v, (Arr, list, tuple)):
                ev = self.elems_of(v, o.shape)
            if ev is not None:
                data = [('f', 'where', m, e, x) for m, e, x in zip(i.data, ev, o.data)]
        elif o.data is not None and o.shape is not None and all(isinstance(d, int) for d in o.shape):
            idx = self.norm_index(i, len(o.shape))
            if idx is not None and not any(x is None for x in idx):
                sel, ok, fl = [], True, []
                for x, d in zip(idx, o.shape):
                    if isinstance(x, Slice):
                        r = self.slice_range(x, d)
                        ok = ok and r is not None
                        sel.append(list(r) if r is not None else None)
                    elif isinstance(x, int) and not isinstance(x, bool):
                        if not -d <= x < d:
                            raise AbsRaise('IndexError', '', node)
                        sel.append(x)
                    elif isinstance(x, (list, tuple)) and all(isinstance(y, int) and not isinstance(y, bool) for y in x):
                        sel.append(list(x))
                        fl.append(len(sel) - 1)
                    else:
                        ok = False
                if ok:
                    st = strides(o.shape)
                    if len(fl) > 1:
                        if fl == list(range(fl[0], fl[0] + len(fl))) and len({len(sel[p]) for p in fl}) == 1:
                            m = len(sel[fl[0]])
                            pre = [s if isinstance(s, list) else [s] for s in sel[:fl[0]]]
                            post = [s if isinstance(s, list) else [s] for s in sel[fl[-1] + 1:]]
                            pos = [list(a) + [sel[p][k] for p in fl] + list(b) for a in itertools.product(*pre)
                                   for k in range(m) for b in itertools.product(*post)]
                            shp = [len(s) for s in sel[:fl[0]] if isinstance(s, list)] + [m] + \
                                  [len(s) for s in sel[fl[-1] + 1:] if isinstance(s, list)]
                        else:
                            pos = None
                    else:
                        lists = [s if isinstance(s, list) else [s] for s in sel]
                        pos = [list(c) for c in itertools.product(*lists)]
                        shp = [len(s) for s in sel if isinstance(s, list)]
                    if pos is not None:
                        if isinstance(v, Arr) and v.shape is not None and all(isinstance(x, int) for x in list(v.shape) + shp):
                            vs = list(v.shape)
                            while len(vs) > len(shp) and vs[0] == 1:
                                vs = vs[1:]
                            if len(vs) > len(shp) or any(p != q and p != 1 for p, q in zip(vs[::-1], shp[::-1])):
                                raise AbsRaise('ValueError', 'could not broadcast %s into %s' % (tuple(v.shape), tuple(shp)), node)
                        ev = self.elems_of(v, shp)
                        if ev is None and isinstance(v, Arr) and v.shape is not None and all(isinstance(x, int) for x in v.shape):
                            ev = [('getitem', vt, ('const', k)) for k in range(len(pos))]
                        if ev is not None:
                            data = list(o.data)
                            for p, e in zip(pos, ev):
                                data[sum((k % n) * q for k, n, q in zip(p, o.shape, st))] = e
        fill = o.fill
        if old[0] == 'empty' or fill is not None:
            # every part of an empty array is filled in the same way?
            whole = subst(vt, lambda t: t[1] if len(t) == 3 and t[0] == 'getitem' and t[2] == it else None)
            if fill is None:
                fill = (whole, frozenset([it]))
            elif fill[0] == whole:
                fill = (whole, fill[1] | {it})
            else:
                fill = None
        new = ('store', old, it, vt)
        if vt == ('getitem', old, it) and data == o.data:
            return                  # a part of the array stored where it came from
        if fill is not None and self.covered(fill[1], o.shape):
            new = fill[0]
        elif self.all_full(it):
            new = vt
        o._term = new
        o.data = data
        o.fill = fill
        o.mutated = True
        if o.base is not None:
            b, bi = o.base
            self.store(b, bi, Arr(o.shape, new, o.dtype, data), node)

    def all_full(self, it):
        n = ('const', None)
        return all(x == ('slice', n, n, n) or x == ('const', '...') for x in it[1:])

    def covered(self, idxs, shape):
        if shape is None:
            return False
        n = ('const', None)
        full = ('slice', n, n, n)
        rows = []
        for it in idxs:
            items = list(it[1:])
            if ('const', '...') in items:
                k = items.index(('const', '...'))
                items[k:k + 1] = [full] * (len(shape) - len(items) + 1)
            items += [full] * (len(shape) - len(items))
            if len(items) != len(shape):
                return False
            rows.append(items)
        axes = []
        for k, d in enumerate(shape):
            vals = {r[k] for r in rows}
            if len(vals) == 1:
                v = next(iter(vals))
                if v == full:
                    axes.append([v])
                    continue
                if v[0] == 'loopvar' and v[1] == ('range', term(d)):
                    axes.append([v])
                    continue
            if isinstance(d, int):
                need = [('const', j) for j in range(d)]
                if all(x in vals for x in need):
                    axes.append(need)
                    continue
            return False
        have = {tuple(r) for r in rows}
        return all(c in have for c in itertools.product(*axes))

    # -- arrays ----------------------------------------------------------
    def transpose(self, o, axes):
        t = ('call', 'T', o.term) if axes is None else ('call', 'transpose', o.term, term(axes))
        if o.shape is None:
            return Arr(None, t, o.dtype)
        nd = len(o.shape)
        ax = list(reversed(range(nd))) if axes is None else [a % nd for a in axes]
        if nd == 1:
            return o
        shape = [o.shape[a] for a in ax]
        data = None
        if o.data is not None and all(isinstance(d, int) for d in o.shape):
            st = strides(o.shape)
            data = [o.data[sum(c[k] * st[a] for k, a in enumerate(ax))] for c in itertools.product(*[range(n) for n in shape])]
        r = Arr(shape, t, o.dtype, data)
        return r

    def mkarray(self, v, dtype='f8'):
        """np.array of nested sequences"""
        if isinstance(v, Arr):
            return Arr(v.shape, v.term, v.dtype, list(v.data) if v.data is not None else None)
        if isinstance(v, Gen):
            return Arr((), ('call', 'object', term(v)))
        if isinstance(v, Top):
            return None
        if isinstance(v, (list, tuple)):
            subs = [Arr((), x.term, dtype, [x.term]) if isinstance(x, Top) and x.kind in ('float', 'int') else self.mkarray(x) for x in v]
            t = ('seq',) + tuple(term(x) for x in v)
            if not subs:
                return Arr((0,), t, dtype, [])
            if any(s is None for s in subs):
                if all(isinstance(x, Top) and x.kind in ('float', 'int') for x in v):
                    return Arr((len(v),), t, dtype, [x.term for x in v])
                if all(isinstance(x, (Top, int, float)) for x in v) and all(x.kind in ('float', 'int') for x in v if isinstance(x, Top)):
                    return Arr((len(v),), t, dtype, [term(x) for x in v])
                if all(isinstance(x, Top) and x.kind == 'list' and x.n is not None for x in v) and len({x.n for x in v}) == 1:
                    return Arr((len(v), v[0].n), t, dtype)
                return Arr(None, t, dtype)
            shapes = {s.shape for s in subs}
            if len(shapes) == 1 and None not in shapes:
                sh = (len(v),) + subs[0].shape
                data = None
                if all(s.data is not None for s in subs):
                    data = [e for s in subs for e in s.data]
                return Arr(sh, t, dtype, data)
            return Arr(None, t, dtype)
        if isinstance(v, (int, float, complex, bool)):
            return Arr((), ('const', v), dtype, [('const', v)])
        if isinstance(v, str):
            return Arr((), ('const', v), 'str', [('const', v)])
        if isinstance(v, Dim):
            return Arr((), term(v), 'i8', [term(v)])
        if isinstance(v, range):
            return Arr((len(v),), ('range', len(v)), 'i8', [('const', x) for x in v])
        return Arr(None, ('call', 'array', term(v)), dtype)

    def bshape(self, a, b):
        if a is None or b is None:
            return None
        n = max(len(a), len(b))
        a = (1,) * (n - len(a)) + tuple(a)
        b = (1,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if x == y or y == 1:
                out.append(x)
            elif x == 1:
                out.append(y)
            elif isinstance(x, int) and isinstance(y, int):
                return 'mismatch'
            else:
                return None
        return tuple(out)

    def binop(self, op, a, b, node=None):
        if op == '%' and isinstance(a, str) and self.texts is not None and isinstance(b, (Arr, Top)):
            r = self.fmt_text(a, b)
            if r is not None:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = self.mkarray(a)
            if isinstance(b, (list, tuple)):
                b = self.mkarray(b)
            if isinstance(a, (Obj, str, dict, set)) or isinstance(b, (Obj, str, dict, set)) or a is None or b is None:
                raise AbsRaise('TypeError', 'operand', node)
            sa = a.shape if isinstance(a, Arr) else ()
            sb = b.shape if isinstance(b, Arr) else ()
            if isinstance(a, Top) and a.kind not in ('float', 'int', None):
                sa = None
            t = ('op', op, term(a), term(b))
            if op == '@':
                return self.dot(a, b)
            s = self.bshape(sa, sb)
            if s == 'mismatch':
                raise AbsRaise('ValueError', 'shapes %s and %s' % (sa, sb), node)
            dt = 'bool' if op in ('&', '|', '^') and all(not isinstance(x, Arr) or x.dtype == 'bool' for x in (a, b)) else 'f8'
            data = None
            if s is not None and all(isinstance(d, int) for d in s):
                da, db = self.elems_of(a, s), self.elems_of(b, s)
                if da is not None and db is not None:
                    data = [self.fold(op, x, y) for x, y in zip(da, db)]
            for x, y in ((a, b), (b, a)):
                if op == '*' and isinstance(x, Arr) and x.term == ('call', 'ones') and len(x.shape or ()) == 1 and isinstance(y, (Top, int, float)):
                    t = ('call', 'repeat', term(y), term(x.shape[0]), ('const', 0))
            # neutral elements
            if op in ('*', '/', '+', '-') and isinstance(a, Arr) and isinstance(b, (int, float)) and b == (1 if op in '*/' else 0):
                t = a.term
            elif op in ('*', '+') and isinstance(b, Arr) and isinstance(a, (int, float)) and a == (1 if op == '*' else 0):
                t = b.term
            r = Arr(s, t, dt, data)
            for x, y in ((a, b), (b, a)):
                m = getattr(x, 'masked', None)
                if m is not None and isinstance(y, (Top, int, float)):
                    r.masked = (m[0], [self.fold(op, *((e, term(y)) if x is a else (term(y), e))) for e in m[1]])
            return r
        if op == '*' and isinstance(a, (list, tuple)) and isinstance(b, (Dim, Top)) or \
                op == '*' and isinstance(b, (list, tuple)) and isinstance(a, (Dim, Top)):
            x, k = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            n = self.dimop('*', len(x), k) if isinstance(k, Dim) else Dim(('val', k.term)) if len(x) == 1 else None
            r = Top(('call', 'repeat', x and term(x[0]), term(k), ('const', 0)) if len(x) == 1 else ('op', '*', term(x), term(k)), 'list', n)
            r.item = x[0] if len(x) == 1 else None
            return r
        if isinstance(a, (Top, Dim)) or isinstance(b, (Top, Dim)):
            return self.dimop(op, a, b)
        if isinstance(a, Obj):
            name = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(op)
            f = a.cls.find(name) if name else None
            if f is not None:
                return self.call_fn(Fn(f), [b], {}, node, a)
            return Top(('op', op, term(a), term(b)))
        if op == '%' and isinstance(a, str) and self.texts is not None and not conc(b):
            r = self.fmt_text(a, b)
            if r is not None:
                return r
        if op == '%' and isinstance(a, str) and isinstance(b, tuple) and not conc(b):
            b = tuple(constval(x) for x in b)
        if op == '%' and isinstance(a, str):
            if conc(b) and not any(isinstance(x, (Fn, Ext, Cls, Mod, Bound, Meth, Slice, DType)) for x in (b if isinstance(b, tuple) else (b,))):
                try:
                    return a % (b if isinstance(b, tuple) else (b,)) if not isinstance(b, dict) else a % b
                except (TypeError, ValueError):
                    raise AbsRaise('TypeError', 'format', node)
            return Top(('op', '%', ('const', a), term(b)), 'str')
        if isinstance(a, (Ext, Fn, Cls, Mod, Bound, Gen, Meth, Range)) or isinstance(b, (Ext, Fn, Cls, Mod, Bound, Gen, Meth, Range)):
            return Top(('op', op, term(a), term(b)))
        try:
            return eval_binop(op, a, b)
        except ZeroDivisionError:
            raise AbsRaise('ZeroDivisionError', '', node)
        except TypeError:
            raise AbsRaise('TypeError', 'operand', node)
        except (ValueError, OverflowError):
            return Top(('op', op, term(a), term(b)))

    def foldcmp(self, op, x, y):
        if x[0] == y[0] == 'const' and type(x[1]) in (int, float, str) and type(y[1]) in (int, float, str) and (
                (type(x[1]) is str) == (type(y[1]) is str) or op in ('==', '!=')):
            a, b = x[1], y[1]
            return ('const', {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]())
        return ('op', op, x, y)

    def fold(self, op, x, y):
        if x[0] == 'const' and y[0] == 'const' and isinstance(x[1], (int, float)) and isinstance(y[1], (int, float)):
            try:
                return ('const', eval_binop(op, x[1], y[1]))
            except (ZeroDivisionError, TypeError, OverflowError, ValueError):
                pass
        return ('op', op, x, y)

    def dimop(self, op, a, b):
        num = (int, float)
        if isinstance(a, Dim) or isinstance(b, Dim):
            if all(isinstance(x, (Dim, int)) and not isinstance(x, bool) for x in (a, b)):
                if op in ('+', '-') and isinstance(b, int):
                    k = b if op == '+' else -b
                    if isinstance(a.e, tuple) and a.e[0] == 'shift':
                        k += a.e[2]
                        base = a.e[1]
                    else:
                        base = a.e
                    return Dim(('shift', base, k)) if k else Dim(base)
                if op == '+' and isinstance(a, int):
                    return self.dimop('+', b, a)
                if op == '+':
                    return Dim(('sum', a.e, b.e))
                if op == '-' and a == b:
                    return 0
                if op == '*' and (a == 1 or b == 1):
                    return b if a == 1 else a
                if op == '*':
                    x, y = [z.e if isinstance(z, Dim) else z for z in (a, b)]
                    return Dim(('mul',) + tuple(sorted((x, y), key=repr)))
                if op == '//' and isinstance(a, Dim):
                    if isinstance(a.e, tuple) and a.e[0] == 'mul':
                        y = b.e if isinstance(b, Dim) else b
                        rest = list(a.e[1:])
                        if y in rest:
                            rest.remove(y)
                            return Dim(rest[0]) if not isinstance(rest[0], int) else rest[0]
                    return Dim(('div', a.e, b.e if isinstance(b, Dim) else b))
        ka = 'float' if any(isinstance(x, num) or (isinstance(x, Top) and x.kind in ('float', 'int')) or isinstance(x, Dim)
                            for x in (a, b)) else None
        for x in (a, b):
            if isinstance(x, Top) and x.kind in ('list', 'str') and op in ('+', '*', '%'):
                ka = x.kind
        return Top(('op', op, term(a), term(b)), ka)

    def compare(self, op, a, b, node=None):
        if op in ('is', 'is not'):
            r = self.is_(a, b)
            if isinstance(r, Top):
                return r if op == 'is' else Top(('op', 'not', r.term), 'bool')
            return r if op == 'is' else not r
        if op in ('in', 'not in'):
            r = self.contains(b, a, node)
            if isinstance(r, Top):
                return r if op == 'in' else Top(('op', 'not', r.term), 'bool')
            return r if op == 'in' else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            s = self.bshape(a.shape if isinstance(a, Arr) else (), b.shape if isinstance(b, Arr) else ())
            data = None
            if s is not None and s != 'mismatch' and all(isinstance(d, int) for d in s) and (has_els(a) or has_els(b) or self.splitmask or isstrs(a) or isstrs(b)):
                da, db = self.elems_of(a, s), self.elems_of(b, s)
                if da is not None and db is not None:
                    data = [self.foldcmp(op, x, y) for x, y in zip(da, db)]
            return Arr(None if s == 'mismatch' else s, ('op', op, term(a), term(b)), 'bool', data)
        if op in ('==', '!='):
            r = self.eq(a, b)
            if isinstance(r, Top):
                return r if op == '==' else Top(('op', 'not', r.term), 'bool')
            return r if op == '==' else not r
        # ordering
        if isinstance(a, Dim) and isinstance(b, (int, float)):
            return op in ('>', '>=')
        if isinstance(b, Dim) and isinstance(a, (int, float)):
            return op in ('<', '<=')
        if isinstance(a, Dim) and a == b:
            return op in ('<=', '>=')
        if conc(a) and conc(b) and isinstance(a, (int, float, str, tuple, list, set, frozenset)) and isinstance(b, (int, float, str, tuple, list, set, frozenset)):
            try:
                return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
            except TypeError:
                raise AbsRaise('TypeError', 'ordering', node)
        return Top(('op', op, term(a), term(b)), 'bool')

    def is_(self, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Top) and o.kind is None:
                return Top(('op', 'is', o.term, ('const', None)), 'bool')
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            o = b if isinstance(a, bool) else a
            if isinstance(o, Top):
                return Top(('op', 'is', term(a), term(b)), 'bool')
            return False
        if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            return a == b
        if isinstance(a, Top) or isinstance(b, Top):
            return True if a is b else Top(('op', 'is', term(a), term(b)), 'bool')
        return a is b

    def eq(self, a, b):
        if isinstance(a, (Top,)) or isinstance(b, (Top,)):
            if isinstance(a, Top) and isinstance(b, Top) and a.term == b.term:
                return True
            if (a is None or b is None) and (a if b is None else b).kind is not None:
                return False
            return Top(('op', '==', term(a), term(b)), 'bool')
        if isinstance(a, Dim) or isinstance(b, Dim):
            return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            un = None
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if isinstance(r, Top):
                    un = r
                elif not r:
                    return False
            return un if un is not None else True
        if isinstance(a, DType) or isinstance(b, DType):
            x, y = [self.dtname(z) for z in (a, b)]
            if x is None or y is None:
                return Top(('op', '==', term(a), term(b)), 'bool')
            return x == y
        if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            return a == b
        if isinstance(a, (Obj, Fn, Bound, Meth, Mod, Gen)) or isinstance(b, (Obj, Fn, Bound, Meth, Mod, Gen)):
            return a is b
        if isinstance(a, Slice) or isinstance(b, Slice):
            return isinstance(a, Slice) and isinstance(b, Slice) and term(a) == term(b)
        try:
            return a == b
        except Exception:
            return Top(('op', '==', term(a), term(b)), 'bool')

    def dtname(self, v):
        if isinstance(v, DType):
            return v.name
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            return {'float32': 'f4', 'float64': 'f8', 'float': 'f8', 'double': 'f8', 'int': 'i8', 'int64': 'i8', 'bool': 'bool'}.get(n)
        if isinstance(v, str):
            return {'float32': 'f4', 'float64': 'f8', 'float': 'f8', 'f8': 'f8', 'f4': 'f4', 'int': 'i8'}.get(v)
        return None

    def contains(self, c, x, node):
        if isinstance(c, (list, tuple, set, frozenset)):
            un = None
            for y in c:
                r = self.eq(x, y) if not (x is None or y is None) else self.is_(x, y)
                if isinstance(r, Top):
                    un = r
                elif r:
                    return True
            if un is not None:
                return Top(('op', 'in', term(x), term(c)), 'bool')
            return False
        if isinstance(c, dict):
            if conc(x):
                return x in c
            return Top(('op', 'in', term(x), term(c)), 'bool')
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        if isinstance(c, Gen) and not c.generic:
            return self.contains(list(c.items), x, node)
        if c is None:
            raise AbsRaise('TypeError', 'in None', node)
        return Top(('op', 'in', term(x), term(c)), 'bool')

    # -- expressions -----------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.name(n, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr, n)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return list(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        vals = self.elts(n.elts, fr)
        if not all(isinstance(x, (str, int, float, tuple, type(None))) for x in vals):
            return Top(('set',) + tuple(term(x) for x in vals), 'set')
        return set(vals)

    def elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                items, generic = self.iterate(self.ev(e.value, fr), e)
                if generic:
                    raise Unsupported('* of an unknown sequence')
                out.extend(items)
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, fr)
            if k is None:
                if isinstance(vv, dict):
                    d.update(vv)
                else:
                    raise Unsupported('** of an unknown dict')
                continue
            kk = self.ev(k, fr)
            if not conc(kk):
                kk = repr(term(kk))
            try:
                d[kk] = vv
            except TypeError:
                raise Unsupported('dict key')
        return d

    def e_Slice(self, n, fr):
        return Slice(*[self.ev(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Subscript(self, n, fr):
        if isinstance(n.value, ast.Attribute) and n.value.attr == 'flat':
            o = self.ev(n.value.value, fr)
            o = self.arr_method(o, 'ravel', [], {}, n) if isinstance(o, Arr) else self.getattr(o, 'flat', n.value)
        else:
            o = self.ev(n.value, fr)
        return self.getitem(o, self.ev(n.slice, fr), n)

    def e_Starred(self, n, fr):
        raise Unsupported('*')

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(BINOP[type(n.op)], a, b, n)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Top):
                return Top(('op', 'not', v.term), 'bool')
            if isinstance(v, Arr):
                return Top(('op', 'not', ('bool', v.term)), 'bool')
            return not self.truth(v)
        op = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: '~'}[type(n.op)]
        if isinstance(v, Arr):
            if op == 'pos':
                return v
            data = None
            if v.data is not None:
                data = [('op', op, e) if e[0] != 'const' else ('const', -e[1]) for e in v.data] if op == 'neg' else \
                    [('op', 'not', e) if e[0] != 'const' else ('const', not e[1]) for e in v.data] if v.dtype == 'bool' and has_data(v) else None
            return Arr(v.shape, ('op', op, v.term), v.dtype, data)
        if op == 'pos':
            return v
        if isinstance(v, (Top, Dim)):
            return Top(('op', op, term(v)), v.kind if isinstance(v, Top) else 'int')
        if op == 'neg':
            return -v
        if op == 'pos':
            return v
        return ~v

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v, e)
            if isand and not t:
                return False if isinstance(v, (Top, Arr)) else v
            if not isand and t:
                return v
        return v

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, fr)
            r = self.compare(CMP[type(op)], a, b, n)
            if len(n.ops) == 1:
                return r
            if isinstance(r, (Top, Arr)):
                if not self.truth(r):
                    return False
            elif not r:
                return False
            a = b
        return res

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr), n.test) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return Fn(fr.module.fn_by_node[n], fr)

    def e_JoinedStr(self, n, fr):
        out, ok, ts = [], True, []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
                ts.append(('const', v.value))
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                ts.append(term(x))
                if self.texts is not None and isinstance(x, (Top, Arr)) and isinstance(spec, str):
                    x = self.num_text(x, spec or 's')
                    if x is None:
                        ok = False
                        continue
                    if isinstance(x, str) and x in self.texts:
                        out.append(x)
                        continue
                if conc(x) and isinstance(x, (str, int, float)) and isinstance(spec, str):
                    if v.conversion == 114:
                        x = repr(x)
                    try:
                        out.append(format(x, spec))
                    except ValueError:
                        ok = False
                else:
                    ok = False
        return ''.join(out) if ok else Top(('fstr',) + tuple(ts), 'str')

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        fr.env[n.target.id] = v
        return v

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        f = fr
        while f is not None and f.yields is None:
            f = f.closure
        if f is not None:
            f.yields.append(v)
        return None

    def e_YieldFrom(self, n, fr):
        items, g = self.iterate(self.ev(n.value, fr), n)
        fr.yields.extend(items)
        fr.vague = fr.vague or g
        return None

    def e_Await(self, n, fr):
        raise Unsupported('await')

    def comp(self, n, fr, elt):
        """list of (element, generic) of a comprehension"""
        f = Frame(fr.fi, fr.module, {}, fr, n)
        out = []
        generic = [False]
        lens = []
        self.complen = None

        def rec(k):
            if k == len(n.generators):
                out.append(elt(f))
                return
            g = n.generators[k]
            src = self.ev(g.iter, f if k else fr)
            items, gen = self.iterate(src, n)
            generic[0] = generic[0] or gen
            if gen and len(n.generators) == 1 and not g.ifs and len(items) == 1:
                if isinstance(src, Range) and len(src.args) == 1:
                    cl = src.args[0]
                else:
                    cl = self.b_len([src], {}, n, f) if isinstance(src, (Arr, Top)) else None
                lens.append((cl, term(items[0])))
            for x in items:
                self.assign(g.target, x, f)
                ok = True
                for c in g.ifs:
                    v = self.ev(c, f)
                    if gen and isinstance(v, (Top, Arr)):
                        continue
                    if not self.truth(v):
                        ok = False
                        break
                if ok:
                    rec(k + 1)
        rec(0)
        self.complen = lens[0] if len(lens) == 1 and len(out) == 1 else None
        return out, generic[0]

    def src_of(self, n, fr):
        return ('comp', n.lineno)

    def e_ListComp(self, n, fr):
        out, g = self.comp(n, fr, lambda f: self.ev(n.elt, f))
        if g:
            r = Top(('map',) + tuple(term(x) for x in out), 'list')
            if self.complen is not None and self.complen[0] is not None:
                n, x = self.complen
                if isinstance(n, (Dim, int)):
                    r.n = n
                t = term(out[0])
                if not subterm(t, x):
                    r.term = ('call', 'repeat', t, term(n), ('const', 0))
                    r.item = out[0]
                    if r.n is None:
                        r.n = Dim(('val', term(n)))
            return r
        return out

    def e_GeneratorExp(self, n, fr):
        out, g = self.comp(n, fr, lambda f: self.ev(n.elt, f))
        return Gen(out, g)

    def e_SetComp(self, n, fr):
        out, g = self.comp(n, fr, lambda f: self.ev(n.elt, f))
        if g or not all(isinstance(x, (str, int, float, tuple, type(None))) for x in out):
            return Top(('setof',) + tuple(term(x) for x in out), 'set')
        return set(out)

    def e_DictComp(self, n, fr):
        out, g = self.comp(n, fr, lambda f: (self.ev(n.key, f), self.ev(n.value, f)))
        if g or not all(conc(k) for k, v in out):
            return Top(('mapd',) + tuple((term(k), term(v)) for k, v in out), 'dict')
        return dict(out)

    # -- calls -----------------------------------------------------------
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in fr.env:
            return self.super_(n, fr)
        f = self.ev(n.func, fr)
        args, kws = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                items, g = self.iterate(self.ev(a.value, fr), a)
                if g:
                    return Top(('call', '*', term(f)))
                args.extend(items)
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    kws.update(v)
                elif isinstance(v, Top):
                    kws['**'] = v
                else:
                    raise Unsupported('**')
            else:
                kws[k.arg] = v
        return self.call(f, args, kws, n, fr)

    def super_(self, n, fr):
        f = fr
        while f.closure is not None and f.fi is not None and f.fi.cls is None:
            f = f.closure
        fi = f.fi
        if fi is None or fi.cls is None:
            raise Unsupported('super')
        if n.args:
            c = self.ev(n.args[0], fr)
            o = self.ev(n.args[1], fr)
            return Super(c.ci if isinstance(c, Cls) else fi.cls, o)
        return Super(fi.cls, f.env[fi.posargs[0]])

    def opaque_call(self, name, args, kws, shape=None):
        t = ('call', name) + tuple(term(x) for x in args) + tuple(('kw', k, term(v)) for k, v in sorted(kws.items()))
        return t

    def call(self, f, args, kws, node, fr=None):
        if isinstance(f, Raw):
            return self.call_fn(f.fn, args, kws, node)
        if isinstance(f, Bound):
            if isinstance(f.selfv, Obj) and '**' in kws:
                kws = {k: v for k, v in kws.items() if k != '**'}
            return self.fncall(f.fn, args, kws, node, f.selfv)
        if isinstance(f, Fn):
            return self.fncall(f, args, kws, node, None)
        if isinstance(f, Cls):
            kws.pop('**', None)
            k = '%s.%s' % (f.ci.module.name, f.ci.name)
            if k in self.models:
                return self.models[k](self, list(args), kws, node)
            return self.new(f.ci, args, kws, node)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kws, node)
        if isinstance(f, Ext):
            return self.ext(f.name, args, kws, node, fr)
        if isinstance(f, Obj):
            c = f.cls.find('__call__')
            if c is not None:
                return self.call_fn(Fn(c), args, kws, node, f)
        if f is None:
            raise AbsRaise('TypeError', 'call of None', node)
        return Top(('call', show(term(f))) + tuple(term(x) for x in args) +
                   tuple(('kw', k, term(v)) for k, v in sorted(kws.items())))

    def fncall(self, fn, args, kws, node, selfv):
        fi = fn.fi
        for key in (fi.fq, fi.name):
            if key in self.models:
                return self.models[key](self, args if selfv is None else [selfv] + list(args), kws, node)
        if fi.fq in self.opaque or (self.inline_ok is not None and not self.inline_ok(fi, args, kws)):
            # arguments in the order of the signature
            pos = fi.posargs
            a2, k2 = list(args if selfv is None else [selfv] + list(args)), dict(kws)
            for i in range(len(a2), len(pos)):
                if pos[i] in k2:
                    a2.append(k2.pop(pos[i]))
                else:
                    break
            t = ('call', fi.fq) + tuple(term(x) for x in a2) + tuple(('kw', k, term(v)) for k, v in sorted(k2.items()))
            sh = self.shapes.get(fi.fq)
            return Arr(sh(a2, k2) if sh else None, t)
        kws.pop('**', None)
        if fi.decorators and selfv is None and self.texts is not None and fi.cls is None:
            f = fn
            for d in reversed(fi.decorators):
                w = self.prog.resolve_expr(fi.module, d)
                if isinstance(w, FunctionInfo) and any(isinstance(x, ast.FunctionDef) for x in w.node.body):
                    f = self.call_fn(Fn(w), [f if f is not fn else Raw(fn)], {}, node)
            if f is not fn:
                return self.call(f, args, kws, node)
        return self.call_fn(fn, args, kws, node, selfv)

    # -- methods of builtin values ---------------------------------------
    def method(self, o, name, args, kws, node):
        if isinstance(o, Arr):
            return self.arr_method(o, name, args, kws, node)
        if isinstance(o, (Top, Dim, Gen)):
            if isinstance(o, Top) and o.kind in ('list', 'dict', 'set') and name == 'copy':
                return Top(o.term, o.kind, o.n)
            if isinstance(o, Top) and o.kind == 'list' and name in ('count', 'index'):
                return Top(('call', name, o.term) + tuple(term(x) for x in args), 'int')
            if isinstance(o, Top) and o.kind == 'dict' and name in ('items', 'keys', 'values'):
                return Top(('call', name, o.term))
            if isinstance(o, Top) and o.kind == 'list' and name in MUTATORS:
                o.term = ('upd', name, o.term) + tuple(term(x) for x in args)
                return None
            if name.startswith(('write', 'put', 'dump', 'save', 'to')):
                self.foreign.add('.' + name)
            return Top(('call', '.' + name, term(o)) + tuple(term(x) for x in args))
        if isinstance(o, dict):
            if name == 'get':
                k = args[0]
                if conc(k):
                    return o.get(k, args[1] if len(args) > 1 else None)
                return Top(('getitem', term(o), term(k)))
            if name == 'items':
                return [(k, v) for k, v in o.items()]
            if name == 'values':
                return list(o.values())
            if name == 'keys':
                return list(o.keys())
            if name == 'copy':
                return dict(o)
            if name == 'update':
                for a in args:
                    if isinstance(a, dict):
                        o.update(a)
                    elif isinstance(a, (list, tuple)):
                        o.update(dict(a))
                    else:
                        raise Unsupported('dict.update')
                o.update(kws)
                return None
        if isinstance(o, list):
            if name == 'append':
                o.append(args[0])
                return None
            if name == 'extend':
                items, g = self.iterate(args[0], node)
                if g:
                    raise Unsupported('extend by an unknown sequence')
                o.extend(items)
                return None
            if name == 'copy':
                return list(o)
            if name == 'insert' and isinstance(args[0], int):
                o.insert(args[0], args[1])
                return None
            if name in ('sort', 'reverse') and not conc(o):
                raise Unsupported('sort')
        if isinstance(o, set) and name in ('add', 'discard', 'remove'):
            if not conc(args[0]):
                raise Unsupported('set of unknown values')
        if isinstance(o, (set, frozenset)) and name in ('union', 'intersection', 'difference', 'symmetric_difference', 'update',
                                                        'difference_update', 'intersection_update', 'issubset', 'issuperset', 'isdisjoint'):
            aa = []
            for a in args:
                items, g = self.iterate(a, node)
                if g:
                    raise Unsupported('set operation with an unknown sequence')
                aa.append(items)
            return getattr(o, name)(*aa)
        if isinstance(o, str) and name == 'join':
            items, g = self.iterate(args[0], node)
            if not g and all(isinstance(x, str) for x in items):
                return o.join(items)
            return Top(('join', ('const', o), term(args[0])), 'str')
        if isinstance(o, str) and name == 'format' and self.texts is not None:
            r = self.format_text(o, args, kws)
            if r is not None:
                return r
        if isinstance(o, str) and name == 'format' and not (all(conc(a) for a in args) and all(conc(a) for a in kws.values())):
            return Top(('fmt', ('const', o)) + tuple(term(x) for x in args), 'str')
        if all(conc(a) for a in args) and all(conc(a) for a in kws.values()) and \
                not any(isinstance(a, (Fn, Ext, Cls, Mod, Bound, Meth, Slice)) for a in list(args) + list(kws.values())):
            try:
                r = getattr(o, name)(*args, **kws)
            except (ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
                raise AbsRaise(type(e).__name__, str(e), node)
            if hasattr(r, '__next__'):
                r = list(r)
            return r
        if isinstance(o, (str,)):
            return Top(('call', name, ('const', o)) + tuple(term(x) for x in args), 'str')
        if isinstance(o, list) and name in ('index', 'count'):
            return Top(('call', name, term(o)) + tuple(term(x) for x in args), 'int')
        raise Unsupported('method %s of %s' % (name, type(o).__name__))

    def axis(self, args, kws, pos=0):
        v = kws.get('axis', args[pos] if len(args) > pos else None)
        return v

    def arr_method(self, o, name, args, kws, node):
        if name == 'copy':
            return Arr(o.shape, o.term, o.dtype, list(o.data) if o.data is not None else None)
        if name == 'astype':
            r = self.strnum(o, args[0]) if args else None
            if r is not None:
                return r
            dt = self.dtname(args[0]) if args else None
            return Arr(o.shape, ('call', 'astype', o.term, term(args[0]) if args else ()), dt or o.dtype, o.data)
        if name == 'tolist':
            if o.shape is not None and len(o.shape) == 1:
                if o.data is not None:
                    return [e[1] if e[0] == 'const' else Top(e, 'float') for e in o.data]
                return Top(o.term, 'list', o.shape[0])
            if has_els(o):
                return [self.arr_method(self.getitem(o, i, node), 'tolist', [], {}, node) for i in range(o.shape[0])]
            return Top(o.term, 'list')
        if name in ('cumsum', 'cumprod', 'diagonal', 'take', 'argsort') and has_els(o):
            r = self.np_els(name, 'numpy.' + name, [o] + list(args), kws)
            if r is not None:
                return r
        if name in REDUCE:
            return self.reduce(name, o, self.axis(args, kws), kws)
        if name == 'reshape':
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args)
            return self.reshape(o, sh)
        if name in ('transpose', 'swapaxes'):
            if name == 'swapaxes':
                if o.shape is not None and all(isinstance(a, int) for a in args):
                    ax = list(range(len(o.shape)))
                    i, j = args[0] % len(ax), args[1] % len(ax)
                    ax[i], ax[j] = ax[j], ax[i]
                    return self.transpose(o, ax)
                return Arr(None, ('call', name, o.term))
            if not args:
                return self.transpose(o, None)
            ax = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return self.transpose(o, list(ax))
        if name in ('flatten', 'ravel'):
            return self.reshape(o, (-1,))
        if name == 'repeat':
            return self.repeat(o, args[0], self.axis(args, kws, 1))
        if name == 'dot':
            return self.dot(o, args[0])
        if name == 'item' and not args:
            return Top(('call', 'item', o.term), 'float')
        if name == 'put' and len(args) == 2 and not kws and has_data(o) and len(o.shape) == 1 and self.splitmask:
            ks = args[0].data if isinstance(args[0], Arr) else [('const', k) for k in args[0]] if isinstance(args[0], (list, tuple)) else None
            if ks is not None and all(k[0] == 'const' and type(k[1]) is int for k in ks) and isinstance(args[1], (bool, int, float, Top)):
                n = len(o.data)
                if any(not -n <= k[1] < n for k in ks):
                    raise AbsRaise('IndexError', 'put', None)
                d = list(o.data)
                for k in ks:
                    d[k[1]] = term(args[1])
                self.mutate(o, ('upd', name, o.term) + tuple(term(x) for x in args), d)
                return None
        if name in ('fill', 'put', 'sort', 'resize'):
            self.mutate(o, ('upd', name, o.term) + tuple(term(x) for x in args))
            return None
        if name in ('min', 'max'):
            return self.reduce(name, o, self.axis(args, kws), kws)
        if name == 'argsort' and self.splitmask and not args and not kws:
            r = self.order_of(o)
            if r is not None:
                return r
        if name == 'nonzero' and not self.splitmask and has_data(o) and o.shape and len(o.shape) == 1:
            return (Arr((Dim(('nnz',) + tuple(o.data)),), ('call', 'nonzero', o.term), 'i8'),)
        if name == 'nonzero' and self.splitmask:
            r = self.true_places(o)
            if r is not None:
                return r
        if name in ('nonzero', 'argsort', 'cumsum', 'conj', 'round', 'clip'):
            return Arr(o.shape if name != 'nonzero' else None, ('call', name, o.term) + tuple(term(x) for x in args), o.dtype)
        if name == 'squeeze':
            sh = tuple(d for d in o.shape if d != 1) if o.shape is not None else None
            return Arr(sh, ('call', 'squeeze', o.term), o.dtype, o.data)
        if name == 'trace':
            return self.trace(o, args, kws)
        return Arr(None, ('call', '.' + name, o.term) + tuple(term(x) for x in args) +
                   tuple(('kw', k, term(v)) for k, v in sorted(kws.items())))

    def reduce(self, name, o, ax, kws):
        name = {'amin': 'min', 'amax': 'max'}.get(name, name)
        if (has_els(o) or name in ('any', 'all') and has_data(o)) and (ax is None or isinstance(ax, (int, tuple, list))) and \
                all(k in ('axis', 'keepdims') or (k in ('dtype', 'out') and v is None) or (k == 'ddof' and v == 0 and isinstance(v, int))
                    or (k == 'ord' and (v is None or isinstance(v, int) and v == 2 and len(o.shape) == 1)) for k, v in kws.items()):
            return self.reduce_els(name, o, ax, kws)
        if isinstance(ax, int) and o.shape is not None and ax < 0:
            ax += len(o.shape)
        if isinstance(ax, int) and o.shape is not None and len(o.shape) == 1:
            t = ('call', name, o.term, ('const', ax))
            return Top(t, 'float')
        t = ('call', name, o.term, term(ax))
        if ax is None:
            return Top(t, 'float')
        if isinstance(ax, int) and o.shape is not None:
            if not 0 <= ax < len(o.shape):
                raise AbsRaise('ValueError', 'axis', None)
            sh = list(o.shape)
            if kws.get('keepdims') is True:
                sh[ax] = 1
            else:
                del sh[ax]
            return Arr(sh, t, o.dtype)
        return Arr(None, t, o.dtype)

    def reduce_els(self, name, o, ax, kws):
        """reduction with one term per element of the result"""
        nd = len(o.shape)
        axes = list(range(nd)) if ax is None else [ax] if isinstance(ax, int) else list(ax)
        if any(not isinstance(k, int) or not -nd <= k < nd for k in axes):
            raise AbsRaise('ValueError', 'axis', None)
        axes = {k % nd for k in axes}
        rest = [k for k in range(nd) if k not in axes]
        groups = {}
        for e, cc in zip(o.data, itertools.product(*[range(n) for n in o.shape])):
            groups.setdefault(tuple(cc[k] for k in rest), []).append(e)
        if not o.data:
            # nothing to reduce
            if name in ('min', 'max', 'amin', 'amax', 'argmin', 'argmax'):
                raise AbsRaise('ValueError', 'zero-size array to reduction operation %s' % name, None)
            e = {'sum': 0.0, 'prod': 1.0, 'any': False, 'all': True}.get(name, float('nan'))
            for cc in itertools.product(*[range(o.shape[k]) for k in rest]):
                groups[cc] = [('const', e)]
        data = [('red', name) + tuple(g) for g in groups.values()]
        if name == 'mean':
            data = [('red', 'mean') + tuple(g) for g in groups.values()]
        t = ('call', name, o.term, term(ax))
        keep = kws.get('keepdims') is True
        if name in ('any', 'all') and all(e[0] == 'const' for e in o.data):
            data = [('const', (any if name == 'any' else all)(x[1] for x in g)) for g in groups.values()]
            if not rest and not keep:
                return data[0][1]
        if not rest and not keep:
            return Top(data[0], 'bool' if name in ('any', 'all') else 'int' if name in ('argmin', 'argmax') else 'float')
        sh = [1 if k in axes else d for k, d in enumerate(o.shape) if keep or k not in axes]
        return Arr(sh, t, o.dtype, data)

    def elementwise(self, short, args):
        """data of an elementwise function, or None"""
        arrs = [x for x in args if isinstance(x, Arr)]
        if not arrs or not all(has_data(x) for x in arrs):
            return None
        sh = arrs[0].shape
        for x in arrs[1:]:
            sh = self.bshape(sh, x.shape)
            if sh is None or sh == 'mismatch':
                return None
        cols = [self.elems_of(x, sh) for x in args]
        if any(c is None for c in cols):
            return None
        return [('f', short) + tuple(xs) for xs in zip(*cols)]

    def along(self, o, ax, f):
        """data after f(list of the elements on a line along axis ax) -> list of the same length"""
        nd = len(o.shape)
        ax %= nd
        st = strides(o.shape)
        data = list(o.data)
        other = [range(n) if k != ax else (0,) for k, n in enumerate(o.shape)]
        for cc in itertools.product(*other):
            base = sum(c * q for c, q in zip(cc, st))
            pos = [base + k * st[ax] for k in range(o.shape[ax])]
            for q, e in zip(pos, f([o.data[q] for q in pos])):
                data[q] = e
        return data

    def np_els(self, short, name, args, kws):
        a = args[0] if args else None
        if isinstance(a, (list, tuple)):
            a = self.mkarray(a)
        if short == 'searchsorted' and has_data(a) and len(a.shape) == 1 and len(args) == 2 and not (set(kws) - {'side'}) and \
                isinstance(args[1], (int, float)) and all(x[0] == 'const' for x in a.data):
            return (bisect.bisect_left if kws.get('side', 'left') == 'left' else bisect.bisect_right)([x[1] for x in a.data], args[1])
        if short in ('sort', 'argsort', 'cumsum', 'cumprod', 'diff') and has_data(a) and len(a.shape) == 1 and len(args) == 1 and not kws and \
                a.data and all(x[0] == 'const' and isinstance(x[1], (int, float)) for x in a.data):
            l = [x[1] for x in a.data]
            r = {'sort': lambda: sorted(l), 'argsort': lambda: sorted(range(len(l)), key=lambda k: l[k]), 'cumsum': lambda: list(itertools.accumulate(l)),
                 'cumprod': lambda: list(itertools.accumulate(l, lambda x, y: x * y)), 'diff': lambda: [y - x for x, y in zip(l, l[1:])]}[short]()
            return Arr((len(r),), ('call', short, term(a)), a.dtype, [('const', x) for x in r])
        if short == 'histogram' and has_data(a) and len(args) <= 2 and not (set(kws) - {'bins'}):
            b = kws.get('bins', args[1] if len(args) > 1 else None)
            if isinstance(b, (list, tuple)):
                b = self.mkarray(b)
            if has_data(b) and len(b.shape) == 1 and len(b.data) > 1 and all(x[0] == 'const' for x in b.data):
                n = len(b.data) - 1
                h = [('red', 'sum') + tuple(('f', 'where', ('op', '&', ('op', '>=', x, b.data[k]), ('op', '<=' if k == n - 1 else '<', x, b.data[k + 1])),
                                             ('const', 1), ('const', 0)) for x in a.data) for k in range(n)]
                return (Arr((n,), ('call', short, term(a), term(b)), 'i8', h), b)
            return None
        if not has_els(a) and not (len(args) > 1 and has_els(args[1])):
            return None
        if not has_data(a):
            return None
        nd = len(a.shape)
        t = ('call', short) + tuple(term(x) for x in args)
        if short == 'diff':
            n = kws.get('n', args[1] if len(args) > 1 else 1)
            ax = kws.get('axis', args[2] if len(args) > 2 else -1)
            if not isinstance(n, int) or not isinstance(ax, int):
                return None
            for _ in range(n):
                full = [Slice(None, None, None)] * nd
                i, j = list(full), list(full)
                i[ax % nd] = Slice(1, None, None)
                j[ax % nd] = Slice(None, -1, None)
                a = self.binop('-', self.getitem(a, tuple(i)), self.getitem(a, tuple(j)))
            return a
        if short in ('flip', 'flipud', 'fliplr'):
            ax = {'flipud': 0, 'fliplr': 1}.get(short, kws.get('axis', args[1] if len(args) > 1 else None))
            i = [Slice(None, None, -1) if ax is None or k == ax % nd else Slice(None, None, None) for k in range(nd)]
            return self.getitem(a, tuple(i))
        if short == 'roll':
            ax = kws.get('axis', args[2] if len(args) > 2 else None)
            k = kws.get('shift', args[1] if len(args) > 1 else None)
            if not isinstance(k, int):
                return None
            if ax is None:
                n = len(a.data)
                return Arr(a.shape, t, a.dtype, [a.data[(i - k) % n] for i in range(n)])
            return Arr(a.shape, t, a.dtype, self.along(a, ax, lambda l: [l[(i - k) % len(l)] for i in range(len(l))]))
        if short in ('cumsum', 'cumprod', 'sort', 'argsort', 'fft', 'ifft'):
            ax = kws.get('axis', args[2 if short in ('fft', 'ifft') else 1] if len(args) > (2 if short in ('fft', 'ifft') else 1) else
                         (None if short in ('cumsum', 'cumprod') else -1))
            if ax is None and nd == 1:
                ax = 0
            if not isinstance(ax, int) or short in ('fft', 'ifft') and (kws.get('n') is not None or len(args) > 1):
                return None
            if short.startswith('cum'):
                f = lambda l: [('red', short) + tuple(l[:i + 1]) for i in range(len(l))]
            else:
                f = lambda l: [('f', short, ('const', i)) + tuple(l) for i in range(len(l))]
            return Arr(a.shape, t, a.dtype, self.along(a, ax, f))
        if short in ('triu', 'tril') and nd == 2 and len(args) <= 2 and set(kws) <= {'k'}:
            k = kws.get('k', args[1] if len(args) > 1 else 0)
            if type(k) is int:
                zero = ('const', False if a.dtype == 'bool' else 0 if a.dtype in ('i8', 'i4') else 0.0)
                n, m = a.shape
                return Arr(a.shape, t, a.dtype, [a.data[i * m + j] if (j - i >= k if short == 'triu' else j - i <= k) else zero for i in range(n) for j in range(m)])
        if short in ('diag', 'diagonal') and nd == 2 and len(args) == 1 and not kws:
            n = min(a.shape)
            return Arr((n,), t, a.dtype, [a.data[i * a.shape[1] + i] for i in range(n)])
        if short in ('diagonal',) and nd == 3:
            a1, a2 = kws.get('axis1', 0), kws.get('axis2', 1)
            l = list('abc')
            l[a2 % 3] = l[a1 % 3]
            keep = [ch for ch in l if l.count(ch) == 1]
            return self.einsum('%s->%s' % (''.join(l), ''.join(keep) + l[a1 % 3]), [a])
        b = args[1] if len(args) > 1 else None
        if isinstance(b, (list, tuple)):
            b = self.mkarray(b)
        if short in ('outer', 'inner') and has_data(b):
            if short == 'outer':
                return self.einsum('a,b->ab', [self.reshape(a, [-1]), self.reshape(b, [-1])])
            if nd == 1 and len(b.shape) == 1:
                return self.einsum('a,a->', [a, b])
            return None
        if short == 'cross' and has_data(b) and a.shape[-1] == 3 and b.shape[-1] == 3 and set(kws) <= {'axis'} and kws.get('axis', -1) in (-1,):
            sh = self.bshape(a.shape, b.shape)
            if sh is None or sh == 'mismatch':
                return None
            x, y = self.elems_of(a, sh), self.elems_of(b, sh)
            data = []
            for k in range(0, len(x), 3):
                p, q = x[k:k + 3], y[k:k + 3]
                for i, j in ((1, 2), (2, 0), (0, 1)):
                    data.append(self.fold('-', self.fold('*', p[i], q[j]), self.fold('*', p[j], q[i])))
            return Arr(sh, t, 'f8', data)
        if short == 'norm' and name.endswith('linalg.norm'):
            ax = kws.get('axis', args[2] if len(args) > 2 else None)
            o2 = kws.get('ord', args[1] if len(args) > 1 else None)
            if o2 is not None and not (isinstance(o2, int) and o2 == 2 and (len(a.shape) == 1 or isinstance(ax, int))):
                return None
            return self.reduce_els('norm', a, ax, kws)
        if short == 'median':
            return self.reduce_els('median', a, self.axis(args, kws, 1), kws)
        if short == 'where' and len(args) == 3:
            arrs = [x for x in args if isinstance(x, Arr)]
            d = self.elementwise('where', args)
            if d is None:
                return None
            sh = ()
            for x in arrs:
                sh = self.bshape(sh, x.shape)
            return Arr(sh, t, 'f8', d)
        if short == 'tile':
            reps = (b,) if isinstance(b, int) else b if isinstance(b, tuple) else tuple(x[1] for x in b.data) if isinstance(b, Arr) and b.data else None
            if reps is None or not all(isinstance(x, int) for x in reps):
                return None
            sh = list(a.shape)
            n = max(len(sh), len(reps))
            sh = [1] * (n - len(sh)) + sh
            reps = [1] * (n - len(reps)) + list(reps)
            st = strides(sh)
            out = [p * q for p, q in zip(sh, reps)]
            return Arr(out, t, a.dtype, [a.data[sum((c % p) * q for c, p, q in zip(cc, sh, st))] for cc in itertools.product(*[range(m) for m in out])])
        if short == 'expand_dims':
            ax = kws.get('axis', b)
            if isinstance(args[1] if len(args) > 1 else ax, int):
                ax = args[1] if len(args) > 1 else ax
                sh = list(a.shape)
                sh.insert(ax if ax >= 0 else len(sh) + 1 + ax, 1)
                return Arr(sh, t, a.dtype, list(a.data))
            return None
        if short == 'moveaxis' and len(args) == 3 and isinstance(args[1], int) and isinstance(args[2], int):
            order = [k for k in range(nd) if k != args[1] % nd]
            order.insert(args[2] % nd, args[1] % nd)
            return self.transpose(a, order)
        if short == 'rollaxis' and len(args) >= 2 and isinstance(args[1], int):
            start = args[2] if len(args) > 2 else kws.get('start', 0)
            if not isinstance(start, int):
                return None
            ax = args[1] % nd
            start = start + nd if start < 0 else start
            if ax < start:
                start -= 1
            order = [k for k in range(nd) if k != ax]
            order.insert(start, ax)
            return self.transpose(a, order)
        if short == 'take' and len(args) > 1:
            ax = kws.get('axis', args[2] if len(args) > 2 else None)
            if isinstance(ax, int):
                i = [Slice(None, None, None)] * nd
                i[ax % nd] = args[1]
                return self.getitem(a, tuple(i))
        return None

    def einsum(self, sub, ops):
        if not isinstance(sub, str) or not all(has_data(x) for x in ops):
            return None
        sub = sub.replace(' ', '')
        if '.' in sub:
            return None
        ins, _, out = sub.partition('->')
        ins = ins.split(',')
        if len(ins) != len(ops):
            return None
        size = {}
        for l, x in zip(ins, ops):
            if len(l) != len(x.shape):
                return None
            for ch, d in zip(l, x.shape):
                if size.setdefault(ch, d) != d:
                    raise AbsRaise('ValueError', 'einsum', None)
        if '->' not in sub:
            allc = ''.join(ins)
            out = ''.join(sorted(ch for ch in set(allc) if allc.count(ch) == 1))
        summed = sorted(set(size) - set(out))
        data = []
        for oc in itertools.product(*[range(size[ch]) for ch in out]):
            env = dict(zip(out, oc))
            terms = []
            for sc in itertools.product(*[range(size[ch]) for ch in summed]):
                env.update(zip(summed, sc))
                fac = [x.data[sum(env[ch] * q for ch, q in zip(l, strides(x.shape)))] for l, x in zip(ins, ops)]
                t = fac[0]
                for y in fac[1:]:
                    t = self.fold('*', t, y)
                terms.append(t)
            data.append(('red', 'sum') + tuple(terms) if len(terms) > 1 else terms[0])
        t = ('call', 'einsum', ('const', sub)) + tuple(x.term for x in ops)
        if not out:
            return Top(data[0], 'float')
        return Arr([size[ch] for ch in out], t, 'f8', data)

    def reshape(self, o, sh):
        sh = list(sh)
        if o.shape is None or any(not isinstance(x, (int, Dim)) for x in sh):
            return Arr(None, ('call', 'reshape', o.term, term(tuple(sh))), o.dtype)
        t = ('call', 'reshape', o.term, term(tuple(sh)))
        if -1 in sh:
            if all(isinstance(d, int) for d in o.shape) and all(isinstance(d, int) for d in sh):
                k = prod([d for d in sh if d != -1])
                sh[sh.index(-1)] = prod(o.shape) // k if k else 0
            else:
                i = sh.index(-1)
                a = [d.e if isinstance(d, Dim) else d for d in o.shape]
                sh[i] = Dim(('rest', tuple(a), tuple(d.e if isinstance(d, Dim) else d for d in sh)))
                return Arr(sh, t, o.dtype)
        if all(isinstance(d, int) for d in o.shape) and all(isinstance(d, int) for d in sh):
            if prod(o.shape) != prod(sh):
                raise AbsRaise('ValueError', 'reshape', None)
        return Arr(sh, t, o.dtype, list(o.data) if o.data is not None and all(isinstance(d, int) for d in sh) else None)

    def repeat(self, o, n, ax):
        t = ('call', 'repeat', o.term, term(n), term(ax))
        if o.shape is None:
            return Arr(None, t, o.dtype)
        if ax is None:
            if len(o.shape) != 1:
                return Arr(None, t, o.dtype)
            ax = 0
        if not isinstance(ax, int):
            return Arr(None, t, o.dtype)
        sh = list(o.shape)
        ax %= len(sh)
        d = sh[ax]
        if isinstance(n, (int, Dim)):
            sh[ax] = n if d == 1 else self.dimop('*', d, n) if isinstance(d, Dim) or isinstance(n, Dim) else d * n
        elif isinstance(n, Top):
            sh[ax] = Dim(('val', n.term)) if d == 1 else Dim(('mul', d.e if isinstance(d, Dim) else d, ('val', n.term)))
        else:
            return Arr(None, t, o.dtype)
        data = None
        if o.data is not None and isinstance(n, int) and all(isinstance(x, int) for x in sh):
            st = strides(o.shape)
            data = [o.data[sum((c // n if k == ax else c) * q for k, (c, q) in enumerate(zip(cc, st)))]
                    for cc in itertools.product(*[range(x) for x in sh])]
        return Arr(sh, t, o.dtype, data)

    def dot(self, a, b):
        t = ('call', 'dot', term(a), term(b))
        sa = a.shape if isinstance(a, Arr) else () if isinstance(a, (int, float)) else None
        sb = b.shape if isinstance(b, Arr) else () if isinstance(b, (int, float)) else None
        if isinstance(a, (list, tuple)):
            a = self.mkarray(a)
            return self.dot(a, b) if a is not None else Arr(None, t)
        if isinstance(b, (list, tuple)):
            b = self.mkarray(b)
            return self.dot(a, b) if b is not None else Arr(None, t)
        if sa is None or sb is None:
            return Arr(None, t)
        if sa and sb and has_data(a) and has_data(b) and (has_els(a) or has_els(b)):
            la = 'abcdefg'[:len(sa) - 1] + 'z'
            lb = 'hijklmn'[:len(sb) - 1]
            lb = lb[:-1] + 'z' + lb[-1:] if lb else 'z'
            r = self.einsum('%s,%s->%s' % (la, lb, la[:-1] + lb.replace('z', '')), [a, b])
            if isinstance(r, Arr):
                r._term = t
            if r is not None:
                return r
        if not sa or not sb:
            return Arr(sa or sb, t)
        if all(isinstance(x, int) for x in (sa[-1], sb[-2 if len(sb) > 1 else -1])) and sa[-1] != sb[-2 if len(sb) > 1 else -1]:
            raise AbsRaise('ValueError', 'dot of %s and %s' % (tuple(sa), tuple(sb)), None)
        if len(sb) == 1:
            return Arr(sa[:-1], t) if len(sa) > 1 else Top(t, 'float')
        return Arr(tuple(sa[:-1]) + tuple(sb[:-2]) + (sb[-1],), t)

    def trace(self, o, args, kws):
        a1 = kws.get('axis1', 0)
        a2 = kws.get('axis2', 1)
        t = ('call', 'trace', o.term, term(a1), term(a2))
        if o.shape is None or not all(isinstance(x, int) for x in (a1, a2)):
            return Arr(None, t)
        if has_els(o):
            l = list('abcdefgh'[:len(o.shape)])
            l[a2 % len(l)] = l[a1 % len(l)]
            return self.einsum('%s->%s' % (''.join(l), ''.join(ch for ch in l if l.count(ch) == 1)), [o])
        sh = [d for k, d in enumerate(o.shape) if k not in (a1 % len(o.shape), a2 % len(o.shape))]
        return Arr(sh, t) if sh else Top(t, 'float')

    def quad(self, short, args, kws):
        """trapezoidal and Simpson rule along an axis, element by element"""
        y = args[0] if args else kws.get('y')
        if isinstance(y, (list, tuple)):
            y = self.mkarray(y)
        x = kws.get('x', args[1] if len(args) > 1 else None)
        ax = kws.get('axis', -1)
        if not has_data(y) or not y.shape or not isinstance(ax, int) or len(args) > 2 or set(kws) - {'x', 'axis', 'dx', 'y', 'even'}:
            return None
        if not -len(y.shape) <= ax < len(y.shape):
            raise AbsRaise('ValueError', 'axis %d of an array of %d dimension(s)' % (ax, len(y.shape)), None)
        ax %= len(y.shape)
        n = y.shape[ax]
        if has_data(x) and len(x.shape) == 1 and len(x.data) != n:
            raise AbsRaise('ValueError', 'integral of %d values over %d points' % (n, len(x.data)), None)
        if x is None:
            dx = term(kws.get('dx', 1.0))
            xs = [self.fold('*', ('const', float(k)), dx) for k in range(n)]
        elif has_data(x) and len(x.shape) == 1 and len(x.data) == n:
            xs = x.data
        else:
            return None
        f = self.fold
        d = [f('-', b, a) for a, b in zip(xs, xs[1:])]

        def trap(l):
            return ('red', 'sum') + tuple(f('*', h, f('*', ('const', 0.5), f('+', a, b))) for h, a, b in zip(d, l, l[1:]))

        def simp(l):
            out = []
            if n == 2:
                return trap(l)
            if n % 2 == 0:
                # Cartwright's correction of the last interval, as the installed library does it
                a, b = d[-2:]
                ab, bb, s6 = f('*', ('const', 3.0), f('*', a, b)), f('*', b, b), f('*', ('const', 6.0), f('+', a, b))
                a6 = f('*', ('const', 6.0), a)
                out = [f('*', l[-1], f('/', f('+', f('*', ('const', 2.0), bb), ab), s6)),
                       f('*', l[-2], f('/', f('+', bb, ab), a6)),
                       f('*', ('const', -1.0), f('*', l[-3], f('/', f('*', bb, b), f('*', a, s6))))]
            for i in range(0, n - 2, 2):
                h0, h1 = d[i], d[i + 1]
                hs, hp, hq = f('+', h0, h1), f('*', h0, h1), f('/', h0, h1)
                c = f('/', hs, ('const', 6.0))
                out.append(f('*', c, f('+', f('+', f('*', l[i], f('-', ('const', 2.0), f('/', ('const', 1.0), hq))),
                                                 f('*', l[i + 1], f('/', f('*', hs, hs), hp))),
                                             f('*', l[i + 2], f('-', ('const', 2.0), hq)))))
            return ('red', 'sum') + tuple(out)
        g = simp if short.startswith('simp') else trap
        rest = [k for k in range(len(y.shape)) if k != ax]
        st = strides(y.shape)
        data = []
        for cc in itertools.product(*[range(y.shape[k]) for k in rest]):
            base = sum(c * st[k] for c, k in zip(cc, rest))
            data.append(g([y.data[base + j * st[ax]] for j in range(n)]))
        t = ('call', short, y.term) + ((term(x),) if x is not None else ())
        if not rest:
            return Top(data[0], 'float')
        return Arr([y.shape[k] for k in rest], t, 'f8', data)

    def dense(self, short, args, kws, t):
        """matrix functions: every element of the result depends on every element of the matrix"""
        a = args[0] if args else None
        if not has_data(a) or len(a.shape) < 2 or a.shape[-1] != a.shape[-2]:
            return None
        n = a.shape[-1]
        mats = [tuple(a.data[k:k + n * n]) for k in range(0, len(a.data), n * n)]
        if short in ('inv', 'pinv'):
            return Arr(a.shape, t, 'f8', [('f', short, ('const', k)) + m for m in mats for k in range(n * n)])
        if short == 'det':
            d = [('f', short) + m for m in mats]
            return Arr(a.shape[:-2], t, 'f8', d) if len(a.shape) > 2 else Top(d[0], 'float')
        if short == 'solve' and len(args) > 1 and has_data(args[1]) and len(mats) == 1:
            b = args[1]
            if len(b.shape) == 1:
                return Arr(b.shape, t, 'f8', [('f', short, ('const', k)) + mats[0] + tuple(b.data) for k in range(n)])
            if len(b.shape) == 2:
                m = b.shape[1]
                return Arr(b.shape, t, 'f8', [('f', short, ('const', i)) + mats[0] + tuple(b.data[j::m]) for i in range(n) for j in range(m)])
        return None

    # -- external functions ----------------------------------------------
    def ext(self, name, args, kws, node, fr):
        if name in self.models:
            return self.models[name](self, args, kws, node)
        if name.split('.')[0] in ('os', 'io', 'pathlib', 'shutil', 'subprocess', 'codecs', 'tempfile', 'builtins', 'open') and not name.startswith('os.path.'):
            self.foreign.add(name)
        short = name.split('.')[-1]
        if '.' not in name:
            f = getattr(self, 'b_' + name, None)
            if f is not None:
                return f(args, kws, node, fr)
            if name in ('int', 'float', 'str', 'bool', 'abs', 'repr', 'round', 'complex'):
                return self.scalar(name, args, node)
            if name.endswith(('Exception', 'Error', 'Warning')):
                return Top(('exc', name))
        if name.split('.')[0] in ('set', 'frozenset', 'dict', 'list', 'str') and '.' in name:
            base = name.split('.')[0]
            if base == 'dict' and short == 'fromkeys':
                items, g = self.iterate(args[0], node)
                if g:
                    return Top(('call', name, term(args[0])), 'dict')
                return dict((k, args[1] if len(args) > 1 else None) for k in items)
            if args:
                return self.method(args[0], short, list(args[1:]), kws, node)
        if name.startswith('os.path.') and short in ('join', 'dirname', 'basename', 'splitext', 'normpath', 'split') and not kws and \
                all(isinstance(x, str) for x in args):
            return getattr(os.path, short)(*args)
        if name.startswith('re.') and short in ('compile', 'match', 'search', 'fullmatch', 'sub', 'findall', 'split', 'escape', 'finditer'):
            aa = [flagval(x) for x in args]
            kk = {k: flagval(v) for k, v in kws.items()}
            if all(isinstance(x, (str, int, re.Pattern)) for x in aa + list(kk.values())):
                try:
                    r = getattr(re, short)(*aa, **kk)
                except (re.error, TypeError):
                    raise AbsRaise('TypeError', 're', node)
                return list(r) if short == 'finditer' else r
        if name.startswith(('warnings.', 'logging.')):
            return None
        if name in ('copy.deepcopy', 'copy.copy', 'deepcopy'):
            return self.deepcopy(args[0], name.endswith('deepcopy'))
        if name.startswith('itertools.') and short == 'product' and all(isinstance(a, (list, tuple, range)) for a in args):
            n = kws.get('repeat', 1)
            if isinstance(n, int):
                return list(itertools.product(*args, repeat=n))
        if name.startswith('itertools.') and short == 'chain' and all(isinstance(a, (list, tuple, range, set)) for a in args):
            return [x for a in args for x in self.iterate(a)[0]]
        if name.startswith('functools.') and short == 'reduce' and isinstance(args[1], (list, tuple)):
            it = list(args[1])
            acc = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                acc = self.call(args[0], [acc, x], {}, node, fr)
            return acc
        if name.startswith('operator.') and short in ('add', 'sub', 'mul', 'truediv') and len(args) == 2:
            return self.binop({'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/'}[short], args[0], args[1], node)
        if name.startswith(('numpy.', 'np.')) or name.startswith('scipy.') and short in (
                'trapezoid', 'trapz', 'simpson', 'simps', 'fft', 'ifft', 'rfft', 'norm', 'fftfreq'):
            r = self.np(name, short, args, kws, node)
            if r is not NotImplemented:
                return r
        if name == 'object.__init__':
            return None
        t = ('call', name) + tuple(term(x) for x in args) + tuple(('kw', k, term(v)) for k, v in sorted(kws.items()))
        sh = self.shapes.get(name)
        if sh:
            return Arr(sh(list(args), kws), t)
        if short in SAMESHAPE | MATHFN and args and not kws and name.startswith(('numpy.', 'math.', 'scipy.')) and \
                all(isinstance(x, (int, float, Dim)) or isinstance(x, Top) and x.kind in ('float', 'int') for x in args):
            return Top(t, 'float')
        if name.startswith(('numpy.linalg.', 'scipy.linalg.')):
            r = self.dense(short, args, kws, t)
            if r is not None:
                return r
        if name.startswith(('numpy.', 'scipy.', 'pwtools.')):
            return Arr(None, t)
        return Top(t)

    def scalar(self, name, args, node):
        if not args:
            return {'int': 0, 'float': 0.0, 'str': '', 'bool': False}.get(name)
        v = args[0]
        if self.texts is not None and len(args) == 1:
            if isinstance(v, str) and name in ('float', 'int'):
                r = self.text_num(v, name)
                if r is not None:
                    return r
            if name in ('str', 'repr') and isinstance(v, (Top, Arr)):
                r = self.num_text(v)
                if r is not None:
                    return str(r)
        if isinstance(v, (int, float, str, bool)) and all(isinstance(x, (int, float, str)) for x in args):
            try:
                return {'int': int, 'float': float, 'str': str, 'bool': bool, 'abs': abs, 'repr': repr, 'round': round,
                        'complex': complex}[name](*args)
            except (ValueError, TypeError):
                raise AbsRaise('ValueError', '', node)
        if name in ('str', 'repr'):
            if conc(v):
                try:
                    return str(v) if not isinstance(v, (Fn, Ext, Cls, Mod, Bound, Meth, Slice, DType)) else Top(('call', 'str', term(v)), 'str')
                except Exception:
                    pass
            return Top(('call', 'str', term(v)), 'str')
        if name == 'bool':
            return self.truth(v)
        if isinstance(v, Dim) and name in ('int', 'abs', 'round'):
            return v
        if isinstance(v, Dim) and name == 'float':
            return Top(term(v), 'float')
        if isinstance(v, Arr) and name in ('abs', 'round'):
            return Arr(v.shape, ('call', name, v.term), v.dtype, self.elementwise(name, [v]))
        if v is None:
            raise AbsRaise('TypeError', '%s(None)' % name, node)
        if isinstance(v, Top) and name in ('float',):
            return Top(v.term, 'float')
        return Top(('call', name, term(v)), 'float' if name != 'int' else 'int')

    def deepcopy(self, v, deep=True, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Arr):
            r = Arr(v.shape, v.term, v.dtype, list(v.data) if v.data is not None else None)
            memo[id(v)] = r
            return r
        if isinstance(v, list):
            return [self.deepcopy(x, deep, memo) for x in v] if deep else list(v)
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, deep, memo) for x in v) if deep else v
        if isinstance(v, dict):
            return dict((k, self.deepcopy(x, deep, memo) if deep else x) for k, x in v.items())
        if isinstance(v, set):
            return set(v)
        if isinstance(v, Top):
            return Top(v.term, v.kind, v.n)
        if isinstance(v, Obj):
            r = Obj(v.cls, v.tag)
            memo[id(v)] = r
            for k, x in v.attrs.items():
                r.attrs[k] = self.deepcopy(x, deep, memo) if deep else x
            return r
        return v

    def true_places(self, o):
        """the indices of the nonzero elements, on this path"""
        if not has_data(o) or not o.shape or sum(1 for e in o.data if e[0] != 'const') > 6 or len(o.data) > 64:
            return None
        cs = [c for c, e in zip(itertools.product(*[range(n) for n in o.shape]), o.data)
              if (bool(e[1]) if e[0] == 'const' else self.decide(e if o.dtype == 'bool' else ('op', '!=', e, ('const', 0)), None))]
        return tuple(Arr((len(cs),), ('call', 'nonzero', o.term, k), 'i8', [('const', c[k]) for c in cs]) for k in range(len(o.shape)))

    def order_of(self, o):
        """argsort of a short array: one path for every order"""
        if not has_data(o) or not o.shape or len(o.shape) != 1 or len(o.data) > 4:
            return None
        ks = []
        for k, e in enumerate(o.data):
            j = len(ks)
            while j > 0:
                p = o.data[ks[j - 1]]
                less = e[1] < p[1] if e[0] == p[0] == 'const' else self.decide(('op', '<', e, p), None)
                if not less:
                    break
                j -= 1
            ks.insert(j, k)
        return Arr((len(ks),), ('call', 'argsort', o.term), 'i8', [('const', k) for k in ks])

    def strnum(self, r, dt):
        """strings turned into numbers, or None"""
        dt = self.dtname(dt)
        if not has_data(r) or not dt or dt[0] not in 'fi' or not any(e[0] == 'const' and isinstance(e[1], str) for e in r.data):
            return None
        data = []
        for e in r.data:
            if e[0] == 'const' and isinstance(e[1], str):
                t = self.text_num(e[1])
                if t is None:
                    try:
                        e = ('const', float(e[1]) if dt[0] == 'f' else int(e[1]))
                    except ValueError:
                        raise AbsRaise('ValueError', 'could not convert string', None)
                else:
                    e = t.term
            data.append(e)
        return Arr(r.shape, ('call', 'array', r.term), dt, data)

    def np(self, name, short, args, kws, node):
        a = args[0] if args else None
        if short == 'fromstring' and isinstance(a, str) and isinstance(kws.get('sep'), str) and kws['sep'] and not (set(kws) - {'sep', 'dtype'}):
            name, short, a = 'numpy.array', 'array', (a.split() if not kws['sep'].strip() else [x.strip() for x in a.split(kws['sep'].strip())])
            args, kws = [a], {'dtype': kws.get('dtype', Ext('float'))}
        if short in ('array', 'asarray', 'asfarray') and isinstance(a, (list, tuple)) and (len(args) > 1 or 'dtype' in kws):
            r = self.strnum(self.mkarray(a), args[1] if len(args) > 1 else kws['dtype'])
            if r is not None:
                return r
        if short in ('invert', 'logical_not') and len(args) == 1 and not kws and isinstance(a, Arr) and a.dtype == 'bool' and has_data(a):
            return Arr(a.shape, ('call', short, a.term), 'bool', [('const', not e[1]) if e[0] == 'const' else ('op', 'not', e) for e in a.data])
        if (short == 'nonzero' or short == 'flatnonzero' or short == 'where') and self.splitmask and len(args) == 1 and isinstance(a, Arr) and not kws:
            r = self.true_places(a)
            if r is not None and (short != 'flatnonzero' or len(r) == 1):
                return r[0] if short == 'flatnonzero' else r
        if short == 'nonzero' and not self.splitmask and has_data(a) and len(a.shape) == 1 and len(args) == 1:
            return self.arr_method(a, 'nonzero', [], {}, node)
        if short == 'unique' and len(args) == 1 and not kws and isinstance(a, Arr) and has_data(a) and self.splitmask and \
                all(e[0] == 'const' and type(e[1]) is int for e in a.data):
            ks = sorted({e[1] for e in a.data})
            return Arr((len(ks),), ('call', 'unique', a.term), a.dtype, [('const', k) for k in ks])
        if short == 'unique' and len(args) == 1 and kws and isinstance(a, Arr) and has_data(a) and self.splitmask and \
                set(kws) <= {'return_index', 'return_inverse', 'return_counts'} and all(v is True or v is False for v in kws.values()) and \
                all(e[0] == 'const' and type(e[1]) in (int, float) and e[1] == e[1] for e in a.data):
            l = [e[1] for e in a.data]
            ks = sorted(set(l))
            mk = lambda d, dt, nm: Arr((len(d),), ('call', 'unique', nm, a.term), dt, [('const', k) for k in d])
            out = [mk(ks, a.dtype, 'values')]
            for nm, d in (('return_index', [l.index(k) for k in ks]), ('return_inverse', [ks.index(e) for e in l]), ('return_counts', [l.count(k) for k in ks])):
                if kws.get(nm):
                    if nm == 'return_inverse' and len(a.shape) != 1:
                        return Top(('call', 'unique'))
                    out.append(mk(d, 'i8', nm))
            return tuple(out) if len(out) > 1 else out[0]
        if short == 'unique' and len(args) == 1 and not kws and isinstance(a, (list, tuple)) and a and all(isinstance(x, str) for x in a):
            ks = sorted(set(a))
            return Arr((len(ks),), ('call', 'numpy.unique', term(a)), 'str', [('const', k) for k in ks])
        if short == 'argsort' and self.splitmask and len(args) == 1 and isinstance(a, Arr) and not kws:
            r = self.order_of(a)
            if r is not None:
                return r
        if short == 'atleast_2d' and len(args) == 1 and not kws:
            if isinstance(a, (int, float)) or isinstance(a, Top) and a.kind in ('float', 'int', 'bool'):
                return Arr((1, 1), ('call', 'atleast_2d', term(a)), 'f8', [term(a)])
            if isinstance(a, Arr) and a.shape is not None:
                if len(a.shape) >= 2:
                    return a
                return Arr(((1, 1) if not a.shape else (1,) + tuple(a.shape)), a.term, a.dtype, a.data)
        if short == 'atleast_1d' and len(args) == 1 and not kws:
            if isinstance(a, Arr) and a.shape == ():
                return Arr((1,), a.term, a.dtype, a.data)
            if isinstance(a, (int, float)) or isinstance(a, Top) and a.kind in ('float', 'int', 'bool'):
                return Arr((1,), ('call', 'atleast_1d', term(a)), 'f8', [term(a)])
        if short in ('asarray', 'array', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d'):
            a = a if args else kws.get('object', kws.get('a'))
            if isinstance(a, Arr):
                if short == 'array' or 'dtype' in kws:
                    return Arr(a.shape, a.term, a.dtype, list(a.data) if a.data is not None else None)
                return a
            if isinstance(a, Top) and a.kind in ('float', 'int') and short in ('asarray', 'array', 'asanyarray'):
                return Arr((), a.term, 'f8', [a.term])
            if isinstance(a, Top):
                it = getattr(a, 'item', None)
                sh = (a.n,) if a.kind == 'list' and a.n is not None else None
                if sh is not None and isinstance(it, Arr):
                    sh = sh + it.shape if it.shape is not None else None
                return Arr(sh, a.term, 'f8')
            if a is None:
                return Arr((), ('const', None), 'object')
            if isinstance(a, Obj):
                return Arr(None, term(a))
            r = self.mkarray(a)
            return r
        if short in ('empty', 'zeros', 'ones', 'full'):
            sh = args[0] if args else kws.get('shape')
            sh = tuple(sh) if isinstance(sh, (list, tuple)) else (sh,)
            t = ('empty',) if short == 'empty' else ('call', short)
            data = None
            if all(isinstance(d, int) for d in sh) and prod(sh) <= 400:
                e = {'empty': ('unset',), 'zeros': ('const', 0.0), 'ones': ('const', 1.0)}.get(short) or term(args[1] if len(args) > 1 else kws.get('fill_value'))
                data = [e] * prod(sh)
            if short == 'full' and len(sh) == 1:
                fv = args[1] if len(args) > 1 else kws.get('fill_value')
                t = ('call', 'repeat', term(fv), term(sh[0]), ('const', 0))
            elif short == 'full':
                t = ('call', 'full', term(args[1] if len(args) > 1 else kws.get('fill_value')))
            if not all(isinstance(d, (int, Dim)) for d in sh):
                sh2 = tuple(d if isinstance(d, (int, Dim)) else Dim(('val', term(d))) for d in sh)
                return Arr(sh2, t)
            dt = self.dtname(kws.get('dtype', args[1] if len(args) > 1 and short != 'full' else None)) if (kws.get('dtype') is not None or len(args) > 1) else 'f8'
            return Arr(sh, t, dt or 'f8', data)
        if short in ('empty_like', 'zeros_like', 'ones_like') and isinstance(a, Arr):
            s2 = short.split('_')[0]
            data = None
            if a.data is not None:
                data = [{'empty': ('unset',), 'zeros': ('const', 0.0), 'ones': ('const', 1.0)}[s2]] * len(a.data)
            return Arr(a.shape, ('empty',) if s2 == 'empty' else ('call', s2), a.dtype, data)
        if short in ('identity', 'eye') and isinstance(a, int):
            return Arr((a, a), ('call', 'identity', ('const', a)), 'f8',
                       [('const', 1.0 if i == j else 0.0) for i in range(a) for j in range(a)])
        if short in ('concatenate', 'vstack', 'hstack', 'stack', 'append', 'column_stack', 'row_stack', 'dstack'):
            seq = a
            if short == 'append':
                seq = (args[0], args[1])
                args = [seq] + list(args[2:])
            if isinstance(seq, Gen) and not seq.generic:
                seq = list(seq.items)
            if not isinstance(seq, (list, tuple)):
                return Arr(None, ('call', short, term(seq)))
            ax = self.axis(args, kws, 1)
            if short in ('vstack', 'row_stack', 'concatenate') and ax is None and short != 'append':
                ax = 0
            if short == 'vstack' and any(isinstance(x, Arr) and x.shape is not None and len(x.shape) < 2 for x in seq):
                return Arr(None, ('call', short, term(seq)))
            if short in ('concatenate', 'vstack', 'row_stack', 'append'):
                t = ('call', 'concatenate', term(tuple(seq)), term(ax))
                arrs = [x if isinstance(x, Arr) else self.mkarray(x) for x in seq]
                if any(x is None or x.shape is None for x in arrs) or not isinstance(ax, int) or \
                        len({len(x.shape) for x in arrs}) != 1 or not arrs:
                    return Arr(None, t)
                nd = len(arrs[0].shape)
                if not -nd <= ax < nd:
                    raise AbsRaise('ValueError', 'axis of concatenate', node)
                ax %= nd
                sh = list(arrs[0].shape)
                for x in arrs[1:]:
                    for k in range(nd):
                        if k == ax:
                            p, q = sh[k], x.shape[k]
                            sh[k] = p + q if isinstance(p, int) and isinstance(q, int) else self.dimop('+', p, q)
                        elif sh[k] != x.shape[k] and isinstance(sh[k], int) and isinstance(x.shape[k], int):
                            raise AbsRaise('ValueError', 'concatenate', node)
                data = None
                if ax == 0 and all(x.data is not None for x in arrs):
                    data = [e for x in arrs for e in x.data]
                elif all(has_data(x) for x in arrs):
                    rows = [[x.data[k:k + prod(x.shape[ax:])] for k in range(0, len(x.data), prod(x.shape[ax:]) or 1)] for x in arrs]
                    data = [e for r in zip(*rows) for part in r for e in part]
                return Arr(sh, t, arrs[0].dtype, data)
            if short == 'stack':
                arrs = [x for x in seq]
                if all(isinstance(x, Arr) and x.shape is not None for x in arrs) and ax in (None, 0):
                    r = self.mkarray(list(seq))
                    return r
                if all(isinstance(x, Arr) and x.shape is not None for x in arrs) and len({len(x.shape) for x in arrs}) == 1 \
                        and isinstance(ax, int):
                    r = self.mkarray(list(seq))
                    nd = len(r.shape)
                    ax %= nd
                    order = list(range(1, nd))
                    order.insert(ax, 0)
                    return self.transpose(r, order)
            if short == 'column_stack' and all(isinstance(x, Arr) and x.shape is not None and len(x.shape) == 1 for x in seq):
                return self.transpose(self.mkarray(list(seq)), None)
            if short == 'hstack' and all(isinstance(x, Arr) and x.shape is not None and len(x.shape) == 1 for x in seq):
                return self.np('numpy.concatenate', 'concatenate', [seq, 0], {}, node)
            return Arr(None, ('call', short, term(tuple(seq)), term(ax)))
        if short == 'repeat':
            n = args[1] if len(args) > 1 else kws.get('repeats')
            if isinstance(a, Arr):
                return self.repeat(a, n, self.axis(args, kws, 2))
            if isinstance(a, Top):
                return Arr(None, ('call', 'repeat', a.term, term(n)))
        if short == 'dot' or short == 'matmul':
            return self.dot(a, args[1])
        if short == 'trace' and isinstance(a, Arr):
            return self.trace(a, args, kws)
        if short == 'linspace':
            n = args[2] if len(args) > 2 else kws.get('num', 50)
            data = None
            ep = kws.get('endpoint', args[3] if len(args) > 3 else True)
            if isinstance(n, int) and len(args) >= 2 and n < 200 and isinstance(ep, bool) and not (set(kws) - {'num', 'endpoint'}) and \
                    all(isinstance(x, (int, float)) or isinstance(x, Top) and x.kind in ('float', 'int') for x in args[:2]):
                a0, a1 = term(args[0]), term(args[1])
                m = n - 1 if ep else n
                step = self.fold('/', self.fold('-', a1, a0), ('const', m)) if m else ('const', 0.0)
                data = [self.fold('+', a0, self.fold('*', ('const', float(k)), step)) if k else a0 for k in range(n)]
            return Arr((n,) if isinstance(n, (int, Dim)) else (Dim(('val', term(n))),), ('call', 'linspace') + tuple(term(x) for x in args), 'f8', data)
        if short == 'arange':
            args = [constval(x) for x in args]
            if len(args) == 1 and isinstance(a, (int, Dim)):
                return Arr((a,), ('call', 'arange', term(a)), 'i8', [('const', k) for k in range(a)] if isinstance(a, int) and a < 100 else None)
            if all(isinstance(x, (int, float)) for x in args) and 1 <= len(args) <= 3 and not (set(kws) - {'dtype'}):
                a0, a1, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
                n = max(0, math.ceil((a1 - a0) / st)) if st else 0
                if n < 300:
                    fl = any(isinstance(x, float) for x in args) or self.dtname(kws.get('dtype')) == 'f8'
                    return Arr((n,), ('call', 'arange') + tuple(term(x) for x in args), 'f8' if fl else 'i8',
                               [('const', float(a0 + k * st) if fl else a0 + k * st) for k in range(n)])
            return Arr(None, ('call', 'arange') + tuple(term(x) for x in args))
        if short in ('fftfreq', 'rfftfreq') and isinstance(a, int) and 0 < a < 100 and len(args) <= 2 and not (set(kws) - {'d'}):
            d = term(kws.get('d', args[1] if len(args) > 1 else 1.0))
            ks = [k if k < (a + 1) // 2 else k - a for k in range(a)] if short == 'fftfreq' else range(a // 2 + 1)
            return Arr((len(ks),), ('call', short, ('const', a), d), 'f8',
                       [self.fold('/', ('const', float(k)), self.fold('*', d, ('const', float(a)))) for k in ks])
        if short in REDUCE and isinstance(a, Arr):
            return self.reduce(short, a, self.axis(args, kws, 1), kws)
        if short in ('transpose',) and isinstance(a, Arr):
            ax = self.axis(args, kws, 1) or kws.get('axes')
            return self.transpose(a, ax)
        if short in ('swapaxes', 'reshape', 'ravel', 'squeeze', 'copy') and isinstance(a, Arr):
            return self.arr_method(a, short, list(args[1:]), kws, node)
        if short == 'unique' and isinstance(a, (Arr, Top)):
            return Arr((Dim(('unique', term(a))),), ('call', 'unique', term(a)))
        if short in ELEMENTWISE2 and len(args) >= 2 and (isinstance(a, Arr) or isinstance(args[1], Arr)):
            r = self.binop(ELEMENTWISE2[short], a, args[1], node)
            return r
        if short == 'einsum' and len(args) > 1:
            r = self.einsum(a, [x if isinstance(x, Arr) else self.mkarray(x) for x in args[1:]])
            if r is not None:
                return r
        if short in ('diff', 'flip', 'flipud', 'fliplr', 'roll', 'cumsum', 'cumprod', 'triu', 'tril', 'diag', 'diagonal', 'cross', 'outer', 'inner', 'norm', 'fft',
                     'ifft', 'sort', 'argsort', 'where', 'tile', 'expand_dims', 'moveaxis', 'take', 'rollaxis', 'median', 'searchsorted',
                     'histogram'):
            r = self.np_els(short, name, args, kws)
            if r is not None:
                return r
        if short in ('isnan', 'isinf', 'isfinite') and has_data(a):
            # elements are real numbers here
            return Arr(a.shape, ('call', short, a.term), 'bool', [('const', short == 'isfinite')] * len(a.data))
        if short in ('abs', 'absolute') and has_data(a) and not kws and len(args) == 1 and all(e[0] == 'const' and type(e[1]) in (int, float) for e in a.data):
            return Arr(a.shape, ('call', short, a.term), a.dtype, [('const', abs(e[1])) for e in a.data])
        if short in SAMESHAPE and isinstance(a, Arr):
            return Arr(a.shape, ('call', short) + tuple(term(x) for x in args), a.dtype,
                       self.elementwise(short, args) if short not in ('roll', 'flip', 'flipud', 'fliplr', 'sort', 'argsort', 'cumsum', 'cumprod', 'fft', 'ifft') else None)
        if 0:
            return Arr(a.shape, ('call', short) + tuple(term(x) for x in args), a.dtype)
        if short == 'where' and len(args) == 3:
            s = ()
            for x in args:
                s = self.bshape(s, x.shape if isinstance(x, Arr) else ())
                if s is None or s == 'mismatch':
                    s = None
                    break
            return Arr(s, ('call', 'where') + tuple(term(x) for x in args))
        if short == 'broadcast_to' and isinstance(a, Arr):
            sh = args[1]
            return Arr(sh if isinstance(sh, (list, tuple)) else None, ('call', 'broadcast_to', a.term, term(sh)))
        if short == 'tile' and isinstance(a, Arr):
            reps = args[1]
            t = ('call', 'tile', a.term, term(reps))
            if isinstance(reps, (list, tuple)) and a.shape is not None and len(reps) >= len(a.shape):
                sh = (1,) * (len(reps) - len(a.shape)) + a.shape
                out = []
                for p, q in zip(sh, reps):
                    if p == 1 and isinstance(q, Top):
                        out.append(Dim(('val', q.term)))
                    elif isinstance(q, (int, Dim)):
                        out.append(q if p == 1 else self.dimop('*', p, q) if isinstance(p, Dim) or isinstance(q, Dim) else p * q)
                    else:
                        return Arr(None, t)
                return Arr(out, t)
            return Arr(None, t)
        if short in ('trapezoid', 'trapz', 'simpson', 'simps'):
            r = self.quad(short, args, kws)
            if r is not None:
                return r
        if short == 'meshgrid' and len(args) >= 2 and all(has_data(x) and len(x.shape) == 1 for x in args):
            ij = kws.get('indexing', 'xy') == 'ij'
            sh = [len(x.data) for x in args]
            osh = list(sh)
            if not ij:
                osh[0], osh[1] = sh[1], sh[0]
            out = []
            for k, x in enumerate(args):
                ax = k if ij or k > 1 else 1 - k
                out.append(Arr(osh, ('call', 'meshgrid', x.term, ('const', k)), x.dtype,
                               [x.data[cc[ax]] for cc in itertools.product(*[range(d) for d in osh])]))
            return out
        if short in ('isscalar',):
            return Top(('call', name, term(a)), 'bool')
        if short == 'ndim' and isinstance(a, Arr):
            return self.getattr(a, 'ndim')
        if short == 'shape' and isinstance(a, Arr):
            return self.getattr(a, 'shape')
        if short in ('allclose', 'array_equal'):
            return Top(('call', name) + tuple(term(x) for x in args), 'bool')
        if short in ('float32', 'float64') and args:
            return Top(term(a), 'float')
        return NotImplemented

    # -- builtins --------------------------------------------------------
    def b_len(self, args, kws, node, fr):
        v = args[0]
        if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
            return len(v)
        if isinstance(v, Arr):
            return v.shape[0] if v.shape else Top(('len', v.term), 'int')
        if isinstance(v, Top):
            return v.n if v.n is not None else Top(('len', v.term), 'int')
        if isinstance(v, Obj):
            f = v.cls.find('__len__')
            if f is not None:
                return self.call_fn(Fn(f), [], {}, node, v)
        if v is None:
            raise AbsRaise('TypeError', 'len(None)', node)
        return Top(('len', term(v)), 'int')

    def seqof(self, args, node, make, kind):
        if not args:
            return make([])
        v = args[0]
        if isinstance(v, Top):
            return Top(v.term, kind, v.n)
        items, g = self.iterate(v, node)
        if g:
            return Top(term(v), kind)
        return make(items)

    def b_list(self, args, kws, node, fr):
        return self.seqof(args, node, list, 'list')

    def b_tuple(self, args, kws, node, fr):
        return self.seqof(args, node, tuple, 'list')

    def b_set(self, args, kws, node, fr):
        def mk(items):
            if not all(isinstance(x, (str, int, float, tuple, type(None))) for x in items):
                return Top(('set',) + tuple(term(x) for x in items), 'set')
            return set(items)
        return self.seqof(args, node, mk, 'set')

    b_frozenset = b_set

    def b_dict(self, args, kws, node, fr):
        d = {}
        if args:
            a = args[0]
            if isinstance(a, dict):
                d.update(a)
            elif isinstance(a, Top):
                return Top(a.term, 'dict')
            else:
                items, g = self.iterate(a, node)
                if g:
                    return Top(('dictof', term(a)), 'dict')
                for kv in items:
                    if not isinstance(kv, (tuple, list)) or len(kv) != 2 or not conc(kv[0]):
                        return Top(('dictof', term(a)), 'dict')
                    d[kv[0]] = kv[1]
        d.update(kws)
        return d

    def b_range(self, args, kws, node, fr):
        if all(isinstance(a, int) for a in args):
            return range(*args)
        return Range(args)

    def b_enumerate(self, args, kws, node, fr):
        st = kws.get('start', args[1] if len(args) > 1 else 0)
        items, g = self.iterate(args[0], node)
        if g:
            return Gen([(Top(('loopvar', ('enum', term(args[0])), self.fresh('i')), 'int'), x) for x in items], True)
        return [(st + i if isinstance(st, int) else Top(('op', '+', term(st), ('const', i)), 'int'), x) for i, x in enumerate(items)]

    def b_zip(self, args, kws, node, fr):
        its = [self.iterate(a, node) for a in args]
        if any(g for _, g in its):
            return Gen([tuple(x[0] if x else Top(('?',)) for x, g in its)], True)
        return [tuple(t) for t in zip(*[x for x, g in its])]

    def b_sorted(self, args, kws, node, fr):
        v = args[0]
        items, g = (None, True) if isinstance(v, (Top, Arr)) else self.iterate(v, node)
        if g or not all(conc(x) for x in items) or kws:
            if kws.get('reverse') in (True, False) and not g and all(conc(x) for x in items) and set(kws) == {'reverse'}:
                return sorted(items, reverse=kws['reverse'])
            if not g and all(conc(x) for x in items) and set(kws) <= {'key', 'reverse'} and kws.get('key') is not None and kws.get('reverse', False) in (True, False):
                kf = kws['key']
                try:
                    return sorted(items, key=lambda x: self.call(kf, [x], {}, node, fr), reverse=kws.get('reverse', False))
                except TypeError:
                    pass
            return Top(('sorted', term(v)), 'list')
        try:
            return sorted(items)
        except TypeError:
            return Top(('sorted', term(v)), 'list')

    def b_reversed(self, args, kws, node, fr):
        items, g = self.iterate(args[0], node)
        return Gen(list(reversed(items)), g) if g else list(reversed(items))

    def b_iter(self, args, kws, node, fr):
        v = args[0]
        if isinstance(v, Obj):
            f = v.cls.find('__iter__')
            if f is not None:
                return self.call_fn(Fn(f), [], {}, node, v)
            if v.cls.find('__getitem__') is None and not any(b != 'object' for c in v.cls.mro() for b in c.ext_bases):
                raise AbsRaise('TypeError', 'not iterable', node)
        if v is None or isinstance(v, (bool, int, float, Dim)) or isinstance(v, Top) and v.kind in ('int', 'float', 'bool'):
            raise AbsRaise('TypeError', 'not iterable', node)
        items, g = self.iterate(v, node)
        return Gen(items, g)

    def b_next(self, args, kws, node, fr):
        v = args[0]
        if isinstance(v, Obj) and v.cls.find('__next__'):
            return self.call_fn(Fn(v.cls.find('__next__')), [], {}, node, v)
        if isinstance(v, Gen) and v.items:
            return v.items.pop(0) if not v.generic else v.items[0]
        return Top(('next', term(v)))

    def b_isinstance(self, args, kws, node, fr):
        v, t = args
        ts = t if isinstance(t, tuple) else (t,)
        res = False
        for c in ts:
            r = self.isinst(v, c)
            if r is True:
                return True
            if isinstance(r, Top):
                res = r
        return res

    def isinst(self, v, c):
        if isinstance(c, Cls):
            if isinstance(v, Obj):
                return c.ci in v.cls.mro()
            if isinstance(v, Top) and v.kind is None:
                return Top(('isinstance', v.term, c.ci.name), 'bool')
            return False
        if isinstance(c, Ext):
            n = c.name.split('.')[-1]
            py = {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'int': int, 'float': float, 'bool': bool, 'set': set,
                  'slice': Slice, 'ndarray': Arr, 'range': range, 'bytes': bytes, 'complex': complex}
            if n in py:
                if isinstance(v, Top):
                    if v.kind is None:
                        return Top(('isinstance', v.term, n), 'bool')
                    return v.kind == n
                if isinstance(v, Dim):
                    return n == 'int'
                return isinstance(v, py[n])
            if n in ('integer', 'Integral'):
                if isinstance(v, (int, Dim)) and n == 'Integral':
                    return True
                if isinstance(v, Top):
                    return Top(('isinstance', v.term, n), 'bool')
                return False
            if n in ('NoneType', 'memoryview') and not isinstance(v, Top):
                return n == 'NoneType' and v is None
            if n in ('Iterable', 'Sequence', 'Mapping', 'Number'):
                if isinstance(v, (list, tuple)):
                    return n in ('Iterable', 'Sequence')
                if v is None:
                    return False
            if n in ('IOBase', 'TextIOBase', 'str_', 'string_', 'integer', 'floating', 'number', 'generic') and not isinstance(v, Top):
                return False
        return Top(('isinstance', term(v), show(term(c))), 'bool')

    def b_hasattr(self, args, kws, node, fr):
        if isinstance(args[1], str):
            return self.hasattr(args[0], args[1])
        return Top(('hasattr', term(args[0]), term(args[1])), 'bool')

    def b_getattr(self, args, kws, node, fr):
        if not isinstance(args[1], str):
            if isinstance(args[0], Obj):
                raise Unsupported('getattr with an unknown name')
            return Top(('getattr', term(args[0]), term(args[1])))
        try:
            return self.getattr(args[0], args[1], node)
        except AbsRaise as e:
            if e.name == 'AttributeError' and len(args) > 2:
                return args[2]
            raise

    def b_setattr(self, args, kws, node, fr):
        if not isinstance(args[1], str):
            raise Unsupported('setattr with an unknown name')
        self.setattr(args[0], args[1], args[2], node)

    def b_delattr(self, args, kws, node, fr):
        if isinstance(args[0], Obj) and isinstance(args[1], str):
            args[0].attrs.pop(args[1], None)

    def b_type(self, args, kws, node, fr):
        v = args[0]
        if isinstance(v, Obj):
            return Cls(v.cls)
        if isinstance(v, Arr):
            return Ext('numpy.ndarray')
        if isinstance(v, Top):
            return Ext({'list': 'list', 'dict': 'dict', 'str': 'str', 'float': 'float', 'int': 'int', 'bool': 'bool'}[v.kind]) \
                if v.kind in ('list', 'dict', 'str', 'float', 'int', 'bool') else Top(('type', v.term))
        if isinstance(v, Dim):
            return Ext('int')
        if isinstance(v, Slice):
            return Ext('slice')
        return Ext(type(v).__name__)

    def minmax(self, name, args, kws, node):
        items = args
        if len(args) == 1:
            if has_els(args[0]) and len(args[0].shape) == 1:
                return self.reduce_els(name, args[0], None, {})
            if isinstance(args[0], (Arr, Top)):
                return Top(('call', name, term(args[0])), 'float')
            items, g = self.iterate(args[0], node)
            if g:
                return Top(('call', name, term(args[0])), 'float')
        if all(isinstance(x, (int, float)) for x in items) and items and not kws:
            return {'min': min, 'max': max}[name](items)
        if len(set(items) if all(isinstance(x, Dim) for x in items) else [1, 2]) == 1:
            return items[0]
        if len(items) > 1 and not kws and all(isinstance(x, (int, float)) or isinstance(x, Top) and x.kind in ('float', 'int') for x in items):
            return Top(('red', name) + tuple(term(x) for x in items), 'float')
        return Top(('call', name) + tuple(term(x) for x in items), 'float')

    def b_min(self, args, kws, node, fr):
        return self.minmax('min', args, kws, node)

    def b_max(self, args, kws, node, fr):
        return self.minmax('max', args, kws, node)

    def b_sum(self, args, kws, node, fr):
        v = args[0]
        if has_els(v) and len(v.shape) == 1 and len(args) == 1:
            return self.reduce_els('sum', v, None, {})
        if isinstance(v, (Top, Arr)):
            return Top(('call', 'sum', term(v)), 'float')
        items, g = self.iterate(v, node)
        if g:
            return Top(('call', 'sum', term(v)), 'float')
        acc = args[1] if len(args) > 1 else kws.get('start', 0)
        for x in items:
            acc = self.binop('+', acc, x, node) if not (acc == 0 and isinstance(acc, int) and isinstance(x, (Dim, Arr))) else x
        return acc

    def b_any(self, args, kws, node, fr):
        v = args[0]
        if isinstance(v, (Top, Arr)):
            return Top(('call', 'any', term(v)), 'bool')
        items, g = self.iterate(v, node)
        for x in items:
            if self.truth(x):
                return True
        return False

    def b_all(self, args, kws, node, fr):
        v = args[0]
        if isinstance(v, (Top, Arr)):
            return Top(('call', 'all', term(v)), 'bool')
        items, g = self.iterate(v, node)
        for x in items:
            if not self.truth(x):
                return False
        return True

    def b_map(self, args, kws, node, fr):
        items, g = self.iterate(args[1], node)
        out = [self.call(args[0], [x], {}, node, fr) for x in items]
        return Gen(out, True) if g else out

    def b_filter(self, args, kws, node, fr):
        items, g = self.iterate(args[1], node)
        if g:
            return Gen(items, True)
        return [x for x in items if self.truth(x if args[0] is None else self.call(args[0], [x], {}, node, fr))]

    def b_print(self, args, kws, node, fr):
        f = kws.get('file')
        if f is not None:
            if isinstance(f, Obj) and self.texts is not None:
                t = self.fmt_text((kws.get('sep') or ' ').join(['%s'] * len(args)) + kws.get('end', '\n'), tuple(args))
                if t is not None:
                    self.call(self.getattr(f, 'write'), [t], {}, node)
                    return None
            self.foreign.add('print')
        return None

    def b_id(self, args, kws, node, fr):
        return Top(('id', term(args[0])), 'int')

    def b_callable(self, args, kws, node, fr):
        return isinstance(args[0], (Fn, Bound, Meth, Ext, Cls)) or Top(('callable', term(args[0])), 'bool')

    def b_slice(self, args, kws, node, fr):
        if len(args) == 1:
            return Slice(None, args[0], None)
        return Slice(args[0], args[1], args[2] if len(args) > 2 else None)

    def b_eval(self, args, kws, node, fr):
        if not isinstance(args[0], str):
            return Top(('eval', term(args[0])))
        try:
            e = ast.parse(args[0].strip(), mode='eval').body
        except SyntaxError:
            raise AbsRaise('SyntaxError', args[0], node)
        for x in ast.walk(e):
            if hasattr(x, 'lineno'):
                x.lineno = getattr(node, 'lineno', 0)
        return self.ev(e, fr)

    def b_vars(self, args, kws, node, fr):
        return args[0].attrs if args and isinstance(args[0], Obj) else Top(('vars',))


def eval_binop(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(b) < 1000:
            return a ** b
        raise ValueError
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    if op == '<<':
        return a << b
    if op == '>>':
        return a >> b
    raise ValueError(op)
