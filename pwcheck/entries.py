"""Entry points (public functions, constructors, methods) and the abstract
argument contexts they are analysed in."""
import ast
import itertools
import re

from .model import FunctionInfo, ClassInfo, dotted, walk_scope
from .absint import (Interp, State, Frame, Obj, V, VT, T, E, ANY, NONE, VNONE, VBOOL,
                     const, TRUE, FALSE, vjoin, join_state)

IMMUT = ('int', 'float', 'str', 'string', 'bool', 'callable', 'func', 'number', 'scalar', 'complex', 'integer')


def doc_param_types(f):
    """{param: type text} from a numpydoc style docstring (function or class)"""
    doc = f.doc()
    if not doc and f.name == '__init__' and f.cls is not None:
        doc = ast.get_docstring(f.cls.node) or ''
    return _doc_types(doc)


_dt_cache = {}


def _doc_types(doc):
    if doc in _dt_cache:
        return _dt_cache[doc]
    out = {}
    for line in doc.splitlines():
        m = re.match(r'^\s*([\w*]+(?:\s*,\s*[\w*]+)*)\s*:\s*(.+)$', line)
        if m:
            for n in m.group(1).split(','):
                out.setdefault(n.strip().lstrip('*'), m.group(2).strip())
    _dt_cache[doc] = out
    return out


def scalar_kind(text):
    """'int' | 'float' | 'str' | 'bool' | None from a docstring type text"""
    t = text.lower()
    words = re.findall(r'[a-z]+', t)
    if not words:
        return None
    bad = {'array', 'list', 'sequence', 'seq', 'dict', 'tuple', 'nd', 'arrays', 'lists', 'iterable', 'instance',
           'object', 'structure', 'trajectory', 'matrix', 'vector', 'set', 'ndarray', 'or'}
    w = words[0]
    if set(words) & bad:
        return None
    if w in ('int', 'integer'):
        return 'int'
    if w in ('float', 'scalar', 'number'):
        return 'float'
    if w in ('str', 'string'):
        return 'str'
    if w == 'bool':
        return 'bool'
    return None


def compared_consts(f, name):
    """string constants the parameter is compared with in the function"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare):
            sides = [n.left] + n.comparators
            if any(isinstance(s, ast.Name) and s.id == name for s in sides):
                for s in sides:
                    for c in ast.walk(s):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value not in out:
                            out.append(c.value)
    return out


def compared_ints(f, name):
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare):
            sides = [n.left] + n.comparators
            if any(isinstance(s, ast.Name) and s.id == name for s in sides):
                if not all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in n.ops):
                    return []
                for s in sides:
                    for c in ast.walk(s):
                        if isinstance(c, ast.Constant) and type(c.value) is int and c.value not in out:
                            out.append(c.value)
    return out


def params_of(f, skip_self):
    ps = list(f.posargs)
    if skip_self and ps:
        ps = ps[1:]
    return ps


class EntryPoint:
    def __init__(self, f, cls=None):
        self.f = f
        self.cls = cls

    @property
    def label(self):
        if self.cls is not None:
            return '%s.%s.%s' % (self.cls.module.name, self.cls.name, self.f.name)
        return self.f.fq


def public_entries(prog, private=False):
    out = []
    for m in prog.modules.values():
        for f in m.functions.values():
            if f.name.startswith('_') and not private:
                continue
            out.append(EntryPoint(f))
        for c in m.classes.values():
            if c.name.startswith('_'):
                continue
            seen = set()
            for k in c.mro():
                for n, f in k.methods.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if n.startswith('_') and n not in ('__init__', '__call__', '__getitem__', '__iter__', '__next__'):
                        continue
                    out.append(EntryPoint(f, c))
    return out


def option_space(f, skip_self, overrides=None):
    """{param: [candidate values]} for flag-like params"""
    dv = {}
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        dv[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dv[p.arg] = d
    out = {}
    types = doc_param_types(f)
    for p in params_of(f, skip_self) + f.kwonly:
        if overrides and p in overrides:
            out[p] = overrides[p]
            continue
        d = dv.get(p)
        cs = compared_consts(f, p)
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            out[p] = [V(const(d.value)), V(const(not d.value))]
        elif cs and (isinstance(d, ast.Constant) and (isinstance(d.value, str) or d.value is None) or
                     scalar_kind(types.get(p, '')) == 'str' or p in ('mode', 'method', 'kind', 'what', 'case')):
            vals = []
            if isinstance(d, ast.Constant):
                vals.append(V(const(d.value)))
            for c in cs:
                if V(const(c)) not in vals:
                    vals.append(V(const(c)))
            out[p] = vals
        elif isinstance(d, ast.Constant) and type(d.value) is int and compared_ints(f, p):
            vals = [V(const(d.value))]
            for c in compared_ints(f, p):
                if V(const(c)) not in vals:
                    vals.append(V(const(c)))
            out[p] = vals
    return out


class _Given:
    def __repr__(self):
        return 'given'


GIVEN = _Given()


def contexts(f, skip_self, cap=24, overrides=None, deep=False):
    """option values to analyse f with; parameters with default None are split
    into None / given when there are at most two of them"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    dv = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
    dv.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    base = list(contexts0(f, skip_self, cap, overrides))
    names = [p for p in params_of(f, skip_self) + f.kwonly
             if isinstance(dv.get(p), ast.Constant) and dv[p].value is None and not any(p in b for b in base)]
    if not 1 <= len(names) <= 2 or len(base) * 2 ** len(names) > 2 * cap:
        yield from base
        if names and deep:
            one = [{n: VNONE for n in names}] + [{m: (GIVEN if m == n else VNONE) for m in names} for n in names] \
                + [{m: (VNONE if m == n else GIVEN) for m in names} for n in names]
            for b in base[:1] + (base[-1:] if len(base) > 1 else []):
                for o in one:
                    yield dict(b, **o)
        return
    for b in base:
        for combo in itertools.product((VNONE, GIVEN), repeat=len(names)):
            d = dict(b)
            d.update(zip(names, combo))
            yield d


def contexts0(f, skip_self, cap=24, overrides=None):
    sp = option_space(f, skip_self, overrides)
    names = [p for p in sp if len(sp[p]) > 1]
    fixed = {p: v[0] for p, v in sp.items() if len(v) == 1}
    n = 1
    for p in names:
        n *= len(sp[p])
    if n <= cap:
        for combo in itertools.product(*[sp[p] for p in names]):
            d = dict(fixed)
            d.update(zip(names, combo))
            yield d
        return
    # pairwise variation around the defaults, everything else joined
    base = {p: sp[p][0] for p in names}
    yielded = 0
    d = dict(fixed)
    d.update(base)
    yield d
    for p in names:
        for v in sp[p][1:]:
            d = dict(fixed)
            d.update(base)
            d[p] = v
            yield d
    d = dict(fixed)
    d.update({p: vjoin(*sp[p]) for p in names})
    yield d


def arg_values(it, st, f, skip_self, ctx, label, typed=None):
    """abstract arguments {param: V}"""
    types = doc_param_types(f)
    a = f.node.args
    dv = {}
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        dv[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dv[p.arg] = d
    out = {}
    for p in params_of(f, skip_self) + f.kwonly:
        given = ctx.get(p) is GIVEN
        if p in ctx and not given:
            out[p] = ctx[p]
            continue
        if typed is not None:
            t = typed(f, p)
            if t is not None:
                out[p] = t(it, st)
                continue
        d = dv.get(p)
        k = scalar_kind(types.get(p, ''))
        if k is None and isinstance(d, ast.Constant) and d.value is not None and d.value is not Ellipsis:
            k = type(d.value).__name__
            if k == 'int':
                k = 'num'
        if k == 'bool':
            v = VBOOL
        elif k:
            v = VT(k)
        else:
            v = it.opaque(st, 'param:%s:%s' % (label, p))
        if isinstance(d, ast.Constant) and d.value is None:
            if not given:
                v = v | VNONE
        elif d is not None and not isinstance(d, ast.Constant):
            v = v | it.default_vals.get(f, {}).get(p, E)
        out[p] = v
    if f.vararg:
        out['*' + f.vararg] = it.opaque(st, 'param:%s:*%s' % (label, f.vararg))
    return out


def call_entry(it, st, f, args, selfv=None, closure=None):
    """call with an already bound argument map"""
    args = dict(args)
    star = None
    if f.vararg and ('*' + f.vararg) in args:
        star = args.pop('*' + f.vararg)
    kw = dict(args)
    pos = []
    if selfv is not None:
        pos = [selfv]
    if star is not None:
        # positional params must be given positionally when varargs exist
        pp = params_of(f, selfv is not None)
        pos = pos + [kw.pop(p) for p in pp]
        pos = pos + [star]
    return it.call_func(f, closure, f.node, pos, kw, st)


def with_module_frame(it, m):
    it.stack = [Frame(m)]
    it.callsites = []
    it.in_fix = 0
