"""Symbolic terms: which text, path or value reaches a call, and under which tests.

Every root function is evaluated once with symbolic parameters; calls of
package functions are inlined (bounded depth). Values are frozensets of
alternative terms, terms are tuples:

 ('const', v) ('param', name) ('self', attr) ('attr', V, name) ('global', dotted)
 ('fn', FunctionInfo) ('cls', ClassInfo) ('new', ClassInfo, key) ('str', parts) with parts literal
 text or V; ('join', sep, V) ('keys', V) ('values', V) ('items', V) ('len', V)
 ('sorted', V) ('rep', V, V) ('map', V, V, filtered) ('elem', V) ('item', V, key)
 ('seq', (V, ...)) ('call', name, (V, ...), ((k, V), ...)) ('op', name, V, ...)

Events: visitor.call(ctx, node, target, recv, args, kws, st) before each call is
interpreted. st.guards are the tests known on the path ((text, truth) with the
terms), st.done what has certainly been called before.
"""
import ast

from .model import dotted, FunctionInfo, ClassInfo, ModuleInfo

EMPTY = frozenset()
MAXALT = 14


def V(*t):
    return frozenset(t)


class St:
    __slots__ = ('env', 'guards', 'done', 'data')

    def __init__(self, env, guards=frozenset(), done=frozenset(), data=frozenset()):
        self.env = env
        self.guards = guards
        self.done = done
        self.data = data        # for the visitor; may-information

    def copy(self):
        return St(dict(self.env), self.guards, self.done, self.data)


def join(a, b, test=None):
    """test: (key) of the branch; facts of one side become conditional"""
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = env.get(k, EMPTY) | v
        if len(env[k]) > MAXALT:
            env[k] = V(('many', k))
    done = a.done & b.done
    if test is None and a.done != b.done:
        # the states are told apart by a test of which each knows the outcome
        for t, v in sorted(a.guards - b.guards, key=repr):
            if (t, not v) in b.guards:
                test = t if v else ('not', t)
                break
    if test is not None:
        done |= frozenset(('if', test, True, d) for d in a.done - b.done if len(repr(d)) < 2000)
        done |= frozenset(('if', test, False, d) for d in b.done - a.done if len(repr(d)) < 2000)
    return St(env, a.guards & b.guards, done, a.data | b.data)


class Ctx:
    def __init__(self, fi, ctx=None, depth=0, selfv=None, node=None):
        self.fi = fi
        self.node = node        # the call that was inlined
        self.up = ctx
        self.depth = depth
        self.selfv = selfv      # V of the receiver when inlined with another receiver
        self.rets = []
        self.ret_states = []
        self.root = ctx.root if ctx else fi

    def chain(self):
        c, out = self, []
        while c is not None:
            out.append(c.fi)
            c = c.up
        return out


class Terms:
    def __init__(self, prog, visitor, depth=3):
        self.prog = prog
        self.visitor = visitor
        self.maxdepth = depth
        self.local_funcs = {}

    def root(self, fi):
        ctx = Ctx(fi)
        env = {}
        for p in fi.posargs + fi.kwonly + [x for x in (fi.vararg, fi.kwarg) if x]:
            env[p] = V(('param', p))
        if fi.cls is not None and fi.parent is None and fi.posargs and not fi.is_static():
            env[fi.posargs[0]] = V(('selfobj',))
        ctx.end = None
        ctx.end = self.body(ctx, St(env))
        return ctx

    def body(self, ctx, st):
        n = ctx.fi.node
        if isinstance(n, ast.Lambda):
            v, st = self.ev(n.body, ctx, st), st
            ctx.rets.append(v)
            return st
        end = self.block(n.body, ctx, st)
        out = end
        for s in ctx.ret_states:
            out = join(out, s) if out is not None else s
        return out

    # -- statements: return the state after, or None -----------------------
    def block(self, body, ctx, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, ctx, st)
        return st

    def stmt(self, n, ctx, st):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = ctx.fi.module.fn_by_node.get(n)
            st = st.copy()
            st.env[n.name] = V(('fn', fi))
            return st
        if isinstance(n, ast.Return):
            st = st.copy()
            v = self.ev(n.value, ctx, st) if n.value is not None else V(('const', None))
            ctx.rets.append(v)
            ctx.ret_states.append(st)
            return None
        if isinstance(n, ast.Raise):
            if n.exc is not None:
                self.ev(n.exc, ctx, st.copy())
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            self.loops[-1].append(st)
            return None
        st = st.copy()
        if isinstance(n, ast.Expr):
            self.ev(n.value, ctx, st)
        elif isinstance(n, ast.Assign):
            v = self.ev(n.value, ctx, st)
            for t in n.targets:
                self.assign(t, v, ctx, st)
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.alias(n.targets[0].id, n.value, st)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, ctx, st), ctx, st)
        elif isinstance(n, ast.AugAssign):
            v = self.ev(ast.BinOp(self.load(n.target), n.op, n.value), ctx, st)
            self.assign(n.target, v, ctx, st)
        elif isinstance(n, ast.If):
            return self.if_(n.test, n.body, n.orelse, ctx, st)
        elif isinstance(n, ast.Assert):
            self.ev(n.test, ctx, st)
            self.guard(n.test, True, ctx, st)
            if n.msg is not None:
                self.ev(n.msg, ctx, st)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            if not hasattr(self, 'loops'):
                self.loops = []
            if isinstance(n, ast.While):
                self.ev(n.test, ctx, st)
            else:
                it = self.ev(n.iter, ctx, st)
            if not isinstance(n, ast.While):
                r = self.unroll(n, it, ctx, st)
                if r is not False:
                    return r
            entry = st
            out = st
            for _ in range(2):
                s = join(entry, out).copy() if out is not entry else entry.copy()
                s.done = entry.done
                s.guards = entry.guards
                if isinstance(n, ast.While):
                    self.guard(n.test, True, ctx, s)
                else:
                    self.assign(n.target, self.elem(it), ctx, s)
                self.loops.append([])
                e = self.block(n.body, ctx, s)
                br = self.loops.pop()
                for b in br:
                    e = join(e, b)
                if e is None:
                    break
                out = e
            # the body may run zero times
            r = join(entry, out)
            if isinstance(n, ast.While) and not any(isinstance(x, ast.Break) for x in ast.walk(n)):
                r = r.copy()
                self.guard(n.test, False, ctx, r)
            if n.orelse:
                r = self.block(n.orelse, ctx, r)
            return r
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                v = self.ev(it.context_expr, ctx, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, ctx, st)
            return self.block(n.body, ctx, st)
        elif isinstance(n, ast.Try):
            before = st.copy()
            e = self.block(n.body, ctx, st)
            if e is not None and n.orelse:
                e = self.block(n.orelse, ctx, e)
            for h in n.handlers:
                hs = join(before, e).copy() if e is not None else before.copy()
                hs.done = before.done
                if h.name:
                    hs.env[h.name] = V(('exc',))
                x = self.block(h.body, ctx, hs)
                e = join(e, x)
            if n.finalbody:
                f = self.block(n.finalbody, ctx, e if e is not None else before)
                e = f if e is not None else None
            return e
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
        return st

    def unroll(self, n, it, ctx, st):
        """a loop over a literal sequence runs once per element"""
        if len(it) != 1 or n.orelse or any(isinstance(x, ast.Break) for x in ast.walk(n)):
            return False
        t = next(iter(it))
        pred = None
        if t[0] == 'call' and t[1] == 'filter' and len(t[2]) == 2 and len(t[2][1]) == 1:
            pred = t[2][0]
            t = next(iter(t[2][1]))
        if t[0] != 'seq' or not 0 < len(t[1]) <= 8:
            return False
        for e in t[1]:
            s = st.copy()
            self.assign(n.target, e, ctx, s)
            self.loops.append([])
            r = self.block(n.body, ctx, s)
            for x in self.loops.pop():
                r = join(r, x)
            if r is None:
                return None
            if pred is not None:
                nm = next(iter(pred))
                key = ('truth', V(('call', nm[1] if nm[0] == 'global' else repr(nm[0]), (e,), ())))
                r = join(r, st, key)
            st = r
        return st

    def load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def if_(self, test, body, orelse, ctx, st):
        self.ev(test, ctx, st)
        tv = self.truth(test, ctx, st)
        a = b = None
        key = self.test_key(test, ctx, st)
        if tv is not False:
            a = st.copy()
            self.guard(test, True, ctx, a)
            a = self.block(body, ctx, a)
        if tv is not True:
            b = st.copy()
            self.guard(test, False, ctx, b)
            b = self.block(orelse, ctx, b)
        if a is None or b is None:
            return a if b is None else b
        return join(a, b, key)

    # -- tests ---------------------------------------------------------------
    def test_key(self, test, ctx, st):
        """canonical term of a test, without the negation"""
        k = self.test_term(test, ctx, st)
        return k[0] if k[1] else ('not', k[0])

    def test_term(self, test, ctx, st):
        """-> (term, polarity)"""
        pol = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l = self.quiet(test.left, ctx, st)
            r = self.quiet(test.comparators[0], ctx, st)
            op = type(test.ops[0]).__name__
            flip = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}
            if op in flip:
                op, pol = flip[op], not pol
            return ('cmp', op, l, r), pol
        return ('truth', self.quiet(test, ctx, st)), pol

    def quiet(self, n, ctx, st):
        vis, self.visitor = self.visitor, None
        try:
            return self.ev(n, ctx, st.copy())
        finally:
            self.visitor = vis

    def guard(self, test, truth, ctx, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.guard(test.operand, not truth, ctx, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    self.guard(v, truth, ctx, st)
            return
        if isinstance(test, ast.Name):
            for g in sorted((g[0] for g in st.guards if g[0][0] == 'alias' and g[0][1] == test.id), key=lambda g: g[2]):
                self.guard(self.aliased[g[2]], truth, ctx, st)
        self.refine(test, truth, st)
        t, pol = self.test_term(test, ctx, st)
        st.guards = st.guards | {(t, pol == truth)}
        # a boolean variable: what it stands for is known too
        if t[0] == 'truth' and len(t[1]) == 1:
            x = next(iter(t[1]))
            if x[0] == 'test':
                st.guards = st.guards | {(x[1], (x[2] == (pol == truth)))}

    def alias(self, name, test, st):
        """name = <test>: `if name:` tells what the test tells, until one of the
        names in it is assigned again"""
        e = test
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e = e.operand
        if not isinstance(e, (ast.Compare, ast.BoolOp)) and e is test:
            return
        names = frozenset(x.id for x in ast.walk(test) if isinstance(x, ast.Name))
        if name in names:
            return
        if not hasattr(self, 'aliased'):
            self.aliased, self.aliased_no = [], {}
        if id(test) not in self.aliased_no:
            self.aliased_no[id(test)] = len(self.aliased)
            self.aliased.append(test)
        attrs = any(isinstance(x, ast.Attribute) for x in ast.walk(test))
        st.guards = st.guards | {(('alias', name, self.aliased_no[id(test)], names, attrs), True)}

    def unalias(self, t, st):
        if any(g[0][0] == 'alias' for g in st.guards):
            if isinstance(t, ast.Name):
                st.guards = frozenset(g for g in st.guards if g[0][0] != 'alias' or g[0][1] != t.id and t.id not in g[0][3])
            elif isinstance(t, ast.Attribute):
                st.guards = frozenset(g for g in st.guards if g[0][0] != 'alias' or not g[0][4])

    def refine(self, test, truth, st):
        """x is None / x == 'const' narrow the alternatives of a variable"""
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant)
                and isinstance(test.left, ast.Name) and test.left.id in st.env):
            return
        op = type(test.ops[0]).__name__
        c = ('const', test.comparators[0].value)
        eq = {'Is': True, 'Eq': True, 'IsNot': False, 'NotEq': False}.get(op)
        if eq is None:
            return
        v = st.env[test.left.id]
        if eq == truth:
            return
        w = frozenset(t for t in v if t != c)
        if w:
            st.env[test.left.id] = w

    def truth(self, test, ctx, st):
        v = self.quiet(test, ctx, st)
        if len(v) == 1:
            x = next(iter(v))
            if x[0] == 'const':
                return bool(x[1])
        return None

    # -- expressions ------------------------------------------------------------
    def assign(self, t, v, ctx, st):
        self.unalias(t, st)
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, V(('op', 'rest', v)), ctx, st)
                else:
                    self.assign(e, self.item(v, i), ctx, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, ctx, st)
            if isinstance(t.value, ast.Name) and b == V(('selfobj',)):
                st.env['self.' + t.attr] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, ctx, st)
            self.ev(t.slice, ctx, st)

    def elem(self, v):
        out = set()
        for t in v:
            if t[0] == 'seq':
                for x in t[1]:
                    out |= x
                if not t[1]:
                    out.add(('elem', V(t)))
            elif t[0] == 'items':
                out.add(('pair', t[1]))
            elif t[0] == 'zip':
                out.add(('seq', tuple(self.elem(x) for x in t[1])))
            elif t[0] == 'enumerate':
                i = V(('index', t[1]))
                if len(t) > 2:
                    i = V(('op', 'Add', i, t[2]))
                out.add(('seq', (i, self.elem(t[1]))))
            elif t[0] == 'map':
                out |= t[1]
            elif t[0] == 'rep':
                out |= self.elem(t[1])
            else:
                out.add(('elem', V(t)))
        return frozenset(out) if len(out) <= MAXALT else V(('many', 'elem'))

    def item(self, v, i):
        out = set()
        for t in v:
            if t[0] == 'seq' and isinstance(i, int) and -len(t[1]) <= i < len(t[1]):
                out |= t[1][i]
            elif t[0] == 'pair' and i == 0:
                out.add(('elem', V(('keys', t[1]))))
            elif t[0] == 'pair' and i == 1:
                out.add(('elem', V(('values', t[1]))))
            else:
                out.add(('item', V(t), i))
        return frozenset(out)

    def resolve(self, n, ctx, st):
        """term of a Name / Attribute chain that is not a local variable"""
        d = dotted(n)
        if d is None:
            return None
        head = d.split('.')[0]
        if head in st.env:
            return None
        f = ctx.fi
        while f is not None:
            from_f = self.imports_of(f)
            if head in from_f:
                t = from_f[head]
                rest = d.split('.')[1:]
                if isinstance(t, str):
                    return ('global', '.'.join([t] + rest))
                r = t
                for p in rest:
                    if isinstance(r, ModuleInfo):
                        r = self.prog.module_attr(r, p)
                    else:
                        r = None
                return self.as_term(r, d)
            f = f.parent
        r = self.prog.resolve_expr(ctx.fi.module, n)
        if r is None:
            c = self.module_const(ctx.fi.module, n)
            if c is not None:
                return c
            if self.prog.module_attr(ctx.fi.module, head) is None:
                return ('global', d)
            return ('global', ctx.fi.module.name + '.' + d)
        return self.as_term(r, d, ctx.fi.module)

    def module_const(self, m, n):
        if isinstance(n, ast.Name):
            vals = [s.value for s in m.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1
                    and isinstance(s.targets[0], ast.Name) and s.targets[0].id == n.id]
            if len(vals) == 1 and isinstance(vals[0], ast.Constant):
                return ('const', vals[0].value)
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                r = self.prog.resolve_expr(m, vals[0])
                if isinstance(r, str):
                    return ('global', r)
                if isinstance(r, FunctionInfo):
                    return ('fn', r)
        return None

    def as_term(self, r, d, m=None):
        if isinstance(r, FunctionInfo):
            return ('fn', r)
        if isinstance(r, ClassInfo):
            return ('cls', r)
        if isinstance(r, str):
            return ('global', r)
        if isinstance(r, ModuleInfo):
            return ('mod', r)
        if isinstance(r, tuple) and r and r[0] == 'attr':
            c = self.module_const(r[1], ast.Name(r[2], ast.Load()))
            if c is not None:
                return c
            return ('global', '%s.%s' % (r[1].name, r[2]))
        if isinstance(r, ast.AST) and m is not None:
            c = self.module_const(m, ast.Name(d.split('.')[-1], ast.Load()))
            if c is not None:
                return c
        return ('global', d)

    def imports_of(self, fi):
        if not hasattr(fi, '_limports'):
            fi._limports = {}
            if not isinstance(fi.node, ast.Lambda):
                for n in ast.walk(fi.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for name, t in self.prog.import_targets(fi.module, n):
                            fi._limports[name] = t
        return fi._limports

    def ev(self, n, ctx, st):
        v = self.ev1(n, ctx, st)
        if len(v) > MAXALT:
            return V(('many', ast.unparse(n)[:40] if n is not None else ''))
        return v

    def ev1(self, n, ctx, st):
        if n is None:
            return V(('const', None))
        if isinstance(n, ast.Constant):
            return V(('const', n.value))
        if isinstance(n, ast.Name):
            if n.id in st.env:
                return st.env[n.id]
            return V(self.resolve(n, ctx, st) or ('global', n.id))
        if isinstance(n, ast.Attribute):
            r = self.resolve(n, ctx, st)
            if r is not None:
                return V(r)
            b = self.ev(n.value, ctx, st)
            return self.getattr(b, n.attr, ctx, st)
        if isinstance(n, ast.JoinedStr):
            parts = []
            for x in n.values:
                if isinstance(x, ast.Constant):
                    parts.append(x.value)
                else:
                    parts.append(self.ev(x.value, ctx, st))
            return V(('str', tuple(parts)))
        if isinstance(n, ast.BinOp):
            l = self.ev(n.left, ctx, st)
            r = self.ev(n.right, ctx, st)
            out = set()
            if isinstance(n.op, ast.Add) and (len(l) > 1) != (len(r) > 1):
                # text + name, the name one of several: the name stays one hole
                one, many = (r, l) if len(l) > 1 else (l, r)
                x = next(iter(one))
                if self.is_text(x) and not all(self.is_text(y) for y in many):
                    p = self.parts(x)
                    return V(('str', p + (many,) if one is l else (many,) + p))
            for a in l:
                if isinstance(n.op, ast.Mod) and self.is_text(a):
                    out.add(self.percent(a, r))
                elif isinstance(n.op, ast.Add):
                    for b in r:
                        if self.is_text(a) or self.is_text(b):
                            out.add(('str', self.parts(a) + self.parts(b)))
                        elif a[0] == 'const' and b[0] == 'const':
                            try:
                                out.add(('const', a[1] + b[1]))
                            except Exception:
                                out.add(('op', 'Add', V(a), V(b)))
                        else:
                            out.add(('op', 'Add', V(a), V(b)))
                elif isinstance(n.op, ast.Mult) and a[0] in ('seq',):
                    out.add(('rep', V(a), r))
                else:
                    out.add(('op', type(n.op).__name__, V(a), r))
            return frozenset(out)
        if isinstance(n, ast.BoolOp):
            out = set()
            for x in n.values:
                out |= self.ev(x, ctx, st)
            return frozenset(out)
        if isinstance(n, (ast.Compare,)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.ev(x, ctx, st)
            if isinstance(n, ast.Compare) and len(n.ops) > 1:
                return V(('op', 'chain', ))
            t, pol = self.test_term(n, ctx, st)
            return V(('test', t, pol))
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, ctx, st)
            if isinstance(n.op, ast.USub) and len(v) == 1 and next(iter(v))[0] == 'const' and \
                    isinstance(next(iter(v))[1], (int, float)):
                return V(('const', -next(iter(v))[1]))
            return V(('op', type(n.op).__name__, v))
        if isinstance(n, ast.IfExp):
            self.ev(n.test, ctx, st)
            tv = self.truth(n.test, ctx, st)
            out = EMPTY
            if tv is not False:
                a = st.copy()
                self.guard(n.test, True, ctx, a)
                out |= self.ev(n.body, ctx, a)
            if tv is not True:
                b = st.copy()
                self.guard(n.test, False, ctx, b)
                out |= self.ev(n.orelse, ctx, b)
            return out
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            els = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    return V(('op', 'star', *[self.ev(getattr(x, 'value', x) if isinstance(x, ast.Starred) else x, ctx, st) for x in n.elts]))
                els.append(self.ev(e, ctx, st))
            return V(('seq', tuple(els)))
        if isinstance(n, ast.Dict):
            return V(('dict', tuple((self.ev(k, ctx, st) if k is not None else V(('star',)), self.ev(v, ctx, st))
                                    for k, v in zip(n.keys, n.values))))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            s = st.copy()
            its = []
            filt = False
            for g in n.generators:
                it = self.ev(g.iter, ctx, s)
                its.append(it)
                self.assign(g.target, self.elem(it), ctx, s)
                for c in g.ifs:
                    filt = True
                    self.ev(c, ctx, s)
                    self.guard(c, True, ctx, s)
            if isinstance(n, ast.DictComp):
                k = self.ev(n.key, ctx, s)
                e = self.ev(n.value, ctx, s)
                return V(('dictmap', k, e, its[0] if len(its) == 1 else V(('op', 'product', *its)), filt))
            else:
                e = self.ev(n.elt, ctx, s)
            if len(its) > 1:
                return V(('map', e, V(('op', 'product', *its)), filt))
            return V(('map', e, its[0], filt))
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, ctx, st)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, (int, str)):
                return self.item(b, n.slice.value)
            if isinstance(n.slice, ast.Slice):
                if n.slice.lower is None and n.slice.upper is None and n.slice.step is None:
                    return b
                return V(('slice', b, ast.unparse(n.slice)))
            i = self.ev(n.slice, ctx, st)
            if len(i) == 1 and next(iter(i))[0] == 'const' and isinstance(next(iter(i))[1], (int, str)):
                return self.item(b, next(iter(i))[1])
            out = set()
            for k in i:
                # X[k] for k an element of X's keys
                if k[0] == 'elem' and k[1] == b:
                    out.add(('elem', V(('values', b))))
                elif k[0] == 'elem' and len(k[1]) == 1 and next(iter(k[1]))[0] in ('keys', 'sorted'):
                    x = next(iter(k[1]))
                    inner = x[1]
                    if x[0] == 'sorted' and len(inner) == 1 and next(iter(inner))[0] == 'keys':
                        inner = next(iter(inner))[1]
                    if inner == b:
                        out.add(('elem', V(('values', b))))
                    else:
                        out.add(('item', b, i))
                else:
                    out.add(('item', b, i))
            return frozenset(out)
        if isinstance(n, ast.Call):
            return self.call(n, ctx, st)
        if isinstance(n, ast.Lambda):
            fi = ctx.fi.module.fn_by_node.get(n)
            return V(('fn', fi)) if fi else V(('lambda',))
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, ctx, st)
            self.assign(n.target, v, ctx, st)
            return v
        if isinstance(n, ast.Starred):
            return self.ev(n.value, ctx, st)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, ctx, st)
        return V(('expr', ast.unparse(n)[:60]))

    def getattr(self, b, attr, ctx, st):
        out = set()
        for t in b:
            if t == ('selfobj',):
                if 'self.' + attr in st.env:
                    out |= st.env['self.' + attr]
                    continue
                c = self.owner(ctx)
                m = c.find(attr) if c is not None else None
                if isinstance(m, FunctionInfo):
                    out.add(('method', m, ('selfobj',)))
                elif ctx.selfv is not None:
                    for s in ctx.selfv:
                        out.add(('attr', V(s), attr))
                else:
                    out.add(('self', attr))
            elif t[0] == 'new':
                m = t[1].find(attr)
                if isinstance(m, FunctionInfo):
                    out.add(('method', m, t))
                else:
                    out.add(('attr', V(t), attr))
            elif t[0] == 'mod':
                r = self.prog.module_attr(t[1], attr)
                out.add(self.as_term(r, t[1].name + '.' + attr))
            else:
                out.add(('attr', V(t), attr))
        return frozenset(out)

    def owner(self, ctx):
        f = ctx.fi
        while f is not None and f.cls is None:
            f = f.parent
        return f.cls if f is not None else None

    # -- text -------------------------------------------------------------------
    def is_text(self, t):
        return t[0] == 'str' or t[0] == 'const' and isinstance(t[1], str) or t[0] == 'join'

    def parts(self, t):
        if t[0] == 'str':
            return t[1]
        if t[0] == 'const' and isinstance(t[1], str):
            return (t[1],)
        return (V(t),)

    def percent(self, a, r):
        """template % args -> ('str', parts)"""
        import re
        tmpl = self.parts(a)
        args = None
        named = None
        if len(r) == 1:
            x = next(iter(r))
            if x[0] == 'seq':
                args = list(x[1])
            elif x[0] == 'dict':
                named = dict()
                for k, v in x[1]:
                    for kk in k:
                        if kk[0] == 'const':
                            named[kk[1]] = v
        if args is None:
            args = [r]
        out = []
        i = 0
        for p in tmpl:
            if not isinstance(p, str):
                out.append(p)
                continue
            pos = 0
            for m in re.finditer(r'%(\((\w+)\))?[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', p):
                out.append(p[pos:m.start()])
                pos = m.end()
                if m.group(6) == '%':
                    out.append('%')
                    continue
                if m.group(2):
                    v = (named or {}).get(m.group(2), V(('item', r, m.group(2))))
                else:
                    v = args[i] if i < len(args) else V(('many', 'fmt'))
                    i += 1
                c = next(iter(v)) if len(v) == 1 else None
                if c is not None and c[0] == 'const' and isinstance(c[1], str) and m.group(6) == 's' and not m.group(3):
                    out.append(c[1])
                elif c is not None and c[0] == 'str' and m.group(6) == 's':
                    out.extend(c[1])
                elif m.group(6) in 'dioxXeEfFgG':
                    out.append(V(('number', v)))
                else:
                    out.append(v)
            out.append(p[pos:])
        return self.mkstr(out)

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return ('const', '')
        if len(out) == 1 and isinstance(out[0], str):
            return ('const', out[0])
        return ('str', tuple(out))

    def format_method(self, t, args, kws):
        import string
        out = []
        i = 0
        for p in self.parts(t):
            if not isinstance(p, str):
                out.append(p)
                continue
            try:
                for lit, field, spec, conv in string.Formatter().parse(p):
                    out.append(lit)
                    if field is None:
                        continue
                    head = field.split('.')[0].split('[')[0]
                    if head == '':
                        v = args[i] if i < len(args) else V(('many', 'fmt'))
                        i += 1
                    elif head.isdigit():
                        v = args[int(head)] if int(head) < len(args) else V(('many', 'fmt'))
                    else:
                        v = kws.get(head, V(('many', head)))
                    if field != head:
                        v = V(('attr', v, field[len(head) + 1:]))
                    c = next(iter(v)) if len(v) == 1 else None
                    if c is not None and c[0] == 'const' and isinstance(c[1], str) and not spec:
                        out.append(c[1])
                    elif c is not None and c[0] == 'str' and not spec:
                        out.extend(c[1])
                    else:
                        out.append(v)
            except ValueError:
                out.append(V(('many', 'fmt')))
        return self.mkstr(out)

    # -- calls ------------------------------------------------------------------
    def call(self, n, ctx, st):
        f = n.func
        fv = self.ev(f, ctx, st)
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, ctx, st)
                if not star and len(sv) == 1 and next(iter(sv))[0] == 'seq':
                    args += list(next(iter(sv))[1])
                else:
                    star = True
            else:
                args.append(self.ev(a, ctx, st))
        kws = {}
        for k in n.keywords:
            v = self.ev(k.value, ctx, st)
            if k.arg is None:
                one = next(iter(v)) if len(v) == 1 else None
                if one is not None and one[0] == 'dict' and all(len(kk) == 1 and next(iter(kk))[0] == 'const' for kk, _ in one[1]):
                    for kk, vv in one[1]:
                        kws[next(iter(kk))[1]] = vv
                else:
                    star = True
                    kws['**'] = v
            else:
                kws[k.arg] = v
        recv = None
        if isinstance(f, ast.Attribute) and not any(t[0] in ('fn', 'cls', 'global', 'mod') for t in fv):
            recv = self.quiet(f.value, ctx, st)
        if self.visitor is not None:
            self.visitor.call(ctx, n, fv, recv, args, kws, star, st)
        out = set()
        for t in fv:
            out |= self.apply(t, n, f, recv, args, kws, star, ctx, st)
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        fact = ('called', fv if len(fv) == 1 else name, tuple(args))
        if len(repr(fact)) < 4000:
            st.done = st.done | {fact}
        return frozenset(out)

    def apply(self, t, n, f, recv, args, kws, star, ctx, st):
        if t[0] in ('fn', 'method') and t[1] is not None:
            fi = t[1]
            if self.visitor is not None and hasattr(self.visitor, 'opaque') and self.visitor.opaque(fi):
                return V(('call', fi.fq, tuple(args), tuple(sorted(kws.items(), key=lambda x: x[0]))))
            if ctx.depth < self.maxdepth and fi not in ctx.chain() and not fi.is_gen and not star and \
                    not any(d not in ('staticmethod', 'classmethod', None) for d in fi.deco_names):
                return self.inline(fi, t, args, kws, ctx, st, n)
            return V(('call', fi.fq, tuple(args), tuple(sorted(kws.items(), key=lambda x: x[0]))))
        if t[0] == 'cls':
            return V(('new', t[1], (n.lineno, n.col_offset), tuple(args), tuple(sorted(kws.items(), key=lambda x: x[0]))))
        name = t[1] if t[0] == 'global' else None
        if name in ('list', 'tuple', 'iter', 'reversed') and len(args) == 1:
            return args[0] if name != 'reversed' else V(('op', 'reversed', args[0]))
        if name == 'str' and len(args) == 1:
            out = set()
            for a in args[0]:
                out.add(a if self.is_text(a) else ('text', V(a)))
            return frozenset(out)
        if name in ('len', 'sorted') and args:
            return V((name, args[0]))
        if name == 'enumerate' and args:
            start = args[1] if len(args) > 1 else kws.get('start', V(('const', 0)))
            return V(('enumerate', args[0])) if start == V(('const', 0)) else V(('enumerate', args[0], start))
        if name == 'zip':
            return V(('zip', tuple(args)))
        if name == 'map' and len(args) == 2:
            return V(('map', V(('call', 'map', (args[0], self.elem(args[1])), ())), args[1], False))
        if name == 'dict' and len(args) == 1 and len(args[0]) == 1 and not kws:
            m = next(iter(args[0]))
            if m[0] == 'map' and len(m[1]) == 1 and next(iter(m[1]))[0] == 'seq' and len(next(iter(m[1]))[1]) == 2:
                k, e = next(iter(m[1]))[1]
                return V(('dictmap', k, e, m[2], m[3]))
        if name == 'dict' and not args:
            return V(('dict', tuple((V(('const', k)), v) for k, v in kws.items())))
        if name in ('os.path.join', 'pwtools.common.pj', 'posixpath.join'):
            return V(('path', tuple(args)))
        if t[0] == 'attr':
            attr, base = t[2], t[1]
            b = next(iter(base)) if len(base) == 1 else None
            if attr in ('keys', 'values', 'items') and not args:
                return V((attr, base))
            if attr == 'join' and args and b is not None and b[0] == 'const':
                return V(('join', b[1], args[0]))
            if attr == 'format' and b is not None and self.is_text(b):
                return V(self.format_method(b, args, kws))
            if attr in ('strip', 'lower', 'upper', 'rstrip', 'lstrip') and b is not None and b[0] == 'const' and isinstance(b[1], str):
                return V(('const', getattr(b[1], attr)()))
            if attr == 'append' and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and args:
                cur = st.env.get(f.value.id, EMPTY)
                new = set()
                for x in cur:
                    if x[0] == 'seq' and self.in_straight_line:
                        new.add(('seq', x[1] + (args[0],)))
                    else:
                        new.add(('grow', V(x) if x[0] != 'grow' else x[1], args[0]))
                st.env[f.value.id] = frozenset(new)
                return V(('const', None))
            return V(('call', '.' + attr, (base,) + tuple(args), tuple(sorted(kws.items(), key=lambda x: x[0]))))
        return V(('call', name or repr(t[0]), tuple(args), tuple(sorted(kws.items(), key=lambda x: x[0]))))

    in_straight_line = False

    def bind(self, fi, t, args, kws):
        names = list(fi.posargs)
        env = {}
        if t[0] == 'method' and not fi.is_static() and names:
            env[names[0]] = V(('selfobj',)) if t[2] == ('selfobj',) else V(t[2])
            names = names[1:]
        for p, a in zip(names, args):
            env[p] = a
        if len(args) > len(names) and fi.vararg:
            env[fi.vararg] = V(('seq', tuple(args[len(names):])))
        elif fi.vararg:
            env[fi.vararg] = V(('seq', ()))
        extra = {}
        for k, v in kws.items():
            if k in fi.posargs or k in fi.kwonly:
                env[k] = v
            else:
                extra[k] = v
        if fi.kwarg:
            env[fi.kwarg] = V(('dict', tuple((V(('const', k)), v) for k, v in extra.items())))
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env:
                if isinstance(d, ast.Constant):
                    env[p.arg] = V(('const', d.value))
                else:
                    env[p.arg] = V(('default', ast.unparse(d)[:40]))
        for p in fi.posargs + fi.kwonly:
            env.setdefault(p, V(('missing', p)))
        return env

    def inline(self, fi, t, args, kws, ctx, st, node=None):
        env = self.bind(fi, t, args, kws)
        sub = Ctx(fi, ctx, ctx.depth + 1, node=node)
        if fi.parent is not None:         # closure
            for k, v in st.env.items():
                if not k.startswith('self.'):
                    env.setdefault(k, v)
        if t[0] == 'method' and t[2] == ('selfobj',):
            for k, v in st.env.items():
                if k.startswith('self.'):
                    env[k] = v
        elif t[0] == 'method' and t[2][0] == 'new':
            # run as a method of another object
            sub.selfv = V(t[2])
            env[fi.posargs[0]] = V(('selfobj',))
            c = self.fields(t[2], ctx)
            for k, v in c.items():
                env['self.' + k] = v
        end = self.body(sub, St(env, frozenset(g for g in st.guards if g[0][0] != 'alias'), st.done, st.data))
        out = EMPTY
        for r in sub.rets:
            out |= r
        if end is not None:
            if t[0] == 'method' and t[2] == ('selfobj',):
                for k, v in end.env.items():
                    if k.startswith('self.'):
                        st.env[k] = v
            st.done = st.done | end.done
            st.data = end.data
        if not sub.rets or (end is not None and not sub.rets):
            out |= V(('const', None))
        return out if len(out) <= MAXALT else V(('many', fi.name))

    def fields(self, new, ctx):
        """attributes of an object constructed in the analysed code: the parameters __init__ stores"""
        ci = new[1]
        init = ci.find('__init__')
        if not isinstance(init, FunctionInfo):
            return {}
        env = self.bind(init, ('method', init, new), list(new[3]), dict(new[4]))
        out = {}
        for s in init.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                    isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == init.posargs[0]:
                if isinstance(s.value, ast.Name) and s.value.id in env:
                    out[s.targets[0].attr] = env[s.value.id]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == init.posargs[0]:
                m = ci.find(s.value.func.attr)      # self.set_table(table)
                if isinstance(m, FunctionInfo) and all(isinstance(a, ast.Name) and a.id in env for a in s.value.args):
                    e2 = self.bind(m, ('method', m, new), [env[a.id] for a in s.value.args], {})
                    for s2 in m.node.body:
                        if isinstance(s2, ast.Assign) and isinstance(s2.targets[0], ast.Attribute) and isinstance(s2.value, ast.Name) \
                                and s2.value.id in e2:
                            out[s2.targets[0].attr] = e2[s2.value.id]
        return out


def show(v, depth=3):
    """readable text of a value"""
    if isinstance(v, frozenset):
        if depth <= 0:
            return '..'
        return '|'.join(sorted(show(t, depth) for t in v)) if len(v) != 1 else show(next(iter(v)), depth)
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        k = v[0]
        if k == 'const':
            return repr(v[1])
        if k == 'param':
            return v[1]
        if k == 'self':
            return 'self.' + v[1]
        if k == 'selfobj':
            return 'self'
        if k == 'attr':
            return '%s.%s' % (show(v[1], depth - 1), v[2])
        if k == 'str':
            return '"%s"' % ''.join(p if isinstance(p, str) else '{%s}' % show(p, depth - 1) for p in v[1])
        if k == 'path':
            return '/'.join(show(p, depth - 1) for p in v[1])
        if k == 'new':
            return '%s()' % v[1].name
        if k in ('fn', 'method', 'cls'):
            return v[1].name if v[1] is not None else k
        if k == 'call':
            return '%s(%s)' % (v[1], ', '.join(show(a, depth - 1) for a in v[2]))
        return '%s(%s)' % (k, ', '.join(show(a, depth - 1) if isinstance(a, (frozenset, tuple)) else str(a) for a in v[1:]))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(a, depth - 1) for a in v)
    return str(v)
