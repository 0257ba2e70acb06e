"""C21: results do not depend on hash order, directory order or hidden random state."""
import ast

from ..model import FunctionInfo, ClassInfo, dotted

NONE = frozenset()
CLEAN = {'sorted', 'len', 'min', 'max', 'sum', 'any', 'all', 'isinstance', 'issubclass', 'bool', 'type', 'callable', 'hasattr',
         'numpy.sort', 'numpy.unique', 'numpy.sum', 'numpy.max', 'numpy.min', 'numpy.any', 'numpy.all', 'numpy.argsort',
         'numpy.lexsort', 'numpy.alltrue', 'os.path.exists', 'math.fsum', 'numpy.isin', 'numpy.in1d',
         'numpy.union1d', 'numpy.intersect1d', 'numpy.setdiff1d', 'Counter', 'collections.Counter'}
SETS = {'set', 'frozenset'}
UNORDERED = {'os.listdir': 'os.listdir()', 'glob.glob': 'glob()', 'glob.iglob': 'glob()', 'os.scandir': 'os.scandir()',
             'os.walk': 'os.walk()'}
UNORDERED_METHODS = {'iterdir': 'iterdir()', 'rglob': 'rglob()'}
SET_METHODS = {'union', 'intersection', 'difference', 'symmetric_difference'}
ORDERING = {'list', 'tuple', 'iter', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'str', 'repr', 'next', 'dict.fromkeys',
            'numpy.fromiter', 'numpy.array', 'numpy.asarray', 'itertools.chain', 'itertools.product', 'itertools.combinations',
            'itertools.permutations', 'functools.reduce', 'print', 'deque', 'collections.deque', 'OrderedDict',
            'itertools.islice', 'itertools.chain.from_iterable'}
GROW = {'append', 'extend', 'insert', 'appendleft', 'write', 'writelines', 'execute', 'executemany'}
OUT = {'write', 'writelines', 'print', 'execute', 'executemany'}
SIZES = {'shape', 'size', 'ndim', 'dtype'}
RNG_OK = {'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'Random', 'PCG64', 'MT19937'}


class Flow:
    """labels: ('set', why) ('ord', why) ('dord', why) ('num',) ('P', i) ('OP', i)"""

    def __init__(self, an, fi):
        self.an = an
        self.fi = fi
        self.env = {p: frozenset({('P', p)}) for p in fi.posargs + fi.kwonly + [x for x in (fi.vararg, fi.kwarg) if x]}
        if fi.cls is not None and fi.posargs and not fi.is_static():
            self.env[fi.posargs[0]] = NONE
        self.ret = NONE
        self.loop = []          # labels of the enclosing unordered loops
        self.sinks = []

    # -- reporting --
    def sink(self, n, labels, what):
        for l in labels:
            if l[0] == 'ord':
                self.sinks.append((n, l[1], what))
            elif l[0] == 'OP':
                self.an.param_sinks.setdefault(self.fi, {}).setdefault(l[1], what)

    def inloop(self):
        return frozenset().union(*self.loop) if self.loop else NONE

    # -- statements --
    def run(self):
        n = self.fi.node
        if isinstance(n, ast.Lambda):
            self.ret = self.ev(n.body)
            return
        self.block(n.body)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def merged(self, *runs):
        base = dict(self.env)
        outs = []
        for r in runs:
            self.env = dict(base)
            r()
            outs.append(self.env)
        env = {}
        for e in outs:
            for k, v in e.items():
                env[k] = env.get(k, NONE) | v
        self.env = env

    def stmt(self, s):
        if isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else NONE
            if self.loop and s.value is not None and not isinstance(s.value, ast.Constant):
                v = v | self.inloop()
            self.ret |= v
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            cur = self.ev(s.target)
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and any(l[0] in ('set', 'P') for l in cur | v):
                new = cur | v
            else:
                new = self.ordered(v) | cur
                if ('num',) not in cur:
                    new |= self.inloop()
            self.assign(s.target, new, None)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.merged(lambda: self.block(s.body), lambda: self.block(s.orelse))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            lab = self.ordered(it)
            self.forloop(s, lab)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            for _ in range(2):
                self.merged(lambda: self.block(s.body), lambda: None)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.merged(lambda: self.block(s.body), lambda: None, *[(lambda h=h: self.block(h.body)) for h in s.handlers])
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.merged(*[(lambda c=c: self.block(c.body)) for c in s.cases])

    def forloop(self, s, lab):
        before = dict(self.env)
        for k in range(2):
            def body():
                self.assign(s.target, NONE, None)
                if lab:
                    self.loop.append(lab)
                self.block(s.body)
                if lab:
                    self.loop.pop()
            if lab:
                # what the body leaves behind is that of the last element
                base = dict(self.env)
                body()
                for n in self.plain_targets(s):
                    if n in self.env:
                        self.env[n] = self.env[n] | lab
                for k2, v in base.items():
                    self.env[k2] = self.env.get(k2, NONE) | v
            else:
                self.merged(body, lambda: None)
        self.block(s.orelse)

    def plain_targets(self, s):
        """names assigned a non-constant in the body"""
        out = set()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                    for t in n.targets:
                        out |= set(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        return out

    def assign(self, t, v, src):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            e = self.ordered(v)
            for x in t.elts:
                self.assign(x, e, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            if any(l[0] == 'set' for l in v):
                self.an.attr(t.attr, v)
            self.sink(t, v, 'is stored in the attribute %s' % ast.unparse(t))
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = t.value
            if isinstance(b, ast.Name):
                lab = NONE
                if self.loop and any(l[0] == 'dict' for l in self.env.get(b.id, NONE)):
                    lab = frozenset(('dord', l[1]) if l[0] == 'ord' else ('DP', l[1]) for l in self.inloop())
                self.env[b.id] = self.env.get(b.id, NONE) | frozenset(l for l in v if l[0] in ('ord', 'OP')) | lab
            else:
                self.ev(b)
                if isinstance(b, ast.Attribute):
                    self.sink(t, v, 'is stored in %s' % ast.unparse(t)[:40])

    # -- expressions --
    def ordered(self, v):
        """labels of the order in which v is run through"""
        out = set()
        for l in v:
            if l[0] in ('set', 'dord', 'ord'):
                out.add(('ord', l[1]))
            elif l[0] in ('P', 'OP', 'DP'):
                out.add(('OP', l[1]))
        return frozenset(out)

    def onlyord(self, v):
        return frozenset(l for l in v if l[0] in ('ord', 'OP', 'P'))

    def ev(self, n):
        if n is None or isinstance(n, ast.Constant):
            return frozenset({('num',)}) if n is not None and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) else NONE
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            f = self.fi
            return self.an.module_label(f.module, n.id)
        if isinstance(n, ast.Set):
            for x in n.elts:
                self.ev(x)
            return frozenset({('set', 'a set')})
        if isinstance(n, ast.Dict):
            out = set([('dict',)])
            for k, x in zip(n.keys, n.values):
                if k is not None:
                    self.ev(k)
                out |= set(l for l in self.ev(x) if l[0] in ('ord', 'OP'))
            return frozenset(out)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.comp(n)
        if isinstance(n, ast.BinOp):
            l, r = self.ev(n.left), self.ev(n.right)
            if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                keys = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'items') and not x.args
                if any(x[0] == 'set' for x in l | r) or keys(n.left) or keys(n.right):
                    return frozenset({('set', 'a set')})
                return frozenset(x for x in l | r if x[0] in ('ord', 'OP', 'P', 'num'))
            if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n.op, ast.Mod) and \
                    any(x[0] == 'set' for x in r):
                if isinstance(n.right, ast.Tuple):
                    return frozenset(x for e in n.right.elts for x in self.text(self.ev(e)))
                return self.text(r)
            return frozenset(x for x in l | r if x[0] in ('ord', 'OP', 'P') or x[0] == 'num' and x in l and x in r)
        if isinstance(n, ast.BoolOp):
            return frozenset().union(*[self.ev(x) for x in n.values])
        if isinstance(n, ast.UnaryOp):
            return self.ev(n.operand)
        if isinstance(n, ast.Compare):
            vs = [self.ev(n.left)] + [self.ev(x) for x in n.comparators]
            if all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops):
                return NONE
            return frozenset(l for v in vs for l in v if l[0] in ('ord', 'OP'))
        if isinstance(n, ast.IfExp):
            self.ev(n.test)
            return self.ev(n.body) | self.ev(n.orelse)
        if isinstance(n, (ast.Tuple, ast.List)):
            out = set()
            for x in n.elts:
                v = self.ev(x)
                if isinstance(x, ast.Starred):
                    v = self.ordered(v)
                out |= set(l for l in v if l[0] in ('ord', 'OP'))
            return frozenset(out)
        if isinstance(n, ast.Starred):
            return self.ev(n.value)
        if isinstance(n, ast.JoinedStr):
            out = NONE
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    out |= self.text(self.ev(x.value))
            return out
        if isinstance(n, ast.Attribute):
            v = self.ev(n.value)
            if n.attr in SIZES:
                return NONE
            return frozenset(l for l in v if l[0] in ('ord',)) | self.an.attrs.get(n.attr, NONE)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value)
            self.ev(n.slice)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                return NONE
            return frozenset(('ord', l[1]) for l in v if l[0] in ('ord', 'set')) | frozenset(('OP', l[1]) for l in v if l[0] in ('P', 'OP') and 0)
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper, n.step):
                self.ev(x)
            return NONE
        if isinstance(n, ast.Lambda):
            return NONE
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            v = self.ev(n.value)
            if isinstance(n, ast.YieldFrom):
                v = self.ordered(v)
            self.ret |= v | self.inloop()
            return NONE
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value)
            self.assign(n.target, v, n.value)
            return v
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, ast.Await):
            return self.ev(n.value)
        return NONE

    def text(self, v):
        """text of a set, of something ordered by it"""
        return frozenset(('ord', l[1]) if l[0] in ('set', 'dord') else l for l in v if l[0] in ('set', 'dord', 'ord', 'OP')) | \
            frozenset(('OP', l[1]) for l in v if l[0] == 'P')

    def comp(self, n):
        saved = dict(self.env)
        lab = NONE
        for g in n.generators:
            it = self.ev(g.iter)
            lab |= self.ordered(it)
            self.assign(g.target, NONE, None)
            for i in g.ifs:
                self.ev(i)
        if isinstance(n, ast.DictComp):
            v = self.ev(n.key) | self.ev(n.value)
        else:
            v = self.ev(n.elt)
        self.env = saved
        v = frozenset(l for l in v if l[0] in ('ord', 'OP'))
        if isinstance(n, ast.SetComp):
            return frozenset({('set', 'a set')})
        if isinstance(n, ast.DictComp):
            return v | frozenset(('dord', l[1]) if l[0] == 'ord' else ('DP', l[1]) for l in lab) | {('dict',)}
        return v | lab

    def call(self, n):
        f = n.func
        name = self.an.name_of(self.fi, f, self.env)
        recv = self.ev(f.value) if isinstance(f, ast.Attribute) else NONE
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        allargs = args + list(kws.values())
        meth = f.attr if isinstance(f, ast.Attribute) else None
        an = self.an
        if name in UNORDERED:
            an.c.site('directory listings')
            return frozenset({('set', UNORDERED[name])})
        if meth in UNORDERED_METHODS and name is None:
            return frozenset({('set', UNORDERED_METHODS[meth])})
        if name in ('id', 'hash'):
            return frozenset({('ord', '%s()' % name)})
        if name in SETS:
            an.c.site('sets')
            return frozenset({('set', 'a set')})
        if name and name.split('.')[0] in SETS and meth in SET_METHODS:
            an.c.site('sets')
            return frozenset({('set', 'a set')})
        if name in CLEAN:
            return NONE
        # method calls on local containers
        if meth is not None and name is None or meth in OUT or name == 'print':
            b = f.value if isinstance(f, ast.Attribute) else None
            if meth == 'sort':
                if isinstance(b, ast.Name) and b.id in self.env:
                    self.env[b.id] = NONE
                return NONE
            if meth == 'pop' and not n.args and any(l[0] == 'set' for l in recv):
                return self.ordered(recv)
            if meth in SET_METHODS and (any(l[0] in ('set', 'P') for l in recv)):
                return frozenset({('set', 'a set')})
            if meth == 'copy':
                return recv
            if meth in ('keys', 'values', 'items'):
                return frozenset(('ord', l[1]) if l[0] == 'dord' else l for l in recv)
            if meth in GROW or name == 'print':
                lab = self.inloop()
                for v in allargs:
                    lab |= frozenset(l for l in v if l[0] in ('ord', 'OP'))
                    if meth in ('extend', 'writelines') or name == 'print':
                        lab |= self.ordered(v)
                if meth in OUT or name == 'print':
                    self.sink(n, lab, 'is written by %s()' % (meth or name))
                elif isinstance(b, ast.Name) and b.id in self.env:
                    self.env[b.id] = self.env[b.id] | lab
                elif isinstance(b, ast.Attribute):
                    self.sink(n, lab, 'is put into %s' % ast.unparse(b)[:40])
                elif isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name):
                    self.env[b.value.id] = self.env.get(b.value.id, NONE) | lab
                return NONE
            if meth in ('update', 'setdefault'):
                return NONE
            if meth == 'join':
                return frozenset(l for v in args for l in self.ordered(v)) | self.onlyord(recv)
            if meth == 'format':
                return frozenset(l for v in allargs for l in self.text(v))
        if name == 'setattr' and len(args) == 3:
            self.sink(n, args[2], 'is stored by setattr()')
            return NONE
        if name == 'getattr':
            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                return an.attrs.get(n.args[1].value, NONE)
            return NONE
        cal = an.callee(self.fi, f, self.env)
        if cal is not None:
            an.c.site('calls followed')
            return self.apply(cal, n, f, args, kws)
        if name in ORDERING:
            return frozenset(l for v in allargs for l in self.ordered(v))
        if name == 'dict' or name == 'defaultdict' or name == 'collections.defaultdict':
            out = frozenset({('dict',)})
            for v in args:
                out |= frozenset(('dord', l[1]) if l[0] == 'ord' else ('DP', l[1]) for l in self.ordered(v))
            return out
        return frozenset(l for v in allargs + [recv] for l in v if l[0] in ('ord', 'OP'))

    def apply(self, fi, n, f, args, kws):
        an = self.an
        names = list(fi.posargs)
        if fi.cls is not None and names and not fi.is_static() and (isinstance(f, ast.Attribute) or fi.name == '__init__'):
            names = names[1:]
        bound = dict(zip(names, args))
        if len(args) > len(names) and fi.vararg:
            bound[fi.vararg] = frozenset().union(*args[len(names):])
        for k, v in kws.items():
            if k is not None:
                bound[k if k in fi.posargs + fi.kwonly else fi.kwarg or k] = v
        for p, what in an.param_sinks.get(fi, {}).items():
            v = bound.get(p, NONE)
            self.sink(n, self.ordered(v), '%s (in %s)' % (what, fi.qual))
        out = set()
        for l in an.rets.get(fi, NONE):
            if l[0] in ('set', 'ord', 'dord', 'dict', 'num'):
                out.add(l)
            elif l[0] == 'P':
                out |= bound.get(l[1], NONE)
            elif l[0] == 'OP':
                out |= self.ordered(bound.get(l[1], NONE))
            elif l[0] == 'DP':
                out |= set(('dord', x[1]) if x[0] == 'ord' else ('DP', x[1]) for x in self.ordered(bound.get(l[1], NONE)))
        if fi.name == '__init__':
            return NONE
        return frozenset(out)


class Analysis:
    def __init__(self, c, prog):
        self.c = c
        self.prog = prog
        self.rets = {}
        self.param_sinks = {}
        self.attrs = {}
        self.modlab = {}
        self.changed = False
        self.by_method = {}
        for f in prog.all_functions():
            if f.cls is not None and f.parent is None:
                self.by_method.setdefault(f.name, []).append(f)

    def attr(self, name, v):
        lab = frozenset(l for l in v if l[0] == 'set')
        if not lab <= self.attrs.get(name, NONE):
            self.attrs[name] = self.attrs.get(name, NONE) | lab
            self.changed = True

    def module_label(self, m, name):
        key = (m, name)
        if key not in self.modlab:
            self.modlab[key] = NONE
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    if isinstance(s.value, (ast.Set, ast.SetComp)) or isinstance(s.value, ast.Call) and \
                            isinstance(s.value.func, ast.Name) and s.value.func.id in SETS:
                        self.modlab[key] = frozenset({('set', 'the set %s' % name)})
        return self.modlab[key]

    def name_of(self, fi, f, env):
        """dotted name of an external callee or builtin"""
        d = dotted(f)
        if d is None:
            return None
        head = d.split('.')[0]
        if head in env:
            return None
        for node in ast.walk(fi.node):       # imports in the function
            if isinstance(node, ast.Import):
                for a in node.names:
                    if (a.asname or a.name.split('.')[0]) == head:
                        return (a.name if a.asname else head) + d[len(head):]
            elif isinstance(node, ast.ImportFrom) and not node.level:
                for a in node.names:
                    if (a.asname or a.name) == head:
                        return node.module + '.' + a.name + d[len(head):]
        t = self.prog.module_attr(fi.module, head)
        if isinstance(t, str):
            return self.canon(t + d[len(head):])
        if t is None:
            return d
        return None

    def canon(self, d):
        return d

    def callee(self, fi, f, env):
        if isinstance(f, ast.Name) and f.id in env and f.id not in fi.local_names():
            return None
        if isinstance(f, ast.Name):
            g = fi
            while g is not None:
                for x in self.prog.all_functions():
                    if x.parent is g and x.name == f.id:
                        return x
                g = g.parent
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and fi.cls is not None and fi.posargs and \
                f.value.id == fi.posargs[0]:
            m = fi.cls.find(f.attr)
            return m if isinstance(m, FunctionInfo) else None
        head = dotted(f)
        if head is not None and head.split('.')[0] in env:
            r = None
        else:
            r = self.prog.resolve_expr(fi.module, f)
        if isinstance(r, FunctionInfo):
            return r
        if isinstance(r, ClassInfo):
            m = r.find('__init__')
            return m if isinstance(m, FunctionInfo) else None
        if isinstance(f, ast.Attribute) and r is None:
            ms = self.by_method.get(f.attr, ())
            if len(ms) == 1 and f.attr not in ('append', 'extend', 'write', 'copy', 'get', 'sort', 'join', 'format', 'read', 'dump', 'load',
                                               'add', 'keys', 'items', 'values', 'pop', 'update', 'fit'):
                return ms[0]
        return None


def rng(c, prog):
    """draws from the global generators, generators without a seed, seeding of the global generators"""
    for f in prog.all_functions():
        if f.parent is not None:
            continue
        mod = f.module.name
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Attribute, ast.Name)) or not isinstance(n.ctx, ast.Load):
                continue
            d = dotted(n)
            if d is None:
                continue
            full = NAMES(prog, f, d)
            if full is None:
                continue
            parts = full.split('.')
            hidden = None
            if full.startswith('numpy.random.') and len(parts) == 3:
                hidden = parts[2]
            elif parts[0] == 'random' and len(parts) == 2:
                hidden = parts[1]
            elif full in ('uuid.uuid4', 'uuid.uuid1', 'os.urandom', 'secrets.token_hex', 'secrets.token_bytes'):
                hidden = full
            if hidden is None:
                continue
            c.site('uses of random generators', '%s: %s' % (f.qual, full))
            where = '%s:%d' % (f.module.relpath, n.lineno)
            key = '%s|%s' % (f.fq, full)
            if hidden in RNG_OK:
                call = next((x for x in ast.walk(f.node) if isinstance(x, ast.Call) and x.func is n), None)
                if call is not None and not call.args and not call.keywords:
                    c.violate('random', key, where, '%s makes a random generator without a seed' % f.qual)
                continue
            if hidden in ('seed', 'set_state', 'setstate'):
                c.violate('random', key, where, '%s changes the state of the global random generator (%s)' % (f.qual, full))
            elif mod.split('.')[-1] != 'random':
                c.violate('random', key, where, '%s draws from hidden random state (%s)' % (f.qual, full))


def NAMES(prog, f, d):
    head = d.split('.')[0]
    if head in f.local_names():
        for node in ast.walk(f.node):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if (a.asname or a.name.split('.')[0]) == head:
                        return (a.name if a.asname else head) + d[len(head):]
            elif isinstance(node, ast.ImportFrom) and not node.level:
                for a in node.names:
                    if (a.asname or a.name) == head:
                        return node.module + '.' + a.name + d[len(head):]
        return None
    t = prog.module_attr(f.module, head)
    if isinstance(t, str):
        return t + d[len(head):]
    return None


def run(c):
    c.explanation = (
        'Dataflow analysis over the whole package: sets, directory listings, id() and hash() are sources without a defined '
        'order; list(), iteration, join, text formatting, pop() and dict(..) take that order over; sorted, len, min, set '
        'operations and membership drop it. Function summaries carry the order through parameters and results, sets are '
        'followed through attributes. Reported: an order that reaches a result, an attribute, a file or the output. '
        'A second pass resolves every use of numpy.random and random: no draws from global state outside the random '
        'structure generator, no generator without a seed, no seeding of the global generators.')
    prog = c.load(with_scripts=True)
    an = Analysis(c, prog)
    fns = [f for f in prog.all_functions(scripts=True)] if 'scripts' in prog.all_functions.__code__.co_varnames else list(prog.all_functions())
    last = None
    for rnd in range(6):
        an.changed = False
        for k in list(c.counts):
            if k in ('sets', 'directory listings', 'calls followed'):
                c.counts[k] = 0
        sinks = []
        rets = {}
        for f in fns:
            fl = Flow(an, f)
            fl.run()
            rets[f] = fl.ret
            sinks += [(f,) + s for s in fl.sinks]
        same = rets == an.rets and not an.changed
        an.rets = rets
        if same:
            break
    c.site('functions analysed', n=len(fns))
    seen = set()
    for f, n, why, what in sinks:
        k = (f.fq, why, what)
        if k in seen:
            continue
        seen.add(k)
        c.violate('order', '%s|%s|%s' % (f.fq, why, what), '%s:%d' % (f.module.relpath, n.lineno),
                  '%s: something in the order of %s %s' % (f.qual, why, what))
    for f in fns:
        if f.name.startswith('_') and f.name not in ('__call__', '__getitem__', '__iter__') or f.parent is not None or \
                isinstance(f.node, ast.Lambda):
            continue
        for l in sorted(l for l in an.rets.get(f, NONE) if l[0] == 'ord'):
            c.violate('order', '%s|%s|result' % (f.fq, l[1]), '%s:%d' % (f.module.relpath, f.node.lineno),
                      'the result of %s is in the order of %s' % (f.qual, l[1]))
    rng(c, prog)
    c.need('sets', c.counts['sets'], 10)
    c.need('functions analysed', c.counts['functions analysed'], 400)
