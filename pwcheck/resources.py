"""Typestate analysis of files and descriptors (C16).

Every function body is executed abstractly, statement by statement, on sets of
states. A state has
  env    name -> tags; names are dotted/constant-subscript paths ('fh', 'self.fd', 'lst[0]')
  open   ids of the acquisitions that are open now
  facts  branch tests already decided on this path (text -> bool)
Outcomes are fall / raise / return / break / continue. Every call that is not
known to be harmless, every subscript, `raise`, `assert` and `yield` may raise.

Tags: ('R', id) an open resource, ('T', id) the (fd, name) tuple of mkstemp,
('P', name) what the caller passed, ('O', dotted) a function that opens,
('N',) None, ('M', ...) a context manager that closes its content,
('C', key, attr) the bound method close of something.
"""
import ast

from .model import dotted, FunctionInfo, ClassInfo, target_names

OPENERS = {
    'open', 'builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'gzip.GzipFile',
    'bz2.BZ2File', 'lzma.LZMAFile', 'os.open', 'os.fdopen', 'io.FileIO', 'h5py.File', 'tarfile.open',
    'tarfile.TarFile', 'zipfile.ZipFile', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
    'tempfile.mkstemp', 'os.popen', 'os.pipe', 'os.dup', 'mmap.mmap', 'shelve.open', 'dbm.open', 'subprocess.Popen',
}
TUPLE_OPENERS = {'tempfile.mkstemp'}
WRAPPERS = {'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'io.BufferedRandom', 'os.fdopen', 'gzip.GzipFile',
            'codecs.getreader', 'codecs.getwriter', 'codecs.EncodedFile', 'io.FileIO', 'open', 'builtins.open', 'io.open',
            'gzip.open', 'bz2.open', 'lzma.open', 'bz2.BZ2File', 'lzma.LZMAFile', 'h5py.File',
            'tarfile.open', 'zipfile.ZipFile', 'tarfile.TarFile'}
# wrappers that take over the descriptor (closing them closes it)
OWNING = {'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'io.BufferedRandom', 'os.fdopen', 'open',
          'builtins.open', 'io.open', 'io.FileIO'}
PASS = {'tuple', 'list', 'iter', 'enumerate', 'reversed', 'sorted', 'typing.cast', 'zip', 'set', 'dict'}
QUIET = {'isinstance', 'hasattr', 'len', 'type', 'id', 'callable', 'issubclass', 'repr', 'bool', 'super', 'object', 'locals',
         'tuple', 'list', 'dict', 'set', 'str', 'print', 'range', 'vars', 'globals', 'os.path.join', 'os.path.basename',
         'os.path.dirname', 'warnings.warn', 'functools.partial', 'time.time', 'contextlib.closing', 'contextlib.ExitStack',
         'contextlib.suppress', 'contextlib.nullcontext'}
QUIET_METHODS = {'close', 'append', 'endswith', 'startswith', 'strip', 'lower', 'upper', 'get', 'items', 'keys', 'values',
                 'copy', 'setdefault', 'enter_context', 'callback', 'push', 'pop_all', 'extend', 'insert'}
CLOSERS = {'close', 'communicate', '__exit__'}
CATCH_ALL = {'BaseException', 'Exception'}
MAXSTATES = 96


class State:
    __slots__ = ('env', 'open', 'facts', 'note')

    def __init__(self, env=None, open_=frozenset(), facts=None, note=frozenset()):
        self.env = env or {}
        self.open = open_
        self.facts = facts or {}
        self.note = note            # ('closed', param), ('stored', param)

    def copy(self, **kw):
        s = State(dict(self.env), self.open, dict(self.facts), self.note)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def key(self):
        return (frozenset((k, v) for k, v in self.env.items() if v), self.open, frozenset(self.facts.items()), self.note)


class Summary:
    def __init__(self):
        self.returns = False       # hands an opened resource to the caller
        self.ret_params = set()    # returns what it was passed
        self.closes = set()        # params closed on every normal exit
        self.closes_raise = True
        self.stores = set()        # params that escape
        self.managed = False       # generator context manager
        self.stored_attrs = set()  # self attributes that hold a resource


class Resources:
    def __init__(self, prog, site, report):
        self.prog = prog
        self.site = site
        self.report = report      # report(rule, fi, node, msg)
        self.sums = {}
        self.busy = set()

    # -- names ---------------------------------------------------------------
    def ext(self, fi, node, st=None):
        """external dotted name | FunctionInfo | ClassInfo of an expression"""
        d = dotted(node)
        if d is None:
            return None
        head = d.split('.')[0]
        if d.count('.') == 1 and head in ('self', 'cls'):
            c = fi
            while c is not None and c.cls is None:
                c = c.parent
            if c is not None:
                m = c.cls.find(d.split('.')[1])
                return m if isinstance(m, FunctionInfo) else None
        f = fi
        while f is not None:
            li = self.local_imports(f)
            if head in li:
                t = li[head]
                rest = d.split('.')[1:]
                if isinstance(t, str):
                    return '.'.join([t] + rest)
                return t if not rest else None
            for x in f.module.all_functions:
                if x.parent is f and x.name == head and d == head and not isinstance(x.node, ast.Lambda):
                    return x
            if head in f.local_names():
                return self.by_name(d)
            f = f.parent
        r = self.prog.resolve_expr(fi.module, node)
        if r is None:
            if self.prog.module_attr(fi.module, head) is None:
                return d
        return r

    def by_name(self, d):
        """method of an unknown object: resolved when the package has one of that name"""
        if '.' not in d:
            return None
        if not hasattr(self, '_methods'):
            self._methods = {}
            for c in self.prog.all_classes():
                for k, m in c.methods.items():
                    self._methods.setdefault(k, []).append(m)
        name = d.split('.')[-1]
        if name in QUIET_METHODS or name in CLOSERS or name in ('read', 'write', 'open'):
            return None
        m = self._methods.get(name, [])
        return m[0] if len(m) == 1 else None

    def local_imports(self, fi):
        if not hasattr(fi, '_limports'):
            fi._limports = {}
            if not isinstance(fi.node, ast.Lambda):
                for n in ast.walk(fi.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for name, t in self.prog.import_targets(fi.module, n):
                            fi._limports[name] = t
        return fi._limports

    # -- summaries ----------------------------------------------------------
    def summary(self, fi):
        if fi in self.sums:
            return self.sums[fi]
        if fi in self.busy:
            return Summary()
        self.busy.add(fi)
        s = Body(self, fi).run()
        self.busy.discard(fi)
        self.sums[fi] = s
        return s

    def class_owner(self, ci):
        """attributes of a class in which its methods keep resources they opened"""
        init = ci.find('__init__')
        if not isinstance(init, FunctionInfo):
            return set()
        return self.summary(init).stored_attrs


class Body:
    def __init__(self, an, fi):
        self.an = an
        self.fi = fi
        self.acq = {}          # id -> (node, text)
        self.sum = Summary()
        self.first_open = {}
        self.exc_via = {}

    def run(self):
        fi = self.fi
        n = fi.node
        env = {}
        params = list(fi.posargs) + list(fi.kwonly) + [x for x in (fi.vararg, fi.kwarg) if x]
        for p in params:
            env[p] = frozenset([('P', p)])
        st = State(env)
        if isinstance(n, ast.Lambda):
            tags, outs = self.expr(n.body, [st])
            self.finish([('return', s, t) for s, t in tags] + outs)
            return self.sum
        outs = self.block(n.body, [st])
        self.finish(outs)
        return self.sum

    # outcome list: (kind, state, tags)
    def finish(self, outs):
        fi = self.fi
        private = fi.name.startswith('_') and not (fi.name.startswith('__') and fi.name.endswith('__')) or fi.parent is not None \
            or fi.name in ('close', '__exit__', '__del__')
        normal = [o for o in outs if o[0] in ('fall', 'return')]
        raised = [o for o in outs if o[0] == 'raise']
        params = set(fi.posargs) | set(fi.kwonly)
        closed = None
        for kind, st, tags in normal:
            cl = set(x[1] for x in st.note if x[0] == 'closed')
            closed = cl if closed is None else closed & cl
        self.sum.closes = closed or set()
        for kind, st, tags in raised:
            cl = set(x[1] for x in st.note if x[0] == 'closed')
            if not self.sum.closes <= cl:
                self.sum.closes_raise = False
        for kind, st, tags in outs:
            self.sum.stores |= set(x[1] for x in st.note if x[0] == 'stored')
            self.sum.stored_attrs |= set(x[1] for x in st.note if x[0] == 'attr')
            left = set(st.open)
            if kind == 'return':
                for t in tags:
                    if t[0] in 'RT' and t[1] in left:
                        left.discard(t[1])
                        self.sum.returns = True
                    if t[0] == 'P':
                        self.sum.ret_params.add(t[1])
            for i in sorted(left):
                node, text = self.acq[i]
                how = {'raise': 'when a later statement raises an exception'}.get(kind, 'when %s returns' % fi.qual)
                self.an.report('leak', fi, node, '%s is opened in %s and not closed %s' % (text, fi.qual, how), text)
        if not private:
            for kind, st, tags in outs:
                for x in st.note:
                    if x[0] == 'closed' and x[1] in params and x[1] != 'self':
                        self.an.report('caller', fi, fi.node,
                                       '%s closes the file object the caller passed as `%s`' % (fi.qual, x[1]), x[1])

    # -- expressions -----------------------------------------------------------
    def key_of(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute):
            b = self.key_of(n.value)
            return None if b is None else '%s.%s' % (b, n.attr)
        if isinstance(n, ast.Subscript):
            b = self.key_of(n.value)
            if b is None:
                return None
            if isinstance(n.slice, ast.Constant):
                return '%s[%r]' % (b, n.slice.value)
            return None
        return None

    def expr(self, n, states):
        """-> ([(state, tags)], raise outcomes)"""
        outs = []
        res = []
        for st in states:
            r, o = self.ev(n, st)
            res += r
            outs += o
        return res, outs

    def seq(self, nodes, st):
        """evaluate in order -> [(state, [tags...])], outs"""
        cur = [(st, [])]
        outs = []
        for n in nodes:
            nxt = []
            for s, ts in cur:
                r, o = self.ev(n, s)
                outs += o
                nxt += [(s2, ts + [t]) for s2, t in r]
            cur = self.limit(nxt)
        return cur, outs

    def limit(self, lst):
        seen, out = set(), []
        for s, t in lst:
            k = (s.key(), repr(t))
            if k not in seen:
                seen.add(k)
                out.append((s, t))
        return out[:MAXSTATES]

    NONE = frozenset()

    def ev(self, n, st):
        E = self.NONE
        if n is None:
            return [(st, E)], []
        if isinstance(n, ast.Constant):
            return [(st, frozenset([('N',)]) if n.value is None else E)], []
        if isinstance(n, ast.Name):
            if n.id in st.env:
                return [(st, st.env[n.id])], []
            return [(st, self.func_tag(n))], []
        if isinstance(n, ast.Lambda):
            # a function that opens something
            b = Body(self.an, self.an_fi(n))
            sub = self.an.summary(self.an_fi(n))
            return [(st, frozenset([('O', 'lambda')]) if sub.returns else E)], []
        if isinstance(n, ast.Attribute):
            k = self.key_of(n)
            r, outs = self.ev(n.value, st)
            res = []
            for s, t in r:
                if k is not None and k in s.env:
                    res.append((s, s.env[k]))
                elif n.attr in CLOSERS and t:
                    res.append((s, frozenset(('C', x) for x in t if x[0] in 'RPTM')))
                else:
                    res.append((s, self.func_tag(n)))
            return res, outs
        if isinstance(n, ast.Subscript):
            k = self.key_of(n)
            r, outs = self.seq([n.value, n.slice], st)
            res = []
            for s, (t, _) in r:
                if not isinstance(n.ctx, ast.Store):
                    outs.append(('raise', s, E))
                if k is not None and k in s.env:
                    res.append((s, s.env[k]))
                    continue
                out = set()
                for x in t:
                    if x[0] == 'T':
                        if isinstance(n.slice, ast.Constant):
                            if n.slice.value == 0:
                                out.add(('R', x[1]))
                        else:
                            out.add(('R', x[1]))
                    else:
                        out.add(x)
                b = self.key_of(n.value)
                if b is not None:
                    for kk, v in s.env.items():
                        if kk.startswith(b + '[') and k is None:
                            out |= v
                res.append((s, frozenset(out)))
            return res, outs
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            r, outs = self.seq(n.elts, st)
            return [(s, frozenset().union(*ts) if ts else E) for s, ts in r], outs
        if isinstance(n, ast.Dict):
            r, outs = self.seq([x for x in n.keys if x is not None] + n.values, st)
            return [(s, frozenset().union(*ts) if ts else E) for s, ts in r], outs
        if isinstance(n, ast.Starred):
            return self.ev(n.value, st)
        if isinstance(n, ast.NamedExpr):
            r, outs = self.ev(n.value, st)
            res = []
            for s, t in r:
                s = s.copy()
                self.assign(n.target, t, s)
                res.append((s, t))
            return res, outs
        if isinstance(n, ast.IfExp):
            res, outs = [], []
            for val, s in self.branch(n.test, st, outs):
                r, o = self.ev(n.body if val else n.orelse, s)
                res += r
                outs += o
            return res, outs
        if isinstance(n, ast.BoolOp):
            r, outs = self.seq(n.values, st)
            return [(s, frozenset().union(*ts)) for s, ts in r], outs
        if isinstance(n, ast.Call):
            return self.call(n, st)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            outs = []
            cur = [(st, E)]
            for g in n.generators:
                nxt = []
                for s, _ in cur:
                    r, o = self.ev(g.iter, s)
                    outs += o
                    for s2, t in r:
                        s2 = s2.copy()
                        self.assign(g.target, t, s2)
                        nxt.append((s2, E))
                cur = nxt
                for c in g.ifs:
                    nxt = []
                    for s, _ in cur:
                        r, o = self.ev(c, s)
                        outs += o
                        nxt += r
                    cur = nxt
            res = []
            elts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            for s, _ in cur:
                r, o = self.seq(elts, s)
                outs += o
                res += [(s2, frozenset().union(*ts)) for s2, ts in r]
            return self.limit(res), outs
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            r, outs = self.ev(n.value, st)
            for s, t in r:
                outs.append(('raise', s, E))
            return [(s, E) for s, t in r], outs
        # operators, f-strings, comparisons, slices
        kids = [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        r, outs = self.seq(kids, st)
        if isinstance(n, ast.BinOp) and not isinstance(n.op, ast.Mod):
            for s, _ in r:
                outs.append(('raise', s, E))
        return [(s, E) for s, _ in r], outs

    def an_fi(self, node):
        return self.fi.module.fn_by_node[node]

    def func_tag(self, n):
        e = self.an.ext(self.fi, n)
        if isinstance(e, str) and e in OPENERS:
            return frozenset([('O', e)])
        if isinstance(e, FunctionInfo):
            return frozenset([('F', e)])
        return self.NONE

    def acquire(self, n, name, st):
        i = (n.lineno, n.col_offset)
        self.acq[i] = (n, ast.unparse(n)[:70])
        self.an.site('files and descriptors opened', self.fi, n)
        st = st.copy()
        st.open = st.open | {i}
        return st, frozenset([('T' if name in TUPLE_OPENERS else 'R', i)])

    def close(self, tags, st):
        st = st.copy()
        real = [t for t in tags if t[0] in 'RTM']
        for t in tags:
            if t[0] in 'RT':
                st.open = st.open - {t[1]}
            elif t[0] == 'P' and not real:
                st.note = st.note | {('closed', t[1])}
        return st

    def call(self, n, st):
        E = self.NONE
        an = self.an
        f = n.func
        outs = []
        # evaluate callee
        recv = None
        if isinstance(f, ast.Attribute):
            r, outs = self.ev(f.value, st)
            pre = [(s, t, None) for s, t in r]
        else:
            r, outs = self.ev(f, st)
            pre = [(s, E, t) for s, t in r]
        res = []
        args = list(n.args) + [k.value for k in n.keywords]
        target = an.ext(self.fi, f)
        for s0, rt, ft in pre:
            rs, o = self.seq(args, s0)
            outs += o
            for s, ts in rs:
                self.one_call(n, f, target, s, rt, ft, ts, res, outs)
        return self.limit(res), outs

    def one_call(self, n, f, target, s, rt, ft, ts, res, outs):
        E = self.NONE
        an = self.an
        name = target if isinstance(target, str) else None
        alltags = frozenset().union(*ts) if ts else E
        nargs = len(n.args)
        if ft is None and isinstance(f, ast.Attribute):
            k = self.key_of(f)
            if k is not None and k in s.env:
                ft = s.env[k]
        # bound close stored in a variable
        cl = [t[1] for t in (ft or ()) if t[0] == 'C']
        if cl:
            res.append((self.close(cl, s), E))
            return
        # x.close()
        if isinstance(f, ast.Attribute) and f.attr in CLOSERS and not isinstance(target, FunctionInfo) \
                and name not in ('os.close',):
            if any(t[0] in 'RTPM' for t in rt):
                res.append((self.close(rt, s), E))
                return
            if f.attr == 'close':
                res.append((s, E))
                return
        if name in ('os.close', 'os.closerange'):
            res.append((self.close(alltags, s), E))
            return
        # closing() and exit stacks
        if name == 'contextlib.closing':
            res.append((s, alltags))
            return
        if isinstance(f, ast.Attribute) and f.attr in ('enter_context', 'push', 'callback') or name in ('atexit.register', 'weakref.finalize'):
            x = frozenset((t[1] if t[0] == 'C' else t) for t in alltags)
            s2 = s.copy()
            for t in x:
                if t[0] in 'RT':
                    s2.open = s2.open - {t[1]}
            for t in alltags:           # stack.callback(os.close, fd)
                if t[0] == 'P' and f.attr == 'enter_context':
                    s2.note = s2.note | {('closed', t[1])}
            res.append((s2, x))
            return
        if name == 'functools.partial':
            o = set(alltags)
            res.append((s, frozenset(o)))
            return
        # container updates
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'insert', 'extend', 'add', 'setdefault') and \
                self.key_of(f.value) is not None and any(t[0] in 'RTP' for t in alltags):
            s2 = s.copy()
            k = self.key_of(f.value)
            s2.env[k] = s2.env.get(k, E) | alltags
            if k.startswith('self.'):
                s2 = self.store_attr(k, alltags, s2, n)
            res.append((s2, E))
            return
        # opening
        opener = None
        if name in OPENERS:
            opener = name
        else:
            o = [t[1] for t in (ft or ()) if t[0] == 'O']
            if o:
                opener = o[0]
        if opener is None and isinstance(f, ast.Attribute) and f.attr in ('open', 'makefile') and not isinstance(target, FunctionInfo) \
                and name is None and not any(t[0] in 'RT' for t in rt):
            opener = 'pathlib.open'
        if opener is not None:
            inner = [t for t in (ts[0] if ts else E) if t[0] in 'RT']
            if opener in OWNING and inner:
                res.append((s, frozenset(inner)))
                return
            if opener == 'subprocess.Popen' and 'PIPE' not in ast.unparse(n):
                outs.append(('raise', s, E))
                res.append((s, E))
                return
            outs.append(('raise', s, E))
            s2, t = self.acquire(n, opener, s)
            res.append((s2, t))
            return
        if name in WRAPPERS and any(t[0] in 'RT' for t in alltags):
            outs.append(('raise', s, E))
            res.append((s, alltags))
            return
        if name in PASS:
            res.append((s, frozenset(t for t in alltags if t[0] in 'RTPO')))
            return
        # functions of the package
        fn = target if isinstance(target, FunctionInfo) else None
        if fn is None:
            c = [t[1] for t in (ft or ()) if t[0] == 'F']
            if len(c) == 1:
                fn = c[0]
        if isinstance(target, ClassInfo):
            attrs = an.class_owner(target)
            init = target.find('__init__')
            stores = an.summary(init).stores if isinstance(init, FunctionInfo) else set()
            outs.append(('raise', s, E))
            s2 = s.copy()
            if isinstance(init, FunctionInfo):
                for p, t in self.bind(init, n, ts, 1):
                    if p in stores:
                        for x in t:
                            if x[0] in 'RT':
                                s2.open = s2.open - {x[1]}
            res.append((s2, E))
            return
        if fn is not None and not fn.is_gen:
            sm = an.summary(fn)
            off = 1 if fn.cls is not None and not fn.is_static() and isinstance(f, ast.Attribute) else 0
            b = list(self.bind(fn, n, ts, off))
            out = set()
            s2 = s.copy()
            for p, t in b:
                if p in sm.closes:
                    s2 = self.close(t, s2)
                if p in sm.stores:
                    for x in t:
                        if x[0] in 'RT':
                            s2.open = s2.open - {x[1]}
                        if x[0] == 'P':
                            s2.note = s2.note | {('stored', x[1])}
                if p in sm.ret_params:
                    out |= t
            # free variables of a nested function
            for p in sm.closes:
                if p.startswith('free:') and p[5:] in s2.env:
                    s2 = self.close(s2.env[p[5:]], s2)
            outs.append(('raise', s2 if sm.closes_raise else s, E))
            if sm.returns:
                s2, t = self.acquire(n, 'call', s2)
                out |= t
            res.append((s2, frozenset(out)))
            return
        if not (name in QUIET or (isinstance(f, ast.Attribute) and f.attr in QUIET_METHODS)):
            outs.append(('raise', s, E))
        res.append((s, E))

    def bind(self, fn, n, ts, off):
        names = fn.posargs[off:]
        for i, a in enumerate(n.args):
            if i < len(names):
                yield names[i], ts[i]
        for k, t in zip(n.keywords, ts[len(n.args):]):
            if k.arg:
                yield k.arg, t

    # -- assignment -------------------------------------------------------------
    def forget(self, key, st):
        for k in list(st.env):
            if k == key or k.startswith(key + '.') or k.startswith(key + '['):
                del st.env[k]
        base = key.split('.')[0].split('[')[0]
        for k in list(st.facts):
            if base in k[1]:
                del st.facts[k]

    def store_attr(self, key, tags, st, n):
        """a resource kept in an attribute of an object belongs to that object"""
        for t in tags:
            if t[0] in 'RT' and t[1] in st.open:
                st.open = st.open - {t[1]}
                st.note = st.note | {('attr', key.split('.')[1].split('[')[0])}
                self.check_owner(key, t[1])
            if t[0] == 'P' and t[1] != 'self':
                st.note = st.note | {('stored', t[1])}
        return st

    def check_owner(self, key, i):
        c = self.fi
        while c is not None and c.cls is None:
            c = c.parent
        if c is None or not key.startswith('self.'):
            return
        attr = key.split('.')[1].split('[')[0]
        for k in c.cls.mro():
            for m in k.methods.values():
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CLOSERS and \
                            ast.unparse(x.func.value).startswith('self.' + attr):
                        return
                    if isinstance(x, ast.With) and any(ast.unparse(it.context_expr).startswith('self.' + attr) for it in x.items):
                        return
        node, text = self.acq[i]
        self.an.report('leak', self.fi, node, '%s is kept in self.%s and no method of %s closes it'
                       % (text, attr, c.cls.name), text)

    def assign(self, t, tags, st):
        if isinstance(t, (ast.Tuple, ast.List)):
            for j, e in enumerate(t.elts):
                sub = set()
                for x in tags:
                    if x[0] == 'T':
                        if j == 0:
                            sub.add(('R', x[1]))
                    else:
                        sub.add(x)
                self.assign(e, frozenset(sub), st)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, tags, st)
        k = self.key_of(t)
        if k is None:
            if isinstance(t, ast.Subscript):
                b = self.key_of(t.value)
                if b is not None:
                    st.env[b] = st.env.get(b, self.NONE) | tags
                    if '.' in b:
                        self.store_attr(b, tags, st, t)
            return
        self.forget(k, st)
        st.env[k] = tags
        if isinstance(t, ast.Name) and t.id in self.globals():
            for x in tags:
                if x[0] in 'RT':
                    st.open = st.open - {x[1]}
        if isinstance(t, ast.Attribute) or '.' in k:
            if k.startswith('self.') or '.' in k:
                self.store_attr(k, tags, st, t)

    def globals(self):
        if not hasattr(self, '_gl'):
            self._gl = set()
            if not isinstance(self.fi.node, ast.Lambda):
                for n in ast.walk(self.fi.node):
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        self._gl |= set(n.names)
        return self._gl

    # -- branches -------------------------------------------------------------
    def branch(self, test, st, outs):
        """[(truth, state)] of a test"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not v, s) for v, s in self.branch(test.operand, st, outs)]
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            res = []
            cur = [st]
            for i, v in enumerate(test.values):
                nxt = []
                for s in cur:
                    for val, s2 in self.branch(v, s, outs):
                        if val == conj:
                            nxt.append(s2)
                        else:
                            res.append((val, s2))
                cur = nxt
            res += [(conj, s) for s in cur]
            return res
        if isinstance(test, ast.Constant):
            return [(bool(test.value), st)]
        r, o = self.ev(test, st)
        outs += o
        res = []
        text = ast.unparse(test)
        names = frozenset(x.id for x in ast.walk(test) if isinstance(x, ast.Name))
        for s, tags in r:
            v = self.decide(test, s, tags)
            if v is None:
                v = s.facts.get((text, names))
                # complement forms
                if v is None:
                    alt = self.complement(test)
                    if alt is not None:
                        w = s.facts.get((alt, names))
                        v = None if w is None else not w
            if v is not None:
                res.append((v, s))
                continue
            pure = not any(isinstance(x, ast.Call) and dotted(x.func) not in ('isinstance', 'hasattr', 'len', 'callable', 'issubclass', 'type')
                           and not (isinstance(x.func, ast.Attribute) and x.func.attr in ('endswith', 'startswith')) for x in ast.walk(test))
            for val in (True, False):
                s2 = s.copy()
                if pure and self.repeated(test, text):
                    s2.facts[(text, names)] = val
                res.append((val, s2))
        return res

    def repeated(self, test, text):
        """the test (or its complement) occurs more than once in the function"""
        if not hasattr(self, '_tests'):
            self._tests = {}
            for x in ast.walk(self.fi.node):
                for t in ([x.test] if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)) else
                          x.values if isinstance(x, ast.BoolOp) else
                          [x.operand] if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) else []):
                    u = ast.unparse(t)
                    self._tests[u] = self._tests.get(u, 0) + 1
        alt = self.complement(test)
        return self._tests.get(text, 0) + (self._tests.get(alt, 0) if alt else 0) > 1

    def complement(self, test):
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
            op = m.get(type(test.ops[0]))
            if op:
                return ast.unparse(ast.Compare(test.left, [op()], test.comparators))
        return None

    def decide(self, test, s, tags):
        def null(t):
            if not t:
                return None
            if all(x[0] == 'N' for x in t):
                return True
            if all(x[0] in 'RTM' for x in t):
                return False
            return None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            k = self.key_of(test.left)
            v = null(s.env.get(k, self.NONE)) if k is not None else None
            if v is None:
                return None
            return v if isinstance(test.ops[0], ast.Is) else not v
        if isinstance(test, (ast.Name, ast.Attribute)):
            v = null(tags)
            return None if v is None else not v
        if isinstance(test, ast.Attribute) and test.attr == 'closed':
            return None
        return None

    # -- statements --------------------------------------------------------------
    def block(self, body, states):
        """-> outcomes; 'fall' outcomes are the states after the block"""
        cur = states
        outs = []
        for s in body:
            if not cur:
                break
            nxt = []
            for st in cur:
                for o in self.stmt(s, st):
                    if o[0] == 'fall':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = self.merge(nxt)
            outs = self.dedupe(outs)
        return outs + [('fall', s, self.NONE) for s in cur]

    def merge(self, states):
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        out = list(seen.values())
        if len(out) > MAXSTATES:
            g = {}
            for s in out:
                k = (s.open, s.note)
                if k in g:
                    t = g[k]
                    for a, b in s.env.items():
                        t.env[a] = t.env.get(a, self.NONE) | b
                    t.facts = {a: b for a, b in t.facts.items() if s.facts.get(a) == b}
                else:
                    g[k] = s.copy()
            out = list(g.values())
        return out

    def dedupe(self, outs):
        seen = {}
        for o in outs:
            # after a raise or return only the open resources matter
            seen.setdefault((o[0], o[1].key(), o[2]), o)
        return list(seen.values())

    def stmt(self, n, st):
        E = self.NONE
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            s = st.copy()
            self.forget(n.name, s)
            return [('fall', s, E)]
        if isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return [('fall', st, E)]
        if isinstance(n, ast.Break):
            return [('break', st, E)]
        if isinstance(n, ast.Continue):
            return [('continue', st, E)]
        if isinstance(n, ast.Return):
            r, outs = self.ev(n.value, st)
            return outs + [('return', s, t) for s, t in r]
        if isinstance(n, ast.Raise):
            r, outs = self.ev(n.exc, st)
            return outs + [('raise', s, E) for s, t in r]
        if isinstance(n, ast.Assert):
            outs = []
            res = []
            for val, s in self.branch(n.test, st, outs):
                res.append(('fall' if val else 'raise', s, E))
            return outs + res
        if isinstance(n, ast.Expr):
            r, outs = self.ev(n.value, st)
            return outs + [('fall', s, E) for s, t in r]
        if isinstance(n, ast.Assign):
            r, outs = self.ev(n.value, st)
            res = []
            for s, t in r:
                s = s.copy()
                for tg in n.targets:
                    self.assign(tg, t, s)
                res.append(('fall', s, E))
            return outs + res
        if isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            r, outs = self.ev(n.value, st)
            res = []
            for s, t in r:
                s = s.copy()
                if isinstance(n, ast.AugAssign):
                    k = self.key_of(n.target)
                    t = t | s.env.get(k, E) if k else t
                self.assign(n.target, t, s)
                res.append(('fall', s, E))
            return outs + res
        if isinstance(n, ast.Delete):
            s = st.copy()
            for t in n.targets:
                k = self.key_of(t)
                if k:
                    self.forget(k, s)
            return [('fall', s, E)]
        if isinstance(n, ast.If):
            outs = []
            for val, s in self.branch(n.test, st, outs):
                outs += self.block(n.body if val else n.orelse, [s])
            return self.dedupe(outs)
        if isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(n, st)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return self.with_(n, st)
        if isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            return self.try_(n, st)
        if isinstance(n, ast.Match):
            r, outs = self.ev(n.subject, st)
            for s, t in r:
                for c in n.cases:
                    outs += self.block(c.body, [s.copy()])
                outs.append(('fall', s, E))
            return outs
        return [('fall', st, E)]

    def loop(self, n, st):
        E = self.NONE
        outs = []
        res = []
        if isinstance(n, ast.While):
            cur = [st]
        else:
            r, outs = self.ev(n.iter, st)
            cur = []
            for s, t in r:
                s = s.copy()
                s.env['<iter %d>' % n.lineno] = t
                cur.append(s)
        seen = set()
        exits = []
        forever = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
        for _ in range(6):
            nxt = []
            for s in cur:
                if s.key() in seen:
                    continue
                seen.add(s.key())
                if isinstance(n, ast.While):
                    into = []
                    for val, s2 in self.branch(n.test, s, outs):
                        if val:
                            into.append(s2)
                        else:
                            exits.append(s2)
                else:
                    exits.append(s)
                    t = s.env.get('<iter %d>' % n.lineno, E)
                    s2 = s.copy()
                    # iterating calls next(), which may raise
                    outs.append(('raise', s, E))
                    self.assign(n.target, t, s2)
                    # a loop over a container of resources closes each of them
                    into = [s2]
                for o in self.block(n.body, into):
                    if o[0] in ('fall', 'continue'):
                        nxt.append(o[1])
                    elif o[0] == 'break':
                        res.append(('fall', o[1], E))
                    else:
                        res.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
        # a for loop whose body closes the element it got from a container of
        # resources leaves none of them open
        if not isinstance(n, ast.While) and isinstance(n.iter, (ast.Name, ast.Attribute)):
            full = [s for s in exits if not any(x[0] in 'RT' and x[1] in s.open for x in s.env.get('<iter %d>' % n.lineno, E))]
            if full:
                exits = full
        if not forever:
            res += self.block(n.orelse, self.merge(exits))
        return self.dedupe(outs + res)

    def with_(self, n, st):
        E = self.NONE

        def go(items, s):
            if not items:
                return self.block(n.body, [s])
            it = items[0]
            r, outs = self.ev(it.context_expr, s)
            swallow = False
            ce = it.context_expr
            if isinstance(ce, ast.Call):
                e = self.an.ext(self.fi, ce.func)
                swallow = e == 'contextlib.suppress'
            for s1, t in r:
                s1 = s1.copy()
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, t, s1)
                for o in go(items[1:], s1):
                    s2 = self.close(t, o[1])
                    # what `with` opens in this statement belongs to it
                    outs.append((o[0], s2, o[2]))
                    if swallow and o[0] == 'raise':
                        outs.append(('fall', s2, E))
            return self.dedupe(outs)
        return go(n.items, st)

    def try_(self, n, st):
        E = self.NONE
        body = self.block(n.body, [st])
        outs = []
        after = []
        for o in body:
            if o[0] == 'fall':
                after.append(o[1])
            elif o[0] == 'raise':
                caught_all = False
                for h in n.handlers:
                    s = o[1].copy()
                    if h.name:
                        self.forget(h.name, s)
                    outs += self.block(h.body, [s])
                    names = []
                    if h.type is None:
                        caught_all = True
                    else:
                        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append(dotted(x))
                    if any(x in CATCH_ALL for x in names):
                        caught_all = True
                if not caught_all:
                    outs.append(o)
            else:
                outs.append(o)
        if n.orelse:
            outs += self.block(n.orelse, self.merge(after))
        else:
            outs += [('fall', s, E) for s in after]
        outs = self.dedupe(outs)
        if n.finalbody:
            res = []
            for o in outs:
                for f in self.block(n.finalbody, [o[1]]):
                    if f[0] == 'fall':
                        res.append((o[0], f[1], o[2]))
                    else:
                        res.append(f)
            outs = self.dedupe(res)
        return outs
