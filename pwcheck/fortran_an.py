"""Analyses of the parsed Fortran routines: effects, OpenMP sharing, array
bounds, definedness."""
from .fortran import Lin, lin, infeasible, Stmt

ELEMENTAL = {'sqrt', 'dsqrt', 'acos', 'dacos', 'asin', 'atan', 'cos', 'dcos', 'sin', 'dsin', 'tan', 'exp', 'dexp', 'log',
             'dlog', 'abs', 'dabs', 'aint', 'anint', 'dnint', 'nint', 'floor', 'ceiling', 'int', 'real', 'dble', 'float',
             'mod', 'modulo', 'sign', 'max', 'min', 'dmax1', 'dmin1', 'merge', 'conjg', 'cmplx', 'aimag', 'dot', 'cosh',
             'sinh', 'tanh', 'atan2', 'log10', 'logical', 'not', 'iand', 'ior', 'ieor', 'isnan', 'erf', 'erfc'}
REDUCE = {'sum', 'maxval', 'minval', 'product', 'any', 'all', 'count', 'dot_product', 'size', 'norm2', 'ubound', 'lbound'}
OTHER_INTR = {'matmul', 'transpose', 'reshape', 'spread', 'trim', 'present', 'maxloc', 'minloc', 'epsilon', 'huge', 'tiny',
              'len', 'len_trim', 'adjustl', 'pack', 'cshift', 'eoshift', 'shape', 'kind', 'allocated', 'achar', 'char',
              'ichar', 'index', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_wtime'}
INTRINSIC = ELEMENTAL | REDUCE | OTHER_INTR
# external routines: which argument positions are (read, written)
EXTERN = {
    'dgesv': ('rrrrr_rr', 'nnwnwwnw'),
    'omp_set_num_threads': ('r', 'n'), 'getenv': ('rr', 'nw'), 'random_number': ('n', 'w'),
}
EXTERN['dgesv'] = ({0, 1, 2, 3, 5, 6}, {2, 4, 5, 7})
EXTERN['dgetrf'] = ({0, 1, 2, 3}, {2, 4, 5})
EXTERN['dgetrs'] = ({0, 1, 2, 3, 4, 5, 6, 7}, {6, 8})
EXTERN['omp_set_num_threads'] = ({0}, set())
EXTERN['getenv'] = ({0}, {1})
EXTERN['random_number'] = (set(), {0})
FLIP = {'<': '>=', '>=': '<', '<=': '>', '>': '<=', '==': '/=', '/=': '=='}


def names_in(e, out=None):
    out = set() if out is None else out
    if isinstance(e, tuple):
        if e and e[0] in ('name', 'ref'):
            out.add(e[1])
        if e and e[0] == 'kw':
            names_in(e[2], out)
            return out
        for x in e[1:]:
            if isinstance(x, (tuple, list)):
                names_in(x, out)
    elif isinstance(e, list):
        for x in e:
            names_in(x, out)
    return out


def replace(e, sub):
    if isinstance(e, tuple):
        if e and e[0] == 'name' and e[1] in sub:
            return ('par', sub[e[1]])
        return tuple(replace(x, sub) for x in e)
    if isinstance(e, list):
        return [replace(x, sub) for x in e]
    return e


class Ctx:
    """position of a statement: loops, guards, OpenMP state"""

    def __init__(self, loops=(), guards=(), omp=None):
        self.loops, self.guards, self.omp = loops, guards, omp

    def loop(self, s):
        return Ctx(self.loops + (s,), self.guards, self.omp)

    def guard(self, c, neg=False, depth=None):
        return Ctx(self.loops, self.guards + ((c, neg, len(self.loops)),), self.omp)

    def with_omp(self, omp):
        return Ctx(self.loops, self.guards, omp)


class Omp:
    def __init__(self, region, private, firstprivate, reduction, ws=(), wsid=None, guarded=None, phase=0):
        self.region, self.private, self.firstprivate, self.reduction = region, private, firstprivate, reduction
        self.ws, self.wsid, self.guarded, self.phase = ws, wsid, guarded, phase

    def derive(self, **kw):
        o = Omp(self.region, self.private, self.firstprivate, self.reduction, self.ws, self.wsid, self.guarded, self.phase)
        o.__dict__.update(kw)
        return o


class Access:
    def __init__(self, name, rw, subs, line, ctx, stmt, via=None):
        self.name, self.rw, self.subs, self.line, self.ctx, self.stmt, self.via = name, rw, subs, line, ctx, stmt, via


class Routine:
    """accesses and effects of one parsed routine"""

    def __init__(self, an, r):
        self.an, self.r = an, r
        self.acc = []
        self.regions = []
        self.io = False
        self.exprs = []       # expressions passed for arguments the callee writes
        self.static = self.static_state()
        self.phase = 0
        self.body(r.body, Ctx())

    def decl(self, n):
        return self.r.decls.get(n)

    def is_array(self, n):
        d = self.decl(n)
        return d is not None and d.dims is not None

    def is_const(self, n):
        d = self.decl(n)
        return d is not None and d.param

    def static_state(self):
        out = []
        for n, d in self.r.decls.items():
            if d.param:
                continue
            if d.save or d.init is not None or n in self.r.common or '*' in self.r.common and n not in self.r.args:
                out.append(n)
        for n in self.r.common:
            if n != '*' and n not in out:
                out.append(n)
        return out

    # -- walking
    def add(self, name, rw, subs, line, ctx, stmt, via=None):
        if self.is_const(name):
            return
        self.acc.append(Access(name, rw, subs, line, ctx, stmt, via))

    def reads(self, e, line, ctx, stmt):
        if e is None or not isinstance(e, tuple):
            return
        k = e[0]
        if k == 'name':
            self.add(e[1], 'r', None, line, ctx, stmt)
        elif k == 'ref':
            n = e[1]
            if self.is_array(n):
                for s in e[2]:
                    self.reads(s, line, ctx, stmt)
                self.add(n, 'r', e[2], line, ctx, stmt)
            elif n in self.an.routines and n not in INTRINSIC:
                self.call(n, e[2], line, ctx, stmt)
            else:
                for s in e[2]:
                    self.reads(s, line, ctx, stmt)
        elif k == 'implied':
            c2 = ctx.loop(Stmt('do', line, var=e[2], lo=e[3], hi=e[4], step=e[5], body=[], implied=True))
            for x in (e[3], e[4], e[5]):
                self.reads(x, line, ctx, stmt)
            for x in e[1]:
                self.reads(x, line, c2, stmt)
        elif k == 'kw':
            self.reads(e[2], line, ctx, stmt)
        elif k == 'list':
            for x in e[1]:
                self.reads(x, line, ctx, stmt)
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    self.reads(x, line, ctx, stmt)

    def write(self, e, line, ctx, stmt, via=None):
        k = e[0]
        if k == 'name':
            self.add(e[1], 'w', None, line, ctx, stmt, via)
        elif k == 'ref':
            for s in e[2]:
                self.reads(s, line, ctx, stmt)
            self.add(e[1], 'w', e[2], line, ctx, stmt, via)
        elif k == 'implied':
            c2 = ctx.loop(Stmt('do', line, var=e[2], lo=e[3], hi=e[4], step=e[5], body=[], implied=True))
            for x in e[1]:
                self.write(x, line, c2, stmt, via)

    def translated(self, name, i, args):
        """subscripts with which a called routine accesses its i-th argument, in
        terms of the actual arguments; None if they are not known"""
        callee = self.an.get(name) if name in self.an.routines else None
        a = args[i]
        if callee is None or a[0] != 'name' or not self.is_array(a[1]) or len(args) != len(callee.r.args):
            return None
        d = callee.r.args[i]
        if not callee.is_array(d) or len(callee.decl(d).dims) != len(self.decl(a[1]).dims):
            return None
        if any(x != y for x, y in zip([b[0] for b in callee.bounds(d)], [b[0] for b in self.bounds(a[1])])):
            return None
        sub = {}
        written = {x.name for x in callee.acc if x.rw == 'w'}
        for n, v in zip(callee.r.args, args):
            if v[0] != 'kw' and not callee.is_array(n) and n not in written:
                sub[n] = v
        out = []
        for x in callee.acc:
            if x.name != d:
                continue
            if x.subs is None:
                out.append((x.rw, None))
                continue
            subs = []
            for e in x.subs:
                if e[0] != 'slice' and names_in(e) <= set(sub) and 'ref' not in repr(e):
                    subs.append(('par', replace(e, sub)))
                else:
                    subs.append(('slice', None, None, None))
            out.append((x.rw, subs))
        return out

    def call(self, name, args, line, ctx, stmt):
        rd, wr, ext = self.an.effects(name, len(args))
        for i, a in enumerate(args):
            if a[0] == 'kw':
                a = a[2]
            tr = self.translated(name, i, args) if a[0] == 'name' else None
            if tr:
                for rw, subs in tr:
                    self.add(a[1], rw, subs, line, ctx, stmt, via=name)
                continue
            if a[0] in ('name', 'ref') and (a[0] == 'name' or self.is_array(a[1])):
                if i in wr:
                    if i in rd:
                        self.reads(a, line, ctx, stmt)
                    self.write(a, line, ctx, stmt, via=name)
                else:
                    self.reads(a, line, ctx, stmt)
            else:
                self.reads(a, line, ctx, stmt)
                if i in wr and not (a[0] == 'name' and self.is_const(a[1])):
                    self.exprs.append((line, name, i, a))

    def body(self, stmts, ctx):
        for s in stmts:
            self.stmt(s, ctx)

    def stmt(self, s, ctx):
        k = s.kind
        if k == 'assign':
            self.reads(s.rhs, s.line, ctx, s)
            self.write(s.lhs, s.line, ctx, s)
        elif k == 'do':
            for e in (s.lo, s.hi, s.step):
                self.reads(e, s.line, ctx, s)
            self.body(s.body, ctx.loop(s))
        elif k == 'while':
            self.reads(s.cond, s.line, ctx, s)
            self.body(s.body, ctx.guard(s.cond))
        elif k == 'forever':
            self.body(s.body, ctx)
        elif k == 'if':
            neg = []
            for cond, body in s.arms:
                c = ctx
                for n in neg:
                    c = c.guard(n, True)
                self.reads(cond, s.line, c, s)
                self.body(body, c.guard(cond))
                neg.append(cond)
            c = ctx
            for n in neg:
                c = c.guard(n, True)
            self.body(s.orelse, c)
        elif k == 'where':
            self.reads(s.cond, s.line, ctx, s)
            self.body(s.body, ctx)
        elif k == 'call':
            if s.name in self.an.routines and self.an.routines[s.name] is not self.r and self.an.done.get(s.name) is not None:
                self.io = self.io or self.an.done[s.name].io
            self.call(s.name, s.args, s.line, ctx, s)
        elif k == 'io':
            for e in s.ctl:
                if e[0] == 'kw':
                    if e[1] in ('iostat', 'newunit', 'iomsg', 'size', 'exist', 'opened', 'number') or s.op == 'inquire':
                        self.write(e[2], s.line, ctx, s, via=s.op)
                    else:
                        self.reads(e[2], s.line, ctx, s)
                else:
                    self.reads(e, s.line, ctx, s)
            if s.op == 'read':
                self.io = True
                for e in s.items:
                    self.write(e, s.line, ctx, s, via='read')
            else:
                for e in s.items:
                    self.reads(e, s.line, ctx, s)
        elif k == 'alloc':
            for e in s.items:
                if e[0] == 'ref' and s.op == 'allocate':
                    for x in e[2]:
                        self.reads(x, s.line, ctx, s)
                    self.add(e[1], 'a', None, s.line, ctx, s)
        elif k == 'parallel':
            cl = s.clauses
            priv = set(cl.get('private', ())) | set(cl.get('lastprivate', ()))
            fp = set(cl.get('firstprivate', ()))
            red = dict(cl.get('reduction', {}))
            if cl.get('default') == 'private':
                shared = set(cl.get('shared', ()))
                priv |= {n for n in self.r.decls if n not in shared and n not in fp and n not in red}
            elif cl.get('default') == 'firstprivate':
                shared = set(cl.get('shared', ()))
                fp |= {n for n in self.r.decls if n not in shared and n not in priv and n not in red}
            seq = set()
            loop_vars(s.body, seq)
            o = Omp(s, priv | seq, fp, red, phase=0)
            self.regions.append(s)
            self.phase = 0
            self.body(s.body, ctx.with_omp(o))
        elif k == 'ompdo':
            o = ctx.omp
            loop = s.loop
            if o is None:              # orphaned worksharing: treat as its own region
                o = Omp(s, set(), set(), {})
                self.regions.append(s)
            cl = s.clauses
            n = int(cl.get('collapse', '1')) if str(cl.get('collapse', '1')).isdigit() else 1
            ws, l = [], loop
            for i in range(n):
                ws.append(l.var)
                inner = [x for x in l.body if x.kind == 'do']
                if i + 1 < n and inner:
                    l = inner[0]
            o2 = o.derive(private=o.private | set(cl.get('private', ())) | set(cl.get('lastprivate', ())) | set(ws),
                          firstprivate=o.firstprivate | set(cl.get('firstprivate', ())),
                          reduction=dict(o.reduction, **cl.get('reduction', {})), ws=tuple(ws), wsid=s, phase=self.phase)
            for e in (loop.lo, loop.hi, loop.step):
                self.reads(e, s.line, ctx, s)
            self.body(loop.body, ctx.loop(loop).with_omp(o2))
            if not cl.get('nowait'):
                self.phase += 1
        elif k == 'guarded':
            o = ctx.omp
            self.body([x for x in s.body if x is not None], ctx.with_omp(o.derive(guarded=s.how)) if o else ctx)
        elif k == 'barrier':
            self.phase += 1
        elif k == 'other':
            for n in s.names:
                if n in self.r.decls:
                    self.add(n, 'r', None, s.line, ctx, s)

    # -- linear reasoning
    def const_env(self):
        env = {}
        for n, d in self.r.decls.items():
            if d.param and d.init is not None:
                x = lin(d.init)
                if x is not None and x.is_const():
                    env[n] = x
        return env

    def size_params(self):
        """integer dummies (or locals) that appear in array bounds: >= 1"""
        out = set()
        for d in self.r.decls.values():
            for lo, hi in d.dims or ():
                if hi is not None:
                    out |= {n for n in names_in(hi) | names_in(lo) if n in self.r.args}
        return out

    def bounds(self, n):
        d = self.decl(n)
        env = self.const_env()
        out = []
        for lo, hi in d.dims or ():
            if lo is None or hi is None:
                out.append((None, None))
            else:
                out.append((lin(lo, env), lin(hi, env)))
        return out

    def constraints(self, ctx, extra_vars):
        """(rows, undecided) for the loops and guards around an access"""
        env = self.const_env()
        rows = []
        vars_ = set(extra_vars)
        und = False
        for l in reversed(ctx.loops):
            lo, hi, st = lin(l.lo, env), lin(l.hi, env), lin(l.step, env)
            if lo is None or hi is None or st is None or not st.is_const() or st.const() == 0:
                if l.var in vars_:
                    und = True
                continue
            if st.const() < 0:
                lo, hi = hi, lo
            v = Lin({l.var: 1})
            rows.append(v.add(lo, -1))
            rows.append(hi.add(v, -1))
            vars_ |= {x for x in set(lo) | set(hi) if x}
        for p in self.size_params():
            rows.append(Lin({p: 1, None: -1}))
        for c, neg, _ in ctx.guards:
            ok = self.guard_rows(c, neg, rows, env)
            if not ok and names_in(c) & vars_:
                und = True
        return rows, und

    def guard_rows(self, c, neg, rows, env):
        if c[0] == 'par':
            return self.guard_rows(c[1], neg, rows, env)
        if c[0] == 'un' and c[1] == '.not.':
            return self.guard_rows(c[2], not neg, rows, env)
        if c[0] == 'bin' and c[1] in ('.and.', '.or.'):
            if (c[1] == '.and.') != neg:
                a = self.guard_rows(c[2], neg, rows, env)
                b = self.guard_rows(c[3], neg, rows, env)
                return a and b
            return False
        if c[0] == 'bin' and c[1] in FLIP:
            a, b = lin(c[2], env), lin(c[3], env)
            if a is None or b is None:
                return False
            op = FLIP[c[1]] if neg else c[1]
            d = a.add(b, -1)
            if op == '<':
                rows.append(d.scale(-1).add(Lin.c(1), -1))
            elif op == '<=':
                rows.append(d.scale(-1))
            elif op == '>':
                rows.append(d.add(Lin.c(1), -1))
            elif op == '>=':
                rows.append(d)
            elif op == '==':
                rows.append(d)
                rows.append(d.scale(-1))
            else:
                return False
            return True
        return False

    def decided_names(self, ctx):
        names = {l.var for l in ctx.loops} | self.size_params()
        assigned = {a.name for a in self.acc if a.rw in ('w', 'a')}
        return {n for n in names if n not in assigned or n in {l.var for l in ctx.loops}}

    # -- shapes: list of Lin, [] scalar, None unknown
    def shape(self, e, bad=None):
        k = e[0]
        env = self.const_env()
        if k in ('num', 'str', 'log', 'implied', 'star', 'slice'):
            return []
        if k == 'par':
            return self.shape(e[1], bad)
        if k == 'un':
            return self.shape(e[2], bad)
        if k == 'name':
            if not self.is_array(e[1]):
                return []
            out = []
            for lo, hi in self.bounds(e[1]):
                if lo is None or hi is None:
                    return None
                out.append(hi.add(lo, -1).add(Lin.c(1)))
            return out
        if k == 'ref':
            n, args = e[1], e[2]
            if self.is_array(n):
                b = self.bounds(n)
                out = []
                for i, s in enumerate(args):
                    if s[0] == 'slice':
                        if s[3] is not None:
                            return None
                        if i >= len(b) or (b[i][0] is None and (s[1] is None or s[2] is None)):
                            return None
                        lo = lin(s[1], env) if s[1] is not None else b[i][0]
                        hi = lin(s[2], env) if s[2] is not None else b[i][1]
                        if lo is None or hi is None:
                            return None
                        out.append(hi.add(lo, -1).add(Lin.c(1)))
                    else:
                        x = self.shape(s)
                        if x is None or x:
                            return None
                return out
            pos = [a for a in args if a[0] != 'kw']
            if n in ('matmul',) and len(pos) == 2:
                a, b = self.shape(pos[0], bad), self.shape(pos[1], bad)
                if a is None or b is None or not a or not b:
                    return None
                if bad is not None and self.differ(a[-1], b[0]):
                    bad.append('matmul of lengths %s and %s' % (a[-1].show(), b[0].show()))
                return a[:-1] + b[1:]
            if n == 'transpose' and pos:
                a = self.shape(pos[0], bad)
                return a[::-1] if a is not None else None
            if n == 'dot_product' and len(pos) == 2:
                a, b = self.shape(pos[0], bad), self.shape(pos[1], bad)
                if bad is not None and a and b and self.differ(a[0], b[0]):
                    bad.append('dot_product of lengths %s and %s' % (a[0].show(), b[0].show()))
                return []
            if n in REDUCE:
                for a in pos:
                    self.shape(a, bad)
                return [] if len(args) == 1 or n == 'size' else None
            if n in ELEMENTAL:
                out = []
                for a in pos:
                    x = self.shape(a, bad)
                    if x is None:
                        out = None
                    elif x and out == []:
                        out = x
                return out
            return None
        if k == 'bin':
            a, b = self.shape(e[2], bad), self.shape(e[3], bad)
            if a is None or b is None:
                return None
            if a and b:
                self.conform(a, b, e[1], bad)
            return a or b
        return None

    def conform(self, a, b, what, bad):
        if bad is None:
            return
        if len(a) != len(b):
            bad.append('%s: rank %d and rank %d' % (what, len(a), len(b)))
            return
        for x, y in zip(a, b):
            if self.differ(x, y):
                bad.append('%s: lengths %s and %s' % (what, x.show(), y.show()))

    def differ(self, x, y):
        d = x.add(y, -1)
        if not d:
            return False
        ok = set(self.r.args) | {s.var for s in all_stmts(self.r.body) if s.kind == 'do'}
        assigned = {a.name for a in self.acc if a.rw == 'w'}
        return all(n is None or (n in ok and n not in assigned) for n in d)


def all_stmts(body):
    for s in body:
        if s is None:
            continue
        yield s
        for f in ('body', 'orelse'):
            if getattr(s, f, None):
                yield from all_stmts(getattr(s, f))
        if s.kind == 'if':
            for _, b in s.arms:
                yield from all_stmts(b)
        if s.kind == 'ompdo':
            yield s.loop
            yield from all_stmts(s.loop.body)


def loop_vars(body, out):
    for s in all_stmts(body):
        if s.kind == 'do':
            out.add(s.var)
        for f in ('rhs', 'lhs', 'cond'):
            implied_vars(getattr(s, f, None), out)
        for e in getattr(s, 'items', None) or ():
            implied_vars(e, out)


def implied_vars(e, out):
    if isinstance(e, tuple):
        if e and e[0] == 'implied':
            out.add(e[2])
        for x in e:
            if isinstance(x, (tuple, list)):
                implied_vars(x, out)
    elif isinstance(e, list):
        for x in e:
            implied_vars(x, out)


class Analysis:
    def __init__(self, routines):
        self.routines = routines
        self.done = {}
        self.eff = {}
        self.stack = []
        for n in routines:
            self.get(n)

    def get(self, n):
        if n not in self.done:
            if n in self.stack:
                return None
            self.stack.append(n)
            r = Routine(self, self.routines[n])
            self.stack.pop()
            self.done[n] = r
        return self.done[n]

    def effects(self, name, nargs):
        """(positions read first or read, positions written, external)"""
        if name in self.routines:
            r = self.get(name)
            if r is None:
                return set(range(nargs)), set(range(nargs)), False
            rd, wr = set(), set()
            first = first_reads(r)
            for i, a in enumerate(r.r.args):
                if any(x.name == a and x.rw == 'w' for x in r.acc):
                    wr.add(i)
                    if a in first:
                        rd.add(i)
                elif any(x.name == a and x.rw == 'r' for x in r.acc):
                    rd.add(i)
            return rd, wr, False
        if name in EXTERN:
            a, b = EXTERN[name]
            return a, b, True
        return set(range(nargs)), set(range(nargs)), True


# ------------------------------------------------------------- definedness
class Def:
    """must: names (with boxes) defined on every path, may: on some path"""

    def __init__(self, may=frozenset(), boxes=None, err=False):
        self.may = set(may)
        self.boxes = dict(boxes or {})      # name -> frozenset of boxes, or 'full'
        self.err = err

    def copy(self):
        return Def(self.may, self.boxes, self.err)


def merge(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    out = states[0].copy()
    for s in states[1:]:
        out.may |= s.may
        out.err = out.err and s.err
        b = {}
        for n in set(out.boxes) & set(s.boxes):
            x, y = out.boxes[n], s.boxes[n]
            if x == 'full':
                b[n] = y
            elif y == 'full':
                b[n] = x
            else:
                b[n] = x & y
        out.boxes = b
    return out


class Definedness:
    def __init__(self, rt, report=None):
        self.rt, self.r = rt, rt.r
        self.report = report
        self.exits = []           # (Def, line, how)
        self.first = set()        # dummies read before any write
        self.undef = []           # (name, line)
        self.loops = []           # stacks of escaping states
        st = Def()
        st.may = {n for n in self.r.args if 'in' in (self.r.decls[n].intent if n in self.r.decls and self.r.decls[n].intent
                                                     else {'in'}) or 'in' in self.r.f2py.get(n, ())}
        st.may |= set(self.rt.static)
        self.loop_later = []
        end = self.body(self.r.body, st, Ctx())
        if end is not None:
            self.exits.append((end, self.r.line, 'end'))

    def local(self, n):
        return n in self.r.decls and n not in self.r.args and not self.r.decls[n].param

    def body(self, stmts, st, ctx):
        for s in stmts:
            if s is None:
                continue
            if st is None:
                return None
            st = self.stmt(s, st, ctx)
        return st

    def accesses(self, s):
        return self.by_stmt().get(id(s), [])

    def by_stmt(self):
        if not hasattr(self, '_by'):
            self._by = {}
            for a in self.rt.acc:
                self._by.setdefault(id(a.stmt), []).append(a)
        return self._by

    def read(self, a, st, ctx):
        n = a.name
        if n in {l.var for l in ctx.loops} | {l.var for l in a.ctx.loops}:
            return
        if n in self.r.args:
            d = self.r.decls.get(n)
            if 'out' in self.r.intent(n) and not (n in st.boxes or n in getattr(st, 'written', ())):
                if n not in self.written(st):
                    self.first.add(n)
                    if d is not None and d.intent == {'out'} and 'in' not in self.r.f2py.get(n, ()):
                        self.undef.append((n, a.line, 'intent(out) argument read before it is assigned'))
            return
        if self.local(n) and n not in st.may:
            if ctx.guards and any(n in x for x in self.loop_later):
                return
            self.undef.append((n, a.line, 'read before any assignment'))

    def written(self, st):
        return {x[1:] for x in st.may if x.startswith('!')}

    def write(self, a, st, ctx):
        st.may.add(a.name)
        st.may.add('!' + a.name)
        if a.rw == 'a':
            return
        old = st.boxes.get(a.name, frozenset())
        if old == 'full':
            return
        box = self.box(a) if not a.via or a.subs is None else None
        if box == 'full' or box is None:
            st.boxes[a.name] = 'full'
            if box is None:
                self.undecided = getattr(self, 'undecided', 0) + 1
        else:
            st.boxes[a.name] = self.normal(a.name, old | {box})

    def box(self, a):
        """the rectangle of elements assigned by an access in its loops"""
        if a.subs is None or not self.rt.is_array(a.name):
            if a.via and a.name in self.rt.r.decls:
                return self.via_box(a)
            return 'full'
        env = self.rt.const_env()
        b = self.rt.bounds(a.name)
        loops = {l.var: l for l in a.ctx.loops}
        used = set()
        out = []
        for i, s in enumerate(a.subs):
            if i >= len(b) or b[i][0] is None:
                return None
            if s[0] == 'slice':
                if s[3] is not None:
                    return None
                lo = lin(s[1], env) if s[1] is not None else b[i][0]
                hi = lin(s[2], env) if s[2] is not None else b[i][1]
                if lo is None or hi is None or (set(lo) | set(hi)) & set(loops):
                    return None
                out.append((lo.key(), hi.key()))
                continue
            x = lin(s, env)
            if x is None:
                return None
            vs = [n for n in x if n in loops]
            if not vs:
                if any(n is not None and n not in self.r.args for n in x):
                    return None
                out.append((x.key(), x.key()))
                continue
            if len(vs) > 1 or vs[0] in used or abs(x[vs[0]]) != 1:
                return None
            used.add(vs[0])
            l = loops[vs[0]]
            lo, hi, stp = lin(l.lo, env), lin(l.hi, env), lin(l.step, env)
            if lo is None or hi is None or stp is None or not stp.is_const() or abs(stp.const()) != 1:
                return None
            if (set(lo) | set(hi)) & set(loops):
                return None
            if stp.const() < 0:
                lo, hi = hi, lo
            rest = x.add(Lin({vs[0]: x[vs[0]]}), -1)
            c = x[vs[0]]
            p, q = lo.scale(c).add(rest), hi.scale(c).add(rest)
            if c < 0:
                p, q = q, p
            out.append((p.key(), q.key()))
        return tuple(out)

    def via_box(self, a):
        r = self.rt.an.done.get(a.via)
        return 'full'

    def normal(self, name, boxes):
        """merge boxes that touch; 'full' if one covers the declared extent"""
        b = self.rt.bounds(name)
        full = tuple((lo.key(), hi.key()) if lo is not None and hi is not None else None for lo, hi in b)
        if any(x is None for x in full):
            return 'full'
        boxes = set(boxes)
        changed = True
        while changed:
            changed = False
            for x in sorted(boxes):
                for y in sorted(boxes):
                    if x == y:
                        continue
                    d = [i for i in range(len(x)) if x[i] != y[i]]
                    if len(d) == 1 and nxt(x[d[0]][1]) == y[d[0]][0]:
                        z = list(x)
                        z[d[0]] = (x[d[0]][0], y[d[0]][1])
                        boxes -= {x, y}
                        boxes.add(tuple(z))
                        changed = True
                        break
                if changed:
                    break
        return 'full' if full in boxes else frozenset(boxes)

    def stmt(self, s, st, ctx):
        k = s.kind
        acc = self.accesses(s)
        if k in ('do', 'while', 'forever', 'if', 'where', 'parallel', 'ompdo', 'guarded'):
            for a in acc:
                if a.rw == 'r':
                    self.read(a, st, ctx)
        if k == 'do':
            st.may.add(s.var)
            return self.loop(s, s.body, st, ctx.loop(s))
        if k == 'while':
            return self.loop(s, s.body, st, ctx, zero=True)
        if k == 'forever':
            return self.loop(s, s.body, st, ctx, forever=True)
        if k == 'if':
            outs = []
            for cond, body in s.arms:
                outs.append(self.body(body, st.copy(), ctx.guard(cond)))
            outs.append(self.body(s.orelse, st.copy(), ctx.guard(s.arms[-1][0], True) if s.arms else ctx))
            return merge(outs)
        if k == 'where':
            keep = st.copy()
            st = self.body(s.body, st, ctx)
            return merge([st, keep])
        if k == 'parallel':
            cl = s.clauses
            priv = set(cl.get('private', ()))
            inner = st.copy()
            inner.may -= priv
            out = self.body(s.body, inner, ctx)
            if out is not None:
                out.may |= st.may & priv
            return out
        if k == 'ompdo':
            cl = s.clauses
            priv = set(cl.get('private', ()))
            inner = st.copy()
            inner.may -= priv
            inner.may.add(s.loop.var)
            out = self.loop(s.loop, s.loop.body, inner, ctx.loop(s.loop))
            if out is not None:
                out.may |= st.may & priv
            return out
        if k == 'guarded':
            return self.body(s.body, st, ctx)
        if k in ('exit', 'cycle'):
            if self.loops:
                self.loops[-1].append((k, st.copy()))
            return None
        if k == 'return':
            self.exits.append((st, s.line, 'return'))
            return None
        if k == 'stop':
            return None
        for a in acc:
            if a.rw == 'r':
                self.read(a, st, ctx)
            else:
                self.write(a, st, ctx)
        if k == 'io' and s.op == 'write' and not any(x[0] == 'kw' for x in s.ctl):
            st.err = True
        return st

    def loop(self, s, body, st, ctx, zero=False, forever=False):
        before = st.copy()
        self.loops.append([])
        later = {a.name for x in all_stmts(body) for a in self.accesses(x) if a.rw in ('w', 'a')}
        self.loop_later.append(later)
        end = self.body(body, st, ctx)
        self.loop_later.pop()
        esc = [x for _, x in self.loops.pop()]
        if forever:
            # leaves only through exit; the exits of later passes have seen the whole body
            if end is not None:
                for x in esc:
                    x.may |= end.may
            return merge(esc) if esc else end
        outs = [end] + esc
        if zero:
            outs.append(before)
        out = merge(outs)
        return out if out is not None else before


def nxt(key):
    d = Lin({(n or None): v for n, v in key}).add(Lin.c(1))
    return d.key()


_first = {}


def first_reads(rt):
    k = id(rt)
    if k not in _first:
        _first[k] = (rt, Definedness(rt))
    return _first[k][1].first


def definedness(rt):
    first_reads(rt)
    return _first[id(rt)][1]


# ------------------------------------------------------------- OpenMP
def race_check(rt, site, violate):
    """sharing rule for every parallel region of a routine"""
    r = rt.r
    regions = {}
    for a in rt.acc:
        if a.ctx.omp is not None:
            regions.setdefault(id(a.ctx.omp.region), (a.ctx.omp.region, []))[1].append(a)
    for reg, accs in regions.values():
        site('parallel regions')
        written = {a.name for a in accs if a.rw == 'w'}
        shared = {}
        for a in accs:
            o = a.ctx.omp
            n = a.name
            lv = {l.var for l in a.ctx.loops if getattr(l, 'implied', False)}
            if n in o.private or n in o.firstprivate or n in lv:
                continue
            if n in o.reduction:
                check_reduction(rt, a, o, violate)
                continue
            shared.setdefault(n, []).append(a)
        for n, al in sorted(shared.items()):
            site('shared variables of parallel regions')
            if n not in written or not any(a.rw == 'w' for a in al):
                continue
            check_shared(rt, reg, n, al, written, site, violate)
        # calls: static state of the callees
        for s in all_stmts(reg.body if reg.kind == 'parallel' else [reg.loop]):
            for cn in called(rt, s):
                site('calls in parallel regions')
                seen = set()
                for st in static_of(rt.an, cn, seen):
                    violate('static', '%s|%s|%s' % (r.name, cn, st), s.line,
                            'parallel region of %s calls %s, which keeps %s between calls (shared by all threads)'
                            % (r.name, cn, st))


def called(rt, s):
    out = []
    if s.kind == 'call':
        out.append(s.name)
    for f in ('rhs', 'cond'):
        e = getattr(s, f, None)
        if e is not None:
            out += [n for n in names_in(e) if n in rt.an.routines and not rt.is_array(n) and n not in rt.r.decls]
    return out


def static_of(an, name, seen):
    if name in seen or name not in an.routines:
        return
    seen.add(name)
    rt = an.get(name)
    if rt is None:
        return
    for n in rt.static:
        yield n
    for s in all_stmts(rt.r.body):
        for c in called(rt, s):
            yield from static_of(an, c, seen)


def check_reduction(rt, a, o, violate):
    op = o.reduction[a.name]
    s = a.stmt
    if a.rw != 'w' or s.kind != 'assign':
        return
    rhs = s.rhs
    while rhs[0] == 'par':
        rhs = rhs[1]
    me = ('name', a.name)
    ok = False
    if op in ('+', '-', '*', '.and.', '.or.'):
        t, terms = rhs, []
        while t[0] == 'bin' and t[1] in (('+', '-') if op in '+-' else (op,)):
            terms.append((t[1], t[3]))
            t = t[2]
        terms.append(('+', t))
        ok = any(x == me for sg, x in terms) and sum(a.name in names_in(x) for _, x in terms) == 1
        if op == '*':
            ok = ok and all(True for _ in terms)
    elif op in ('max', 'min'):
        ok = rhs[0] == 'ref' and rhs[1].lstrip('d').rstrip('1') == op and me in rhs[2]
        ok = ok or any(names_in(g[0]) >= {a.name} for g in a.ctx.guards)
    if not ok:
        violate('reduction', '%s|%s' % (rt.r.name, a.name), a.line,
                'the reduction variable %s (%s) is not updated with its operator' % (a.name, op))


def norm_sub(rt, e):
    x = lin(e, rt.const_env())
    return x


def check_shared(rt, reg, n, al, written, site, violate):
    r = rt.r
    arr = rt.is_array(n)
    keysets = {}
    for a in al:
        o = a.ctx.omp
        if a.rw == 'w':
            site('writes to shared variables')
        if o.guarded:
            continue
        if not o.ws:
            if a.rw == 'w':
                violate('race', '%s|%s|outside' % (r.name, n), a.line,
                        '%s is written by every thread of the parallel region (no worksharing loop around the write)' % n)
                return
            keysets.setdefault(o.wsid, []).append((a, None))
            continue
        keysets.setdefault(o.wsid, []).append((a, owner(rt, a, o, written)))
    # accesses in different phases are ordered by the barrier
    for wsid, lst in keysets.items():
        ws = [a for a, _ in lst if a.rw == 'w']
        if not ws:
            continue
        common = None
        for a, k in lst:
            if wsid is None:
                continue
            if not k:
                if not arr or a.subs is None:
                    why = 'every iteration of the parallel loop accesses all of %s' % n if arr else \
                        '%s is shared by all iterations of the parallel loop and not private' % n
                else:
                    why = 'no subscript of %s is owned by the parallel loop variable %s' % (n, ', '.join(a.ctx.omp.ws))
                violate('race', '%s|%s|%s' % (r.name, n, a.rw), a.line, why + (' (%s by %s)' % (
                    'written' if a.rw == 'w' else 'read', a.via) if a.via else ''))
                common = None
                break
            common = k if common is None else common & k
        else:
            if wsid is not None and not common:
                violate('race', '%s|%s|mixed' % (r.name, n), ws[0].line,
                        'iterations of the parallel loop access elements of %s that other iterations write' % n)
    # different worksharing loops in the same phase (nowait)
    items = [(wsid, lst) for wsid, lst in keysets.items()]
    for i, (w1, l1) in enumerate(items):
        for w2, l2 in items[i + 1:]:
            for a, _ in l1:
                for b, _ in l2:
                    if (a.rw == 'w' or b.rw == 'w') and a.ctx.omp.phase == b.ctx.omp.phase:
                        violate('race', '%s|%s|nowait' % (r.name, n), a.line,
                                '%s is written in one worksharing construct and used in another without a barrier between' % n)
                        return


def owner(rt, a, o, written):
    """set of (position, subscript) through which the parallel loop variables own the element"""
    if not rt.is_array(a.name) or a.subs is None:
        return None
    priv = o.private | o.firstprivate
    got, seen = set(), set()
    for i, s in enumerate(a.subs):
        if s[0] == 'slice':
            continue
        x = norm_sub(rt, s)
        if x is None:
            continue
        vs = [v for v in x if v in o.ws]
        if len(vs) != 1:
            continue
        others = [v for v in x if v is not None and v not in o.ws]
        if any(v in priv or v in written for v in others):
            continue
        got.add((i, x.key()))
        seen.add(vs[0])
    if seen != set(o.ws):
        return None
    return frozenset(got)


# ------------------------------------------------------------- bounds
def bounds_check(rt, site, violate):
    r = rt.r
    env = rt.const_env()
    nproved = 0
    for a in rt.acc:
        if a.subs is None or not rt.is_array(a.name) or a.rw == 'a':
            continue
        b = rt.bounds(a.name)
        if len(a.subs) != len(b):
            violate('rank', '%s|%s' % (r.name, a.name), a.line, '%s has rank %d, %d subscripts given' % (a.name, len(b), len(a.subs)))
            continue
        known = rt.decided_names(a.ctx)
        for i, (s, (lo, hi)) in enumerate(zip(a.subs, b)):
            if lo is None or hi is None:
                continue
            if s[0] == 'slice':
                x1 = lin(s[1], env) if s[1] is not None else lo
                x2 = lin(s[2], env) if s[2] is not None else hi
                if s[1] is None and s[2] is None:
                    continue
                if x1 is None or x2 is None or s[3] is not None:
                    site('subscripts not decided')
                    continue
                nonempty = [x2.add(x1, -1)]
            else:
                x1 = x2 = lin(s, env)
                nonempty = []
                if x1 is None or rt.shape(s):
                    site('subscripts not decided')
                    continue
            names = {n for n in set(x1) | set(x2) if n is not None}
            if not names <= known:
                site('subscripts not decided')
                continue
            rows, und = rt.constraints(a.ctx, names)
            site('subscripts')
            if infeasible(rows + nonempty + [lo.add(x1, -1).add(Lin.c(1), -1)]) and \
                    infeasible(rows + nonempty + [x2.add(hi, -1).add(Lin.c(1), -1)]):
                nproved += 1
                continue
            if und:
                site('subscripts not decided')
                continue
            free = set()
            for row in rows:
                free |= {n for n in row if n is not None}
            if not free <= known | set(r.args):
                site('subscripts not decided')
                continue
            violate('bounds', '%s|%s|%d' % (r.name, a.name, i), a.line,
                    'subscript %d of %s, %s, leaves the declared range %s:%s' %
                    (i + 1, a.name, x1.show() if x1 == x2 else '%s:%s' % (x1.show(), x2.show()), lo.show(), hi.show()))
    return nproved


def shape_check(rt, site, violate):
    r = rt.r
    for s in all_stmts(r.body):
        bad = []
        if s.kind == 'assign':
            a = rt.shape(s.rhs, bad)
            l = rt.shape(s.lhs, bad)
            site('array assignments')
            if a and l is not None:
                if not l:
                    bad.append('an array is assigned to a scalar')
                else:
                    rt.conform(l, a, '=', bad)
        elif s.kind == 'call':
            callee = rt.an.done.get(s.name)
            if callee is not None:
                site('calls between routines')
                call_check(rt, callee, s, bad)
            else:
                for x in s.args:
                    rt.shape(x, bad)
        for f in ('cond',):
            if getattr(s, f, None) is not None:
                rt.shape(getattr(s, f), bad)
        for m in bad:
            violate('shape', '%s|%s' % (r.name, m), s.line, m)


def call_check(rt, callee, s, bad):
    d = callee.r
    if len(s.args) != len(d.args):
        bad.append('call %s with %d arguments, it takes %d' % (s.name, len(s.args), len(d.args)))
        return
    env = rt.const_env()
    sub = {}
    for n, a in zip(d.args, s.args):
        if a[0] == 'kw':
            continue
        sh = rt.shape(a)
        if sh == []:
            x = lin(a, env)
            if x is not None:
                sub[n] = x
    for n, a in zip(d.args, s.args):
        if a[0] == 'kw':
            continue
        dd = d.decls.get(n)
        sh = rt.shape(a)
        if dd is None or sh is None:
            continue
        if dd.dims is None:
            if sh:
                bad.append('call %s: array passed for the scalar %s' % (s.name, n))
            elif a[0] in ('name',) and rt.decl(a[1]) is not None and rt.decl(a[1]).typ != dd.typ:
                bad.append('call %s: %s is %s, the argument %s is %s' % (s.name, a[1], rt.decl(a[1]).typ, n, dd.typ))
            continue
        want = []
        for lo, hi in callee.bounds(n):
            if lo is None or hi is None:
                want = None
                break
            l = hi.add(lo, -1).add(Lin.c(1))
            x = Lin()
            for k, v in l.items():
                if k is None:
                    x = x.add(Lin.c(v))
                elif k in sub:
                    x = x.add(sub[k].scale(v))
                else:
                    x = None
                    break
            if x is None:
                want = None
                break
            want.append(x)
        if want is None:
            continue
        if not sh:
            bad.append('call %s: scalar passed for the array %s' % (s.name, n))
            continue
        m = []
        rt.conform(sh, want, 'call %s, argument %s' % (s.name, n), m)
        bad += m
