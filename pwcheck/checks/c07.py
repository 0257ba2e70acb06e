"""C07: Structure and Trajectory stay consistent under every operation."""
import ast

from ..model import FunctionInfo
from ..objint import (Interp, Dim, Top, Arr, Obj, Fn, Gen, Slice, Unsupported, AbsRaise, term, show, subst, sources, subterm)

T, N, S, K, A = Dim('T'), Dim('N'), Dim('S'), Dim('K'), Dim('A')
TAIL = {'coords': (N, 3), 'coords_frac': (N, 3), 'forces': (N, 3), 'velocity': (N, 3), 'stress': (3, 3), 'cell': (3, 3),
        'cryst_const': (6,)}
PERSTEP1 = ('pressure', 'volume', 'etot', 'ekin', 'temperature', 'time')
PERSTEP = tuple(TAIL) + PERSTEP1
ONLYTRAJ = ('nstep', 'timestep', 'time', 'ekin', 'velocity', 'temperature')
SYMB = ('mass', 'mass_unique', 'nspecies', 'ntypat', 'order', 'symbols_unique', 'typat', 'znucl', 'znucl_unique')
# what an attribute may be computed from
DEPS = {'velocity': ('coords', 'timestep'), 'ekin': ('mass', 'velocity'), 'temperature': ('ekin', 'natoms'),
        'coords': ('coords_frac', 'cell', 'natoms'), 'coords_frac': ('coords', 'cell', 'natoms'), 'volume': ('cell',),
        'cryst_const': ('cell',), 'cell': ('cryst_const',), 'pressure': ('stress',), 'time': ('timestep', 'nstep'),
        'natoms': ('symbols', 'coords', 'coords_frac'), 'nstep': ('coords', 'coords_frac'), 'timestep': (),
        'mass': ('symbols',), 'znucl': ('symbols',), 'symbols_unique': ('symbols',), 'order': ('symbols_unique', 'symbols'),
        'typat': ('symbols', 'order'), 'znucl_unique': ('symbols_unique',), 'ntypat': ('symbols_unique',),
        'nspecies': ('order', 'typat'), 'mass_unique': ('znucl_unique',)}
# values that have to change together
PAIRS = [('coords', 'coords_frac'), ('coords', 'cell'), ('coords_frac', 'cell'), ('volume', 'cell'), ('cryst_const', 'cell'),
         ('pressure', 'stress')]
OPAQUE = {'volume_cell', 'volume_cell3d', 'cc2cell', 'cell2cc', 'cc2cell3d', 'cell2cc3d', 'velocity_traj',
          'nearest_neighbors', 'nearest_neighbors_from_dists', 'distances', 'distances_traj', 'angles'}


def closure(a):
    out, todo = set(), [a]
    while todo:
        x = todo.pop()
        for d in DEPS.get(x, ()):
            if d not in out:
                out.add(d)
                todo.append(d)
    return out


def first(args, kws):
    a = args[0] if args else None
    return a.shape if isinstance(a, Arr) else None


def lastdim(tail):
    def f(args, kws):
        a = args[0] if args else None
        if not isinstance(a, Arr) or a.shape is None:
            return None
        k = f.drop
        if len(a.shape) < k:
            return None
        return a.shape[:len(a.shape) - k] + tail
    return f


def mk_shapes():
    cc = lastdim((6,))
    cc.drop = 2
    cell = lastdim((3, 3))
    cell.drop = 1
    vol = lastdim(())
    vol.drop = 2
    scalar = lambda args, kws: ()
    P = 'pwtools.'
    sh = {P + 'crys.cell2cc': cc, P + 'crys.cell2cc3d': cc, P + 'crys.cc2cell': cell, P + 'crys.cc2cell3d': cell,
          P + 'crys.volume_cell3d': vol, P + 'crys.volume_cell': scalar, P + 'crys.velocity_traj': first, P + 'signal.smooth': smooth_shape}
    for n in ('frac2cart_traj', 'cart2frac_traj', 'cart2frac', 'frac2cart'):
        for p in (P + '_flib.', P + 'crys._flib.', '_flib.'):
            sh[p + n] = first
    return sh


def smooth_shape(args, kws):
    d = args[0]
    k = args[1] if len(args) > 1 else kws.get('kern')
    ax = args[2] if len(args) > 2 else kws.get('axis', 0)
    if isinstance(d, Arr) and isinstance(k, Arr) and d.shape is not None and k.shape is not None:
        if len(d.shape) != len(k.shape):
            raise AbsRaise('ValueError', 'smooth(): kernel with %d dimensions for an array with %d' % (len(k.shape), len(d.shape)))
        if isinstance(ax, int) and k.shape[ax % len(k.shape)] == 1 and len(k.shape) > 1:
            raise AbsRaise('ValueError', 'smooth(): the kernel lies along another axis than %d' % ax)
    return d.shape if isinstance(d, Arr) else None


# ---------------------------------------------------------------------------
# scenarios
# ---------------------------------------------------------------------------
def value(name, tag, tr, steps):
    src = ('src', tag, name)
    if name in PERSTEP:
        sh = ((steps,) if tr else ()) + TAIL.get(name, ())
        return Arr(sh, src) if sh else Top(src, 'float')
    if name == 'natoms':
        return N
    if name == 'nstep':
        return steps
    if name in ('symbols', 'typat', 'znucl'):
        return Top(src, 'list', N)
    if name in ('symbols_unique', 'znucl_unique'):
        return Top(src, 'list', S)
    if name in ('order', 'nspecies'):
        return Top(src, 'dict')
    if name == 'mass':
        return Arr((N,), src)
    if name == 'mass_unique':
        return Arr((S,), src)
    if name == 'ntypat':
        return Top(src, 'int')
    return Top(src, 'float')


class Scen:
    def __init__(self, c, prog):
        self.c = c
        self.prog = prog
        self.opaque = {'pwtools.crys.' + n for n in OPAQUE} | {'pwtools.signal.smooth', 'pwtools.num.norm'}
        self.shapes = mk_shapes()
        self.calls = set()
        self.nscen = 0
        self.undecided = {}
        self.crys = prog.mod('crys')

    def interp(self):
        return Interp(self.prog, self.opaque, shapes=self.shapes, maxpaths=40)

    def obj(self, I, kind, tag, missing=(), only=None, steps=T):
        o = I.new(self.prog.cls('crys:' + kind), [], {'set_all_auto': False}, None, tag)
        tr = kind == 'Trajectory'
        for name in list(o.attrs['attr_lst']):
            if name in missing or (only is not None and name not in only):
                continue
            o.attrs[name] = value(name, tag, tr, steps)
        return o

    def fn(self, name):
        f = self.crys.functions.get(name)
        if f is None:
            f = self.prog.module_attr(self.crys, name)
        return Fn(f) if isinstance(f, FunctionInfo) else None

    def call(self, I, name, args, kws=None):
        return I.call(self.fn(name), args, dict(kws or {}), None)

    def meth(self, I, o, name, args=(), kws=None):
        return I.call(I.getattr(o, name), list(args), dict(kws or {}), None)

    def where(self, opname):
        m = opname.split('.')
        cls = self.crys.classes
        f = None
        if len(m) == 2 and m[0] in cls:
            f = cls[m[0]].find(m[1])
        else:
            f = self.crys.functions.get(m[0])
        return '%s:%d' % (f.module.relpath, f.node.lineno) if f is not None else 'src/pwtools/crys.py'


# ---------------------------------------------------------------------------
# normal forms of terms
# ---------------------------------------------------------------------------
NONE = ('const', None)
FULL = ('slice', NONE, NONE, NONE)
ELL = ('const', '...')


def params(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'param':
            yield t
        else:
            for x in t:
                yield from params(x)


def canon(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'src':
        return ('S', t[1])
    if t and t[0] in ('const', 'dim', 'param', 'loopvar'):
        return t
    if t and t[0] == 'getitem' and len(t) == 3 and isinstance(t[2], tuple) and t[2] and t[2][0] == 'seq':
        t = ('getitem', canon(t[1]), ('seq',) + tuple(canon(x) for x in t[2][1:]))
    else:
        t = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'getitem' and isinstance(t[2], tuple) and t[2] and t[2][0] == 'seq':
        idx = [x for x in t[2][1:]]
        while idx and idx[-1] in (FULL, ELL):
            idx.pop()
        if all(x in (FULL, ELL, NONE) for x in idx):
            return t[1]
        if len(idx) == 1:
            if t[1][0] == 'rep' and idx[0][0] == 'const' and isinstance(idx[0][1], int):
                return t[1][2]
            return ('take', idx[0], t[1])
        return ('getitem', t[1], tuple(idx))
    if t[0] == 'getitem' and len(t) == 3:
        return ('take', t[2], t[1])
    if t[0] == 'call':
        n = t[1].split('.')[-1]
        if n == 'repeat' and len(t) >= 4 and (len(t) == 4 or t[4] in (('const', 0), NONE)):
            return ('rep', t[3], t[2])
        if n == 'tile' and t[3] and t[3][0] == 'seq' and all(x == ('const', 1) for x in t[3][2:]):
            return ('rep', t[3][1], t[2])
        if n == 'broadcast_to':
            return ('rep', '?', t[2])
        if n == 'smooth':
            rest = tuple(x for x in t[4:] if x not in (('const', 0), ('kw', 'axis', ('const', 0))))
            ps = {x for x in params(t[3])}
            return ('smooth', ps.pop() if len(ps) == 1 else t[3], t[2]) + rest
        if n == 'astype':
            return ('astype', t[3], t[2])
        if n in ('array', 'asarray', 'copy') and len(t) == 3:
            return t[2]
        if n == 'concatenate' and len(t) == 4 and t[2] and t[2][0] == 'seq':
            return ('concat', t[3], tuple(x[1] if x and x[0] == 'seq' and len(x) == 2 else x for x in t[2][1:]))
    if t[0] == 'op' and len(t) == 4:
        one = (('const', 1), ('const', 1.0))
        if t[1] == '*' and t[3] in one:
            return t[2]
        if t[1] == '*' and t[2] in one:
            return t[3]
        if t[1] in ('*', '+') and repr(t[2]) > repr(t[3]):
            return ('op', t[1], t[3], t[2])
        if t[1] == '/' and t[3] in one:
            return t[2]
    if t[0] == 'seq' and len(t) > 2 and len(set(t[1:])) == 1:
        return ('rep', ('const', len(t) - 1), t[1])
    if t[0] == 'rep' and t[1] == ('const', 1):
        pass
    return t


def strip1(t):
    """repetition by one and lists of one element"""
    if isinstance(t, tuple):
        if t and t[0] == 'rep' and t[1] in (('const', 1),):
            return strip1(t[2])
        if t and t[0] == 'seq' and len(t) == 2 and isinstance(t[1], tuple):
            return strip1(t[1])
        return tuple(strip1(x) if isinstance(x, tuple) else x for x in t)
    return t


def reps(t):
    """repetitions of repetitions of one step"""
    if isinstance(t, tuple):
        t = tuple(reps(x) if isinstance(x, tuple) else x for x in t)
        if len(t) == 3 and t[0] == 'rep' and isinstance(t[2], tuple) and t[2] and t[2][0] == 'rep' and t[2] == t[2]:
            return ('rep', t[1], t[2][2])
    return t


def normal(t):
    return strip1(reps(strip1(canon(t))))


IDENT = 'the attribute itself'


def is_id(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == 'S'


def plain_type(t):
    """without a conversion of the number type"""
    while isinstance(t, tuple) and len(t) == 3 and t[0] == 'astype':
        t = t[2]
    return t


def describe(t):
    return show(subst(t, lambda x: ('param', 'x') if is_id(x) else None), 5)


# ---------------------------------------------------------------------------
# rules
# ---------------------------------------------------------------------------
class Judge:
    def __init__(self, sc, op, label, mode, srcs, missing, path):
        self.sc = sc
        self.c = sc.c
        self.op = op
        self.label = label
        self.mode = mode
        self.srcs = srcs
        self.missing = missing
        self.path = path

    def bad(self, rule, attr, msg):
        self.c.violate(rule, '%s|%s' % (self.op, attr), self.sc.where(self.op),
                       '%s (%s): %s' % (self.op, self.label, msg))

    def ok(self, rule, what=None):
        self.c.site(rule, what)

    def attrs(self, o):
        return {n: o.attrs.get(n) for n in PERSTEP + ('symbols', 'natoms', 'nstep', 'timestep') + SYMB if n in o.attrs}

    def judge(self, o, expect=(), forbid=(), same=None, timestep=None, new=(), tags=()):
        if not isinstance(o, Obj):
            return
        tr = any(k.name == 'Trajectory' for k in o.cls.mro())
        at = self.attrs(o)
        val = {n: v for n, v in at.items() if v is not None}
        self.shape(o, tr, val)
        self.origin(o, tr, val, timestep)
        for n in expect:
            if not tr and n in ('nstep', 'timestep', 'time') or (not tr and n in ONLYTRAJ and self.mode != 'mean'):
                continue
            self.ok('attributes kept', '%s %s' % (self.op, n))
            if n not in val:
                self.bad('dropped', n, '%s is lost: the result has no %s although %s' % (
                    n, n, 'it can be computed' if self.mode == 'new' else 'every input has it'))
        for n in new:
            if n in val and n not in self.missing:
                self.ok('attributes changed', '%s %s' % (self.op, n))
                if is_id(normal(term(val[n]))):
                    self.bad('unchanged', n, '%s of the result is that of the input' % n)
        for n in tags:
            if n in val:
                self.ok('inputs used', '%s %s' % (self.op, n))
                have = {t for t, a in sources(term(val[n]))}
                for t in tags[n]:
                    if t not in have and not subterm(term(val[n]), ('param', t)):
                        self.bad('not used', n, '%s of the result does not depend on %s' % (n, t))
        for n in forbid:
            self.ok('attributes reset', '%s %s' % (self.op, n))
            if n in val:
                self.bad('kept', n, '%s of the result is %s, it has to be None' % (n, show(term(val[n]), 4)))

    # time axis and sizes
    def shape(self, o, tr, val):
        steps = {}
        for n, v in val.items():
            if n not in PERSTEP:
                continue
            if isinstance(v, (list, tuple)):
                continue
            if isinstance(v, Top):
                sh = () if v.kind in ('float', 'int') else None
            elif isinstance(v, Arr):
                sh = v.shape
            elif isinstance(v, (int, float)):
                sh = ()
            else:
                sh = None
            if sh is None:
                continue
            tail = TAIL.get(n, ())
            self.ok('shapes', '%s %s' % (self.op, n))
            if tr:
                if len(sh) != len(tail) + 1:
                    self.bad('shape', n, '%s has %d dimensions, a trajectory needs %d' % (n, len(sh), len(tail) + 1))
                    continue
                steps[n] = sh[0]
                rest = sh[1:]
            else:
                if len(sh) != len(tail):
                    self.bad('shape', n, '%s has %d dimensions, a structure needs %d' % (n, len(sh), len(tail)))
                    continue
                rest = sh
            for d, want in zip(rest, tail):
                if want == 3 or want == 6:
                    if isinstance(d, int) and d != want or d in (T, N):
                        self.bad('shape', n, '%s has the shape %s' % (n, self.shp(sh)))
                elif d in (T, 3, 6):
                    self.bad('shape', n, '%s has the shape %s' % (n, self.shp(sh)))
        if tr and steps:
            ref = steps.get('coords', steps.get('coords_frac'))
            if ref is None:
                vals = list(steps.values())
                ref = max(vals, key=vals.count)
            for n, d in sorted(steps.items()):
                if d != ref:
                    self.bad('steps', n, '%s has %s time steps, the others have %s' % (n, self.dim(d), self.dim(ref)))
            if 'nstep' in val and isinstance(val['nstep'], (Dim, int)) and val['nstep'] != ref:
                self.bad('steps', 'nstep', 'nstep is %s, the arrays have %s time steps' % (self.dim(val['nstep']), self.dim(ref)))
        na = {}
        for n in ('coords', 'coords_frac', 'forces', 'velocity'):
            v = val.get(n)
            if isinstance(v, Arr) and v.shape is not None and len(v.shape) == (3 if tr else 2):
                na[n] = v.shape[-2]
        for n in ('symbols', 'typat', 'znucl'):
            v = val.get(n)
            if isinstance(v, Top) and v.n is not None:
                na[n] = v.n
        v = val.get('mass')
        if isinstance(v, Arr) and v.shape is not None and len(v.shape) == 1:
            na['mass'] = v.shape[0]
        if isinstance(val.get('natoms'), (int, Dim)):
            na['natoms'] = val['natoms']
        if self.mode != 'new' and all(d in (N,) for d in na.values()) is False:
            vals = list(na.values())
            if N in vals and any(self.plain(d) and d != N for d in vals):
                for n, d in sorted(na.items()):
                    if d != na.get('coords', d) and self.plain(d):
                        self.bad('atoms', n, '%s is for %s atoms, coords has %s' % (n, self.dim(d), self.dim(na['coords'])))

    def plain(self, d):
        return isinstance(d, int) or isinstance(d, Dim) and isinstance(d.e, (str,)) or \
            isinstance(d, Dim) and isinstance(d.e, tuple) and d.e[0] in ('mul', 'sum', 'shift', 'masked')

    def dim(self, d):
        if isinstance(d, int):
            return str(d)
        e = d.e
        if isinstance(e, tuple) and e[0] == 'sum':
            return ' + '.join(self.dim(Dim(x)) for x in e[1:])
        if isinstance(e, tuple) and e[0] == 'shift':
            return '%s %s %d' % (self.dim(Dim(e[1])), '+' if e[2] > 0 else '-', abs(e[2]))
        if isinstance(e, tuple) and e[0] == 'masked':
            return 'the selected ones of %s' % e[1]
        if isinstance(e, tuple) and e[0] == 'len':
            return 'len(%s[%s])' % (e[1], show(e[2]))
        if isinstance(e, tuple) and e[0] == 'mul':
            return '*'.join(str(x) for x in e[1:])
        return str(e)

    def shp(self, sh):
        return '(%s)' % ', '.join(self.dim(d) for d in sh)

    # where the values come from
    def origin(self, o, tr, val, timestep):
        terms = {n: term(v) for n, v in val.items()}
        forms = {}
        derived = set()
        for n, t in terms.items():
            if n in ('natoms', 'nstep'):
                continue
            src = sources(t)
            foreign = {a for tag, a in src if a != n}
            self.ok('origins', '%s %s' % (self.op, n))
            if not foreign:
                if src:
                    forms[n] = normal(t)
                continue
            allowed = closure(n)
            wrong = sorted(a for a in foreign if a not in allowed)
            if wrong:
                self.bad('mixed', n, '%s of the result is made of %s of the input' % (n, ', '.join(wrong)))
                continue
            # recomputed: from values of the result, not from values of the input that are no longer valid
            derived.add(n)
            left = t
            for b in sorted((b for b in terms if b != n and b in allowed), key=lambda b: -len(repr(terms[b]))):
                tb = terms[b]
                parts = {tb} | ({e for e in tb[1:] if sources(e)} if tb[0] == 'seq' else set())
                left = subst(left, lambda x: ('OUT', b) if x in parts else None)
            stale = sorted(a for tag, a in sources(left) if a != n and a in allowed)
            # an input value that the result does not carry on (None) but that was valid together with the others
            stale = [a for a in stale if a in terms or any(x in terms for x in closure(a))]
            stale = [a for a in stale if not (a in ('natoms', 'nstep'))]
            if stale and self.changed(terms, stale):
                self.bad('stale', n, '%s of the result is computed from the old %s' % (n, ', '.join(stale)))
        self.uniform(val, forms, derived, tr, timestep)
        for a, b in PAIRS if self.mode != 'new' else ():
            if a in forms and b in forms and a not in derived and b not in derived:
                self.ok('pairs', '%s %s %s' % (self.op, a, b))
                if forms[a] != forms[b] and not self.others_derived(a, b, derived, forms):
                    ch = b if is_id(forms[a]) else a
                    st = a if ch == b else b
                    self.bad('stale', '%s/%s' % (st, ch), '%s is changed, %s is kept as it was' % (ch, st))
        for n in SYMB:
            if n in forms and 'symbols' in forms and n not in derived:
                self.ok('pairs', '%s symbols %s' % (self.op, n))
                if is_id(plain_type(forms[n])) != is_id(forms['symbols']):
                    self.bad('stale', '%s/symbols' % n, 'symbols are changed, %s is kept as it was' % n)

    def others_derived(self, a, b, derived, forms):
        # coords recomputed from coords_frac and cell: these two are free
        if {a, b} == {'coords_frac', 'cell'}:
            return 'coords' in derived or 'coords' not in forms
        if {a, b} == {'coords', 'cell'}:
            return 'coords_frac' in derived or 'coords_frac' not in forms
        return False

    def changed(self, terms, stale):
        """some input value that was used differs from the value of the result"""
        for a in stale:
            if a not in terms or not is_id(normal(terms[a])):
                return True
        return False

    def uniform(self, val, forms, derived, tr, timestep):
        per = {n: f for n, f in forms.items() if n in PERSTEP and n not in derived}
        if self.mode in ('time', 'mean') and per:
            fs = list(per.values())
            ref = max(sorted(set(fs), key=repr), key=fs.count)
            for n, f in sorted(per.items()):
                self.ok('uniform', '%s %s' % (self.op, n))
                if f != ref:
                    self.bad('uniform', n, '%s becomes %s, the other quantities become %s' % (n, describe(f), describe(ref)))
        if self.mode in ('geom', 'time', 'mean'):
            for n, f in sorted(forms.items()):
                if n in PERSTEP and (self.mode != 'geom' or n in ('coords', 'coords_frac', 'cell', 'volume', 'cryst_const')):
                    continue
                if n == 'timestep':
                    continue
                self.ok('uniform', '%s %s' % (self.op, n))
                if not is_id(plain_type(f)):
                    self.bad('uniform', n, '%s becomes %s, it has to stay as it is' % (n, describe(f)))
        if 'timestep' in val and timestep is not None:
            t = normal(term(val['timestep']))
            self.ok('time step', self.op)
            if not any(t == x for x in timestep):
                self.bad('timestep', 'timestep', 'timestep becomes %s, it has to be %s' % (describe(t), describe(timestep[0])))


def share(sc, op, label, a, b):
    """arrays, lists and dicts that two objects have in common"""
    for n, v in a.attrs.items():
        w = b.attrs.get(n)
        if isinstance(v, (Arr, list, dict)) or isinstance(v, Top) and v.kind in ('list', 'dict'):
            sc.c.site('copies', '%s %s' % (op, n))
            if v is w:
                sc.c.violate('shared', '%s|%s' % (op, n), sc.where(op), '%s (%s): the copy shares %s with the original' % (op, label, n))


TS = ('S', 'tr')


def scenarios(sc):
    """(op, label, build, judge)"""
    out = []
    trattrs = PERSTEP + ('symbols', 'natoms', 'nstep', 'timestep') + SYMB
    variants = [('all attributes', ())] + [('without %s' % n, (n,)) for n in trattrs if n not in ('natoms', 'nstep')] + \
               [('coords, cell only', tuple(n for n in trattrs if n not in ('coords', 'cell', 'nstep', 'natoms')))]
    P = lambda n, k='int': Top(('param', n), k)
    kern = lambda: Arr((K,), ('param', 'kern'))

    def add(op, label, build, mode, srcs, missing=(), expect=None, forbid=(), timestep=None, have=trattrs, tags=(), new=(), post=None):
        exp = [n for n in have if n not in missing] if expect is None else expect
        out.append((op, label, build, dict(mode=mode, srcs=srcs, missing=missing, expect=exp, forbid=forbid, timestep=timestep, new=new, tags=tags), post))

    idts = [('S', 'tr')]
    for label, miss in variants:
        nots = tuple(miss)
        tr = lambda I, miss=miss, steps=T: sc.obj(I, 'Trajectory', 'tr', missing=miss, steps=steps)
        st = lambda I, miss=miss: sc.obj(I, 'Structure', 'tr', missing=miss)
        add('Structure.copy', label, lambda I, tr=tr: (lambda o: (sc.meth(I, o, 'copy'), o))(tr(I)), 'time', 1, miss, timestep=idts,
            post='copy')
        add('Structure.copy', 'of a Structure, ' + label, lambda I, st=st: (lambda o: (sc.meth(I, o, 'copy'), o))(st(I)), 'time', 1,
            miss, post='copy')
        add('Trajectory.__getitem__', 'tr[a:b], ' + label, lambda I, tr=tr: I.getitem(tr(I), Slice(P('a'), P('b'), None)), 'time', 1,
            miss, timestep=idts)
        for c in ('c',):
            add('Trajectory.__getitem__', 'tr[a:b:c], ' + label,
                lambda I, tr=tr: I.getitem(tr(I), Slice(P('a'), P('b'), P('c'))), 'time', 1, miss,
                timestep=[canon(('op', '*', ('src', 'tr', 'timestep'), ('param', 'c'))),
                          canon(('op', '*', ('src', 'tr', 'timestep'), ('call', 'abs', ('param', 'c'))))])
        add('Trajectory.__getitem__', 'tr[::5], ' + label, lambda I, tr=tr: I.getitem(tr(I), Slice(None, None, 5)), 'time', 1, miss,
            timestep=[canon(('op', '*', ('src', 'tr', 'timestep'), ('const', 5)))])
        add('Trajectory.__getitem__', 'tr[i], ' + label, lambda I, tr=tr: I.getitem(tr(I), P('i')), 'time', 1, miss)
        add('mean', label, lambda I, tr=tr: sc.call(I, 'mean', [tr(I)]), 'mean', 1, miss)
        for m in (1, 2):
            add('smooth', 'method=%d, %s' % (m, label), lambda I, tr=tr, m=m: sc.call(I, 'smooth', [tr(I), kern()], {'method': m}),
                'time', 1, miss, timestep=idts)
        add('compress', label, lambda I, tr=tr: sc.call(I, 'compress', [tr(I)], {'forget': ['forces', 'stress']}), 'compress', 1,
            miss, expect=[n for n in trattrs if n not in miss and n not in ('forces', 'stress')], forbid=('forces', 'stress'))
        add('struct2traj', 'of a Trajectory, ' + label, lambda I, tr=tr: sc.call(I, 'struct2traj', [tr(I)]), 'time', 1, miss, timestep=idts)
        smiss = tuple(miss) + ONLYTRAJ
        hs = [n for n in trattrs if n not in ONLYTRAJ]
        add('Structure.get_traj', 'nstep=n, ' + label, lambda I, st=st: sc.meth(I, st(I), 'get_traj', [Dim('n')]), 'time', 1, smiss,
            expect=[n for n in hs if n not in miss] + (['nstep'] if not ({'coords', 'coords_frac'} <= set(miss)) else []))
        add('struct2traj', 'of a Structure, ' + label, lambda I, st=st: sc.call(I, 'struct2traj', [st(I)]), 'time', 1, smiss,
            expect=[n for n in hs if n not in miss])
        # two inputs, the attribute is missing in one of them
        for which in (('both',) if not miss else ('first', 'second', 'both')):
            m1 = miss if which in ('first', 'both') else ()
            m2 = miss if which in ('second', 'both') else ()
            lab = label if which == 'both' else '%s in the %s' % (label, which)
            add('concatenate', 'two trajectories, ' + lab,
                lambda I, m1=m1, m2=m2: sc.call(I, 'concatenate', [[sc.obj(I, 'Trajectory', 't1', m1), sc.obj(I, 'Trajectory', 't2', m2)]]),
                'time', 2, miss, expect=[n for n in trattrs if n not in miss and n not in ('timestep', 'time')] +
                [n for n in miss if n in () and which == 'second'], forbid=('timestep', 'time') + tuple(n for n in miss if n in PERSTEP and len(miss) == 1 and not closure(n) & set(trattrs)))
        if not (set(miss) & {'coords', 'coords_frac', 'cell'}) and len(miss) < 2:
            add('concatenate', 'trajectory and structure, ' + label,
                lambda I, miss=miss: sc.call(I, 'concatenate', [[sc.obj(I, 'Trajectory', 't1', miss), sc.obj(I, 'Structure', 't2', miss)]]),
                'time', 2, miss, expect=[n for n in hs if n not in miss] + ['nstep'], forbid=('timestep', 'time'))
    # the geometry is changed
    gv = [('all attributes', ())] + [('without %s' % n, (n,)) for n in trattrs if n not in ('natoms', 'nstep', 'coords_frac', 'cell')]
    for label, miss in gv:
        for kind in ('Trajectory', 'Structure'):
            o = lambda I, miss=miss, kind=kind: sc.obj(I, kind, 'tr', missing=miss)
            have = [n for n in trattrs if n not in miss]
            for copy in (True, False):
                lab = '%s, copy=%s, %s' % (kind, copy, label)
                add('pbc_wrap', lab, lambda I, o=o, copy=copy: sc.call(I, 'pbc_wrap', [o(I)], {'copy': copy}), 'geom', 1, miss, new=('coords', 'coords_frac'),
                    expect=have, timestep=idts)
                add('center_on_atom', lab, lambda I, o=o, copy=copy: sc.call(I, 'center_on_atom', [o(I)], {'idx': P('idx'), 'copy': copy}),
                    'geom', 1, miss, new=('coords', 'coords_frac'), expect=have, timestep=idts)
            cellhave = ['coords', 'coords_frac', 'cell', 'cryst_const', 'volume', 'symbols', 'natoms'] + \
                [n for n in SYMB] + (['nstep'] if kind == 'Trajectory' else [])
            cellhave = [n for n in cellhave if 'symbols' not in miss or n not in ('symbols',) + SYMB]
            add('scell', '%s, %s' % (kind, label), lambda I, o=o: sc.call(I, 'scell', [o(I), (2, 3, 4)]), 'newgeom', 1, miss, new=('coords', 'coords_frac', 'cell', 'cryst_const', 'volume', 'symbols'),
                expect=cellhave)
            if kind == 'Structure':
                add('scell', '%s, method=2, %s' % (kind, label), lambda I, o=o: sc.call(I, 'scell', [o(I), (2, 1, 1)], {'method': 2}),
                    'newgeom', 1, miss, new=('coords', 'coords_frac', 'cell'), expect=())
            if 'symbols' not in miss:
                add('align_cart', '%s, %s' % (kind, label),
                    lambda I, o=o: sc.call(I, 'align_cart', [o(I)], {'cart': Arr((3, 3), ('param', 'cart'))}), 'newgeom', 1, miss,
                    expect=[n for n in cellhave if n not in miss or n in closure('coords') | {'coords', 'cryst_const', 'volume'} | set(SYMB)])
            if kind == 'Structure' and not set(miss) & {'symbols'}:
                add('nearest_neighbors_struct', label,
                    lambda I, o=o: sc.call(I, 'nearest_neighbors_struct', [o(I)], {'idx': 3, 'num': 4}), 'newgeom', 1, miss,
                    expect=cellhave)
    for miss in ((), ('forces',)):
        add('mix', 'two structures' + (' without forces' if miss else ''),
            lambda I, miss=miss: sc.call(I, 'mix', [sc.obj(I, 'Structure', 's1', miss), sc.obj(I, 'Structure', 's2', miss),
                                                    Arr((A,), ('param', 'alpha'))]), 'newgeom', 2, miss,
            tags={n: ('s1', 's2', 'alpha') for n in ('coords', 'cell', 'forces', 'volume')},
            expect=['coords', 'coords_frac', 'cell', 'cryst_const', 'volume', 'symbols', 'nstep', 'natoms'] + ([] if miss else ['forces']))
    add('mix', 'forces in one of the structures',
        lambda I: sc.call(I, 'mix', [sc.obj(I, 'Structure', 's1'), sc.obj(I, 'Structure', 's2', ('forces',)), Arr((A,), ('param', 'alpha'))]),
        'newgeom', 2, ('forces',), expect=['coords', 'coords_frac', 'cell'], forbid=('forces',))
    # attributes of mean() survive copying
    add('Structure.copy', 'of a copy of mean()',
        lambda I: sc.meth(I, sc.meth(I, sc.call(I, 'mean', [sc.obj(I, 'Trajectory', 'tr')]), 'copy'), 'copy'), 'mean', 1, (),
        expect=[n for n in trattrs if n not in ('nstep', 'timestep', 'time')])
    # construction
    out += constructions(sc)
    return out


def constructions(sc):
    out = []
    Pn = ('coords', 'coords_frac')
    cells = [('cell per step', {'cell': (T, 3, 3)}), ('one cell', {'cell': (3, 3)}), ('one cell (1,3,3)', {'cell': (1, 3, 3)}),
             ('cryst_const per step', {'cryst_const': (T, 6)}), ('one cryst_const', {'cryst_const': (6,)}),
             ('one cryst_const (1,6)', {'cryst_const': (1, 6)}), ('no cell', {}),
             ('cell and cryst_const', {'cell': (3, 3), 'cryst_const': (6,)})]
    for pos in Pn:
        for cl, cd in cells:
            for extra in ((), ('timestep', 'symbols'), ('stress', 'forces', 'etot', 'symbols'), ('velocity', 'timestep', 'symbols'),
                          ('symbols', 'volume', 'pressure', 'temperature', 'ekin', 'stress')):
                for kind in ('Trajectory', 'Structure'):
                    tr = kind == 'Trajectory'
                    if not tr and (set(extra) & {'timestep', 'velocity', 'temperature'} or any(T in v or 1 in v for v in cd.values())):
                        continue
                    shapes = {pos: ((T,) if tr else ()) + (N, 3)}
                    shapes.update(cd)
                    for e in extra:
                        if e in PERSTEP:
                            shapes[e] = ((T,) if tr else ()) + TAIL.get(e, ())

                    def build(I, kind=kind, shapes=shapes, extra=extra):
                        kws = {}
                        for n, sh in shapes.items():
                            kws[n] = Arr(sh, ('src', 'in', n)) if sh else Top(('src', 'in', n), 'float')
                        if 'symbols' in extra:
                            kws['symbols'] = Top(('src', 'in', 'symbols'), 'list', N)
                        if 'timestep' in extra:
                            kws['timestep'] = Top(('src', 'in', 'timestep'), 'float')
                        return I.new(sc.prog.cls('crys:' + kind), [], kws, None, 'out')
                    have = set(shapes) | (set(extra) & {'symbols', 'timestep'})
                    exp = set(have) | {'natoms'}
                    if tr:
                        exp.add('nstep')
                    if 'cell' in have or 'cryst_const' in have:
                        exp |= {'cell', 'cryst_const', 'volume', 'coords', 'coords_frac'}
                    if 'stress' in have:
                        exp.add('pressure')
                    if 'symbols' in have:
                        exp |= set(SYMB)
                    if tr and 'timestep' in have:
                        exp.add('time')
                        if 'coords' in exp:
                            exp.add('velocity')
                    if tr and 'velocity' in exp and 'symbols' in have:
                        exp |= {'ekin', 'temperature'}
                    out.append(('%s.__init__' % kind, '%s, %s%s' % (pos, cl, ''.join(', ' + e for e in extra)), build,
                                dict(mode='new', srcs=1, missing=(), expect=sorted(exp), forbid=(),
                                     timestep=[('S', 'in')], given=sorted(have)), None))
    return out


def given(j, o, names):
    """inputs of the constructor are kept as they were given (repeated for every step where needed)"""
    for n in names:
        v = o.attrs.get(n)
        if v is None:
            continue
        j.ok('inputs kept', '%s %s' % (j.op, n))
        t = normal(term(v))
        src = sources(term(v))
        if {a for tag, a in src} != {n}:
            j.bad('input', n, 'the given %s is replaced by %s' % (n, show(term(v), 4)))
        elif not is_id(t) and not (t[0] == 'rep' and (is_id(t[2]) or t[2][:2] == ('take', ('const', 0)) and is_id(t[2][2]))):
            j.bad('input', n, 'the given %s becomes %s' % (n, describe(t)))


UNITS = {'length': ('cell', 'coords', 'cryst_const'), 'energy': ('etot', 'ekin'), 'stress': ('stress', 'pressure'),
         'forces': ('forces',), 'temperature': ('temperature',), 'velocity': ('velocity',), 'time': ('timestep',)}


def count(t, x):
    if t == x:
        return 1
    return sum(count(y, x) for y in t if isinstance(y, tuple)) if isinstance(t, tuple) else 0


def units(sc):
    """unit factors given to the constructor: each once, on the right quantities, also after another set_all() and a copy"""
    c = sc.c
    uval = {u: 1.0 + (k + 1) / 64.0 for k, u in enumerate(UNITS)}
    uvar = {u: ('const', x) for u, x in uval.items()}
    vol3 = [('const', uval['length'] ** 3), ('const', uval['length'] ** 3.0)]
    for kind in ('Structure', 'Trajectory'):
        tr = kind == 'Trajectory'
        for pos in ('coords', 'coords_frac'):
            for cell in ('cell', 'cryst_const'):
                for again in ('', 'set_all', 'copy'):
                    def build(I):
                        kws = {}
                        names = [pos, cell, 'etot', 'stress', 'pressure', 'forces', 'volume'] + (['temperature', 'velocity', 'ekin', 'timestep'] if tr else [])
                        for n in names:
                            sh = ((T,) if tr and n in PERSTEP else ()) + TAIL.get(n, ())
                            kws[n] = Arr(sh, ('src', 'in', n)) if sh else Top(('src', 'in', n), 'float')
                        kws['units'] = dict(uval)
                        o = I.new(sc.prog.cls('crys:' + kind), [], kws, None, 'out')
                        if again == 'set_all':
                            sc.meth(I, o, 'set_all')
                        elif again == 'copy':
                            o = sc.meth(I, o, 'copy')
                            sc.meth(I, o, 'set_all')
                        return o
                    I = sc.interp()
                    for oc, o, path in I.explore(build):
                        sc.calls |= I.calls
                        if oc == 'raise' and not path:
                            c.violate('fails', '%s|units|%s' % (kind, o.name), sc.where('%s.__init__' % kind),
                                      '%s(%s, %s, ..., units=...) %s fails: %s %s' % (kind, pos, cell, again, o.name, o.msg))
                        if oc != 'ok' or not isinstance(o, Obj):
                            if oc == 'unsupported':
                                sc.undecided[('units', str(o))] = 1
                            continue
                        c.site('scenarios', 'units %s %s %s %s' % (kind, pos, cell, again))
                        t = term(o.attrs.get('volume'))
                        c.site('units', '%s volume' % kind)
                        if max(count(t, vol3[0]), count(t, vol3[1])) != 1 and count(t, uvar['length']) not in (1, 3):
                            c.violate('units', '%s|volume' % kind, sc.where('%s.__init__' % kind),
                                      "%s(..., units=...)%s: volume has to be scaled with units['length']**3 once, it is %s" % (
                                          kind, ' and ' + again if again else '', show(t, 5)))
                        for u, names in UNITS.items():
                            for n in names:
                                v = o.attrs.get(n)
                                if v is None or n not in ((pos, cell) + ('etot', 'stress', 'pressure', 'forces', 'temperature', 'velocity', 'ekin', 'timestep')):
                                    continue
                                c.site('units', '%s %s' % (kind, n))
                                t = term(v)
                                k = count(t, uvar[u])
                                other = [w for w in UNITS if w != u and subterm(t, uvar[w])]
                                if k != 1 and not (n == 'cryst_const' and k in (1, 3)) or other:
                                    c.violate('units', '%s|%s' % (kind, n), sc.where('%s.__init__' % kind),
                                              '%s(..., units=...)%s: the factor units[%r] is applied %d times to %s%s' % (
                                                  kind, ' and ' + again if again else '', u, k, n,
                                                  ', and units[%r]' % other[0] if other else ''))
                                elif n == 'cryst_const' and angles_scaled(t, uvar[u]):
                                    c.violate('units', '%s|angles' % kind, sc.where('%s.__init__' % kind),
                                              '%s(..., units=...): the angles in cryst_const are scaled with units[%r]' % (kind, u))


def angles_scaled(t, u):
    """the factor goes into the whole of cryst_const"""
    if isinstance(t, tuple) and len(t) == 4 and t[0] == 'op' and t[1] in ('*', '/'):
        a, b = t[2], t[3]
        if (a == u and is_whole(b)) or (b == u and is_whole(a)):
            return True
    return isinstance(t, tuple) and any(angles_scaled(x, u) for x in t if isinstance(x, tuple))


def is_whole(t):
    return is_id(normal(t)) or is_id(plain_type(normal(t)))


SKIP = {'unsupported'}


def run(c):
    c.explanation = (
        'Abstract interpretation of the container code (crys.py with base.py and num.py): objects with a heap of attributes, arrays '
        'as shape over symbolic dimensions plus provenance term, numeric kernels as uninterpreted functions. Each operation is '
        'analysed for the input with all attributes and for every single missing one. On the resulting heap: all per-step '
        'quantities go through the same operation on the time axis, the time axes agree with nstep, the rest is carried over, '
        'nothing is lost, a value that depends on a changed one is recomputed from the values of the result, copies share '
        'nothing, every iteration starts anew.')
    prog = c.load(with_scripts=False)
    sc = Scen(c, prog)
    nund = 0
    for op, label, build, spec, post in scenarios(sc):
        if '.' not in op and sc.fn(op) is None:
            continue
        sc.nscen += 1
        I = sc.interp()
        decided = False
        c.site('scenarios', '%s (%s)' % (op, label))
        for oc, v, path in I.explore(build):
            sc.calls |= I.calls
            if oc == 'raise':
                if not path and v.name in ('AttributeError', 'TypeError', 'ValueError', 'KeyError', 'IndexError', 'UnboundLocalError',
                                           'NameError', 'AssertionError', 'Exception', 'NotImplementedError'):
                    where = sc.where(op)
                    c.violate('fails', '%s|%s|%s' % (op, v.name, v.msg), where, '%s (%s) fails: %s %s' % (op, label, v.name, v.msg))
                    decided = True
                continue
            if oc == 'unsupported':
                sc.undecided[(op, str(v))] = sc.undecided.get((op, str(v)), 0) + 1
                continue
            other = None
            if post == 'copy':
                v, other = v
            if not isinstance(v, Obj):
                sc.undecided[(op, 'no object')] = 1
                continue
            decided = True
            j = Judge(sc, op, label, spec['mode'], spec['srcs'], spec['missing'], path)
            j.judge(v, spec['expect'], spec['forbid'], timestep=spec['timestep'], new=spec.get('new', ()), tags=spec.get('tags', ()))
            if spec.get('given'):
                given(j, v, spec['given'])
            if post == 'copy':
                share(sc, op, label, v, other)
        if decided:
            c.site('scenarios decided')
        else:
            nund += 1
    iteration(sc)
    units(sc)
    c.notes['functions_followed'] = sorted(f.qual for f in sc.calls)
    c.notes['undecided'] = ['%s: %s (%d)' % (k[0], k[1], n) for k, n in sorted(sc.undecided.items())]
    c.need('scenarios decided', c.counts['scenarios decided'], 60)


def iteration(sc):
    c = sc.c
    I = sc.interp()

    def build(I):
        o = sc.obj(I, 'Trajectory', 'tr')
        f = o.cls.find('__iter__')
        if f is None:
            return (o, None)
        return (o, I.call_fn(Fn(f), [], {}, None, o))
    for oc, v, path in I.explore(build):
        c.site('iteration', 'Trajectory.__iter__')
        if oc != 'ok':
            continue
        o, r = v
        if r is o:
            c.violate('iteration', 'Trajectory.__iter__', sc.where('Trajectory.__iter__'),
                      'Trajectory.__iter__ returns the trajectory itself: a loop that was left by break, or a second loop over the '
                      'same trajectory, goes on where the other one stands')
            continue
        if isinstance(r, Gen) and r.generic and len(r.items) == 1 and isinstance(r.items[0], Obj):
            x = r.items[0]
            j = Judge(sc, 'Trajectory.__iter__', 'loop over a trajectory', 'time', 1, (), path)
            j.judge(x, [n for n in PERSTEP + ('symbols', 'natoms') + SYMB])
            t = normal(term(x.attrs.get('coords'))) if x.attrs.get('coords') is not None else None
            if t is not None and t[0] == 'take':
                i = t[1]
                c.site('iteration', 'index')
                if i[0] == 'loopvar' and i[1] not in (('range', ('dim', 'T')), ('len', ('src', 'tr', 'coords')),
                                                      ('len', ('call', 'arange', ('dim', 'T'))),
                                                      ('range', ('const', 0), ('dim', 'T'))):
                    c.violate('iteration', 'Trajectory.__iter__|range', sc.where('Trajectory.__iter__'),
                              'a loop over a trajectory does not run over all time steps: %s' % show(i[1], 5))
