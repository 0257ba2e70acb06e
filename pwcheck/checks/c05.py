"""C05: unit factors of the parsers and how they are applied."""
import ast
import math

from ..absint import Interp, Frame, Obj, V, VT, T, const, join_state, VNONE, TRUE, UNB
from ..entries import arg_values, call_entry, with_module_frame

# ---- reference values, CODATA 2018, written down independently of constants.py
BOHR = 0.529177210903            # Ang
HA = 27.211386245988             # eV
RY = HA / 2
TH = 0.024188843265857           # fs
TRY = 2 * TH
ONE = {q: 1.0 for q in ('length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time')}


def U(**kw):
    return dict(ONE, **kw)


# native units of the codes, as documented in the parser docstrings; the
# container has to be in Ang, eV, GPa, eV/Ang, Ang/fs, fs, K
EXPECT = {
    'StructureFileParser': U(),
    'TrajectoryFileParser': U(),
    'CifFile': U(),
    'PDBFile': U(),
    'PwSCFOutputFile': U(length=BOHR, energy=RY, stress=0.1, forces=RY / BOHR),
    'PwMDOutputFile': U(length=BOHR, energy=RY, stress=0.1, forces=RY / BOHR, time=TRY),
    'PwVCMDOutputFile': U(length=BOHR, energy=RY, stress=0.1, forces=RY / BOHR, time=TRY),
    'CpmdSCFOutputFile': U(length=BOHR, energy=HA, stress=0.1, forces=HA / BOHR),
    'CpmdMDOutputFile': U(length=BOHR, energy=HA, stress=0.1, forces=HA / BOHR, time=TH, velocity=BOHR / TH),
    'Cp2kSCFOutputFile': U(energy=HA, forces=HA / BOHR),
    'Cp2kMDOutputFile': U(energy=HA, forces=HA / BOHR, stress=1e-4, velocity=BOHR / TH),
    'Cp2kRelaxOutputFile': U(energy=HA, forces=HA / BOHR, stress=1e-4, velocity=BOHR / TH),
    'Cp2kDcdMDOutputFile': U(energy=HA, forces=HA / BOHR, stress=1e-4, velocity=BOHR / TH),
    'LammpsTextMDOutputFile': U(stress=1e-4, velocity=1e-3, time=1000.0),
    'LammpsDcdMDOutputFile': U(stress=1e-4, velocity=1e-3, time=1000.0),
}
# attribute -> (quantity, power)
QUANTITY = {
    'cell': ('length', 1), 'coords': ('length', 1), 'volume': ('length', 3), 'etot': ('energy', 1),
    'ekin': ('energy', 1), 'stress': ('stress', 1), 'pressure': ('stress', 1), 'forces': ('forces', 1),
    'temperature': ('temperature', 1), 'velocity': ('velocity', 1), 'timestep': ('time', 1),
    'coords_frac': (None, 0),
}
# distinct primes, so that any mix-up gives another product
PROBE = {'length': 2.0, 'energy': 3.0, 'stress': 5.0, 'forces': 7.0, 'temperature': 11.0, 'velocity': 13.0,
         'time': 17.0}


class ScaleInterp(Interp):
    """adds a scale algebra: a value tagged Q:<attr>*<f> is the raw attribute
    times the number f (Q:<attr>*<f>[part]: only partly so)"""

    stub = None

    @staticmethod
    def parse(tag):
        a, _, f = tag[2:].partition('*')
        part = f.endswith(']')
        if part:
            f, _, p = f[:-1].partition('[')
            return a, float(f), p
        return a, float(f), ''

    def qtags(self, v, st):
        return [t for t in self.tags(v, st) if t.startswith('Q:')]

    def scale(self, tags, c, op, part=''):
        out = set()
        for t in tags:
            a, f, p = self.parse(t)
            if op is ast.Mult:
                f = f * c
            elif op is ast.Div:
                f = f / c
            else:
                out.add('Q:%s?*nan' % a.rstrip('?'))
                continue
            part2 = part or p
            out.add('Q:%s*%r%s' % (a, f, '[%s]' % part2 if part2 else ''))
        return out

    def binop(self, op, l, r, st, node):
        ql, qr = self.qtags(l, st), self.qtags(r, st)
        if not ql and not qr:
            return super().binop(op, l, r, st, node)
        if ql and qr:
            return VT('array')
        q, other = (ql, r) if ql else (qr, l)
        cs = self.consts(other)
        num = cs is not None and cs and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in cs)
        if num and isinstance(op, (ast.Mult, ast.Div)) and (ql or isinstance(op, ast.Mult)):
            out = set()
            for c in cs:
                if c == 0:
                    continue
                out |= self.scale(q, c, type(op))
            return VT('array', frozenset(out))
        if num and isinstance(op, (ast.Add, ast.Sub)) and set(cs) == {0}:
            return ql and l or r
        return VT('array')

    def aug_array(self, loc, s, r, st):
        o = st.heap[loc]
        q = [t for t in o.info.get('tags', ()) if t.startswith('Q:')]
        if not q:
            return
        cs = self.consts(r)
        part = self.part(s.target)
        new = set()
        if cs and all(isinstance(x, (int, float)) for x in cs) and isinstance(s.op, (ast.Mult, ast.Div)):
            for c in cs:
                new |= self.scale(q, c, type(s.op), part)
        else:
            new = {'Q:%s?*nan' % self.parse(t)[0] for t in q}
        info = dict(o.info)
        info['tags'] = frozenset(new)
        st.heap[loc] = o.clone(info=info)

    def setitem(self, base, key, v, st, node, aug=False, keynode=None):
        if aug and any(o.kind == 'array' and any(t.startswith('Q:') for t in o.info.get('tags', ()))
                       for _, o in self.objs(base, st)):
            return
        if not aug and self.qtags(v, st):
            for loc, o in list(self.objs(base, st)):
                if o.kind == 'array' and any(t.startswith('Q:') for t in o.info.get('tags', ())):
                    part = self.part(node.targets[0]) if isinstance(node, ast.Assign) else ''
                    info = dict(o.info)
                    new = set()
                    for t in self.qtags(v, st):
                        a, f, p = self.parse(t)
                        new.add('Q:%s*%r%s' % (a, f, '[%s]' % (part or p) if (part or p) else ''))
                    info['tags'] = frozenset(new)
                    st.heap[loc] = o.clone(info=info)
                    return
        return super().setitem(base, key, v, st, node, aug=aug, keynode=keynode)

    def part(self, target):
        """'' for the whole array, else a text for the last-axis selection"""
        if not isinstance(target, ast.Subscript):
            return ''
        k = target.slice
        dims = k.elts if isinstance(k, ast.Tuple) else [k]
        last = dims[-1]
        if isinstance(last, ast.Constant) and last.value is Ellipsis:
            return ''
        if isinstance(last, ast.Slice):
            def c(x):
                return None if x is None else ast.literal_eval(x) if isinstance(x, (ast.Constant, ast.UnaryOp)) else '?'
            lo, hi, stp = c(last.lower), c(last.upper), c(last.step)
            if lo in (None, 0) and hi is None and stp in (None, 1):
                return ''
            if lo in (None, 0) and stp in (None, 1):
                return ':%s' % hi
            return '%s:%s:%s' % (lo, hi, stp)
        return '?'

    def array_method(self, attr, b, o, node, args, kw, st):
        if attr in ('astype', 'copy'):
            return self.alloc(node, st, o.clone(root=None, info=dict(o.info)), 'acopy')
        return super().array_method(attr, b, o, node, args, kw, st)

    def call_ext(self, name, node, args, kw, st):
        if name in ('numpy.multiply', 'numpy.divide', 'numpy.true_divide') and len(args) >= 2 and not kw:
            return self.binop(ast.Mult() if name.endswith('multiply') else ast.Div(), args[0], args[1], st, node)
        if name in ('numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.asarray') and args:
            q = self.qtags(args[0], st)
            if q and any(o.kind == 'array' for _, o in self.objs(args[0], st)):
                if name == 'numpy.asarray':
                    return args[0]
                return self.alloc(node, st, Obj('array', info={'tags': frozenset(q)}), 'acopy')
        return super().call_ext(name, node, args, kw, st)

    def call_func(self, f, closure, node, args, kw, st):
        if self.stub is not None:
            r = self.stub(self, f, args, st)
            if r is not None:
                return r
        return super().call_func(f, closure, node, args, kw, st)


def units_of(it, v, st):
    """{quantity: value or None} of an instance's .units"""
    out = {}
    for _, o in it.objs(v, st):
        if o.kind != 'inst':
            continue
        for _, d in it.objs(o.fields.get('units', frozenset()), st):
            if d.kind == 'dict':
                for k, x in d.fields.items():
                    cs = it.consts(x)
                    out.setdefault(k, set()).update(cs if cs is not None else [None])
    return out


def close(a, b):
    return isinstance(a, (int, float)) and math.isclose(a, b, rel_tol=2e-5)


def make(it, cls, st, kw):
    init = cls.find('__init__')
    (ref,) = it.alloc(cls.node, st, Obj('inst', cls=cls), 'inst')
    s = None
    if init is None:
        return V(ref), st
    for v, x in it.call_func(init, None, cls.node, [V(ref)], kw, st):
        s = join_state(s, x)
    return V(ref), s


def run(c):
    prog = c.load()
    c.explanation = (
        'Abstract interpretation of every parser constructor folds the unit factors it ends up with (including the '
        'user override) and compares them with a table computed from CODATA values and the native units of each code '
        '(rule unit-factor, override). A scale domain (raw attribute times a number) is then pushed through the code '
        'that fills the Structure/Trajectory container with distinct prime factors per quantity, twice in a row: '
        'every physical attribute must end up as raw value times exactly its own factor (rule applied-once).')
    c.assumptions = ['the native units of each external code are as documented in the parser classes',
                     'the raw getters themselves return native units (their text parsing is not decided here)']
    it = ScaleInterp(prog)
    it.load()
    parse = prog.mod('parse')
    base = prog.cls('parse:StructureFileParser')
    classes = [k for k in parse.classes.values() if k is base or k.subclass_of(base)]
    c.need('parser classes', len(classes), 15)

    def fresh(m):
        it.steps = 0
        it.allocn = {}
        with_module_frame(it, m)
        return it.new_state()

    def init_args(cls, extra):
        init = cls.find('__init__')
        kw = {}
        if init is not None and (init.kwarg or 'units' in init.posargs + init.kwonly):
            kw.update(extra)
        return kw

    for cls in classes:
        loc = '%s:%s' % (cls.module.relpath, cls.node.lineno)
        # 1. folded factors, default and with an override of one quantity
        st = fresh(parse)
        v, s = make(it, cls, st, {})
        got = units_of(it, v, s)
        exp = EXPECT.get(cls.name)
        if exp is None:
            # a new parser class: nothing documented to compare with, but it
            # must have a factor for every quantity
            exp = {}
        for q in sorted(set(ONE) | set(got)):
            c.site('unit-factor', '%s.%s = %s' % (cls.name, q, sorted(got.get(q, []), key=str)))
            g = got.get(q, set())
            if not g:
                c.violate('unit-factor', '%s|%s|missing' % (cls.name, q), loc, '%s has no unit factor for %s' % (cls.name, q))
            elif q in exp and not all(close(x, exp[q]) for x in g):
                c.violate('unit-factor', '%s|%s' % (cls.name, q), loc, '%s multiplies parsed %s by %s, documented native units require %.8g'
                          % (cls.name, q, sorted(g, key=str), exp[q]))
        for q in ONE:
            st = fresh(parse)
            d = it.alloc(cls.node, st, Obj('dict', fields={q: V(const(123.0))}), 'u')
            kw = init_args(cls, {'units': d})
            if not kw:
                continue
            v, s = make(it, cls, st, kw)
            if s is None:
                c.violate('override', '%s|%s' % (cls.name, q), loc, '%s(units={%r: ...}) cannot be constructed' % (cls.name, q))
                continue
            got2 = units_of(it, v, s)
            c.site('override', '%s(units={%r: 123})' % (cls.name, q))
            for k in ONE:
                want = {123.0} if k == q else got.get(k)
                if got2.get(k) != want:
                    c.violate('override', '%s|%s|%s' % (cls.name, q, k), loc,
                              '%s(units={%r: 123.0}) gives factor %s for %s, expected %s'
                              % (cls.name, q, sorted(got2.get(k, []), key=str), k, sorted(want or [], key=str)))

    def listed(o, s):
        out = set()
        for _, l in it.objs(o.fields.get('attr_lst', frozenset()), s):
            for x in l.fields.values():
                out.update(it.consts(x) or ())
        return out

    # 2. application, once per get_cont() call
    def check_cont(what, loc, v, s, absent=()):
        n = 0
        for _, o in it.objs(v, s):
            if o.kind != 'inst':
                continue
            n += 1
            for attr, (q, p) in QUANTITY.items():
                if attr in absent or attr not in o.fields:
                    continue
                want = 1.0 if q is None else PROBE[q] ** p
                tags = set()
                bare = False
                for a in o.fields[attr]:
                    t = it.qtags(V(a), s)
                    if not t:
                        bare = True
                    tags |= set(t)
                facs = {it.parse(t)[1:] for t in tags}
                names = {it.parse(t)[0] for t in tags}
                c.site('applied-once', '%s: %s -> %s' % (what, attr, sorted(tags)))
                if bare and not tags and attr not in listed(o, s):
                    continue        # not an attribute of this container
                if bare and not tags:
                    c.violate('applied-once', '%s|%s' % (what, attr), loc,
                              '%s: the parsed attribute %s does not arrive in the container' % (what, attr))
                    continue
                if names != {attr} or facs != {(want, '')}:
                    c.violate('applied-once', '%s|%s' % (what, attr), loc,
                              '%s: attribute %s ends up as %s, expected exactly once its own factor (raw*%g)'
                              % (what, attr, ', '.join('raw %s*%g%s' % (it.parse(t)[0], it.parse(t)[1], it.parse(t)[2] and '[%s]' % it.parse(t)[2])
                                                       for t in sorted(tags)), want))
            if 'cryst_const' not in absent and 'cryst_const' in o.fields:
                tags = set(it.qtags(o.fields['cryst_const'], s))
                c.site('applied-once', '%s: cryst_const -> %s' % (what, sorted(tags)))
                if tags:
                    facs = {it.parse(t)[1:] for t in tags}
                    if facs != {(PROBE['length'], ':3')}:
                        c.violate('applied-once', '%s|cryst_const' % what, loc,
                                  '%s: lattice constants (first three of cryst_const) must be scaled once by the length '
                                  'factor and the angles not at all; found %s' % (what, sorted(tags)))
        return n

    def raw(st, node, attr):
        return it.alloc(node, st, Obj('array', info={'tags': frozenset({'Q:%s*1.0' % attr})}), 'raw' + attr)

    def probe(st, node):
        return it.alloc(node, st, Obj('dict', fields={q: V(const(x)) for q, x in PROBE.items()}), 'probe')

    def cont_attrs(cls, s, obj):
        names = set(QUANTITY) | {'cryst_const'}
        return names

    for cls in classes:
        getter = cls.find('get_cont')
        if getter is None:
            continue
        loc = '%s:%s' % (getter.relpath if hasattr(getter, 'relpath') else getter.module.relpath, getter.node.lineno)
        for auto in (False, True):
            st = fresh(parse)
            if not init_args(cls, {'units': 1}):
                continue
            v, s = make(it, cls, st, {'units': probe(st, cls.node)})
            if s is None:
                continue
            (ref,) = v

            def stub(it_, f, args, st_):
                if f.name == 'parse' and f.cls is not None and args:
                    o = st_.heap[ref[1]].clone()
                    o.fields = dict(o.fields)
                    for a in QUANTITY:
                        o.fields[a] = raw(st_, cls.node, a)
                    o.fields['cryst_const'] = raw(st_, cls.node, 'cryst_const')
                    o.fields['symbols'] = VT('list')
                    o.fields['parse_called'] = V(TRUE)
                    st_.heap[ref[1]] = o
                    return [(VNONE, st_)]
                return None
            it.stub = stub
            try:
                for rep in ('first call', 'second call'):
                    outs = it.call_func(getter, None, getter.node, [v], {'auto_calc': V(const(auto))}, s)
                    ns = None
                    n = 0
                    for r, x in outs:
                        n += check_cont('%s.get_cont(auto_calc=%s), %s' % (cls.name, auto, rep), loc, r, x)
                        ns = join_state(ns, x)
                    if ns is None or not n:
                        c.violate('applied-once', '%s|%s|no result' % (cls.name, rep), loc,
                                  '%s.get_cont(): the %s cannot return a container with units applied' % (cls.name, rep))
                        break
                    s = ns
            finally:
                it.stub = None
    # direct construction of the containers
    for name in ('Structure', 'Trajectory'):
        cls = prog.cls('crys:' + name)
        st = fresh(prog.mod('crys'))
        kw = {a: raw(st, cls.node, a) for a in list(QUANTITY) + ['cryst_const']}
        kw['units'] = probe(st, cls.node)
        v, s = make(it, cls, st, kw)
        if s is None:
            c.violate('applied-once', '%s|constructor' % name, cls.module.relpath, '%s(...) cannot be constructed' % name)
            continue
        absent = [a for a in QUANTITY if name == 'Structure' and a in ('ekin', 'velocity', 'timestep', 'temperature')]
        check_cont('%s(..., units=...)' % name, '%s:%s' % (cls.module.relpath, cls.node.lineno), v, s, absent)
    c.need('unit factors', c.counts['unit-factor'], 100)
    c.need('attributes checked for application', c.counts['applied-once'], 300)
