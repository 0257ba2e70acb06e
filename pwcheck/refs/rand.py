"""References for random structures: whatever numbers are drawn, the structure that comes out fits
the limits it was asked for."""
import math

from ..objint import Arr, Obj, Top, term
from ..valnum import Sample, Undefined, Unknown, flat, leaves
from ..vnspec import Exact, RAISES, new
from ..data.elements import ELEMENTS

RAD = {e[0]: e[2] for e in ELEMENTS[1:] if e and e[2]}

SMP = Sample(0, {})


def number(t):
    """the number a term without symbols is, None if it is none"""
    try:
        return SMP.ev(t)
    except (Unknown, Undefined):
        return None


def fold(t):
    if t[0] == 'bool' and len(t) == 2:
        t = t[1]
    if leaves(t):
        return None
    v = number(t)
    return None if v is None or isinstance(v, complex) else bool(v)


def num(v):
    if v is None or isinstance(v, (Arr, Obj)):
        return None
    return v if isinstance(v, (int, float)) else number(term(v))


def nums(a):
    """the numbers in an array, in order"""
    if not isinstance(a, Arr) or a.data is None:
        return None
    r = [number(t) if t[0] != 'unset' else None for t in a.data]
    return None if None in r else r


def det(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def const_cell(cell):
    """a, b, c and the angles of a cell of rows"""
    n = [math.sqrt(sum(x * x for x in r)) for r in cell]
    an = [math.degrees(math.acos(sum(x * y for x, y in zip(cell[i], cell[j])) / n[i] / n[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
    return n + an


class Limits:
    """what a random structure of these symbols has to fit"""

    def __init__(self, symbols, vol_scale=4, angle_range=(60.0, 120.0), vol_range_scale=(0.7, 1.3), length_range_scale=(0.7, 1.3), close_scale=1, **kw):
        r = [RAD[s] for s in symbols]
        self.symbols = symbols
        v = 4.0 / 3.0 * math.pi * sum(x ** 3 for x in r) * vol_scale
        self.vol = [v * x for x in vol_range_scale]
        self.length = [v ** (1 / 3.0) * x for x in length_range_scale]
        self.angle = list(angle_range)
        self.dmin = [[(a + b) * close_scale for b in r] for a in r]

    def cc(self, cc):
        e = 1e-6
        for k, x in enumerate(cc):
            lo, hi = self.length if k < 3 else self.angle
            if not lo - e <= x <= hi + e:
                return '%s %.4f outside of %.4f .. %.4f' % ('side' if k < 3 else 'angle', x, lo, hi)
        a, b, c, al, be, ga = cc
        ca, cb, cg = [math.cos(math.radians(x)) for x in (al, be, ga)]
        v = a * b * c * math.sqrt(1 - ca ** 2 - cb ** 2 - cg ** 2 + 2 * ca * cb * cg)
        if not self.vol[0] - e <= v <= self.vol[1] + e:
            return 'volume %.4f outside of %.4f .. %.4f' % (v, self.vol[0], self.vol[1])
        return 'fits'

    def struct(self, st):
        if not isinstance(st, Obj):
            return None
        cell, cf = nums(st.attrs.get('cell')), nums(st.attrs.get('coords_frac'))
        if cell is None or cf is None or len(cell) != 9:
            return None
        if list(st.attrs.get('symbols')) != list(self.symbols) or len(cf) != 3 * len(self.symbols):
            return 'not the atoms asked for'
        cell = [cell[3 * i:3 * i + 3] for i in range(3)]
        cf = [cf[3 * i:3 * i + 3] for i in range(len(cf) // 3)]
        r = self.cc(const_cell(cell))
        if r != 'fits':
            return r
        for i in range(len(cf)):
            for j in range(i):
                d = min(math.sqrt(sum(sum((cf[i][k] - cf[j][k] + s[k]) * cell[k][l] for k in range(3)) ** 2 for l in range(3)))
                        for s in [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)])
                if d < self.dmin[i][j] - 1e-6:
                    return 'atoms %d and %d (%s, %s) are %.4f apart, at least %.4f asked for' % (j, i, self.symbols[j], self.symbols[i], d, self.dmin[i][j])
        return 'fits'


class Draws:
    """the generator: where between the limits the sides and angles lie, and the places of atoms,
    one after the other, the last of them again and again"""

    def __init__(self, cells, atoms):
        self.cells, self.atoms = cells, atoms

    def flow(self, I, name, l):
        k = getattr(I, name, 0)
        setattr(I, name, k + 1)
        return l[min(k, len(l) - 1)]

    def models(self):
        def uniform(I, args, kws, node):
            a = dict(zip(('low', 'high', 'size'), args), **kws)
            lo, hi, n = num(a.get('low', 0.0)), num(a.get('high', 1.0)), a.get('size')
            if n == (3,):
                n = 3
            if lo is None or hi is None or n not in (None, 3):
                return Top(('call', 'numpy.random.uniform'))
            if n is None:
                return lo + (hi - lo) * self.flow(I, 'drawn_cell', [x for c in self.cells for x in c])
            k = getattr(I, 'drawn_cell', 0)
            I.drawn_cell = k + 3
            l = [x for c in self.cells for x in c]
            k = k if k < len(l) else len(l) - 6 + k % 6
            return Arr((3,), ('call', 'uniform', self.uid(I)), 'f8', [('const', lo + (hi - lo) * v) for v in l[k:k + 3]])

        def rand(I, args, kws, node):
            n = args[0] if args else kws.get('size')
            if n not in (3, (3,)):
                return Top(('call', 'numpy.random.rand'))
            return Arr((3,), ('call', 'rand', self.uid(I)), 'f8', [('const', float(v)) for v in self.flow(I, 'drawn_atom', self.atoms)])
        return {'numpy.random.uniform': uniform, 'numpy.random.rand': rand, 'numpy.random.random': rand, 'numpy.random.random_sample': rand}

    @staticmethod
    def uid(I):
        return I.fresh('d')


def specs():
    out = []

    def add(what, ref, call, kw, draws, name='RandomStructure', whilemax=12):
        def go(I, f, a_, k_):
            I.numtest, I.whilemax = fold, whilemax
            I.modcache['pwtools.atomic_data', 'numbers'] = {e[0]: k for k, e in enumerate(ELEMENTS) if e and e[2]}
            I.modcache['pwtools.atomic_data', 'pt'] = {e[0]: {'number': k, 'mass': e[1], 'cov_rad': e[2]} for k, e in enumerate(ELEMENTS) if e and e[2]}
            I.drawn_cell = I.drawn_atom = 0
            return call(I, I.call(f, [], dict(kw), None))
        out.append(('random structure', 'random', name, None, ref, dict(what=what, call=go, models=draws.models(), splitmask=True, at='get_random_struct')))

    meth = lambda I, o, n, **k: I.call(I.getattr(o, n), [], k, None)
    mid = (0.5,) * 6
    # the limits of a cell
    wide = dict(vol_range_scale=[0.0, 50.0], length_range_scale=[0.5, 2.0], angle_range=[70.0, 100.0])
    for symbols in (['Si'], ['H', 'Si', 'O'], ['Cs', 'F', 'F', 'H']):
        for kw in (wide, dict(wide, vol_scale=2.5, length_range_scale=[0.9, 1.1]), dict(wide, angle_range=[80.0, 95.0], close_scale=0.7)):
            kw = dict(kw, symbols=symbols)
            lim = Limits(**kw)
            for d in ((0.0,) * 6, (1.0,) * 6, (0.25, 0.5, 0.75, 0.125, 0.25, 1.0)):
                want = [lim.length[0] + (lim.length[1] - lim.length[0]) * v for v in d[:3]] + [lim.angle[0] + (lim.angle[1] - lim.angle[0]) * v for v in d[3:]]
                add('cell %s %s %s' % (''.join(symbols), kw.get('vol_scale', ''), d), [t for t in want], lambda I, o: meth(I, o, 'get_random_cryst_const'), kw, Draws([d], []))
            add('distances %s %s' % (''.join(symbols), kw.get('close_scale', 1)), lim.dmin, lambda I, o: I.getattr(o, 'dij_min'), kw, Draws([mid], []))
    # the volume: too small, too large, and then one that fits
    lo, hi = (0.0, 0.0, 0.0, 0.5, 0.5, 0.5), (1.0, 1.0, 1.0, 0.5, 0.5, 0.5)
    flat_ = (0.5, 0.5, 0.5, 0.0, 0.5, 1.0)
    ks = dict(symbols=['H', 'Si'], cell_maxtry=5)
    for w, bad in (('small', [lo]), ('large', [hi]), ('small and large', [lo, hi]), ('three', [hi, lo, lo]), ('flat', [flat_, flat_])):
        for more in ({}, {'vol_scale': 7}, {'vol_range_scale': [0.9, 1.2]}):
            kw = dict(ks, **more)
            lim = Limits(**kw)
            fit = lambda I, o, lim=lim: (lambda r: None if r is None else lim.cc(r))(nums(meth(I, o, 'get_random_cryst_const')))
            add('volume, %s first %s' % (w, more), Exact('fits'), fit, kw, Draws(bad + [mid], []))
            add('volume, only %s %s' % (w, more), RAISES if w != 'flat' or more.get('vol_range_scale') else Exact('fits'), fit, kw, Draws(bad, []))
    # atoms: places that are too close, directly and through the walls of the cell, and then some that fit
    far = [(0.5, 0.5, 0), (0, 0.5, 0.5), (0.5, 0, 0.5), (0.5, 0.5, 0.5), (0.25, 0.25, 0.25), (0.75, 0.75, 0.25), (0.75, 0.25, 0.75), (0.25, 0.75, 0.75)]
    org = [(0.0, 0.0, 0.0)]
    wall, near, face = [(0.97, 0.0, 0.96)], [(0.1, 0.05, 0.0)], [(0.0, 0.0, 0.9)]
    big = dict(vol_scale=30, vol_range_scale=[0.01, 10.0], atom_maxtry=6, cell_maxtry=1)
    for symbols in (['Si', 'Si', 'Si'], ['H', 'Cs', 'O'], ['Si', 'H', 'F', 'Si']):
        for w, bad in (('none', []), ('near', near), ('wall', wall), ('face', face * 2), ('many', near + wall + face)):
            for d in (mid, (0.1, 0.6, 0.9, 0.3, 0.8, 0.4)):
                kw = dict(big, symbols=symbols)
                lim = Limits(**kw)
                add('atoms %s, %s first, %s' % (''.join(symbols), w, d[0]), Exact('fits'), lambda I, o, lim=lim: lim.struct(meth(I, o, 'get_random_struct')), kw, Draws([d], org + bad + far))
                if bad and d is mid:
                    add('atoms %s, only %s' % (''.join(symbols), w), RAISES, lambda I, o: meth(I, o, 'get_random_struct'), kw, Draws([d], org + bad * 40), whilemax=80)
                    # again until it works
                    add('atoms %s, %s, again' % (''.join(symbols), w), Exact('fits'), lambda I, o, lim=lim: lim.struct(meth(I, o, 'get_random_struct', fail=False)),
                        dict(kw, atom_maxtry=2), Draws([d], org + bad * 4 + far), whilemax=40)
        # every place that is far enough is taken
        kw = dict(big, symbols=symbols)
        n = len(symbols)
        add('atoms %s, all fit' % ''.join(symbols), [[float(x) for x in p] for p in (org + far)[:n]],
            lambda I, o: (lambda st: st.attrs['coords_frac'] if isinstance(st, Obj) else st)(meth(I, o, 'get_random_struct')), kw, Draws([mid], org + far))

        def twice(I, o, n=n):
            a = meth(I, o, 'get_random_struct')
            b = meth(I, o, 'get_random_struct')
            return (a.attrs['coords_frac'], b.attrs['coords_frac']) if isinstance(a, Obj) and isinstance(b, Obj) else None
        pl = (org + far)[:2 * n]
        add('atoms %s, two structures' % ''.join(symbols), ([[float(x) for x in p] for p in pl[:n]], [[float(x) for x in p] for p in pl[n:2 * n]]), twice, kw, Draws([mid], pl))
    # pairs that are allowed for small atoms only
    for symbols, ok in ((['Si', 'H', 'H'], False), (['H', 'H', 'Si'], True)):
        kw = dict(big, symbols=symbols)
        lim = Limits(**kw)
        L = sum(lim.length) / 2
        d = lim.dmin[symbols.index('Si')][symbols.index('H')] * 0.9 / L
        # the second atom is too close for Si-H, far enough for H-H
        add('pairs %s' % ''.join(symbols), Exact('fits') if not ok else Exact(d),
            (lambda I, o, lim=lim: lim.struct(meth(I, o, 'get_random_struct'))) if not ok else
            (lambda I, o: (lambda c: c and c[3])(nums(meth(I, o, 'get_random_struct').attrs['coords_frac']))),
            dict(kw, angle_range=[90.0, 90.0]), Draws([mid], org + [(d, 0.0, 0.0)] + far))
    # a cell that can not be made
    add('cell never fits', RAISES, lambda I, o: meth(I, o, 'get_random_struct'), dict(symbols=['H', 'Si'], cell_maxtry=3), Draws([lo], org + far))
    return out
