"""References for pair distributions, neighbours and selections of atoms."""
import math

from ..objint import Arr, Slice
from ..valnum import S, absv, arr, scal, sym
from ..vnspec import ANY, Exact, Field, RAISES, new, withI
from .geom import CELL, det3, inv3, matmul, norm, cross
from .md import struct, traj

SY3 = ['Al', 'N', 'H']


def frange(lo, hi, step):
    """the grid lo, lo+step, .. < hi"""
    n = int(math.ceil((hi - lo) / step))
    return [lo + i * step for i in range(n)]


def rpdf_ref(xs, cell, sel, dr, rmax, pbc=True, dups=None, dmask=None):
    """xs: coordinates of every step; sel: indices of both selections"""
    def ref(s):
        c = [[s.ev(S(e).t) for e in r] for r in cell]
        v = abs(s.ev(absv(det3([[S(e) for e in r] for r in cell])).t))
        rm = rmax if rmax is not None else smith(c)
        bins = frange(0, rm + dr, dr)
        nb = len(bins) - 1
        g, ni = [0.0] * nb, [0.0] * nb
        na, nbb = len(sel[0]), len(sel[1])
        for x in xs:
            h = [0] * nb
            dup = 0
            for i in sel[0]:
                for j in sel[1]:
                    f = [s.ev(p.t) - s.ev(q.t) for p, q in zip(x[i], x[j])]
                    if pbc:
                        f = [e - math.floor(e + 0.5) for e in f]
                    r = [sum(f[k] * c[k][m] for k in range(3)) for m in range(3)]
                    d = math.sqrt(sum(e * e for e in r))
                    if d < 1e-15:
                        dup += 1
                    if d >= rm or dmask is not None and not dmask(d):
                        continue
                    k = max(q for q in range(nb) if bins[q] <= d)
                    if k > 0:
                        h[k] += 1
            tot = 0
            nrm = na * nbb - (dup if dups else 0)
            for k in range(nb):
                tot += h[k]
                g[k] += h[k] * v / (4.0 / 3.0 * math.pi * (bins[k + 1] ** 3 - bins[k] ** 3)) / nrm
                ni[k] += tot / na
        n = float(len(xs))
        return [[S(bins[k] + 0.5 * dr), S(g[k] / n), S(ni[k] / n)] for k in range(nb)]
    return ref


def smith(c):
    def cr(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    w = []
    for i in range(3):
        n = cr(c[(i + 1) % 3], c[(i + 2) % 3])
        w.append(abs(sum(p * q for p, q in zip(c[i], n))) / math.sqrt(sum(p * p for p in n)))
    return 0.5 * min(w)


def tobool(v):
    return Arr((len(v),), ('in', 'mask'), 'bool', [('const', bool(x)) for x in v])


def cellarr(m):
    return Arr((3, 3), ('in', 'cell'), 'f8', [('const', float(e)) for r in m for e in r])


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        out.append((rule, mod, name, mk, ref, kw))
    XR = dict(ranges=dict(CELL, x=(-1.4, 1.4), y=(-1.4, 1.4)))
    xs, cl = sym('x', (3, 3)), sym('cell', (3, 3))
    al = [0, 1, 2]
    # pair distribution functions
    one = lambda I, **k: struct(nat=3, **k)(I)
    D = dict(dr=0.5, rmax=3.0)
    pd = lambda obj, ref, what, kw=None, **o: add('pair distribution', 'crys', 'rpdf', withI(lambda I: ([obj(I)], dict({k: v() if callable(v) else v for k, v in (kw or {}).items()}))),
                                                  ref, what=what, **dict(XR, **o))
    for dr, rm in ((0.5, 3.0), (0.25, 2.0), (0.7, 4.2), (0.6, 4.0)):
        pd(one, rpdf_ref([xs], cl, (al, al), dr, rm), 'dr=%s rmax=%s' % (dr, rm), dict(dr=dr, rmax=rm))
    pd(one, rpdf_ref([xs], cl, (al, al), 0.05, 3.0), 'default dr', dict(rmax=3.0))
    pd(one, rpdf_ref([xs], cl, (al, al), 0.5, 3.0, pbc=False), 'pbc=False', dict(D, pbc=False))
    pd(one, rpdf_ref([xs], cl, (al, al), 0.5, 3.0, dups=True), 'norm_vmd', dict(D, norm_vmd=True))
    for c in ([[6, 0, 0], [0, 5, 0], [0, 0, 4]], [[4, 0, 0], [1.5, 5, 0], [1, -1, 6]], [[5, 1, 0], [0.5, 4, 0.5], [0.5, 0, 3.5]]):
        cs = [[S(('const', float(e))) for e in r] for r in c]
        pd(lambda I, c=c: one(I, cell=cellarr(c)), rpdf_ref([xs], cs, (al, al), 0.3, None), 'largest sphere, cell %s' % c, dict(dr=0.3, **({} if c[0][0] == 6 else {'rmax': 'auto'})))
    for am, sel, nm in ((lambda: ['Al', 'N'], ([0], [1]), 'names'), (lambda: ['N'], ([1], [1]), 'one name'),
                        (lambda: [tobool([1, 0, 1])], ([0, 2], [0, 2]), 'one mask'),
                        (lambda: [tobool([1, 0, 0]), tobool([0, 1, 1])], ([0], [1, 2]), 'two masks'),
                        (lambda: [tobool([0, 1, 1]), 'Al'], ([1, 2], [0]), 'mask and name')):
        pd(one, rpdf_ref([xs], cl, sel, 0.5, 3.0), 'amask: %s' % nm, dict(D, amask=am))
        if nm != 'one name':
            pd(one, rpdf_ref([xs], cl, sel, 0.5, 3.0, dups=True), 'amask: %s, norm_vmd' % nm, dict(D, amask=am, norm_vmd=True))
    for dm, f in (('>=1.0', lambda d: d >= 1.0), ('{d} >= 1.5', lambda d: d >= 1.5), ('({d} > 1.0) & ({d} < 2.0)', lambda d: 1.0 < d < 2.0)):
        pd(one, rpdf_ref([xs], cl, (al, al), 0.5, 3.0, dmask=f), 'dmask %s' % dm, dict(D, dmask=dm))
    # one cell for all steps
    y = sym('y', (3, 2, 3))
    md = lambda I: new(I, 'crys', 'Trajectory', coords_frac=arr('y', (3, 2, 3)), cell=arr('cell', (3, 3)), symbols=['Al', 'N'])
    pd(md, rpdf_ref(y, cl, ([0, 1], [0, 1]), 0.5, 3.0), 'trajectory', D)
    pd(lambda I: [md(I)], rpdf_ref(y, cl, ([0, 1], [0, 1]), 0.5, 3.0), 'list of one trajectory', D)
    pd(md, rpdf_ref(y[1:], cl, ([0], [1]), 0.5, 3.0), 'trajectory, time and atom mask', dict(D, amask=['Al', 'N'], tmask=lambda: Slice(1, None, None)))
    pd(md, rpdf_ref(y[::2], cl, ([0, 1], [0, 1]), 0.5, 3.0), 'trajectory, every 2nd step', dict(D, tmask=lambda: Slice(None, None, 2)))
    pd(md, rpdf_ref(y[-1:], cl, ([0, 1], [0, 1]), 0.5, 3.0), 'trajectory, last step', dict(D, tmask=-1))
    # two sets of coordinates: both have the symbols and the cell of each other
    z = sym('z', (3, 2, 3))
    mdz = lambda I, **k: new(I, 'crys', 'Trajectory', **dict(dict(coords_frac=arr('z', (3, 2, 3)), cell=arr('cell', (3, 3)), symbols=['Al', 'N']), **k))
    both = [a + b for a, b in zip(y, z)]
    XZ = dict(ranges=dict(XR['ranges'], z=(-1.4, 1.4)))
    pd(lambda I: [md(I), mdz(I)], rpdf_ref(both, cl, ([0, 1], [2, 3]), 0.5, 3.0), 'two trajectories', D, **XZ)
    pd(lambda I: [md(I), mdz(I)], rpdf_ref(both, cl, ([0], [3]), 0.5, 3.0), 'two trajectories, names', dict(D, amask=['Al', 'N']), **XZ)
    pd(lambda I: [md(I), mdz(I, symbols=['N', 'Al'])], RAISES, 'two trajectories, other symbols', D, **XZ)
    for o, n, w in ((one, 9, 'structure'), (md, 12, 'trajectory')):
        # 24 bytes for every pair of every step
        pd(o, RAISES, 'more than the allowed memory, %s' % w, dict(D, maxmem=n * 24e-9 * 0.95))
        pd(o, rpdf_ref([xs], cl, (al, al), 0.5, 3.0) if n == 9 else rpdf_ref(y, cl, ([0, 1], [0, 1]), 0.5, 3.0), 'just the allowed memory, %s' % w, dict(D, maxmem=n * 24e-9 * 1.05))
    # neighbours of an atom of a structure
    SY = ['Al', 'N', 'Al', 'H']
    w = sym('x', (4, 3))
    nn = lambda kw: 4 if 'num' in kw else 3

    def nref(i, gone, pbc, kw):
        def f(s):
            d = []
            for j in range(nn(kw)):
                if j == i or SY[j] in gone:
                    continue
                fr = [s.ev(p.t) - s.ev(q.t) for p, q in zip(w[i], w[j])]
                if pbc:
                    fr = [e - math.floor(e + 0.5) for e in fr]
                c = [[s.ev(e.t) for e in r] for r in cl]
                d.append((math.sqrt(sum(sum(fr[k] * c[k][m] for k in range(3)) ** 2 for m in range(3))), j))
            d = [e for e in sorted(d) if e[0] < kw['cutoff']] if 'cutoff' in kw else sorted(d)[:kw['num']]
            return d
        return f
    for i, skip, gone in ((0, None, ()), (2, 'N', ('N',)), (1, None, ())):
        for pbc in (None, True, False):
            for kw in ({'num': 2, 'fullout': True}, {'cutoff': 3.5}):
                f = nref(i, gone, pbc is not False, kw)
                ref = (lambda s, f=f, kw=kw: ([S(('const', j)) for _, j in f(s)], [S(('const', d)) for d, _ in f(s)]) if kw.get('fullout') else [S(('const', j)) for _, j in f(s)])
                ix = (lambda s, f=f, i=i: sorted([i] + [j for _, j in f(s)]))
                k = dict(kw, idx=i, **({} if pbc is None else {'pbc': pbc}))
                if skip:
                    k['skip'] = skip
                lab = 'idx=%d skip=%s %s' % (i, skip, ' '.join('%s=%s' % q for q in sorted(k.items()) if q[0] not in ('idx', 'skip')))
                N = dict(ranges=dict(CELL, x=(-0.9, 0.9)), splitmask=True)
                add('nearest neighbours', 'crys', 'nearest_neighbors', withI(lambda I, k=k: ([four(I, nn(k))], dict(k))), ref, what=lab, **N)
                if 'fullout' not in k:
                    add('nearest neighbours', 'crys', 'nearest_neighbors_struct', withI(lambda I, k=k: ([four(I, nn(k))], dict(k))),
                        Field(coords_frac=lambda s, ix=ix: [w[j] for j in ix(s)], symbols=lambda s, ix=ix: Exact([SY[j] for j in ix(s)]), cell=cl), what=lab, **N)
    return out


def four(I, n):
    return new(I, 'crys', 'Structure', coords_frac=arr('x', (n, 3)), cell=arr('cell', (3, 3)), symbols=['Al', 'N', 'Al', 'H'][:n])
