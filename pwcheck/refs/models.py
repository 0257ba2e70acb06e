"""Meaning of the compiled routines and of library functions at element level (C10 and C11
check the routines and their calls; here they are what their documentation says)."""
import itertools

from ..objint import Arr, Top, term
from ..valnum import PI, S, acos, floor, where
from .geom import dot, inv3, matmul, minim, mp, norm

CONST = dict(h=6.62607015e-34, c0=299792458.0, kb=1.380649e-23, e0=1.602176634e-19, m0=9.1093837015e-31, a0=5.29177210903e-11,
             Eh=4.3597447222071e-18, amu=1.66053906660e-27, hbar=1.054571817646e-34, th=2.4188843265857e-17, avo=6.02214076e23, R=8.314462618153,
             a0_to_A=0.529177210903)
SYMS = {'Al': 13, 'N': 7, 'H': 1, 'O': 8, 'Si': 14}


def globs():
    pt = {k: {'mass': Top(('el', 'm_' + k), 'float'), 'number': n, 'cov_rad': 1.0} for k, n in SYMS.items()}
    d = {('pwtools.atomic_data', 'pt'): pt, ('pwtools.atomic_data', 'numbers'): dict(SYMS)}
    # the literals of the constants module are decided by C06; here all use the same values
    for k, v in CONST.items():
        d['pwtools.constants', k] = v
    return d


def nested(a):
    """Arr -> nested lists of S, or None"""
    if isinstance(a, (list, tuple)):
        return [nested(x) for x in a]
    if isinstance(a, Top):
        return S(a.term)
    if isinstance(a, (int, float)):
        return S(a)
    if not isinstance(a, Arr) or a.data is None or a.shape is None or not all(isinstance(d, int) for d in a.shape):
        return None

    def build(off, sh):
        if not sh:
            return S(a.data[off])
        n = 1
        for d in sh[1:]:
            n *= d
        return [build(off + i * n, sh[1:]) for i in range(sh[0])]
    return build(0, a.shape)


def toarr(x, name, *args):
    def shape(v):
        return (len(v),) + shape(v[0]) if isinstance(v, list) else ()

    def fl(v):
        return [e for y in v for e in fl(y)] if isinstance(v, list) else [S(v).t]
    return Arr(shape(x), ('call', name) + tuple(term(a) for a in args), 'f8', fl(x))


def simple(name, f, names, opt=()):
    def model(I, args, kws, node):
        a = list(args) + [kws[k] for k in names[len(args):] if k in kws]
        v = [nested(x) for x in a]
        if any(x is None for x in v) or len(a) < len(names):
            return Arr(None, ('call', name) + tuple(term(x) for x in args))
        return toarr(f(*v), name, *a)
    return model


def fill(I, target, x):
    """an output array of a routine gets its values"""
    if isinstance(target, Arr):
        r = toarr(x, 'out')
        if target.shape == r.shape:
            full = tuple([I_full()] * len(r.shape))
            I.store(target, full, r, None)


def I_full():
    from ..objint import Slice
    return Slice(None, None, None)


def dist_parts(cf, cell, pbc):
    n = len(cf)
    frac = [[[cf[i][k] - cf[j][k] for k in range(3)] for j in range(n)] for i in range(n)]
    if pbc:
        frac = mp(minim, frac)
    vec = [matmul(r, cell) for r in frac]
    return frac, vec, [[dot(v, v) for v in r] for r in vec]


def distsq_frac(I, args, kws, node):
    names = ['coords_frac', 'cell', 'pbc', 'distsq', 'distvecs', 'distvecs_frac']
    a = dict(zip(names, args))
    a.update(kws)
    cf, cell = nested(a['coords_frac']), nested(a['cell'])
    if cf is None or cell is None or not isinstance(a['pbc'], (int, bool)):
        return None
    fr, ve, ds = dist_parts(cf, cell, a['pbc'])
    fill(I, a['distvecs_frac'], fr)
    fill(I, a['distvecs'], ve)
    fill(I, a['distsq'], ds)
    return a['distsq'], a['distvecs'], a['distvecs_frac']


def distances_traj(I, args, kws, node):
    names = ['coords_frac', 'cell', 'pbc', 'dists']
    a = dict(zip(names, args))
    a.update(kws)
    cf, cell = nested(a['coords_frac']), nested(a['cell'])
    if cf is None or cell is None or not isinstance(a['pbc'], (int, bool)):
        return None
    from ..valnum import sqrt
    fill(I, a['dists'], [mp(sqrt, dist_parts(x, c, a['pbc'])[2]) for x, c in zip(cf, cell)])
    return None


def angles(I, args, kws, node):
    a = dict(zip(['distvecs', 'dists', 'mask_val', 'deg', 'anglesijk'], args))
    a.update(kws)
    v, d = nested(a['distvecs']), nested(a['dists'])
    mv = nested(a['mask_val'])
    if v is None or d is None or not isinstance(a['deg'], (int, bool)):
        return None
    fill(I, a['anglesijk'], angle_tab(v, d, mv, a['deg']))
    return None


def angle_tab(v, d, mv, deg):
    n = len(d)

    def one(i, j, k):
        if i == j or i == k or j == k:
            return mv
        c = dot(v[i][j], v[i][k]) / d[i][j] / d[i][k]
        return acos(c) * 180.0 / PI if deg else c
    return [[[one(i, j, k) for k in range(n)] for j in range(n)] for i in range(n)]


def distsq(x, y):
    return [[dot([a - b for a, b in zip(p, q)], [a - b for a, b in zip(p, q)]) for q in y] for p in x]


M = {
    'frac2cart': simple('frac2cart', matmul, ['coords_frac', 'cell']),
    'cart2frac': simple('cart2frac', lambda c, m: matmul(c, inv3(m)), ['coords', 'cell']),
    'frac2cart_traj': simple('frac2cart_traj', lambda c, m: [matmul(x, y) for x, y in zip(c, m)], ['coords_frac', 'cell']),
    'cart2frac_traj': simple('cart2frac_traj', lambda c, m: [matmul(x, inv3(y)) for x, y in zip(c, m)], ['coords', 'cell']),
    'distsq': simple('distsq', lambda x, y, *rest: distsq(x, y), ['arrx', 'arry']), 'distsq_frac': distsq_frac, 'distances_traj': distances_traj, 'angles': angles,
}


def models():
    out = {}
    for k, f in M.items():
        out['pwtools._flib.' + k] = out['_flib.' + k] = f
    return out
