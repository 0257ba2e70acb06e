"""References for crystal geometry: cell, reciprocal cell, coordinates, distances."""
import itertools
import math

from ..valnum import (PI, S, absv, acos, arr, cos, fn, floor, lt, red, scal, sin, sqrt, sym, where)
from ..vnspec import ANY, Exact, Field, RAISES

CELL = {'cell': lambda k, s: cellval(k, s)}


def rnd(key, s, a, b):
    import random
    return random.Random(repr((s.seed, key))).uniform(a, b)


def cellval(key, s):
    """well conditioned cells: big diagonal"""
    i, j = key[-2:]
    return rnd(key, s, 3.0, 5.0) if i == j else rnd(key, s, -1.0, 1.0)


CCR = {('cc',) + (i,): (2.0, 6.0) if i < 3 else (70.0, 105.0) for i in range(6)}
for _k in range(4):
    CCR.update({('cc', _k, i): (2.0, 6.0) if i < 3 else (70.0, 105.0) for i in range(6)})


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def norm(a):
    return sqrt(dot(a, a))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def matmul(a, b):
    return [[dot(r, [b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for r in a]


def inv3(m):
    d = det3(m)
    c = [cross(m[1], m[2]), cross(m[2], m[0]), cross(m[0], m[1])]
    return [[c[j][i] / d for j in range(3)] for i in range(3)]


def T(m):
    return [list(r) for r in zip(*m)]


def deg(x):
    return x * 180.0 / PI


def angle(a, b):
    return deg(acos(dot(a, b) / norm(a) / norm(b)))


def cell2cc(m):
    a, b, c = m
    return [norm(a), norm(b), norm(c), angle(b, c), angle(a, c), angle(a, b)]


def cc2cell(cc):
    a, b, c = cc[:3]
    al, be, ga = [x * PI / 180.0 for x in cc[3:]]
    cx = c * cos(be)
    cy = c * (cos(al) - cos(be) * cos(ga)) / sin(ga)
    return [[a, S(0.0), S(0.0)], [b * cos(ga), b * sin(ga), S(0.0)], [cx, cy, sqrt(c * c - cy * cy - cx * cx)]]


def vol_cc(cc):
    a, b, c = cc[:3]
    x, y, z = [cos(q * PI / 180.0) for q in cc[3:]]
    return a * b * c * sqrt(1 + 2 * x * y * z - x * x - y * y - z * z)


def recip(m):
    f = 2 * PI / absv(det3(m))
    a, b, c = m
    return [[f * x for x in cross(p, q)] for p, q in ((b, c), (c, a), (a, b))]


def trans(x, old, new):
    return matmul(matmul(x, old), inv3(new))


def mask(n):
    return [list(t) for t in itertools.product(*[range(k) if k >= 0 else range(0, k, -1) for k in n])]


def wrap(x):
    return x - floor(x)


def minim(x):
    """into [-0.5, 0.5)"""
    return x - floor(x + 0.5)


def mp(f, x):
    return [mp(f, y) for y in x] if isinstance(x, list) else f(x)


def swap(x, i, j):
    """swap two axes of nested lists (rank <= 3)"""
    def shape(v):
        return (len(v),) + shape(v[0]) if isinstance(v, list) else ()
    sh = list(shape(x))
    out = list(sh)
    out[i], out[j] = out[j], out[i]

    def get(ix):
        ix = list(ix)
        ix[i], ix[j] = ix[j], ix[i]
        v = x
        for k in ix:
            v = v[k]
        return v

    def build(pre):
        if len(pre) == len(out):
            return get(pre)
        return [build(pre + (k,)) for k in range(out[len(pre)])]
    return build(())


def P(*a, **k):
    return lambda: (a, k)


def A(f):
    """arguments made afresh"""
    return f


def specs():
    """(rule, module, function, arguments, reference, options)"""
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        out.append((rule, mod, name, mk, ref, kw))

    cell = sym('cell', (3, 3))
    cell3 = sym('cell', (2, 3, 3))
    cc = sym('cc', (6,))
    cc2 = sym('cc', (2, 6))
    R = dict(ranges=CELL)
    # angle between vectors
    add('angle', 'crys', 'angle', lambda: ([arr('x', (3,)), arr('y', (3,))], {}), angle(sym('x', (3,)), sym('y', (3,))))
    add('volume', 'crys', 'volume_cell', lambda: ([arr('cell', (3, 3))], {}), absv(det3(cell)), **R)
    add('volume', 'crys', 'volume_cell3d', lambda: ([arr('cell', (2, 3, 3))], {}), [absv(det3(m)) for m in cell3], **R)
    for ax in (1, 2):
        sh = [3, 3]
        sh.insert(ax, 2)
        add('volume', 'crys', 'volume_cell3d', lambda sh=sh, ax=ax: ([arr('v', sh)], {'axis': ax}),
            [absv(det3(m)) for m in pull(sym('v', sh), ax)], what='axis=%d' % ax,
            ranges={'v': lambda k, s, ax=ax: cellval(('v',) + tuple(x for i, x in enumerate(k[1:]) if i != ax), s) + 0.1 * k[1:][ax]})
    add('volume', 'crys', 'volume_cc', lambda: ([arr('cc', (6,))], {}), vol_cc(cc), ranges=CCR)
    add('volume', 'crys', 'volume_cc3d', lambda: ([arr('cc', (2, 6))], {}), [vol_cc(x) for x in cc2], ranges=CCR)
    add('volume', 'crys', 'volume_cc3d', lambda: ([arr('dd', (6, 2))], {'axis': 1}), [vol_cc(x) for x in T(sym('dd', (6, 2)))],
        what='axis=1', ranges={('dd', i, k): (2.0, 6.0) if i < 3 else (70.0, 105.0) for i in range(6) for k in range(2)})
    add('cell parameters', 'crys', 'cell2cc', lambda: ([arr('cell', (3, 3))], {}), cell2cc(cell), **R)
    add('cell parameters', 'crys', 'cell2cc3d', lambda: ([arr('cell', (2, 3, 3))], {}), [cell2cc(m) for m in cell3], **R)
    add('cell parameters', 'crys', 'cell2cc3d', lambda: ([arr('v', (3, 3, 2))], {'axis': 2}), [cell2cc(m) for m in pull(sym('v', (3, 3, 2)), 2)],
        what='axis=2', ranges={'v': lambda k, s: cellval(k[:3], s) + 0.1 * k[3]})
    add('cell parameters', 'crys', 'cc2cell', lambda: ([arr('cc', (6,))], {}), cc2cell(cc), ranges=CCR)
    add('cell parameters', 'crys', 'cc2cell3d', lambda: ([arr('cc', (2, 6))], {}), [cc2cell(x) for x in cc2], ranges=CCR)
    add('cell parameters', 'crys', 'cc2celldm', lambda: ([arr('cc', (6,))], {'fac': scal('fac')}),
        [cc[0] * S(('el', 'fac')), cc[1] / cc[0], cc[2] / cc[0]] + [cos(x * PI / 180.0) for x in cc[3:]], ranges=CCR)
    dm = sym('dm', (6,))
    add('cell parameters', 'crys', 'celldm2cc', lambda: ([arr('dm', (6,))], {'fac': scal('fac')}),
        [dm[0] * S(('el', 'fac')), dm[1] * dm[0] * S(('el', 'fac')), dm[2] * dm[0] * S(('el', 'fac'))] + [deg(acos(x)) for x in dm[3:]])
    add('reciprocal cell', 'crys', 'recip_cell', lambda: ([arr('cell', (3, 3))], {}), recip(cell), **R)
    for w, lh in ((None, False), (0, False), (1, False), (2, False), (0, True)):
        # each distance is the smallest one for some cell; a left-handed cell
        short = {'cell': lambda k, s, w=w, lh=lh: cellval(k, s) * (0.4 if k[-2] == w else 1.0) * (-1.0 if lh and k[-2] == 2 else 1.0)}
        add('reciprocal cell', 'crys', 'rmax_smith', lambda: ([arr('cell', (3, 3))], {}),
            0.5 * red('min', [absv(det3(cell)) / norm(cross(p, q)) for p, q in ((cell[1], cell[2]), (cell[2], cell[0]), (cell[0], cell[1]))]),
            what='' if w is None else 'axis %d short%s' % (w, ', left-handed' if lh else ''), ranges=short)
    rnd_ = fn('round')
    nn = [norm(r) for r in cell]
    h = S(('el', 'h'))
    HR = dict(ranges=dict(CELL, h=(0.3, 0.7)))
    one = lambda x: where(lt(x, S(1)), S(1), x)
    size = [one(rnd_(x / h)) for x in nn]
    add('k-point grid', 'crys', 'grid_in_cell', lambda: ([arr('cell', (3, 3))], {'h': scal('h')}), size, **HR)
    add('k-point grid', 'crys', 'grid_in_cell', lambda: ([arr('cell', (3, 3))], {'h': scal('h'), 'fullout': True}),
        (size, [x / n for x, n in zip(nn, size)]), what='fullout', **HR)
    ev = [one(rnd_(x / h) + rnd_(x / h) % 2) for x in nn]
    add('k-point grid', 'crys', 'grid_in_cell', lambda: ([arr('cell', (3, 3))], {'h': scal('h'), 'even': True}), ev, what='even', **HR)
    add('k-point grid', 'crys', 'grid_in_cell', lambda: ([arr('cell', (3, 3))], {'h': scal('h'), 'minpoints': 3}),
        [where(lt(rnd_(x / h), S(3)), S(3), rnd_(x / h)) for x in nn], what='minpoints', ranges=dict(CELL, h=(1.0, 5.0)))
    add('k-point grid', 'crys', 'grid_in_cell', lambda: ([arr('cell', (3, 3))], {'size': [2, 3, 4]}),
        [x / n for x, n in zip(nn, (2, 3, 4))], what='size', **R)
    rn = [norm(r) for r in recip(cell)]
    add('k-point grid', 'crys', 'kgrid', lambda: ([arr('cell', (3, 3))], {'size': [2, 3, 4]}), [x / n for x, n in zip(rn, (2, 3, 4))], what='size', **R)
    for kw in ('h', 'dk'):
        add('k-point grid', 'crys', 'kgrid', lambda kw=kw: ([arr('cell', (3, 3))], {kw: scal('h')}), [one(rnd_(x / h)) for x in rn], what=kw, **HR)
    # coordinates
    x = sym('x', (2, 3))
    OLD = {'old': lambda k, s: cellval(k, s), 'new': lambda k, s: cellval(k, s)}
    old, new = sym('old', (3, 3)), sym('new', (3, 3))
    on = lambda sh=(3, 3): dict(old=arr('old', sh), new=arr('new', sh))
    for cp in (True, False):
        add('coordinate transformation', 'crys', 'coord_trans', lambda cp=cp: ([arr('x', (2, 3))], dict(on(), copy=cp)), trans(x, old, new),
            what='copy=%s' % cp, ranges=OLD)
    x3 = sym('y', (2, 2, 3))
    add('coordinate transformation', 'crys', 'coord_trans', lambda: ([arr('y', (2, 2, 3))], on()), [trans(m, old, new) for m in x3], what='3d', ranges=OLD)
    for ax, sh in ((0, (3, 2)), (1, (2, 3, 2)), (0, (3, 2, 2))):
        src = sym('z', sh)
        n = len(sh) - 1
        sw = swap(src, n, ax)
        r = swap(trans(sw, old, new) if n == 1 else [trans(m, old, new) for m in sw], n, ax)
        add('coordinate transformation', 'crys', 'coord_trans', lambda sh=sh, ax=ax: ([arr('z', sh)], dict(on(), axis=ax)), r,
            what='%dd, axis=%d' % (len(sh), ax), ranges=OLD)
    o3, n3 = sym('old', (2, 3, 3)), sym('new', (2, 3, 3))
    add('coordinate transformation', 'crys', 'coord_trans3d', lambda: ([arr('y', (2, 2, 3))], on((2, 3, 3))),
        [trans(m, a, b) for m, a, b in zip(x3, o3, n3)], ranges=OLD)
    TA = {'old': lambda k, s: cellval((k[0], k[1], k[3]), s) + .1 * k[2], 'new': lambda k, s: cellval((k[0], k[1], k[3]), s) + .1 * k[2]}
    add('coordinate transformation', 'crys', 'coord_trans3d', lambda: ([arr('y', (2, 2, 3))], dict(on((3, 2, 3)), timeaxis=1)),
        swap([trans(m, a, b) for m, a, b in zip(swap(x3, 0, 1), swap(sym('old', (3, 2, 3)), 0, 1), swap(sym('new', (3, 2, 3)), 0, 1))], 0, 1),
        what='timeaxis=1', ranges=TA)
    first = lambda y: [[[y[i][j][t] for j in range(len(y[0]))] for i in range(len(y))] for t in range(len(y[0][0]))]
    last = lambda y: [[[y[t][i][j] for t in range(len(y))] for j in range(len(y[0][0]))] for i in range(len(y[0]))]
    T2 = {k: (lambda q, s: cellval((q[0], q[1], q[2]), s) + .1 * q[3]) for k in ('old', 'new')}
    add('coordinate transformation', 'crys', 'coord_trans3d', lambda: ([arr('y', (4, 3, 2))], dict(on((3, 3, 2)), timeaxis=2)),
        last([trans(m, a, b) for m, a, b in zip(first(sym('y', (4, 3, 2))), first(sym('old', (3, 3, 2))), first(sym('new', (3, 3, 2))))]),
        what='timeaxis=2', ranges=T2)
    W = {'x': (-1.9, 1.9), 'y': (-1.9, 1.9)}
    for sh, nm in (((2, 3), 'x'), ((2, 2, 3), 'y')):
        for cp in (True, False):
            add('periodic boundary', 'crys', 'pbc_wrap_coords', lambda sh=sh, nm=nm, cp=cp: ([arr(nm, sh)], {'copy': cp}), mp(wrap, sym(nm, sh)),
                what='%dd copy=%s' % (len(sh), cp), ranges=W)
    add('periodic boundary', 'crys', 'pbc_wrap_coords', lambda: ([arr('x', (2, 3))], {'mask': [True, False, True]}),
        [[wrap(a), b, wrap(c)] for a, b, c in x], what='mask', ranges=W)
    add('periodic boundary', 'crys', 'pbc_wrap_coords', lambda: ([arr('w', (3, 2))], {'xyz_axis': 0, 'mask': [False, True, True]}),
        [sym('w', (3, 2))[0]] + mp(wrap, sym('w', (3, 2))[1:]), what='xyz_axis=0', ranges={'w': (-1.9, 1.9)})
    for cp in (True, False):
        add('periodic boundary', 'crys', 'min_image_convention', lambda cp=cp: ([arr('s', (2,))], {'copy': cp}), mp(minim, sym('s', (2,))),
            what='copy=%s' % cp, ranges={'s': (-1.9, 1.9)})
    # near the limits, and more than one lattice vector away
    for k, (lo, hi) in enumerate(((-0.7, -0.5), (0.5, 0.7), (-1.7, -1.5), (1.5, 1.7), (2.5, 2.7), (-2.7, -2.5), (0.4, 0.5), (-0.5, -0.4))):
        add('periodic boundary', 'crys', 'min_image_convention', lambda: ([arr('s', (1,))], {}), mp(minim, sym('s', (1,))),
            what='from %s to %s' % (lo, hi), ranges={'s': (lo, hi)})
    for k, (lo, hi) in enumerate(((-0.2, 0.0), (0.0, 0.2), (0.8, 1.0), (1.0, 1.2), (2.0, 2.2), (-1.2, -1.0))):
        add('periodic boundary', 'crys', 'pbc_wrap_coords', lambda: ([arr('x', (1, 3))], {}), mp(wrap, sym('x', (1, 3))),
            what='from %s to %s' % (lo, hi), ranges={'x': (lo, hi)})
    return out


def pull(x, ax):
    """list of the slices along axis ax"""
    def go(v, a):
        if a == 0:
            return list(v)
        subs = [go(y, a - 1) for y in v]
        return [[s[k] for s in subs] for k in range(len(subs[0]))]
    return go(x, ax)
