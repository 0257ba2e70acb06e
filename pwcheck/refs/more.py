"""References for Bravais lattices, paths in k space and radial basis functions."""
import math

from ..objint import Arr, Top
from ..valnum import PI, S, absv, acos, arr, cos, exp, red, scal, sin, sqrt, sym
from ..vnspec import ANY, Exact, Field, RAISES, new
from .geom import dot, norm


def bravais(n, d):
    """primitive vectors of PWscf's ibrav = n (INPUT_PW); d: celldm"""
    a = d[0]
    o = S(0.0)
    h = a * 0.5
    if n == 1:
        return [[a, o, o], [o, a, o], [o, o, a]]
    if n == 2:
        return [[-h, o, h], [o, h, h], [-h, h, o]]
    if n == 3:
        return [[h, h, h], [-h, h, h], [-h, -h, h]]
    b = a * d[1] if d[1] is not None else None
    c = a * d[2] if d[2] is not None else None
    if n == 4:
        return [[a, o, o], [-h, a * math.sqrt(3.0) / 2.0, o], [o, o, c]]
    if n == 5:
        tx, ty, tz = sqrt((1.0 - d[3]) / 2.0), sqrt((1.0 - d[3]) / 6.0), sqrt((1.0 + 2.0 * d[3]) / 3.0)
        return [[a * tx, -a * ty, a * tz], [o, 2.0 * a * ty, a * tz], [-a * tx, -a * ty, a * tz]]
    if n == 6:
        return [[a, o, o], [o, a, o], [o, o, c]]
    hc = c / 2.0
    if n == 7:
        return [[h, -h, hc], [h, h, hc], [-h, -h, hc]]
    hb = b / 2.0
    if n == 8:
        return [[a, o, o], [o, b, o], [o, o, c]]
    if n == 9:
        return [[h, hb, o], [-h, hb, o], [o, o, c]]
    if n == 10:
        return [[h, o, hc], [h, hb, o], [o, hb, hc]]
    if n == 11:
        return [[h, hb, hc], [-h, hb, hc], [-h, -hb, hc]]
    cg = d[5]
    sg = sqrt(1.0 - cg * cg)
    if n == 12:
        return [[a, o, o], [b * cg, b * sg, o], [o, o, c]]
    if n == 13:
        return [[h, o, -hc], [b * cg, b * sg, o], [h, o, hc]]
    ca, cb = d[3], d[4]
    w = sqrt(1.0 + 2.0 * ca * cb * cg - ca * ca - cb * cb - cg * cg) / sg
    return [[a, o, o], [b * cg, b * sg, o], [c * cb, c * (ca - cb * cg) / sg, c * w]]


NEED = {1: (0,), 2: (0,), 3: (0,), 4: (0, 2), 5: (0, 3), 6: (0, 2), 7: (0, 2), 8: (0, 1, 2), 9: (0, 1, 2), 10: (0, 1, 2), 11: (0, 1, 2),
        12: (0, 1, 2, 5), 13: (0, 1, 2, 5), 14: range(6)}
DR = {('d', 0): (4.0, 9.0), ('d', 1): (0.7, 1.6), ('d', 2): (0.7, 1.6), ('d', 3): (-0.3, 0.5), ('d', 4): (-0.3, 0.5), ('d', 5): (-0.3, 0.5)}


def cdist_model(I, args, kws, node):
    """squared or plain distances between the rows of two arrays"""
    a = dict(zip(('XA', 'XB', 'metric'), args))
    a.update(kws)
    x, y, met = a['XA'], a['XB'], a.get('metric', 'euclidean')
    if not (isinstance(x, Arr) and isinstance(y, Arr) and x.data is not None and y.data is not None and len(x.shape) == len(y.shape) == 2
            and met in ('euclidean', 'sqeuclidean')):
        return Arr(None, ('call', 'cdist'))
    n, m, k = x.shape[0], y.shape[0], x.shape[1]
    out = []
    for i in range(n):
        for j in range(m):
            d = S(0.0)
            for q in range(k):
                e = S(x.data[i * k + q]) - S(y.data[j * k + q])
                d = d + e * e
            out.append((d if met == 'sqeuclidean' else sqrt(d)).t)
    return Arr((n, m), ('call', 'cdist', x.term, y.term), 'f8', out)


def phi(kind, rsq, p):
    if kind == 'gauss':
        return exp(rsq * -0.5 / (p * p))
    m = sqrt(rsq + p * p)
    return m if kind == 'multi' else 1.0 / m


def dphi(kind, rsq, p):
    """derivative with respect to r^2"""
    if kind == 'gauss':
        return exp(rsq * -0.5 / (p * p)) * -0.5 / (p * p)
    m = sqrt(rsq + p * p)
    return 0.5 / m if kind == 'multi' else -0.5 / (m * m * m)


def dsq(x, y):
    return dot([a - b for a, b in zip(x, y)], [a - b for a, b in zip(x, y)])


def solve(m, b):
    """Gaussian elimination on terms"""
    n = len(b)
    a = [list(r) + [v] for r, v in zip(m, b)]
    for i in range(n):
        for j in range(i + 1, n):
            f = a[j][i] / a[i][i]
            a[j] = [u - f * v for u, v in zip(a[j], a[i])]
    x = [None] * n
    for i in reversed(range(n)):
        s = a[i][n]
        for j in range(i + 1, n):
            s = s - a[i][j] * x[j]
        x[i] = s / a[i][i]
    return x


def spec_rbf(add):
    CM = {'scipy.spatial.distance.cdist': cdist_model, 'scipy.linalg.lstsq': lambda I, args, kws, node: lstsq(I, args)}

    def lstsq(I, args):
        """square systems of full rank only: the same as solve"""
        g, b = args[:2]
        n = g.shape[0]
        x = solve([[S(g.data[i * n + j]) for j in range(n)] for i in range(n)], [S(e) for e in b.data])
        return (Arr((n,), ('call', 'lstsq'), 'f8', [e.t for e in x]), Top(('o',)), n, Top(('o',)))
    n, d = 3, 2
    for rule, nm in (('radial basis', 'rbf_gauss'), ('radial basis', 'rbf_multi'), ('radial basis', 'rbf_inv_multi')):
        add(rule, 'rbf.core', nm, lambda: ([scal('r'), scal('p')], {}), phi(nm[4:], sym('r', ()), sym('p', ())), ranges={'r': (0.5, 2.0), 'p': (0.5, 2.0)})
        add(rule, 'rbf.core', nm, lambda: ([arr('R', (2, 3)), scal('p')], {}), [[phi(nm[4:], e, sym('p', ())) for e in r] for r in sym('R', (2, 3))],
            ranges={'R': (0.5, 2.0), 'p': (0.5, 2.0)}, what='2d')
    x, y, q = sym('x', (n, d)), sym('y', (n,)), sym('q', (2, d))
    RR = {'x': lambda k, s: 1.3 * k[1] + 0.9 * ((k[1] + k[2]) % 3) + 0.07 * s.seed, 'y': (-2.0, 2.0), 'q': (0.0, 3.0), 'p': (0.8, 1.6), 'r': (0.1, 0.6)}
    dm = [[dsq(a, b) for b in x] for a in x]
    mean = red('sum', [sqrt(e) if i != j else S(0.0) for i, row in enumerate(dm) for j, e in enumerate(row)]) / float(n * n)
    edges = [red('max', [r[k] for r in x]) - red('min', [r[k] for r in x]) for k in range(d)]
    sci = (edges[0] * edges[1] / float(n)) ** (1.0 / d)
    pts = lambda: arr('x', (n, d))
    vals = lambda: arr('y', (n,))
    add('radial basis', 'rbf.core', 'estimate_p', lambda: ([pts()], {}), mean, ranges=RR, models=CM)
    add('radial basis', 'rbf.core', 'estimate_p', lambda: ([pts()], {'method': 'scipy'}), sci, ranges=RR, models=CM, splitmask=True, what='scipy')
    add('radial basis', 'rbf.core', 'estimate_p', lambda: ([pts()], {'method': 'x'}), RAISES, ranges=RR, models=CM, splitmask=True, what='illegal')
    add('radial basis', 'rbf.core', 'squared_dists', lambda: ([arr('q', (2, d)), pts()], {}), [[dsq(a, b) for b in x] for a in q], ranges=RR, models=CM)
    add('radial basis', 'rbf.core', 'euclidean_dists', lambda: ([arr('q', (2, d)), pts()], {}), [[sqrt(dsq(a, b)) for b in x] for a in q], ranges=RR, models=CM)
    add('radial basis', 'rbf.core', '_np_distsq', lambda: ([arr('q', (2, d)), pts()], {}), [[dsq(a, b) for b in x] for a in q], ranges=RR, models=CM)
    for kind in ('gauss', 'multi', 'inv_multi'):
        for pk, pv in (('p', sym('p', ())), ('mean', mean), ('scipy', sci)):
            for rk, rv in ((0, None), ('r', sym('r', ())), (None, None)):
                if pk != 'p' and rk != 'r':
                    continue
                G = [[phi(kind, e, pv) + (rv if rv is not None and i == j else 0.0) for j, e in enumerate(row)] for i, row in enumerate(dm)]
                w = solve(G, y)
                w_ = '%s p=%s r=%s' % (kind, pk, rk)
                kw = lambda kind=kind, pk=pk, rk=rk: {'rbf': kind, 'p': scal('p') if pk == 'p' else pk, 'r': scal('r') if rk == 'r' else rk}
                mk = lambda I, kw=kw: new(I, 'rbf.core', 'Rbf', points=pts(), values=vals(), **kw())

                def meth(name, *a, mk=mk, **k):
                    return lambda I, f, a_, k_: I.call(I.getattr(mk(I), name), [t() for t in a], dict(k), None) if name != '__call__' else \
                        I.call(mk(I), [t() for t in a], dict(k), None)
                add('radial basis', 'rbf.core', 'Rbf.fit', None, Field(w=w, p=pv), ranges=RR, models=CM, splitmask=True, call=lambda I, f, a_, k_, mk=mk: mk(I), what=w_, tol=1e-5)
                pr = [dot(w, [phi(kind, dsq(c, s), pv) for s in x]) for c in q]
                gr = [[dot(w, [dphi(kind, dsq(c, s), pv) * 2.0 * (c[k] - s[k]) for s in x]) for k in range(d)] for c in q]
                Q = lambda: arr('q', (2, d))
                Q1 = lambda: Arr((d,), ('in', 'q0'), 'f8', [('el', 'q', 0, k) for k in range(d)])
                for nm in ('predict', '__call__'):
                    add('radial basis', 'rbf.core', 'Rbf.' + nm, None, pr, ranges=RR, models=CM, splitmask=True, call=meth(nm, Q), what=w_, tol=1e-5)
                    add('radial basis', 'rbf.core', 'Rbf.' + nm, None, pr[0], ranges=RR, models=CM, splitmask=True, call=meth(nm, Q1), what='one point ' + w_, tol=1e-5)
                add('radial basis', 'rbf.core', 'Rbf.__call__', None, gr, ranges=RR, models=CM, splitmask=True, call=meth('__call__', Q, der=1), what='der=1 ' + w_, tol=1e-5)
                if pk == 'p':
                    add('radial basis', 'num', 'Interpol2D', None, pr, ranges=RR, models=CM, splitmask=True, what='rbf_' + w_, tol=1e-5,
                        call=lambda I, f, a_, k_, kw=kw: I.call(I.call(f, [], dict(((k, v) for k, v in kw().items() if k != 'rbf'), points=pts(), values=vals(), what='rbf_' + kw()['rbf']), None),
                                                                [arr('q', (2, d))], {}, None))
                add('radial basis', 'rbf.core', 'Rbf.deriv', None, gr, ranges=RR, models=CM, splitmask=True, call=meth('deriv', Q), what=w_, tol=1e-5)
                add('radial basis', 'rbf.core', 'Rbf.deriv', None, gr[0], ranges=RR, models=CM, splitmask=True, call=meth('deriv', Q1), what='one point ' + w_, tol=1e-5)
                u = sym('u', (2,))
                res = [b - a for a, b in zip(pr, u)]
                add('radial basis', 'rbf.core', 'Rbf.fit_error', None, dot(res, res) / 2.0, ranges=RR, models=CM, splitmask=True, call=meth('fit_error', Q, lambda: arr('u', (2,))), what=w_, tol=1e-5)
    # defaults
    G = [[phi('gauss', e, mean) for e in row] for row in dm]
    w = solve(G, y)
    df = lambda I, **k: new(I, 'rbf.core', 'Rbf', points=pts(), values=vals(), **k)
    add('radial basis', 'rbf.core', 'Rbf', None, Field(w=w, p=mean), ranges=RR, models=CM, call=lambda I, f, a_, k_: df(I), what='defaults', tol=1e-5)
    # points which differ in one direction only
    sh = [[a, S(('el', 'z'))] for a, _ in x]
    e1 = red('max', [r[0] for r in x]) - red('min', [r[0] for r in x])
    add('radial basis', 'rbf.core', 'estimate_p', lambda: ([Arr((n, d), ('in', 'xz'), 'f8', [e.t for r in sh for e in r])], {'method': 'scipy'}), e1 / float(n),
        ranges=RR, models=CM, splitmask=True, what='scipy, one direction')
    pn, u = sym('pn', ()), y
    for kind in ('gauss', 'multi'):
        G = [[phi(kind, e, pn) + (sym('r', ()) if i == j else 0.0) for j, e in enumerate(row)] for i, row in enumerate(dm)]
        w = solve(G, y)
        G0 = [[phi(kind, e, pn) for e in row] for row in dm]
        res = [a - dot(g, w) for g, a in zip(G0, y)]
        err = dot(res, res) / float(n)
        for neg in (False, True):
            rr = dict(RR, pn=(-1.4, -0.9) if neg else (0.9, 1.4))
            add('radial basis', 'rbf.core', 'Rbf.fit_error', None, exp(absv(err)) if neg else err, ranges=rr, models=CM, tol=1e-5, what='%s p %s 0' % (kind, '<' if neg else '>'),
                call=lambda I, f, a_, k_, kind=kind: I.call(I.getattr(df(I, rbf=kind, p=scal('pn'), r=scal('r')), 'fit_error'), [pts(), vals()], {}, None))
            add('radial basis', 'rbf.hyperopt', 'FitError', None, exp(absv(err)) if neg else err, ranges=rr, models=CM, tol=1e-5, what='%s [p, r] p %s 0' % (kind, '<' if neg else '>'),
                call=lambda I, f, a_, k_, kind=kind: I.call(I.call(f, [pts(), vals()], {'cv': None, 'rbf_kwds': {'rbf': kind}}, None), [[scal('pn'), scal('r')]], {}, None))
            add('radial basis', 'rbf.hyperopt', 'FitError', None, exp(absv(err)) if neg else err, ranges=rr, models=CM, tol=1e-5, what='%s [p] p %s 0' % (kind, '<' if neg else '>'),
                call=lambda I, f, a_, k_, kind=kind: I.call(I.getattr(I.call(f, [pts(), vals()], {'cv': None, 'rbf_kwds': {'rbf': kind, 'r': scal('r')}}, None), 'err_direct'), [[scal('pn')]], {}, None))


def spec_geom(add):
    for n in range(1, 15):
        for full in (True, False):
            if not full and n == 14:
                continue
            d = [sym('d', (6,))[k] if full or k in NEED[n] else None for k in range(6)]
            mk = lambda d=d, n=n: ([n, [scal1('d', k) if x is not None else None for k, x in enumerate(d)]], {})
            add('Bravais lattice', 'pwscf', 'ibrav2cell', mk, bravais(n, sym('d', (6,))), ranges=DR, what='ibrav=%d%s' % (n, '' if full else ' with None'))
    for n in (0, 15):
        add('Bravais lattice', 'pwscf', 'ibrav2cell', lambda n=n: ([n, arr('d', (6,))], {}), RAISES, ranges=DR, what='ibrav=%d' % n)
    # paths in k space
    k = sym('k', (3, 2))
    for N in (1, 2, 3):
        ref = [[k[i][c] + (k[i + 1][c] - k[i][c]) * (j / float(N)) for c in range(2)] for i in range(2) for j in range(N)] + [k[2]]
        add('k path', 'kpath', 'kpath', lambda N=N: ([arr('k', (3, 2))], {'N': N}), ref, what='N=%d' % N)
    k2 = sym('k', (2, 2))
    add('k path', 'kpath', 'kpath', lambda: ([arr('k', (2, 2))], {}), [[k2[0][c] + (k2[1][c] - k2[0][c]) * (j / 10.0) for c in range(2)] for j in range(10)] + [k2[1]], what='default N')
    k = sym('k', (3, 3))
    pn = [norm(k[0])]
    for i in (1, 2):
        pn.append(pn[-1] + norm([a - b for a, b in zip(k[i], k[i - 1])]))
    add('k path', 'kpath', 'get_path_norm', lambda: ([arr('k', (3, 3))], {}), pn)
    for kw in ({}, {'ks_frac': lambda: arr('f', (3, 3))}, {'symbols': lambda: ['A', 'B', 'C']}):
        add('k path', 'kpath', 'SpecialPointsPath', None, Field(path_norm=pn, ks=k), what=' '.join(kw) or 'ks only',
            call=lambda I, f, a_, k_, kw=kw: I.call(f, [], dict({q: v() for q, v in kw.items()}, ks=arr('k', (3, 3))), None))
    # nearest neighbours: the distances to atom i in ascending order, without i and without the skipped species
    sy = ['Na', 'Cl', 'Na', 'O']
    for i in (0, 2):
        for skip, gone in ((None, ()), ('Cl', ('Cl',)), ('Na', ('Na',)), (['O', 'Na'], ('O', 'Na')), ('C', ())):
            for kw in ({'num': 1}, {'num': 2}, {'num': 5}, {'cutoff': 3.0}, {'cutoff': 3.0, 'sort': False}, {'num': 2, 'sort': False}, {'num': 2, 'fullout': True},
                       {'cutoff': 2.0, 'fullout': True}):
                def ref(s, i=i, gone=gone, kw=kw):
                    d = [(s.ev(('el', 'dd', min(i, j), max(i, j))), j) for j in range(4) if j != i and sy[j] not in gone]
                    d = [e for e in sorted(d) if e[0] < kw['cutoff']] if 'cutoff' in kw else sorted(d)[:kw['num']]
                    ix = [j for _, j in d] if kw.get('sort', True) else sorted(j for _, j in d)
                    return ([S(('const', j)) for j in ix], [S(('el', 'dd', min(i, j), max(i, j))) for j in ix]) if kw.get('fullout') else [S(('const', j)) for j in ix]
                mk = lambda i=i, skip=skip, kw=kw: ([Arr((4, 4), ('in', 'dd'), 'f8', [('const', 0.0) if a == b else ('el', 'dd', min(a, b), max(a, b)) for a in range(4) for b in range(4)]),
                                                     list(sy)], dict(kw, idx=i, skip=list(skip) if isinstance(skip, list) else skip))
                add('nearest neighbours', 'crys', 'nearest_neighbors_from_dists', mk, ref, ranges={'dd': (1.0, 4.0)}, splitmask=True,
                    what='idx=%d skip=%s %s' % (i, skip, ' '.join('%s=%s' % q for q in sorted(kw.items()))))


def scal1(name, k):
    return Top(('el', name, k), 'float')


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        out.append((rule, mod, name, mk, ref, kw))
    spec_geom(add)
    spec_rbf(add)
    return out
