"""References for minima, roots and two-dimensional interpolation of fitted data."""
from ..objint import Arr, Top, term
from ..valnum import S, U, absv, arr, scal, sym
from ..vnspec import Exact, Field, RAISES, new
from .signal import MODELS, nested, pfit, polyref, toarr
from .thermo import fit, stub, FITM

import itertools


def rootval(I, args, kws, node):
    z = Top(('el', 'z'), 'float')
    v = I.call(args[0], [z], {}, node)
    return Top(('f', 'U:root', term(v)) + tuple(term(a) for a in args[1:3]), 'float')


def fminmodel(I, args, kws, node):
    """the function at the point of symbols (z0, z1) and the start"""
    x0 = args[1]
    n = len(x0) if isinstance(x0, (list, tuple)) else x0.shape[0]
    z = Arr((n,), ('in', 'z'), 'f8', [('el', 'z', k) for k in range(n)])
    v = I.call(args[0], [z], {}, node)
    return (v, x0)


def order(I):
    a = I.splargs
    return [a.get('k', 3), a.get('s') or 0]


def grid(add):
    """the forms of data on a grid"""
    nx, ny = 3, 2
    # the axes are in no order of size
    x, y, z = [S(('const', v)) for v in (1.5, -2.0, 0.25)], [S(('const', v)) for v in (4.0, 1.5)], sym('z', (nx, ny))
    X = [[a for b in y] for a in x]
    Y = [[b for b in y] for a in x]
    fl = lambda m: [e for r in m for e in r]
    GR = {'z': (-1.0, 2.0)}
    A1 = lambda d: Arr((len(d),), ('in', 'g'), 'f8', [e.t for e in d])
    A2 = lambda m: Arr((len(m), len(m[0])), ('in', 'g'), 'f8', [e.t for e in fl(m)])
    forms = {'x, y': lambda: dict(x=A1(x), y=A1(y)), 'X, Y': lambda: dict(X=A2(X), Y=A2(Y)), 'xx, yy': lambda: dict(xx=A1(fl(X)), yy=A1(fl(Y))),
             'XY': lambda: dict(XY=A2([[a, b] for a, b in zip(fl(X), fl(Y))]))}
    zs = {'no z': lambda: {}, 'Z': lambda: dict(Z=A2(z)), 'zz': lambda: dict(zz=A1(fl(z)))}
    for wf, mk in forms.items():
        for wz, mz in zs.items():
            want = dict(x=x, y=y, X=X, Y=Y, xx=fl(X), yy=fl(Y), XY=[[a, b] for a, b in zip(fl(X), fl(Y))], nx=nx, ny=ny)
            want.update(dict(Z=z, zz=fl(z)) if mz() else dict(Z=Exact(None), zz=Exact(None)))
            k = dict(ranges=GR, splitmask=True)
            add('fit', 'mpl', 'Data2D', None, Field(**want), what='%s, %s' % (wf, wz), call=lambda I, f, a_, k_, mk=mk, mz=mz: I.call(f, [], dict(mk(), **mz()), None), **k)
            add('fit', 'mpl', 'Data2D.copy', None, Field(**want), what='%s, %s' % (wf, wz),
                call=lambda I, f, a_, k_, mk=mk, mz=mz: I.call(I.getattr(new(I, 'mpl', 'Data2D', **dict(mk(), **mz())), 'copy'), [], {}, None), **k)

    def later(I, f, a_, k_):
        d = new(I, 'mpl', 'Data2D', x=A1(x), y=A1(y))
        I.call(I.getattr(d, 'update'), [], {'Z': A2(z)}, None)
        return d
    add('fit', 'mpl', 'Data2D.update', None, Field(x=x, y=y, X=X, Y=Y, Z=z, zz=fl(z)), what='values later', call=later, ranges=GR)
    add('fit', 'mpl', 'Data2D.update', None, RAISES, what='unknown name', ranges=GR, asserts=True,
        call=lambda I, f, a_, k_: I.call(I.getattr(new(I, 'mpl', 'Data2D', x=A1(x), y=A1(y)), 'update'), [], {'z': A2(z)}, None))
    add('fit', 'mpl', 'Data2D', None, RAISES, what='values only', ranges=GR, call=lambda I, f, a_, k_: I.call(f, [], {'Z': A2(z)}, None))
    # interpolators of data on a grid
    Q = sym('q', (2, 2))
    P = [[a, b] for a, b in zip(fl(X), fl(Y))]
    GQ = dict(GR, q=(0.5, 3.0))
    for kind in ('ct', 'linear', 'nearest'):
        add('fit', 'num', 'Interpol2D', None, (Exact(kind), [fit(0, q, P, fl(z)) for q in Q]), ranges=GQ, models=M2, what='%s, grid' % kind,
            call=lambda I, f, a_, k_, kind=kind: tagged(I, I.call(I.call(f, [], dict(dd=new(I, 'mpl', 'Data2D', x=A1(x), y=A1(y), Z=A2(z)), what=kind), None), [arr('q', (2, 2))], {}, None)))
    add('fit', 'num', 'Interpol2D', None, (Exact('bispl'), [U('bi', a[0], a[1], *(fl(X) + fl(Y) + fl(z))) for a in Q]), ranges=GQ, models=M2,
        what='bispl, grid', splitmask=True,
        call=lambda I, f, a_, k_: tagged(I, I.call(I.call(f, [], dict(dd=new(I, 'mpl', 'Data2D', X=A2(X), Y=A2(Y), Z=A2(z)), what='bispl'), None), [arr('q', (2, 2))], {}, None)))


def inter(kind):
    def model(I, args, kws, node):
        I.kind = kind
        a = dict(zip(('points', 'values'), args))
        return I.call(stub(I, 'FakeFit'), [a['points'], a['values']], {}, node)
    return model


def bisplrep(I, args, kws, node):
    I.kind = 'bispl'
    return ('bispl',) + tuple(args[:3])


def bisplev(I, args, kws, node):
    x, y, b = args[:3]
    if not (isinstance(b, tuple) and len(b) == 4 and b[0] == 'bispl'):
        return Top(('call', 'bisplev'), 'float')
    d = [nested(e) for e in b[1:]]
    return Top(U('bi', S(term(x)), S(term(y)), *[e for l in d for e in l]).t, 'float')


M2 = {'scipy.interpolate.CloughTocher2DInterpolator': inter('ct'), 'scipy.interpolate.LinearNDInterpolator': inter('linear'),
      'scipy.interpolate.NearestNDInterpolator': inter('nearest'), 'scipy.interpolate.bisplrep': bisplrep, 'scipy.interpolate.bisplev': bisplev,
      'scipy.optimize.fmin': fminmodel}


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        kw['models'] = dict(MODELS, **dict(FITM, **kw.get('models', {})))
        out.append((rule, mod, name, mk, ref, kw))
    y5, xx = sym('y', (5,)), sym('x', (5,))
    inc = {'x': lambda key, s: 1.0 + key[-1] + 0.3 * ((key[-1] * 7 + s.seed * 3) % 5) / 5.0, 'y': (0.2, 2.0), 'z': (1.5, 4.0), 'q': (1.5, 4.0)}
    zz = sym('z', ())
    RM = {'scipy.optimize.brentq': rootval, 'scipy.optimize.newton': rootval}
    # deprecated forms: the point and the value of the spline there
    for f, d in (('findmin', 1), ('findroot', 0)):
        x0 = U('root', fit(d, zz, xx, y5), xx[0], xx[-1])
        add('fit', 'num', f, lambda: ([arr('x', (5,)), arr('y', (5,))], {}), [x0, fit(0, x0, xx, y5)], ranges=inc,
            models=dict(RM, **{'_noeps': None}) if False else RM)
    spl = lambda I: new(I, 'num', 'Spline', x=arr('x', (5,)), y=arr('y', (5,)), checkeps=False)
    q2 = sym('q', (2,))
    for d in (0, 1):
        add('fit', 'num', 'Spline.splev', None, [fit(d, q, xx, y5) for q in q2], ranges=inc, what='deprecated splev der=%d' % d,
            call=lambda I, f, a_, k_, d=d: I.call(I.getattr(spl(I), 'splev'), [arr('q', (2,))], {'der': d} if d else {}, None))

    def mono(s):
        v = [s.ev(fit(0, x, xx, y5).t) for x in xx]
        sg = [(b > a) - (b < a) for a, b in zip(v, v[1:])]
        return S(('const', len(set(sg)) == 1))
    add('fit', 'num', 'Spline.is_mono', None, mono, ranges=inc, what='is_mono', call=lambda I, f, a_, k_: I.call(I.getattr(spl(I), 'is_mono'), [], {}, None))
    # spline that misses its points by more than eps
    add('fit', 'num', 'Spline', None, RAISES, ranges=inc, what='accuracy below eps', asserts=True,
        call=lambda I, f, a_, k_: I.call(f, [arr('x', (5,)), arr('y', (5,))], {}, None))
    add('fit', 'num', 'Spline', None, RAISES, ranges=dict(inc, x=lambda key, s: [1.0, 2.0, 4.0, 3.0, 5.0][key[-1]]), what='x not in order', asserts=True,
        call=lambda I, f, a_, k_: I.call(f, [arr('x', (5,)), arr('y', (5,))], {'checkeps': False}, None))
    y0 = lambda w: lambda key, s: 0.1 if w < 0 else 9.0
    for w in (-1, 1):
        add('fit', 'num', 'Spline.invsplev', None, RAISES, ranges=dict(inc, y0=y0(w)), what='value %s all data' % ('below' if w < 0 else 'above'), asserts=True,
            call=lambda I, f, a_, k_: I.call(I.getattr(spl(I), 'invsplev'), [scal('y0')], {}, None))
    # peaks: maxima above a value, and the place of the maximum of the spline of the points around
    for y, ymin, k in (([0, 1, 0.5, 0.25, 2, 0.5, -1], None, {}), ([0, 1, 0.5, 0.25, 2, 0.5, -1], 1.5, {}), ([0, 0.25, 2, 0.25, 0.5, 0.25, 0], 1.0, {}),
                       ([0, 0.5, 1, 2, 1, 0.5, 0], None, {'spread': 1, 'k': 2}), ([-2, -1, -1.5, -3, -4, -2.5, -5], -3.0, {'spread': 1, 'k': 2}),
                       ([3, 2, 1, 0, 1, 2, 3], None, {}), ([0, 0.5, 1, 2, 1, 0.5, 0], 0.75, {'spread': 3}), ([0, 1, 0, 1, 0, 1, 0, 3, 0, 0.5, 1], 0.5, {'spread': 2, 'k': 2})):
        idx = [i for i in range(1, len(y) - 1) if y[i - 1] < y[i] > y[i + 1] and (ymin is None or y[i] > ymin)]
        sp = k.get('spread', 2)
        xs = sym('x', (len(y),))
        ks = dict(k, **({} if ymin is None else {'ymin': ymin}))
        Y = lambda y=y: Arr((len(y),), ('in', 'y'), 'f8', [('const', float(v)) for v in y])
        pos = []
        for i in idx:
            sl = slice(max(i - sp, 0), i + sp + 1)
            pos.append(U('root', fit(1, zz, xs[sl], [S(-float(v)) for v in y[sl]]), xs[sl][0], xs[sl][-1]))
        w = '%s %s' % (y, ks)
        add('fit', 'signal', 'find_peaks', lambda Y=Y, ks=ks: ([Y()], dict(ks)), ([S(i) for i in idx], Exact(None)), what=w, ranges=inc, models=RM)
        add('fit', 'signal', 'find_peaks', lambda Y=Y, ks=ks, n=len(y): ([Y(), arr('x', (n,))], dict(ks)), ([S(i) for i in idx], pos), what=w + ' places', ranges=inc, models=RM)
        if idx:
            # with the order that was asked for, through the points
            add('fit', 'signal', 'find_peaks', None, Exact([k.get('k', 3), 0]), what=w + ' order', ranges=inc, models=RM,
                call=lambda I, f, a_, k_, Y=Y, ks=ks, n=len(y): (I.call(f, [Y(), arr('x', (n,))], dict(ks), None), order(I))[1])
    # minima of surfaces: the function that is minimized, and the start at the smallest value
    P, V = sym('p', (5, 2)), sym('y', (5,))
    z2 = sym('z', (2,))
    PR = {'p': lambda k, s: 0.5 + 0.9 * ((3 * k[-2] + 2 * k[-1] + s.seed) % 5) + 0.13 * k[-2], 'y': (0.3, 1.5), 'q': (0.5, 4.0), 'z': (0.5, 4.0)}
    pw = list(itertools.product(range(3), repeat=2))
    low = lambda s: P[min(range(5), key=lambda k: s.ev(V[k].t))]
    for x0 in (None, 'q'):
        k = lambda x0=x0: {} if x0 is None else {'x0': arr('q', (2,))}
        st = low if x0 is None else sym('q', (2,))
        add('polynomial', 'num', 'PolyFit.get_min', None, (polyref(P, V, [z2], 2, 2, pw, True, False, 0)[0], st), ranges=PR, tol=1e-6, what='start %s' % x0,
            models=M2, call=lambda I, f, a_, k_, k=k: I.call(I.getattr(new(I, 'num', 'PolyFit', points=arr('p', (5, 2)), values=arr('y', (5,)), deg=2), 'get_min'), [], k(), None))
    how = {'points': lambda: dict(points=arr('p', (5, 2)), values=arr('y', (5,))),
           'xx, yy': lambda: dict(xx=col(0), yy=col(1), values=arr('y', (5,)))}
    Q = sym('q', (3, 2))
    for w, mk in how.items():
        for kind in ('ct', 'linear', 'nearest'):
            # the interpolator that was asked for, with all data
            add('fit', 'num', 'Interpol2D', None, (Exact(kind), [fit(0, q, P, V) for q in Q]), ranges=PR, models=M2, what='%s, %s' % (kind, w),
                call=lambda I, f, a_, k_, kind=kind, mk=mk: tagged(I, I.call(I.call(f, [], dict(mk(), what=kind), None), [arr('q', (3, 2))], {}, None)))
        add('fit', 'num', 'Interpol2D', None, (Exact('bispl'), [U('bi', a[0], a[1], *([r[0] for r in P] + [r[1] for r in P] + V)) for a in Q]), ranges=PR, models=M2,
            what='bispl, %s' % w, splitmask=False,
            call=lambda I, f, a_, k_, mk=mk: tagged(I, I.call(I.call(f, [], dict(mk(), what='bispl'), None), [arr('q', (3, 2))], {}, None)))
        poly = polyref(P, V, Q, 2, 2, pw, True, False, 0)
        add('fit', 'num', 'Interpol2D', None, poly, ranges=PR, tol=1e-6, models=M2, what='poly, %s' % w,
            call=lambda I, f, a_, k_, mk=mk: I.call(I.call(f, [], dict(mk(), what='poly', deg=2), None), [arr('q', (3, 2))], {}, None))
        add('fit', 'num', 'Interpol2D', None, poly[:1], ranges=PR, tol=1e-6, models=M2, what='poly, one point, %s' % w,
            call=lambda I, f, a_, k_, mk=mk: I.call(I.call(f, [], dict(mk(), what='poly', deg=2), None), [Arr((2,), ('in', 'q0'), 'f8', [('el', 'q', 0, k) for k in range(2)])], {}, None))
        for x0 in (None, 'q'):
            k = lambda x0=x0: {} if x0 is None else {'x0': arr('q', (2,))}
            st = low if x0 is None else sym('q', (2,))
            add('fit', 'num', 'Interpol2D', None, ([polyref(P, V, [z2], 2, 2, pw, True, False, 0)[0]], st), ranges=PR, tol=1e-6, what='get_min, %s, start %s' % (w, x0), models=M2,
                call=lambda I, f, a_, k_, k=k, mk=mk: I.call(I.getattr(I.call(f, [], dict(mk(), what='poly', deg=2), None), 'get_min'), [], k(), None))
    add('fit', 'num', 'Interpol2D', None, RAISES, ranges=PR, models=M2, what='unknown kind',
        call=lambda I, f, a_, k_: I.call(f, [], dict(how['points'](), what='spline'), None))
    grid(add)
    # columns of powers
    for nd, deg in ((1, 2), (2, 1)):
        txt = ' + '.join('a%d*' % i + '*'.join('x%d^%d' % (k, e) for k, e in enumerate(p)) for i, p in enumerate(itertools.product(range(deg + 1), repeat=nd)))
        add('polynomial', 'num', 'poly_str', lambda nd=nd, deg=deg: ([nd, deg], {}), Exact(txt), what='%d,%d' % (nd, deg))
    # inner points
    pts = sym('p', (4, 1))
    add('layout', 'num', 'inner_points_mask', lambda: ([arr('p', (4, 1))], {}), [S(('const', b)) for b in (False, True, True, False)], what='1d',
        ranges={'p': lambda k, s: 1.0 + k[-2] + 0.1 * s.seed})
    add('layout', 'num', 'inner_points_mask', lambda: ([arr('p', (4, 1))], {}), RAISES, what='1d, not in order', asserts=True, ranges={'p': lambda k, s: [1.0, 3.0, 2.0, 4.0][k[-2]]})
    return out


def col(k):
    return Arr((5,), ('in', 'col', k), 'f8', [('el', 'p', i, k) for i in range(5)])


def tagged(I, v):
    return (I.kind, v)
