"""References for (quasi)harmonic thermodynamics, equations of state, thermostat masses."""
import os

from .rand import fold
from ..objint import Arr, Fn, Obj, Top, term
from ..valnum import PI, S, U, arr, exp, log, scal, sinh, sym, tanh, flat
from ..vnspec import ANY, Exact, Field, RAISES, new, withI

H, C0, KB, EV = 6.62607015e-34, 299792458.0, 1.380649e-23, 1.602176634e-19
M0, A0, ANG, HA = 9.1093837015e-31, 5.29177210903e-11, 1e-10, 4.3597447222071e-18
GPA = EV * 1e21          # eV/Ang^3 -> GPa
TOL = 1e-7

STUB = os.path.join(os.path.dirname(__file__), 'stubs.txt')


def stub(I, name):
    m = I.prog.add_stub('stubs', STUB)
    v = I.prog.module_attr(m, name)
    return I.entity(v, name) if v is not None else I.module_var(m, name)


def els(v):
    if isinstance(v, Arr):
        return list(v.data) if v.data is not None else None
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            e = els(x)
            if e is None:
                return None
            r += e
        return r
    return [term(v)]


def ufit(I, args, kws, node):
    der, x, xs, ys = args
    d, e = els(xs), els(ys)
    if d is None or e is None or not isinstance(der, int):
        return Top(('call', 'fit'))
    base = ('f', 'U:fit', ('const', der))
    if isinstance(x, Arr) and x.data is not None and x.shape is not None and len(x.shape) == 1:
        if isinstance(xs, Arr) and xs.shape is not None and len(xs.shape) == 2 and x.shape[0] == xs.shape[1] and x.shape[0] > 1 \
                and xs.shape[0] != x.shape[0]:
            return Top(base + tuple(x.data) + tuple(d) + tuple(e), 'float')
        return Arr(x.shape, ('call', 'fit', term(x)), 'f8', [base + (q,) + tuple(d) + tuple(e) for q in x.data])
    if isinstance(x, Arr) and x.data is not None and x.shape is not None and len(x.shape) == 2 and isinstance(xs, Arr) and xs.shape is not None and \
            len(xs.shape) == 2 and x.shape[1] == xs.shape[1]:
        n = x.shape[1]
        return Arr((x.shape[0],), ('call', 'fit', term(x)), 'f8', [base + tuple(x.data[k * n:k * n + n]) + tuple(d) + tuple(e) for k in range(x.shape[0])])
    if isinstance(x, (Top, int, float)):
        return Top(base + (term(x),) + tuple(d) + tuple(e), 'float')
    return Top(('call', 'fit'))


def umin(I, args, kws, node, name='U:min'):
    xs, ys = args
    d, e = els(xs), els(ys)
    if d is None or e is None:
        return Top(('call', 'min'))
    if isinstance(xs, Arr) and xs.shape is not None and len(xs.shape) == 2:
        return Arr((xs.shape[1],), ('call', 'min'), 'f8', [('f', name, ('const', k)) + tuple(d) + tuple(e) for k in range(xs.shape[1])])
    return Top(('f', name, ('const', 0)) + tuple(d) + tuple(e), 'float')


def uroot(I, args, kws, node):
    return umin(I, args, kws, node, 'U:root')


FITM = {'ufit': ufit, 'umin': umin, 'uroot': uroot}


def fit(der, x, xs, ys):
    x = x if isinstance(x, list) else [x]
    return U('fit', der, *(x + [S(t) for t in flat(xs) + flat(ys)]))


def fmin(xs, ys, k=0, name='min'):
    return U(name, k, *[S(t) for t in flat(xs) + flat(ys)])


def trapz(y, x):
    r = S(0.0)
    for i in range(len(x) - 1):
        r = r + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2.0
    return r


def harm(f, dos, T):
    """Evib [eV], Cv [kb], Fvib [eV], Svib [kb] of every temperature"""
    ev, cv, fv, sv = [], [], [], []
    for t in T:
        a = [x * (H * C0 * 100) / (t * KB) for x in f]
        ev.append(trapz([d * x * (0.5 + 1.0 / (exp(q) - 1.0)) for d, x, q in zip(dos, f, a)], f) * (H * C0 * 100 / EV))
        cv.append(trapz([d * (q / 2.0) * (q / 2.0) / (sinh(q / 2.0) * sinh(q / 2.0)) for d, q in zip(dos, a)], f))
        fv.append(t * (KB / EV) * trapz([d * log(2.0 * sinh(q / 2.0)) for d, q in zip(dos, a)], f))
        sv.append(trapz([d * (q / 2.0 / tanh(q / 2.0) - log(2.0 * sinh(q / 2.0))) for d, q in zip(dos, a)], f))
    return ev, cv, fv, sv


FR = {'T': (150.0, 600.0), 'P': (1.0, 30.0), 'dos': (0.3, 2.0), 'dos2': (0.3, 2.0), 'etot': (-5.0, -1.0), 'ax': (2.0, 4.0),
      'f': lambda key, s: 100.0 + 150.0 * key[-1] + 37.0 * s.seed + (11.0 * key[-2] if len(key) > 2 else 0.0)}


def ha(I, **kw):
    a = dict(freq=arr('f', (4,)), dos=arr('dos', (4,)), verbose=False)
    a.update(kw)
    return new(I, 'thermo', 'HarmonicThermo', **a)


def gibbs(I, nax=1, n=3, case=None):
    g = dict(T=arr('T', (2,)), P=arr('P', (2,)), etot=arr('etot', (n,)),
             phdos=[pharr(k) for k in range(n)], axes_flat=arr('ax', (n, nax)) if nax != 0 else arr('ax', (n,)),
             volfunc_ax=stub(I, 'vol%d' % max(nax, 1)), skipfreq=False)
    if case:
        g['case'] = case
    o = new(I, 'thermo', 'Gibbs', **g)
    ff = stub(I, 'FakeFit')
    for k in ('1d-G', '2d-G', '1d-ax', 'alpha', 'C'):
        I.call(I.getattr(o, 'set_fitfunc'), [k, ff], {}, None)
    return o


def pharr(k, n=3):
    return Arr((n, 2), ('src', 'in', 'ph%d' % k), 'f8', [t for i in range(n) for t in (('el', 'f', k, i), ('el', 'dos', k, i))])


def gref(nax=1, n=3, case=None):
    """reference of Gibbs results on small grids"""
    T, P, E = sym('T', (2,)), sym('P', (2,)), sym('etot', (n,))
    ax = sym('ax', (n, max(nax, 1))) if nax else [[x] for x in sym('ax', (n,))]
    V = [{1: lambda x: x[0] ** 3.0 + 2.0, 2: lambda x: x[0] ** 2.0 * x[1], 3: lambda x: x[0] * x[1] * x[2]}[max(nax, 1)](x) for x in ax]
    vf = {2: lambda x: x[0] ** 2.0 * x[1]}.get(nax)
    fs = [[S(('el', 'f', k, i)) for i in range(3)] for k in range(n)]
    ds = [[S(('el', 'dos', k, i)) for i in range(3)] for k in range(n)]
    hs = [harm(f, d, T) for f, d in zip(fs, ds)]
    p = {0: '/ax0', 1: '/ax0', 2: '/ax0-ax1', 3: '/ax0-ax1-ax2'}[nax]
    nax = max(nax, 1)
    case = case or '%dd' % nax
    r = {'/T/T': T, '/P/P': P, p + p: ax, p + '/V': V, p + '/Etot': E}
    F = {p + '/T/F': [[e + x for x in h[2]] for e, h in zip(E, hs)], p + '/T/Fvib': [h[2] for h in hs],
         p + '/T/Svib': [h[3] for h in hs], p + '/T/Cv': [h[1] for h in hs]}
    Ev = {p + '/T/Evib': [h[0] for h in hs]}
    Hm = [[e + v * q / GPA for e, v in zip(E, V)] for q in P]
    Hr = {'/P%s/H' % p: Hm}
    axf = [[x[k] for x in ax] for k in range(nax)]

    def opt(gg, pre, sym_):
        """properties of the minimum for every row of gg"""
        out = {}
        if case == '1d':
            v = [fmin(V, g) for g in gg]
            out[pre + '/V'] = v
            out[pre + '/' + sym_] = [fit(0, x, V, g) for x, g in zip(v, gg)]
            out[pre + '/B'] = [x * fit(2, x, V, g) * GPA for x, g in zip(v, gg)]
            for k in range(nax):
                out['%s/ax%d' % (pre, k)] = [fit(0, x, V, axf[k]) for x in v]
        else:
            sc, mn, mx = [], [], []
            from ..valnum import red
            for g in gg:
                mn.append(red('min', g))
                mx.append(red('max', g))
                sc.append([(x - mn[-1]) / (mx[-1] - mn[-1]) for x in g])
            xo = [[fmin(ax, s, k) for k in range(nax)] for s in sc]
            for k in range(nax):
                out['%s/ax%d' % (pre, k)] = [x[k] for x in xo]
            out[pre + '/' + sym_] = [fit(0, x, ax, s) * (b - a) + a for x, s, a, b in zip(xo, sc, mn, mx)]
            out[pre + '/V'] = [vf(x) for x in xo]
            out[pre + '/B'] = Exact(None)
        for k in range(nax, 3):
            out['%s/ax%d' % (pre, k)] = Exact(None)
        return out
    Hr.update(opt(Hm, '/#opt/P', 'H'))
    G3 = [[[F[p + '/T/F'][i][t] + V[i] * q / GPA for i in range(n)] for q in P] for t in range(2)]
    Gr = {'/T/P%s/G' % p: G3}
    o = opt([g for r_ in G3 for g in r_], '/#opt/T/P', 'G')
    o = {k: v if isinstance(v, Exact) else [v[0:2], v[2:4]] for k, v in o.items()}
    Gr.update(o)
    for nm in ('ax0', 'ax1', 'ax2', 'V'):
        x = o['/#opt/T/P/' + nm]
        if isinstance(x, Exact):
            Gr['/#opt/T/P/alpha_' + nm] = Exact(None)
        else:
            Gr['/#opt/T/P/alpha_' + nm] = [[fit(1, T[t], T, [y[q] for y in x]) / x[t][q] for q in range(2)] for t in range(2)]
    gm = o['/#opt/T/P/G']
    Gr['/#opt/T/P/Cp'] = [[-T[t] * fit(2, T[t], T, [y[q] * EV / KB for y in gm]) for q in range(2)] for t in range(2)]
    return r, F, Ev, Hr, Gr


def dic(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


def vinet(V, e0, b0, b1, v0):
    eta = (V / v0) ** (1.0 / 3)
    x = exp(-1.5 * (b1 - 1.0) * (eta - 1.0))
    e = e0 + 2.0 * b0 * v0 / ((b1 - 1.0) * (b1 - 1.0)) * (2.0 - (5.0 + 3.0 * b1 * (eta - 1.0) - 3.0 * eta) * x)
    d1 = -3.0 * b0 * (1.0 - eta) / (eta * eta) * x
    de = eta / (3.0 * V)
    d2 = 3.0 * b0 * x * de * (1.0 / eta ** 2.0 - 2.0 * (eta - 1.0) / eta ** 3.0 - 1.5 * (b1 - 1.0) * (eta - 1.0) / eta ** 2.0)
    return e, d1, d2


PAR = ('e0', 'b0', 'b1', 'v0')
VR = {'e0': (-9.0, -2.0), 'b0': (0.3, 2.0), 'b1': (3.0, 6.0), 'v0': (18.0, 22.0), 'V': (15.0, 25.0), 'E': (-9.0, -2.0),
      'o0': (-9.0, -2.0), 'o1': (0.3, 2.0), 'o2': (3.0, 6.0), 'o3': (18.0, 22.0), 'pa': (0.3, 1.0), 'pc': (1.0, 2.0)}


def polyfit_model(I, args, kws, node):
    # a*V**2 + b*V + c with the minimum inside of the volumes
    return Arr((3,), ('call', 'polyfit'), 'f8', [('el', 'pa'), ('el', 'pb'), ('el', 'pc')])


def pb(key, s):
    return -2.0 * s.leaf(('el', 'pa')) * 0.5 * (s.leaf(('el', 'V', 0)) + s.leaf(('el', 'V', 3)))


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        kw.setdefault('tol', TOL)
        kw['models'] = dict(FITM, **kw.get('models', {}))
        out.append((rule, mod, name, mk, ref, kw))

    f, dos, T, T2 = sym('f', (4,)), sym('dos', (4,)), sym('T', (2,)), sym('T2', (3,))
    R = dict(FR, T2=(150.0, 600.0))
    e = harm(f, dos, T)
    for k, (long, short) in enumerate((('vibrational_internal_energy', 'evib'), ('isochoric_heat_capacity', 'cv'),
                                       ('vibrational_free_energy', 'fvib'), ('vibrational_entropy', 'svib'))):
        add('harmonic', 'thermo', 'HarmonicThermo', None, e[k], ranges=R, what=long,
            call=lambda I, F, a, kw, long=long: I.call(I.getattr(ha(I, T=arr('T', (2,))), long), [], {}, None))
        add('harmonic', 'thermo', 'HarmonicThermo', None, harm(f, dos, T2)[k], ranges=R, what=short + '(temp)',
            call=lambda I, F, a, kw, short=short: I.call(I.getattr(ha(I, T=arr('T', (2,))), short), [arr('T2', (3,))], {}, None))
        add('harmonic', 'thermo', 'HarmonicThermo', None, e[k], ranges=R, what=short + ' temp=',
            call=lambda I, F, a, kw, short=short: I.call(I.getattr(ha(I, temp=arr('T', (2,)), fixnan=True), short), [], {}, None))
        area = trapz(dos, f)
        add('harmonic', 'thermo', 'HarmonicThermo', None, harm(f, [d * 6.0 / area for d in dos], T)[k], ranges=R, what=short + ' dosarea',
            call=lambda I, F, a, kw, short=short: I.call(I.getattr(ha(I, T=arr('T', (2,)), dosarea=6), short), [], {}, None))
        add('harmonic', 'thermo', 'HarmonicThermo', None, harm(f, dos, T2)[k], ranges=R, what=short + '(temp), no T',
            call=lambda I, F, a, kw, short=short: I.call(I.getattr(ha(I), short), [arr('T2', (3,))], {}, None))
        # non-positive frequencies are left out
        for vb in (False, True):
            add('harmonic', 'thermo', 'HarmonicThermo', None, harm(f[1:], dos[1:], T)[k], what=short + ' skipfreq' + (' verbose' if vb else ''),
                ranges={**R, ('f', 0): (-40.0, -1.0)}, splitmask=True,
                call=lambda I, F, a, kw, short=short, vb=vb: I.call(I.getattr(ha(I, T=arr('T', (2,)), skipfreq=True, verbose=vb), short), [], {}, None))
        add('harmonic', 'thermo', 'HarmonicThermo', None, harm(f[:3], dos[:3], T)[k], what=short + ' skipfreq eps',
            ranges={**R, ('f', 3): (1.0, 7.0)}, splitmask=True,
            call=lambda I, F, a, kw, short=short: I.call(I.getattr(ha(I, T=arr('T', (2,)), skipfreq=True, eps=7.5), short), [], {}, None))
        # the part that is kept is normalized
        area = trapz(dos[1:], f[1:])
        add('harmonic', 'thermo', 'HarmonicThermo', None, harm(f[1:], [d * 6.0 / area for d in dos[1:]], T)[k], what=short + ' skipfreq dosarea',
            ranges={**R, ('f', 0): (-40.0, -1.0)}, splitmask=True,
            call=lambda I, F, a, kw, short=short: I.call(I.getattr(ha(I, T=arr('T', (2,)), skipfreq=True, dosarea=6), short), [], {}, None))
    add('harmonic', 'thermo', 'HarmonicThermo', None, RAISES, what='no temperature',
        call=lambda I, F, a, kw: I.call(I.getattr(ha(I), 'evib'), [], {}, None))
    add('harmonic', 'thermo', 'coth', lambda: ([scal('x')], {}), 1.0 / tanh(sym('x', ())))
    add('harmonic', 'thermo', 'coth', lambda: ([arr('x', (3,))], {}), [1.0 / tanh(x) for x in sym('x', (3,))], what='array')

    xs = sym('x', (2,))
    tt = [1e-8 + (1.0 - 1e-8) * k / 4.0 for k in range(5)]
    deb = lambda x, tt=tt: 3.0 * trapz([S(t ** 3) / (exp(x * t) - 1.0) for t in tt], [S(t) for t in tt])
    add('thermal expansion', 'thermo', 'debye_func', lambda: ([arr('x', (2,))], {'nstep': 5}), [deb(x) for x in xs], tol=1e-6)
    add('thermal expansion', 'thermo', 'debye_func', lambda: ([scal('x')], {'nstep': 5}), [deb(sym('x', ()))], what='scalar', tol=1e-6)
    t2 = [0.1 + 0.9 * k / 3.0 for k in range(4)]
    add('thermal expansion', 'thermo', 'debye_func', lambda: ([arr('x', (2,))], {'nstep': 4, 'zero': 0.1}), [deb(x, t2) for x in xs], what='zero=', tol=1e-6)
    add('thermal expansion', 'thermo', 'einstein_func', lambda: ([arr('x', (2,))], {}), [1.0 / (exp(x) - 1.0) for x in xs])
    tr = {'t': (100.0, 900.0), 'th': (300.0, 1200.0), 'al': (1e-6, 1e-5), 'x0': (2.0, 4.0)}
    ts, th, al, x0 = sym('t', (2,)), sym('th', ()), sym('al', ()), sym('x0', ())

    def exmk(I, **kw):
        m = I.prog.mod('thermo')
        return [arr('t', (2,)), scal('al'), scal('th')], dict(kw, func=I.entity(I.prog.module_attr(m, 'einstein_func'), 'einstein_func'))
    ein = lambda x: 1.0 / (exp(x) - 1.0)
    add('thermal expansion', 'thermo', 'expansion', withI(lambda I: exmk(I, x0=scal('x0'))), [x0 * (1.0 + al * th * ein(th / t)) for t in ts],
        ranges=tr, tol=1e-9)
    add('thermal expansion', 'thermo', 'expansion', withI(lambda I: exmk(I)), [1.0 + al * th * ein(th / t) for t in ts], ranges=tr, what='x0=1', tol=1e-9)
    tt = [1e-8 + (1.0 - 1e-8) * k / 99.0 for k in range(100)]
    add('thermal expansion', 'thermo', 'expansion', lambda: ([arr('t', (2,)), scal('al'), scal('th')], {}),
        [1.0 + al * th * deb(th / t, tt) for t in ts], ranges=tr, what='default', tol=1e-9)

    # quasiharmonic
    for nax, case in ((0, None), (1, None), (2, None), (2, '1d'), (3, '1d')):
        r, F, Ev, Hr, Gr = gref(nax, case=case)
        w = 'nax=%d%s' % (nax, ' case=' + case if case else '')

        def call(meth, nax=nax, case=case, **kk):
            return lambda I, _, a, kw: I.call(I.getattr(gibbs(I, nax, case=case), meth), [], dict(kk), None)
        add('quasiharmonic', 'thermo', 'Gibbs.calc_F', None, dic(r, F), ranges=FR, call=call('calc_F'), what=w)
        add('quasiharmonic', 'thermo', 'Gibbs.calc_F', None, Ev, ranges=FR, call=call('calc_F'), what='Evib ' + w,
            known=('thermo.Gibbs.calc_F Evib: the unit of T*Svib is missing',
                   {k: [[a + t * b for a, b, t in zip(fv, sv, sym('T', (2,)))] for fv, sv in zip(F[k[:-4] + 'Fvib'], F[k[:-4] + 'Svib'])]
                    for k in Ev}))
        add('quasiharmonic', 'thermo', 'Gibbs.calc_F', None, {k: v for k, v in dic(r, F).items() if 'Svib' not in k and 'Cv' not in k},
            ranges=FR, call=call('calc_F', calc_all=False), what='calc_all=False ' + w)
        add('quasiharmonic', 'thermo', 'Gibbs.calc_H', None, dic(r, Hr), ranges=FR, call=call('calc_H'), what=w)
        add('quasiharmonic', 'thermo', 'Gibbs.calc_G', None, dic(r, F, Hr, Gr), ranges=FR, call=call('calc_G'), what=w)

    # equation of state
    V = sym('V', (4,))
    pars = [sym(p, ()) for p in PAR]
    pd = lambda: {p: scal(p) for p in PAR}
    for k, nm in enumerate(('_vinet', '_vinet_deriv1', '_vinet_deriv2')):
        add('equation of state', 'eos', nm, lambda: ([arr('V', (4,)), pd()], {}), [vinet(v, *pars)[k] for v in V], ranges=VR, tol=1e-9)
        add('equation of state', 'eos', 'Vinet', lambda k=k: ([arr('V', (4,)), pd()], {'der': k}), [vinet(v, *pars)[k] for v in V], ranges=VR,
            what='der=%d' % k, tol=1e-9, call=lambda I, f, a, kw: I.call(new(I, 'eos', 'Vinet'), a, kw, None))
    E = sym('E', (4,))
    opt = [sym('o%d' % k, ()) for k in range(4)]
    VS = dict(VR, V=lambda key, s: 15.0 + 3.0 * key[1] + 0.4 * s.seed, pb=pb)

    def leastsq(stash):
        def model(I, args, kws, node):
            I.stash = list(args) + [kws]
            return (Arr((4,), ('call', 'leastsq'), 'f8', [('el', 'o%d' % k) for k in range(4)]), 1)
        return model
    MM = {'numpy.polyfit': polyfit_model, 'scipy.optimize.leastsq': leastsq(None)}

    def eos(I):
        return new(I, 'eos', 'EosFit', volume=arr('V', (4,)), energy=arr('E', (4,)))

    def emeth(name, *a, **kw):
        return lambda I, _, _a, _k: I.call(I.getattr(eos(I), name), list(a), kw, None) if name != '__call__' else \
            I.call(eos(I), list(a), kw, None)
    x = sym('x', ())
    VX = dict(VS, x=(16.0, 24.0))
    for k in range(3):
        add('equation of state', 'eos', 'EosFit.__call__', None, vinet(x, *opt)[k], ranges=VX, models=MM, call=emeth('__call__', scal('x'), der=k),
            what='der=%d' % k, tol=1e-9)
    add('equation of state', 'eos', 'EosFit.pressure', None, -vinet(x, *opt)[1] * GPA, ranges=VX, models=MM, call=emeth('pressure', scal('x')))
    add('equation of state', 'eos', 'EosFit.bulkmod', None, x * vinet(x, *opt)[2] * GPA, ranges=VX, models=MM, call=emeth('bulkmod', scal('x')), tol=1e-9)
    add('equation of state', 'eos', 'EosFit.get_min', None, opt[3], ranges=VX, models=MM, call=emeth('get_min'))

    def resid(I, _, a, k):
        eos(I)
        st = I.stash
        tgt, x0, kw = st[0], st[1], st[-1]
        p = Arr((4,), ('in', 'p'), 'f8', [('el', q) for q in PAR])
        args = kw.get('args', st[2] if len(st) > 3 else ())
        return (x0, I.call(tgt, [p] + list(args), {}, None))
    a, b, c = sym('pa', ()), sym('pb', ()), sym('pc', ())
    vm = -b / (2.0 * a)
    add('equation of state', 'eos', 'EosFit.fit', None, (ANY, lambda s: [u - vinet(v, *pars)[0] for u, v in zip(E, V)]), ranges=VS, models=MM, call=resid, what='residual', tol=1e-9)

    # external fit program
    NM = 'pwtools.num.Spline'
    FS = {'os.path.exists': lambda I, a, k, n: True, 'os.makedirs': lambda I, a, k, n: None}

    def spl(I, args, kws, node):
        return I.call(stub(I, 'FakeFit'), list(args[:2]), {}, node)
    v5, p5 = sym('V', (4,)), sym('p', (4,))

    def ext(I, **at):
        o = new(I, 'eos', 'ExternEOS', app='foo', energy=arr('E', (4,)), volume=arr('V', (4,)), bv_method=at.pop('bv_method', 'ev'))
        for k, (n1, n2) in (('ev', ('V', 'E')), ('pv', ('V', 'p'))):
            o.attrs[k] = Arr((4, 2), ('in', k), 'f8', [t for i in range(4) for t in (('el', n1, i), ('el', n2, i))])
        return o
    for bm, ref in (('ev', [[v, v * fit(2, v, V, E) * GPA] for v in V]), ('pv', [[v, -v * fit(1, v, V, p5)] for v in V])):
        add('equation of state', 'eos', 'ExternEOS.calc_bv', None, ref, ranges=dict(VS, p=(-5.0, 5.0)), what=bm, models=dict(FS, **{NM: spl}),
            call=lambda I, _, a, k, bm=bm: I.call(I.getattr(ext(I, bv_method=bm), 'calc_bv'), [], {}, None))
        v0 = fmin(V, E) if bm == 'ev' else fmin(V, p5, name='root')
        B = [y[1] for y in ref]
        d = {'v0': v0, 'e0': fit(0, v0, V, E), 'p0': fit(0, v0, V, p5), 'b0': fit(0, v0, V, B)}

        def gm(I, _, a, k, bm=bm, **kw):
            o = ext(I, bv_method=bm)
            o.attrs['bv'] = I.call(I.getattr(o, 'calc_bv'), [], {}, None)
            return I.call(I.getattr(o, 'get_min'), [], kw, None)
        add('equation of state', 'eos', 'ExternEOS.get_min', None, d, ranges=dict(VS, p=(-5.0, 5.0)), what=bm, models=dict(FS, **{NM: spl}), call=gm)

    # data without a minimum inside
    for w, ends in (('below', (0, -1.5)), ('above', (3, 1.5))):
        out_ = lambda key, s, ends=ends: -2.0 * s.leaf(('el', 'pa')) * (s.leaf(('el', 'V', ends[0])) + ends[1])
        add('equation of state', 'eos', 'EosFit', None, RAISES, ranges=dict(VS, pb=out_), models=MM, splitmask=True, what='minimum %s all volumes' % w, at='fit', call=lambda I, _, a, k: eos(I))
    # higher derivatives are those of a spline of order 5 through splpoints points of the fit
    for n, od in ((3, (0, 1, 2, 3)), (5, (0, 1, 2, 3)), (4, (2, 0, 3, 1))):
        lo, hi = V[od.index(0)], V[od.index(3)]
        vv = [lo + (hi - lo) * (i / (n - 1.0)) for i in range(n)]
        VO5 = dict(VX, V=lambda key, s, od=od: 15.0 + 3.0 * od[key[1]] + 0.4 * s.seed)

        def spl5(I, args, kws, node):
            I.splargs = dict(kws)
            return spl(I, args, kws, node)

        def high(I, _, a, k, n=n, d=3):
            r = I.call(new(I, 'eos', 'EosFit', volume=arr('V', (4,)), energy=arr('E', (4,)), splpoints=n), [scal('x')], {'der': d}, None)
            return (r, I.splargs.get('k', 3), I.splargs.get('s', 0) or 0)
        for d in (3, 4):
            add('equation of state', 'eos', 'EosFit.__call__', None, (fit(d, x, vv, [vinet(v, *opt)[0] for v in vv]), Exact(5), Exact(0)), ranges=VO5, models=dict(MM, **{NM: spl5}),
                call=lambda I, f, a, k, n=n, d=d: high(I, f, a, k, n, d), what='der=%d, %d points%s' % (d, n, '' if od[0] == 0 else ', volumes in any order'), tol=1e-9)
    # volumes out of order
    for k, w in (((0, 2, 1, 3), 'two exchanged'), ((3, 2, 1, 0), 'descending'), ((0, 1, 1, 3), 'one twice')):
        add('equation of state', 'eos', 'ExternEOS', None, RAISES, ranges=VS, models=dict(FS), splitmask=True, asserts=True, what='volumes: %s' % w,
            call=lambda I, f, a, kw, k=k: I.call(f, [], dict(app='foo', energy=arr('E', (4,)), volume=Arr((4,), ('in', 'V'), 'f8', [('const', 15.0 + 3 * j) for j in k])), None))
    add('equation of state', 'eos', 'ExternEOS', None, RAISES, ranges=VS, models=dict(FS), asserts=True, what='not as many energies as volumes',
        call=lambda I, f, a, kw: I.call(f, [], dict(app='foo', energy=arr('E', (3,)), volume=arr('V', (4,))), None))

    # eos.x: input file in Bohr and Hartree, output per atom in Bohr and Hartree (GPa)
    VO, EN = (15.5, 18.25, 21.0, 24.75), (-3.5, -3.75, -3.875, -3.625)
    A3, EH = (1e-10 / A0) ** 3, EV / HA

    def elk(I, **kw):
        I.infiles, I.cmds = {}, []
        I.numtest = fold
        o = new(I, 'eos', 'ElkEOSFit', energy=Arr((4,), ('in', 'en'), 'f8', [('const', v) for v in EN]), volume=Arr((4,), ('in', 'vo'), 'f8', [('const', v) for v in VO]), verbose=False, **kw)
        return o

    def wr(I, a, k, n):
        I.infiles[a[0]] = a[1]

    def back(I, a, k, n):
        I.cmds.append(a[0])
        return ''

    def load(I, a, k, n):
        nm = {'EVPAI.OUT': 'fe', 'PVPAI.OUT': 'fp'}.get(a[0].split('/')[-1]) if isinstance(a[0], str) else None
        return Top(('call', 'loadtxt')) if nm is None or not a[0].startswith('dd/') else Arr((3, 2), ('in', nm), 'f8', [('el', nm, i, j) for i in range(3) for j in range(2)])
    EM = {'os.path.exists': lambda I, a, k, n: True, 'os.makedirs': lambda I, a, k, n: None, 'pwtools.common.file_write': wr, 'pwtools.common.backtick': back, 'numpy.loadtxt': load, NM: spl}

    def numbers(I):
        if list(I.infiles) != ['dd/eos.in'] or not isinstance(I.infiles['dd/eos.in'], str):
            return None
        w = I.infiles['dd/eos.in'].replace(',', ' ').split()
        return [float(v) for v in w[1:]] if w and w[0] == 'nm' else None
    fe, fp = sym('fe', (3, 2)), sym('fp', (3, 2))
    ER = {'fe': lambda k, s: 1.0 + k[1] + 0.3 * k[2] + 0.1 * s.seed, 'fp': lambda k, s: 2.0 + 1.5 * k[1] - 0.7 * k[2] + 0.1 * s.seed}
    for na, et, npt in ((1, 1, 300), (3, 6, 50)):
        kw = dict(app='/x/eos.x', natoms=na, etype=et, npoints=npt, name='nm', dir='dd')
        want = [na, et, VO[0] * A3, VO[-1] * A3, npt, 4] + [t for a, b in zip(VO, EN) for t in (a * A3, b * EH)]
        add('equation of state', 'eos', 'ElkEOSFit', None, want, what='input file, %d atoms' % na, models=EM, at='_fit', tol=3e-6, ranges=ER,
            call=lambda I, f, a, k, kw=kw: (lambda o: (I.call(I.getattr(o, '_fit'), [], {}, None), numbers(I))[1])(elk(I, **kw)))
        ev = [[r[0] * float(na) / A3, r[1] * float(na) / EH] for r in fe]
        pv = [[r[0] * float(na) / A3, r[1]] for r in fp]
        for bm in ('ev', 'pv'):
            e1, e2 = [r[0] for r in ev], [r[1] for r in ev]
            p1, p2 = [r[0] for r in pv], [r[1] for r in pv]
            bv = [[v, v * fit(2, v, e1, e2) * GPA] for v in e1] if bm == 'ev' else [[v, -v * fit(1, v, p1, p2)] for v in p1]
            add('equation of state', 'eos', 'ElkEOSFit', None, Field(ev=ev, pv=pv, bv=bv), what='results, %d atoms, %s' % (na, bm), models=EM, at='_fit', ranges=ER, tol=1e-6,
                call=lambda I, f, a, k, kw=kw, bm=bm: (lambda o: (I.call(I.getattr(o, 'fit'), [], {}, None), o)[1])(elk(I, bv_method=bm, **kw)))
            sv = (20.0 * na, 22.0 * na)
            add('equation of state', 'eos', 'ElkEOSFit', None, [[fit(0, v, c1, c2) for v in sv] for c1, c2 in ((e1, e2), (p1, p2), (e1 if bm == 'ev' else p1, [r[1] for r in bv]))],
                what='splines, %d atoms, %s' % (na, bm), models=EM, at='fit', ranges=ER, tol=1e-6,
                call=lambda I, f, a, k, kw=kw, bm=bm, sv=sv: (lambda o: (I.call(I.getattr(o, 'fit'), [], {}, None), [[I.call(I.getattr(o, 'spl_' + n), [v], {}, None) for v in sv] for n in ('ev', 'pv', 'bv')])[1])(elk(I, bv_method=bm, **kw)))
    # defaults: one atom, universal EOS, 300 points, the directory is named like the program and made
    want = [1, 1, VO[0] * A3, VO[-1] * A3, 300, 4] + [t for a, b in zip(VO, EN) for t in (a * A3, b * EH)]

    def made(I, f, a, k):
        I.made = []
        o = elk(I, app='/x/dd', name='nm')
        I.call(I.getattr(o, '_fit'), [], {}, None)
        return (numbers(I), list(I.made))
    for there in (False, True):
        def mkd(I, a, k, n, there=there):
            if not (there and k.get('exist_ok')):
                I.made.append(a[0])

        def mkd2(I, a, k, n, there=there):
            if not there:
                I.made.append(a[0])
        add('equation of state', 'eos', 'ElkEOSFit', None, (want, Exact([] if there else ['dd'])), what='defaults, directory %s' % ('there' if there else 'not there'), at='_fit', tol=3e-6, ranges=ER, call=made,
            models=dict(EM, **{'os.makedirs': mkd, 'pwtools.common.makedirs': mkd2, 'os.path.exists': lambda I, a, k, n, there=there: there, 'os.path.isdir': lambda I, a, k, n, there=there: there}))
    add('equation of state', 'eos', 'ElkEOSFit', None, RAISES, what='fewer points than data', models=EM, ranges=ER, asserts=True,
        call=lambda I, f, a, k: elk(I, app='eos.x', npoints=3))

    # thermostat masses
    fr, te, nf, nd = (sym(k, ()) for k in ('fr', 'te', 'nf', 'nd'))
    q = te * (KB / (M0 * A0 ** 2)) / (fr * fr)
    tr = {'fr': (1e12, 9e12), 'te': (100.0, 900.0), 'nf': (3, 30, float), 'nd': (1, 3, float)}
    w = lambda **k: (lambda: ([scal('fr'), scal('te')], dict(k)))
    add('thermostat', 'mttk', 'particle_nhc_masses', w(nf=scal('nf')), [nf * q, q, q, q], ranges=tr)
    add('thermostat', 'mttk', 'particle_nhc_masses', w(nf=scal('nf'), nnos=1), [nf * q], ranges=tr, what='nnos=1')
    add('thermostat', 'mttk', 'particle_nhc_masses', w(nf=scal('nf'), nnos=0), RAISES, ranges=tr, what='nnos=0')
    add('thermostat', 'mttk', 'barostat_nhc_masses', w(), [9.0 * q, q, q, q], ranges=tr)
    add('thermostat', 'mttk', 'barostat_nhc_masses', w(ndim=scal('nd'), nnos=2), [nd * nd * q, q], ranges=tr, what='ndim')
    add('thermostat', 'mttk', 'barostat_mass_w', w(nf=scal('nf')), (nf + 3.0) * q, ranges=tr)
    add('thermostat', 'mttk', 'barostat_mass_w', w(nf=scal('nf'), ndim=scal('nd')), (nf + nd) * q, ranges=tr, what='ndim')
    add('thermostat', 'mttk', 'barostat_mass_wg', w(nf=scal('nf')), (nf + 3.0) * q / 3.0, ranges=tr)
    add('thermostat', 'mttk', 'barostat_mass_wg', w(nf=scal('nf'), ndim=scal('nd')), (nf + nd) * q / nd, ranges=tr, what='ndim')
    return out
