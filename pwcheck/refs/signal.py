"""References for signal processing, phonon density of states, and the fit and polynomial helpers."""
import cmath
import itertools
import math

from ..objint import AbsRaise, Arr, Ext, Top, term
from ..valnum import PI, S, U, absv, arr, cos, exp, fn, lt, red, scal, sqrt, sym, where, flat
from ..vnspec import ANY, Exact, Field, RAISES, new, withI
from .models import nested, toarr
from .thermo import FITM, els, fit, fmin, stub, trapz

TOL = 1e-7
real = fn('real')


def csum(xs):
    r = S(0.0)
    for x in xs:
        r = r + x
    return r


def dft(v):
    n = len(v)
    return [csum(x * S(cmath.exp(-2j * math.pi * k * j / n)) for j, x in enumerate(v)) for k in range(n)]


def simpson(y, x):
    """three points per panel; an even number of points: Cartwright 2017, eq. 8 for the last interval"""
    r = S(0.0)
    if len(x) == 2:
        return (x[1] - x[0]) * (y[0] + y[1]) * 0.5
    if len(x) % 2 == 0:
        a, b = x[-2] - x[-3], x[-1] - x[-2]
        r = (b * b * 2.0 + a * b * 3.0) / (6.0 * (a + b)) * y[-1] + (b * b + 3.0 * a * b) / (6.0 * a) * y[-2] - b * b * b / (6.0 * a * (a + b)) * y[-3]
    for i in range(0, len(x) - 2, 2):
        a, b = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        h = a + b
        r = r + h / 6.0 * ((2.0 - b / a) * y[i] + h * h / (a * b) * y[i + 1] + (2.0 - a / b) * y[i + 2])
    return r


def freqs(n, dt):
    return [S(float(k if k < (n + 1) // 2 else k - n)) / (dt * float(n)) for k in range(n)]


def auto(v):
    return [csum(v[j] * v[j + t] for j in range(len(v) - t)) for t in range(len(v))]


# -- models of library routines ---------------------------------------------
def shape_nested(x):
    return (len(x),) + shape_nested(x[0]) if isinstance(x, list) else ()


def fl(x):
    return [e for y in x for e in fl(y)] if isinstance(x, list) else [x]


def fftconvolve(I, args, kws, node):
    a = dict(zip(('in1', 'in2', 'mode', 'axes'), args))
    a.update(kws)
    d, k = a['in1'], a['in2']
    if nested(d) is None or nested(k) is None or a.get('mode') not in ('valid', 'full', 'same') or len(d.shape) != len(k.shape):
        return Arr(None, ('call', 'fftconvolve'))
    return toarr(conv(d.shape, [S(e) for e in d.data], k.shape, [S(e) for e in k.data], a['mode']), 'fftconvolve', d, k)


def conv(ds, d, ks, k, mode):
    nd = len(ds)

    def at(data, sh, ix):
        p = 0
        for i, n in zip(ix, sh):
            if not 0 <= i < n:
                return None
            p = p * n + i
        return data[p]
    full = [n + m - 1 for n, m in zip(ds, ks)]
    if mode == 'full':
        lo, hi = [0] * nd, full
    elif mode == 'same':
        lo = [(f - n) // 2 for f, n in zip(full, ds)]
        hi = [l + n for l, n in zip(lo, ds)]
    else:
        lo, hi = [min(m, n) - 1 for n, m in zip(ds, ks)], [max(m, n) for n, m in zip(ds, ks)]

    def build(pre, k_):
        if k_ == nd:
            r = S(0.0)
            for kk in itertools.product(*[range(m) for m in ks]):
                x = at(d, ds, [a - b for a, b in zip(pre, kk)])
                if x is not None:
                    r = r + x * at(k, ks, kk)
            return r
        return [build(pre + (i,), k_ + 1) for i in range(lo[k_], hi[k_])]
    return build((), 0)


def lfilter(I, args, kws, node):
    a = dict(zip(('b', 'a', 'x', 'axis'), args))
    a.update(kws)
    b, x, ax = a['b'], a['x'], a.get('axis', -1)
    if nested(b) is None or nested(x) is None or a['a'] not in (1, 1.0) or not isinstance(ax, int):
        return Arr(None, ('call', 'lfilter'))
    bb = [S(e) for e in b.data]
    d = I.along(x, ax, lambda l: [csum(bb[k] * S(l[n - k]) for k in range(len(bb)) if n - k >= 0).t for n in range(len(l))])
    return Arr(x.shape, ('call', 'lfilter', term(b), term(x)), 'f8', d)


def firwin(I, args, kws, node):
    a = dict(zip(('numtaps', 'cutoff'), args))
    a.update(kws)
    n = a.get('numtaps')
    nyq = a['nyq'] if a.get('nyq') is not None else I.binop('*', 0.5, a.get('fs', 2.0), None)
    cut = els(I.mkarray(a['cutoff']) if isinstance(a['cutoff'], (list, tuple)) else a['cutoff'])
    if cut is None or not isinstance(n, int):
        return Arr(None, ('call', 'firwin'))
    w = a.get('window', 'hamming')
    pz = a.get('pass_zero', True)
    pz = {'lowpass': True, 'bandstop': True, 'highpass': False, 'bandpass': False}.get(pz, pz)
    wi = a.get('width')
    # without a window argument of its own the width is a kaiser window
    base = ('f', 'U:firwin', ('const', n), ('const', float(bool(pz))), ('const', float(sum(ord(c) for c in repr(w if isinstance(w, str) else w[0])))))
    ny = term(nyq)
    if wi is not None:
        base += (('op', '/', term(wi), ny),)
    return Arr((n,), ('call', 'firwin'), 'f8', [base + (('const', i),) + tuple(('op', '/', c, ny) for c in cut) for i in range(n)])


def taps(n, pz, cut, nyq, w='hamming'):
    return [S(('f', 'U:firwin', ('const', n), ('const', float(pz)), ('const', float(sum(ord(c) for c in repr(w)))), ('const', i)) +
              tuple((c / nyq).t for c in cut)) for i in range(n)]


def freqz(I, args, kws, node):
    b = els(args[0])
    if b is None:
        return (Arr(None, ('call', 'freqz')), Arr(None, ('call', 'freqz')))
    return (Arr((3,), ('call', 'freqz'), 'f8', [('f', 'U:freqw', ('const', k)) for k in range(3)]),
            Arr((3,), ('call', 'freqz'), 'f8', [('f', 'U:freqh', ('const', k)) + tuple(b) for k in range(3)]))


def correlate(I, args, kws, node):
    a, v = nested(args[0]), nested(args[1])
    mode = kws.get('mode', args[2] if len(args) > 2 else 'valid')
    if a is None or v is None or mode not in ('full', 'valid', 'same'):
        return Arr(None, ('call', 'correlate'))
    n, m = len(a), len(v)
    out = [csum(a[k + j] * v[j] for j in range(m) if 0 <= k + j < n) for k in range(-(m - 1), n)]
    if mode == 'same':
        s = (m - 1) // 2
        out = out[s:s + max(n, m)]
    elif mode == 'valid':
        out = out[min(n, m) - 1:max(n, m)]
    return toarr(out, 'correlate', args[0], args[1])


def f_acorr(I, args, kws, node):
    a = dict(zip(('v', 'c', 'method', 'norm'), args))
    a.update(kws)
    v = nested(a['v'])
    if v is None or a.get('method') not in (1, 2) or not isinstance(a.get('norm'), int):
        return Arr(None, ('call', '_flib.acorr'))
    c = auto(v)
    return toarr([x / c[0] for x in c] if a['norm'] else c, '_flib.acorr', a['v'])


def f_vacf(I, args, kws, node):
    a = dict(zip(('v', 'm', 'c', 'method', 'use_m', 'nthreads'), args))
    a.update(kws)
    v, m = nested(a['v']), nested(a['m'])
    if v is None or a.get('method') not in (1, 2) or a.get('use_m') not in (0, 1) or a['use_m'] and m is None:
        return Arr(None, ('call', '_flib.vacf'))
    return toarr(vacf(v, m if a['use_m'] else None), '_flib.vacf', a['v'])


def vacf(v, m=None):
    nt, na = len(v), len(v[0])
    c = [csum(v[j][i][k] * v[j + t][i][k] * (m[i] if m is not None else 1.0) for j in range(nt - t) for i in range(na) for k in range(3))
         for t in range(nt)]
    return [x / c[0] for x in c]


def splrep(I, args, kws, node):
    I.splargs = dict(kws)
    return ('tck', args[0], args[1])


def splev(I, args, kws, node):
    x, tck = args[0], args[1]
    der = kws.get('der', args[2] if len(args) > 2 else 0)
    if not (isinstance(tck, tuple) and len(tck) == 3 and tck[0] == 'tck'):
        return Arr(None, ('call', 'splev'))
    f = stub(I, 'FakeFit')
    return I.call(I.call(f, [tck[1], tck[2]], {}, node), [x], {'der': der}, node)


def root(kind):
    def model(I, args, kws, node):
        """the root of a function: what is returned is the function at a symbol, with the start values"""
        z = Top(('el', 'z'), 'float')
        v = I.call(args[0], [z], {}, node)
        I.start = [term(a) for a in args[1:3]]
        return v
    return model


def lstsq(I, args, kws, node):
    A, b = args[0], args[1]
    a, c = els(A), els(b)
    if a is None or c is None or A.shape is None:
        return (Arr(None, ('call', 'lstsq')),)
    n = A.shape[1]
    return (Arr((n,), ('call', 'lstsq'), 'f8', [('f', 'U:lsq', ('const', k)) + tuple(a) + tuple(c) for k in range(n)]), None, None, None)


def np_polyval(I, args, kws, node):
    p, x = nested(args[0]), args[1]
    if p is None:
        return Arr(None, ('call', 'polyval'))

    def pv(q):
        r = S(0.0)
        for c in p:
            r = r * q + c
        return r
    if isinstance(x, Arr):
        v = nested(x)
        if v is None or len(x.shape) != 1:
            return Arr(None, ('call', 'polyval'))
        return toarr([pv(q) for q in v], 'polyval', args[0], x)
    return Top(pv(S(term(x))).t, 'float')


def np_polyder(I, args, kws, node):
    p = nested(args[0])
    m = kws.get('m', args[1] if len(args) > 1 else 1)
    if p is None or not isinstance(m, int):
        return Arr(None, ('call', 'polyder'))
    for _ in range(m):
        n = len(p) - 1
        p = [c * float(n - k) for k, c in enumerate(p[:-1])]
    return toarr(p, 'polyder', args[0])


MODELS = {
    'scipy.signal.fftconvolve': fftconvolve, 'scipy.signal.convolve': fftconvolve, 'scipy.signal.lfilter': lfilter, 'scipy.signal.firwin': firwin,
    'scipy.signal.freqz': freqz, 'numpy.correlate': correlate, 'pwtools._flib.acorr': f_acorr, '_flib.acorr': f_acorr,
    'pwtools._flib.vacf': f_vacf, '_flib.vacf': f_vacf, 'scipy.interpolate.splrep': splrep, 'scipy.interpolate.splev': splev,
    'scipy.optimize.brentq': root('brentq'), 'scipy.optimize.newton': root('newton'), 'numpy.linalg.lstsq': lstsq,
    'numpy.polyval': np_polyval, 'numpy.polyder': np_polyder, 'pwtools.verbose.verbose': lambda I, a, k, n: None,
}


def welch(n):
    return [1.0 - ((k - 0.5 * (n - 1)) / (0.5 * (n - 1))) ** 2 for k in range(n)]


def pd(v, m, dt, L, win, area):
    """phonon density of states by its definition: power spectrum of the windowed, padded velocities"""
    nt, na = len(v), len(v[0])
    w = welch(nt) if win else [1.0] * nt
    full = []
    ff = [[dft([v[t][i][k] * w[t] if t < nt else S(0.0) for t in range(L)]) for k in range(3)] for i in range(na)]
    for q in range(L):
        full.append(csum(absv(ff[i][k][q]) ** 2.0 * (m[i] if m is not None else 1.0) for i in range(na) for k in range(3)))
    h = L // 2
    fx = freqs(L, dt)
    a = simpson(full[:h], fx[:h])
    return fx[:h], [x * area / a for x in full[:h]], fx, full


def smooth1(x, k, edge, norm):
    """data (n,), kernel (m,)"""
    n, m = len(x), len(k)

    def ext(i):
        if 0 <= i < n:
            return x[i]
        if edge == 'c':
            return x[0] if i < 0 else x[-1]
        j = -i if i < 0 else 2 * (n - 1) - i
        return x[j] if 0 <= j < n else S(0.0)
    s = csum(k) if norm else S(1.0)
    o = (m - 1) // 2 if m % 2 else m // 2 - 1
    return [csum(ext(i + o - q) * (k[q] / s) for q in range(m)) for i in range(n)]


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        kw.setdefault('tol', TOL)
        kw['models'] = dict(MODELS, **dict(FITM, **kw.get('models', {})))
        out.append((rule, mod, name, mk, ref, kw))

    # sampling
    a, b = sym('a', ()), sym('b', ())
    mk = lambda *x, **k: (lambda: (list(x), dict(k)))
    A, B = scal('a'), scal('b')
    for mirr in (False, True):
        w = 2.0 if mirr else 1.0
        add('sampling', 'signal', 'fftsample', mk(A, B, mode='f', mirr=mirr), [0.5 / a, 1.0 / (w * b * (0.5 / a))], what='f mirr=%s' % mirr)
        add('sampling', 'signal', 'fftsample', mk(A, B, mode='t', mirr=mirr), [0.5 / a, 1.0 / (w * b * a)], what='t mirr=%s' % mirr)
    add('sampling', 'signal', 'fftsample', mk(A, B, mode='x'), RAISES, what='mode=x')
    # Fourier transform
    for n in (3, 4):
        x = sym('x', (n,))
        for m in ('loop', 'matmul'):
            add('Fourier transform', 'signal', 'dft', lambda n=n, m=m: ([arr('x', (n,))], {'method': m}), dft(x), what='%s %d' % (m, n))
        dt = sym('dt', ())
        add('Fourier transform', 'signal', 'ezfft', lambda n=n: ([arr('x', (n,))], {'dt': scal('dt')}), (freqs(n, dt)[:n // 2], dft(x)[:n // 2]), what=str(n))
        add('Fourier transform', 'signal', 'ezfft', lambda n=n: ([arr('x', (n,))], {}), (freqs(n, S(1.0))[:n // 2], dft(x)[:n // 2]), what='dt=1 %d' % n)
    add('Fourier transform', 'signal', 'dft', mk(arr('x', (3,)), method='foo'), RAISES, what='method=foo')
    for sh in ((3,), (2, 3), (2, 3, 2)):
        y = sym('x', sh)
        for ax in range(-len(sh), len(sh)):
            add('Fourier transform', 'signal', 'fft_1d_loop', lambda sh=sh, ax=ax: ([arr('x', sh)], {'axis': ax}), alongn(y, ax % len(sh), dft),
                what='%s axis=%d' % (sh, ax))
    add('Fourier transform', 'signal', 'fft_1d_loop', lambda: ([arr('x', (2, 3))], {}), alongn(sym('x', (2, 3)), 1, dft), what='default axis')
    # padding, mirror
    z = S(0.0)
    for sh in ((3,), (3, 2), (2, 3, 2)):
        y = sym('x', sh)
        for ax in range(len(sh)):
            n = sh[ax]
            for wh in ('end', 'start'):
                pad = lambda l, k, wh=wh: l + zeros_like(l[0], k) if wh == 'end' else zeros_like(l[0], k) + l
                for kw, k in (({}, n), ({'nadd': 2}, 2), ({'upto': 5}, 5 - n), ({'tonext': True}, (4 if n > 2 else 2) - n), ({'nadd': 0}, 0),
                              ({'tonext': True, 'tonext_min': 5}, 8 - n), ({'tonext': True, 'tonext_min': 8}, 8 - n), ({'upto': n, 'tonext': False}, 0)):
                    add('padding', 'signal', 'pad_zeros', lambda sh=sh, ax=ax, wh=wh, kw=kw: ([arr('x', sh)], dict(kw, axis=ax, where=wh)),
                        onaxis(y, ax, lambda l, k=k, pad=pad: pad(l, k)), what='%s axis=%d %s %s' % (sh, ax, wh, kw))
            add('mirror', 'signal', 'mirror', lambda sh=sh, ax=ax: ([arr('x', sh)], {'axis': ax}), onaxis(y, ax, lambda l: l[::-1] + l[1:]),
                what='%s axis=%d' % (sh, ax))
    add('padding', 'signal', 'pad_zeros', lambda: ([arr('x', (3,))], {'nadd': 1, 'upto': 5}), RAISES, what='nadd and upto')
    add('padding', 'signal', 'pad_zeros', lambda: ([arr('x', (3,))], {'nadd': 1, 'where': 'foo'}), RAISES, what='where=foo')
    # windows
    for n in (2, 3, 4, 5):
        add('window', 'signal', 'welch', mk(n), [S(v) for v in welch(n)], what='%d' % n)
        add('window', 'signal', 'welch', mk(n, sym=0), [S(v) for v in (welch(n) if n % 2 else welch(n + 1)[:-1])], what='%d sym=0' % n)
        sd = sym('sd', ())

        def lor(m):
            v = [sd / ((k - (m - 1) / 2.0) ** 2 + sd * sd) for k in range(m)]
            mx = red('max', v)
            return [q / mx for q in v]
        for f in ('lorentz', 'cauchy'):
            add('window', 'signal', f, mk(n, std=scal('sd')), lor(n), what='%d' % n, ranges={'sd': (0.5, 3.0)})
        add('window', 'signal', 'lorentz', mk(n, std=scal('sd'), sym=False), lor(n) if n % 2 else lor(n + 1)[:-1], what='%d sym=False' % n, ranges={'sd': (0.5, 3.0)})
    for f in ('welch', 'lorentz'):
        add('window', 'signal', f, mk(1), [S(1.0)], what='1')
        add('window', 'signal', f, mk(0), [], what='0')
    x3, sd = sym('x', (3,)), sym('sd', ())
    g = [exp(-1.0 * q * q / (2.0 * sd * sd)) for q in x3]
    add('window', 'signal', 'gauss', mk(arr('x', (3,)), std=scal('sd')), g)
    add('window', 'signal', 'gauss', mk(arr('x', (3,)), std=scal('sd'), norm=True), [q / (sd * sqrt(2.0 * PI)) for q in g], what='norm')
    # correlation
    for n in (3, 4):
        x = sym('x', (n,))
        c = auto(x)
        for m in range(1, 8):
            add('correlation', 'signal', 'acorr', lambda n=n, m=m: ([arr('x', (n,))], {'method': m}), [q / c[0] for q in c], what='method=%d n=%d' % (m, n), tol=1e-6)
            add('correlation', 'signal', 'acorr', lambda n=n, m=m: ([arr('x', (n,))], {'method': m, 'norm': False}), c, what='method=%d norm=False n=%d' % (m, n), tol=1e-6)
    add('correlation', 'signal', 'acorr', mk(arr('x', (3,)), method=9), RAISES, what='method=9')
    v, m = sym('v', (4, 2, 3)), sym('m', (2,))
    for f, ms in (('pyvacf', (1, 2, 3)), ('fvacf', (1, 2))):
        for k in ms:
            add('correlation', 'pydos', f, lambda k=k: ([arr('v', (4, 2, 3))], {'method': k}), vacf(v), what='method=%d' % k)
            add('correlation', 'pydos', f, lambda k=k: ([arr('v', (4, 2, 3))], {'method': k, 'm': arr('m', (2,))}), vacf(v, m), what='method=%d m' % k)
    add('correlation', 'pydos', 'fvacf', lambda: ([arr('v', (4, 2, 3))], {'nthreads': 2, 'm': arr('m', (2,))}), vacf(v, m), what='nthreads=2')
    # smoothing
    for n, mm in ((5, 3), (4, 2), (3, 5), (5, 4)):
        x, k = sym('x', (n,)), sym('k', (mm,))
        for edge in ('m', 'c'):
            for norm in (True, False):
                kw = {'edge': edge, 'norm': norm}
                add('smoothing', 'signal', 'smooth', lambda n=n, mm=mm, kw=kw: ([arr('x', (n,)), arr('k', (mm,))], dict(kw)), smooth1(x, k, edge, norm),
                    what='n=%d m=%d %s %s' % (n, mm, edge, norm), tol=1e-6)
        y2 = sym('x', (n, 2))
        kc, kr = [q[0] for q in sym('k', (mm, 1))], sym('k', (1, mm))[0]
        for edge in ('m', 'c'):
            add('smoothing', 'signal', 'smooth', lambda n=n, mm=mm, edge=edge: ([arr('x', (n, 2)), arr('k', (mm, 1))], {'edge': edge}),
                onaxis2(y2, 0, lambda l: smooth1(l, kc, edge, True)), what='2d n=%d m=%d %s axis=0' % (n, mm, edge), tol=1e-6)
            add('smoothing', 'signal', 'smooth', lambda n=n, mm=mm, edge=edge: ([arr('x', (2, n)), arr('k', (1, mm))], {'edge': edge, 'axis': 1}),
                [smooth1(l, kr, edge, True) for l in sym('x', (2, n))], what='2d n=%d m=%d %s axis=1' % (n, mm, edge), tol=1e-6)
    add('smoothing', 'signal', 'smooth', lambda: ([arr('x', (5,)), arr('k', (3,))], {'edge': 'x'}), RAISES, what='edge=x')
    # filters
    x = sym('x', (5,))
    nyq, cu, cw = sym('nyq', ()), sym('cu', ()), sym('cw', ())
    fr = {'nyq': (5.0, 9.0), 'cu': (1.0, 2.0), 'cw': (3.0, 4.0)}

    def flt(b, l):
        return [csum(b[k] * l[n - k] for k in range(len(b)) if n - k >= 0) for n in range(len(l))]
    for mode, pz, n, n2 in (('lowpass', True, 3, 3), ('highpass', False, 3, 3), ('bandpass', False, 3, 3), ('bandstop', True, 3, 3), ('bandstop', True, 4, 5)):
        two = mode.startswith('band')
        cut = [cu, cw] if two else [cu]
        mkf = lambda I, mode=mode, n=n, two=two: new(I, 'signal', 'FIRFilter', cutoff=[scal('cu'), scal('cw')] if two else scal('cu'), nyq=scal('nyq'), ntaps=n, mode=mode)
        tp = taps(n2, pz, cut, nyq)
        add('filter', 'signal', 'FIRFilter', None, Field(taps=tp, h=[S(('f', 'U:freqh', ('const', k)) + tuple(t.t for t in tp)) for k in range(3)],
            w=[S(('f', 'U:freqw', ('const', k))) / PI * nyq for k in range(3)]), ranges=fr, what='%s %d' % (mode, n), call=lambda I, f, a_, k_, mkf=mkf: mkf(I))
        add('filter', 'signal', 'FIRFilter.__call__', None, flt(tp, x), ranges=fr, what='%s %d' % (mode, n),
            call=lambda I, f, a_, k_, mkf=mkf: I.call(mkf(I), [arr('x', (5,))], {}, None))
    add('filter', 'signal', 'FIRFilter.__call__', None, onaxis2(sym('x', (5, 2)), 0, lambda l: flt(taps(3, True, [cu], nyq), l)), ranges=fr, what='axis=0',
        call=lambda I, f, a_, k_: I.call(new(I, 'signal', 'FIRFilter', cutoff=scal('cu'), nyq=scal('nyq'), ntaps=3), [arr('x', (5, 2))], {'axis': 0}, None))
    add('helper', 'signal', 'odd', mk(4), S(5), what='4')
    add('helper', 'signal', 'odd', mk(5), S(5), what='5')
    add('helper', 'signal', 'odd', mk(4, add=-1), S(3), what='4 add=-1')
    mn, mx = red('min', x3), red('max', x3)
    for cp in (True, False):
        add('helper', 'signal', 'scale', mk(arr('x', (3,)), copy=cp), [(q - mn) / (mx - mn) for q in x3], what='copy=%s' % cp)
    # phonon density of states
    dt, ar = sym('dt', ()), sym('ar', ())
    V = lambda n=4: arr('v', (n, 2, 3))
    M = lambda: arr('m', (2,))
    rg = {'dt': (0.5, 2.0), 'ar': (0.5, 3.0), 'v': (-1.0, 1.0)}
    v6, v7 = sym('v', (6, 2, 3)), sym('v', (7, 2, 3))
    for mass in (None, True):
        mm = m if mass else None
        for win in (True, False):
            kw = {'dt': scal('dt'), 'window': win, 'area': scal('ar')}
            w = 'm=%s window=%s' % (bool(mass), win)

            def mkp(n=4, kw=kw, mass=mass, **k):
                return lambda: ([V(n)], dict(kw, **dict(k, **({'m': M()} if mass else {}))))
            f, d, fx, full = pd(v, mm, dt, 7, win, ar)
            f6, d6, fx6, full6 = pd(v6, mm, dt, 6, win, ar)
            add('phonon density of states', 'pydos', 'pdos', mkp(npad=1, method='direct'), (f, d), ranges=rg, what='direct npad=1 ' + w, tol=1e-6)
            add('phonon density of states', 'pydos', 'direct_pdos', mkp(), (f, d), ranges=rg, what=w, tol=1e-6)
            add('phonon density of states', 'pydos', 'pdos', mkp(n=6, method='direct'), (f6, d6), ranges=rg, what='direct no padding ' + w, tol=1e-6)
            add('phonon density of states', 'pydos', 'pdos', mkp(n=6, method='direct', full_out=True), lambda s, r=(f6, d6, fx6, full6): r, ranges=rg,
                what='direct full_out ' + w, tol=1e-6, post=flat_out)
            add('phonon density of states', 'pydos', 'pdos', mkp(method='vacf', mirr=True), (f, d), ranges=rg, what='vacf mirr ' + w, tol=1e-6)
            add('phonon density of states', 'pydos', 'vacf_pdos', mkp(), (f, d), ranges=rg, what=w, tol=1e-6)
            # without mirror: |fft(vacf)|
            wv = [[[q * wi for q in at] for at in st] for st, wi in zip(v6, welch(6) if win else [1.0] * 6)]
            vc = vacf(wv, mm)
            fv = dft(vc)
            av = [absv(q) for q in fv]
            fv6 = freqs(6, dt)
            dv = [q * ar / simpson(av[:3], fv6[:3]) for q in av[:3]]
            add('phonon density of states', 'pydos', 'pdos', mkp(n=6, method='vacf'), (fv6[:3], dv), ranges=rg, what='vacf ' + w, tol=1e-6)
            add('phonon density of states', 'pydos', 'vacf_pdos', mkp(n=6, mirr=False), (fv6[:3], dv), ranges=rg, what='no mirror ' + w, tol=1e-6)
            add('phonon density of states', 'pydos', 'pdos', mkp(n=6, method='vacf', full_out=True), lambda s, r=(fv6[:3], dv, fv6, av, 3, vc): r, ranges=rg,
                what='vacf full_out ' + w, tol=1e-6, post=lambda I, r: flat_out(I, r, 6))
            f8, d8, _, _ = pd(v, mm, dt, 8, win, ar)
            for k_ in ('tonext', 'pad_tonext'):
                add('phonon density of states', 'pydos', 'direct_pdos', mkp(**{k_: True}), (f8, d8), ranges=rg, what='%s %s' % (k_, w), tol=1e-6)
    f1, d1, _, _ = pd(v6, None, 1.0, 6, True, 1.0)
    add('phonon density of states', 'pydos', 'pdos', lambda: ([V(6)], {}), (f1, d1), ranges=rg, what='defaults', tol=1e-6)
    f16, d16, _, _ = pd(v, m, dt, 10, True, ar)
    add('phonon density of states', 'pydos', 'pdos', lambda: ([V()], {'dt': scal('dt'), 'm': M(), 'npad': 2, 'area': scal('ar')}), (f16, d16), ranges=rg, what='npad=2', tol=1e-6)
    add('phonon density of states', 'pydos', 'pdos', lambda: ([V()], {'m': M(), 'npad': 1, 'method': 'vacf'}), RAISES, ranges=rg, what='vacf npad=1')
    add('phonon density of states', 'pydos', 'pdos', lambda: ([V()], {'m': arr('m', (3,))}), RAISES, ranges=rg, what='wrong masses')
    # normalization, derivatives, fits
    y5, xx = sym('y', (5,)), sym('x', (5,))
    inc = {'x': lambda key, s: 1.0 + key[-1] + 0.3 * ((key[-1] * 7 + s.seed * 3) % 5) / 5.0, 'y': (0.2, 2.0), 'ar': (0.5, 3.0), 'z': (1.5, 4.0), 'q': (1.5, 4.0)}
    for sc in (True, False):
        add('integral', 'num', 'norm_int', lambda sc=sc: ([arr('y', (5,)), arr('x', (5,))], {'area': scal('ar'), 'scale': sc}),
            [q * ar / simpson(y5, xx) for q in y5], ranges=inc, what='scale=%s' % sc)
    add('integral', 'num', 'norm_int', lambda: ([arr('y', (5,)), arr('x', (5,))], {'func': Ext('scipy.integrate.trapezoid')}),
        [q / trapz(y5, xx) for q in y5], ranges=inc, what='func=')
    xn = sym('q', (2,))
    for n in (1, 2):
        add('derivative', 'num', 'deriv_spl', lambda n=n: ([arr('y', (5,)), arr('x', (5,))], {'n': n}), [fit(n, q, xx, y5) for q in xx], ranges=inc, what='n=%d' % n)
        add('derivative', 'num', 'deriv_spl', lambda n=n: ([arr('y', (5,)), arr('x', (5,))], {'n': n, 'xnew': arr('q', (2,)), 'fullout': True}),
            (xn, [fit(n, q, xx, y5) for q in xn]), ranges=inc, what='n=%d xnew' % n)
        add('derivative', 'num', 'deriv_spl', lambda n=n: ([arr('y', (5,)), arr('x', (5,))], {'n': n, 'xnew': arr('q', (5,)), 'fullout': True}),
            (sym('q', (5,)), [fit(n, q, xx, y5) for q in sym('q', (5,))]), ranges=inc, what='n=%d as many new points' % n)
    add('derivative', 'num', 'deriv_spl', lambda: ([arr('y', (5,))], {}), [fit(1, S(float(k)), [S(float(j)) for j in range(5)], y5) for k in range(5)], ranges=inc, what='no x')
    spl = lambda I: new(I, 'num', 'Spline', x=arr('x', (5,)), y=arr('y', (5,)), checkeps=False)
    zz = sym('z', ())
    for d in (0, 1, 2):
        add('fit', 'num', 'Spline.__call__', None, [fit(d, q, xx, y5) for q in xn], ranges=inc, what='der=%d' % d,
            call=lambda I, f, a_, k_, d=d: I.call(spl(I), [arr('q', (2,))], {'der': d} if d else {}, None))
        add('fit', 'num', 'Spline.__call__', None, fit(d, zz, xx, y5), ranges=inc, what='scalar der=%d' % d,
            call=lambda I, f, a_, k_, d=d: I.call(spl(I), [scal('z')], {'der': d} if d else {}, None))
    z0 = S(0.0)
    for meth, ref in (('get_min', fit(1, zz, xx, y5)), ('get_max', fit(1, zz, xx, y5)), ('get_root', fit(0, zz, xx, y5))):
        for kw, st in (({}, (xx[0], xx[-1])), ({'x0': Top(('el', 'q', 0), 'float')}, (sym('q', (1,))[0],)),
                       ({'xab': [Top(('el', 'q', 0), 'float'), Top(('el', 'q', 1), 'float')]}, (xn[0], xn[1]))):
            add('fit', 'num', 'Spline.' + meth, None, (absv(ref), list(st)), ranges=inc, what=meth + ' ' + ','.join(kw),
                call=lambda I, f, a_, k_, meth=meth, kw=kw: rootcall(I, spl(I), meth, kw))
    y0 = sym('y0', ())
    add('fit', 'num', 'Spline.invsplev', None, (absv(fit(0, zz, xx, y5) - y0), [xx[0], xx[-1]]), what='invsplev',
        ranges=dict(inc, y0=lambda key, s: 0.5 * (min(s.leaf(('el', 'y', k)) for k in range(5)) + max(s.leaf(('el', 'y', k)) for k in range(5)))),
        call=lambda I, f, a_, k_: rootcall(I, spl(I), 'invsplev', {'y0': scal('y0')}))
    # polynomials
    for nd, deg in ((1, 2), (2, 1), (2, 2), (3, 1)):
        p = sym('p', (3, nd))
        pw = list(itertools.product(range(deg + 1), repeat=nd))
        add('polynomial', 'num', 'poly_powers', mk(nd, deg), [[S(float(q)) for q in r] for r in pw], what='%d,%d' % (nd, deg))
        add('polynomial', 'num', 'vander', lambda nd=nd, deg=deg: ([arr('p', (3, nd)), deg], {}), vdm(p, pw), what='%d,%d' % (nd, deg))
    for nd, deg, ders in ((1, 2, (0, 1, 2)), (1, 3, (0, 1, 2, 3)), (2, 1, (0,)), (2, 2, (0,))):
        np_ = 5
        p, y, q = sym('p', (np_, nd)), sym('y', (np_,)), sym('q', (2, nd))
        pw = list(itertools.product(range(deg + 1), repeat=nd))
        for sc in (True, False):
            for sv in (False, True):
                for d in ders:
                    ref = polyref(p, y, q, nd, deg, pw, sc, sv, d)
                    kw = {'scale': sc, 'scale_vand': sv}
                    w = 'ndim=%d deg=%d scale=%s scale_vand=%s der=%d' % (nd, deg, sc, sv, d)
                    add('polynomial', 'num', 'polyval', None, ref, what=w, ranges=PR, tol=1e-6,
                        call=lambda I, f, a_, k_, nd=nd, deg=deg, kw=kw, d=d: I.call(f, [pfit(I, nd, deg, kw), arr('q', (2, nd))], {'der': d} if d else {}, None))
                    if nd == 1:
                        add('polynomial', 'num', 'PolyFit1D.__call__', None, ref, what=w, ranges=PR, tol=1e-6,
                            call=lambda I, f, a_, k_, nd=nd, deg=deg, kw=kw, d=d: I.call(
                                new(I, 'num', 'PolyFit1D', points=arr1('p', 5, 1), values=arr('y', (5,)), deg=deg, **kw), [arr1('q', 2, 1)], {'der': d}, None))
                        add('polynomial', 'num', 'PolyFit1D.__call__', None, ref[0], what='scalar ' + w, ranges=PR, tol=1e-6,
                            call=lambda I, f, a_, k_, nd=nd, deg=deg, kw=kw, d=d: I.call(
                                new(I, 'num', 'PolyFit1D', points=arr('p', (5, 1)), values=arr('y', (5,)), deg=deg, **kw), [Top(('el', 'q', 0, 0), 'float')], {'der': d}, None))
                    else:
                        add('polynomial', 'num', 'PolyFit.__call__', None, ref, what=w, ranges=PR, tol=1e-6,
                            call=lambda I, f, a_, k_, nd=nd, deg=deg, kw=kw, d=d: I.call(
                                new(I, 'num', 'PolyFit', points=arr('p', (5, nd)), values=arr('y', (5,)), deg=deg, **kw), [arr('q', (2, nd))], {}, None))
                        add('polynomial', 'num', 'PolyFit.__call__', None, ref[0], what='one point ' + w, ranges=PR, tol=1e-6,
                            call=lambda I, f, a_, k_, nd=nd, deg=deg, kw=kw, d=d: I.call(
                                new(I, 'num', 'PolyFit', points=arr('p', (5, nd)), values=arr('y', (5,)), deg=deg, **kw),
                                [Arr((nd,), ('in', 'q0'), 'f8', [('el', 'q', 0, k) for k in range(nd)])], {}, None))
    add('polynomial', 'num', 'polyval', None, RAISES, what='wrong ndim', ranges=PR,
        call=lambda I, f, a_, k_: I.call(f, [pfit(I, 2, 1, {}), arr('q', (2, 3))], {}, None))
    add('polynomial', 'num', 'polyval', None, RAISES, what='derivative in 2d', ranges=PR,
        call=lambda I, f, a_, k_: I.call(f, [pfit(I, 2, 1, {}), arr('q', (2, 2))], {'der': 1}, None))
    # grids of data
    axs = [sym('ax0', (2,)), sym('ax1', (3,))]
    ax = lambda key, s: key[-1] + 0.2 * s.seed
    rows = [[axs[0][i], axs[1][j], S(('el', 'val', i, j))] for i in range(2) for j in range(3)]
    add('layout', 'num', 'DataND', None, Field(an=[[S(('el', 'val', i, j)) for j in range(3)] for i in range(2)]), ranges={'ax0': ax, 'ax1': ax},
        call=lambda I, f, a_, k_: I.call(f, [], {'a2': toarr(rows, 'a2')}, None), models={'numpy.unique': unique})
    # ordering of data streams: three points, nearest / extrapolated neighbours
    for order in (0, 1, 2):
        for rep in (1, 2):
            add('ordering', 'num', 'order_similar', lambda order=order, rep=rep: ([arr('s', (4, 2))], {'order': order, 'repeat': rep}),
                streams(), ranges={'s': stream}, what='order=%d repeat=%d' % (order, rep), models={'numpy.polyfit': polyfit2})
        # crossing streams, which need the extrapolation
        cross = {0: ([1.0, 2.0, 3.0, 4.0, 5.0], [10.0, 9.0, 7.5, 8.0, 9.0], [-3.0, -4.0, -3.0, -2.0, -3.0]),
                 1: ([1.0, 2.0, 3.0, 4.0, 5.0], [5.4, 4.35, 3.3, 2.25, 1.2], [8.0, 8.1, 8.2, 8.3, 8.4]),
                 2: ([1.0, 2.0, 5.0, 10.0, 17.0], [7.0, 7.3, 7.6, 7.9, 8.2], [16.0, 15.0, 14.0, 13.0, 12.0])}[order]
        for sw in (0, 1):
            add('ordering', 'num', 'order_similar', lambda order=order: ([arr('s', (5, 3))], {'order': order}),
                [[sym('s', (5, 3))[i][(j + i * sw) % 3] for j in range(3)] for i in range(5)],
                ranges={'s': lambda key, s, sw=sw, cross=cross: cross[(key[2] - key[1] * sw) % 3][key[1]] * (1 + 0.01 * s.seed)},
                what='crossing, order=%d swapped=%d' % (order, sw), models={'numpy.polyfit': polyfit2})
    return out


def polyfit2(I, args, kws, node):
    """exact parabola through three points"""
    x, y = nested(args[0]), nested(args[1])
    if x is None or y is None or len(x) != 3 or args[2] != 2:
        return Arr(None, ('call', 'polyfit'))
    if len(y) != 3:
        raise AbsRaise('TypeError', 'polyfit: x and y of different length')
    out = [S(0.0)] * 3
    for i in range(3):
        j, k = [q for q in range(3) if q != i]
        d = y[i] / ((x[i] - x[j]) * (x[i] - x[k]))
        out = [out[0] + d, out[1] - d * (x[j] + x[k]), out[2] + d * x[j] * x[k]]
    return toarr(out, 'polyfit', args[0], args[1])


def stream(key, s):
    """two streams far apart that change smoothly; columns swapped at every second point"""
    i, j = key[1], key[2]
    k = (j + i) % 2
    return 10.0 * k + 0.1 * i * (1 + k) + 0.01 * s.seed


def streams():
    x = sym('s', (4, 2))
    return [[x[i][(j + i) % 2] for j in range(2)] for i in range(4)]


def unique(I, args, kws, node):
    """distinct symbols of a column"""
    a = args[0]
    if not isinstance(a, Arr) or a.data is None or len(args) > 1 or kws:
        return Arr(None, ('call', 'unique'))
    d = list(dict.fromkeys(a.data))
    return Arr((len(d),), ('call', 'unique', a.term), a.dtype, d)


def flat_out(I, r, n=4):
    """(a, b, (c, d, n)) or (a, b, c, d, n): both are accepted"""
    if isinstance(r, tuple) and len(r) == 3 and isinstance(r[2], tuple):
        r = r[:2] + r[2]
    return r[:n] if isinstance(r, tuple) else r


def rootcall(I, o, meth, kw):
    v = I.call(I.getattr(o, meth), [], dict(kw), None)
    st = [Top(t, 'float') for t in I.start]
    if isinstance(v, (Top, float, int)):
        v = Top(('f', 'abs', term(v)), 'float')
    return (v, st)


def arr1(name, n, d):
    return Arr((n,), ('src', 'in', name), 'f8', [('el', name, i, 0) for i in range(n)])


def pfit(I, nd, deg, kw):
    m = I.prog.mod('num')
    return I.call(I.entity(I.prog.module_attr(m, 'polyfit'), 'polyfit'), [arr('p', (5, nd)), arr('y', (5,)), deg], dict(kw), None)


PR = {'p': (1.0, 9.0), 'q': (1.0, 9.0), 'y': (0.5, 4.0)}


def vdm(p, pw):
    def one(r, w):
        x = S(1.0)
        for a, n in zip(r, w):
            x = x * a ** float(n)
        return x
    return [[one(r, w) for w in pw] for r in p]


def polyref(p, y, q, nd, deg, pw, scale, sv, der):
    if scale:
        mn = [red('min', [r[k] for r in p]) for k in range(nd)]
        ps = [red('max', [absv(r[k]) for r in p]) - mn[k] for k in range(nd)]
        vm = red('min', y)
        vs = red('max', [absv(x) for x in y]) - vm
    else:
        mn, ps, vm, vs = [S(0.0)] * nd, [S(1.0)] * nd, S(0.0), S(1.0)
    sp = [[(r[k] - mn[k]) / ps[k] for k in range(nd)] for r in p]
    V = vdm(sp, pw)
    if sv:
        n = [sqrt(csum(r[k] * r[k] for r in V)) for k in range(len(pw))]
        V = [[x / c for x, c in zip(r, n)] for r in V]
    rhs = [(x - vm) / vs for x in y]
    co = [S(('f', 'U:lsq', ('const', k)) + tuple(x.t for r in V for x in r) + tuple(x.t for x in rhs)) for k in range(len(pw))]
    if sv:
        co = [c / d for c, d in zip(co, n)]
    sq = [[(r[k] - mn[k]) / ps[k] for k in range(nd)] for r in q]
    if der == 0:
        return [csum(c * x for c, x in zip(co, r)) * vs + vm for r in vdm(sq, pw)]
    res = []
    for r in sq:
        x = S(0.0)
        for k, c in enumerate(co):
            if k >= der:
                f = 1.0
                for j in range(der):
                    f *= k - j
                x = x + c * f * r[0] ** float(k - der)
        res.append(x / ps[0] ** float(der) * vs)
    return res


def alongn(x, ax, f):
    """f on every line along axis ax"""
    if ax == 0:
        if not isinstance(x[0], list):
            return f(x)
        return onaxis2(x, 0, f)
    return [alongn(y, ax - 1, f) for y in x]


def onaxis(x, ax, f):
    """f on the list of sub-arrays at axis ax"""
    if ax == 0:
        return f(x)
    return [onaxis(y, ax - 1, f) for y in x]


def onaxis2(x, ax, f):
    """f on every line of scalars along the first axis"""
    if not isinstance(x[0], list):
        return f(x)
    cols = [onaxis2([r[k] for r in x], 0, f) for k in range(len(x[0]))]
    return [[c[i] for c in cols] for i in range(len(cols[0]))]


def zeros_like(x, n):
    def z(y):
        return [z(q) for q in y] if isinstance(y, list) else S(0.0)
    return [z(x) for _ in range(n)]
