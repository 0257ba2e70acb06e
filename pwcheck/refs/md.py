"""References for quantities of structures and trajectories: layouts, time axes, supercells,
kinetic quantities, helper functions on arrays."""
import functools
import itertools
import math

from ..valnum import PI, S, absv, arr, cos, fn, red, scal, sin, sqrt, sym, where
from ..vnspec import ANY, Exact, Field, RAISES, new, withI
from .geom import CELL, cell2cc, cellval, cross, det3, dot, inv3, mask, matmul, minim, mp, norm, pull, rnd, swap, T, wrap
from .models import angle_tab, dist_parts

AMU, EV, KB, FS, ANG = 1.66053906660e-27, 1.602176634e-19, 1.380649e-23, 1e-15, 1e-10
ORDER = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def full(v):
    m = [[None] * 3 for _ in range(3)]
    for k, (i, j) in enumerate(ORDER):
        m[i][j] = m[j][i] = v[k]
    return m


def flat3(x):
    return [e for y in x for e in (flat3(y) if isinstance(y, list) else [y])]


def vel(x, dt, ends=True):
    """central differences of nested lists along the first axis"""
    def comb(a, b):
        if isinstance(a, list):
            return [comb(p, q) for p, q in zip(a, b)]
        return (a - b) / (2.0 * dt)
    mid = [comb(x[i + 1], x[i - 1]) for i in range(1, len(x) - 1)]
    return [mid[0]] + mid + [mid[-1]] if ends else mid


def traj(n=3, nat=2, **kw):
    def mk(I):
        a = dict(coords_frac=arr('x', (n, nat, 3)), cell=arr('cell', (n, 3, 3)), symbols=['Al', 'N', 'H'][:nat])
        a.update(kw)
        return new(I, 'crys', 'Trajectory', **{k: v for k, v in a.items() if v is not None})
    return mk


def struct(nat=2, **kw):
    def mk(I):
        a = dict(coords_frac=arr('x', (nat, 3)), cell=arr('cell', (3, 3)), symbols=['Al', 'N', 'H'][:nat])
        a.update(kw)
        return new(I, 'crys', 'Structure', **{k: v for k, v in a.items() if v is not None})
    return mk


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        out.append((rule, mod, name, mk, ref, kw))

    R = dict(ranges=CELL)
    t, v = sym('t', (3, 3)), sym('v', (6,))
    t3, v2 = sym('t', (2, 3, 3)), sym('v', (2, 6))
    voigt = lambda m: [m[i][j] for i, j in ORDER]
    add('Voigt order', 'crys', 'tensor2voigt', lambda: ([arr('t', (3, 3))], {}), voigt(t))
    add('Voigt order', 'crys', 'voigt2tensor', lambda: ([arr('v', (6,))], {}), full(v))
    add('Voigt order', 'crys', 'tensor2voigt3d', lambda: ([arr('t', (2, 3, 3))], {}), [voigt(m) for m in t3])
    add('Voigt order', 'crys', 'voigt2tensor3d', lambda: ([arr('v', (2, 6))], {}), [full(x) for x in v2])
    add('Voigt order', 'calculators', 'stress_pwtools2ase', lambda: ([arr('t', (3, 3))], {}), [-(x / 160.21766208) for x in voigt(t)], tol=1e-5)
    # supercells
    for n in ((2, 1, 3), (1, 2, 2)):
        add('supercell', 'crys', 'scell_mask', lambda n=n: (list(n), {}), [[S(float(q)) for q in r] for r in mask(n)], what=str(n))
    add('supercell', 'crys', 'scell_mask', lambda: ([2, 1, 3], {'direc': -1}), [[S(float(q)) for q in r] for r in
        itertools_product([1, 0], [0], [2, 1, 0])], what='direc=-1')
    add('supercell', 'crys', 'scell_mask', lambda: ([-2, 1, 3], {}), [[S(float(q)) for q in r] for r in mask((-2, 1, 3))], what='negative')
    add('supercell', 'crys', 'scell_mask', lambda: ([-2, 1, 3], {'direc': -1}), [[S(float(q)) for q in r] for r in
        itertools_product([-1, 0], [0], [2, 1, 0])], what='direc=-1, negative')
    dims = (2, 1, 3)

    def sc(x, dims, msk):
        return [[(a[k] + m[k]) / float(dims[k]) for k in range(3)] for a in x for m in msk]
    xs, cl = sym('x', (2, 3)), sym('cell', (3, 3))
    for meth in (1, 2):
        add('supercell', 'crys', 'scell', withI(lambda I, meth=meth: ([struct()(I), dims], {'method': meth})),
            Field(coords_frac=sc(xs, dims, mask(dims)), cell=[[e * dims[i] for e in r] for i, r in enumerate(cl)],
                  symbols=Exact(['Al'] * 6 + ['N'] * 6), coords=matmul(sc(xs, dims, mask(dims)), [[e * dims[i] for e in r] for i, r in enumerate(cl)])),
            what='method=%d' % meth, **R)
    add('supercell', 'crys', 'scell', withI(lambda I: ([struct()(I), dims], {'direc': -1})),
        Field(coords_frac=sc(xs, dims, itertools_product([1, 0], [0], [2, 1, 0])), symbols=Exact(['Al'] * 6 + ['N'] * 6)), what='direc=-1', **R)
    x3, c3 = sym('x', (3, 2, 3)), sym('cell', (3, 3, 3))
    for f in ('scell', 'scell3d'):
        add('supercell', 'crys', f, withI(lambda I: ([traj()(I), dims], {})),
            Field(coords_frac=[sc(x, dims, mask(dims)) for x in x3], cell=[[[e * dims[i] for e in r] for i, r in enumerate(m)] for m in c3],
                  symbols=Exact(['Al'] * 6 + ['N'] * 6)), what='trajectory', **R)
    # trajectories
    dt = S(('el', 'dt'))
    y4 = sym('y', (4, 2, 3))
    for ends in (True, False):
        add('kinetic', 'crys', 'velocity_traj', lambda ends=ends: ([arr('y', (4, 2, 3))], {'dt': scal('dt'), 'endpoints': ends}), vel(y4, dt, ends),
            what='endpoints=%s' % ends)
    add('kinetic', 'crys', 'velocity_traj', lambda: ([arr('u', (5,))], {'dt': scal('dt')}), vel(sym('u', (5,)), dt), what='1d')
    co = [matmul(a, b) for a, b in zip(x3, c3)]
    TS = S(('el', 'ts'))
    vv = vel(co, TS)
    mass = [S(('el', 'm_Al')), S(('el', 'm_N'))]
    ek = [red('sum', [0.5 * mass[i] * dot(a, a) for i, a in enumerate(st)]) * ((ANG / FS) ** 2 * AMU / EV) for st in vv]
    tk = [e * (EV / KB * 2.0 / 3.0 / 2) for e in ek]
    add('kinetic', 'crys', None, None,
        Field(coords=co, velocity=vv, ekin=ek, temperature=tk, volume=[absv(det3(m)) for m in c3], cryst_const=[cell2cc(m) for m in c3],
              time=[S(0.0), TS, TS * 2.0], mass=mass, natoms=Exact(2), nstep=Exact(3)),
        call=lambda I, f, a, k: traj(timestep=scal('ts'))(I), what='Trajectory attributes', tol=3e-5, **R)
    stress = sym('stress', (3, 3, 3))
    add('kinetic', 'crys', None, None, Field(pressure=[(m[0][0] + m[1][1] + m[2][2]) / 3.0 for m in stress]),
        call=lambda I, f, a, k: traj(stress=arr('stress', (3, 3, 3)))(I), what='Trajectory pressure', **R)
    add('kinetic', 'crys', None, None, Field(pressure=(t[0][0] + t[1][1] + t[2][2]) / 3.0, coords=matmul(xs, cl), volume=absv(det3(cl)),
        cryst_const=cell2cc(cl)), call=lambda I, f, a, k: struct(stress=arr('t', (3, 3)))(I), what='Structure attributes', **R)
    cc_ = sym('c', (2, 3))
    add('kinetic', 'crys', None, None, Field(coords_frac=matmul(cc_, inv3(cl))),
        call=lambda I, f, a, k: struct(coords_frac=None, coords=arr('c', (2, 3)))(I), what='Structure coords_frac', **R)
    cc3_ = sym('c', (3, 2, 3))
    add('kinetic', 'crys', None, None, Field(coords_frac=[matmul(a, inv3(b)) for a, b in zip(cc3_, c3)]),
        call=lambda I, f, a, k: traj(coords_frac=None, coords=arr('c', (3, 2, 3)))(I), what='Trajectory coords_frac', **R)
    add('kinetic', 'crys', None, None, Field(coords=[matmul(a, cl) for a in x3], cell=[cl] * 3, volume=[absv(det3(cl))] * 3),
        call=lambda I, f, a, k: traj(cell=arr('cell', (3, 3)))(I), what='Trajectory with one cell', **R)
    # deviations
    for ri in (0, -1, 1):
        d2 = [red('sum', [(p - q) * (p - q) for p, q in zip(flat3(s), flat3(co[ri]))]) for s in co]
        add('deviation', 'crys', 'rmsd', withI(lambda I, ri=ri: ([traj()(I)], {'ref_idx': ri})), [sqrt(d / 2.0) for d in d2], what='ref_idx=%d' % ri, **R)
    u = sym('u', (5,))
    add('deviation', 'num', 'rms', lambda: ([arr('u', (5,))], {}), sqrt(dot(u, u) / 5.0))
    add('deviation', 'num', 'rms', lambda: ([arr('u', (5,))], {'nitems': 3}), sqrt(dot(u, u) / 3.0), what='nitems')
    add('deviation', 'num', 'rms', lambda: ([arr('w', (2, 3))], {}), sqrt(red('sum', [e * e for e in flat3(sym('w', (2, 3)))]) / 6.0), what='2d')
    b = sym('b', (2, 3, 4))
    for ax in (0, 1, 2, -1):
        sl = pull(b, ax % 3)
        for ni in ('all', 5.0):
            add('deviation', 'num', 'rms3d', lambda ax=ax, ni=ni: ([arr('b', (2, 3, 4))], {'axis': ax, 'nitems': ni}),
                [sqrt(red('sum', [e * e for e in flat3(s)]) / (float(len(flat3(s))) if ni == 'all' else ni)) for s in sl], what='axis=%d nitems=%s' % (ax, ni))
    # distances (glue around the compiled routines)
    XR = dict(ranges=dict(CELL, x=(-1.4, 1.4)))
    for pbc in (False, True):
        fr, ve, ds = dist_parts(xs, cl, pbc)
        add('distances', 'crys', 'distances', withI(lambda I, pbc=pbc: ([struct()(I)], {'pbc': pbc})), mp(sqrt, ds), what='pbc=%s' % pbc, **XR)
        add('distances', 'crys', 'distances', withI(lambda I, pbc=pbc: ([struct()(I)], {'pbc': pbc, 'squared': True})), ds, what='squared pbc=%s' % pbc, **XR)
        add('distances', 'crys', 'distances', withI(lambda I, pbc=pbc: ([struct()(I)], {'pbc': pbc, 'fullout': True})), (mp(sqrt, ds), ve, fr),
            what='fullout pbc=%s' % pbc, **XR)
        add('distances', 'crys', 'distances_traj', withI(lambda I, pbc=pbc: ([traj()(I)], {'pbc': pbc})),
            [mp(sqrt, dist_parts(a, m, pbc)[2]) for a, m in zip(x3, c3)], what='pbc=%s' % pbc, **XR)
        x33 = sym('x', (3, 3))
        f3, v3, d3 = dist_parts(x33, cl, pbc)
        for deg in (True, False):
            add('distances', 'crys', 'angles', withI(lambda I, pbc=pbc, deg=deg: ([struct(nat=3)(I)], {'pbc': pbc, 'deg': deg, 'mask_val': 999.0})),
                angle_tab(v3, mp(sqrt, d3), S(999.0), deg), what='pbc=%s deg=%s' % (pbc, deg), **XR)
    # operations on structures
    WR = dict(ranges=dict(CELL, x=(-1.9, 1.9)))
    for cp in (True, False):
        add('operation', 'crys', 'pbc_wrap', withI(lambda I, cp=cp: ([struct()(I)], {'copy': cp})),
            Field(coords_frac=mp(wrap, xs), coords=matmul(mp(wrap, xs), cl)), what='copy=%s' % cp, **WR)
        add('operation', 'crys', 'center_on_atom', withI(lambda I, cp=cp: ([struct()(I)], {'copy': cp, 'idx': 1})),
            Field(coords_frac=[[p - q + 0.5 for p, q in zip(r, xs[1])] for r in xs]), what='copy=%s' % cp, **R)
    add('operation', 'crys', 'pbc_wrap', withI(lambda I: ([traj()(I)], {})), Field(coords_frac=mp(wrap, x3)), what='trajectory', **WR)
    add('operation', 'crys', 'pbc_wrap', withI(lambda I: ([struct()(I)], {'mask': [False, True, True]})),
        Field(coords_frac=[[r[0], wrap(r[1]), wrap(r[2])] for r in xs]), what='mask', **WR)
    add('operation', 'crys', 'center_on_atom', withI(lambda I: ([traj()(I)], {'idx': 0})),
        Field(coords_frac=[[[p - q + 0.5 for p, q in zip(r, s[0])] for r in s] for s in x3]), what='trajectory', **R)
    al = sym('al', (3,))
    s2 = lambda I: new(I, 'crys', 'Structure', coords_frac=arr('x2', (2, 3)), cell=arr('cell2', (3, 3)), symbols=['Al', 'N'], forces=arr('f2', (2, 3)))
    lin = lambda a, p, q: [lin(a, i, j) for i, j in zip(p, q)] if isinstance(p, list) else (1.0 - a) * p + a * q
    cl2 = sym('cell2', (3, 3))
    co1, co2 = matmul(xs, cl), matmul(sym('x2', (2, 3)), cl2)
    add('operation', 'crys', 'mix', withI(lambda I: ([struct(forces=arr('f', (2, 3)))(I), s2(I), arr('al', (3,))], {})),
        Field(coords=[lin(a, co1, co2) for a in al], cell=[lin(a, cl, cl2) for a in al], forces=[lin(a, sym('f', (2, 3)), sym('f2', (2, 3))) for a in al],
              symbols=Exact(['Al', 'N'])), ranges=dict(CELL, cell2=cellval))
    add('operation', 'crys', 'mix', withI(lambda I: ([struct()(I), s2(I), arr('al', (3,))], {})),
        Field(coords=[lin(a, co1, co2) for a in al], cell=[lin(a, cl, cl2) for a in al]), what='no forces', ranges=dict(CELL, cell2=cellval))
    mn = lambda l: [mn([x[k] for x in l]) for k in range(len(l[0]))] if isinstance(l[0], list) else red('mean', l)
    add('operation', 'crys', 'mean', withI(lambda I: ([traj(timestep=scal('ts'), etot=arr('e', (3,)))(I)], {})),
        Field(coords_frac=mn(x3), coords=mn(co), cell=mn(c3), etot=red('mean', sym('e', (3,))), ekin=red('mean', ek), symbols=Exact(['Al', 'N'])), tol=3e-5, **R)
    xv, yv = sym('p', (3,)), sym('q', (3,))

    def cart(a, b):
        a, b = [e / norm(a) for e in a], [e / norm(b) for e in b]
        return [a, b, cross(a, b)]
    rot = lambda m, c: matmul(m, T(c))
    add('operation', 'crys', 'align_cart', withI(lambda I: ([struct()(I)], {'x': arr('p', (3,)), 'y': arr('q', (3,)), 'eps': -1})),
        Field(cell=rot(cl, cart(xv, yv)), coords_frac=xs, coords=matmul(xs, rot(cl, cart(xv, yv))), symbols=Exact(['Al', 'N'])), what='x, y', **R)
    vs = sym('vs', (3, 3))
    df = lambda a, b: [p - q for p, q in zip(a, b)]
    add('operation', 'crys', 'align_cart', withI(lambda I: ([struct()(I)], {'vecs': arr('vs', (3, 3)), 'eps': 0})),
        Field(cell=rot(cl, cart(df(vs[1], vs[0]), df(vs[2], vs[0])))), what='vecs', **R)
    cx = matmul(sym('x', (3, 3)), cl)
    add('operation', 'crys', 'align_cart', withI(lambda I: ([struct(nat=3)(I)], {'indices': [2, 0, 1], 'eps': 0})),
        Field(cell=rot(cl, cart(df(cx[0], cx[2]), df(cx[1], cx[2])))), what='indices', **R)
    t33 = sym('x', (2, 3, 3))
    cct = [matmul(a, m) for a, m in zip(t33, c3)]
    add('operation', 'crys', 'align_cart', withI(lambda I: ([traj(n=2, nat=3, cell=arr('cell', (2, 3, 3)))(I)], {'indices': [1, 2, 0, 1], 'eps': 0})),
        Field(cell=[rot(m, cart(df(cct[1][0], cct[1][2]), df(cct[1][1], cct[1][2]))) for m in c3[:2]]), what='indices of a trajectory', **R)
    add('operation', 'crys', 'align_cart', withI(lambda I: ([struct()(I)], {'cart': arr('vs', (3, 3)), 'eps': 0})), Field(cell=rot(cl, vs)), what='cart', **R)
    # arrays
    w = sym('w', (2, 3))
    for ax in (0, 1, 2):
        sh = [2, 3]
        sh.insert(ax, 4)
        r = build(sh, lambda ix, ax=ax: w[[i for k, i in enumerate(ix) if k != ax][0]][[i for k, i in enumerate(ix) if k != ax][1]])
        add('layout', 'num', 'extend_array', lambda ax=ax: ([arr('w', (2, 3)), 4], {'axis': ax}), r, what='axis=%d' % ax)
        add('layout', 'num', 'slicetake', lambda ax=ax: ([arr('b', (2, 3, 4)), slc(0, 2)], {'axis': ax}), sub(b, [(0, 2) if k == ax else None for k in range(3)]), what='axis=%d' % ax)
        add('layout', 'num', 'slicetake', lambda ax=ax: ([arr('b', (2, 3, 4)), 1], {'axis': ax, 'copy': True}), pull(b, ax)[1], what='index axis=%d' % ax)
        add('layout', 'num', 'sliceput', lambda ax=ax: ([arr('b', (2, 3, 4)), scal('s'), slc(0, 1)], {'axis': ax}),
            build((2, 3, 4), lambda ix, ax=ax: S(('el', 's')) if ix[ax] == 0 else b[ix[0]][ix[1]][ix[2]]), what='axis=%d' % ax)
    add('layout', 'num', 'extend_array', lambda: ([arr('w', (2, 3)), 4], {'axis': -1}), build((2, 3, 4), lambda ix: w[ix[0]][ix[1]]), what='axis=-1')
    add('layout', 'num', 'slicetake', lambda: ([arr('b', (2, 3, 4)), [slc(None, 1), slc(None, None), slc(1, 3)]], {}), sub(b, [(0, 1), None, (1, 3)]), what='list')
    add('layout', 'num', 'slicetake', lambda: ([arr('b', (2, 3, 4)), (slc(None, 1), slc(None, None), slc(1, 3))], {}), sub(b, [(0, 1), None, (1, 3)]), what='tuple')
    for kind in (list, tuple):
        add('layout', 'num', 'sliceput', lambda kind=kind: ([arr('b', (2, 3, 4)), scal('s'), kind([slc(None, 1), slc(None, None), slc(1, 3)])], {}),
            build((2, 3, 4), lambda ix: S(('el', 's')) if ix[0] == 0 and 1 <= ix[2] < 3 else b[ix[0]][ix[1]][ix[2]]), what=kind.__name__)
    for axes in (None, 0, 1, 2, -1, (0, 2), (2, 0), (1,), (1, 0), (0, 1, 2), (0, -1), (-1, 0), (-2, -1), (-1, 1)):
        for keep in (False, True):
            if axes is None and keep:
                continue
            ax = [0, 1, 2] if axes is None else [axes % 3] if isinstance(axes, int) else [a % 3 for a in axes]
            if keep:
                ax = [k for k in range(3) if k not in ax]
            add('layout', 'num', 'sum', lambda axes=axes, keep=keep: ([arr('b', (2, 3, 4))], {'axis': axes, 'keepdims': keep}),
                sumax(b, (2, 3, 4), ax), what='axis=%s keepdims=%s' % (axes, keep))
    # other ranks, every axis from both ends
    for sh in ((3,), (2, 3), (1, 3), (2, 2, 3), (2, 1, 2, 3)):
        nm = 'r' + 'x'.join(map(str, sh))
        v = sym(nm, sh)
        at = lambda ix, v=v: functools.reduce(lambda z, k: z[k], ix, v)
        mk = lambda nm=nm, sh=sh: arr(nm, sh)
        nd = len(sh)
        for ax in list(range(nd + 1)) + [-1]:
            pos = ax % (nd + 1)
            add('layout', 'num', 'extend_array', lambda ax=ax, mk=mk: ([mk(), 2], {'axis': ax}),
                build(sh[:pos] + (2,) + sh[pos:], lambda ix, pos=pos, at=at: at(ix[:pos] + ix[pos + 1:])), what='%s axis=%d' % (nm, ax))
        for ax in range(-nd, nd):
            pos, L = ax % nd, sh[ax % nd]
            for tag, sl, rng in (('1:', slc(1, None), list(range(L))[1:]), (':-1', slc(None, -1), list(range(L))[:-1]),
                                 ('::2', slc(None, None, 2), list(range(L))[::2]), ('::-1', slc(None, None, -1), list(range(L))[::-1])):
                if not rng:
                    continue
                add('layout', 'num', 'slicetake', lambda mk=mk, sl=sl, ax=ax: ([mk(), sl], {'axis': ax}),
                    build(sh[:pos] + (len(rng),) + sh[pos + 1:], lambda ix, pos=pos, at=at, rng=rng: at(ix[:pos] + (rng[ix[pos]],) + ix[pos + 1:])),
                    what='%s axis=%d %s' % (nm, ax, tag))
                add('layout', 'num', 'sliceput', lambda mk=mk, sl=sl, ax=ax: ([mk(), scal('s'), sl], {'axis': ax}),
                    build(sh, lambda ix, pos=pos, at=at, rng=rng: S(('el', 's')) if ix[pos] in rng else at(ix)), what='%s axis=%d %s' % (nm, ax, tag))
            if nd > 1:
                for keep in (False, True):
                    axs = [pos] if not keep else [k for k in range(nd) if k != pos]
                    add('layout', 'num', 'sum', lambda mk=mk, ax=ax, keep=keep: ([mk()], {'axis': ax, 'keepdims': keep}), sumax(v, sh, axs),
                        what='%s axis=%d keepdims=%s' % (nm, ax, keep))
    for ax, sh in ((0, (3, 4, 2)), (1, (2, 3, 4)), (2, (2, 4, 3)), (-1, (2, 4, 3)), (-2, (2, 3, 4)), (-3, (3, 4, 2))):
        chunk = [d for k, d in enumerate(sh) if k != ax % 3]
        src = sym('a2', (chunk[0] * sh[ax], chunk[1]))
        add('layout', 'arrayio', 'arr2d_to_3d', lambda ax=ax, sh=sh, chunk=chunk: ([arr('a2', (chunk[0] * sh[ax], chunk[1])), sh], {'axis': ax}),
                build(sh, lambda ix, ax=ax, chunk=chunk, src=src: src[ix[ax % 3] * chunk[0] + [i for k, i in enumerate(ix) if k != ax % 3][0]]
                      [[i for k, i in enumerate(ix) if k != ax % 3][1]]), what='axis=%d' % ax)
    p3, q3 = sym('p', (3,)), sym('q', (3,))
    for n, ep in ((4, True), (4, False), (1, True), (2, True)):
        m = float(n - 1 if ep else n) or 1.0
        add('helper', 'num', 'vlinspace', lambda n=n, ep=ep: ([arr('p', (3,)), arr('q', (3,)), n], {'endpoint': ep}),
            [[a + (c - a) * (k / m) for a, c in zip(p3, q3)] for k in range(n)], what='num=%d endpoint=%s' % (n, ep))
    add('helper', 'num', 'norm', lambda: ([arr('p', (3,))], {}), norm(p3))
    add('helper', 'num', 'normalize', lambda: ([arr('p', (3,))], {}), [a / red('max', p3) for a in p3])
    add('helper', 'num', 'meshgridt', lambda: ([arr('p', (3,)), arr('g', (2,))], {}),
        ([[a] * 2 for a in p3], [list(sym('g', (2,))) for a in p3]))
    add('helper', 'num', 'distsq', lambda: ([arr('xx', (2, 3)), arr('yy', (4, 3))], {}),
        [[dot(df(a, c), df(a, c)) for c in sym('yy', (4, 3))] for a in sym('xx', (2, 3))])
    for dg in (False, True):
        f = (lambda z: z * PI / 180.0) if dg else (lambda z: z)
        ph, th, ps = [f(S(('el', k))) for k in ('ph', 'th', 'ps')]
        D = [[cos(ph), sin(ph), S(0)], [-sin(ph), cos(ph), S(0)], [S(0), S(0), S(1)]]
        C = [[S(1), S(0), S(0)], [S(0), cos(th), sin(th)], [S(0), -sin(th), cos(th)]]
        B = [[cos(ps), sin(ps), S(0)], [-sin(ps), cos(ps), S(0)], [S(0), S(0), S(1)]]
        add('helper', 'num', 'euler_matrix', lambda dg=dg: ([scal('ph'), scal('th'), scal('ps')], {'deg': dg}), matmul(B, matmul(C, D)),
            what='deg=%s' % dg, ranges={'ph': (20, 40), 'th': (50, 80), 'ps': (100, 150)} if dg else {})
    for xx, m, r in ((7, 4, 8), (8, 4, 8), (1, 5, 5), (0, 3, 0), (9, 2, 10)):
        add('helper', 'num', 'round_up_next_multiple', lambda xx=xx, m=m: ([xx, m], {}), Exact(r), what='%d,%d' % (xx, m))
    return out


def itertools_product(*a):
    return [list(x) for x in itertools.product(*a)]


def slc(a, b, c=None):
    from ..objint import Slice
    return Slice(a, b, c)


def build(sh, f, pre=()):
    if len(pre) == len(sh):
        return f(pre)
    return [build(sh, f, pre + (k,)) for k in range(sh[len(pre)])]


def sub(x, rng):
    """part of nested lists; a range or None (all) per axis"""
    if not rng:
        return x
    r = rng[0] or (0, len(x))
    return [sub(y, rng[1:]) for y in x[r[0]:r[1]]]


def sumax(x, sh, axes):
    rest = [k for k in range(len(sh)) if k not in axes]

    def get(ix):
        v = x
        for k in ix:
            v = v[k]
        return v

    def val(pre):
        els = []
        for s in itertools.product(*[range(sh[k]) for k in axes]):
            ix = dict(zip(rest, pre))
            ix.update(zip(axes, s))
            els.append(get([ix[k] for k in range(len(sh))]))
        return red('sum', els) if axes else els[0]
    return build([sh[k] for k in rest], val)
