"""References for time slices, steps and concatenation of trajectories: every element of every
array attribute comes from its own step."""
from ..valnum import S, arr, scal, sym
from ..vnspec import Exact, Field, RAISES, new
from .md import slc
from .thermo import stub

N, NA = 5, 2
SH3 = ('coords', 'coords_frac', 'forces', 'velocity')
SH1 = ('etot', 'ekin', 'temperature', 'pressure', 'volume', 'time')
SHAPE = dict([(n, (NA, 3)) for n in SH3] + [('cell', (3, 3)), ('stress', (3, 3)), ('cryst_const', (6,))] + [(n, ()) for n in SH1])
ONLY = ('velocity', 'ekin', 'temperature', 'time')
SYM = ['Si', 'O']


def obj(I, cls, have, pre='', n=N, **more):
    """an object with the given attributes and no others"""
    o = new(I, 'crys', cls, set_all_auto=False)
    for a in have:
        sh = SHAPE[a] if cls == 'Structure' else (n,) + SHAPE[a]
        o.attrs[a] = arr(pre + a, sh) if sh else scal(pre + a)
    if cls == 'Trajectory':
        o.attrs['nstep'] = n
    o.attrs['symbols'] = list(SYM)
    o.attrs['natoms'] = NA
    o.attrs.update(more)
    return o


def val(name, n=None, pre=''):
    sh = SHAPE[name] if n is None else (n,) + SHAPE[name]
    return sym(pre + name, sh)


def specs():
    out = []
    full = SH3 + SH1 + ('cell', 'stress', 'cryst_const')
    few = ('coords', 'cell', 'etot', 'temperature')
    R = {a: (1.0, 9.0) for a in full}

    def add(name, what, ref, call, **kw):
        out.append(('layout', 'crys', name, None, ref, dict(what=what, call=lambda I, f, a_, k_: call(I), ranges=R, **kw)))

    for have in (full, few):
        w = 'all' if have is full else 'few'
        tr = lambda I, have=have: obj(I, 'Trajectory', have, timestep=scal('timestep'))
        for i in (0, 2, N - 1, -1, -N):
            ref = {a: val(a, N)[i] if a in have else Exact(None) for a in full if a not in ONLY}
            add('Trajectory.__getitem__', '[%d] %s' % (i, w), Field(symbols=Exact(SYM), natoms=S(NA), **ref), lambda I, tr=tr, i=i: I.getitem(tr(I), i, None))
        for a, b, s in ((1, 3, None), (None, None, 2), (None, -1, None), (-2, None, None), (1, None, 3), (None, None, None), (2, 3, 1), (0, 100, 4)):
            sl = slice(a, b, s)
            ref = {x: val(x, N)[sl] if x in have else Exact(None) for x in full}
            dt = sym('timestep', ()) * float(s or 1)
            add('Trajectory.__getitem__', '[%s:%s:%s] %s' % (a, b, s, w), Field(symbols=Exact(SYM), natoms=S(NA), nstep=S(len(range(N)[sl])), timestep=dt, **ref),
                lambda I, tr=tr, a=a, b=b, s=s: I.getitem(tr(I), slc(a, b, s), None))
        # the steps one by one
        one = lambda k: Field(symbols=Exact(SYM), **{x: val(x, N)[k] for x in have if x not in ONLY})
        add('Trajectory.__iter__', w, tuple(one(k) for k in range(N)), lambda I, tr=tr: (lambda r: None if r[1] else tuple(r[0]))(I.iterate(tr(I), None)))

        def nxt(I, tr=tr, m=N):
            t = tr(I)
            return tuple(I.call(I.getattr(t, '__next__'), [], {}, None) for k in range(m))
        add('Trajectory.__next__', w, tuple(one(k) for k in range(N)), nxt)
        add('Trajectory.__next__', '%s, too many' % w, RAISES, lambda I, nxt=nxt: nxt(I, m=N + 1))
        add('Trajectory.__next__', '%s, again' % w, tuple([one(k) for k in range(N)] + [Exact(None)]) * 2, lambda I, tr=tr: I.call(stub(I, 'steps_again'), [tr(I), N], {}, None))
        # compression of a copy leaves the original alone
        def comp(I, tr=tr, **kw):
            t = tr(I)
            r = I.call(I.entity(I.prog.module_attr(I.prog.mod('crys'), 'compress'), 'compress'), [t], kw, None)
            return (r, t)
        for fg in (None, ['etot'], ['coords', 'velocity']):
            ff = ['forces', 'stress', 'coords', 'cryst_const'] if fg is None else fg
            ref = (Field(**{x: val(x, N) if x in have and x not in ff else Exact(None) for x in full}), Field(**{x: val(x, N) if x in have else Exact(None) for x in full}))
            add('compress', '%s, forget %s' % (w, fg), ref, lambda I, comp=comp, fg=fg: comp(I, **({} if fg is None else {'forget': fg})))
        # an attribute with other steps than the positions is not taken from wrong steps
    def odd(I):
        t = obj(I, 'Trajectory', few, timestep=scal('timestep'))
        t.attrs['etot'], t.attrs['stress'] = arr('etot', (N + 1,)), arr('stress', (N - 1, 3, 3))
        return t
    for w, i in (('[1]', 1), ('[1:3]', (1, 3))):
        sl = slice(*i) if isinstance(i, tuple) else i
        ref = {x: val(x, N)[sl] for x in ('coords', 'cell')}
        add('Trajectory.__getitem__', '%s attributes of other length' % w, Field(etot=Exact(None), stress=Exact(None), **ref),
            lambda I, i=i: I.getitem(odd(I), slc(*i) if isinstance(i, tuple) else i, None))

    def inplace(I):
        t = obj(I, 'Trajectory', few)
        I.call(I.entity(I.prog.module_attr(I.prog.mod('crys'), 'compress'), 'compress'), [t], {'copy': False, 'forget': ['etot']}, None)
        return t
    add('compress', 'in place', Field(etot=Exact(None), coords=val('coords', N), cell=val('cell', N), temperature=val('temperature', N)), inplace)
    # parts after another
    twice = {'same object twice': 1, 'same object around another': 2}
    for w, m in twice.items():
        def rep(I, m=m):
            a, b = [obj(I, 'Trajectory', ('coords', 'etot'), q, 2) for q in 'ab']
            return I.call(I.entity(I.prog.module_attr(I.prog.mod('crys'), 'concatenate'), 'concatenate'), [[a, a] if m == 1 else [a, b, a]], {}, None)
        ps = 'aa' if m == 1 else 'aba'
        add('concatenate', w, Field(nstep=S(2 * len(ps)), **{x: sum([val(x, 2, q) for q in ps], []) for x in ('coords', 'etot')}), rep)
    ent = lambda I, n: I.entity(I.prog.module_attr(I.prog.mod('crys'), n), n)
    A = ('coords', 'cell', 'stress', 'etot', 'cryst_const')
    parts = {'traj + traj': [('Trajectory', 'a', 2, A), ('Trajectory', 'b', 3, A)],
             'three': [('Trajectory', 'a', 2, A), ('Trajectory', 'b', 1, A), ('Trajectory', 'c', 2, A)],
             'some attributes in one only': [('Trajectory', 'a', 2, A + ('forces', 'temperature')), ('Trajectory', 'b', 2, ('coords', 'cell', 'etot', 'temperature', 'velocity'))],
             'one': [('Trajectory', 'a', 3, A)],
             'struct + traj + struct': [('Structure', 'a', 1, A), ('Trajectory', 'b', 2, A), ('Structure', 'c', 1, A)],
             'structs': [('Structure', 'a', 1, A), ('Structure', 'b', 1, A)]}
    for w, ps in parts.items():
        com = [x for x in full if all(x in p[3] for p in ps)]
        ref = {}
        mixed = any(p[0] == 'Structure' for p in ps)
        for x in full:
            if x in com:
                l = []
                for cls, pre, n, have in ps:
                    l += val(x, n, pre) if cls == 'Trajectory' else [val(x, None, pre)]
                ref[x] = l
            elif x == 'time' or not mixed:
                ref[x] = Exact(None)
        add('concatenate', w, Field(symbols=Exact(SYM), nstep=S(sum(p[2] for p in ps)), timestep=Exact(None), **ref),
            lambda I, ps=ps: I.call(ent(I, 'concatenate'), [[obj(I, cls, have, pre, n, **({'timestep': scal('dt' + pre)} if cls == 'Trajectory' else {})) for cls, pre, n, have in ps]], {}, None))
    # a structure n times
    for n in (1, 3):
        add('Structure.get_traj', '%d' % n, Field(symbols=Exact(SYM), nstep=S(n), **{x: [val(x)] * n for x in ('coords', 'cell', 'stress', 'etot', 'forces')}),
            lambda I, n=n: I.call(I.getattr(obj(I, 'Structure', ('coords', 'cell', 'stress', 'etot', 'forces')), 'get_traj'), [n], {}, None))
    return out
