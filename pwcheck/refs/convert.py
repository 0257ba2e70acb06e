"""Structures given to ASE and spglib and taken back: cell, fractional coordinates, species."""
import os
from ..objint import AbsRaise, Arr, Top, term
from ..valnum import S, arr, sym
from ..vnspec import Exact, Field, RAISES, new
from .rand import fold, number

STUB = os.path.join(os.path.dirname(__file__), 'stubs_convert.txt')
SYM, NUM = ['Si', 'O', 'Si'], [14, 8, 14]
FC = [[0.0, 0.0, 0.0], [0.25, 0.25, 0.25], [0.5, 0.75, 0.125]]
CE = [[4.0, 0.0, 0.0], [0.0, 5.0, 0.0], [0.0, 0.0, 6.0]]


def stub(I, name):
    m = I.prog.add_stub('stubs_convert', STUB)
    return I.entity(I.prog.module_attr(m, name), name)


def ca(name, rows):
    return Arr((len(rows), len(rows[0])), ('in', name), 'f8', [('const', v) for r in rows for v in r])


def num_arr(v):
    return Arr((len(v),), ('in', 'znucl'), 'i4', [('const', x) for x in v])


def close(I, a, k, n):
    """np.allclose of numbers"""
    v = []
    for x in a[:2]:
        d = x.data if isinstance(x, Arr) else [term(x)]
        d = None if d is None else [number(t) for t in d]
        if d is None or any(y is None for y in d) or isinstance(x, Arr) and None in x.shape:
            return Top(('call', 'allclose', term(a[0]), term(a[1])), 'bool')
        v.append((x.shape if isinstance(x, Arr) else (), d))
    (s1, d1), (s2, d2) = v
    if s1 != s2:
        if s1 and s2 and len(d1) > 1 and len(d2) > 1:
            raise AbsRaise('ValueError', 'operands could not be broadcast together', n)
        d1, d2 = (d1 * len(d2) if len(d1) == 1 else d1), (d2 * len(d1) if len(d2) == 1 else d2)
    rt, at = k.get('rtol', a[2] if len(a) > 2 else 1e-5), k.get('atol', a[3] if len(a) > 3 else 1e-8)
    return all(abs(p - q) <= at + rt * abs(q) for p, q in zip(d1, d2))


def specs():
    out = []
    R = {'cell': lambda k, s: (5.0 if k[1] == k[2] else 0.3) + 0.1 * k[1] + 0.05 * s.seed, 'cf': (0.05, 0.95)}
    cell, cf = sym('cell', (3, 3)), sym('cf', (3, 3))

    def add(mod, name, ref, call, what='', **kw):
        out.append(('structure object', mod, name, None, ref, dict(kw, what=what, ranges=R, call=lambda I, f, a, k: call(I, f))))

    def st(I, **kw):
        return new(I, 'crys', 'Structure', **dict(dict(coords_frac=arr('cf', (3, 3)), cell=arr('cell', (3, 3)), symbols=list(SYM)), **kw))
    m = lambda I, o, name, *a, **k: I.call(I.getattr(o, name), list(a), k, None)
    add('crys', 'Structure.get_spglib', (cell, cf, Exact(NUM)), lambda I, f: m(I, st(I), 'get_spglib'))
    add('symmetry', 'struct2spglib', (cell, cf, Exact(NUM)), lambda I, f: I.call(f, [st(I)], {}, None))
    for w, z in (('list', lambda: [8, 14, 1]), ('array', lambda: num_arr([8, 14, 1]))):
        add('symmetry', 'spglib2struct', Field(cell=cell, coords_frac=cf, symbols=Exact(['O', 'Si', 'H']), natoms=Exact(3)), lambda I, f, z=z: I.call(f, [(arr('cell', (3, 3)), arr('cf', (3, 3)), z())], {}, None), w)
    add('symmetry', 'spglib2struct', Field(cell=cell, coords_frac=cf, symbols=Exact(SYM), natoms=Exact(3)), lambda I, f: I.call(f, [m(I, st(I), 'get_spglib')], {}, None), 'back')
    # space group: the text is "symbol (number)"
    for txt, ref in (('Fm-3m (225)', (225, 'Fm-3m')), ('P1 (1)', (1, 'P1')), ('P6_3/mmc (194)', (194, 'P6_3/mmc'))):
        def spg(I, a, k, n, txt=txt):
            I.spgargs = (a[0], dict(k))
            return txt
        add('symmetry', 'spglib_get_spacegroup', (Exact(ref[0]), Exact(ref[1]), (cell, cf, Exact(NUM)), Exact((('angle_tolerance', 7), ('symprec', 0.125)))),
            lambda I, f: (lambda r: (r[0], r[1], I.spgargs[0], tuple(sorted(I.spgargs[1].items()))))(I.call(f, [st(I)], {'symprec': 0.125, 'angle_tolerance': 7}, None)), txt, models={'spglib.get_spacegroup': spg})
    # primitive cell: None if it is the structure itself
    big = [[4.0, 0.0, 0.0], [0.0, 5.0, 0.0], [0.0, 0.0, 6.5]]
    mov = [FC[0], [0.25, 0.25, 0.3125], FC[2]]
    cases = (('the same', (CE, FC, NUM), True, True), ('fewer atoms', (CE, FC[:2], NUM[:2]), True, False), ('other cell', (big, FC, NUM), True, False),
             ('other coordinates', (CE, mov, NUM), True, False), ('other species', (CE, FC, [14, 1, 14]), True, False), ('other space group', (CE, FC, NUM), False, False))
    for w, (c2, f2, z2), samespg, none in cases:
        def prim(I, a, k, n, c2=c2, f2=f2, z2=z2):
            I.primargs = (a[0], dict(k))
            return (ca('pcell', c2), ca('pcf', f2), num_arr(z2))

        def spg(I, a, k, n, same=samespg):
            I.nspg = getattr(I, 'nspg', 0) + 1
            return 'P1 (1)' if same or I.nspg == 1 else 'Pm (6)'

        def go(I, f, none=none):
            I.numtest, I.nspg = fold, 0
            r = I.call(f, [st(I, coords_frac=ca('fc', FC), cell=ca('ce', CE))], {'symprec': 0.5}, None)
            a, k = I.primargs
            return (r is None, [] if r is None else list(I.getattr(r, 'symbols')), [] if r is None else I.getattr(r, 'coords_frac'), [] if r is None else I.getattr(r, 'cell'), a[0], a[1], tuple(a[2]), tuple(k.items()))
        names = {14: 'Si', 8: 'O', 1: 'H'}
        add('symmetry', 'spglib_get_primitive', (Exact(none), Exact([] if none else [names[z] for z in z2]), [] if none else [[S(v) for v in r] for r in f2], [] if none else [[S(v) for v in r] for r in c2],
                                                 [[S(v) for v in r] for r in CE], [[S(v) for v in r] for r in FC], Exact(tuple(NUM)), Exact((('symprec', 0.5),))), go, w, models={'spglib.get_spacegroup': spg, 'spglib.find_primitive': prim, 'numpy.allclose': close})
    # ASE
    AS = {'ase.Atoms': lambda I, a, k, n: I.call(stub(I, 'FakeAtoms'), list(a), dict(k), n)}
    got = lambda I, o: (I.getattr(o, 'cell'), I.getattr(o, 'spos'), list(I.getattr(o, 'symbols')), tuple(sorted(I.getattr(o, 'kwds').items())))
    for kw, r in (({}, (('pbc', False),)), ({'pbc': True}, (('pbc', True),)), ({'info': 3}, (('info', 3), ('pbc', False)))):
        add('crys', 'Structure.get_ase_atoms', (cell, cf, Exact(SYM), Exact(r)), lambda I, f, kw=kw: got(I, m(I, st(I), 'get_ase_atoms', **kw)), str(kw), models=AS)
        add('crys', 'struct2atoms', (cell, cf, Exact(SYM), Exact(r)), lambda I, f, kw=kw: got(I, I.call(f, [st(I)], dict(kw), None)), str(kw), models=AS)
    add('crys', 'atoms2struct', Field(cell=cell, coords_frac=cf, symbols=Exact(SYM), natoms=Exact(3)),
        lambda I, f: I.call(f, [I.call(stub(I, 'FakeAtoms'), [list(SYM), arr('cf', (3, 3)), arr('cell', (3, 3))], {}, None)], {}, None))
    co = [[sum(cf[i][k] * cell[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    add('crys', 'Structure.get_fake_ase_atoms', (cell, cf, co, Exact(3), [float(x) for x in NUM], Exact(None)),
        lambda I, f: (lambda o: (m(I, o, 'get_cell'), m(I, o, 'get_scaled_positions'), m(I, o, 'get_positions'), m(I, o, 'get_number_of_atoms'), m(I, o, 'get_atomic_numbers'), m(I, o, 'get_magnetic_moments')))(m(I, st(I), 'get_fake_ase_atoms')))
    return out
