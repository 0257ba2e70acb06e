"""References for text: the numbers in input and structure files are those of the structure, in the order of the format."""
import re

from ..objint import Arr, Top
from ..valnum import S, absv, arr, lt, scal, sym, where
from ..vnspec import Exact, RAISES, new, withI
from .files import FILES, m_open, meth
from .geom import CELL, cc2cell, cell2cc, matmul
from .md import struct, traj

EVHA = 1.602176634e-19 / 4.3597447222071e-18


def m_fix_eps(I, a, k, n):
    eps = a[1] if len(a) > 1 else k.get('eps', 0.0)
    x = a[0]
    if isinstance(eps, float) and eps > 1e-8 and isinstance(x, Arr) and x.data is not None:
        return Arr(x.shape, ('fix_eps', x.term), x.dtype, [where(lt(S(eps), absv(S(e))), S(e), S(0.0)).t for e in x.data])
    return x


KEEP = {'pwtools.common.fix_eps': m_fix_eps}
TXT = dict(FILES, **KEEP)
TXT['time.asctime'] = lambda I, a, k, n: 'TIME'


def words(I, v):
    """text -> (text with # for each unknown number and single blanks, the numbers)"""
    if not isinstance(v, str):
        return v
    nums = []

    def sub(m):
        w = m.group(0)
        t = I.texts.get(w.lstrip('+-'))
        if t is None:
            return w
        nums.append(Top(('neg', t) if w[0] == '-' else t, 'float'))
        return '#'
    txt = re.sub(r'[-+]?7\.?\d{11,12}(?![\d.])', sub, v)
    return ([' '.join(l.split()) for l in txt.strip().split('\n')], Arr((len(nums),), ('seq',) + tuple(n.term for n in nums), 'f8', [n.term for n in nums]))


def flat(x):
    return [e for y in x for e in flat(y)] if isinstance(x, (list, tuple)) else [x]


def ref(txt, nums):
    return (Exact([' '.join(l.split()) for l in txt.strip().split('\n')]), flat(nums))


def written(I, r, name='out'):
    fs = getattr(I, 'fs', {})
    if name in fs:
        return words(I, meth(I, fs[name], 'getvalue'))
    return Top(('io', tuple(sorted(I.foreign)))) if I.foreign else ('the file is not written', [])


def specs():
    out = []

    def add(rule, mod, name, mk, ref, **kw):
        kw.setdefault('post', words)
        out.append((rule, mod, name, mk, ref, dict(dict(texts=True, models=TXT, ranges=CELL, tol=1e-11), **kw)))

    def addw(mod, name, obj, ref, fn='dir/out', **kw):
        def call(I, f, a, k):
            I.fs = {}
            return I.call(f, ['dir/' + 'out', obj(I)], dict(k), None)
        add('structure file', mod, name, None, ref, call=call, post=lambda I, r: written(I, r, fn), **kw)

    R = {'x': (-2.0, 2.0)}
    x3, x23 = sym('x', (3,)), sym('x', (2, 3))
    # common
    for eps in (None, 0.5):
        e = 2.220446049250313e-16 if eps is None else eps
        add('number text', 'common', 'fix_eps', lambda eps=eps: ([arr('x', (3,))], {} if eps is None else {'eps': eps}),
            [where(lt(S(e), absv(v)), v, S(0.0)) for v in x3], what='eps=%s' % eps, models={}, splitmask=True, ranges=R, post=None)
    add('number text', 'common', 'str_arr', lambda: ([arr('x', (3,))], {}), ref('# # #', x3))
    add('number text', 'common', 'str_arr', lambda: ([arr('x', (3,))], {'delim': ','}), ref('#,#,#', x3), what='delim')
    add('number text', 'common', 'str_arr', lambda: ([arr('x', (2, 3))], {}), ref('# # #\n# # #', x23), what='2d')
    add('number text', 'common', 'str_arr', lambda: ([arr('x', (1, 2))], {'fmt': '%.15g'}), ref('# #', sym('x', (1, 2))), what='2d, 1 row')
    add('number text', 'common', 'str_arr', lambda: ([arr('x', (3, 1))], {'fmt': '%.15g'}), ref('#\n#\n#', sym('x', (3, 1))), what='2d, 1 column')
    add('number text', 'common', 'str_arr', lambda: ([[[scal('a'), scal('b')], [scal('c'), 2.0]]], {'fmt': '%.17e'}),
        ref('# #\n# 2.00000000000000000e+00', [S(('el', k)) for k in 'abc']), what='list')
    add('number text', 'common', 'str_arr', lambda: ([arr('x', (2, 2, 2))], {}), RAISES, what='3d', post=None)
    add('number text', 'common', 'seq2str', lambda: ([[3, 4, 5]], {}), Exact('3 4 5'), post=None)
    add('number text', 'common', 'seq2str', lambda: ([[3, 4, 5]], {'sep': ','}), Exact('3,4,5'), what='sep', post=None)
    add('number text', 'common', 'str2seq', lambda: (['3 4  5'], {}), Exact([3, 4, 5]), post=None)
    add('number text', 'common', 'str2tup', lambda: (['3,4,5'], {'sep': ','}), Exact((3, 4, 5)), post=None)
    add('number text', 'common', 'frepr', lambda: (['abc'], {}), Exact('abc'), what='str', post=None)
    add('number text', 'common', 'frepr', lambda: ([0.1], {}), Exact('%.16e' % 0.1), what='float', post=None)
    add('number text', 'common', 'frepr', lambda: ([7], {}), Exact('7'), what='int', post=None)
    for st, v in (('40.0d+02_10', 4000.0), ('1.5D0', 1.5), ('-2d-3', -0.002), ('3.25', 3.25), ('+1.d2_dp', 100.0), ('  7e-1', 0.7)):
        add('number text', 'common', 'ffloat', lambda st=st: ([st], {}), S(v), what=st.strip(), post=None, ranges={})
    for v, r in ((True, True), (False, False), ('.true.', True), ('False', False), ('.FALSE.', False), ('True', True), ('on', True), ('off', False), ('1', True), ('0', False), (1, True), (0, False)):
        add('number text', 'common', 'tobool', lambda v=v: ([v], {}), Exact(r), what=repr(v), post=None, ranges={})
    # PWscf cards
    add('input card', 'pwscf', 'atpos_str', lambda: ([['Al', 'N'], arr('x', (2, 3))], {}), ref('Al # # #\nN # # #', x23))
    add('input card', 'pwscf', 'atpos_str', lambda: ([['Al', 'N'], arr('x', (2, 3))], {'delim': ' ', 'fmt': '%.15e'}), ref('Al # # #\nN # # #', x23), what='delim')
    add('input card', 'pwscf', 'atpos_str', lambda: ([['Al', 'N'], arr('x', (3, 3))], {}), RAISES, what='wrong length', post=None)
    add('input card', 'pwscf', 'atpos_str_fast', lambda: ([['Al', 'N'], arr('x', (2, 3))], {}), ref('Al # # #\nN # # #', x23))
    add('input card', 'pwscf', 'atpos_str_fast', lambda: ([['Al', 'N', 'O'], arr('x', (3, 3))], {}), ref('Al # # #\nN # # #\nO # # #', sym('x', (3, 3))), what='3 atoms')
    add('input card', 'pwscf', 'atpos_str_fast', lambda: ([['Al', 'N'], arr('x', (2, 6))], {}), ref('Al # # # # # #\nN # # # # # #', sym('x', (2, 6))), what='forces')
    add('input card', 'pwscf', 'atspec_str', lambda: ([['Al', 'N'], [scal('a'), scal('b')], ['Al.UPF', 'N.UPF']], {}), ref('Al # Al.UPF\nN # N.UPF', [S(('el', 'a')), S(('el', 'b'))]))
    add('input card', 'pwscf', 'atspec_str', lambda: ([['Al', 'N'], [1.0], ['Al.UPF', 'N.UPF']], {}), RAISES, what='wrong length', post=None)
    for nm in ('kpoints_str', 'kpointstr'):
        add('input card', 'pwscf', nm, lambda: ([[3, 4, 5]], {}), Exact('nk1=3,nk2=4,nk3=5'), what='nk', post=None)
    add('input card', 'pwscf', 'kpoints_str', lambda: ([[3, 4, 5]], {'base': 'nq'}), Exact('nq1=3,nq2=4,nq3=5'), what='nq', post=None)
    ints = lambda v: Arr((len(v),), ('seq',) + tuple(('const', k) for k in v), 'i8', [('const', k) for k in v])
    for nm, lst in (('list', lambda: [3, 4, 5]), ('tuple', lambda: (3, 4, 5)), ('array', lambda: ints([3, 4, 5]))):
        for sn, sh in (('', None), (' shift', lambda: [1, 0, 1]), (' shift array', lambda: ints([1, 0, 1]))):
            k = lambda sh=sh: {} if sh is None else {'shift': sh()}
            r = '3 4 5 ' + ('0 0 0' if sh is None else '1 0 1')
            add('input card', 'pwscf', 'kpoints_str_pwin', lambda lst=lst, k=k: ([lst()], k()), Exact(r), what=nm + sn, post=None)
            add('input card', 'pwscf', 'kpoints_str_pwin_full', lambda lst=lst, k=k: ([lst()], k()), Exact('K_POINTS automatic\n' + r), what=nm + sn, post=None)
    for v, k, r in (([1, 1, 1], {}, 'K_POINTS gamma'), ('gamma', {}, 'K_POINTS gamma'), ((1, 1, 1), {}, 'K_POINTS gamma'),
                    ([1, 1, 1], {'gamma': False}, 'K_POINTS automatic\n1 1 1 0 0 0'), ([1, 1, 2], {}, 'K_POINTS automatic\n1 1 2 0 0 0')):
        add('input card', 'pwscf', 'kpoints_str_pwin_full', lambda v=v, k=k: ([v], dict(k)), Exact(r), what='%s %s' % (v, k), post=None)
    for v, r in ((True, '.true.'), (False, '.false.')):
        add('input card', 'pwscf', 'bool2str', lambda v=v: ([v], {}), Exact(r), what=str(v), post=None)
    # whole files
    cell, cell3 = sym('cell', (3, 3)), sym('cell', (2, 3, 3))
    xc = matmul(x23, cell)
    xt, f23, ft = sym('x', (2, 2, 3)), sym('F', (2, 3)), sym('F', (2, 2, 3))
    tr = lambda **kw: traj(2, 2, **kw)
    at = 'Al # # #\nN # # #\n'
    addw('io', 'write_xyz', struct(), ref('2\npwtools_dummy_mol_name.1\n' + at, xc), what='Structure')
    addw('io', 'write_xyz', tr(), ref('2\npwtools_dummy_mol_name.1\n' + at + '2\npwtools_dummy_mol_name.2\n' + at, [matmul(x, c) for x, c in zip(xt, cell3)]), what='Trajectory')
    c3 = '# # #\n' * 3
    body = lambda k, a: '\nPRIMVEC %d\n%sPRIMCOORD %d\n2 1\n%s' % (k, c3, k, a)
    af = 'Al # # # # # #\nN # # # # # #\n'
    cat = lambda a, b: [p + [q * EVHA for q in r] for p, r in zip(a, b)]
    addw('io', 'write_axsf', struct(), ref('ANIMSTEPS 1\nCRYSTAL' + body(1, at), [cell, xc]), what='Structure')
    addw('io', 'write_axsf', struct(forces=arr('F', (2, 3))), ref('ANIMSTEPS 1\nCRYSTAL' + body(1, af), [cell, cat(xc, f23)]), what='Structure, forces', tol=1e-6)
    two = lambda a: 'ANIMSTEPS 2\nCRYSTAL' + body(1, a) + body(2, a)
    for nm, kw, a, v in (('', {}, at, [[c, matmul(x, c)] for x, c in zip(xt, cell3)]),
                         (', forces', {'forces': arr('F', (2, 2, 3))}, af, [[c, cat(matmul(x, c), f)] for x, c, f in zip(xt, cell3, ft)])):
        addw('io', 'write_axsf', tr(**kw), ref(two(a), v), what='Trajectory' + nm, tol=1e-6)
    cc = cell2cc(cell)
    add('structure file', 'io', 'wien_sgroup_input', withI(lambda I: ([struct()(I)], {})),
        ref('/ lattice type symbol\nP\n\n/ a b c alpha beta gamma\n# # # # # #\n\n/ number of atoms\n2\n\n/ atom list (crystal cooords)\n# # #\nAl\n# # #\nN', [cc, x23]))
    # LAMMPS: cell aligned, types numbered in the order of the sorted symbols
    al = cc2cell(cc)
    xl = matmul(x23, al)
    lmp = ('structure written by pwtools TIME\n\n2 atoms\n2 atom types\n\n0.0 # xlo xhi\n0.0 # ylo yhi\n0.0 # zlo zhi\n# # # xy xz yz\n\n'
           'Atoms\n\n%s\n\nMasses\n\n1 #\n2 #\n')
    nums = lambda x: [al[0][0], al[1][1], al[2][2], al[1][0], al[2][0], al[2][1], x, S(('el', 'm_Al')), S(('el', 'm_N'))]
    rl = ref(lmp % '1 1 # # #\n2 2 # # #', nums(xl))
    add('structure file', 'lammps', 'struct_str', withI(lambda I: ([struct()(I)], {})), rl, tol=1e-5)
    add('structure file', 'lammps', 'struct_str', withI(lambda I: ([struct(symbols=['N', 'Al'])(I)], {})),
        ref(lmp % '1 2 # # #\n2 1 # # #', nums(xl)), tol=1e-5, what='other order')
    addw('io', 'write_lammps', struct(), rl, tol=1e-5)
    addw('io', 'write_lammps', struct(), ref('Al\nN', []), what='symbols', fn='dir/lmp.struct.symbols')
    return out
