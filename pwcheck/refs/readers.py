"""References for the readers of program output: a (virtual) output file in the layout of the program, with an unknown
number at each place, and for every quantity the place it must come from."""
import re

from ..objint import AbsRaise, Arr, Ext, Obj, Top
from ..valnum import S, scal, sym
from ..vnspec import Exact, Field
from . import shell
from .files import FILES, m_open, meth, opened, stub


def put(I, name, txt):
    if isinstance(txt, Obj):
        I.fs[name] = txt
        return name
    f = m_open(I, [name, 'w'], {}, None)
    meth(I, f, 'write', txt)
    return name


def content(I, f):
    return meth(I, f, 'getvalue')


def m_backtick(I, a, k, n):
    cmd = a[0]
    if not isinstance(cmd, str):
        return Top(('backtick',), 'str')

    def read(name):
        if name not in I.fs:
            raise AbsRaise('Exception', 'no file %s' % name, n)
        return content(I, I.fs[name])
    try:
        return shell.run(cmd, read)
    except (shell.Unmodelled, IndexError, ValueError) as e:
        I.foreign.add('shell: %s' % e)
        return Top(('backtick', str(e)), 'str')


def m_loadtxt(I, args, kws, node):
    a = dict(zip(('fname', 'dtype', 'comments', 'delimiter', 'converters', 'skiprows', 'usecols', 'unpack', 'ndmin'), args), **kws)
    f = opened(I, a['fname'])
    txt = meth(I, f, 'read')
    if not isinstance(txt, str) or set(a) - {'fname', 'dtype', 'ndmin', 'skiprows', 'comments', 'usecols'}:
        return Top(('loadtxt',))
    c = a.get('comments', '#')
    rows = []
    for l in txt.split('\n')[a.get('skiprows', 0):]:
        w = (l.split(c)[0] if c else l).split()
        if w:
            if a.get('usecols') is not None:
                w = [w[j] for j in a['usecols']]
            rows.append(w)
    if len({len(r) for r in rows}) > 1:
        raise AbsRaise('ValueError', 'the number of columns changed', node)
    if not rows:
        return Top(('loadtxt', 'empty'))
    nd = a.get('ndmin', 0)
    if nd < 2:
        if len(rows) == 1:
            rows = rows[0]
        elif len(rows[0]) == 1:
            rows = [r[0] for r in rows]
        if nd == 0 and isinstance(rows[0], str) and len(rows) == 1:
            rows = rows[0]
    dt = a.get('dtype')
    one = isinstance(rows, str)
    r = I.ext('numpy.array', [[rows] if one else rows], {'dtype': dt if dt is not None else Ext('float')}, node, None)
    if one and isinstance(r, Arr) and r.data:
        return Top(r.data[0], 'float')
    return r


def m_exists(I, a, k, n):
    return a[0] in I.__dict__.get('fs', {}) if isinstance(a[0], str) else Top(('exists',), 'bool')


def m_readcif(I, a, k, n):
    """CIF text -> blocks of items and of loop columns, all of them strings"""
    txt = a[0] if not isinstance(a[0], str) else content(I, I.fs[a[0]]) if a[0] in I.fs else None
    if not isinstance(txt, str) or k:
        return Top(('ReadCif',))
    cf = I.call(stub(I, 'CifFile'), [], {}, None)
    blk, names = None, None
    for l in txt.split('\n'):
        w = re.findall(r"'[^']*'|\S+", l.split('#')[0])
        w = [x.strip("'") for x in w]
        if not w:
            names = None
        elif w[0].startswith('data_'):
            blk, names = {}, None
            cf.attrs['blocks'][w[0][5:]] = blk
        elif w[0] == 'loop_':
            names = []
        elif w[0].startswith('_') and names is not None and not any(blk[x] for x in names):
            names.append(w[0])
            blk[w[0]] = []
        elif w[0].startswith('_'):
            names = None
            blk[w[0]] = w[1]
        else:
            for q, x in zip(names, w):
                blk[q].append(x)
    return cf


READ = dict(FILES)
READ.update({'CifFile.CifFile': lambda I, a, k, n: I.call(stub(I, 'CifFile'), [], {}, n), 'CifFile.CifBlock': lambda I, a, k, n: I.call(stub(I, 'CifBlock'), [], {}, n),
             'CifFile.ReadCif': m_readcif})
READ.update({'pwtools.common.backtick': m_backtick, 'numpy.loadtxt': m_loadtxt, 'os.path.exists': m_exists, 'os.path.isfile': m_exists})


SIGNED = set('xone xtwo q cm thz e qs D cell pos v c0 b0 x0 junk E EH F P sry skb c x EC xw xs xu Pv vel st ke'.split())
EXPO = set('P6 dump grad sc'.split())


def num(I, name, *ix):
    """text of a number; every second entry of quantities which can be negative is, and so for exponents"""
    t = ('el', name) + ix
    for q, u in I.texts.items():
        if u == t:
            return q
    k = I.num_text(Top(t, 'float'), 's')
    odd = sum(i for i in ix if isinstance(i, int)) % 2
    if odd and name in SIGNED or name in EXPO:
        del I.texts[k]
        k = ('-' if odd else '') + k + ('E%+03d' % (len(I.texts) % 9 - 4) if name in EXPO else '')
        I.texts[k] = t
    return k


def row(I, name, *ix):
    """the numbers name[ix + (0,)] .. of one line; the last entry of ix is the length"""
    return '  '.join(num(I, name, *(ix[:-1] + (k,))) for k in range(ix[-1]))


def modes(I, q, nat, name=''):
    """block of eigenvectors and frequencies for one q-point"""
    t = ' ' + '*' * 70 + '\n'
    for m in range(3 * nat):
        t += '     omega(%2d) =     %s [THz] =    %s [cm-1]\n' % (m + 1, num(I, 'thz', q, m), num(I, 'cm', q, m))
        for a in range(nat):
            t += ' ( %s   )\n' % '  '.join(num(I, 'e', q, m, a, c) for c in range(6))
    return t + ' ' + '*' * 70 + '\n'


def evec(q, nat):
    return [[[S(('el', 'e', q, m, a, 2 * x)) + S(1j) * S(('el', 'e', q, m, a, 2 * x + 1)) for x in range(3)] for a in range(nat)] for m in range(3 * nat)]


def specs():
    out = []

    def add(mod, name, files, args, ref, rule='read output', **kw):
        def call(I, f, a, k):
            I.fs = {}
            for fn, t in files.items():
                put(I, fn, t(I))
            return I.call(f, list(args[0]), dict(args[1]), None)
        out.append((rule, mod, name, None, ref, dict(dict(texts=True, models=READ, call=call, tol=1e-11), **kw)))

    # eigenvector files
    for nat in (1, 2):
        for nq in (1, 2, 3):
            add('pwscf', 'read_matdyn_modes', {'matdyn.modes': lambda I, nat=nat, nq=nq: ''.join(
                '     diagonalizing the dynamical matrix ...\n\n q =       %s\n' % row(I, 'q', q, 3) + modes(I, q, nat) for q in range(nq))},
                (['matdyn.modes'], {'natoms': nat}), (sym('q', (nq, 3)), sym('cm', (nq, 3 * nat)), [evec(q, nat) for q in range(nq)]),
                what='%d atoms, %d q' % (nat, nq))

    def dyn(I, nat, q, star=2):
        t = 'Dynamical matrix file\n\n  1    %d   4   1.0  0.0  0.0  0.0  0.0  0.0\n' % nat
        for s in range(star):
            t += '\n     Dynamical  Matrix in cartesian axes\n\n     q = ( %s )\n\n' % ('  '.join(num(I, 'qs', q, s, k) for k in range(3)))
            for i in range(nat):
                for j in range(nat):
                    t += '    %d    %d\n' % (i + 1, j + 1) + ''.join('  %s\n' % '  '.join(num(I, 'D', q, s, i, j, x, k) for k in range(6)) for x in range(3))
        t += '\n     Diagonalizing the dynamical matrix\n\n     q = ( %s )\n\n' % row(I, 'q', q, 3)
        return t + modes(I, q, nat)
    for nat in (1, 2):
        for star in (1, 3):
            add('pwscf', 'read_dyn', {'ph.dyn3': lambda I, nat=nat, star=star: dyn(I, nat, 0, star)}, (['ph.dyn3'], {'natoms': nat}),
                ([S(('el', 'q', 0, k)) for k in range(3)], [S(('el', 'cm', 0, m)) for m in range(3 * nat)], evec(0, nat)), what='%d atoms, star of %d' % (nat, star))
    for nq, nat in ((1, 2), (3, 2), (12, 1)):
        for base in ('ph.dyn', 'x'):
            add('pwscf', 'read_all_dyn', {'dir/%s%d' % (base, q + 1): (lambda I, q=q, nat=nat: dyn(I, nat, q)) for q in range(nq)},
                (['dir'], {'nqpoints': nq, 'natoms': nat, **({} if base == 'ph.dyn' else {'base': base})}),
                (sym('q', (nq, 3)), sym('cm', (nq, 3 * nat)), [evec(q, nat) for q in range(nq)]), what='%d q %s' % (nq, base))

    def axsf(I, nat):
        t = 'ANIMSTEPS %d\nCRYSTAL\nPRIMVEC\n  %s\n  %s\n  %s\n' % (3 * nat, row(I, 'cell', 0, 3), row(I, 'cell', 1, 3), row(I, 'cell', 2, 3))
        for m in range(3 * nat):
            t += 'PRIMCOORD  %d\n   %d   1\n' % (m + 1, nat)
            for a in range(nat):
                t += ' Al   %s  %s\n' % (row(I, 'pos', a, 3), row(I, 'v', m, a, 3))
        return t

    def dynmat(I, nat, cols, head):
        t = '\n     Program DYNMAT v.4.3.2 starts ...\n\n     Reading Dynamical Matrix from file ph.dyn\n     ...Force constants read\n\n'
        t += '\n# mode   [cm-1]    [THz]  %s\n' % head
        for m in range(3 * nat):
            t += '%5d  %s\n' % (m + 1, '  '.join(num(I, 'c', m, k) for k in range(1, cols)))
        return t
    for nat in (1, 2):
        for path in ('.', 'dir'):
            p = path + '/'
            add('pwscf', 'read_dynmat', {p + 'dynmat.out': lambda I, nat=nat: dynmat(I, nat, 4, '    IR'), p + 'dynmat.axsf': lambda I, nat=nat: axsf(I, nat)},
                ([], {'path': path, 'natoms': nat}), ([S(0.0)] * 3, [S(('el', 'c', m, 1)) for m in range(3 * nat)], sym('v', (3 * nat, nat, 3))),
                what='%d atoms %s' % (nat, path))
    col = lambda nat, k: [S(('el', 'c', m, k)) for m in range(3 * nat)]
    for nat in (1, 2):
        for cols, head, have in ((6, '    IR          Raman   depol.fact', ('freqs', 'ir', 'raman', 'depol')), (4, '    IR', ('freqs', 'ir')), (3, '', ('freqs',))):
            n = {'freqs': 1, 'ir': 3, 'raman': 4, 'depol': 5}
            add('pwscf', 'read_dynmat_ir_raman', {'dynmat.out': lambda I, nat=nat, cols=cols, head=head: dynmat(I, nat, cols, head)},
                ([], {'natoms': nat}), {k: (col(nat, v) if k in have else Exact(None)) for k, v in n.items()}, what='%d atoms %d columns' % (nat, cols))
        add('pwscf', 'read_dynmat_ir_raman', {'x.out': lambda I, nat=nat: dynmat(I, nat, 6, 'IR Raman depol.fact')}, (['x.out'], {'natoms': nat, 'cols': None}),
            [[S(m + 1.0)] + [S(('el', 'c', m, k)) for k in range(1, 6)] for m in range(3 * nat)], what='%d atoms, all' % nat)
        add('pwscf', 'read_dynmat_ir_raman', {'x.out': lambda I, nat=nat: dynmat(I, nat, 6, 'IR Raman depol.fact')},
            (['x.out'], {'natoms': nat, 'cols': {2: 'thz'}}), {'thz': col(nat, 2)}, what='%d atoms, named' % nat)

    # band structure file of matdyn.x: nbnd in the namelist head, q-points in one line, frequencies in rows of six
    for nq, nb in ((2, 3), (3, 6), (2, 9), (1, 12)):
        def freq(I, nq=nq, nb=nb):
            t = ' &plot nbnd=%4d, nks=%4d /\n' % (nb, nq)
            for q in range(nq):
                t += '           %s\n' % row(I, 'q', q, 3)
                for k in range(0, nb, 6):
                    t += '  %s\n' % '  '.join(num(I, 'w', q, j) for j in range(k, min(k + 6, nb)))
            return t
        add('pwscf', 'read_matdyn_freq', {'matdyn.freq': freq}, (['matdyn.freq'], {}), (sym('q', (nq, 3)), sym('w', (nq, nb))), what='%d q %d modes' % (nq, nb))
    specs_pw(out)
    specs_cpmd(out)
    specs_cp2k(out)
    specs_lammps(out)
    specs_struct(out)
    return out


BOHR, RY, TRYD = 0.529177210903, 13.605693122994, 0.04837768652  # Ang, eV, fs
SYM = ['Al', 'N', 'O', 'H']


def obj(out, cls, files, quants, ctor=None, rule='parser', what='', getcont=None, **kw):
    """quants: {getter name: reference}; getcont: (method, {attribute: reference})"""
    def make(I, f):
        I.fs = {}
        for fn, t in files.items():
            put(I, fn, t(I))
        a, k = ctor or (['pw.out'], {})
        return I.call(f, list(a), dict(k), None)
    for q, ref in quants.items():
        def call(I, f, a, k, q=q):
            return I.call(I.getattr(make(I, f), 'get_' + q), [], {}, None)
        out.append((rule, 'parse', cls, None, ref, dict(dict(at='get_' + q, texts=True, models=READ, call=call, tol=1e-6, what='%s %s' % (q, what)), **kw)))
    if getcont:
        def call(I, f, a, k):
            return I.call(I.getattr(make(I, f), getcont[0]), [], {}, None)
        out.append((rule, 'parse', cls, None, Field(**getcont[1]), dict(dict(at='get_cont', texts=True, models=READ, call=call, tol=1e-6, what='%s %s' % (getcont[0], what)), **kw)))


def pwhead(I, nat, old=False):
    u = 'a_0' if old else 'alat'
    t = """
     Program PWSCF v.5.0.2 starts on 12Jun2014 at 12: 1:22

     bravais-lattice index     =            0
     lattice parameter (%s)  =  %s  a.u.
     unit-cell volume          =     304.9842 (a.u.)^3
     number of atoms/cell      =            %d
     number of atomic types    =            2
     kinetic-energy cutoff     =      30.0000  Ry

     celldm(1)=   6.123900  celldm(2)=   0.000000  celldm(3)=   0.000000

     crystal axes: (cart. coord. in units of %s)
""" % (u, num(I, 'alat'), nat, u)
    t += ''.join('               a(%d) = (   %s )  \n' % (k + 1, row(I, 'c0', k, 3)) for k in range(3))
    t += '\n     reciprocal axes: (cart. coord. in units 2 pi/%s)\n' % u
    t += ''.join('               b(%d) = (  %s )  \n' % (k + 1, row(I, 'b0', k, 3)) for k in range(3))
    t += '\n   Cartesian axes\n\n     site n.     atom                  positions (%s)\n' % ('a_0 units' if old else 'alat units')
    t += ''.join('         %d           %-2s  tau(%4d) = (  %s  )\n' % (k + 1, SYM[k % 2], k + 1, row(I, 'x0', k, 3)) for k in range(nat))
    t += '\n     number of k points=   %s  Fermi-Dirac smearing\n' % I.num_text(Top(('el', 'nk'), 'int'), 'd')
    t += '                       cart. coord. in units 2pi/alat\n        k(    1) = (   0.0000000   0.0000000   0.0000000), wk =   2.0000000\n\n'
    return t


def pwscf(I, nat, i, stress=True, forces=True, extra=0, every=True):
    """what is printed for one scf cycle; extra: additional force blocks (vdw, ..) below the first one"""
    t = '\n     iteration #  1     ecut=    30.00 Ry     beta=0.70\n     total energy              =     %s Ry\n' % num(I, 'junk', i)
    t += '\n!    total energy              =     %s Ry\n     Harris-Foulkes estimate   =     %s Ry\n' % (num(I, 'E', i), num(I, 'EH', i))
    t += '\n     convergence has been achieved in   %s iterations\n' % I.num_text(Top(('el', 'nscf', i), 'int'), 'd')
    if forces:
        t += '\n     Forces acting on atoms (Ry/au):\n\n'
        for b in range(1 + extra):
            if b:
                t += '     The non-local contrib.  to forces\n'
            t += ''.join('     atom %4d type  %d   force =   %s\n' % (a + 1, a % 2 + 1, '  '.join(num(I, 'F', i, b, a, x) for x in range(3))) for a in range(nat))
        t += '\n     Total force =     0.000102     Total SCF correction =     0.000001\n'
    if stress:
        t += '\n     entering subroutine stress ...\n\n          total   stress  (Ry/bohr**3)                   (kbar)     P=  %s\n' % num(I, 'P', i)
        t += ''.join('   %s    %s\n' % (row(I, 'sry', i, x, 3), row(I, 'skb', i, x, 3)) for x in range(3)) + '\n'
    return t


def mul(x, *f):
    if isinstance(x, list):
        return [mul(y, *f) for y in x]
    r = S(x)
    for g in f:
        r = r * S(g)
    return r


def frc(n, nat, first=0, sl=None):
    b = 0
    return [[[S(('el', 'F', i, b, a, x)) for x in range(3)] for a in range(nat)] for i in range(first, n)]


def specs_pw(out):
    ALAT = S(('el', 'alat'))
    for nat in (1, 2, 3):
        for extra in (0, 2):
            for old in (False, True):
                if old and (nat, extra) != (2, 0):
                    continue
                files = {'pw.out': lambda I, nat=nat, extra=extra, old=old: pwhead(I, nat, old) + pwscf(I, nat, 0, extra=extra)}
                w = '%d atoms%s%s' % (nat, ', more force blocks' if extra else '', ', a_0' if old else '')
                q = {'coords': mul(sym('x0', (nat, 3)), ALAT), 'cell': mul(sym('c0', (3, 3)), ALAT), 'symbols': Exact([SYM[k % 2] for k in range(nat)]),
                     'stress': sym('skb', (1, 3, 3))[0], 'etot': S(('el', 'E', 0)), 'forces': frc(1, nat)[0], 'nstep_scf': S(('f', 'int', ('el', 'nscf', 0))),
                     'natoms': S(nat), 'nkpoints': S(('f', 'int', ('el', 'nk'))), 'scf_converged': Exact(True), 'alat': ALAT}
                g = {'coords': mul(q['coords'], BOHR), 'cell': mul(q['cell'], BOHR), 'stress': mul(q['stress'], 0.1), 'etot': mul(q['etot'], RY),
                     'forces': mul(q['forces'], RY / BOHR), 'symbols': q['symbols']}
                obj(out, 'PwSCFOutputFile', files, q, what=w, getcont=('get_struct', g))
                if not extra and nat == 2:
                    obj(out, 'PwSCFOutputFile', files, {'coords': sym('x0', (nat, 3)), 'cell': sym('c0', (3, 3))}, ctor=(['pw.out'], {'use_alat': False}), what=w + ' no alat')
                    obj(out, 'PwSCFOutputFile', files, {}, ctor=(['pw.out'], {'units': {'length': 1.0, 'energy': 3.0}}), what=w + ' units',
                        getcont=('get_struct', {'coords': q['coords'], 'cell': q['cell'], 'etot': mul(q['etot'], 3.0), 'forces': g['forces'], 'stress': g['stress']}))
    files = {'pw.out': lambda I: pwhead(I, 2) + pwscf(I, 2, 0, stress=False, forces=False)}
    obj(out, 'PwSCFOutputFile', files, {'stress': Exact(None), 'forces': Exact(None), 'etot': S(('el', 'E', 0))}, what='no stress and forces',
        getcont=('get_struct', {'stress': Exact(None), 'forces': Exact(None), 'coords': mul(sym('x0', (2, 3)), ALAT, BOHR)}))
    # the first scf cycle of an md run is the one the scf parser takes
    files = {'pw.out': lambda I: pwhead(I, 2) + pwscf(I, 2, 0) + pwscf(I, 2, 1)}
    obj(out, 'PwSCFOutputFile', files, {'stress': sym('skb', (1, 3, 3))[0], 'forces': frc(1, 2)[0], 'etot': S(('el', 'E', 0)), 'nstep_scf': S(('f', 'int', ('el', 'nscf', 0)))}, what='first of several')

    # molecular dynamics and relaxations
    for nat, n in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2)):
        for unit in ('alat', 'bohr', 'angstrom', 'crystal'):
            for cell in (None, 'alat', 'bohr', 'angstrom', 'alat=', '', 'concat'):
                if cell is not None and (nat, n) not in ((2, 3), (1, 1)) or cell and unit not in ('alat', 'crystal'):
                    continue
                for br in ('()', '{}', ''):
                    if br != '()' and (cell or (nat, n) != (2, 3)):
                        continue
                    specs_md(out, nat, n, unit, cell, br)


def specs_md(out, nat, n, unit, cell, br, extra=1):
    ALAT = S(('el', 'alat'))

    def file(I):
        t = pwhead(I, nat) + pwscf(I, nat, 0, extra=extra)
        t += '\n     Molecular Dynamics Calculation\n\n     mass Al               =    26.98\n     Starting temperature  =   %s K\n' % num(I, 'T0')
        t += '\n     Time step             =   %s a.u.,  %s femto-seconds\n' % (num(I, 'dt'), num(I, 'dtfs'))
        for i in range(n):
            t += '\n     Entering Dynamics:    iteration =     %d\n                           time      =   %s pico-seconds\n\n' % (i + 1, num(I, 'time', i))
            if cell is not None:
                h = {'alat=': ' (alat= %s)' % num(I, 'alat'), 'concat': ' (alat= %s)' % num(I, 'al', i), '': ''}.get(cell, ' (%s)' % cell)
                t += '\nCELL_PARAMETERS%s\n' % h + ''.join('  %s\n' % row(I, 'c', i, x, 3) for x in range(3))
            u = (br[0] + unit + br[1]) if br else unit
            t += '\nATOMIC_POSITIONS %s\n' % u + ''.join('%-2s   %s%s\n' % (SYM[a % 2], row(I, 'x', i, a, 3), '   0   0   0' if a == 1 else '') for a in range(nat)) + '\n'
            t += '     kinetic energy (Ekin) =     %s Ry\n     temperature           =   %s K \n     Ekin + Etot (const)   = %s Ry\n' % (
                num(I, 'K', i), num(I, 'T', i), num(I, 'EC', i))
            t += pwscf(I, nat, i + 1, extra=extra)
        return t
    x = sym('x', (n, nat, 3))
    first = 1
    q = {'symbols': Exact([SYM[k % 2] for k in range(nat)]), 'natoms': S(nat), 'nkpoints': S(('f', 'int', ('el', 'nk'))), 'timestep': S(('el', 'dt')),
         'etot': [S(('el', 'E', i)) for i in range(1, n + 1)], 'forces': frc(n + 1, nat, 1), 'stress': sym('skb', (n + 1, 3, 3))[1:],
         'ekin': sym('K', (n,)), 'temperature': sym('T', (n,)), 'nstep_scf': [S(('f', 'int', ('el', 'nscf', i))) for i in range(n + 1)],
         'coords_frac': x if unit == 'crystal' else Exact(None),
         'coords': {'alat': mul(x, ALAT), 'bohr': x, 'angstrom': mul(x, 1 / BOHR), 'crystal': Exact(None)}[unit]}
    c = sym('c', (n, 3, 3))
    q['cell'] = {None: mul(sym('c0', (3, 3)), ALAT), 'alat': mul(c, ALAT), 'alat=': mul(c, ALAT), '': mul(c, ALAT), 'bohr': c, 'angstrom': mul(c, 1 / BOHR),
                 'concat': [mul(c[i], S(('el', 'al', i))) for i in range(n)]}[cell]
    c3 = [q['cell']] * n if cell is None else q['cell']
    g = {'cell': mul(c3, BOHR), 'etot': mul(q['etot'], RY), 'ekin': mul(q['ekin'], RY), 'forces': mul(q['forces'], RY / BOHR), 'stress': mul(q['stress'], 0.1),
         'temperature': q['temperature'], 'timestep': mul(q['timestep'], TRYD), 'symbols': q['symbols']}
    if unit == 'crystal':
        g['coords_frac'] = x
    else:
        g['coords'] = mul(q['coords'], BOHR)
    obj(out, 'PwMDOutputFile', {'pw.out': file}, q, what='%d atoms, %d steps, %s%s%s%s' % (nat, n, br[:1], unit, br[1:], '' if cell is None else ', cell %s' % cell),
        getcont=('get_traj', g))


# CPMD
HA, TH, KB = 27.211386, 0.02418884326, 3.1668114e-6  # eV, fs, Ha / K
MIX = ['Al', 'N', 'Al', 'O']


def lat(I, name, *ix):
    return ''.join('      %s\n' % row(I, name, *(ix + (x, 3))) for x in range(3))


def geometry(I, nat, vc):
    """file GEOMETRY: coordinates and velocities; lines with three columns below them for variable cells"""
    t = ''.join('      %s   %s\n' % (row(I, 'gx', a, 3), row(I, 'gv', a, 3)) for a in range(nat))
    return t + (''.join(' %s\n' % row(I, 'gc', a, 3) for a in range(3)) if vc else '')


def scale(I, nat):
    t = 'CELL MATRIX (BOHR)\n' + lat(I, 'c0') + '\nCELL MATRIX (ANGSTROM)\n' + lat(I, 'cang') + '\nSCALED ATOMIC COORDINATES\n'
    return t + ''.join('      %s         %2s      %d\n' % (row(I, 'x0', a, 3), MIX[a], a // 2 + 1) for a in range(nat))


def cpscf(I, nat, last):
    def block(b):
        return '   ATOM          COORDINATES            GRADIENTS (-FORCES)\n' + ''.join('%4d %2s  %s   %s\n' % (
            a + 1, MIX[a], row(I, 'lowx', a, 3), row(I, 'grad', b, a, 3)) for a in range(nat))

    def energy(b):
        return (' (K+E1+L+N+X)           TOTAL ENERGY =         %s A.U.\n (K)                  KINETIC ENERGY =            %s A.U.\n'
                ' (E1=A-S+R)     ELECTROSTATIC ENERGY =         %s A.U.\n' % (num(I, 'E', b), num(I, 'EK', b), num(I, 'EE', b)))
    it = lambda k: '%4s  1.254E-07   1.393E-09    -192.769552   -8.242E-13      2.14\n' % k
    t = '\n NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES):   %s\n\n' % I.num_text(Top(('el', 'nk'), 'int'), 'd') + block(0) + '\n' + energy(0) + '\n'
    t += it(1) + it(2) + it(I.num_text(Top(('el', 'nscf'), 'int'), 'd')) + '\n RESTART INFORMATION WRITTEN ON FILE /tmp/RESTART.1\n\n'
    if not last:
        t += ' ! DENSITY NOT CONVERGED: BUT NO CONVERGENCE\n'
    t += block(1) + '\n' + energy(1) + '\n TOTAL STRESS TENSOR (kBar):\n' + lat(I, 'skb') + '\n'
    return t


def specs_cpmd(out):
    for nat in (1, 2, 4):
        for conv in (True, False):
            if not conv and nat != 2:
                continue
            files = {'d/cpmd.out': lambda I, nat=nat, conv=conv: cpscf(I, nat, conv), 'd/GEOMETRY': lambda I, nat=nat: geometry(I, nat, False),
                     'd/GEOMETRY.scale': lambda I, nat=nat: scale(I, nat)}
            q = {'cell': sym('c0', (3, 3)), 'stress': sym('skb', (3, 3)), 'etot': S(('el', 'E', 1)), 'coords_frac': sym('x0', (nat, 3)), 'symbols': Exact(MIX[:nat]),
                 'forces': sym('grad', (2, nat, 3))[1], 'natoms': S(nat), 'nkpoints': S(('f', 'int', ('el', 'nk'))), 'nstep_scf': S(('f', 'int', ('el', 'nscf'))),
                 'scf_converged': Exact(conv)}
            g = {'coords_frac': q['coords_frac'], 'cell': mul(q['cell'], BOHR), 'stress': mul(q['stress'], 0.1), 'etot': mul(q['etot'], HA),
                 'forces': mul(q['forces'], HA / BOHR), 'symbols': q['symbols']}
            obj(out, 'CpmdSCFOutputFile', files, q, ctor=(['d/cpmd.out'], {}), what='%d atoms%s' % (nat, '' if conv else ', not converged'), getcont=('get_struct', g))
    # columns of the ENERGIES file
    COLS = {9: ('nfi', 'ekinc', 'ekinh', 'tempp', 'eks', 'eclassic', 'eham', 'dis', 'tcpu'), 8: ('nfi', 'ekinc', 'tempp', 'eks', 'eclassic', 'eham', 'dis', 'tcpu'),
            6: ('nfi', 'tempp', 'eks', 'eclassic', 'dis', 'tcpu')}
    for nat, n in ((1, 1), (2, 1), (1, 2), (2, 3), (4, 2), (3, 3)):
        for ncol in (9, 8, 6):
            for new in (False, True):
                if new and (nat, n) != (2, 3):
                    continue
                vc, frc_, st = ncol == 9, ncol != 9, ncol != 6
                name = 'FTRAJECTORY' if frc_ else 'TRAJECTORY'

                def traj(I, nat=nat, n=n, frc_=frc_, new=new):
                    t = ''
                    for i in range(n):
                        if new and i == 1:
                            t += '  <<<<<<  NEW DATA  >>>>>>\n'
                        for a in range(nat):
                            t += '      %d   %s   %s%s\n' % ((i + 1) * nat, row(I, 'x', i, a, 3), row(I, 'v', i, a, 3), '   ' + row(I, 'Fc', i, a, 3) if frc_ else '')
                    return t
                files = {'d/cpmd.out': lambda I: ' TIME STEP FOR ELECTRONS:        %s\n TIME STEP FOR IONS:        %s\n' % (num(I, 'dte'), num(I, 'dt')),
                         'd/GEOMETRY': lambda I, nat=nat, vc=vc: geometry(I, nat, vc), 'd/GEOMETRY.scale': lambda I, nat=nat: scale(I, nat),
                         'd/ENERGIES': lambda I, n=n, ncol=ncol: ''.join('  %d  %s\n' % (i + 1, '  '.join(num(I, k, i) for k in COLS[ncol][1:])) for i in range(n)),
                         'd/' + name: traj}
                if frc_:  # the file without forces is written, too
                    files['d/TRAJECTORY'] = lambda I, nat=nat, n=n: ''.join('     %d   %s   %s\n' % ((i + 1) * nat, row(I, 'xx', i, a, 3), row(I, 'vv', i, a, 3)) for i in range(n) for a in range(nat))
                if vc:
                    files['d/CELL'] = lambda I, n=n: ''.join('   CELL PARAMETERS at Step:           %d\n' % (i + 1) + ''.join(
                        '       %s            %s\n' % (row(I, 'c', i, x, 3), row(I, 'cf', i, x, 3)) for x in range(3)) for i in range(n))
                if st:
                    files['d/STRESS'] = lambda I, n=n: ''.join('   TOTAL STRESS TENSOR (kB): Step:           %d\n' % (10 * i + 1) + lat(I, 'st', i) for i in range(n))
                e = lambda k, n=n: [S(('el', k, i)) for i in range(n)]
                none = Exact(None)
                q = {'cell': sym('c', (n, 3, 3)) if vc else sym('c0', (3, 3)), 'coords': sym('x', (n, nat, 3)), 'velocity': sym('v', (n, nat, 3)),
                     'forces': sym('Fc', (n, nat, 3)) if frc_ else none, 'stress': sym('st', (n, 3, 3)) if st else none, 'symbols': Exact(MIX[:nat]), 'natoms': S(nat),
                     'timestep': S(('el', 'dt')), 'temperature': e('tempp'), 'etot': e('eks'), 'econst': e('eham') if ncol != 6 else e('eks'),
                     'ekin': mul(e('tempp'), 1.5 * (nat - 1) * KB), 'ekin_elec': e('ekinc') if ncol != 6 else none, 'ekin_cell': e('ekinh') if vc else none,
                     'temperature_cell': mul(e('ekinh'), 2 / 9 / KB) if vc else none}
                u = {'cell': (BOHR,), 'coords': (BOHR,), 'velocity': (BOHR / TH,), 'forces': (HA / BOHR,), 'stress': (0.1,), 'timestep': (TH,), 'etot': (HA,), 'ekin': (HA,)}
                c3 = dict(q, cell=q['cell'] if vc else [q['cell']] * n)
                g = {k: c3[k] if isinstance(c3[k], Exact) else mul(c3[k], *u.get(k, ())) for k in
                     ('cell', 'coords', 'velocity', 'forces', 'stress', 'symbols', 'timestep', 'etot', 'ekin', 'temperature')}
                obj(out, 'CpmdMDOutputFile', files, q, ctor=(['d/cpmd.out'], {}), what='%d atoms, %d steps, %d columns%s' % (nat, n, ncol, ', restart' if new else ''),
                    getcont=('get_traj', g), tol=5e-6)


def specs_cp2k(out):
    def scf(I, nat):
        t = ' GLOBAL| Run type                                                   ENERGY_FORCE\n\n'
        t += ' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):              %s\n\n\n ATOMIC FORCES in [a.u.]\n\n' % num(I, 'E')
        t += ' # Atom   Kind   Element          X              Y              Z\n'
        t += ''.join('  %5d  %5d      %-2s         %s\n' % (a + 1, a // 2 + 1, MIX[a], row(I, 'F', a, 3)) for a in range(nat))
        t += ' SUM OF ATOMIC FORCES           %s     %s\n\n STRESS TENSOR [GPa]\n\n            X               Y               Z\n' % (row(I, 'sumf', 3), num(I, 'sumf', 3))
        t += ''.join('  %s      %s\n' % ('XYZ'[x], row(I, 'skb', x, 3)) for x in range(3))
        return t + '\n  1/3 Trace(stress tensor):   5.90391415E+01\n\n  Det(stress tensor)      :   1.61982218E+05\n\n'
    for nat in (1, 2, 4):
        q = {'symbols': Exact(MIX[:nat]), 'natoms': S(nat), 'forces': sym('F', (nat, 3)), 'stress': sym('skb', (3, 3)), 'etot': S(('el', 'E'))}
        g = {'symbols': q['symbols'], 'forces': mul(q['forces'], HA / BOHR), 'stress': q['stress'], 'etot': mul(q['etot'], HA)}
        obj(out, 'Cp2kSCFOutputFile', {'cp2k.out': lambda I, nat=nat: scf(I, nat)}, q, ctor=(['cp2k.out'], {}), what='%d atoms' % nat, getcont=('get_struct', g))

    def xyz(nat, n, what, opt=False):
        return lambda I: ''.join('  %6d\n i = %8d, %sE =  %s\n' % (nat, i + opt, '' if opt else 'time =  %s, ' % num(I, 'time', i), num(I, 'E', i)) + ''.join(
            '  %s         %s\n' % (MIX[a], row(I, what, i, a, 3)) for a in range(nat)) for i in range(n))

    def nine(n, name, vol=False, first=0):
        return lambda I: '#   Step   Time [fs]   xx   xy\n' + ''.join('  %6d  %s  %s%s\n' % (i + first, num(I, 'time', i), '  '.join(row(I, name, i, x, 3) for x in range(3)),
                                                                  '   ' + num(I, 'V', i) if vol else '') for i in range(n))
    for nat, n in ((1, 1), (2, 1), (1, 2), (2, 3), (4, 2)):
        for frc_ in ('file', 'output', 'none'):
            def cp(I, nat=nat, n=n, frc_=frc_):
                t = ' GLOBAL| Run type                                                             MD\n\n MD| Time Step [fs]                                         %s\n' % num(I, 'dt')
                t += ' TOTAL NUMBERS AND MAXIMUM NUMBERS\n                             - Number of atoms:         %d\n                             - Number of atoms:         99\n' % nat
                for i in range(n if frc_ == 'output' else 0):
                    t += ' ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):    %s\n\n ATOMIC FORCES in [a.u.]\n\n # Atom   Kind   Element          X              Y              Z\n' % num(I, 'E', i)
                    t += ''.join(' %6d %6d      %-2s         %s\n' % (a + 1, a // 2 + 1, MIX[a], row(I, 'F', i, a, 3)) for a in range(nat))
                    t += ' SUM OF ATOMIC FORCES           %s     %s\n\n' % (row(I, 'sumf', i, 3), num(I, 'sumf', i, 3))
                return t
            files = {'d/cp2k.out': cp, 'd/PROJECT-1.cell': nine(n, 'c', True), 'd/PROJECT-1.stress': nine(n, 'st'),
                     'd/PROJECT-1.ener': lambda I, n=n: '#     Step Nr.          Time[fs]        Kin.[a.u.]\n' + ''.join('   %d  %s\n' % (i, row(I, 'en', i, 7)) for i in range(n)),
                     'd/PROJECT-pos-1.xyz': xyz(nat, n, 'x'), 'd/PROJECT-vel-1.xyz': xyz(nat, n, 'v')}
            if frc_ == 'file':
                files['d/PROJECT-frc-1.xyz'] = xyz(nat, n, 'F')
            e = lambda k, n=n: [S(('el', 'en', i, k - 1)) for i in range(n)]
            q = {'cell': sym('c', (n, 3, 3)), 'stress': sym('st', (n, 3, 3)), 'coords': sym('x', (n, nat, 3)), 'velocity': sym('v', (n, nat, 3)), 'natoms': S(nat),
                 'symbols': Exact(MIX[:nat]), 'timestep': S(('el', 'dt')), 'ekin': e(2), 'temperature': e(3), 'etot': e(4), 'econst': e(5), 'volume': [S(('el', 'V', i)) for i in range(n)]}
            if frc_ != 'none':
                q['forces'] = sym('F', (n, nat, 3))
            u = {'velocity': (BOHR / TH,), 'forces': (HA / BOHR,), 'stress': (1e-4,), 'etot': (HA,), 'ekin': (HA,)}
            g = {k: v if isinstance(v, Exact) else mul(v, *u.get(k, ())) for k, v in q.items() if k not in ('natoms', 'econst', 'volume')}
            obj(out, 'Cp2kMDOutputFile', files, q, ctor=(['d/cp2k.out'], {}), what='%d atoms, %d steps, forces: %s' % (nat, n, frc_), getcont=('get_traj', g) if frc_ != 'none' else None)
        # relaxation: one more step in the file of coordinates than in the one of cells
        for mode in ('CELL_OPT', 'GEO_OPT'):
            m = n - (mode == 'CELL_OPT')
            if m < 1:
                continue
            files = {'d/cp2k.out': lambda I, mode=mode: ' GLOBAL| Run type                                                       %s\n' % mode,
                     'd/PROJECT-1.cell': nine(m, 'c', True, 1), 'd/PROJECT-1.stress': nine(n, 'st', False, 1), 'd/PROJECT-pos-1.xyz': xyz(nat, n, 'x', True)}
            c = sym('c', (m, 3, 3))
            q = {'cell': c + [c[-1]] * (n - m), 'coords': sym('x', (n, nat, 3)), 'natoms': S(nat), 'symbols': Exact(MIX[:nat]), 'stress': sym('st', (n, 3, 3)),
                 'etot': [S(('el', 'E', i)) for i in range(n)]}
            g = {k: v if isinstance(v, Exact) else mul(v, *u.get(k, ())) for k, v in q.items() if k != 'natoms'}
            obj(out, 'Cp2kRelaxOutputFile', files, q, ctor=(['d/cp2k.out'], {}), what='%d atoms, %d steps, %s' % (nat, n, mode))
    return out


def lohi(b, x, tilts):
    """length of the box from its bounds, which enclose the tilted box"""
    mn = mx = S(0.0)
    sums = list(tilts) + ([tilts[0] + tilts[1]] if len(tilts) == 2 else [])
    for t in sums:
        mn, mx = S(('f', 'minimum', mn.t, t.t)), S(('f', 'maximum', mx.t, t.t))
    return (b(x, 1) - mx) - (b(x, 0) - mn)


def specs_lammps(out):
    C = ('Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma')
    P = ('Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz')
    full = ('Step', 'Temp', 'Volume') + C + ('KinEng', 'PotEng', 'TotEng', 'Press') + P + ('CPU',)
    mixed = ('Step', 'Pyz', 'PotEng', 'Pxx', 'Volume', 'Pxz', 'KinEng', 'Pzz', 'Temp', 'Pyy', 'Pxy')
    few = ('Step', 'Temp', 'E_pair', 'E_mol', 'TotEng', 'Press')
    D1 = ('xu', 'yu', 'zu', 'fx', 'fy', 'fz', 'vx', 'vy', 'vz', 'xsu', 'ysu', 'zsu')
    D2 = ('vz', 'xsu', 'fy', 'zsu', 'vx', 'fz', 'ysu', 'vy', 'fx')
    D3 = ('x', 'y', 'z', 'xs', 'ys', 'zs')
    types = [1, 2, 1, 3]
    none = Exact(None)

    def v3(keys, n, nat, have):
        if not set(keys) <= set(have):
            return none
        return [[[S(('el', 'dump', k, i, a)) for k in keys] for a in range(nat)] for i in range(n)]

    for nat, n, th, du, where, runs in ((1, 1, full, D1, 'file', 1), (2, 1, full, D1, 'order', 1), (1, 2, mixed, D2, 'log', 1), (2, 3, full, D2, 'file', 1), (4, 2, mixed, D1, 'log', 1),
                                        (4, 3, few, D3, 'order', 1), (3, 2, full, D1, 'log', 2), (2, 2, few, D2, 'log', 1)):
        def log(I, nat=nat, n=n, th=th, where=where, runs=runs):
            t = 'LAMMPS (5 Nov 2010)\nunits metal\nread_data lmp.struct\n  triclinic box = (0 0 0) to (5.7 6.58179 4.65403) with tilt (2.85 2.85 1.64545)\n'
            if where == 'log':
                t += 'dump_modify dump_txt sort id\ndump_modify dump_xyz element Al N O\n'
            t += '\nvelocity all create 300.0 123 rot yes dist gaussian\ntimestep %s\n' % num(I, 'dt')
            for r in range(runs):
                t += 'run 100\nMemory usage per processor = 1.73467 Mbytes\n%s \n' % ' '.join(th)
                t += ''.join('     %d  %s\n' % (i, '  '.join(num(I, 'th', k, i, r) for k in th[1:])) for i in range(n))
                t += 'Loop time of 0.175041 on 1 procs (1 MPI x 1 OpenMP) for 100 steps with %d atoms\n\nPair  time (%%) = 0.14 (80.7)\n' % nat
            return t

        def dump(I, nat=nat, n=n, du=du):
            t = ''
            for i in range(n):
                t += 'ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS xy xz yz pp pp pp\n' % (10 * i, nat)
                t += ''.join(' '.join(num(I, 'box', i, x, k) for k in range(3)) + '\n' for x in range(3))
                t += 'ITEM: ATOMS id type %s \n' % ' '.join(du) + ''.join('%d %d %s \n' % (a + 1, types[a], ' '.join(num(I, 'dump', k, i, a) for k in du)) for a in range(nat))
            return t
        files = {'d/log.lammps': log, 'd/lmp.out.dump': dump}
        if where == 'file':
            files['d/lmp.struct.symbols'] = lambda I, nat=nat: '\n'.join(MIX[:nat])
            sy = MIX[:nat]
        else:
            sy = [{1: 'Al', 2: 'N', 3: 'O'}[k] for k in types[:nat]] if where == 'log' else [{1: 'H', 2: 'O', 3: 'Si'}[k] for k in types[:nat]]
        ctor = (['d/log.lammps'], {'order': {'O': 2, 'Si': 3, 'H': 1}} if where == 'order' else {})
        e = lambda k, n=n, th=th, runs=runs: none if k not in th else [S(('el', 'th', k, i, r)) for r in range(runs) for i in range(n)]

        def cellrow(i):
            b = lambda x, k: S(('el', 'box', i, x, k))
            xy, xz, yz = b(0, 2), b(1, 2), b(2, 2)
            return [[lohi(b, 0, (xy, xz)), 0.0, 0.0], [xy, lohi(b, 1, (yz,)), 0.0], [xz, yz, b(2, 1) - b(2, 0)]]
        have = set(P) <= set(th)
        st = none if not have else [[[S(('el', 'th', 'P' + ''.join(sorted((a, b))), i, r)) for b in 'xyz'] for a in 'xyz'] for r in range(runs) for i in range(n)]
        q = {'cell': [cellrow(i) for i in range(n)], 'coords': v3(('xu', 'yu', 'zu'), n, nat, du), 'coords_frac': v3(('xsu', 'ysu', 'zsu'), n, nat, du),
             'forces': v3(('fx', 'fy', 'fz'), n, nat, du), 'velocity': v3(('vx', 'vy', 'vz'), n, nat, du), 'natoms': S(nat), 'symbols': Exact(sy), 'timestep': S(('el', 'dt')),
             'temperature': e('Temp'), 'volume': e('Volume'), 'ekin': e('KinEng'), 'etot': e('PotEng'), 'stress': st,
             'cryst_const': none if not set(C) <= set(th) else [[S(('el', 'th', k, i, r)) for k in C] for r in range(runs) for i in range(n)]}
        u = {'velocity': (1e-3,), 'stress': (1e-4,), 'timestep': (1e3,)}
        g = {k: v if isinstance(v, Exact) else mul(v, *u.get(k, ())) for k, v in q.items() if k in ('cell', 'coords_frac', 'forces', 'velocity', 'stress', 'symbols', 'etot', 'timestep')
             and not (v is none and k in ('coords_frac', 'velocity'))}
        # x = x + |tilt|: the box is the one without the tilt in the bounds
        obj(out, 'LammpsTextMDOutputFile', files, q, ctor=ctor, what='%d atoms, %d steps, %s' % (nat, n, 'thermo %s, dump %s' % (' '.join(th[1:4]), ' '.join(du[:3]))), getcont=('get_traj', g), ranges={'box': (-3.0, 3.0)})


def specs_struct(out):
    ccon = ('a', 'b', 'c', 'alpha', 'beta', 'gamma')

    def cif(I, nat, lab, cart, unc, name='one', cell=True):
        t = "data_%s\n_audit_method  'made up'\n" % name
        u = lambda x: x + ('(3)' if unc else '')
        if cell:
            for k in (5, 0, 3, 1, 2, 4):
                t += '_cell_%s_%s   %s\n' % ('length' if k < 3 else 'angle', ccon[k], u(num(I, 'cc' + name, k)))
        t += "_symmetry_space_group_name_H-M  'P 1'\n_symmetry_Int_Tables_number  1\nloop_\n  _symmetry_equiv_pos_as_xyz\n  x,y,z\n\nloop_\n"
        cols = ['_atom_site_label'] + (['_atom_site_type_symbol'] if lab == 'type' else []) + ['_atom_site_%s_%s' % ('Cartn' if cart else 'fract', x) for x in 'zxy']
        t += ''.join('  %s\n' % c for c in cols)
        for a in range(nat):
            w = [MIX[a] + str(a + 1)] if lab != 'type' else ['X%d' % a, MIX[a] + ('3+' if a else '')]
            t += '  %s  %s\n' % ('  '.join(w), '  '.join(u(num(I, 'x' + name, a, k)) for k in (2, 0, 1)))
        return t + '\n'
    for nat, lab, cart, unc in ((1, 'type', False, False), (2, 'label', False, True), (4, 'type', False, True), (3, 'label', True, False), (4, 'label', False, False)):
        for block in (None, 'one', 'two'):
            name = block or 'one'
            files = {'s.cif': lambda I, a=(nat, lab, cart, unc): cif(I, *a) + cif(I, *a, name='two')}
            x = sym('x' + name, (nat, 3))
            q = {'symbols': Exact(MIX[:nat]), 'cryst_const': sym('cc' + name, (6,)), 'coords': x if cart else Exact(None), 'coords_frac': Exact(None) if cart else x}
            g = {'symbols': q['symbols'], 'cryst_const': q['cryst_const'], 'coords' if cart else 'coords_frac': x}
            obj(out, 'CifFile', files, q, ctor=(['s.cif'], {'block': block} if block else {}), what='%d atoms, %s, %s, block %s' % (nat, lab, 'coords' if cart else 'fract', block),
                getcont=('get_struct', g), ranges={'cc' + name: (85.0, 95.0)})
    obj(out, 'CifFile', {'s.cif': lambda I: cif(I, 2, 'type', True, False, cell=False)}, {'cryst_const': Exact(None), 'coords': sym('xone', (2, 3))}, ctor=(['s.cif'], {}), what='no cell')

    # PDB, first letter of the name column is that of the element
    def pdb(I, nat, cryst, het):
        t = 'HEADER    PROTEIN\nREMARK 210 MADE UP  1.0 2.0 3.0\n'
        if cryst:
            t += 'CRYST1   %s P 21 21 21   8\n' % '  '.join(num(I, 'cc', k) for k in range(6))
        for a in range(nat):
            t += '%s %4d  %-3s RES A   %d     %s  1.00  0.00\n' % ('HETATM' if het and a == 1 else 'ATOM  ', a + 1, MIX[a].upper(), a + 1, row(I, 'x0', a, 3))
        return t + 'END\n'
    for nat in (1, 2, 4):
        for cryst in (True, False):
            for het in (True, False):
                q = {'symbols': Exact(MIX[:nat]), 'coords': sym('x0', (nat, 3)), 'cryst_const': sym('cc', (6,)) if cryst else Exact(None)}
                obj(out, 'PDBFile', {'s.pdb': lambda I, nat=nat, cryst=cryst, het=het: pdb(I, nat, cryst, het)}, q, ctor=(['s.pdb'], {}),
                    what='%d atoms%s%s' % (nat, ', cell' if cryst else '', ', hetatm' if het else ''), getcont=('get_struct', q if cryst else {'symbols': q['symbols'], 'coords': q['coords']}),
                    ranges={'cc': (85.0, 95.0)})

    # what write_cif writes is what CifFile reads
    for nat in (1, 3):
        def call(I, F, a, k, nat=nat):
            I.fs = {}
            st = I.call(I.entity(I.prog.module_attr(I.prog.mod('crys'), 'Structure'), 'Structure'), [], {
                'coords_frac': I.ext('numpy.array', [[[Top(('el', 'xf', i, j), 'float') for j in range(3)] for i in range(nat)]], {}, None, None),
                'cryst_const': I.ext('numpy.array', [[Top(('el', 'cc', j), 'float') for j in range(6)]], {}, None, None), 'symbols': list(MIX[:nat])}, None)
            I.call(F, ['s.cif', st], {}, None)
            p = I.call(I.entity(I.prog.module_attr(I.prog.mod('parse'), 'CifFile'), 'CifFile'), ['s.cif'], {}, None)
            return I.call(I.getattr(p, 'get_struct'), [], {}, None)
        out.append(('parser', 'io', 'write_cif', None, Field(symbols=Exact(MIX[:nat]), coords_frac=sym('xf', (nat, 3)), cryst_const=sym('cc', (6,))),
                    dict(call=call, texts=True, models=READ, what='read back, %d atoms' % nat, ranges={'cc': (85.0, 95.0)})))

    # variable cell md: energies in one line
    for n in (1, 3):
        f = lambda I, n=n: pwhead(I, 2) + pwscf(I, 2, 0) + ''.join(
            '\nCELL_PARAMETERS (alat)\n%s\nATOMIC_POSITIONS (crystal)\n%s\n     Ekin =     %s Ry     T =   %s K    Etot =      %s\n' % (
                lat(I, 'c', i), ''.join('%-2s %s\n' % (SYM[a], row(I, 'x', i, a, 3)) for a in range(2)), num(I, 'K', i), num(I, 'T', i), num(I, 'EC', i)) + pwscf(I, 2, i + 1) for i in range(n))
        q = {'ekin': sym('K', (n,)), 'temperature': sym('T', (n,)), 'econst': sym('EC', (n,)), 'coords_frac': sym('x', (n, 2, 3)), 'cell': mul(sym('c', (n, 3, 3)), S(('el', 'alat')))}
        obj(out, 'PwVCMDOutputFile', {'pw.out': f}, q, what='%d steps' % n)
