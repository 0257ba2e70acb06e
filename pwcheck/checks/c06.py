"""C06: physical constants and conversion factors."""
import math

from ..absint import Interp, V

TOL = 3e-6      # CODATA adjustments differ by about 1e-6 at most

h = 6.62607015e-34
e0 = 1.602176634e-19
c0 = 299792458.0
kb = 1.380649e-23
avo = 6.02214076e23
a0 = 0.529177210903e-10
Eh = 4.3597447222071e-18
th = 2.4188843265857e-17
amu = 1.66053906660e-27
EXPECT = {
    'alpha': 7.2973525693e-3, 'h': h, 'hplanck': h, 'hbar': h / (2 * math.pi), 'm0': 9.1093837015e-31, 'e0': e0,
    'mu0': 1.25663706212e-6, 'c0': c0, 'eps0': 8.8541878128e-12, 'a0': a0, 'Bohr': a0, 'Eh': Eh, 'Ha': Eh,
    'Hartree': Eh, 'Eryd': Eh / 2, 'Ry': Eh / 2, 'Rydberg': Eh / 2, 'th': th, 'thart': th, 'tryd': 2 * th, 'kb': kb,
    'avo': avo, 'dyn': 1e-5, 'R': kb * avo, 'amu': amu, 'Ang': 1e-10, 'Angstrom': 1e-10, 'fs': 1e-15, 'ps': 1e-12,
    'eV': e0, 'GPa': 1e9, 'pi': math.pi,
    'a0_to_A': a0 * 1e10, 'Bohr_to_Ang': a0 * 1e10, 'Ry_to_eV': Eh / 2 / e0, 'Ry_to_Ha': 0.5, 'Ha_to_eV': Eh / e0,
    'J_to_eV': 1 / e0, 'Ry_to_J': Eh / 2, 'J_to_rcm': 1 / (h * c0 * 100), 'Ry_to_rcm': Eh / 2 / (h * c0 * 100),
    'rcm_to_Hz': c0 * 100, 'Ry_to_Hz': Eh / 2 / h, 'eV_by_Ang3_to_Pa': e0 * 1e30, 'eV_by_Ang3_to_GPa': e0 * 1e21,
}
# relations between the constants, checked on the folded values themselves
RELATIONS = [
    ('hbar = h/2pi', lambda k: (k['hbar'], k['h'] / (2 * math.pi))),
    ('a0 = hbar/(m0 c0 alpha)', lambda k: (k['a0'], k['hbar'] / (k['m0'] * k['c0'] * k['alpha']))),
    ('Eh = alpha^2 m0 c0^2', lambda k: (k['Eh'], k['alpha'] ** 2 * k['m0'] * k['c0'] ** 2)),
    ('th = hbar/Eh', lambda k: (k['th'], k['hbar'] / k['Eh'])),
    ('eps0 mu0 c0^2 = 1', lambda k: (k['eps0'] * k['mu0'] * k['c0'] ** 2, 1.0)),
    ('R = kb avo', lambda k: (k['R'], k['kb'] * k['avo'])),
    ('a0_to_A = a0/Ang', lambda k: (k['a0_to_A'], k['a0'] / k['Ang'])),
    ('Ry_to_eV = Ry/eV', lambda k: (k['Ry_to_eV'], k['Ry'] / k['eV'])),
    ('Ha_to_eV = Ha/eV', lambda k: (k['Ha_to_eV'], k['Ha'] / k['eV'])),
    ('Ry_to_Hz = Ry/h', lambda k: (k['Ry_to_Hz'], k['Ry'] / k['h'])),
    ('avo*amu = 1 g/mol', lambda k: (k['avo'] * k['amu'], 1e-3)),
    ('eV_by_Ang3_to_GPa', lambda k: (k['eV_by_Ang3_to_GPa'], k['eV'] / k['Ang'] ** 3 / k['GPa'])),
    ('eV_by_Ang3_to_Pa', lambda k: (k['eV_by_Ang3_to_Pa'], k['eV'] / k['Ang'] ** 3)),
    ('tryd = 2 thart', lambda k: (k['tryd'], 2 * k['thart'])),
]


def run(c):
    prog = c.load()
    c.explanation = (
        'Constant propagation through the whole package: the value every name of the constants module holds after '
        'import is folded from the source and compared with an independent CODATA 2018 table (relative tolerance '
        '3e-6) and with the defining relations between the constants. Every import of a constant into another module '
        'is followed: the name bound there must fold to the value of the constant of that name.')
    c.assumptions = ['float arithmetic of the checker equals that of the interpreter running the package']
    it = Interp(prog)
    it.load()
    m = prog.mod('constants')
    env = it.modenv[m.name]
    vals = {}
    for name, exp in EXPECT.items():
        v = env.get(name)
        c.site('constant', name)
        cs = it.consts(v) if v is not None else None
        if not cs or len(cs) != 1 or not isinstance(cs[0], (int, float)):
            if v is None and name in ('pi', 'dyn', 'avo', 'R'):
                continue
            c.violate('constant', name, m.relpath, 'constants.%s is not defined as a single number' % name)
            continue
        vals[name] = cs[0]
        if not math.isclose(cs[0], exp, rel_tol=TOL):
            c.violate('constant', name, m.relpath, 'constants.%s is %.12g, CODATA value is %.12g' % (name, cs[0], exp))
    for text, fn in RELATIONS:
        try:
            a, b = fn(vals)
        except (KeyError, ZeroDivisionError):
            continue
        c.site('relation', text)
        if not math.isclose(a, b, rel_tol=TOL):
            c.violate('relation', text, m.relpath, '%s does not hold: %.12g != %.12g' % (text, a, b))
    # the same names in every other module
    special = {n: x for n, x in vals.items() if n not in ('h', 'R', 'pi', 'alpha', 'th', 'dyn', 'm0', 'e0', 'fs', 'ps') or True}
    for om in prog.modules.values():
        if om is m:
            continue
        imported = imported_from(om, m, prog)
        for local, name in imported.items():
            v = it.modenv.get(om.name, {}).get(local)
            cs = it.consts(v) if v is not None else None
            c.site('imported constant', '%s.%s' % (om.name, local))
            if name in special and cs and any(not isinstance(x, (int, float)) or not math.isclose(x, special[name], rel_tol=1e-12) for x in cs):
                c.violate('imported constant', '%s.%s' % (om.name, local), om.relpath,
                          '%s.%s holds %s, constants.%s is %.12g' % (om.name, local, cs, name, special[name]))
            if local != name and local in EXPECT and name in EXPECT and not math.isclose(EXPECT[local], EXPECT[name], rel_tol=TOL):
                c.violate('imported constant', '%s.%s as %s' % (om.name, name, local), om.relpath,
                          'constants.%s is imported under the name of another constant, %s' % (name, local))
    c.need('constants', len(vals), 40)
    c.need('imported constants', c.counts['imported constant'], 20)


def imported_from(om, m, prog):
    import ast
    out = {}
    for n in ast.walk(om.tree):
        if isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[-1] == m.name.split('.')[-1]:
            for a in n.names:
                if a.name == '*':
                    for k in EXPECT:
                        out[k] = k
                else:
                    out[a.asname or a.name] = a.name
    return out
