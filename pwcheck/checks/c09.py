"""C09: OpenMP regions are free of data races."""
import os

from ..core import AnalysisBroken
from ..fortran import parse_file
from ..fortran_an import Analysis, race_check, all_stmts, static_of

FILES = ['src/_ext_src/flib.f90', 'src/_ext_src/dcd.f90']


def load(c):
    out = []
    for rel in FILES:
        path = os.path.join(c.repo or "/repo", rel)
        if not os.path.exists(path):
            raise AnalysisBroken('%s not found' % rel)
        rs, unknown = parse_file(path)
        c.site('Fortran routines read', n=len(rs))
        if unknown:
            c.notes.setdefault('statements_not_understood', []).extend('%s:%d %s' % (rel, n, t) for n, t in unknown)
        out.append((rel, Analysis(rs)))
    return out


def run(c):
    c.explanation = (
        'Sharing analysis of the OpenMP regions in src/_ext_src/*.f90 (the build uses -fopenmp): every variable of a '
        'parallel region is classified (private clauses, loop indices, reduction, otherwise shared); a write to a shared '
        'variable has to be inside a worksharing loop and to an array element one subscript of which is an injective '
        'linear function of the parallel loop variable (the same subscript for all accesses of that array in the loop), '
        'or be guarded; private variables are assigned before they are read; reductions use their operator; routines '
        'called from a region or run without the GIL (f2py threadsafe) keep no state between calls.')
    for rel, an in load(c):
        def violate(rule, key, line, msg):
            c.violate(rule, key, '%s:%d' % (rel, line), msg)
        for n, rt in sorted(an.done.items()):
            race_check(rt, lambda w, n=1: c.site(w, n=n), violate)
            private_defined(rt, c, violate)
            if rt.r.threadsafe:
                c.site('routines run without the GIL')
                for st in sorted(set(static_of(an, n, set()))):
                    violate('static', '%s|gil|%s' % (n, st), rt.r.line,
                            '%s runs without the GIL (f2py threadsafe) and keeps %s between calls' % (n, st))
    c.need('parallel regions', c.counts['parallel regions'], 3)


def private_defined(rt, c, violate):
    """a private variable is assigned in the region before it is read"""
    from ..fortran_an import definedness
    priv = set()
    for reg in rt.regions:
        priv |= set(reg.clauses.get('private', ()))
        for s in all_stmts(reg.body if reg.kind == 'parallel' else []):
            if s.kind == 'ompdo':
                priv |= set(s.clauses.get('private', ()))
    if not priv:
        return
    c.site('private variables', n=len(priv))
    d = definedness(rt)
    for n, line, why in d.undef:
        if n in priv:
            violate('private', '%s|%s' % (rt.r.name, n), line,
                    'the private variable %s is %s in the parallel region' % (n, why))
