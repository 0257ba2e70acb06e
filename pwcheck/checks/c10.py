"""C10: the Fortran routines stay inside their arrays and define their results."""
from ..fortran_an import bounds_check, shape_check, definedness, names_in
from .c09 import load


def run(c):
    c.explanation = (
        'Analysis of every routine in src/_ext_src/*.f90 for all sizes >= 1: each subscript and section, linear in loop '
        'indices and sizes, is shown to lie in the declared bounds (Fourier-Motzkin elimination over loop bounds and '
        'guards); array expressions, assignments and calls conform in rank and symbolic length; intent(in) arrays are '
        'never written, directly or by a called routine; intent(out) results are defined on every path that does not '
        'end in an error message; no local is read before it is assigned; no routine keeps state between calls.')
    proved = 0
    for rel, an in load(c):
        def violate(rule, key, line, msg):
            c.violate(rule, key, '%s:%d' % (rel, line), msg)
        for n, rt in sorted(an.done.items()):
            r = rt.r
            proved += bounds_check(rt, lambda w, n=1: c.site(w, n=n), violate)
            shape_check(rt, lambda w, n=1: c.site(w, n=n), violate)
            for a in r.args:
                if a not in r.decls:
                    continue
                d = r.decls[a]
                if d.dims is not None and 'out' not in r.intent(a):
                    c.site('input arrays')
                    for x in rt.acc:
                        if x.name == a and x.rw == 'w':
                            violate('input', '%s|%s' % (n, a), x.line, 'the input array %s is written%s (f2py passes the '
                                    'memory of the caller\'s array)' % (a, ' by %s' % x.via if x.via else ''))
                            break
            for line, callee, i, e in rt.exprs:
                c.site('expressions passed to routines')
                ns = sorted(x for x in names_in(e) if x in r.decls)
                violate('input', '%s|%s|expr%d' % (n, callee, i), line, '%s writes its argument %d, which is an expression%s: '
                        'the compiler may write the result back' % (callee, i + 1, ' of ' + ', '.join(ns) if ns else ''))
            df = definedness(rt)
            for nm, line, why in df.undef:
                violate('undefined', '%s|%s' % (n, nm), line, '%s: %s' % (nm, why))
            for a in r.args:
                if a in r.decls and 'out' in r.intent(a) and a not in df.first and 'in' not in r.decls[a].intent:
                    c.site('results')
                    for st, line, how in df.exits:
                        if st.err:
                            continue
                        if st.boxes.get(a) != 'full':
                            violate('result', '%s|%s' % (n, a), line, 'the result %s is not fully assigned on the way to this '
                                    '%s' % (a, how))
            for st in rt.static:
                violate('static', '%s|%s' % (n, st), r.line, '%s keeps %s between calls (initialised in its declaration, '
                        'or SAVE): later calls start from the value of earlier ones' % (n, st))
    c.notes['subscripts_proved'] = proved
    c.need('subscripts', proved, 60)
