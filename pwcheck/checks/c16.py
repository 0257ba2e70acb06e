"""C16: files and descriptors are closed on every exit."""
import ast

from ..model import FunctionInfo
from ..resources import Resources, OPENERS


def run(c):
    c.explanation = (
        'Typestate analysis of every function of the package and of the scripts in bin/: each place that acquires a file, gzip stream, '
        'HDF5 file, pipe or OS descriptor (also through an alias of the opener or a package function that returns an opened '
        'file) is followed over all paths including the exceptional ones (every call may raise). At each exit the '
        'acquired object must be closed, handed to the caller, or kept in an attribute some method closes. '
        'A file object that came in as an argument must not be closed.')
    prog = c.load(with_scripts=True)
    fns = [f for f in prog.all_functions(scripts=True) if not f.module.name.startswith('script:examples')]
    seen = set()

    def site(what, fi, n):
        k = (what, fi.fq, n.lineno, n.col_offset)
        if k not in seen:
            seen.add(k)
            c.site(what, '%s:%d %s' % (fi.module.relpath, n.lineno, fi.qual))

    def report(rule, fi, n, msg, text):
        c.violate(rule, '%s|%s' % (fi.fq, text), '%s:%d' % (fi.module.relpath, n.lineno), msg)

    an = Resources(prog, site, report)
    for f in fns:
        an.summary(f)
        c.site('functions followed')
    # module level code
    for m in prog.modules.values():
        body = [s for s in m.tree.body if not (isinstance(s, ast.ImportFrom) and s.module == '__future__')]
        node = ast.parse('def _():\n pass').body[0]
        node.name = '<module>'
        node.body = body or node.body
        fi = FunctionInfo('<module>', node, m)
        fi._limports = {}
        fi.local_names = lambda: set()
        an.summary(fi)
        c.site('modules followed')
    # every syntactic acquisition was reached
    c.need('acquisitions', c.counts['files and descriptors opened'], 8)
