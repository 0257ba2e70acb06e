"""C19: the periodic table and the species attributes derived from it."""
import ast

from ..constfold import Fold
from ..data.elements import ELEMENTS
from ..model import FunctionInfo
from ..terms import Terms, V, show

OLD = {112: ('Uub',), 113: ('Uut',), 114: ('Uuq',), 115: ('Uup',), 116: ('Uuh',), 117: ('Uus',), 118: ('Uuo',)}
# name -> (kind of the key, kind of the value)
TABLES = {'symbols': ('Z', 'symbol'), 'numbers': ('symbol', 'Z'), 'masses': ('Z', 'mass'), 'covalent_radii': ('Z', 'radius'),
          'pt': ('symbol', 'entry')}
ENTRY = {'number': 'Z', 'mass': 'mass', 'cov_rad': 'radius'}
# attribute -> (kind of the elements, what they run over)
SEQS = {'symbols': ('symbol', 'atoms'), 'symbols_unique': ('symbol', 'species'), 'znucl': ('Z', 'atoms'),
        'znucl_unique': ('Z', 'species'), 'typat': ('type', 'atoms'), 'mass': ('mass', 'atoms'), 'mass_unique': ('mass', 'species')}
DICTS = {'order': ('symbol', 'type'), 'nspecies': ('symbol', 'count')}
TEXT = {'Z': 'an atomic number', 'symbol': 'a chemical symbol', 'mass': 'a mass', 'radius': 'a radius', 'type': 'a type number (from 1)',
        'index0': 'an index (from 0)', 'count': 'a number of atoms', 'entry': 'a table entry', 'number1': 'a number (from 1)'}


def table(t):
    """name of the atomic_data table"""
    if t[0] == 'global' and 'atomic_data.' in t[1]:
        n = t[1].split('.')[-1]
        return n if n in TABLES else None
    if t[0] == 'attr':
        n = t[2]
        if n in TABLES and any(x[0] in ('mod', 'global') and 'atomic_data' in repr(x[1]) for x in t[1]):
            return n
    return None


def seqof(t):
    """(kind, axis) of a sequence term"""
    if t[0] in ('self',) and t[1] in SEQS:
        return SEQS[t[1]]
    if t[0] == 'attr' and t[2] in SEQS and not table(t):
        return SEQS[t[2]]
    if t[0] == 'param' and t[1] in SEQS:
        return SEQS[t[1]]
    if t[0] == 'param':
        return None
    if t[0] in ('keys', 'sorted', 'values') and t[0] != 'values' and len(t[1]) == 1:
        d = dictof(next(iter(t[1])))
        if d and t[0] == 'keys':
            return d[0], d[2]
        return seqof(next(iter(t[1]))) if t[0] == 'sorted' else None
    if t[0] == 'values' and len(t[1]) == 1:
        d = dictof(next(iter(t[1])))
        return (d[1], d[2]) if d else None
    if t[0] == 'map' and not t[3]:
        k = kind(t[1])
        ax = axis(t[2])
        return (k, ax)
    if t[0] == 'grow':
        return (kind(t[2]), None)
    if t[0] == 'call' and t[1].split('.')[-1] in ('array', 'asarray', 'list', 'tuple') and t[2] and len(t[2][0]) == 1:
        return seqof(next(iter(t[2][0])))
    if t[0] == 'call' and t[1] == '.tolist' and len(t[2][0]) == 1:
        return seqof(next(iter(t[2][0])))
    if t[0] == 'call' and t[1] == 'numpy.unique' and t[2] and len(t[2][0]) == 1:
        s = seqof(next(iter(t[2][0])))
        return (s[0], 'species' if s[0] == 'symbol' else None) if s else None
    d = dictof(t)
    if d:
        return d[0], d[2]
    return None


def dictof(t):
    """(key kind, value kind, axis)"""
    n = t[1] if t[0] == 'self' else t[2] if t[0] == 'attr' else t[1] if t[0] == 'param' else None
    if n in DICTS and not table(t):
        return DICTS[n] + ('species',)
    if t[0] == 'dictmap' and not t[4]:
        return kind(t[1]), kind(t[2]), axis(t[3])
    return None


def axis(v):
    out = set()
    for t in v:
        if t[0] in ('zip', ):
            out |= set(axis(x) for x in t[1])
        elif t[0] in ('enumerate', 'items', 'keys', 'values'):
            if t[0] == 'enumerate':
                out.add(axis(t[1]))
            else:
                out |= set((dictof(x) or (0, 0, None))[2] for x in t[1])
        else:
            s = seqof(t)
            out.add(s[1] if s else None)
    return out.pop() if len(out) == 1 else None


def kind(v):
    ks = set(kind1(t) for t in v)
    return ks.pop() if len(ks) == 1 else None


def kind1(t):
    if t[0] == 'elem' and len(t[1]) == 1:
        x = next(iter(t[1]))
        s = seqof(x)
        return s[0] if s else None
    if t[0] == 'index':
        ax = axis(t[1])
        return 'index0' if ax else None
    if t[0] == 'op' and t[1] == 'Add' and len(t) == 4:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if kind(a) == 'index0' and b == V(('const', 1)):
                return 'type'
        return None
    if t[0] == 'number':
        return kind(t[1])
    if t[0] == 'item':
        base = t[1]
        for b in base:
            n = table(b)
            if n:
                return TABLES[n][1]
            d = dictof(b)
            if d:
                return d[1]
            if kind1(b) == 'entry' and t[2] in ENTRY:
                return ENTRY[t[2]]
            s = seqof(b)
            if s:
                return s[0]
            if b[0] == 'item' and isinstance(t[2], str):
                k = kind1(b)
                if k == 'entry' and t[2] in ENTRY:
                    return ENTRY[t[2]]
    if t[0] == 'call' and t[1] == '.get' and len(t[2]) >= 2:
        return kind1(('item', t[2][0], t[2][1]))
    if t[0] == 'call' and t[1] in ('int', 'float') and t[2]:
        return kind(t[2][0])
    if t[0] == 'call' and t[1] == '.index' and len(t[2]) >= 2:
        s = [seqof(x) for x in t[2][0]]
        if len(s) == 1 and s[0] and s[0][1] == 'species':
            return 'index0'
    if t[0] == 'call' and t[1] == '.count':
        return 'count'
    if t[0] == 'call' and t[1] == 'map' and len(t[2]) == 2:       # map(order.get, symbols)
        f, e = t[2]
        if len(f) == 1:
            m = next(iter(f))
            if m[0] == 'attr' and m[2] in ('get', '__getitem__'):
                return kind1(('item', m[1], e))
    return None


class KTerms(Terms):
    def ev1(self, n, ctx, st):
        v = Terms.ev1(self, n, ctx, st)
        if self.visitor is not None and isinstance(n, ast.Subscript):
            b = self.quiet(n.value, ctx, st)
            if not isinstance(n.slice, ast.Slice):
                i = self.quiet(n.slice, ctx, st)
                self.visitor.lookup(ctx, n, b, i)
        return v


    def assign(self, t, v, ctx, st):
        if self.visitor is not None and isinstance(t, ast.Attribute):
            self.visitor.store(ctx, t, v)
        return Terms.assign(self, t, v, ctx, st)


class Visitor:
    def __init__(self, c):
        self.c = c
        self.seen = set()

    def opaque(self, fi):
        return fi.cls is not None and fi.name.startswith(('check_set', 'try_set', 'is_set', 'assert_'))

    def call(self, ctx, n, fv, recv, args, kws, star, st):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and recv is not None and args:
            self.lookup(ctx, n, recv, args[0])

    def store(self, ctx, n, v):
        want = {'cov_radii': ('radius', 'atoms')}.get(n.attr) or SEQS.get(n.attr)
        if want is None or len(v) != 1:
            return
        s = seqof(next(iter(v)))
        if s and s[0] is not None:
            self.c.site('stores of species attributes')
            if s[0] != want[0]:
                self.c.violate('kind', '%s|%s' % (ctx.fi.fq, n.attr), '%s:%d' % (ctx.fi.module.relpath, n.lineno),
                               '%s: the elements of %s are %s, not %s' % (ctx.fi.qual, ast.unparse(n), TEXT[s[0]], TEXT[want[0]]))

    def lookup(self, ctx, n, b, i):
        c = self.c
        for t in b:
            name = table(t)
            want = TABLES[name][0] if name else None
            if want is None:
                d = dictof(t)
                if d:
                    want, name = d[0], ast.unparse(n.value)
            if want is None:
                continue
            if name in TABLES and (ctx.fi, n.lineno) not in self.seen:
                self.seen.add((ctx.fi, n.lineno))
                c.site('lookups in the periodic table', '%s: %s' % (ctx.fi.qual, ast.unparse(n)))
            k = kind(i)
            if k is not None:
                c.site('lookups with a known key')
                if k != want:
                    c.violate('key', '%s|%s' % (ctx.fi.fq, ast.unparse(n)), '%s:%d' % (ctx.fi.module.relpath, n.lineno),
                              '%s: %s looks up %s by %s, it has to be %s' % (ctx.fi.qual, ast.unparse(n), name, TEXT[k], TEXT[want]))


GETTERS = {'get_znucl': ('Z', 'atoms'), 'get_znucl_unique': ('Z', 'species'), 'get_mass': ('mass', 'atoms'),
           'get_mass_unique': ('mass', 'species'), 'get_typat': ('type', 'atoms'), 'get_symbols_unique': ('symbol', 'species')}


def tables(c, prog):
    m = prog.mod('atomic_data')
    env = Fold(m.tree).env
    where = m.relpath
    lists = {}
    for n in ('symbols', 'masses', 'covalent_radii', 'numbers', 'pt'):
        if n not in env or not isinstance(env[n], (list, tuple, dict)):
            c.need('constant table %s' % n, 0, 1)
            return
        lists[n] = env[n]
    sy, ma, ra, nu, pt = [lists[n] for n in ('symbols', 'masses', 'covalent_radii', 'numbers', 'pt')]
    for n in ('masses', 'covalent_radii'):
        c.site('table lengths')
        if len(lists[n]) != len(sy):
            c.violate('length', n, where, 'atomic_data.%s has %d entries, symbols has %d' % (n, len(lists[n]), len(sy)))
    missing = env.get('missing', -1)
    for z in range(1, len(sy)):
        c.site('elements')
        if z >= len(ELEMENTS):
            c.violate('symbol', str(z), where, 'atomic_data.symbols[%d] = %r is no element' % (z, sy[z]))
            continue
        esy, em, er = ELEMENTS[z]
        names = (esy,) + OLD.get(z, ())
        s = sy[z]
        if s not in names:
            c.violate('symbol', '%d' % z, where, 'atomic_data.symbols[%d] is %r, element %d is %s' % (z, s, z, ' or '.join(names)))
            continue
        if z < len(ma):
            c.site('masses')
            # no stable isotope: mass number of the longest-lived one
            tol = 1.5e-2 if z > 103 else 2e-3 if z in (43, 61) or 84 <= z <= 89 or z >= 93 else 3e-4
            if not abs(ma[z] - em) <= tol * em:
                c.violate('mass', s, where, 'atomic_data.masses[%d] (%s) is %r, the mass of %s is %r' % (z, s, ma[z], s, em))
        if z < len(ra):
            c.site('radii')
            if er is None and ra[z] != missing or er is not None and not abs(ra[z] - er) <= 1e-6:
                c.violate('radius', s, where, 'atomic_data.covalent_radii[%d] (%s) is %r, the covalent radius is %r' % (z, s, ra[z], er))
        c.site('entries of pt and numbers')
        if nu.get(s) != z:
            c.violate('numbers', s, where, 'atomic_data.numbers[%r] is %r, not %d' % (s, nu.get(s), z))
        e = pt.get(s)
        exp = {'number': z, 'mass': ma[z] if z < len(ma) else None, 'cov_rad': ra[z] if z < len(ra) else None}
        if not isinstance(e, dict) or any(e.get(k) != v for k, v in exp.items()):
            c.violate('pt', s, where, 'atomic_data.pt[%r] is %r, the tables have %r' % (s, e, exp))
    for s in list(nu) + list(pt):
        if s not in sy:
            c.violate('numbers', str(s), where, 'atomic_data has an entry for %r, which is not in symbols' % (s,))


def run(c):
    c.explanation = (
        'Constant folding of the module atomic_data (lists, loops and dict displays) and comparison with an independent '
        'periodic table; a kind inference (symbol, atomic number, mass, radius, index from 0, type number from 1; over atoms or '
        'over species) on the symbolic value of every lookup and of the species attributes of Structure and Trajectory.')
    prog = c.load(with_scripts=False)
    tables(c, prog)
    vis = Visitor(c)
    T = KTerms(prog, vis, depth=2)
    cls = prog.cls('crys:Structure')
    for f in prog.all_functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        if b'atomic_data' not in f.module.source and not (f.cls is not None and f.name in GETTERS):
            continue
        names = set(n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)) | \
            set(n.id for n in ast.walk(f.node) if isinstance(n, ast.Name))
        if not names & (set(TABLES) | set(DICTS) | {'atomic_data'} | set(SEQS)):
            continue
        ctx = T.root(f)
        c.site('functions evaluated')
        if f.cls is not None and cls in f.cls.mro() and f.name in list(GETTERS) + ['get_order', 'get_ntypat', 'get_nspecies']:
            result(c, f, ctx)
        if f.module.name.endswith('lammps'):
            continue
    lammps(c, prog, vis)
    c.need('elements', c.counts['elements'], 100)
    c.need('lookups in the periodic table', c.counts['lookups in the periodic table'], 5)
    c.need('species attributes', c.counts['species attributes'], 8)


def result(c, f, ctx):
    where = '%s:%d' % (f.module.relpath, f.node.lineno)
    c.site('species attributes', f.qual)
    for v in ctx.rets:
        for t in v:
            if t == ('const', None):
                continue
            if f.name == 'get_ntypat':
                if t[0] == 'len':
                    ax = axis(t[1])
                    if ax == 'atoms':
                        c.violate('axis', f.fq, where, '%s counts the atoms, not the species' % f.qual)
                    elif ax:
                        c.site('species attributes decided')
                continue
            if f.name == 'get_order':
                d = dictof(t)
                if d:
                    for got, want, w in ((d[0], 'symbol', 'keys'), (d[1], 'type', 'values')):
                        if got is not None and got != want:
                            c.violate('kind', f.fq, where, 'the %s of %s are %s, not %s' % (w, f.qual, TEXT[got], TEXT[want]))
                    if d[2] == 'atoms':
                        c.violate('axis', f.fq, where, '%s numbers the atoms, not the species' % f.qual)
                    c.site('species attributes decided')
                continue
            if f.name == 'get_nspecies':
                d = dictof(t)
                if d:
                    c.site('species attributes decided')
                    if d[0] is not None and d[0] != 'symbol' or d[1] not in (None, 'count'):
                        c.violate('kind', f.fq, where, '%s does not map symbols to numbers of atoms' % f.qual)
                continue
            want = GETTERS[f.name]
            s = seqof(t)
            if s is None:
                continue
            if s[0] is not None and s[0] != want[0]:
                c.violate('kind', f.fq, where, 'the elements of %s are %s, not %s' % (f.qual, TEXT[s[0]], TEXT[want[0]]))
            elif s[1] is not None and s[1] != want[1]:
                c.violate('axis', f.fq, where, 'the elements of %s run over the %s, not the %s' % (f.qual, s[1], want[1]))
            elif None not in s:
                c.site('species attributes decided')


def lammps(c, prog, vis):
    """numbers written to LAMMPS files count from 1"""
    f = prog.func('lammps:struct_str')
    if f is None:
        return
    hit = []

    class W(Visitor):
        def lookup(self, *a):
            pass

    class LT(KTerms):
        def mkstr(self, parts):
            for p in parts:
                if not isinstance(p, str):
                    hit.append(p)
            return KTerms.mkstr(self, parts)
    LT(prog, W(c), depth=2).root(f)
    for v in hit:
        k = kind(v)
        if k:
            c.site('numbers written to LAMMPS files')
        if k == 'index0':
            c.violate('kind', f.fq + '|' + show(v)[:60], '%s:%d' % (f.module.relpath, f.node.lineno),
                      '%s writes an index that counts from 0 (%s)' % (f.qual, show(v)[:60]))
