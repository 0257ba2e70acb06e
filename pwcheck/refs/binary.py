"""References for binary trajectory files (dcd): a virtual file of typed items, each with its bytes, so that a reader
with another layout, order or size of the items takes other numbers (or bytes that are no number of that type)."""
import os

from ..objint import AbsRaise, Ext, Obj, Top
from ..valnum import PI, S, acos, sym
from ..vnspec import Exact

from .files import m_open
from .readers import READ, obj, put

STUB = os.path.join(os.path.dirname(__file__), 'stubs_bin.txt')
SIZE = {'i4': 4, 'f4': 4, 'f8': 8, 'i8': 8, 'i2': 2, 'f2': 2}
NAMES = {'int32': 'i4', 'float32': 'f4', 'float64': 'f8', 'int64': 'i8', 'intc': 'i4', 'single': 'f4', 'double': 'f8', 'float': 'f8', 'int': 'i8'}


def stub(I, name):
    m = I.prog.add_stub('stubs_bin', STUB)
    return I.entity(I.prog.module_attr(m, name), name)


def code(t):
    if isinstance(t, Ext):
        t = NAMES.get(t.name.split('.')[-1])
    if isinstance(t, str):
        t = NAMES.get(t, t).lstrip('<=')
        if t in SIZE or t[:1] == 'S' and t[1:].isdigit():
            return t
    return None


def size(t):
    return SIZE[t] if t in SIZE else int(t[1:])


def prod(sh):
    n = 1
    for k in sh:
        n *= k
    return n


def plain(v):
    if isinstance(v, Top) and v.term[0] == 'const':
        v = v.term[1]
    return v if isinstance(v, int) else None


def shape_of(v):
    if isinstance(v, (tuple, list)):
        r = tuple(plain(x) for x in v)
    else:
        r = (plain(v),)
    return None if None in r else r


def m_dtype(I, args, kws, node):
    a = args[0]
    if isinstance(a, Obj) or len(args) != 1 or kws:
        return a
    outer = ()
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], list):
        a, outer = a[0], shape_of(a[1])
    if isinstance(a, list) and outer is not None:
        fs = []
        for f in a:
            t = code(f[1])
            sh = shape_of(f[2]) if len(f) > 2 else ()
            if t is None or sh is None or not isinstance(f[0], str):
                return Top(('dtype',))
            fs.append((f[0], t, sh))
        if len({f[0] for f in fs}) < len(fs):
            raise AbsRaise('ValueError', 'field name twice', node)
        n = sum(size(t) * prod(sh) for _, t, sh in fs)
        return I.call(stub(I, 'SDtype'), [fs, outer, n * prod(outer)], {}, node)
    return Top(('call', 'numpy.dtype') + tuple(repr(x) for x in args))


def one(I, f, t):
    """the item of type t at the file position"""
    pos, n = f.attrs['pos'], size(t)
    f.attrs['pos'] = pos + n
    at = 0
    for tok in f.attrs['toks']:
        if at == pos and tok[0] == n and tok[1] == t:
            v = tok[2]
            return v if isinstance(v, (int, str)) else Top(v, 'float')
        at += tok[0]
        if at > pos:
            break
    return Top(('el', 'bytes', pos, n), 'float')


def nested(sh, get):
    if not sh:
        return get()
    return [nested(sh[1:], get) for _ in range(sh[0])]


def record(I, f, dt):
    r = {}
    for n, t, sh in dt.attrs['fields']:
        v = nested(sh, lambda: one(I, f, t))
        r[n] = I.ext('numpy.array', [v], {}, None, None) if sh else v
    return r


def m_fromfile(I, args, kws, node):
    a = dict(zip(('file', 'dtype', 'count', 'sep', 'offset'), args), **kws)
    f, dt, cnt = a.get('file'), a.get('dtype', 'f8'), plain(a.get('count', -1))
    if isinstance(f, str):
        f = m_open(I, [f, 'rb'], {}, node)
    if not isinstance(f, Obj) or 'toks' not in f.attrs or cnt is None or set(a) - {'file', 'dtype', 'count', 'offset'}:
        return Top(('fromfile',))
    f.attrs['pos'] += plain(a.get('offset', 0)) or 0
    total = sum(t[0] for t in f.attrs['toks'])
    if not isinstance(dt, Obj):
        if isinstance(dt, list):
            dt = m_dtype(I, [dt], {}, node)
    sub = isinstance(dt, Obj)
    t = None if sub else code(dt)
    if not sub and t is None:
        return Top(('fromfile',))
    isz = dt.attrs['itemsize'] if sub else size(t)
    left = (total - f.attrs['pos']) // isz if isz else 0
    cnt = left if cnt < 0 else min(cnt, left)
    if not sub:
        return I.ext('numpy.array', [[one(I, f, t) for _ in range(cnt)]], {}, node, None)
    recs = [nested(dt.attrs['shape'], lambda: record(I, f, dt)) for _ in range(cnt)]
    return I.call(stub(I, 'SArr'), [recs, dt], {}, node)


def m_field(I, args, kws, node):
    recs, k = args

    def get(r):
        if isinstance(r, list):
            return [get(x) for x in r]
        if k not in r:
            raise AbsRaise('ValueError', 'no field of name %s' % k, node)
        return r[k]
    v = get(recs)
    return I.ext('numpy.array', [v], {}, node, None) if isinstance(v, list) else v


BIN = dict(READ)
BIN.update({'numpy.dtype': m_dtype, 'numpy.fromfile': m_fromfile, 'structured_field': m_field})


def toks(nstep, natoms, hdr_steps):
    t = []
    i4 = lambda v: t.append((4, 'i4', v))
    i4(84)
    t.append((4, 'S4', 'CORD'))
    for k in range(9):
        i4(hdr_steps if k == 0 else 100 + k)
    t.append((4, 'f4', ('el', 'dt')))
    for k in range(10):
        i4(24 if k == 9 else 200 + k)
    for v in (84, 164, 2):
        i4(v)
    t.append((80, 'S80', 'REMARK one'))
    t.append((80, 'S80', 'REMARK two'))
    for v in (164, 4, natoms, 4):
        i4(v)
    for s in range(nstep):
        i4(48)
        for k in range(6):
            t.append((8, 'f8', ('el', 'u', s, k)))
        i4(48)
        for x in range(3):
            i4(4 * natoms)
            for a in range(natoms):
                t.append((4, 'f4', ('el', 'x', s, a, x)))
            i4(4 * natoms)
    return t


def bin(I, *a):
    return I.call(stub(I, 'BinFile'), [toks(*a)], {}, None)


# a, gamma, b, beta, alpha, c in the file
ORDER = (0, 2, 5, 4, 3, 1)


def specs():
    out = []
    for fn in ('read_dcd_data', 'read_dcd_data_ref'):
        for nstep, nat in ((1, 1), (1, 3), (2, 2), (3, 1), (4, 3)):
            for ang in (False, True):
                u = sym('u', (nstep, 6))
                cc = [[u[s][ORDER[k]] for k in range(6)] for s in range(nstep)]
                if ang:
                    cc = [[c if k < 3 else acos(c) * 180.0 / PI for k, c in enumerate(r)] for r in cc]

                def call(I, F, a, k, nstep=nstep, nat=nat, ang=ang):
                    I.fs = {}
                    put(I, 'a.dcd', bin(I, nstep, nat, 1 if nstep > 1 else 0))
                    return I.call(F, ['a.dcd'], {'convang': True} if ang else {}, None)
                out.append(('parser', 'dcd', fn, None, (cc, sym('x', (nstep, nat, 3))),
                            dict(call=call, models=BIN, what='%d steps, %d atoms%s' % (nstep, nat, ', cosines' if ang else ''), ranges={'u': (0.1, 0.9)})))
    def head(I, F, a, k):
        I.fs = {}
        put(I, 'a.dcd', bin(I, 2, 3, 7))
        h = I.call(F, ['a.dcd'], {}, None)
        return tuple(I.getitem(h, x) for x in ('hdr', 'natoms', 'timestep', 'remark2'))
    out.append(('parser', 'dcd', 'read_dcd_header', None, (Exact('CORD'), S(3), S(('el', 'dt')), Exact('REMARK two')), dict(call=head, models=BIN)))
    none = Exact(None)
    for nat, n in ((1, 1), (3, 2), (2, 3)):
        u = sym('u', (n, 6))
        cc = [[u[s][ORDER[k]] for k in range(6)] for s in range(n)]
        ang = [[c if k < 3 else acos(c) * 180.0 / PI for k, c in enumerate(r)] for r in cc]
        for cls, main, f, ref in (('Cp2kDcdMDOutputFile', 'd/cp2k.out', 'd/PROJECT-pos-1.dcd', cc), ('LammpsDcdMDOutputFile', 'd/log.lammps', 'd/lmp.out.dcd', ang)):
            for there in (True, False):
                files = {main: lambda I: 'nothing\n'}
                if there:
                    files[f] = lambda I, n=n, nat=nat: bin(I, n, nat, 1)
                x = sym('x', (n, nat, 3))
                q = {'cryst_const': ref, 'coords': x, 'natoms': S(nat), 'nstep': S(n)} if there else dict.fromkeys(('cryst_const', 'coords', 'natoms', 'nstep'), none)
                obj(out, cls, files, dict(q, cell=none, volume=none), ctor=([main], {}), models=BIN, what='%d atoms, %d steps%s' % (nat, n, '' if there else ', no file'), ranges={'u': (0.1, 0.9)})
    return out
