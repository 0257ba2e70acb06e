"""References for numbers in text files: what is written is what is read."""
import os

from ..objint import Arr, Obj, Top
from ..valnum import arr, sym
from .md import slc

STUB = os.path.join(os.path.dirname(__file__), 'stubs_io.txt')


def stub(I, name):
    m = I.prog.add_stub('stubs_io', STUB)
    return I.entity(I.prog.module_attr(m, name), name)


def meth(I, o, name, *a):
    return I.call(I.getattr(o, name), list(a), {}, None)


def m_open(I, args, kws, node):
    name, mode = args[0], (args[1] if len(args) > 1 else kws.get('mode', 'r'))
    fs = I.__dict__.setdefault('fs', {})
    if 'w' in mode or name not in fs:
        fs[name] = I.call(stub(I, 'TextFile'), [name, mode], {}, None)
    fs[name].attrs['pos'] = 0
    return fs[name]


def opened(I, f):
    return f if isinstance(f, Obj) else m_open(I, [f], {}, None)


def m_savetxt(I, args, kws, node):
    a = dict(zip(('fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments'), args), **kws)
    if set(a) - {'fname', 'X'}:
        return Top(('savetxt',))
    f = a['fname']
    if not isinstance(f, Obj):
        f = m_open(I, [f, 'w'], {}, None)
    return meth(I, f, 'put', a['X'])


def m_loadtxt(I, args, kws, node):
    a = dict(zip(('fname', 'dtype', 'comments'), args), **kws)
    nd = a.get('ndmin', 0)
    if set(a) - {'fname', 'ndmin', 'dtype'} or nd not in (0, 1, 2):
        return Top(('loadtxt',))
    return meth(I, opened(I, a['fname']), 'take', nd)


def m_stringio(I, args, kws, node):
    f = I.call(stub(I, 'TextFile'), ['mem', 'w'], {}, None)
    if args:
        meth(I, f, 'write', args[0])
    return f


FILES = {'open': m_open, 'numpy.savetxt': m_savetxt, 'numpy.loadtxt': m_loadtxt, 'io.StringIO': m_stringio,
         'configparser.ConfigParser': lambda I, a, k, n: I.call(stub(I, 'Config'), [], {}, None)}


def specs():
    out = []
    for sh in ((4,), (1,), (2, 3), (1, 3), (3, 1), (1, 1), (2, 3, 4), (1, 2, 3), (2, 1, 3), (2, 3, 1), (1, 1, 3), (3, 1, 1), (1, 1, 1)):
        for ax in range(-len(sh), len(sh)):
            for explicit in (False, True):
                def call(I, F, a, kw, sh=sh, ax=ax, explicit=explicit):
                    mod = I.prog.mod('arrayio')
                    fn = lambda n: I.entity(I.prog.module_attr(mod, n), n)
                    k = {'axis': ax}
                    I.fs = {}
                    I.call(fn('writetxt'), ['x.txt', arr('t', sh)], dict(k), None)
                    f = m_open(I, ['x.txt'], {}, None)
                    return I.call(fn('readtxt'), [f], dict(k, shape=sh) if explicit else {}, None)
                out.append(('text file', 'arrayio', 'readtxt', None, sym('t', sh),
                            dict(call=call, models=FILES, what='%s axis=%d%s' % ('x'.join(map(str, sh)), ax, ' given' if explicit else ''))))
    return out
