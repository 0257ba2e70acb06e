"""C11: Python calls of the compiled routines fit the Fortran source."""
import ast

from ..absint import Obj, V, VT, const
from ..fortran_an import definedness, names_in
from ..sweep import Sweep
from .c09 import load

MODS = {'flib.f90': 'pwtools._flib', 'dcd.f90': 'pwtools._dcd'}
FLOATS = {'builtins.float', 'float', 'numpy.float64', 'numpy.double', 'd', 'f8', 'float64', 'double', 'float_'}


class Sig:
    """the wrapper f2py generates for a routine"""

    def __init__(self, rt):
        self.rt, r = rt, rt.r
        self.inputs, opt, self.outputs, self.inout = [], [], [], set()
        passed = []
        for a in r.args:
            it = r.f2py_intent(a)
            if 'out' in it:
                self.outputs.append(a)
            if 'in' in it and ('out' not in it or 'in' in r.f2py.get(a, ())):
                passed.append(a)
                if 'out' in it:
                    self.inout.add(a)
        dims = set()
        for a in passed:
            d = r.decls.get(a)
            for lo, hi in (d.dims or ()) if d else ():
                dims |= names_in(hi or ()) | names_in(lo or ())
        for a in passed:
            d = r.decls.get(a)
            if a in dims or (d is not None and d.optional):
                opt.append(a)
            else:
                self.inputs.append(a)
        self.optional = opt
        self.keywords = set(self.inputs) | set(opt) | {'overwrite_' + a for a in self.inout}
        self.order = self.inputs + opt
        df = definedness(rt)
        self.needs_init = set()
        for a in self.inout:
            if a in df.first or any(not st.err and st.boxes.get(a) != 'full' for st, _, how in df.exits):
                self.needs_init.add(a)
        self.flags = {}
        for a in passed:
            d = r.decls.get(a)
            if d is not None and d.typ == 'integer' and d.dims is None and a not in dims:
                vals = compared(rt, a)
                if vals and not any(x.name == a and x.rw == 'r' and x.stmt.kind != 'if' for x in rt.acc):
                    self.flags[a] = vals if len(vals) > 1 else vals | {0, 1}

    def show(self):
        return '%s(%s)' % (self.rt.r.name, ', '.join(self.inputs + ['[%s]' % x for x in self.optional]))


def compared(rt, name):
    """integer constants the routine compares an argument with by equality"""
    out = set()

    def walk(e):
        if isinstance(e, tuple):
            if e and e[0] == 'bin' and e[1] in ('==', '/='):
                for a, b in ((e[2], e[3]), (e[3], e[2])):
                    if a == ('name', name) and b[0] == 'num' and b[1].isdigit():
                        out.add(int(b[1]))
            for x in e:
                walk(x)
        elif isinstance(e, list):
            for x in e:
                walk(x)
    from ..fortran_an import all_stmts
    for s in all_stmts(rt.r.body):
        if s.kind == 'if':
            for c, _ in s.arms:
                walk(c)
    return out


def run(c):
    c.explanation = (
        'Contract of every call into _flib and _dcd: the wrapper signature f2py derives (intent directives, dimension '
        'arguments that become optional) is computed from the Fortran source; at each call site reached by abstract '
        'interpretation of the package the routine exists, positional and keyword arguments fit, array arguments with a '
        'known shape tuple have the declared rank, flags carry values the routine distinguishes, an array the routine '
        'reads or leaves partly undefined is not passed uninitialised, an in/out array whose returned value is dropped is '
        'Fortran-ordered double precision memory, the number of unpacked results is right and a result named like a size '
        'is handed on to the argument of that name.')
    prog = c.load()
    sigs = {}
    for rel, an in load(c):
        mod = MODS[rel.rsplit('/', 1)[1]]
        for n, rt in an.done.items():
            sigs['%s.%s' % (mod, n)] = Sig(rt)
    parent = {}
    for m in prog.modules.values():
        for p in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(p):
                parent[id(ch)] = p
    seen_calls = set()
    mods = tuple(m + '.' for m in MODS.values())

    def info_tags(it, v, st):
        out = []
        for a in v:
            if a[0] == 'r' and a[1] in st.heap and st.heap[a[1]].kind == 'array':
                out.append((a[1], st.heap[a[1]], {t for t in st.heap[a[1]].info.get('tags', ()) if t.startswith('mem:')}))
        return out

    def retag(st, loc, drop, add=()):
        o = st.heap[loc]
        info = dict(o.info)
        info['tags'] = frozenset(t for t in info.get('tags', ()) if not t.startswith(drop)) | frozenset(add)
        st.heap[loc] = o.clone(info=info)

    def on_alloc(kind, like=False):
        def h(it, name, node, args, kw, st):
            v = it.ext_default(name, node, args, kw, st)
            if not any(a[0] == 'r' for a in v):
                v = it.alloc(node, st, Obj('array'), 'mem')
            tags = {'mem:init:' + kind}
            sh = kw.get('shape', args[0] if args else None)
            if not like and sh is not None:
                for _, o in it.objs(sh, st):
                    if o.kind == 'tuple' and o.exact:
                        n = len([k for k in o.fields if isinstance(k, int)])
                        tags.add('mem:rank:%d' % n)
                if any(a[0] == 'c' and isinstance(a[2], int) or a[0] == 't' and a[1] == 'int' for a in sh):
                    tags.add('mem:rank:1')
            npos = {'empty': 1, 'zeros': 1, 'ones': 1, 'full': 2}[kind]
            dt = kw.get('dtype', args[npos] if len(args) > npos else None)
            od = kw.get('order', args[npos + 1] if len(args) > npos + 1 else None)
            if not like:
                cs = it.consts(od) if od is not None else ['C']
                if cs is not None and len(set(cs)) == 1:
                    tags.add('mem:order:%s' % str(list(cs)[0]).upper())
                if dt is None and kind != 'full':
                    tags.add('mem:dtype:double')
                elif dt is not None:
                    nm = {a[1] for a in dt if a[0] in ('x', 'ext')} | {a[2] for a in dt if a[0] == 'c'} | \
                        {a[1] for a in dt if len(a) > 1 and isinstance(a[1], str)}
                    if nm & FLOATS or any(str(x).endswith('float64') or str(x) == 'float' for x in nm):
                        tags.add('mem:dtype:double')
            for a in v:
                if a[0] == 'r' and a[1] in st.heap and st.heap[a[1]].kind == 'array':
                    retag(st, a[1], 'mem:', tags)
            return v
        return h

    def on_order(it, name, node, args, kw, st):
        v = it.ext_default(name, node, args, kw, st)
        if name == 'numpy.asfortranarray':
            v = it.alloc(node, st, Obj('array', info={'tags': frozenset(['mem:order:F'])}), 'mem')
        return v

    def on_mutate(it, st, loc):
        o = st.heap.get(loc)
        if o is not None and o.kind == 'array' and any(t == 'mem:init:empty' for t in o.info.get('tags', ())):
            retag(st, loc, 'mem:init:')

    def listener(sw, it, kind, node, kw):
        if kind == 'mutate':
            if sw.cur is not None:
                on_mutate(it, kw['st'], kw['loc'])
            return
        if kind != 'ext_call' or not kw['name'].startswith(mods):
            return
        name, args, kws, st = kw['name'], kw['args'], kw['kw'], kw['st']
        f = it.where(node) if hasattr(it, 'where') else ''
        where = it.where(node)
        sig = sigs.get(name)
        fn = name.split('.', 1)[1]
        # identity by enclosing function, not by line
        fr = it.frames[-1] if getattr(it, 'frames', None) else None
        key = '%s|%s' % (where.split(':')[0], fn)
        seen_calls.add(id(node))
        if sig is None:
            c.violate('routine', key, where, 'there is no routine %s in the Fortran source' % fn)
            return
        c.site('calls of compiled routines (contexts)')
        bound = {}
        if len(args) > len(sig.order):
            c.violate('arity', key, where, '%d arguments, %s takes at most %d' % (len(args), sig.show(), len(sig.order)))
            return
        for n, v in zip(sig.order, args):
            bound[n] = v
        for n, v in kws.items():
            if n not in sig.keywords:
                c.violate('arity', key + '|' + n, where, '%s has no argument %r' % (sig.show(), n))
            elif n in bound:
                c.violate('arity', key + '|' + n, where, 'argument %r of %s given twice' % (n, sig.show()))
            else:
                bound[n] = v
        for n in sig.inputs:
            if n not in bound:
                c.violate('arity', key + '|' + n, where, 'argument %r of %s is missing' % (n, sig.show()))
        p = parent.get(id(node))
        dropped = isinstance(p, ast.Expr)
        if isinstance(p, ast.Assign) and p.value is node and isinstance(p.targets[0], (ast.Tuple, ast.List)) and \
                not any(isinstance(e, ast.Starred) for e in p.targets[0].elts) and \
                len(p.targets[0].elts) != len(sig.outputs) and len(sig.outputs) > 1:
            c.violate('results', key, where, '%d results unpacked, %s returns %s' % (
                len(p.targets[0].elts), fn, ', '.join(sig.outputs)))
        for n, v in bound.items():
            d = sig.rt.r.decls.get(n)
            if d is None:
                continue
            c.site('arguments of compiled routines')
            mem = info_tags(it, v, st)
            if d.dims is not None:
                for loc, o, tags in mem:
                    ranks = {int(t[9:]) for t in tags if t.startswith('mem:rank:')}
                    if n in sig.inout and len(mem) == 1 and len(ranks) == 1 and ranks != {len(d.dims)}:
                        c.violate('rank', key + '|' + n, where, 'argument %s of %s has rank %d, an array of rank %d is passed'
                                  % (n, fn, len(d.dims), list(ranks)[0]))
                    if 'mem:init:empty' in tags and n in sig.needs_init:
                        c.violate('uninitialised', key + '|' + n, where, '%s reads or only partly assigns %s, which is passed '
                                  'uninitialised (np.empty)' % (fn, n))
                    if n in sig.inout and dropped:
                        c.site('in/out results used in place')
                        od = {t[10:] for t in tags if t.startswith('mem:order:')}
                        if 'mem:order:C' in tags and len(d.dims) > 1 and ranks != {1}:
                            c.violate('in place', key + '|' + n, where, 'the value %s returns for %s is dropped, but the array '
                                      'passed is C-ordered: f2py works on a copy' % (fn, n))
                        if tags and d.typ == 'doubleprecision' and 'mem:dtype:double' not in tags and \
                                any(t.startswith('mem:init') or t.startswith('mem:order') for t in tags) and \
                                not any(a[0] == 't' for a in v):
                            c.violate('in place', key + '|' + n + '|dtype', where, 'the value %s returns for %s is dropped, but '
                                      'the array passed is not double precision: f2py works on a copy' % (fn, n))
                if dropped and n in sig.inout and not mem and any(a[0] == 'none' for a in v):
                    c.violate('in place', key + '|' + n, where, '%s of %s is None and the result is dropped' % (n, fn))
            if n in sig.flags:
                for a in v:
                    if a[0] == 'c' and isinstance(a[2], (int, bool)) and int(a[2]) not in sig.flags[n]:
                        # an argument the caller's user chose is not fixed by the code
                        c.violate('flag', key + '|' + n, where, '%s=%r, but %s only distinguishes %s' % (
                            n, a[2], fn, sorted(sig.flags[n])))
            outs = {t[6:] for t in it.tags(v, st) if t.startswith('f:out:')} if d.dims is None else set()
            peers = {o for o in outs if o in sig.order}
            if peers and n not in outs:
                c.violate('mix-up', key + '|' + n, where, 'the argument %s of %s is given the result %s' % (
                    n, fn, ', '.join(sorted(peers))))
        if dropped and not sig.inout:
            c.violate('results', key + '|dropped', where, '%s only returns its results, and they are dropped' % fn)

    def on_flib(it, name, node, args, kw, st):
        sig = sigs.get(name)
        if sig is None:
            return None
        vals = []
        for i, n in enumerate(sig.outputs):
            d = sig.rt.r.decls.get(n)
            if d is not None and d.dims is None:
                vals.append(VT('int' if d.typ == 'integer' else 'float', frozenset(['f:out:' + n])))
            else:
                vals.append(it.alloc(node, st, Obj('array'), 'flib%d' % i))
        if len(vals) == 1:
            return vals[0]
        o = Obj('tuple', fields={i: v for i, v in enumerate(vals)})
        return it.alloc(node, st, o, 'flibt')

    sw = Sweep(c, listener, private=True)
    for k in ('empty', 'zeros', 'ones', 'full'):
        sw.it.hooks_ext['numpy.' + k] = on_alloc(k)
        sw.it.hooks_ext['numpy.%s_like' % k] = on_alloc(k, like=True)
    sw.it.hooks_ext['numpy.asfortranarray'] = on_order
    for n in sigs:
        sw.it.hooks_ext[n] = on_flib
    sw.run()
    c.site('call sites of compiled routines', n=len(seen_calls))
    # call sites the interpreter did not reach
    total = 0
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in ('_flib', '_dcd'):
                total += 1
                if 'pwtools.%s.%s' % (n.func.value.id, n.func.attr) not in sigs:
                    c.violate('routine', '%s|%s' % (m.relpath, n.func.attr), '%s:%d' % (m.relpath, n.lineno),
                              'there is no routine %s.%s in the Fortran source' % (n.func.value.id, n.func.attr))
    c.notes['syntactic_call_sites'] = total
    c.need('call sites of compiled routines', len(seen_calls), 8)
