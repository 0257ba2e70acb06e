"""A whole-program abstract interpreter for the Python subset used by pwtools.

Values are frozensets of atoms:
  ('c', tname, v)         constant (int, float, complex, str, bytes, bool, None, Ellipsis)
  ('r', loc)              reference to an abstract heap object
  ('f', fid, bound)       function `fid` (index in interp.funcs), bound self value or None
  ('K', ClassInfo)        class of the analysed repository
  ('m', ModuleInfo)       module of the analysed repository
  ('x', dotted)           object outside the repository (numpy.zeros, os.path, ...)
  ('xm', dotted, base)    bound method/attr of an external value (base = value)
  ('t', typ, tags)        unknown non-None value of a type, with taint tags
  ('u',)                  unbound / unset
Heap objects are immutable records `Obj`; states map loc -> Obj.  Joins are set
unions; loops over unknown sequences run to a fixpoint with widening; calls to
repository functions are inlined (bounded).  Nothing of the repository is run.
"""
import ast
import math
import re
from .model import (FunctionInfo, ClassInfo, ModuleInfo, AnalysisBroken,
                    dotted, bound_names)

E = frozenset()
UNB = ('u',)
NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def const(v):
    return ('c', type(v).__name__, v)


def T(typ, tags=E):
    return ('t', typ, tags)


def V(*atoms):
    return frozenset(atoms)


def VT(typ, tags=E):
    return frozenset([('t', typ, tags)])


ANY = VT('any')
VNONE = V(NONE)
VBOOL = V(TRUE, FALSE)
MAXATOMS = 14

SCALAR_T = {'int', 'float', 'num', 'str', 'bool', 'bytes'}


class Obj:
    __slots__ = ('kind', 'cls', 'fields', 'elem', 'root', 'exact', 'summary', 'info')

    def __init__(self, kind, cls=None, fields=None, elem=E, root=None, exact=True,
                 summary=False, info=None):
        self.kind = kind          # inst list tuple dict set array opaque iter
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.elem = elem          # summary of members not in fields
        self.root = root          # None: fresh; else label of the owner
        self.exact = exact        # fields describe the object completely
        self.summary = summary    # stands for several concrete objects
        self.info = info if info is not None else {}

    def clone(self, **kw):
        o = Obj(self.kind, self.cls, self.fields, self.elem, self.root, self.exact,
                self.summary, self.info)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class State:
    __slots__ = ('env', 'heap', 'dead')

    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.dead = False

    def copy(self):
        s = State(dict(self.env), dict(self.heap))
        return s

    def assign(self, other):
        self.env = other.env
        self.heap = other.heap
        self.dead = other.dead


def join_obj(a, b):
    if a is b:
        return a
    fields = {}
    for k in a.fields.keys() | b.fields.keys():
        x, y = a.fields.get(k), b.fields.get(k)
        if x is None:
            x = (b.elem and E) or E
            x = x | (a.elem if not a.exact else E) | V(UNB)
        if y is None:
            y = (b.elem if not b.exact else E) | V(UNB)
        fields[k] = x if x is y else norm(x | y)
    elem = a.elem if a.elem is b.elem else norm(a.elem | b.elem)
    exact = a.exact and b.exact
    if a.kind in ('list', 'tuple') and exact and len(a.fields) != len(b.fields):
        # lengths differ: collapse
        e = elem
        for v in fields.values():
            e = e | v
        e = norm(e - V(UNB))
        return Obj(a.kind, a.cls, {}, e, a.root or b.root, False, a.summary or b.summary,
                   join_info(a.info, b.info))
    kind = a.kind if a.kind == b.kind else 'opaque'
    return Obj(kind, a.cls if a.cls is b.cls else None, fields, elem, a.root or b.root,
               exact, a.summary or b.summary, join_info(a.info, b.info))


def join_info(a, b):
    if a == b:
        return a
    out = {}
    for k in a.keys() | b.keys():
        x, y = a.get(k), b.get(k)
        if x == y:
            out[k] = x
        elif isinstance(x, frozenset) or isinstance(y, frozenset):
            out[k] = (x or E) | (y or E)
        else:
            out[k] = '?'
    return out


def norm(v):
    """Widen a value with too many atoms."""
    if len(v) <= MAXATOMS:
        return v
    cs = [a for a in v if a[0] == 'c' and a[1] not in ('NoneType', 'bool')]
    rest = [a for a in v if not (a[0] == 'c' and a[1] not in ('NoneType', 'bool'))]
    if len(cs) > 6:
        ts = set()
        for a in cs:
            ts.add(T(a[1] if a[1] in ('int', 'float', 'str', 'bytes') else 'any'))
        v = frozenset(rest) | frozenset(ts)
    if len(v) > 60:
        tags = E
        for a in v:
            if a[0] == 't':
                tags |= a[2]
        keep = frozenset(a for a in v if a[0] in ('r', 'f', 'K') or a == NONE or a == UNB)
        v = keep | VT('any', tags)
    return v


def vjoin(*vs):
    out = E
    for v in vs:
        if v is not out:
            out = out | v
    return norm(out)


def join_state(a, b):
    if a is None or a.dead:
        return b
    if b is None or b.dead:
        return a
    if a is b:
        return a
    env = {}
    ae, be = a.env, b.env
    for k in ae.keys() | be.keys():
        x, y = ae.get(k), be.get(k)
        if x is y:
            env[k] = x
        elif x is None:
            env[k] = y | V(UNB)
        elif y is None:
            env[k] = x | V(UNB)
        else:
            env[k] = x if x == y else norm(x | y)
    heap = dict(a.heap)
    ah = a.heap
    for k, o in b.heap.items():
        p = ah.get(k)
        if p is None:
            heap[k] = o
        elif p is not o:
            heap[k] = join_obj(p, o)
    return State(env, heap)


def same_state(a, b):
    if a.env.keys() != b.env.keys():
        return False
    for k, v in a.env.items():
        if v != b.env[k]:
            return False
    if len(a.heap) != len(b.heap):
        return False
    for k, o in a.heap.items():
        p = b.heap.get(k)
        if p is None:
            return False
        if p is not o:
            if (p.kind != o.kind or p.exact != o.exact or p.elem != o.elem
                    or p.fields != o.fields or p.info != o.info):
                return False
    return True


class Frame:
    def __init__(self, func, env_closure=None):
        self.func = func
        self.returns = []
        self.loops = []
        self.tries = []
        self.closure = env_closure
        self.yields = E


MUTATORS_LIST = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear',
                 'update', 'setdefault', 'popitem', 'add', 'discard', '__setitem__', '__delitem__',
                 'intersection_update', 'difference_update', 'symmetric_difference_update', 'appendleft', 'popleft'}
MUTATORS_ARR = {'fill', 'resize', 'put', 'itemset', 'partition', 'setflags', 'setfield', 'byteswap_inplace'}
ALIAS_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal',
                 'values', 'items', 'keys', 'get', '__iter__', '__getitem__'}
ALIAS_ATTRS = {'T', 'real', 'imag', 'flat', 'base'}
SCALAR_ATTRS = {'shape', 'ndim', 'size', 'dtype', 'itemsize', 'nbytes', 'strides', 'flags'}
# external functions whose result may share memory with the first argument
ALIAS_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d',
               'numpy.atleast_3d', 'numpy.asfortranarray', 'numpy.ascontiguousarray',
               'numpy.asarray_chkfinite', 'numpy.squeeze', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose',
               'numpy.swapaxes', 'numpy.rollaxis', 'numpy.moveaxis', 'numpy.real', 'numpy.imag',
               'numpy.broadcast_to', 'numpy.expand_dims', 'numpy.flipud', 'numpy.fliplr', 'numpy.flip',
               'numpy.rot90', 'numpy.diagonal', 'numpy.split', 'numpy.array_split', 'numpy.require',
               'numpy.nan_to_num_inplace', 'numpy.broadcast_arrays', 'numpy.meshgrid_nocopy',
               'numpy.vsplit', 'numpy.hsplit', 'numpy.dsplit', 'numpy.lib.stride_tricks.as_strided'}
MUT_FUNCS = {'numpy.put': [0], 'numpy.place': [0], 'numpy.copyto': [0], 'numpy.fill_diagonal': [0],
             'numpy.random.shuffle': [0], 'random.shuffle': [0], 'numpy.putmask': [0],
             'numpy.add.at': [0], 'numpy.subtract.at': [0], 'numpy.multiply.at': [0],
             'numpy.put_along_axis': [0], 'heapq.heappush': [0], 'heapq.heapify': [0],
             'bisect.insort': [0], 'operator.iadd': [0], 'operator.imul': [0],
             'operator.setitem': [0], 'setattr': [0], 'delattr': [0]}
STRIP = {'strip', 'lstrip', 'rstrip', 'lower', 'upper'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'maximum',
          'minimum', 'mod', 'remainder', 'fmod', 'arctan2', 'hypot'}
UFUNC1 = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'abs', 'absolute', 'floor', 'ceil', 'negative', 'square',
          'arccos', 'arcsin', 'arctan', 'invert', 'logical_not', 'log10', 'sinh', 'cosh', 'tanh'}

BUILTIN_NAMES = set(dir(__import__('builtins'))) | {'__file__', '__name__', '__doc__', '__path__', '__package__'}


class Interp:
    comp_maybe0 = False
    trust_match = False     # assume that re.match succeeds
    def __init__(self, program, listener=None, max_depth=40, unroll=80, entry_budget=400000):
        self.prog = program
        self.funcs = []
        self.fclosure = []
        self.funcid = {}
        self.events = []
        self.listener = listener
        self.max_depth = max_depth
        self.unroll = unroll
        self.stack = []           # Frames
        self.callsites = []       # call nodes
        self.in_fix = 0
        self.allocn = {}
        self.modenv = {}          # module name -> env
        self.globheap = {}
        self.class_attrs = {}     # ClassInfo -> env of class body
        self.cur_root = None      # root label given to containers (module/class init)
        self.steps = 0
        self.budget = entry_budget
        self.default_vals = {}    # (FunctionInfo) -> {param: V}
        self.cut = 0
        self.notes = {}
        self.hooks_ext = {}       # dotted -> handler(interp, node, args, kw, st)
        self.hooks_fn = {}        # FunctionInfo.fq -> handler(interp, f, bound, st) -> outcomes | None
        self.loaded = False
        self.covered = set()      # statements that were reached

    # -------------------------------------------------------------- events
    def ev_emit(self, kind, node, **kw):
        if self.listener is not None:
            self.listener(self, kind, node, kw)

    def where(self, node):
        if self.stack:
            f = self.stack[-1].func
            if isinstance(f, FunctionInfo):
                return f.loc(node)
            m = f if hasattr(f, 'relpath') else getattr(f, 'module', None)
            return '%s:%s' % (getattr(m, 'relpath', '?'), getattr(node, 'lineno', '?'))
        return '?'

    def chain(self):
        return [getattr(fr.func, 'fq', getattr(fr.func, 'name', '?')) for fr in self.stack]

    # -------------------------------------------------------------- loading
    def load(self):
        """Interpret all module bodies abstractly (definitions, tables)."""
        for name in sorted(self.prog.modules):
            self.load_module(self.prog.modules[name])
        self.loaded = True
        return self

    def load_module(self, m):
        if m.name in self.modenv:
            return
        self.modenv[m.name] = {}
        st = State(self.modenv[m.name], self.globheap)
        old_root, self.cur_root = self.cur_root, 'global:' + m.name
        old_stack, self.stack = self.stack, []
        fr = Frame(m)
        self.stack.append(fr)
        out = self.exec_block(m.tree.body, st)
        self.stack = old_stack
        self.cur_root = old_root
        if out is not None:
            self.modenv[m.name] = out.env
            merged = dict(self.globheap)
            merged.update(out.heap)
            self.globheap = merged
            # label containers by the global's name
            for k, v in out.env.items():
                for a in v:
                    if a[0] == 'r':
                        o = self.globheap.get(a[1])
                        if o is not None and o.root == 'global:' + m.name:
                            self.globheap[a[1]] = o.clone(root='global:%s.%s' % (m.name, k))

    def new_state(self):
        return State({}, dict(self.globheap))

    # -------------------------------------------------------------- alloc
    def alloc(self, node, st, obj, key=''):
        base = (id(node), key, tuple(id(c) for c in self.callsites[-2:]))
        if obj.root is None:
            obj.root = self.cur_root
        if self.in_fix:
            loc = (base, 'L')
            old = st.heap.get(loc)
            if old is not None:
                obj = join_obj(old, obj)
                obj.summary = True
            else:
                obj.summary = True
        else:
            n = self.allocn.get(base, 0)
            if n > 400:
                loc = (base, 'L')
                old = st.heap.get(loc)
                if old is not None:
                    obj = join_obj(old, obj)
                obj.summary = True
            else:
                self.allocn[base] = n + 1
                loc = (base, n)
        st.heap[loc] = obj
        return V(('r', loc))

    def new_list(self, node, st, elems, kind='list', key=''):
        return self.alloc(node, st, Obj(kind, fields={i: v for i, v in enumerate(elems)}), key or kind)

    def new_seq(self, node, st, elem, kind='list', key=''):
        return self.alloc(node, st, Obj(kind, elem=elem, exact=False), key or kind)

    def opaque(self, st, root, path=''):
        loc = ('param', root, path)
        if loc not in st.heap:
            st.heap[loc] = Obj('opaque', root=root, exact=False, summary=bool(path), info={'path': path})
        return V(('r', loc))

    def child(self, st, loc, o, step):
        """child region of an opaque object"""
        k = ('.', step)
        v = o.fields.get(k)
        if v is not None:
            return v
        path = o.info.get('path', '')
        if path.count('.') + path.count('[') >= 4:
            return V(('r', loc))
        if o.elem and step == '[]':
            return o.elem
        return self.opaque(st, o.root, path + step)

    # -------------------------------------------------------------- helpers
    def objs(self, v, st):
        for a in v:
            if a[0] == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    o = self.globheap.get(a[1])
                    if o is None:
                        continue
                    st.heap[a[1]] = o
                yield a[1], o

    def consts(self, v):
        """list of python constants if v consists of constants only, else None"""
        out = []
        for a in v:
            if a[0] != 'c':
                return None
            out.append(a[2])
        return out

    def tags(self, v, st=None, depth=0):
        t = E
        for a in v:
            if a[0] == 't':
                t |= a[2] if not any(x.startswith('pre:') for x in a[2]) else frozenset(
                    x for x in a[2] if not x.startswith('pre:'))
            elif a[0] == 'xm':
                t |= self.tags(a[2], st, depth)
            elif a[0] == 'r' and st is not None and depth < 3:
                o = st.heap.get(a[1])
                if o is not None:
                    t |= o.info.get('tags', E)
                    if o.kind in ('list', 'tuple', 'dict', 'set', 'iter'):
                        t |= self.tags(o.elem, st, depth + 1)
                        for x in o.fields.values():
                            t |= self.tags(x, st, depth + 1)
        return t

    def truth(self, v, st):
        """set of possible truth values"""
        out = set()
        for a in v:
            k = a[0]
            if k == 'c':
                out.add(bool(a[2]))
            elif k == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    out |= {True, False}
                elif o.kind in ('list', 'tuple', 'dict', 'set') and o.exact and not o.elem:
                    if not any(UNB in x for x in o.fields.values()):
                        out.add(bool(o.fields))
                    else:
                        out |= {True, False}
                elif o.kind == 'inst':
                    if o.cls is not None and (o.cls.find('__len__') or o.cls.find('__bool__')):
                        out |= {True, False}
                    else:
                        out.add(True)
                else:
                    out |= {True, False}
            elif k in ('f', 'K', 'm', 'x'):
                out.add(True)
            elif k == 't' and 'nonempty' in a[2] and a[1] == 'str' or k == 't' and a[1] == 'match':
                out.add(True)
            elif k == 'u':
                out |= {True, False}
            else:
                out |= {True, False}
        return out

    def getfield(self, o, k):
        v = o.fields.get(k)
        if v is None:
            return o.elem if not o.exact else E
        return v

    # -------------------------------------------------------------- names
    def lookup(self, name, st, node):
        v = st.env.get(name)
        fr = self.stack[-1] if self.stack else None
        if v is not None:
            if UNB in v:
                self.ev_emit('maybe_unbound', node, name=name, v=v)
                v = v - V(UNB)
                if not v:
                    v = ANY
            return v
        f = fr.func if fr else None
        if isinstance(f, FunctionInfo):
            if name in f.local_names():
                # local but not assigned on any path so far
                self.ev_emit('unbound', node, name=name)
                return ANY
            # closure
            c = fr.closure
            while c is not None:
                env, parent = c
                if name in env:
                    return env[name] - V(UNB) or ANY
                c = parent
            m = f.module
        elif isinstance(f, ModuleInfo):
            m = f
        elif isinstance(f, ClassInfo):
            c = fr.closure
            while c is not None:
                env, parent = c
                if name in env:
                    return env[name] - V(UNB) or ANY
                c = parent
            m = f.module
        else:
            return ANY
        return self.global_name(m, name, st, node)

    def global_name(self, m, name, st, node):
        env = self.modenv.get(m.name)
        if env is None or (name not in env and not self.loaded):
            pass
        if env is not None and name in env:
            v = env[name] - V(UNB)
            return v or ANY
        r = self.prog.module_attr(m, name)
        v = self.entity(r, st) if r is not None else None
        if v is not None:
            return v
        if name in BUILTIN_NAMES:
            return V(('x', name))
        # bound at module level somewhere (e.g. script order)?
        self.ev_emit('undefined', node, name=name, module=m.name)
        return ANY

    def entity(self, r, st):
        if isinstance(r, FunctionInfo):
            return self.func_value(r)
        if isinstance(r, ClassInfo):
            return V(('K', r))
        if isinstance(r, ModuleInfo):
            return V(('m', r))
        if isinstance(r, str):
            return xval(canon(r))
        if isinstance(r, tuple) and r[0] == 'attr':
            m = r[1]
            if m.name not in self.modenv:
                self.load_module(m)
            env = self.modenv.get(m.name, {})
            if r[2] in env:
                return env[r[2]] - V(UNB) or ANY
            e = self.prog.module_attr(m, r[2])
            if e is not None and not isinstance(e, tuple):
                return self.entity(e, st)
        return None

    def func_value(self, f, bound=None, closure=None):
        k = (f, id(closure) if closure is not None else None)
        i = self.funcid.get(k)
        if i is None:
            i = len(self.funcs)
            self.funcs.append(f)
            self.fclosure.append(closure)
            self.funcid[k] = i
        return V(('f', i, bound))

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None or st.dead:
                return None
            self.steps += 1
            self.covered.add(s)
            fr = self.stack[-1]
            if fr.tries:
                fr.tries[-1].append(st.copy())
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                continue
            st = m(s, st)
        if st is not None and st.dead:
            return None
        return st

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def st_Pass(self, s, st):
        return st

    def st_Global(self, s, st):
        return st
    st_Nonlocal = st_Global

    def st_Import(self, s, st):
        fr = self.stack[-1]
        f = fr.func
        m = f if isinstance(f, ModuleInfo) else f.module
        self.ev_emit('import', s)
        for name, t in self.prog.import_targets(m, s):
            if isinstance(t, tuple) and t[0] == 'star':
                mm = t[1]
                self.load_module(mm)
                for k, v in self.modenv[mm.name].items():
                    if not k.startswith('_'):
                        st.env[k] = v
                for k in list(mm.functions) + list(mm.classes):
                    if not k.startswith('_') and k not in st.env:
                        st.env[k] = self.entity(self.prog.module_attr(mm, k), st)
                continue
            if isinstance(t, tuple) and t[0] == 'attr':
                v = self.entity(t, st)
                if v is None:
                    # compiled extension or unknown
                    full = t[1].name + '.' + t[2]
                    v = V(('x', full))
            elif isinstance(t, str):
                v = xval(canon(t))
            else:
                v = self.entity(t, st)
            st.env[name] = v
        return st
    st_ImportFrom = st_Import

    def st_FunctionDef(self, s, st):
        fr = self.stack[-1]
        cur = fr.func
        m = cur if isinstance(cur, ModuleInfo) else cur.module
        f = m.fn_by_node[s]
        self.eval_defaults(f, st)
        closure = None
        if isinstance(cur, FunctionInfo):
            closure = (st.env, fr.closure)
        v = self.func_value(f, closure=closure)
        for d in reversed(s.decorator_list):
            dn = dotted(d.func if isinstance(d, ast.Call) else d)
            if dn in ('staticmethod', 'classmethod', 'property') or (dn or '').endswith('wraps'):
                continue
            dv = self.ev(d, st)
            if any(a[0] == 'K' for a in dv):
                continue            # lazyprop-like descriptor, handled at attribute access
            if any(a[0] == 'f' for a in dv):
                res = self.call_value(dv, d, [v], {}, st)
                if any(a[0] == 'f' for a in res):
                    v = frozenset(a for a in res if a[0] == 'f')
        if isinstance(cur, ClassInfo):
            self.class_attrs.setdefault(cur, {})[s.name] = v
        st.env[s.name] = v
        return st
    st_AsyncFunctionDef = st_FunctionDef

    def eval_defaults(self, f, st):
        a = f.node.args
        vals = {}
        old, self.cur_root = self.cur_root, None
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.cur_root = 'default:%s.%s' % (f.fq, p.arg)
            vals[p.arg] = self.ev(d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.cur_root = 'default:%s.%s' % (f.fq, p.arg)
                vals[p.arg] = self.ev(d, st)
        self.cur_root = old
        self.default_vals[f] = vals

    def st_ClassDef(self, s, st):
        fr = self.stack[-1]
        cur = fr.func
        m = cur if isinstance(cur, ModuleInfo) else cur.module
        c = m.fn_by_node[s]
        fr2 = Frame(c, (st.env, fr.closure))
        self.stack.append(fr2)
        old, self.cur_root = self.cur_root, 'class:' + c.fq
        st2 = State({}, st.heap)
        out = self.exec_block(s.body, st2)
        self.stack.pop()
        self.cur_root = old
        if out is not None:
            st.heap = out.heap
            d = self.class_attrs.setdefault(c, {})
            for k, v in out.env.items():
                for a in v:
                    if a[0] == 'r':
                        o = st.heap.get(a[1])
                        if o is not None and o.root == 'class:' + c.fq:
                            st.heap[a[1]] = o.clone(root='class:%s.%s' % (c.fq, k))
                d[k] = v
        st.env[s.name] = V(('K', c))
        return st

    def st_Return(self, s, st):
        x = s.value
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) or isinstance(x, ast.Compare) and len(x.ops) == 1 \
                and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            # a boolean result: keep what it says about the state
            for c, s2 in zip((TRUE, FALSE), self.cond(x, st)):
                if s2 is not None and not s2.dead:
                    self.ev_emit('return', s, v=V(c), st=s2)
                    self.stack[-1].returns.append((V(c), s2))
            return None
        if isinstance(x, ast.Call):
            for v, s2 in self.call_multi(x, st):
                if not s2.dead:
                    self.ev_emit('return', s, v=v, st=s2)
                    self.stack[-1].returns.append((v, s2))
            return None
        v = self.ev(s.value, st) if s.value is not None else VNONE
        if st.dead:
            return None
        self.ev_emit('return', s, v=v, st=st)
        self.stack[-1].returns.append((v, st))
        return None

    def st_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.ev_emit('raise', s)
        return None

    def st_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        if f is not None and s.msg is not None:
            self.ev(s.msg, f)
        return t

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.mutate(b, st, t, 'del []')
                for loc, o in list(self.objs(b, st)):
                    if o.kind == 'dict' and o.exact:
                        ks = self.consts(k)
                        if ks and len(ks) == 1 and ks[0] in o.fields and not o.summary:
                            fl = dict(o.fields)
                            fl.pop(ks[0])
                            st.heap[loc] = o.clone(fields=fl)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.mutate(b, st, t, 'del attr ' + t.attr)
        return st

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.getattr_v(base, t.attr, st, t)
        else:
            base = self.ev(t.value, st)
            key = self.ev(t.slice, st)
            cur = self.subscript(base, key, st, t)
        r = self.ev(s.value, st)
        self.ev_emit('augassign', s, cur=cur, r=r, st=st)
        # in-place on the object itself (lists, arrays, opaque)
        mutated = False
        for loc, o in list(self.objs(cur, st)):
            if o.kind in ('list', 'array', 'opaque', 'set'):
                self.mutate(V(('r', loc)), st, s, 'augmented assignment')
                mutated = True
                if o.kind == 'array':
                    self.aug_array(loc, s, r, st)
                if o.kind == 'list':
                    ro = list(self.objs(r, st))
                    if isinstance(s.op, ast.Add):
                        e = E
                        for _, x in ro:
                            e = e | x.elem
                            for y in x.fields.values():
                                e = e | y
                        if (o.exact and len(ro) == 1 and len(r) == 1 and ro[0][1].exact and not o.summary):
                            n = len(o.fields)
                            fl = dict(o.fields)
                            for i in sorted(k for k in ro[0][1].fields if isinstance(k, int)):
                                fl[n + i] = ro[0][1].fields[i]
                            st.heap[loc] = o.clone(fields=fl)
                        else:
                            self.weak_elem(st, loc, e or ANY)
        new = self.binop(s.op, cur, r, st, s)
        # keep references for in-place objects
        refs = frozenset(a for a in cur if a[0] == 'r' and st.heap.get(a[1]) is not None and
                         st.heap[a[1]].kind in ('list', 'array', 'opaque', 'set'))
        if refs:
            others = E
            nonref = frozenset(a for a in cur if a not in refs)
            if nonref:
                others = self.binop(s.op, nonref, r, st, None)
            new = norm(refs | others)
            self.fill_note(cur, st, s)
        if isinstance(t, ast.Name):
            st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            self.setattr_v(base, t.attr, new, st, s)
        else:
            self.setitem(base, key, new, st, s, aug=True)
        return st

    def fill_note(self, v, st, node):
        pass

    def aug_array(self, loc, s, r, st):
        pass

    def st_If(self, s, st):
        t, f = self.cond(s.test, st)
        self.ev_emit('if', s, t=t is not None, f=f is not None)
        a = self.exec_block(s.body, t) if t is not None else None
        b = self.exec_block(s.orelse, f) if f is not None else None
        return join_state(a, b)

    def st_While(self, s, st):
        fr = self.stack[-1]
        exits = None
        if not self.in_fix:
            # run iterations whose condition is decided exactly
            for n in range(60):
                probe = st.copy()
                l, self.listener = self.listener, None
                try:
                    t, f = self.cond(s.test, probe)
                finally:
                    self.listener = l
                if (t is None) == (f is None):
                    break
                t, f = self.cond(s.test, st)
                if t is None:
                    exits = join_state(exits, f)
                    st = None
                    break
                fr.loops.append(([], []))
                out = self.exec_block(s.body, t)
                brk, cont = fr.loops.pop()
                if brk and out is None and not cont:
                    for b in brk:
                        exits = join_state(exits, b)
                    return exits
                for b in brk:
                    exits = join_state(exits, b)
                for c in cont:
                    out = join_state(out, c)
                st = out
                if st is None:
                    break
            if st is None:
                if exits is not None and s.orelse:
                    exits = self.exec_block(s.orelse, exits)
                return exits
        self.in_fix += 1
        cur = st
        # counters have any value, like the elements of a range
        for n in [x for y in s.body for x in ast.walk(y)]:
            name = None
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                name = n.target.id
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.BinOp) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in (n.value.left, n.value.right)):
                name = n.targets[0].id
            v = cur.env.get(name) if name is not None else None
            if v and all(a[0] == 'c' and a[1] == 'int' for a in v):
                cur.env[name] = VT('int')
        for it in range(12):
            before = cur.copy()
            t, f = self.cond(s.test, cur)
            exits = join_state(exits, f.copy() if f is not None else None)
            if t is None:
                break
            fr.loops.append(([], []))
            out = self.exec_block(s.body, t)
            brk, cont = fr.loops.pop()
            for b in brk:
                exits = join_state(exits, b)
            for c in cont:
                out = join_state(out, c)
            if out is None:
                break
            nxt = join_state(before, out)
            if same_state(nxt, before):
                break
            if it > 5:
                self.widen(before, nxt)
            cur = nxt
        self.in_fix -= 1
        if exits is not None and s.orelse:
            exits = self.exec_block(s.orelse, exits)
        return exits

    def widen(self, old, new):
        for k, v in list(new.env.items()):
            if old.env.get(k) != v:
                new.env[k] = self.widen_v(v)
        for l, o in list(new.heap.items()):
            p = old.heap.get(l)
            if p is not None and p is not o:
                fl = {k: (x if p.fields.get(k) == x else self.widen_v(x)) for k, x in o.fields.items()}
                e = o.elem if p.elem == o.elem else self.widen_v(o.elem)
                new.heap[l] = o.clone(fields=fl, elem=e)

    def widen_v(self, v):
        ts = set()
        keep = set()
        for a in v:
            if a[0] == 'c' and a[1] not in ('NoneType', 'bool'):
                ts.add(T(a[1] if a[1] in ('int', 'float', 'str', 'bytes') else 'any'))
            else:
                keep.add(a)
        return frozenset(keep) | frozenset(ts)

    def st_For(self, s, st):
        fr = self.stack[-1]
        it = self.ev(s.iter, st)
        if st.dead:
            return None
        self.ev_emit('iter', s.iter, v=it, st=st)
        items = self.exact_items(it, st)
        exits = None
        if items is not None and len(items) <= self.unroll:
            cur = st
            self.ev_emit('for', s, n=len(items))
            for x in items:
                self.assign(s.target, x, cur, s)
                fr.loops.append(([], []))
                out = self.exec_block(s.body, cur)
                brk, cont = fr.loops.pop()
                for b in brk:
                    exits = join_state(exits, b)
                for c in cont:
                    out = join_state(out, c)
                cur = out
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.exec_block(s.orelse, cur)
            return join_state(exits, cur)
        elem = self.iter_elem(it, st, s.iter)
        self.in_fix += 1
        nonempty = self.nonempty(it, st)
        cur = st
        norm_exit = None if nonempty else st.copy()
        for k in range(10):
            before = cur.copy()
            self.assign(s.target, elem, cur, s)
            fr.loops.append(([], []))
            out = self.exec_block(s.body, cur)
            brk, cont = fr.loops.pop()
            for b in brk:
                exits = join_state(exits, b)
            for c in cont:
                out = join_state(out, c)
            if out is None:
                break
            norm_exit = join_state(norm_exit, out.copy())
            nxt = join_state(before, out)
            if same_state(nxt, before):
                break
            if k > 4:
                self.widen(before, nxt)
            cur = nxt
        self.in_fix -= 1
        if norm_exit is not None and s.orelse:
            norm_exit = self.exec_block(s.orelse, norm_exit)
        return join_state(exits, norm_exit)

    def nonempty(self, v, st):
        return False

    def st_Break(self, s, st):
        fr = self.stack[-1]
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def st_Continue(self, s, st):
        fr = self.stack[-1]
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def st_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    def st_Try(self, s, st):
        fr = self.stack[-1]
        fr.tries.append([])
        pre = st.copy()
        out = self.exec_block(s.body, st)
        mid = fr.tries.pop()
        if out is not None:
            mid.append(out)
        exc = pre
        for m in mid:
            exc = join_state(exc, m)
        res = None
        if out is not None:
            res = self.exec_block(s.orelse, out.copy()) if s.orelse else out
        for h in s.handlers:
            h_st = exc.copy()
            if h.type is not None:
                self.ev(h.type, h_st)
            if h.name:
                h_st.env[h.name] = VT('exc')
            r = self.exec_block(h.body, h_st)
            res = join_state(res, r)
        if s.finalbody:
            if res is not None:
                return self.exec_block(s.finalbody, res)
            self.exec_block(s.finalbody, exc.copy())
            return None
        return res
    st_TryStar = st_Try

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            fr = self.stack[-1]
            if isinstance(fr.func, FunctionInfo) and fr.func._globals is None:
                fr.func.local_names()
            if isinstance(fr.func, FunctionInfo) and t.id in fr.func._globals:
                self.ev_emit('global_write', node, name=t.id)
                c = fr.closure
                while c is not None:
                    env, parent = c
                    if t.id in env:
                        env[t.id] = vjoin(env[t.id], v)
                        return
                    c = parent
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr_v(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.setitem(b, k, v, st, node, keynode=t.slice)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.new_seq(t, st, self.iter_elem(v, st, t)), st, node)

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = any(isinstance(e, ast.Starred) for e in t.elts)
        self.ev_emit('unpack', t, v=v, st=st, n=n)
        vals = None
        if not star:
            parts = []
            for a in v:
                it = self.exact_items(V(a), st)
                if it is not None and len(it) == n:
                    parts.append(it)
                elif it is not None:
                    self.ev_emit('unpack_mismatch', t, n=n, got=len(it), st=st)
                else:
                    e = self.iter_elem(V(a), st, t)
                    parts.append([e] * n)
            if parts:
                vals = [vjoin(*[p[i] for p in parts]) for i in range(n)]
        if vals is None:
            e = self.iter_elem(v, st, t)
            vals = [e] * n
        for x, y in zip(t.elts, vals):
            self.assign(x, y, st, node)

    def setattr_v(self, base, attr, v, st, node):
        self.none_check(base, st, node, 'attribute store .%s' % attr)
        locs = list(self.objs(base, st))
        strong = len(locs) == 1 and len([a for a in base if a != NONE]) == 1
        for loc, o in locs:
            self.ev_emit('setattr', node, loc=loc, obj=o, attr=attr, v=v, st=st)
            if o.kind == 'inst':
                if o.root is not None:
                    self.mutate(V(('r', loc)), st, node, 'attribute store .%s' % attr)
                fl = dict(o.fields)
                if strong and not o.summary:
                    fl[attr] = v
                else:
                    fl[attr] = vjoin(fl.get(attr, V(UNB)), v)
                st.heap[loc] = o.clone(fields=fl)
            elif o.kind == 'opaque':
                self.mutate(V(('r', loc)), st, node, 'attribute store .%s' % attr)
                fl = dict(o.fields)
                k = ('.', '.' + attr)
                fl[k] = v if strong and not o.summary else vjoin(fl.get(k, self.child(st, loc, o, '.' + attr)), v)
                st.heap[loc] = o.clone(fields=fl)
            else:
                self.mutate(V(('r', loc)), st, node, 'attribute store .%s' % attr)
        for a in base:
            if a[0] == 'K':
                self.ev_emit('class_write', node, cls=a[1], attr=attr)
            elif a[0] == 'm':
                self.ev_emit('module_write', node, mod=a[1].name, attr=attr)
            elif a[0] == 'x':
                self.ev_emit('ext_write', node, dotted=a[1], attr=attr)
            elif a[0] == 'f':
                self.ev_emit('func_write', node, func=getattr(a[1], 'fq', str(a[1])), attr=attr)

    def weak_elem(self, st, loc, v):
        o = st.heap[loc]
        st.heap[loc] = o.clone(elem=vjoin(o.elem, v), exact=False)

    def setitem(self, base, key, v, st, node, aug=False, keynode=None):
        self.none_check(base, st, node, 'item store')
        ks = self.consts(key)
        locs = list(self.objs(base, st))
        strong = len(locs) == 1 and len([a for a in base if a != NONE]) == 1
        self.ev_emit('setitem', node, base=base, key=key, v=v, st=st, keynode=keynode)
        for loc, o in locs:
            self.mutate(V(('r', loc)), st, node, 'item assignment')
            o = st.heap[loc]
            if o.kind in ('dict', 'list'):
                if ks is not None and len(ks) == 1 and _hashable(ks[0]) and not o.summary and \
                        (o.kind == 'dict' or (isinstance(ks[0], int) and ks[0] in o.fields)):
                    fl = dict(o.fields)
                    fl[ks[0]] = v if strong else vjoin(fl.get(ks[0], V(UNB) if o.exact else o.elem), v)
                    st.heap[loc] = o.clone(fields=fl)
                elif ks is not None and o.kind == 'dict' and len(ks) <= 40 and not o.summary:
                    fl = dict(o.fields)
                    for k in ks:
                        fl[k] = vjoin(fl.get(k, V(UNB) if o.exact else o.elem), v)
                    st.heap[loc] = o.clone(fields=fl)
                else:
                    e = v
                    fl = o.fields
                    if o.kind == 'list':
                        fl = {k: vjoin(x, v) for k, x in o.fields.items()}
                        st.heap[loc] = o.clone(fields=fl)
                    else:
                        fl = {k: vjoin(x, v) for k, x in o.fields.items()}
                        st.heap[loc] = o.clone(fields=fl, elem=vjoin(o.elem, e), exact=False)
            elif o.kind == 'opaque':
                pass
            elif o.kind == 'array':
                self.array_store(loc, key, v, st, node)

    def array_store(self, loc, key, v, st, node):
        o = st.heap[loc]
        tg = self.tags(v, st)
        inf = dict(o.info)
        if tg - inf.get('tags', E):
            inf['tags'] = inf.get('tags', E) | tg
        st.heap[loc] = o.clone(info=inf)

    def mutate(self, v, st, node, how):
        for loc, o in self.objs(v, st):
            self.ev_emit('mutate', node, loc=loc, obj=o, how=how, st=st)

    # -------------------------------------------------------------- conditions
    def cond(self, e, st):
        """(state if true | None, state if false | None); st is consumed."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return f, t
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                fs = None
                cur = st
                for x in e.values:
                    t, f = self.cond(x, cur)
                    fs = join_state(fs, f)
                    if t is None:
                        return None, fs
                    cur = t
                return cur, fs
            ts = None
            cur = st
            for x in e.values:
                t, f = self.cond(x, cur)
                ts = join_state(ts, t)
                if f is None:
                    return ts, None
                cur = f
            return ts, cur
        if isinstance(e, ast.Call):
            outs = self.call_multi(e, st)
            ts = fs = None
            for v, s in outs:
                tv = self.truth(v, s)
                if True in tv:
                    s2 = s.copy() if False in tv else s
                    ts = join_state(ts, s2)
                if False in tv:
                    fs = join_state(fs, s)
            if ts is not None or fs is not None:
                ts, fs = self.refine_call(e, ts, fs)
            return ts, fs
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return self.cond_compare(e, st)
        v = self.ev(e, st)
        if st.dead:
            return None, None
        tv = self.truth(v, st)
        t = f = None
        if True in tv:
            t = st.copy()
            self.refine_truth(e, v, t, True)
        if False in tv:
            f = st
            self.refine_truth(e, v, f, False)
        return t, f

    def refine_truth(self, e, v, st, val):
        keep = frozenset(a for a in v if val in self.truth(V(a), st))
        self.store_refined(e, keep, v, st)

    def store_refined(self, e, keep, v, st):
        if not keep or keep == v:
            return
        if isinstance(e, ast.Name):
            if e.id in st.env:
                st.env[e.id] = keep
        elif isinstance(e, ast.Attribute):
            b = self.ev_quiet(e.value, st)
            for loc, o in list(self.objs(b, st)):
                if len(b) == 1 and o.kind == 'inst' and e.attr in o.fields:
                    fl = dict(o.fields)
                    fl[e.attr] = keep
                    st.heap[loc] = o.clone(fields=fl)
                elif len(b) == 1 and o.kind == 'opaque':
                    fl = dict(o.fields)
                    fl[('.', '.' + e.attr)] = keep
                    st.heap[loc] = o.clone(fields=fl)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2:
            b = self.ev_quiet(e.args[0], st)
            k = self.consts(self.ev_quiet(e.args[1], st))
            for loc, o in list(self.objs(b, st)):
                if len(b) == 1 and o.kind == 'inst' and k and len(k) == 1 and k[0] in o.fields:
                    fl = dict(o.fields)
                    fl[k[0]] = keep
                    st.heap[loc] = o.clone(fields=fl)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in STRIP and not e.args:
            b = self.ev_quiet(e.func.value, st)
            kt = any(a[0] != 'c' for a in keep)
            k2 = frozenset(a for a in b if (const(getattr(a[2], e.func.attr)()) in keep if a[0] == 'c' and isinstance(a[2], str) else kt))
            self.store_refined(e.func.value, k2, b, st)
        elif isinstance(e, ast.Subscript):
            b = self.ev_quiet(e.value, st)
            k = self.consts(self.ev_quiet(e.slice, st))
            for loc, o in list(self.objs(b, st)):
                if len(b) == 1 and o.kind in ('dict', 'list') and k and len(k) == 1 and k[0] in o.fields:
                    fl = dict(o.fields)
                    fl[k[0]] = keep
                    st.heap[loc] = o.clone(fields=fl)

    def ev_quiet(self, e, st):
        l, self.listener = self.listener, None
        try:
            s = st.copy()
            return self.ev(e, s)
        finally:
            self.listener = l

    def refine_call(self, e, ts, fs):
        if isinstance(e.func, ast.Attribute) and e.func.attr in STRIP and not e.args:
            for s, val in ((ts, True), (fs, False)):
                if s is not None:
                    v = self.ev_quiet(e, s)
                    self.refine_truth(e, v, s, val)
        return ts, fs

    def cond_compare(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.comparators[0], st)
        op = e.ops[0]
        if st.dead:
            return None, None
        res = self.compare(op, l, r, st, e)
        t = st.copy() if True in res else None
        f = st if False in res else None
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos, neg = (t, f) if isinstance(op, (ast.Is, ast.Eq)) else (f, t)
            rc = self.consts(r)
            lc = self.consts(l)
            if rc is not None and len(rc) == 1:
                self.refine_eq(e.left, l, rc[0], pos, neg, isinstance(op, (ast.Is, ast.IsNot)))
            elif lc is not None and len(lc) == 1:
                self.refine_eq(e.comparators[0], r, lc[0], pos, neg, isinstance(op, (ast.Is, ast.IsNot)))
        for le, re_, rv, flip in ((e.left, e.comparators[0], r, False), (e.comparators[0], e.left, l, True)):
            islen = isinstance(le, ast.Call) and isinstance(le.func, ast.Name) and le.func.id == 'len' and len(le.args) == 1
            if (islen or isinstance(le, ast.Attribute) and le.attr == 'size') and (t is not None and f is not None):
                # which of the possible objects have such a length
                what = le.args[0] if islen else le.value
                v = self.ev_quiet(what, f)
                if len(v) > 1:
                    kt, kf = set(), set()
                    for a in v:
                        n = self.x_len(e, [V(a)], {}, f) if islen else self.getattr_v(V(a), 'size', f, e)
                        res = self.compare(op, rv, n, f, None) if flip else self.compare(op, n, rv, f, None)
                        if True in res:
                            kt.add(a)
                        if False in res:
                            kf.add(a)
                    self.store_refined(what, frozenset(kt), v, t)
                    self.store_refined(what, frozenset(kf), v, f)
        if isinstance(op, (ast.In, ast.NotIn)):
            pos, neg = (t, f) if isinstance(op, ast.In) else (f, t)
            lc = self.consts(l)
            if pos is not None and lc is not None and len(lc) == 1 and any(a[0] == 't' and 'mapping' in a[2] for a in r):
                keep = frozenset(T(a[1], a[2] | {'has:%s' % str(lc[0]).rsplit('_', 1)[0]}) if a[0] == 't' else a for a in r)
                self.store_refined(e.comparators[0], keep, r, pos)
            if lc is not None and len(lc) == 1 and _hashable(lc[0]):
                for x, there in ((pos, True), (neg, False)):
                    for loc, o in list(self.objs(r, x)) if x is not None else []:
                        if o.kind == 'dict' and (len(r) == 1 or there and not o.exact) and \
                                (lc[0] in o.fields or there and not o.exact):
                            fl = dict(o.fields)
                            if there:
                                fl[lc[0]] = (fl.get(lc[0], E) - V(UNB)) or o.elem or ANY
                            else:
                                fl.pop(lc[0])
                            x.heap[loc] = o.clone(fields=fl)
            items = self.exact_items(r, st)
            if items is not None and all(self.consts(i) is not None and len(i) == 1 for i in items):
                vals = [self.consts(i)[0] for i in items]
                kin, kout, dunno = set(), set(), False
                for a in l:
                    if a[0] == 'c':
                        (kin if any(_ceq(a[2], x) for x in vals) else kout).add(a)
                    else:
                        kin.add(a)
                        kout.add(a)
                unk = [a for a in l if a[0] == 't']
                if pos is not None:
                    if unk and all(isinstance(x, (str, int, float)) for x in vals):
                        # unknown scalar: becomes one of the listed constants
                        ks = frozenset(a for a in kin if a[0] != 't') | frozenset(const(x) for x in vals)
                        self.store_refined(e.left, ks, l, pos)
                    else:
                        self.store_refined(e.left, frozenset(kin), l, pos)
                if neg is not None:
                    self.store_refined(e.left, frozenset(kout), l, neg)
        return t, f

    def refine_eq(self, ln, lv, c, pos, neg, is_):
        if pos is not None:
            keep = frozenset(a for a in lv if (a[0] == 'c' and _ceq(a[2], c)) or
                             (a[0] not in ('c', 'r', 'f', 'K', 'm') and c is not None and not is_))
            if type(c) is int and not is_ and any(
                    a[0] == 'r' and a[1] in pos.heap and '.shape[' in pos.heap[a[1]].info.get('path', '') for a in lv):
                keep |= V(const(c))
            if c is not None and not is_ and any(a[0] == 't' for a in keep) and isinstance(c, (str, bool, int)):
                # equality with a constant
                keep = frozenset(a for a in keep if a[0] == 'c') | V(const(c))
            if keep:
                self.store_refined(ln, keep, lv, pos)
        if neg is not None:
            keep = frozenset(a for a in lv if not (a[0] == 'c' and _ceq(a[2], c)))
            if keep:
                self.store_refined(ln, keep, lv, neg)

    def compare(self, op, l, r, st, node):
        """set of possible outcomes (bool)"""
        out = set()
        if isinstance(op, (ast.Is, ast.IsNot)):
            for a in l:
                for b in r:
                    if a[0] == 'c' and b[0] == 'c':
                        x = {_ceq(a[2], b[2])}
                    elif NONE in (a, b):
                        o = a if b == NONE else b
                        x = {False} if o[0] != 'u' else {True, False}
                    elif a[0] in ('K', 'f', 'm', 'x') and b[0] in ('K', 'f', 'm', 'x'):
                        x = {a == b}
                    else:
                        x = {True, False}
                    if isinstance(op, ast.IsNot):
                        x = {not y for y in x}
                    out |= x
            return out or {True, False}
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for a in l:
                for b in r:
                    x = self.eq_atoms(a, b, st)
                    if isinstance(op, ast.NotEq):
                        x = {not y for y in x}
                    out |= x
            return out or {True, False}
        if isinstance(op, (ast.In, ast.NotIn)):
            for b in r:
                if b[0] == 'c' and isinstance(b[2], str):
                    for a in l:
                        if a[0] == 'c' and isinstance(a[2], str):
                            out.add(a[2] in b[2])
                        else:
                            out |= {True, False}
                elif b[0] == 'r' and b[1] in st.heap and st.heap[b[1]].kind in ('list', 'tuple', 'dict', 'set') \
                        and st.heap[b[1]].exact:
                    o = st.heap[b[1]]
                    for a in l:
                        if o.kind in ('dict',):
                            if a[0] == 'c' and _hashable(a[2]):
                                if a[2] in o.fields:
                                    fv = o.fields[a[2]]
                                    out |= {True, False} if UNB in fv else {True}
                                else:
                                    out.add(False)
                            else:
                                out |= {True, False} if o.fields else {False}
                        else:
                            poss = set()
                            anytrue = False
                            res = {False}
                            for x in o.fields.values():
                                sub = set()
                                for y in x:
                                    sub |= self.eq_atoms(a, y, st) if y != UNB else {False}
                                if sub == {True}:
                                    res = {True}
                                    break
                                if True in sub:
                                    res = {True, False}
                            out |= res
                else:
                    out |= {True, False}
            if isinstance(op, ast.NotIn):
                out = {not x for x in out}
            return out or {True, False}
        lc, rc = self.consts(l), self.consts(r)
        self.cmp_none(l, r, st, node)
        if lc is not None and rc is not None and len(lc) * len(rc) <= 36:
            for x in lc:
                for y in rc:
                    try:
                        if isinstance(op, ast.Lt):
                            out.add(x < y)
                        elif isinstance(op, ast.LtE):
                            out.add(x <= y)
                        elif isinstance(op, ast.Gt):
                            out.add(x > y)
                        elif isinstance(op, ast.GtE):
                            out.add(x >= y)
                    except Exception:
                        pass
            return out or {True, False}
        return {True, False}

    def cmp_none(self, l, r, st, node):
        for v in (l, r):
            if NONE in v:
                self.ev_emit('none', node, v=v, how='ordering comparison', st=st)

    def eq_atoms(self, a, b, st):
        if a[0] == 'c' and b[0] == 'c':
            return {_ceq(a[2], b[2])}
        if NONE in (a, b):
            o = a if b == NONE else b
            if o[0] in ('r', 'f', 'K', 'm', 'x', 't'):
                return {False}
        if a[0] == 'c' and b[0] == 't' and b[1] in SCALAR_T and isinstance(a[2], str) and b[1] not in ('str',):
            return {False}
        if b[0] == 'c' and a[0] == 't' and a[1] in SCALAR_T and isinstance(b[2], str) and a[1] not in ('str',):
            return {False}
        for x, y in ((a, b), (b, a)):
            if x[0] == 't' and x[1] == 'str' and 'nonempty' in x[2] and y[0] == 'c' and isinstance(y[2], str) and not y[2].strip():
                return {False}
            if x[0] in ('f', 'K', 'm') and y[0] in ('c', 'f', 'K', 'm'):
                return {x == y}
            if x[0] == 'r' and y[0] == 'c':
                o = st.heap.get(x[1])
                if o is not None and o.kind in ('list', 'tuple', 'dict', 'set', 'inst', 'iter'):
                    return {False}
        if a[0] == 'r' and b[0] == 'r':
            o, p = st.heap.get(a[1]), st.heap.get(b[1])
            if o is not None and p is not None and o.kind == p.kind and o.kind in ('list', 'tuple') and o.exact and p.exact:
                if set(o.fields) != set(p.fields):
                    return {False}
                res = {True}
                for k in o.fields:
                    sub = set()
                    for x in o.fields[k]:
                        for y in p.fields[k]:
                            sub |= self.eq_atoms(x, y, st) if 'u' not in (x[0], y[0]) else {True, False}
                    if sub == {False}:
                        return {False}
                    if False in sub:
                        res = {True, False}
                return res
        return {True, False}

    # -------------------------------------------------------------- iteration
    def exact_items(self, v, st):
        """ordered list of item values when v is one exactly known sequence"""
        if len(v) != 1:
            return None
        (a,) = v
        if a[0] == 'c':
            if isinstance(a[2], str) and len(a[2]) <= 12:
                return [V(const(c)) for c in a[2]]
            if isinstance(a[2], range) and len(a[2]) <= self.unroll:
                return [V(const(i)) for i in a[2]]
            return None
        if a[0] != 'r':
            return None
        o = st.heap.get(a[1])
        if o is None:
            return None
        if o.kind in ('list', 'tuple', 'iter') and o.exact and not o.elem:
            if any(not isinstance(k, int) for k in o.fields):
                return None
            if any(UNB in x for x in o.fields.values()):
                return None
            return [o.fields[i] for i in sorted(o.fields)]
        if o.kind == 'set' and o.exact and not o.elem and len(o.fields) <= 1:
            return [o.fields[i] for i in o.fields]
        if o.kind == 'dict' and o.exact and not o.elem:
            if any(UNB in x for x in o.fields.values()):
                return None
            return [V(const(k)) if not isinstance(k, tuple) else ANY for k in o.fields]
        return None

    def iter_elem(self, v, st, node):
        """value of an arbitrary element when iterating over v"""
        out = E
        for a in v:
            k = a[0]
            if k == 'c':
                if isinstance(a[2], str):
                    out |= VT('str')
                elif isinstance(a[2], range):
                    if len(a[2]) <= 6:
                        out |= frozenset(const(i) for i in a[2])
                    else:
                        out |= VT('int')
                elif a[2] is None:
                    self.ev_emit('none', node, v=v, how='iteration', st=st)
            elif k == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    out |= ANY
                elif o.kind in ('list', 'tuple', 'set', 'iter'):
                    out |= o.elem
                    for x in o.fields.values():
                        out |= x
                    out -= V(UNB)
                elif o.kind == 'dict':
                    for x in o.fields:
                        out |= V(const(x)) if _isconst(x) else ANY
                    if not o.exact:
                        out |= VT('any')
                elif o.kind == 'opaque':
                    out |= self.child(st, a[1], o, '[]')
                elif o.kind == 'array':
                    out |= V(a)
                elif o.kind == 'inst':
                    m = o.cls.find('__iter__') if o.cls else None
                    if m is not None:
                        rv = self.call_value(self.func_value(m, V(a)), node, [], {}, st)
                        nx = E
                        for l2, o2 in self.objs(rv, st):
                            if o2.kind == 'inst' and o2.cls is not None and o2.cls.find('__next__'):
                                nx |= self.call_value(self.func_value(o2.cls.find('__next__'), V(('r', l2))), node, [], {}, st)
                            else:
                                nx |= self.iter_elem(V(('r', l2)), st, node)
                        out |= nx or ANY
                    elif o.cls is not None and o.cls.find('__getitem__'):
                        out |= self.call_value(self.func_value(o.cls.find('__getitem__'), V(a)), node, [VT('int')], {}, st)
                    else:
                        out |= ANY
                else:
                    out |= ANY
            elif k == 't':
                if a[1] == 'str':
                    out |= VT('str', a[2])
                elif a[1] in ('int', 'float', 'num', 'bool'):
                    out |= VT('any', a[2])
                elif a[1].startswith('list:') or a[1].startswith('file'):
                    out |= VT('str', a[2])
                else:
                    out |= VT('any', a[2])
            else:
                out |= ANY
        return norm(out) or ANY

    # -------------------------------------------------------------- expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            self.cut += 1
            return ANY
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return ANY
        return m(e, st)

    def ev_Constant(self, e, st):
        return V(const(e.value))

    def ev_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def ev_Tuple(self, e, st):
        return self.seq_display(e, st, 'tuple')

    def ev_List(self, e, st):
        return self.seq_display(e, st, 'list')

    def ev_Set(self, e, st):
        return self.seq_display(e, st, 'set')

    def seq_display(self, e, st, kind):
        vals = []
        exact = True
        extra = E
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                it = self.exact_items(v, st)
                if it is None:
                    exact = False
                    extra |= self.iter_elem(v, st, x)
                else:
                    vals.extend(it)
            else:
                vals.append(self.ev(x, st))
        if exact:
            return self.new_list(e, st, vals, kind)
        return self.new_seq(e, st, vjoin(extra, *vals), kind)

    def ev_Dict(self, e, st):
        fl, elem, exact = {}, E, True
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, st)
            if k is None:
                for loc, o in self.objs(v, st):
                    if o.kind == 'dict':
                        fl.update(o.fields)
                        elem |= o.elem
                        exact = exact and o.exact
                    else:
                        exact = False
                        elem |= ANY
                continue
            kc = self.consts(self.ev(k, st))
            if kc is not None and len(kc) == 1 and _hashable(kc[0]):
                fl[kc[0]] = v
            else:
                exact = False
                elem |= v
        return self.alloc(e, st, Obj('dict', fields=fl, elem=elem, exact=exact), 'dict')

    def ev_JoinedStr(self, e, st):
        parts = []
        tags = E
        ok = True
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, st)
                if x.format_spec is not None:
                    self.ev(x.format_spec, st)
                tags |= self.tags(v, st)
                c = self.consts(v)
                if c is not None and len(c) == 1 and x.format_spec is None and x.conversion == -1 and c[0] is not None:
                    parts.append(str(c[0]))
                else:
                    ok = False
        if ok:
            return V(const(''.join(parts)))
        return VT('str', tags)

    def ev_FormattedValue(self, e, st):
        self.ev(e.value, st)
        return VT('str')

    def ev_Lambda(self, e, st):
        fr = self.stack[-1]
        cur = fr.func
        m = cur if isinstance(cur, ModuleInfo) else cur.module
        f = m.fn_by_node[e]
        self.eval_defaults(f, st)
        closure = (st.env, fr.closure) if not isinstance(cur, ModuleInfo) else None
        return self.func_value(f, closure=closure)

    def ev_IfExp(self, e, st):
        t, f = self.cond(e.test, st.copy())
        out = E
        res = None
        if t is not None:
            out |= self.ev(e.body, t)
            res = join_state(res, None if t.dead else t)
        if f is not None:
            out |= self.ev(e.orelse, f)
            res = join_state(res, None if f.dead else f)
        if res is None:
            st.dead = True
            return ANY
        st.env, st.heap = res.env, res.heap
        return norm(out)

    def ev_BoolOp(self, e, st):
        out = E
        cur = st.copy()
        ends = None
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            if i == len(e.values) - 1:
                v = self.ev(x, cur)
                out |= v
                ends = join_state(ends, None if cur.dead else cur)
                break
            # value if short-circuits
            c2 = cur.copy()
            v = self.ev_quiet(x, c2)
            tv = self.truth(v, c2)
            t, f = self.cond(x, cur)
            stop, go = (f, t) if isand else (t, f)
            if stop is not None:
                out |= frozenset(a for a in v if (not isand) in self.truth(V(a), stop))
                ends = join_state(ends, stop)
            if go is None:
                break
            cur = go
        if ends is None:
            st.dead = True
            return ANY
        st.env, st.heap = ends.env, ends.heap
        return norm(out) or VBOOL

    def ev_Compare(self, e, st):
        if len(e.ops) == 1:
            l = self.ev(e.left, st)
            r = self.ev(e.comparators[0], st)
            self.ev_emit('compare', e, l=l, r=r, st=st)
            arr = any(self.arraylike(a, st) for a in l | r) and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn))
            res = self.compare(e.ops[0], l, r, st, e)
            if arr:
                return VT('any', self.tags(l, st) | self.tags(r, st))
            return frozenset(const(x) for x in res if isinstance(x, bool)) or VBOOL
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        return VBOOL

    def arraylike(self, a, st):
        if a[0] == 't':
            return a[1] in ('any', 'array')
        if a[0] == 'r':
            o = st.heap.get(a[1])
            return o is None or o.kind in ('array', 'opaque')
        return False

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st.copy())
            out = set()
            res = join_state(t, f)
            if res is not None:
                st.env, st.heap = res.env, res.heap
            if t is not None:
                out.add(FALSE)
            if f is not None:
                out.add(TRUE)
            return frozenset(out) or VBOOL
        v = self.ev(e.operand, st)
        c = self.consts(v)
        if c is not None:
            out = set()
            for x in c:
                try:
                    out.add(const(-x if isinstance(e.op, ast.USub) else +x if isinstance(e.op, ast.UAdd) else ~x))
                except Exception:
                    if x is None:
                        self.ev_emit('none', e, v=v, how='arithmetic', st=st)
                    out.add(T('any'))
            return frozenset(out)
        if NONE in v:
            self.ev_emit('none', e, v=v, how='arithmetic', st=st)
        return self.arith_result(v, E, st)

    def ev_BinOp(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.right, st)
        return self.binop(e.op, l, r, st, e)

    def arith_result(self, l, r, st):
        tags = self.tags(l, st) | self.tags(r, st)
        for a in l | r:
            if self.arraylike(a, st):
                return VT('any', tags)
        ts = set(a[1] for a in l | r if a[0] in ('t', 'c'))
        if ts and ts <= {'int', 'bool'}:
            return VT('int', tags)
        if ts and ts <= {'int', 'float', 'num', 'bool'}:
            return VT('num', tags)
        if ts == {'str'}:
            return VT('str', tags)
        return VT('any', tags)

    def binop(self, op, l, r, st, node):
        if node is not None:
            self.ev_emit('binop', node, op=op, l=l, r=r, st=st)
        lc, rc = self.consts(l), self.consts(r)
        if lc is not None and rc is not None and len(lc) * len(rc) <= 36:
            out = set()
            for x in lc:
                for y in rc:
                    if (x is None or y is None) and not (isinstance(op, ast.Mod) and isinstance(x, str)):
                        if node is not None:
                            self.ev_emit('none', node, v=l if x is None else r, how='arithmetic', st=st)
                        continue
                    w = fold_bin(op, x, y)
                    out.add(const(w) if w is not FAIL else T('any'))
            return norm(frozenset(out)) or ANY
        # string formatting
        if isinstance(op, ast.Mod) and lc is not None and all(isinstance(x, str) for x in lc):
            return self.str_mod(lc, r, st, node)
        if node is not None:
            for v in (l, r):
                if NONE in v and not (isinstance(op, ast.Mod)):
                    self.ev_emit('none', node, v=v, how='arithmetic', st=st)
        # list operations
        lo = list(self.objs(l, st))
        ro = list(self.objs(r, st))
        if isinstance(op, ast.Add) and lo and all(o.kind in ('list', 'tuple') for _, o in lo):
            if len(lo) == 1 and len(ro) == 1 and len(l) == 1 and len(r) == 1 and lo[0][1].exact and ro[0][1].exact \
                    and ro[0][1].kind in ('list', 'tuple'):
                a, b = self.exact_items(l, st), self.exact_items(r, st)
                if a is not None and b is not None:
                    return self.new_list(node or op, st, a + b, lo[0][1].kind, key='add')
            return self.new_seq(node or op, st, vjoin(self.iter_elem(l, st, node), self.iter_elem(r, st, node)), lo[0][1].kind, key='add')
        if isinstance(op, ast.Mult):
            for xs, other in ((lo, r), (ro, l)):
                if xs and all(o.kind in ('list', 'tuple') for _, o in xs):
                    it = self.exact_items(frozenset(('r', k) for k, _ in xs), st)
                    c = self.consts(other)
                    if it is not None and c is not None and len(c) == 1 and isinstance(c[0], int) and len(it) * c[0] <= 100:
                        return self.new_list(node or op, st, it * c[0], xs[0][1].kind, key='mul')
                    if not any(o.kind in ('array', 'opaque') for _, o in lo + ro):
                        return self.new_seq(node or op, st, self.iter_elem(frozenset(('r', k) for k, _ in xs), st, node), xs[0][1].kind, key='mul')
        if isinstance(op, ast.Sub) and lo and all(o.kind == 'set' for _, o in lo):
            return self.new_seq(node or op, st, self.iter_elem(l, st, node), 'set', key='sub')
        # user classes with operators
        return self.arith_result(l, r, st)

    def str_mod(self, lc, r, st, node):
        items = None
        ro = [o for _, o in self.objs(r, st)]
        if len(r) == 1 and ro and ro[0].kind == 'tuple':
            items = self.exact_items(r, st)
        elif len(r) == 1 and ro and ro[0].kind == 'dict':
            items = None
        elif not ro:
            items = [r] if not any(a[0] == 't' and a[1] in ('any', 'tuple') for a in r) else None
        if node is not None:
            self.ev_emit('strmod', node, fmt=lc, items=items, r=r, st=st)
        if items is not None and len(lc) == 1:
            convs = [x for x in re.findall(r'%[-+ #0]*[\d*]*(?:\.[\d*]+)?([a-zA-Z%])', lc[0]) if x != '%']
            for x, v in zip(convs, items):
                if x in 'idouxXeEfFgG' and NONE in v:
                    self.ev_emit('none', node, v=v, how='formatting with %' + x, st=st)
        tags = self.tags(r, st)
        if items is not None and len(lc) == 1:
            cs = [self.consts(i) for i in items]
            if all(c is not None and 1 <= len(c) <= 4 for c in cs):
                import itertools
                out = set()
                for combo in itertools.islice(itertools.product(*cs), 16):
                    try:
                        out.add(const(lc[0] % tuple(combo)))
                    except Exception:
                        out.add(T('str'))
                return frozenset(out)
        if len(lc) == 1:
            pre = self.mod_prefix(lc[0], items)
            if pre:
                return VT('str', tags | {'pre:' + pre})
        return VT('str', tags)

    def mod_prefix(self, fmt, items):
        """the known leading text of fmt % items"""
        out = ''
        i = n = 0
        while i < len(fmt):
            if fmt[i] != '%':
                out += fmt[i]
                i += 1
                continue
            if fmt[i + 1:i + 2] == '%':
                out += '%'
                i += 2
                continue
            if items is None or n >= len(items) or fmt[i + 1:i + 2] not in ('s', 'i', 'd'):
                break
            c = self.consts(items[n])
            if c is None or len(c) != 1:
                break
            try:
                out += ('%' + fmt[i + 1]) % (c[0],)
            except Exception:
                break
            n += 1
            i += 2
        return out

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return VT('slice')

    def ev_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else VNONE
        self.stack[-1].yields |= v
        return ANY

    def ev_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.stack[-1].yields |= self.iter_elem(v, st, e)
        return ANY

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def comp(self, e, st, elts):
        """evaluate generators; returns (list of item value tuples or None, summary values)"""
        saved = {}
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            saved[n] = st.env.get(n)
        results = []
        exact = [True]

        def rec(i, s):
            if s is None or s.dead:
                return s
            if i == len(e.generators):
                results.append(tuple(self.ev(x, s) for x in elts))
                return s
            g = e.generators[i]
            it = self.ev(g.iter, s)
            items = self.exact_items(it, s)
            if i == 0 and items is None:
                self.comp_maybe0 = any(self.exact_items(V(a), s) == [] for a in it if a[0] == 'r')
            if items is not None and len(items) <= self.unroll:
                cur = s
                for x in items:
                    self.assign(g.target, x, cur, g.iter)
                    t = cur
                    f = None
                    for c in g.ifs:
                        if t is None:
                            break
                        t, f2 = self.cond(c, t)
                        if f2 is not None and t is not None:
                            exact[0] = False
                        f = join_state(f, f2)
                    if t is not None:
                        t = rec(i + 1, t)
                    nxt = join_state(t, f)
                    if nxt is None:
                        return None
                    cur = nxt
                return cur
            exact[0] = False
            el = self.iter_elem(it, s, g.iter)
            self.in_fix += 1
            try:
                self.assign(g.target, el, s, g.iter)
                t, f = s.copy(), s
                for c in g.ifs:
                    if t is None:
                        break
                    t, f2 = self.cond(c, t)
                    f = join_state(f, f2)
                if t is not None:
                    t = rec(i + 1, t)
            finally:
                self.in_fix -= 1
            return join_state(t, f)

        s2 = rec(0, st.copy())
        if s2 is None:
            st.dead = True
            return results, False
        st.heap = s2.heap
        env = s2.env
        for n, v in saved.items():
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
        st.env.clear()
        st.env.update(env)
        return results, exact[0]

    def ev_ListComp(self, e, st, kind='list'):
        self.comp_maybe0 = False
        res, exact = self.comp(e, st, [e.elt])
        if exact:
            return self.new_list(e, st, [r[0] for r in res], kind)
        if self.comp_maybe0:
            self.comp_maybe0 = False
            return self.new_list(e, st, [], kind, key='none') | self.new_seq(e, st, vjoin(*[r[0] for r in res]), kind)
        return self.new_seq(e, st, vjoin(*[r[0] for r in res]), kind)

    def ev_SetComp(self, e, st):
        return self.ev_ListComp(e, st, 'set')

    def ev_GeneratorExp(self, e, st):
        return self.ev_ListComp(e, st, 'iter')

    def ev_DictComp(self, e, st):
        res, exact = self.comp(e, st, [e.key, e.value])
        fl = {}
        elem = E
        for k, v in res:
            kc = self.consts(k)
            if kc is not None and len(kc) == 1 and _hashable(kc[0]):
                fl[kc[0]] = v
            else:
                exact = False
                elem |= v
        return self.alloc(e, st, Obj('dict', fields=fl, elem=elem, exact=exact), 'dict')

    # -------------------------------------------------------------- attribute
    def none_check(self, v, st, node, how):
        if NONE in v:
            self.ev_emit('none', node, v=v, how=how, st=st)

    def ev_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr_v(b, e.attr, st, e)

    def class_lookup(self, cls, attr, st):
        """(value, FunctionInfo|None) from the MRO, or None"""
        for c in cls.mro():
            if attr in c.methods:
                # a class-level assignment of the same name may come later; methods win here
                return ('method', c.methods[attr], c)
            d = self.class_attrs.get(c)
            if d is not None and attr in d:
                return ('value', d[attr], c)
        return None

    def getattr_v(self, base, attr, st, node, default=None):
        out = E
        self.none_check(base, st, node, 'attribute .%s' % attr)
        for a in base:
            k = a[0]
            if k == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    o = self.globheap.get(a[1])
                    if o is None:
                        out |= ANY
                        continue
                    st.heap[a[1]] = o
                out |= self.obj_attr(a, o, attr, st, node, default)
            elif k == 'm':
                out |= self.mod_attr(a[1], attr, st, node)
            elif k == 'K':
                r = self.class_lookup(a[1], attr, st)
                if r is None:
                    if attr in ('__name__', '__doc__', '__module__'):
                        out |= V(const(a[1].name)) if attr == '__name__' else VT('str')
                    elif attr == '__init__':
                        out |= ANY
                    else:
                        if not a[1].has_ext_base():
                            self.ev_emit('missing_attr', node, cls=a[1], attr=attr, st=st)
                        out |= ANY
                elif r[0] == 'method':
                    f = r[1]
                    out |= self.func_value(f, V(a)) if f.is_classmethod() else self.func_value(f)
                else:
                    out |= r[1]
            elif k == 'x':
                out |= xval(canon(a[1] + '.' + attr))
            elif k == 't':
                out |= self.typ_attr(a, attr, st, node)
            elif k == 'c':
                if a[2] is None:
                    if default is not None:
                        out |= default
                    continue
                out |= V(('xm', attr, V(a)))
            elif k == 'f':
                if attr == '__name__':
                    out |= V(const(self.funcs[a[1]].name))
                else:
                    out |= ANY
            elif k == 'xm':
                out |= self.getattr_v(self.xm_value(a, st), attr, st, node) if a[1] != '__dict__' else V(('xm', attr, V(a)))
            elif k == 'sup':
                out |= self.super_attr(a, attr, st, node)
            elif k == 'u':
                pass
        return norm(out) or ANY

    def super_attr(self, a, attr, st, node):
        cls, me = a[1], a[2]
        out = E
        for loc, o in self.objs(me, st):
            if o.kind != 'inst' or o.cls is None:
                continue
            mro = o.cls.mro()
            if cls not in mro:
                continue
            for c in mro[mro.index(cls) + 1:]:
                if attr in c.methods:
                    out |= self.func_value(c.methods[attr], V(('r', loc)))
                    break
                d = self.class_attrs.get(c)
                if d is not None and attr in d:
                    out |= d[attr]
                    break
            else:
                if attr == '__init__':
                    out |= V(('x', 'object.__init__'))
                elif not o.cls.has_ext_base():
                    self.ev_emit('missing_attr', node, cls=o.cls, attr='super().' + attr, st=st)
        return out or ANY

    def mod_attr(self, m, attr, st, node):
        if m.name not in self.modenv:
            self.load_module(m)
        env = self.modenv.get(m.name, {})
        if attr in env:
            return env[attr] - V(UNB) or ANY
        r = self.prog.module_attr(m, attr)
        if r is not None:
            v = self.entity(r, st)
            if v is not None:
                return v
        if attr in ('__name__', '__file__', '__doc__', '__dict__'):
            return VT('str')
        self.ev_emit('missing_mod_attr', node, mod=m, attr=attr)
        return V(('x', m.name + '.' + attr))

    def typ_attr(self, a, attr, st, node):
        if attr in SCALAR_ATTRS and a[1] in ('any', 'array'):
            if attr == 'shape':
                return VT('any')
            if attr == 'size' and a[1] == 'array' and 'empty1d' in a[2]:
                return V(const(0))
            return VT('int') if attr in ('ndim', 'size') else VT('any')
        if attr in ALIAS_ATTRS and a[1] in ('array',):
            return V(a)
        return V(('xm', attr, V(a)))

    def obj_attr(self, a, o, attr, st, node, default=None):
        loc = a[1]
        if o.kind == 'inst':
            v = o.fields.get(attr)
            if v is not None:
                if UNB in v:
                    r = self.class_lookup(o.cls, attr, st) if o.cls is not None else None
                    if r is None and default is None:
                        self.ev_emit('maybe_missing_attr', node, cls=o.cls, attr=attr, st=st)
                    v = v - V(UNB)
                    if default is not None:
                        v = v | default
                    if r is not None and r[0] == 'value':
                        v = v | r[1]
                    return v or ANY
                return v
            if attr == '__dict__':
                return V(('xm', '__dict__', V(a)))
            if attr == '__class__':
                return V(('K', o.cls)) if o.cls is not None else ANY
            if o.cls is not None:
                r = self.class_lookup(o.cls, attr, st)
                if r is not None:
                    if r[0] == 'method':
                        f = r[1]
                        dn = f.deco_names
                        if 'property' in dn or any((d or '').endswith('lazyprop') for d in dn):
                            return self.call_value(self.func_value(f, V(a)), node, [], {}, st)
                        if f.is_static():
                            return self.func_value(f)
                        if f.is_classmethod():
                            return self.func_value(f, V(('K', o.cls)))
                        # decorated methods: prefer the decorated value
                        return self.func_value(f, V(a))
                    v = r[1]
                    # functions assigned as class attributes become methods
                    res = E
                    for x in v:
                        if x[0] == 'f' and x[2] is None:
                            res |= V(('f', x[1], V(a)))
                        else:
                            res |= V(x)
                    return res
                ga = o.cls.find('__getattr__')
                if ga is not None:
                    return self.call_value(self.func_value(ga, V(a)), node, [V(const(attr))], {}, st)
            if not o.exact or (o.cls is not None and o.cls.has_ext_base()):
                return o.elem or ANY
            if default is not None:
                return default
            if not attr.startswith('__'):
                self.ev_emit('missing_attr', node, cls=o.cls, attr=attr, st=st, obj=o)
            return ANY
        if o.kind == 'opaque':
            k = ('.', '.' + attr)
            if k in o.fields:
                return o.fields[k]
            if attr in SCALAR_ATTRS:
                return VT('int') if attr in ('ndim', 'size') else VT('any')
            if attr in ALIAS_ATTRS:
                return V(a)
            return V(('xm', attr, V(a)))
        if o.kind == 'array':
            if attr in SCALAR_ATTRS:
                return VT('int') if attr in ('ndim', 'size') else VT('any')
            if attr in ALIAS_ATTRS:
                return V(a)
            return V(('xm', attr, V(a)))
        return V(('xm', attr, V(a)))

    # materialise an xm atom used as a value (not called)
    def xm_value(self, a, st):
        """value of attribute `attr` of an opaque/external object"""
        attr, base = a[1], a[2]
        out = E
        for b in base:
            if b[0] == 'r':
                o = st.heap.get(b[1])
                if o is not None and o.kind == 'opaque':
                    out |= self.child(st, b[1], o, '.' + attr)
                    continue
            if b[0] == 't':
                out |= VT('any', b[2])
            else:
                out |= ANY
        return out

    def val(self, v, st):
        """replace bound-external-attribute atoms by the values they stand for"""
        if any(a[0] == 'xm' for a in v):
            out = E
            for a in v:
                out |= self.xm_value(a, st) if a[0] == 'xm' and a[1] != '__dict__' else V(a)
            return norm(out)
        return v

    # -------------------------------------------------------------- subscript
    def ev_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, st)
            sl = e.slice
            return self.slice_of(b, sl, st, e)
        k = self.ev(e.slice, st)
        return self.subscript(b, k, st, e)

    def slice_of(self, b, sl, st, node):
        out = E
        b = self.val(b, st)
        self.none_check(b, st, node, 'slicing')

        def cst(x, d):
            if x is None:
                return d
            c = self.consts(self.ev_quiet(x, st))
            return c[0] if c is not None and len(c) == 1 else FAIL
        lo, hi, step = cst(sl.lower, None), cst(sl.upper, None), cst(sl.step, None)
        known = FAIL not in (lo, hi, step)
        for a in b:
            if a[0] == 'c':
                if a[2] is None:
                    continue
                try:
                    out |= V(const(a[2][lo:hi:step])) if known else VT(a[1] if a[1] in ('str', 'bytes') else 'any')
                except Exception:
                    out |= ANY
            elif a[0] == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    out |= ANY
                elif o.kind in ('list', 'tuple', 'iter'):
                    it = self.exact_items(V(a), st)
                    if it is not None and known:
                        out |= self.new_list(node, st, it[lo:hi:step], o.kind, key='slice')
                    else:
                        out |= self.new_seq(node, st, self.iter_elem(V(a), st, node), o.kind, key='slice')
                elif o.kind == 'inst' and o.cls is not None and o.cls.find('__getitem__'):
                    out |= self.call_value(self.func_value(o.cls.find('__getitem__'), V(a)), node, [VT('slice')], {}, st)
                else:
                    out |= V(a)     # view
            elif a[0] == 't':
                out |= V(a)
            else:
                out |= ANY
        return norm(out) or ANY

    def index_is_advanced(self, k, st):
        """the index surely triggers numpy advanced indexing (copy)"""
        for a in k:
            if a[0] == 'r':
                o = st.heap.get(a[1])
                if o is not None and o.kind == 'list':
                    continue
                return False
            return False
        return bool(k)

    def subscript(self, b, k, st, node):
        out = E
        b = self.val(b, st)
        self.none_check(b, st, node, 'subscript')
        self.ev_emit('subscript', node, b=b, k=k, st=st)
        ks = self.consts(k)
        for a in b:
            if a[0] == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    out |= ANY
                elif o.kind in ('list', 'tuple', 'iter'):
                    it = self.exact_items(V(a), st)
                    if it is not None and ks is not None and all(isinstance(x, int) and not isinstance(x, bool) for x in ks):
                        for x in ks:
                            if -len(it) <= x < len(it):
                                out |= it[x]
                            elif not any(-len(it) <= y < len(it) for y in ks):
                                self.ev_emit('index_range', node, n=len(it), i=x, st=st)
                    elif any(x[0] == 't' and x[1] == 'slice' for x in k):
                        out |= self.new_seq(node, st, self.iter_elem(V(a), st, node), o.kind, key='slice')
                    else:
                        out |= self.iter_elem(V(a), st, node)
                elif o.kind == 'dict':
                    if ks is not None and all(_hashable(x) for x in ks):
                        for x in ks:
                            if x in o.fields:
                                if UNB in o.fields[x] and not o.exact:
                                    self.ev_emit('key_maybe', node, key=x, st=st, obj=o)
                                out |= o.fields[x] - V(UNB)
                            elif not o.exact:
                                self.ev_emit('key_maybe', node, key=x, st=st, obj=o)
                                out |= o.elem or ANY
                            else:
                                self.ev_emit('key_missing', node, key=x, st=st, obj=o)
                    else:
                        pre = [t[4:] for x in k if x[0] == 't' for t in x[2] if t.startswith('pre:')]
                        pre = tuple(pre) if len(pre) == len(k) else None
                        for kk, x in o.fields.items():
                            if pre is None or (isinstance(kk, str) and kk.startswith(pre)):
                                out |= x - V(UNB)
                        out |= o.elem
                        if not o.fields and not o.elem:
                            out |= ANY
                elif o.kind == 'opaque':
                    kk = ('.', '[]')
                    # slices/tuples with slices are views of the same object, an
                    # integer index is an element
                    if self.index_is_advanced(k, st):
                        out |= VT('any')
                    elif any(x[0] == 't' and x[1] in ('slice',) for x in k) or self.has_slice(k, st):
                        out |= V(a)
                    elif ks is not None and any(isinstance(x, str) for x in ks):
                        for x in ks:
                            out |= self.child(st, a[1], o, "[%r]" % (x,))
                    elif ks is not None and ks and all(x is None or x is Ellipsis for x in ks):
                        out |= V(a)
                    else:
                        out |= self.child(st, a[1], o, '[]')
                elif o.kind == 'array':
                    out |= V(a) if not self.index_is_advanced(k, st) else VT('array', o.info.get('tags', E))
                elif o.kind == 'inst':
                    m = o.cls.find('__getitem__') if o.cls is not None else None
                    if m is not None:
                        out |= self.call_value(self.func_value(m, V(a)), node, [k], {}, st)
                    else:
                        out |= ANY
                else:
                    out |= ANY
            elif a[0] == 'c':
                if a[2] == '' and ks is not None and all(isinstance(x, int) for x in ks):
                    self.ev_emit('empty_text', node, how='indexing', st=st)
                if isinstance(a[2], (str, bytes)) and ks is not None:
                    for x in ks:
                        try:
                            out |= V(const(a[2][x]))
                        except Exception:
                            pass
                elif a[2] is not None:
                    out |= ANY
            elif a[0] == 't':
                if 'mapping' in a[2] and ks is not None:
                    for x in ks:
                        if isinstance(x, str) and 'has:%s' % str(x).rsplit('_', 1)[0] not in a[2]:
                            self.ev_emit('key_unchecked', node, key=x, st=st)
                if a[1] == 'array' and 'empty1d' in a[2] and any(
                        x[0] == 'r' and x[1] in st.heap and st.heap[x[1]].kind == 'tuple' and len(st.heap[x[1]].fields) > 1
                        and not any(y in (NONE, const(Ellipsis)) for z in st.heap[x[1]].fields.values() for y in z) for x in k):
                    self.ev_emit('empty_text', node, how='column of', st=st)
                out |= VT('str' if a[1] == 'str' else 'any', a[2])
            elif a[0] == 'x' and a[1].endswith('s_'):
                out |= VT('slice')
            elif a[0] == 'xm' and a[1] == '__dict__':
                if ks is not None:
                    for x in ks:
                        if isinstance(x, str):
                            out |= self.getattr_v(a[2], x, st, node)
                else:
                    out |= ANY
            else:
                out |= ANY
        return norm(out) or ANY

    def has_slice(self, k, st):
        for a in k:
            if a[0] == 'r':
                o = st.heap.get(a[1])
                if o is not None and o.kind == 'tuple':
                    for x in o.fields.values():
                        if any(y[0] == 't' and y[1] == 'slice' for y in x) or V(('c', 'ellipsis', Ellipsis)) == x or VNONE == x:
                            return True
        return False

    # -------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        outs = self.call_multi(e, st)
        if not outs:
            st.dead = True
            return ANY
        res = E
        s = None
        for v, x in outs:
            res |= v
            s = join_state(s, x)
        if s is None:
            st.dead = True
            return ANY
        if s is not st:
            st.env, st.heap = s.env, s.heap
        return norm(res)

    def call_args(self, e, st):
        args, kw = [], {}
        star = E
        kwstar = E
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.val(self.ev(x.value, st), st)
                it = self.exact_items(v, st)
                if it is not None and not star:
                    args.extend(it)
                else:
                    star |= self.iter_elem(v, st, x)
            else:
                a = self.val(self.ev(x, st), st)
                if star:
                    star |= a
                else:
                    args.append(a)
        for k in e.keywords:
            v = self.val(self.ev(k.value, st), st)
            if k.arg is None:
                done = False
                if len(v) == 1:
                    for loc, o in self.objs(v, st):
                        if o.kind == 'dict' and all(isinstance(q, str) for q in o.fields):
                            for q, w in o.fields.items():
                                kw[q] = w
                            if not o.exact:
                                kwstar |= o.elem or ANY
                            done = True
                if not done:
                    for loc, o in self.objs(v, st):
                        if o.kind == 'dict':
                            for q, w in o.fields.items():
                                if isinstance(q, str):
                                    kw[q] = vjoin(kw.get(q, V(UNB)), w)
                            if not o.exact:
                                kwstar |= o.elem or ANY
                        elif o.kind == 'opaque':
                            kwstar |= self.child(st, loc, o, '[]')
                        else:
                            kwstar |= ANY
                    if not list(self.objs(v, st)):
                        kwstar |= ANY
            else:
                kw[k.arg] = v
        if star:
            kw['*'] = star
        if kwstar:
            kw['**'] = kwstar
        return args, kw

    def call_multi(self, e, st):
        """evaluate a Call: list of (value, state)"""
        f = self.ev(e.func, st)
        if st.dead:
            return []
        args, kw = self.call_args(e, st)
        if st.dead:
            return []
        return self.call_value_multi(f, e, args, kw, st)

    def call_value(self, f, node, args, kw, st):
        outs = self.call_value_multi(f, node, args, kw, st)
        res = E
        s = None
        for v, x in outs:
            res |= v
            s = join_state(s, x)
        if s is None:
            st.dead = True
            return ANY
        if s is not st:
            st.env, st.heap = s.env, s.heap
        return norm(res)

    def call_value_multi(self, f, node, args, kw, st):
        self.none_check(f, st, node, 'call')
        atoms = [a for a in f if a != NONE and a != UNB]
        if not atoms:
            return []
        outs = []
        for i, a in enumerate(atoms):
            s = st if i == len(atoms) - 1 else st.copy()
            outs.extend(self.call_atom(a, node, args, kw, s))
        return outs

    def call_atom(self, a, node, args, kw, st):
        k = a[0]
        if k == 'f':
            fi = self.funcs[a[1]]
            if a[2] is not None:
                args = [a[2]] + list(args)
            return self.call_func(fi, self.fclosure[a[1]], node, args, kw, st)
        if k == 'K':
            return self.instantiate(a[1], node, args, kw, st)
        if k == 'x':
            return self.call_ext(a[1], node, args, kw, st)
        if k == 'xm':
            return [(self.call_method_ext(a[1], a[2], node, args, kw, st), st)]
        if k == 'r':
            o = st.heap.get(a[1])
            if o is not None and o.kind == 'inst' and o.cls is not None:
                m = o.cls.find('__call__')
                if m is not None:
                    return self.call_func(m, None, node, [V(a)] + list(args), kw, st)
            if o is not None and o.kind == 'opaque':
                return [(self.call_unknown(V(a), node, args, kw, st), st)]
            self.callbacks(args, kw, node, st)
            return [(VT('any', self.all_tags(args, kw, st)), st)]
        self.callbacks(args, kw, node, st)
        return [(VT('any', self.all_tags(args, kw, st)), st)]

    def call_unknown(self, f, node, args, kw, st):
        self.ev_emit('call_unknown', node, f=f, args=args, kw=kw, st=st)
        return VT('any', self.all_tags(args, kw, st))

    def all_tags(self, args, kw, st):
        t = E
        for v in list(args) + list(kw.values()):
            t |= self.tags(v, st)
        return t

    def instantiate(self, cls, node, args, kw, st):
        self.ev_emit('instantiate', node, cls=cls, args=args, kw=kw, st=st)
        old, self.cur_root = self.cur_root, None
        obj = self.alloc(node, st, Obj('inst', cls=cls), 'inst:' + cls.fq)
        self.cur_root = old
        (ra,) = obj
        init = cls.find('__init__')
        new = cls.find('__new__')
        if new is not None and init is None:
            return self.call_func(new, None, node, [V(('K', cls))] + list(args), kw, st)
        if init is None:
            if cls.has_ext_base():
                st.heap[ra[1]] = st.heap[ra[1]].clone(exact=False)
            elif args or kw:
                self.ev_emit('arity', node, f=cls, why='takes no arguments', st=st)
            return [(obj, st)]
        outs = self.call_func(init, None, node, [obj] + list(args), kw, st)
        return [(obj, s) for _, s in outs]

    def bind(self, f, args, kw, node, st, emit=True):
        env = {}
        pos = f.posargs
        n = len(pos)
        kw = dict(kw)
        star = kw.pop('*', None)
        kwstar = kw.pop('**', None)
        for i, v in enumerate(args[:n]):
            env[pos[i]] = v
        if len(args) > n:
            if f.vararg is None:
                if emit:
                    self.ev_emit('arity', node, f=f, why='too many positional arguments (%d > %d)' % (len(args), n), st=st)
            else:
                env[f.vararg] = self.new_list(node, st, args[n:], 'tuple', key='va' + f.fq)
        elif f.vararg is not None:
            if star is not None:
                env[f.vararg] = self.new_seq(node, st, star, 'tuple', key='va' + f.fq)
            else:
                env[f.vararg] = self.new_list(node, st, [], 'tuple', key='va' + f.fq)
        if star is not None:
            for p in pos[len(args):]:
                if p not in kw:
                    env[p] = star | (self.default_vals.get(f, {}).get(p, E))
        extra = {}
        for k, v in kw.items():
            if k in env and k in pos[:len(args)]:
                if emit:
                    self.ev_emit('arity', node, f=f, why='multiple values for %r' % k, st=st)
            if k in pos or k in f.kwonly:
                if UNB in v:
                    v = (v - V(UNB)) | self.default_vals.get(f, {}).get(k, E)
                env[k] = v
            elif f.kwarg is not None:
                extra[k] = v
            else:
                if emit:
                    self.ev_emit('arity', node, f=f, why='unexpected keyword argument %r' % k, st=st, maybe=UNB in v)
        dv = self.default_vals.get(f)
        if dv is None:
            dv = {}
            if any(True for _ in f.node.args.defaults) or any(d is not None for d in f.node.args.kw_defaults):
                s0 = State({}, dict(st.heap))
                fr = Frame(f.module)
                self.stack.append(fr)
                self.eval_defaults(f, s0)
                self.stack.pop()
                st.heap.update({k: v for k, v in s0.heap.items() if k not in st.heap})
                dv = self.default_vals[f]
        for p in pos + f.kwonly:
            if p not in env:
                if p in dv:
                    env[p] = dv[p]
                    if kwstar is not None and p not in pos[:len(args)]:
                        env[p] = env[p] | kwstar
                elif kwstar is not None:
                    env[p] = kwstar
                else:
                    if emit:
                        self.ev_emit('arity', node, f=f, why='missing argument %r' % p, st=st)
                    env[p] = ANY
        if f.kwarg is not None:
            env[f.kwarg] = self.alloc(node, st, Obj('dict', fields=extra, elem=kwstar or E, exact=kwstar is None), 'kw' + f.fq)
        return env

    def call_func(self, f, closure, node, args, kw, st):
        if self.stack and self.stack[-1].func is f and False:
            pass
        self.ev_emit('call', node, f=f, args=args, kw=kw, st=st)
        h = self.hooks_fn.get(f.fq)
        if h is not None:
            r = h(self, f, node, args, kw, st)
            if r is not None:
                return r
        depth = len(self.stack)
        sig = self.rec_sig(f, args)
        rec = sum(1 for fr in self.stack if fr.func is f and getattr(fr, 'sig', None) == sig)
        if depth >= self.max_depth or rec >= 1 or self.steps > self.budget:
            if rec < 1:
                self.cut += 1
            self.bind(f, args, kw, node, st)
            self.ev_emit('cut', node, f=f, rec=rec, sig=sig)
            return [(self.rec_result(f, args, kw, st), st)]
        env = self.bind(f, args, kw, node, st)
        fr = Frame(f, closure)
        fr.sig = sig
        caller_env = st.env
        st2 = State(env, st.heap)
        self.stack.append(fr)
        self.callsites.append(node)
        old_root, self.cur_root = self.cur_root, None
        saved_allocn = None
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st2)
                if not st2.dead:
                    fr.returns.append((self.val(v, st2), st2))
            else:
                end = self.exec_block(f.node.body, st2)
                if end is not None:
                    self.ev_emit('fallthrough', f.node, st=end)
                    fr.returns.append((VNONE, end))
        finally:
            self.stack.pop()
            self.callsites.pop()
            self.cur_root = old_root
        if f.is_gen:
            s = None
            for _, x in fr.returns:
                s = join_state(s, x)
            if s is None:
                s = st2
            res = State(caller_env, s.heap)
            return [(self.new_seq(node, res, fr.yields, 'iter', key='gen' + f.fq), res)]
        # partition by constant boolean / None result
        parts = {}
        for v, s in fr.returns:
            v = self.val(v, s)
            key = 'o'
            if v == V(TRUE):
                key = 't'
            elif v == V(FALSE):
                key = 'f'
            elif v == VNONE:
                key = 'n'
            elif v == VBOOL:
                # split: the state is the same for both
                parts.setdefault('t', []).append((V(TRUE), s))
                parts.setdefault('f', []).append((V(FALSE), s))
                continue
            parts.setdefault(key, []).append((v, s))
        outs = []
        for key, lst in parts.items():
            v = lst[0][0]
            s = lst[0][1]
            for v2, s2 in lst[1:]:
                v = vjoin(v, v2)
                s = join_state(s, s2)
            outs.append((v, State(dict(caller_env), s.heap) if len(parts) > 1 else State(caller_env, s.heap)))
        return outs

    def rec_sig(self, f, args):
        """signature distinguishing recursive calls: constant args"""
        out = []
        for v in args:
            out.append(v if len(v) <= 2 else 'big')
        return tuple(out)

    def rec_result(self, f, args, kw, st):
        return ANY | VNONE if self.may_return_none(f) else ANY

    def may_return_none(self, f):
        return False

    def callbacks(self, args, kw, node, st):
        for v in list(args) + list(kw.values()):
            for a in v:
                if a[0] == 'f':
                    fi = self.funcs[a[1]]
                    n = len(fi.posargs) - (1 if a[2] is not None else 0) - len(fi.node.args.defaults)
                    self.in_fix += 1
                    try:
                        self.call_value(V(a), node, [ANY] * max(n, 0), {}, st)
                        st.dead = False
                    finally:
                        self.in_fix -= 1

    # external calls ---------------------------------------------------------
    def call_ext(self, name, node, args, kw, st):
        self.ev_emit('ext_call', node, name=name, args=args, kw=kw, st=st)
        h = self.hooks_ext.get(name)
        if h is not None:
            r = h(self, name, node, args, kw, st)
            if r is not None:
                return [(r, st)] if isinstance(r, frozenset) else r
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None:
            r = m(node, args, kw, st)
            if r is not None:
                return [(r, st)] if isinstance(r, frozenset) else r
        return [(self.ext_default(name, node, args, kw, st), st)]

    def ext_default(self, name, node, args, kw, st):
        tags = self.all_tags(args, kw, st)
        if name in MUT_FUNCS:
            for i in MUT_FUNCS[name]:
                if i < len(args):
                    self.mutate(args[i], st, node, name)
        out = kw.get('out')
        last = name.rsplit('.', 1)[-1]
        if out is not None and name.startswith(('numpy', 'scipy')):
            self.mutate(out, st, node, name + '(out=)')
            return out
        if name.startswith('numpy.') and ((last in UFUNC2 and len(args) == 3) or (last in UFUNC1 and len(args) == 2)):
            self.mutate(args[-1], st, node, name + '(out)')
            return args[-1]
        if kw.get('overwrite_a') or kw.get('overwrite_x') or kw.get('overwrite_input'):
            for q in ('overwrite_a', 'overwrite_x', 'overwrite_input'):
                if q in kw and True in self.truth(kw[q], st) and args:
                    self.mutate(args[0], st, node, '%s(%s)' % (name, q))
        if name in ('numpy.nan_to_num',) and 'copy' in kw and False in self.truth(kw['copy'], st):
            self.mutate(args[0], st, node, name + '(copy=False)')
            return args[0]
        if name in ALIAS_FUNCS and args:
            r = E
            for a in args[0]:
                if a[0] == 'r':
                    o = st.heap.get(a[1])
                    if o is not None and o.kind in ('array', 'opaque'):
                        r |= V(a)
                        continue
                    r |= VT('array', self.tags(V(a), st))
                elif a == NONE:
                    r |= VT('array')
                else:
                    r |= VT('array', self.tags(V(a), st))
            return r
        if name == 'numpy.array' and 'copy' in kw and False in self.truth(kw['copy'], st) and args:
            return args[0] | VT('array')
        self.callbacks(args, kw, node, st)
        typ = EXT_TYPES.get(name)
        if typ is None and name.startswith('numpy.'):
            typ = 'any'
        return VT(typ or 'any', tags)

    # builtins
    def x_super(self, node, args, kw, st):
        if args:
            c = [a[1] for a in args[0] if a[0] == 'K']
            return V(('sup', c[0] if c else None, args[1] if len(args) > 1 else E)) if c else ANY
        fr = self.stack[-1]
        f = fr.func
        while isinstance(f, FunctionInfo) and f.cls is None and f.parent is not None:
            f = f.parent
        if isinstance(f, FunctionInfo) and f.cls is not None and f.posargs:
            return V(('sup', f.cls, st.env.get(f.posargs[0], ANY)))
        return ANY

    def x_len(self, node, args, kw, st):
        if not args:
            return ANY
        self.none_check(args[0], st, node, 'len()')
        it = self.exact_items(args[0], st)
        if it is not None:
            return V(const(len(it)))
        if all(a[0] == 't' and a[1] == 'array' and 'empty1d' in a[2] for a in args[0]):
            return V(const(0))
        return VT('int')

    def x_range(self, node, args, kw, st):
        cs = [self.consts(a) for a in args]
        for a in args:
            self.none_check(a, st, node, 'range()')
        if all(c is not None and len(c) == 1 and isinstance(c[0], int) for c in cs):
            r = range(*[c[0] for c in cs])
            if len(r) <= self.unroll:
                return V(const(r))
        return self.new_seq(node, st, VT('int'), 'iter', key='range')

    def x_enumerate(self, node, args, kw, st):
        it = self.exact_items(args[0], st)
        start = 0
        if it is not None:
            return self.new_list(node, st, [self.new_list(node, st, [V(const(i)), x], 'tuple', key='en%d' % i) for i, x in enumerate(it, start)], 'iter', key='enum')
        el = self.iter_elem(args[0], st, node)
        return self.new_seq(node, st, self.new_list(node, st, [VT('int'), el], 'tuple', key='en'), 'iter', key='enum')

    def x_zip(self, node, args, kw, st):
        its = [self.exact_items(a, st) for a in args]
        if its and all(i is not None for i in its):
            n = min(len(i) for i in its)
            return self.new_list(node, st, [self.new_list(node, st, [i[j] for i in its], 'tuple', key='z%d' % j) for j in range(n)], 'iter', key='zip')
        if '*' in kw:
            return self.new_seq(node, st, self.new_seq(node, st, self.iter_elem(kw['*'], st, node), 'tuple', key='z'), 'iter', key='zip')
        el = [self.iter_elem(a, st, node) for a in args]
        return self.new_seq(node, st, self.new_list(node, st, el, 'tuple', key='z'), 'iter', key='zip')

    def x_itertools_product(self, node, args, kw, st):
        el = [self.iter_elem(a, st, node) for a in args]
        rep = self.consts(kw['repeat']) if 'repeat' in kw else None
        if rep and len(rep) == 1 and isinstance(rep[0], int):
            el = el * rep[0]
        return self.new_seq(node, st, self.new_list(node, st, el, 'tuple', key='pr'), 'iter', key='prod')

    def x_reversed(self, node, args, kw, st):
        it = self.exact_items(args[0], st)
        if it is not None:
            return self.new_list(node, st, it[::-1], 'iter', key='rev')
        return self.new_seq(node, st, self.iter_elem(args[0], st, node), 'iter', key='rev')

    def x_sorted(self, node, args, kw, st):
        self.callbacks([], kw, node, st)
        if not args:
            return ANY
        it = self.exact_items(args[0], st)
        if it is not None and not kw:
            cs = [self.consts(i) for i in it]
            if all(c is not None and len(c) == 1 for c in cs):
                try:
                    return self.new_list(node, st, [V(const(x)) for x in sorted(c[0] for c in cs)], 'list', key='sorted')
                except Exception:
                    pass
        if len(args[0]) == 1:
            for loc, o in self.objs(args[0], st):
                if o.kind in ('set',) and o.exact and not o.elem:
                    cs = [self.consts(i) for i in o.fields.values()]
                    if all(c is not None and len(c) == 1 for c in cs):
                        try:
                            return self.new_list(node, st, [V(const(x)) for x in sorted(set(c[0] for c in cs))], 'list', key='sorted')
                        except Exception:
                            pass
        return self.new_seq(node, st, self.strip_order(self.iter_elem(args[0], st, node)), 'list', key='sorted')

    def strip_order(self, v):
        return v

    def _mkseq(self, kind, node, args, kw, st):
        if not args:
            return self.new_list(node, st, [], kind, key=kind + 'c')
        self.none_check(args[0], st, node, kind + '()')
        it = self.exact_items(args[0], st)
        if it is not None:
            return self.new_list(node, st, list(it), kind, key=kind + 'c')
        if len(args[0]) == 1:
            for loc, o in self.objs(args[0], st):
                if o.kind == 'set' and kind == 'set':
                    return self.alloc(node, st, Obj('set', fields=dict(o.fields), elem=o.elem, exact=o.exact), 'setc')
        return self.new_seq(node, st, self.iter_elem(args[0], st, node), kind, key=kind + 'c')

    def x_list(self, node, args, kw, st):
        return self._mkseq('list', node, args, kw, st)

    def x_tuple(self, node, args, kw, st):
        return self._mkseq('tuple', node, args, kw, st)

    def x_set(self, node, args, kw, st):
        return self._mkseq('set', node, args, kw, st)

    def x_frozenset(self, node, args, kw, st):
        return self._mkseq('set', node, args, kw, st)

    def x_iter(self, node, args, kw, st):
        return self._mkseq('iter', node, args, kw, st)

    def x_next(self, node, args, kw, st):
        return self.iter_elem(args[0], st, node) if args else ANY

    def x_dict(self, node, args, kw, st):
        fl, elem, exact = {}, E, True
        if args:
            for loc, o in self.objs(self.val(args[0], st), st):
                if o.kind == 'dict':
                    fl.update(o.fields)
                    elem |= o.elem
                    exact = exact and o.exact
                elif o.kind == 'opaque':
                    exact = False
                    elem |= self.child(st, loc, o, '[]')
                else:
                    it = self.exact_items(V(('r', loc)), st)
                    ok = it is not None
                    if ok:
                        for p in it:
                            kv = self.exact_items(p, st)
                            kc = self.consts(kv[0]) if kv is not None and len(kv) == 2 else None
                            if kc is not None and len(kc) == 1 and _hashable(kc[0]):
                                fl[kc[0]] = kv[1]
                            else:
                                ok = False
                                elem |= kv[1] if kv is not None and len(kv) == 2 else ANY
                    if not ok:
                        exact = False
                        el = self.iter_elem(V(('r', loc)), st, node)
                        kv = self.exact_items(el, st)
                        elem |= kv[1] if kv is not None and len(kv) == 2 else ANY
            if not list(self.objs(self.val(args[0], st), st)):
                exact = False
                elem |= ANY
        for k, v in kw.items():
            if k in ('*', '**'):
                exact = False
                elem |= v
            else:
                fl[k] = v
        return self.alloc(node, st, Obj('dict', fields=fl, elem=elem, exact=exact), 'dictc')
    x_collections_OrderedDict = x_dict

    def x_getattr(self, node, args, kw, st):
        names = self.consts(args[1]) if len(args) > 1 else None
        default = args[2] if len(args) > 2 else None
        if names is not None and all(isinstance(n, str) for n in names):
            out = E
            for n in names:
                r = self.getattr_v(args[0], n, st, node, default)
                out |= r
                if default is not None:
                    pass
            return norm(out)
        return self.getattr_unknown(args[0], args[1] if len(args) > 1 else ANY, default, st, node)

    def getattr_unknown(self, base, name, default, st, node):
        out = E
        for loc, o in self.objs(base, st):
            if o.kind == 'inst':
                for v in o.fields.values():
                    out |= v - V(UNB)
                if not o.exact:
                    out |= o.elem
            elif o.kind == 'opaque':
                out |= self.child(st, loc, o, '.*')
        out |= ANY
        if default is not None:
            out |= default
        return norm(out)

    def x_setattr(self, node, args, kw, st):
        names = self.consts(args[1]) if len(args) > 2 else None
        v = args[2] if len(args) > 2 else ANY
        if names is not None and len(names) == 1 and isinstance(names[0], str):
            self.setattr_v(args[0], names[0], v, st, node)
        elif names is not None and names:
            for n in names:
                cur = E
                for loc, o in list(self.objs(args[0], st)):
                    if o.kind == 'inst':
                        cur |= o.fields.get(n, V(UNB))
                self.setattr_v(args[0], n, vjoin(v, cur), st, node)
        else:
            for loc, o in list(self.objs(args[0], st)):
                if o.kind == 'inst':
                    self.ev_emit('setattr_dyn', node, loc=loc, obj=o, v=v, st=st)
                    if o.root is not None:
                        self.mutate(V(('r', loc)), st, node, 'setattr')
                    st.heap[loc] = o.clone(elem=vjoin(o.elem, v), exact=False)
                else:
                    self.mutate(V(('r', loc)), st, node, 'setattr')
        return VNONE

    def x_hasattr(self, node, args, kw, st):
        names = self.consts(args[1]) if len(args) > 1 else None
        out = set()
        if names is None:
            return VBOOL
        for a in args[0]:
            for n in names:
                if a[0] == 'r':
                    o = st.heap.get(a[1])
                    if o is not None and o.kind == 'inst':
                        v = o.fields.get(n)
                        if v is not None and UNB not in v:
                            out.add(TRUE)
                        elif o.cls is not None and self.class_lookup(o.cls, n, st) is not None:
                            out.add(TRUE)
                        elif v is not None or not o.exact:
                            out |= {TRUE, FALSE}
                        else:
                            out.add(FALSE)
                        continue
                    if o is not None and o.kind == 'opaque' and ('.', '.' + n) in o.fields:
                        out.add(TRUE)
                        continue
                if a[0] == 'K':
                    out.add(TRUE if self.class_lookup(a[1], n, st) is not None else FALSE)
                    continue
                if a[0] == 'c':
                    out.add(TRUE if hasattr(a[2], n) else FALSE)
                    continue
                out |= {TRUE, FALSE}
        return frozenset(out) or VBOOL

    def x_isinstance(self, node, args, kw, st):
        if len(args) < 2:
            return VBOOL
        out = set()
        cls = []
        for a in args[1]:
            if a[0] == 'r':
                it = self.exact_items(V(a), st)
                if it is None:
                    return VBOOL
                for i in it:
                    cls.extend(i)
            else:
                cls.append(a)
        for a in args[0]:
            res = {TRUE, FALSE}
            hit = []
            for c in cls:
                hit.append(self.isinst(a, c, st))
            if any(h is True for h in hit):
                res = {TRUE}
            elif all(h is False for h in hit):
                res = {FALSE}
            out |= res
        return frozenset(out) or VBOOL

    def isinst(self, a, c, st):
        names = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes}
        if a[0] == 'c':
            if c[0] == 'x' and c[1] in names:
                return isinstance(a[2], names[c[1]])
            return False
        if a[0] == 't' and a[1] in SCALAR_T | {'list', 'dict', 'tuple'}:
            if c[0] == 'x' and c[1] == a[1]:
                return True
            if c[0] == 'x' and c[1] in names or c[0] == 'K':
                return None if a[1] == 'num' else False
            return None
        if a[0] == 'r':
            o = st.heap.get(a[1])
            if o is None or o.kind == 'opaque':
                return None
            if o.kind == 'inst':
                if c[0] == 'K':
                    return o.cls.subclass_of(c[1]) if o.cls else None
                return False
            if o.kind in ('list', 'tuple', 'dict', 'set'):
                if c[0] == 'x':
                    if c[1] == o.kind:
                        return True
                    if c[1] in names or c[1] in ('list', 'tuple', 'dict', 'set', 'numpy.ndarray'):
                        return False
                return None if c[0] == 'x' else False
            if o.kind == 'array':
                if c[0] == 'x' and c[1] == 'numpy.ndarray':
                    return True
                if c[0] == 'x' and c[1] in names or c[1] in ('list', 'tuple', 'dict', 'set'):
                    return False
        if a[0] in ('f', 'm', 'K'):
            return False if c[0] == 'x' and (c[1] in names or c[1] in ('list', 'tuple', 'dict')) else None
        return None

    def x_type(self, node, args, kw, st):
        if len(args) != 1:
            return ANY
        out = E
        for a in args[0]:
            if a[0] == 'r':
                o = st.heap.get(a[1])
                if o is not None and o.kind == 'inst' and o.cls is not None:
                    out |= V(('K', o.cls))
                    continue
                if o is not None and o.kind in ('list', 'tuple', 'dict', 'set'):
                    out |= V(('x', o.kind))
                    continue
            if a[0] == 'c':
                out |= V(('x', a[1]))
                continue
            out |= VT('type')
        return out

    def x_eval(self, node, args, kw, st):
        out = E
        ok = False
        for a in args[0] if args else E:
            if a[0] == 'c' and isinstance(a[2], str):
                try:
                    tree = self.parse_cache(a[2], 'eval')
                    out |= self.ev(tree.body, st)
                    ok = True
                except SyntaxError:
                    self.ev_emit('bad_eval', node, src=a[2])
                    out |= ANY
            else:
                out |= ANY
        self.ev_emit('eval', node, exact=ok, src=args[0] if args else E)
        return norm(out) or ANY

    def parse_cache(self, src, mode):
        c = self.__dict__.setdefault('_pc', {})
        k = (src, mode)
        if k not in c:
            c[k] = ast.parse(src.strip() if mode == 'eval' else src, mode=mode)
            fr = self.stack[-1].func if self.stack else None
            m = fr if isinstance(fr, ModuleInfo) else getattr(fr, 'module', None)
            if m is not None:
                self.prog._scan(m, [c[k].body] if mode == 'eval' else c[k].body, None, fr if isinstance(fr, FunctionInfo) else None)
        return c[k]

    def x_exec(self, node, args, kw, st):
        for a in args[0] if args else E:
            if a[0] == 'c' and isinstance(a[2], str):
                try:
                    tree = self.parse_cache(a[2], 'exec')
                except SyntaxError:
                    continue
                s = self.exec_block(tree.body, st)
                if s is None:
                    st.dead = True
                else:
                    st.env, st.heap = s.env, s.heap
        return VNONE

    def x_map(self, node, args, kw, st):
        if len(args) >= 2:
            its = [self.exact_items(a, st) for a in args[1:]]
            if all(i is not None for i in its):
                n = min(len(i) for i in its)
                return self.new_list(node, st, [self.call_value(args[0], node, [i[j] for i in its], {}, st) for j in range(n)], 'iter', key='map')
            self.in_fix += 1
            r = self.call_value(args[0], node, [self.iter_elem(a, st, node) for a in args[1:]], {}, st)
            self.in_fix -= 1
            st.dead = False
            return self.new_seq(node, st, r, 'iter', key='map')
        return ANY

    def x_filter(self, node, args, kw, st):
        el = self.iter_elem(args[1], st, node) if len(args) > 1 else ANY
        self.in_fix += 1
        if len(args) > 1:
            self.call_value(args[0], node, [el], {}, st)
        self.in_fix -= 1
        st.dead = False
        return self.new_seq(node, st, el, 'iter', key='filter')

    def x_str(self, node, args, kw, st):
        if not args:
            return V(const(''))
        c = self.consts(args[0])
        if c is not None:
            return frozenset(const(str(x)) for x in c)
        return VT('str', self.tags(args[0], st))

    def x_repr(self, node, args, kw, st):
        return VT('str', self.tags(args[0], st) if args else E)

    def _num(self, typ, fn, node, args, st):
        if not args:
            return VT(typ)
        if NONE in args[0]:
            self.ev_emit('none', node, v=args[0], how=typ + '()', st=st)
        c = self.consts(args[0])
        if c is not None:
            out = set()
            for x in c:
                try:
                    out.add(const(fn(x)))
                except Exception:
                    if x is not None:
                        self.ev_emit('bad_conv', node, typ=typ, val=x, st=st)
            return frozenset(out) or VT(typ)
        self.ev_emit('conv', node, typ=typ, v=args[0], st=st)
        return VT(typ, self.tags(args[0], st))

    def x_float(self, node, args, kw, st):
        return self._num('float', float, node, args, st)

    def x_int(self, node, args, kw, st):
        return self._num('int', int, node, args, st)

    def x_bool(self, node, args, kw, st):
        return frozenset(const(x) for x in self.truth(args[0], st)) if args else V(FALSE)

    def x_abs(self, node, args, kw, st):
        c = self.consts(args[0])
        if c is not None and all(isinstance(x, (int, float)) for x in c):
            return frozenset(const(abs(x)) for x in c)
        return self.arith_result(args[0], E, st)

    def x_math_sqrt(self, node, args, kw, st):
        c = self.consts(args[0]) if args else None
        if c is not None and all(isinstance(x, (int, float)) and x >= 0 for x in c):
            return frozenset(const(math.sqrt(x)) for x in c)
        return VT('float', self.tags(args[0], st) if args else E)
    x_numpy_sqrt_c = x_math_sqrt

    def x_numpy_sqrt(self, node, args, kw, st):
        c = self.consts(args[0]) if len(args) == 1 else None
        if c is not None and all(isinstance(x, (int, float)) and x >= 0 for x in c):
            return frozenset(const(math.sqrt(x)) for x in c)
        return None

    def x_sum(self, node, args, kw, st):
        return VT('any', self.all_tags(args, kw, st))

    def x_re_compile(self, node, args, kw, st):
        return VT('regex', self.tags(args[0], st) if args else E)

    def x_re_match(self, node, args, kw, st):
        m = VT('match', self.all_tags(args, kw, st) - {'nonempty'})
        return m if self.trust_match else VNONE | m

    def x_re_search(self, node, args, kw, st):
        return VNONE | VT('match', self.all_tags(args, kw, st) - {'nonempty'})

    x_re_fullmatch = x_re_match

    def x_re_findall(self, node, args, kw, st):
        m = VT('match' if node is not None and 'finditer' in ast.dump(node.func) else 'str', self.all_tags(args, kw, st) - {'nonempty'})
        return self.new_list(node, st, [], 'list', key='none') | self.new_seq(node, st, m, 'list')

    x_re_finditer = x_re_findall

    def x_numpy_array(self, node, args, kw, st):
        if not args or not kw.keys() <= {'dtype'}:
            return None
        empty = frozenset(a for a in args[0] if a[0] == 'r' and a[1] in st.heap and st.heap[a[1]].kind in ('list', 'tuple')
                          and self.exact_items(V(a), st) == [])
        if not empty:
            return None
        rest = args[0] - empty
        out = VT('array', frozenset({'empty1d'}))
        if rest:
            out |= self.ext_default('numpy.array', node, [rest] + list(args[1:]), kw, st)
        return out

    def x_io_StringIO(self, node, args, kw, st):
        t = self.all_tags(args, kw, st)
        if args and const('') in args[0]:
            t = t | {'emptytext'}
        return VT('file', t)

    def x_numpy_loadtxt(self, node, args, kw, st):
        if args and (const('') in args[0] or 'emptytext' in self.tags(args[0], st)):
            self.ev_emit('empty_text', node, how='reading numbers from', st=st)
        self.callbacks(args, kw, node, st)
        return VT('array', self.all_tags(args, kw, st) - {'emptytext'})

    x_numpy_genfromtxt = x_numpy_loadtxt

    def x_callable(self, node, args, kw, st):
        return VBOOL

    def x_copy_deepcopy(self, node, args, kw, st):
        return self.deepcopy(args[0], node, st, {})

    def deepcopy(self, v, node, st, memo, depth=0):
        out = E
        for a in v:
            if a[0] == 'r':
                if a[1] in memo:
                    out |= memo[a[1]]
                    continue
                o = st.heap.get(a[1])
                if o is None or o.kind == 'opaque' or depth > 6:
                    out |= VT('any', self.tags(V(a), st))
                    continue
                no = o.clone(root=None)
                r = self.alloc(node, st, no, 'dc%s' % (len(memo),))
                memo[a[1]] = r
                (x,) = r
                fl = {k: self.deepcopy(w, node, st, memo, depth + 1) for k, w in o.fields.items()}
                el = self.deepcopy(o.elem, node, st, memo, depth + 1)
                st.heap[x[1]] = st.heap[x[1]].clone(fields=fl, elem=el, root=None)
                out |= r
            else:
                out |= V(a)
        return out

    def x_copy_copy(self, node, args, kw, st):
        return self.shallow(args[0], node, st)

    def shallow(self, v, node, st):
        out = E
        for a in v:
            if a[0] == 'r':
                o = st.heap.get(a[1])
                if o is None:
                    out |= ANY
                elif o.kind == 'opaque':
                    out |= VT('any', self.tags(V(a), st))
                else:
                    out |= self.alloc(node, st, o.clone(root=None, fields=dict(o.fields)), 'sc')
            else:
                out |= V(a)
        return out

    def x_functools_partial(self, node, args, kw, st):
        self.callbacks(args[:1], {}, node, st)
        return ANY

    # methods of builtin / external / opaque values ---------------------------
    def call_method_ext(self, attr, base, node, args, kw, st):
        self.ev_emit('ext_method', node, attr=attr, base=base, args=args, kw=kw, st=st)
        if attr == '__dict__':
            return ANY
        out = E
        for b in base:
            out |= self.method_atom(attr, b, node, args, kw, st)
        return norm(out) or ANY

    def method_atom(self, attr, b, node, args, kw, st):
        if b[0] == 'c':
            if isinstance(b[2], str):
                return self.str_method(attr, b, node, args, kw, st)
            return ANY
        if b[0] == 't':
            return self.t_method(attr, b, node, args, kw, st)
        if b[0] == 'xm':
            if b[1] == '__dict__':
                if attr == 'update':
                    return self.dict_update_inst(b[2], node, args, kw, st)
                if attr in ('keys', 'items', 'values', 'get', 'copy'):
                    return ANY
            return VT('any', self.tags(V(b), st))
        if b[0] != 'r':
            return ANY
        o = st.heap.get(b[1])
        if o is None:
            return ANY
        h = getattr(self, 'me_%s_%s' % (o.kind, attr), None)
        if h is not None:
            r = h(b, o, node, args, kw, st)
            if r is not None:
                return r
        if o.kind == 'opaque':
            return self.opaque_method(attr, b, o, node, args, kw, st)
        if o.kind == 'array':
            return self.array_method(attr, b, o, node, args, kw, st)
        if attr in MUTATORS_LIST:
            self.mutate(V(b), st, node, '.%s()' % attr)
            o = st.heap[b[1]]
            e = E
            for x in args:
                e |= x
            st.heap[b[1]] = o.clone(exact=False, elem=vjoin(o.elem, e))
            return ANY
        self.callbacks(args, kw, node, st)
        return VT('any', self.tags(V(b), st) | self.all_tags(args, kw, st))

    def opaque_method(self, attr, b, o, node, args, kw, st):
        k = ('.', '.' + attr)
        if attr in MUTATORS_LIST or attr in MUTATORS_ARR:
            self.mutate(V(b), st, node, '.%s()' % attr)
            if attr in ('append', 'add', 'insert', 'extend', 'update'):
                return VNONE
            return self.child(st, b[1], o, '[]')
        if attr in ('reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'flatten_view'):
            return V(b)
        if attr == 'astype' and 'copy' in kw and False in self.truth(kw['copy'], st):
            return V(b)
        if attr in ('get', 'setdefault'):
            if attr == 'setdefault':
                self.mutate(V(b), st, node, '.setdefault()')
            return vjoin(self.child(st, b[1], o, '[]'), args[1] if len(args) > 1 else VNONE)
        if attr in ('values', '__iter__'):
            return self.new_seq(node, st, self.child(st, b[1], o, '[]'), 'iter', key='ov')
        if attr == 'items':
            return self.new_seq(node, st, self.new_list(node, st, [VT('any'), self.child(st, b[1], o, '[]')], 'tuple', key='oi'), 'iter', key='oit')
        if attr == 'keys':
            return self.new_seq(node, st, VT('any'), 'iter', key='ok')
        if 'out' in kw:
            self.mutate(kw['out'], st, node, '.%s(out=)' % attr)
        self.callbacks(args, kw, node, st)
        return VT('any', self.tags(V(b), st) | self.all_tags(args, kw, st))

    def array_method(self, attr, b, o, node, args, kw, st):
        if attr in MUTATORS_ARR or attr in ('sort',):
            self.mutate(V(b), st, node, '.%s()' % attr)
            if attr == 'fill':
                self.array_store(b[1], V(('c', 'ellipsis', Ellipsis)), args[0] if args else ANY, st, node)
            return VNONE
        if attr in ('reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal'):
            return V(b)
        if attr == 'copy':
            return self.alloc(node, st, o.clone(root=None, info=dict(o.info)), 'acopy')
        return VT('any', o.info.get('tags', E) | self.all_tags(args, kw, st))

    def dict_update_inst(self, base, node, args, kw, st):
        vals = {}
        unknown = E
        for v in args:
            for loc, o in self.objs(v, st):
                if o.kind == 'dict':
                    for k, x in o.fields.items():
                        if isinstance(k, str):
                            vals[k] = x
                    if not o.exact:
                        unknown |= o.elem or ANY
                else:
                    unknown |= ANY
            if not list(self.objs(v, st)):
                unknown |= ANY
        for k, x in kw.items():
            if k in ('*', '**'):
                unknown |= x
            else:
                vals[k] = x
        for k, x in vals.items():
            self.setattr_v(base, k, x, st, node)
        if unknown:
            for loc, o in list(self.objs(base, st)):
                if o.kind == 'inst':
                    st.heap[loc] = o.clone(exact=False, elem=vjoin(o.elem, unknown))
        return VNONE

    def str_method(self, attr, b, node, args, kw, st):
        s = b[2]
        cs = [self.consts(a) for a in args]
        if attr == 'join' and args:
            it = self.exact_items(args[0], st)
            if it is not None:
                c = [self.consts(i) for i in it]
                if all(x is not None and len(x) == 1 and isinstance(x[0], str) for x in c):
                    return V(const(s.join(x[0] for x in c)))
            return VT('str', self.tags(args[0], st))
        if attr == 'format':
            self.ev_emit('strformat', node, fmt=s, args=args, kw=kw, st=st)
            kc = {k: self.consts(v) for k, v in kw.items()}
            if all(c is not None and len(c) == 1 for c in cs) and all(c is not None and len(c) == 1 for c in kc.values()):
                try:
                    return V(const(s.format(*[c[0] for c in cs], **{k: c[0] for k, c in kc.items()})))
                except Exception:
                    pass
            return VT('str', self.all_tags(args, kw, st))
        if all(c is not None and len(c) == 1 for c in cs) and not kw:
            try:
                r = getattr(s, attr)(*[c[0] for c in cs])
            except Exception:
                return ANY
            if isinstance(r, (list, tuple)):
                return self.new_list(node, st, [V(const(x)) for x in r], 'list', key='strm')
            if isinstance(r, (str, bool, int, bytes)):
                return V(const(r))
            return ANY
        tags = self.all_tags(args, kw, st)
        if attr in ('split', 'splitlines', 'rsplit'):
            return self.new_seq(node, st, VT('str', tags), 'list', key='split')
        if attr in ('startswith', 'endswith', 'isdigit'):
            return VBOOL
        if attr == 'encode':
            return VT('bytes', tags)
        if attr in ('find', 'count', 'index'):
            return VT('int')
        return VT('str', tags)

    def t_method(self, attr, b, node, args, kw, st):
        tags = b[2] | self.all_tags(args, kw, st)
        if b[1] == 'regex' and attr in ('match', 'search', 'fullmatch'):
            return (self.x_re_search if attr == 'search' else self.x_re_match)(node, args, kw, st)
        if b[1] == 'regex' and attr in ('findall', 'finditer'):
            return self.x_re_findall(node, args, kw, st)
        if b[1] == 'str':
            if attr in ('split', 'splitlines', 'rsplit', 'readlines'):
                return self.new_seq(node, st, VT('str', tags), 'list', key='split')
            if attr in ('replace', 'format', 'expandtabs') or attr in STRIP and args:
                tags = tags - {'nonempty'}
            if attr in ('strip', 'lower', 'upper', 'replace', 'lstrip', 'rstrip', 'format', 'join', 'title', 'capitalize', 'expandtabs', 'decode', 'zfill', 'ljust', 'rjust', 'center'):
                return VT('str', tags)
            if attr in ('startswith', 'endswith', 'isdigit', 'isalpha'):
                return VBOOL
            if attr in ('find', 'count', 'index'):
                return VT('int', tags)
            if attr == 'encode':
                return VT('bytes', tags)
        if b[1] in ('file',):
            if attr in ('read', 'readline'):
                return VT('str', tags)
            if attr == 'readlines':
                return self.new_seq(node, st, VT('str', tags), 'list', key='rl')
        if 'out' in kw:
            self.mutate(kw['out'], st, node, '.%s(out=)' % attr)
        self.callbacks(args, kw, node, st)
        if attr in ('items',):
            return self.new_seq(node, st, self.new_list(node, st, [VT('any', tags), VT('any', tags)], 'tuple', key='ti'), 'iter', key='tit')
        return VT('any', tags)

    # list methods
    def me_list_append(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.append()')
        o = st.heap[b[1]]
        v = args[0] if args else ANY
        if o.exact and not o.summary and not self.in_fix and not any(UNB in x for x in o.fields.values()):
            fl = dict(o.fields)
            fl[len(fl)] = v
            st.heap[b[1]] = o.clone(fields=fl)
        else:
            e = vjoin(o.elem, v, *[x - V(UNB) for x in o.fields.values()])
            st.heap[b[1]] = o.clone(fields={}, elem=e, exact=False)
        return VNONE

    def me_list_extend(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.extend()')
        o = st.heap[b[1]]
        it = self.exact_items(args[0], st) if args else None
        if o.exact and not o.summary and not self.in_fix and it is not None:
            fl = dict(o.fields)
            for x in it:
                fl[len(fl)] = x
            st.heap[b[1]] = o.clone(fields=fl)
        else:
            e = vjoin(o.elem, self.iter_elem(args[0], st, node) if args else ANY, *[x - V(UNB) for x in o.fields.values()])
            st.heap[b[1]] = o.clone(fields={}, elem=e, exact=False)
        return VNONE

    def me_list_pop(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.pop()')
        o = st.heap[b[1]]
        e = self.iter_elem(V(b), st, node)
        if o.exact and not o.summary and not self.in_fix:
            c = self.consts(args[0]) if args else [-1]
            it = self.exact_items(V(b), st)
            if it and c and len(c) == 1 and isinstance(c[0], int) and -len(it) <= c[0] < len(it):
                it = list(it)
                r = it.pop(c[0])
                st.heap[b[1]] = o.clone(fields=dict(enumerate(it)))
                return r
        st.heap[b[1]] = o.clone(fields={}, elem=e, exact=False)
        return e

    def me_list_remove(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.remove()')
        o = st.heap[b[1]]
        it = self.exact_items(V(b), st)
        c = self.consts(args[0]) if args else None
        if it is not None and c is not None and len(c) == 1 and not o.summary and not self.in_fix:
            new = []
            done = False
            for x in it:
                xc = self.consts(x)
                if not done and xc is not None and len(xc) == 1 and _ceq(xc[0], c[0]):
                    done = True
                    continue
                new.append(x)
            st.heap[b[1]] = o.clone(fields=dict(enumerate(new)))
            return VNONE
        st.heap[b[1]] = o.clone(fields={}, elem=self.iter_elem(V(b), st, node), exact=False)
        return VNONE

    def me_list_sort(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.sort()')
        o = st.heap[b[1]]
        e = self.iter_elem(V(b), st, node)
        st.heap[b[1]] = o.clone(fields={}, elem=e, exact=False)
        return VNONE
    me_list_reverse = me_list_sort

    def me_list_insert(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.insert()')
        o = st.heap[b[1]]
        e = vjoin(self.iter_elem(V(b), st, node), args[1] if len(args) > 1 else ANY)
        st.heap[b[1]] = o.clone(fields={}, elem=e, exact=False)
        return VNONE

    def me_list_copy(self, b, o, node, args, kw, st):
        return self.alloc(node, st, o.clone(root=None, fields=dict(o.fields)), 'lcopy')

    def me_list_index(self, b, o, node, args, kw, st):
        it = self.exact_items(V(b), st)
        c = self.consts(args[0]) if len(args) == 1 else None
        if it is not None and c is not None and len(c) == 1:
            for i, x in enumerate(it):
                xc = self.consts(x)
                if xc is None or len(xc) != 1:
                    return VT('int')
                if _ceq(xc[0], c[0]):
                    return V(const(i))
        return VT('int')
    me_tuple_index = me_list_index
    me_list_count = me_list_index

    # set methods
    def me_set_add(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.add()')
        o = st.heap[b[1]]
        st.heap[b[1]] = o.clone(elem=vjoin(o.elem, args[0] if args else ANY), exact=False)
        return VNONE

    def _setop(self, b, o, node, args, kw, st):
        e = self.iter_elem(V(b), st, node)
        for x in args:
            e |= self.iter_elem(x, st, node)
        return self.new_seq(node, st, norm(e), 'set', key='setop')
    me_set_union = _setop
    me_set_symmetric_difference = _setop

    def me_set_intersection(self, b, o, node, args, kw, st):
        return self.new_seq(node, st, self.iter_elem(V(b), st, node), 'set', key='setop')
    me_set_difference = me_set_intersection
    me_set_copy = me_set_intersection

    # dict methods
    def me_dict_get(self, b, o, node, args, kw, st):
        ks = self.consts(args[0]) if args else None
        d = args[1] if len(args) > 1 else VNONE
        if ks is not None and all(_hashable(k) for k in ks):
            out = E
            for k in ks:
                if k in o.fields:
                    v = o.fields[k]
                    out |= v - V(UNB)
                    if UNB in v:
                        out |= d
                elif o.exact:
                    out |= d
                else:
                    out |= d | o.elem
            return out
        out = d | o.elem
        for x in o.fields.values():
            out |= x - V(UNB)
        return norm(out)

    def me_dict_keys(self, b, o, node, args, kw, st):
        it = self.exact_items(V(b), st)
        if it is not None:
            return self.new_list(node, st, it, 'iter', key='keys')
        return self.new_seq(node, st, self.iter_elem(V(b), st, node), 'iter', key='keys')

    def me_dict_values(self, b, o, node, args, kw, st):
        if o.exact and not o.elem and not any(UNB in x for x in o.fields.values()):
            return self.new_list(node, st, list(o.fields.values()), 'iter', key='vals')
        return self.new_seq(node, st, vjoin(o.elem, *[x - V(UNB) for x in o.fields.values()]), 'iter', key='vals')

    def me_dict_items(self, b, o, node, args, kw, st):
        if o.exact and not o.elem and not any(UNB in x for x in o.fields.values()):
            return self.new_list(node, st, [self.new_list(node, st, [V(const(k)) if _isconst(k) else ANY, v], 'tuple', key='di%d' % i) for i, (k, v) in enumerate(o.fields.items())], 'iter', key='items')
        ke = self.iter_elem(V(b), st, node)
        ve = vjoin(o.elem, *[x - V(UNB) for x in o.fields.values()])
        return self.new_seq(node, st, self.new_list(node, st, [ke, ve or ANY], 'tuple', key='di'), 'iter', key='items')

    def me_dict_copy(self, b, o, node, args, kw, st):
        return self.alloc(node, st, o.clone(root=None, fields=dict(o.fields)), 'dcopy')

    def me_dict_update(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.update()')
        o = st.heap[b[1]]
        fl = dict(o.fields)
        elem, exact = o.elem, o.exact
        for v in args:
            refs = list(self.objs(v, st))
            for loc, p in refs:
                if p.kind == 'dict':
                    for k, x in p.fields.items():
                        if len(refs) == 1 and len(v) == 1 and not o.summary and UNB not in x:
                            fl[k] = x
                        else:
                            fl[k] = vjoin(fl.get(k, V(UNB)), x)
                    if not p.exact:
                        exact = False
                        elem |= p.elem or ANY
                elif p.kind == 'opaque':
                    exact = False
                    elem |= self.child(st, loc, p, '[]')
                else:
                    exact = False
                    elem |= ANY
            if not refs:
                exact = False
                elem |= ANY
        for k, x in kw.items():
            if k in ('*', '**'):
                exact = False
                elem |= x
            else:
                fl[k] = x
        if elem and not exact:
            fl = {k: vjoin(x, elem) if o.summary else x for k, x in fl.items()}
        st.heap[b[1]] = o.clone(fields=fl, elem=norm(elem), exact=exact)
        return VNONE

    def me_dict_pop(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.pop()')
        o = st.heap[b[1]]
        r = self.me_dict_get(b, o, node, args, kw, st)
        if len(args) < 2:
            r = r - V(NONE) or ANY
        ks = self.consts(args[0]) if args else None
        if ks and len(ks) == 1 and ks[0] in o.fields and not o.summary:
            fl = dict(o.fields)
            fl.pop(ks[0])
            st.heap[b[1]] = o.clone(fields=fl)
        return r

    def me_dict_setdefault(self, b, o, node, args, kw, st):
        self.mutate(V(b), st, node, '.setdefault()')
        o = st.heap[b[1]]
        r = self.me_dict_get(b, o, node, args, kw, st)
        ks = self.consts(args[0]) if args else None
        if ks and len(ks) == 1:
            fl = dict(o.fields)
            fl[ks[0]] = r
            st.heap[b[1]] = o.clone(fields=fl)
        return r

    # super objects -----------------------------------------------------------


class _Fail:
    pass


FAIL = _Fail()


def _ceq(a, b):
    if isinstance(a, bool) != isinstance(b, bool) and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _isconst(x):
    return isinstance(x, (str, int, float, bool, bytes, type(None)))


def fold_bin(op, x, y):
    try:
        if isinstance(op, ast.Add):
            if isinstance(x, str) and isinstance(y, str) and len(x) + len(y) > 20000:
                return FAIL
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            if (isinstance(x, str) or isinstance(y, str)) and not (isinstance(x, int) and x < 2000 or isinstance(y, int) and y < 2000):
                return FAIL
            return x * y
        if isinstance(op, ast.Div):
            return x / y
        if isinstance(op, ast.FloorDiv):
            return x // y
        if isinstance(op, ast.Mod):
            return x % y
        if isinstance(op, ast.Pow):
            if isinstance(x, int) and isinstance(y, int) and abs(y) > 200:
                return FAIL
            return x ** y
        if isinstance(op, ast.BitOr):
            return x | y
        if isinstance(op, ast.BitAnd):
            return x & y
    except Exception:
        return FAIL
    return FAIL


EXT_TYPES = {'input': 'str', 'os.getcwd': 'str', 'os.path.join': 'str', 'os.path.basename': 'str',
             'os.path.dirname': 'str', 'os.path.abspath': 'str', 'os.path.exists': 'bool',
             'os.path.isdir': 'bool', 'os.path.isfile': 'bool', 'open': 'file', 'time.time': 'float',
             'round': 'num', 'os.path.expanduser': 'str', 'os.path.expandvars': 'str',
             'numpy.arange': 'array', 'numpy.linspace': 'array', 'numpy.concatenate': 'array',
             'numpy.array': 'array', 'numpy.ones': 'array', 'numpy.zeros': 'array', 'any': 'bool', 'all': 'bool',
             'numpy.loadtxt': 'array', 'hash': 'int', 'id': 'int', 'ord': 'int', 'chr': 'str',
             'slice': 'slice'}

EXT_CONST = {'math.pi': math.pi, 'numpy.pi': math.pi, 'scipy.pi': math.pi, 'math.e': math.e,
             'numpy.e': math.e, 'numpy.newaxis': None}


def xval(d):
    if d in EXT_CONST:
        return V(const(EXT_CONST[d]))
    return V(('x', d))


def canon(d):
    if d.startswith('numpy.core.'):
        d = d.replace('numpy.core.', 'numpy.')
    return d
