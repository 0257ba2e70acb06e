"""Program model: parsed modules, classes with MRO, functions, import tables."""
import warnings
import ast
import os
import sys

REPO = os.environ.get('PWCHECK_REPO', '/repo')
SRC = 'src/pwtools'


warnings.simplefilter("ignore", SyntaxWarning)


class AnalysisBroken(Exception):
    """An anchor of a check vanished: no verdict is possible."""


class FunctionInfo:
    def __init__(self, name, node, module, cls=None, parent=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent          # enclosing FunctionInfo
        q = name
        if cls is not None:
            q = cls.name + '.' + name
        if parent is not None:
            q = parent.qual + '.<locals>.' + name
        self.qual = q
        self.fq = module.name + '.' + q
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decorators = list(getattr(node, 'decorator_list', []))
        self._locals = None
        self._globals = None
        self.is_gen = False
        body = node.body if isinstance(node.body, list) else []
        for n in walk_scope(body):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True

    @property
    def deco_names(self):
        return [dotted(d.func if isinstance(d, ast.Call) else d) for d in self.decorators]

    def is_static(self):
        return 'staticmethod' in self.deco_names

    def is_classmethod(self):
        return 'classmethod' in self.deco_names

    def local_names(self):
        if self._locals is None:
            self._locals, self._globals = bound_names(self.node)
        return self._locals

    def doc(self):
        if isinstance(self.node, ast.Lambda):
            return ''
        return ast.get_docstring(self.node) or ''

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, 'lineno') else self.node
        return '%s:%d' % (self.module.relpath, n.lineno)

    def __repr__(self):
        return '<F %s>' % self.fq


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.fq = module.name + '.' + name
        self.methods = {}
        self.base_exprs = list(node.bases)
        self.bases = []        # ClassInfo
        self.ext_bases = []    # dotted strings
        self._mro = None

    def mro(self):
        if self._mro is None:
            self._mro = [self] + _merge([b.mro() for b in self.bases] + [list(self.bases)])
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def has_ext_base(self):
        return any(c.ext_bases for c in self.mro())

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<K %s>' % self.fq


def _merge(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AnalysisBroken('inconsistent MRO')
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def walk_scope(body):
    """All nodes of a scope without descending in nested function/class scopes
    (the nested def node itself is yielded)."""
    todo = list(body) if isinstance(body, list) else [body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(n.decorator_list)
            todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
        elif isinstance(n, ast.Lambda):
            todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
        elif isinstance(n, ast.ClassDef):
            todo.extend(n.decorator_list + n.bases)
        else:
            todo.extend(ast.iter_child_nodes(n))


def target_names(t):
    out = []
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
    return out


def bound_names(fnode):
    """(local names, names declared global/nonlocal) of a function node."""
    loc, glob = set(), set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    l2, g2 = scope_bindings(body)
    return (loc | l2) - g2, g2


COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def scope_bindings(body):
    loc, glob = set(), set()

    def visit(n, incomp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, incomp)
            return
        if isinstance(n, ast.ClassDef):
            loc.add(n.name)
            for d in n.decorator_list + n.bases:
                visit(d, incomp)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, incomp)
            return
        if isinstance(n, COMP):
            for c in ast.iter_child_nodes(n):
                visit(c, True)
            return
        if isinstance(n, ast.NamedExpr):
            loc.add(n.target.id)
            visit(n.value, incomp)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if not incomp:
                loc.add(n.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != '*':
                    loc.add(al.asname or al.name.split('.')[0])
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c, incomp)

    for s in body:
        visit(s, False)
    return loc, glob


def inline_tests(tree):
    """Rewrites that keep the behaviour and bring different spellings into one
    form for the analyses:

    * `t = <test>` directly before `if t:` (t used for nothing else) is `if <test>:`
    * `return t` after an if statement moves to the end of its branches
    * `t = x` directly before `return t` is `return x`
    * `k = 0`, `while k < n: ...; k += 1` is `for k in range(n): ...`
    """
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inline_tests_of(f)
    return tree


def bodies(f):
    for n in ast.walk(f):
        for body in (getattr(n, 'body', None), getattr(n, 'orelse', None), getattr(n, 'finalbody', None)):
            if isinstance(body, list):
                yield body


def push_return(f, body, ret):
    """append `return name` to a block, inside the branches of its last if"""
    last = body[-1] if body else None
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return
    if isinstance(last, ast.If):
        push_return(f, last.body, ret)
        push_return(f, last.orelse, ret)
    else:
        r = ast.Return(ast.Name(ret.value.id, ast.Load()))
        ast.copy_location(r, ret)
        ast.copy_location(r.value, ret.value)
        body.append(r)


def counting(f, body, i, w):
    """the counter of `k = 0; while k < n: ...; k += 1`"""
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
        return None
    k, n, inc = t.left.id, t.comparators[0], w.body[-1]
    if len(w.body) < 2 or not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and
                               inc.target.id == k and isinstance(inc.value, ast.Constant) and inc.value.value == 1):
        return None
    # starts at 0
    for s in reversed(body[:i]):
        names = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == k]
        if names:
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and s.targets[0] is names[0] and len(names) == 1 and
                    isinstance(s.value, ast.Constant) and s.value.value == 0 and not isinstance(s.value.value, bool)):
                return None
            break
    else:
        return None
    # the limit stays
    stored, inside = set(), 0
    for s in w.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Name, ast.Attribute)) and not isinstance(x.ctx, ast.Load) and x is not inc.target:
                stored.add(x.id if isinstance(x, ast.Name) else x.attr)
            elif isinstance(x, (ast.Continue, ast.Yield)):
                return None
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id in stored or isinstance(x, ast.Attribute) and x.attr in stored:
            return None
        if not isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.BinOp, ast.operator, ast.Subscript, ast.UnaryOp, ast.unaryop)) and not (
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len'):
            return None
    if isinstance(n, ast.Call) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                                       x.func.attr in ('append', 'pop', 'extend', 'insert', 'remove', 'clear') for s in w.body for x in ast.walk(s)):
        return None
    if k in stored:
        return None
    # used nowhere else
    count = lambda z: sum(1 for x in ast.walk(z) if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load))
    later = False
    if count(f) != count(w):
        # loads in other loops of the same form, each of which starts at 0
        for x in ast.walk(f):
            if isinstance(x, ast.While) and x is not w and count(x):
                if not (isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Name) and x.test.left.id == k):
                    later = True
        total = sum(count(x) for x in ast.walk(f) if isinstance(x, ast.While) and isinstance(x.test, ast.Compare) and
                    isinstance(x.test.left, ast.Name) and x.test.left.id == k)
        if later or total != count(f):
            return None
    return k


def inline_tests_of(f):
    fixed = set()
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            fixed.update(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
            fixed.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name))
        elif isinstance(n, ast.Try):
            for s in n.finalbody:
                fixed.update(x.id for x in ast.walk(s) if isinstance(x, ast.Name))
    for body in list(bodies(f)):
        for i, w in enumerate(body):
            if isinstance(w, ast.While) and not w.orelse:
                k = counting(f, body, i, w)
                if k is not None and k not in fixed:
                    r = ast.For(ast.Name(k, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [w.test.comparators[0]], []),
                                w.body[:-1], [], lineno=w.lineno)
                    ast.copy_location(r, w)
                    ast.copy_location(r.target, w.test)
                    ast.copy_location(r.iter, w.test)
                    ast.copy_location(r.iter.func, w.test)
                    body[i] = r
    # the single exit
    last = f.body[-1]
    if isinstance(last, ast.Return) and isinstance(last.value, ast.Name) and len(f.body) > 1 and isinstance(f.body[-2], ast.If):
        assigned = [n for n in ast.walk(f.body[-2]) if isinstance(n, ast.Name) and n.id == last.value.id and isinstance(n.ctx, ast.Store)]
        if assigned and last.value.id not in fixed:
            del f.body[-1]
            push_return(f, f.body, last)
    for body in list(bodies(f)):
        if len(body) > 1 and isinstance(body[-1], ast.Return) and isinstance(body[-1].value, ast.Name):
            a, b = body[-2:]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                    a.targets[0].id == b.value.id and b.value.id not in fixed:
                b.value = a.value
                del body[-2]
    # tests
    loads, bad = {}, fixed | set(a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg))
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            loads[n.id] = loads.get(n.id, 0) + 1
    pairs = {}
    for body in bodies(f):
        for a, b in zip(body, body[1:]):
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.If):
                t = b.test
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t = t.operand
                if isinstance(t, ast.Name) and t.id == a.targets[0].id:
                    pairs.setdefault(t.id, []).append((body, a, b))
    for name, ps in pairs.items():
        if name in bad or loads[name] != len(ps):
            continue
        for body, a, b in ps:
            holder, field, t = b, 'test', b.test
            while isinstance(t, ast.UnaryOp):
                holder, field, t = t, 'operand', t.operand
            setattr(holder, field, a.value)
            body.remove(a)


class ModuleInfo:
    def __init__(self, name, path, relpath, is_pkg=False):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_pkg = is_pkg
        with open(path, 'rb') as fd:
            self.source = fd.read()
        self.tree = inline_tests(ast.parse(self.source, filename=path))
        self.functions = {}    # module level
        self.classes = {}
        self.all_functions = []   # incl. methods, nested, lambdas
        self.fn_by_node = {}
        self.lines = self.source.decode('utf8', 'replace').splitlines()

    def segment(self, node):
        return ast.get_source_segment(self.source.decode('utf8', 'replace'), node) or ''

    def __repr__(self):
        return '<M %s>' % self.name


def installed(dotted_name):
    top = dotted_name.split('.')[0]
    if top not in INSTALLED:
        INSTALLED[top] = top in sys.stdlib_module_names or any(
            os.path.exists(os.path.join(r, top + e)) for r in ROOTS for e in ('', '.py')) or not os.path.isdir(ROOTS[0])
    return INSTALLED[top]


INSTALLED = {}
ROOTS = ['/opt/venv/lib/python3.12/site-packages', '/usr/lib/python3.12', '/usr/local/lib/python3.12']


class Program:
    def __init__(self, repo=None, with_scripts=False):
        self.repo = repo or REPO
        self.modules = {}
        self.scripts = {}
        src = os.path.join(self.repo, SRC)
        if not os.path.isdir(src):
            raise AnalysisBroken('no %s' % src)
        for dp, dn, fn in os.walk(src):
            dn[:] = sorted(d for d in dn if d not in ('test', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, src)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(['pwtools'] + parts)
                self._add(ModuleInfo(name, p, os.path.relpath(p, self.repo), is_pkg), self.modules)
        if with_scripts:
            for top in ('bin', 'examples'):
                for dp, dn, fn in os.walk(os.path.join(self.repo, top)):
                    dn.sort()
                    for f in sorted(fn):
                        if f.endswith('.py'):
                            p = os.path.join(dp, f)
                            rel = os.path.relpath(p, self.repo)
                            m = ModuleInfo('script:' + rel, p, rel)
                            self._add(m, self.scripts)
        self._link()

    def add_stub(self, name, path):
        """a module of stand-ins (parsed, never run) that specifications hand to the analysed code"""
        if name not in self.modules:
            m = ModuleInfo(name, path, os.path.basename(path))
            m.imports = {}
            self._add(m, self.modules)
        return self.modules[name]

    def _add(self, m, table):
        table[m.name] = m
        self._scan(m, m.tree.body, None, None)

    def _scan(self, m, body, cls, parent):
        # statement-level recursive scan, descending in if/try/for at module level
        for n in body if isinstance(body, list) else [body]:
            self._scan_node(m, n, cls, parent)

    def _scan_node(self, m, n, cls, parent):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            name = getattr(n, 'name', '<lambda>')
            f = FunctionInfo(name, n, m, cls, parent)
            m.fn_by_node[n] = f
            m.all_functions.append(f)
            if cls is not None and parent is None and not isinstance(n, ast.Lambda):
                cls.methods[name] = f
            elif parent is None and cls is None and not isinstance(n, ast.Lambda):
                m.functions[name] = f
            for d in f.decorators + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self._scan_node(m, d, None, parent)
            self._scan(m, n.body, None, f)
        elif isinstance(n, ast.ClassDef):
            c = ClassInfo(n.name, n, m)
            if parent is None and cls is None:
                m.classes[n.name] = c
            m.fn_by_node[n] = c
            for d in n.decorator_list + n.bases:
                self._scan_node(m, d, None, parent)
            self._scan_class(m, n.body, c)
        else:
            for ch in ast.iter_child_nodes(n):
                self._scan_node(m, ch, cls if not isinstance(n, ast.expr) else None, parent)

    def _scan_class(self, m, body, c):
        for n in body:
            self._scan_node(m, n, c, None)

    # -- linking ----------------------------------------------------------
    def _link(self):
        for m in list(self.modules.values()) + list(self.scripts.values()):
            m.imports = {}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)) and self._module_level(m, n):
                    for name, tgt in self.import_targets(m, n):
                        # of two imports of one name, the one of a library that is there
                        if name not in m.imports or (isinstance(m.imports[name], str) and not installed(m.imports[name])):
                            m.imports[name] = tgt
        for m in list(self.modules.values()) + list(self.scripts.values()):
            for x in m.fn_by_node.values():
                if isinstance(x, ClassInfo):
                    for b in x.base_exprs:
                        r = self.resolve_expr(m, b)
                        if isinstance(r, ClassInfo):
                            x.bases.append(r)
                        else:
                            d = r if isinstance(r, str) else dotted(b)
                            if d not in ('object', 'builtins.object'):
                                x.ext_bases.append(d)

    def _module_level(self, m, node):
        if not hasattr(m, '_mlset'):
            m._mlset = set(id(x) for x in walk_scope(m.tree.body))
        return id(node) in m._mlset

    def import_targets(self, m, n):
        """[(local name, target)]: target = ModuleInfo | FunctionInfo | ClassInfo
        | ('attr', ModuleInfo, name) | 'ext.dotted'"""
        out = []
        if isinstance(n, ast.Import):
            for al in n.names:
                if al.asname:
                    out.append((al.asname, self.modules.get(al.name, al.name)))
                else:
                    top = al.name.split('.')[0]
                    out.append((top, self.modules.get(top, top)))
        else:
            base = n.module or ''
            if n.level:
                pk = m.name.split('.')
                if not m.is_pkg:
                    pk = pk[:-1]
                pk = pk[:len(pk) - (n.level - 1)]
                base = '.'.join(pk + ([n.module] if n.module else []))
            for al in n.names:
                full = base + '.' + al.name
                if full in self.modules:
                    t = self.modules[full]
                elif base in self.modules:
                    mm = self.modules[base]
                    if al.name == '*':
                        t = ('star', mm)
                    else:
                        t = ('attr', mm, al.name)
                else:
                    t = full
                out.append((al.asname or al.name, t))
        return out

    def module_attr(self, m, name, seen=None):
        """Resolve name in module namespace -> entity or None."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            t = m.imports[name]
            if isinstance(t, tuple) and t[0] == 'attr':
                return self.module_attr(t[1], t[2], seen)
            return t
        sub = self.modules.get(m.name + '.' + name)
        if sub is not None:
            return sub
        for k, t in m.imports.items():
            if isinstance(t, tuple) and t[0] == 'star':
                r = self.module_attr(t[1], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, m, node):
        """Resolve Name/Attribute chain at module scope of m."""
        d = dotted(node)
        if d is None:
            return None
        parts = d.split('.')
        cur = self.module_attr(m, parts[0])
        if cur is None:
            return None
        for p in parts[1:]:
            if isinstance(cur, ModuleInfo):
                cur = self.module_attr(cur, p)
            elif isinstance(cur, ClassInfo):
                cur = cur.find(p)
            elif isinstance(cur, str):
                cur = cur + '.' + p
            else:
                return None
            if cur is None:
                return None
        return cur

    # -- lookup helpers -----------------------------------------------------
    def mod(self, short):
        name = 'pwtools.' + short if short else 'pwtools'
        if name not in self.modules:
            raise AnalysisBroken('module %s not found' % name)
        return self.modules[name]

    def func(self, spec):
        """'crys:scell' or 'crys:Structure.copy'."""
        ms, q = spec.split(':')
        m = self.mod(ms)
        if '.' in q:
            c, f = q.split('.')
            if c not in m.classes or m.classes[c].find(f) is None:
                raise AnalysisBroken('%s not found' % spec)
            return m.classes[c].find(f)
        if q not in m.functions:
            r = self.module_attr(m, q)
            if isinstance(r, FunctionInfo):
                return r
            raise AnalysisBroken('%s not found' % spec)
        return m.functions[q]

    def cls(self, spec):
        ms, q = spec.split(':')
        m = self.mod(ms)
        if q not in m.classes:
            raise AnalysisBroken('class %s not found' % spec)
        return m.classes[q]

    def all_functions(self, scripts=False):
        for m in self.modules.values():
            for f in m.all_functions:
                yield f
        if scripts:
            for m in self.scripts.values():
                for f in m.all_functions:
                    yield f

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c
