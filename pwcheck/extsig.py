"""Signatures of functions of the installed libraries, read from their source
(nothing is imported)."""
import ast
import os
import warnings

ROOTS = ['/opt/venv/lib/python3.12/site-packages', '/usr/lib/python3.12', '/usr/local/lib/python3.12']
KEEP = {'array_function_dispatch', 'set_module', 'finalize_array_function_like', 'xp_capabilities',
        'array_function_from_c_func_and_dispatcher', 'staticmethod'}
_trees = {}


def _file(mod):
    rel = mod.replace('.', '/')
    for r in ROOTS:
        for p, pkg in ((os.path.join(r, rel, '__init__.py'), True), (os.path.join(r, rel + '.py'), False)):
            if os.path.isfile(p):
                return p, pkg
    return None, False


def _module(mod):
    if mod not in _trees:
        p, pkg = _file(mod)
        t = None
        if p is not None:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    t = ast.parse(open(p, 'rb').read())
            except (OSError, SyntaxError, ValueError):
                t = None
        _trees[mod] = (t, pkg)
    return _trees[mod]


def _top(tree):
    """statements at module level, also inside if/try/with"""
    todo = list(tree.body)
    while todo:
        s = todo.pop(0)
        yield s
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for x in getattr(s, f, []) or []:
                    todo.extend(x.body if isinstance(x, ast.ExceptHandler) else [x])


def resolve(dotted, depth=0):
    """FunctionDef | ClassDef | None"""
    mod, _, name = dotted.rpartition('.')
    if not mod or depth > 8:
        return None
    tree, pkg = _module(mod)
    if tree is None:
        return None
    found = []
    stars = []
    for s in _top(tree):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
            found.append(s)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and t.id == name:
                    return None
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ''
            if s.level:
                parts = mod.split('.')
                cut = s.level - (1 if pkg else 0)
                parts = parts[:len(parts) - cut] if cut else parts
                base = '.'.join(parts + ([base] if base else []))
            for a in s.names:
                if a.name == '*':
                    stars.append(base)
                elif (a.asname or a.name) == name:
                    found.append(resolve(base + '.' + a.name, depth + 1))
    if not found:
        for b in stars:
            r = resolve(b + '.' + name, depth + 1)
            if r is not None:
                found.append(r)
                break
    return found[0] if len(found) == 1 else None


def signature(dotted):
    """(positional names, n required, keyword-only, required kwonly, has *args, has **kw) | None"""
    f = resolve(dotted)
    skip = 0
    if isinstance(f, ast.ClassDef):
        if f.decorator_list or f.keywords:
            return None
        if any(isinstance(b, ast.FunctionDef) and b.name == '__new__' for b in f.body):
            return None
        f = next((b for b in f.body if isinstance(b, ast.FunctionDef) and b.name == '__init__'), None)
        skip = 1
    if f is None:
        return None
    for d in f.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '?')
        if n not in KEEP:
            return None
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    req = len(pos) - len(a.defaults)
    kwo = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, kwo, kwreq, a.vararg is not None, a.kwarg is not None
