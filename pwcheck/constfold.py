"""Constant folding of module-level data (lists, dicts, loops over literals)."""
import ast
import operator

OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Mod: operator.mod,
       ast.FloorDiv: operator.floordiv, ast.Pow: operator.pow}


class Unknown(Exception):
    pass


class Fold:
    """values are python constants, lists, tuples and dicts; anything else is Unknown"""

    def __init__(self, tree):
        self.env = {}
        self.steps = 0
        self.unknown = set()
        self.block(tree.body)

    def block(self, body):
        for s in body:
            try:
                self.stmt(s)
            except Unknown:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.env.pop(n.id, None)
                        self.unknown.add(n.id)

    def strict(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown('too long')
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(s.target)
            v = self.ev(s.value)
            if type(s.op) not in OPS:
                raise Unknown(ast.unparse(s))
            self.assign(s.target, OPS[type(s.op)](cur, v))
        elif isinstance(s, ast.For):
            for x in self.iter(self.ev(s.iter)):
                self.assign(s.target, x)
                self.strict(s.body)
        elif isinstance(s, ast.If):
            self.strict(s.body if self.ev(s.test) else s.orelse)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                o = self.ev(s.value.func.value)
                args = [self.ev(a) for a in s.value.args]
                m = s.value.func.attr
                if isinstance(o, list) and m in ('append', 'extend', 'insert') or isinstance(o, dict) and m in ('update', 'setdefault'):
                    getattr(o, m)(*args, **{k.arg: self.ev(k.value) for k in s.value.keywords})
                    return
            raise Unknown(ast.unparse(s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, ast.Assert):
            return
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            return
        else:
            raise Unknown(type(s).__name__)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(self.iter(v))
            if len(v) != len(t.elts):
                raise Unknown('unpack')
            for a, b in zip(t.elts, v):
                self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if not isinstance(o, (dict, list)):
                raise Unknown('store')
            o[self.ev(t.slice)] = v
        else:
            raise Unknown('target')

    def iter(self, v):
        if isinstance(v, (list, tuple, str, range, dict)):
            return list(v)
        raise Unknown('iter')

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            raise Unknown(n.id)
        if isinstance(n, ast.List):
            return self.elts(n)
        if isinstance(n, ast.Tuple):
            return tuple(self.elts(n))
        if isinstance(n, ast.Dict):
            out = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d = self.ev(v)
                    if not isinstance(d, dict):
                        raise Unknown('**')
                    out.update(d)
                else:
                    out[self.ev(k)] = self.ev(v)
            return out
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand)
            if isinstance(n.op, ast.USub):
                return [-x for x in v] if isinstance(v, list) else -v
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.Not):
                return not v
            raise Unknown('unary')
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            try:
                return OPS[type(n.op)](self.ev(n.left), self.ev(n.right))
            except (TypeError, ZeroDivisionError, OverflowError) as e:
                raise Unknown(str(e))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left), self.ev(n.comparators[0])
            ops = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                   ast.GtE: operator.ge, ast.In: lambda x, y: x in y, ast.NotIn: lambda x, y: x not in y,
                   ast.Is: lambda x, y: x is y, ast.IsNot: lambda x, y: x is not y}
            try:
                return ops[type(n.ops[0])](a, b)
            except TypeError as e:
                raise Unknown(str(e))
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.ev(n.test) else n.orelse)
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value)
            if isinstance(n.slice, ast.Slice):
                lo, hi, st = [self.ev(x) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                i = slice(lo, hi, st)
            else:
                i = self.ev(n.slice)
            try:
                return o[i]
            except (KeyError, IndexError, TypeError) as e:
                raise Unknown(str(e))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            saved = dict(self.env)

            def rec(i):
                if i == len(n.generators):
                    out.append((self.ev(n.key), self.ev(n.value)) if isinstance(n, ast.DictComp) else self.ev(n.elt))
                    return
                g = n.generators[i]
                for x in self.iter(self.ev(g.iter)):
                    self.assign(g.target, x)
                    if all(self.ev(c) for c in g.ifs):
                        rec(i + 1)
            rec(0)
            self.env = saved
            return dict(out) if isinstance(n, ast.DictComp) else out
        if isinstance(n, ast.Call):
            return self.call(n)
        raise Unknown(type(n).__name__)

    def elts(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.iter(self.ev(e.value))
            else:
                out.append(self.ev(e))
        return out

    def call(self, n):
        f = n.func
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iter(self.ev(a.value))
            else:
                args.append(self.ev(a))
        if isinstance(f, ast.Name) and f.id not in self.env:
            kw = {k.arg: self.ev(k.value) for k in n.keywords if k.arg}
            if f.id in ('list', 'tuple', 'dict', 'range', 'len', 'float', 'int', 'str', 'sorted', 'sum', 'min', 'max', 'abs'):
                try:
                    v = {'list': list, 'tuple': tuple, 'dict': dict, 'range': range, 'len': len, 'float': float, 'int': int, 'str': str,
                         'sorted': sorted, 'sum': sum, 'min': min, 'max': max, 'abs': abs}[f.id](*args, **kw)
                except (TypeError, ValueError) as e:
                    raise Unknown(str(e))
                return v
            if f.id == 'enumerate':
                return [tuple(x) for x in enumerate(self.iter(args[0]), *(args[1:] or [kw.get('start', 0)]))]
            if f.id == 'zip':
                return list(zip(*[self.iter(a) for a in args]))
            if f.id == 'reversed':
                return list(reversed(self.iter(args[0])))
        if isinstance(f, ast.Attribute):
            if f.attr in ('array', 'asarray') and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') and args:
                return list(args[0]) if isinstance(args[0], (list, tuple)) else args[0]
            o = self.ev(f.value)
            if isinstance(o, dict) and f.attr in ('keys', 'values', 'items', 'copy', 'get'):
                v = getattr(o, f.attr)(*args)
                return v if f.attr in ('copy', 'get') else list(v)
            if isinstance(o, list) and f.attr in ('copy', 'tolist', 'index'):
                return list(o) if f.attr != 'index' else o.index(*args)
            if isinstance(o, str) and f.attr in ('split', 'strip', 'lower', 'upper', 'replace', 'splitlines'):
                return getattr(o, f.attr)(*args)
        raise Unknown(ast.unparse(n)[:60])
