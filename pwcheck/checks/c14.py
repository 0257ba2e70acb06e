"""C14: SQL statements bind their values, use the configured table, are committed."""
import ast
import re

from ..model import FunctionInfo
from ..terms import EMPTY, Terms, V, show

PASS = {'execute', 'executemany', 'executescript', 'get_list1d', 'get_single', 'get_array1d', 'get_array', 'get_dict'}
RAW = {'execute', 'executemany', 'executescript'}
MODIFY = ('insert', 'update', 'create', 'alter', 'delete', 'drop', 'replace')
DATA_ATTRS = {'sqlval', 'fileval'}
TOKEN = re.compile(r"\s*(\x00\d+\x00|'(?:[^'])*'|\"[^\"]*\"|\?\d*|:\w+|[A-Za-z_][\w.]*|\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|==|<=|>=|<>|!=|[(),;=<>*+\-/|.])", re.S)
COMPARE = {'=', '==', '<', '>', '<=', '>=', '!=', '<>', 'like', 'is', 'between', 'glob', 'in', 'limit', 'offset'}


class Statement:
    """token list of a template: holes are \\0n\\0"""

    def __init__(self, t):
        self.holes = []
        text = ''
        for p in (t[1] if t[0] == 'str' else (t[1],)):
            if isinstance(p, str):
                text += p
            else:
                text += '\x00%d\x00' % len(self.holes)
                self.holes.append(p)
        self.text = text
        self.tokens = []
        pos = 0
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                if text[pos:].strip() == '':
                    break
                pos += 1
                continue
            self.tokens.append(m.group(1))
            pos = m.end()
        self.kind = self.tokens[0].lower() if self.tokens else ''

    def hole(self, tok):
        m = re.fullmatch(r'\x00(\d+)\x00', tok)
        return self.holes[int(m.group(1))] if m else None

    def analyse(self):
        """-> tables [value], identifiers [value], values [(token, value)], nparam:
        list of counted placeholders (int or length term)"""
        tables, idents, values, params = [], [], [], []
        toks = self.tokens
        low = [t.lower() for t in toks]
        depth_values = None
        depth = 0
        columns = None
        for i, t in enumerate(toks):
            prev = low[i - 1] if i else ''
            prev2 = low[i - 2] if i > 1 else ''
            h = self.hole(t)
            if t == '(':
                depth += 1
                if prev == 'values':
                    depth_values = depth
                continue
            if t == ')':
                if depth_values == depth:
                    depth_values = None
                depth -= 1
                continue
            is_name = h is not None or re.match(r'[A-Za-z_]', t) and low[i] not in ('if', 'not', 'exists', 'table', 'or')
            if t.startswith('?') or t.startswith(':'):
                params.append(1)
                values.append((t, None))
                continue
            in_values = depth_values is not None and depth >= depth_values
            at_value = in_values or prev in COMPARE or (prev == '(' and prev2 in COMPARE) or \
                (prev == ',' and self.in_list(low, i))
            if at_value and (h is not None or t[0] in '\'"' and '\x00' in t or re.match(r"['\d\"]", t)):
                if h is not None:
                    q = placeholders(h)
                    if q is not None:
                        params.append(q)
                        values.append((t, None))
                    else:
                        values.append((t, h))
                else:
                    values.append((t, V(('quoted',)) if '\x00' in t else None))
                continue
            if t[0] in '\'"' and '\x00' in t:
                values.append((t, V(('quoted',))))
                continue
            if is_name and (prev in ('from', 'into', 'update', 'join') or prev == 'table' and self.kind in ('create', 'alter', 'drop')
                            or prev == 'exists' or prev == '(' and prev2 in ('table_info', 'index_list', 'table_xinfo')):
                tables.append(h if h is not None else V(('const', t)))
                continue
            if h is not None:
                idents.append(h)
                if prev == '(' and self.kind == 'insert' and depth == 1 and depth_values is None:
                    columns = h
        return tables, idents, values, params, columns

    def in_list(self, low, i):
        """inside  x in ( a, b, <here>"""
        d = 0
        for j in range(i - 1, 0, -1):
            if low[j] == ')':
                d += 1
            elif low[j] == '(':
                if d == 0:
                    return low[j - 1] in ('in', 'values')
                d -= 1
        return False


def placeholders(h):
    """the hole is '?,?,...': -> its number (int or ('len', base)), else None"""
    if len(h) != 1:
        rs = [placeholders(V(x)) for x in h]
        return rs[0] if rs and all(r == rs[0] and r is not None for r in rs) else None
    t = next(iter(h))
    if t[0] == 'const' and isinstance(t[1], str) and re.fullmatch(r'[?,\s]+', t[1]):
        return t[1].count('?')
    if t[0] == 'str' and all(isinstance(p, str) and re.fullmatch(r'[?,\s]*', p) or not isinstance(p, str) and placeholders(p) is not None
                             for p in t[1]):
        n = [p.count('?') if isinstance(p, str) else placeholders(p) for p in t[1]]
        n = [x for x in n if x]
        return n[0] if len(n) == 1 else ('sum', tuple(map(repr, n)))
    if t[0] == 'join' and ',' in t[1]:
        return qcount(t[2])
    if t[0] in ('op', 'slice') and t[0] == 'op' and t[1] == 'Mult':
        return qcount(V(t))
    if t[0] == 'slice':          # ('?,'*n)[:-1]
        return qcount(t[1])
    if t[0] == 'call' and t[1] in ('.rstrip', '.strip') and t[2]:
        return qcount(t[2][0])
    return None


def qcount(v):
    if len(v) != 1:
        return None
    t = next(iter(v))
    isq = lambda x: x == V(('const', '?')) or x == V(('const', '?,')) or x == V(('const', '?, '))
    if t[0] == 'rep' and len(t[1]) == 1:
        e = next(iter(t[1]))
        if e[0] == 'seq' and len(e[1]) == 1 and isq(e[1][0]):
            return number(t[2])
    if t[0] == 'map' and isq(t[1]):
        return ('filtered' if t[3] else 'len', base(t[2]))
    if t[0] == 'seq' and all(isq(x) for x in t[1]):
        return len(t[1])
    if t[0] == 'op' and t[1] == 'Mult' and any(isq(x) for x in t[2:]):
        o = [x for x in t[2:] if not isq(x)]
        return number(o[0]) if o else None
    if t[0] == 'const' and isinstance(t[1], str) and re.fullmatch(r'[?,\s]+', t[1]):
        return t[1].count('?')
    return None


def number(v):
    if len(v) != 1:
        return ('expr', v)
    t = next(iter(v))
    if t[0] == 'const':
        return t[1]
    if t[0] == 'len':
        return ('len', base(t[1]))
    return ('expr', v)


def base(v):
    """the collection whose length counts: keys(x), values(x), sorted(x), map(.., x) have the length of x"""
    out = set()
    for t in v:
        if t[0] in ('keys', 'values', 'items', 'sorted'):
            out |= base(t[1])
        elif t[0] == 'map' and not t[3]:
            out |= base(t[2])
        else:
            out.add(t)
    return frozenset(out)


def order(v):
    """('sorted' | 'plain', base) of a sequence, None when unknown"""
    if len(v) != 1:
        o = set(order(V(t)) for t in v)
        return o.pop() if len(o) == 1 else None
    t = next(iter(v))
    if t[0] in ('keys', 'values', 'items'):
        return ('plain', base(t[1]))
    if t[0] == 'sorted':
        o = order(t[1])
        return ('sorted', o[1] if o else base(t[1]))
    if t[0] == 'map' and not t[3]:
        o = order(t[2])
        return o or ('plain', base(t[2]))
    return None


def contains(v, pred):
    if isinstance(v, frozenset):
        return any(contains(x, pred) for x in v)
    if isinstance(v, tuple):
        return pred(v) or any(contains(x, pred) for x in v)
    return False


def is_data(v):
    return contains(v, lambda t: len(t) == 3 and t[0] == 'attr' and t[2] in DATA_ATTRS or
                    t[:1] == ('param',) and t[1] in ('val', 'value', 'values', 'sqlval', 'fileval', 'row', 'rows'))


class Visitor:
    def __init__(self, c, prog, dbcls):
        self.c = c
        self.dbcls = dbcls
        self.news = {}
        self.root = None

    def opaque(self, fi):
        return fi.name == 'flatten'        # the value of one element is that of the query

    def call(self, ctx, n, fv, recv, args, kws, star, st):
        for t in fv:
            if t[0] == 'cls' and t[1].subclass_of(self.dbcls):
                self.news.setdefault(ctx.root, []).append((t[1], args, kws))
        if not isinstance(n.func, ast.Attribute):
            return
        attr = n.func.attr
        if attr == 'commit' and not any(t[0] == 'method' for t in fv):
            st.data = frozenset(x for x in st.data if x[0] != 'dirty')
            self.c.site('commits')
        if attr not in RAW or not args:
            return
        if any(t[0] == 'method' for t in fv):
            return             # the wrapper; the statement is judged where it reaches the cursor
        # frame that wrote the statement
        fr, node = ctx, n
        while fr.up is not None and fr.fi.name in PASS:
            node, fr = fr.node, fr.up
        for t in args[0]:
            if t[0] == 'const' and isinstance(t[1], str) or t[0] == 'str':
                self.statement(ctx, fr, node, t, args[1:], attr, st)
            elif t[0] in ('item', 'op', 'param', 'missing', 'elem') or star:
                self.c.site('statements of the caller')
            else:
                self.c.site('statements not resolved', '%s: %s' % (fr.fi.qual, show(args[0])[:80]))

    def statement(self, ctx, fr, node, t, params, attr, st):
        c = self.c
        s = Statement(t)
        if not s.kind.isalpha():
            return
        root = ctx.root
        where = '%s:%d' % (fr.fi.module.relpath, node.lineno)
        name = re.sub(r'\s+', ' ', re.sub(r'\x00\d+\x00', '%s', s.text)).strip()
        key = '%s|%s' % (fr.fi.fq, name[:60])
        tables, idents, values, nparam, columns = s.analyse()
        c.site('SQL statements', '%s: %s' % (fr.fi.qual, name[:70]))
        if s.kind in MODIFY:
            st.data = st.data | {('dirty', fr.fi.fq, name[:50], where)}
        for tok, v in values:
            c.site('values')
            if v is not None:
                c.violate('bind', key, where, '%s: the statement "%s" contains a value in its text (%s), it has to be bound with ?'
                          % (fr.fi.qual, name, 'in quotes' if v == V(('quoted',)) else show(v)[:80]))
        for v in idents:
            if is_data(v):
                c.violate('bind', key, where, '%s: the statement "%s" contains data in its text (%s)' % (fr.fi.qual, name, show(v)[:80]))
        # number and order of the placeholders
        if attr == 'execute':
            n = sum(nparam) if all(isinstance(x, int) for x in nparam) else None
            sym = nparam[0] if len(nparam) == 1 and not isinstance(nparam[0], int) else None
            given = params[0] if params else V(('seq', ()))
            for g in given:
                if g[0] == 'seq':
                    c.site('placeholder counts')
                    if n is not None and n != len(g[1]):
                        c.violate('count', key, where, '%s: "%s" has %d placeholder(s) and is given %d value(s)'
                                  % (fr.fi.qual, name, n, len(g[1])))
                elif sym is not None and sym[0] == 'len':
                    c.site('placeholder counts')
                    b = base(V(g))
                    if g[0] == 'map' and g[3] and base(g[2]) == sym[1] or sym[1] == b and False:
                        c.violate('count', key, where, '%s: "%s" has a placeholder for each entry of %s, values are left out'
                                  % (fr.fi.qual, name, show(b)[:60]))
                elif sym is not None and sym[0] == 'expr' and contains(sym[1], lambda t: t[:1] == ('len',)):
                    c.violate('count', key, where, '%s: "%s" has %s placeholders for the values %s'
                              % (fr.fi.qual, name, show(sym[1])[:60], show(V(g))[:60]))
                if columns is not None and len(columns) == 1:
                    cc = next(iter(columns))
                    if cc[0] == 'join':
                        oc, ov = order(cc[2]), order(V(g))
                        if oc is not None and ov is not None and oc[1] == ov[1]:
                            c.site('column order')
                            if oc[0] != ov[0]:
                                c.violate('order', key, where, '%s: "%s": the columns are %s, the values are in another order'
                                          % (fr.fi.qual, name, oc[0]))
        # the table
        for v in tables:
            c.site('tables')
            self.table(ctx, root, fr, v, key, where, name)

    def table(self, ctx, root, fr, v, key, where, name):
        c = self.c
        consts = [t[1] for t in v if t[0] == 'const' and t[1] is not None]
        if root.cls is not None and root.cls.subclass_of(self.dbcls) and root.parent is None:
            have = set(v)
            if 'table' in root.posargs + root.kwonly:
                if ('param', 'table') not in have:
                    c.violate('table', '%s|param|%s' % (root.fq, name[:40]), where,
                              '%s(table=...) runs "%s" (in %s) on %s, not on the table the caller names'
                              % (root.qual, name, fr.fi.qual, show(v)[:60]))
                elif self.default_none(root) and ('self', 'table') not in have:
                    c.violate('table', '%s|selected|%s' % (root.fq, name[:40]), where,
                              '%s() without `table` does not run "%s" (in %s) on the selected table' % (root.qual, name, fr.fi.qual))
            elif consts:
                c.violate('table', key, where, '%s uses the fixed table name %s' % (fr.fi.qual, consts))
            return
        allowed = set()
        for ci, args, kws in self.news.get(root, []):
            init = ci.find('__init__')
            names = init.posargs[1:] if isinstance(init, FunctionInfo) else []
            d = dict(zip(names, args))
            d.update(kws)
            allowed |= set(d.get('table', ()))
        if consts and not all(('const', x) in allowed for x in consts):
            c.violate('table', key, where, '%s uses the fixed table name %s, the database was opened with table=%s'
                      % (fr.fi.qual, ', '.join(consts), show(frozenset(allowed))))
        elif allowed:
            other = [t for t in v if t not in allowed and t != ('const', None) and t[0] != 'many']
            if other and not any(t[0] == 'many' for t in allowed):
                c.violate('table', key, where, '%s uses the table %s, the database was opened with table=%s'
                          % (fr.fi.qual, show(frozenset(other))[:60], show(frozenset(allowed))[:60]))

    def default_none(self, fi):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg == 'table':
                return isinstance(d, ast.Constant) and d.value is None
        return False


AGG = re.compile(r'\s*select\s+(max|min|sum|avg)\s*\(', re.I)


def aggregate(v):
    """the text of the max()/min() query whose result v is (NULL for an empty table)"""
    for t in v:
        if t[0] == 'notnone':
            continue
        r = agg1(t)
        if r:
            return r
    return None


def agg1(t):
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'call' and t[1] in ('.execute', '.fetchall', '.fetchone') or t[0] in ('item', 'elem', 'attr', 'map') or \
            t[0] == 'call' and t[1].split('.')[-1].split(':')[-1] in ('flatten', 'iflatten', 'next', 'list', 'get_single', 'get_list1d', 'get_array1d'):
        for x in t[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, frozenset):
                    for z in y:
                        if z[0] == 'const' and isinstance(z[1], str) or z[0] == 'str':
                            s = z[1] if z[0] == 'const' else ''.join(p if isinstance(p, str) else '%s' for p in z[1])
                            if AGG.match(s):
                                return re.sub(r'\s+', ' ', s).strip()
                        r = agg1(z)
                        if r:
                            return r
    return None


class SqlTerms(Terms):
    """notices arithmetic and comparisons with the result of an aggregate over a table that may be empty"""

    def refine(self, test, truth, st):
        Terms.refine(self, test, truth, st)
        name = none = None
        if isinstance(test, ast.Name):
            name, none = test.id, not truth
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            op = type(test.ops[0]).__name__
            if op in ('Is', 'Eq', 'IsNot', 'NotEq'):
                name, none = test.left.id, truth == (op in ('Is', 'Eq'))
        if name in st.env and none is False:
            st.env[name] = frozenset(('notnone', V(t)) if t[0] != 'notnone' and agg1(t) else t for t in st.env[name])

    def ev1(self, n, ctx, st):
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
            out = EMPTY
            for i, x in enumerate(n.values):
                v = self.ev(x, ctx, st)
                if i < len(n.values) - 1:
                    v = frozenset(('notnone', V(t)) if agg1(t) else t for t in v)
                out |= v
            return out
        if self.visitor is not None:
            if isinstance(n, ast.BinOp):
                ops = [n.left, n.right]
            elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                ops = [n.left] + n.comparators
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('int', 'float', 'range'):
                ops = n.args
            else:
                ops = []
            for x in ops:
                if isinstance(x, ast.Starred):
                    continue
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and x is n.right:
                    continue
                q = aggregate(self.quiet(x, ctx, st))
                if q:
                    self.visitor.c.site('uses of aggregates')
                    self.visitor.c.violate('empty', '%s|%s' % (ctx.fi.fq, q[:50]), '%s:%d' % (ctx.fi.module.relpath, n.lineno),
                                           '%s: the result of "%s" is used in %s without a test for None (an empty table)'
                                           % (ctx.fi.qual, q, ast.unparse(n)[:50]))
        return Terms.ev1(self, n, ctx, st)


def run(c):
    c.explanation = (
        'Symbolic evaluation of the text of every SQL statement (string formatting, joins and helper calls are followed to '
        'the cursor). Each statement is tokenised: table names, identifiers and value positions are separated. Values must be '
        'placeholders; their number and order has to match the values given; the table has to be the one the caller passed or '
        'configured; a function that opens a database commits all changes before it returns; the result of an '
        'aggregate (NULL for an empty table) is tested before it is used in arithmetic.')
    prog = c.load(with_scripts=False)
    dbcls = prog.cls('sql:SQLiteDB')
    vis = Visitor(c, prog, dbcls)
    T = SqlTerms(prog, vis, depth=5)
    for f in prog.all_functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        src = f.module.source
        if b'sql' not in src.lower() and b'execute' not in src:
            continue
        ctx = T.root(f)
        c.site('functions evaluated')
        if ctx.fi in vis.news:
            c.site('functions that open a database')
            ends = ctx.ret_states + ([ctx.end] if getattr(ctx, 'end', None) is not None else [])
            left = set()
            for e in ends:
                left |= set(x for x in e.data if x[0] == 'dirty')
            for x in sorted(left):
                c.violate('commit', '%s|%s' % (f.fq, x[2]), x[3], '%s opens a database and returns without committing "%s" of %s'
                          % (f.qual, x[2], x[1]))
        if f.cls is dbcls and f.name in ('finish', 'commit'):
            c.site('commit methods')
            ends = ctx.ret_states + ([ctx.end] if ctx.end is not None else [])
            if not any(isinstance(x, tuple) and x[0] == 'called' and (x[1] == 'commit' or 'commit' in repr(x[1])) for e in ends for x in e.done):
                c.violate('commit', f.fq, '%s:%d' % (f.module.relpath, f.node.lineno), '%s does not commit' % f.qual)
    c.need('SQL statements', c.counts['SQL statements'], 12)
    c.need('functions that open a database', c.counts['functions that open a database'], 2)
