"""Reader for the Fortran 90 subset of src/_ext_src/*.f90: routines, declarations,
statements, f2py and OpenMP directives."""
import re


class Routine:
    def __init__(self, name, args, path, line, is_function=False):
        self.name, self.args, self.path, self.line = name, args, path, line
        self.is_function = is_function
        self.decls = {}       # name -> Decl
        self.body = []
        self.f2py = {}        # name -> set of intents ({'in','out','overwrite',...})
        self.threadsafe = False
        self.uses = []
        self.common = set()

    def intent(self, n):
        """the intent f2py derives: directive and declaration joined"""
        d = self.decls.get(n)
        out = set(self.f2py.get(n, ()))
        if d is not None:
            out |= d.intent
        if not out:
            out = {'in'}
        return out

    def f2py_intent(self, n):
        """intents of the Python wrapper: in, out; a pure out argument is not passed"""
        f = set(self.f2py.get(n, ()))
        d = self.decls.get(n)
        s = f | (d.intent if d is not None else set())
        if not s:
            s = {'in'}
        return s


class Decl:
    def __init__(self, name, typ, dims, intent, param, init, save, optional, line, alloc):
        self.name, self.typ, self.dims, self.intent = name, typ, dims, intent
        self.param, self.init, self.save, self.optional, self.line = param, init, save, optional, line
        self.alloc = alloc


class Stmt:
    def __init__(self, kind, line, **kw):
        self.kind, self.line = kind, line
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s:%d>' % (self.kind, self.line)


class ParseError(Exception):
    pass


TOK = re.compile(r"""\s*(?:
    (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[deDE][-+]?\d+)?(?:_\w+)?)
  | (?P<name>[A-Za-z]\w*)
  | (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
  | (?P<dot>\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)
  | (?P<op>\*\*|//|/=|==|<=|>=|=>|\(/|/\)|[-+*/(),:=<>%\[\];])
)""", re.X | re.I)
# 1.eq.2 style literals are not used here; '1.and' would be mis-split


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == '':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot read %r' % s[i:i + 20])
        k = m.lastgroup
        t = m.group(k)
        if k == 'num' and t.endswith('.') and m.end() < len(s) and re.match(r'(and|or|not|eq|ne|lt|le|gt|ge)\.', s[m.end():], re.I):
            t = t[:-1]
            out.append(('num', t))
            i = m.end() - 1
            continue
        if k in ('name', 'dot'):
            t = t.lower()
        out.append((k, t))
        i = m.end()
    return out


class Expr:
    """recursive descent over tokens; results are nested tuples"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('op', 'dot', 'name'):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise ParseError('expected %r at %r' % (v, self.t[self.i:self.i + 3]))

    def expr(self):
        return self.eqv()

    def eqv(self):
        l = self.or_()
        while self.peek() in (('dot', '.eqv.'), ('dot', '.neqv.')):
            o = self.next()[1]
            l = ('bin', o, l, self.or_())
        return l

    def or_(self):
        l = self.and_()
        while self.eat('.or.'):
            l = ('bin', '.or.', l, self.and_())
        return l

    def and_(self):
        l = self.not_()
        while self.eat('.and.'):
            l = ('bin', '.and.', l, self.not_())
        return l

    def not_(self):
        if self.eat('.not.'):
            return ('un', '.not.', self.not_())
        return self.cmp()

    CMP = {'==': '==', '.eq.': '==', '/=': '/=', '.ne.': '/=', '<': '<', '.lt.': '<', '<=': '<=', '.le.': '<=',
           '>': '>', '.gt.': '>', '>=': '>=', '.ge.': '>='}

    def cmp(self):
        l = self.concat()
        if self.peek()[0] in ('op', 'dot') and self.peek()[1] in self.CMP:
            o = self.CMP[self.next()[1]]
            return ('bin', o, l, self.concat())
        return l

    def concat(self):
        l = self.add()
        while self.peek() == ('op', '//'):
            self.next()
            l = ('bin', '//', l, self.add())
        return l

    def add(self):
        if self.peek()[0] == 'op' and self.peek()[1] in '+-':
            o = self.next()[1]
            l = ('un', o, self.mul())
        else:
            l = self.mul()
        while self.peek()[0] == 'op' and self.peek()[1] in ('+', '-'):
            o = self.next()[1]
            l = ('bin', o, l, self.mul())
        return l

    def mul(self):
        l = self.pow()
        while self.peek()[0] == 'op' and self.peek()[1] in ('*', '/'):
            o = self.next()[1]
            l = ('bin', o, l, self.pow())
        return l

    def pow(self):
        l = self.prim()
        if self.peek() == ('op', '**'):
            self.next()
            if self.peek()[0] == 'op' and self.peek()[1] in '+-':
                o = self.next()[1]
                return ('bin', '**', l, ('un', o, self.pow()))
            return ('bin', '**', l, self.pow())
        return l

    def prim(self):
        k, v = self.next()
        if k == 'num':
            return ('num', v)
        if k == 'str':
            return ('str', v[1:-1])
        if k == 'dot' and v in ('.true.', '.false.'):
            return ('log', v)
        if k == 'op' and v == '(':
            e = self.expr()
            if self.peek() == ('op', ','):       # implied do or complex constant
                items = [e]
                while self.eat(','):
                    if self.peek()[0] == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
                        var = self.next()[1]
                        self.need('=')
                        lo = self.expr()
                        self.need(',')
                        hi = self.expr()
                        st = self.expr() if self.eat(',') else ('num', '1')
                        self.need(')')
                        return ('implied', items, var, lo, hi, st)
                    items.append(self.expr())
                self.need(')')
                return ('list', items)
            self.need(')')
            return ('par', e)
        if k == 'op' and v in ('[', '(/'):
            end = ']' if v == '[' else '/)'
            items = []
            while not self.eat(end):
                items.append(self.expr())
                self.eat(',')
            return ('list', items)
        if k == 'op' and v in ('+', '-'):
            return ('un', v, self.prim())
        if k == 'name':
            return self.postfix(v)
        raise ParseError('unexpected %r' % (v,))

    def postfix(self, v):
        if self.peek() == ('op', '('):
            self.next()
            args = self.arglist(')')
            e = ('ref', v, args)
            if self.peek() == ('op', '('):
                raise ParseError('substring')
        else:
            e = ('name', v)
        if self.peek() == ('op', '%'):
            raise ParseError('derived types are not supported')
        return e

    def arglist(self, end):
        out = []
        while not self.eat(end):
            out.append(self.arg())
            if not self.eat(','):
                self.need(end)
                break
        return out

    def arg(self):
        if self.peek()[0] == 'name' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
            n = self.next()[1]
            self.need('=')
            return ('kw', n, self.expr())
        if self.peek() == ('op', ':'):
            self.next()
            return self.slice_tail(None)
        if self.peek() == ('op', '*'):
            self.next()
            return ('star',)
        e = self.expr()
        if self.eat(':'):
            return self.slice_tail(e)
        return e

    def slice_tail(self, lo):
        hi = st = None
        if self.peek()[1] not in (',', ')', ':'):
            hi = self.expr()
        if self.eat(':'):
            st = self.expr()
        return ('slice', lo, hi, st)


def parse_expr(s):
    p = Expr(tokenize(s))
    e = p.expr()
    if p.i != len(p.t):
        raise ParseError('trailing text in %r' % s)
    return e


def logical_lines(src, defines=('__OPENMP', '_OPENMP')):
    """(line number, kind, text) with kind code | omp | f2py"""
    out = []
    stack = []          # preprocessor
    cont = None
    for no, raw in enumerate(src.split('\n'), 1):
        s = raw.strip()
        if s.startswith('#'):
            m = re.match(r'#\s*(\w+)\s*(.*)', s)
            d, rest = m.group(1), m.group(2).strip()
            if d == 'ifdef':
                stack.append(rest.split()[0] in defines)
            elif d == 'ifndef':
                stack.append(rest.split()[0] not in defines)
            elif d == 'if':
                stack.append(any(x in rest for x in defines) if 'defined' in rest else rest != '0')
            elif d == 'else':
                stack[-1] = not stack[-1]
            elif d == 'endif':
                stack.pop()
            continue
        if not all(stack):
            continue
        kind, text = 'code', s
        low = s.lower()
        if low.startswith('!$omp'):
            kind, text = 'omp', s[5:].lstrip()
            text = strip_comment(text)
        elif low.startswith('!f2py'):
            kind, text = 'f2py', strip_comment(s[5:].strip())
        elif low.startswith('!$ '):
            text = strip_comment(s[3:])
        else:
            text = strip_comment(s)
        if not text:
            continue
        if cont is not None and cont[1] == kind:
            if text.startswith('&'):
                text = text[1:]
            text = cont[2] + ' ' + text.strip()
            no0 = cont[0]
        else:
            no0 = no
        if text.endswith('&'):
            cont = (no0, kind, text[:-1].rstrip())
            continue
        cont = None
        for part in split_semi(text):
            out.append((no0, kind, part))
    return out


def strip_comment(s):
    q = None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == '!':
            return s[:i].rstrip()
    return s.rstrip()


def split_semi(s):
    q, out, cur = None, [], ''
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == ';':
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    out.append(cur.strip())
    return [x for x in out if x]


TYPE = re.compile(r'^(double\s*precision|integer|real|logical|complex|character|double\s*complex)\b\s*'
                  r'(\*\s*\d+|\((?:[^()]|\([^()]*\))*\))?\s*(.*)$', re.I)


def split_top(s, sep=','):
    out, depth, cur, q = [], 0, '', None
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch in '([':
            depth += 1
        elif ch in ')]':
            depth -= 1
        elif ch == sep and depth == 0:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_dims(s):
    out = []
    for d in split_top(s):
        parts = split_top(d, ':')
        if ':' in d:
            if len(parts) == 2:
                out.append((parse_expr(parts[0]), parse_expr(parts[1])))
            else:
                out.append((None, None))
        elif d == '*':
            out.append((None, None))
        else:
            out.append((('num', '1'), parse_expr(d)))
    return out


def parse_decl(r, typ, rest, no):
    attrs, names = '', rest
    if '::' in rest:
        attrs, names = rest.split('::', 1)
    elif rest.startswith(','):
        raise ParseError('attributes without ::')
    intent, dims, param, save, opt, alloc = set(), None, False, False, False, False
    for a in split_top(attrs.strip().lstrip(',')):
        al = a.lower().replace(' ', '')
        if al.startswith('intent('):
            t = al[7:-1]
            intent |= {'in', 'out'} if t == 'inout' else {t}
        elif al.startswith('dimension('):
            dims = parse_dims(a[a.index('(') + 1:a.rindex(')')])
        elif al == 'parameter':
            param = True
        elif al == 'save':
            save = True
        elif al == 'optional':
            opt = True
        elif al in ('allocatable', 'pointer', 'target', 'contiguous', 'value'):
            alloc = alloc or al in ('allocatable', 'pointer')
        elif al:
            pass
    for n in split_top(names):
        init = None
        m = re.match(r'^(\w+)\s*(\((?:[^()]|\([^()]*\))*\))?\s*(?:\*\s*\d+)?\s*(?:=\s*(.*))?$', n)
        if not m:
            raise ParseError('declaration %r' % n)
        d = dims
        if m.group(2):
            d = parse_dims(m.group(2)[1:-1])
        if m.group(3):
            try:
                init = parse_expr(m.group(3))
            except ParseError:
                init = ('str', m.group(3))
        nm = m.group(1).lower()
        r.decls[nm] = Decl(nm, re.sub(r'\s+', '', typ.lower()), d, set(intent), param, init, save, opt, no, alloc)


class Parser:
    def __init__(self, src, path):
        self.lines = logical_lines(src)
        self.path = path
        self.i = 0
        self.routines = {}
        self.unknown = []

    def parse(self):
        cur = None
        while self.i < len(self.lines):
            no, kind, text = self.lines[self.i]
            low = text.lower()
            m = re.match(r'^(?:(?:pure|elemental|recursive)\s+)*(subroutine|(?:[\w ()*]+\s)?function)\s+(\w+)\s*(?:\(([^)]*)\))?', low)
            if kind == 'code' and m and not low.startswith('end'):
                self.i += 1
                args = [a.strip() for a in (m.group(3) or '').split(',') if a.strip()]
                cur = Routine(m.group(2), args, self.path, no, 'function' in m.group(1))
                self.routines[cur.name] = cur
                cur.body = self.block(cur, lambda l: re.match(r'^end\s*(subroutine|function)?(\s+\w+)?$', l) is not None)[0]
                continue
            self.i += 1
        return self.routines

    def block(self, r, stop):
        """statements until stop(lowered text); returns (list, terminating text)"""
        out = []
        while self.i < len(self.lines):
            no, kind, text = self.lines[self.i]
            low = text.lower().strip()
            if kind == 'f2py':
                self.f2py(r, text)
                self.i += 1
                continue
            key = ('omp ' + low) if kind == 'omp' else low
            if stop(key):
                self.i += 1
                return out, key
            self.i += 1
            s = self.omp(r, no, low) if kind == 'omp' else self.stmt(r, no, text, low)
            if s is not None:
                out.append(s)
        return out, None

    def f2py(self, r, text):
        low = text.lower()
        if low.startswith('threadsafe'):
            r.threadsafe = True
            return
        m = re.match(r'^(?:[\w ()*]*?,)?\s*intent\s*\(([^)]*)\)\s*(?:,[^:]*)?(?:::)?\s*(.*)$', low)
        if m:
            it = {x.strip() for x in m.group(1).split(',')}
            for n in split_top(m.group(2)):
                n = re.sub(r'\(.*', '', n).strip()
                r.f2py.setdefault(n, set()).update({'in', 'out'} if 'inout' in it else it)

    CLAUSE = re.compile(r'(private|firstprivate|lastprivate|shared|reduction|default|copyin|schedule|num_threads|collapse|if)\s*\(((?:[^()]|\([^()]*\))*)\)')

    def clauses(self, text):
        out = {}
        for m in self.CLAUSE.finditer(text):
            k, v = m.group(1), m.group(2)
            if k == 'reduction':
                op, _, vs = v.partition(':')
                for x in vs.split(','):
                    out.setdefault('reduction', {})[x.strip()] = op.strip()
            elif k in ('default', 'collapse', 'schedule', 'num_threads', 'if'):
                out[k] = v.strip()
            else:
                out.setdefault(k, set()).update(x.strip() for x in v.split(','))
        out['nowait'] = bool(re.search(r'\bnowait\b', text))
        return out

    def omp(self, r, no, low):
        words = re.sub(r'\(.*', '', low)
        cl = self.clauses(low)
        w = words.split()
        if w[:1] == ['parallel'] and w[1:2] in (['do'], ['sections'], ['workshare']):
            if w[1] != 'do':
                self.unknown.append((no, 'omp ' + low))
                return Stmt('other', no, text='omp ' + low, names=[])
            loop = self.next_do(r)
            self.opt_end(('omp end parallel do', 'omp endparalleldo'))
            return Stmt('parallel', no, clauses=cl, body=[Stmt('ompdo', no, clauses=cl, loop=loop)])
        if w[:1] == ['parallel']:
            body, _ = self.block(r, lambda l: re.match(r'^omp end\s*parallel\b', l) is not None)
            return Stmt('parallel', no, clauses=cl, body=body)
        if w[:1] == ['do']:
            loop = self.next_do(r)
            nw = self.opt_end(('omp end do', 'omp enddo'))
            if nw and 'nowait' in nw:
                cl['nowait'] = True
            return Stmt('ompdo', no, clauses=cl, loop=loop)
        if w[:1] == ['simd']:
            return None
        if w[:1] in (['atomic'],):
            body, _ = [], None
            no2, k2, t2 = self.lines[self.i]
            self.i += 1
            s = self.stmt(r, no2, t2, t2.lower().strip())
            self.opt_end(('omp end atomic',))
            return Stmt('guarded', no, how='atomic', body=[s])
        if w[:1] in (['critical'], ['single'], ['master'], ['ordered'], ['masked']):
            body, _ = self.block(r, lambda l: re.match(r'^omp end\s*%s\b' % w[0], l) is not None)
            return Stmt('guarded', no, how=w[0], body=body)
        if w[:1] == ['barrier'] or w[:1] == ['taskwait']:
            return Stmt('barrier', no)
        if w[:1] in (['flush'], ['threadprivate']):
            return None
        if w[:1] == ['end']:
            return None
        self.unknown.append((no, 'omp ' + low))
        return Stmt('other', no, text='omp ' + low, names=[])

    def opt_end(self, texts):
        if self.i < len(self.lines):
            no, kind, text = self.lines[self.i]
            low = 'omp ' + ' '.join(text.lower().split())
            if kind == 'omp' and any(low.startswith(t) for t in texts):
                self.i += 1
                return low
        return None

    def next_do(self, r):
        while self.i < len(self.lines):
            no, kind, text = self.lines[self.i]
            if kind == 'f2py':
                self.i += 1
                continue
            self.i += 1
            s = self.stmt(r, no, text, text.lower().strip())
            if s is None or s.kind != 'do':
                raise ParseError('%s:%d: a do loop has to follow omp do' % (self.path, no))
            return s
        raise ParseError('end of file')

    def stmt(self, r, no, text, low):
        try:
            return self.stmt1(r, no, text, low)
        except ParseError as e:
            self.unknown.append((no, '%s (%s)' % (text[:60], e)))
            return Stmt('other', no, text=text, names=[n for n in re.findall(r'[a-z]\w*', low)])

    def stmt1(self, r, no, text, low):
        low1 = re.sub(r'^(\w+)\s*:\s*(?=do\b|if\b|select\b)', '', low)
        if low1 != low:
            text = text[len(text) - len(low1):]
            low = low1
        if low in ('implicit none', 'continue', 'contains', 'private', 'public') or low.startswith('implicit'):
            return None
        if low.startswith('use '):
            r.uses.append(low[4:].split(',')[0].strip())
            return None
        if re.match(r'^external\b|^intrinsic\b|^interface\b', low):
            return None
        if low.startswith('save'):
            for n in re.findall(r'\w+', low[4:]) or ['*']:
                r.common.add(n)
            return None
        if low.startswith('common'):
            r.common |= set(re.findall(r'\w+', re.sub(r'/\s*\w*\s*/', ' ', low[6:])))
            return None
        if low.startswith('data '):
            r.common |= set(re.findall(r'^\s*(\w+)', low[5:]))
            return None
        m = TYPE.match(text)
        if m and not re.match(r'^\w+\s*=', low) and not re.match(r'^(real|integer|logical|complex)\s*\([^)]*\)\s*=', low) \
                and 'function' not in low:
            parse_decl(r, m.group(1), m.group(3), no)
            return None
        m = re.match(r'^(parameter)\s*\((.*)\)$', low)
        if m:
            for a in split_top(m.group(2)):
                n, _, v = a.partition('=')
                d = r.decls.get(n.strip())
                if d:
                    d.param, d.init = True, parse_expr(v)
            return None
        m = re.match(r'^dimension\b', low)
        if m:
            raise ParseError('dimension statement')
        # ---- control
        m = re.match(r'^do\s*(\d*)\s*(while)?\s*(.*)$', low)
        if m and (low == 'do' or m.group(2) or re.match(r'^do\s+\w+\s*=', low) or re.match(r'^do\s+concurrent', low)):
            if re.match(r'^do\s+concurrent', low):
                raise ParseError('do concurrent')
            end = lambda l: re.match(r'^end\s*do(\s+\w+)?$', l) is not None
            if m.group(2):
                cond = parse_expr(m.group(3))
                body, _ = self.block(r, end)
                return Stmt('while', no, cond=cond, body=body)
            if low == 'do':
                body, _ = self.block(r, end)
                return Stmt('forever', no, body=body)
            var, rng = m.group(3).split('=', 1)
            parts = [parse_expr(x) for x in split_top(rng)]
            body, _ = self.block(r, end)
            return Stmt('do', no, var=var.strip(), lo=parts[0], hi=parts[1],
                        step=parts[2] if len(parts) > 2 else ('num', '1'), body=body)
        m = re.match(r'^if\s*\(', low)
        if m:
            j = match_paren(text, text.index('('))
            cond = parse_expr(text[text.index('(') + 1:j])
            rest = text[j + 1:].strip()
            if rest.lower() == 'then':
                arms, els = [], []
                while True:
                    body, end = self.block(r, lambda l: re.match(r'^(end\s*if|else\s*if\b.*|else)(\s+\w+)?$', l) is not None)
                    arms.append((cond, body))
                    if end is None or re.match(r'^end\s*if', end):
                        break
                    if re.match(r'^else\s*if', end):
                        o = end.index('(')
                        cond = parse_expr(end[o + 1:match_paren(end, o)])
                        continue
                    els, _ = self.block(r, lambda l: re.match(r'^end\s*if', l) is not None)
                    break
                return Stmt('if', no, arms=arms, orelse=els)
            s = self.stmt(r, no, rest, rest.lower())
            return Stmt('if', no, arms=[(cond, [s] if s is not None else [])], orelse=[])
        m = re.match(r'^where\s*\(', low)
        if m:
            j = match_paren(text, text.index('('))
            cond = parse_expr(text[text.index('(') + 1:j])
            rest = text[j + 1:].strip()
            if rest:
                return Stmt('where', no, cond=cond, body=[self.stmt(r, no, rest, rest.lower())])
            body, end = self.block(r, lambda l: re.match(r'^(end\s*where|else\s*where)', l) is not None)
            while end is not None and not end.startswith('end'):
                b2, end = self.block(r, lambda l: re.match(r'^(end\s*where|else\s*where)', l) is not None)
                body = body + b2
            return Stmt('where', no, cond=cond, body=body)
        m = re.match(r'^select\s*case\s*\((.*)\)$', low)
        if m:
            e = parse_expr(m.group(1))
            head, end = self.block(r, lambda l: re.match(r'^(case\b.*|end\s*select)', l) is not None)
            arms, els = [], []
            while end is not None and not re.match(r'^end\s*select', end):
                lab = end
                body, end = self.block(r, lambda l: re.match(r'^(case\b.*|end\s*select)', l) is not None)
                mm = re.match(r'^case\s*\((.*)\)$', lab)
                if mm is None:
                    els = body
                    continue
                c = None
                for p in split_top(mm.group(1)):
                    if ':' in p:
                        raise ParseError('case range')
                    x = ('bin', '==', e, parse_expr(p))
                    c = x if c is None else ('bin', '.or.', c, x)
                arms.append((c, body))
            return Stmt('if', no, arms=arms, orelse=els)
        m = re.match(r'^call\s+(\w+)\s*(\(.*\))?$', low)
        if m:
            args = []
            if m.group(2):
                t = text[text.index('('):]
                p = Expr(tokenize(t))
                p.need('(')
                args = p.arglist(')')
            return Stmt('call', no, name=m.group(1), args=args)
        if low == 'return':
            return Stmt('return', no)
        if re.match(r'^(error\s+)?stop\b', low):
            return Stmt('stop', no)
        if re.match(r'^exit\b', low):
            return Stmt('exit', no)
        if re.match(r'^cycle\b', low):
            return Stmt('cycle', no)
        m = re.match(r'^(read|write|open|close|rewind|inquire|backspace)\s*\(', low)
        if m:
            o = text.index('(')
            j = match_paren(text, o)
            p = Expr(tokenize(text[o:j + 1]))
            p.need('(')
            ctl = p.arglist(')')
            rest = text[j + 1:].strip()
            items = []
            if rest:
                p = Expr(tokenize(rest.lstrip(',')))
                while p.i < len(p.t):
                    items.append(p.expr())
                    if not p.eat(','):
                        break
            return Stmt('io', no, op=m.group(1), ctl=ctl, items=items)
        m = re.match(r'^print\b\s*(.*)$', low)
        if m:
            return Stmt('io', no, op='write', ctl=[], items=[parse_expr(x) for x in split_top(text[5:].strip())[1:]])
        m = re.match(r'^(allocate|deallocate|nullify)\s*\(', low)
        if m:
            o = text.index('(')
            p = Expr(tokenize(text[o:]))
            p.need('(')
            return Stmt('alloc', no, op=m.group(1), items=p.arglist(')'))
        # ---- assignment
        p = Expr(tokenize(text))
        k, v = p.next()
        if k == 'name':
            lhs = p.postfix(v)
            if p.eat('=') or p.eat('=>'):
                rhs = p.expr()
                if p.i == len(p.t):
                    return Stmt('assign', no, lhs=lhs, rhs=rhs)
        raise ParseError('statement')


def match_paren(s, i):
    depth, q = 0, None
    for j in range(i, len(s)):
        ch = s[j]
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
            if depth == 0:
                return j
    raise ParseError('unbalanced parentheses')


def parse_file(path):
    with open(path, encoding='utf-8', errors='replace') as f:
        p = Parser(f.read(), path)
    r = p.parse()
    return r, p.unknown


# ---------------------------------------------------------------- linear forms
class Lin(dict):
    """linear form: {name: coeff, None: const}"""

    @staticmethod
    def c(x):
        return Lin({None: x}) if x else Lin()

    def add(self, o, k=1):
        out = Lin(self)
        for n, v in o.items():
            t = out.get(n, 0) + k * v
            if t:
                out[n] = t
            else:
                out.pop(n, None)
        return out

    def scale(self, k):
        return Lin({n: v * k for n, v in self.items()}) if k else Lin()

    def const(self):
        return self.get(None, 0)

    def is_const(self):
        return all(n is None for n in self)

    def key(self):
        return tuple(sorted(((n or ''), v) for n, v in self.items()))

    def show(self):
        out = []
        for n, v in sorted(self.items(), key=lambda t: (t[0] is None, t[0] or '')):
            if n is None:
                out.append('%+d' % v)
            else:
                out.append(('%+d*%s' % (v, n)) if abs(v) != 1 else ('+' if v > 0 else '-') + n)
        return ''.join(out).lstrip('+') or '0'


def lin(e, env=None):
    """Lin of an integer expression, or None"""
    k = e[0]
    if k == 'num':
        try:
            v = int(e[1])
        except ValueError:
            return None
        return Lin.c(v)
    if k == 'name':
        if env and e[1] in env:
            return env[e[1]]
        return Lin({e[1]: 1})
    if k == 'par':
        return lin(e[1], env)
    if k == 'un':
        x = lin(e[2], env)
        if x is None or e[1] not in '+-':
            return None
        return x.scale(-1) if e[1] == '-' else x
    if k == 'bin':
        a, b = lin(e[2], env), lin(e[3], env)
        if a is None or b is None:
            return None
        if e[1] == '+':
            return a.add(b)
        if e[1] == '-':
            return a.add(b, -1)
        if e[1] == '*':
            if a.is_const():
                return b.scale(a.const())
            if b.is_const():
                return a.scale(b.const())
    return None


def infeasible(cons):
    """Fourier-Motzkin over the rationals with integer tightening of constant
    rows: every c in cons means c >= 0. True if no point satisfies all."""
    rows = [dict(c) for c in cons]
    while True:
        names = set()
        for r in rows:
            names |= {n for n in r if n is not None}
        for r in rows:
            if not [n for n in r if n is not None] and r.get(None, 0) < 0:
                return True
        if not names:
            return False
        # eliminate the variable with the fewest products
        def cost(n):
            p = sum(1 for r in rows if r.get(n, 0) > 0)
            q = sum(1 for r in rows if r.get(n, 0) < 0)
            return p * q - p - q
        n = min(sorted(names), key=cost)
        pos = [r for r in rows if r.get(n, 0) > 0]
        neg = [r for r in rows if r.get(n, 0) < 0]
        rest = [r for r in rows if not r.get(n, 0)]
        for p in pos:
            for q in neg:
                a, b = p[n], -q[n]
                new = {}
                for k in set(p) | set(q):
                    v = b * p.get(k, 0) + a * q.get(k, 0)
                    if v and k != n:
                        new[k] = v
                rest.append(new)
        # drop duplicates and trivial rows
        seen, rows = set(), []
        for r in rest:
            key = tuple(sorted(((k or ''), v) for k, v in r.items()))
            if key in seen:
                continue
            seen.add(key)
            if all(k is None for k in r) and r.get(None, 0) >= 0:
                continue
            rows.append(r)
        if len(rows) > 4000:
            return False
        if not rows:
            return False
