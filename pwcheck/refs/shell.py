"""The part of a shell the parsers use (grep, sed, awk, head, tail, cut, tr, wc, cat, sort), as functions from text to text.

No command is run: a command line the analysed source builds is read and its effect on the (virtual) files is computed here.
Anything outside the subset raises Unmodelled and leaves the obligation undecided."""
import re


class Unmodelled(Exception):
    pass


def tokens(cmd):
    """words, '|' and '>' of a command line"""
    out, cur, i, n = [], None, 0, len(cmd)
    while i < n:
        c = cmd[i]
        if c == '\\' and i + 1 < n:
            if cmd[i + 1] != '\n':
                cur = (cur or '') + cmd[i + 1]
            i += 2
            continue
        if c == "'":
            j = cmd.index("'", i + 1)
            cur = (cur or '') + cmd[i + 1:j]
            i = j + 1
            continue
        if c == '"':
            i += 1
            cur = cur or ''
            while cmd[i] != '"':
                if cmd[i] == '\\' and cmd[i + 1] in '"\\$`\n':
                    if cmd[i + 1] != '\n':
                        cur += cmd[i + 1]
                    i += 2
                    continue
                if cmd[i] in '$`':
                    raise Unmodelled('expansion')
                cur += cmd[i]
                i += 1
            i += 1
            continue
        if c.isspace():
            if cur is not None:
                out.append(cur)
                cur = None
            if c == '\n' and cmd[i:].strip():
                raise Unmodelled('several commands')
            i += 1
            continue
        if c in '|':
            if cur is not None:
                out.append(cur)
                cur = None
            if cmd[i + 1:i + 2] == '|':
                raise Unmodelled('||')
            out.append(('|',))
            i += 1
            continue
        if c in '<>;&`$?~#':
            raise Unmodelled('character %s' % c)
        cur = (cur or '') + c
        i += 1
    if cur is not None:
        out.append(cur)
    return out


def conv(rx, ere):
    """POSIX regular expression -> the one of re"""
    out, i, n = [], 0, len(rx)
    while i < n:
        c = rx[i]
        if c == '[':
            j = i + 1
            if rx[j:j + 1] == '^':
                j += 1
            if rx[j:j + 1] == ']':
                j += 1
            while j < n and rx[j] != ']':
                if rx[j:j + 2] == '[:':
                    j = rx.index(':]', j) + 2
                else:
                    j += 1
            if j >= n:
                raise Unmodelled('regular expression')
            b = rx[i + 1:j]
            neg = b.startswith('^')
            b = b[1:] if neg else b
            for k, v in (('[:space:]', ' \t\n\r\f\v'), ('[:digit:]', '0-9'), ('[:alpha:]', 'a-zA-Z'), ('[:alnum:]', 'a-zA-Z0-9'), ('[:blank:]', ' \t'),
                         ('[:upper:]', 'A-Z'), ('[:lower:]', 'a-z')):
                b = b.replace(k, v)
            out.append('[' + ('^' if neg else '') + b.replace('\\', '\\\\').replace('[', '\\[').replace(']', '\\]') + ']')
            i = j + 1
            continue
        if c == '\\' and i + 1 < n:
            d = rx[i + 1]
            if not ere and d in '(){}|+?':
                out.append(d)
            elif d in '<>':
                out.append(r'\b')
            elif d in '.*[]^$/\\+?(){}|-"\'=:':
                out.append(re.escape(d))
            elif d in 'sSwWbBn123456789t':
                out.append('\\' + d)
            elif d.isalnum():
                raise Unmodelled('escape \\%s' % d)
            else:
                out.append(re.escape(d))
            i += 2
            continue
        if not ere and c in '(){}|+?':
            out.append('\\' + c)
        elif not ere and c == '*' and (i == 0 or rx[i - 1:i] == '^' and i == 1):
            out.append('\\*')
        elif not ere and c == '^' and i > 0 and rx[i - 2:i] not in ('\\(', '\\|'):
            out.append('\\^')
        elif not ere and c == '$' and i < n - 1 and rx[i + 1:i + 3] not in ('\\)', '\\|'):
            out.append('\\$')
        else:
            out.append(c)
        i += 1
    try:
        return re.compile(''.join(out))
    except re.error:
        raise Unmodelled('regular expression %s' % rx)


def lines(t):
    l = t.split('\n')
    if l and l[-1] == '':
        l.pop()
    return l


def text(l):
    return ''.join(x + '\n' for x in l)


def grep(args, read, stdin, ere):
    pats, files, i = [], [], 0
    o = {'v': False, 'c': False, 'A': 0, 'B': 0, 'm': None, 'i': False, 'n': False, 'o': False, 'h': False, 'F': False, 'q': False, 'w': False}
    rest = False
    while i < len(args):
        a = args[i]
        if a == '--' and not rest:
            rest = True
        elif a.startswith('-') and len(a) > 1 and not rest:
            k = 1
            if a.startswith('--'):
                raise Unmodelled(a)
            while k < len(a):
                f = a[k]
                if f in 'ABCme':
                    v = a[k + 1:]
                    if not v:
                        i += 1
                        v = args[i]
                    if f == 'e':
                        pats.append(v)
                    elif f == 'C':
                        o['A'] = o['B'] = int(v)
                    else:
                        o[f] = int(v)
                    break
                if f.isdigit():
                    o['A'] = o['B'] = int(a[k:])
                    break
                if f == 'E':
                    ere = True
                elif f == 'G':
                    ere = False
                elif f in o:
                    o[f] = True
                else:
                    raise Unmodelled('grep -%s' % f)
                k += 1
        elif not pats and not files and a is args[i] and not any(x == '-e' for x in args):
            pats.append(a)
        else:
            files.append(a)
        i += 1
    if o['n'] or o['o'] or o['q'] or o['w'] or len(files) > 1 or not pats:
        raise Unmodelled('grep')
    src = read(files[0]) if files else stdin
    ps = [conv(re.escape(q) if o['F'] else q, ere or o['F']) for p in pats for q in p.split('\n')]
    if o['i']:
        ps = [re.compile(p.pattern, re.I) for p in ps]
    ls = lines(src)
    hit, show = 0, []
    for k, l in enumerate(ls):
        m = any(p.search(l) for p in ps)
        if m != o['v']:
            if o['m'] is not None and hit >= o['m']:
                break
            hit += 1
            show.append(k)
    if o['c']:
        return '%d\n' % hit
    if not (o['A'] or o['B']):
        return text([ls[k] for k in show])
    sel = set()
    stop = None
    # after the last hit of -m the context ends at the next matching line
    for k in show:
        for j in range(k - o['B'], k + o['A'] + 1):
            if 0 <= j < len(ls):
                sel.add(j)
    if o['m'] is not None and len(show) == o['m'] and show:
        z = show[-1]
        for j in range(z + 1, z + o['A'] + 1):
            if j < len(ls) and any(p.search(ls[j]) for p in ps) != o['v']:
                stop = j
                break
        if stop is not None:
            sel = {j for j in sel if j < stop}
    res, prev = [], None
    for j in sorted(sel):
        if prev is not None and j > prev + 1:
            res.append('--')
        res.append(ls[j])
        prev = j
    return text(res)


class Sed:
    def __init__(self, script, ere):
        self.s, self.i, self.ere = script, 0, ere
        self.cmds = self.block(False)

    def ws(self, more=''):
        while self.i < len(self.s) and (self.s[self.i].isspace() or self.s[self.i] in ';' + more):
            self.i += 1

    def rx(self, d):
        out = ''
        while True:
            if self.i >= len(self.s):
                raise Unmodelled('sed script')
            c = self.s[self.i]
            if c == '\\' and self.i + 1 < len(self.s):
                if self.s[self.i + 1] == d:
                    out += d if d not in '.*[]^$()+?{}|' else '\\' + d
                else:
                    out += self.s[self.i:self.i + 2]
                self.i += 2
                continue
            if c == '[':
                j = self.i + 1
                if self.s[j:j + 1] == '^':
                    j += 1
                if self.s[j:j + 1] == ']':
                    j += 1
                while self.s[j] != ']':
                    j += 1
                out += self.s[self.i:j + 1]
                self.i = j + 1
                continue
            if c == d:
                self.i += 1
                return out
            out += c
            self.i += 1

    def addr(self):
        s = self.s
        if self.i < len(s) and s[self.i].isdigit():
            j = self.i
            while self.i < len(s) and s[self.i].isdigit():
                self.i += 1
            return int(s[j:self.i])
        if s[self.i:self.i + 1] == '$':
            self.i += 1
            return '$'
        if s[self.i:self.i + 1] == '/':
            self.i += 1
            return conv(self.rx('/'), self.ere)
        return None

    def block(self, inner):
        out = []
        while True:
            self.ws()
            if self.i >= len(self.s):
                if inner:
                    raise Unmodelled('sed script')
                return out
            if self.s[self.i] == '}':
                if not inner:
                    raise Unmodelled('sed script')
                self.i += 1
                return out
            a = self.addr()
            b = None
            if a is not None and self.s[self.i:self.i + 1] == ',':
                self.i += 1
                b = self.addr()
                if b is None:
                    raise Unmodelled('sed address')
            while self.s[self.i:self.i + 1].isspace():
                self.i += 1
            neg = self.s[self.i:self.i + 1] == '!'
            if neg:
                self.i += 1
            c = self.s[self.i:self.i + 1]
            self.i += 1
            arg = None
            if c == '{':
                arg = self.block(True)
            elif c == 's':
                d = self.s[self.i]
                self.i += 1
                r = self.rx(d)
                t = self.rx(d)
                j = self.i
                while self.i < len(self.s) and self.s[self.i] in 'gp':
                    self.i += 1
                fl = self.s[j:self.i]
                if self.s[self.i:self.i + 1].strip() not in ('', ';', '}'):
                    raise Unmodelled('sed s flags')
                if re.search(r'\\[a-zA-Z]', t.replace('\\n', '').replace('\\t', '')):
                    raise Unmodelled('sed replacement')
                arg = (conv(r, self.ere), re.sub(r'\\.|&', lambda m: {'&': r'\g<0>', r'\&': '&'}.get(m.group(0), m.group(0)), t), fl)
            elif c not in 'dpqNnDP' or not c:
                raise Unmodelled('sed command %s' % c)
            out.append([a, b, neg, c, arg, {'on': False}])

    def run(self, src, quiet):
        ls = lines(src)
        self.ls, self.k, out = ls, 0, []
        n = len(ls)
        while self.k < n:
            self.ps = ls[self.k]
            self.k += 1
            r = self.do(self.cmds, out, quiet)
            if r != 'd' and not quiet and r != 'done':
                out.append(self.ps)
            if r in ('q', 'done'):
                break
        return text(out)

    def hit(self, cmd):
        a, b, neg, c, arg, st = cmd
        ln = self.k

        def one(x):
            return ln == x if isinstance(x, int) else ln == len(self.ls) if x == '$' else bool(x.search(self.ps))
        if a is None:
            r = True
        elif b is None:
            r = one(a)
        elif st['on']:
            r = True
            if isinstance(b, int):
                if ln >= b:
                    st['on'] = False
                if ln > b:
                    r = False
            elif one(b):
                st['on'] = False
            if not st['on']:
                st['closed'] = True
        else:
            # a range that begins at a line number begins later if that line never came here, but only once
            r = (ln >= a and not st.get('closed')) if isinstance(a, int) else one(a)
            if r and isinstance(a, int) and isinstance(b, int) and ln >= b:
                st['closed'] = True
                r = ln <= b or ln == a
            elif r:
                st['on'] = not (isinstance(b, int) and b <= ln) and not (b == '$' and ln == len(self.ls))
        return r != neg

    def do(self, cmds, out, quiet):
        for cmd in cmds:
            if not self.hit(cmd):
                continue
            c, arg = cmd[3], cmd[4]
            if c == '{':
                r = self.do(arg, out, quiet)
                if r:
                    return r
            elif c == 'd':
                return 'd'
            elif c == 'q':
                return 'q'
            elif c == 'p':
                out.append(self.ps)
            elif c == 'N':
                if self.k >= len(self.ls):
                    if not quiet:
                        out.append(self.ps)
                    return 'done'
                self.ps += '\n' + self.ls[self.k]
                self.k += 1
            elif c == 's':
                r, t, fl = arg
                rep = re.sub(r'\\(\d)', r'\\g<\1>', t).replace('\\/', '/').replace('\\.', '.')
                new, m = r.subn(rep, self.ps, count=0 if 'g' in fl else 1)
                self.ps = new
                if m and 'p' in fl:
                    out.append(self.ps)
            else:
                raise Unmodelled('sed %s' % c)
        return None


def sed(args, read, stdin):
    quiet = ere = False
    scripts, files, i = [], [], 0
    while i < len(args):
        a = args[i]
        if a.startswith('-') and len(a) > 1 and not a.startswith('--'):
            k = 1
            while k < len(a):
                f = a[k]
                if f == 'n':
                    quiet = True
                elif f in 'rE':
                    ere = True
                elif f == 'e':
                    v = a[k + 1:]
                    if not v:
                        i += 1
                        v = args[i]
                    scripts.append(v)
                    break
                else:
                    raise Unmodelled('sed -%s' % f)
                k += 1
        elif not scripts and not files:
            scripts.append(a)
        else:
            files.append(a)
        i += 1
    if len(files) > 1:
        raise Unmodelled('sed')
    return Sed('\n'.join(scripts), ere).run(read(files[0]) if files else stdin, quiet)


def awk(args, read, stdin):
    fs = None
    while args and args[0].startswith('-'):
        if args[0] == '-F':
            fs = args[1]
            args = args[2:]
        elif args[0].startswith('-F'):
            fs = args[0][2:]
            args = args[1:]
        else:
            raise Unmodelled('awk')
    if fs is not None and len(fs) != 1:
        raise Unmodelled('awk -F')
    prog, files = args[0], args[1:]
    m = re.fullmatch(r'\s*(?:(?P<neg>!\s*)?/(?P<re>(?:[^/\\]|\\.)*)/|NR\s*(?P<op>==|>=|<=|>|<|!=)\s*(?P<n>\d+))?\s*(?:\{\s*print\b(?P<pr>[^{};]*);?\s*\})?\s*', prog, re.S)
    if not m or len(files) > 1:
        raise Unmodelled('awk program')
    rx = conv(m.group('re').replace('\\/', '/'), True) if m.group('re') is not None else None
    pr = m.group('pr')
    parts = []
    if pr is not None and pr.strip():
        for w in re.finditer(r'\s*(?:\$(\d+)|\$(NF)|"((?:[^"\\]|\\.)*)"|(,)|(NF|NR))', pr):
            parts.append(w)
        if ''.join(w.group(0) for w in parts).strip() != pr.strip():
            raise Unmodelled('awk print')
    out = []
    for k, l in enumerate(lines(read(files[0]) if files else stdin)):
        if rx is not None:
            if bool(rx.search(l)) == bool(m.group('neg')):
                continue
        elif m.group('op'):
            n = int(m.group('n'))
            if not {'==': k + 1 == n, '>': k + 1 > n, '<': k + 1 < n, '>=': k + 1 >= n, '<=': k + 1 <= n, '!=': k + 1 != n}[m.group('op')]:
                continue
        f = l.split() if fs is None or fs == ' ' else l.split(fs)
        if not parts:
            out.append(l)
            continue
        s = ''
        for w in parts:
            if w.group(1):
                j = int(w.group(1))
                s += l if j == 0 else f[j - 1] if j <= len(f) else ''
            elif w.group(2):
                s += f[-1] if f else ''
            elif w.group(3) is not None:
                if '\\' in w.group(3):
                    raise Unmodelled('awk string')
                s += w.group(3)
            elif w.group(4):
                s += ' '
            else:
                s += str(len(f)) if w.group(5) == 'NF' else str(k + 1)
        out.append(s)
    return text(out)


def headtail(name, args, read, stdin):
    n, files, i = '10', [], 0
    while i < len(args):
        a = args[i]
        if a == '-n':
            n = args[i + 1]
            i += 1
        elif a.startswith('-n'):
            n = a[2:]
        elif re.fullmatch(r'-\d+', a):
            n = a[1:]
        elif a.startswith('-'):
            raise Unmodelled(name)
        else:
            files.append(a)
        i += 1
    if len(files) > 1:
        raise Unmodelled(name)
    l = lines(read(files[0]) if files else stdin)
    if name == 'head':
        return text(l[:int(n)])
    if n.startswith('+'):
        return text(l[int(n) - 1:])
    k = int(n)
    return text(l[-k:] if k else [])


def cut(args, read, stdin):
    d, f, files, i = '\t', None, [], 0
    while i < len(args):
        a = args[i]
        if a in ('-d', '-f'):
            i += 1
            if a == '-d':
                d = args[i]
            else:
                f = args[i]
        elif a.startswith('-d'):
            d = a[2:]
        elif a.startswith('-f'):
            f = a[2:]
        elif a.startswith('-'):
            raise Unmodelled('cut')
        else:
            files.append(a)
        i += 1
    if f is None or len(files) > 1:
        raise Unmodelled('cut')
    out = []
    for l in lines(read(files[0]) if files else stdin):
        p = l.split(d)
        if len(p) == 1:
            out.append(l)
            continue
        idx = []
        for r in f.split(','):
            m = re.fullmatch(r'(\d*)(-?)(\d*)', r)
            if not m:
                raise Unmodelled('cut')
            a = int(m.group(1) or 1)
            b = int(m.group(3)) if m.group(3) else len(p) if m.group(2) else a
            idx += list(range(a, b + 1))
        out.append(d.join(p[k - 1] for k in sorted(set(idx)) if k <= len(p)))
    return text(out)


def tr(args, stdin):
    if len(args) == 2 and args[0] == '-s' and len(args[1]) == 1:
        return re.sub(re.escape(args[1]) + '+', args[1], stdin)
    if len(args) == 2 and args[0] == '-d':
        if '-' in args[1] or '[' in args[1]:
            raise Unmodelled('tr')
        return ''.join(c for c in stdin if c not in args[1].replace('\\n', '\n'))
    if len(args) == 2 and len(args[0]) == 1 and len(args[1]) == 1:
        return stdin.replace(*args)
    raise Unmodelled('tr')


def run(cmd, read):
    toks, pipe = tokens(cmd), [[]]
    for t in toks:
        if t == ('|',):
            pipe.append([])
        else:
            pipe[-1].append(t)
    cur = ''
    for words in pipe:
        if not words:
            raise Unmodelled('empty command')
        name, args = words[0], words[1:]
        if name in ('grep', 'egrep', 'fgrep'):
            cur = grep((['-F'] if name == 'fgrep' else []) + args, read, cur, name == 'egrep')
        elif name == 'sed':
            cur = sed(args, read, cur)
        elif name in ('awk', 'mawk', 'gawk'):
            cur = awk(args, read, cur)
        elif name in ('head', 'tail'):
            cur = headtail(name, args, read, cur)
        elif name == 'cut':
            cur = cut(args, read, cur)
        elif name == 'tr':
            cur = tr(args, cur)
        elif name == 'cat':
            cur = ''.join(read(a) for a in args) if args else cur
        elif name == 'wc':
            src = read([a for a in args if not a.startswith('-')][0]) if any(not a.startswith('-') for a in args) else cur
            vals = {'l': src.count('\n'), 'w': len(src.split()), 'c': len(src)}
            fl = ''.join(a[1:] for a in args if a.startswith('-')) or 'lwc'
            cur = ' '.join(str(vals[f]) for f in 'lwc' if f in fl) + '\n'
        else:
            raise Unmodelled(name)
    return cur
