"""C15: nothing is deleted unless it was asked for, and not before the backup."""
import ast
import re

from ..model import FunctionInfo
from ..terms import Terms, V, show

DELETE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree'}
MOVE = {'os.rename', 'os.replace', 'shutil.move', 'os.renames'}
COPY = {'shutil.copy', 'shutil.copy2', 'shutil.copytree', 'shutil.copyfile'}
SHELL = {'os.system', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen',
         'subprocess.getoutput', 'os.popen'}
TEMP = {'tempfile.mkdtemp', 'tempfile.mkstemp', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryDirectory', 'tempfile.mktemp',
        'tempfile.gettempdir'}
CMD = re.compile(r'(^|[;&|(`\s])(sudo\s+)?(rm|rmdir|mv|unlink|shred|truncate|find\s[^|;]*-delete)\s')
# options whose truth means: delete / do not delete
ASK = {'overwrite': True, 'force': True, 'purge': True, 'clean': True, 'cleanup': True, 'delete': True, 'remove': True,
       'keepfiles': False, 'keep': False, 'keep_files': False}
EXISTS = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists', 'os.access'}


def contains(v, pred):
    if isinstance(v, frozenset):
        return any(contains(x, pred) for x in v)
    if isinstance(v, tuple):
        return bool(v) and pred(v) or any(contains(x, pred) for x in v)
    return False


def param_of(v):
    return [t[1] for t in v if t[0] == 'param']


class Visitor:
    def __init__(self, c, backup):
        self.c = c
        self.backup = backup
        self.seen = set()

    def opaque(self, fi):
        return fi is self.backup or fi.name in ('mkstempfile',)

    def call(self, ctx, n, fv, recv, args, kws, star, st):
        c = self.c
        for t in fv:
            name = t[1] if t[0] == 'global' else None
            if name in DELETE and args:
                self.destructive(ctx, n, args[0], name, st)
            elif name in MOVE and args:
                self.destructive(ctx, n, args[0], name, st)
            elif name in COPY and len(args) > 1:
                self.copying(ctx, n, args, st)
            elif name in SHELL and args:
                self.shell(ctx, n, args[0], st)
            elif t[0] == 'attr' and t[2] in ('unlink', 'rmdir') and not args:
                self.destructive(ctx, n, t[1], '.' + t[2], st)
            elif t[0] == 'attr' and t[2] in ('execute', 'executescript') and args:
                for s in args[0]:
                    txt = s[1] if s[0] == 'const' and isinstance(s[1], str) else \
                        ''.join(p if isinstance(p, str) else '%s' for p in s[1]) if s[0] == 'str' else ''
                    if re.match(r'\s*(drop|delete|truncate|replace)\b', txt, re.I):
                        self.destructive(ctx, n, V(('const', txt.strip())), 'SQL ' + txt.split()[0], st)
            elif t[0] == 'fn' and t[1] is not None and args and t[1].name in WRITERS and t[1].cls is None and \
                    t[1].module.name.split('.')[-1] in ('common', 'io'):
                self.overwriting(ctx, n, args[0], t[1].name, st)

    def where(self, ctx, n):
        return '%s:%d' % (ctx.fi.module.relpath, n.lineno)

    # -- deletion ------------------------------------------------------------
    def shell(self, ctx, n, v, st):
        for t in v:
            parts = t[1] if t[0] == 'str' else (t[1],) if t[0] == 'const' and isinstance(t[1], str) else ()
            text = ''.join(p if isinstance(p, str) else '\x00' for p in parts)
            if not CMD.search(text):
                continue
            holes = [p for p in parts if not isinstance(p, str)]
            for h in holes:
                if not all(x[0] == 'call' and x[1] in ('shlex.quote', 'pipes.quote') for x in h):
                    self.c.violate('quote', '%s|%s' % (ctx.fi.fq, text.replace('\x00', '%s')[:50]), self.where(ctx, n),
                                   '%s deletes with the shell command "%s" and an unquoted name: another file is hit when the name '
                                   'contains blanks or wildcards' % (self.author(ctx), text.replace('\x00', '%s').strip()))
            q = []
            for h in holes:
                for x in h:
                    q.append(x[2][0] if x[0] == 'call' and x[2] else V(x))
            self.destructive(ctx, n, q[0] if q else V(t), text.split()[0], st)

    def author(self, ctx):
        f = ctx
        while f.up is not None and f.fi.name in ('system', 'backtick', '_call'):
            f = f.up
        return f.fi.qual

    def destructive(self, ctx, n, target, how, st):
        c = self.c
        root = ctx.root
        fr, node = ctx, n
        while fr.up is not None and fr.fi.name in ('system', 'backtick', '_call'):
            node, fr = fr.node, fr.up
        where = self.where(fr, node)
        key = '%s|%s|%s' % (root.fq, how.split('.')[-1], show(target, 4)[:60])
        c.site('deletions', '%s: %s %s' % (root.qual, how, show(target, 3)[:60]))
        temp = all(contains(V(t), lambda x: x[0] == 'call' and (x[1] in TEMP or x[1].endswith('.mkstempfile'))) for t in target)
        asked = self.asked(root, st)
        if not temp:
            if not asked:
                private = root.name.startswith('_') and not root.name.endswith('__') or root.parent is not None
                if not private:
                    c.violate('asked', key, where, '%s deletes %s (%s) without an option that asks for it'
                              % (root.qual, show(target, 3)[:80], how))
            else:
                d = self.default_of(root, asked[0])
                if d is not None and self.satisfies(d, asked) and asked[0] not in ASK:
                    c.violate('default', key, where, '%s deletes %s by default (%s=%r)' % (root.qual, show(target, 3)[:80], asked[0], d))
        # the backup
        params = root.posargs + root.kwonly
        if 'backup' in params and not temp:
            c.site('backups before deletion')
            if not self.backed_up(target, st):
                c.violate('backup', key, where, '%s deletes %s and has not made the backup first (backup=True)'
                          % (root.qual, show(target, 3)[:80]))

    def asked(self, root, st):
        """(param, ...) of the test that permits the deletion"""
        known = set()
        for t, truth in st.guards:
            if t[0] == 'cmp' and t[1] == 'In' and truth and param_of(t[2]):
                for s in t[3]:
                    if s[0] == 'seq':
                        known.add((param_of(t[2])[0], tuple(sorted(x[1] for e in s[1] for x in e if x[0] == 'const' and isinstance(x[1], str)))))
        for t, truth in st.guards:
            if t[0] == 'cmp' and t[1] == 'Eq':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    p = param_of(a)
                    k = [x[1] for x in b if x[0] == 'const']
                    if len(a) == 1 and p and k and p[0] in ('mode',):
                        if truth and k[0] in ('w', 'w+', 'wb'):
                            return (p[0], k[0], True)
                        if not truth and k[0] in ('a', 'r'):
                            for q, vals in known:
                                if q == p[0] and set(vals) <= {'a', 'w'}:
                                    return (p[0], k[0], False)
            if t[0] == 'cmp' and t[1] == 'In' and truth and param_of(t[2]) == ['mode'] and len(t[2]) == 1:
                for s in t[3]:
                    if s[0] == 'seq' and s[1] and all(x[0] == 'const' and x[1] in ('w', 'w+', 'wb') for e in s[1] for x in e):
                        return ('mode', 'w', True)
            if t[0] == 'truth':
                p = param_of(t[1])
                forced = any(x[0] == 'const' and bool(x[1]) == truth for x in t[1])
                if len(t[1]) >= 1 and p and p[0] in ASK and ASK[p[0]] == truth and not forced:
                    return (p[0], None, truth)
        return None

    def default_of(self, fi, p):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for q, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if q.arg == p and isinstance(d, ast.Constant):
                return d.value
        return None

    def satisfies(self, d, asked):
        p, k, truth = asked
        return (d == k) == truth if k is not None else bool(d) == truth

    def backed_up(self, target, st):
        for t in target:
            cands = [V(t)]
            while True:          # a backup of the directory above
                x = next(iter(cands[-1]))
                if x[0] == 'path' and len(x[1]) > 1 and len(cands[-1]) == 1:
                    cands.append(x[1][0] if len(x[1]) == 2 else V(('path', x[1][:-1])))
                    if len(cands[-1]) != 1:
                        break
                else:
                    break
            if not any(self.fact(d, cands) for d in st.done):
                return False
        return True

    def fact(self, d, cands):
        if d[0] == 'if':
            _, cond, truth, inner = d
            if cond[0] == 'not':
                cond, truth = cond[1], not truth
            if cond[0] == 'truth' and truth:
                ok = all(x in (('param', 'backup'), ('self', 'backup')) or x[0] == 'call' and x[1] in EXISTS for x in cond[1])
                return ok and self.fact(inner, cands)
            return False
        if d[0] == 'called':
            name, args = d[1], d[2]
            isb = isinstance(name, frozenset) and any(t[0] == 'fn' and t[1] is self.backup for t in name)
            return isb and bool(args) and args[0] in cands
        return False

    # -- overwriting ---------------------------------------------------------
    def overwriting(self, ctx, n, target, how, st):
        """an object with a `backup` option writes its files after their backup"""
        root = ctx.root
        if root.cls is None or root.name.startswith('_') or len(ctx.chain()) > 1 and ctx.fi.cls is None or \
                root not in self.with_backup:
            return
        c = self.c
        c.site('files written by objects with a backup option', '%s: %s %s' % (root.qual, how, show(target, 3)[:50]))
        if not self.backed_up(target, st):
            c.violate('backup', '%s|%s|%s' % (root.fq, how, show(target, 4)[:60]), self.where(ctx, n),
                      '%s writes %s and has not made the backup of it first (backup=True)' % (root.qual, show(target, 3)[:80]))

    # -- the copies ------------------------------------------------------------
    def copying(self, ctx, n, args, st):
        c = self.c
        if self.backup not in ctx.chain():
            return
        c.site('backup copies')
        dst = args[1]
        free = any(t[0] == 'truth' and truth is False and
                   any(x[0] == 'call' and x[1] in EXISTS and x[2] and x[2][0] == dst for x in t[1]) for t, truth in st.guards)
        if not free:
            c.violate('clobber', ctx.fi.fq, self.where(ctx, n),
                      '%s copies to %s without having tested that nothing of that name exists' % (ctx.fi.qual, show(dst, 3)[:60]))
        if args[0] != V(('param', 'src')) and not contains(args[0], lambda x: x == ('param', ctx.root.posargs[0])):
            c.violate('clobber', ctx.fi.fq + '|src', self.where(ctx, n), '%s does not copy the source' % ctx.fi.qual)


WORD = re.compile(r'\b(remove|unlink|rmdir|removedirs|rmtree|rename|renames|replace|move|copy|copy2|copytree|copyfile|rm|mv|'
                  r'DROP|drop|DELETE|delete|shred|truncate)\b')


WRITERS = {'file_write', 'file_handle_write', 'write_lammps', 'write_axsf', 'write_cif', 'write_xyz', 'writetxt'}


def has_backup(ci):
    """methods of the class read an option self.backup"""
    for f in ci.methods.values():
        if isinstance(f, FunctionInfo) and f.posargs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == 'backup' and isinstance(n.value, ast.Name) and n.value.id == f.posargs[0]:
                    return True
    return False


def relevant(prog):
    """functions that contain something that may delete, and their callers"""
    fns = [f for f in prog.all_functions() if f.parent is None and not isinstance(f.node, ast.Lambda)]
    names = {}
    rel = set()
    for f in fns:
        used = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                used.add(n.attr)
            elif isinstance(n, ast.Name):
                used.add(n.id)
        names[f] = used
        body = f.node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        hit = False
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                    if nm in ('remove', 'replace', 'copy') and isinstance(n.func, ast.Attribute) and \
                            not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('os', 'shutil')):
                        continue
                    hit = hit or bool(WORD.fullmatch(nm))
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('os', 'shutil') and WORD.fullmatch(n.attr):
                    hit = True
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and CMD.search(' ' + n.value) or \
                        isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'\s*(drop|delete)\b', n.value, re.I):
                    hit = True
        if hit:
            rel.add(f)
    while True:
        ns = set(f.name if f.name != '__init__' else f.cls.name for f in rel) - {'copy', '__call__', 'write', 'get', 'run'}
        more = [f for f in fns if f not in rel and names[f] & ns]
        if not more:
            break
        rel |= set(more)
    return [f for f in fns if f in rel]


def run(c):
    c.explanation = (
        'Symbolic evaluation with path facts: every call that deletes, moves or drops something (os/shutil functions, Path '
        'methods, rm and mv in shell text, DROP and DELETE) is collected with the tests known on its path. It has to be guarded '
        'by an option of the public function that asks for it (mode == "w", not keepfiles) or concern a temp file made in the '
        'same function; where a `backup` option exists the backup of the same path must come first on every path; backup() '
        'copies only to a name tested to be free; names in deleting shell commands are quoted.')
    prog = c.load(with_scripts=False)
    backup = prog.func('common:backup')
    vis = Visitor(c, backup)
    T = Terms(prog, vis, depth=4)
    todo = set(relevant(prog))
    # methods of classes with a `backup` attribute that make backups
    vis.with_backup = set()
    for f in prog.all_functions():
        if f.cls is not None and f.parent is None and not isinstance(f.node, ast.Lambda) and f.name.startswith('write') and \
                has_backup(f.cls):
            vis.with_backup.add(f)
    c.site('methods of classes with a backup option', len(vis.with_backup))
    for f in sorted(todo | vis.with_backup, key=lambda f: f.fq):
        T.root(f)
        c.site('functions evaluated')
    # the body of backup itself
    vis.opaque = lambda fi: False
    T.root(backup)
    c.need('deletions', c.counts['deletions'], 5)
    c.need('backup copies', c.counts['backup copies'], 1)
