"""C12: every branch is executable: names, attributes, calls and formats fit."""
import ast
import builtins
import json
import os
import re
import shutil
import string
import subprocess
import symtable
import tempfile
import warnings

from ..sweep import Sweep
from .. import extsig
from ..entries import public_entries, arg_values, call_entry, doc_param_types
from ..absint import VT, UNB

CONV = re.compile(r'%(?:\((\w+)\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')


def fmt_arity(fmt):
    """number of values a %-format takes; None if it takes a mapping"""
    n = 0
    for m in CONV.finditer(fmt):
        if m.group(1):
            return None
        n += (m.group(2) == '*') + (m.group(3) == '*') + (m.group(4) != '%')
    return n


EXT_MSG = re.compile(r'No parameter named|is unknown import symbol|is not a known attribute of module "(numpy|scipy)')
VENV = '/opt/venv/bin/python'


def external_calls(c, prog):
    """type checker pass: keyword names and imported symbols of other libraries"""
    exe = shutil.which('pyright')
    if exe is None or not os.path.exists(VENV):
        c.notes['pyright'] = 'not available, external signatures not checked'
        return
    files = [m.path for m in prog.modules.values()
             if os.path.exists(m.path) and '/examples/' not in m.path and '/test/' not in m.path]
    tmp = tempfile.mkdtemp(prefix='pwcheck-')
    try:
        pr = subprocess.run([exe, '--pythonpath', VENV, '--outputjson'] + files, cwd=tmp, timeout=400,
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        data = json.loads(pr.stdout.decode())
    except (OSError, ValueError, subprocess.TimeoutExpired) as e:
        c.notes['pyright'] = 'failed: %s' % type(e).__name__
        return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.notes['pyright'] = '%s, %d files' % (data.get('version'), data.get('summary', {}).get('filesAnalyzed', 0))
    c.site('files with external signatures resolved', n=len(files))
    for d in data.get('generalDiagnostics', []):
        if d.get('rule') in ('reportCallIssue', 'reportAttributeAccessIssue') and EXT_MSG.search(d['message']):
            if re.match(r'"_(flib|dcd)"', d['message']):
                continue
            rel = os.path.relpath(d['file'], prog.repo)
            msg = d['message'].split('\n')[0]
            c.violate('external call', '%s|%s' % (rel, msg), '%s:%d' % (rel, d['range']['start']['line'] + 1), msg)


def lexical_names(c, prog):
    """names that no scope around their use binds, in code the interpreter need not reach"""
    builtin = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__class__', '__all__'}

    def visit(m, tab, outer, path):
        for ch in tab.get_children():
            visit(m, ch, outer, path + [ch.get_name()])
        if tab.get_type() == 'module':
            return
        for sy in tab.get_symbols():
            if sy.is_referenced() and sy.is_global():
                c.site('global names resolved lexically')
                n = sy.get_name()
                if n not in outer and n not in builtin:
                    c.violate('name', '%s.%s|%s' % (m.name, '.'.join(path), n), '%s (%s)' % (m.relpath, '.'.join(path)),
                              'the name %r is bound in no scope' % n)

    for m in list(prog.modules.values()) + list(prog.scripts.values()):
        if '/examples/' in '/' + m.relpath:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tab = symtable.symtable(m.source if isinstance(m.source, str) else m.source.decode(), m.relpath, 'exec')
        star = False
        outer = {sy.get_name() for sy in tab.get_symbols() if sy.is_assigned() or sy.is_imported() or sy.is_namespace()}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                star = True
            elif isinstance(n, ast.Global):
                outer |= set(n.names)
            elif isinstance(n, ast.Name) and n.id in ('globals', 'exec'):
                star = True
        if star:
            continue
        visit(m, tab, outer, [])


def run(c):
    prog = c.load(with_scripts=True)
    c.explanation = (
        'Name, attribute, call and format resolution by abstract interpretation: every function and method of the '
        'package (private ones included) is run abstractly for every value of its option parameters (string options: '
        'each value the code compares with and one other value; boolean options: both; parameters with default None: '
        'absent and given), with all branches that stay open. Reported: a name that is bound in no enclosing scope, a local '
        'that is unbound on every way to the use, an attribute of a package module, class or instance that nothing '
        'defines, a getter that try_set_attr would look for in vain, a call that does not fit the signature of the '
        'package function it reaches, %- and str.format formats with the wrong number of values, constant '
        'indices or keys outside of a literal table, tuple unpacking with the wrong length. The command line scripts '
        'in bin/ are run abstractly as modules. Functions that document a str argument have a way through with a str. '
        'Keyword arguments and imported names of other libraries are resolved against the installed versions by the '
        'type checker (pyright).')
    c.assumptions = ['attributes of objects of other libraries are not checked',
                     'calls with *args/**kwargs of unknown length fit']
    # attribute names anything outside of a class could define (strings for setattr, obj.x = ...)
    anywhere = set()
    own = {}
    for m in prog.modules.values():
        inclass = {}
        for cd in ast.walk(m.tree):
            if isinstance(cd, ast.ClassDef):
                d = own.setdefault((m.name, cd.name), set())
                for b in ast.walk(cd):
                    inclass[b] = cd.name
                    if isinstance(b, ast.Attribute) and isinstance(b.ctx, (ast.Store, ast.Del)):
                        d.add(b.attr)
                for b in cd.body:
                    if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                        d.add(b.name)
                    for t in ast.walk(b) if isinstance(b, (ast.Assign, ast.AnnAssign, ast.For, ast.If, ast.With)) else ():
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            d.add(t.id)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not (n in inclass and isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    anywhere.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r'\w+', n.value):
                anywhere.add(n.value)
    all_classes = list(prog.all_classes())

    def definable(cls, a):
        if a in anywhere:
            return True
        fam = set(cls.mro())
        for k in all_classes:
            if cls in k.mro():
                fam |= set(k.mro())
        return any(a in own.get((k.module.name, k.name), ()) for k in fam)

    hits = {}
    seen = {}

    def note(rule, node, it):
        k = (rule, it.where(node))
        if k not in seen:
            seen[k] = True
            c.site(rule, it.where(node))

    def hit(rule, it, node, key, msg):
        fr = [f.func for f in it.stack if hasattr(f.func, 'fq')]
        fn = fr[-1].fq if fr else getattr(it.stack[-1].func, 'name', '?') if it.stack else '?'
        hits.setdefault((rule, fn, key), (it.where(node), '%s: %s' % (fn, msg), c_cur[0]))

    c_cur = ['']
    sigs = {}

    def listen(sw, it, kind, node, kw):
        c_cur[0] = sw.cur or 'import'
        if kind == 'call':
            note('calls fit the signature', node, it)
        elif kind in ('undefined', 'unbound'):
            hit('name', it, node, kw['name'], 'the name %r is not bound here' % kw['name'])
        elif kind == 'missing_mod_attr':
            hit('attribute', it, node, kw.get('attr', '?'), 'module has no attribute %r' % kw.get('attr'))
        elif kind == 'missing_attr':
            cls, a = kw['cls'], kw['attr']
            if a.startswith(('get_', '_get_')) and a not in ('get_', '_get_') and not mixin(cls):
                hit('getter', it, node, '%s.%s' % (cls.name, a), 'no getter %s in %s' % (a, cls.name))
            elif not definable(cls, a) and not a.startswith('__') and not foreign(cls):
                hit('attribute', it, node, '%s.%s' % (cls.name, a), 'nothing defines attribute %r of %s' % (a, cls.name))
        elif kind == 'arity':
            plain = isinstance(node, ast.Call) and not any(isinstance(x, ast.Starred) for x in node.args) \
                and all(k.arg for k in node.keywords)
            if plain or 'unexpected keyword' in kw['why'] and not kw.get('maybe'):
                hit('call', it, node, kw['f'].fq, 'call of %s: %s' % (kw['f'].fq, kw['why']))
        elif kind == 'ext_call':
            sig = sigs.get(kw['name'], 0)
            if sig == 0:
                sig = sigs[kw['name']] = extsig.signature(kw['name'])
            if sig is not None:
                note('calls of other libraries fit the installed signature', node, it)
                pos, req, kwo, kwreq, va, vk = sig
                star = '*' in kw['kw'] or '**' in kw['kw']
                given = [k for k in kw['kw'] if k not in ('*', '**') and UNB not in kw['kw'][k]]
                why = None
                if len(kw['args']) > len(pos) and not va:
                    why = 'takes %d positional arguments, got %d' % (len(pos), len(kw['args']))
                for k in given:
                    if k not in pos and k not in kwo and not vk:
                        why = 'has no argument %r' % k
                if not star:
                    for p in pos[len(kw['args']):req] + kwreq:
                        if p not in kw['kw']:
                            why = 'needs argument %r' % p
                if why and isinstance(node, ast.Call) and ('has no arg' in why or not any(isinstance(x, ast.Starred) for x in node.args)):
                    hit('external call', it, node, '%s|%s' % (kw['name'], why), '%s %s' % (kw['name'], why))
        elif kind == 'strmod':
            note('formats fit', node, it)
            for f in kw['fmt']:
                n = fmt_arity(f)
                if n is not None and kw['items'] is not None and n != len(kw['items']):
                    hit('format', it, node, f[:40], 'format %r takes %d value(s), got %d' % (f[:60], n, len(kw['items'])))
        elif kind == 'strformat':
            note('formats fit', node, it)
            if node is not None and isinstance(node, ast.Call) and not any(isinstance(x, ast.Starred) for x in node.args) \
                    and all(k.arg for k in node.keywords):
                try:
                    auto = 0
                    for _, name, spec, _ in string.Formatter().parse(kw['fmt']):
                        if name is None:
                            continue
                        base = re.split(r'[.\[]', name)[0]
                        if base == '':
                            base, auto = str(auto), auto + 1
                        if base.isdigit() and int(base) >= len(kw['args']) or not base.isdigit() and base not in kw['kw']:
                            hit('format', it, node, kw['fmt'][:40], 'str.format: no value for {%s}' % name)
                except ValueError:
                    hit('format', it, node, kw['fmt'][:40], 'malformed format string')
        elif kind == 'index_range':
            hit('index', it, node, str(kw['i']), 'index %r into a sequence of length %d' % (kw['i'], kw['n']))
        elif kind == 'key_missing':
            hit('key', it, node, repr(kw['key']), 'key %r is in no case in the table' % (kw['key'],))
        elif kind == 'unpack_mismatch':
            hit('unpack', it, node, str(kw.get('n', '')), 'cannot unpack: wrong number of values')
        elif kind == 'bad_eval':
            hit('eval', it, node, str(kw)[:60], 'eval/exec of malformed code')

    def mixin(cls):
        return 'base.FlexibleGetters' not in ' '.join(k.fq for k in cls.mro())

    def foreign(cls):
        """has a base class outside of the package, or its subclasses complete it"""
        return cls.has_ext_base()

    sw = Sweep(c, listen, private=True, deep=True)
    sw.run()
    for name in sorted(prog.scripts):
        m = prog.scripts[name]
        if m.relpath.startswith('bin/'):
            sw.cur = m.relpath
            try:
                sw.it.steps = 0
                sw.it.allocn = {}
                sw.it.load_module(m)
                c.site('command line scripts run abstractly', m.relpath)
            except RecursionError:
                sw.errors.append(m.relpath)
    sw.it.listener = None
    for e in public_entries(prog):
        if e.cls is not None or e.f.vararg or e.f.kwarg:
            continue
        for p, text in doc_param_types(e.f).items():
            if p in e.f.posargs and re.search(r'\b(str|string)\b', text):
                st = sw.fresh(e.f.module)
                c.site('documented str arguments', '%s(%s)' % (e.label, p))
                try:
                    outs = call_entry(sw.it, st, e.f, arg_values(sw.it, st, e.f, False, {p: VT('str')}, e.label))
                except RecursionError:
                    continue
                if not outs:
                    c.violate('documented str', '%s|%s' % (e.label, p), e.f.loc(e.f.node),
                              '%s: every way through the function raises when %s is a string, which the docs allow' % (e.label, p))
    for (rule, fn, key), (where, msg, label) in sorted(hits.items()):
        c.violate(rule, '%s|%s' % (fn, key), where, '%s [reached from %s]' % (msg, label))
    lexical_names(c, prog)
    external_calls(c, prog)
    c.need('calls of package functions', c.counts['calls fit the signature'], 400)
    c.need('formats', c.counts['formats fit'], 100)
    c.need('entry points', sw.n_entries, 500)
