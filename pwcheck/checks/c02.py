"""C02: effect analysis, state that outlives a call."""
import ast

from ..absint import xval
from ..model import dotted
from ..sweep import Sweep

SHARED = ('class:', 'global:', 'default:')
SETTINGS = {
    'os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.setuid', 'os.setgid', 'os.nice',
    'random.seed', 'random.setstate', 'numpy.random.seed', 'numpy.random.set_state', 'numpy.seterr',
    'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.setbufsize', 'locale.setlocale',
    'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', 'sys.setrecursionlimit',
    'signal.signal', 'signal.alarm', 'socket.setdefaulttimeout', 'tempfile.mkdtemp_', 'decimal.setcontext',
    'matplotlib.use', 'matplotlib.rc',
}
# the function's whole purpose is to change that setting
ALLOWED_SETTING_MODULES = {'pwtools.mpl': ('matplotlib.',)}


def run(c):
    c.load()
    c.explanation = (
        'Whole-program effect analysis by abstract interpretation of every public function, constructor and method. '
        'Objects bound at class level, module level, or as default argument values carry a label that follows aliases; '
        'any store into such an object, any assignment to a class or module attribute, and any call that changes a '
        'process-wide setting (RNG seed, cwd, environment, numpy error state ...) reachable from an entry point is a '
        'violation. Storing such an object as an attribute of an instance is a violation as well, since instances '
        'then share it. Assignments made while a module is being imported are its definition and are not counted.')
    c.assumptions = ['user code does not modify the tables itself', 'external libraries keep their own state private']

    shareable = set()
    preexec = set()
    for f in c.prog.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.keyword) and n.arg == 'preexec_fn':
                preexec.add((dotted(n.value) or '').split('.')[-1])
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == 'preexec_fn':
                        preexec.add((dotted(v) or '').split('.')[-1])
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and \
                    isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value == 'preexec_fn':
                preexec.add((dotted(n.value) or '').split('.')[-1])

    def report(sw, it, rule, key, node, msg):
        c.violate(rule, key, it.where(node), msg + ' (entry point %s, call path %s)' % (sw.cur, ' > '.join(it.chain())))

    def lis(sw, it, kind, node, kw):
        if sw.cur is None:
            return
        if kind == 'return':
            if any(a[0] == 'r' or a[0] == 't' and a[1] in ('any', 'array') for a in kw['v']):
                shareable.add(it.stack[-1].func)
            return
        if kind == 'mutate':
            o = kw['obj']
            c.site('in-place operations examined')
            if o.root and o.root.startswith(SHARED):
                report(sw, it, 'shared-object-mutated', '%s%s|%s' % (o.root, o.info.get('path', '')[:40], kw['how']), node,
                       '%s of %s%s, which is shared by all objects and calls' % (kw['how'], o.root, o.info.get('path', '')))
        elif kind == 'setattr':
            c.site('attribute stores examined')
            o = kw['obj']
            if o.kind == 'inst':
                for a in kw['v']:
                    if a[0] == 'r':
                        x = kw['st'].heap.get(a[1])
                        if x is not None and x.root and x.root.startswith(SHARED[:2]) and x.kind in ('list', 'dict', 'set', 'array'):
                            report(sw, it, 'shared-object-stored', '%s%s|%s.%s' % (
                                x.root, x.info.get('path', '')[:40], o.cls.name if o.cls else '?', kw['attr']), node,
                                'attribute .%s of an instance is the %s %s%s itself, not a copy'
                                % (kw['attr'], x.kind, x.root, x.info.get('path', '')))
        elif kind == 'class_write':
            cn = getattr(kw['cls'], 'fq', getattr(kw['cls'], 'name', str(kw['cls'])))
            if kw['attr'] in ('__name__', '__doc__', '__qualname__', '__module__'):
                return
            report(sw, it, 'class-attribute-written', '%s.%s' % (cn, kw['attr']), node,
                   'class attribute %s.%s is assigned' % (cn, kw['attr']))
        elif kind in ('module_write', 'global_write'):
            nm = kw.get('attr') or kw.get('name')
            report(sw, it, 'module-variable-written', '%s.%s' % (it.chain()[-1], nm), node,
                   'module variable %s is assigned' % nm)
        elif kind == 'ext_write':
            d = xval(kw['dotted']) if not isinstance(kw['dotted'], str) else kw['dotted']
            report(sw, it, 'external-attribute-written', '%s.%s' % (kw['dotted'], kw['attr']), node,
                   'attribute %s of external object %s is assigned' % (kw['attr'], kw['dotted']))
        elif kind == 'func_write':
            if kw['attr'] not in ('__doc__', '__name__', '__dict__', '__module__', '__wrapped__'):
                report(sw, it, 'function-attribute-written', '%s.%s' % (kw['func'], kw['attr']), node,
                       'attribute %s of function %s is assigned' % (kw['attr'], kw['func']))
        elif kind == 'ext_call':
            name = kw['name']
            c.site('external calls examined')
            if name in SETTINGS:
                if any(getattr(fr.func, 'name', '') in preexec for fr in it.stack):
                    return      # runs in the forked child only
                m = it.stack[-1].func
                mn = getattr(getattr(m, 'module', m), 'name', '')
                if any(name.startswith(p) for p in ALLOWED_SETTING_MODULES.get(mn, ())):
                    return
                report(sw, it, 'process-setting-changed', '%s|%s' % (it.chain()[-1], name), node, '%s() is called' % name)
        elif kind == 'setitem':
            for a in kw['base']:
                if a[0] == 'x' and a[1] in ('os.environ', 'sys.modules', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams'):
                    m = it.stack[-1].func
                    mn = getattr(getattr(m, 'module', m), 'name', '')
                    if any(a[1].startswith(p) for p in ALLOWED_SETTING_MODULES.get(mn, ())):
                        return
                    report(sw, it, 'process-setting-changed', '%s|%s' % (it.chain()[-1], a[1]), node, '%s is modified' % a[1])

    sw = Sweep(c, lis, histories=c.thorough).run()
    # memoised functions hand the same object to every caller
    for f in sw.prog.all_functions():
        for d in getattr(f.node, 'decorator_list', []):
            t = d.func if isinstance(d, ast.Call) else d
            n = (dotted(t) or '').split('.')[-1]
            c.site('decorators examined')
            if n in ('lru_cache', 'cache', 'memoize', 'cached_property'):
                if n == 'cached_property' or f not in shareable:
                    continue
                c.violate('memoised-function', f.fq, f.loc(f.node), 'results of %s are cached across calls' % f.fq)
    c.need('public entry points', sw.n_entries, 150)
    c.need('in-place operations', c.counts['in-place operations examined'], 150)
