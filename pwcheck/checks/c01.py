"""C01: effect analysis, argument mutation."""
from ..sweep import Sweep

# documented in-place arguments: (qualified function, parameter) -> reason
ALLOWED = {
    ('pwtools.num.sliceput', 'a'): 'documented: assigns to a slice of `a`, like numpy.put',
    ('pwtools.mpl.new_axis', 'hostax'): 'matplotlib parasite axes must be registered with their host',
}
# decorators and class factories work on the function/class object itself
ALLOWED_PREFIX = (
    ('pwtools.decorators.', 'func'),
    ('pwtools.crys.crys_add_doc', 'func'),
    ('pwtools.mttk.add_doc', 'func'),
)


def run(c):
    c.load()
    c.explanation = (
        'Whole-program effect analysis by abstract interpretation: every public function, constructor and method is '
        'run abstractly with opaque arguments labelled param:<function>:<name>, for every combination of its flag '
        'options (copy=True). Labels follow aliases, views (slices, reshape, asarray, .T, attribute and element '
        'access), attributes of objects and calls. A store, augmented assignment, in-place method or out= argument '
        'whose target still carries a parameter label is a violation.')
    c.assumptions = ['numpy/scipy functions outside the modelled in-place list do not modify their arguments',
                     'objects reached through caller-supplied callables are not followed']
    muts = []

    def lis(sw, it, kind, node, kw):
        if kind != 'mutate' or sw.cur is None:
            return
        o = kw['obj']
        c.site('in-place operations examined')
        if not o.root or not o.root.startswith('param:'):
            return
        owner, _, par = o.root[len('param:'):].rpartition(':')
        if (owner, par) in ALLOWED:
            c.site('documented in-place argument', '%s(%s)' % (owner, par))
            return
        if any(owner.startswith(a) and par.startswith(b) for a, b in ALLOWED_PREFIX):
            return
        path = o.info.get('path', '')
        fr = it.where(node)
        c.violate('argument-mutated', '%s|%s%s|%s' % (owner, par, path if len(path) < 40 else '', kw['how']), fr,
                  '%s of the object passed as argument `%s%s` of %s (entry point %s, call path %s)'
                  % (kw['how'], par, path, owner, sw.cur, ' > '.join(it.chain())))

    sw = Sweep(c, lis, histories=c.thorough).run()
    for e in list(sw.prog.modules)[:3]:
        c.site('modules', e)
    c.need('public entry points', sw.n_entries, 150)
    c.need('in-place operations', c.counts['in-place operations examined'], 150)
