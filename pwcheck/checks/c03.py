"""C03: absent quantities in the parsers and containers."""
import re

from ..absint import V, VT, const, NONE, Interp
from ..sweep import Sweep

KINDS = {'none', 'empty_text', 'bad_conv', 'index_range', 'key_unchecked', 'key_maybe', 'key_missing'}


def run(c):
    prog = c.load()
    c.explanation = (
        'Nullness analysis by abstract interpretation. Every parser and container class is constructed with any '
        'subset of its optional arguments and each of its getters, get_cont/get_struct/get_traj, parse and set_all are '
        'run abstractly. The output of every shell pipeline (common.backtick) is either empty or some text, a file '
        'exists or not, a regular expression search matches or not, a CIF block has a data name or not; attributes '
        'hold None until a getter fills them. The result of a test (is None, == "", in, check_set_attr, ...) refines '
        'the state in the branch it guards. Reported: attribute access, indexing, arithmetic, ordering, %-formatting '
        'with a numeric conversion, number conversion or iteration on a value that may be None; conversion or '
        'indexing of text that may be empty; an unguarded lookup in the CIF block; reaching FlexibleGetters.assert_attr '
        'with an attribute that may be unset.')
    c.assumptions = [
        'a count produced by grep -c and the header line of an existing file are not malformed',
        'text that is not empty has the format the program writes (truncated blocks are out of scope)']
    roots = {'StructureFileParser', 'DcdOutputFile', 'Structure', 'Trajectory'}

    def wanted(e):
        if e.cls is None or not any(k.name in roots for k in e.cls.mro()):
            return False
        n = e.f.name
        if e.cls.module.name.rsplit('.', 1)[-1] not in ('parse', 'crys'):
            return False
        return n.startswith(('get_', '_get_')) and n not in ('get_return_attr',) or n in ('parse', 'set_all')

    hits = {}

    def listen(sw, it, kind, node, kw):
        if kind in KINDS and sw.cur is not None:
            if kind == 'bad_conv' and kw['val'] != '':
                return
            if kind.startswith('key_m') and not it.where(node).split(':')[0].endswith('parse.py'):
                return
            if kind == 'key_maybe' and not any(a[0] == 't' and 'nonempty' in a[2] for a in kw['obj'].elem):
                return          # not a table of text columns
            if kind == 'index_range' and kw['n'] != 0:
                return
            hits.setdefault((kind, it.where(node)), (kw, sw.cur, it.chain()[-1]))
        elif kind == 'call' and sw.cur is not None:
            c_n[0] += 1
        if kind == 'raise' and sw.cur is not None and sw.cur.startswith('pwtools.parse.') \
                and getattr(it.stack[-1].func, 'name', '') == 'assert_attr':
            who = [x for x in it.chain() if not x.startswith('pwtools.base.')][-1]
            if not who.startswith('pwtools.parse.'):
                return          # a trajectory without any time step cannot be built
            hits.setdefault(('assert', who), ({'how': 'required by an assertion in ' + who}, sw.cur, who))
    c_n = [0]
    pipes = set()
    sw = Sweep(c, listen, only=wanted, private=True)
    sw.it.trust_match = True

    def backtick(it, f, node, args, kw, st):
        if it.where(node) not in pipes:
            pipes.add(it.where(node))
            c.site('output of a pipeline: empty or text', it.where(node))
        text = VT('str', frozenset({'nonempty'}))
        cmd = args[0] if args else frozenset()
        heads = [t[4:] for a in cmd if a[0] == 't' for t in a[2] if t.startswith('pre:')]
        heads += [a[2] for a in cmd if a[0] == 'c' and isinstance(a[2], str)]
        if heads and all(re.match(r'\s*[ef]?grep\s+(-\w+\s+)*-c\s', h) and '|' not in re.sub(r"'[^']*'", '', h) for h in heads):
            return [(text, st)]
        return [(V(const('')) | text, st)]
    sw.it.hooks_fn['pwtools.common.backtick'] = backtick

    sw.it.hooks_ext['CifFile.ReadCif'] = lambda it, name, node, args, kw, st: VT('any', frozenset({'mapping'}))
    sw.run()
    WHAT = {'none': '%(how)s on a value that may be None (the quantity is missing in the file)',
            'assert': '%(how)s: an absent quantity raises instead of giving None',
            'empty_text': '%(how)s a text that is empty if the quantity is missing',
            'bad_conv': 'conversion to %(typ)s of a text that is empty if the quantity is missing',
            'key_maybe': 'lookup of %(key)r in a table read from the file without testing that it is there',
            'key_missing': 'lookup of %(key)r which is never there',
            'index_range': 'indexing an empty sequence (the quantity is missing)',
            'key_unchecked': 'lookup of %(key)r in the CIF block without testing that it is there'}
    for (kind, where), (kw, label, fn) in sorted(hits.items()):
        msg = WHAT[kind] % kw
        c.violate('missing data', '%s|%s' % (fn, kw.get('how') or kw.get('key') or kind), where, '%s: %s [reached from %s]' % (fn, msg, label))
    c.notes['calls_followed'] = c_n[0]
    c.need('pipelines whose output may be empty', len(pipes), 20)
    c.need('calls followed', c_n[0], 1000)
