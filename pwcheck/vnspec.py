"""Runs objint on a function with symbolic elements and compares the value graph of every
element of the result with a reference (valnum)."""
from . import valnum as vn
from .objint import AbsRaise, Arr, Bound, Cls, Fn, Interp, Obj, Top, show, term
from .valnum import S, Sample, Undefined, Unknown, close, elements, flat, leaves, shape_of

RAISES = object()       # the reference of an input which must be refused
ANY = object()          # not compared


def withI(f):
    f.wants_I = True
    return f


def new(I, prog_mod, cls, **kw):
    m = I.prog.mod(prog_mod)
    return I.call(Cls(I.prog.module_attr(m, cls)), [], kw, None)


class Field:
    """reference of an attribute of a returned object"""

    def __init__(self, **kw):
        self.kw = kw


class Exact:
    """reference of a value that is not numeric (names, flags)"""

    def __init__(self, v):
        self.v = v


def conc(v):
    if isinstance(v, (list, tuple)):
        return [conc(x) for x in v]
    if isinstance(v, Arr):
        if v.data is None or not all(x[0] == 'const' for x in v.data):
            return None
        return [x[1] for x in v.data]
    if isinstance(v, Top):
        return v.term[1] if v.term[0] == 'const' else None
    return v


class Runner:
    def __init__(self, c, prog, nsample=4, maxpaths=300, models=None, globs=None):
        self.models = models or {}
        self.globs = globs
        self.c = c
        self.prog = prog
        self.nsample = nsample
        self.maxpaths = maxpaths
        self.undecided = []
        self.decided = 0
        self.functions = set()

    def resolve(self, mod, name):
        m = self.prog.mod(mod)
        if m is None:
            return None
        r = self.prog.module_attr(m, name)
        return r

    def entity(self, I, mod, name):
        """what the name is in module mod, as a value"""
        m = self.prog.mod(mod)
        if m is None:
            return None
        parts = name.split('.')
        r = self.prog.module_attr(m, parts[0])
        if r is None:
            # an alias
            v = I.module_var(m, parts[0])
            if not isinstance(v, (Fn, Cls)):
                return None
        else:
            v = I.entity(r, parts[0])
        for p in parts[1:]:
            v = I.getattr(v, p)
        return v

    def check(self, rule, mod, name, mk, ref, ranges=None, what='', models=None, opaque=(), call=None, loose_shape=False, post=None, tol=1e-7, known=None, splitmask=False, texts=False, at=None, asserts=False):
        """known: (key, wrong reference) of a recorded defect, reported under its own key only when the result is just that wrong value
        mk() -> (args, kws), made afresh for every path; call(I, value, args, kws) if it is not a plain call"""
        key = '%s.%s%s' % (mod, name, ' ' + what if what else '')
        I = Interp(self.prog, set(opaque), dict(self.models, **(models or {})), maxpaths=self.maxpaths, globs=self.globs)
        I.whilemax = 4
        I.splitmask = splitmask
        I.asserts = asserts
        I.bounds = ranges if splitmask else None
        I.texts = {} if texts else None
        found = []

        def go(I):
            f = self.entity(I, mod, name) if name else None
            found.append(f)
            if name and f is None:
                return None
            a, k = (mk(I) if getattr(mk, 'wants_I', False) else mk()) if mk else ((), {})
            r = call(I, f, list(a), dict(k)) if call else I.call(f, list(a), dict(k), None)
            return post(I, r) if post else r

        paths = []
        for oc, v, path in I.explore(go):
            paths.append((oc, v, path))
        if name and found and found[0] is None:
            self.undecided.append('%s: not found' % key)
            return
        self.functions |= {q for q in I.calls}
        if I.truncated:
            self.undecided.append('%s: too many paths' % key)
            return
        where = self.where(mod, name, at)
        nd = 0
        reason = None
        for k in range(self.nsample):
            smp = Sample(k, ranges)
            st, info = self.one(smp, paths, ref, tol)
            if st == 'unknown':
                reason = info
            elif st == 'bad':
                k2 = key
                if known is not None and self.one(smp, paths, known[1], tol)[0] == 'ok':
                    k2 = known[0]
                self.c.violate(rule, k2, where, '%s: %s' % (key, info))
                nd += 1
                break
            elif st == 'ok':
                nd += 1
        if nd:
            self.decided += 1
            self.c.site(rule, key, n=max(1, self.nel(ref)))
        else:
            self.undecided.append('%s: %s' % (key, reason))

    def nel(self, ref):
        if ref is RAISES or ref is ANY:
            return 1
        if isinstance(ref, Field):
            return sum(self.nel(x) for x in ref.kw.values())
        if isinstance(ref, dict):
            return sum(self.nel(x) for x in ref.values())
        if isinstance(ref, Exact):
            return 1
        if isinstance(ref, tuple):
            return sum(self.nel(x) for x in ref)
        return len(flat(ref))

    def where(self, mod, name, at=None):
        m = self.prog.mod(mod)
        if m is None:
            return mod
        if at is not None and name in m.classes:
            f = m.classes[name].find(at)
            if f is not None:
                return '%s:%d' % (f.module.relpath, f.node.lineno)
        if name:
            f = m.functions.get(name)
            if f is None:
                p = name.split('.')
                ci = m.classes.get(p[0])
                f = ci.find(p[1]) if ci is not None and len(p) > 1 else ci
            if f is None:
                f = self.prog.module_attr(m, name.split('.')[0])
                if not hasattr(f, 'node'):
                    f = None
                else:
                    m = f.module
            if f is not None:
                return '%s:%d' % (m.relpath, f.node.lineno)
        return m.relpath

    def one(self, smp, paths, ref, tol):
        why = 'no path'
        for oc, v, path in paths:
            try:
                if not all(bool(smp.ev(t)) == val for t, val in path):
                    continue
            except Unknown as e:
                why = 'test of unknown meaning: %s' % e
                continue
            except Undefined:
                continue
            if oc == 'unsupported':
                return 'unknown', v
            if oc == 'raise':
                if ref is RAISES:
                    return 'ok', None
                if v.name in ('Unsupported',):
                    return 'unknown', v.name
                return 'bad', 'raises %s%s at line %s for valid input' % (
                    v.name, ' (%s)' % v.msg if v.msg else '', getattr(v.node, 'lineno', '?'))
            if ref is RAISES:
                return 'bad', 'input that must be refused is accepted'
            return self.compare(smp, v, ref, tol, '')
        return 'unknown', why

    def compare(self, smp, v, ref, tol, lab):
        if ref is ANY:
            return 'ok', None
        if callable(ref) and not isinstance(ref, S):
            ref = ref(smp)
        if isinstance(ref, Field):
            if not isinstance(v, Obj):
                return 'unknown', 'no object'
            return self.worst((self.compare(smp, v.attrs[k], r, tol, lab + '.' + k) if k in v.attrs else ('unknown', 'attribute %s' % k))
                              for k, r in ref.kw.items())
        if isinstance(ref, dict):
            if not isinstance(v, dict):
                return 'unknown', 'no dict'
            return self.worst((self.compare(smp, v[k], r, tol, '%s[%r]' % (lab, k)) if k in v else ('bad', 'no entry %r in the result%s' % (k, lab)))
                              for k, r in ref.items())
        if isinstance(ref, Exact):
            x = conc(v)
            if x is None and v is not None and not (isinstance(v, Top) and v.term == ('const', None)):
                if ref.v is None and isinstance(v, (Arr, Obj)):
                    return 'bad', 'the result%s is set, expected None' % lab
                return 'unknown', 'value'
            y = conc(ref.v)
            if x == y:
                return 'ok', None
            return 'bad', 'the result%s is %r, expected %r' % (lab, x, y)
        if isinstance(ref, tuple):
            if not isinstance(v, (tuple, list)):
                return 'unknown', 'not a tuple'
            if len(v) != len(ref):
                return 'bad', '%d values are returned instead of %d' % (len(v), len(ref))
            return self.worst(self.compare(smp, x, r, tol, '%s[%d]' % (lab, k)) for k, (x, r) in enumerate(zip(v, ref)))
        if v is None:
            return 'bad', 'the result%s is None' % lab
        el = elements(v)
        if el is None:
            return 'unknown', 'elements of the result%s' % lab
        sh, data = el
        rs, rd = shape_of(ref), flat(ref)
        if sh != rs and not (sh == () and rs == (1,)):
            if 'ragged' in sh:
                return 'unknown', 'ragged'
            return 'bad', 'the result%s has shape %s, expected %s' % (lab, sh, rs)
        unk = None
        n = 0
        for k, (t, r) in enumerate(zip(data, rd)):
            if t[0] == 'unset':
                return 'bad', 'element %s of the result%s is never set' % (self.idx(k, sh), lab)
            try:
                y = smp.ev(r)
            except Undefined:
                continue
            try:
                x = smp.ev(t)
            except Unknown as e:
                unk = str(e)
                continue
            except Undefined as e:
                return 'bad', 'element %s of the result%s has no value (%s) where the reference has one' % (self.idx(k, sh), lab, e)
            n += 1
            if not close(x, y, tol):
                lx, ly = leaves(t), leaves(r)
                d = ''
                if lx != ly:
                    miss, extra = ly - lx, lx - ly
                    d = '; ' + ', '.join(p for p in (
                        'does not depend on ' + self.names(miss) if miss else '', 'depends on ' + self.names(extra) if extra else '') if p)
                return 'bad', 'element %s of the result%s is %s, expected %s%s' % (
                    self.idx(k, sh), lab, show(t, 6)[:160], show(r, 6)[:160], d)
        if unk is not None:
            return 'unknown', '%s (elements of the result%s)' % (unk, lab)
        return 'ok', None

    @staticmethod
    def worst(rs):
        """a wrong part decides; a part of unknown value leaves the rest open"""
        res = 'ok', None
        for st, info in rs:
            if st == 'bad':
                return st, info
            if st != 'ok' and res[0] == 'ok':
                res = st, info
        return res

    def names(self, ls):
        l = sorted(ls, key=repr)
        return ', '.join('%s%s' % (x[0], list(x[1:]) if len(x) > 1 else '') for x in l[:4]) + (' ..' if len(l) > 4 else '')

    def idx(self, k, sh):
        out = []
        for n in reversed(sh):
            out.append(k % n if n else 0)
            k //= n or 1
        return '(%s)' % ', '.join(str(x) for x in reversed(out))

    def finish(self, label):
        self.c.notes['undecided_%s' % label] = self.undecided
        self.c.notes['decided_%s' % label] = self.decided
