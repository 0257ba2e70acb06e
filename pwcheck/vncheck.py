"""Common driver of the value-graph checks (C20, C22, C23, C24)."""
import os
import pickle
import time
import traceback

from .refs.models import globs, models
from .vnspec import Runner

METHOD = ('Abstract interpretation of the named functions (and all they call in the package) on arrays of fixed small size '
          'with one symbolic term per element; the term of every element of the result is compared with the term of the defining '
          'relation by value numbering under random interpretation (Gulwani, Necula, POPL 2004). Terms whose meaning is not known leave '
          'the obligation undecided and are listed; they never raise an alarm.')


class Rec:
    """what a share of the work reports"""

    def __init__(self):
        self.out = []

    def violate(self, *a, **k):
        self.out.append(('violate', a, k))

    def site(self, *a, **k):
        self.out.append(('site', a, k))


def share(todo, prog, tier, budget):
    rec = Rec()
    R = Runner(rec, prog, nsample=12 if tier == 'thorough' else 4, maxpaths=2000 if tier == 'thorough' else 300,
               models=models(), globs=globs)
    t0 = time.time()
    res = []
    for k, (rule, mod, name, mk, ref, kw) in todo:
        lab = '%s.%s %s' % (mod, name, kw.get('what', ''))
        rec.out, R.undecided, d0 = [], [], R.decided
        if time.time() - t0 > budget:
            R.undecided.append('%s: out of time' % lab)
        else:
            try:
                R.check(rule, mod, name, mk, ref, **kw)
            except Exception as e:
                R.undecided.append('%s: %s: %s' % (lab, type(e).__name__, traceback.format_exc(limit=-1)[-200:]))
        res.append((k, rec.out, R.undecided, R.decided - d0))
    names = sorted({str(getattr(f, 'qualname', f)).strip('<>').replace('F ', '', 1) for f in R.functions})
    return res, names


def run(c, specs, rules, budget=600):
    prog = c.load(with_scripts=True)
    todo = [(k, s) for k, s in enumerate(s for s in specs if s[0] in rules)]
    nproc = min(8, os.cpu_count() or 1, max(1, len(todo) // 8))
    parts = fork_map(lambda i: share(todo[i::nproc], prog, c.tier, budget), nproc)
    undecided, names, decided = [], set(), 0
    rows = []
    for i, part in enumerate(parts):
        if part is None:
            # the share was lost: once more, here
            part = share(todo[i::nproc], prog, c.tier, budget)
        rows += part[0]
        names |= set(part[1])
    for k, out, und, n in sorted(rows, key=lambda r: r[0]):
        undecided += und
        decided += n
        for what, a, kw in out:
            getattr(c, what)(*a, **kw)
    c.notes['references'] = len(todo)
    c.notes['decided'] = decided
    c.notes['undecided'] = undecided
    c.notes['functions_analysed'] = sorted(names)
    c.explanation = METHOD
    c.need('reference decided', decided, 1)


def fork_map(f, n):
    """f(i) for i < n, every one in a process of its own; None for a process that did not finish"""
    if n == 1:
        return [f(0)]
    kids = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as fd:
                    pickle.dump(f(i), fd)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as fd:
            data = fd.read()
        _, st = os.waitpid(pid, 0)
        out.append(pickle.loads(data) if st == 0 else None)
    return out
