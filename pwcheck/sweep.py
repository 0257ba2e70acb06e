"""Runs the abstract interpreter over every public entry point."""
import time

from .model import AnalysisBroken
from .absint import Interp, Obj, V, TRUE, join_state
from .entries import public_entries, contexts, arg_values, call_entry, with_module_frame


class Sweep:
    """entries x option contexts; `self.cur` is the label of the running entry
    (None while modules are being loaded)"""

    def __init__(self, check, listener, copy_true=True, only=None, cap=24, histories=False, typed=None,
                 private=False, deep=False):
        self.check = check
        self.prog = check.prog
        self.cur = None
        self.ctx = None
        self.user = listener
        self.copy_true = copy_true
        self.only = only
        self.cap = cap
        self.histories = histories
        self.typed = typed
        self.private = private
        self.deep = deep
        self.it = Interp(self.prog, self.on_event)
        self.n_entries = self.n_runs = self.n_events = 0
        self.n_out = {}        # entry -> number of normal ends
        self.errors = []

    def on_event(self, it, kind, node, kw):
        self.n_events += 1
        self.user(self, it, kind, node, kw)

    def fresh(self, module):
        self.it.steps = 0
        self.it.allocn = {}
        with_module_frame(self.it, module)
        return self.it.new_state()

    def construct(self, cls, st):
        """an instance of cls as left by its constructor, or None"""
        it = self.it
        init = cls.find('__init__')
        if init is None:
            return it.alloc(cls.node, st, Obj('inst', cls=cls), 'inst'), st
        a = arg_values(it, st, init, True, {}, '%s.__init__' % cls.fq, self.typed)
        obj = it.alloc(init.node, st, Obj('inst', cls=cls), 'inst')
        (ref,) = obj
        outs = call_entry(it, st, init, a, V(ref))
        if not outs:
            return None, st
        s = None
        for v, x in outs:
            s = join_state(s, x)
        return V(ref), s

    def run_entry(self, e):
        it = self.it
        ovr = {'copy': [V(TRUE)]} if self.copy_true and 'copy' in e.f.posargs else None
        for ctx in contexts(e.f, e.cls is not None, cap=self.cap, overrides=ovr, deep=self.deep):
            st = self.fresh(e.f.module)
            self.ctx = ctx
            self.n_runs += 1
            if e.cls is None:
                outs = call_entry(it, st, e.f, arg_values(it, st, e.f, False, ctx, e.label, self.typed))
                self.n_out[e.label] = self.n_out.get(e.label, 0) + len(outs)
                continue
            if e.f.name == '__init__':
                (ref,) = it.alloc(e.f.node, st, Obj('inst', cls=e.cls), 'inst')
                obj = V(ref)
            else:
                obj, st = self.construct(e.cls, st)
                if obj is None:
                    continue
                if self.histories:
                    st = self.after_methods(e.cls, obj, st, e.f)
            for s in self.split(obj, st):
                a = arg_values(it, s, e.f, True, ctx, e.label, self.typed)
                outs = call_entry(it, s, e.f, a, obj)
                self.n_out[e.label] = self.n_out.get(e.label, 0) + len(outs)

    def split(self, obj, st, cap=27):
        """case split over string attributes of the instance that have several
        known values (the cases cover the joined state)"""
        (ref,) = obj
        states = [st]
        for k, v in sorted(st.heap[ref[1]].fields.items(), key=lambda kv: str(kv[0])):
            if 2 <= len(v) <= 4 and all(a[0] == 'c' and isinstance(a[2], (str, int)) and not isinstance(a[2], bool) for a in v) \
                    and len(states) * len(v) <= cap:
                new = []
                for s in states:
                    for a in sorted(v, key=str):
                        x = s.copy()
                        o = x.heap[ref[1]].clone()
                        o.fields = dict(o.fields)
                        o.fields[k] = V(a)
                        x.heap[ref[1]] = o
                        new.append(x)
                states = new
        return states

    def after_methods(self, cls, obj, st, skip):
        """the join of the states after any one other public method"""
        acc = st
        seen = set()
        for k in cls.mro():
            for n, f in k.methods.items():
                if n in seen or (n.startswith('_') and n != '__call__'):
                    continue
                seen.add(n)
                s = st.copy()
                a = arg_values(self.it, s, f, True, {}, '%s.%s.%s' % (cls.module.name, cls.name, n), self.typed)
                try:
                    for v, x in call_entry(self.it, s, f, a, obj):
                        acc = join_state(acc, x)
                except RecursionError:
                    self.errors.append('%s.%s (history)' % (cls.name, n))
        return acc

    def run(self):
        self.it.load()
        for e in public_entries(self.prog, private=self.private):
            if self.only is not None and not self.only(e):
                continue
            self.cur = e.label
            self.entry = e
            self.n_entries += 1
            try:
                self.run_entry(e)
            except AnalysisBroken:
                raise
            except Exception as ex:
                self.errors.append('%s: %s: %s' % (e.label, type(ex).__name__, ex))
        self.cur = None
        c = self.check
        c.notes['entry_points'] = self.n_entries
        c.notes['abstract_runs'] = self.n_runs
        c.notes['events'] = self.n_events
        c.notes['statements_reached'] = '%d' % len(self.it.covered)
        if self.errors:
            c.notes['not_analysed'] = self.errors
            if len(self.errors) > max(8, self.n_entries // 10):
                raise AnalysisBroken('the interpreter failed on %d of %d entry points: %s'
                                     % (len(self.errors), self.n_entries, self.errors[:3]))
        return self
