"""Shared frame of all checks: sites, violations, known findings, evidence."""
import collections
import json
import os
import sys
import time
import traceback

from .model import Program, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s key=' % pid):
                key, _, text = line.split(' key=', 1)[1].partition(' :: ')
                out[key] = text
    return out


class Check:
    """One run of one property's check"""

    def __init__(self, pid, tier, repo=None):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.ok = collections.Counter()
        self.bad = collections.OrderedDict()
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.explanation = ''
        self.prog = None
        self.repo = repo

    thorough = property(lambda self: self.tier == 'thorough')

    def load(self, with_scripts=False):
        self.prog = Program(self.repo, with_scripts=with_scripts) if self.repo else Program(with_scripts=with_scripts)
        self.notes['modules_parsed'] = len(self.prog.modules)
        self.notes['functions_parsed'] = sum(1 for _ in self.prog.all_functions())
        return self.prog

    def site(self, rule, what=None, n=1):
        """an instance of `rule` was examined"""
        self.counts[rule] += n
        if what is not None and sum(1 for s in self.samples if s[0] == rule) < 6:
            self.samples.append((rule, what))

    def violate(self, rule, key, where, msg):
        """key: stable identity of the violating construct (no line numbers)"""
        k = '%s|%s' % (rule, key)
        if k not in self.bad:
            self.bad[k] = (rule, where, msg)

    def need(self, what, have, minimum):
        """an anchor count that must not silently drop to nothing"""
        self.notes.setdefault('anchor_counts', {})[what] = have
        if have < minimum:
            raise AnalysisBroken('%s: found %d instance(s) of "%s", expected at least %d'
                                 % (self.pid, have, what, minimum))

    def finish(self):
        known = known_findings(self.pid)
        evdir = os.environ.get('PWCHECK_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        new = []
        for k, (rule, where, msg) in self.bad.items():
            if k in known:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, known[k], where))
            else:
                new.append((k, rule, where, msg))
        obligations = sum(self.counts.values())
        cov = {
            'explanation': self.explanation,
            'obligations': obligations,
            'discharged': max(0, obligations - len(self.bad)),
            'instances_per_rule': dict(self.counts),
            'samples': ['%s: %s' % s for s in self.samples] or ['(none)'],
        }
        cov.update(self.notes)
        if self.bad:
            cov['reported'] = ['%s at %s: %s' % (k, w, m) for k, (r, w, m) in self.bad.items()]
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                  level='other', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 3), violations=len(new))
        with open(os.path.join(evdir, self.pid + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1, default=str)
        if new:
            rp = os.path.join(evdir, '%s.violations.txt' % self.pid)
            with open(rp, 'w') as fd:
                for k, rule, where, msg in new:
                    fd.write('%s\n  rule: %s\n  construct: %s\n  %s\n\n' % (where, rule, k, msg))
            for k, rule, where, msg in new[:12]:
                print('%s: [%s] %s' % (where, rule, msg))
                print('    key=%s' % k)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations, %d rule(s), no unlisted violation (%.1fs)'
              % (self.pid, obligations, len(self.counts), time.time() - self.t0))
        return 0


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module('pwcheck.checks.%s' % a.property.lower())
        c = Check(a.property, a.tier, a.repo)
        mod.run(c)
        return c.finish()
    except AnalysisBroken as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 2
    except SyntaxError as e:
        print('ANALYSIS BROKEN: cannot parse %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


def run_main(argv):
    """run with a big stack: the interpreter recurses deeply"""
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 4)
