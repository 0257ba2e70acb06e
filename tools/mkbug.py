#!/usr/bin/env python3
"""mkbug.py <id> : reads /tmp/bugs/<id>.py (PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO) and
creates seeded/<id> after confirming it in a scratch copy: builds, stable tests pass, demo ok/not ok."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = '. /opt/vp/env.sh; '
def sh(cmd, cwd=None, **kw):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main(bid, quick=False):
    ns = {}
    exec(open('/tmp/bugs/%s.py' % bid).read(), ns)
    d = os.path.join(ROOT, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in ns['EDITS']:
        p = '/repo/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, 'EDIT does not match once:', f, s.count(old), repr(old[:60])); return 1
    if '/python' not in ns['DEMO']:
        ns['DEMO'] = ('export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src\n/opt/venv/bin/python - <<\'P\'\n'
                      + ns['DEMO'].strip('\n') + '\nP\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + ns['DEMO'].lstrip('\n'))
    for n, t in ns.get('FILES', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh(ENV + 'cd /repo && timeout 300 bash %s/demo.sh' % d)
    sh('git -C /repo clean -fdq -e "*.so" ; true') if False else None
    try:
        for f, old, new in ns['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh', cwd='/repo')
        r1 = sh(ENV + 'cd /repo && timeout 300 bash %s/demo.sh' % d)
        broken = None
        for n in range(0 if quick else 5):
            sh('bash /opt/vp/test.sh /tmp/mkbug.json', cwd='/repo')
            bp = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            br = bp - set(json.load(open('/tmp/mkbug.json')).get('passed', []))
            broken = br if broken is None else broken & br
            if not broken or len(broken) > 1 or 'test_traj' not in str(broken):
                break
        chk = sh('python3 check.py %s' % ns['PROPERTY'], cwd=ROOT)
    finally:
        sh('git -C /repo checkout -- .')
    ok = 'tests not run'
    if not quick:
        ok = 'tests ok' if not broken else 'TESTS BROKEN: %s' % sorted(broken)[:4]
    if any(f.endswith('.f90') for f, _, _ in ns['EDITS']):
        sh('bash /opt/vp/build.sh', cwd='/repo')
    print('%s: build %s; demo clean rc=%d patched rc=%d; %s; check rc=%d %s' % (
        bid, b.returncode, r0.returncode, r1.returncode, ok, chk.returncode,
        'CAUGHT' if 'VIOLATION property=%s' % ns['PROPERTY'] in chk.stdout else 'missed'))
    if r0.returncode: print('--clean demo:', r0.stdout[-600:])
    if not r1.returncode: print('--patched demo:', r1.stdout[-600:])
    else: print('   demo says:', r1.stdout.strip().splitlines()[-1:] )
    if chk.returncode == 1: print('   ', [l for l in chk.stdout.splitlines() if '[' in l][:1])
    elif chk.returncode: print(chk.stdout[-500:])
if __name__ == '__main__':
    for b in sys.argv[1:]:
        main(b)
