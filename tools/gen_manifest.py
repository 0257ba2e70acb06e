"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = ('whole-program abstract interpretation', )
CLAIMS = {}
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims_src.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p,
                           thorough_cmd='python3 check.py %s --tier thorough' % p,
                           technique=tech, level='other', level_note=note))
missing = [p for p in props if p not in CLAIMS and p not in NA]
assert not missing, missing
assert not [p for p in list(CLAIMS) + list(NA) if p not in props]
man = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks,
           not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items()) if p not in CLAIMS],
           notes='All checks are static analyses of the source of /repo; none of them imports or runs pwtools. '
                 'No hooks in /repo. Known findings and repaired defects: known_findings.txt.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
