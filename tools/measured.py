"""Prints the table of measured obligations and cost for DESIGN.md from the evidence of the last runs. Stops if any
of them was made on another tree than the present one of /repo, or with uncommitted changes there."""
import glob
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import build

if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip():
    sys.exit('/repo has uncommitted changes')
now = build.source_sha256('/repo')
rows = []
for f in sorted(glob.glob('/verif/evidence/P??.json')):
    d = json.load(open(f))
    c = d['coverage']
    if c.get('source_sha256') != now:
        sys.exit('%s is not from the present tree: run the check again' % f)
    rows.append('| %s | %d | %d/%d | %d/%d | %d | %d | %s | %s |' % (d['property'], c['contracts'], c['discharged'], c['obligations'], c['bounded_discharged'], c['bounded_obligations'],
                                                                 len(c['functions_under_contract']), c['vacuity_checks_passed'], c['solver_s'], d['wall_s']))
print('| property | contracts | proved obligations | bounded obligations | functions | vacuity checked | solver s | wall s |')
print('|---|---|---|---|---|---|---|---|')
print('\n'.join(rows))
