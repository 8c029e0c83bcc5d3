#!/usr/bin/env python3
"""applies each planted bug to /repo, runs the check of its property, and undoes it: python3 tools/try_seeds.py [regex] [--all]"""
import json, os, re, subprocess, sys, time
pat = next((a for a in sys.argv[1:] if not a.startswith('-')), '.')
for i in sorted(os.listdir('/verif/seeded')):
    if not re.search(pat, i):
        continue
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        t = time.time()
        r = subprocess.run(['python3-vt', 'run.py', prop], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(i, prop, 'rc', r.returncode, 'caught' if r.returncode == 1 else 'MISSED', '%.0fs' % (time.time() - t), len(lines), lines[0][:200] if lines else r.stdout[-300:], flush=True)
