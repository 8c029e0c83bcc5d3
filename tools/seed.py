#!/usr/bin/env python3
"""plants a bug: python3 tools/seed.py SPEC.py [...]; each SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C++ main).
Confirms in a scratch copy that the changed tree builds, passes the tests, and that the demonstration separates the trees; then
keeps patch.diff, demo.sh, demo.cpp and meta.json in /verif/seeded/ID."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

DEMO_SH = '''#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -I. "$here/demo.cpp" -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = '/tmp/seedtree'
    if not os.path.exists(d):
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
        for f in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/repo', d)
            open('/tmp/seed_' + f, 'w').write(s)
    sh('git fetch -q origin && git checkout -q -f --detach origin/HEAD && git reset -q --hard origin/HEAD && git clean -qfd -e _build', d)
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    sh('git checkout -q -f %s' % head, d)
    return d


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    for spec in ns['SPECS']:
        ident = spec['id']
        out = '/verif/seeded/' + ident
        if os.path.exists(out + '/ok') or os.path.exists(out + '/meta.json') and '--force' not in sys.argv:
            continue
        d = scratch()
        demo = tempfile.mkdtemp(prefix='demo')
        open(demo + '/demo.cpp', 'w').write(spec['demo'])
        open(demo + '/demo.sh', 'w').write(DEMO_SH)
        r = sh('bash %s/demo.sh' % demo, d)
        if r.returncode != 0:
            print(ident, 'REJECTED: demo fails on the unchanged tree', r.stdout[-800:])
            continue
        bad = False
        for f, a, b in spec['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(ident, 'REJECTED: edit text occurs %d times in %s' % (s.count(a), f))
                bad = True
                break
            open(p, 'w').write(s.replace(a, b))
        if bad:
            continue
        r = sh('bash %s/demo.sh' % demo, d)
        if r.returncode in (0, 2):
            print(ident, 'REJECTED: demo exits %d on the changed tree' % r.returncode, r.stdout[-800:])
            continue
        r = sh('bash /tmp/seed_build.sh', d)
        if r.returncode:
            print(ident, 'REJECTED: build', r.stdout[-1500:])
            continue
        r = sh('bash /tmp/seed_test.sh /tmp/seed_out.json', d)
        res = json.load(open('/tmp/seed_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = base.get('stable', base.get('passed', base)) if isinstance(base, dict) else base
        missing = [t for t in want if t not in set(res['passed'])]
        if missing:
            print(ident, 'REJECTED: tests fail', missing[:5])
            continue
        os.makedirs(out, exist_ok=True)
        diff = sh('git diff', d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.cpp', 'demo.sh'):
            shutil.copy(os.path.join(demo, f), out)
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(ident, 'kept')


if __name__ == '__main__':
    for p in sys.argv[1:]:
        if not p.startswith('--'):
            plant(p)
