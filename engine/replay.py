"""run.py --replay FILE: runs the failing input of a replay file against /repo's current code again; without an input, redoes the proof
of the contract unit and prints the obligations that fail."""
import copy
import importlib
import json
import os
import shutil
import tempfile
import driver
import numeric
from dsl import SizeCase


def main(path):
    d = json.load(open(path))
    mod = importlib.import_module('contracts.' + d['property'].lower())
    hit = None
    for tier in ('quick', 'thorough'):
        for u in mod.units(tier):
            for c in u.cases:
                if u.name == d['unit'] and c.name == d.get('case'):
                    hit = hit or (u, c)
    if not hit:
        print('the contract unit %s/%s no longer exists; the file says: %s' % (d['unit'], d.get('case'), d.get('failed_obligations')))
        return 2
    u, c = copy.copy(hit[0]), hit[1]
    u.cases = [c]
    tmp = tempfile.mkdtemp(prefix='replay')
    try:
        print('property %s, unit %s/%s: %s' % (d['property'], u.name, c.name, c.label))
        print(c.body)
        with open(os.path.join(tmp, u.name + '.n.cpp'), 'w') as f:
            f.write(u.native_source())
        _, rc, err = driver.native_build((u, tmp))
        if rc:
            print('the unit does not compile:', err[:2000])
            return 1
        ins = (d.get('native') or {}).get('ins')
        if ins:
            sizes = ins.pop('sizes', None)
            cc = c.at(sizes) if isinstance(c, SizeCase) and sizes else c
            print('input', json.dumps(ins)[:2000])
            r = numeric.search(os.path.join(tmp, u.name + '.so'), cc, '1', 10, tries=0, seeds=[ins])
            if r['bad']:
                for b in r['bad']:
                    print('FAILS:', b[0], json.dumps(b[1], default=str)[:1500])
                print('VIOLATION property=%s replay=%s' % (d['property'], path))
                return 1
            print('holds for this input' if r['adm'] else 'the input is no longer admissible: %s' % r)
            return 0
        print('no failing input; the proof is redone')
        driver.EVDIR = os.path.join(tmp, 'evidence')   # the evidence of the last full run stays
        return driver.main(d['property'], [u], 'quick', 1, mod.META)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
