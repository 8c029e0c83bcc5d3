#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough]   |   run.py --replay <file>"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', help='regular expression on unit/case')
    ap.add_argument('--replay')
    a = ap.parse_args()
    import driver
    if a.replay:
        import replay
        sys.exit(replay.main(a.replay))
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod = importlib.import_module('contracts.' + a.prop.lower())
    units = mod.units(a.tier)
    if a.only:
        import re
        for u in units:
            u.cases = [c for c in u.cases if re.search(a.only, u.name + '/' + c.name)]
        units = [u for u in units if u.cases]
    rc = driver.main(a.prop, units, a.tier, seed, mod.META)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
