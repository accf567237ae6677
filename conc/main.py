"""conc/main.py PROP --seconds N --tier T --seed S --out DIR --json OUT | conc/main.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
sys.dont_write_bytecode = True
from conc import core

ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?')
ap.add_argument('--seconds', type=float, default=20)
ap.add_argument('--tier', default='quick')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--out', default='/verif/evidence/replay')
ap.add_argument('--json', default=None)
ap.add_argument('--replay', default=None)
o = ap.parse_args()
if o.replay:
    d = json.load(open(o.replay))
    mod = importlib.import_module('conc.' + d['property'].lower())
    m = core.run_case(mod.CHECKS[d['check']], d['case'])
    print('case:', json.dumps(d['case'], ensure_ascii=False))
    print('FAILS: ' + m if m is not None else 'holds')
    sys.exit(1 if m is not None else 0)
mod = importlib.import_module('conc.' + o.prop.lower())
r = core.explore(mod, o.prop, o.seed, o.tier, o.seconds, o.out)
if o.json:
    json.dump(r, open(o.json, 'w'))
else:
    print(json.dumps(r, indent=1, ensure_ascii=False)[:4000])
