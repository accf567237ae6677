#!/opt/veriftools/pyvenv/bin/python
"""Record the names of local variables and the loop structure the loop annotations were written for (contracts/locals.json)."""
import json, sys
sys.path.insert(0, '/verif')
from pyvc import source, verify
from contracts import registry
prog, reg = source.Program(), registry.load()
out = {}
for q, con in sorted(reg.contracts.items()):
    fi = prog.func(q)
    if fi is not None:
        out[q] = {'locals': verify.local_names(fi.node), 'loops': verify.loop_kinds(fi.node)}
json.dump(out, open('/verif/contracts/locals.json', 'w'), indent=0, sort_keys=True)
