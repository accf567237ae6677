#!/opt/veriftools/pyvenv/bin/python
"""Development driver: pv.py MODULE [NAME...] - verify contracts and print the open obligations."""
import sys, time, importlib, argparse
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pyvc import source, verify
from contracts import registry
ap = argparse.ArgumentParser()
ap.add_argument('names', nargs='*')
ap.add_argument('-v', action='store_true')
ap.add_argument('--dump', default=None)
ap.add_argument('--max', type=int, default=8)
ap.add_argument('--fast', type=int, default=0, help='only the first solver attempt, resource limit in millions')
ap.add_argument('--only', default=None, help='only obligations whose name matches')
ap.add_argument('--line', default=None)
o = ap.parse_args()
prog = source.Program()
reg = registry.load()
import traceback
res = []
for q, con in reg.contracts.items():
    if con.trusted or con.inline and not con.params or (o.names and not any(n in con.__class__.__name__ or n == q for n in o.names)):
        continue
    t = time.time()
    try:
        R = verify.build(prog, reg.schema_for(con), reg.contracts, con, reg.reflocals)
    except Exception:
        traceback.print_exc()
        print('CRASH', q)
        continue
    print(f'{con.__class__.__name__:24} {len(R.obls):4} obligations  {time.time()-t:.1f}s  paths<={R.interp.paths}', R.unsupported or '', flush=True)
    res.append(R)
import re
if o.fast:
    verify.SOLVE_CFG.update(quick_only=True, r0=o.fast * 1000000)
for R in res:
    if o.only:
        R.obls = [b for b in R.obls if re.search(o.only, b.name)]
    if o.line:
        R.obls = [b for b in R.obls if str(b.line) in o.line.split(',')]
w = verify.solve_all(res)
for R in res:
    bad = [x for x in R.status if x[1] != 'discharged']
    tot = sum(x[3] for x in R.status)
    print(f'{R.con.__class__.__name__:24} {len(R.status)-len(bad)}/{len(R.status)} discharged, solver {tot:.1f}s max {max([x[3] for x in R.status] or [0]):.1f}s', 'UNSUPPORTED ' + R.unsupported if R.unsupported else '', [c for c in R.cov if c[1] != 'ok'])
    for ob, verdict, be, secs, why in bad[:o.max]:
        print('   ', verdict, ob.name, 'line', ob.line, f'{secs:.1f}s', why[:100].replace('\n', ' '))
        if o.dump and o.dump in ob.name:
            import z3
            s = z3.Solver(); s.add(*(R.axioms + ob.pc + [z3.Not(ob.goal)]))
            open('/tmp/dump.smt2', 'w').write(s.to_smt2())
            if o.v:
                for f in ob.pc: print('      |', str(f).replace('\n', ' ')[:300])
                print('      |-', str(ob.goal)[:2000])
    if o.v:
        for ob, verdict, be, secs, why in R.status:
            print('   ', verdict, ob.name, ob.line, be, f'{secs:.2f}')
print('wall', round(w, 1))
