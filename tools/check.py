#!/opt/veriftools/pyvenv/bin/python
"""The check of one property: check.py PROP [--tier quick|thorough].

1. generates the proof obligations of every function under contract for PROP from /repo's current source and discharges them
   (z3, cvc5); 2. at the same time runs the run-time contract check of the same property on the real code (bounded);
3. writes evidence/PROP.json; prints VIOLATION / KNOWN-FINDING lines. Exit 0: held, 1: violated."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
t_start = time.time()
REPO = os.environ.get('PYVC_REPO', '/repo')
OUT = os.environ.get('PYVC_OUT', os.path.join(V, 'evidence'))
REPLAY = os.path.join(OUT, 'replay')
PY = '/opt/venv/bin/python'

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('-v', action='store_true')
o = ap.parse_args()
P, tier = o.prop, ('thorough' if o.tier == 'thorough' else 'quick')

from contracts.props import PROPS, BOUNDS
conf = PROPS[P]
CONC_SECONDS = conf.get('seconds', 40) if tier == 'quick' else 400
PROOF_DEADLINE = 420 if tier == 'quick' else 1500


def start_conc(seed, seconds, tag):
    js = os.path.join(OUT, f'.conc-{P}-{os.getpid()}-{tag}.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYVC_REPO=REPO)
    p = subprocess.Popen([PY, os.path.join(V, 'conc', 'main.py'), P, '--seconds', str(seconds), '--tier', tier, '--seed', str(seed),
                          '--out', REPLAY, '--json', js], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, js


def end_conc(h, seconds):
    p, js = h
    try:
        out, _ = p.communicate(timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        out = 'timeout'
    if os.path.exists(js):
        r = json.load(open(js))
        os.unlink(js)
        return r
    return {'cases': 0, 'counts': {}, 'failures': [], 'exhaustive_done': False, 'seconds': 0,
            'error': f'exit {p.returncode}: {out[-1500:]}'}


def known_findings():
    f = os.path.join(V, 'known_findings.json')
    return [k for k in json.load(open(f))['findings'] if k['property'] == P] if os.path.exists(f) else []


def main():
    os.makedirs(REPLAY, exist_ok=True)
    for f in os.listdir(REPLAY):
        if f.startswith(P + '-'):
            os.unlink(os.path.join(REPLAY, f))
    has_conc = os.path.exists(os.path.join(V, 'conc', P.lower() + '.py'))
    nconc = 2 if tier == 'quick' else 4
    concs = [start_conc(o.seed * 1000 + k, CONC_SECONDS, str(k)) for k in range(nconc)] if has_conc else []
    results, notapp, crashed = [], [], []
    failed, undecided = [], []
    nobl = ndis = 0
    backends, solver_s, gen_s = {}, 0.0, 0.0
    functions = []
    assumptions = set()
    if conf['contracts']:
        from pyvc import source, verify
        from contracts import registry
        verify.SOLVE_CFG.update(hard=150 if tier == 'quick' else 600)
        prog, reg = source.Program(), registry.load()
        missing = [q for q in conf['contracts'] if q not in reg.contracts]
        assert not missing, missing
        todo, seen_q = list(conf['contracts']), set()
        while todo:
            q = todo.pop(0)
            con = reg.contracts[q]
            if q in seen_q:
                continue
            seen_q.add(q)
            if con.trusted:
                assumptions.add(f'assumed contract of {q}: {(con.__doc__ or "returns a value of its type, does not raise").strip()}')
                continue
            try:
                R = verify.build(prog, reg.schema_for(con), reg.contracts, con, reg.reflocals)
            except Exception as e:      # noqa
                crashed.append((q, f'{type(e).__name__}: {e}'))
                if o.v:
                    traceback.print_exc()
                continue
            if R.unsupported:
                notapp.append((q, R.unsupported))
                continue
            results.append(R)
            todo += sorted(R.used)      # a caller is checked against the contracts of its callees: these are verified, too
        t0 = time.time()
        verify.solve_all(results, procs=6 if tier == 'quick' else 7, deadline=t_start + PROOF_DEADLINE)
        wall_solve = time.time() - t0
        for R in results:
            q = R.con.qual
            n = d = 0
            secs = 0.0
            for ob, verdict, be, s, why in R.status:
                n += 1
                secs += s
                if verdict == 'discharged':
                    d += 1
                    backends[be] = backends.get(be, 0) + 1
                elif verdict == 'refuted' or be != 'none':
                    failed.append((q, ob, verdict, why))
                else:
                    undecided.append((q, ob, why))
            cov = dict(R.cov)
            if n == 0:
                failed.append((q, None, 'vacuous', 'no obligations were generated'))
            if cov.get('requires-satisfiable') == 'vacuous':
                failed.append((q, None, 'vacuous', 'the precondition is contradictory'))
            exits = [v for k, v in cov.items() if k.startswith('exit-')]
            if exits and all(v == 'vacuous' for v in exits):
                failed.append((q, None, 'vacuous', 'no normal exit is reachable'))
            nobl += n
            ndis += d
            solver_s += secs
            gen_s += R.gen_seconds
            functions.append({'function': q, 'obligations': n, 'discharged': d, 'solver_s': round(secs, 2),
                              'inlined': sorted(R.inlined), 'uses_contracts_of': sorted(R.used)})
            assumptions |= set(R.trusted)
    conc = [end_conc(h, CONC_SECONDS) for h in concs]
    cfails = [f for r in conc for f in r['failures']]
    if (failed or notapp or crashed) and not cfails and has_conc:
        # search longer for a failing input on the real code
        more = [start_conc(o.seed * 1000 + 100 + k, 90 if tier == 'quick' else 300, f'x{k}') for k in range(6)]
        extra = [end_conc(h, 300) for h in more]
        conc += extra
        cfails = [f for r in extra for f in r['failures']]
    # ---- known findings (defects that are recorded, not repaired)
    for k in known_findings():
        r = subprocess.run([PY, os.path.join(V, 'conc', 'main.py'), '--replay', os.path.join(V, k['replay'])], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYVC_REPO=REPO))
        if r.returncode == 1 and 'FAILS:' in r.stdout:
            print(f'KNOWN-FINDING: property={P} {k["what"]}')
    violations = []
    seen = set()
    for f in cfails:
        if f['check'] in seen:
            continue
        seen.add(f['check'])
        d = json.load(open(f['path']))
        d['failed_obligations'] = [obname(q, ob) for q, ob, _, _ in failed][:40]
        json.dump(d, open(f['path'], 'w'), indent=1, ensure_ascii=False)
        violations.append({'what': f['message'], 'replay': f['path'], 'obligations': d['failed_obligations']})
        print(f'failed: {f["check"]}: {f["message"][:600]}')
        for x in d['failed_obligations'][:10]:
            print(f'failed obligation: {x}')
        print(f'VIOLATION property={P} replay={f["path"]}')
    if failed and not cfails:
        path = os.path.join(REPLAY, f'{P}-obligations.json')
        json.dump({'property': P, 'no_failing_input_found': True,
                   'failed_obligations': [{'obligation': obname(q, ob), 'line': ob.line if ob is not None else None, 'verdict': v,
                                           'goal': str(ob.goal)[:3000] if ob is not None else None, 'solver_output': why[:3000]}
                                          for q, ob, v, why in failed[:40]],
                   'searched': [{k: r.get(k) for k in ('cases', 'seconds')} for r in conc]}, open(path, 'w'), indent=1)
        for q, ob, v, why in failed[:10]:
            print(f'failed obligation: {obname(q, ob)} ({v})')
        violations.append({'what': 'failed obligations', 'replay': path, 'obligations': [obname(q, ob) for q, ob, _, _ in failed]})
        print(f'VIOLATION property={P} replay={path} no-failing-input-found')
    conc_errors = [r['error'] for r in conc if r.get('error')]
    if conc_errors and not violations:
        # the real code cannot even be loaded or run: the property does not hold on it
        path = os.path.join(REPLAY, f'{P}-harness.json')
        json.dump({'property': P, 'check': None, 'harness_error': conc_errors[0]}, open(path, 'w'), indent=1)
        print(conc_errors[0])
        violations.append({'what': 'the run-time check could not run', 'replay': path})
        print(f'VIOLATION property={P} replay={path} no-failing-input-found')
    # ---- evidence
    all_proved = bool(conf['contracts']) and not (failed or undecided or notapp or crashed)
    level = conf.get('level', 'proof' if conf['contracts'] else 'exploration')
    if not all_proved and level == 'proof':
        level = 'exploration'
    bounded = dict(conf.get('bounded', {}))
    for q, why in notapp + crashed:
        bounded[q] = f'contract not applicable to the current source ({why}); decided by the bounded run-time check in this run'
    ev = {
        'property': P, 'tier': tier, 'seed': o.seed, 'level': level,
        'coverage': {
            'obligations': nobl, 'discharged': ndis, 'failed': len(failed), 'undecided': len(undecided),
            'checker_cmd': f'python3-vt tools/check.py {P} --tier {tier}',
            'trusted_base': ['pyvc (this repository): translation of Python source to obligations', 'z3 5.3.2 (python bindings)', 'cvc5 1.1.2', 'CPython semantics of the modelled subset'],
            'functions_under_contract': functions,
            'backends': backends, 'solver_s': round(solver_s, 1), 'generation_s': round(gen_s, 1),
            'bounded_functions': bounded,
            'runtime_check': {'bound': BOUNDS.get(P, ''), 'cases': sum(r['cases'] for r in conc),
                              'by_check': merge([r['counts'] for r in conc]),
                              'exhaustive_part_finished': any(r.get('exhaustive_done') for r in conc),
                              'seconds': round(sum(r['seconds'] for r in conc), 1), 'counted_as_proved': False},
        },
        'assumptions': sorted(assumptions) + conf.get('assumptions', []) + COMMON,
        'violations': violations, 'wall_s': round(time.time() - t_start, 1),
    }
    json.dump(ev, open(os.path.join(OUT, f'{P}.json'), 'w'), indent=1, ensure_ascii=False)
    print(f'{P} {tier}: {ndis}/{nobl} obligations of {len(functions)} functions discharged, {len(undecided)} undecided, '
          f'{len(bounded)} functions bounded; run-time check {sum(r["cases"] for r in conc)} cases; {len(violations)} violations; {time.time() - t_start:.0f} s')
    for q, why in notapp + crashed:
        print(f'  not applicable: {q}: {why}')
    return 1 if violations else 0


COMMON = ['integers are mathematical (as in Python); floating-point ords of empty nodes are treated as mathematical reals where they occur',
          'objects have the attributes and attribute types of contracts/schema.py (typed heap); no monkey-patching, no other thread',
          'MemoryError, RecursionError and KeyboardInterrupt are not modelled']


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


def obname(q, ob):
    return f'{q}: {ob.name} (line {ob.line})' if ob is not None else q


sys.exit(main())
