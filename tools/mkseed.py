#!/usr/bin/env python3
"""Dev tool: mkseed.py SPEC.py - create seeded/<id>/ from (file, old, new) edits and a demo, in a scratch copy; then test it.
SPEC.py defines SEEDS = [dict(id, property, file|edits, needs, breaks, demo)]. Options: --only ID, --nocheck."""
import json, os, subprocess, sys, shutil, tempfile, re
V = '/verif'


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        W = tempfile.mkdtemp(prefix='seed_')
        R = W + '/repo'
        try:
            sh(f'git -C /repo worktree prune; cp -a /repo {R}')
            edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
            bad = False
            for f, old, new in edits:
                p = os.path.join(R, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'OLD TEXT FOUND', t.count(old), 'times:', old[:80])
                    bad = True
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                continue
            d = os.path.join(V, 'seeded', s['id'])
            os.makedirs(d, exist_ok=True)
            rc, diff = sh('git diff', R)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds in this case\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            base = f'{W}/base'
            sh(f'git -C /repo worktree list; cp -a /repo {base}')
            rc0, out0 = sh(f'bash {d}/demo.sh', base)
            rc1, out1 = sh(f'bash {d}/demo.sh', R)
            t = open('/opt/vp/test.sh').read().replace('/repo', R)
            open(W + '/test.sh', 'w').write(t)
            rct, outt = sh(f'bash {W}/test.sh {W}/out.json', R)
            try:
                res = json.load(open(W + '/out.json'))
            except Exception as e:
                res = {}
            passed = set(res.get('passed') or [k for k, v in (res.get('results') or res).items() if v in ('PASS', 'pass', 'passed', True)])
            missing = stable - passed
            ok = rc0 == 0 and rc1 != 0 and not missing
            print(f"{s['id']}: demo base {rc0} patched {rc1} tests {'ok' if not missing else sorted(missing)} => {'GOOD' if ok else 'BAD'}")
            if rc0 != 0:
                print(out0[-600:])
            if not ok:
                continue
            if '--nocheck' not in sys.argv:
                for prop in [s['property']] + s.get('also', []):
                    env = dict(os.environ, PYVC_REPO=R, PYVC_OUT=W + '/ev', VERIF_SEED='1')
                    rc, out = sh(f'python3-vt {V}/tools/check.py {prop}', V, env)
                    print('   ', prop, 'exit', rc, '|', ' || '.join(l[:230] for l in out.split('\n') if l.startswith(('failed', 'VIOL', '  not', prop)))[:900])
        finally:
            shutil.rmtree(W, ignore_errors=True)


main()
