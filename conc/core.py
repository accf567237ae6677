"""Run-time contract checking on the real code: small exhaustive and random cases, shrinking, replay files.

Runs in the interpreter of the repository's environment with /repo on the path. Every property module CXX.py defines
  CHECKS   = {name: function(case)}   raises Fail when the case violates the property
  generate(rnd, tier)                 yields (name, case); JSON cases; the first part is exhaustive, then random for ever
  shrink(name, case)  (optional)      yields smaller cases
"""
import json
import logging
import os
import random
import signal
import sys
import time
import traceback
import hashlib
import io
import contextlib

logging.disable(logging.CRITICAL)


class Fail(Exception):
    """The property does not hold in this case."""


class Hang(BaseException):
    pass


def check(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


def eq(got, want, what):
    if not (got == want):
        raise Fail(f'{what}: got {got!r}, expected {want!r}')


CASE_SECONDS = 20


def run_case(fn, case):
    """None, or the description of the failure."""
    def onalarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_SECONDS)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(case)
        return None
    except Fail as e:
        return str(e)
    except Hang:
        return f'no answer within {CASE_SECONDS} s'
    except RecursionError:
        return 'unexpected RecursionError'
    except Exception as e:      # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-4:])
        return f'unexpected {type(e).__name__}: {e} ({where})'
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def shrink_case(mod, name, case, msg, until):
    sh = getattr(mod, 'shrink', default_shrink)
    fn = mod.CHECKS[name]
    progress = True
    while progress and time.time() < until:
        progress = False
        for c in sh(name, case):
            if time.time() > until:
                break
            m = run_case(fn, c)
            if m is not None:
                case, msg, progress = c, m, True
                break
    return case, msg


def default_shrink(name, case):
    """Drop one element of a list field."""
    for k, v in case.items():
        if isinstance(v, list) and k in ('ops', 'steps', 'items'):
            for i in range(len(v)):
                yield dict(case, **{k: v[:i] + v[i + 1:]})


def explore(mod, prop, seed, tier, seconds, outdir, maxfail=3):
    """Returns (number of cases, per-check counts, failures, exhaustive part finished?)."""
    rnd = random.Random(seed)
    t0 = time.time()
    counts, fails, seen = {}, [], set()
    exhaustive_done = False
    for name, case in mod.generate(rnd, tier):
        if name is None:
            exhaustive_done = True
            continue
        if time.time() - t0 > seconds:
            break
        counts[name] = counts.get(name, 0) + 1
        m = run_case(mod.CHECKS[name], case)
        if m is None:
            continue
        key = (name, m.split(':')[0][:40])
        if key in seen:
            continue
        seen.add(key)
        case, m = shrink_case(mod, name, case, m, time.time() + 10)
        if any(f['check'] == name for f in fails) and time.time() - t0 > 5:
            continue
        body = {'property': prop, 'check': name, 'case': case, 'message': m}
        h = hashlib.sha1(json.dumps([name, case], sort_keys=True).encode()).hexdigest()[:10]
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, f'{prop}-{name}-{h}.json')
        with open(path, 'w') as f:
            json.dump(body, f, indent=1, ensure_ascii=False)
        if any(f['path'] == path for f in fails):
            continue
        fails.append({'check': name, 'message': m, 'path': path, 'case': case})
        if len(fails) >= maxfail:
            break
    return {'cases': sum(counts.values()), 'counts': counts, 'failures': fails, 'exhaustive_done': exhaustive_done,
            'seconds': time.time() - t0}
