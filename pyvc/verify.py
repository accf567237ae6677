"""Contracts, verification of one function, the solver pool."""
import ast
import gc
import os
import re
import subprocess
import tempfile
import time
import multiprocessing as mp
import z3
from .core import *
from .interp import Obligation, has_quant
from .evalx import VUnbound, FA
from .callx import SView, Args, LV
from .stmts import Interpreter, Loop


class Contract:
    qual = None
    strings = 'opaque'
    params = {}
    ret = None
    ret_field = None
    ret_attrs = None
    modifies = ()
    modifies_args = ()
    exc_modifies = ()
    may_raise = ()
    loops = {}
    inline = False
    fresh_result = False
    trusted = False      # assumed, not verified (listed as an assumption)
    generator = False
    self_classes = None  # for dispatch of inherited code

    @property
    def short(self):
        return '.'.join(self.qual.split('.')[-3:] if self.qual.endswith('.setter') else self.qual.split('.')[-2:])

    def requires(self, S, a):
        return []

    def raises(self, S, a):
        return []

    def ensures(self, S0, S1, a, r):
        return []

    def exc_ensures(self, S0, S1, a, cls):
        return []

    def value(self, S, a):
        return None

    def hints(self, S0, S1, a, r):
        return []

    def ghost(self, S0, S1, a, r):
        return {}

    def entry_hints(self, S, a):
        return []

    def axioms(self, ctx):
        return []

    def __init__(self, I=None):
        pass


class Result:
    def __init__(self, con):
        self.con = con
        self.obls, self.covers = [], []
        self.unsupported = None
        self.axioms = []
        self.status = {}
        self.trusted, self.inlined, self.used = set(), set(), set()
        self.seconds = 0.0
        self.frames = 0


def local_names(fn):
    """Locals of a function in order of first binding."""
    out = []
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.add(fn.args.kwarg.arg)

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out and n.id not in params:
                out.append(n.id)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_ListComp

        def visit_Assign(self, n):
            self.visit(n.value)
            for t in n.targets:
                self.visit(t)

        def visit_For(self, n):
            self.visit(n.iter)
            self.visit(n.target)
            for x in n.body + n.orelse:
                self.visit(x)
    w = W()
    for st in fn.body:
        w.visit(st)
    return out


def loop_kinds(fn):
    """Kinds of the loops of a function in the order in which annotations are attached."""
    out = []

    class W(ast.NodeVisitor):
        def visit_For(self, n):
            out.append('for')
            self.generic_visit(n)

        def visit_While(self, n):
            out.append('while')
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)
    W().visit(fn)
    return out


def rename_map(ref, cur):
    """Map names of the reference source to the current ones (pure renamings only)."""
    if ref is None or ref == cur:
        return {}
    m = {}
    missing = [n for n in ref if n not in cur]
    new = [n for n in cur if n not in ref]
    if len(missing) == len(new):
        m = dict(zip(missing, new))
    return m


def build(prog, schema, contracts, con, reflocals=None):
    """Generate the obligations of one function."""
    R = Result(con)
    t0 = time.time()
    ctx = Ctx(schema, con.strings)
    I = Interpreter(prog, ctx, schema, contracts, target=con)
    I.init_heap = {}
    I.trivial = 0
    R.interp = I
    con.ctx = ctx
    con.I = I
    try:
        fi = prog.func(con.qual)
        if fi is None:
            raise Unsupported(f'function {con.qual} not found in the current source')
        R.fi = fi
        ctx.axioms.extend(con.axioms(ctx))
        pos, kwonly, vararg, kwarg = I.params_of(fi)
        actual = pos + kwonly
        names = list(con.params)
        if len(names) != len(actual):
            raise Unsupported(f'{con.qual}: the parameters changed: {actual}')
        I.rename = dict(zip(names, actual))
        ref = (reflocals or {}).get(con.qual)
        if ref is not None:
            if ref['loops'] != loop_kinds(fi.node):
                raise Unsupported(f'{con.qual}: the loop annotations were written for another loop structure {ref["loops"]}, now {loop_kinds(fi.node)}')
            I.rename.update(rename_map(ref['locals'], local_names(fi.node)))
        st = State()
        env, A = {}, {}
        for n, an in zip(names, actual):
            v = I.fresh_of(st, con.params[n], n)
            if isinstance(v, VList) and con.params[n].cls != 'list':
                st.cells[v.cell] = st.cells[v.cell].copy(attrs=schema.list_attrs(I, st, con.params[n].cls))
            env[an] = v
            A[n] = v
        if kwarg is not None:
            env[kwarg.arg] = VKwargs()
        if vararg is not None:
            env[vararg.arg] = VTuple([])
        if con.generator:
            env['$yield'] = I.newlist(st, z3.IntVal(0), None, None)
        st.env = env
        # explicit None for nullable parameters is covered by the nullable term itself
        a = Args({n: I.spec_val(st, v, con.params[n]) for n, v in A.items()})
        a._v = A
        I.A0 = a
        S0 = SView(I, {})
        I.S0 = S0
        I.hget(st, '@alloc')
        for n, v in A.items():
            if isinstance(v, VRef):
                st.assume(z3.Or(v.e == ctx.null, I.hget(st, '@alloc')[v.e]))
        for label, f in con.requires(S0, a):
            st.assume(f)
        R.covers.append(('requires-satisfiable', list(st.pc)))
        I.frames = [fi]
        I.steps(st, con.entry_hints(S0, a), 'entry', fi.node.lineno)
        body = fi.node.body
        nret = 0
        for s, v in I.run_body(st, body):
            S0v = SView(I, dict(I.init_heap))
            s = s.copy()
            if isinstance(v, Exc):
                I.steps(s, [('restore',)], 'raise', None)
            if con.generator and not isinstance(v, Exc):
                v = s.env['$yield']
            if isinstance(v, Exc):
                matched = False
                clauses = con.raises(S0v, a)
                alts = [c for cls, c in clauses if cls == v.cls or I.exc_matches(v, [cls])]
                I.line = v.line
                S1 = SView(I, dict(s.heap))
                if any(v.cls == m or I.exc_matches(v, [m]) for m in con.may_raise):
                    matched = True
                if not matched:
                    goal = z3.Or(alts) if alts else z3.BoolVal(False)
                    why = f' {v.args[0]}' if v.implicit and v.args and isinstance(v.args[0], str) else ''
                    I.oblige(s, f'exception-allowed:{v.cls}{why}', goal, v.line)
                    if not alts:
                        continue    # the path must be impossible
                I.steps(s, con.exc_hints(S0v, S1, a, v.cls) if hasattr(con, 'exc_hints') else [], 'raise', v.line)
                for label, f in con.exc_ensures(S0v, S1, a, v.cls):
                    I.oblige(s, f'on-exception:{label}', f, v.line)
                frame(I, s, con, con.exc_modifies, 'on-exception-')
                continue
            nret += 1
            I.line = fi.node.end_lineno
            res = [(s, v)]
            if con.ret is not None and con.ret != NoneT:
                res = I.coerce(s, v, con.ret, None)
            for s2, r in res:
                if isinstance(r, Exc):
                    I.oblige(s2, 'result-type', False)
                    continue
                s2 = s2.copy()
                u = s2.extra.get('uninit')
                if u and not getattr(con, 'allow_uninit', False):
                    I.oblige(s2, 'object-initialised', False)
                rs = I.spec_val(s2, r, con.ret)
                a1 = Args(dict(a._d))
                a1._v, a1.I, a1.st, a1.rv = A, I, s2, r
                a1.loopg = s2.extra
                a1.post = {p: I.spec_val(s2, A[p], None) for p in con.modifies_args}
                S1 = SView(I, dict(s2.heap))
                for key, val in con.ghost(S0v, S1, a1, rs).items():
                    I.hget(s2, key)
                    if isinstance(val, tuple):
                        for f in val[1]:
                            s2.assume(f)
                        val = val[0]
                    s2.heap[key] = val
                S1 = SView(I, dict(s2.heap))
                I.steps(s2, con.hints(S0v, S1, a1, rs), 'exit', None)
                I.steps(s2, [('restore',)], 'exit', None)
                for cls, cnd in con.raises(S0v, a):
                    I.oblige(s2, f'must-raise:{cls}', z3.Not(cnd))
                for label, f in con.ensures(S0v, S1, a1, rs):
                    I.oblige(s2, f'ensures:{label}', f)
                frame(I, s2, con, con.modifies, '')
                R.covers.append((f'exit-{nret}-reachable', list(s2.pc)))
        if ref is None and I.loops_seen_n() < (max(con.loops) + 1 if con.loops else 0):
            raise Unsupported(f'{con.qual}: {max(con.loops) + 1} loop annotations but only {I.loops_seen_n()} loops')
    except Unsupported as e:
        R.unsupported = str(e)
    except z3.Z3Exception as e:
        R.unsupported = f'engine: {e}'
    R.obls = I.obls
    R.axioms = list(ctx.axioms) + ctx.lit_axioms() + lit_pred_facts(ctx)
    R.trusted, R.inlined, R.used = set(ctx.trusted), set(ctx.inlined), set(ctx.used_contracts)
    R.gen_seconds = time.time() - t0
    return R


def lit_pred_facts(ctx):
    out = []
    if ctx.strmode == 'z3':
        return out
    for p, f in getattr(ctx, 'lit_preds', {}).items():
        for s, c in list(ctx.lits.items()):
            for t, d in list(ctx.lits.items()):
                r = s.startswith(t) if p == 'startswith' else s.endswith(t)
                out.append(f(c, d) == r)
    return out


def loops_seen_n(self):
    return getattr(self, 'loops_seen', 0)


Interpreter.loops_seen_n = loops_seen_n


def frame(I, s, con, modifies, prefix):
    for key, arr in sorted(s.heap.items()):
        old = I.init_heap.get(key)
        if old is None or arr.eq(old):
            continue
        if any(key == m or (m.endswith('*') and key.startswith(m[:-1])) for m in modifies):
            continue
        if key == '@alloc':
            I.oblige(s, f'{prefix}unchanged:@alloc', False)
            continue
        x = z3.Const('x!frame', I.ctx.Ref)
        if s.extra.get('new'):
            g = z3.ForAll([x], z3.Implies(I.init_heap['@alloc'][x], arr[x] == old[x]))
        else:
            g = z3.ForAll([x], arr[x] == old[x])
        if key.endswith('#e'):
            # only the first n elements are observable
            n1 = s.heap.get(key[:-1] + 'n', I.init_heap.get(key[:-1] + 'n'))
            if n1 is not None:
                j = z3.Int('j!frame')
                cond = z3.And(0 <= j, j < n1[x])
                if s.extra.get('new'):
                    cond = z3.And(cond, I.init_heap['@alloc'][x])
                g = z3.ForAll([x, j], z3.Implies(cond, arr[x][j] == old[x][j]))
        I.oblige(s, f'{prefix}unchanged:{key}', g)


# ---------------------------------------------------------------- solving
_JOBS = []
# Solver effort is limited by deterministic resource counts, not by time, so that a verdict does not depend on the
# speed of the machine; `hard` is only a safety net (seconds; an obligation stopped by it is undecided, not failed).
SOLVE_CFG = {'r0': 12_000_000, 'r1': 40_000_000, 'r2': 100_000_000, 'c1': 400_000, 'c2': 2_000_000, 'hard': 150, 'quick_only': False}


def nnf_goal(goal):
    return z3.Not(goal)


def solve_one(i):
    R, ob = _JOBS[i]
    t0 = time.time()
    name = ob.name
    fs = R.axioms + ob.pc + [z3.Not(ob.goal)]
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        return i, 'discharged', 'simplifier', 0.0, ''
    if any(f.eq(ob.goal) for f in ob.pc):
        return i, 'discharged', 'assumption', 0.0, ''

    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()

    def attempt(opts, timeout, simple=False):
        # a new context: the verdict depends on the obligation only, not on what was generated before it
        s = (z3.SimpleSolver if simple else z3.Solver)(ctx=z3.Context())
        s.set('rlimit', timeout)
        for k, v in opts.items():
            s.set(k, v)
        s.from_string(txt)
        r = s.check()
        return r, s

    why = ''
    stringy = R.con.strings == 'z3'
    base = {'auto_config': False, 'smt.mbqi': False}
    C = SOLVE_CFG
    plans = [(base, C['r0'], 'z3'), (base, C['r0'], 'z3/simple'), ('cvc5', C['c1'], 'cvc5'), (base, C['r1'], 'z3'),
             (dict(base, **{'smt.random_seed': 7, 'smt.arith.solver': 2}), C['r1'], 'z3/seed7'),
             (dict(base, **{'smt.random_seed': 3, 'smt.qi.eager_threshold': 100.0}), C['r1'], 'z3/eager'),
             ('cvc5', C['c2'], 'cvc5'), ({}, C['r2'], 'z3/auto')]
    if stringy:
        plans = [(base, C['r0'] // 4, 'z3'), ('cvc5', C['c1'], 'cvc5'), ({}, C['r1'], 'z3/auto'), (base, C['r1'], 'z3')]
    if C['quick_only']:
        plans = plans[:2]
    verdict = 'unknown'
    for opts, tmo, be in plans:
        try:
            if opts == 'cvc5':
                r = cvc5(txt, tmo)
                if r == 'unsat':
                    return i, 'discharged', be, time.time() - t0, ''
                continue
            r, s = attempt(opts, tmo, be == 'z3/simple')
        except Exception as e:      # noqa
            why = str(e)
            continue
        if r == z3.unsat:
            return i, 'discharged', be, time.time() - t0, ''
        if r == z3.sat:
            verdict = 'refuted'
            try:
                why = str(s.model())[:3000]
            except z3.Z3Exception:
                why = 'sat'
            if not any(has_quant(f) for f in fs):
                return i, 'refuted', be, time.time() - t0, why
        else:
            why = why or s.reason_unknown()
    return i, verdict, 'z3+cvc5', time.time() - t0, why


def cvc5(txt, rlimit):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        p = f.name
    try:
        o = subprocess.run(['cvc5', f'--rlimit={rlimit}', p], capture_output=True, text=True, timeout=60)
        return o.stdout.strip().split('\n')[0] if o.stdout.strip() else 'error'
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(p)


def cover_one(i):
    R, (name, pc) = _COVERS[i]
    t0 = time.time()
    s = z3.Solver()
    s.set('rlimit', 6_000_000)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.add(*(R.axioms + pc))
    r = s.check()
    return i, ('vacuous' if r == z3.unsat else 'ok'), time.time() - t0


_COVERS = []


def solve_all(results, procs=8, deadline=None, fastfail=True):
    global _JOBS, _COVERS
    gc.collect()
    gc.freeze()
    _JOBS = [(R, ob) for R in results for ob in R.obls]
    _COVERS = [(R, c) for R in results for c in R.covers]
    for R in results:
        R.status, R.cov = [], []
    t0 = time.time()
    done = run_jobs(solve_one, len(_JOBS), procs, deadline, SOLVE_CFG['hard'])
    for k, (R, ob) in enumerate(_JOBS):
        if k in done:
            i, verdict, be, secs, why = done[k]
            R.status.append((ob, verdict, be, secs, why))
        else:
            R.status.append((ob, 'unknown', 'none', 0.0, 'time budget exhausted'))
    done = run_jobs(cover_one, len(_COVERS), procs, deadline, 10)
    for k, (R, c) in enumerate(_COVERS):
        R.cov.append((c[0], done[k][1] if k in done else 'ok'))
    return time.time() - t0


def _job(fn, i, conn):
    try:
        r = fn(i)
    except BaseException as e:      # noqa
        r = (i, 'unknown', 'none', 0.0, f'{type(e).__name__}: {e}')
    conn.send(r)
    conn.close()
    os._exit(0)


def run_jobs(fn, n, procs, deadline, hard):
    """Run fn(0..n-1), each in its own forked process (the verdict does not depend on the jobs run before it);
    a job that runs longer than `hard` seconds is killed and left out."""
    from multiprocessing.connection import wait
    ctxm = mp.get_context('fork')
    todo = list(range(n))[::-1]
    res, busy = {}, {}
    try:
        while todo or busy:
            if deadline is not None and time.time() > deadline:
                break
            while todo and len(busy) < procs:
                i = todo.pop()
                a, b = ctxm.Pipe(False)
                p = ctxm.Process(target=_job, args=(fn, i, b), daemon=True)
                p.start()
                b.close()
                busy[a] = (i, p, time.time())
            for c in wait(list(busy), timeout=0.5):
                i, p, _ = busy.pop(c)
                try:
                    r = c.recv()
                    res[r[0]] = r
                except (EOFError, OSError):
                    pass
                c.close()
                p.join()
            now = time.time()
            for c, (i, p, t) in list(busy.items()):
                if now - t > hard:
                    p.kill()
                    p.join()
                    c.close()
                    del busy[c]
    finally:
        for c, (i, p, t) in busy.items():
            p.kill()
    return res
