"""Statements and loops."""
import ast
import z3
from .core import *
from .core import _cnt
from .interp import has_quant, Outcome, NORMAL, BUILTIN_EXC
from .evalx import VExc, VUnbound, VGen, FA, fv
from .callx import Calls, SView, Args, LV


class LoopView:
    """What a loop invariant may talk about."""

    def __init__(self, I, st, i, n, spec, pre, pre_st, g, node):
        self.I, self.st, self.i, self.n = I, st, i, n
        self.S = SView(I, dict(st.heap))
        self.spec, self._pre, self.pre_st, self.g, self.node = spec, pre, pre_st, g, node
        self.Sp = SView(I, dict(pre_st.heap))
        self.S0 = I.S0
        self.a = I.A0

    def v(self, name):
        """Spec value of a local variable (by its name in the reference source)."""
        nm = self.I.localname(name)
        v = self.st.env.get(nm)
        if v is None:
            raise Unsupported(f'invariant needs the local variable {name}')
        return self.I.spec_val(self.st, v, None)

    def raw(self, name):
        return self.st.env.get(self.I.localname(name))

    def has(self, name):
        v = self.st.env.get(self.I.localname(name))
        return v is not None and not isinstance(v, VUnbound)

    def pre(self, name):
        v = self.pre_st.env.get(self.I.localname(name))
        if v is None:
            raise Unsupported(f'invariant needs the local variable {name}')
        return self.I.spec_val(self.pre_st, v, None)

    def item(self, j):
        """Spec value of the j-th item of the iterated sequence."""
        return self.I.spec_val(self.st, self.getter(j), None)


class Loop:
    """Loop annotation. Override inv (list of (label, formula)); optionally variant, ghost_init, ghost_step, steps."""
    def __init__(self, inv=None, variant=None, ghost_init=None, ghost_step=None, hints=None, types=None, exit_hints=None, entry=None, focus=None):
        self._inv, self._variant, self._gi, self._gs, self._hints = inv, variant, ghost_init, ghost_step, hints
        self._exit, self._entry, self._focus = exit_hints, entry, focus
        self.types = types or {}

    def inv(self, L):
        return self._inv(L) if self._inv else []

    def variant(self, L):
        return self._variant(L) if self._variant else None

    def ghost_init(self, L):
        return self._gi(L) if self._gi else {}

    def ghost_step(self, L0, L1):
        return self._gs(L0, L1) if self._gs else L0.g

    def hints(self, L0, L1):
        """Proof steps before re-establishing the invariant."""
        return self._hints(L0, L1) if self._hints else []

    def entry(self, L):
        """Proof steps before the loop."""
        return self._entry(L) if self._entry else []

    def focus(self, L):
        """Facts proved before the loop; inside the body only these, the quantifier-free facts and the invariant are used
        (dropping assumptions is sound; after the loop all facts are available again)."""
        return self._focus(L) if self._focus else None

    def exit_hints(self, L):
        return self._exit(L) if self._exit else []


class Exec(Calls):

    def ex(self, st, body):
        res = [(st, NORMAL)]
        for stmt in body:
            nxt = []
            for s, o in res:
                if o.kind != 'normal':
                    nxt.append((s, o))
                    continue
                self.line = stmt.lineno
                m = getattr(self, 'st_' + type(stmt).__name__, None)
                if m is None:
                    raise Unsupported(f'statement {type(stmt).__name__}', stmt)
                nxt.extend(m(s, stmt))
            res = nxt
            self.paths = max(self.paths, len(res))
            if len(res) > 400:
                raise Unsupported('too many paths', stmt)
        return res

    def lift(self, res, f):
        """Expression results -> statement results."""
        out = []
        for s, v in res:
            if isinstance(v, Exc):
                out.append((s, Outcome('raise', v)))
            else:
                out.extend(f(s, v))
        return out

    def norm(self, res):
        return [(s, Outcome('raise', v) if isinstance(v, Exc) else NORMAL) for s, v in res]

    def st_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return [(st, NORMAL)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.st_yield(st, n.value)
        return self.norm(self.ev(st, n.value))

    def st_yield(self, st, n):
        """Generator under verification: the yielded sequence is collected in the ghost list '$yield'."""
        if '$yield' not in st.env:
            raise Unsupported('yield', n)
        if isinstance(n, ast.YieldFrom):
            return self.norm(self.bind(self.ev(st, n.value), lambda s, v: self.li_extend(s, s.env['$yield'], [v], {}, n)))
        return self.norm(self.bind(self.ev(st, n.value), lambda s, v: self.li_append(s, s.env['$yield'], [v], {}, n)))

    def st_Pass(self, st, n):
        return [(st, NORMAL)]

    st_Global = st_Pass
    st_Nonlocal = st_Pass

    def st_Import(self, st, n):
        s = st.copy()
        for a in n.names:
            m = self.prog.module(a.name)
            s.env[a.asname or a.name.split('.')[0]] = VModule(a.name if a.asname else a.name.split('.')[0], m)
        return [(s, NORMAL)]

    def st_ImportFrom(self, st, n):
        s = st.copy()
        for a in n.names:
            m = self.prog.module(n.module)
            if m is None:
                s.env[a.asname or a.name] = VModule(f'{n.module}.{a.name}')
            else:
                r = self.prog.resolve(m, a.name)
                if r is None:
                    sub = self.prog.module(f'{n.module}.{a.name}')
                    s.env[a.asname or a.name] = VModule(f'{n.module}.{a.name}', sub)
                else:
                    s.env[a.asname or a.name] = self.entity(s, r, a.name, n)
        return [(s, NORMAL)]

    def st_FunctionDef(self, st, n):
        s = st.copy()
        s.env[n.name] = VLambda(n, s.env, self.frames[-1])
        return [(s, NORMAL)]

    def st_Return(self, st, n):
        if n.value is None:
            return [(st, Outcome('return', VNone()))]
        return self.lift(self.ev(st, n.value), lambda s, v: [(s, Outcome('return', self.materialize(s, v, n)))])

    def materialize(self, s, v, n):
        return v

    def st_Break(self, st, n):
        return [(st, Outcome('break'))]

    def st_Continue(self, st, n):
        return [(st, Outcome('continue'))]

    def st_Raise(self, st, n):
        if n.exc is None:
            e = st.extra.get('curexc')
            if e is None:
                raise Unsupported('bare raise', n)
            return [(st, Outcome('raise', e))]

        def f(s, v):
            if isinstance(v, VClass):
                return [(s, Outcome('raise', Exc(v.name, (), n.lineno)))]
            if isinstance(v, VExc):
                return [(s, Outcome('raise', Exc(v.cls, v.args, n.lineno)))]
            if isinstance(v, VOpaque):
                return [(s, Outcome('raise', Exc('Exception', (), n.lineno)))]
            raise Unsupported('raise', n)
        return self.lift(self.ev(st, n.exc), f)

    def st_Assert(self, st, n):
        out = []
        for s, b in self.cond(st, n.test):
            if isinstance(b, Exc):
                out.append((s, Outcome('raise', b)))
                continue
            for s2, tv in self.split(s, b):
                out.append((s2, NORMAL if tv else Outcome('raise', Exc('AssertionError', (), n.lineno))))
        return out

    def st_If(self, st, n):
        out = []
        for s, b in self.cond(st, n.test):
            if isinstance(b, Exc):
                out.append((s, Outcome('raise', b)))
                continue
            for s2, tv in self.split(s, b):
                self.line = n.lineno
                out.extend(self.ex(s2, n.body if tv else n.orelse))
        return out

    def st_Assign(self, st, n):
        def f(s, v):
            res = [(s, NORMAL)]
            for t in n.targets:
                nxt = []
                for s1, o in res:
                    if o.kind != 'normal':
                        nxt.append((s1, o))
                    else:
                        nxt.extend(self.assign(s1, t, v, n))
                res = nxt
            return res
        return self.lift(self.ev(st, n.value), f)

    def st_AnnAssign(self, st, n):
        if n.value is None:
            return [(st, NORMAL)]
        return self.lift(self.ev(st, n.value), lambda s, v: self.assign(s, n.target, v, n))

    def assign(self, st, t, v, n):
        if isinstance(v, VGen):
            return self.lift(self.bi_list(st, [v], {}, n), lambda s, x: self.assign(s, t, x, n))
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env[t.id] = v
            return [(s, NORMAL)]
        if isinstance(t, ast.Attribute):
            return self.lift(self.ev(st, t.value), lambda s, o: self.norm(self.setattr_(s, o, t.attr, v, n)))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment', n)
            if isinstance(t.value, ast.Subscript) and not isinstance(t.value.slice, ast.Slice):
                def f(s, vs):
                    if not self.is_table(s, vs[0]):
                        return self.bind(self.getitem(s, vs[0], vs[1], t.value), lambda s2, b: self.bind(
                            self.ev(s2, t.slice), lambda s3, i: self.setitem(s3, b, i, v, n)))
                    return self.bind(self.ev(s, t.slice), lambda s2, j: self.table_set(s2, vs[0], vs[1], j, v, n))
                return self.lift(self.evs(st, [t.value.value, t.value.slice]), lambda s, vs: self.norm(f(s, vs)))
            return self.lift(self.evs(st, [t.value, t.slice]), lambda s, vs: self.norm(self.setitem(s, vs[0], vs[1], v, n)))
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t, v, n)
        raise Unsupported('assignment target', n)

    def unpack(self, st, t, v, n):
        if isinstance(v, VAny):
            return self.lift(self.unbox(st, v), lambda s, x: self.unpack(s, t, x, n))
        if isinstance(v, VTuple):
            if len(v.items) != len(t.elts):
                return [(st, Outcome('raise', self.exc('ValueError', n)))]
            res = [(st, NORMAL)]
            for tt, x in zip(t.elts, v.items):
                nxt = []
                for s, o in res:
                    nxt.extend(self.assign(s, tt, x, n) if o.kind == 'normal' else [(s, o)])
                res = nxt
            return res
        if isinstance(v, VOpaque):
            return self.unpack(st, t, VTuple([VOpaque('part') for _ in t.elts]), n)

        def f(s, vw):
            if vw.what == 'empty':
                return [(s, Outcome('raise', self.exc('ValueError', n)))]
            out = []
            for s2, b in self.split(s, vw.n == len(t.elts)):
                if b:
                    out.extend(self.unpack(s2, t, VTuple([vw.get(z3.IntVal(k)) for k in range(len(t.elts))]), n))
                else:
                    out.append((s2, Outcome('raise', self.exc('ValueError', n))))
            return out
        return self.lift(self.iter_view(st, v, n), f)

    def st_AugAssign(self, st, n):
        t = n.target
        op = type(n.op).__name__
        load = ast.copy_location(self.as_load(t), n)

        def f(s, vs):
            cur, val = vs
            if op == 'Add' and isinstance(cur, VList) and not isinstance(val, VOpaque):
                # in-place extension
                return self.lift(self.li_extend(s, cur, [val], {}, n), lambda s2, _: self.assign_same(s2, t, cur, n))
            if isinstance(val, VGen):
                raise Unsupported('augmented assignment', n)
            return self.lift(self.binop(s, op, cur, val, n), lambda s2, r: self.assign(s2, t, r, n))
        return self.lift(self.evs(st, [load, n.value]), f)

    def assign_same(self, s, t, cur, n):
        if isinstance(t, ast.Name):
            return [(s, NORMAL)]
        # x.f += [...] : the list object stays the same (assignment to itself)
        return self.assign(s, t, cur, n)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        raise Unsupported('augmented target', t)

    def st_Delete(self, st, n):
        res = [(st, NORMAL)]
        for t in n.targets:
            nxt = []
            for s, o in res:
                if o.kind != 'normal':
                    nxt.append((s, o))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.lift(self.evs(s, [t.value, t.slice]),
                                         lambda s2, vs: self.norm(self.delitem(s2, vs[0], vs[1], n))))
                elif isinstance(t, ast.Name):
                    s2 = s.copy()
                    s2.env[t.id] = VUnbound()
                    nxt.append((s2, NORMAL))
                else:
                    raise Unsupported('del', n)
            res = nxt
        return res

    def st_With(self, st, n):
        res = [(st, NORMAL)]
        for item in n.items:
            nxt = []
            for s, o in res:
                if o.kind != 'normal':
                    nxt.append((s, o))
                    continue
                def f(s2, v):
                    if item.optional_vars is not None:
                        return self.assign(s2, item.optional_vars, v, n)
                    return [(s2, NORMAL)]
                nxt.extend(self.lift(self.ev(s, item.context_expr), f))
            res = nxt
        out = []
        for s, o in res:
            out.extend(self.ex(s, n.body) if o.kind == 'normal' else [(s, o)])
        return out

    # ------------------------------------------------------------ exceptions
    def exc_matches(self, e, names):
        chain = []
        c = e.cls
        ci = self.schema.exc_class(self.prog, c)
        if ci is not None:
            chain = [m if isinstance(m, str) else m.name for m in self.prog.mro(ci)]
            last = chain[-1]
            while last in BUILTIN_EXC and BUILTIN_EXC[last]:
                last = BUILTIN_EXC[last]
                chain.append(last)
        else:
            while c:
                chain.append(c)
                c = BUILTIN_EXC.get(c)
        return any(nm in chain for nm in names)

    def st_Try(self, st, n):
        out = []
        for s, o in self.ex(st, n.body):
            if o.kind == 'normal':
                out.extend(self.ex(s, n.orelse))
                continue
            if o.kind != 'raise':
                out.append((s, o))
                continue
            handled = False
            for h in n.handlers:
                if h.type is None:
                    names = ['BaseException']
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(t).split('.')[-1] for t in ts]
                if o.val.cls in ('TypedHeapViolation', 'OwnershipViolation'):
                    break
                if self.exc_matches(o.val, names):
                    s2 = s.copy()
                    if h.name:
                        s2.env[h.name] = VExc(o.val.cls, o.val.args)
                    prev = s2.extra.get('curexc')
                    s2.extra = dict(s2.extra, curexc=o.val)
                    for s3, o3 in self.ex(s2, h.body):
                        s3.extra = dict(s3.extra, curexc=prev)
                        out.append((s3, o3))
                    handled = True
                    break
            if not handled:
                out.append((s, o))
        if n.finalbody:
            res = []
            for s, o in out:
                for s2, o2 in self.ex(s, n.finalbody):
                    res.append((s2, o if o2.kind == 'normal' else o2))
            return res
        return out

    # ------------------------------------------------------------ loops
    def loop_spec(self, node):
        key = id(node)
        if key not in self.loop_ids:
            self.loop_ids[key] = len(self.loop_ids)
        k = self.loop_ids[key]
        loops = self.target.loops if self.target is not None else {}
        self.loops_seen = max(getattr(self, 'loops_seen', 0), k + 1)
        return loops.get(k), k

    def st_For(self, st, n):
        def f(s, itv):
            return self.for_over(s, n, itv)
        return self.lift(self.ev(st, n.iter), f)

    def for_over(self, st, n, itv):
        if isinstance(itv, VAny):
            return self.lift(self.unbox(st, itv), lambda s, x: self.for_over(s, n, x))
        spec, k = self.loop_spec(n)
        if isinstance(itv, VTuple):
            return self.unroll(st, n, itv.items)
        if isinstance(itv, VView) and itv.what == 'enumerate-live':
            return self.loop(st, n, spec, k, live=itv.lst, enum=itv.start)
        if isinstance(itv, VList):
            if self.lelem(st, itv) is None:
                return self.ex(st, n.orelse)
            return self.loop(st, n, spec, k, live=itv)
        return self.lift(self.iter_view(st, itv, n),
                         lambda s, vw: self.ex(s, n.orelse) if vw.what == 'empty' else self.loop(s, n, spec, k, view=vw))

    def unroll(self, st, n, items):
        res = [st]
        out = []
        for it in items:
            nxt = []
            for s in res:
                for s1, o1 in self.assign(s, n.target, it, n):
                    for s2, o2 in (self.ex(s1, n.body) if o1.kind == 'normal' else [(s1, o1)]):
                        if o2.kind in ('normal', 'continue'):
                            nxt.append(s2)
                        elif o2.kind == 'break':
                            out.append((s2, NORMAL))
                        else:
                            out.append((s2, o2))
            res = nxt
        for s in res:
            out.extend(self.ex(s, n.orelse))
        return out

    def st_While(self, st, n):
        spec, k = self.loop_spec(n)
        return self.loop(st, n, spec, k)

    # modified-set analysis by a dry run
    def diff(self, s0, s1, mods):
        ch = False
        for k, v in s1.env.items():
            if k not in s0.env or s0.env[k] is not v:
                if k in s0.env and self.same_v(s0.env[k], v):
                    continue
                if k not in mods['env']:
                    mods['env'][k] = []
                    ch = True
                mods['env'][k].append((s1, v))
        for k, a in s1.heap.items():
            b = s0.heap.get(k)
            if b is None:
                b = self.init_heap.get(k)
            if b is None or not a.eq(b):
                if k not in mods['heap']:
                    mods['heap'].add(k)
                    ch = True
        for i, c in s1.cells.items():
            c0 = s0.cells.get(i)
            if c0 is None or c0 is c:
                continue
            if c0.loc != c.loc and not (isinstance(c0.loc, tuple) and isinstance(c.loc, tuple)):
                raise Unsupported('a container changes its owner inside a loop')
            same = c0.elem == c.elem and all(self.same_e(getattr(c0, x), getattr(c, x)) for x in ('n', 'arr', 'has', 'val'))
            if not same or c0.attrs is not c.attrs and c0.attrs != c.attrs:
                if i not in mods['cells']:
                    mods['cells'][i] = []
                    ch = True
                mods['cells'][i].append(c)
        for g in ('ghosts',):
            pass
        return ch

    def same_e(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, int) or isinstance(b, int):
            return a == b if isinstance(a, int) and isinstance(b, int) else str(a) == str(b)
        return a.eq(b)

    def same_v(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, (VInt, VReal, VBool, VStr)):
            return a.e.eq(b.e)
        if isinstance(a, VRef):
            return a.e.eq(b.e) and a.classes == b.classes and a.nullable == b.nullable
        if isinstance(a, VAny):
            return a.e.eq(b.e)
        if isinstance(a, (VList, VDict, VSet)):
            return a.cell == b.cell
        if isinstance(a, VTuple):
            return len(a.items) == len(b.items) and all(self.same_v(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VNone):
            return True
        return a is b

    def havoc(self, st, mods, spec):
        """A fresh state describing any iteration (no facts)."""
        c = self.ctx
        s = st.copy()
        for k in sorted(mods['heap']):
            self.havoc_key(s, k)
        for i, cs in mods['cells'].items():
            c0 = s.cells[i]
            if isinstance(c0.loc, tuple):
                continue
            t = c0.elem
            for x in cs:
                t = self.join_t(t, x.elem)
            if spec is not None:
                for k, ty in spec.types.items():      # declared type of the container in a local variable
                    v = st.env.get(k)
                    if isinstance(v, (VList, VDict)) and v.cell == i:
                        t = ty.val if isinstance(ty, DictT) else ty.elem
            if c0.kind == 'list':
                n = c.fresh('ln', z3.IntSort())
                s.assume(n >= 0)
                s.cells[i] = c0.copy(n=n, arr=c.fresh('le', z3.ArraySort(z3.IntSort(), c.sort(t))) if t is not None else None, elem=t)
            elif c0.kind == 'set':
                s.cells[i] = c0.copy(has=c.fresh('sh', z3.ArraySort(c.sort(t), z3.BoolSort())), elem=t)
            else:
                kt = c0.keyT
                for x in cs:
                    kt = self.join_t(kt, x.keyT)
                n = c.fresh('dn', z3.IntSort())
                s.assume(n >= 0)
                s.cells[i] = c0.copy(n=n, keyT=kt, elem=t, has=c.fresh('dh', z3.ArraySort(c.sort(kt), z3.BoolSort())),
                                     val=c.fresh('dv', z3.ArraySort(c.sort(kt), c.sort(t))),
                                     arr=c.fresh('dk', z3.ArraySort(z3.IntSort(), c.sort(kt))))
        for k, vals in mods['env'].items():
            if k in mods['skip']:
                continue
            s.env[k] = self.havoc_var(s, k, st.env.get(k), vals, spec)
        return s

    def havoc_var(self, s, k, old, vals, spec):
        if spec is not None and k in spec.types:
            return self.fresh_of(s, spec.types[k], k)
        allv = [v for _, v in vals] + ([old] if old is not None and not isinstance(old, VUnbound) else [])
        if all(isinstance(v, VOpaque) for v in allv):
            return VOpaque('havoc')
        lists = [v for v in allv if isinstance(v, VList)]
        if lists:
            if len(lists) != len(allv):
                return VOpaque('havoc')
            t, cls, locs = None, None, set()
            for st1, v in [(x, y) for x, y in vals] + ([(s, old)] if isinstance(old, VList) else []):
                c = st1.cells.get(v.cell)
                if c is None or isinstance(c.loc, tuple):
                    return VUnbound() if old is None or isinstance(old, VUnbound) else VOpaque('list in a field')
                t, cls = self.join_t(t, c.elem), c.cls
            if t is None:
                return self.newlist(s, z3.IntVal(0), None, None, cls)
            return self.fresh_of(s, ListT(t, cls), k)
        if all(isinstance(v, VSet) for v in allv) or all(isinstance(v, VDict) for v in allv):
            return VUnbound() if old is None else VOpaque('container')
        if any(isinstance(v, (VFunc, VLambda, VClass, VModule, VBuiltin, VKwargs, VExc, VGen, VView, VOpaque, VDict, VSet)) for v in allv):
            return VOpaque('havoc')
        if all(isinstance(v, VNone) for v in allv):
            return VNone()
        try:
            t = None
            for st1, v in vals:
                t = self.join_t(t, self.typ(v, st1))
            if old is not None and not isinstance(old, VUnbound):
                t = self.join_t(t, self.typ(old, s))
        except Unsupported:
            return VOpaque('havoc')
        return self.fresh_of(s, t, k)

    def target_names(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    def loop(self, st, n, spec, k, view=None, live=None, enum=None):
        c = self.ctx
        isfor = isinstance(n, ast.For)
        if self.pure:
            raise Unsupported('loop under a quantifier', n)
        g0 = {}
        name = f'loop{k}'
        tnames = self.target_names(n.target) if isfor else set()
        mods = {'env': {}, 'heap': set(), 'cells': {}, 'skip': tnames}

        # ---- dry run to a fixpoint
        for rnd in range(6):
            s = self.havoc(st, mods, spec)
            self.dry += 1
            saved_ids, saved_line = dict(self.loop_ids), self.line
            try:
                outs = self.loop_body(s, n, view, live, enum, c.fresh('i', z3.IntSort()))
            finally:
                self.dry -= 1
            ch = False
            for s1, o, _ in outs:
                if o.kind in ('normal', 'continue'):
                    ch |= self.diff(s, s1, mods)
            if not ch:
                break
        else:
            raise Unsupported('loop effects do not stabilise', n)
        # containers living in a havoced heap key are covered by the key
        if live is not None:
            cell = st.cells[live.cell]
            frozen = not (live.cell in mods['cells'] or
                          isinstance(cell.loc, tuple) and (cell.loc[0] + '#n' in mods['heap'] or cell.loc[0] + '#e' in mods['heap']))
        else:
            frozen = True

        def getter_for(s):
            if view is not None:
                return view.n, view.get
            if live is not None:
                src = st if frozen else s
                ln, la = self.lnarr(src, live)
                t = self.lelem(s, live)
                return ln, (lambda j: self.decode(la[j], t, s))
            return None, None

        def mkview(s, i, g, pre=st):
            nn, get = getter_for(s)
            L = LoopView(self, s, i, nn, spec, st, st, g, n)
            L.getter = get
            return L

        zero = z3.IntVal(0)
        has = spec is not None
        if has:
            L = mkview(st, zero if isfor else None, {})
            g0 = spec.ghost_init(L)
            L.g = g0
            if not self.dry:
                st = st.copy()
                self.steps(st, spec.entry(L), f'{name}:entry', n.lineno)
                L = mkview(st, zero if isfor else None, g0)
                L.g = g0
            for label, f in spec.inv(L):
                self.oblige(st, f'{name}:initially:{label}', f, n.lineno)
        # ---- arbitrary iteration
        full, cut = None, None
        if has and not self.dry:
            foc = spec.focus(L)
            if foc is not None:
                for label, f in foc:
                    self.oblige(st, f'{name}:entry:{label}', f, n.lineno)
                full = list(st.pc)
                st_cut = st.copy()
                st_cut.pc = [f for f in full if not has_quant(f)] + [f for _, f in foc]
                cut = len(st_cut.pc)
        s = self.havoc(st_cut if cut is not None else st, mods, spec)
        g = {kk: c.fresh('gh_' + kk, v.sort()) for kk, v in g0.items()}
        i = c.fresh('i', z3.IntSort()) if isfor else None
        if isfor:
            s.assume(0 <= i)
            nn, _ = getter_for(s)
            if frozen:
                s.assume(i <= nn)
        for nm in tnames:
            s.env[nm] = VUnbound()
        if has:
            L = mkview(s, i, g)
            for label, f in spec.inv(L):
                s.assume(f)
            s.extra = dict(s.extra, mark=len(s.pc))
        out = []
        L0 = mkview(s, i, g)
        var0 = spec.variant(L0) if has else None
        if var0 is not None:
            pass
        for s1, o, phase in self.loop_body(s, n, view, live, enum, i, frozen_src=st if frozen else None):
            if cut is not None and (phase == 'exit' or o.kind not in ('normal', 'continue')):
                s1 = s1.copy()
                s1.pc = full + s1.pc[cut:]
            if phase == 'exit':
                s1 = s1.copy()
                if isfor:
                    s1.assume(i >= getter_for(s1)[0])
                    nn = getter_for(s1)[0]
                    s1 = self.after_target(s1, n, getter_for(s1), st)
                if has:
                    self.steps(s1, spec.exit_hints(mkview(s1, i, g)), f'{name}:exit', n.lineno)
                s1.extra = dict(s1.extra, **{f'g{k}': g, f'L{k}': mkview(s1, i, g)})
                out.extend(self.ex(s1, n.orelse))
            elif o.kind in ('normal', 'continue'):
                if has:
                    i1 = i + 1 if isfor else None
                    L1 = mkview(s1, i1, g)
                    L1.g = spec.ghost_step(L0, L1)
                    self.steps(s1, spec.hints(L0, L1), f'{name}:step', n.lineno)
                    for label, f in spec.inv(L1):
                        self.oblige(s1, f'{name}:preserved:{label}', f, n.lineno)
                    if var0 is not None:
                        v1 = spec.variant(L1)
                        self.oblige(s1, f'{name}:terminates', z3.And(var0 >= 0, v1 < var0), n.lineno)
            elif o.kind == 'break':
                s1.extra = dict(s1.extra, **{f'g{k}': g, f'i{k}': i, f'L{k}': mkview(s1, i, g)})
                out.append((s1, NORMAL))
            else:
                s1.extra = dict(s1.extra, **{f'g{k}': g, f'i{k}': i, f'L{k}': mkview(s1, i, g)})
                out.append((s1, o))
        if not isfor and has and var0 is None and not self.dry:
            self.ctx.trusted.add(f'termination of loop {k} of {self.target.qual} is not proved')
        return out

    def after_target(self, s, n, gt, st):
        """The loop variable after a for loop: the last item if there was one."""
        nn, get = gt
        for nm in self.target_names(n.target):
            s.env[nm] = st.env.get(nm, VUnbound())
        if isinstance(n.target, ast.Name) and self.used_after(n, n.target.id):
            v = get(nn - 1)
            old = st.env.get(n.target.id)
            if old is None:
                s.env[n.target.id] = v
            else:
                raise Unsupported('loop variable shadowing used after the loop', n)
        return s

    def used_after(self, loop, name):
        fn = self.frames[-1].node
        if fn is None:
            return False
        end = loop.end_lineno
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and x.lineno > end:
                # assigned again before (another loop or assignment)?
                for y in ast.walk(fn):
                    if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) and end < y.lineno <= x.lineno:
                        break
                    if isinstance(y, ast.comprehension) and any(isinstance(z, ast.Name) and z.id == name for z in ast.walk(y.target)) and y.target.lineno <= x.lineno:
                        break
                else:
                    return True
        return False

    def loop_body(self, s, n, view, live, enum, i, frozen_src=None):
        """One arbitrary iteration from state s: [(state, outcome, 'body'|'exit')]"""
        out = []
        if isinstance(n, ast.While):
            for s1, b in self.cond(s, n.test):
                if isinstance(b, Exc):
                    out.append((s1, Outcome('raise', b), 'body'))
                    continue
                for s2, tv in self.split(s1, b):
                    if tv:
                        out.extend((s3, o, 'body') for s3, o in self.ex(s2, n.body))
                    else:
                        out.append((s2, NORMAL, 'exit'))
            return out
        if view is not None:
            nn, item = view.n, view.get(i)
        else:
            src = frozen_src if frozen_src is not None else s
            nn, arr = self.lnarr(src, live)
            item = self.decode(arr[i], self.lelem(s, live), s)
            if enum is not None:
                item = VTuple([VInt(enum + i), item])
        out.append((s, NORMAL, 'exit'))
        s1 = s.copy().assume(i < nn, i >= 0)
        self.elem_facts(s1, item)
        for s2, o in self.assign(s1, n.target, item, n):
            if o.kind != 'normal':
                out.append((s2, o, 'body'))
                continue
            out.extend((s3, o3, 'body') for s3, o3 in self.ex(s2, n.body))
        return out

    # ------------------------------------------------------------ proof steps
    def steps(self, st, steps, prefix, line):
        """Proof steps: ('assert', label, formula) is proved, then assumed; ('assume-def', formula) introduces a
        definition of fresh symbols; ('induct', label, x, measure, body, pats) proves forall x. body by induction."""
        if callable(steps):
            steps = steps()
        for sp in steps or []:
            if sp[0] == 'assert':
                self.oblige(st, f'{prefix}:lemma:{sp[1]}', sp[2], line)
                st.assume(sp[2])
            elif sp[0] == 'by':
                # prove a fact from the listed ones, the quantifier-free ones and those of the current iteration
                _, label, goal, facts = sp
                pcs = {f.get_id() for f in st.pc}
                for k_, f in enumerate(facts):
                    if f.get_id() not in pcs:
                        self.oblige(st, f'{prefix}:lemma:{label}:from{k_}', f, line)
                m = min(st.extra.get('mark', len(st.pc)), len(st.pc))
                s2 = st.copy()
                s2.pc = [f for f in st.pc[:m] if not has_quant(f)] + list(facts) + st.pc[m:]
                self.oblige(s2, f'{prefix}:lemma:{label}', goal, line)
                st.assume(goal)
            elif sp[0] == 'cut':
                # prove the listed facts, then forget all other quantified ones (until 'restore' or the exit)
                for label, f in sp[1]:
                    self.oblige(st, f'{prefix}:lemma:{label}', f, line)
                st.extra = dict(st.extra, stash=st.extra.get('stash', ()) + tuple(f for f in st.pc if has_quant(f)))
                st.pc = [f for f in st.pc if not has_quant(f)] + [f for _, f in sp[1]]
            elif sp[0] == 'restore':
                st.pc = list(st.extra.get('stash', ())) + st.pc
                st.extra = dict(st.extra, stash=())
            elif sp[0] == 'define':
                st.assume(sp[1])
            elif sp[0] == 'induct':
                _, label, x, meas, body, pats = sp[:6]
                xs_ = x if isinstance(x, (list, tuple)) else [x]
                ys = [self.ctx.fresh('ind', x_.sort()) for x_ in xs_]
                sub = lambda f: z3.substitute(f, *zip(xs_, ys))
                hyp = z3.ForAll(list(xs_), z3.Implies(z3.And(meas >= 0, meas < sub(meas)), body), patterns=pats)
                s2 = st.copy().assume(hyp, sub(meas) >= 0)
                if len(sp) > 6:      # definitions (of trigger predicates that always hold) at the induction point
                    s2.assume(*sp[6](*ys))
                self.oblige(s2, f'{prefix}:lemma:{label}', sub(body), line)
                st.assume(z3.ForAll(list(xs_), z3.Implies(meas >= 0, body), patterns=pats))
            else:
                raise Unsupported(f'proof step {sp[0]}')

    # ------------------------------------------------------------ names
    def localname(self, name):
        return self.rename.get(name, name) if getattr(self, 'rename', None) else name


class Interpreter(Exec):
    pass
