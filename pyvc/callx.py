"""Calls: inlining, contracts, constructors, builtins, container and string methods."""
import ast
import z3
from .core import *
from .core import _cnt
from .source import FuncInfo
from .interp import BUILTIN_EXC, Outcome
from .evalx import Eval, VExc, VUnbound, VGen, FA, fv


class LV:
    """Spec view of a list value."""
    def __init__(self, n, e, elem=None):
        self.n, self.e, self.elem = n, e, elem


class SView:
    """Spec view of a heap: S('Node._parent') -> array; S.n/S.e for lists."""
    def __init__(self, I, heap):
        self.I, self.heap = I, heap

    def __call__(self, key):
        if key not in self.heap:
            st = State()
            st.heap = self.heap
            self.I.hget(st, key)
        return self.heap[key]

    def n(self, key):
        return self(key + '#n')

    def e(self, key):
        return self(key + '#e')

    def has(self, key):
        return self(key + '#has')

    def val(self, key):
        return self(key + '#val')


class Args:
    def __init__(self, d):
        self.__dict__.update(d)
        self._d = d


class Calls(Eval):

    # ------------------------------------------------------------ call expression
    def ev_Call(self, st, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
            fr = self.frames[-1]
            selfname = fr.node.args.args[0].arg
            return [(st, VSuper(st.env[selfname], fr.cls))]

        def with_f(s, fval):
            return self.eval_args(s, node, lambda s2, args, kw: self.call_value(s2, fval, args, kw, node))
        return self.bind(self.ev(st, f), with_f)

    def eval_args(self, st, node, k):
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in node.args] + [kw.value for kw in node.keywords]

        def fin(s, vs):
            args, kw = [], {}
            opaque = False
            i = 0
            for a in node.args:
                v = vs[i]
                i += 1
                if isinstance(a, ast.Starred):
                    if isinstance(v, VTuple):
                        args.extend(v.items)
                    else:
                        raise Unsupported('star argument', node)
                else:
                    args.append(v)
            for a in node.keywords:
                v = vs[i]
                i += 1
                if a.arg is None:
                    if isinstance(v, VRec):
                        kw.update(v.fields)
                    elif isinstance(v, VKwargs):
                        kw['**'] = v
                    elif isinstance(v, (VOpaque, VDict, VAny)):
                        kw['**'] = VKwargs()
                    else:
                        raise Unsupported('** argument', node)
                else:
                    kw[a.arg] = v
            return k(s, args, kw)
        return self.bind(self.evs(st, nodes), fin)

    def call_method(self, st, v, name, args, kw, node):
        return self.bind(self.getattr_(st, v, name, node), lambda s, f: self.call_value(s, f, args, kw, node))

    def call_value(self, st, f, args, kw, node):
        if isinstance(f, VFunc):
            a = ([f.bound] if f.bound is not None else []) + list(args)
            return self.call_func(st, f.fi, a, kw, node)
        if isinstance(f, VBuiltin):
            if f.bound is not None:
                return self.builtin_method(st, f.bound, f.name, args, kw, node)
            return self.builtin(st, f.name, args, kw, node)
        if isinstance(f, VClass):
            return self.construct(st, f, args, kw, node)
        if isinstance(f, VLambda):
            return self.call_lambda(st, f, args, kw, node)
        if isinstance(f, VModule):
            return self.external(st, f.name, args, kw, node)
        if isinstance(f, VOpaque):
            return self.external(st, f.what, args, kw, node)
        if isinstance(f, VList):
            cls = st.cells[f.cell].cls
            if cls != 'list':
                ci = self.cinfo(cls)
                m = self.prog.lookup(ci, '__call__')
                if m:
                    return self.call_func(st, m[1], [f] + list(args), kw, node)
            return [(st, self.exc('TypeError', node))]
        if isinstance(f, VRef):
            if all(self.member(cl, '__call__') for cl in self.classes_of(st, f)):
                return self.call_method(st, f, '__call__', args, kw, node)
            return [(st, self.exc('TypeError', node))]
        if isinstance(f, VAny):
            return self.bind(self.unbox(st, f), lambda s, x: self.call_value(s, x, args, kw, node))
        if isinstance(f, (VNone, VStr, VInt, VReal, VBool)):
            return [(st, self.exc('TypeError', node))]
        raise Unsupported(f'call of {type(f).__name__}', node)

    def call_lambda(self, st, f, args, kw, node):
        names = [a.arg for a in f.node.args.args]
        if kw or len(args) > len(names):
            raise Unsupported('lambda arguments', node)
        env = dict(f.env)
        env.update(zip(names, args))
        saved = st.env
        s = st.copy()
        s.env = env
        if len(args) < len(names):
            raise Unsupported('lambda defaults', node)
        self.frames.append(f.module)
        try:
            if isinstance(f.node, ast.Lambda):
                res = self.ev(s, f.node.body)
            else:
                res = self.run_body(s, f.node.body)
        finally:
            self.frames.pop()
        out = []
        for s2, v in res:
            s2 = s2.copy()
            s2.env = saved
            out.append((s2, v))
        return out

    # ------------------------------------------------------------ repository functions
    def params_of(self, fi):
        a = fi.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg, a.kwarg

    def bind_params(self, st, fi, args, kw, node):
        """[(st, dict name -> V | Exc)]"""
        pos, kwonly, vararg, kwarg = self.params_of(fi)
        a = fi.node.args
        kw = dict(kw)
        opaque = kw.pop('**', None)
        env = {}
        args = list(args)
        if len(args) > len(pos):
            if vararg is None:
                return [(st, self.exc('TypeError', node, ('too many arguments',)))]
            env[vararg.arg] = VTuple(args[len(pos):])
            args = args[:len(pos)]
        elif vararg is not None:
            env[vararg.arg] = VTuple([])
        for n, v in zip(pos, args):
            env[n] = v
        extra = {}
        for n, v in kw.items():
            if n in env:
                return [(st, self.exc('TypeError', node, ('multiple values',)))]
            if n in pos or n in kwonly:
                env[n] = v
            elif kwarg is not None:
                extra[n] = v
            else:
                return [(st, self.exc('TypeError', node, (f'unexpected {n}',)))]
        if kwarg is not None:
            if opaque is not None:
                env[kwarg.arg] = opaque
            else:
                env[kwarg.arg] = VRec(extra)
        missing = []
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        outs = []
        s = st
        for n in pos + kwonly:
            if n in env:
                continue
            if opaque is not None and kwarg is None:
                missing.append(n)
                continue
            if n in defaults:
                self.frames.append(fi)
                try:
                    r = self.ev(s, defaults[n])
                finally:
                    self.frames.pop()
                if len(r) != 1:
                    raise Unsupported('default argument', node)
                s, env[n] = r[0]
            else:
                return [(s, self.exc('TypeError', node, (f'missing {n}',)))]
        env['**missing'] = missing
        return [(s, env)]

    def call_func(self, st, fi, args, kw, node):
        con = self.contracts.get(fi.qual)
        opaque = '**' in kw
        out = []
        for s, env in self.bind_params(st, fi, args, kw, node):
            if isinstance(env, Exc):
                out.append((s, env))
                continue
            missing = env.pop('**missing')
            if missing:
                for n in missing:
                    t = con.params.get(n) if con is not None else self.schema.kwarg_type(fi.qual, n)
                    if t is None:
                        raise Unsupported(f'unknown keyword argument {n} of {fi.qual}', node)
                    env[n] = self.fresh_of(s, t, n)
                s_exc = s.copy().assume(self.ctx.fresh('badkw', z3.BoolSort()))
                out.append((s_exc, self.exc('TypeError', node, ('unexpected keyword',))))
            h = self.schema.func_handler(fi.qual)
            r = h(self, s, env, node) if h is not None else None
            if r is not None:
                out.extend(r)
            elif con is not None and not con.inline:
                out.extend(self.apply_contract(s, con, fi, env, node))
            else:
                out.extend(self.inline(s, fi, env, node))
        return out

    def inline(self, st, fi, env, node):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
            raise Unsupported(f'generator function {fi.qual}', node)
        if len(self.frames) > self.MAXDEPTH or sum(1 for f in self.frames if f.qual == fi.qual) > 1:
            raise Unsupported(f'recursion without a contract: {fi.qual}', node)
        self.ctx.inlined.add(fi.qual)
        saved = st.env
        s = st.copy()
        s.env = env
        self.frames.append(fi)
        try:
            res = self.run_body(s, fi.node.body)
        finally:
            self.frames.pop()
        out = []
        for s2, v in res:
            s2 = s2.copy()
            s2.env = saved
            out.append((s2, v))
        return out

    def run_body(self, st, body):
        out = []
        for s, o in self.ex(st, body):
            if o.kind == 'normal':
                out.append((s, VNone()))
            elif o.kind == 'return':
                out.append((s, o.val))
            elif o.kind == 'raise':
                out.append((s, o.val))
            else:
                raise Unsupported(f'{o.kind} outside loop')
        return out

    def fresh_of(self, st, t, name='v'):
        c = self.ctx
        if isinstance(t, ListT):
            n, arr = c.fresh(name + '_n', z3.IntSort()), c.fresh(name + '_e', z3.ArraySort(z3.IntSort(), c.sort(t.elem)))
            st.assume(n >= 0)
            return self.newlist(st, n, arr, t.elem, t.cls)
        if isinstance(t, DictT):
            ks, vs = c.sort(t.key), c.sort(t.val)
            n = c.fresh(name + '_n', z3.IntSort())
            st.assume(n >= 0)
            cell = Cell('dict', t.val, keyT=t.key, n=n, has=c.fresh(name + '_has', z3.ArraySort(ks, z3.BoolSort())),
                        val=c.fresh(name + '_val', z3.ArraySort(ks, vs)),
                        arr=c.fresh(name + '_k', z3.ArraySort(z3.IntSort(), ks)))
            return VDict(self.newcell(st, cell))
        if isinstance(t, SetT):
            return VSet(self.newcell(st, Cell('set', t.elem, has=c.fresh(name + '_set', z3.ArraySort(c.sort(t.elem), z3.BoolSort())))))
        if isinstance(t, TupT):
            return VTuple([self.fresh_of(st, x, name) for x in t.items])
        if isinstance(t, RecT):
            return VRec({k: self.fresh_of(st, x, name) for k, x in t.fields.items()})
        if t == NoneT:
            return VNone()
        if isinstance(t, OpaqueT):
            return VOpaque(name)
        e = c.fresh(name, c.sort(t))
        v = self.decode(e, t, st)
        if isinstance(v, VRef):
            st.assume(self.typed_ref(v))
        if isinstance(v, VAny):
            st.assume(z3.Or([self.tagof(e, a) for a in t.alts]))
            if 'ref' in t.alts:
                V = c.Val
                st.assume(z3.Implies(V.is_vref(e), V.o(e) != c.null))
                if t.classes:
                    st.assume(z3.Implies(V.is_vref(e), z3.Or([c.typeof(V.o(e)) == c.clsid(k) for k in sorted(t.classes)])))
        return v

    def typed_ref(self, v):
        c = self.ctx
        f = z3.Or([c.typeof(v.e) == c.clsid(k) for k in sorted(v.classes)])
        if v.nullable:
            return z3.Or(v.e == c.null, f)
        return z3.And(v.e != c.null, f)

    def spec_val(self, st, v, t):
        """Spec-level view of a value already converted to type t."""
        if isinstance(v, VList):
            n, arr = self.lnarr(st, v)
            return LV(n, arr, self.lelem(st, v))
        if isinstance(v, (VInt, VReal, VBool, VStr, VRef, VAny)):
            return v.e
        if isinstance(v, VNone):
            return self.ctx.null if isinstance(t, RefT) else (self.ctx.Val.vnone if isinstance(t, Un) else None)
        if isinstance(v, VTuple):
            ts = t.items if isinstance(t, TupT) else [None] * len(v.items)
            return tuple(self.spec_val(st, x, y) for x, y in zip(v.items, ts))
        if isinstance(v, VDict):
            return Args(dict(zip(('n', 'has', 'val', 'k', 'kt', 'vt'), self.dparts(st, v))))
        if isinstance(v, VSet):
            return st.cells[v.cell].has
        if isinstance(v, VRec):
            return Args({k: self.spec_val(st, x, None) for k, x in v.fields.items()})
        return v

    def coerce(self, st, v, t, node):
        """Convert an actual argument to the declared parameter type: [(st, V|Exc)]"""
        if t is None:
            return [(st, v)]
        if isinstance(t, OpaqueT):
            return [(st, VOpaque('argument'))]
        if isinstance(t, ListT):
            if isinstance(v, VNone) and t.nullable:
                return [(st, v)]
            if isinstance(v, VAny):
                return self.bind(self.unbox(st, v), lambda s, x: self.coerce(s, x, t, node))
            if isinstance(v, VView):        # an iterator is modelled as the sequence it yields
                return self.bind(self.view_to_list(st, v, node), lambda s, x: self.coerce(s, x, t, node))
            if isinstance(v, VList):
                if self.lelem(st, v) is None:
                    s = st.copy()
                    cell = s.cells[v.cell]
                    s.cells[v.cell] = cell.copy(elem=t.elem, arr=self.ctx.fresh('empty', z3.ArraySort(z3.IntSort(), self.ctx.sort(t.elem))))
                    return [(s, v)]
                if self.ctx.sort(self.lelem(st, v)) != self.ctx.sort(t.elem):
                    s = st.copy()
                    n, arr = self.lnarr(s, v)
                    arr2 = self.conv_arr(s, arr, n, self.lelem(st, v), t.elem, node)
                    return [(s, self.newlist(s, n, arr2, t.elem, t.cls))]
                return [(st, v)]
            return [(st, self.exc('TypedHeapViolation', node, ('list argument',)))]
        if isinstance(t, (DictT, SetT)):
            return [(st, v)]
        if isinstance(v, VOpaque) or isinstance(v, VKwargs):
            s = st.copy()
            return [(s, self.fresh_of(s, t, 'opq'))]
        if isinstance(t, TupT) and isinstance(v, VTuple):
            return [(st, v)]
        if isinstance(t, (LambdaT,)):
            return [(st, v)]
        if isinstance(t, RefT) and isinstance(v, (VNone,)) and t.nullable:
            return [(st, VRef(self.ctx.null, t.classes, True))]
        if isinstance(t, RefT) and isinstance(v, VRef):
            out = []
            for s, e in self.conv(st, v, t, node):
                out.append((s, e if isinstance(e, Exc) else VRef(e, v.classes & t.classes or t.classes, v.nullable and t.nullable)))
            return out
        out = []
        for s, e in self.conv(st, v, t, node):
            if isinstance(e, Exc):
                out.append((s, e))
            else:
                if isinstance(v, VStr) and t == Str:
                    out.append((s, v))
                else:
                    out.append((s, self.decode(e, t, s)))
        return out

    def apply_contract(self, st, con, fi, env, node):
        self.ctx.used_contracts.add(con.qual)
        line = getattr(node, 'lineno', self.line)
        res = [(st, {})]
        for n, v in env.items():
            t = con.params.get(n)
            nxt = []
            for s, d in res:
                if isinstance(d, Exc):
                    nxt.append((s, d))
                    continue
                for s2, x in self.coerce(s, v, t, node):
                    nxt.append((s2, x if isinstance(x, Exc) else dict(d, **{n: x})))
            res = nxt
        out = []
        for s, d in res:
            if isinstance(d, Exc):
                if self.feasible(s):
                    self.oblige(s, f'call:{con.short}:argument-types', False, line)
                continue
            out.extend(self.apply_contract1(s, con, d, node, line))
        return out

    def apply_contract1(self, st, con, d, node, line):
        st = st.copy()
        a = Args({n: self.spec_val(st, v, con.params.get(n)) for n, v in d.items()})
        a._v = d
        S0 = SView(self, dict(st.heap))
        S0.st = st
        S0.heap = st.heap = dict(st.heap)
        S0 = SView(self, st.heap)
        for label, f in con.requires(S0, a):
            self.oblige(st, f'call:{con.short}:requires:{label}', f, line)
            st.assume(f)
        st.heap = dict(st.heap)
        S0 = SView(self, dict(st.heap))
        out = []
        cur = st
        for cls, cond in con.raises(S0, a):
            nxt = None
            for s, b in self.split(cur, cond):
                if b:
                    s = s.copy()
                    for k in con.exc_modifies:
                        self.havoc_key(s, k)
                    S1 = SView(self, s.heap)
                    for label, f in con.exc_ensures(S0, S1, a, cls):
                        s.assume(f)
                    out.append((s, self.exc(cls, node, implicit=False)))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                return out
        for cls in con.may_raise:
            s = cur.copy().assume(self.ctx.fresh('mayraise', z3.BoolSort()))
            for k in con.exc_modifies:
                self.havoc_key(s, k)
            S1 = SView(self, s.heap)
            for label, f in con.exc_ensures(S0, S1, a, cls):
                s.assume(f)
            out.append((s, self.exc(cls, node, implicit=False)))
        s = cur.copy()
        val = con.value(S0, a)
        if self.pure and (con.modifies or val is None and con.ret is not None and con.ret != NoneT):
            raise Unsupported(f'contract of {con.short} under a quantifier', node)
        for k in con.modifies:
            self.havoc_key(s, k)
        for p in con.modifies_args:
            v = d[p]
            cell = s.cells[v.cell]
            if isinstance(cell.loc, tuple):
                raise Unsupported('argument list owned by a field is modified', node)
            n = self.ctx.fresh(p + '_n', z3.IntSort())
            s.assume(n >= 0)
            s.cells[v.cell] = cell.copy(n=n, arr=self.ctx.fresh(p + '_e', cell.arr.sort()))
        if val is not None:
            r = val
        elif con.ret is None or con.ret == NoneT:
            r = VNone()
        elif con.ret_field is not None:
            key, pn = con.ret_field
            r = self.fieldlist(s, key, getattr(a, pn), self.schema.field(key))
        else:
            r = self.fresh_of(s, con.ret, 'r_' + con.short.split('.')[-1])
        if isinstance(con.ret, ListT) and con.ret.cls != 'list' and isinstance(r, VList) and con.ret_attrs:
            cell = s.cells[r.cell]
            s.cells[r.cell] = cell.copy(attrs=con.ret_attrs(self, s, d))
        if con.fresh_result:
            s.extra = dict(s.extra)
        rs = self.spec_val(s, r, con.ret) if r is not None else None
        S1 = SView(self, s.heap)
        a1 = Args(dict(a._d))
        a1._v = d
        a1.post = {p: self.spec_val(s, d[p], None) for p in con.modifies_args}
        for label, f in con.ensures(S0, S1, a1, rs):
            s.assume(f)
        s.extra = dict(s.extra, calls=s.extra.get('calls', ()) + ((con.short, a1, rs),))
        out.append((s, r))
        return out

    # ------------------------------------------------------------ construction
    def alloc(self, st, cls):
        c = self.ctx
        e = c.fresh('new_' + cls, c.Ref)
        al = self.hget(st, '@alloc')
        st.assume(e != c.null, c.typeof(e) == c.clsid(cls), z3.Not(al[e]))
        self.hset(st, '@alloc', z3.Store(al, e, z3.BoolVal(True)))
        st.extra = dict(st.extra, new=st.extra.get('new', ()) + (e,))
        return VRef(e, {cls}, False)

    def is_exc_class(self, cls, ci):
        if cls in BUILTIN_EXC:
            return True
        return ci is not None and any((m if isinstance(m, str) else m.name) in BUILTIN_EXC for m in self.prog.mro(ci))

    def construct(self, st, f, args, kw, node):
        h = self.schema.construct_handler(f.name)
        if h is not None:
            return h(self, st, f, args, kw, node)
        if self.is_exc_class(f.name, f.ci):
            return [(st, VExc(f.name, args, f.ci))]
        if f.ci is None:
            return self.external(st, f.name, args, kw, node)
        mro = self.prog.mro(f.ci)
        s = st.copy()
        if any(b == 'list' for b in mro if isinstance(b, str)):
            obj = self.newlist(s, z3.IntVal(0), None, None, f.name)
        else:
            if self.pure:
                raise Unsupported('allocation under a quantifier', node)
            obj = self.alloc(s, f.name)
        m = self.prog.lookup(f.ci, '__init__')
        if m is None:
            return [(s, obj)]
        res = self.call_func(s, m[1], [obj] + list(args), kw, node)
        if getattr(self.target, 'merge_constructors', False):
            res = self.merge_states(s, [s2 for s2, r in res if not isinstance(r, Exc)]) + [(s2, r) for s2, r in res if isinstance(r, Exc)]
        return [(s2, r if isinstance(r, Exc) else obj) for s2, r in res]

    def merge_states(self, base, states):
        """Join the normal ends of a constructor into one state (they differ in path conditions and field contents only)."""
        n = len(base.pc)
        same = lambda a, b: a.keys() == b.keys() and all(a[k] is b[k] for k in a)
        # cells made by the constructor are unreachable afterwards: fields hold heap values, its locals are gone
        if len(states) < 2 or not all(all(x.cells.get(k) is base.cells[k] for k in base.cells) and same(x.env, states[0].env) and len(x.pc) >= n
                                      and all(f.eq(g) for f, g in zip(x.pc, base.pc)) for x in states):
            return [(x, VNone()) for x in states]
        out = states[0].copy()
        out.cells = {k: base.cells[k] for k in base.cells}
        guards = [z3.And(x.pc[n:]) if len(x.pc) > n else z3.BoolVal(True) for x in states]
        out.pc = list(base.pc) + [z3.Or(guards)]
        for k in {k for x in states for k in x.heap}:
            vals = [self.hget(x, k) for x in states]
            e = vals[-1]
            for g, v in list(zip(guards, vals))[-2::-1]:
                e = v if v.eq(e) else z3.If(g, v, e)
            out.heap[k] = e
        new = []
        for x in states:
            new += [y for y in x.extra.get('new', ()) if not any(y.eq(z) for z in new)]
        out.extra = dict(base.extra, new=tuple(new))
        out.clsf = {k: v for k, v in out.clsf.items() if all(x.clsf.get(k) is not None and x.clsf[k][0] == v[0] for x in states)}
        return [(out, VNone())]

    # ------------------------------------------------------------ externals
    def external(self, st, name, args, kw, node):
        h = self.schema.external(name)
        if h is not None:
            return h(self, st, args, kw, node)
        if name.startswith('logging.') or name in ('print',):
            self.ctx.trusted.add('logging/print calls have no effect on the program state')
            return [(st, VNone())]
        if name.startswith('functools') or name == 'typing':
            return [(st, VOpaque(name))]
        raise Unsupported(f'external call {name}', node)

    # ------------------------------------------------------------ builtins
    def builtin(self, st, name, args, kw, node):
        m = getattr(self, 'bi_' + name.replace('.', '_'), None)
        if m is None:
            h = self.schema.external(name)
            if h is not None:
                return h(self, st, args, kw, node)
            raise Unsupported(f'builtin {name}', node)
        return m(st, args, kw, node)

    def bi_print(self, st, args, kw, node):
        return [(st, VNone())]

    def bi_len(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.bi_len(s, [x], kw, node))
        if isinstance(v, VList):
            return [(st, VInt(self.lnarr(st, v)[0]))]
        if isinstance(v, VView):
            return [(st, VInt(v.n))]
        if isinstance(v, VDict):
            return [(st, VInt(self.dlen(st, v)))]
        if isinstance(v, VTuple):
            return [(st, VInt(len(v.items)))]
        if isinstance(v, VStr):
            return [(st, VInt(self.str_len(v)))]
        if isinstance(v, VRef):
            return self.call_method(st, v, '__len__', [], {}, node)
        if isinstance(v, VOpaque):
            n = self.ctx.fresh('n', z3.IntSort())
            return [(st.copy().assume(n >= 0), VInt(n))]
        if isinstance(v, VSet):
            return [(st, VInt(self.set_view(st, v).n))]
        return [(st, self.exc('TypeError', node))]

    def bi_list(self, st, args, kw, node):
        if not args:
            s = st.copy()
            return [(s, self.newlist(s, z3.IntVal(0), None, None))]
        return self.bind(self.iter_view(st, args[0], node), lambda s, vw: self.view_to_list(s, vw, node))

    def bi_tuple(self, st, args, kw, node):
        if not args:
            return [(st, VTuple([]))]
        if isinstance(args[0], VTuple):
            return [(st, args[0])]
        return self.bi_list(st, args, kw, node)

    def bi_set(self, st, args, kw, node):
        if not args:
            s = st.copy()
            return [(s, VSet(self.newcell(s, Cell('set', None))))]
        return self.make_set(st, args[0], node)

    bi_frozenset = bi_set

    def bi_dict(self, st, args, kw, node):
        if not args and not kw:
            s = st.copy()
            return [(s, VDict(self.newcell(s, Cell('dict', None, n=z3.IntVal(0)))))]
        if not args and '**' not in kw:
            return [(st, VRec(dict(kw)))]
        if len(args) == 1 and isinstance(args[0], VDict) and not kw:
            s = st.copy()
            n, has, val, karr, kt, vt = self.dparts(s, args[0])
            return [(s, VDict(self.newcell(s, Cell('dict', vt, keyT=kt, n=n, has=has, val=val, arr=karr))))]
        if len(args) == 1 and not kw:
            h = getattr(self.schema, 'dict_handler', lambda *x: None)(self, st, args[0], node)
            if h is not None:
                return h
        raise Unsupported('dict()', node)

    def bi_str(self, st, args, kw, node):
        if not args:
            return [(st, self.const(''))]
        return self.to_str(st, args[0], node)

    bi_repr = bi_str

    def bi_int(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.bi_int(s, [x], kw, node))
        if isinstance(v, VInt):
            return [(st, v)]
        if isinstance(v, VBool):
            return [(st, VInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0))))]
        if isinstance(v, VReal):
            # truncation toward zero
            return [(st, VInt(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e))))]
        if isinstance(v, VStr):
            if v.lit is not None:
                try:
                    return [(st, VInt(int(v.lit)))]
                except ValueError:
                    return [(st, self.exc('ValueError', node))]
            ok, val = self.int_of_str(v)
            out = []
            for s, b in self.split(st, ok):
                out.append((s, VInt(val) if b else self.exc('ValueError', node)))
            return out
        return [(st, self.exc('TypeError', node))]

    def int_of_str(self, v):
        c = self.ctx
        g = c.uf('int_of_str', c.StrS, z3.IntSort())
        ok = c.uf('is_int_str', c.StrS, z3.BoolSort())
        if c.strmode == 'z3':
            x = z3.Int('x')
            c.axiom('int_of_str3', FA([x], z3.And(g(z3.IntToStr(x)) == x, ok(z3.IntToStr(x))), z3.IntToStr(x)))
        else:
            f = c.uf('str_of_int', z3.IntSort(), c.StrS)
            x = z3.Int('x')
            c.axiom('int_of_str', FA([x], z3.And(g(f(x)) == x, ok(f(x))), f(x)))
        return ok(v.e), g(v.e)

    def bi_float(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, VInt):
            return [(st, VReal(z3.ToReal(v.e)))]
        if isinstance(v, VReal):
            return [(st, v)]
        if isinstance(v, VStr):
            c = self.ctx
            ok = c.uf('is_float_str', c.StrS, z3.BoolSort())
            g = c.uf('float_of_str', c.StrS, z3.RealSort())
            out = []
            for s, b in self.split(st, ok(v.e)):
                out.append((s, VReal(g(v.e)) if b else self.exc('ValueError', node)))
            return out
        raise Unsupported('float()', node)

    def bi_bool(self, st, args, kw, node):
        return [(s, b if isinstance(b, Exc) else VBool(b)) for s, b in self.truth(st, args[0], node)]

    def bi_round(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, VInt):
            return [(st, v)]
        if isinstance(v, VReal):
            k = z3.simplify(args[1].e).as_long() if len(args) > 1 else 0
            m = 10 ** k
            r = z3.ToReal(z3.ToInt(v.e * m + z3.RealVal('1/2'))) / m
            self.ctx.trusted.add('floating-point ords treated as exact decimals; round() as mathematical rounding')
            return [(st, VReal(r))]
        raise Unsupported('round', node)

    def bi_abs(self, st, args, kw, node):
        v = args[0]
        return [(st, type(v)(z3.If(v.e < 0, -v.e, v.e)))]

    def bi_range(self, st, args, kw, node):
        es = [a.e for a in args]
        if len(es) == 1:
            lo, hi, step = z3.IntVal(0), es[0], 1
        else:
            lo, hi = es[0], es[1]
            step = 1
            if len(es) == 3:
                z = z3.simplify(es[2])
                if not z3.is_int_value(z) or z.as_long() not in (1, -1):
                    raise Unsupported('range step', node)
                step = z.as_long()
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0)) if step == 1 else z3.If(lo > hi, lo - hi, z3.IntVal(0))
        return [(st, VView(n, lambda j: VInt(lo + j if step == 1 else lo - j), 'range'))]

    def bi_enumerate(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get('start')
        k = start.e if start is not None else z3.IntVal(0)

        def f(s, vw):
            if vw.what == 'empty':
                return [(s, vw)]
            r = VView(vw.n, lambda j: VTuple([VInt(k + j), vw.get(j)]), 'enumerate')
            return [(s, r)]
        v = args[0]
        if isinstance(v, VList):
            # live iteration is kept by the for-loop rule
            r = VView(None, None, 'enumerate-live')
            r.lst, r.start = v, k
            return [(st, r)]
        return self.bind(self.iter_view(st, v, node), f)

    def bi_zip(self, st, args, kw, node):
        if len(args) != 2:
            raise Unsupported('zip', node)

        def f(s, a):
            def g(s2, b):
                n = z3.If(a.n < b.n, a.n, b.n)
                if a.what == 'empty' or b.what == 'empty':
                    return [(s2, VView(z3.IntVal(0), lambda j: VOpaque('e'), 'empty'))]
                return [(s2, VView(n, lambda j: VTuple([a.get(j), b.get(j)]), 'zip'))]
            return self.bind(self.iter_view(s, args[1], node), g)
        return self.bind(self.iter_view(st, args[0], node), f)

    def bi_reversed(self, st, args, kw, node):
        def f(s, a):
            if a.what == 'empty':
                return [(s, a)]
            return [(s, VView(a.n, lambda j: a.get(a.n - 1 - j), 'reversed'))]
        return self.bind(self.iter_view(st, args[0], node), f)

    def bi_iter(self, st, args, kw, node):
        return self.iter_view(st, args[0], node)

    # ---- quantified builtins
    def gen_parts(self, st, gen, node, want='bool'):
        """For any/all/next/...: [(st, (view, j, rng, pred, value))]."""
        if len(gen.generators) != 1:
            raise Unsupported('nested generator', node)
        g = gen.generators[0]

        def f(s, itv):
            def h(s2, vw):
                if vw.what == 'empty':
                    return [(s2, None)]
                j = fv()
                rng = z3.And(0 <= j, j < vw.n)
                el = vw.get(j)
                base = s2.copy()
                self.elem_facts(base, el)

                def with_el(x):
                    x = x.copy()
                    self.bind_target(x.env, g.target, el, node)
                    return x
                pred = z3.BoolVal(True)
                if g.ifs:
                    test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                    v, outs, noexc = self.quant_eval(base, j, rng, lambda x: [
                        (y, b if isinstance(b, Exc) else VBool(b)) for y, b in self.cond(with_el(x), test)], node)
                    self.no_exc(outs, node)
                    pred = v.e
                rng2 = z3.And(rng, pred)
                if want == 'bool':
                    v, outs, noexc = self.quant_eval(base, j, rng2, lambda x: [
                        (y, b if isinstance(b, Exc) else VBool(b)) for y, b in self.cond(with_el(x), gen.elt)], node)
                else:
                    v, outs, noexc = self.quant_eval(base, j, rng2, lambda x: self.ev(with_el(x), gen.elt), node)
                self.no_exc(outs, node)
                return [(s2, (vw, j, rng2, pred, v))]
            return self.bind(self.iter_view(s, itv, node), h)
        return self.bind(self.ev(st, g.iter), f)

    def no_exc(self, outs, node):
        for s, e in outs:
            # prove it infeasible by an obligation
            self.oblige(s, f'no-exception:{e.cls}-in-generator', False, getattr(node, 'lineno', None))

    def bi_any(self, st, args, kw, node):
        return self.quantified(st, args[0], node, True)

    def bi_all(self, st, args, kw, node):
        return self.quantified(st, args[0], node, False)

    def quantified(self, st, v, node, isany):
        if isinstance(v, VGen):
            def f(s, p):
                if p is None:
                    return [(s, VBool(not isany))]
                vw, j, rng, pred, val = p
                src = getattr(vw, 'arr', None)
                if val is None:
                    return [(s, VBool(not isany))]
                if isany:
                    return [(s, VBool(z3.Exists([j], z3.And(rng, val.e))))]
                return [(s, VBool(FA([j], z3.Implies(rng, val.e), *([src[j]] if src is not None else []))))]
            return self.bind(self.gen_parts(st, v.node, node), f)

        def g(s, vw):
            j = fv()
            if vw.what == 'empty':
                return [(s, VBool(not isany))]
            r = self.truth(s, vw.get(j), node)
            if len(r) != 1 or isinstance(r[0][1], Exc):
                raise Unsupported('any/all', node)
            rng = z3.And(0 <= j, j < vw.n)
            return [(s, VBool(z3.Exists([j], z3.And(rng, r[0][1])) if isany else z3.ForAll([j], z3.Implies(rng, r[0][1]))))]
        return self.bind(self.iter_view(st, v, node), g)

    def bi_next(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, VGen):
            def f(s, p):
                out = []
                if p is None:
                    return self.next_default(s, args, node)
                vw, j, rng, pred, val = p
                w = self.ctx.fresh('first', z3.IntSort())
                k = fv()
                s1 = s.copy().assume(z3.substitute(rng, (j, w)))
                s1.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w), z3.Not(z3.substitute(pred, (j, k))))))
                if self.feasible(s1):
                    t = self.typ(val, s1)
                    e = self.conv(s1.copy(), val, t, node)[0][1]
                    out.append((s1, self.decode(z3.substitute(e, (j, w)), t, s1)))
                src = getattr(vw, 'arr', None)
                s2 = s.copy().assume(FA([j], z3.Not(rng), *([src[j]] if src is not None else [])))
                out.extend(self.next_default(s2, args, node))
                return out
            return self.bind(self.gen_parts(st, v.node, node, 'value'), f)
        h = self.schema.next_handler(self, st, v, node)
        if h is not None:
            return h
        raise Unsupported('next', node)

    def next_default(self, s, args, node):
        if len(args) > 1:
            return [(s, args[1])]
        return [(s, self.exc('StopIteration', node))]

    def bi_sum(self, st, args, kw, node):
        v = args[0]

        def f(s, vw):
            if vw.what == 'empty':
                return [(s, VInt(0))]
            j = fv()
            el = vw.get(j)
            c = self.ctx
            if isinstance(el, VBool):
                el = VInt(z3.If(el.e, z3.IntVal(1), z3.IntVal(0)))
            if not isinstance(el, VInt):
                raise Unsupported('sum', node)
            arr = c.fresh('sumarr', z3.ArraySort(z3.IntSort(), z3.IntSort()))
            s = s.copy()
            s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < vw.n), arr[j] == el.e), arr[j]))
            F = self.sumf()
            return [(s, VInt(F(arr, vw.n)))]
        return self.bind(self.iter_view(st, v, node), f)

    def sumf(self):
        c = self.ctx
        A = z3.ArraySort(z3.IntSort(), z3.IntSort())
        F = c.uf('sum', A, z3.IntSort(), z3.IntSort())
        a, n = z3.Const('a', A), z3.Int('n')
        c.axiom('sum', FA([a, n], z3.Implies(n <= 0, F(a, n) == 0), F(a, n)),
                FA([a, n], z3.Implies(n > 0, F(a, n) == F(a, n - 1) + a[n - 1]), F(a, n)))
        return F

    def bi_max(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, '>')

    def bi_min(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, '<')

    def minmax(self, st, args, kw, node, op):
        if len(args) >= 2 and not kw:
            res = [(st, args[0])]
            for b in args[1:]:
                nxt = []
                for s, a in res:
                    if isinstance(a, Exc):
                        nxt.append((s, a))
                        continue
                    for s2, c in self.less(s, b, a, node, op):
                        if isinstance(c, Exc):
                            nxt.append((s2, c))
                            continue
                        for s3, tv in self.split(s2, c):
                            nxt.append((s3, b if tv else a))
                res = nxt
            return res

        def f(s, vw):
            out = []
            if vw.what == 'empty':
                return [(s, kw['default'] if 'default' in kw else self.exc('ValueError', node))]
            for s1, b in self.split(s, vw.n > 0):
                if not b:
                    out.append((s1, kw['default'] if 'default' in kw else self.exc('ValueError', node)))
                    continue
                w = self.ctx.fresh('argm', z3.IntSort())
                k = fv()
                s1 = s1.copy()
                r = self.keyless(s1, vw.get(k), vw.get(w), kw.get('key'), op, node)
                s1.assume(0 <= w, w < vw.n)
                src = getattr(vw, 'arr', None)
                s1.assume(FA([k], z3.Implies(z3.And(0 <= k, k < vw.n), z3.Not(r)), *([src[k]] if src is not None else [])))
                out.append((s1, vw.get(w)))
            return out
        return self.bind(self.iter_view(st, args[0], node), f)

    def keyless(self, st, a, b, key, op, node, strict=False):
        """Formula less(key(a), key(b)) evaluated purely."""
        def fn(s):
            if key is None:
                return [(s2, x if isinstance(x, Exc) else VBool(x)) for s2, x in self.less(s, a, b, node, op)]

            def k2(s2, ka):
                return self.bind(self.call_value(s2, key, [b], {}, node),
                                 lambda s3, kb: [(s4, x if isinstance(x, Exc) else VBool(x))
                                                 for s4, x in self.less(s3, ka, kb, node, op)])
            return self.bind(self.call_value(s, key, [a], {}, node), k2)
        vals, excs, fresh, _ = self.pure_eval(st, fn, node)
        if fresh:
            raise Unsupported('fresh values in a sort key', node)
        if excs:
            # elements not comparable: must be shown impossible by the caller's typing
            ex = z3.simplify(z3.Or([g for g, _ in excs]))
            if not z3.is_false(ex):
                raise Unsupported('comparison may fail while sorting', node)
        v = self.merge_vals(st, vals, node)
        return v.e

    def sort_arr(self, st, n, arr, t, key, reverse, node):
        c = self.ctx
        j, k = fv(), fv()
        arr2 = c.fresh('srt', arr.sort())
        q = next(_cnt)
        pi = z3.Function(f'pi!{q}', z3.IntSort(), z3.IntSort())
        pii = z3.Function(f'pii!{q}', z3.IntSort(), z3.IntSort())
        gst = st.copy()
        a, b = self.decode(arr2[j], t, gst), self.decode(arr2[k], t, gst)
        gst.assume(0 <= j, j < n, 0 <= k, k < n)
        lt_ab = self.keyless(gst, a, b, key, '<', node)
        lt_ba = z3.substitute(lt_ab, (j, fv_tmp()), (k, j))
        lt_ba = z3.substitute(lt_ba, (fv_tmp(), k))
        if reverse:
            lt_ab, lt_ba = lt_ba, lt_ab
        st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= pi(j), pi(j) < n, arr2[j] == arr[pi(j)],
                                                                 pii(pi(j)) == j)), arr2[j], pi(j)),
                  FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= pii(j), pii(j) < n, pi(pii(j)) == j,
                                                                 arr2[pii(j)] == arr[j])), arr[j], pii(j)),
                  FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n),
                                        z3.And(z3.Not(lt_ba), z3.Or(lt_ab, pi(j) < pi(k)))), [arr2[j], arr2[k]]))
        x = self.memvar(arr)
        if x is not None:
            st.assume(FA([x], c.mem(arr2, n, x) == c.mem(arr, n, x), c.mem(arr2, n, x), c.mem(arr, n, x)))
        st.extra = dict(st.extra, sorts=st.extra.get('sorts', ()) + ((arr, arr2, n, pi, pii),))
        return arr2

    def bi_sorted(self, st, args, kw, node):
        if not set(kw) <= {'key', 'reverse'}:
            raise Unsupported('sorted arguments', node)

        def f(s, l):
            s = s.copy()
            t = self.lelem(s, l)
            if t is None:
                return [(s, l)]
            n, arr = self.lnarr(s, l)
            arr2 = self.sort_arr(s, n, arr, t, self.nonekey(kw.get('key')), self.rev(kw), node)
            return [(s, self.newlist(s, n, arr2, t))]
        return self.bind(self.bi_list(st, args[:1], {}, node), f)

    def nonekey(self, k):
        return None if isinstance(k, VNone) else k

    def rev(self, kw):
        r = kw.get('reverse')
        if r is None:
            return False
        z = z3.simplify(r.e)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        raise Unsupported('symbolic reverse')

    def bi_isinstance(self, st, args, kw, node):
        v, c = args
        cs = c.items if isinstance(c, VTuple) else [c]
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.bi_isinstance(s, [x, c], kw, node))
        fs = []
        for k in cs:
            kn = k.name if isinstance(k, (VClass, VBuiltin, VModule)) else None
            if kn is None:
                raise Unsupported('isinstance', node)
            if isinstance(v, VRef):
                good = []
                for cl in self.classes_of(st, v):
                    ci = self.cinfo(cl)
                    if ci is None:
                        r = self.schema.isinstance_ext(cl, kn)
                    else:
                        r = any((m if isinstance(m, str) else m.name) == kn for m in self.prog.mro(ci)) or \
                            self.schema.isinstance_ext(cl, kn)
                    if r:
                        good.append(cl)
                if set(good) == set(self.classes_of(st, v)):
                    f = z3.BoolVal(True)
                else:
                    f = z3.Or([self.ctx.typeof(v.e) == self.ctx.clsid(x) for x in good] or [z3.BoolVal(False)])
                if v.nullable:
                    f = z3.And(v.e != self.ctx.null, f)
                fs.append(f)
            else:
                tn = {VInt: ('int',), VReal: ('float',), VBool: ('bool', 'int'), VStr: ('str',), VNone: (),
                      VList: ('list',), VDict: ('dict',), VTuple: ('tuple',), VRec: ('dict',), VSet: ('set',)}.get(type(v))
                if tn is None:
                    raise Unsupported(f'isinstance of {type(v).__name__}', node)
                base = kn.split('.')[-1]
                r = base in tn or (base == 'Mapping' and 'dict' in tn) or \
                    (base in ('Iterable', 'Sequence') and tn and tn[0] in ('list', 'tuple', 'str'))
                if isinstance(v, VList) and st.cells[v.cell].cls == base:
                    r = True
                fs.append(z3.BoolVal(bool(r)))
        return [(st, VBool(z3.Or(fs)))]

    def bi_hasattr(self, st, args, kw, node):
        v, n = args
        if isinstance(v, VRef) and n.lit is not None:
            good = [cl for cl in self.classes_of(st, v) if self.member(cl, n.lit) or self.schema.fkey(cl, n.lit)]
            if set(good) == set(self.classes_of(st, v)):
                return [(st, VBool(True))]
            if not good:
                return [(st, VBool(False))]
            return [(st, VBool(z3.Or([self.ctx.typeof(v.e) == self.ctx.clsid(x) for x in good])))]
        raise Unsupported('hasattr', node)

    def bi_getattr(self, st, args, kw, node):
        if args[1].lit is None:
            raise Unsupported('getattr with a computed name', node)
        if len(args) == 2:
            return self.getattr_(st, args[0], args[1].lit, node)
        out = []
        for s, r in self.getattr_(st, args[0], args[1].lit, node):
            if isinstance(r, Exc) and r.cls == 'AttributeError':
                out.append((s, args[2]))
            else:
                out.append((s, r))
        return out

    def bi_setattr(self, st, args, kw, node):
        if args[1].lit is None:
            raise Unsupported('setattr with a computed name', node)
        return self.setattr_(st, args[0], args[1].lit, args[2], node)

    def bi_type(self, st, args, kw, node):
        return [(st, VOpaque('type'))]

    def bi_id(self, st, args, kw, node):
        raise Unsupported('id()', node)

    def bi_object(self, st, args, kw, node):
        return [(st, VOpaque('object'))]

    # ------------------------------------------------------------ container methods
    def builtin_method(self, st, v, name, args, kw, node):
        if name.startswith('super.'):
            return self.super_builtin(st, v, name[6:], args, kw, node)
        if isinstance(v, VList):
            cls = st.cells[v.cell].cls
            if cls != 'list':
                ci = self.cinfo(cls)
                m = self.prog.lookup(ci, name) if ci else None
                if m:
                    return self.call_func(st, m[1], [v] + list(args), kw, node)
            f = getattr(self, 'li_' + name, None)
            if f is None:
                raise Unsupported(f'list.{name}', node)
            return f(st, v, args, kw, node)
        if isinstance(v, VDict):
            f = getattr(self, 'di_' + name, None)
            if f is None:
                raise Unsupported(f'dict.{name}', node)
            return f(st, v, args, kw, node)
        if isinstance(v, VSet):
            f = getattr(self, 'se_' + name, None)
            if f is None:
                raise Unsupported(f'set.{name}', node)
            return f(st, v, args, kw, node)
        if isinstance(v, VStr):
            return self.str_method(st, v, name, args, kw, node)
        if isinstance(v, VRec):
            if name == 'get':
                k = args[0]
                if k.lit is not None:
                    return [(st, v.fields.get(k.lit, args[1] if len(args) > 1 else VNone()))]
            if name == 'items':
                return self.bind(self.list_of(st, [VTuple([self.const(k), x]) for k, x in v.fields.items()], node),
                                 lambda s, x: [(s, x)])
            raise Unsupported(f'record.{name}', node)
        raise Unsupported(f'{type(v).__name__}.{name}', node)

    def super_builtin(self, st, obj, name, args, kw, node):
        if name == '__init__':
            if isinstance(obj, VList) and args:
                def f(s, vw):
                    s = s.copy()
                    cell = s.cells[obj.cell]
                    if vw.what == 'empty':
                        s.cells[obj.cell] = cell.copy(n=z3.IntVal(0), arr=None, elem=None)
                    elif hasattr(vw, 'arr'):
                        s.cells[obj.cell] = cell.copy(n=vw.n, arr=vw.arr, elem=vw.elem)
                    else:
                        out = []
                        for s2, l in self.view_to_list(s, vw, node):
                            c2 = s2.cells[l.cell]
                            s2.cells[obj.cell] = cell.copy(n=c2.n, arr=c2.arr, elem=c2.elem)
                            out.append((s2, VNone()))
                        return out
                    return [(s, VNone())]
                return self.bind(self.iter_view(st, args[0], node), f)
            return [(st, VNone())]
        raise Unsupported(f'super().{name}', node)

    def lw(self, s, v, n, arr, node):
        self.lset(s, v, n, arr, node)

    def li_append(self, st, v, args, kw, node):
        out = []
        for s, e in self.conv_elem(st, v, args[0], node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            s = s.copy()
            n, arr = self.lnarr(s, v)
            n1, arr1 = z3.simplify(n + 1), z3.Store(arr, n, e)
            x = self.memvar(arr)
            if x is not None:
                mem = self.ctx.mem
                s.assume(FA([x], z3.Implies(n >= 0, mem(arr1, n1, x) == z3.Or(mem(arr, n, x), x == e)), mem(arr1, n1, x), mem(arr, n, x)),
                         z3.Implies(n >= 0, mem(arr1, n1, e)))
            self.lset(s, v, n1, arr1, node)
            out.append((s, VNone()))
        return out

    def li_extend(self, st, v, args, kw, node):
        def f(s, vw):
            s = s.copy()
            if vw.what == 'empty':
                return [(s, VNone())]
            out = []
            for s2, l2 in self.view_to_list(s, vw, node):
                n2, e2 = self.lnarr(s2, l2)
                t2 = self.lelem(s2, l2)
                cell = s2.cells[v.cell]
                if cell.elem is None:
                    s2.cells[v.cell] = cell.copy(elem=t2, arr=e2, n=n2)
                    out.append((s2, VNone()))
                    continue
                if cell.elem != t2:
                    if isinstance(cell.loc, tuple):
                        if self.ctx.sort(cell.elem) != self.ctx.sort(t2):
                            e2 = self.conv_arr(s2, e2, n2, t2, cell.elem, node)
                        else:
                            self.check_elem_type(s2, Cell('list', t2, n=n2, arr=e2), ListT(cell.elem), cell.loc[0], node)
                    else:
                        jt = self.join_t(cell.elem, t2)
                        n1, e1 = self.lnarr(s2, v)
                        e1 = self.conv_arr(s2, e1, n1, cell.elem, jt, node)
                        e2 = self.conv_arr(s2, e2, n2, t2, jt, node)
                        s2.cells[v.cell] = cell.copy(elem=jt, arr=e1)
                n1, e1 = self.lnarr(s2, v)
                n, arr = self.concat_arr(s2, n1, e1, n2, e2)
                self.lset(s2, v, n, arr, node)
                out.append((s2, VNone()))
            return out
        return self.bind(self.iter_view(st, args[0], node), f)

    def find_first(self, st, v, x, node):
        """[(st, index | None)] for the first element equal to x."""
        n, arr = self.lnarr(st, v)
        t = self.lelem(st, v)
        if t is None:
            return [(st, None)]
        simple = isinstance(t, RefT) and isinstance(x, VRef) or isinstance(t, Prim) and isinstance(x, (VInt, VStr))
        out = []
        j = fv()
        if simple and x.e.sort() == self.ctx.sort(t):
            memb = self.ctx.mem(arr, n, x.e)
            eqj = arr[j] == x.e
        else:
            el = self.decode(arr[j], t, st)
            eqj = self.eqf(st, el, x, node)
            memb = z3.Exists([j], z3.And(0 <= j, j < n, eqj))
        s1 = st.copy().assume(memb)
        if self.feasible(s1):
            i0 = self.ctx.fresh('i0', z3.IntSort())
            s1.assume(0 <= i0, i0 < n, z3.substitute(eqj, (j, i0)),
                      FA([j], z3.Implies(z3.And(0 <= j, j < i0), z3.Not(eqj)), arr[j]))
            out.append((s1, i0))
        s2 = st.copy().assume(z3.Not(memb))
        if not (simple and x.e.sort() == self.ctx.sort(t)):
            s2.assume(FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(eqj)), arr[j]))
        if self.feasible(s2):
            out.append((s2, None))
        return out

    def li_remove(self, st, v, args, kw, node):
        out = []
        for s, i0 in self.find_first(st, v, args[0], node):
            if i0 is None:
                out.append((s, self.exc('ValueError', node)))
            else:
                out.append((self.list_del_at(s, v, i0, node), VNone()))
        return out

    def li_index(self, st, v, args, kw, node):
        if len(args) != 1:
            raise Unsupported('list.index with bounds', node)
        return [(s, self.exc('ValueError', node) if i0 is None else VInt(i0))
                for s, i0 in self.find_first(st, v, args[0], node)]

    def li_pop(self, st, v, args, kw, node):
        i = args[0] if args else VInt(-1)
        n, arr = self.lnarr(st, v)
        t = self.lelem(st, v)
        if t is None:
            return [(st, self.exc('IndexError', node))]
        out = []
        for s, e in self.index_cases(st, n, i.e, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            val = self.decode(arr[e], t, s)
            z = z3.simplify(i.e)
            if z3.is_int_value(z) and z.as_long() == -1:
                s = s.copy()
                x = self.memvar(arr)
                if x is not None:
                    mem = self.ctx.mem
                    s.assume(FA([x], mem(arr, n, x) == z3.Or(mem(arr, n - 1, x), x == arr[n - 1]), mem(arr, n - 1, x), mem(arr, n, x)), mem(arr, n, arr[n - 1]))
                self.lset(s, v, n - 1, arr, node)
                out.append((s, val))
            else:
                out.append((self.list_del_at(s, v, e, node), val))
        return out

    def li_sort(self, st, v, args, kw, node):
        s = st.copy()
        t = self.lelem(s, v)
        if t is None:
            return [(s, VNone())]
        n, arr = self.lnarr(s, v)
        arr2 = self.sort_arr(s, n, arr, t, self.nonekey(kw.get('key')), self.rev(kw), node)
        self.lset(s, v, None if isinstance(s.cells[v.cell].loc, tuple) else n, arr2, node)
        return [(s, VNone())]

    def li_clear(self, st, v, args, kw, node):
        s = st.copy()
        n, arr = self.lnarr(s, v)
        self.lset(s, v, z3.IntVal(0), arr, node)
        return [(s, VNone())]

    def li_copy(self, st, v, args, kw, node):
        return self.bi_list(st, [v], {}, node)

    def li_reverse(self, st, v, args, kw, node):
        s = st.copy()
        n, arr = self.lnarr(s, v)
        arr2 = self.ctx.fresh('rev', arr.sort())
        j = fv()
        s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < n), arr2[j] == arr[n - 1 - j]), arr2[j]),
                 FA([j], z3.Implies(z3.And(0 <= j, j < n), arr2[n - 1 - j] == arr[j]), arr[j]))
        self.lset(s, v, n, arr2, node)
        return [(s, VNone())]

    def li_insert(self, st, v, args, kw, node):
        out = []
        for s, e in self.conv_elem(st, v, args[1], node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            s = s.copy()
            n, arr = self.lnarr(s, v)
            p = self.ctx.fresh('ins', z3.IntSort())
            s.assume(p == self.clamp(args[0], n, z3.IntVal(0)))
            arr2 = self.ctx.fresh('insd', arr.sort())
            j = fv()
            s.assume(arr2[p] == e,
                     FA([j], z3.Implies(z3.And(0 <= j, j < p), arr2[j] == arr[j]), arr2[j]),
                     FA([j], z3.Implies(z3.And(p < j, j <= n), arr2[j] == arr[j - 1]), arr2[j]),
                     FA([j], z3.Implies(z3.And(0 <= j, j < n), arr2[z3.If(j < p, j, j + 1)] == arr[j]), arr[j]))
            self.lset(s, v, n + 1, arr2, node)
            out.append((s, VNone()))
        return out

    def li_count(self, st, v, args, kw, node):
        raise Unsupported('list.count', node)

    # ---- dict methods
    def di_get(self, st, v, args, kw, node):
        dflt = args[1] if len(args) > 1 else kw.get('default', VNone())
        out = []
        for s, r in self.getitem1(st, v, args[0], node):
            out.append((s, dflt if isinstance(r, Exc) and r.cls == 'KeyError' else r))
        return out

    def di_items(self, st, v, args, kw, node):
        n, has, val, karr, kt, vt = self.dparts(st, v)
        if kt is None:
            return [(st, VView(z3.IntVal(0), lambda j: VOpaque('e'), 'empty'))]
        vw = VView(n, lambda j: VTuple([self.decode(karr[j], kt, st), self.decode(val[karr[j]], vt, st)]), 'items')
        return [(st, vw)]

    def di_keys(self, st, v, args, kw, node):
        return self.iter_view(st, v, node)

    def di_values(self, st, v, args, kw, node):
        n, has, val, karr, kt, vt = self.dparts(st, v)
        if kt is None:
            return [(st, VView(z3.IntVal(0), lambda j: VOpaque('e'), 'empty'))]
        return [(st, VView(n, lambda j: self.decode(val[karr[j]], vt, st), 'values'))]

    def di_clear(self, st, v, args, kw, node):
        s = st.copy()
        n, has, val, karr, kt, vt = self.dparts(s, v)
        if kt is None:
            return [(s, VNone())]
        self.dwrite(s, v, z3.IntVal(0), z3.K(self.ctx.sort(kt), z3.BoolVal(False)), val, karr)
        return [(s, VNone())]

    def di___contains__(self, st, v, args, kw, node):
        return [(s, x if isinstance(x, Exc) else VBool(x)) for s, x in self.contains(st, args[0], v, node)]

    def di___iter__(self, st, v, args, kw, node):
        return self.iter_view(st, v, node)

    def di_copy(self, st, v, args, kw, node):
        return self.bi_dict(st, [v], {}, node)

    def di_pop(self, st, v, args, kw, node):
        out = []
        for s, r in self.getitem1(st, v, args[0], node):
            if isinstance(r, Exc):
                out.append((s, args[1] if r.cls == 'KeyError' and len(args) > 1 else r))
                continue
            for s2, x in self.dict_del(s, v, args[0], node):
                out.append((s2, x if isinstance(x, Exc) else r))
        return out

    def di_setdefault(self, st, v, args, kw, node):
        raise Unsupported('dict.setdefault', node)

    # ---- set methods
    def se_add(self, st, v, args, kw, node):
        s = st.copy()
        cell = s.cells[v.cell]
        if cell.elem is None:
            t = self.typ(args[0], s)
            cell = cell.copy(elem=t, has=z3.K(self.ctx.sort(t), z3.BoolVal(False)))
            s.cells[v.cell] = cell
        out = []
        for s2, e in self.conv(s, args[0], cell.elem, node):
            if isinstance(e, Exc):
                out.append((s2, e))
                continue
            s2 = s2.copy()
            s2.cells[v.cell] = s2.cells[v.cell].copy(has=z3.Store(cell.has, e, z3.BoolVal(True)))
            out.append((s2, VNone()))
        return out

    def se_update(self, st, v, args, kw, node):
        def f(s, o):
            s = s.copy()
            c1, c2 = s.cells[v.cell], s.cells[o.cell]
            if c2.elem is None:
                return [(s, VNone())]
            if c1.elem is None:
                s.cells[v.cell] = c1.copy(elem=c2.elem, has=c2.has)
                return [(s, VNone())]
            h = self.ctx.fresh('un', c1.has.sort())
            x = z3.Const(f'x!{next(_cnt)}', self.ctx.sort(c1.elem))
            s.assume(FA([x], h[x] == z3.Or(c1.has[x], c2.has[x]), h[x], c2.has[x]))
            s.cells[v.cell] = c1.copy(has=h)
            return [(s, VNone())]
        return self.bind(self.make_set(st, args[0], node), f)

    # ------------------------------------------------------------ strings
    STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower', 'isspace', 'isnumeric', 'isdecimal', 'isalnum'}
    STR_STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'translate', 'casefold', 'format', 'zfill', 'ljust', 'rjust'}

    def str_method(self, st, v, name, args, kw, node):
        c = self.ctx
        args = list(args)
        h = self.schema.str_method(self, st, v, name, args, kw, node)
        if h is not None:
            return h
        for i, a in enumerate(args):
            if isinstance(a, VAny):
                return self.bind(self.unbox(st, a), lambda s, x: self.str_method(s, v, name, args[:i] + [x] + args[i + 1:], kw, node))
        if v.lit is not None and not kw and all(isinstance(a, VStr) and a.lit is not None for a in args) and name != 'join':
            r = getattr(v.lit, name)(*[a.lit for a in args])
            if isinstance(r, list):
                return self.list_of(st, [self.const(x) for x in r], node)
            return [(st, self.const(r))]
        if name in ('startswith', 'endswith'):
            if isinstance(args[0], VTuple):
                fs = []
                for it in args[0].items:
                    r = self.str_method(st, v, name, [it], kw, node)
                    fs.append(r[0][1].e)
                return [(st, VBool(z3.Or(fs)))]
            if not isinstance(args[0], VStr):
                return [(st, self.exc('TypeError', node))]
            if c.strmode == 'z3':
                f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
                return [(st, VBool(f(args[0].e, v.e)))]
            f = c.uf('str_' + name, c.StrS, c.StrS, z3.BoolSort())
            x = z3.Const('x', c.StrS)
            c.axiom('str_' + name, FA([x], f(x, x), f(x, x)), FA([x], f(x, c.lit('')), f(x, c.lit(''))))
            if v.lit is not None or True:
                self.lit_facts(name, f)
            return [(st, VBool(f(v.e, args[0].e)))]
        if name in self.STR_BOOL:
            f = c.uf('str_' + name, c.StrS, z3.BoolSort())
            return [(st, VBool(f(v.e)))]
        if name == 'format':
            return [(st, self.opaque_str(st, 'format', args))]
        if name in self.STR_STR:
            for a in args:
                if not isinstance(a, (VStr, VInt)):
                    raise Unsupported(f'str.{name} argument', node)
            f = c.uf(f'str_{name}_{len(args)}', c.StrS, *[a.e.sort() for a in args], c.StrS)
            return [(st, VStr(f(v.e, *[a.e for a in args])))]
        if name in ('find', 'rfind', 'count'):
            if c.strmode == 'z3' and name == 'find' and len(args) == 1:
                return [(st, VInt(z3.IndexOf(v.e, args[0].e, 0)))]
            f = c.uf('str_' + name, c.StrS, c.StrS, z3.IntSort())
            return [(st, VInt(f(v.e, args[0].e)))]
        if name in ('split', 'rsplit', 'splitlines'):
            return self.str_split(st, v, name, args, kw, node)
        if name == 'join':
            return self.str_join(st, v, args[0], node)
        if name == 'encode':
            return [(st, VOpaque('bytes'))]
        raise Unsupported(f'str.{name}', node)

    def lit_facts(self, name, f):
        """Ground facts about literals, added at the end (see verify)."""
        self.ctx.__dict__.setdefault('lit_preds', {})[name] = f

    def str_split(self, st, v, name, args, kw, node):
        c = self.ctx
        sep = args[0] if args else kw.get('sep')
        mx = args[1] if len(args) > 1 else kw.get('maxsplit')
        I = z3.IntSort()
        A = z3.ArraySort(I, c.StrS)
        s = st.copy()
        if c.strmode == 'z3' and sep is not None and name == 'split':
            if mx is not None:
                m = z3.simplify(mx.e)
                if not (z3.is_int_value(m) and m.as_long() == 1):
                    raise Unsupported('maxsplit', node)
                i = z3.IndexOf(v.e, sep.e, 0)
                out = []
                for s2, b in self.split(s, z3.Contains(v.e, sep.e)):
                    if b:
                        out.extend(self.list_of(s2, [VStr(z3.SubString(v.e, 0, i)),
                                                     VStr(z3.SubString(v.e, i + z3.Length(sep.e), z3.Length(v.e) - i - z3.Length(sep.e)))], node))
                    else:
                        out.extend(self.list_of(s2, [v], node))
                return out
        tag = name + ('_' + str(z3.simplify(mx.e)) if mx is not None else '')
        if sep is None:
            N, E = c.uf(tag + '_n', c.StrS, I), c.uf(tag + '_e', c.StrS, A)
            n, e = N(v.e), E(v.e)
            s.assume(n >= 0)
        else:
            N, E = c.uf(tag + '_n', c.StrS, c.StrS, I), c.uf(tag + '_e', c.StrS, c.StrS, A)
            n, e = N(v.e, sep.e), E(v.e, sep.e)
            s.assume(n >= 1)
            if mx is not None and name == 'split':
                m = z3.simplify(mx.e)
                s.assume(n <= m + 1)
                if z3.is_int_value(m) and m.as_long() == 1:
                    s.assume((n == 2) == self.str_contains(v, sep), z3.Implies(n == 1, e[0] == v.e))
                    cat = self.strcat(s, self.strcat(s, VStr(e[0]), sep), VStr(e[1]))
                    s.assume(z3.Implies(n == 2, cat.e == v.e))
            if mx is None and name == 'split':
                self.split_axioms(sep)
                if c.strmode == 'z3':
                    i = z3.IndexOf(v.e, sep.e, 0)
                    s.assume(e[0] == z3.If(z3.Contains(v.e, sep.e), z3.SubString(v.e, 0, i), v.e),
                             (n > 1) == z3.Contains(v.e, sep.e))
        self.ctx.trusted.add('str.split/str.join: standard-library contract (split by a separator and join are inverse)')
        return [(s, self.newlist(s, n, e, Str))]

    def split_axioms(self, sep):
        c = self.ctx
        I, A = z3.IntSort(), z3.ArraySort(z3.IntSort(), c.StrS)
        N, E = c.uf('split_n', c.StrS, c.StrS, I), c.uf('split_e', c.StrS, c.StrS, A)
        J = self.joinf()
        x, sp = z3.Consts('x sp', c.StrS)
        c.axiom('split_join', FA([x, sp], z3.And(N(x, sp) >= 1, J(sp, E(x, sp), N(x, sp)) == x), N(x, sp)))

    def joinf(self):
        c = self.ctx
        A = z3.ArraySort(z3.IntSort(), c.StrS)
        J = c.uf('str_join', c.StrS, A, z3.IntSort(), c.StrS)
        return J

    def str_join(self, st, sep, it, node):
        def f(s, l):
            s = s.copy()
            t = self.lelem(s, l)
            if t is None:
                return [(s, self.const(''))]
            if t != Str:
                raise Unsupported('join of non-strings', node)
            n, arr = self.lnarr(s, l)
            J = self.joinf()
            e = J(sep.e, arr, n)
            s.extra = dict(s.extra, joins=s.extra.get('joins', ()) + ((sep.e, arr, n),))
            s.assume(z3.Implies(n == 0, e == self.ctx.lit('')), z3.Implies(n == 1, e == arr[0]))
            return [(s, VStr(e))]
        return self.bind(self.bi_list(st, [it], {}, node), f)


_tmp = z3.Int('tmp!swap')


def fv_tmp():
    return _tmp


class LambdaT(T):
    def __repr__(self):
        return 'Lambda'
