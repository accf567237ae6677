"""Expression evaluation."""
import ast
import z3
from .core import *
from .core import _cnt
from .source import FuncInfo, ClassInfo
from . import interp as _i
from .interp import Interp, BUILTINS, BUILTIN_EXC, Outcome, Obligation, has_quant


class VExc(V):
    def __init__(self, cls, args=(), ci=None):
        self.cls, self.args, self.ci = cls, args, ci


class VUnbound(V):
    pass


class VGen(V):
    """Unevaluated generator expression."""
    def __init__(self, node):
        self.node = node


def fv():
    return z3.Int(f'j!{next(_cnt)}')


def FA(vs, body, *pats):
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
    try:
        return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


class Eval(Interp):

    # ------------------------------------------------------------ entry
    def ev(self, st, node):
        self.line = getattr(node, 'lineno', self.line)
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(node).__name__}', node)
        return m(st, node)

    def evs(self, st, nodes):
        res = [(st, [])]
        for nd in nodes:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(s, nd):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            res = nxt
        return res

    def cond(self, st, node):
        """Evaluate node as a condition: [(st, z3 Bool | Exc)]"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else z3.Not(b)) for s, b in self.cond(st, node.operand)]
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            res = [(st, None)]
            out = []
            for k, nd in enumerate(node.values):
                nxt = []
                for s, _ in res:
                    for s2, b in self.cond(s, nd):
                        if isinstance(b, Exc) or k == len(node.values) - 1:
                            out.append((s2, b))
                            continue
                        for s3, tv in self.split(s2, b):
                            if tv == isand:
                                nxt.append((s3, None))
                            else:
                                out.append((s3, z3.BoolVal(tv)))
                res = nxt
            return out
        return self.bind(self.ev(st, node), lambda s, v: self.truth(s, v, node))

    # ------------------------------------------------------------ atoms
    def const(self, v):
        if v is None:
            return VNone()
        if isinstance(v, bool):
            return VBool(v)
        if isinstance(v, int):
            return VInt(v)
        if isinstance(v, float):
            return VReal(str(v))
        if isinstance(v, str):
            return VStr(self.ctx.lit(v), v)
        raise Unsupported(f'constant {v!r}')

    def ev_Constant(self, st, node):
        if node.value is Ellipsis or isinstance(node.value, bytes):
            return [(st, VOpaque('const'))]
        return [(st, self.const(node.value))]

    def ev_Name(self, st, node):
        n = node.id
        if n in st.env:
            v = st.env[n]
            if isinstance(v, VUnbound):
                return [(st, self.exc('UnboundLocalError', node, (n,)))]
            return [(st, v)]
        return self.global_name(st, n, node)

    def global_name(self, st, n, node):
        mod = self.frames[-1].module
        r = self.prog.resolve(mod, n)
        if r is not None:
            return [(st, self.entity(st, r, n, node))]
        if n in BUILTINS or n in BUILTIN_EXC:
            return [(st, VBuiltin(n) if n not in BUILTIN_EXC else VClass(n))]
        return [(st, self.exc('NameError', node, (n,)))]

    def entity(self, st, r, n, node):
        k = r[0]
        if k == 'func':
            return VFunc(r[1])
        if k == 'class':
            return VClass(r[1].name, r[1])
        if k == 'module':
            return VModule(r[1].name, r[1])
        if k == 'external':
            return VModule(r[1])
        if k == 'const':
            ext = self.schema.global_const(n, self.frames[-1].module.name)
            if ext is not None:
                return ext
            try:
                lit = ast.literal_eval(r[1])
            except (ValueError, SyntaxError):
                return VOpaque(f'global {n}')
            return self.literal(st, lit)
        raise Unsupported(f'global {n}', node)

    def literal(self, st, v):
        if isinstance(v, tuple):
            return VTuple([self.literal(st, x) for x in v])
        if isinstance(v, (list, set, dict)):
            return VOpaque('literal container')
        return self.const(v)

    def ev_Tuple(self, st, node):
        return self.bind(self.evs(st, node.elts), lambda s, vs: [(s, VTuple(vs))])

    def ev_List(self, st, node):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.star_list(st, node)
        def mk(s, vs):
            return self.list_of(s, vs, node)
        return self.bind(self.evs(st, node.elts), mk)

    def star_list(self, st, node):
        raise Unsupported('starred list', node)

    def list_of(self, s, vs, node=None):
        if not vs:
            return [(s, self.newlist(s, z3.IntVal(0), None, None))]
        t = None
        for v in vs:
            t = self.join_t(t, self.typ(v, s))
        def fin(s2, es):
            arr = self.ctx.fresh('lst', z3.ArraySort(z3.IntSort(), self.ctx.sort(t)))
            for i, e in enumerate(es):
                arr = z3.Store(arr, i, e)
            return [(s2, self.newlist(s2, z3.IntVal(len(es)), arr, t))]
        return self.convs(s, vs, [t] * len(vs), fin, node)

    def ev_Set(self, st, node):
        return self.bind(self.evs(st, node.elts), lambda s, vs: [(s, VTuple(vs))])

    def ev_Dict(self, st, node):
        if not node.keys:
            return [(st, VDict(self.newcell(st, Cell('dict', None, n=z3.IntVal(0)))))]
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in node.keys):
            ks = [k.value for k in node.keys]
            return self.bind(self.evs(st, node.values), lambda s, vs: [(s, VRec(dict(zip(ks, vs))))])
        return self.bind(self.evs(st, node.values), lambda s, vs: [(s, VOpaque('dict'))])

    def ev_JoinedStr(self, st, node):
        vals = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        simple = all(v.conversion == -1 and v.format_spec is None for v in node.values
                     if isinstance(v, ast.FormattedValue))

        def fin(s, vs):
            if simple:
                parts, it = [], iter(vs)
                for p in node.values:
                    parts.append(self.const(p.value) if isinstance(p, ast.Constant) else next(it))
                return self.concat_strs(s, parts, node)
            return [(s, self.opaque_str(s, 'fstring', vs))]
        return self.bind(self.evs(st, vals), fin)

    def concat_strs(self, st, parts, node):
        """Concatenate str() of the parts."""
        if self.ctx.strmode != 'z3' and all(isinstance(p, VStr) and p.lit is not None for p in parts):
            return [(st, self.const(''.join(p.lit for p in parts)))]
        res = [(st, [])]
        for p in parts:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                for s2, x in self.to_str(s, p, node):
                    nxt.append((s2, x if isinstance(x, Exc) else acc + [x]))
            res = nxt
        out = []
        for s, acc in res:
            if isinstance(acc, Exc):
                out.append((s, acc))
                continue
            r = None
            for x in acc:
                r = x if r is None else self.strcat(s, r, x)
            out.append((s, r if r is not None else self.const('')))
        return out

    def strcat(self, st, a, b):
        if a.lit is not None and b.lit is not None:
            return self.const(a.lit + b.lit)
        if a.lit == '':
            return b
        if b.lit == '':
            return a
        if self.ctx.strmode == 'z3':
            return VStr(z3.Concat(a.e, b.e))
        S = self.ctx.StrS
        f = self.ctx.uf('str_cat', S, S, S)
        x, y, z = z3.Consts('x y z', S)
        e = self.ctx.lit('')
        self.ctx.axiom('str_cat_assoc', FA([x, y, z], f(f(x, y), z) == f(x, f(y, z)), f(f(x, y), z)))
        self.ctx.axiom('str_cat0', FA([x, y], z3.Implies(f(x, y) == e, z3.And(x == e, y == e)), f(x, y)),
                       FA([x], f(x, e) == x, f(x, e)), FA([x], f(e, x) == x, f(e, x)))
        return VStr(f(a.e, b.e))

    def to_str(self, st, v, node):
        """str(v): [(st, VStr|Exc)]"""
        c = self.ctx
        if isinstance(v, VStr):
            return [(st, v)]
        if isinstance(v, VInt):
            z = z3.simplify(v.e)
            if z3.is_int_value(z):
                return [(st, self.const(str(z.as_long())))]
            if c.strmode == 'z3':
                return [(st, VStr(z3.If(v.e < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.e)), z3.IntToStr(v.e))))]
            f = c.uf('str_of_int', z3.IntSort(), c.StrS)
            g = c.uf('int_of_str', c.StrS, z3.IntSort())
            x = z3.Int('x')
            c.axiom('str_of_int', FA([x], g(f(x)) == x, f(x)))
            return [(st, VStr(f(v.e)))]
        if isinstance(v, VReal):
            f = c.uf('str_of_real', z3.RealSort(), c.StrS)
            return [(st, VStr(f(v.e)))]
        if isinstance(v, VNone):
            return [(st, self.const('None'))]
        if isinstance(v, VBool):
            return [(st, VStr(z3.If(v.e, c.lit('True'), c.lit('False'))))]
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.to_str(s, x, node))
        if isinstance(v, VRef):
            h = self.schema.str_handler(self, st, v, node)
            if h is not None:
                return h
        return [(st, self.opaque_str(st, 'str', [v]))]

    def opaque_str(self, st, what, vs=()):
        self.ctx.trusted.add('formatting of a value into a string (assumed total, effect-free, result unspecified)')
        return VStr(self.ctx.fresh('s_' + what, self.ctx.StrS))

    def ev_FormattedValue(self, st, node):
        return self.ev(st, node.value)

    def ev_Lambda(self, st, node):
        return [(st, VLambda(node, dict(st.env), self.frames[-1]))]

    def ev_GeneratorExp(self, st, node):
        return [(st, VGen(node))]

    def ev_IfExp(self, st, node):
        out = []
        for s, b in self.cond(st, node.test):
            if isinstance(b, Exc):
                out.append((s, b))
                continue
            for s2, tv in self.split(s, b):
                out.extend(self.ev(s2, node.body if tv else node.orelse))
        return out

    def ev_BoolOp(self, st, node):
        isand = isinstance(node.op, ast.And)
        res = [st]
        out = []
        for k, nd in enumerate(node.values):
            nxt = []
            for s in res:
                for s2, v in self.ev(s, nd):
                    if isinstance(v, Exc) or k == len(node.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, nd):
                        if isinstance(b, Exc):
                            out.append((s3, b))
                            continue
                        for s4, tv in self.split(s3, b):
                            if tv == isand:
                                nxt.append(s4)
                            else:
                                out.append((s4, v))
            res = nxt
        return out

    def ev_UnaryOp(self, st, node):
        if isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else VBool(z3.Not(b))) for s, b in self.cond(st, node.operand)]

        def f(s, v):
            if isinstance(v, VAny):
                return self.bind(self.unbox(s, v), f)
            if isinstance(node.op, ast.USub) and isinstance(v, (VInt, VReal)):
                return [(s, type(v)(-v.e))]
            if isinstance(node.op, ast.UAdd) and isinstance(v, (VInt, VReal)):
                return [(s, v)]
            raise Unsupported('unary op', node)
        return self.bind(self.ev(st, node.operand), f)

    def ev_NamedExpr(self, st, node):
        def f(s, v):
            s = s.copy()
            s.env[node.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(st, node.value), f)

    # ------------------------------------------------------------ arithmetic
    def ev_BinOp(self, st, node):
        return self.bind(self.evs(st, [node.left, node.right]),
                         lambda s, vs: self.binop(s, type(node.op).__name__, vs[0], vs[1], node))

    def binop(self, st, op, a, b, node, inplace=False):
        if isinstance(a, VAny) or isinstance(b, VAny):
            out = []
            for s, x in self.unbox(st, a):
                for s2, y in self.unbox(s, b):
                    out.extend(self.binop(s2, op, x, y, node))
            return out
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            return [(st, VOpaque('binop'))]
        num = (VInt, VReal, VBool)
        if isinstance(a, num) and isinstance(b, num):
            x, y = self.numpair(a, b)
            isint = x.sort() == z3.IntSort()
            mk = VInt if isint else VReal
            if op == 'Add':
                return [(st, mk(x + y))]
            if op == 'Sub':
                return [(st, mk(x - y))]
            if op == 'Mult':
                return [(st, mk(x * y))]
            if op in ('FloorDiv', 'Mod', 'Div'):
                out = []
                for s, z in self.split(st, y == 0):
                    if z:
                        out.append((s, self.exc('ZeroDivisionError', node)))
                        continue
                    if op == 'Div':
                        xr = z3.ToReal(x) if isint else x
                        yr = z3.ToReal(y) if isint else y
                        out.append((s, VReal(xr / yr)))
                    elif isint:
                        # Python floors; z3 div is euclidean: they agree for a positive divisor
                        for s2, pos in self.split(s, y > 0):
                            if not pos:
                                raise Unsupported('division by a negative number', node)
                            out.append((s2, VInt(x / y if op == 'FloorDiv' else x % y)))
                    else:
                        if z3.is_rational_value(z3.simplify(y)) and z3.simplify(y).as_fraction() == 1 and op == 'Mod':
                            out.append((s, VReal(x - z3.ToReal(z3.ToInt(x)))))
                        else:
                            raise Unsupported('float division', node)
                return out
            if op == 'Pow':
                raise Unsupported('power', node)
            if op in ('BitOr', 'BitAnd') and isinstance(a, VBool) and isinstance(b, VBool):
                return [(st, VBool(z3.Or(a.e, b.e) if op == 'BitOr' else z3.And(a.e, b.e)))]
        if op == 'Add' and isinstance(a, VStr) and isinstance(b, VStr):
            return [(st, self.strcat(st, a, b))]
        if op == 'Mod' and isinstance(a, VStr):
            return [(st, self.opaque_str(st, 'percent', [a, b]))]
        if op == 'Mult' and (isinstance(a, VStr) or isinstance(b, VStr)):
            s_, n_ = (a, b) if isinstance(a, VStr) else (b, a)
            if isinstance(n_, VInt):
                f = self.ctx.uf('str_rep', self.ctx.StrS, z3.IntSort(), self.ctx.StrS)
                return [(st, VStr(f(s_.e, n_.e)))]
        if op == 'Add' and isinstance(a, VList) and isinstance(b, VList):
            return self.list_concat(st, a, b, node)
        if op == 'Add' and isinstance(a, VTuple) and isinstance(b, VTuple):
            return [(st, VTuple(a.items + b.items))]
        if op == 'Mult' and isinstance(a, VList) and isinstance(b, VInt):
            return self.list_repeat(st, a, b, node)
        if op in ('Sub', 'BitOr', 'BitAnd') and isinstance(a, VSet) and isinstance(b, VSet):
            return self.set_op(st, op, a, b, node)
        if isinstance(a, (VNone, VStr, VList, VRef)) or isinstance(b, (VNone, VStr, VList, VRef)):
            if isinstance(a, VRef):
                m = {'Add': '__add__', 'Sub': '__sub__'}.get(op)
                if m and all(self.member(cl, m) for cl in self.classes_of(st, a)):
                    return self.call_method(st, a, m, [b], {}, node)
            if isinstance(b, VRef):
                raise Unsupported('arithmetic on an object', node)
            return [(st, self.exc('TypeError', node, (op,)))]
        raise Unsupported(f'{op} on {type(a).__name__},{type(b).__name__}', node)

    def list_repeat(self, st, a, b, node):
        n, arr = self.lnarr(st, a)
        n = z3.simplify(n)
        if not (z3.is_int_value(n) and n.as_long() == 1):
            raise Unsupported('list repetition', node)
        t = self.lelem(st, a)
        m = z3.If(b.e > 0, b.e, z3.IntVal(0))
        s = st.copy()
        return [(s, self.newlist(s, m, z3.K(z3.IntSort(), arr[0]), t))]

    # ------------------------------------------------------------ comparisons
    def ev_Compare(self, st, node):
        if len(node.ops) == 1:
            return self.bind(self.evs(st, [node.left, node.comparators[0]]),
                             lambda s, vs: [(s2, r if isinstance(r, Exc) else VBool(r))
                                            for s2, r in self.compare(s, node.ops[0], vs[0], vs[1], node)])
        # chain
        def go(s, left, k):
            out = []
            for s2, right in self.ev(s, node.comparators[k]):
                if isinstance(right, Exc):
                    out.append((s2, right))
                    continue
                for s3, r in self.compare(s2, node.ops[k], left, right, node):
                    if isinstance(r, Exc) or k == len(node.ops) - 1:
                        out.append((s3, r if isinstance(r, Exc) else VBool(r)))
                        continue
                    for s4, tv in self.split(s3, r):
                        if tv:
                            out.extend(go(s4, right, k + 1))
                        else:
                            out.append((s4, VBool(False)))
            return out
        return self.bind(self.ev(st, node.left), lambda s, v: go(s, v, 0))

    def compare(self, st, op, a, b, node):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            r = self.isf(st, a, b, node)
            return [(st, z3.Not(r) if o == 'IsNot' else r)]
        if o in ('Eq', 'NotEq'):
            res = self.equal(st, a, b, node)
            return [(s, r if isinstance(r, Exc) or o == 'Eq' else z3.Not(r)) for s, r in res]
        if o in ('In', 'NotIn'):
            res = self.contains(st, a, b, node)
            return [(s, r if isinstance(r, Exc) or o == 'In' else z3.Not(r)) for s, r in res]
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[o]
        return self.less(st, a, b, node, sym)

    def isf(self, st, a, b, node):
        if isinstance(a, VList) and isinstance(b, VList):
            if a.cell == b.cell:
                return z3.BoolVal(True)
            ca, cb = st.cells[a.cell], st.cells[b.cell]
            if ca.loc is None or cb.loc is None:
                return z3.BoolVal(False)
            if ca.loc[0] == cb.loc[0]:
                return ca.loc[1] == cb.loc[1]
            return z3.BoolVal(False)
        if isinstance(a, (VInt, VStr)) and isinstance(b, (VInt, VStr)):
            raise Unsupported('identity of numbers or strings', node)
        if isinstance(a, VClass) and isinstance(b, VClass):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, VBool) != isinstance(b, VBool) and isinstance(a, (VBool, VInt, VReal)) and isinstance(b, (VBool, VInt, VReal)):
            return z3.BoolVal(False)
        return self.eqf(st, a, b, node)

    def contains(self, st, x, c, node):
        if isinstance(c, VAny):
            return self.bind(self.unbox(st, c), lambda s, v: self.contains(s, x, v, node))
        if isinstance(c, VTuple):
            res = [(st, z3.BoolVal(False))]
            for it in c.items:
                nxt = []
                for s, acc in res:
                    if isinstance(acc, Exc):
                        nxt.append((s, acc))
                        continue
                    for s2, e in self.equal(s, x, it, node):
                        nxt.append((s2, e if isinstance(e, Exc) else z3.Or(acc, e)))
                res = nxt
            return res
        if isinstance(c, VList):
            n, arr = self.lnarr(st, c)
            t = self.lelem(st, c)
            if t is None:
                return [(st, z3.BoolVal(False))]
            if isinstance(t, RefT) and isinstance(x, VRef) or isinstance(t, Prim) and type(x) in (VInt, VStr):
                xe = x.e
                if xe.sort() != self.ctx.sort(t):
                    return [(st, z3.BoolVal(False))]
                return [(st, self.ctx.mem(arr, n, xe))]
            if isinstance(x, VNone) and isinstance(t, RefT) and not t.nullable:
                return [(st, z3.BoolVal(False))]
            j = fv()
            el = self.decode(arr[j], t, st)
            f = self.eqf(st, x, el, node)
            return [(st, z3.Exists([j], z3.And(0 <= j, j < n, f)))]
        if isinstance(c, VSet):
            cell = st.cells[c.cell]
            if cell.elem is None:
                return [(st, z3.BoolVal(False))]
            res = []
            for s, e in self.conv(st, x, cell.elem, node):
                res.append((s, z3.BoolVal(False) if isinstance(e, Exc) else cell.has[e]))
            return res
        if isinstance(c, VDict):
            n, has, val, karr, kt, vt = self.dparts(st, c)
            if kt is None:
                return [(st, z3.BoolVal(False))]
            res = []
            for s, e in self.conv(st, x, kt, node):
                res.append((s, z3.BoolVal(False) if isinstance(e, Exc) else has[e]))
            return res
        if isinstance(c, VRec):
            if isinstance(x, VStr) and x.lit is not None:
                return [(st, z3.BoolVal(x.lit in c.fields))]
            return [(st, z3.Or([x.e == self.ctx.lit(k) for k in c.fields]))]
        if isinstance(c, VStr):
            if not isinstance(x, VStr):
                return [(st, self.exc('TypeError', node))]
            return [(st, self.str_contains(c, x))]
        if isinstance(c, VRef):
            if all(self.member(cl, '__contains__') for cl in self.classes_of(st, c)):
                return self.bind(self.call_method(st, c, '__contains__', [x], {}, node),
                                 lambda s, v: self.truth(s, v, node))
            h = self.schema.contains_handler(self, st, x, c, node)
            if h is not None:
                return h
            return [(st, self.exc('TypeError', node, ('not iterable',)))]
        if isinstance(c, VView):
            j = fv()
            el = c.get(j)
            return [(st, z3.Exists([j], z3.And(0 <= j, j < c.n, self.eqf(st, x, el, node))))]
        if isinstance(c, VOpaque):
            return [(st, self.ctx.fresh('opaque_in', z3.BoolSort()))]
        raise Unsupported(f'in {type(c).__name__}', node)

    def str_contains(self, hay, needle):
        if hay.lit is not None and needle.lit is not None:
            return z3.BoolVal(needle.lit in hay.lit)
        if self.ctx.strmode == 'z3':
            return z3.Contains(hay.e, needle.e)
        return self.ctx.uf('str_contains', self.ctx.StrS, self.ctx.StrS, z3.BoolSort())(hay.e, needle.e)

    # ------------------------------------------------------------ attributes
    def ev_Attribute(self, st, node):
        return self.bind(self.ev(st, node.value), lambda s, v: self.getattr_(s, v, node.attr, node))

    def attr_groups(self, st, v, name):
        groups = {}
        for cl in sorted(self.classes_of(st, v)):
            m = self.member(cl, name)
            k = self.schema.fkey(cl, name)
            if m is not None:
                owner, mem = m
                if isinstance(mem, tuple) and mem[0] == 'prop':
                    p = ('prop', mem[1].qual if mem[1] else None)
                    pay = ('prop', mem)
                elif isinstance(mem, tuple):
                    if k is not None:
                        p = pay = ('field', k)
                    else:
                        p = ('const', owner.qual)
                        pay = ('const', mem[1], owner)
                else:
                    p, pay = ('meth', mem.qual), ('meth', mem)
            elif k is not None:
                p = pay = ('field', k)
            else:
                p = pay = ('none', name)
            groups.setdefault(p, (set(), pay))[0].add(cl)
        return [(frozenset(cs), pay) for cs, pay in groups.values()]

    def getattr_(self, st, v, name, node):
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.getattr_(s, x, name, node))
        if isinstance(v, VRef):
            out = []
            for s, v1 in self.nonnull(st, v, node, name):
                if isinstance(v1, Exc):
                    out.append((s, v1))
                    continue
                for s2, pay, v2 in self.split_class(s, v1, self.attr_groups(s, v1, name)):
                    if pay[0] == 'prop':
                        if pay[1][1] is None:
                            out.append((s2, self.exc('AttributeError', node, (name,))))
                        else:
                            out.extend(self.call_func(s2, pay[1][1], [v2], {}, node))
                    elif pay[0] == 'meth':
                        fi = pay[1]
                        out.append((s2, VFunc(fi, None if fi.kind == 'static' else v2)))
                    elif pay[0] == 'field':
                        if self.is_uninit(s2, v2.e, pay[1]):
                            out.append((s2, VNone()))
                        else:
                            out.extend(self.read_key(s2, pay[1], v2.e))
                    elif pay[0] == 'const':
                        self.frames.append(FuncInfo('<class>', None, pay[2].module, pay[2]))
                        try:
                            out.extend(self.ev(s2, pay[1]))
                        finally:
                            self.frames.pop()
                    else:
                        out.append((s2, self.exc('AttributeError', node, (name,))))
            return out
        if isinstance(v, VNone):
            return [(st, self.exc('AttributeError', node, (f'None.{name}',)))]
        if isinstance(v, VList):
            cell = st.cells[v.cell]
            if name in cell.attrs:
                return [(st, cell.attrs[name])]
            return [(st, VBuiltin(name, v))]
        if isinstance(v, VModule):
            if v.mod is not None:
                r = self.prog.resolve(v.mod, name)
                if r is None:
                    sub = self.prog.module(v.mod.name + '.' + name)
                    if sub is not None:
                        return [(st, VModule(sub.name, sub))]
                    return [(st, self.exc('AttributeError', node, (name,)))]
                return [(st, self.entity(st, r, name, node))]
            sub = self.prog.module(v.name + '.' + name)
            if sub is not None:
                return [(st, VModule(sub.name, sub))]
            return [(st, VModule(v.name + '.' + name))]
        if isinstance(v, VClass):
            if v.ci is not None:
                m = self.prog.lookup(v.ci, name)
                if m is not None:
                    owner, mem = m
                    if isinstance(mem, tuple):
                        if mem[0] == 'const':
                            self.frames.append(FuncInfo('<class>', None, owner.module, owner))
                            try:
                                return self.ev(st, mem[1])
                            finally:
                                self.frames.pop()
                        raise Unsupported('property of a class object', node)
                    return [(st, VFunc(mem, v if mem.kind == 'classmethod' else None))]
            if name == '__name__':
                return [(st, self.const(v.name))]
            return [(st, VBuiltin(f'{v.name}.{name}'))]
        if isinstance(v, VBuiltin):
            return [(st, VBuiltin(f'{v.name}.{name}'))]
        if isinstance(v, VSuper):
            m = self.prog.lookup(self.super_ci(v), name, after=v.cls)
            if m is None:
                return [(st, VBuiltin('super.' + name, v.obj))]
            mem = m[1]
            if isinstance(mem, tuple) and mem[0] == 'prop':
                return self.call_func(st, mem[1], [v.obj], {}, node)
            return [(st, VFunc(mem, v.obj))]
        if isinstance(v, VOpaque):
            return [(st, VOpaque(v.what + '.' + name))]
        if isinstance(v, VExc):
            return [(st, VOpaque('exception attribute'))]
        if isinstance(v, (VStr, VDict, VSet, VTuple, VRec, VView, VInt, VReal, VBool)):
            if isinstance(v, VRec) and name not in ('get', 'items', 'keys', 'values', 'copy', 'update'):
                return [(st, self.exc('AttributeError', node, (name,)))]
            return [(st, VBuiltin(name, v))]
        raise Unsupported(f'attribute {name} of {type(v).__name__}', node)

    def super_ci(self, v):
        obj = v.obj
        if isinstance(obj, VRef):
            if len(obj.classes) == 1:
                ci = self.cinfo(next(iter(obj.classes)))
                if ci is not None:
                    return ci
        return v.cls

    def is_uninit(self, st, e, key):
        u = st.extra.get('uninit')
        return bool(u) and (e.get_id(), key) in u

    def setattr_(self, st, v, name, val, node):
        """[(st, None|Exc)]"""
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.setattr_(s, x, name, val, node))
        if isinstance(v, VRef):
            out = []
            for s, v1 in self.nonnull(st, v, node, name):
                if isinstance(v1, Exc):
                    out.append((s, v1))
                    continue
                for s2, pay, v2 in self.split_class(s, v1, self.attr_groups(s, v1, name)):
                    if pay[0] == 'prop':
                        if pay[1][2] is None:
                            out.append((s2, self.exc('AttributeError', node, (name,))))
                        else:
                            out.extend(self.call_func(s2, pay[1][2], [v2, val], {}, node))
                    elif pay[0] == 'field':
                        out.extend(self.assign_key(s2, pay[1], v2.e, val, node))
                    else:
                        out.append((s2, self.exc('AttributeError', node, (name,))))
            return out
        if isinstance(v, VNone):
            return [(st, self.exc('AttributeError', node, (f'None.{name}',)))]
        if isinstance(v, VList):
            s = st.copy()
            cell = s.cells[v.cell]
            s.cells[v.cell] = cell.copy(attrs=dict(cell.attrs, **{name: val}))
            return [(s, VNone())]
        if isinstance(v, VOpaque):
            return [(st, VNone())]
        raise Unsupported(f'attribute assignment on {type(v).__name__}', node)

    def assign_key(self, st, key, obj, val, node):
        t = self.schema.field(key)
        fresh_obj = any(obj.eq(o) for o in st.extra.get('new', ()))
        isnone = isinstance(val, VNone)
        if fresh_obj and isnone and not self.nullable_t(t):
            s = st.copy()
            s.extra['uninit'] = s.extra.get('uninit', frozenset()) | {(obj.get_id(), key)}
            return [(s, VNone())]
        res = self.write_key(st, key, obj, val, node)
        if self.is_uninit(st, obj, key):
            for s, r in res:
                s.extra = dict(s.extra, uninit=s.extra['uninit'] - {(obj.get_id(), key)})
        return res

    def nullable_t(self, t):
        if isinstance(t, Un):
            return 'none' in t.alts
        return getattr(t, 'nullable', False)

    # ------------------------------------------------------------ subscripts
    def ev_Subscript(self, st, node):
        if isinstance(node.slice, ast.Slice):
            parts = [p for p in (node.slice.lower, node.slice.upper, node.slice.step) if p is not None]

            def f(s, vs):
                base, rest = vs[0], vs[1:]
                it = iter(rest)
                lo = next(it) if node.slice.lower is not None else None
                hi = next(it) if node.slice.upper is not None else None
                step = next(it) if node.slice.step is not None else None
                return self.slice_(s, base, lo, hi, step, node)
            return self.bind(self.evs(st, [node.value] + parts), f)
        inner = node.value
        if isinstance(inner, ast.Subscript) and not isinstance(inner.slice, ast.Slice):
            def g(s, vs):
                if not self.is_table(s, vs[0]):
                    return self.bind(self.getitem(s, vs[0], vs[1], inner), lambda s2, b: self.bind(
                        self.ev(s2, node.slice), lambda s3, i: self.getitem(s3, b, i, node)))
                return self.bind(self.ev(s, node.slice), lambda s2, i: self.table_get(s2, vs[0], vs[1], i, node))
            return self.bind(self.evs(st, [inner.value, inner.slice]), g)
        return self.bind(self.evs(st, [node.value, node.slice]), lambda s, vs: self.getitem(s, vs[0], vs[1], node))

    # tables: lists of rows which are reached in no other way
    def is_table(self, st, v):
        return isinstance(v, VList) and isinstance(self.lelem(st, v), RowT)

    def table_cell(self, st, tab, i, j, node):
        """[(st, (row index, column index) | Exc)]"""
        if not isinstance(i, VInt) or not isinstance(j, VInt):
            raise Unsupported('index of a table', node)
        n, arr = self.lnarr(st, tab)
        acc = self.ctx.seqsort(self.lelem(st, tab))[2]
        out = []
        for s, e in self.index_cases(st, n, i.e, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            out.extend((s2, e2 if isinstance(e2, Exc) else (e, e2)) for s2, e2 in self.index_cases(s, acc[0](arr[e]), j.e, node))
        return out

    def table_get(self, st, tab, i, j, node):
        def f(s, ij):
            t = self.lelem(s, tab)
            arr = self.lnarr(s, tab)[1]
            return [(s, self.decode(self.ctx.seqsort(t)[2][1](arr[ij[0]])[ij[1]], t.elem, s))]
        return self.bind(self.table_cell(st, tab, i, j, node), f)

    def table_set(self, st, tab, i, j, v, node):
        def f(s, ij):
            t = self.lelem(s, tab)
            _, mk, acc = self.ctx.seqsort(t)

            def g(s2, x):
                s2 = s2.copy()
                n, arr = self.lnarr(s2, tab)
                row = arr[ij[0]]
                self.lset(s2, tab, n, z3.Store(arr, ij[0], mk(acc[0](row), z3.Store(acc[1](row), ij[1], x))), node)
                return [(s2, VNone())]
            return self.bind(self.conv(s, v, t.elem, node), g)
        return self.bind(self.table_cell(st, tab, i, j, node), f)

    def index_cases(self, st, n, i, node):
        """Python index normalisation: [(st, z3 index | Exc)]"""
        z = z3.simplify(i)
        out = []
        if z3.is_int_value(z):
            k = z.as_long()
            e = i if k >= 0 else n + k
            for s, b in self.split(st, z3.And(e >= 0, e < n)):
                out.append((s, e if b else self.exc('IndexError', node)))
            return out
        for s, neg in self.split(st, i < 0):
            e = n + i if neg else i
            for s2, b in self.split(s, e >= 0 if neg else e < n):
                out.append((s2, e if b else self.exc('IndexError', node)))
        return out

    def getitem(self, st, c, i, node):
        if isinstance(c, VAny) or isinstance(i, VAny):
            out = []
            for s, x in self.unbox(st, c):
                if isinstance(x, VRef) or not isinstance(i, VAny):
                    out.extend(self.getitem1(s, x, i, node))
                else:
                    for s2, y in self.unbox(s, i):
                        out.extend(self.getitem1(s2, x, y, node))
            return out
        return self.getitem1(st, c, i, node)

    def getitem1(self, st, c, i, node):
        if isinstance(c, VList):
            if not isinstance(i, VInt):
                return [(st, self.exc('TypeError', node))]
            n, arr = self.lnarr(st, c)
            t = self.lelem(st, c)
            out = []
            for s, e in self.index_cases(st, n, i.e, node):
                if isinstance(e, Exc):
                    out.append((s, e))
                else:
                    out.append((s, self.decode(arr[e], t, s)))
            return out
        if isinstance(c, VView):
            out = []
            for s, e in self.index_cases(st, c.n, i.e, node):
                out.append((s, e if isinstance(e, Exc) else c.get(e)))
            return out
        if isinstance(c, VTuple):
            z = z3.simplify(i.e) if isinstance(i, VInt) else None
            if z is None or not z3.is_int_value(z):
                raise Unsupported('tuple index', node)
            k = z.as_long()
            if -len(c.items) <= k < len(c.items):
                return [(st, c.items[k])]
            return [(st, self.exc('IndexError', node))]
        if isinstance(c, VRec):
            if isinstance(i, VStr) and i.lit is not None:
                if i.lit in c.fields:
                    return [(st, c.fields[i.lit])]
                return [(st, self.exc('KeyError', node))]
            raise Unsupported('record index', node)
        if isinstance(c, VDict):
            n, has, val, karr, kt, vt = self.dparts(st, c)
            if kt is None:
                return [(st, self.exc('KeyError', node))]
            out = []
            for s, e in self.conv(st, i, kt, node):
                if isinstance(e, Exc):
                    out.append((s, self.exc('KeyError', node)))
                    continue
                for s2, b in self.split(s, has[e]):
                    out.append((s2, self.decode(val[e], vt, s2) if b else self.exc('KeyError', node)))
            return out
        if isinstance(c, VRef):
            h = self.schema.getitem_handler(self, st, c, i, node)
            if h is not None:
                return h
            if all(self.member(cl, '__getitem__') for cl in self.classes_of(st, c)):
                return self.call_method(st, c, '__getitem__', [i], {}, node)
            return [(st, self.exc('TypeError', node))]
        if isinstance(c, VStr):
            return self.str_index(st, c, i, node)
        if isinstance(c, VNone):
            return [(st, self.exc('TypeError', node))]
        if isinstance(c, VOpaque):
            return [(st, VOpaque(c.what + '[]'))]
        raise Unsupported(f'subscript of {type(c).__name__}', node)

    def str_index(self, st, c, i, node):
        if self.ctx.strmode == 'z3':
            out = []
            for s, e in self.index_cases(st, z3.Length(c.e), i.e, node):
                out.append((s, e if isinstance(e, Exc) else VStr(z3.SubString(c.e, e, 1))))
            return out
        f = self.ctx.uf('str_len', self.ctx.StrS, z3.IntSort())
        g = self.ctx.uf('str_at', self.ctx.StrS, z3.IntSort(), self.ctx.StrS)
        out = []
        for s, e in self.index_cases(st, self.str_len(c), i.e, node):
            out.append((s, e if isinstance(e, Exc) else VStr(g(c.e, e))))
        return out

    def str_len(self, v):
        if v.lit is not None:
            return z3.IntVal(len(v.lit))
        if self.ctx.strmode == 'z3':
            return z3.Length(v.e)
        f = self.ctx.uf('str_len', self.ctx.StrS, z3.IntSort())
        x = z3.Const('x', self.ctx.StrS)
        self.ctx.axiom('str_len', FA([x], z3.And(f(x) >= 0, (f(x) == 0) == (x == self.ctx.lit(''))), f(x)))
        return f(v.e)

    def clamp(self, v, n, default):
        if v is None or isinstance(v, VNone):
            return default
        if not isinstance(v, VInt):
            raise Unsupported('slice bound')
        i = v.e
        z = z3.simplify(i)
        if z3.is_int_value(z) and z.as_long() >= 0:
            return z3.If(i < n, i, n)
        return z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i < n, i, n))

    def slice_(self, st, c, lo, hi, step, node):
        if isinstance(c, VAny):
            return self.bind(self.unbox(st, c), lambda s, x: self.slice_(s, x, lo, hi, step, node))
        if step is not None:
            raise Unsupported('slice step', node)
        if isinstance(c, VTuple):
            def k(x):
                return None if x is None else z3.simplify(x.e).as_long()
            return [(st, VTuple(c.items[k(lo):k(hi)]))]
        if isinstance(c, VStr):
            return self.str_slice(st, c, lo, hi, node)
        if isinstance(c, VView):
            n = c.n
            a, b = self.clamp(lo, n, z3.IntVal(0)), self.clamp(hi, n, n)
            m = z3.If(b > a, b - a, z3.IntVal(0))
            return [(st, VView(m, lambda j: c.get(a + j)))]
        if isinstance(c, VOpaque):
            return [(st, VOpaque('slice'))]
        if not isinstance(c, VList):
            raise Unsupported('slice', node)
        n, arr = self.lnarr(st, c)
        t = self.lelem(st, c)
        s = st.copy()
        if t is None:
            return [(s, self.newlist(s, z3.IntVal(0), None, None))]
        if lo is None and hi is None:
            return [(s, self.newlist(s, n, arr, t))]
        a, b = self.clamp(lo, n, z3.IntVal(0)), self.clamp(hi, n, n)
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) and a.as_long() == 0:
            return [(s, self.newlist(s, b, arr, t))]
        off = self.ctx.fresh('lo', z3.IntSort())
        m = self.ctx.fresh('len', z3.IntSort())
        w = z3.If(b > off, b - off, z3.IntVal(0))
        s.assume(off <= a, off >= a, m <= w, m >= w)      # (not ==: keeps these terms out of the quantifiers)
        arr2 = self.ctx.fresh('slice', arr.sort())
        j = fv()
        s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < m), arr2[j] == arr[j + off]), arr2[j]),
                 FA([j], z3.Implies(z3.And(off <= j, j < off + m), arr2[j - off] == arr[j]), arr[j]))
        return [(s, self.newlist(s, m, arr2, t))]

    def str_slice(self, st, c, lo, hi, node):
        if c.lit is not None and all(x is None or z3.is_int_value(z3.simplify(x.e)) for x in (lo, hi)):
            k = lambda x: None if x is None else z3.simplify(x.e).as_long()
            return [(st, self.const(c.lit[k(lo):k(hi)]))]
        if self.ctx.strmode == 'z3':
            n = z3.Length(c.e)
            a, b = self.clamp(lo, n, z3.IntVal(0)), self.clamp(hi, n, n)
            return [(st, VStr(z3.If(b > a, z3.SubString(c.e, a, b - a), z3.StringVal(''))))]
        n = self.str_len(c)
        f = self.ctx.uf('str_slice', self.ctx.StrS, z3.IntSort(), z3.IntSort(), self.ctx.StrS)
        a, b = self.clamp(lo, n, z3.IntVal(0)), self.clamp(hi, n, n)
        return [(st, VStr(f(c.e, a, b)))]

    def setitem(self, st, c, i, v, node):
        if isinstance(c, VList):
            if not isinstance(i, VInt):
                raise Unsupported('slice assignment', node)
            n, arr = self.lnarr(st, c)
            t = self.lelem(st, c)
            out = []
            for s, e in self.index_cases(st, n, i.e, node):
                if isinstance(e, Exc):
                    out.append((s, e))
                    continue
                for s2, x in self.conv_elem(s, c, v, node):
                    if isinstance(x, Exc):
                        out.append((s2, x))
                        continue
                    s2 = s2.copy()
                    n2, arr2 = self.lnarr(s2, c)
                    self.lset(s2, c, None if isinstance(s2.cells[c.cell].loc, tuple) else n2, z3.Store(arr2, e, x), node)
                    out.append((s2, VNone()))
            return out
        if isinstance(c, VDict):
            return self.dict_set(st, c, i, v, node)
        if isinstance(c, VRef):
            h = self.schema.setitem_handler(self, st, c, i, v, node)
            if h is not None:
                return h
            return self.call_method(st, c, '__setitem__', [i, v], {}, node)
        if isinstance(c, VAny):
            return self.bind(self.unbox(st, c), lambda s, x: self.setitem(s, x, i, v, node))
        if isinstance(c, VOpaque):
            return [(st, VNone())]
        if isinstance(c, VRec):
            raise Unsupported('assignment to a record', node)
        return [(st, self.exc('TypeError', node))]

    def conv_elem(self, st, lst, v, node):
        """Convert v to the element type of the list, widening a local list's element type if needed."""
        cell = st.cells[lst.cell]
        if cell.elem is None:
            t = self.typ(v, st)
            st = st.copy()
            arr = self.ctx.fresh('lst', z3.ArraySort(z3.IntSort(), self.ctx.sort(t)))
            st.cells[lst.cell] = cell.copy(elem=t, arr=arr)
            return self.conv(st, v, t, node)
        if isinstance(cell.loc, tuple):
            return self.conv(st, v, cell.elem, node)
        try:
            vt = self.typ(v, st)
        except Unsupported:
            vt = None
        if vt is not None and vt != cell.elem:
            try:
                jt = self.join_t(cell.elem, vt)
            except Unsupported:
                jt = cell.elem
            if jt != cell.elem:
                st = st.copy()
                if self.ctx.sort(jt) == self.ctx.sort(cell.elem):
                    st.cells[lst.cell] = cell.copy(elem=jt)
                else:
                    arr2 = self.ctx.fresh('conv', z3.ArraySort(z3.IntSort(), self.ctx.sort(jt)))
                    j = fv()
                    r = self.conv(st, self.decode(cell.arr[j], cell.elem, st), jt, node)
                    if len(r) != 1 or isinstance(r[0][1], Exc):
                        raise Unsupported('widening a list', node)
                    st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < cell.n), arr2[j] == r[0][1]), arr2[j]))
                    st.cells[lst.cell] = cell.copy(elem=jt, arr=arr2)
                return self.conv(st, v, jt, node)
        return self.conv(st, v, cell.elem, node)

    def delitem(self, st, c, i, node):
        if isinstance(c, VDict):
            return self.dict_del(st, c, i, node)
        if isinstance(c, VRef):
            return self.call_method(st, c, '__delitem__', [i], {}, node)
        if isinstance(c, VList):
            n, arr = self.lnarr(st, c)
            out = []
            for s, e in self.index_cases(st, n, i.e, node):
                out.append((s, e) if isinstance(e, Exc) else (self.list_del_at(s, c, e, node), VNone()))
            return out
        if isinstance(c, VOpaque):
            return [(st, VNone())]
        raise Unsupported('del item', node)

    # ------------------------------------------------------------ lists
    def list_concat(self, st, a, b, node):
        na, ea = self.lnarr(st, a)
        nb, eb = self.lnarr(st, b)
        ta, tb = self.lelem(st, a), self.lelem(st, b)
        s = st.copy()
        if ta is None:
            return [(s, self.newlist(s, nb, eb, tb))]
        if tb is None:
            return [(s, self.newlist(s, na, ea, ta))]
        t = self.join_t(ta, tb)
        ea, eb = self.conv_arr(s, ea, na, ta, t, node), self.conv_arr(s, eb, nb, tb, t, node)
        n, arr = self.concat_arr(s, na, ea, nb, eb)
        return [(s, self.newlist(s, n, arr, t))]

    def conv_arr(self, st, arr, n, t, t2, node):
        if self.ctx.sort(t) == self.ctx.sort(t2):
            return arr
        arr2 = self.ctx.fresh('conv', z3.ArraySort(z3.IntSort(), self.ctx.sort(t2)))
        j = fv()
        r = self.conv(st.copy(), self.decode(arr[j], t, st), t2, node)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Unsupported('list element conversion', node)
        st.assume(FA([j], z3.Implies(z3.And(0 <= j, j < n), arr2[j] == r[0][1]), arr2[j], arr[j]))
        return arr2

    def concat_arr(self, s, na, ea, nb, eb):
        zb = z3.simplify(nb)
        if z3.is_int_value(zb) and zb.as_long() <= 4:
            arr = ea
            for i in range(zb.as_long()):
                arr = z3.Store(arr, z3.simplify(na + i), eb[i])
            return na + nb, arr
        arr = self.ctx.fresh('cat', ea.sort())
        j = fv()
        s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < na), arr[j] == ea[j]), arr[j], ea[j]),
                 FA([j], z3.Implies(z3.And(na <= j, j < na + nb), arr[j] == eb[j - na]), arr[j]),
                 FA([j], z3.Implies(z3.And(0 <= j, j < nb), arr[na + j] == eb[j]), eb[j]))
        x = self.memvar(arr)
        if x is not None:
            mem = self.ctx.mem
            s.assume(FA([x], z3.Implies(z3.And(na >= 0, nb >= 0), mem(arr, na + nb, x) == z3.Or(mem(ea, na, x), mem(eb, nb, x))),
                        mem(arr, na + nb, x), mem(ea, na, x), mem(eb, nb, x)))
        return na + nb, arr

    def list_del_at(self, st, lst, i0, node):
        s = st.copy()
        n, arr = self.lnarr(s, lst)
        arr2 = self.ctx.fresh('del', arr.sort())
        j = fv()
        q = next(_cnt)
        src = z3.Function(f'dsrc!{q}', z3.IntSort(), z3.IntSort())
        pos = z3.Function(f'dpos!{q}', z3.IntSort(), z3.IntSort())
        s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < n - 1), z3.And(
            arr2[j] == arr[src(j)], src(j) == z3.If(j < i0, j, j + 1), pos(src(j)) == j)), arr2[j]),
                 FA([j], z3.Implies(z3.And(0 <= j, j < n, j != i0), z3.And(
                     arr2[pos(j)] == arr[j], pos(j) == z3.If(j < i0, j, j - 1), src(pos(j)) == j)), arr[j]))
        x = self.memvar(arr)
        if x is not None:
            mem = self.ctx.mem
            s.assume(FA([x], z3.Implies(mem(arr2, n - 1, x), mem(arr, n, x)), mem(arr2, n - 1, x)),
                     FA([x], z3.Implies(z3.And(mem(arr, n, x), x != arr[i0]), mem(arr2, n - 1, x)), mem(arr, n, x)))
        self.lset(s, lst, n - 1, arr2, node)
        return s

    def memvar(self, arr):
        """A bound variable for membership facts of lists of objects or strings (None for other lists)."""
        e = arr.range()
        if e == self.ctx.Ref or self.ctx.strmode != 'z3' and e == self.ctx.StrS:
            return z3.Const(f'm!{next(_cnt)}', e)
        return None

    def iter_view(self, st, v, node):
        """A finite frozen iterable: [(st, VView|Exc)]"""
        if isinstance(v, VAny):
            return self.bind(self.unbox(st, v), lambda s, x: self.iter_view(s, x, node))
        if isinstance(v, VView):
            return [(st, v)]
        if isinstance(v, VList):
            n, arr = self.lnarr(st, v)
            t = self.lelem(st, v)
            if t is None:
                return [(st, VView(z3.IntVal(0), lambda j: VOpaque('empty'), 'empty'))]
            vw = VView(n, lambda j: self.decode(arr[j], t, st), 'list')
            vw.arr, vw.elem = arr, t
            return [(st, vw)]
        if isinstance(v, VGen):
            return self.bind(self.comprehension(st, v.node, 'list'), lambda s, x: self.iter_view(s, x, node))
        if isinstance(v, VTuple):
            if not v.items:
                return [(st, VView(z3.IntVal(0), lambda j: VOpaque('empty'), 'empty'))]
            return self.bind(self.list_of(st, v.items, node), lambda s, x: self.iter_view(s, x, node))
        if isinstance(v, VDict):
            n, has, val, karr, kt, vt = self.dparts(st, v)
            if kt is None:
                return [(st, VView(z3.IntVal(0), lambda j: VOpaque('empty'), 'empty'))]
            vw = VView(n, lambda j: self.decode(karr[j], kt, st), 'keys')
            vw.arr, vw.elem = karr, kt
            return [(st, vw)]
        if isinstance(v, VNone):
            return [(st, self.exc('TypeError', node, ('not iterable',)))]
        if isinstance(v, VRef):
            h = self.schema.iter_handler(self, st, v, node)
            if h is not None:
                return self.bind(h, lambda s, x: self.iter_view(s, x, node))
            ok = [cl for cl in self.classes_of(st, v) if self.member(cl, '__iter__')]
            if ok:
                return self.bind(self.call_method(st, v, '__iter__', [], {}, node),
                                 lambda s, x: self.iter_view(s, x, node))
            return [(st, self.exc('TypeError', node, ('not iterable',)))]
        if isinstance(v, VOpaque):
            n = self.ctx.fresh('n', z3.IntSort())
            s = st.copy().assume(n >= 0)
            return [(s, VView(n, lambda j: VOpaque(v.what + ' item'), 'opaque'))]
        if isinstance(v, VStr):
            g = self.ctx.uf('str_at', self.ctx.StrS, z3.IntSort(), self.ctx.StrS)
            return [(st, VView(self.str_len(v), lambda j: VStr(g(v.e, j)), 'chars'))]
        if isinstance(v, VSet):
            return [(st, self.set_view(st, v))]
        raise Unsupported(f'iteration over {type(v).__name__}', node)

    def view_to_list(self, st, vw, node, cls='list', attrs=None):
        s = st.copy()
        if vw.what == 'empty':
            return [(s, self.newlist(s, z3.IntVal(0), None, None, cls, attrs))]
        if hasattr(vw, 'arr'):
            return [(s, self.newlist(s, vw.n, vw.arr, vw.elem, cls, attrs))]
        j = fv()
        el = vw.get(j)
        t = self.typ(el, s)
        r = self.conv(s, el, t, node)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Unsupported('list of a view', node)
        arr = self.ctx.fresh('vl', z3.ArraySort(z3.IntSort(), self.ctx.sort(t)))
        s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < vw.n), arr[j] == r[0][1]), arr[j]))
        return [(s, self.newlist(s, vw.n, arr, t, cls, attrs))]

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, st, node):
        return self.comprehension(st, node, 'list')

    def ev_SetComp(self, st, node):
        return self.bind(self.comprehension(st, node, 'list'), lambda s, v: self.make_set(s, v, node))

    def ev_DictComp(self, st, node):
        raise Unsupported('dict comprehension', node)

    def bind_target(self, env, tgt, v, node):
        """Destructure without side effects (names and tuples only)."""
        if isinstance(tgt, ast.Name):
            env[tgt.id] = v
            return
        if isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(v, VTuple) and len(v.items) == len(tgt.elts):
            for a, b in zip(tgt.elts, v.items):
                self.bind_target(env, a, b, node)
            return
        if isinstance(v, VOpaque) and isinstance(tgt, (ast.Tuple, ast.List)):
            for a in tgt.elts:
                self.bind_target(env, a, VOpaque('part'), node)
            return
        raise Unsupported('comprehension target', node)

    def comprehension(self, st, node, kind):
        if len(node.generators) != 1:
            return self.nested_comprehension(st, node, kind)
        g = node.generators[0]
        saved = dict(st.env)

        def f(s, itv):
            return self.bind(self.iter_view(s, itv, node), lambda s2, vw: self.comp_view(s2, node, g, vw))
        res = self.bind(self.ev(st, g.iter), f)
        return res

    def nested_comprehension(self, st, node, kind):
        raise Unsupported('nested comprehension', node)

    def comp_view(self, st, node, g, vw):
        c = self.ctx
        if vw.what == 'empty':
            s = st.copy()
            return [(s, self.newlist(s, z3.IntVal(0), None, None))]
        j = fv()
        rng = z3.And(0 <= j, j < vw.n)
        el = vw.get(j)
        base = st.copy()
        self.elem_facts(base, el)

        def with_el(s):
            s = s.copy()
            self.bind_target(s.env, g.target, el, node)
            return s
        excs_out = []
        pred = None
        facts = []
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)

            def pf(s):
                return [(s2, b if isinstance(b, Exc) else VBool(b)) for s2, b in self.cond(with_el(s), test)]
            v, outs, noexc = self.quant_eval(base, j, rng, pf, node)
            excs_out += outs
            facts += noexc
            pred = z3.simplify(v.e) if v is not None else z3.BoolVal(False)
        rng2 = rng if pred is None else z3.And(rng, pred)

        if pred is None and not isinstance(node.elt, ast.Name):
            tab = self.table(st, node, g, vw)
            if tab is not None:
                return tab

        def ef(s):
            return self.ev(with_el(s), node.elt)
        ident = isinstance(node.elt, ast.Name) and isinstance(g.target, ast.Name) and node.elt.id == g.target.id
        if ident:
            v, outs, noexc = el, [], []
        else:
            v, outs, noexc = self.quant_eval(base, j, rng2, ef, node)
        excs_out += outs
        facts += noexc
        s = st.copy().assume(*facts)
        out = []
        for s_e, e in excs_out:
            out.append((s_e, e))
        if v is None:
            return out
        if isinstance(v, VOpaque):
            n = vw.n if pred is None else c.fresh('n', z3.IntSort())
            s.assume(n >= 0)
            return out + [(s, VView(n, lambda j: VOpaque('item')))]
        t = self.typ(v, s)
        r = self.conv(s.copy(), v, t, node)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            raise Unsupported('comprehension element', node)
        term = r[0][1]
        src = getattr(vw, 'arr', None)
        if pred is None:
            if ident and src is not None:
                out.append((s, self.newlist(s, vw.n, src, vw.elem)))
                return out
            arr = c.fresh('comp', z3.ArraySort(z3.IntSort(), c.sort(t)))
            pats = [arr[j]] + ([src[j]] if src is not None else [])
            s.assume(FA([j], z3.Implies(rng, arr[j] == term), *pats))
            out.append((s, self.newlist(s, vw.n, arr, t)))
            return out
        n2, arr, pos, inv = self.filter_arr(s, vw, j, pred, term, t)
        lst = self.newlist(s, n2, arr, t)
        out.append((s, lst))
        return out

    def table(self, st, node, g, vw):
        """[<fresh list> for _ in ...]: equal rows, each a new list."""
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        e = node.elt
        fresh = isinstance(e, ast.List) or (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult)
                                            and (isinstance(e.left, ast.List) or isinstance(e.right, ast.List)))
        if not fresh or any(isinstance(x, ast.Name) and x.id in names or isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield))
                            for x in ast.walk(e)):
            return None
        res = self.ev(st.copy(), e)
        if len(res) != 1 or not isinstance(res[0][1], VList):
            return None
        s, row = res[0]
        cell = s.cells[row.cell]
        if cell.loc is not None or cell.elem is None or isinstance(cell.elem, FrozenListT) or s.heap != st.heap:
            return None
        t = RowT(cell.elem)
        n, arr = self.lnarr(s, row)
        rows = z3.K(z3.IntSort(), self.ctx.seqsort(t)[1](n, arr))
        return [(s, self.newlist(s, vw.n, rows, t))]

    def filter_arr(self, s, vw, j, pred, term, t):
        c = self.ctx
        n2 = c.fresh('fn', z3.IntSort())
        arr = c.fresh('flt', z3.ArraySort(z3.IntSort(), c.sort(t)))
        k0 = next(_cnt)
        pos = z3.Function(f'pos!{k0}', z3.IntSort(), z3.IntSort())
        inv = z3.Function(f'inv!{k0}', z3.IntSort(), z3.IntSort())
        src = getattr(vw, 'arr', None)
        k, m = fv(), fv()
        sub = lambda f, x: z3.substitute(f, (j, x))
        s.assume(n2 >= 0, n2 <= vw.n)
        s.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n2), z3.And(0 <= pos(k), pos(k) < vw.n, pos(k) >= k,
                                                                 inv(pos(k)) == k, sub(pred, pos(k)),
                                                                 arr[k] == sub(term, pos(k)))), arr[k], pos(k)))
        pats = [inv(k)] + ([src[k]] if src is not None else [])
        s.assume(FA([k], z3.Implies(z3.And(0 <= k, k < vw.n, sub(pred, k)),
                                    z3.And(0 <= inv(k), inv(k) < n2, pos(inv(k)) == k, arr[inv(k)] == sub(term, k))),
                    *pats))
        s.assume(FA([k, m], z3.Implies(z3.And(0 <= k, k < m, m < n2), pos(k) < pos(m)), [pos(k), pos(m)]))
        s.extra = dict(s.extra, filters=s.extra.get('filters', ()) + ((arr, n2, pos, inv),))
        return n2, arr, pos, inv

    def elem_facts(self, st, el):
        """Typed-heap facts of a list element read at a generic index."""
        return

    # ------------------------------------------------------------ sets
    def make_set(self, st, v, node):
        def f(s, vw):
            s = s.copy()
            if vw.what == 'empty':
                return [(s, VSet(self.newcell(s, Cell('set', None))))]
            j = fv()
            el = vw.get(j)
            t = vw.elem if hasattr(vw, 'elem') else self.typ(el, s)
            if hasattr(vw, 'arr'):
                arr = vw.arr
            else:
                r = self.conv(s, el, t, node)
                if len(r) != 1 or isinstance(r[0][1], Exc):
                    raise Unsupported('set of', node)
                arr = self.ctx.fresh('vl', z3.ArraySort(z3.IntSort(), self.ctx.sort(t)))
                s.assume(FA([j], z3.Implies(z3.And(0 <= j, j < vw.n), arr[j] == r[0][1]), arr[j]))
            es = self.ctx.sort(t)
            zn = z3.simplify(vw.n)
            if z3.is_int_value(zn) and zn.as_long() <= 4:
                has = z3.K(es, z3.BoolVal(False))
                for i in range(zn.as_long()):
                    has = z3.Store(has, arr[i], z3.BoolVal(True))
            else:
                has = self.ctx.fresh('set', z3.ArraySort(es, z3.BoolSort()))
                x = z3.Const(f'x!{next(_cnt)}', es)
                s.assume(FA([x], has[x] == self.ctx.mem(arr, vw.n, x), has[x]),
                         FA([j], z3.Implies(z3.And(0 <= j, j < vw.n), has[arr[j]]), arr[j]))
            return [(s, VSet(self.newcell(s, Cell('set', t, has=has))))]
        return self.bind(self.iter_view(st, v, node), f)

    def set_op(self, st, op, a, b, node):
        raise Unsupported('set operation', node)

    def set_view(self, st, v):
        cell = st.cells[v.cell]
        if cell.elem is None:
            return VView(z3.IntVal(0), lambda j: VOpaque('empty'), 'empty')
        c = self.ctx
        n = c.fresh('setn', z3.IntSort())
        arr = c.fresh('setarr', z3.ArraySort(z3.IntSort(), c.sort(cell.elem)))
        x = z3.Const(f'x!{next(_cnt)}', c.sort(cell.elem))
        j, k = fv(), fv()
        st.assume(n >= 0, FA([x], cell.has[x] == c.mem(arr, n, x), c.mem(arr, n, x), cell.has[x]),
                  FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), arr[j] != arr[k]), [arr[j], arr[k]]))
        vw = VView(n, lambda j: self.decode(arr[j], cell.elem, st), 'set')
        vw.arr, vw.elem = arr, cell.elem
        return vw

    # ------------------------------------------------------------ dicts
    def dparts(self, st, v):
        cell = st.cells[v.cell]
        if cell.loc == 'poisoned':
            raise Unsupported('use of a stale dict alias')
        if isinstance(cell.loc, tuple):
            key, obj = cell.loc
            t = self.schema.field(key)
            return (self.hget(st, key + '#n')[obj], self.hget(st, key + '#has')[obj], self.hget(st, key + '#val')[obj],
                    self.hget(st, key + '#k')[obj], t.key, t.val)
        return cell.n, cell.has, cell.val, cell.arr, cell.keyT, cell.elem

    def dlen(self, st, v):
        return self.dparts(st, v)[0]

    def dwrite(self, st, v, n, has, val, karr):
        cell = st.cells[v.cell]
        if cell.frozen:
            raise Unsupported('mutation of a shared dict')
        if isinstance(cell.loc, tuple):
            key, obj = cell.loc
            for p, x in (('#n', n), ('#has', has), ('#val', val), ('#k', karr)):
                if x is not None:
                    self.hset(st, key + p, z3.Store(self.hget(st, key + p), obj, x))
        else:
            st.cells[v.cell] = cell.copy(n=n, has=has, val=val, arr=karr)

    def dict_init(self, st, v, kt, vt):
        cell = st.cells[v.cell]
        if cell.loc is None and cell.keyT is None:
            c = self.ctx
            st.cells[v.cell] = cell.copy(
                keyT=kt, elem=vt, n=z3.IntVal(0), has=z3.K(c.sort(kt), z3.BoolVal(False)),
                val=c.fresh('dv', z3.ArraySort(c.sort(kt), c.sort(vt))),
                arr=c.fresh('dk', z3.ArraySort(z3.IntSort(), c.sort(kt))))

    def dict_set(self, st, c, k, v, node):
        st = st.copy()
        if st.cells[c.cell].loc is None and st.cells[c.cell].keyT is None:
            self.dict_init(st, c, self.typ(k, st), self.typ(v, st))
        _, _, _, _, kt, vt = self.dparts(st, c)
        out = []

        def fin(s, es):
            res = []
            for s2, b in self.split(s, self.dparts(s, c)[1][es[0]]):
                s2 = s2.copy()
                n, has, val, karr, _, _ = self.dparts(s2, c)
                if b:
                    self.dwrite(s2, c, n, has, z3.Store(val, es[0], es[1]), karr)
                else:
                    self.dwrite(s2, c, n + 1, z3.Store(has, es[0], z3.BoolVal(True)), z3.Store(val, es[0], es[1]),
                                z3.Store(karr, n, es[0]))
                res.append((s2, VNone()))
            return res
        return self.convs(st, [k, v], [kt, vt], fin, node)

    def dict_del(self, st, c, k, node):
        n, has, val, karr, kt, vt = self.dparts(st, c)
        if kt is None:
            return [(st, self.exc('KeyError', node))]
        out = []
        for s, e in self.conv(st, k, kt, node):
            if isinstance(e, Exc):
                out.append((s, self.exc('KeyError', node)))
                continue
            for s2, b in self.split(s, has[e]):
                if not b:
                    out.append((s2, self.exc('KeyError', node)))
                    continue
                s2 = s2.copy()
                karr2 = self.ctx.fresh('dk', karr.sort())
                i0 = self.ctx.fresh('di', z3.IntSort())
                j = fv()
                s2.assume(0 <= i0, i0 < n, karr[i0] == e,
                          FA([j], z3.Implies(z3.And(0 <= j, j < i0), karr2[j] == karr[j]), karr2[j]),
                          FA([j], z3.Implies(z3.And(i0 <= j, j < n - 1), karr2[j] == karr[j + 1]), karr2[j]),
                          FA([j], z3.Implies(z3.And(0 <= j, j < i0), karr2[j] == karr[j]), karr[j]),
                          FA([j], z3.Implies(z3.And(i0 < j, j < n), karr2[j - 1] == karr[j]), karr[j]))
                s2.extra['dict_dels'] = s2.extra.get('dict_dels', ()) + ((karr, karr2, i0, n, e),)
                self.dwrite(s2, c, n - 1, z3.Store(has, e, z3.BoolVal(False)), val, karr2)
                out.append((s2, VNone()))
        return out

    def ev_Starred(self, st, node):
        raise Unsupported('starred', node)

    def ev_Await(self, st, node):
        raise Unsupported('await', node)
