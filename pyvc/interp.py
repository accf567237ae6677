"""Forward symbolic execution of the real Python source (ast) producing proof obligations."""
import ast
import z3
from .core import *
from .source import FuncInfo

BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'AttributeError': 'Exception',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'AssertionError': 'Exception', 'OSError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'TypedHeapViolation': 'BaseException', 'OwnershipViolation': 'BaseException',
    'UnicodeError': 'ValueError', 'RecursionError': 'RuntimeError',
}
BUILTINS = {'len', 'sorted', 'list', 'enumerate', 'range', 'any', 'all', 'isinstance', 'str', 'int', 'float', 'next',
            'min', 'max', 'print', 'super', 'zip', 'set', 'dict', 'tuple', 'getattr', 'hasattr', 'round', 'bool',
            'reversed', 'type', 'sum', 'abs', 'iter', 'repr', 'id', 'map', 'filter', 'callable', 'open', 'ord', 'chr',
            'NotImplemented', 'frozenset', 'object'}


class Outcome:
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


NORMAL = Outcome('normal')
_qc = {}
_keep = []


def has_quant(f):
    k = f.get_id()
    r = _qc.get(k)
    if r is not None:
        return r
    stack, seen, res = [f], set(), False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            if not x.is_lambda():
                res = True
                break
            stack.append(x.body())
        else:
            stack.extend(x.children())
    _qc[k] = res
    _keep.append(f)
    return res


def is_ref(v):
    return isinstance(v, VRef)


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'line', 'group', 'extra')

    def __init__(self, name, pc, goal, line=None, group=None):
        self.name, self.pc, self.goal, self.line, self.group = name, pc, goal, line, group
        self.extra = None


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog, ctx, schema, contracts, target=None, handlers=None):
        self.prog, self.ctx, self.schema, self.contracts = prog, ctx, schema, contracts
        self.target = target          # Contract being verified
        self.obls = []
        self.depth = 0
        self.dry = 0
        self.pure = 0
        self.frames = []              # stack of FuncInfo
        self.loop_ids = {}
        self.handlers = handlers or {}
        self.paths = 0
        self.line = None
        self.callstack = ()

    # ------------------------------------------------------------ basics
    def oblige(self, st, name, goal, line=None):
        if self.dry:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.trivial = getattr(self, 'trivial', 0) + 1
        self.obls.append(Obligation(name, list(st.pc), goal, line or self.line))

    def feasible(self, st, *conds):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        for f in self.ctx.lit_axioms():
            s.add(f)
        for c in conds:
            if not has_quant(c):
                s.add(c)
        return s.check() != z3.unsat

    def split(self, st, cond):
        """[(state, True), (state, False)] restricted to feasible branches."""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        if self.feasible(st, cond):
            out.append((st.copy().assume(cond), True))
        n = z3.Not(cond)
        if self.feasible(st, n):
            out.append((st.copy().assume(n), False))
        return out

    def bind(self, res, f):
        out = []
        for st, v in res:
            if isinstance(v, Exc):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def exc(self, cls, node=None, args=(), implicit=True):
        return Exc(cls, args, getattr(node, 'lineno', self.line), implicit)

    # ------------------------------------------------------------ classes
    def cinfo(self, simple):
        return self.schema.cinfo(self.prog, simple)

    def classes_of(self, st, v):
        cs = v.classes
        f = st.clsf.get(v.e.get_id())
        return cs & f[0] if f is not None else cs

    def narrow(self, st, v, classes):
        old = st.clsf.get(v.e.get_id())
        st.clsf[v.e.get_id()] = ((old[0] & classes) if old else frozenset(classes), v.e)

    def split_class(self, st, v, groups):
        """groups: list of (frozenset classes, payload). Split on typeof."""
        if len(groups) == 1:
            return [(st, groups[0][1], v)]
        out = []
        for cs, payload in groups:
            cond = z3.Or([self.ctx.typeof(v.e) == self.ctx.clsid(c) for c in sorted(cs)])
            if self.feasible(st, cond):
                s2 = st.copy().assume(cond)
                self.narrow(s2, v, cs)
                out.append((s2, payload, VRef(v.e, cs, v.nullable)))
        return out

    def nonnull(self, st, v, node, attr=''):
        """Split a nullable ref: list of (st, VRef nonnull | Exc)."""
        if not v.nullable:
            return [(st, v)]
        out = []
        for s, b in self.split(st, v.e != self.ctx.null):
            if b:
                out.append((s, VRef(v.e, v.classes, False)))
            else:
                out.append((s, self.exc('AttributeError', node, (f"None.{attr}",))))
        return out

    # ------------------------------------------------------------ encode / decode
    def decode(self, term, t, st=None):
        c = self.ctx
        if isinstance(t, Prim):
            return {'int': VInt, 'real': VReal, 'bool': VBool, 'str': VStr}[t.k](term)
        if isinstance(t, RefT):
            return VRef(term, t.classes, t.nullable)
        if isinstance(t, Un):
            return VAny(term, t.alts, t.classes)
        if isinstance(t, TupT):
            _, _, acc = c.tupsort(t)
            return VTuple([self.decode(a(term), x, st) for a, x in zip(acc, t.items)])
        if isinstance(t, RecT):
            _, _, acc = c.tupsort(TupT(*t.fields.values()))
            return VRec({k: self.decode(a(term), x, st) for a, (k, x) in zip(acc, t.fields.items())})
        if isinstance(t, RowT):
            raise Unsupported('a row of a table used on its own')
        if isinstance(t, FrozenListT):
            _, _, acc = c.seqsort(t)
            if st is None:
                raise Unsupported('frozen list in pure context')
            cell = Cell('list', t.elem, n=acc[0](term), arr=acc[1](term), frozen=True)
            return VList(self.newcell(st, cell))
        raise Unsupported(f'decode {t!r}')

    def to_val(self, st, v):
        V = self.ctx.Val
        if isinstance(v, VNone):
            return V.vnone
        if isinstance(v, VBool):
            return V.vbool(v.e)
        if isinstance(v, VInt):
            return V.vint(v.e)
        if isinstance(v, VReal):
            return V.vreal(v.e)
        if isinstance(v, VStr):
            return V.vstr(v.e)
        if isinstance(v, VRef):
            if v.nullable:
                return z3.If(v.e == self.ctx.null, V.vnone, V.vref(v.e))
            return V.vref(v.e)
        if isinstance(v, VAny):
            return v.e
        raise Unsupported(f'cannot box {type(v).__name__}')

    def tagof(self, e, alt):
        V = self.ctx.Val
        return {'none': V.is_vnone, 'bool': V.is_vbool, 'int': V.is_vint, 'real': V.is_vreal, 'str': V.is_vstr,
                'ref': V.is_vref}[alt](e)

    def unbox(self, st, v):
        """Split a VAny into concrete alternatives."""
        if not isinstance(v, VAny):
            return [(st, v)]
        V = self.ctx.Val
        out = []
        for a in v.alts:
            cond = z3.simplify(self.tagof(v.e, a))
            if z3.is_false(cond):
                continue
            if not z3.is_true(cond):
                if not self.feasible(st, cond):
                    continue
                s2 = st.copy().assume(cond)
            else:
                s2 = st
            val = {'none': lambda: VNone(), 'bool': lambda: VBool(V.b(v.e)), 'int': lambda: VInt(V.i(v.e)),
                   'real': lambda: VReal(V.r(v.e)), 'str': lambda: VStr(V.s(v.e)),
                   'ref': lambda: VRef(V.o(v.e), v.classes, False)}[a]()
            out.append((s2, val))
        return out

    def typ(self, v, st=None):
        """A storage type for a value."""
        if isinstance(v, VInt):
            return Int
        if isinstance(v, VReal):
            return Real
        if isinstance(v, VBool):
            return Bool
        if isinstance(v, VStr):
            return Str
        if isinstance(v, VNone):
            return Un('none')
        if isinstance(v, VRef):
            return RefT(*(self.classes_of(st, v) if st else v.classes), nullable=v.nullable)
        if isinstance(v, VAny):
            return Un(*v.alts, classes=v.classes)
        if isinstance(v, VTuple):
            return TupT(*[self.typ(x, st) for x in v.items])
        if isinstance(v, VRec):
            return RecT(**{k: self.typ(x, st) for k, x in v.fields.items()})
        if isinstance(v, VList) and st is not None:
            el = st.cells[v.cell].elem
            return FrozenListT(el if el is not None else Un('none'))
        raise Unsupported(f'no storage type for {type(v).__name__}')

    def join_t(self, a, b):
        if a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, RefT) and isinstance(b, RefT):
            return RefT(*(a.classes | b.classes), nullable=a.nullable or b.nullable)
        if isinstance(a, TupT) and isinstance(b, TupT) and len(a.items) == len(b.items):
            return TupT(*[self.join_t(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, RecT) and isinstance(b, RecT) and list(a.fields) == list(b.fields):
            return RecT(**{k: self.join_t(a.fields[k], b.fields[k]) for k in a.fields})
        if {a, b} == {Int, Real}:
            return Real
        def alts(t):
            if isinstance(t, Prim):
                return {t.k}, frozenset()
            if isinstance(t, RefT):
                return ({'ref', 'none'} if t.nullable else {'ref'}), t.classes
            if isinstance(t, Un):
                return set(t.alts), t.classes
            raise Unsupported(f'join of {a!r} and {b!r}')
        (x, cx), (y, cy) = alts(a), alts(b)
        if x | y == {'ref', 'none'} or x | y == {'ref'}:
            return RefT(*(cx | cy), nullable='none' in (x | y))
        order = ['none', 'bool', 'int', 'real', 'str', 'ref']
        return Un(*[o for o in order if o in x | y], classes=cx | cy)

    def conv(self, st, v, t, node=None):
        """Encode v at storage type t: list of (st, term|Exc)."""
        c = self.ctx
        bad = lambda s: (s, self.exc('TypedHeapViolation', node, (f'{type(v).__name__} stored as {t!r}',)))
        if isinstance(v, VAny) and not isinstance(t, Un):
            out = []
            for s, x in self.unbox(st, v):
                out.extend(self.conv(s, x, t, node))
            return out
        if isinstance(t, Prim):
            if t.k == 'int' and isinstance(v, VInt):
                return [(st, v.e)]
            if t.k == 'int' and isinstance(v, VBool):
                return [(st, z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))]
            if t.k == 'real' and isinstance(v, VReal):
                return [(st, v.e)]
            if t.k == 'real' and isinstance(v, VInt):
                return [(st, z3.ToReal(v.e))]
            if t.k == 'bool' and isinstance(v, (VBool, VInt)):
                return [(st, v.e if isinstance(v, VBool) else v.e != 0)]
            if t.k == 'str' and isinstance(v, VStr):
                return [(st, v.e)]
            return [bad(st)]
        if isinstance(t, RefT):
            if isinstance(v, VNone):
                return [(st, c.null)] if t.nullable else [bad(st)]
            if not isinstance(v, VRef):
                return [bad(st)]
            out = []
            res = [(st, v)] if (t.nullable or not v.nullable) else None
            if res is None:
                res = []
                for s, b in self.split(st, v.e != c.null):
                    res.append((s, v) if b else bad(s))
            for s, x in res:
                if isinstance(x, Exc):
                    out.append((s, x))
                    continue
                cs = self.classes_of(s, v)
                if cs <= t.classes:
                    out.append((s, v.e))
                else:
                    cond = z3.Or([c.typeof(v.e) == c.clsid(k) for k in sorted(cs & t.classes)] +
                                 ([v.e == c.null] if v.nullable else []))
                    for s2, b in self.split(s, cond):
                        if b:
                            self.narrow(s2, v, cs & t.classes)
                            out.append((s2, v.e))
                        else:
                            out.append(bad(s2))
            return out
        if isinstance(t, Un):
            if isinstance(v, (VList, VDict, VTuple, VRec)):
                return [bad(st)]
            e = self.to_val(st, v)
            tags = {VNone: ['none'], VBool: ['bool'], VInt: ['int'], VReal: ['real'], VStr: ['str'],
                    VRef: ['ref', 'none'] if isinstance(v, VRef) and v.nullable else ['ref'],
                    VAny: list(v.alts) if isinstance(v, VAny) else []}[type(v)]
            if not set(tags) <= set(t.alts):
                ok = z3.Or([self.tagof(e, a) for a in tags if a in t.alts] or [z3.BoolVal(False)])
                out = []
                for s, b in self.split(st, ok):
                    out.append((s, e) if b else bad(s))
                return out
            return [(st, e)]
        if isinstance(t, TupT):
            if not isinstance(v, VTuple) or len(v.items) != len(t.items):
                return [bad(st)]
            return self.convs(st, v.items, t.items, lambda s, es: [(s, c.tupsort(t)[1](*es))], node)
        if isinstance(t, RecT):
            if not isinstance(v, VRec) or list(v.fields) != list(t.fields):
                return [bad(st)]
            tt = TupT(*t.fields.values())
            return self.convs(st, list(v.fields.values()), tt.items, lambda s, es: [(s, c.tupsort(tt)[1](*es))], node)
        if isinstance(t, FrozenListT):
            if not isinstance(v, VList):
                return [bad(st)]
            cell = st.cells[v.cell]
            n, arr = self.lnarr(st, v)
            if cell.elem is None:
                arr = z3.K(z3.IntSort(), c.fresh('dflt', c.sort(t.elem)))
            elif c.sort(cell.elem) != c.sort(t.elem):
                return [bad(st)]
            if cell.loc is None:
                st = st.copy()
                st.cells[v.cell] = cell.copy(frozen=True)
            return [(st, c.seqsort(t)[1](n, arr))]
        raise Unsupported(f'conv to {t!r}')

    def convs(self, st, vs, ts, k, node=None):
        res = [(st, [])]
        for v, t in zip(vs, ts):
            nxt = []
            for s, es in res:
                if isinstance(es, Exc):
                    nxt.append((s, es))
                    continue
                for s2, e in self.conv(s, v, t, node):
                    nxt.append((s2, e if isinstance(e, Exc) else es + [e]))
            res = nxt
        out = []
        for s, es in res:
            if isinstance(es, Exc):
                out.append((s, es))
            else:
                out.extend(k(s, es))
        return out

    # ------------------------------------------------------------ cells
    def newcell(self, st, cell):
        i = next(_cnt_cell)
        st.cells[i] = cell
        return i

    def newlist(self, st, n, arr, elem, cls='list', attrs=None):
        return VList(self.newcell(st, Cell('list', elem, n=n, arr=arr, cls=cls, attrs=attrs)))

    def lnarr(self, st, v):
        cell = st.cells[v.cell]
        if cell.loc == 'poisoned':
            raise Unsupported('use of a list alias whose owner may have been reassigned')
        if cell.loc is None:
            n = cell.n
            return (z3.IntVal(n) if isinstance(n, int) else n), cell.arr
        key, obj = cell.loc
        return self.hget(st, key + '#n')[obj], self.hget(st, key + '#e')[obj]

    def lelem(self, st, v):
        return st.cells[v.cell].elem

    def lset(self, st, v, n, arr, node=None):
        """Write list contents (in place on st)."""
        cell = st.cells[v.cell]
        if cell.frozen:
            raise Unsupported('mutation of a list stored inside another container', node)
        if cell.loc is None:
            st.cells[v.cell] = cell.copy(n=n, arr=arr)
        else:
            key, obj = cell.loc
            if n is not None:
                self.hset(st, key + '#n', z3.Store(self.hget(st, key + '#n'), obj, n))
            self.hset(st, key + '#e', z3.Store(self.hget(st, key + '#e'), obj, arr))

    def set_elem(self, st, v, t):
        cell = st.cells[v.cell]
        st.cells[v.cell] = cell.copy(elem=t)

    # ------------------------------------------------------------ heap
    def hsort(self, key):
        c = self.ctx
        if key.startswith('@'):
            return self.schema.ghosts[key](c)
        base, _, part = key.partition('#')
        t = self.schema.field(base)
        R = c.Ref
        if part == 'n':
            return z3.ArraySort(R, z3.IntSort())
        if part == 'e':
            return z3.ArraySort(R, z3.ArraySort(z3.IntSort(), c.sort(t.elem)))
        if part == 'null':
            return z3.ArraySort(R, z3.BoolSort())
        if part == 'has':
            return z3.ArraySort(R, z3.ArraySort(c.sort(t.key), z3.BoolSort()))
        if part == 'val':
            return z3.ArraySort(R, z3.ArraySort(c.sort(t.key), c.sort(t.val)))
        if part == 'k':
            return z3.ArraySort(R, z3.ArraySort(z3.IntSort(), c.sort(t.key)))
        return z3.ArraySort(R, c.sort(t))

    def hget(self, st, key):
        if key not in st.heap:
            if key in self.init_heap:
                st.heap[key] = self.init_heap[key]
            else:
                a = z3.Const('h0_' + key, self.hsort(key))
                self.init_heap[key] = a
                st.heap[key] = a
                self.background(key, a)
        return st.heap[key]

    def hset(self, st, key, arr):
        self.hget(st, key)
        if self.pure and st.extra.get('pure_frozen'):
            raise Unsupported('heap write in a pure context')
        st.heap[key] = arr

    def background(self, key, a):
        """Type-level facts about a heap array constant, added to the global axioms (true of every Python heap)."""
        if key.endswith('#n'):
            x = z3.Const('x', self.ctx.Ref)
            self.ctx.axiom(('bg', a.get_id()), z3.ForAll([x], a[x] >= 0, patterns=[a[x]]))
            _keep.append(a)
        elif '#' not in key and not key.startswith('@'):
            t = self.schema.field(key)
            if isinstance(t, Un):
                x = z3.Const('x', self.ctx.Ref)
                self.ctx.axiom(('bg', a.get_id()), z3.ForAll([x], z3.Or([self.tagof(a[x], al) for al in t.alts]),
                                                             patterns=[a[x]]))
                _keep.append(a)

    def havoc_key(self, st, key):
        old = self.hget(st, key)
        a = self.ctx.fresh('h_' + key, self.hsort(key))
        st.heap[key] = a
        if key == '@alloc':         # objects never cease to exist
            x = z3.Const('x!al', self.ctx.Ref)
            st.assume(z3.ForAll([x], z3.Implies(old[x], a[x]), patterns=[old[x], a[x]]))
        self.background(key, a)
        return a

    # ------------------------------------------------------------ fields
    def field_groups(self, st, v, name):
        groups = {}
        for c in self.classes_of(st, v):
            k = self.schema.fkey(c, name)
            groups.setdefault(k, set()).add(c)
        return [(frozenset(cs), k) for k, cs in groups.items()]

    def read_field(self, st, v, name, node):
        groups = self.field_groups(st, v, name)
        out = []
        for s, key, v2 in self.split_class(st, v, groups):
            if key is None:
                out.append((s, self.exc('AttributeError', node, (name,))))
                continue
            out.extend(self.read_key(s, key, v2.e))
        return out

    def read_key(self, st, key, obj):
        t = self.schema.field(key)
        if isinstance(t, OpaqueT):
            return [(st, VOpaque(f'field {key}'))]
        if isinstance(t, ListT):
            if t.nullable:
                out = []
                for s, b in self.split(st, self.hget(st, key + '#null')[obj]):
                    if b:
                        out.append((s, VNone()))
                    else:
                        out.append((s, self.fieldlist(s, key, obj, t)))
                return out
            return [(st, self.fieldlist(st, key, obj, t))]
        if isinstance(t, DictT):
            return [(st, self.fielddict(st, key, obj, t))]
        return [(st, self.decode(self.hget(st, key)[obj], t, st))]

    def fieldlist(self, st, key, obj, t):
        for i, c in st.cells.items():
            if c.kind == 'list' and isinstance(c.loc, tuple) and c.loc[0] == key and c.loc[1].eq(obj):
                return VList(i)
        self.hget(st, key + '#n')
        self.hget(st, key + '#e')
        return VList(self.newcell(st, Cell('list', t.elem, loc=(key, obj), cls=t.cls)))

    def fielddict(self, st, key, obj, t):
        for i, c in st.cells.items():
            if c.kind == 'dict' and isinstance(c.loc, tuple) and c.loc[0] == key and c.loc[1].eq(obj):
                return VDict(i)
        for p in ('#n', '#has', '#val', '#k'):
            self.hget(st, key + p)
        return VDict(self.newcell(st, Cell('dict', t.val, keyT=t.key, loc=(key, obj))))

    def write_field(self, st, v, name, val, node):
        groups = self.field_groups(st, v, name)
        out = []
        for s, key, v2 in self.split_class(st, v, groups):
            if key is None:
                out.append((s, self.exc('AttributeError', node, (name,))))
                continue
            out.extend(self.write_key(s, key, v2.e, val, node))
        return out

    def write_key(self, st, key, obj, val, node):
        t = self.schema.field(key)
        if isinstance(t, OpaqueT):
            return [(st, VNone())]
        if isinstance(t, ListT):
            if isinstance(val, VNone):
                if not t.nullable:
                    return [(st, self.exc('TypedHeapViolation', node, (f'None stored in {key}',)))]
                s = st.copy()
                self.detach(s, key, obj)
                self.hset(s, key + '#null', z3.Store(self.hget(s, key + '#null'), obj, z3.BoolVal(True)))
                return [(s, VNone())]
            if isinstance(val, (VView, VTuple, VSet)):
                return [(st, self.exc('TypedHeapViolation', node, (f'non-list stored in {key}',)))]
            if not isinstance(val, VList):
                return [(st, self.exc('TypedHeapViolation', node, (f'{type(val).__name__} stored in {key}',)))]
            cell = st.cells[val.cell]
            if isinstance(cell.loc, tuple):
                if cell.loc[0] == key and cell.loc[1].eq(obj):
                    return [(st, VNone())]
                return [(st, self.exc('OwnershipViolation', node, (f'list owned by {cell.loc[0]} stored in {key}',)))]
            if cell.frozen:
                raise Unsupported('storing a shared list', node)
            if cell.loc == 'poisoned':
                raise Unsupported('use of a stale list alias', node)
            s = st.copy()
            self.detach(s, key, obj)
            n, arr = self.lnarr(s, val)
            if cell.elem is None:
                arr = self.hget(s, key + '#e')[obj]
            else:
                self.check_elem_type(s, cell, t, key, node)
                if self.ctx.sort(cell.elem) != self.ctx.sort(t.elem):
                    if isinstance(t.elem, Un) or True:
                        arr2 = self.ctx.fresh('conv', z3.ArraySort(z3.IntSort(), self.ctx.sort(t.elem)))
                        j = z3.Int('j')
                        tmp = s.copy()
                        r = self.conv(tmp, self.decode(arr[j], cell.elem), t.elem, node)
                        if len(r) != 1 or isinstance(r[0][1], Exc):
                            return [(st, self.exc('TypedHeapViolation', node, (f'elements stored in {key}',)))]
                        s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), arr2[j] == r[0][1]), patterns=[arr2[j]]))
                        arr = arr2
            self.hset(s, key + '#n', z3.Store(self.hget(s, key + '#n'), obj, n))
            self.hset(s, key + '#e', z3.Store(self.hget(s, key + '#e'), obj, arr))
            if t.nullable:
                self.hset(s, key + '#null', z3.Store(self.hget(s, key + '#null'), obj, z3.BoolVal(False)))
            s.cells[val.cell] = s.cells[val.cell].copy(loc=(key, obj), elem=t.elem, n=None, arr=None)
            return [(s, VNone())]
        if isinstance(t, DictT):
            if not isinstance(val, VDict):
                return [(st, self.exc('TypedHeapViolation', node, (f'{type(val).__name__} stored in {key}',)))]
            cell = st.cells[val.cell]
            if isinstance(cell.loc, tuple):
                if cell.loc[0] == key and cell.loc[1].eq(obj):
                    return [(st, VNone())]
                return [(st, self.exc('OwnershipViolation', node, (f'dict owned by {cell.loc[0]} stored in {key}',)))]
            s = st.copy()
            self.detach(s, key, obj)
            cell = s.cells[val.cell]
            if cell.keyT is None:
                k0 = self.ctx.sort(t.key)
                n, has, vals, karr = z3.IntVal(0), z3.K(k0, z3.BoolVal(False)), self.hget(s, key + '#val')[obj], \
                    self.hget(s, key + '#k')[obj]
            else:
                n, has, vals, karr = cell.n, cell.has, cell.val, cell.arr
                if self.ctx.sort(cell.elem) != self.ctx.sort(t.val):
                    raise Unsupported('dict value type', node)
            for p, x in (('#n', n), ('#has', has), ('#val', vals), ('#k', karr)):
                self.hset(s, key + p, z3.Store(self.hget(s, key + p), obj, x))
            s.cells[val.cell] = Cell('dict', t.val, keyT=t.key, loc=(key, obj))
            return [(s, VNone())]
        out = []
        for s, e in self.conv(st, val, t, node):
            if isinstance(e, Exc):
                out.append((s, e))
            else:
                s = s.copy()
                self.hset(s, key, z3.Store(self.hget(s, key), obj, e))
                out.append((s, VNone()))
        return out

    def check_elem_type(self, st, cell, t, key, node):
        a, b = cell.elem, t.elem
        if isinstance(a, RefT) and isinstance(b, RefT):
            if not a.classes <= b.classes or (a.nullable and not b.nullable):
                n, arr = (cell.n, cell.arr)
                j = z3.Int('j')
                ok = z3.Or([self.ctx.typeof(arr[j]) == self.ctx.clsid(k) for k in sorted(b.classes)])
                if a.nullable and not b.nullable:
                    ok = z3.And(ok, arr[j] != self.ctx.null)
                self.oblige(st, f'typed-heap:{key}', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), ok)),
                            getattr(node, 'lineno', None))
        return True

    def detach(self, st, key, obj):
        """The whole container field `key` of obj is about to be overwritten: give other aliases a snapshot."""
        for i, c in list(st.cells.items()):
            if isinstance(c.loc, tuple) and c.loc[0] == key:
                if c.loc[1].eq(obj):
                    if c.kind == 'list':
                        n, arr = self.lnarr(st, VList(i))
                        st.cells[i] = c.copy(loc=None, n=n, arr=arr)
                    else:
                        st.cells[i] = c.copy(loc='poisoned')
                elif self.feasible(st, c.loc[1] == obj):
                    st.cells[i] = c.copy(loc='poisoned')

    # ------------------------------------------------------------ truthiness / equality / order
    def truth(self, st, v, node=None):
        """list of (st, z3 Bool)."""
        c = self.ctx
        if isinstance(v, VBool):
            return [(st, v.e)]
        if isinstance(v, VInt) or isinstance(v, VReal):
            return [(st, v.e != 0)]
        if isinstance(v, VStr):
            if v.lit is not None:
                return [(st, z3.BoolVal(v.lit != ''))]
            return [(st, v.e != c.lit(''))]
        if isinstance(v, VNone):
            return [(st, z3.BoolVal(False))]
        if isinstance(v, VList):
            n, _ = self.lnarr(st, v)
            return [(st, n > 0)]
        if isinstance(v, VDict):
            return [(st, self.dlen(st, v) > 0)]
        if isinstance(v, VView):
            return [(st, v.n > 0)]
        if isinstance(v, VTuple):
            return [(st, z3.BoolVal(len(v.items) > 0))]
        if isinstance(v, VRec):
            return [(st, z3.BoolVal(len(v.fields) > 0))]
        if isinstance(v, VRef):
            lens = [cl for cl in self.classes_of(st, v) if self.member(cl, '__len__') or self.member(cl, '__bool__')]
            if not lens:
                return [(st, v.e != c.null if v.nullable else z3.BoolVal(True))]
            out = []
            for s, b in (self.split(st, v.e != c.null) if v.nullable else [(st, True)]):
                if not b:
                    out.append((s, z3.BoolVal(False)))
                    continue
                for s2, r in self.call_method(s, VRef(v.e, v.classes), '__len__', [], {}, node):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    else:
                        out.append((s2, r.e != 0))
            return out
        if isinstance(v, VAny):
            if 'ref' in v.alts and any(self.member(cl, '__len__') for cl in v.classes):
                out = []
                for s, x in self.unbox(st, v):
                    out.extend(self.truth(s, x, node))
                return out
            V = c.Val
            parts = []
            for a in v.alts:
                if a == 'bool':
                    parts.append(z3.And(V.is_vbool(v.e), V.b(v.e)))
                elif a == 'int':
                    parts.append(z3.And(V.is_vint(v.e), V.i(v.e) != 0))
                elif a == 'real':
                    parts.append(z3.And(V.is_vreal(v.e), V.r(v.e) != 0))
                elif a == 'str':
                    parts.append(z3.And(V.is_vstr(v.e), V.s(v.e) != c.lit('')))
                elif a == 'ref':
                    parts.append(V.is_vref(v.e))
            return [(st, z3.Or(parts) if parts else z3.BoolVal(False))]
        if isinstance(v, (VFunc, VLambda, VClass, VModule, VBuiltin)):
            return [(st, z3.BoolVal(True))]
        if isinstance(v, VOpaque):
            return [(st, c.fresh('opaque_truth', z3.BoolSort()))]
        raise Unsupported(f'truth of {type(v).__name__}', node)

    def member(self, cl, name):
        ci = self.cinfo(cl)
        if ci is None:
            return None
        return self.prog.lookup(ci, name)

    def eqf(self, st, a, b, node=None):
        """z3 formula for a == b (values without repository-defined __eq__)."""
        c = self.ctx
        if isinstance(a, VAny) or isinstance(b, VAny):
            for x in (a, b):
                if isinstance(x, (VList, VDict, VTuple, VRec, VView)):
                    return z3.BoolVal(False)
            return self.to_val(st, a) == self.to_val(st, b)
        if isinstance(a, VNone) and isinstance(b, VNone):
            return z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VNone):
                if isinstance(y, VRef):
                    return y.e == c.null if y.nullable else z3.BoolVal(False)
                return z3.BoolVal(False)
        if isinstance(a, (VInt, VReal, VBool)) and isinstance(b, (VInt, VReal, VBool)):
            if isinstance(a, VBool) and isinstance(b, VBool):
                return a.e == b.e
            return self.num(a) == self.num(b)
        if isinstance(a, VStr) and isinstance(b, VStr):
            if a.lit is not None and b.lit is not None:
                return z3.BoolVal(a.lit == b.lit)
            return a.e == b.e
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.e == b.e
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And([self.eqf(st, x, y, node) for x, y in zip(a.items, b.items)] or [z3.BoolVal(True)])
        if isinstance(a, VRec) and isinstance(b, VRec):
            if set(a.fields) != set(b.fields):
                return z3.BoolVal(False)
            return z3.And([self.eqf(st, a.fields[k], b.fields[k], node) for k in a.fields])
        if isinstance(a, VList) and isinstance(b, VList):
            na, ea = self.lnarr(st, a)
            nb, eb = self.lnarr(st, b)
            if a.cell == b.cell:
                return z3.BoolVal(True)
            if ea is None or eb is None:
                return na == nb if False else z3.And(na == 0, nb == 0)
            j = z3.Int(f'j!{next(_cnt)}')
            return z3.And(na == nb, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < na), ea[j] == eb[j]),
                                              patterns=[ea[j], eb[j]]))
        if type(a) is not type(b):
            if isinstance(a, VOpaque) or isinstance(b, VOpaque):
                return c.fresh('opaque_eq', z3.BoolSort())
            return z3.BoolVal(False)
        raise Unsupported(f'== on {type(a).__name__}', node)

    def num(self, v):
        if isinstance(v, VBool):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        return v.e

    def numpair(self, a, b):
        x, y = self.num(a), self.num(b)
        if x.sort() != y.sort():
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            if y.sort() == z3.IntSort():
                y = z3.ToReal(y)
        return x, y

    def less(self, st, a, b, node=None, op='<'):
        """list of (st, z3 Bool) for a < b."""
        c = self.ctx
        if isinstance(a, VAny) or isinstance(b, VAny):
            out = []
            for s, x in self.unbox(st, a):
                for s2, y in self.unbox(s, b):
                    out.extend(self.less(s2, x, y, node, op))
            return out
        if isinstance(a, (VInt, VReal, VBool)) and isinstance(b, (VInt, VReal, VBool)):
            x, y = self.numpair(a, b)
            return [(st, {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])]
        if isinstance(a, VStr) and isinstance(b, VStr):
            f = self.strlt()
            if op == '<':
                return [(st, f(a.e, b.e))]
            if op == '>':
                return [(st, f(b.e, a.e))]
            if op == '<=':
                return [(st, z3.Not(f(b.e, a.e)))]
            return [(st, z3.Not(f(a.e, b.e)))]
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if op in ('>', '<='):
                r = self.less(st, b, a, node, '<' if op == '>' else '<')
                return [(s, e if isinstance(e, Exc) else (e if op == '>' else z3.Not(e))) for s, e in r]
            if op == '>=':
                return [(s, e if isinstance(e, Exc) else z3.Not(e)) for s, e in self.less(st, a, b, node, '<')]
            f = z3.BoolVal(len(a.items) < len(b.items))
            for x, y in reversed(list(zip(a.items, b.items))):
                r = self.less(st, x, y, node, '<')
                if len(r) != 1 or isinstance(r[0][1], Exc):
                    raise Unsupported('tuple comparison', node)
                f = z3.Or(r[0][1], z3.And(self.eqf(st, x, y, node), f))
            return [(st, f)]
        if isinstance(a, VNone) or isinstance(b, VNone):
            return [(st, self.exc('TypeError', node, ('comparison with None',)))]
        if isinstance(a, VRef):
            out = []
            for s, a2 in self.nonnull(st, a, node, '__lt__'):
                if isinstance(a2, Exc):
                    out.append((s, self.exc('TypeError', node)))
                    continue
                out.extend(self.ref_less(s, a2, b, node, op))
            return out
        if isinstance(b, VRef):
            flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            return self.less(st, b, a, node, flip)
        raise Unsupported(f'{op} on {type(a).__name__},{type(b).__name__}', node)

    def ref_less(self, st, a, b, node, op):
        name = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
        cl = next(iter(self.classes_of(st, a)))
        if self.member(cl, name):
            res = self.call_method(st, a, name, [b], {}, node)
            out = []
            for s, r in res:
                if isinstance(r, Exc):
                    out.append((s, r))
                else:
                    out.extend(self.truth(s, r, node))
            return out
        if not self.member(cl, '__lt__'):
            return [(st, self.exc('TypeError', node, (f'no {name}',)))]
        # functools.total_ordering from __lt__
        owner = self.member(cl, '__lt__')[0]
        if not any('total_ordering' in d for d in owner.decorators) and op != '>':
            return [(st, self.exc('TypeError', node, (f'no {name}',)))]
        out = []
        for s, r in self.call_method(st, a, '__lt__', [b], {}, node):
            if isinstance(r, Exc):
                out.append((s, r))
                continue
            for s2, lt in self.truth(s, r, node):
                eqs = self.equal(s2, a, b, node)
                for s3, eq in eqs:
                    if isinstance(eq, Exc):
                        out.append((s3, eq))
                    else:
                        out.append((s3, {'<=': z3.Or(lt, eq), '>': z3.And(z3.Not(lt), z3.Not(eq)),
                                         '>=': z3.Not(lt)}[op]))
        return out

    def equal(self, st, a, b, node=None):
        """a == b, dispatching to repository __eq__: list of (st, z3 Bool | Exc)."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VRef):
                cs = self.classes_of(st, x)
                if any(self.member(cl, '__eq__') for cl in cs):
                    out = []
                    for s, x2 in self.nonnull(st, x, node):
                        if isinstance(x2, Exc):
                            out.append((s, self.eqf(s, VNone(), y, node)))
                            continue
                        for s2, r in self.call_method(s, x2, '__eq__', [y], {}, node):
                            if isinstance(r, Exc):
                                out.append((s2, r))
                            else:
                                out.extend(self.truth(s2, r, node))
                    return out
                if any(self.schema.eq_by_str(cl) for cl in cs):
                    raise Unsupported('== on a mapping object', node)
        return [(st, self.eqf(st, a, b, node))]

    def strlt(self):
        c = self.ctx
        if c.strmode == 'z3':
            return lambda a, b: a < b
        f = c.uf('strlt', c.StrS, c.StrS, z3.BoolSort())
        x, y, z = (z3.Const(k, c.StrS) for k in 'xyz')
        c.axiom('strlt', z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y), patterns=[f(x, y)]),
                z3.ForAll([x, y], z3.Not(z3.And(f(x, y), f(y, x))), patterns=[f(x, y)]),
                z3.ForAll([x, y, z], z3.Implies(z3.And(f(x, y), f(y, z)), f(x, z)),
                          patterns=[z3.MultiPattern(f(x, y), f(y, z))]))
        return f

    # ------------------------------------------------------------ pure evaluation (for quantified bodies)
    def pure_eval(self, st, fn, node=None):
        """Evaluate fn(state) -> results in a context where nothing may be written.
        Returns (list of (guard, value), list of (guard, Exc))."""
        s0 = st.copy()
        npc = len(s0.pc)
        s0.extra = dict(s0.extra, pure_frozen=True)
        self.pure += 1
        saved = self.ctx.fresh_log
        self.ctx.fresh_log = []
        no = len(self.obls)
        try:
            res = fn(s0)
            fresh = self.ctx.fresh_log
        finally:
            self.ctx.fresh_log = saved
            self.pure -= 1
        vals, excs = [], []
        for s, v in res:
            g = z3.And(s.pc[npc:]) if len(s.pc) > npc else z3.BoolVal(True)
            (excs if isinstance(v, Exc) else vals).append((g, v))
        return vals, excs, fresh, no

    def merge_vals(self, st, vals, node=None):
        """Combine guarded values into one value."""
        if not vals:
            return None
        if len(vals) == 1:
            return vals[0][1]
        if all(isinstance(v, VBool) for _, v in vals):
            return VBool(z3.Or([z3.And(g, v.e) for g, v in vals]))
        t = None
        for _, v in vals:
            t = self.join_t(t, self.typ(v, st))
        e = None
        for g, v in reversed(vals):
            r = self.conv(st, v, t, node)
            if len(r) != 1 or isinstance(r[0][1], Exc):
                raise Unsupported('merging of values', node)
            e = r[0][1] if e is None else z3.If(g, r[0][1], e)
        return self.decode(e, t, st)

    def quant_eval(self, st, j, rng, fn, node=None):
        """Evaluate fn at the generic index j (rng: z3 condition on j). Returns merged value (a function of j) and adds
        exceptional branches as obligations/outcomes: [(st, V|Exc)]."""
        vals, excs, fresh, no = self.pure_eval(st.copy().assume(rng), fn, node)
        if fresh:
            raise Unsupported('fresh values under a quantifier', node)
        outs = []
        for g, e in excs:
            # some element raises: exceptional outcome with a witness index
            w = self.ctx.fresh('w', j.sort())
            s2 = st.copy().assume(z3.substitute(z3.And(rng, g), (j, w)))
            if self.feasible(s2):
                outs.append((s2, e))
        if excs and st.pc is not None:
            # normal continuation: no element raises
            pass
        v = self.merge_vals(st, vals, node)
        noexc = [z3.ForAll([j], z3.Implies(rng, z3.Not(g))) for g, _ in excs]
        return v, outs, noexc


_cnt = __import__('itertools').count()
_cnt_cell = __import__('itertools').count(1)
