"""Sorts, types, symbolic values, program states."""
import hashlib
import z3
from itertools import count

_cnt = count()


# ---------------------------------------------------------------- types
class T:
    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


class Prim(T):
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return self.k


Int, Real, Bool, Str, NoneT = Prim('int'), Prim('real'), Prim('bool'), Prim('str'), Prim('none')


class RefT(T):
    def __init__(self, *classes, nullable=False):
        self.classes, self.nullable = frozenset(classes), nullable

    def __repr__(self):
        return 'Ref(' + ','.join(sorted(self.classes)) + ('?' if self.nullable else '') + ')'


class Un(T):
    """Union encoded in the Val datatype: alts from {'none','bool','int','real','str','ref'}."""
    def __init__(self, *alts, classes=()):
        self.alts, self.classes = tuple(alts), frozenset(classes)

    def __repr__(self):
        return 'Un(' + ','.join(self.alts) + ';' + ','.join(sorted(self.classes)) + ')'


AnyT = Un('none', 'bool', 'int', 'real', 'str', 'ref')


class ListT(T):
    def __init__(self, elem, cls='list', nullable=False):
        self.elem, self.cls, self.nullable = elem, cls, nullable

    def __repr__(self):
        return f'List({self.elem!r},{self.cls}{"?" if self.nullable else ""})'


class DictT(T):
    def __init__(self, key, val, nullable=False):
        self.key, self.val, self.nullable = key, val, nullable

    def __repr__(self):
        return f'Dict({self.key!r},{self.val!r})'


class SetT(T):
    def __init__(self, elem):
        self.elem = elem

    def __repr__(self):
        return f'Set({self.elem!r})'


class TupT(T):
    def __init__(self, *items):
        self.items = items

    def __repr__(self):
        return f'Tup({",".join(map(repr, self.items))})'


class RecT(T):
    """A small dict literal with fixed string keys, stored as an immutable record."""
    def __init__(self, **fields):
        self.fields = fields

    def __repr__(self):
        return f'Rec({self.fields!r})'


class OpaqueT(T):
    """A field whose content is not modelled (nothing may depend on it)."""
    nullable = True

    def __repr__(self):
        return 'Opaque'


class FrozenListT(T):
    """A list stored as an element of another container: treated as an immutable value."""
    def __init__(self, elem):
        self.elem = elem

    def __repr__(self):
        return f'FList({self.elem!r})'


class RowT(FrozenListT):
    """A row of a table (a list of fresh lists): only reached as table[i][j], so no other reference to it exists."""

    def __repr__(self):
        return f'Row({self.elem!r})'


# ---------------------------------------------------------------- values
class V:
    pass


class VInt(V):
    def __init__(self, e):
        self.e = z3.IntVal(e) if isinstance(e, int) else e


class VReal(V):
    def __init__(self, e):
        self.e = z3.RealVal(e) if isinstance(e, (int, float, str)) else e


class VBool(V):
    def __init__(self, e):
        self.e = z3.BoolVal(e) if isinstance(e, bool) else e


class VStr(V):
    def __init__(self, e, lit=None):
        self.e, self.lit = e, lit


class VNone(V):
    pass


class VRef(V):
    def __init__(self, e, classes, nullable=False):
        self.e, self.classes, self.nullable = e, frozenset(classes), nullable


class VAny(V):
    def __init__(self, e, alts, classes=()):
        self.e, self.alts, self.classes = e, tuple(alts), frozenset(classes)


class VTuple(V):
    def __init__(self, items):
        self.items = list(items)


class VList(V):
    def __init__(self, cell):
        self.cell = cell


class VDict(V):
    def __init__(self, cell):
        self.cell = cell


class VSet(V):
    def __init__(self, cell):
        self.cell = cell


class VRec(V):
    def __init__(self, fields):
        self.fields = fields  # name -> V


class VView(V):
    """Immutable iterable: n (z3 int) and get(j z3) -> V. `cell` set when it is a live list."""
    def __init__(self, n, get, what='view', facts=None):
        self.n, self.get, self.what, self.facts = n, get, what, facts or []


class VFunc(V):
    def __init__(self, fi, bound=None):
        self.fi, self.bound = fi, bound


class VLambda(V):
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module


class VClass(V):
    def __init__(self, name, ci=None):
        self.name, self.ci = name, ci


class VBuiltin(V):
    def __init__(self, name, bound=None):
        self.name, self.bound = name, bound


class VModule(V):
    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod


class VSuper(V):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class VKwargs(V):
    """Opaque **kwargs of unknown content."""


class VOpaque(V):
    """A value of external code about which nothing is known and on which nothing may depend."""
    def __init__(self, what):
        self.what = what


class Exc:
    """An exceptional evaluation result."""
    def __init__(self, cls, args=(), line=None, implicit=False):
        self.cls, self.args, self.line, self.implicit = cls, args, line, implicit

    def __repr__(self):
        return f'Exc({self.cls}@{self.line})'


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        super().__init__(msg + (f' (line {node.lineno})' if node is not None and hasattr(node, 'lineno') else ''))


# ---------------------------------------------------------------- context
class Ctx:
    """One per function being verified: sorts, uninterpreted symbols, global axioms."""

    def __init__(self, schema, strings='opaque'):
        self.schema = schema
        self.strmode = strings
        self.Ref = z3.DeclareSort('Ref')
        self.null = z3.Const('null', self.Ref)
        self.StrS = z3.StringSort() if strings == 'z3' else z3.DeclareSort('Str')
        D = z3.Datatype('Val' if strings == 'opaque' else 'ValZ')
        D.declare('vnone')
        D.declare('vbool', ('val_b', z3.BoolSort()))
        D.declare('vint', ('val_i', z3.IntSort()))
        D.declare('vreal', ('val_r', z3.RealSort()))
        D.declare('vstr', ('val_s', self.StrS))
        D.declare('vref', ('val_o', self.Ref))
        self.Val = D.create()
        for k in 'birso':     # the accessors need names that no bound variable has
            setattr(self.Val, k, getattr(self.Val, 'val_' + k))
        self.typeof = z3.Function('typeof', self.Ref, z3.IntSort())
        self.axioms = []      # (formula)
        self.axkeys = set()
        self.lits = {}
        self._mem = {}
        self._tup = {}
        self._ufs = {}
        self.fresh_log = None
        self.used_contracts = set()
        self.inlined = set()
        self.trusted = set()
        self.clsids = {}

    def clsid(self, name):
        if name not in self.clsids:
            self.clsids[name] = len(self.clsids) + 1
        return self.clsids[name]

    def fresh(self, name, sort):
        c = z3.Const(f'{name}!{next(_cnt)}', sort)
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    def axiom(self, key, *fs):
        if key in self.axkeys:
            return
        self.axkeys.add(key)
        self.axioms.extend(fs)

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self._ufs:
            self._ufs[k] = z3.Function(name, *sorts)
        return self._ufs[k]

    # ---- sorts of types
    def sort(self, t):
        if isinstance(t, Prim):
            return {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort(), 'str': self.StrS,
                    'none': z3.BoolSort()}[t.k]
        if isinstance(t, RefT):
            return self.Ref
        if isinstance(t, Un):
            return self.Val
        if isinstance(t, TupT):
            return self.tupsort(t)[0]
        if isinstance(t, RecT):
            return self.tupsort(TupT(*t.fields.values()))[0]
        if isinstance(t, FrozenListT):
            return self.seqsort(t)[0]
        raise Unsupported(f'no sort for {t!r}')

    def tupsort(self, t):
        k = repr(t)
        if k not in self._tup:
            n = 'Tup' + hashlib.md5((self.strmode + k).encode()).hexdigest()[:8]     # one name per type in a process
            D = z3.Datatype(n)
            D.declare('mk' + n, *[(f'{n}_{i}', self.sort(x)) for i, x in enumerate(t.items)])
            S = D.create()
            self._tup[k] = (S, S.constructor(0), [S.accessor(0, i) for i in range(len(t.items))])
        return self._tup[k]

    def seqsort(self, t):
        k = repr(t)
        if k not in self._tup:
            n = 'Seq' + hashlib.md5((self.strmode + k).encode()).hexdigest()[:8]
            D = z3.Datatype(n)
            D.declare('mk' + n, (n + '_n', z3.IntSort()), (n + '_e', z3.ArraySort(z3.IntSort(), self.sort(t.elem))))
            S = D.create()
            self._tup[k] = (S, S.constructor(0), [S.accessor(0, 0), S.accessor(0, 1)])
        return self._tup[k]

    # ---- string literals
    def lit(self, s):
        if self.strmode == 'z3':
            return z3.StringVal(s)
        if s not in self.lits:
            nm = ''.join(ch if ch.isalnum() else f'_{ord(ch):x}_' for ch in s)
            self.lits[s] = z3.Const(f'str_{len(self.lits)}_{nm}', self.StrS)
        return self.lits[s]

    def lit_axioms(self):
        if self.strmode == 'z3':
            return []
        out = []
        if len(self.lits) > 1:
            out.append(z3.Distinct(*self.lits.values()))
        for p, vals in getattr(self, 'lit_preds', {}).items():
            pass
        return out

    # ---- list membership
    def memf(self, elsort):
        k = str(elsort)
        if k not in self._mem:
            A = z3.ArraySort(z3.IntSort(), elsort)
            mem = z3.Function(f'mem_{k}', A, z3.IntSort(), elsort, z3.BoolSort())
            idx = z3.Function(f'idx_{k}', A, z3.IntSort(), elsort, z3.IntSort())
            a, n, x, j = z3.Const('a', A), z3.Int('n'), z3.Const('x', elsort), z3.Int('j')
            self._mem[k] = (mem, idx)
            self.axioms.append(z3.ForAll([a, n, x], z3.Implies(
                mem(a, n, x), z3.And(0 <= idx(a, n, x), idx(a, n, x) < n, a[idx(a, n, x)] == x)),
                patterns=[mem(a, n, x)]))
            self.axioms.append(z3.ForAll([a, n, x, j], z3.Implies(
                z3.And(0 <= j, j < n, a[j] == x), mem(a, n, x)),
                patterns=[z3.MultiPattern(mem(a, n, x), a[j])]))
        return self._mem[k]

    def mem(self, arr, n, x):
        return self.memf(arr.range())[0](arr, n, x)

    def idx(self, arr, n, x):
        return self.memf(arr.range())[1](arr, n, x)


# ---------------------------------------------------------------- state
class Cell:
    """A mutable list/dict/set object. loc=None: local contents; loc=(key,obj): contents live in heap field `key` of obj."""
    __slots__ = ('kind', 'loc', 'n', 'arr', 'elem', 'cls', 'attrs', 'frozen', 'has', 'val', 'keyT')

    def __init__(self, kind, elem, n=None, arr=None, loc=None, cls='list', attrs=None, frozen=False, has=None, val=None,
                 keyT=None):
        self.kind, self.elem, self.n, self.arr, self.loc = kind, elem, n, arr, loc
        self.cls, self.attrs, self.frozen = cls, attrs or {}, frozen
        self.has, self.val, self.keyT = has, val, keyT

    def copy(self, **kw):
        c = Cell(self.kind, self.elem, self.n, self.arr, self.loc, self.cls, dict(self.attrs), self.frozen, self.has,
                 self.val, self.keyT)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class State:
    __slots__ = ('pc', 'heap', 'cells', 'env', 'clsf', 'ncell', 'path', 'extra')

    def __init__(self):
        self.pc, self.heap, self.cells, self.env, self.clsf, self.path = [], {}, {}, {}, {}, ()
        self.extra = {}

    def copy(self):
        s = State.__new__(State)
        s.pc, s.heap, s.cells, s.env = list(self.pc), dict(self.heap), dict(self.cells), dict(self.env)
        s.clsf, s.path, s.extra = dict(self.clsf), self.path, dict(self.extra)
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_true(f):
                continue
            self.pc.append(f)
        return self
