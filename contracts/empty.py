"""Contracts of enhanced dependencies and empty nodes (C06)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *
from .tree import And, Or, Imp, Not, If, Tr, WF, xs, N

NR = RefT("Node", "Root")
ANY = RefT('Node', 'Root', 'EmptyNode')
DEPT = RecT(parent=RefT('Node', 'Root', 'EmptyNode'), deprel=S_)


class De(Tr):
    def __init__(self, S):
        super().__init__(S)
        c, I = self.c, S.I
        self.V = c.Val
        self.raw, self.none = S('Node._raw_deps'), S('Node._deps#null')
        self.dn, self.de = S.n('Node._deps'), S.e('Node._deps')
        self.eord = S('EmptyNode._ord')
        self.En, self.Ee = S.n('Root.empty_nodes'), S.e('Root.empty_nodes')
        self.mk, (self.dpar, self.drel) = c.tupsort(TupT(*DEPT.fields.values()))[1:]
        self.cat = lambda a, b: I.strcat(None, VStr(a), VStr(b)).e
        self.istr = c.uf('str_of_int', z3.IntSort(), c.StrS)
        self.rstr = c.uf('str_of_real', z3.RealSort(), c.StrS)

    def empty(self, x):
        return self.c.typeof(x) == self.c.clsid('EmptyNode')

    def ordstr(self, x):
        return If(self.empty(x), self.rstr(self.eord[x]), self.istr(self.ord[x]))

    def text(self, d):
        """The serialized form of one dependency."""
        V, c = self.V, self.c
        rel = self.drel(d)
        return self.cat(self.cat(self.ordstr(self.dpar(d)), c.lit(':')), If(V.is_vstr(rel), V.s(rel), c.lit('None')))

    def parts(self, arr, n, e):
        j = z3.Int('j')
        return FA([j], Imp(And(0 <= j, j < n), arr[j] == self.text(e[j])), arr[j], e[j])


def no_ordtuple(I, st, f, args, kw, node):
    """Positions with two decimals (ten or more empty nodes after one word) are outside the proved domain: must be unreachable."""
    I.oblige(st, 'two-decimal-position-unreachable', z3.BoolVal(False), getattr(node, 'lineno', None))
    return []


def extend_schema(sc):
    sc.constructors['OrdTuple'] = no_ordtuple
    # the texts of the dependencies joined by the last serialization (specification only)
    sc.ghosts['@dep_parts'] = lambda c: z3.ArraySort(c.Ref, z3.ArraySort(z3.IntSort(), c.StrS))


class RawDeps(Contract):
    qual = N + 'raw_deps'
    params = {'self': ANY}
    ret = S_
    modifies = ('Node._raw_deps', '@dep_parts')

    def requires(self, S, a):
        t = De(S)
        j = z3.Int('j')
        j = z3.Int('j')
        d = t.de[a.self][j]
        y = t.dpar(d)
        typed = And(Or(t.V.is_vnone(t.drel(d)), t.V.is_vstr(t.drel(d))), y != t.null, Or(*[t.c.typeof(y) == t.c.clsid(k) for k in ('Node', 'Root', 'EmptyNode')]))
        return [('list-of-dependencies', Imp(Not(t.none[a.self]), And(t.dn[a.self] >= 0, FA([j], Imp(And(0 <= j, j < t.dn[a.self]), typed), d))))]

    def ghost(self, S0, S1, a, r):
        js = a.st.extra.get('joins', ())
        g = S0('@dep_parts')
        return {'@dep_parts': z3.Store(g, a.self, js[-1][1]) if js else g}

    def ensures(self, S0, S1, a, r):
        t, u = De(S0), De(S1)
        s, c = a.self, t.c
        P = S1('@dep_parts')[s]
        des, n = Not(t.none[s]), t.dn[s]
        return [('not-deserialized', Imp(t.none[s], r == t.raw[s])),
                ('no-dependencies', Imp(And(des, n == 0), r == t.V.vstr(c.lit('_')))),
                ('serialized', Imp(And(des, n > 0), And(r == t.V.vstr(S0.I.joinf()(c.lit('|'), P, n)), t.parts(P, n, t.de[s])))),
                ('stored', u.raw == z3.Store(t.raw, s, r))]


class SetRawDeps(Contract):
    qual = N + 'raw_deps.setter'
    params = {'self': ANY, 'value': S_}
    ret = NoneT
    modifies = ('Node._raw_deps', 'Node._deps#null')

    def ensures(self, S0, S1, a, r):
        t, u = De(S0), De(S1)
        return [('text-stored', u.raw == z3.Store(t.raw, a.self, a.value)),
                ('list-dropped', u.none == z3.Store(t.none, a.self, True))]


class SetDeps(Contract):
    qual = N + 'deps.setter'
    params = {'self': ANY, 'value': ListT(DEPT)}
    ret = NoneT
    modifies = ('Node._raw_deps', 'Node._deps#null', 'Node._deps#n', 'Node._deps#e')

    def ensures(self, S0, S1, a, r):
        t, u = De(S0), De(S1)
        s = a.self
        return [('list-stored', And(u.none == z3.Store(t.none, s, False), u.dn == z3.Store(t.dn, s, a.value.n), u.de == z3.Store(t.de, s, a.value.e))),
                ('text-dropped', u.raw == z3.Store(t.raw, s, t.V.vnone))]


class GetDeps(Contract):
    qual = N + 'deps'
    params = {'self': ANY}
    ret = ListT(DEPT)
    ret_field = ('Node._deps', 'self')
    may_raise = ('ValueError', 'IndexError')
    modifies = ('Node._deps#null', 'Node._deps#n', 'Node._deps#e')

    def requires(self, S, a):
        t = De(S)
        s, c = a.self, t.c
        R = t.root[s]
        j = z3.Int('j')
        return WF(S, R, parts=('numbering', 'root')) + [
            ('stored-text', Imp(t.none[s], t.V.is_vstr(t.raw[s]))),
            ('empty-nodes', And(t.En[R] >= 0, FA([j], Imp(And(0 <= j, j < t.En[R]), And(t.Ee[R][j] != c.null, t.empty(t.Ee[R][j]))), t.Ee[R][j])))]

    @staticmethod
    def split(t, s):
        """(number of dependencies, j -> text of the j-th one, text -> head, text -> relation) of the serialized form."""
        c = t.c
        I, A = z3.IntSort(), z3.ArraySort(z3.IntSort(), c.StrS)
        raw = t.V.s(t.raw[s])
        N_, E_ = c.uf('split_n', c.StrS, c.StrS, I)(raw, c.lit('|')), c.uf('split_e', c.StrS, c.StrS, A)(raw, c.lit('|'))
        E1 = c.uf('split_1_e', c.StrS, c.StrS, A)
        return N_, E_, lambda p: E1(p, c.lit(':'))[0], lambda p: E1(p, c.lit(':'))[1]

    @classmethod
    def resolved(cls, t, s, e, upto):
        """e[0..upto) are what the first `upto` serialized dependencies name."""
        c = t.c
        R = t.root[s]
        n, E, head, rel = cls.split(t, s)
        j, k = z3.Ints('j k')
        d, h = e[j], head(E[j])
        iv = c.uf('int_of_str', c.StrS, z3.IntSort())(h)
        dot = z3.BoolVal(True)
        has = c.uf('str_contains', c.StrS, c.StrS, z3.BoolSort())(h, c.lit('.'))
        rng = And(0 <= j, j < upto)
        return [('relation', FA([j], Imp(rng, And(t.drel(d) == t.V.vstr(rel(E[j])), t.cat(t.cat(h, c.lit(':')), rel(E[j])) == E[j])), d)),
                ('word-with-this-number', FA([j], Imp(And(rng, Not(has), iv >= 0), And(iv <= t.Dn[R], t.dpar(d) == If(iv == 0, R, t.De[R][iv - 1]),
                                                                              t.ord[t.dpar(d)] == iv, Not(t.empty(t.dpar(d))))), d)),
                ('empty-node-with-this-number', FA([j], Imp(And(rng, has), And(c.mem(t.Ee[R], t.En[R], t.dpar(d)), t.empty(t.dpar(d)), t.rstr(t.eord[t.dpar(d)]) == h)), d))]

    def exc_ensures(self, S0, S1, a, cls):
        t, u = De(S0), De(S1)
        return [('nothing-changed-on-error', And(u.none == t.none, u.dn == t.dn, u.de == t.de))]

    def ensures(self, S0, S1, a, r):
        t, u = De(S0), De(S1)
        s, c = a.self, t.c
        n, E, head, rel = self.split(t, s)
        text = t.V.s(t.raw[s])
        j = z3.Int('j')
        x = xs(c, 'x')
        real = And(t.none[s], text != c.lit('_'))
        h = head(E[j])
        iv = c.uf('int_of_str', c.StrS, z3.IntSort())(h)
        has = c.uf('str_contains', c.StrS, c.StrS, z3.BoolSort())(h, c.lit('.'))
        canonical = Or(has, And(iv >= 0, h == t.istr(iv)))
        return [('deserialized', Not(u.none[s])),
                ('unchanged-if-already', Imp(Not(t.none[s]), And(u.dn[s] == t.dn[s], u.de[s] == t.de[s]))),
                ('no-dependencies', Imp(And(t.none[s], text == c.lit('_')), u.dn[s] == 0)),
                ('as-many-as-named', Imp(real, u.dn[s] == n)),
                ('serializing-gives-the-same-text', Imp(real, FA([j], Imp(And(0 <= j, j < n, canonical), u.text(u.de[s][j]) == E[j]), u.de[s][j]))),
                ('others', FA([x], Imp(x != s, And(u.none[x] == t.none[x], u.dn[x] == t.dn[x], u.de[x] == t.de[x])), u.none[x], u.dn[x], u.de[x]))] + \
            [(k, Imp(real, f)) for k, f in self.resolved(t, s, u.de[s], n)]

    @staticmethod
    def _inv(L):
        t = De(L.S0)
        d = L.v('deps')
        s = L.a.self
        n, e = d.n, d.e
        out = [('as-many', n == L.i)]
        if e is None:
            return out
        return out + GetDeps.resolved(t, s, e, L.i)
    loops = {0: Loop(inv=_inv.__func__, types={'deps': ListT(DEPT)})}


def EMPTIES(S, R):
    """The list of empty nodes: distinct objects of this tree ordered by position."""
    t = De(S)
    c = t.c
    j, k = z3.Ints('j k')
    E, n = t.Ee[R], t.En[R]
    return [('listed', And(n >= 0, FA([j], Imp(And(0 <= j, j < n), And(E[j] != c.null, t.empty(E[j]), t.alloc[E[j]], t.root[E[j]] == R, t.eord[E[j]] > 0)), E[j]))),
            ('sorted', FA([j, k], Imp(And(0 <= j, j < k, k < n), t.eord[E[j]] < t.eord[E[k]]), [E[j], E[k]]))]


class CreateEmptyChild(Contract):
    qual = N + 'create_empty_child'
    params = {'self': NR, 'deprel': S_, 'after': Bool}
    ret = RefT('EmptyNode')
    merge_constructors = True
    may_raise = ('TypeError', 'ValueError')
    modifies = ('EmptyNode._ord', 'Root.empty_nodes#n', 'Root.empty_nodes#e', 'Node._deps#n', 'Node._deps#e', 'Node._deps#null', 'Node._raw_deps', '@alloc', 'Node._root')
    exc_modifies = ('@alloc',)

    @staticmethod
    def base(t, a):
        return If(a.after, t.ord[a.self], t.ord[a.self] - 1)

    def requires(self, S, a):
        t = De(S)
        R = t.root[a.self]
        j = z3.Int('j')
        E = t.Ee[R]
        b = z3.ToReal(self.base(t, a))
        return WF(S, R, parts=('numbering', 'root')) + EMPTIES(S, R) + [
            ('self-in-tree', t.inTR(R, a.self)),
            ('not-before-the-root', Or(a.after, t.ord[a.self] >= 1)),
            ('one-decimal', FA([j], Imp(And(0 <= j, j < t.En[R]), z3.IsInt(10 * t.eord[E[j]])), E[j])),
            ('fewer-than-nine-there', FA([j], Imp(And(0 <= j, j < t.En[R]), t.eord[E[j]] != b + z3.RealVal('9/10')), E[j]))]

    def ensures(self, S0, S1, a, r):
        t, u = De(S0), De(S1)
        c = t.c
        R = t.root[a.self]
        x = xs(c, 'x')
        j = z3.Int('j')
        b = z3.ToReal(self.base(t, a))
        old = lambda y: c.mem(t.Ee[R], t.En[R], y)
        return [('new-object', And(r != c.null, Not(t.alloc[r]), u.alloc[r], u.empty(r), u.root[r] == R)),
                ('strictly-between-the-neighbours', And(b < u.eord[r], u.eord[r] < b + 1)),
                ('new-position', FA([x], Imp(old(x), And(x != r, u.eord[x] != u.eord[r])), old(x))),
                ('added-to-the-list', And(u.En[R] == t.En[R] + 1, FA([x], c.mem(u.Ee[R], u.En[R], x) == Or(old(x), x == r), c.mem(u.Ee[R], u.En[R], x), old(x)))),
                ('its-dependency', And(Not(u.none[r]), u.dn[r] == 1, u.dpar(u.de[r][0]) == a.self, u.drel(u.de[r][0]) == a.deprel)),
                ('others-untouched', FA([x], Imp(x != r, And(u.eord[x] == t.eord[x], u.none[x] == t.none[x], u.dn[x] == t.dn[x], u.de[x] == t.de[x], u.raw[x] == t.raw[x],
                                                            u.root[x] == t.root[x])), u.eord[x], u.none[x], u.raw[x], u.root[x])),
                ('other-trees', FA([x], Imp(x != R, And(u.En[x] == t.En[x], u.Ee[x] == t.Ee[x])), u.En[x], u.Ee[x]))] + [('empty-nodes-' + k, f) for k, f in EMPTIES(S1, R)]

    def exc_ensures(self, S0, S1, a, cls):
        t, u = De(S0), De(S1)
        x = xs(t.c, 'x')
        return [('alloc-grows', FA([x], Imp(t.alloc[x], u.alloc[x]), t.alloc[x]))]

    @staticmethod
    def _inv(L):
        t = De(L.S)
        j = z3.Int('j')
        R = t.root[L.a.self]
        E = t.Ee[R]
        b = CreateEmptyChild.base(De(L.S0), L.a)
        o = L.v('new_ord')
        k = z3.ToInt(10 * o)
        return [('position', And(10 * o == z3.ToReal(k), 10 * b + 1 <= k, k <= 10 * b + 9)),
                ('behind-those-before', FA([j], Imp(And(0 <= j, j < L.i), t.eord[E[j]] < o), E[j]))]
    loops = {0: Loop(inv=_inv.__func__)}


ALL = [RawDeps, SetRawDeps, SetDeps, GetDeps, CreateEmptyChild]
