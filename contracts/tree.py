"""Specification vocabulary of dependency trees and contracts of udapi.core.node / udapi.core.root (C01, C02, C03)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA, fv
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *

NODE, NR = RefT('Node'), RefT('Node', 'Root')
N = 'udapi.core.node.Node.'


def And(*a):
    return z3.And(*a)


def Or(*a):
    return z3.Or(*a)


Imp, Not, If = z3.Implies, z3.Not, z3.If


class Tr:
    """The arrays describing trees in one heap state."""

    def __init__(self, S):
        self.S = S
        self.c = S.I.ctx
        self.ord, self.par, self.root = S('Node._ord'), S('Node._parent'), S('Node._root')
        self.chn, self.che = S.n('Node._children'), S.e('Node._children')
        self.Dn, self.De = S.n('Root._descendants'), S.e('Root._descendants')
        self.dep = S('@dep')
        self.alloc = S('@alloc')
        self.null = self.c.null

    def inT(self, R, x):
        o = self.ord[x]
        return And(o >= 1, o <= self.Dn[R], self.De[R][o - 1] == x)

    def inTR(self, R, x):
        return Or(x == R, self.inT(R, x))

    def ch(self, x, j):
        return self.che[x][j]

    def inch(self, p, x):
        return self.c.mem(self.che[p], self.chn[p], x)

    def anc(self, a, x):
        return anc(self.c, self.par, a, x)


def xs(c, *names):
    r = [z3.Const(f'{n}', c.Ref) for n in names]
    return r[0] if len(r) == 1 else r


def anc(c, par, a, x):
    R = c.Ref
    f = c.uf('anc', z3.ArraySort(R, R), R, R, z3.BoolSort())
    p, y, z = z3.Const('p', z3.ArraySort(R, R)), z3.Const('y', R), z3.Const('z', R)
    c.axiom('anc', FA([p, y, z], f(p, y, z) == And(p[z] != c.null, Or(p[z] == y, f(p, y, p[z]))), [f(p, y, z), p[z]]))
    return f(par, a, x)


def WF(S, R, parts=None, dep=None):
    """Well-formedness of the tree with technical root R (every clause is named)."""
    t = Tr(S)
    c = t.c
    x = xs(c, 'x')
    i, j, k = z3.Ints('i j k')
    D, n = t.De[R], t.Dn[R]
    T = lambda y: t.inT(R, y)
    TR = lambda y: t.inTR(R, y)
    cl = {}
    cl['numbering'] = And(n >= 0, FA([i], Imp(And(0 <= i, i < n), And(
        D[i] != c.null, c.typeof(D[i]) == c.clsid('Node'), t.ord[D[i]] == i + 1, t.root[D[i]] == R, t.alloc[D[i]])), D[i]))
    cl['root'] = And(R != c.null, c.typeof(R) == c.clsid('Root'), t.root[R] == R, t.par[R] == c.null, t.ord[R] == 0,
                     t.dep[R] >= 0, t.alloc[R])
    cl['parent-in-tree'] = FA([x], Imp(T(x), And(t.par[x] != c.null, TR(t.par[x]))), t.par[x])
    cl['no-cycle'] = FA([x], Imp(T(x), And(t.dep[t.par[x]] >= 0, t.dep[t.par[x]] < t.dep[x])), t.par[x])
    cl['children-are-attached'] = FA([x, j], Imp(And(TR(x), 0 <= j, j < t.chn[x]),
                                               And(T(t.ch(x, j)), t.par[t.ch(x, j)] == x)), t.ch(x, j))
    cl['children-sorted'] = FA([x, j, k], Imp(And(TR(x), 0 <= j, j < k, k < t.chn[x]),
                                            t.ord[t.ch(x, j)] < t.ord[t.ch(x, k)]), [t.ch(x, j), t.ch(x, k)])
    cl['attached-are-children'] = FA([x], Imp(T(x), t.inch(t.par[x], x)), t.par[x])
    return [(k_, v) for k_, v in cl.items() if parts is None or k_ in parts]


def wf(S, R, **kw):
    return And(*[f for _, f in WF(S, R, **kw)])


WEAK = ('numbering', 'root', 'parent-in-tree', 'no-cycle', 'children-are-attached', 'children-sorted')


def node_in_some_tree(S, x):
    """x is a word or the technical root of some well-formed tree."""
    t = Tr(S)
    return And(x != t.null, wf(S, t.root[x]), t.inTR(t.root[x], x))


class IsDescendantOf(Contract):
    qual = N + 'is_descendant_of'
    params = {'self': NODE, 'node': RefT('Node', 'Root', 'EmptyNode', nullable=True)}
    ret = Bool

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inT(R, a.self)),
                           ('node', Or(a.node == t.null, t.chn[a.node] == 0, node_in_some_tree(S, a.node)))]

    def value(self, S, a):
        t = Tr(S)
        return VBool(And(a.node != t.null, t.anc(a.node, a.self)))

    def hints(self, S0, S1, a, r):
        t = Tr(S0)
        R = t.root[a.self]
        x = xs(t.c, 'x')
        return [('induct', 'an ancestor has a child', x, t.dep[x],
                 Imp(And(t.inT(R, x), t.par[x] != t.null, a.node != t.null, t.anc(a.node, x)), t.chn[a.node] > 0), [t.anc(a.node, x)]),
                ('assert', 'inst', Imp(And(a.node != t.null, t.anc(a.node, a.self)), t.chn[a.node] > 0))]

    def ensures(self, S0, S1, a, r):
        return [('descendant-test', r == self.value(S0, a).e)]

    @staticmethod
    def _inv(L):
        t = Tr(L.S)
        R, cl, nd = t.root[L.a.self], L.v('climber'), L.a.node
        return [('climber', Or(cl == t.null, t.inTR(R, cl))),
                ('climbing', If(cl == t.null, Not(t.anc(nd, L.a.self)),
                                t.anc(nd, L.a.self) == Or(cl == nd, t.anc(nd, cl))))]
    loops = {0: Loop(inv=_inv.__func__, variant=lambda L: If(L.v('climber') == Tr(L.S).null, 0, Tr(L.S).dep[L.v('climber')] + 1))}



class ParentSetter(Contract):
    qual = N + 'parent.setter'
    params = {'self': NODE, 'new_parent': RefT('Node', 'Root', 'EmptyNode', nullable=True)}
    ret = NoneT
    modifies = ('Node._parent', 'Node._children#n', 'Node._children#e', '@dep')

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        np = a.new_parent
        E = t.c.typeof(np) == t.c.clsid('EmptyNode')
        return WF(S, R) + [('self-in-tree', t.inT(R, a.self)),
                           ('new-parent-in-some-tree', Or(np == t.null, E, node_in_some_tree(S, np)))]

    def raises(self, S, a):
        t = Tr(S)
        s, np = a.self, a.new_parent
        c = t.c
        legal_noop = t.par[s] == np
        E = c.typeof(np) == c.clsid('EmptyNode')
        return [('ValueError', And(Not(legal_noop), np == t.null)),
                ('ValueError', And(Not(legal_noop), np != t.null, E)),
                ('CycleError', And(Not(legal_noop), np != t.null, Not(E), Or(np == s, t.anc(s, np)))),
                ('ValueError', And(Not(legal_noop), np != t.null, Not(E), np != s, Not(t.anc(s, np)), t.root[s] != t.root[np]))]

    def ghost(self, S0, S1, a, r):
        t = Tr(S0)
        c = t.c
        d = c.fresh('dep', t.dep.sort())
        x = xs(c, 'x')
        return {'@dep': (d, [FA([x], d[x] == If(Or(x == a.self, t.anc(a.self, x)), t.dep[x] + t.dep[a.new_parent] + 1, t.dep[x]), d[x])])}

    def entry_hints(self, S, a):
        return childless_lemma(S, a.self) + same_tree_lemma(S, a.self, a.new_parent)

    def ensures(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        x = xs(t.c, 'x')
        R = t.root[a.self]
        return [('only-this-word-reattached', u.par == z3.Store(t.par, a.self, a.new_parent)),
                ('other-children-lists', FA([x], Imp(And(x != t.par[a.self], x != a.new_parent),
                                                   And(u.chn[x] == t.chn[x], u.che[x] == t.che[x])), u.chn[x], u.che[x])),
                ('rank-of-others', FA([x], Imp(And(x != a.self, Not(t.anc(a.self, x))), u.dep[x] == t.dep[x]), u.dep[x]))] + WF(S1, R)


def same_tree_lemma(S, s, y):
    """An ancestor of a word is in the same tree (by induction on the rank)."""
    t = Tr(S)
    R = t.root[y]
    x = xs(t.c, 'x')
    return [('induct', 'an ancestor is in the same tree', x, t.dep[x],
             Imp(And(y != t.null, wf(S, R), t.inTR(R, y), t.inT(R, x), t.par[x] != t.null, t.anc(s, x)), t.inTR(R, s)), [t.anc(s, x)])]


def childless_lemma(S, s):
    """A word with a descendant has a child (by induction on the rank)."""
    t = Tr(S)
    R = t.root[s]
    x = xs(t.c, 'x')
    return [('induct', 'an ancestor has a child', x, t.dep[x],
             Imp(And(t.inT(R, x), t.par[x] != t.null, t.anc(s, x)), t.chn[s] > 0), [t.anc(s, x)])]


class CreateChild(Contract):
    qual = N + 'create_child'
    params = {'self': NR}
    ret = NODE
    may_raise = ('TypeError', 'ValueError')
    modifies = ('Root._descendants#n', 'Root._descendants#e', 'Node._children#n', 'Node._children#e', 'Node._parent',
                'Node._ord', 'Node._root', '@dep', '@alloc')
    exc_modifies = ('@alloc',)

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inTR(R, a.self))]

    def ghost(self, S0, S1, a, r):
        t = Tr(S0)
        return {'@dep': z3.Store(t.dep, r, t.dep[a.self] + 1)}

    def hints(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        x = xs(t.c, 'x')
        R = t.root[a.self]
        facts = [('words', FA([x], u.inT(R, x) == Or(t.inT(R, x), x == r), u.ord[x], t.ord[x])),
                 ('new', And(Not(t.inTR(R, r)), r != a.self, u.par[r] == a.self, t.dep[a.self] >= 0, u.dep == z3.Store(t.dep, r, t.dep[a.self] + 1))),
                 ('old parents', FA([x], Imp(t.inT(R, x), And(x != r, t.par[x] != r, u.par[x] == t.par[x], t.dep[t.par[x]] >= 0, t.dep[t.par[x]] < t.dep[x])), t.par[x])),
                 ('same parents', FA([x], Imp(t.inT(R, x), u.par[x] == t.par[x]), u.par[x]))]
        return [('assert', 'rank', Or(a.self == R, And(t.par[a.self] != t.null, t.dep[a.self] >= 0)))] + \
            [('assert',) + f for f in facts] + [('cut', facts)] + [('assert', 'final ' + k, f) for k, f in WF(S1, R, parts=('no-cycle',))] + [('restore',)]

    def exc_ensures(self, S0, S1, a, cls):
        t, u = Tr(S0), Tr(S1)
        x = xs(t.c, 'x')
        return [('alloc-grows', FA([x], Imp(t.alloc[x], u.alloc[x]), t.alloc[x]))]

    def ensures(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        c = t.c
        x = xs(c, 'x')
        R = t.root[a.self]
        n = t.Dn[R]
        return [('new-word', And(r != c.null, Not(t.alloc[r]), u.alloc[r], c.typeof(r) == c.clsid('Node'), u.chn[r] == 0)),
                ('attached-here', And(u.par[r] == a.self, u.root[r] == R)),
                ('appended', And(u.Dn == z3.Store(t.Dn, R, n + 1), u.De == z3.Store(t.De, R, z3.Store(t.De[R], n, r)),
                                 u.ord[r] == n + 1)),
                ('others-untouched', FA([x], Imp(x != r, And(
                    u.par[x] == t.par[x], u.ord[x] == t.ord[x], u.root[x] == t.root[x], u.dep[x] == t.dep[x], Imp(t.alloc[x], u.alloc[x]),
                    Imp(x != a.self, And(u.chn[x] == t.chn[x], u.che[x] == t.che[x]))))))] + WF(S1, R)


class Flatten(Contract):
    qual = 'udapi.core.root.Root.flatten'
    params = {'self': RefT('Root'), 'deprel': S_}
    ret = NoneT
    modifies = ('Node._parent', 'Node._children#n', 'Node._children#e', '@dep')

    def requires(self, S, a):
        return WF(S, a.self) + [('self', Tr(S).root[a.self] == a.self)]

    def ghost(self, S0, S1, a, r):
        t = Tr(S0)
        c = t.c
        d = c.fresh('dep', t.dep.sort())
        x = xs(c, 'x')
        return {'@dep': (d, [FA([x], d[x] == If(t.inT(a.self, x), t.dep[a.self] + 1, t.dep[x]), d[x])])}

    def ensures(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        x = xs(t.c, 'x')
        return [('all-words-hang-on-root', FA([x], Imp(t.inT(a.self, x), And(u.par[x] == a.self, u.chn[x] == 0)), u.par[x])),
                ('other-trees-untouched', FA([x], Imp(Not(t.inTR(a.self, x)), And(
                    u.par[x] == t.par[x], u.chn[x] == t.chn[x], u.che[x] == t.che[x])), u.par[x], u.chn[x], u.che[x]))] + WF(S1, a.self)

    @staticmethod
    def _inv(L):
        t0, t, tp = Tr(L.S0), Tr(L.S), Tr(L.Sp)
        R, i = L.a.self, L.i
        c = t.c
        x, j = xs(c, 'x'), z3.Int('j')
        done = lambda y: And(t0.inT(R, y), t0.ord[y] <= i)
        return [('done-in-range', i <= t0.Dn[R]),
                ('root-list', And(t.chn[R] == t0.Dn[R], FA([j], Imp(And(0 <= j, j < t0.Dn[R]), t.che[R][j] == t0.De[R][j]), t.che[R][j], t0.De[R][j]))),
                ('parents', FA([x], t.par[x] == If(done(x), R, t0.par[x]), t.par[x])),
                ('children', FA([x], Imp(x != R, And(t.chn[x] == If(done(x), 0, t0.chn[x]), t.che[x] == t0.che[x])), t.chn[x], t.che[x]))]
    loops = {0: Loop(inv=_inv.__func__)}


def cd(t, a, x):
    """x is reachable from a by following children lists downwards (x climbs to a over attached edges)."""
    c = t.c
    R = c.Ref
    AP, AN, AE = z3.ArraySort(R, R), z3.ArraySort(R, z3.IntSort()), z3.ArraySort(R, z3.ArraySort(z3.IntSort(), R))
    f = c.uf('cd', AP, AN, AE, R, R, z3.BoolSort())
    p, n, e = z3.Const('p', AP), z3.Const('n', AN), z3.Const('e', AE)
    y, z = z3.Const('y', R), z3.Const('z', R)
    c.axiom('cd', FA([p, n, e, y, z], f(p, n, e, y, z) == And(
        p[z] != c.null, c.mem(e[p[z]], n[p[z]], z), Or(p[z] == y, f(p, n, e, y, p[z]))), f(p, n, e, y, z)))
    return f(t.par, t.chn, t.che, a, x)


def cd_is_anc(t, R, a):
    """In a well-formed tree the children lists and the parent relation define the same descendants."""
    x = xs(t.c, 'x')
    return [('induct', 'children lists follow the parent relation', x, t.dep[x],
             Imp(t.inT(R, x), cd(t, a, x) == t.anc(a, x)), [cd(t, a, x), t.anc(a, x)])]


def distinct_list(n, e, j='j', k='k'):
    j, k = z3.Int(j), z3.Int(k)
    return FA([j, k], Imp(And(0 <= j, j < k, k < n), e[j] != e[k]), [e[j], e[k]])


def sorted_list(ord_, n, e):
    j, k = z3.Ints('j k')
    return FA([j, k], Imp(And(0 <= j, j < k, k < n), ord_[e[j]] < ord_[e[k]]), [e[j], e[k]])


def tree_of(t, s):
    return t.root[s]


def dfs_inv(L):
    t = Tr(L.S)
    c = t.c
    a = L.a.self
    R = t.root[a]
    st, de = L.v('stack'), L.v('descendants')
    x, y, j = xs(c, 'x'), xs(c, 'y'), z3.Int('j')
    inS = lambda z: c.mem(st.e, st.n, z)
    inD = lambda z: c.mem(de.e, de.n, z)
    return [('stack-part-of-result', FA([x], Imp(inS(x), inD(x)), inS(x))),
            ('result-are-descendants', FA([x], Imp(inD(x), And(t.inT(R, x), cd(t, a, x))), inD(x))),
            ('stack-distinct', distinct_list(st.n, st.e)),
            ('result-distinct', distinct_list(de.n, de.e)),
            ('own-children-found', FA([j], Imp(And(0 <= j, j < t.chn[a]), inD(t.che[a][j])), t.che[a][j])),
            ('children-of-processed-found', FA([x, j], Imp(And(inD(x), Not(inS(x)), 0 <= j, j < t.chn[x]), inD(t.che[x][j])), [inD(x), t.che[x][j]])),
            ('parents-processed', FA([x], Imp(inD(x), Or(t.par[x] == a, And(inD(t.par[x]), Not(inS(t.par[x]))))), inD(x)))]


def dfs_step(L0, L1):
    """The children of the node taken from the stack were not found before."""
    t = Tr(L0.S)
    c = t.c
    st, de = L0.v('stack'), L0.v('descendants')
    w = st.e[st.n - 1]
    j = z3.Int('j')
    return [('assert', 'taken node is on the stack', And(c.mem(st.e, st.n, w), c.mem(de.e, de.n, w))),
            ('assert', 'children are new', FA([j], Imp(And(0 <= j, j < t.chn[w]), Not(c.mem(de.e, de.n, t.che[w][j]))), t.che[w][j])),
            ('assert', 'stack is part of the result', FA([j], Imp(And(0 <= j, j < st.n), And(c.mem(st.e, st.n, st.e[j]), c.mem(de.e, de.n, st.e[j]))), st.e[j]))]


def dfs_exit(L):
    t = Tr(L.S)
    c = t.c
    a = L.a.self
    R = t.root[a]
    de = L.v('descendants')
    x = xs(c, 'x')
    return [('induct', 'every descendant is found', x, t.dep[x],
             Imp(And(t.inT(R, x), cd(t, a, x)), c.mem(de.e, de.n, x)), [cd(t, a, x)])]


def below(t, R, a):
    """A descendant is deeper."""
    x = xs(t.c, 'x')
    return [('induct', 'a descendant has a higher rank', x, t.dep[x],
             Imp(And(t.inT(R, x), cd(t, a, x)), t.dep[x] > t.dep[a]), [cd(t, a, x)])]


def elem_mem(c, l):
    j = z3.Int('j')
    return ('assert', 'elements are members', FA([j], Imp(And(0 <= j, j < l.n), c.mem(l.e, l.n, l.e[j])), l.e[j]))


class UnorderedDescendants(Contract):
    """Needs only that children lists point to words attached there (holds also while a word is being removed)."""
    qual = N + 'unordered_descendants'
    params = {'self': NR}
    ret = ListT(NODE)

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R, parts=WEAK) + [('self-in-tree', t.inTR(R, a.self))]

    def entry_hints(self, S, a):
        t = Tr(S)
        return below(t, t.root[a.self], a.self)

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        c = t.c
        R = t.root[a.self]
        x = xs(c, 'x')
        return [('exactly-the-descendants', FA([x], c.mem(r.e, r.n, x) == And(t.inT(R, x), cd(t, a.self, x)), c.mem(r.e, r.n, x), cd(t, a.self, x))),
                ('no-repetition', distinct_list(r.n, r.e))]
    loops = {0: Loop(inv=dfs_inv, hints=dfs_step, exit_hints=dfs_exit)}


class Descendants(Contract):
    qual = N + 'descendants'
    params = {'self': NODE}
    ret = ListT(NODE, 'ListOfNodes')
    ret_attrs = staticmethod(lambda I, s, d: {'origin': d['self']})

    requires = UnorderedDescendants.requires
    entry_hints = UnorderedDescendants.entry_hints

    def hints(self, S0, S1, a, r):
        return [elem_mem(Tr(S0).c, r)]

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        return UnorderedDescendants.ensures(self, S0, S1, a, r)[:1] + [('sorted-by-word-order', sorted_list(t.ord, r.n, r.e)), origin_ok(a)]
    loops = {0: Loop(inv=dfs_inv, hints=dfs_step, exit_hints=dfs_exit)}


def origin_ok(a):
    """(when verifying) the returned list remembers the node it was asked for."""
    if not hasattr(a, 'rv'):
        return ('origin', z3.BoolVal(True))
    o = a.st.cells[a.rv.cell].attrs.get('origin')
    return ('origin', o.e == a.self if o is not None else z3.BoolVal(False))


class RootDescendants(Contract):
    qual = 'udapi.core.root.Root.descendants'
    params = {'self': RefT('Root')}
    ret = ListT(NODE, 'ListOfNodes')
    ret_attrs = staticmethod(lambda I, s, d: {'origin': d['self']})

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        j = z3.Int('j')
        return [('all-words-in-order', And(r.n == t.Dn[a.self], FA([j], Imp(And(0 <= j, j < r.n), r.e[j] == t.De[a.self][j]), r.e[j], t.De[a.self][j]))), origin_ok(a)]


class Children(Contract):
    qual = N + 'children'
    params = {'self': NR}
    ret = ListT(NODE, 'ListOfNodes')
    ret_attrs = staticmethod(lambda I, s, d: {'origin': d['self']})

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        j = z3.Int('j')
        return [('exactly-the-children', And(r.n == t.chn[a.self], FA([j], Imp(And(0 <= j, j < r.n), r.e[j] == t.che[a.self][j]), r.e[j], t.che[a.self][j]))), origin_ok(a)]


class Siblings(Contract):
    qual = N + 'siblings'
    params = {'self': NODE}
    ret = ListT(NODE, 'ListOfNodes')
    ret_attrs = staticmethod(lambda I, s, d: {'origin': d['self']})

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inT(R, a.self))]

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        c = t.c
        x, j = xs(c, 'x'), z3.Int('j')
        p = t.par[a.self]
        R = t.root[a.self]
        return [('only-siblings', FA([j], Imp(And(0 <= j, j < r.n), And(t.inT(R, r.e[j]), t.par[r.e[j]] == p, r.e[j] != a.self)), r.e[j])),
                ('all-siblings', FA([x], Imp(And(t.inT(R, x), t.par[x] == p, x != a.self), c.mem(r.e, r.n, x)), c.mem(r.e, r.n, x))),
                ('sorted-by-word-order', sorted_list(t.ord, r.n, r.e)), origin_ok(a)]


class PrevNode(Contract):
    qual = N + 'prev_node'
    params = {'self': NR}
    ret = RefT('Node', 'Root', nullable=True)

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R, parts=('numbering', 'root')) + [('self-in-tree', t.inTR(R, a.self))]

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        R = t.root[a.self]
        return [('previous-word', And(If(a.self == R, r == t.null, And(t.inTR(R, r), t.ord[r] == t.ord[a.self] - 1))))]


class NextNode(PrevNode):
    qual = N + 'next_node'

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        R = t.root[a.self]
        return [('next-word', If(t.ord[a.self] == t.Dn[R], r == t.null, And(t.inT(R, r), t.ord[r] == t.ord[a.self] + 1)))]


class Precedes(Contract):
    qual = N + 'precedes'
    params = {'self': NR, 'node': NR}
    ret = Bool

    def requires(self, S, a):
        t = Tr(S)
        b = S('Root._bundle')
        return [('same-tree-or-in-bundles', Or(t.root[a.self] == t.root[a.node], And(b[t.root[a.self]] != t.null, b[t.root[a.node]] != t.null)))]

    def raises(self, S, a):
        t = Tr(S)
        R, Q = t.root[a.self], t.root[a.node]
        z, b, d = S('Root._zone'), S('Root._bundle'), S('Bundle._document')
        return [('ValueError', And(R != Q, Or(z[R] != z[Q], d[b[R]] != d[b[Q]])))]

    def value(self, S, a):
        t = Tr(S)
        R, Q = t.root[a.self], t.root[a.node]
        b, num = S('Root._bundle'), S('Bundle.number')
        return VBool(If(R == Q, t.ord[a.self] < t.ord[a.node], num[b[R]] < num[b[Q]]))

    def ensures(self, S0, S1, a, r):
        return [('word-order', r == self.value(S0, a).e)]


class IsLeaf(Contract):
    qual = N + 'is_leaf'
    params = {'self': NR}
    ret = Bool

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inTR(R, a.self))]

    def value(self, S, a):
        return VBool(Tr(S).chn[a.self] == 0)

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        R = t.root[a.self]
        x = xs(t.c, 'x')
        w = t.che[a.self][0]
        return [('leaf-has-no-word-attached', Imp(r, FA([x], Imp(t.inT(R, x), t.par[x] != a.self), t.par[x]))),
                ('non-leaf-has-a-word-attached', Imp(Not(r), And(t.inT(R, w), t.par[w] == a.self)))]


class ListOfNodesCall(Contract):
    qual = 'udapi.core.node.ListOfNodes.__call__'
    params = {'self': ListT(NR, 'ListOfNodes'), 'add_self': Bool, 'following_only': Bool, 'preceding_only': Bool}
    ret = ListT(NR)
    inline = True

    def requires(self, S, a):
        t = Tr(S)
        o = self.I.origin.e
        l = a.self
        j = z3.Int('j')
        R = t.root[o]
        return WF(S, R, parts=('numbering', 'root')) + [
            ('origin', t.inTR(R, o)), ('nodes', FA([j], Imp(And(0 <= j, j < l.n), t.inTR(R, l.e[j])), l.e[j])),
            ('sorted', sorted_list(t.ord, l.n, l.e)), ('without-origin', Not(t.c.mem(l.e, l.n, o)))]

    def ensures(self, S0, S1, a, r):
        t = Tr(S0)
        c = t.c
        o = self.I.origin.e
        l = a.self
        x, j = xs(c, 'x'), z3.Int('j')
        want = lambda y: And(Or(c.mem(l.e, l.n, y), And(a.add_self, y == o)),
                             Imp(a.preceding_only, t.ord[y] <= t.ord[o]),
                             Imp(And(a.following_only, Not(a.preceding_only)), t.ord[y] >= t.ord[o]))
        return [('only-requested', FA([j], Imp(And(0 <= j, j < r.n), want(r.e[j])), r.e[j])),
                ('all-requested', FA([x], Imp(want(x), c.mem(r.e, r.n, x)), c.mem(r.e, r.n, x))),
                ('sorted-without-repetition', sorted_list(t.ord, r.n, r.e))]


ALL = [IsDescendantOf, ParentSetter, CreateChild, Flatten, UnorderedDescendants, Descendants, RootDescendants, Children, Siblings,
       PrevNode, NextNode, Precedes, IsLeaf, ListOfNodesCall]
