"""Contracts of derived node attributes: relation parts (C05)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.verify import Contract
from .schema import *
from .tree import And, Or, Imp, Not, If

N = 'udapi.core.node.Node.'
NODE = RefT('Node', 'Root', 'EmptyNode')


class Dep:
    """Universal part (up to the first colon) and specific part (the rest) of a relation."""
    def __init__(self, S):
        c = S.I.ctx
        self.V, self.d, self.colon = c.Val, S('Node.deprel'), c.lit(':')

    def u(self, s):
        return If(z3.Contains(s, self.colon), z3.SubString(s, 0, z3.IndexOf(s, self.colon, 0)), s)

    def sp(self, s):
        i = z3.IndexOf(s, self.colon, 0)
        return If(z3.Contains(s, self.colon), z3.SubString(s, i + 1, z3.Length(s) - i - 1), z3.StringVal(''))

    def full(self, u, sp):
        return If(sp == z3.StringVal(''), u, z3.Concat(u, z3.Concat(self.colon, sp)))


class GetU(Contract):
    qual = N + 'udeprel'
    params = {'self': NODE}
    ret = S_
    strings = 'z3'

    def ensures(self, S0, S1, a, r):
        t = Dep(S0)
        d = t.d[a.self]
        return [('no-relation', Imp(t.V.is_vnone(d), t.V.is_vnone(r))),
                ('universal-part', Imp(t.V.is_vstr(d), r == t.V.vstr(t.u(t.V.s(d)))))]


class GetS(Contract):
    qual = N + 'sdeprel'
    params = {'self': NODE}
    ret = S_
    strings = 'z3'

    def ensures(self, S0, S1, a, r):
        t = Dep(S0)
        d = t.d[a.self]
        return [('no-relation', Imp(t.V.is_vnone(d), t.V.is_vnone(r))),
                ('specific-part', Imp(t.V.is_vstr(d), r == t.V.vstr(t.sp(t.V.s(d))))),
                ('recombines', Imp(And(t.V.is_vstr(d), Not(z3.SuffixOf(t.colon, t.V.s(d)))), t.full(t.u(t.V.s(d)), t.V.s(r)) == t.V.s(d)))]


class SetU(Contract):
    qual = N + 'udeprel.setter'
    params = {'self': NODE, 'value': Str}
    ret = NoneT
    strings = 'z3'
    modifies = ('Node.deprel',)

    def requires(self, S, a):
        return [('universal-part-has-no-colon', Not(z3.Contains(a.value, Dep(S).colon)))]

    def ensures(self, S0, S1, a, r):
        t, u = Dep(S0), Dep(S1)
        V, d, e = t.V, t.d[a.self], u.d[a.self]
        return [('only-this-node', u.d == z3.Store(t.d, a.self, e)), ('is-a-relation', V.is_vstr(e)),
                ('reads-back', t.u(V.s(e)) == a.value),
                ('specific-part-kept', t.sp(V.s(e)) == If(V.is_vnone(d), z3.StringVal(''), t.sp(V.s(d))))]


class SetS(Contract):
    qual = N + 'sdeprel.setter'
    params = {'self': NODE, 'value': S_}
    ret = NoneT
    strings = 'z3'
    modifies = ('Node.deprel',)

    def requires(self, S, a):
        t = Dep(S)
        return [('has-relation', t.V.is_vstr(t.d[a.self]))]

    def ensures(self, S0, S1, a, r):
        t, u = Dep(S0), Dep(S1)
        V, d, e = t.V, t.d[a.self], u.d[a.self]
        return [('only-this-node', u.d == z3.Store(t.d, a.self, e)), ('is-a-relation', V.is_vstr(e)),
                ('reads-back', t.sp(V.s(e)) == If(V.is_vnone(a.value), z3.StringVal(''), V.s(a.value))),
                ('universal-part-kept', t.u(V.s(e)) == t.u(V.s(d)))]


ALL = [GetU, GetS, SetU, SetS]
