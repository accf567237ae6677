"""Contracts of the lazily synchronised mappings DualDict / Feats and OtherDualDict (C04)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *
from .tree import And, Or, Imp, Not, If

VAL = Un('none', 'bool', 'int', 'str')
MAPPING = Un('none', 'str', 'ref', classes=('PyDict', 'OtherObj'))


def dict_handler(I, st, v, node):
    if isinstance(v, VAny):
        return I.bind(I.unbox(st, v), lambda s, x: I.bi_dict(s, [x], {}, node))
    if isinstance(v, VRef) and 'PyDict' in v.classes and not I.feasible(st, I.ctx.typeof(v.e) != I.ctx.clsid('PyDict')):
        s = st.copy()
        g = lambda p: I.hget(s, 'PyDict.d#' + p)[v.e]
        return [(s, VDict(I.newcell(s, Cell('dict', VAL, keyT=Str, n=g('n'), has=g('has'), val=g('val'), arr=g('k')))))]
    return None


def extend_schema(sc):
    sc.fields['DualDict'] = {'_string': S_, '_dict': DictT(Str, VAL)}
    sc.fields['OtherDualDict'] = {'_string': S_, '_dict': DictT(Str, VAL)}
    sc.parent.pop('OtherDualDict', None)
    sc.fields['PyDict'] = {'d': DictT(Str, VAL)}       # an arbitrary dict passed by the user
    sc.fields['OtherObj'] = {}
    sc.dict_handler = dict_handler
    sc.isinstance_ext = lambda cl, kn: cl == 'PyDict' and kn.split('.')[-1] in ('Mapping', 'dict', 'MutableMapping')
    for g in ('@ser_names', '@ser_parts'):
        sc.ghosts[g] = lambda c: z3.ArraySort(c.Ref, z3.ArraySort(z3.IntSort(), c.StrS))


class Ma:
    def __init__(self, S, cls):
        self.S, self.cls = S, cls
        self.c = c = S.I.ctx
        self.V = c.Val
        k = cls.fk + '._dict'
        self.n, self.has, self.val, self.k = S.n(k), S.has(k), S.val(k), S(k + '#k')
        self.str = S(cls.fk + '._string')
        self.names, self.parts = S('@ser_names'), S('@ser_parts')
        self.psep, self.vsep, self.empty = (c.lit(x) for x in cls.syntax)
        self.none = z3.K(c.StrS, z3.BoolVal(False))

    def parse(self):
        """Definition: the attributes described by a string (later parts override earlier ones)."""
        c, V = self.c, self.V
        I, S = z3.IntSort(), c.StrS
        A = z3.ArraySort(I, S)
        PH = c.uf('parse_has_' + self.cls.tag, S, I, z3.ArraySort(S, z3.BoolSort()))
        PV = c.uf('parse_val_' + self.cls.tag, S, I, z3.ArraySort(S, c.Val))
        N, E = c.uf('split_n', S, S, I), c.uf('split_e', S, S, A)
        N1, E1 = c.uf('split_1_n', S, S, I), c.uf('split_1_e', S, S, A)
        s, i = z3.Const('s', S), z3.Int('i')
        part = E(s, self.psep)[i]
        name = E1(part, self.vsep)[0]
        value = If(N1(part, self.vsep) == 2, V.vstr(E1(part, self.vsep)[1]), V.vbool(True))
        c.axiom('parse_' + self.cls.tag, FA([s], PH(s, 0) == self.none, PH(s, 0)),
                FA([s, i], Imp(And(0 <= i, i < N(s, self.psep)), And(
                    PH(s, i + 1) == z3.Store(PH(s, i), name, True), PV(s, i + 1) == z3.Store(PV(s, i), name, value))), [PH(s, i), part], [PV(s, i), part]))
        return lambda x: PH(x, N(x, self.psep)), lambda x: PV(x, N(x, self.psep)), PH, PV

    def s(self, m):
        return self.V.s(self.str[m])

    def stored(self, m):
        return And(self.V.is_vstr(self.str[m]), self.s(m) != self.empty)

    def ahas(self, m):
        ph, pv, _, _ = self.parse()
        return If(self.n[m] > 0, self.has[m], If(self.stored(m), ph(self.s(m)), self.none))

    def aval(self, m):
        ph, pv, _, _ = self.parse()
        return If(self.n[m] > 0, self.val[m], pv(self.s(m)))

    def text(self, name, v):
        c, V, I = self.c, self.V, self.S.I
        cat = lambda a, b: I.strcat(None, VStr(a), VStr(b)).e
        f = c.uf('str_of_int', z3.IntSort(), c.StrS)
        t = If(V.is_vstr(v), V.s(v), If(V.is_vint(v), f(V.i(v)), If(V.is_vbool(v), If(V.b(v), c.lit('True'), c.lit('False')), c.lit('None'))))
        return If(v == V.vbool(True), name, cat(name, cat(self.vsep, t)))

    def serialized(self, m, s):
        """s lists every attribute of the dictionary exactly once, ordered case-insensitively by name."""
        c = self.c
        i, j, k = z3.Int('i'), z3.Int('j'), z3.Const('k', c.StrS)
        n, nm, pt = self.n[m], self.names[m], self.parts[m]
        lower = c.uf('str_lower_0', c.StrS, c.StrS)
        return And(s == self.S.I.joinf()(self.psep, pt, n),
                   FA([i], Imp(And(0 <= i, i < n), And(self.has[m][nm[i]], pt[i] == self.text(nm[i], self.val[m][nm[i]]))), nm[i], pt[i]),
                   FA([i, j], Imp(And(0 <= i, i < j, j < n), And(nm[i] != nm[j], Not(self.S.I.strlt()(lower(nm[j]), lower(nm[i]))))), [nm[i], nm[j]]),
                   FA([k], Imp(self.has[m][k], c.mem(nm, n, k)), c.mem(nm, n, k), self.has[m][k]))


def DREPS(t, n, has, karr):
    """Representation of a Python dictionary: its keys are listed once each."""
    c = t.c
    i, j, k = z3.Int('i'), z3.Int('j'), z3.Const('k', c.StrS)
    return [('size', n >= 0), ('keys-listed', FA([k], Imp(has[k], c.mem(karr, n, k)), has[k], c.mem(karr, n, k))),
            ('listed-are-keys', FA([i], Imp(And(0 <= i, i < n), has[karr[i]]), karr[i])),
            ('distinct-keys', FA([i, j], Imp(And(0 <= i, i < j, j < n), karr[i] != karr[j]), [karr[i], karr[j]]))]


def DREP(t, n, has, karr):
    return And([f for _, f in DREPS(t, n, has, karr)])


def MINV(S, m, cls):
    return MINV_of(Ma(S, cls), m)


def MINV_of(t, m):
    c, V = t.c, t.V
    ph, pv, _, _ = t.parse()
    k = z3.Const('k', c.StrS)
    return [('representation-' + x, f) for x, f in DREPS(t, t.n[m], t.has[m], t.k[m])] + [
            ('views-agree', Imp(And(t.n[m] > 0, V.is_vstr(t.str[m])), Or(
                And(t.s(m) != t.empty, t.has[m] == ph(t.s(m)), FA([k], Imp(t.has[m][k], t.val[m][k] == pv(t.s(m))[k]), t.val[m][k])),
                t.serialized(m, t.s(m)))))]


def same_map(h0, v0, h1, v1, c):
    k = z3.Const('k', c.StrS)
    return And(h0 == h1, FA([k], Imp(h0[k], v0[k] == v1[k]), *(vp(v0, k) + vp(v1, k))))


def vp(v, k):
    """Patterns for reading an (If-)array at k."""
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return vp(v.arg(1), k) + vp(v.arg(2), k)
    return [v[k]]




def slim(S):
    """Callers that only need the abstract value of a mapping see `consistent` and `mapval` without their definitions."""
    return getattr(S.I.target, 'abstract_maps', False)


def family(cls_):
    """The contracts of one mapping class."""
    Q = cls_.prefix
    SELF = RefT(*cls_.classes)
    cls = cls_
    MOD = tuple(cls.fk + '._dict#' + p for p in ('n', 'has', 'val', 'k'))
    MSTR = (cls.fk + '._string',)

    class Base(Contract):
        def requires(self, S, a):
            return [('consistent', consistent(S, a.self, cls))]

        def tu(self, S0, S1, a):
            t, u = Ma(S0, cls), Ma(S1, cls)
            return t, u, a.self

        def same(self, S0, S1, a):
            t, u, m = self.tu(S0, S1, a)
            return [('same-attributes', same_map(t.ahas(m), t.aval(m), u.ahas(m), u.aval(m), t.c))] + self.inv(S1, a)

        def inv(self, S1, a):
            out = [('consistent', consistent(S1, a.self, cls))]
            return out if slim(S1) else [('invariant-' + k, f) for k, f in MINV(S1, a.self, cls)] + out

        def abstract(self, S0, S1, a):
            """The same attributes, stated with the abstract value."""
            k, m = z3.Const('k', S0.I.ctx.StrS), a.self
            return [('same-values', FA([k], mapval(S1, m, k, cls) == mapval(S0, m, k, cls), mapval(S1, m, k, cls)))]

        def others(self, S0, S1, a):
            x = z3.Const('x', S0.I.ctx.Ref)
            t, u, m = self.tu(S0, S1, a)
            return [('other-mappings', FA([x], Imp(x != m, And(t.n[x] == u.n[x], t.has[x] == u.has[x], t.val[x] == u.val[x], t.k[x] == u.k[x],
                                                            t.str[x] == u.str[x])), u.n[x], u.has[x], u.val[x], u.k[x], u.str[x]))]

    class Deserialize(Base):
        qual = Q + '_deserialize_if_empty'
        params = {'self': SELF}
        ret = NoneT
        modifies = MOD

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            return [('loaded', same_map(t.ahas(m), t.aval(m), u.has[m], u.val[m], t.c))] + self.same(S0, S1, a) + self.others(S0, S1, a)

        @staticmethod
        def _inv(L):
            t, u, p = Ma(L.S0, cls), Ma(L.S, cls), Ma(L.Sp, cls)
            m = L.a.self
            k, x = z3.Const('k', t.c.StrS), z3.Const('x', t.c.Ref)
            ph, pv, PH, PV = t.parse()
            s = t.s(m)
            return [('empty-before', And(t.n[m] == 0, t.stored(m))),
                    ('read-so-far', And(u.has[m] == PH(s, L.i), FA([k], Imp(u.has[m][k], u.val[m][k] == PV(s, L.i)[k]), u.val[m][k]))),
                    *DREPS(u, u.n[m], u.has[m], u.k[m]),
                    ('others', FA([x], Imp(x != m, And(t.n[x] == u.n[x], t.has[x] == u.has[x], t.val[x] == u.val[x], t.k[x] == u.k[x]))))]
        loops = {0: Loop(inv=_inv.__func__)}

    class Str_(Base):
        qual = Q + '__str__'
        params = {'self': SELF}
        ret = Str
        modifies = MSTR + ('@ser_names', '@ser_parts')

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            x = z3.Const('x', t.c.Ref)
            return [('stored-string-unchanged', Imp(t.V.is_vstr(t.str[m]), r == t.s(m))),
                    ('kept', u.str == z3.Store(t.str, m, t.V.vstr(r))),
                    ('empty', Imp(And(t.V.is_vnone(t.str[m]), t.n[m] == 0), r == t.empty)),
                    ('serialized', Imp(And(t.V.is_vnone(t.str[m]), t.n[m] > 0), u.serialized(m, r))),
                    ('other-ghosts', FA([x], Imp(x != m, And(u.names[x] == t.names[x], u.parts[x] == t.parts[x]))))] + self.same(S0, S1, a)

        def ghost(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            so = a.st.extra.get('sorts', ())
            g = a.st.extra.get('ser')
            if not so:
                return {}
            arr, arr2, n, pi, pii = so[-1]
            c = t.c
            nm = c.fresh('names', z3.ArraySort(z3.IntSort(), c.StrS))
            i = z3.Int('i')
            key = arr2.range().accessor(0, 0)
            l = a.st.env.get(self.I.localname('serialized'))
            parts = self.I.lnarr(a.st, l)[1] if isinstance(l, VList) and self.I.lnarr(a.st, l)[1] is not None else t.parts[m]
            return {'@ser_names': (z3.Store(t.names, m, nm), [FA([i], nm[i] == key(arr2[i]), nm[i])]),
                    '@ser_parts': z3.Store(t.parts, m, parts)}

        def hints(self, S0, S1, a, r):
            so = a.st.extra.get('sorts', ())
            if not so:
                return []
            arr, arr2, n, pi, pii = so[-1]
            t, u, m = self.tu(S0, S1, a)
            i, j, k = z3.Int('i'), z3.Int('j'), z3.Const('k', t.c.StrS)
            nm = u.names[m]
            lower = t.c.uf('str_lower_0', t.c.StrS, t.c.StrS)
            return [('assert', 'sorted names', FA([i], Imp(And(0 <= i, i < n), nm[i] == t.k[m][pi(i)]), nm[i])),
                    ('assert', 'size', n == t.n[m]),
                    ('assert', 'all names', FA([i], Imp(And(0 <= i, i < n), And(0 <= pii(i), pii(i) < n, nm[pii(i)] == t.k[m][i])), t.k[m][i])),
                    ('assert', 'distinct names', FA([i, j], Imp(And(0 <= i, i < j, j < n), nm[i] != nm[j]), [nm[i], nm[j]])),
                    ('assert', 'ordered names', FA([i, j], Imp(And(0 <= i, i < j, j < n), Not(self.I.strlt()(lower(nm[j]), lower(nm[i])))), [nm[i], nm[j]])),
                    ('assert', 'names are keys', FA([i], Imp(And(0 <= i, i < n), t.has[m][nm[i]]), nm[i])),
                    ('assert', 'keys are names', FA([k], Imp(t.has[m][k], t.c.mem(nm, n, k)), t.c.mem(nm, n, k), t.has[m][k]))]

        @staticmethod
        def _inv(L):
            t = Ma(L.S, cls)
            m = L.a.self
            i = z3.Int('i')
            l = L.v('serialized')
            so = L.st.extra.get('sorts', ())
            if not so:
                return []
            arr, arr2, n, pi, pii = so[-1]
            key = arr2.range().accessor(0, 0)
            if l.e is None:
                return [('parts', And(l.n == 0, L.i == 0))]
            return [('parts', And(l.n == L.i, FA([i], Imp(And(0 <= i, i < L.i), l.e[i] == t.text(key(arr2[i]), t.val[m][key(arr2[i])])), l.e[i])))]
        loops = {0: Loop(inv=_inv.__func__, types={'serialized': ListT(Str)})}

    class GetItem(Base):
        qual = Q + '__getitem__'
        params = {'self': SELF, 'key': Str}
        ret = VAL
        modifies = MOD

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            out = [('abstract-value', r == mapval(S0, m, a.key, cls))] + self.abstract(S0, S1, a) + self.others(S0, S1, a)
            if slim(S0):
                return out + self.inv(S1, a)
            return [('value', r == If(t.ahas(m)[a.key], t.aval(m)[a.key], t.V.vstr(t.c.lit(''))))] + self.same(S0, S1, a) + out

    class Contains(Base):
        qual = Q + '__contains__'
        params = {'self': SELF, 'key': Str}
        ret = Bool
        modifies = MOD

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            return [('answer', r == t.ahas(m)[a.key])] + self.same(S0, S1, a) + self.others(S0, S1, a)

    class Len(Base):
        qual = Q + '__len__'
        params = {'self': SELF}
        ret = Int
        modifies = MOD

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            return [('number-of-attributes', And(r == u.n[m], u.has[m] == t.ahas(m), DREP(u, u.n[m], u.has[m], u.k[m])))] + \
                self.same(S0, S1, a) + self.others(S0, S1, a)

    class Iter(Base):
        qual = Q + '__iter__'
        params = {'self': SELF}
        ret = ListT(Str)
        modifies = MOD

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            return [('iterates-keys', And(r.n == u.n[m], u.has[m] == t.ahas(m)))] + [('yields-' + x, f) for x, f in DREPS(u, r.n, u.has[m], r.e)] + \
                self.same(S0, S1, a) + self.others(S0, S1, a)

    class SetItem(Base):
        qual = Q + '__setitem__'
        params = {'self': SELF, 'key': Str, 'value': cls.settable}
        ret = NoneT
        modifies = MOD + MSTR

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            V, k = t.V, z3.Const('k', t.c.StrS)
            gone = Or(V.is_vnone(a.value), a.value == V.vstr(t.c.lit('')))
            out = [('abstract-values', FA([k], mapval(S1, m, k, cls) == If(k == a.key, If(gone, V.vstr(t.c.lit('')), cls.escaped(t, a.value)), mapval(S0, m, k, cls)),
                                          mapval(S1, m, k, cls)))] + self.others(S0, S1, a)
            if slim(S0):
                return out + self.inv(S1, a)
            return out[:1] + [('attributes', u.ahas(m) == z3.Store(t.ahas(m), a.key, Not(gone))),
                    ('values', FA([k], Imp(u.ahas(m)[k], u.aval(m)[k] == If(k == a.key, cls.escaped(t, a.value), t.aval(m)[k])), *vp(u.aval(m), k))),
                    ('string-outdated', V.is_vnone(u.str[m]))] + self.inv(S1, a) + self.others(S0, S1, a)

    class DelItem(Base):
        qual = Q + '__delitem__'
        params = {'self': SELF, 'key': Str}
        ret = NoneT
        modifies = MOD + MSTR

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            V, k = t.V, z3.Const('k', t.c.StrS)
            return [('attributes', u.ahas(m) == z3.Store(t.ahas(m), a.key, False)),
                    ('values', FA([k], Imp(u.ahas(m)[k], u.aval(m)[k] == t.aval(m)[k]), *vp(u.aval(m), k))),
                    ('string', u.str[m] == If(t.ahas(m)[a.key], V.vnone, t.str[m]))] + self.inv(S1, a) + self.others(S0, S1, a)

        def hints(self, S0, S1, a, r):
            return [('assert', x, f) for x, f in MINV(S1, a.self, cls)]

    class Clear(Base):
        qual = Q + 'clear'
        params = {'self': SELF}
        ret = NoneT
        modifies = MOD + MSTR

        def requires(self, S, a):
            return []

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            return [('no-attribute', And(u.ahas(m) == t.none, u.n[m] == 0)), ('canonical-string', u.str[m] == t.V.vstr(t.empty))] + \
                self.inv(S1, a) + self.others(S0, S1, a)

    class SetMapping(Base):
        qual = Q + 'set_mapping'
        params = {'self': SELF, 'value': MAPPING}
        ret = NoneT
        modifies = MOD + MSTR

        def requires(self, S, a):
            t = Ma(S, cls)
            d = t.V.o(a.value)
            k = 'PyDict.d'
            return [('dict-argument', Imp(t.V.is_vref(a.value), And(d != t.c.null, DREP(t, S.n(k)[d], S.has(k)[d], S(k + '#k')[d]))))]

        def raises(self, S, a):
            t = Ma(S, cls)
            return [('ValueError', And(t.V.is_vref(a.value), t.c.typeof(t.V.o(a.value)) != t.c.clsid('PyDict')))]

        def ensures(self, S0, S1, a, r):
            t, u, m = self.tu(S0, S1, a)
            V, v = t.V, a.value
            d, k = V.o(v), 'PyDict.d'
            emp = V.is_vnone(v) if t.cls.tag == 'Other' else Or(V.is_vnone(v), v == V.vstr(t.c.lit('')))
            if slim(S0):
                return self.inv(S1, a) + self.others(S0, S1, a)
            return [('empty', Imp(emp, And(u.ahas(m) == t.none, u.str[m] == V.vstr(t.empty)))),
                    ('string-stored', Imp(And(V.is_vstr(v), Not(emp)), And(u.str[m] == v, u.n[m] == 0))),
                    ('dict-copied', Imp(V.is_vref(v), And(V.is_vnone(u.str[m]), u.n[m] == S0.n(k)[d],
                                                        same_map(S0.has(k)[d], S0.val(k)[d], u.has[m], u.val[m], t.c))))] + self.inv(S1, a) + self.others(S0, S1, a)
    out = [Deserialize, Str_, GetItem, Contains, Len, Iter, SetItem, DelItem, Clear, SetMapping]
    for C in out:
        C.__name__ = cls.tag + C.__name__
    return out


class Dual:
    prefix, tag, syntax, classes = 'udapi.core.dualdict.DualDict.', 'Dual', ('|', '=', '_'), ('DualDict', 'Feats')
    fk, settable = 'DualDict', VAL

    @staticmethod
    def escaped(t, v):
        return v


class Other:
    prefix, tag, syntax, classes = 'udapi.core.coref.OtherDualDict.', 'Other', (',', ':', ''), ('OtherDualDict',)
    fk, settable = 'OtherDualDict', Un('none', 'str')

    @staticmethod
    def escaped(t, v):
        """Commas would end the attribute, so they are stored escaped."""
        c = t.c
        f = c.uf('str_replace_2', c.StrS, c.StrS, c.StrS, c.StrS)
        return t.V.vstr(f(t.V.s(v), c.lit(','), c.lit('%2C')))


ALL = family(Dual) + family(Other)


class InitDual(Contract):
    qual = 'udapi.core.dualdict.DualDict.__init__'
    inline = True


class InitOther(Contract):
    qual = 'udapi.core.coref.OtherDualDict.__init__'
    inline = True


FIELDS = ('Node._feats', 'Node._misc', 'MWT._misc')
MAPMOD = tuple('DualDict._dict#' + p for p in ('n', 'has', 'val', 'k')) + ('DualDict._string', '@alloc') + FIELDS


def owners_of(f):
    return ('MWT',) if f[0] == 'M' else ('Node', 'Root', 'EmptyNode')


def isowner(S, f, x):
    c = S.I.ctx
    return And(S('@alloc')[x], Or([c.typeof(x) == c.clsid(k) for k in owners_of(f)]))


def newowner(S, x):
    c = S.I.ctx
    return Or([c.typeof(x) == c.clsid(k) for k in ('MWT', 'Node', 'Root', 'EmptyNode')])


def OWN(S):
    """Mappings of existing nodes and tokens exist and belong to one attribute each."""
    c = S.I.ctx
    x, y = z3.Consts('x y', c.Ref)
    own, F = S('@alloc'), [S(f) for f in FIELDS]
    p = owned(S)
    if slim(S):
        for name, l in own_lemmas(S):
            c.axiom(name, l)
    if 'mappings_owned' not in c.axkeys and not slim(S):
        al, vs = z3.Const('al', own.sort()), [z3.Const('f' + str(i), G.sort()) for i, G in enumerate(F)]
        fs = []
        for i, f in enumerate(FIELDS):
            is_ = lambda f, x: And(al[x], Or([c.typeof(x) == c.clsid(k) for k in owners_of(f)]))
            fs.append(FA([x], Imp(And(is_(f, x), vs[i][x] != c.null), al[vs[i][x]]), vs[i][x]))
            for j in range(i, len(FIELDS)):
                fs.append(FA([x, y], Imp(And(is_(f, x), is_(FIELDS[j], y), vs[i][x] != c.null, vs[i][x] == vs[j][y]),
                                         And(x == y, z3.BoolVal(i == j))), [vs[i][x], vs[j][y]]))
        c.axiom('mappings_owned', FA([al, *vs], p(al, *vs) == And(fs), p(al, *vs)))
    return [('mappings-owned', p(own, *F))]


def owned(S):
    own, F = S('@alloc'), [S(f) for f in FIELDS]
    return S.I.ctx.uf('mappings_owned', own.sort(), *[G.sort() for G in F], z3.BoolSort())


def owner(c, x):
    """A mark that makes the solver consider x as owner of a mapping (no meaning)."""
    return c.uf('look_at_owner', c.Ref, z3.BoolSort())(x)


def own_lemmas(S):
    """Consequences of OWN used without its definition; proved (from the definition) with every accessor."""
    c = S.I.ctx
    p = owned(S)
    al, F = z3.Const('al', S('@alloc').sort()), [z3.Const('f' + str(i), S(f).sort()) for i, f in enumerate(FIELDS)]
    x, y, v = z3.Consts('x y v', c.Ref)
    tok = c.typeof(x) == c.clsid('MWT')
    new = Or(v == c.null, And(v != x, Not(al[v]), c.typeof(v) == c.clsid('DualDict')))
    one, two, f3 = z3.Store(al, x, True), z3.Store(z3.Store(al, x, True), v, True), z3.Store(F[2], x, v)
    none = z3.Store(F[2], x, c.null)
    out = [('a new token without mapping', FA([al, *F, x], Imp(And(p(al, *F), Not(al[x]), tok, x != c.null), p(one, F[0], F[1], none)), p(one, F[0], F[1], none))),
           ('a new token with a new mapping', FA([al, *F, x, v], Imp(And(p(al, *F), Not(al[x]), tok, x != c.null, v != c.null, new), p(two, F[0], F[1], f3)), p(two, F[0], F[1], f3)))]
    is_ = lambda i, x: And(al[x], Or([c.typeof(x) == c.clsid(k) for k in owners_of(FIELDS[i])]))
    for i in range(3):
        for j in range(i, 3):
            one_ = And(is_(i, x), is_(j, y), F[i][x] != c.null, F[i][x] == F[j][y])
            out.append((f'unshared {i}{j}', FA([al, *F, x, y], Imp(And(p(al, *F), one_), And(x == y, z3.BoolVal(i == j))),
                                               [p(al, *F), owner(c, x), F[i][x], F[j][y]], [p(al, *F), owner(c, y), F[i][x], F[j][y]])))
    return out


class One:
    """An array that is read at one place only."""
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return self.v


def parts_of(S, m, cls=Dual):
    t = Ma(S, cls)
    return [t.n[m], t.has[m], t.val[m], t.k[m], t.str[m], t.names[m], t.parts[m]]


def consistent(S, m, cls=Dual):
    """The representation of mapping m is consistent (a predicate of its parts, defined by MINV)."""
    c = S.I.ctx
    ps = parts_of(S, m, cls)
    f = c.uf('mapping_ok_' + cls.tag, *[p.sort() for p in ps], z3.BoolSort())
    vs = [z3.Const(f'mp{i}', p.sort()) for i, p in enumerate(ps)]
    if slim(S):
        for name, l in slim_lemmas(S):
            c.axiom(name, l)
    elif 'mapping_ok_' + cls.tag not in c.axkeys:
        t = Ma(S, cls)
        t.n, t.has, t.val, t.k, t.str, t.names, t.parts = [One(v) for v in vs]
        c.axiom('mapping_ok_' + cls.tag, FA(vs, f(*vs) == And([g for _, g in MINV_of(t, None)]), f(*vs)))
    return f(*ps)


def mapval(S, m, key, cls=Dual):
    """Value of an attribute in mapping m ('' when missing)."""
    c = S.I.ctx
    ps = [p for i, p in enumerate(parts_of(S, m, cls)) if i in (0, 1, 2, 4)] + [key]
    g = c.uf('mapval_' + cls.tag, *[p.sort() for p in ps], c.Val)
    if 'mapval_' + cls.tag not in c.axkeys and not slim(S):
        vs = [z3.Const(f'av{i}', p.sort()) for i, p in enumerate(ps)]
        t = Ma(S, cls)
        t.n, t.has, t.val, t.str = [One(v) for v in vs[:4]]
        c.axiom('mapval_' + cls.tag, FA(vs, g(*vs) == If(t.ahas(None)[vs[4]], t.aval(None)[vs[4]], c.Val.vstr(c.lit(''))), g(*vs)))
    return g(*ps)


def slim_lemmas(S):
    """Facts about `consistent` and `mapval` used without their definitions; proved (from the definitions) with every accessor."""
    c = S.I.ctx
    out = []
    ps = parts_of(S, z3.Const('m', c.Ref))
    vs = [z3.Const(f'sl{i}', p.sort()) for i, p in enumerate(ps)]
    none = Ma(S, Dual).none
    f = c.uf('mapping_ok_Dual', *[p.sort() for p in ps], z3.BoolSort())
    out.append(('no attributes are consistent', FA(vs, Imp(And(vs[0] == 0, vs[1] == none), f(*vs)), f(*vs))))
    k = z3.Const('k', c.StrS)
    ws = [vs[i] for i in (0, 1, 2, 4)] + [k]
    g = c.uf('mapval_Dual', *[w.sort() for w in ws], c.Val)
    out.append(('no attributes have no value', FA(ws, Imp(And(vs[0] == 0, vs[1] == none, c.Val.is_vnone(vs[4])), g(*ws) == c.Val.vstr(c.lit(''))), g(*ws))))
    return out


def attr_value(S, f, x, name):
    """Value of an attribute of the FEATS/MISC mapping of x ('' when missing)."""
    c = S.I.ctx
    m = S(f)[x]
    name = c.lit(name) if isinstance(name, str) else name
    return If(m != c.null, mapval(S, m, name), c.Val.vstr(c.lit('')))


def MAPOK(S):
    """All mappings of all nodes and tokens are unshared and their two views agree."""
    c = S.I.ctx
    x = z3.Const('x', c.Ref)
    return OWN(S) + [(f'consistent-{f}', FA([x], Imp(And(isowner(S, f, x), S(f)[x] != c.null), consistent(S, S(f)[x])), S(f)[x])) for f in FIELDS]


def accessors(owner, mod, attr, classes, owners):
    """Node.feats, Node.misc and MWT.misc: the mapping object is created on demand and never shared."""
    fkey = f'{owner}._{attr}'
    cls = Dual
    val = Un('none', 'str', 'ref', classes=('PyDict', 'OtherObj'))
    MOD = tuple('DualDict._dict#' + p for p in ('n', 'has', 'val', 'k')) + ('DualDict._string',)

    class B(Contract):
        def requires(self, S, a):
            t = Ma(S, cls)
            m = S(fkey)[a.self]
            return OWN(S) + [('mapping-consistent', Imp(m != t.c.null, consistent(S, m)))]

        def attrs(self, S, x, f=fkey):
            """(no mapping, keys, values) of the attribute mapping of x."""
            t = Ma(S, cls)
            m = S(f)[x]
            return t, m

        def others(self, S0, S1, a):
            t, u = Ma(S0, cls), Ma(S1, cls)
            c = t.c
            x = z3.Const('x', c.Ref)
            out = OWN(S1) + [('only-mappings-created', FA([x], Imp(newowner(S0, x), S1('@alloc')[x] == S0('@alloc')[x]), S1('@alloc')[x]))]
            for f in FIELDS:
                F0, F1 = S0(f), S1(f)
                m = F0[x]
                out.append(('other-attributes-' + f, FA([x], Imp(And(isowner(S0, f, x), Or(x != a.self, z3.BoolVal(f != fkey))), And(
                    F1[x] == m, Imp(m != c.null, And(t.n[m] == u.n[m], t.has[m] == u.has[m], t.val[m] == u.val[m], t.k[m] == u.k[m],
                                                     t.str[m] == u.str[m])))), F0[x], F1[x])))
            return out

    class Get(B):
        qual = f'{mod}.{attr}'
        params = {'self': RefT(*owners)}
        ret = RefT(*classes)
        modifies = (fkey,) + MOD + ('@alloc',)

        def hints(self, S0, S1, a, r):
            mapval(S0, a.self, S0.I.ctx.lit(''))
            return [('assert', name, f) for name, f in slim_lemmas(S0) + own_lemmas(S0)]

        def ensures(self, S0, S1, a, r):
            t, u = Ma(S0, cls), Ma(S1, cls)
            c = t.c
            m = S0(fkey)[a.self]
            k = z3.Const('k', c.StrS)
            out = [('stored', And(S1(fkey)[a.self] == r, r != c.null)), ('kept-object', Imp(m != c.null, r == m)),
                   ('abstract-values', FA([k], mapval(S1, r, k) == attr_value(S0, fkey, a.self, k), mapval(S1, r, k))),
                   ('consistent', consistent(S1, r))] + self.others(S0, S1, a)
            if slim(S0):
                return out
            return out + [('kept', Imp(m != c.null, And(
                r == m, t.n[m] == u.n[m], t.has[m] == u.has[m], t.val[m] == u.val[m], t.str[m] == u.str[m]))),
                ('created-empty', Imp(m == c.null, And(u.n[r] == 0, c.Val.is_vnone(u.str[r]), u.ahas(r) == t.none)))] + \
                [('invariant-' + k, f) for k, f in MINV(S1, r, cls)]

    class Set(B):
        qual = f'{mod}.{attr}.setter'
        params = {'self': RefT(*owners), 'value': val}
        ret = NoneT
        modifies = (fkey,) + MOD + ('@alloc',)
        exc_modifies = ('@alloc',)

        def requires(self, S, a):
            t = Ma(S, cls)
            d = t.V.o(a.value)
            k = 'PyDict.d'
            return B.requires(self, S, a) + [('dict-argument', Imp(t.V.is_vref(a.value), And(d != t.c.null, DREP(t, S.n(k)[d], S.has(k)[d], S(k + '#k')[d]))))]

        def raises(self, S, a):
            t = Ma(S, cls)
            return [('ValueError', And(t.V.is_vref(a.value), t.c.typeof(t.V.o(a.value)) != t.c.clsid('PyDict')))]

        def ensures(self, S0, S1, a, r):
            t, u = Ma(S0, cls), Ma(S1, cls)
            c, V, v = t.c, t.V, a.value
            m = S1(fkey)[a.self]
            d, k = V.o(v), 'PyDict.d'
            emp = Or(V.is_vnone(v), v == V.vstr(c.lit('')))
            return [('kept-object', And(m != c.null, Imp(S0(fkey)[a.self] != c.null, m == S0(fkey)[a.self]))),
                    ('empty', Imp(emp, u.ahas(m) == t.none)),
                    ('string-stored', Imp(And(V.is_vstr(v), Not(emp)), And(u.str[m] == v, u.n[m] == 0))),
                    ('dict-copied', Imp(V.is_vref(v), And(V.is_vnone(u.str[m]), u.n[m] == S0.n(k)[d],
                                                        same_map(S0.has(k)[d], S0.val(k)[d], u.has[m], u.val[m], c))))] + \
                [('invariant-' + x, f) for x, f in MINV(S1, m, cls)] + [('consistent', consistent(S1, m))] + self.others(S0, S1, a)
    class Read(B):
        params = {'self': RefT(*owners)}
        modifies = (fkey,) + MOD + ('@alloc',)

        def same(self, S0, S1, a, but=None):
            """The mapping of the object holds the same attributes as before (possibly except one)."""
            t, u = Ma(S0, cls), Ma(S1, cls)
            c, V = t.c, t.V
            m, m1, k = S0(fkey)[a.self], S1(fkey)[a.self], z3.Const('k', c.StrS)
            h0 = If(m == c.null, t.none, t.ahas(m))
            other = k != c.lit(but) if but else z3.BoolVal(True)
            return [('mapping-kept', And(m1 != c.null, Imp(m != c.null, m1 == m))),
                    ('attributes-kept', FA([k], Imp(other, u.ahas(m1)[k] == h0[k]), *(vp(u.ahas(m1), k) + vp(u.aval(m1), k)))),
                    ('values-kept', FA([k], Imp(And(other, h0[k]), u.aval(m1)[k] == t.aval(m)[k]), *vp(u.aval(m1), k)))] + \
                [('invariant-' + x, f) for x, f in MINV(S1, m1, cls)] + [('consistent', consistent(S1, m1))]

    class NoSpace(Read):
        qual = f'{mod}.no_space_after'
        ret = Bool

        def ensures(self, S0, S1, a, r):
            c = S0.I.ctx
            return [('agrees-with-MISC', r == (attr_value(S0, fkey, a.self, 'SpaceAfter') == c.Val.vstr(c.lit('No'))))] + self.same(S0, S1, a) + self.others(S0, S1, a)

    class Gloss(Read):
        qual = f'{mod}.gloss'
        ret = VAL

        def ensures(self, S0, S1, a, r):
            return [('agrees-with-MISC', r == attr_value(S0, fkey, a.self, 'Gloss'))] + self.same(S0, S1, a) + self.others(S0, S1, a)

    class SetGloss(Read):
        qual = f'{mod}.gloss.setter'
        params = {'self': RefT(*owners), 'new_gloss': VAL}
        ret = NoneT

        def ensures(self, S0, S1, a, r):
            c = S0.I.ctx
            V, u, m1, k = c.Val, Ma(S1, cls), S1(fkey)[a.self], c.lit('Gloss')
            gone = Or(V.is_vnone(a.new_gloss), a.new_gloss == V.vstr(c.lit('')))
            return [('agrees-with-MISC', attr_value(S1, fkey, a.self, 'Gloss') == If(gone, V.vstr(c.lit('')), a.new_gloss)),
                    ('deleted', u.ahas(m1)[k] == Not(gone))] + self.same(S0, S1, a, 'Gloss') + self.others(S0, S1, a)
    out = [Get, Set] + ([] if attr != 'misc' else [NoSpace] if owner == 'MWT' else [NoSpace, Gloss, SetGloss])
    for C in out:
        C.__name__ += owner + attr
    return out


ALL += [InitDual, InitOther] + accessors('Node', 'udapi.core.node.Node', 'feats', ('Feats',), ('Node', 'Root', 'EmptyNode')) + \
    accessors('Node', 'udapi.core.node.Node', 'misc', ('DualDict',), ('Node', 'Root', 'EmptyNode')) + \
    accessors('MWT', 'udapi.core.mwt.MWT', 'misc', ('DualDict',), ('MWT',))
