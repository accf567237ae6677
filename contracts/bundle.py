"""Contracts of udapi.core.bundle / document and of the identification of trees (C10)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *
from .tree import And, Or, Imp, Not, If

BU = 'udapi.core.bundle.Bundle.'
DO = 'udapi.core.document.Document.'
RO = 'udapi.core.root.Root.'
BUNDLE, ROOT, DOC = RefT('Bundle'), RefT('Root'), RefT('Document')


def zone_match(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, VAny):
        return I.bind(I.unbox(st, v), lambda s, x: zone_match(I, s, [x], kw, node))
    if not isinstance(v, VStr):
        return [(st, I.exc('TypeError', node))]
    I.ctx.trusted.add('VALID_ZONE_REGEX.match is an uninterpreted predicate over strings (which labels are valid is not part of the property)')
    return [(st, VBool(I.ctx.uf('valid_zone', I.ctx.StrS, z3.BoolSort())(v.e)))]


def json_get(I, st, args, kw, node):
    I.ctx.trusted.add('Root.json/Document.json: get/update/del touch only the json dictionaries')
    return [(st, VOpaque('json value'))]


def json_update(I, st, args, kw, node):
    return [(st, VNone())]


def extend_schema(sc):
    sc.externals['global VALID_ZONE_REGEX.match'] = zone_match
    sc.externals['field Root.json.get'] = json_get
    sc.externals['field Document.json.update'] = json_update


class Bu:
    """The arrays describing bundles in one heap state."""

    def __init__(self, S):
        self.S = S
        self.c = c = S.I.ctx
        self.V = c.Val
        self.tn, self.te = S.n('Bundle.trees'), S.e('Bundle.trees')
        self.id, self.num, self.doc = S('Bundle._bundle_id'), S('Bundle.number'), S('Bundle._document')
        self.zone, self.sid, self.bun = S('Root._zone'), S('Root._sent_id'), S('Root._bundle')
        self.bn, self.be = S.n('Document.bundles'), S.e('Document.bundles')
        self.alloc = S('@alloc')
        self.null = c.null
        self.empty = c.lit('')

    def cat(self, *a):
        I = self.S.I
        r = VStr(a[0])
        for x in a[1:]:
            r = I.strcat(None, r, VStr(x))
        return r.e

    def has_id(self, B):
        return And(self.V.is_vstr(self.id[B]), self.V.s(self.id[B]) != self.empty)

    def full_id(self, i, zone):
        """bundle id + ('/' + zone if the zone is non-empty)."""
        return If(zone == self.empty, i, self.cat(i, self.cat(self.c.lit('/'), zone)))

    def sent_id_of(self, B, t):
        return self.full_id(self.V.s(self.id[B]), self.V.s(self.zone[t]))

    def mem(self, B, t):
        return self.c.mem(self.te[B], self.tn[B], t)


def BINV(S, B, parts=None):
    """Consistency of one bundle."""
    t = Bu(S)
    c, V = t.c, t.V
    i, j = z3.Ints('i j')
    n, e = t.tn[B], t.te[B]
    rng = And(0 <= i, i < n)
    cl = {}
    cl['trees'] = And(B != t.null, t.alloc[B], c.typeof(B) == c.clsid('Bundle'), n >= 0, FA([i], Imp(rng, And(
        e[i] != t.null, c.typeof(e[i]) == c.clsid('Root'), t.bun[e[i]] == B, t.alloc[e[i]], V.is_vstr(t.zone[e[i]]))), e[i]))
    cl['zones-distinct'] = FA([i, j], Imp(And(0 <= i, i < j, j < n), t.zone[e[i]] != t.zone[e[j]]), [e[i], e[j]])
    cl['sentence-ids'] = Imp(t.has_id(B), FA([i], Imp(rng, t.sid[e[i]] == V.vstr(t.sent_id_of(B, e[i]))), e[i]))
    return [(k, v) for k, v in cl.items() if parts is None or k in parts]


def binv(S, B):
    return And(*[f for _, f in BINV(S, B)])


def other(c):
    return z3.Const('other_bundle', c.Ref)


def OTHER(S, B):
    """Another (arbitrary) bundle stays consistent."""
    o = other(S.I.ctx)
    return [('other-bundle-consistent', Imp(And(o != B, o != S.I.ctx.null), binv(S, o)))]


def taken(t, B, z, but=None):
    """Some tree of B has zone z (a Val term)."""
    i = z3.Int('i')
    return z3.Exists([i], And(0 <= i, i < t.tn[B], t.zone[t.te[B][i]] == z))


class CheckZone(Contract):
    qual = BU + 'check_zone'
    params = {'self': BUNDLE, 'new_zone': S_}
    ret = NoneT
    may_raise = ('ValueError', 'TypeError')

    def requires(self, S, a):
        return BINV(S, a.self)

    def raises(self, S, a):
        t = Bu(S)
        return [('Exception', taken(t, a.self, a.new_zone))]

    def ensures(self, S0, S1, a, r):
        t = Bu(S0)
        i = z3.Int('i')
        return [('a-string', t.V.is_vstr(a.new_zone)),
                ('zone-is-free', FA([i], Imp(And(0 <= i, i < t.tn[a.self]), t.zone[t.te[a.self][i]] != a.new_zone), t.te[a.self][i]))]


class AddTree(Contract):
    qual = BU + 'add_tree'
    params = {'self': BUNDLE, 'root': ROOT}
    ret = ROOT
    may_raise = ('Exception', 'AttributeError', 'TypeError', 'ValueError')
    modifies = ('Bundle.trees#n', 'Bundle.trees#e', 'Root._zone', 'Root._sent_id', 'Root._bundle')
    exc_modifies = modifies

    def requires(self, S, a):
        t = Bu(S)
        o = other(t.c)
        return BINV(S, a.self) + OTHER(S, a.self) + [
            ('root-in-no-bundle', And(Not(t.mem(a.self, a.root)), Imp(And(o != a.self, o != t.null), Not(t.mem(o, a.root)))))]

    def entry_hints(self, S, a):
        t = Bu(S)
        i = z3.Int('i')
        o = other(t.c)
        return [('assert', 'not here', FA([i], Imp(And(0 <= i, i < t.tn[B]), t.te[B][i] != a.root), t.te[B][i])) if B is a.self else
                ('assert', 'not there', Imp(And(o != a.self, o != t.null), FA([i], Imp(And(0 <= i, i < t.tn[B]), t.te[B][i] != a.root), t.te[B][i])))
                for B in (a.self, o)]

    def both(self, S0, S1, a):
        t, u = Bu(S0), Bu(S1)
        return [('consistent-' + k, f) for k, f in BINV(S1, a.self)] + OTHER(S1, a.self) + [
            ('bundle-ids-unchanged', u.id == t.id)]

    def exc_ensures(self, S0, S1, a, cls):
        return self.both(S0, S1, a)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        V, x = t.V, z3.Const('x', t.c.Ref)
        B = a.self
        return self.both(S0, S1, a) + [
            ('result', r == a.root),
            ('appended', And(u.tn == z3.Store(t.tn, B, t.tn[B] + 1), u.te == z3.Store(t.te, B, z3.Store(t.te[B], t.tn[B], a.root)))),
            ('zone', u.zone[r] == If(V.is_vnone(t.zone[r]), V.vstr(t.empty), t.zone[r])),
            ('others-unchanged', FA([x], Imp(x != r, And(u.zone[x] == t.zone[x], u.sid[x] == t.sid[x], u.bun[x] == t.bun[x]))))]


class CreateTree(Contract):
    qual = BU + 'create_tree'
    params = {'self': BUNDLE, 'zone': S_}
    ret = ROOT
    may_raise = AddTree.may_raise
    modifies = AddTree.modifies + ('@alloc',)
    exc_modifies = modifies

    def requires(self, S, a):
        return BINV(S, a.self) + OTHER(S, a.self)

    def exc_ensures(self, S0, S1, a, cls):
        return AddTree.both(self, S0, S1, a)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        V, x = t.V, z3.Const('x', t.c.Ref)
        B = a.self
        return AddTree.both(self, S0, S1, a) + [
            ('new-tree', And(r != t.null, Not(t.alloc[r]), u.alloc[r])),
            ('appended', And(u.tn == z3.Store(t.tn, B, t.tn[B] + 1), u.te == z3.Store(t.te, B, z3.Store(t.te[B], t.tn[B], r)))),
            ('zone', u.zone[r] == If(V.is_vnone(a.zone), V.vstr(t.empty), a.zone)),
            ('others-unchanged', FA([x], Imp(x != r, And(u.zone[x] == t.zone[x], u.sid[x] == t.sid[x], u.bun[x] == t.bun[x]))))]


class GetTree(Contract):
    qual = BU + 'get_tree'
    params = {'self': BUNDLE, 'zone': Str}
    ret = ROOT

    def requires(self, S, a):
        return BINV(S, a.self)

    def raises(self, S, a):
        t = Bu(S)
        return [('Exception', Not(taken(t, a.self, t.V.vstr(a.zone))))]

    def ensures(self, S0, S1, a, r):
        t = Bu(S0)
        i = z3.Int('i')
        z = t.V.vstr(a.zone)
        return [('has-the-zone', And(t.zone[r] == z, t.mem(a.self, r))),
                ('only-one', FA([i], Imp(And(0 <= i, i < t.tn[a.self], t.zone[t.te[a.self][i]] == z), t.te[a.self][i] == r), t.te[a.self][i]))]


class HasTree(Contract):
    qual = BU + 'has_tree'
    params = {'self': BUNDLE, 'zone': Str}
    ret = Bool

    def requires(self, S, a):
        return BINV(S, a.self)

    def ensures(self, S0, S1, a, r):
        t = Bu(S0)
        return [('answer', r == taken(t, a.self, t.V.vstr(a.zone)))]

    @staticmethod
    def _inv(L):
        t = Bu(L.S)
        i = z3.Int('i')
        e = t.te[L.a.self]
        return [('not yet', FA([i], Imp(And(0 <= i, i < L.i), t.zone[e[i]] != t.V.vstr(L.a.zone)), e[i]))]
    loops = {0: Loop(inv=_inv.__func__)}


class SetBundleId(Contract):
    qual = BU + 'bundle_id.setter'
    params = {'self': BUNDLE, 'bundle_id': Str}
    ret = NoneT
    modifies = ('Bundle._bundle_id', 'Root._sent_id')

    def requires(self, S, a):
        return BINV(S, a.self, ('trees', 'zones-distinct')) + OTHER(S, a.self)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        x = z3.Const('x', t.c.Ref)
        return [('id', u.id == z3.Store(t.id, a.self, t.V.vstr(a.bundle_id))),
                ('only-its-trees', FA([x], Imp(t.bun[x] != a.self, u.sid[x] == t.sid[x])))] + BINV(S1, a.self) + OTHER(S1, a.self)

    @staticmethod
    def _inv(L):
        t = Bu(L.S)
        p = Bu(L.Sp)
        i = z3.Int('i')
        x = z3.Const('x', t.c.Ref)
        B = L.a.self
        e = t.te[B]
        return [('done', FA([i], Imp(And(0 <= i, i < L.i), t.sid[e[i]] == t.V.vstr(t.full_id(L.a.bundle_id, t.V.s(t.zone[e[i]])))), e[i])),
                ('rest', FA([x], Imp(t.bun[x] != B, t.sid[x] == p.sid[x])))]
    loops = {0: Loop(inv=_inv.__func__)}


def DINV(S, D):
    """Bundles of a document are numbered by position."""
    t = Bu(S)
    c = t.c
    i = z3.Int('i')
    n, e = t.bn[D], t.be[D]
    return [('bundles', And(n >= 0, FA([i], Imp(And(0 <= i, i < n), And(e[i] != t.null, c.typeof(e[i]) == c.clsid('Bundle'), t.alloc[e[i]])), e[i]))),
            ('numbered', FA([i], Imp(And(0 <= i, i < n), t.num[e[i]] == i + 1), e[i]))]


class RemoveBundle(Contract):
    qual = BU + 'remove'
    params = {'self': BUNDLE}
    ret = NoneT
    modifies = ('Document.bundles#n', 'Document.bundles#e', 'Bundle.number')

    def requires(self, S, a):
        t = Bu(S)
        return [('in-a-document', t.doc[a.self] != t.null)] + DINV(S, t.doc[a.self])

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        c = t.c
        i, j = z3.Ints('i j')
        x = z3.Const('x', c.Ref)
        D = t.doc[a.self]
        n, e, n1, e1 = t.bn[D], t.be[D], u.bn[D], u.be[D]
        pos = t.num[a.self] - 1
        inside = c.mem(e, n, a.self)
        return DINV(S1, D) + [
            ('removed', Not(c.mem(e1, n1, a.self))),
            ('one-less', n1 == If(inside, n - 1, n)),
            ('others-kept-in-order', FA([i], Imp(And(0 <= i, i < n1), e1[i] == e[If(And(inside, i >= pos), i + 1, i)]), e1[i])),
            ('other-documents', FA([x], Imp(x != D, And(u.bn[x] == t.bn[x], u.be[x] == t.be[x]))))]

    def hints(self, S0, S1, a, r):
        fl = a.st.extra.get('filters', ())
        if not fl:
            return []
        t, u = Bu(S0), Bu(S1)
        i = z3.Int('i')
        arr, n1, pos, inv = fl[-1]
        D = t.doc[a.self]
        n, e, p = t.bn[D], t.be[D], t.num[a.self] - 1
        inside = t.c.mem(e, n, a.self)
        exp = lambda k: If(And(inside, k >= p), k + 1, k)
        return [('assert', 'position', Imp(inside, And(0 <= p, p < n, e[p] == a.self))),
                ('assert', 'elsewhere', FA([i], Imp(And(0 <= i, i < n), (e[i] == a.self) == And(inside, i == p)), e[i])),
                ('induct', 'index before removal', i, i, Imp(And(0 <= i, i < n1), And(
                    pos(i) == exp(i), Imp(i > 0, pos(i - 1) < pos(i)), inv(exp(i)) == i)), [pos(i)]),
                ('assert', 'elements', FA([i], Imp(And(0 <= i, i < n1), arr[i] == e[exp(i)]), arr[i])),
                ('assert', 'count', And(Or(exp(n1) >= n, inv(exp(n1)) >= n1), Imp(n1 > 0, pos(n1 - 1) == exp(n1 - 1))))]

    @staticmethod
    def _inv(L):
        t, p = Bu(L.S), Bu(L.Sp)
        i = z3.Int('i')
        x = z3.Const('x', t.c.Ref)
        D = t.doc[L.a.self]
        e = t.be[D]
        return [('numbered', FA([i], Imp(And(0 <= i, i < L.i), t.num[e[i]] == i + 1), e[i]))]
    loops = {0: Loop(inv=_inv.__func__)}


class CreateBundle(Contract):
    qual = DO + 'create_bundle'
    params = {'self': DOC}
    ret = BUNDLE
    modifies = ('Document.bundles#n', 'Document.bundles#e', 'Document._highest_bundle_id', 'Bundle.number', 'Bundle.trees#n', 'Bundle.trees#e',
                'Bundle._bundle_id', 'Bundle._document', '@alloc')

    def requires(self, S, a):
        return DINV(S, a.self) + OTHER(S, S.I.ctx.null)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        x = z3.Const('x', t.c.Ref)
        D = a.self
        h0, h1 = S0('Document._highest_bundle_id'), S1('Document._highest_bundle_id')
        f = t.c.uf('str_of_int', z3.IntSort(), t.c.StrS)
        return DINV(S1, D) + OTHER(S1, t.null) + [
            ('new-bundle', And(Not(t.alloc[r]), u.alloc[r], u.doc[r] == D, u.tn[r] == 0)),
            ('appended', And(u.bn == z3.Store(t.bn, D, t.bn[D] + 1), u.be == z3.Store(t.be, D, z3.Store(t.be[D], t.bn[D], r)))),
            ('id', And(h1[D] == h0[D] + 1, u.id[r] == t.V.vstr(f(h1[D])))),
            ('others-unchanged', FA([x], Imp(x != r, And(u.num[x] == t.num[x], u.id[x] == t.id[x], u.doc[x] == t.doc[x], Imp(t.alloc[x], u.alloc[x]),
                                                         u.tn[x] == t.tn[x], u.te[x] == t.te[x])))),
            ('other-documents', FA([x], Imp(x != D, h1[x] == h0[x])))] + [('consistent-' + k, f) for k, f in BINV(S1, r)]


class SetZone(Contract):
    """Assigning the zone of a tree."""
    qual = RO + 'zone.setter'
    params = {'self': ROOT, 'zone': S_}
    ret = NoneT
    may_raise = ('Exception', 'ValueError', 'TypeError')
    modifies = ('Root._zone', 'Root._sent_id')

    def requires(self, S, a):
        t = Bu(S)
        B = t.bun[a.self]
        o = other(t.c)
        return [('bundle-' + k, Imp(B != t.null, f)) for k, f in BINV(S, B)] + OTHER(S, B) + [
            ('in-no-other-bundle', Imp(o != B, Not(t.mem(o, a.self))))]

    def raises(self, S, a):
        return []

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        B = t.bun[a.self]
        x = z3.Const('x', t.c.Ref)
        V = t.V
        zs = If(V.is_vstr(a.zone), V.s(a.zone), t.empty)
        sid, c = t.sid[a.self], t.c
        first = c.uf('split_1_e', c.StrS, c.StrS, z3.ArraySort(z3.IntSort(), c.StrS))(V.s(sid), c.lit('/'))[0]
        return [('zone', u.zone == z3.Store(t.zone, a.self, a.zone)),
                ('others-unchanged', FA([x], Imp(x != a.self, u.sid[x] == t.sid[x]))),
                ('sentence-id', Imp(And(B != t.null, V.is_vstr(t.id[B])), u.sid[a.self] == V.vstr(t.full_id(V.s(t.id[B]), zs)))),
                ('sentence-id-without-bundle', Imp(And(B == t.null, V.is_vstr(sid), V.s(sid) != t.empty), u.sid[a.self] == V.vstr(t.full_id(first, zs))))] + \
            [('bundle-' + k, Imp(B != t.null, f)) for k, f in BINV(S1, B)] + OTHER(S1, B)


class SetSentId(Contract):
    """Assigning the sentence id of a tree."""
    qual = RO + 'sent_id.setter'
    params = {'self': ROOT, 'sent_id': Str}
    ret = NoneT
    may_raise = ('Exception', 'ValueError', 'TypeError')
    modifies = ('Root._zone', 'Root._sent_id', 'Bundle._bundle_id')
    exc_modifies = modifies

    def requires(self, S, a):
        t = Bu(S)
        B = t.bun[a.self]
        return SetZone.requires(self, S, a) + [('own-bundle', Imp(B != t.null, t.mem(B, a.self)))]

    def exc_ensures(self, S0, S1, a, cls):
        t = Bu(S0)
        B = t.bun[a.self]
        return [('bundle-' + k, Imp(B != t.null, f)) for k, f in BINV(S1, B)] + OTHER(S1, B)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        B = t.bun[a.self]
        V, c = t.V, t.c
        sl = c.lit('/')
        has = S0.I.str_contains(VStr(a.sent_id), VStr(sl))
        return self.exc_ensures(S0, S1, a, None) + [
            ('without-bundle', Imp(B == t.null, u.sid == z3.Store(t.sid, a.self, V.vstr(a.sent_id)))),
            ('assigned', Imp(And(B != t.null, has), V.is_vstr(u.id[B]))),
            ('id-and-zone', Imp(B != t.null, And(V.is_vstr(u.id[B]), u.sid[a.self] == V.vstr(u.full_id(V.s(u.id[B]), V.s(u.zone[a.self])))))),
            ('zone-kept-unless-given', Imp(Not(has), u.zone == t.zone))]


class GetSentId(Contract):
    qual = RO + 'sent_id'
    params = {'self': ROOT}
    ret = S_
    modifies = ('Root._sent_id',)

    def requires(self, S, a):
        t = Bu(S)
        return SetZone.requires(self, S, a)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        B = t.bun[a.self]
        x = z3.Const('x', t.c.Ref)
        return [('bundle-' + k, Imp(B != t.null, f)) for k, f in BINV(S1, B)] + OTHER(S1, B) + [
            ('others-unchanged', FA([x], Imp(x != a.self, u.sid[x] == t.sid[x]))),
            ('id-of-bundle-and-zone', Imp(And(B != t.null, t.mem(B, a.self), t.has_id(B)), r == t.V.vstr(t.sent_id_of(B, a.self))))]


class RemoveTree(Contract):
    qual = RO + 'remove'
    params = {'self': ROOT, 'children': S_}
    ret = NoneT
    modifies = ('Bundle.trees#n', 'Bundle.trees#e')

    def requires(self, S, a):
        t = Bu(S)
        B = t.bun[a.self]
        return [('in-a-bundle', B != t.null)] + BINV(S, B) + OTHER(S, B)

    def ensures(self, S0, S1, a, r):
        t, u = Bu(S0), Bu(S1)
        B = t.bun[a.self]
        x = z3.Const('x', t.c.Ref)
        return BINV(S1, B) + OTHER(S1, B) + [
            ('removed', Not(u.mem(B, a.self))),
            ('others-kept', FA([x], Imp(x != a.self, u.mem(B, x) == t.mem(B, x)), u.mem(B, x), t.mem(B, x)))]


ALL = [CheckZone, AddTree, CreateTree, GetTree, HasTree, SetBundleId, RemoveBundle, CreateBundle, SetZone, SetSentId, GetSentId, RemoveTree]
