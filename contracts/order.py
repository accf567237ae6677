"""Contracts of the word-order operations of udapi.core.node (C02)."""
import z3
from .tree import *

SHIFT_MOD = ('Node._ord', 'EmptyNode._ord', 'Root._descendants#e', 'Node._children#e')


def moved(t, s, single, x):
    return If(single, x == s, Or(x == s, t.anc(s, x)))


def grp(t, s, single, ref, x):
    return If(moved(t, s, single, x), 1, If(t.ord[x] < ref, 0, 2))


def key_less(t, s, single, ref, x, y):
    gx, gy = grp(t, s, single, ref, x), grp(t, s, single, ref, y)
    return Or(gx < gy, And(gx == gy, t.ord[x] < t.ord[y]))


class ShiftBeforeOrd(Contract):
    qual = N + '_shift_before_ord'
    params = {'self': NODE, 'reference_ord': Int, 'without_children': Bool}
    ret = NoneT
    modifies = SHIFT_MOD

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inT(R, a.self)),
                           ('reference', And(1 <= a.reference_ord, a.reference_ord <= t.Dn[R] + 1))]

    @staticmethod
    def single(t, a):
        return Or(a.without_children, t.chn[a.self] == 0)

    def ensures(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        x, y = xs(t.c, 'x', 'y')
        R = t.root[a.self]
        T = lambda z: t.inT(R, z)
        return [('same-words', FA([x], t.inT(R, x) == u.inT(R, x), u.ord[x])),
                ('word-order', FA([x, y], Imp(And(T(x), T(y)), (u.ord[x] < u.ord[y]) == key_less(t, a.self, self.single(t, a), a.reference_ord, x, y)),
                                  [u.ord[x], u.ord[y]])),
                ('other-trees', FA([x], Imp(Not(T(x)), u.ord[x] == t.ord[x]), u.ord[x])),
                ('children', FA([x], Imp(x != t.par[a.self], u.che[x] == t.che[x]), u.che[x])),
                ('word-lists', FA([x], Imp(x != R, u.De[x] == t.De[x]), u.De[x]))] + WF(S1, R)

    def hints(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        c, s, ref = t.c, a.self, a.reference_ord
        x, y, j = xs(c, 'x'), xs(c, 'y'), z3.Int('j')
        R = t.root[s]
        n, my = t.Dn[R], t.ord[s]
        T = lambda z: t.inT(R, z)
        words = ('words', FA([j], Imp(And(0 <= j, j < n), t.ord[t.De[R][j]] == j + 1), t.De[R][j]))
        m = a.st.env.get(self.I.localname('nodes_to_move'))
        out = []
        if not isinstance(m, VList):
            mv = lambda z: z == s
            De = If(ref > my + 1, If(And(my - 1 <= j, j < ref - 2), t.De[R][j + 1], If(j == ref - 2, s, t.De[R][j])),
                    If(ref < my, If(And(ref - 1 < j, j <= my - 1), t.De[R][j - 1], If(j == ref - 1, s, t.De[R][j])), t.De[R][j]))
            o = If(ref > my + 1, If(x == s, ref - 1, If(And(T(x), my < t.ord[x], t.ord[x] < ref), t.ord[x] - 1, t.ord[x])),
                   If(ref < my, If(x == s, ref, If(And(T(x), ref <= t.ord[x], t.ord[x] < my), t.ord[x] + 1, t.ord[x])), t.ord[x]))
            out += [('cut', [words, ('self', And(T(s), u.Dn[R] == n)), ('list', FA([j], u.De[R][j] == De, u.De[R][j])), ('numbers', FA([x], u.ord[x] == o, u.ord[x]))])]
        else:
            l = self.I.spec_val(a.st, m, None)
            mv = lambda z: c.mem(l.e, l.n, z)
            first, last, k = t.ord[l.e[0]], t.ord[l.e[l.n - 1]], l.n
            if 'g7' in a.st.extra:
                mov9 = a.st.env[self.I.localname('mov_ord')].e
                g7 = a.st.extra['g7']
                out += [('assert', 'same number before the reference', Imp(And(first < ref, ref <= last), mov9 == g7['mov'] + 1)),
                        ('assert', 'none before the reference', Imp(ref <= first, g7['mov'] == -1)),
                        ('assert', 'the gap fits', Imp(ref <= last, g7['trg'] == If(ref <= first, ref, ref - mov9) - 1 + k))]
        g = lambda z: If(mv(z), 1, If(t.ord[z] < ref, 0, 2))
        less = lambda z, w: Or(g(z) < g(w), And(g(z) == g(w), t.ord[z] < t.ord[w]))
        keep = [('inverse', FA([x], Imp(T(x), And(1 <= u.ord[x], u.ord[x] <= n, u.De[R][u.ord[x] - 1] == x)), u.ord[x], t.ord[x])),
                ('numbered', FA([j], Imp(And(0 <= j, j < n), And(T(u.De[R][j]), u.ord[u.De[R][j]] == j + 1)), u.De[R][j])),
                ('others', FA([x], Imp(Not(T(x)), u.ord[x] == t.ord[x]), u.ord[x])),
                ('key-order', FA([x, y], Imp(And(T(x), T(y)), (u.ord[x] < u.ord[y]) == less(x, y)), [u.ord[x], u.ord[y]]))]
        out += [('assert', l_, f) for l_, f in keep]
        out += [('restore',)]
        if not isinstance(m, VList):
            single = Or(a.without_children, t.chn[s] == 0)
            out += [('assert', 'single', single)]
        else:
            out += [('assert', 'block', And(Not(a.without_children), t.chn[s] > 0))]
        mvd = ('moved', FA([x], Imp(T(x), mv(x) == moved(t, s, self.single(t, a), x)), t.ord[x]))
        same = ('same-words', FA([x], t.inT(R, x) == u.inT(R, x), u.ord[x]))
        p = t.par[s]
        ch = [('parent-list', And(t.inTR(R, p), FA([x], u.inch(p, x) == t.inch(p, x), u.inch(p, x), t.inch(p, x)))),
              ('parent-list-elements', FA([j], Imp(And(0 <= j, j < t.chn[p]), And(T(u.che[p][j]), t.par[u.che[p][j]] == p)), u.che[p][j])),
              ('parent-list-sorted', sorted_list(u.ord, t.chn[p], u.che[p])),
              ('other-lists', FA([x], Imp(x != p, u.che[x] == t.che[x]), u.che[x]))]
        wf0 = WF(S0, R, parts=('parent-in-tree', 'children-are-attached', 'children-sorted', 'attached-are-children'))
        i, k = z3.Ints('i k')
        mvs = lambda z: moved(t, s, self.single(t, a), z)
        together = ('together', FA([x, j, k], Imp(And(t.inTR(R, x), x != p, 0 <= j, j < k, k < t.chn[x]), mvs(t.che[x][j]) == mvs(t.che[x][k])), [t.che[x][j], t.che[x][k]]))
        out += [('assert',) + together, ('assert',) + mvd, ('cut', keep + [mvd, same, together] + ch + wf0)]
        fin = [(l_, f) for l_, f in self.ensures(S0, S1, a, r) if l_ in ('word-order', 'parent-in-tree', 'children-are-attached', 'children-sorted', 'attached-are-children')]
        out += [('assert', 'final ' + l_, f) for l_, f in fin]
        return out

    # ---- single word, rightwards
    @staticmethod
    def _inv0(L):
        t, u = Tr(L.S0), Tr(L.S)
        R, s, ref = t.root[L.a.self], L.a.self, L.a.reference_ord
        my = t.ord[s]
        x, j = xs(t.c, 'x'), z3.Int('j')
        i = my + L.i
        return [('list', And(L.i <= L.n, u.De == z3.Store(t.De, R, u.De[R]),
                             FA([j], u.De[R][j] == If(And(my - 1 <= j, j < i - 1), t.De[R][j + 1], t.De[R][j]), u.De[R][j]))),
                ('numbers', FA([x], u.ord[x] == If(And(t.inT(R, x), my < t.ord[x], t.ord[x] <= i), t.ord[x] - 1, t.ord[x]), u.ord[x]))]

    @staticmethod
    def _inv2(L):
        t, u = Tr(L.S0), Tr(L.S)
        R, s, ref = t.root[L.a.self], L.a.self, L.a.reference_ord
        my = t.ord[s]
        x, j = xs(t.c, 'x'), z3.Int('j')
        i = my - L.i
        return [('list', And(L.i <= L.n, u.De == z3.Store(t.De, R, u.De[R]),
                             FA([j], u.De[R][j] == If(And(i - 1 < j, j <= my - 1), t.De[R][j - 1], t.De[R][j]), u.De[R][j]))),
                ('numbers', FA([x], u.ord[x] == If(And(t.inT(R, x), i <= t.ord[x], t.ord[x] < my), t.ord[x] + 1, t.ord[x]), u.ord[x]))]

    # ---- block
    def entry_hints(self, S, a):
        t = Tr(S)
        return cd_is_anc(t, t.root[a.self], a.self) + below(t, t.root[a.self], a.self)

    @staticmethod
    def blk(L):
        t = Tr(L.S0)
        m = L.v('nodes_to_move')
        return t, m, L.v('first_ord'), L.v('last_ord'), m.n

    @staticmethod
    def _block(L):
        """Facts about nodes_to_move."""
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        c, R, s = t.c, t.root[L.a.self], L.a.self
        x, j = xs(c, 'x'), z3.Int('j')
        mem = lambda z: c.mem(m.e, m.n, z)
        arr = L.st.extra['sorts'][-1][0]     # descendants with self appended, before sorting
        base = arr.arg(0) if z3.is_store(arr) else arr
        return [('assert', 'without self', FA([j], Imp(And(0 <= j, j < k - 1), And(c.mem(base, k - 1, base[j]), base[j] != s)), base[j])),
                elem_mem(c, m), ('assert', 'block is the subtree', FA([x], Imp(t.inT(R, x), mem(x) == Or(x == s, t.anc(s, x))), mem(x), t.anc(s, x))),
                ('assert', 'block of words', FA([j], Imp(And(0 <= j, j < k), And(t.inT(R, m.e[j]), mem(m.e[j]))), m.e[j])),
                ('assert', 'block sorted', sorted_list(t.ord, m.n, m.e)),
                ('assert', 'bounds', And(k >= 1, 1 <= first, first <= last, last <= t.Dn[R], first == t.ord[m.e[0]], last == t.ord[m.e[k - 1]],
                                         t.ord[s] >= first, t.ord[s] <= last))]

    @staticmethod
    def _gapless(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        c, R, s = t.c, t.root[L.a.self], L.a.self
        x, j = xs(c, 'x'), z3.Int('j')
        o = lambda q: t.ord[m.e[q]]
        rng = And(0 <= j, j < k)
        return ShiftBeforeOrd._block(L) + [
            ('assert', 'gapless', last - first + 1 == k),
            ('induct', 'lower', j, j, Imp(rng, And(o(j) >= first + j, Imp(j >= 1, o(j - 1) < o(j)))), [m.e[j]]),
            ('induct', 'upper', j, k - 1 - j, Imp(rng, And(o(j) <= last - (k - 1 - j), Imp(j < k - 1, o(j) < o(j + 1)))), [m.e[j]]),
            ('assert', 'consecutive', FA([j], Imp(rng, o(j) == first + j), m.e[j])),
            ('assert', 'consecutive in the list', FA([j], Imp(rng, t.De[R][first - 1 + j] == m.e[j]), m.e[j])),
            ('assert', 'inverse', FA([x], Imp(And(t.inT(R, x), first <= t.ord[x], t.ord[x] <= last), m.e[t.ord[x] - first] == x), t.ord[x])),
            ('assert', 'interval', FA([x], Imp(t.inT(R, x), c.mem(m.e, m.n, x) == And(first <= t.ord[x], t.ord[x] <= last)), c.mem(m.e, m.n, x), t.ord[x])),
            ('cut', ShiftBeforeOrd._facts(L) + [
                ('interval', FA([x], Imp(t.inT(R, x), c.mem(m.e, m.n, x) == And(first <= t.ord[x], t.ord[x] <= last)), c.mem(m.e, m.n, x), t.ord[x])),
                ('consecutive', FA([j], Imp(rng, And(o(j) == first + j, t.De[R][first - 1 + j] == m.e[j])), m.e[j]))])]

    @staticmethod
    def ground(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        R = t.root[L.a.self]
        return [('block', And(k >= 1, 1 <= first, first <= last, last <= t.Dn[R], Tr(L.S).Dn[R] == t.Dn[R]))]

    @staticmethod
    def _same(t, u, R):
        return u.De == z3.Store(t.De, R, u.De[R])

    @staticmethod
    def _inv4(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        u = Tr(L.S)
        R, ref = t.root[L.a.self], L.a.reference_ord
        src, trg = L.v('src_ord'), L.v('trg_ord')
        x, j = xs(t.c, 'x'), z3.Int('j')
        return ShiftBeforeOrd.ground(L) + [
                ('positions', And(trg == src + k, src < first, Or(src >= ref - 1, src == first - 1))),
                ('list', And(ShiftBeforeOrd._same(t, u, R),
                             FA([j], u.De[R][j] == If(And(trg <= j, j <= last - 1), t.De[R][j - k], t.De[R][j]), u.De[R][j]))),
                ('numbers', FA([x], u.ord[x] == If(And(t.inT(R, x), src < t.ord[x], t.ord[x] < first), t.ord[x] + k, t.ord[x]), u.ord[x]))]

    @staticmethod
    def _inv5(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        p, u = Tr(L.Sp), Tr(L.S)
        R, ref = t.root[L.a.self], L.a.reference_ord
        src, trg = L.v('src_ord'), L.v('trg_ord')
        x, j = xs(t.c, 'x'), z3.Int('j')
        return ShiftBeforeOrd.ground(L) + [
                ('positions', And(trg == src - k, src > last, Or(src <= ref, src == last + 1))),
                ('list', And(ShiftBeforeOrd._same(t, u, R),
                             FA([j], u.De[R][j] == If(And(first - 1 <= j, j < trg - 1), t.De[R][j + k], p.De[R][j]), u.De[R][j]))),
                ('numbers', FA([x], u.ord[x] == If(And(t.inT(R, x), last < t.ord[x], t.ord[x] < src), t.ord[x] - k, p.ord[x]), u.ord[x]))]

    @staticmethod
    def _place(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        p, u = Tr(L.Sp), Tr(L.S)
        R = t.root[L.a.self]
        trg, t0 = L.v('trg_ord'), L.pre('trg_ord')
        x, j = xs(t.c, 'x'), z3.Int('j')
        return ShiftBeforeOrd.ground(L) + [
                ('positions', And(trg == t0 + L.i, L.i <= k, 1 <= t0, t0 + k - 1 <= t.Dn[R])),
                ('list', And(ShiftBeforeOrd._same(t, u, R),
                             FA([j], u.De[R][j] == If(And(t0 - 1 <= j, j < t0 - 1 + L.i), m.e[j - t0 + 1], p.De[R][j]), u.De[R][j]))),
                ('placed', FA([j], Imp(And(0 <= j, j < L.i), u.ord[m.e[j]] == t0 + j), m.e[j])),
                ('numbers', FA([x], Imp(Not(t.c.mem(m.e, m.n, x)), u.ord[x] == p.ord[x]), u.ord[x]))]

    # ---- block with gaps
    @staticmethod
    def _gap(L):
        return ShiftBeforeOrd._block(L) + [('assert', 'size', L.v('nodes_to_move').n >= 2), ('cut', ShiftBeforeOrd._facts(L))]

    @staticmethod
    def _gh(L0, L1=None):
        L = L1 or L0
        return {'trg': L.v('trg_ord'), 'mov': L.v('mov_ord')}

    @staticmethod
    def _facts(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        c, R = t.c, t.root[L.a.self]
        x, j = xs(c, 'x'), z3.Int('j')
        return [('words', FA([j], Imp(And(0 <= j, j < t.Dn[R]), And(t.ord[t.De[R][j]] == j + 1)), t.De[R][j])),
                ('block-words', FA([j], Imp(And(0 <= j, j < k), And(t.inT(R, m.e[j]), c.mem(m.e, m.n, m.e[j]))), m.e[j])),
                ('block-sorted', sorted_list(t.ord, m.n, m.e))]

    @staticmethod
    def _right(L):
        """Loop 7 and its inner loop 8: words not moved and at src+1..last-1 are already shifted to trg+1..last."""
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        c, u = t.c, Tr(L.S)
        R, ref = t.root[L.a.self], L.a.reference_ord
        src, trg, mov = L.v('src_ord'), L.v('trg_ord'), L.v('mov_ord')
        x, y, j = xs(c, 'x'), xs(c, 'y'), z3.Int('j')
        done = lambda z: And(t.inT(R, z), Not(c.mem(m.e, m.n, z)), src < t.ord[z], t.ord[z] < last)
        return ShiftBeforeOrd.ground(L) + [
            ('positions', And(k >= 2, src <= last - 1, Or(src >= ref - 1, src == last - 1), -1 <= mov, mov <= k - 2, trg == src + (k - 1 - mov), trg <= last)),
            ('moved-before', Imp(mov >= 0, t.ord[m.e[mov]] <= src)),
            ('moved-after', t.ord[m.e[mov + 1]] > src),
            ('ghost', And(L.g['trg'] == trg, L.g['mov'] == mov)),
            ('list-rest', And(ShiftBeforeOrd._same(t, u, R), FA([j], Imp(Or(j < trg, j >= last), u.De[R][j] == t.De[R][j]), u.De[R][j]))),
            ('list-shifted', FA([j], Imp(And(trg <= j, j < last), And(done(u.De[R][j]), u.ord[u.De[R][j]] == j + 1)), u.De[R][j])),
            ('numbers', FA([x], If(done(x), And(trg < u.ord[x], u.ord[x] <= last, u.De[R][u.ord[x] - 1] == x), u.ord[x] == t.ord[x]), u.ord[x])),
            ('order', FA([x, y], Imp(And(done(x), done(y), t.ord[x] < t.ord[y]), u.ord[x] < u.ord[y]), [u.ord[x], u.ord[y]]))]

    @staticmethod
    def _left(L):
        """Loop 9 and its inner loop 10: words not moved and at first..src-1 are already shifted to first..trg-1."""
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        c, p, u = t.c, None, Tr(L.S)
        R, ref = t.root[L.a.self], L.a.reference_ord
        src, trg, mov = L.v('src_ord'), L.v('trg_ord'), L.v('mov_ord')
        x, y, j = xs(c, 'x'), xs(c, 'y'), z3.Int('j')
        done = lambda z: And(t.inT(R, z), Not(c.mem(m.e, m.n, z)), t.ord[z] < src, t.ord[z] > first)
        return ShiftBeforeOrd.ground(L) + [
            ('positions', And(k >= 2, src >= first + 1, Or(src <= ref, src == first + 1), 1 <= mov, mov <= k, trg == src - mov, trg >= first)),
            ('moved-before', t.ord[m.e[mov - 1]] < src),
            ('moved-after', Imp(mov < k, t.ord[m.e[mov]] >= src)),
            ('list-rest', And(ShiftBeforeOrd._same(t, u, R), FA([j], Imp(And(j < ref - 1, Or(j < first - 1, j >= trg - 1)), u.De[R][j] == t.De[R][j]), u.De[R][j]))),
            ('list-shifted', FA([j], Imp(And(first - 1 <= j, j < trg - 1), And(done(u.De[R][j]), u.ord[u.De[R][j]] == j + 1)), u.De[R][j])),
            ('numbers', FA([x], If(done(x), And(first <= u.ord[x], u.ord[x] < trg, u.De[R][u.ord[x] - 1] == x),
                                   Imp(Or(Not(t.inT(R, x)), t.ord[x] < ref, c.mem(m.e, m.n, x)), u.ord[x] == t.ord[x])), u.ord[x])),
            ('order', FA([x, y], Imp(And(done(x), done(y), t.ord[x] < t.ord[y]), u.ord[x] < u.ord[y]), [u.ord[x], u.ord[y]]))] + \
            ShiftBeforeOrd._keep(L)

    @staticmethod
    def _right_in(L):
        return ShiftBeforeOrd._right(L) + [('not-yet', And(L.v('src_ord') >= L.a.reference_ord, L.v('src_ord') <= L.pre('src_ord')))]

    @staticmethod
    def _left_in(L):
        return ShiftBeforeOrd._left(L) + [('not-yet', And(L.v('src_ord') < L.a.reference_ord, L.v('src_ord') >= L.pre('src_ord')))]

    @staticmethod
    def _facts5(L):
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        p = Tr(L.Sp)
        R = t.root[L.a.self]
        x, j = xs(t.c, 'x'), z3.Int('j')
        return ShiftBeforeOrd._facts(L) + [('right-part', And(FA([j], Imp(j >= last, p.De[R][j] == t.De[R][j]), p.De[R][j]),
                                                            FA([x], Imp(And(t.inT(R, x), t.ord[x] > last), p.ord[x] == t.ord[x]), p.ord[x])))]

    @staticmethod
    def _keep(L):
        """What loop 7 did with the words from ref on stays."""
        t, m, first, last, k = ShiftBeforeOrd.blk(L)
        c, u = t.c, Tr(L.S)
        R, ref = t.root[L.a.self], L.a.reference_ord
        x, y, j = xs(c, 'x'), xs(c, 'y'), z3.Int('j')
        up = lambda z: And(t.inT(R, z), Not(c.mem(m.e, m.n, z)), ref <= t.ord[z], t.ord[z] < last)
        trg7 = L.st.extra['g7']['trg']
        return [('after-numbers', FA([x], Imp(And(up(x)), And(trg7 < u.ord[x], u.ord[x] <= last, u.De[R][u.ord[x] - 1] == x)), u.ord[x])),
                ('after-shifted', FA([j], Imp(And(trg7 <= j, j < last), And(up(u.De[R][j]), u.ord[u.De[R][j]] == j + 1)), u.De[R][j])),
                ('after-rest', FA([x], Imp(And(t.inT(R, x), t.ord[x] > last, t.ord[x] >= ref), And(u.ord[x] == t.ord[x], u.De[R][u.ord[x] - 1] == x)), u.ord[x])),
                ('after-list', FA([j], Imp(And(j >= last, j >= ref - 1), u.De[R][j] == t.De[R][j]), u.De[R][j])),
                ('after-order', FA([x, y], Imp(And(up(x), up(y), t.ord[x] < t.ord[y]), u.ord[x] < u.ord[y]), [u.ord[x], u.ord[y]]))]

    loops = {0: Loop(inv=_inv0.__func__), 1: Loop(), 2: Loop(inv=_inv2.__func__), 3: Loop(),
             4: Loop(inv=_inv4.__func__, entry=_gapless.__func__, variant=lambda L: L.v('src_ord') + 1),
             5: Loop(inv=_inv5.__func__, variant=lambda L: L.a.reference_ord - L.v('src_ord') + Tr(L.S0).Dn[Tr(L.S0).root[L.a.self]]),
             6: Loop(inv=_place.__func__),
             7: Loop(inv=_right.__func__, ghost_init=_gh.__func__, ghost_step=_gh.__func__, entry=_gap.__func__, variant=lambda L: L.v('src_ord') + 1),
             8: Loop(inv=_right_in.__func__, ghost_init=_gh.__func__, ghost_step=_gh.__func__, variant=lambda L: L.v('src_ord') + 1),
             9: Loop(inv=_left.__func__, variant=lambda L: L.a.reference_ord - L.v('src_ord') + Tr(L.S0).Dn[Tr(L.S0).root[L.a.self]]),
             10: Loop(inv=_left_in.__func__, variant=lambda L: L.a.reference_ord - L.v('src_ord') + Tr(L.S0).Dn[Tr(L.S0).root[L.a.self]]),
             11: Loop(inv=_place.__func__)}


def typed_elems(S, key, obj, cls):
    """The declared type of the elements of a list attribute (typed heap: every store is checked against it)."""
    c = S.I.ctx
    c.trusted.add('typed heap: attributes hold values of their declared types (every store under contract is checked)')
    j = z3.Int('j')
    n, e = S.n(key)[obj], S.e(key)[obj]
    return [('define', And(n >= 0, FA([j], Imp(And(0 <= j, j < n), And(e[j] != c.null, c.typeof(e[j]) == c.clsid(cls))), e[j])))]


def no_change(t, u):
    return And(u.ord == t.ord, u.che == t.che, u.De == t.De)


class ShiftAfterNode(Contract):
    """The moved words come right after the reference word; both the moved and the other words keep their order."""
    qual = N + 'shift_after_node'
    params = {'self': NODE, 'reference_node': NR, 'without_children': Bool, 'skip_if_descendant': Bool}
    ret = NoneT
    modifies = SHIFT_MOD
    before = False

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inT(R, a.self)), ('reference-in-tree', t.inTR(R, a.reference_node))]

    def raises(self, S, a):
        t = Tr(S)
        r = [('ValueError', a.reference_node == t.root[a.self])] if self.before else []
        return r + [('ValueError', And(Not(a.without_children), t.anc(a.self, a.reference_node), Not(a.skip_if_descendant)))]

    def shift(self, t, u, a, ref):
        """Postcondition of a shift before the position ref."""
        x, y = xs(t.c, 'x', 'y')
        R, s = t.root[a.self], a.self
        T = lambda z: t.inT(R, z)
        sg = ShiftBeforeOrd.single(t, a)
        return FA([x, y], Imp(And(T(x), T(y)), (u.ord[x] < u.ord[y]) == key_less(t, s, sg, ref, x, y)), [u.ord[x], u.ord[y]])

    def position(self, t, u, a):
        ref = a.reference_node
        x, y = xs(t.c, 'x', 'y')
        R, s = t.root[a.self], a.self
        sg = ShiftBeforeOrd.single(t, a)
        T = lambda z: t.inT(R, z)
        mv = lambda z: moved(t, s, sg, z)
        if self.before:
            adj = FA([x, y], Imp(And(T(x), mv(x), T(y), Not(mv(y)), Not(mv(ref))), And(u.ord[x] < u.ord[ref], Or(y == ref, u.ord[y] < u.ord[x], u.ord[y] > u.ord[ref]))), [u.ord[x], u.ord[y]])
        else:
            adj = FA([x, y], Imp(And(T(x), mv(x), T(y), Not(mv(y)), Not(mv(ref))), And(u.ord[x] > u.ord[ref], Or(y == ref, u.ord[y] > u.ord[x], u.ord[y] < u.ord[ref]))), [u.ord[x], u.ord[y]])
        return [('moved-next-to-the-reference', adj),
                ('word-order', self.shift(t, u, a, t.ord[ref] if self.before else t.ord[ref] + 1))]

    def ensures(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        x = xs(t.c, 'x')
        R = t.root[a.self]
        skipped = And(Not(a.without_children), t.anc(a.self, a.reference_node))
        return [('skipped', Imp(skipped, no_change(t, u)))] + [(k, Imp(Not(skipped), f)) for k, f in self.position(t, u, a)] + \
            [('same-words', FA([x], t.inT(R, x) == u.inT(R, x), u.ord[x])),
             ('other-trees', FA([x], Imp(Not(t.inT(R, x)), u.ord[x] == t.ord[x]), u.ord[x])),
             ('children', FA([x], Imp(x != t.par[a.self], u.che[x] == t.che[x]), u.che[x])),
             ('word-lists', FA([x], Imp(x != R, u.De[x] == t.De[x]), u.De[x]))] + WF(S1, R)


class ShiftBeforeNode(ShiftAfterNode):
    qual = N + 'shift_before_node'
    before = True


class ShiftAfterSubtree(ShiftAfterNode):
    """The moved words come right after the last word of the reference subtree (self not counted)."""
    qual = N + 'shift_after_subtree'

    def insub(self, t, a, z):
        return Or(z == a.reference_node, And(z != a.self, t.inT(t.root[a.self], z), t.anc(a.reference_node, z)))

    def extreme(self, t, a, m):
        z = xs(t.c, 'z')
        e = t.ord[z] >= m if self.before else t.ord[z] <= m
        return And(FA([z], Imp(self.insub(t, a, z), e), t.anc(a.reference_node, z)),
                   (t.ord[a.reference_node] >= m if self.before else t.ord[a.reference_node] <= m),
                   Or(m == t.ord[a.reference_node], z3.Exists([z], And(self.insub(t, a, z), t.ord[z] == m))))

    def position(self, t, u, a):
        m = z3.Int('m')
        x, y = xs(t.c, 'x', 'y')
        R, s = t.root[a.self], a.self
        T = lambda z: t.inT(R, z)
        sg = ShiftBeforeOrd.single(t, a)
        return [('word-order', FA([m, x, y], Imp(And(self.extreme(t, a, m), T(x), T(y)),
                                                 (u.ord[x] < u.ord[y]) == key_less(t, s, sg, m if self.before else m + 1, x, y))))]

    def entry_hints(self, S, a):
        t = Tr(S)
        return cd_is_anc(t, t.root[a.self], a.reference_node)

    def hints(self, S0, S1, a, r):
        t = Tr(S0)
        v = a.st.env.get(self.I.localname('ref_ord'))
        if v is None:
            return []
        return [('assert', 'extreme', self.extreme(t, a, v.e)),
                ('assert', 'unique', FA([z3.Int('m')], Imp(self.extreme(t, a, z3.Int('m')), z3.Int('m') == v.e)))]

    def _inv(self):
        def inv(L):
            t = Tr(L.S0)
            c, a, d, v = t.c, L.a, None, L.v('ref_ord')
            z, j = xs(c, 'z'), z3.Int('j')
            cmp = (lambda p, q: p >= q) if self.before else (lambda p, q: p <= q)
            return [('range', L.i <= L.n),
                    ('bound', And(cmp(t.ord[a.reference_node], v),
                                  FA([j], Imp(And(0 <= j, j < L.i, L.item(j) != a.self), cmp(t.ord[L.item(j)], v)), t.ord[L.item(j)]))),
                    ('attained', Or(v == t.ord[a.reference_node], z3.Exists([z], And(self.insub(t, a, z), t.ord[z] == v))))]
        return inv

    @property
    def loops(self):
        return {0: Loop(inv=self._inv())}


class ShiftBeforeSubtree(ShiftAfterSubtree):
    qual = N + 'shift_before_subtree'
    before = True


class MoveEmptyOrd(Contract):
    """Assumed: the ords of empty nodes are modelled as an ordered type; the helpers do not raise (checked at run time)."""
    qual = 'udapi.core.node._move_empty_ord'
    params = {'empty_ord': Real, 'distance': Int}
    ret = Real
    trusted = True


class NextEmptyOrd(Contract):
    """Assumed: the ords of empty nodes are modelled as an ordered type; the helpers do not raise (checked at run time)."""
    qual = 'udapi.core.node._next_empty_ord'
    params = {'empty_ord': Real}
    ret = Real
    trusted = True


class Remove(Contract):
    qual = N + 'remove'
    params = {'self': NODE, 'children': Un('none', 'str')}
    ret = NoneT
    modifies = ('Node._ord', 'EmptyNode._ord', 'Node._parent', 'Node._children#n', 'Node._children#e', 'Root._descendants#n', 'Root._descendants#e')

    def requires(self, S, a):
        t = Tr(S)
        R = t.root[a.self]
        return WF(S, R) + [('self-in-tree', t.inT(R, a.self))]

    def rehang(self, t, a):
        V = t.c.Val
        c = t.c
        return And(V.is_vstr(a.children), c.uf('str_startswith', c.StrS, c.StrS, z3.BoolSort())(V.s(a.children), c.lit('rehang')))

    def gone(self, t, a, x):
        return Or(x == a.self, And(Not(self.rehang(t, a)), t.anc(a.self, x)))

    def ensures(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        s = a.self
        x, y = xs(t.c, 'x', 'y')
        R = t.root[s]
        T = lambda z: And(t.inT(R, z), Not(self.gone(t, a, z)))
        return [('remaining-words', FA([x], u.inT(R, x) == T(x), u.ord[x])),
                ('word-order', FA([x, y], Imp(And(T(x), T(y)), (u.ord[x] < u.ord[y]) == (t.ord[x] < t.ord[y])), [u.ord[x], u.ord[y]])),
                ('parents', FA([x], Imp(T(x), u.par[x] == If(t.par[x] == s, t.par[s], t.par[x])), u.par[x])),
                ('other-trees', FA([x], Imp(Not(t.inTR(R, x)), And(u.ord[x] == t.ord[x], u.par[x] == t.par[x], u.chn[x] == t.chn[x], u.che[x] == t.che[x])),
                                   u.ord[x], u.par[x], u.chn[x], u.che[x])),
                ('word-lists', FA([x], Imp(x != R, And(u.Dn[x] == t.Dn[x], u.De[x] == t.De[x])), u.De[x], u.Dn[x]))] + WF(S1, R)

    def entry_hints(self, S, a):
        t = Tr(S)
        c, s = t.c, a.self
        x = xs(c, 'x')
        R, p = t.root[s], t.par[s]
        return [('assert', 'parent', And(t.inTR(R, p), t.inch(p, s), p != s)),
                ('induct', 'a descendant is deeper', x, t.dep[x], Imp(And(t.inT(R, x), t.par[x] != t.null, t.anc(s, x)), t.dep[x] > t.dep[s]), [t.anc(s, x)])] + childless_lemma(S, s) + \
            typed_elems(S, 'Root.empty_nodes', R, 'EmptyNode')

    def hints(self, S0, S1, a, r):
        t, u = Tr(S0), Tr(S1)
        c, s = t.c, a.self
        x, y, j, k = xs(c, 'x'), xs(c, 'y'), z3.Int('j'), z3.Int('k')
        R, p, n, my = t.root[s], t.par[s], t.Dn[t.root[s]], t.ord[s]
        T = lambda z: And(t.inT(R, z), Not(self.gone(t, a, z)))
        single = Or(self.rehang(t, a), t.chn[s] == 0)
        rh = And(self.rehang(t, a), t.chn[s] > 0)
        out = []
        order = FA([x, y], Imp(And(T(x), T(y)), (u.ord[x] < u.ord[y]) == (t.ord[x] < t.ord[y])), [u.ord[x], u.ord[y]])
        if self.is_single(a):
            out += [('assert', 'single', single),
                    ('assert', 'gone', FA([x], Imp(t.inT(R, x), And(t.par[x] != t.null, self.gone(t, a, x) == (x == s))), t.anc(s, x))),
                    ('assert', 'list', And(u.Dn[R] == n - 1, FA([j], Imp(And(0 <= j, j < n - 1), u.De[R][j] == If(j < my - 1, t.De[R][j], t.De[R][j + 1])), u.De[R][j]))),
                    ('assert', 'numbers', FA([x], u.ord[x] == If(And(t.inT(R, x), t.ord[x] > my), t.ord[x] - 1, t.ord[x]), u.ord[x]))]
            if a.st.extra.get('sorts'):      # rehang
                arr, arr2, n_, pi, pii = a.st.extra['sorts'][-1]
                out += [('assert', 'rehang', rh),
                        ('assert', 'before sorting', FA([x], c.mem(arr, n_, x) == Or(And(t.inch(p, x), x != s), t.inch(s, x)), c.mem(arr, n_, x), t.inch(p, x), t.inch(s, x))),
                        ('assert', 'distinct', distinct_list(n_, arr)), ('assert', 'distinct after sorting', distinct_list(n_, arr2)),
                        ('assert', 'in the list', FA([j], Imp(And(0 <= j, j < u.chn[p]), u.inch(p, u.che[p][j])), u.che[p][j])),
                        ('assert', 'children in the tree', FA([x], And(Imp(t.inch(p, x), And(t.inT(R, x), t.par[x] == p)), Imp(t.inch(s, x), And(t.inT(R, x), t.par[x] == s))), t.inch(p, x), t.inch(s, x)))]
        else:
            out += [('assert', 'subtree', Not(single)),
                    ('assert', 'children', FA([x], u.inch(p, x) == And(t.inch(p, x), x != s), u.inch(p, x), t.inch(p, x))),
                    ('induct', 'rest', x, t.dep[x], Imp(t.inT(R, x), cd(u, R, x) == Not(self.gone(t, a, x))), [cd(u, R, x), t.anc(s, x)])]
            loc = [('inverse', FA([x], Imp(T(x), And(1 <= u.ord[x], u.ord[x] <= u.Dn[R], u.De[R][u.ord[x] - 1] == x)), u.ord[x], t.ord[x])),
                   ('sorted', sorted_list(t.ord, u.Dn[R], u.De[R]))]
            out += [('cut', loc), ('assert', 'order', order), ('restore',), ('assert', 'order', order)]
        keep = [('words', FA([x], u.inT(R, x) == T(x), u.ord[x], t.ord[x])),
                ('numbered', And(u.Dn[R] >= 0, FA([j], Imp(And(0 <= j, j < u.Dn[R]), And(T(u.De[R][j]), u.ord[u.De[R][j]] == j + 1)), u.De[R][j]))),
                ('order', order),
                ('others', FA([x], Imp(Not(t.inT(R, x)), u.ord[x] == t.ord[x]), u.ord[x]))]
        ch = [('parent-list', FA([x], u.inch(p, x) == Or(And(t.inch(p, x), x != s), And(rh, t.inch(s, x))), u.inch(p, x), t.inch(p, x))),
              ('parent-list-elements', FA([j], Imp(And(0 <= j, j < u.chn[p]), Or(And(t.inT(R, u.che[p][j]), t.par[u.che[p][j]] == p, u.che[p][j] != s),
                                                                               And(rh, t.inT(R, u.che[p][j]), t.par[u.che[p][j]] == s))), u.che[p][j])),
              ('parent-list-sorted', sorted_list(t.ord, u.chn[p], u.che[p])),
              ('own-list', If(rh, u.chn[s] == 0, And(u.chn[s] == t.chn[s], u.che[s] == t.che[s]))),
              ('other-lists', FA([x], Imp(And(x != p, x != s), And(u.chn[x] == t.chn[x], u.che[x] == t.che[x])), u.che[x], u.chn[x])),
              ('parents', FA([x], u.par[x] == If(And(rh, t.inT(R, x), t.par[x] == s), p, t.par[x]), u.par[x]))]
        goneup = [('gone-children', FA([x], Imp(And(t.inT(R, x), t.par[x] != s), self.gone(t, a, x) == Or(x == s, self.gone(t, a, t.par[x]))), t.par[x]))]
        out += [('assert',) + f for f in keep + ch + goneup]
        out += [('cut', keep + ch + goneup + WF(S0, R))]
        return out

    def is_single(self, a):
        return self.I.localname('empty_follows') not in a.st.env

    @staticmethod
    def _unlinked(L):
        t, u = Tr(L.S0), Tr(L.S)
        s = L.a.self
        x, j = xs(t.c, 'x'), z3.Int('j')
        p = t.par[s]
        return [('assert', 'children', FA([x], u.inch(p, x) == And(t.inch(p, x), x != s), u.inch(p, x), t.inch(p, x))),
                ('assert', 'distinct rest', distinct_list(u.chn[p], u.che[p])), ('assert', 'distinct own', distinct_list(t.chn[s], t.che[s])),
                ('assert', 'rest', FA([j], Imp(And(0 <= j, j < u.chn[p]), And(t.inT(t.root[s], u.che[p][j]), t.par[u.che[p][j]] == p)), u.che[p][j])),
                ('assert', 'own', FA([j], Imp(And(0 <= j, j < t.chn[s]), And(t.inT(t.root[s], t.che[s][j]), t.par[t.che[s][j]] == s)), t.che[s][j]))]

    @staticmethod
    def _all_known(L):
        t = Tr(L.S)
        arr, arr2, n, pi, pii = L.st.extra['sorts'][-1]
        R = t.root[L.a.self]
        en, ee = L.S.n('Root.empty_nodes')[R], L.S.e('Root.empty_nodes')[R]
        f = L.v('empty_follows')
        j = z3.Int('j')
        if f.has is None:
            return []
        return [('assert', 'sorted', FA([j], Imp(And(0 <= j, j < en), And(arr[t.Dn[R] + j] == ee[j], arr2[pii(t.Dn[R] + j)] == ee[j])), ee[j])),
                ('assert', 'all known', FA([j], Imp(And(0 <= j, j < en), f.has[ee[j]]), ee[j]))]

    @staticmethod
    def _rehung(L):
        t, u = Tr(L.S0), Tr(L.S)
        s = L.a.self
        x = xs(t.c, 'x')
        return [('range', L.i <= t.chn[s]),
                ('parents', FA([x], u.par[x] == If(t.c.mem(t.che[s], L.i, x), t.par[s], t.par[x]), u.par[x]))]

    @staticmethod
    def _ren1(L):
        t, u = Tr(L.S0), Tr(L.S)
        R, my = t.root[L.a.self], t.ord[L.a.self]
        x = xs(t.c, 'x')
        return [('range', L.i <= t.Dn[R] - my),
                ('numbers', FA([x], u.ord[x] == If(And(t.inT(R, x), my < t.ord[x], t.ord[x] <= my + L.i), t.ord[x] - 1, t.ord[x]), u.ord[x]))]

    @staticmethod
    def _foll(L):
        f = L.v('empty_follows')
        c = L.S.I.ctx
        j = z3.Int('j')
        rng = [('range', And(0 <= L.i, L.i <= L.n))]
        if f.has is None:      # the literal {} (before the first iteration)
            return rng + [('known', L.i == 0)]
        return rng + [('known', FA([j], Imp(And(0 <= j, j < L.i, c.typeof(L.item(j)) == c.clsid('EmptyNode')), f.has[L.item(j)]), L.item(j)))]

    @staticmethod
    def _ren2(L):
        t, p, u = Tr(L.S0), Tr(L.Sp), Tr(L.S)
        R = t.root[L.a.self]
        D, n = p.De[R], p.Dn[R]
        x, j = xs(t.c, 'x'), z3.Int('j')
        return [('range', L.i <= n),
                ('renumbered', FA([j], Imp(And(0 <= j, j < L.i), u.ord[D[j]] == j + 1), D[j])),
                ('others', FA([x], Imp(Not(t.c.mem(D, L.i, x)), u.ord[x] == t.ord[x]), u.ord[x]))]

    EF = DictT(RefT('EmptyNode'), NR)
    loops = {0: Loop(inv=_rehung.__func__, entry=_unlinked.__func__), 1: Loop(inv=_ren1.__func__), 2: Loop(types={'last_ord': Real}),
             3: Loop(inv=_foll.__func__, exit_hints=_all_known.__func__, types={'prev_nonempty': NR, 'empty_follows': EF}), 4: Loop(inv=_ren2.__func__), 5: Loop(types={'last_ord': Real})}


ALL = [MoveEmptyOrd, NextEmptyOrd, Remove, ShiftBeforeOrd, ShiftAfterNode, ShiftBeforeNode, ShiftAfterSubtree, ShiftBeforeSubtree]
