"""Contracts of multi-word tokens and the surface text (C09)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *
from . import mapping as mp
from .tree import distinct_list, sorted_list, cd, below
from .tree import And, Or, Imp, Not, If, Tr, WF, xs, N

RT = 'udapi.core.root.Root.'
MW_ = RefT('MWT')
ROOT = RefT('Root')


def extend_schema(sc):
    # the positions a token spans (a specification-only function of the token; contracts hold for any choice)
    sc.ghosts['@lo'] = lambda c: z3.ArraySort(c.Ref, z3.IntSort())
    sc.ghosts['@hi'] = lambda c: z3.ArraySort(c.Ref, z3.IntSort())


class Mw(Tr):
    def __init__(self, S):
        super().__init__(S)
        self.mwt = S('Node._mwt')
        self.Mn, self.Me = S.n('Root._mwts'), S.e('Root._mwts')
        self.wn, self.we, self.mroot = S.n('MWT.words'), S.e('MWT.words'), S('MWT.root')
        self.lo, self.hi = S('@lo'), S('@hi')

    def inM(self, R, m):
        return self.c.mem(self.Me[R], self.Mn[R], m)

    def inW(self, m, x):
        return self.c.mem(self.we[m], self.wn[m], x)


def TREE(S, R):
    """The part of well-formedness needed here: words are numbered by position."""
    return WF(S, R, parts=('numbering', 'root'))


def TOKENS(S, R):
    """Tokens of a tree and their members refer to each other; a word is in at most one token."""
    t = Mw(S)
    c = t.c
    x, m = xs(c, 'x', 'm')
    j, k = z3.Ints('j k')
    M, n = t.Me[R], t.Mn[R]
    w = t.we[M[j]][k]
    return [('tokens', And(n >= 0, FA([j], Imp(And(0 <= j, j < n), And(M[j] != c.null, c.typeof(M[j]) == c.clsid('MWT'), t.alloc[M[j]],
                                                                     t.mroot[M[j]] == R, t.wn[M[j]] >= 0)), M[j]))),
            ('tokens-distinct', FA([j, k], Imp(And(0 <= j, j < k, k < n), M[j] != M[k]), [M[j], M[k]])),
            ('members-belong-to-it', FA([m, k], Imp(And(t.inM(R, m), 0 <= k, k < t.wn[m]), And(
                t.inT(R, t.we[m][k]), t.mwt[t.we[m][k]] == m)), [t.inM(R, m), t.we[m][k]])),
            ('members-distinct', FA([m, j, k], Imp(And(t.inM(R, m), 0 <= j, j < k, k < t.wn[m]), t.we[m][j] != t.we[m][k]), [t.inM(R, m), t.we[m][j], t.we[m][k]])),
            ('token-of-a-word-has-it', FA([x], Imp(And(t.inT(R, x), t.mwt[x] != c.null), And(t.inM(R, t.mwt[x]), t.inW(t.mwt[x], x))), t.mwt[x]))]


def CONSEC(S, R):
    """Every token is over consecutive words (from @lo to @hi)."""
    t = Mw(S)
    c = t.c
    x, m = xs(c, 'x', 'm')
    return [('consecutive', FA([m, x], Imp(And(t.inM(R, m), t.inT(R, x)), (t.mwt[x] == m) == And(t.lo[m] <= t.ord[x], t.ord[x] <= t.hi[m])),
                               [t.inM(R, m), t.mwt[x]])),
            ('not-empty', FA([m], Imp(t.inM(R, m), And(1 <= t.lo[m], t.lo[m] <= t.hi[m], t.hi[m] <= t.Dn[R])), t.inM(R, m)))]


def kept_in_order(c, n0, e0, n1, e1):
    """The elements of the second (duplicate-free) list come in the order of the first."""
    j, k = z3.Ints('j k')
    return FA([j, k], Imp(And(0 <= j, j < k, k < n1), c.idx(e0, n0, e1[j]) < c.idx(e0, n0, e1[k])), [e1[j], e1[k]])


class MwtRemove(Contract):
    qual = 'udapi.core.mwt.MWT.remove'
    params = {'self': MW_}
    ret = NoneT
    modifies = ('Node._mwt', 'Root._mwts#n', 'Root._mwts#e')

    def requires(self, S, a):
        t = Mw(S)
        R = t.mroot[a.self]
        return TREE(S, R) + TOKENS(S, R) + [('token-of-the-tree', t.inM(R, a.self))]

    def ensures(self, S0, S1, a, r):
        t, u = Mw(S0), Mw(S1)
        c = t.c
        R = t.mroot[a.self]
        x, m = xs(c, 'x', 'm')
        return [('members-released', FA([x], u.mwt[x] == If(t.inW(a.self, x), c.null, t.mwt[x]), u.mwt[x])),
                ('token-removed', And(u.Mn[R] == t.Mn[R] - 1, FA([m], u.inM(R, m) == And(t.inM(R, m), m != a.self), u.inM(R, m), t.inM(R, m)))),
                ('order-of-tokens-kept', kept_in_order(c, t.Mn[R], t.Me[R], u.Mn[R], u.Me[R])),
                ('other-trees', FA([x], Imp(x != R, And(u.Mn[x] == t.Mn[x], u.Me[x] == t.Me[x])), u.Mn[x], u.Me[x]))] + \
            [('consistent-' + k, f) for k, f in TOKENS(S1, R)]

    @staticmethod
    def _inv(L):
        t, u = Mw(L.S0), Mw(L.S)
        c = t.c
        m = L.a.self
        x, j = xs(c, 'x'), z3.Int('j')
        return [('released-so-far', FA([x], u.mwt[x] == If(c.mem(t.we[m], L.i, x), c.null, t.mwt[x]), u.mwt[x]))]
    loops = {0: Loop(inv=_inv.__func__)}


class TokenDescendants(Contract):
    qual = RT + 'token_descendants'
    params = {'self': ROOT}
    ret = ListT(RefT('Node', 'MWT'))

    def requires(self, S, a):
        t = Mw(S)
        return TREE(S, a.self) + TOKENS(S, a.self) + CONSEC(S, a.self) + [('self', t.root[a.self] == a.self)]

    @staticmethod
    def start(t, y):
        return If(t.c.typeof(y) == t.c.clsid('MWT'), t.lo[y], t.ord[y])

    @staticmethod
    def clauses(t, R, n, e, upto):
        """e[0..n) lists the tokens starting at one of the first `upto` words, in order."""
        c = t.c
        j, k, i = z3.Ints('j k i')
        D = t.De[R]
        st = lambda y: TokenDescendants.start(t, y)
        item = lambda i: If(t.mwt[D[i]] == c.null, D[i], t.mwt[D[i]])
        first = lambda i: Or(t.mwt[D[i]] == c.null, t.lo[t.mwt[D[i]]] == i + 1)
        return [('only-tokens', FA([j], Imp(And(0 <= j, j < n), And(1 <= st(e[j]), st(e[j]) <= upto, first(st(e[j]) - 1), e[j] == item(st(e[j]) - 1))), e[j])),
                ('every-token', FA([i], Imp(And(0 <= i, i < upto, first(i)), c.mem(e, n, item(i))), D[i])),
                ('in-word-order-without-repetition', FA([j, k], Imp(And(0 <= j, j < k, k < n), st(e[j]) < st(e[k])), [e[j], e[k]]))]

    def ensures(self, S0, S1, a, r):
        t = Mw(S0)
        return self.clauses(t, a.self, r.n, r.e, t.Dn[a.self])

    @staticmethod
    def _inv(L):
        t = Mw(L.S)
        c = t.c
        R = L.a.self
        D = t.De[R]
        l, last = L.v('result'), L.v('last_mwt_id')
        i = z3.Int('i')
        p = L.g['p']
        seen = [('last-end', If(p < 0, last == 0, And(p < L.i, t.mwt[D[p]] != c.null, last == t.hi[t.mwt[D[p]]]))),
                ('ends-seen', FA([i], Imp(And(0 <= i, i < L.i, t.mwt[D[i]] != c.null), t.hi[t.mwt[D[i]]] <= last), D[i]))]
        if l.e is None:
            return [('nothing', And(l.n == 0, L.i == 0, p < 0, last == 0))]
        return seen + TokenDescendants.clauses(t, R, l.n, l.e, L.i)

    @staticmethod
    def _step(L0, L1):
        return {'p': If(L1.v('last_mwt_id') != L0.v('last_mwt_id'), L0.i, L0.g['p'])}

    @staticmethod
    def _hints(L0, L1):
        t = Mw(L0.S)
        D, k = t.De[L0.a.self], z3.Int('k')
        m = t.mwt[D[L0.i]]
        w = D[t.hi[m] - 1]
        return [('assert', 'last member', Imp(m != t.null, And(t.mwt[w] == m, t.inW(m, w), t.ord[w] == t.hi[m]))),
                ('assert', 'members up to it', FA([k], Imp(And(m != t.null, 0 <= k, k < t.wn[m]), t.ord[t.we[m][k]] <= t.hi[m]), t.we[m][k]))]
    loops = {0: Loop(inv=_inv.__func__, hints=_hints.__func__, ghost_init=lambda L: {'p': z3.IntVal(-1)}, ghost_step=_step.__func__, types={'result': ListT(RefT('Node', 'MWT'))})}


class ComputeText(Contract):
    """The text is assembled word by word: T[i] is the text after the first i words of the subtree."""
    qual = N + 'compute_text'
    params = {'self': RefT('Node', 'Root'), 'use_mwt': Bool}
    ret = Str
    modifies = mp.MAPMOD
    abstract_maps = True

    def requires(self, S, a):
        t = Mw(S)
        c = t.c
        R = t.root[a.self]
        x, m = xs(c, 'x', 'm')
        f, g = S('Node.form'), S('MWT.form')
        return WF(S, R) + TOKENS(S, R) + CONSEC(S, R) + mp.MAPOK(S) + [
            ('self-in-tree', t.inTR(R, a.self)),
            ('word-forms', FA([x], Imp(t.inT(R, x), c.Val.is_vstr(f[x])), f[x])),
            ('token-forms', FA([m], Imp(t.inM(R, m), c.Val.is_vstr(g[m])), g[m]))]

    @staticmethod
    def tok(t, a, x):
        return And(a.use_mwt, t.mwt[x] != t.null)

    @staticmethod
    def piece(S, t, a, prev, x, first):
        """The text contributed by word x when prev is the word before it in the subtree."""
        c = t.c
        cat = lambda y, z: S.I.strcat(None, VStr(y), VStr(z)).e
        f, g = S('Node.form'), S('MWT.form')
        m = t.mwt[x]
        no = c.Val.vstr(c.lit('No'))
        sp = lambda k, z: If(mp.attr_value(S, k, z, 'SpaceAfter') == no, c.lit(''), c.lit(' '))
        return If(ComputeText.tok(t, a, x),
                  If(Or(first, t.mwt[prev] != m), cat(c.Val.s(g[m]), sp('MWT._misc', m)), c.lit('')),
                  cat(c.Val.s(f[x]), sp('Node._misc', x)))

    @staticmethod
    def named(c):
        """(inside the proof) a name for the pieces."""
        return c.uf('text_piece', c.Ref, c.Ref, z3.BoolSort(), c.StrS)

    @staticmethod
    def text(S, t, a, T, W, e, n, named=False):
        i = z3.Int('i')
        c = t.c
        p = ComputeText.named(c)(e(i - 1), e(i), i == 0) if named else ComputeText.piece(S, t, a, e(i - 1), e(i), i == 0)
        return [('text-starts-empty', T[0] == c.lit('')),
                ('pieces', FA([i], Imp(And(0 <= i, i < n), W[i] == p), W[i])),
                ('appended-in-order', FA([i], Imp(And(0 <= i, i < n), T[i + 1] == S.I.strcat(None, VStr(T[i]), VStr(W[i])).e), W[i]))]

    def ensures(self, S0, S1, a, r):
        t = Mw(S0)
        c = t.c
        R = t.root[a.self]
        i, x = z3.Int('i'), xs(c, 'x')
        L = a.st.extra.get('L0') if hasattr(a, 'rv') else None
        if L is None:
            n, e = c.fresh('text_n', z3.IntSort()), c.fresh('text_words', t.De.range())
            T, W = [c.fresh(k, z3.ArraySort(z3.IntSort(), c.StrS)) for k in ('text_so_far', 'text_piece')]
        else:
            n, e, T, W = L.n, self.items(L), L.g['T'], L.g['W']
        strip = c.uf('str_rstrip_0', c.StrS, c.StrS)
        return [('words-of-the-subtree', FA([x], c.mem(e, n, x) == And(t.inT(R, x), Or(x == a.self, a.self == R, cd(t, a.self, x))), c.mem(e, n, x))),
                ('in-word-order', sorted_list(t.ord, n, e))] + self.text(S0, t, a, T, W, lambda i: e[i], n) + \
            [('text', r == strip(T[n]))] + [('mappings-' + k, f) for k, f in mp.MAPOK(S1)] + self.same(S0, S1)

    def hints(self, S0, S1, a, r):
        L = a.st.extra['L0']
        t = Mw(S0)
        c = t.c
        j = z3.Int('j')
        inv = dict(self._inv(L))
        e = self.items(L)
        return [('assert', 'items are members', FA([j], Imp(And(0 <= j, j < L.n), c.mem(e, L.n, e[j])), e[j])),
                ('by', 'all done', self.text(S0, t, a, L.g['T'], L.g['W'], lambda i: e[i], L.n)[2][1], [inv['appended-in-order']])]

    @staticmethod
    def items(L):
        i = z3.Int('i')
        return L.item(i).arg(0) if z3.is_select(L.item(i)) else z3.Lambda([i], L.item(i))

    @staticmethod
    def same(S0, S1):
        """The text-relevant attributes are unchanged."""
        c = S0.I.ctx
        x = xs(c, 'x')
        return [('only-mappings-created', FA([x], Imp(mp.newowner(S0, x), S1('@alloc')[x] == S0('@alloc')[x]), S1('@alloc')[x]))] + \
            [('spacing-kept-' + k, FA([x], Imp(mp.isowner(S0, k, x), mp.attr_value(S1, k, x, 'SpaceAfter') == mp.attr_value(S0, k, x, 'SpaceAfter')),
                                      S0(k)[x], S1(k)[x])) for k in ('Node._misc', 'MWT._misc')]

    @staticmethod
    def _inv(L):
        t = Mw(L.S0)
        a = L.a
        i = z3.Int('i')
        T = L.g['T']
        last, p = L.v('last_mwt_id'), L.g['p']
        mw = lambda i: ComputeText.tok(t, a, L.item(i))
        return [('text-so-far', L.v('string') == T[L.i])] + ComputeText.text(L.S0, t, a, T, L.g['W'], L.item, L.i, True) + [
            ('last-end', If(p < 0, last == 0, And(p < L.i, mw(p), last == t.hi[t.mwt[L.item(p)]]))),
            ('ends-seen', FA([i], Imp(And(0 <= i, i < L.i, mw(i)), t.hi[t.mwt[L.item(i)]] <= last), L.item(i)))] + \
            mp.MAPOK(L.S) + ComputeText.same(L.S0, L.S)

    @staticmethod
    def _step(L0, L1):
        P = ComputeText.named(L0.I.ctx)(L0.item(L0.i - 1), L0.item(L0.i), L0.i == 0)
        return {'p': If(L1.v('last_mwt_id') != L0.v('last_mwt_id'), L0.i, L0.g['p']), 'T': z3.Store(L0.g['T'], L0.i + 1, L1.v('string')),
                'W': z3.Store(L0.g['W'], L0.i, P)}

    @staticmethod
    def _init(L):
        c = L.I.ctx
        return {'p': z3.IntVal(-1), 'T': z3.K(z3.IntSort(), c.lit('')), 'W': z3.K(z3.IntSort(), c.lit(''))}

    @staticmethod
    def _hints(L0, L1):
        t = Mw(L0.S0)
        c = t.c
        a = L0.a
        R = t.root[L0.a.self]
        k = z3.Int('k')
        x, y = L0.item(L0.i), L0.item(L0.i - 1)
        P = ComputeText.named(c)(y, x, L0.i == 0)
        m, p = t.mwt[x], L0.g['p']
        z = L0.item(p)
        mz = t.mwt[z]
        inv0, inv1 = dict(ComputeText._inv(L0)), dict(ComputeText._inv(L1))
        sp = [f for _, _, f in ComputeText.spans(t, R)]
        is_ = lambda u: t.mwt[u] != t.null
        span = lambda u: And(t.inM(R, t.mwt[u]), t.lo[t.mwt[u]] <= t.ord[u], t.ord[u] <= t.hi[t.mwt[u]], t.inW(t.mwt[u], t.De[R][t.hi[t.mwt[u]] - 1]),
                             t.ord[t.De[R][t.hi[t.mwt[u]] - 1]] == t.hi[t.mwt[u]])
        last0, last1 = L0.v('last_mwt_id'), L1.v('last_mwt_id')
        new = And(ComputeText.tok(t, a, x), Or(L0.i == 0, t.mwt[y] != m))
        out = [('assert', 'word', And(t.inT(R, x), t.alloc[x], c.typeof(x) == c.clsid('Node'), Imp(L0.i > 0, And(t.inT(R, y), t.ord[y] < t.ord[x])), Imp(p >= 0, t.inT(R, z)))),
               ('by', 'its token', Imp(is_(x), span(x)), sp),
               ('assert', 'kind of its token', Imp(is_(x), And(t.alloc[m], c.typeof(m) == c.clsid('MWT')))),
               ('by', 'previous token', Imp(And(L0.i > 0, is_(y)), span(y)), sp),
               ('by', 'last token', Imp(p >= 0, span(z)), sp),
               ('by', 'members up to the end', FA([k], Imp(And(is_(x), 0 <= k, k < t.wn[m]), t.ord[t.we[m][k]] <= t.hi[m]), t.we[m][k]), sp),
               ('assert', 'words of a token are contiguous', Imp(And(ComputeText.tok(t, a, x), p >= 0, p < L0.i), Imp(And(mz == m, L0.i > 0), t.mwt[y] == m))),
               ('assert', 'token seen', Imp(And(ComputeText.tok(t, a, x), L0.i > 0), And(Imp(t.mwt[y] == m, t.hi[m] <= last0),
                                                                                     Imp(t.ord[x] <= last0, mz == m)))),
               ('by', 'new token', And(Imp(ComputeText.tok(t, a, x), (t.ord[x] > last0) == new)), [inv0['ends-seen']]),
               ('by', 'end of the token', last1 == If(new, t.hi[m], last0), []),
               ('by', 'spacing', And(mp.attr_value(L0.S, 'Node._misc', x, 'SpaceAfter') == mp.attr_value(L0.S0, 'Node._misc', x, 'SpaceAfter'),
                                     Imp(is_(x), mp.attr_value(L0.S, 'MWT._misc', m, 'SpaceAfter') == mp.attr_value(L0.S0, 'MWT._misc', m, 'SpaceAfter'))),
                [f for l, f in ComputeText._inv(L0) if l.startswith('spacing')]),
               ('by', 'name', P == ComputeText.piece(L0.S0, t, a, y, x, L0.i == 0), [ComputeText.namedef(L0.S0, t, a)]),
               ('by', 'piece', L1.v('string') == L0.I.strcat(None, VStr(L0.v('string')), VStr(P)).e, [])]
        return out + [('by', l, inv1[l], [inv0[l]]) for l in ('pieces', 'appended-in-order', 'last-end', 'ends-seen')]

    @staticmethod
    def spans(t, R):
        c = t.c
        x, k = xs(c, 'x'), z3.Int('k')
        m = t.mwt[x]
        w = t.De[R][t.hi[m] - 1]
        has = And(t.inT(R, x), m != t.null)
        return [('assert', 'token', FA([x], Imp(has, And(t.inM(R, m), t.inW(m, x), 1 <= t.lo[m], t.lo[m] <= t.ord[x], t.ord[x] <= t.hi[m], t.hi[m] <= t.Dn[R])), m)),
                ('assert', 'last position', FA([x], Imp(has, And(t.ord[w] == t.hi[m], t.inT(R, w))), m)),
                ('assert', 'last one', FA([x], Imp(has, t.mwt[w] == m), m)),
                ('assert', 'last member', FA([x], Imp(has, t.inW(m, w)), m)),
                ('assert', 'members up to it', FA([x, k], Imp(And(has, 0 <= k, k < t.wn[m]), And(t.inT(R, t.we[m][k]), t.ord[t.we[m][k]] <= t.hi[m])), [m, t.we[m][k]]))]

    def entry_hints(self, S, a):
        t = Mw(S)
        return below(t, t.root[a.self], a.self) + self.spans(t, t.root[a.self]) + [('define', self.namedef(S, t, a))]

    @staticmethod
    def namedef(S, t, a):
        x, y, b = *xs(t.c, 'x', 'y'), z3.Bool('b')
        f = ComputeText.named(t.c)
        return FA([y, x, b], f(y, x, b) == ComputeText.piece(S, t, a, y, x, b), f(y, x, b))

    @staticmethod
    def _entry(L):
        t = Mw(L.S)
        c = t.c
        R = t.root[L.a.self]
        j, k = z3.Ints('j k')
        e = ComputeText.items(L)
        return [('assert', 'items are members', FA([j], Imp(And(0 <= j, j < L.n), c.mem(e, L.n, L.item(j))), L.item(j))),
                ('assert', 'not its own descendant', Not(cd(t, L.a.self, L.a.self))),
                ('assert', 'only words', FA([j], Imp(And(0 <= j, j < L.n), t.inT(R, L.item(j))), L.item(j))),
                ('assert', 'words in order', FA([j, k], Imp(And(0 <= j, j < k, k < L.n), t.ord[L.item(j)] < t.ord[L.item(k)]), [L.item(j), L.item(k)]))]
    loops = {0: Loop(inv=_inv.__func__, hints=_hints.__func__, ghost_init=_init.__func__, ghost_step=_step.__func__, entry=_entry.__func__)}


SPACE = 'SpaceAfter'


class CreateMwt(Contract):
    """Creating a token over words of the tree removes the tokens these words were in; the spacing moves to the token."""
    qual = RT + 'create_multiword_token'
    params = {'self': ROOT, 'words': ListT(RefT('Node')), 'form': Un('none', 'str'), 'misc': Un('none', 'str')}
    ret = MW_
    modifies = mp.MAPMOD + ('Node._mwt', 'Root._mwts#n', 'Root._mwts#e', 'MWT.words#n', 'MWT.words#e', 'MWT.form', 'MWT.root')
    abstract_maps = True

    def requires(self, S, a):
        t = Mw(S)
        R, W = a.self, a.words
        j, k = z3.Ints('j k')
        return TREE(S, R) + TOKENS(S, R) + mp.MAPOK(S) + [
            ('self', t.root[R] == R),
            ('some-words', W.n >= 1),
            ('words-of-the-tree', FA([j], Imp(And(0 <= j, j < W.n), t.inT(R, W.e[j])), W.e[j])),
            ('words-distinct', distinct_list(W.n, W.e))]

    @staticmethod
    def inW(t, a, x):
        return t.c.mem(a.words.e, a.words.n, x)

    def ensures(self, S0, S1, a, r):
        t, u = Mw(S0), Mw(S1)
        c, V = t.c, t.c.Val
        R, W = a.self, a.words
        x, m, j, k = *xs(c, 'x', 'm'), z3.Int('j'), z3.Const('k', c.StrS)
        L = a.st.extra.get('L0') if hasattr(a, 'rv') else None
        w = L.g['w'] if L is not None else c.fresh('removed_for', z3.ArraySort(c.Ref, c.Ref))
        last = u.we[r][u.wn[r] - 1]
        val = lambda S, f, y, key: mp.attr_value(S, f, y, key)
        no, empty = V.vstr(c.lit('No')), V.vstr(c.lit(''))
        was = val(S0, 'Node._misc', last, SPACE)
        out = [('new-object', And(Not(t.alloc[r]), u.mroot[r] == R, S1('MWT.form')[r] == a.form)),
               ('over-the-words', And(u.wn[r] == W.n, FA([x], c.mem(u.we[r], u.wn[r], x) == self.inW(t, a, x), c.mem(u.we[r], u.wn[r], x), self.inW(t, a, x)))),
               ('words-in-order', sorted_list(t.ord, u.wn[r], u.we[r])),
               ('words-know-it', FA([x], u.mwt[x] == If(self.inW(t, a, x), r, If(And(t.inT(R, x), Not(u.inM(R, t.mwt[x]))), c.null, t.mwt[x])), u.mwt[x])),
               ('only-disjoint-tokens-stay', And(u.inM(R, r), FA([m], Imp(And(u.inM(R, m), m != r), And(t.inM(R, m), FA([j], Imp(And(0 <= j, j < W.n), t.mwt[W.e[j]] != m), W.e[j]))), u.inM(R, m)))),
               ('overlapping-tokens-removed', FA([m], Imp(And(t.inM(R, m), Not(u.inM(R, m))), And(self.inW(t, a, w[m]), t.mwt[w[m]] == m)), u.inM(R, m), t.inM(R, m))),
               ('added-last', And(u.Mn[R] >= 1, u.Me[R][u.Mn[R] - 1] == r)),
               ('order-of-tokens-kept', kept_in_order(c, t.Mn[R], t.Me[R], u.Mn[R] - 1, u.Me[R])),
               ('other-trees', FA([x], Imp(x != R, And(u.Mn[x] == t.Mn[x], u.Me[x] == t.Me[x])), u.Mn[x], u.Me[x])),
               ('other-tokens', FA([m], Imp(m != r, And(u.wn[m] == t.wn[m], u.we[m] == t.we[m], u.mroot[m] == t.mroot[m], S1('MWT.form')[m] == S0('MWT.form')[m])),
                                   u.wn[m], u.we[m], u.mroot[m], S1('MWT.form')[m])),
               ('spacing-of-the-token', And(Imp(was == no, val(S1, 'MWT._misc', r, SPACE) == no),
                                            Imp(And(was != no, V.is_vnone(a.misc)), val(S1, 'MWT._misc', r, SPACE) == empty))),
               ('no-spacing-of-the-words', FA([x], Imp(self.inW(t, a, x), val(S1, 'Node._misc', x, SPACE) == empty), self.inW(t, a, x))),
               ('other-attributes-of-words', FA([x, k], Imp(And(mp.isowner(S0, 'Node._misc', x), Or(Not(self.inW(t, a, x)), k != c.lit(SPACE))),
                                                          val(S1, 'Node._misc', x, k) == val(S0, 'Node._misc', x, k)), val(S1, 'Node._misc', x, k).arg(1))),
               ('attributes-of-tokens', FA([m, k], Imp(mp.isowner(S0, 'MWT._misc', m), val(S1, 'MWT._misc', m, k) == val(S0, 'MWT._misc', m, k)),
                                           val(S1, 'MWT._misc', m, k).arg(1))),
               ('created', FA([x], Imp(mp.newowner(S0, x), u.alloc[x] == Or(t.alloc[x], x == r)), u.alloc[x]))]
        return out + mp.MAPOK(S1) + [('consistent-' + k_, f) for k_, f in TOKENS(S1, R)]

    @staticmethod
    def _inv0(L):
        t, u = Mw(L.S0), Mw(L.S)
        c = t.c
        R = L.a.self
        x, m, j = *xs(c, 'x', 'm'), z3.Int('j')
        w = L.g['w']
        e = ComputeText.items(L)
        return TOKENS(L.S, R) + [
            ('released', FA([x], u.mwt[x] == If(And(t.inT(R, x), Not(u.inM(R, t.mwt[x]))), c.null, t.mwt[x]), u.mwt[x])),
            ('kept', FA([m], Imp(u.inM(R, m), And(t.inM(R, m), FA([j], Imp(And(0 <= j, j < L.i), t.mwt[e[j]] != m), e[j]))), u.inM(R, m))),
            ('removed', FA([m], Imp(And(t.inM(R, m), Not(u.inM(R, m))), And(CreateMwt.inW(t, L.a, w[m]), t.mwt[w[m]] == m)), u.inM(R, m), t.inM(R, m))),
            ('order', kept_in_order(c, t.Mn[R], t.Me[R], u.Mn[R], u.Me[R])),
            ('other-trees', FA([x], Imp(x != R, And(u.Mn[x] == t.Mn[x], u.Me[x] == t.Me[x])), u.Mn[x], u.Me[x]))]

    @staticmethod
    def _step0(L0, L1):
        u = Mw(L0.S)
        x = L0.item(L0.i)
        m = u.mwt[x]
        return {'w': If(m != u.null, z3.Store(L0.g['w'], m, x), L0.g['w'])}

    @staticmethod
    def _entry0(L):
        t = Mw(L.S)
        c = t.c
        j, k, x = z3.Int('j'), z3.Int('k'), xs(c, 'x')
        a = L.a
        e = ComputeText.items(L)
        M, n = t.Me[a.self], t.Mn[a.self]
        return [('assert', 'items are members', FA([j], Imp(And(0 <= j, j < L.n), c.mem(e, L.n, e[j])), e[j])),
                ('assert', 'places of tokens', FA([j], Imp(And(0 <= j, j < n), And(c.mem(M, n, M[j]), c.idx(M, n, M[j]) == j)), M[j])),
                ('assert', 'the given words', And(L.n == a.words.n, FA([x], c.mem(e, L.n, x) == CreateMwt.inW(t, a, x), c.mem(e, L.n, x), CreateMwt.inW(t, a, x)))),
                ('assert', 'words of the tree', FA([j], Imp(And(0 <= j, j < L.n), t.inT(a.self, e[j])), e[j])),
                ('assert', 'in order', sorted_list(t.ord, L.n, e))]

    @staticmethod
    def _inv1(L):
        """(in MWT.__init__)"""
        t, u = Mw(L.Sp), Mw(L.S)
        x = xs(t.c, 'x')
        return [('assigned-so-far', FA([x], u.mwt[x] == If(t.c.mem(ComputeText.items(L), L.i, x), L.v('self'), t.mwt[x]), u.mwt[x]))]

    @staticmethod
    def _inv2(L):
        t = Mw(L.Sp)
        c = t.c
        x, m, k = *xs(c, 'x', 'm'), z3.Const('k', c.StrS)
        e = ComputeText.items(L)
        val = mp.attr_value
        S, Sp = L.S, L.Sp
        f, g = 'Node._misc', 'MWT._misc'
        return mp.MAPOK(S) + [
            ('only-mappings-created', FA([x], Imp(mp.newowner(S, x), S('@alloc')[x] == Sp('@alloc')[x]), S('@alloc')[x])),
            ('removed-so-far', FA([x], Imp(c.mem(e, L.i, x), val(S, f, x, SPACE) == c.Val.vstr(c.lit(''))), c.mem(e, L.i, x))),
            ('others-kept', FA([x, k], Imp(And(mp.isowner(Sp, f, x), Or(Not(c.mem(e, L.i, x)), k != c.lit(SPACE))), val(S, f, x, k) == val(Sp, f, x, k)), val(S, f, x, k).arg(1))),
            ('tokens-kept', FA([m, k], Imp(mp.isowner(Sp, g, m), val(S, g, m, k) == val(Sp, g, m, k)), val(S, g, m, k).arg(1)))]

    @staticmethod
    def _hints0(L0, L1):
        t, u = Mw(L0.S), Mw(L1.S)
        c, R, j = t.c, L0.a.self, z3.Int('j')
        e0, n0, e1 = t.Me[R], t.Mn[R], u.Me[R]
        return [('assert', 'tokens', FA([j], Imp(And(0 <= j, j < u.Mn[R]), c.mem(e1, u.Mn[R], e1[j])), e1[j])),
                ('assert', 'tokens before', FA([j], Imp(And(0 <= j, j < u.Mn[R]), c.mem(e0, n0, e1[j])), e1[j])),
                ('assert', 'tokens kept in this step', FA([j], Imp(And(0 <= j, j < u.Mn[R]), And(0 <= c.idx(e0, n0, e1[j]), c.idx(e0, n0, e1[j]) < n0, e0[c.idx(e0, n0, e1[j])] == e1[j])), e1[j]))]

    @staticmethod
    def _hints2(L0, L1):
        return [('define', mp.owner(L0.I.ctx, L0.item(L0.i)))]

    @staticmethod
    def _entry2(L):
        S, S0, c, a = L.S, L.S0, L.I.ctx, L.a
        x, m, k = *xs(c, 'x', 'm'), z3.Const('k', c.StrS)
        val, f, g = mp.attr_value, 'Node._misc', 'MWT._misc'
        t = Mw(S)
        V = c.Val
        r = t.Me[a.self][t.Mn[a.self] - 1]
        was = val(S0, f, L.item(L.n - 1), SPACE)
        no = V.vstr(c.lit('No'))
        return [('define', mp.owner(c, r)),
                ('assert', 'attributes of words', FA([x, k], Imp(mp.isowner(S0, f, x), val(S, f, x, k) == val(S0, f, x, k)), val(S, f, x, k).arg(1))),
                ('assert', 'attributes of tokens', FA([m, k], Imp(mp.isowner(S0, g, m), val(S, g, m, k) == val(S0, g, m, k)), val(S, g, m, k).arg(1))),
                ('assert', 'spacing', And(Imp(was == no, val(S, g, r, SPACE) == no), Imp(And(was != no, V.is_vnone(a.misc)), val(S, g, r, SPACE) == V.vstr(c.lit('')))))]

    loops = {0: Loop(inv=_inv0.__func__, hints=_hints0.__func__, ghost_init=lambda L: {'w': z3.K(L.I.ctx.Ref, L.I.ctx.null)}, ghost_step=_step0.__func__, entry=_entry0.__func__),
             1: Loop(inv=_inv1.__func__), 2: Loop(inv=_inv2.__func__, hints=_hints2.__func__, entry=_entry2.__func__)}


ALL = [MwtRemove, TokenDescendants, ComputeText, CreateMwt]
