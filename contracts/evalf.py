"""Contracts of the alignment behind eval.F1 (C16)."""
import z3
from pyvc.core import *
from pyvc.evalx import FA
from pyvc.stmts import Loop
from pyvc.verify import Contract
from .schema import *
from .tree import And, Or, Imp, Not, If

F1M = 'udapi.block.eval.f1.'
TOK = Un('none', 'str')
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())


def tokens_ok(c, n, e):
    """Tokens are strings (or None)."""
    j = z3.Int('j')
    return FA([j], Imp(And(0 <= j, j < n), Or(c.Val.is_vnone(e[j]), c.Val.is_vstr(e[j]))), e[j])


def aligned(c, x, y, p, q, k):
    """p[0..k) and q[0..k) are increasing positions of equal tokens in x and y."""
    A = x.e.sort()
    f = c.uf('aligned', z3.IntSort(), A, z3.IntSort(), A, IA, IA, z3.IntSort(), z3.BoolSort())
    nx, ny, K, t, u = z3.Ints('nx ny K t u')
    xe, ye = z3.Consts('xe ye', A)
    P, Q = z3.Consts('P Q', IA)
    c.axiom('aligned', FA([nx, xe, ny, ye, P, Q, K], f(nx, xe, ny, ye, P, Q, K) == And(
        K >= 0,
        FA([t], Imp(And(0 <= t, t < K), And(0 <= P[t], P[t] < nx, 0 <= Q[t], Q[t] < ny, xe[P[t]] == ye[Q[t]])), P[t], Q[t]),
        FA([t, u], Imp(And(0 <= t, t < u, u < K), And(P[t] < P[u], Q[t] < Q[u])), [P[t], P[u]], [Q[t], Q[u]])),
        f(nx, xe, ny, ye, P, Q, K)))
    return f(x.n, x.e, y.n, y.e, p, q, k)


def common_subsequence(c, x, y, r):
    """r lists the tokens of some alignment of x and y."""
    A = x.e.sort()
    I = z3.IntSort()
    f = c.uf('commonsub', I, A, I, A, I, A, z3.BoolSort())
    sp, sq = c.uf('subP', I, A, I, A, I, A, IA), c.uf('subQ', I, A, I, A, I, A, IA)
    nx, ny, nr, t = z3.Ints('nx ny nr t')
    xe, ye, re = z3.Consts('xe ye re', A)
    P, Q = z3.Consts('P Q', IA)

    class L:
        def __init__(self, n, e):
            self.n, self.e = n, e
    a = (nx, xe, ny, ye, nr, re)
    al = lambda P, Q: aligned(c, L(nx, xe), L(ny, ye), P, Q, nr)
    lists = lambda P: FA([t], Imp(And(0 <= t, t < nr), re[t] == xe[P[t]]), re[t])
    c.axiom('commonsub', FA(list(a), Imp(f(*a), And(al(sp(*a), sq(*a)), lists(sp(*a)))), f(*a)),
            FA(list(a) + [P, Q], Imp(And(al(P, Q), lists(P)), f(*a)), [f(*a), al(P, Q)]))
    b = (x.n, x.e, y.n, y.e, r.n, r.e)
    return f(*b), sp(*b), sq(*b)


class FindLcs(Contract):
    qual = F1M + 'find_lcs'
    params = {'x': ListT(TOK), 'y': ListT(TOK)}
    ret = ListT(TOK)
    P0, Q0, K0 = z3.Const('P0', IA), z3.Const('Q0', IA), z3.Int('K0')     # an arbitrary alignment

    def requires(self, S, a):
        c = S.I.ctx
        return [('tokens-x', tokens_ok(c, a.x.n, a.x.e)), ('tokens-y', tokens_ok(c, a.y.n, a.y.e))]

    def ensures(self, S0, S1, a, r):
        c = S0.I.ctx
        P, Q, K = z3.Const('P', IA), z3.Const('Q', IA), z3.Int('K')
        cs = common_subsequence(c, a.x, a.y, r)[0]
        if hasattr(a, 'rv'):
            al = aligned(c, a.x, a.y, self.P0, self.Q0, self.K0)
            longest = Imp(al, self.K0 <= r.n)      # for arbitrary constants: generalised for the callers
        else:
            al = aligned(c, a.x, a.y, P, Q, K)
            longest = FA([P, Q, K], Imp(al, K <= r.n), al)
        return [('common-subsequence', cs), ('longest', longest), ('tokens', tokens_ok(c, r.n, r.e))]

    # ---- loops: 0 common prefix, 1 rows, 2 columns, 3 backtracking
    @staticmethod
    def _prefix(L):
        i = L.v('i')
        t = z3.Int('t')
        x, y = L.a.x, L.a.y
        return [('prefix-length', And(1 <= i, i <= x.n, i <= y.n)),
                ('common-prefix', FA([t], Imp(And(0 <= t, t < i), x.e[t] == y.e[t]), x.e[t], y.e[t]))]

    # the table of lengths
    @staticmethod
    def tab(L):
        C = L.v('C')
        acc = L.I.ctx.seqsort(RowT(Int))[2]
        return C.n, (lambda a: acc[0](C.e[a])), (lambda a, b: acc[1](C.e[a])[b])

    @staticmethod
    def cell(c, a, b):
        """A trigger (always true)."""
        return c.uf('cell', z3.IntSort(), z3.IntSort(), z3.BoolSort())(a, b)

    @staticmethod
    def rec(L, at, a, b):
        x, y = L.a.x, L.a.y
        m1, m2 = at(a, b - 1), at(a - 1, b)
        return at(a, b) == If(x.e[a - 1] == y.e[b - 1], at(a - 1, b - 1) + 1, If(m1 > m2, m1, m2))

    @classmethod
    def _table(cls, L, done):
        c = L.I.ctx
        n, ln, at = cls.tab(L)
        a, b = z3.Ints('a b')
        x, y = L.a.x, L.a.y
        inr = And(0 <= a, a <= x.n, 0 <= b, b <= y.n)
        return [('rows', And(n == x.n + 1, FA([a], Imp(And(0 <= a, a <= x.n), ln(a) == y.n + 1), ln(a)))),
                ('not-negative', FA([a, b], Imp(inr, at(a, b) >= 0), at(a, b))),
                ('border', FA([a, b], Imp(And(inr, Or(a == 0, b == 0)), at(a, b) == 0), at(a, b))),
                ('recurrence', FA([a, b], Imp(And(cls.cell(c, a, b), 1 <= a, a <= x.n, 1 <= b, b <= y.n, done(a, b)), cls.rec(L, at, a, b)), cls.cell(c, a, b)))]

    @staticmethod
    def _rows(L):
        return FindLcs._table(L, lambda a, b: a <= L.i)

    @staticmethod
    def _cols(L):
        i = L.v('i')
        return FindLcs._table(L, lambda a, b: Or(a < i, And(a == i, b <= L.i)))

    @staticmethod
    def _back(L):
        c = L.I.ctx
        x, y = L.a.x, L.a.y
        _, _, at = FindLcs.tab(L)
        m, n, idx, lcs = L.v('m'), L.v('n'), L.v('index'), L.v('lcs')
        P, Q = L.g['P'], L.g['Q']
        t, u = z3.Ints('t u')
        return [('position', And(0 <= m, m <= x.n, 0 <= n, n <= y.n)),
                ('recurrence-here', Imp(And(m >= 1, n >= 1), And(FindLcs.rec(L, at, m, n), at(m - 1, n - 1) >= 0))),
                ('index', And(idx == at(m, n), idx >= 0, idx <= lcs.n, lcs.n == at(x.n, y.n))),
                ('filled', FA([t], Imp(And(idx <= t, t < lcs.n), And(m <= P[t], P[t] < x.n, n <= Q[t], Q[t] < y.n, x.e[P[t]] == y.e[Q[t]],
                                                                  lcs.e[t] == x.e[P[t]])), P[t], Q[t], lcs.e[t])),
                ('increasing', FA([t, u], Imp(And(idx <= t, t < u, u < lcs.n), And(P[t] < P[u], Q[t] < Q[u])), [P[t], P[u]], [Q[t], Q[u]]))]

    @staticmethod
    def _back_init(L):
        return {'P': L.I.ctx.fresh('P', IA), 'Q': L.I.ctx.fresh('Q', IA)}

    @staticmethod
    def _back_step(L0, L1):
        i1, m1, n1 = L1.v('index'), L1.v('m'), L1.v('n')
        ch = i1 < L0.v('index')
        return {'P': If(ch, z3.Store(L0.g['P'], i1, m1), L0.g['P']), 'Q': If(ch, z3.Store(L0.g['Q'], i1, n1), L0.g['Q'])}

    @staticmethod
    def _back_entry(L):
        return [('define', FindLcs.cell(L.I.ctx, L.v('m'), L.v('n')))]

    @staticmethod
    def _cell_hint(L0, L1):
        return [('define', FindLcs.cell(L0.I.ctx, L1.v('m'), L1.v('n')))]

    def hints(self, S0, S1, a, r):
        c = S0.I.ctx
        ex = a.st.extra
        P0, Q0, K0 = self.P0, self.Q0, self.K0
        x, y = a.x, a.y
        al = aligned(c, x, y, P0, Q0, K0)
        t = z3.Int('t')
        st = []
        see = c.uf('see', z3.IntSort(), z3.BoolSort())      # a trigger (always true)
        if 'L3' not in ex and 'L0' not in ex:
            return [('assert', 'nothing aligned', aligned(c, x, y, P0, Q0, z3.IntVal(0))),
                    ('assert', 'one sequence is empty', Imp(And(al, K0 > 0), And(P0[0] < x.n, Q0[0] < y.n)))]
        if 'L3' not in ex:
            i = ex['L0'].v('i')
            recs = [cl for cl in ex.get('calls', ()) if cl[0].endswith('find_lcs')]
            k = z3.Int('k')
            st = [('induct', 'increasing positions', k, k, Imp(And(al, 0 <= k, k < K0), And(P0[k] >= k, Q0[k] >= k)), [P0[k]], lambda k_: [see(P0[k_ - 1])])]
            ida, shp, shq = (c.fresh(n_, IA) for n_ in ('id', 'shp', 'shq'))
            if not recs:
                return st + [('define', FA([t], ida[t] == t, ida[t])),
                             ('assert', 'prefix aligned', aligned(c, x, y, ida, ida, r.n)),
                             ('assert', 'all of the shorter one', Imp(And(al, K0 > 0), And(P0[K0 - 1] < x.n, Q0[K0 - 1] < y.n)))]
            ra, rr = recs[-1][1], recs[-1][2]
            _, RP, RQ = common_subsequence(c, ra.x, ra.y, rr)
            st += [('assert', 'the recursion terminates', And(ra.x.n + ra.y.n >= 0, ra.x.n + ra.y.n < x.n + y.n))]
            wp, wq = (c.fresh(n_, IA) for n_ in ('wp', 'wq'))
            st += [('define', And(FA([t], wp[t] == If(t < i, t, RP[t - i] + i), wp[t]), FA([t], wq[t] == If(t < i, t, RQ[t - i] + i), wq[t]),
                                  FA([t], shp[t] == P0[t + i] - i, shp[t]), FA([t], shq[t] == Q0[t + i] - i, shq[t]))),
                   ('assert', 'prefix and alignment of the rest', aligned(c, x, y, wp, wq, r.n)),
                   ('assert', 'rest of an alignment', Imp(And(al, K0 >= i), aligned(c, ra.x, ra.y, shp, shq, K0 - i)))]
        else:
            L = ex['L3']
            _, _, at = self.tab(L)
            A, B, k = z3.Ints('a b k')
            I = z3.IntSort()
            ub = c.uf('ub', I, I, I, z3.BoolSort())
            before = lambda a_, b_, k_: Or(k_ == 0, And(P0[k_ - 1] < a_, Q0[k_ - 1] < b_))
            body = Imp(And(ub(A, B, k), al, 0 <= k, k <= K0, 0 <= A, A <= x.n, 0 <= B, B <= y.n, before(A, B, k)), k <= at(A, B))
            trig = lambda a_, b_, k_: [ub(a_, b_, k_), ub(a_ - 1, b_ - 1, k_ - 1), ub(a_ - 1, b_, k_), ub(a_, b_ - 1, k_), self.cell(c, a_, b_),
                                       see(P0[k_ - 2])]
            st += [('induct', 'no longer alignment of prefixes', [A, B, k], A + B, body, [ub(A, B, k)], trig),
                   ('define', And(ub(x.n, y.n, K0), see(P0[K0 - 1]))),
                   ('assert', 'aligned positions', aligned(c, x, y, L.g['P'], L.g['Q'], r.n))]
        return st

    loops = {0: Loop(inv=_prefix.__func__, variant=lambda L: L.a.x.n - L.v('i')),
             1: Loop(inv=_rows.__func__), 2: Loop(inv=_cols.__func__),
             3: Loop(inv=_back.__func__, ghost_init=_back_init.__func__, ghost_step=_back_step.__func__, hints=_cell_hint.__func__, entry=_back_entry.__func__,
                     variant=lambda L: L.v('m') + L.v('n'), types={'lcs': ListT(TOK)})}


class F1Score(Contract):
    qual = F1M + 'F1.f1'
    params = {'self': RefT('F1')}
    ret = Real

    def requires(self, S, a):
        co, pr, go = (S('F1.' + f)[a.self] for f in ('correct', 'pred', 'gold'))
        return [('counts', And(0 <= co, co <= pr, co <= go))]

    def ensures(self, S0, S1, a, r):
        co, pr, go = (z3.ToReal(S0('F1.' + f)[a.self]) for f in ('correct', 'pred', 'gold'))
        return [('harmonic-mean-of-precision-and-recall', If(co > 0, r * (pr + go) == 2 * co, r == 0)),
                ('between-0-and-1', And(r >= 0, r <= 1)),
                ('one-for-equal-sequences', Imp(And(co == pr, co == go, co > 0), r == 1))]

    def hints(self, S0, S1, a, r):
        co, pr, go = (z3.ToReal(S0('F1.' + f)[a.self]) for f in ('correct', 'pred', 'gold'))
        p, q = co / pr, co / go
        return [('assert', 'zero', Imp(co == 0, r == 0)),
                ('assert', 'parts', Imp(co > 0, And(p > 0, q > 0, p * pr == co, q * go == co, r * (p + q) == 2 * p * q))),
                ('assert', 'product', Imp(co > 0, r * (p * pr * go + q * pr * go) == 2 * (p * pr) * (q * go))),
                ('assert', 'divided', Imp(co > 0, r * (co * go + co * pr) == 2 * co * co))]


def extend_schema(sc):
    sc.classes['F1'] = 'udapi.block.eval.f1.F1'
    sc.fields['F1'] = {'correct': Int, 'pred': Int, 'gold': Int}


ALL = [FindLcs, F1Score]
