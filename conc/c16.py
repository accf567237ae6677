"""Alignment and counts of eval.F1 against an independent longest-common-subsequence computation."""
import io
import contextlib
import itertools
import re
from collections import Counter
from .core import Fail, check, eq
from udapi.core.document import Document
from udapi.block.eval.f1 import F1, find_lcs


def lcs_len(x, y):
    row = [0] * (len(y) + 1)
    for a in x:
        new = [0]
        for j, b in enumerate(y):
            new.append(row[j] + 1 if a == b else max(row[j + 1], new[j]))
        row = new
    return row[-1]


def subseq(s, x):
    it = iter(x)
    return all(any(a == b for b in it) for a in s)


def lcs(case):
    x, y = list(case['x']), list(case['y'])
    a, b = list(x), list(y)
    r = find_lcs(x, y)
    eq((x, y), (a, b), 'the arguments')
    check(isinstance(r, list) and subseq(r, a), lambda: f'{r} is not a subsequence of {a}')
    check(subseq(r, b), lambda: f'{r} is not a subsequence of {b}')
    eq(len(r), lcs_len(a, b), f'the length of the common subsequence {r}')


def mkdoc(sents):
    doc = Document()
    for p, g in sents:
        b = doc.create_bundle()
        for z, toks in (('pred', p), ('gold', g)):
            t = b.create_tree(z)
            for tok in toks:
                f, u = tok if isinstance(tok, (list, tuple)) else (tok, 'X')
                t.create_child(form=f, upos=u)
    return doc


def embeddings(x, y):
    """All alignments of x and y of the maximal size, as lists of pairs of indices (None if there are too many)."""
    best = lcs_len(x, y)
    T = [[lcs_len(x[i:], y[j:]) for j in range(len(y) + 1)] for i in range(len(x) + 1)]
    out = []

    def go(i, j, acc):
        if len(out) > 3000:
            return
        if len(acc) == best:
            out.append(acc)
            return
        for a in range(i, len(x)):
            for b in range(j, len(y)):
                if x[a] == y[b] and len(acc) + 1 + T[a + 1][b + 1] == best:
                    go(a + 1, b + 1, acc + [(a, b)])
    go(0, 0, [])
    return out if len(out) <= 3000 else None


def focused(p, g, rx):
    """The numbers of aligned tokens in focus if the other tokens are aligned first (by any longest common subsequence)."""
    P, G = [i for i, x in enumerate(p) if not rx.fullmatch(x)], [i for i, x in enumerate(g) if not rx.fullmatch(x)]
    E = embeddings([p[i] for i in P], [g[i] for i in G])
    if E is None:
        return None
    res = set()
    for al in E:
        cuts = [(-1, -1)] + [(P[a], G[b]) for a, b in al] + [(len(p), len(g))]
        res.add(sum(lcs_len([x for x in p[a + 1:c] if rx.fullmatch(x)], [x for x in g[b + 1:d] if rx.fullmatch(x)]) for (a, b), (c, d) in zip(cuts, cuts[1:])))
    return res


def f1(case):
    doc = mkdoc(case['sents'])
    kw = {k: case[k] for k in ('attributes', 'focus', 'details') if k in case}
    attrs = kw.get('attributes', 'form').split(',')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        blk = F1(gold_zone='gold', zones='pred', **kw)
        for b in doc.bundles:
            blk.process_bundle(b)
        f = blk.f1
        blk.before_process_document(doc)
        blk.process_end()
    P = G = C = CMAX = CMIN = 0
    rx = re.compile(kw['focus']) if 'focus' in kw else None
    for b in doc.bundles:
        p, g = [['_'.join(getattr(n, a) for a in attrs) for n in b.get_tree(z).descendants] for z in ('pred', 'gold')]
        if rx:
            fp, fg = [x for x in p if rx.fullmatch(x)], [x for x in g if rx.fullmatch(x)]
            F = focused(p, g, rx) if len(p) + len(g) <= 16 else None
            CMAX += lcs_len(fp, fg) if F is None else max(F)
            CMIN += len(fp) if p == g else min(F) if F else 0
        else:
            fp, fg = p, g
            CMAX += lcs_len(p, g)
            CMIN += lcs_len(p, g)
        P += len(fp)
        G += len(fg)
    eq((blk.pred, blk.gold), (P, G), 'predicted and gold counts')
    if rx is None:
        eq(blk.correct, CMAX, 'the correct count')
    check(CMIN <= blk.correct <= CMAX, lambda: f'the correct count {blk.correct} is not between {CMIN} and {CMAX}')
    C = blk.correct
    prec, rec = (C / P if P else 0), (C / G if G else 0)
    want = 2 * prec * rec / (prec + rec) if C else 0
    check(abs(f - want) < 1e-9, lambda: f'F1 {f}, expected {want}')
    check(0 <= f <= 1 + 1e-12, lambda: f'F1 {f} is out of [0, 1]')
    if all(p == g for p, g in case['sents']) and P:
        check(f == 1, lambda: f'comparing with itself gives {f}')
    txt = out.getvalue()
    for nm, v in (('predicted', P), ('gold     ', G), ('correct  ', C)):
        check(re.search(rf'^{nm} = +{v}$', txt, re.M), lambda: f'the report does not say {nm} = {v}: {txt}')
    for nm, v in (('precision', prec), ('recall   ', rec), ('F1       ', want)):
        m = re.search(rf'^{nm} = +([0-9.]+)%$', txt, re.M)
        check(m and abs(float(m.group(1)) - 100 * v) < .0051, lambda: f'the report does not say {nm} {v}: {txt}')
    if kw.get('details', 4) and rx is None:
        eq(sum(blk._common.values()), C, 'details: common')
        eq(sum(blk._pred.values()), P, 'details: predicted')
        eq(sum(blk._gold.values()), G, 'details: gold')
    if kw.get('details', 4):
        toks = [[['_'.join(getattr(n, a) for a in attrs) for n in b.get_tree(z).descendants] for b in doc.bundles] for z in ('pred', 'gold')]
        cp, cg = [Counter(t for s in side for t in s if rx is None or rx.fullmatch(t)) for side in toks]
        lines = re.findall(r'^(\S+) +(\d+) +(\d+) +(\d+) +([0-9.]+)% +([0-9.]+)% +([0-9.]+)%$', txt, re.M)
        eq(len(lines), min(kw.get('details', 4), len(cp + cg)), 'the number of tokens in the details')
        for t, a, b, c, pr, re_, f_ in lines:
            a, b, c = int(a), int(b), int(c)
            eq((a, b), (cp[t], cg[t]), f'details of {t}: predicted and gold')
            check(c <= min(a, b), lambda: f'details of {t}: {c} correct of {a} predicted and {b} gold')
            p_, r_ = c / a if a else 0, c / b if b else 0
            w = 2 * p_ * r_ / (p_ + r_) if c else 0
            check(max(abs(float(pr) - 100 * p_), abs(float(re_) - 100 * r_), abs(float(f_) - 100 * w)) < .0051, lambda: f'details of {t}: {pr} {re_} {f_}, expected {p_} {r_} {w}')
        if len(cp + cg) <= kw.get('details', 4):
            eq(sum(int(l[3]) for l in lines), C, 'details: sum of correct')


CHECKS = {'lcs': lcs, 'f1': f1}


def generate(rnd, tier):
    K = 5 if tier == 'quick' else 6
    for m in range(0, K):
        for n in range(0, K):
            for x in itertools.product('ab' if m + n > 6 else 'abc', repeat=m):
                for y in itertools.product('ab' if m + n > 6 else 'abc', repeat=n):
                    yield 'lcs', {'x': list(x), 'y': list(y)}
    for m in range(0, 4):
        for n in range(0, 4):
            for x in itertools.product('ab', repeat=m):
                for y in itertools.product('ab', repeat=n):
                    yield 'f1', {'sents': [[list(x), list(y)]]}
                    yield 'f1', {'sents': [[list(x), list(y)]], 'focus': 'a'}
    yield None, None
    while True:
        al = 'abcdefgh'[:rnd.randint(1, 8)]

        def seq(k):
            return [rnd.choice(al) for _ in range(rnd.randint(0, k))]

        def mutate(x):
            y = list(x)
            for _ in range(rnd.randint(0, 4)):
                i = rnd.randint(0, len(y))
                c = rnd.random()
                if c < .4:
                    y.insert(i, rnd.choice(al))
                elif c < .8 and y:
                    y.pop(min(i, len(y) - 1))
                elif y:
                    y[min(i, len(y) - 1)] = rnd.choice(al)
            return y
        if rnd.random() < .4:
            x = seq(14)
            yield 'lcs', {'x': x, 'y': mutate(x) if rnd.random() < .7 else seq(14)}
        else:
            sents = []
            for _ in range(rnd.randint(1, 4)):
                x = seq(8)
                y = list(x) if rnd.random() < .3 else mutate(x) if rnd.random() < .7 else seq(8)
                if rnd.random() < .4:
                    x, y = [[a, rnd.choice('XY')] for a in x], [[a, rnd.choice('XY')] for a in y]
                sents.append([x, y])
            c = {'sents': sents}
            if rnd.random() < .4:
                c['attributes'] = 'form,upos'
            if rnd.random() < .4:
                c['focus'] = rnd.choice(['a', '[ab].*', '.*_X', 'z', '.*', '(?i:A|b).*'])
            if rnd.random() < .3:
                c['details'] = 0
            yield 'f1', c


def shrink(name, case):
    if name == 'lcs':
        for k in 'xy':
            for i in range(len(case[k])):
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    else:
        s = case['sents']
        for i in range(len(s)):
            if len(s) > 1:
                yield dict(case, sents=s[:i] + s[i + 1:])
            for j in (0, 1):
                for q in range(len(s[i][j])):
                    t = [[list(a), list(b)] for a, b in s]
                    t[i][j].pop(q)
                    yield dict(case, sents=t)
