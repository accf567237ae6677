"""Moving words between trees against the model."""
import itertools
from .core import Fail, check, eq
from .trees import *
from udapi.core.document import Document
from udapi.block.util.splitsentence import SplitSentence
from udapi.block.util.joinsentence import JoinSentence


def steal(case):
    roots, allw, models, mw = [], [], [], {}
    for t, ps in enumerate(case['trees']):
        r, ws = build(ps, prefix=f't{t}_')
        roots.append(r)
        allw += ws
        models.append(Model(ps, prefix=f't{t}_'))
        for a, b, in case.get('mwts', {}).get(str(t), []):
            m = r.create_multiword_token(ws[a:b + 1], f'm{t}_{a}', f'K={a}')
            mw[m.form] = [w.form for w in ws[a:b + 1]], t, f'K={a}'
    byname = {w.form: w for w in allw}
    attrs = {w.form: id(w) for w in allw}

    def verify(what):
        seen = []
        for r, m in zip(roots, models):
            agrees(r, m, f'{what}: tree {roots.index(r)}')
            seen += [w.form for w in r.descendants]
        eq(sorted(seen), sorted(byname), f'{what}: words')
        for w in (x for r in roots for x in r.descendants):
            eq(id(w), attrs[w.form], f'{what}: the word {w.form} is another object')
        for t, r in enumerate(roots):
            eq(sorted([x.form, [w.form for w in sorted(x.words)], x.misc['K'], x.root is r] for x in r.multiword_tokens),
               sorted([f, sorted(ws, key=models[t].words.index), k.split('=')[1], True] for f, (ws, tt, k) in mw.items() if tt == t), f'{what}: multi-word tokens of tree {t}')
        for w in byname.values():
            ms = [f for f, (ws, _, _) in mw.items() if w.form in ws]
            check((w.multiword_token.form if w.multiword_token else None) == (ms[0] if ms else None), lambda: f'{what}: multi-word token of {w.form}')
            if w.multiword_token:
                check(any(x is w.multiword_token for x in w.root.multiword_tokens), lambda: f'{what}: token of {w.form} is not in its tree')
    verify('at the beginning')
    for step, (src, trg, idx) in enumerate(case['ops']):
        src, trg = src % len(roots), trg % len(roots)
        ws = list(roots[src].descendants)
        if src == trg or not ws:
            continue
        sel = []
        for i in idx if idx != 'all' else range(len(ws)):
            w = ws[i % len(ws)]
            if not any(w is x for x in sel):
                sel.append(w)
        what = f'step {step}: moving {[w.form for w in sel]} from tree {src} to tree {trg}'
        given = list(sel)
        roots[trg].steal_nodes(sel)
        eq([id(x) for x in given], [id(x) for x in sel], f'{what}: the given list was changed')
        names = {w.form for w in sel}
        S, T = models[src], models[trg]
        order = [w for w in S.words if w in names]
        oldpar = dict(S.par)
        S.words = [w for w in S.words if w not in names]
        S.par = {w: ('' if oldpar[w] in names else oldpar[w]) for w in S.words}
        T.words = T.words + order
        for w in order:
            T.par[w] = oldpar[w] if oldpar[w] in names else ''
        for f, (mws, tt, k) in list(mw.items()):
            moved = [w for w in mws if w in names]
            if moved:
                mw[f] = (moved, trg, k)
        verify(what)


def mixed(case):
    """Words of several trees are refused, with no change."""
    r1, w1 = build([0, 1])
    r2, w2 = build([0, 1], prefix='o')
    r3, w3 = build([0], prefix='p')
    s = [snap(r) for r in (r1, r2, r3)]
    try:
        r3.steal_nodes([w1[0], w2[0]])
    except ValueError:
        eq([snap(r) for r in (r1, r2, r3)], s, 'refused but changed')
        return
    raise Fail('words of two trees were accepted')


def sentences(case):
    """util.SplitSentence and util.JoinSentence are inverse to each other on words and text."""
    doc = Document()
    b = doc.create_bundle()
    b.bundle_id = 's'
    t = b.create_tree('')
    _, ws = build(case['parents'], root=t)
    n = len(ws)
    for i in case['glued']:
        ws[i % n].misc['SpaceAfter'] = 'No'
    for a, e in case.get('mwts', []):
        if e < case['at'] or a >= case['at']:
            t.create_multiword_token(ws[a:e + 1], f'm{a}', None)
    text = t.compute_text()
    toks = [x.form for x in t.token_descendants]
    at = case['at']
    SplitSentence(sent_id='s', word_id=at + 1).process_document(doc)
    eq([x.bundle_id for x in doc.bundles], ['sA', 'sB'], 'bundle ids')
    ta, tb = [x.trees[0] for x in doc.bundles]
    for k, tr in enumerate((ta, tb)):
        well_formed(tr)
        lo, hi = (0, at) if k == 0 else (at, n)
        eq([id(w) for w in tr.descendants], [id(w) for w in ws[lo:hi]], f'words of the part {k}')
        for i in range(lo, hi):
            p = case['parents'][i]
            want = ws[p - 1] if p and lo <= p - 1 < hi else tr
            check(ws[i].parent is want, lambda: f'parent of {ws[i].form} after the split')
        eq(tr.text, tr.compute_text(), 'text of the part')
    eq([x.form for x in ta.token_descendants] + [x.form for x in tb.token_descendants], toks, 'tokens')
    JoinSentence(sent_id='sB').process_document(doc)
    eq(len(doc.bundles), 1, 'bundles after joining')
    t = doc.bundles[0].trees[0]
    well_formed(t)
    eq([id(w) for w in t.descendants], [id(w) for w in ws], 'words after joining')
    eq([x.form for x in t.token_descendants], toks, 'tokens after joining')
    eq(t.compute_text(), text, 'text after joining')


CHECKS = {'steal': steal, 'mixed': mixed, 'sentences': sentences}


def shrink(name_, case):
    if name_ == 'steal':
        ops = case['ops']
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
        for i, (s, t, idx) in enumerate(ops):
            if idx != 'all':
                for j in range(len(idx)):
                    if len(idx) > 1:
                        yield dict(case, ops=ops[:i] + [[s, t, idx[:j] + idx[j + 1:]]] + ops[i + 1:])
        for t in list(case.get('mwts', {})):
            for i in range(len(case['mwts'][t])):
                yield dict(case, mwts=dict(case['mwts'], **{t: case['mwts'][t][:i] + case['mwts'][t][i + 1:]}))


def generate(rnd, tier):
    yield 'mixed', {}
    for n in range(1, 5):
        for ps in parent_vectors(n):
            for m in range(1, 2 ** n):
                sel = [i for i in range(n) if m >> i & 1]
                if n == 4 and rnd.random() > (.4 if tier == 'quick' else 1):
                    continue
                yield 'steal', {'trees': [ps, [0, 1]], 'ops': [[0, 1, sel]]}
                if n == 3:
                    for mws in ([[0, 1]], [[1, 2]], [[0, 2]], [[0, 0], [1, 2]]):
                        yield 'steal', {'trees': [ps, []], 'mwts': {'0': mws}, 'ops': [[0, 1, sel[::-1]]]}
            for at in range(1, n):
                yield 'sentences', {'parents': ps, 'at': at, 'glued': [0, at - 1], 'mwts': [[0, 1]] if n > 2 else []}
    yield None, None
    while True:
        if rnd.random() < .15:
            n = rnd.randrange(2, 12)
            a = rnd.randrange(n)
            yield 'sentences', {'parents': random_parents(rnd, n), 'at': rnd.randrange(1, n), 'glued': [rnd.randrange(n) for _ in range(3)], 'mwts': [[a, min(n - 1, a + rnd.randrange(3))]]}
            continue
        T = rnd.randrange(2, 4)
        trees = [random_parents(rnd, rnd.randrange(0 if t else 1, 12)) for t in range(T)]
        mws = {}
        for t in range(T):
            k, l = 0, []
            while rnd.random() < .6:
                a = k + rnd.randrange(3)
                b = a + rnd.randrange(3)
                if b >= len(trees[t]):
                    break
                l.append([a, b])
                k = b + 1
            mws[str(t)] = l
        ops = []
        for _ in range(rnd.randrange(1, 6)):
            a, l = rnd.randrange(12), rnd.randrange(1, 6)
            sel = rnd.choice(['all', [rnd.randrange(12) for _ in range(l)], list(range(a, a + l)), list(range(a, 12))])
            ops.append([rnd.randrange(T), rnd.randrange(T), sel])
        yield 'steal', {'trees': trees, 'mwts': mws, 'ops': ops}
