"""Coreference stored to MISC and loaded again.

Domain: entity ids, types, relations and values without the characters the format reserves; two mentions of the same entity in
one sentence are either apart or one contiguous span inside another contiguous one with another first word; an entity whose
mention is the source of a bridging link has just one mention starting at that word."""
import itertools
from .core import Fail, check, eq
from .trees import build
from udapi.core.document import Document
from udapi.core.coref import store_coref_to_misc


def make(case):
    doc = Document()
    nodes = []
    for s, n in enumerate(case['sizes']):
        t = doc.create_bundle().create_tree('')
        t.bundle.bundle_id = f's{s}'
        _, ws = build([0] * n, prefix=f's{s}w', root=t)
        for after in case.get('empties', {}).get(str(s), []):
            if after % (n + 1) == 0:
                ws[0].create_empty_child('dep', after=False, form=f'e{len(t.empty_nodes)}')
            else:
                ws[after % (n + 1) - 1].create_empty_child('dep', form=f'e{len(t.empty_nodes)}')
        nodes.append(list(t.descendants_and_empty))
    if case.get('header'):
        doc.meta['global.Entity'] = case['header']
    return doc, nodes


def conflict(a, b):
    """Two mentions (sentence, indices) of the same entity which the format cannot tell apart."""
    if a[0] != b[0]:
        return False
    A, B = sorted(a[1]), sorted(b[1])
    if A[-1] < B[0] or B[-1] < A[0]:
        return False
    cont = lambda X: X[-1] - X[0] + 1 == len(X)
    if not (cont(A) and cont(B)) or A[0] == B[0]:
        return True
    return not (set(A) < set(B) or set(B) < set(A))


def snapshot(doc):
    pos = {}
    for b in doc.bundles:
        for t in b:
            for i, n in enumerate(t.descendants_and_empty):
                pos[id(n)] = (b.number - 1, i)
    out = {}
    for e in doc.coref_entities:
        if not e.mentions:
            continue
        ms = []
        for m in e.mentions:
            check(m.entity is e, 'entity of a mention')
            for w in m.words:
                check(any(x is m for x in w.coref_mentions), 'a word does not know its mention')
            br = sorted((l.target.eid, l.relation or '') for l in (m._bridging or []))
            ms.append((tuple(pos[id(w)] for w in m.words), pos[id(m.head)], tuple(sorted(m.other.items())) if m._other else (), tuple(br)))
        out[e.eid] = (e.etype or '', sorted(ms), [a.eid for a in e.split_ante])
    for b in doc.bundles:
        for t in b:
            for n in t.descendants_and_empty:
                for m in n.coref_mentions:
                    check(any(x is n for x in m.words), 'a node lists a mention which it is not in')
    return out


def norm(s):
    """The links of different entities at the same word come in the order of the entities in the document."""
    return '|'.join(x if not x.startswith('SplitAnte=') else 'SplitAnte=' + ','.join(sorted(x[10:].split(','), key=lambda y: y.split('<')[1])) for x in s.split('|'))


def miscs(doc, norm=lambda x: x):
    return [[norm(str(n.misc)) for t in b for n in t.descendants_and_empty] for b in doc.bundles]


def fill(case):
    doc, nodes = make(case)
    ents, per = {}, {}
    ms = []
    for eid, et in case['entities']:
        if eid not in ents:
            ents[eid] = doc.create_coref_entity(eid=eid, etype=et)
            per[eid] = []
    names = list(ents)
    for k, (e, s, idx, h, other) in enumerate(case['mentions']):
        eid = names[e % len(names)]
        s %= len(nodes)
        ix = sorted({i % len(nodes[s]) for i in idx})
        if any(conflict((s, ix), x) for x in per[eid]):
            continue
        per[eid].append((s, ix))
        ws = [nodes[s][i] for i in ix]
        m = ents[eid].create_mention(head=ws[h % len(ws)], words=ws)
        for a, v in other.items():
            m.other[a] = v
        ms.append((m, eid, s, ix))
    live = [n for n in names if per[n]]
    for src, trg, rel in case.get('bridging', []):
        if not ms or not live:
            break
        m, eid, s, ix = ms[src % len(ms)]
        t = live[trg % len(live)]
        if t == eid or sum(1 for x in per[eid] if x[0] == s and x[1][0] == ix[0]) > 1:
            continue
        if m._bridging and any(l.target.eid == t for l in m._bridging):
            continue
        m.bridging.append((ents[t], rel))
    for e, antes in case.get('split', []):
        if not live:
            break
        t = live[e % len(live)]
        a = []
        for x in antes:
            y = live[x % len(live)]
            if y != t and y not in a:
                a.append(y)
        if len(a) >= 2 and not ents[t].split_ante:
            ents[t].split_ante = [ents[y] for y in a]
    return doc, nodes


def roundtrip(case):
    doc, nodes = fill(case)
    want = snapshot(doc)
    store_coref_to_misc(doc)
    eq(snapshot(doc), want, 'storing changed the annotation')
    first = miscs(doc)
    ents = [n.misc['Entity'] for ns in nodes for n in ns]
    store_coref_to_misc(doc)
    eq(miscs(doc), first, 'stored again')
    # loaded in another document with the same MISC
    for how in ('misc', 'text'):
        if how == 'misc':
            new, nn = make(case)
            for a, b in zip(nodes, nn):
                for x, y in zip(a, b):
                    y.misc = str(x.misc)
            new.meta['global.Entity'] = doc.meta.get('global.Entity')
        else:
            if not all(n for n in case['sizes']):
                continue
            new = Document()
            new.from_conllu_string(doc.to_conllu_string())
        got = snapshot(new)
        eq(got, want, f'loaded ({how}) from {ents}')
        store_coref_to_misc(new)
        eq(miscs(new, norm), [[norm(x) for x in y] for y in first], f'loaded ({how}) and stored again, from {ents}')


CHECKS = {'roundtrip': roundtrip}


def generate(rnd, tier):
    subs = [[i for i in range(3) if m >> i & 1] for m in range(1, 8)]
    for a in subs:
        for h in range(len(a)):
            yield 'roundtrip', {'sizes': [3], 'entities': [['e1', 'person']], 'mentions': [[0, 0, a, h, {}]]}
        for b in subs:
            yield 'roundtrip', {'sizes': [3], 'entities': [['e1', None], ['e2', 'x']], 'mentions': [[0, 0, a, 0, {}], [1, 0, b, 1, {'k': 'v'}]], 'bridging': [[0, 1, 'part'], [1, 0, '']]}
            yield 'roundtrip', {'sizes': [3], 'entities': [['e1', 'y']], 'mentions': [[0, 0, a, 0, {}], [0, 0, b, 1, {}]]}
            for c in subs:
                yield 'roundtrip', {'sizes': [3], 'entities': [['a', None], ['b', 'x'], ['c', None]], 'mentions': [[0, 0, a, 0, {}], [1, 0, b, 1, {}], [2, 0, c, 2, {}]], 'split': [[0, [1, 2]]]}
    s4 = [[i for i in range(4) if m >> i & 1] for m in range(1, 16)]
    for a in s4:
        for b in s4:
            yield 'roundtrip', {'sizes': [4, 1], 'entities': [['e1', 'p'], ['e2', 'q']], 'mentions': [[0, 0, a, 1, {}], [1, 0, b, 0, {}], [0, 1, [0], 0, {}]], 'empties': {'0': [1]}}
    yield None, None
    EID = ['e1', 'e2', 'e10', 'x', 'e3', 'Person7', 'e11']
    while True:
        S = rnd.randint(1, 3)
        sizes = [rnd.randint(1, 7) for _ in range(S)]
        c = {'sizes': sizes, 'entities': [[rnd.choice(EID), rnd.choice([None, 'person', 'abstract', ''])] for _ in range(rnd.randint(1, 5))]}
        if rnd.random() < .4:
            c['empties'] = {str(s): [rnd.randint(0, 8) for _ in range(rnd.choice([0, 1, 2]))] for s in range(S)}
        ms = []
        for _ in range(rnd.randint(1, 8)):
            if rnd.random() < .6:
                a, k = rnd.randrange(9), rnd.randint(1, 4)
                idx = list(range(a, a + k))
            else:
                idx = [rnd.randrange(9) for _ in range(rnd.randint(1, 4))]
            ms.append([rnd.randrange(5), rnd.randrange(S), idx, rnd.randrange(4), {} if rnd.random() < .6 else rnd.choice([{'a': 'b'}, {'ment': 'np', 'Z': 'q:r'}, {'c': 'x,y'}, {'head': '7', 'etype': 'u'}])])
        c['mentions'] = ms
        c['bridging'] = [[rnd.randrange(9), rnd.randrange(5), rnd.choice(['', 'part', 'subset:inv'])] for _ in range(rnd.choice([0, 0, 1, 3]))]
        c['split'] = [[rnd.randrange(5), [rnd.randrange(5) for _ in range(rnd.randint(2, 4))]] for _ in range(rnd.choice([0, 0, 1, 2]))]
        if rnd.random() < .25:
            c['header'] = rnd.choice(['eid-etype-head-other', 'eid-etype-head-minspan-other', 'eid-head-etype-other', 'eid-etype-head-infstat-minspan-other'])
            for m in ms:
                if rnd.random() < .4 and 'minspan' in c['header']:
                    m[4] = dict(m[4], minspan='1')
        yield 'roundtrip', c


def shrink(name, case):
    for k in ('split', 'bridging', 'mentions', 'entities'):
        for i in range(len(case.get(k, []))):
            if k != 'entities' or len(case[k]) > 1:
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    for k in ('empties', 'header'):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}
    for i, m in enumerate(case['mentions']):
        if m[4]:
            yield dict(case, mentions=case['mentions'][:i] + [m[:4] + [{}]] + case['mentions'][i + 1:])
        for j in range(len(m[2])):
            if len(m[2]) > 1:
                yield dict(case, mentions=case['mentions'][:i] + [m[:2] + [m[2][:j] + m[2][j + 1:]] + m[3:]] + case['mentions'][i + 1:])
