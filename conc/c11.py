"""Mentions and their words."""
import itertools
from .core import Fail, check, eq
from .trees import build
from udapi.core.coref import nodes_to_span, span_to_nodes
from udapi.core.document import Document


def make(case):
    doc = Document()
    nodes = []
    for s, n in enumerate(case['sizes']):
        t = doc.create_bundle().create_tree('')
        _, ws = build([0] * n, prefix=f's{s}w', root=t)
        for after in case.get('empties', {}).get(str(s), []):
            if after % (n + 1) == 0:
                ws[0].create_empty_child('dep', after=False, form=f'e{len(t.empty_nodes)}')
            else:
                ws[after % (n + 1) - 1].create_empty_child('dep', form=f'e{len(t.empty_nodes)}')
        nodes.append(list(t.descendants_and_empty))
    return doc, nodes


def key(n):
    a, _, b = str(n.ord).partition('.')
    return (int(a), int(b or 0))


def ref_span(nodes, allnodes):
    """Maximal runs of consecutive nodes of the tree."""
    out, i = [], 0
    while i < len(allnodes):
        if any(allnodes[i] is x for x in nodes):
            j = i
            while j + 1 < len(allnodes) and any(allnodes[j + 1] is x for x in nodes):
                j += 1
            out.append(str(allnodes[i].ord) if i == j else f'{allnodes[i].ord}-{allnodes[j].ord}')
            i = j + 1
        else:
            i += 1
    return ','.join(out)


def scenario(case):
    doc, nodes = make(case)
    ents = [doc.create_coref_entity() for _ in range(case.get('entities', 2))]
    eq(len({e.eid for e in ents}), len(ents), 'entity ids')
    model = []      # [mention, sentence, set of node ids, head, entity]

    def verify(what):
        # reading the properties in a given order must not matter
        for m, s, ids, head, ent in model:
            want = [n for n in nodes[s] if id(n) in ids]
            eq([id(n) for n in m.words], [id(n) for n in want], f'{what}: words of a mention are {[str(n.ord) for n in m.words]}, expected {[str(n.ord) for n in want]}')
            check(m.head is head, f'{what}: head')
            check(any(m.head is w for w in m.words), f'{what}: head is not among the words')
            check(m.entity is ent, f'{what}: entity of the mention')
            eq(m.span, ref_span(want, nodes[s]), f'{what}: span')
        for s, ns in enumerate(nodes):
            for n in ns:
                eq(sorted(id(m) for m in n.coref_mentions), sorted(id(m[0]) for m in model if id(n) in m[2]), f'{what}: mentions of node {n.form}')
                eq(sorted(id(e) for e in n.coref_entities), sorted(id(m[4]) for m in model if id(n) in m[2]), f'{what}: entities of node {n.form}')
        for e in ents:
            eq(sorted(id(m) for m in e.mentions), sorted(id(m[0]) for m in model if m[4] is e), f'{what}: mentions of entity {e.eid}')
    for step, op in enumerate(case['ops']):
        what = f'step {step} {op}'
        k = op[0]
        if k == 'new':
            s = op[1] % len(nodes)
            ws = pick(nodes[s], op[2])
            h = ws[op[3] % len(ws)]
            e = ents[op[4] % len(ents)]
            how = op[5]
            if how == 'words':
                m = e.create_mention(head=h, words=list(ws))
            elif how == 'nohead':
                m = e.create_mention(words=list(ws))
                h = ws[0]
            elif how == 'span':
                m = e.create_mention(head=h, span=ref_span(ws, nodes[s]))
            elif how == 'head':
                m = e.create_mention(head=h)
                ws = [h]
            else:
                other = [n for n in nodes[s] if not any(n is w for w in ws)]
                if other:
                    try:
                        e.create_mention(head=other[0], words=list(ws))
                    except ValueError:
                        pass
                    else:
                        raise Fail(f'{what}: a head outside of words was accepted')
                verify(what)
                continue
            model.append([m, s, {id(w) for w in ws}, h, e])
        elif not model:
            continue
        else:
            rec = model[op[1] % len(model)]
            m, s = rec[0], rec[1]
            if k in ('words', 'span'):
                ws = pick(nodes[s], op[2])
                if op[3] and not any(w is rec[3] for w in ws):
                    ws = ws + [rec[3]]
                bad = not any(w is rec[3] for w in ws)
                try:
                    if k == 'words':
                        m.words = list(ws) + (list(ws) if op[4:] else [])
                    else:
                        m.span = ref_span(ws, nodes[s])
                except ValueError:
                    check(bad, f'{what}: legal words were refused')
                else:
                    check(not bad, f'{what}: words without the head were accepted')
                    rec[2] = {id(w) for w in ws}
            elif k == 'head':
                n = nodes[s][op[2] % len(nodes[s])]
                try:
                    m.head = n
                except ValueError:
                    check(id(n) not in rec[2], f'{what}: legal head refused')
                else:
                    check(id(n) in rec[2], f'{what}: a head outside of words was accepted')
                    rec[3] = n
            elif k == 'entity':
                e = ents[op[2] % len(ents)]
                m.entity = e
                rec[4] = e
            elif k == 'remove':
                m.remove()
                model.remove(rec)
            elif k == 'shift':
                ns = [n for n in nodes[s] if not n.is_empty()]
                a, b = ns[op[2] % len(ns)], ns[op[3] % len(ns)]
                if a is not b and len(ns) == len(nodes[s]):
                    a.shift_after_node(b)
                    nodes[s] = list(a.root.descendants_and_empty)
        verify(what)


def pick(ns, idx):
    out = []
    for i in idx:
        n = ns[i % len(ns)]
        if not any(n is x for x in out):
            out.append(n)
    return out


def spans(case):
    """nodes -> span -> nodes and span -> nodes -> span."""
    doc, nodes = make(case)
    ns = nodes[0]
    ws = pick(ns, case['pick'])
    want = [n for n in ns if any(n is w for w in ws)]
    sp = nodes_to_span(ws)
    eq(sp, ref_span(ws, ns), 'nodes_to_span')
    eq([id(n) for n in span_to_nodes(ns[0].root, sp)], [id(n) for n in want], f'span_to_nodes of {sp}: got {[str(n.ord) for n in span_to_nodes(ns[0].root, sp)]}')
    parts = sp.split(',')
    back = ','.join(reversed(parts))
    eq([id(n) for n in span_to_nodes(ns[0].root, back)], [id(n) for n in want], f'span_to_nodes of {back}')
    eq(nodes_to_span(span_to_nodes(ns[0].root, sp)), sp, 'nodes_to_span of span_to_nodes')


CHECKS = {'scenario': scenario, 'spans': spans}


def generate(rnd, tier):
    for n in range(1, 5):
        for em in ([], [1], [0, n], [1, 1, n], [1] * 11):
            if n > 2 and len(em) > 5:
                continue
            size = n + len(em)
            subsets = [[i for i in range(size) if m >> i & 1] for m in range(1, 2 ** size)] if size <= 8 else \
                [list(range(a, b + 1)) for a in range(size) for b in range(a, size)] + [[a, b] for a in range(size) for b in range(a)]
            for sub in subsets:
                yield 'spans', {'sizes': [n], 'empties': {'0': em}, 'pick': sub}
    for a in range(1, 8):
        for b in range(1, 8):
            sa, sb = [i for i in range(3) if a >> i & 1], [i for i in range(3) if b >> i & 1]
            for how in ('words', 'nohead', 'span', 'bad'):
                for e in (0, 1):
                    yield 'scenario', {'sizes': [3], 'ops': [['new', 0, sa, 1, 0, how], ['new', 0, sb, 0, e, 'words'], ['words', 0, sb, True], ['head', 0, 1], ['span', 1, sa, False], ['entity', 0, 1], ['remove', 1]]}
    yield None, None
    while True:
        if rnd.random() < .25:
            n = rnd.randrange(1, 8)
            em = [rnd.randrange(n + 1) for _ in range(rnd.choice([0, 1, 2, 12]))]
            yield 'spans', {'sizes': [n], 'empties': {'0': em}, 'pick': [rnd.randrange(30) for _ in range(rnd.randrange(1, 9))]}
            continue
        S = rnd.randrange(1, 4)
        sizes = [rnd.randrange(1, 9) for _ in range(S)]
        em = {str(s): [rnd.randrange(9) for _ in range(rnd.choice([0, 0, 1, 3]))] for s in range(S)}
        ops = []
        for _ in range(rnd.randrange(1, 16)):
            i, w = rnd.randrange(30), [rnd.randrange(30) for _ in range(rnd.randrange(1, 5))]
            k = rnd.choice(['new', 'new', 'new', 'words', 'words', 'span', 'head', 'entity', 'remove', 'shift'])
            ops.append({'new': ['new', i, w, rnd.randrange(5), rnd.randrange(5), rnd.choice(['words', 'nohead', 'span', 'head', 'bad'])], 'words': ['words', i, w, rnd.random() < .7] + (['dup'] if rnd.random() < .2 else []),
                        'span': ['span', i, w, rnd.random() < .7], 'head': ['head', i, rnd.randrange(30)], 'entity': ['entity', i, rnd.randrange(4)], 'remove': ['remove', i],
                        'shift': ['shift', i, rnd.randrange(20), rnd.randrange(20)]}[k])
        yield 'scenario', {'sizes': sizes, 'empties': em, 'entities': rnd.randrange(1, 4), 'ops': ops}
