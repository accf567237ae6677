"""Enhanced dependencies and empty nodes against a model (pairs of node names, slots of empty nodes)."""
import itertools
from .core import Fail, check, eq
from .trees import build, name, well_formed
from udapi.core.root import Root


def key(o):
    """Position of an ord as a pair of integers (from its printed form)."""
    a, _, b = str(o).partition('.')
    return (int(a), int(b) if b else 0)


def scenario(case):
    root, words = build(case['parents'])
    n = len(words)
    slots = {i: [] for i in range(n + 1)}      # word ord -> empty nodes after it, in order
    deps = {'': []}                            # node name -> list of (parent name, deprel)
    obj = {'': root}
    for i, w in enumerate(words):
        obj[w.form] = w
        deps[w.form] = []
    cnt = [0]
    alldeser = [False]

    def nodes_now():
        return words + [e for i in range(len(words) + 1) for e in slots[i]]

    def ordname(x):
        return str(x.ord)

    def text(x):
        return '|'.join(f'{ordname(obj[p])}:{d}' for p, d in deps[x]) or '_'

    def verify(what, lazy=False):
        n = len(words)
        emp = [e for i in range(n + 1) for e in slots[i]]
        eq([id(e) for e in root.empty_nodes], [id(e) for e in emp], f'{what}: root.empty_nodes (in order) {[str(e.ord) for e in root.empty_nodes]} expected {[str(e.ord) for e in emp]}')
        ks = [key(e.ord) for e in emp]
        check(ks == sorted(ks) and len(set(ks)) == len(ks), lambda: f'{what}: ords of empty nodes {[str(e.ord) for e in emp]}')
        for i in range(n + 1):
            for e in slots[i]:
                a, b = key(e.ord)
                check(a == i and b >= 1, lambda: f'{what}: {e.form} is at {e.ord}, expected between {i} and {i + 1}')
                check(e.ord > i and e.ord < i + 1 and not e.ord == i, lambda: f'{what}: comparison of {e.ord}')
        for a, b in zip(emp, emp[1:]):
            check(a < b and not b < a, lambda: f'{what}: {a.ord} < {b.ord} does not hold')
        eq([w.ord for w in words], list(range(1, n + 1)), f'{what}: ords of words')
        check([id(x) for x in root.descendants_and_empty] == [id(x) for i in range(n + 1) for x in ([words[i - 1]] if i else []) + slots[i]],
              lambda: f'{what}: descendants_and_empty {[str(x.ord) for x in root.descendants_and_empty]}')
        if lazy:
            return
        for x in nodes_now():
            # both forms, in either order
            if case.get('rawfirst'):
                eq(x.raw_deps, text(x.form), f'{what}: raw_deps of {x.form}')
            eq([(name(d['parent']) if not d['parent'].is_empty() else d['parent'].form, d['deprel']) for d in x.deps], deps[x.form], f'{what}: deps of {x.form}')
            for d, (p, _) in zip(x.deps, deps[x.form]):
                check(d['parent'] is obj[p], lambda: f'{what}: deps of {x.form} point to another node than {p}')
            eq(x.raw_deps, text(x.form), f'{what}: raw_deps of {x.form}')
    for step, op in enumerate(case['ops']):
        what = f'step {step} {op}'
        k = op[0]
        n = len(words)
        ns = nodes_now()
        alln = [root] + ns
        if k == 'empty':
            base = words[op[1] % n]
            after = op[2]
            slot = base.ord if after else base.ord - 1
            cnt[0] += 1
            f = f'e{cnt[0]}'
            e = base.create_empty_child(op[3], after=after, form=f) if op[4:] == [] else base.create_empty_child(op[3], after, form=f)
            check(e.form == f and e.is_empty() and e.root is root, f'{what}: attributes of the new node')
            slots[slot].append(e)
            obj[f] = e
            deps[f] = [(base.form, op[3])]
        elif k == 'remove':
            emp = [e for e in ns if e.is_empty()]
            if not emp:
                continue
            e = emp[op[1] % len(emp)]
            e.remove()
            for s in slots.values():
                s[:] = [x for x in s if x is not e]
            f = e.form
            del deps[f]
            for x in deps:
                deps[x] = [(p, d) for p, d in deps[x] if p != f]
            if op[2:]:
                e.remove()      # removing it again has no effect
        elif k == 'rmword':
            # a word (with its subtree, or its children rehanged) disappears: the empty nodes keep their place between the remaining words
            w = words[op[1] % n]
            sub = [w] if op[2] else [x for x in words if x is w or x.is_descendant_of(w)]
            if len(sub) == n:
                continue
            gone = {x.form for x in sub}
            for x in ns:
                if any(p in gone for p, _ in deps[x.form]):
                    x.deps = [d for d in x.deps if d['parent'] not in sub]
                    deps[x.form] = [(p, d) for p, d in deps[x.form] if p not in gone]
                x.deps      # numbers in texts not yet deserialized would go stale (by design)
            w.remove(children='rehang') if op[2] else w.remove()
            new, cur = {0: []}, 0
            new[0] += slots[0]
            for x in words:
                i = words.index(x) + 1
                if x not in sub:
                    cur += 1
                    new[cur] = []
                new[cur] += slots[i]
            words = [x for x in words if x not in sub]
            slots.clear()
            slots.update(new)
            for f in gone:
                del deps[f]
        elif k == 'deps':
            x = ns[op[1] % len(ns)]
            v = [(alln[i % len(alln)], d) for i, d in op[2]]
            x.deps = [{'parent': p, 'deprel': d} for p, d in v]
            deps[x.form] = [(p.form if not p.is_root() else '', d) for p, d in v]
        elif k == 'raw':
            x = ns[op[1] % len(ns)]
            v = [(alln[i % len(alln)], d) for i, d in op[2]]
            x.raw_deps = '|'.join(f'{p.ord}:{d}' for p, d in v) or '_'
            deps[x.form] = [(p.form if not p.is_root() else '', d) for p, d in v]
        elif k == 'append':
            x = ns[op[1] % len(ns)]
            p = alln[op[2] % len(alln)]
            x.deps.append({'parent': p, 'deprel': op[3]})
            deps[x.form].append((p.form if not p.is_root() else '', op[3]))
        elif k == 'read':
            x = ns[op[1] % len(ns)]
            eq([d['deprel'] for d in x.deps], [d for _, d in deps[x.form]], what)
        elif k == 'readraw':
            x = ns[op[1] % len(ns)]
            eq(x.raw_deps, text(x.form), what)
        verify(what, lazy=case.get('lazy'))
    verify('at the end')
    well_formed(root)


def relative_to_empty(case):
    """An empty node created relative to another empty node."""
    root, words = build([0, 1])
    e = words[0].create_empty_child('dep', form='e1')
    x = e.create_empty_child('dep', after=case['after'], form='x')
    check(key(x.ord)[0] == 1 and 1 <= key(x.ord)[1] <= 9, lambda: f'the new node got ord {x.ord}')
    check((x > e) == case['after'], lambda: f'the new node got ord {x.ord}, the old one has {e.ord}')


def many(case):
    """Operations on ten and more empty nodes after one word."""
    root, words = build([0, 1])
    es = [words[0].create_empty_child('dep', form=f'e{i}') for i in range(case['n'])]
    es[case['k']].remove()
    del es[case['k']]
    eq([x.form for x in root.empty_nodes], [x.form for x in es], 'empty nodes')
    ks = [key(e.ord) for e in es]
    check(ks == sorted(ks) and len(set(ks)) == len(ks) and all(k[0] == 1 for k in ks), lambda: f'ords {[str(e.ord) for e in es]}')


def bad(case):
    """Dependencies naming nodes that do not exist are refused."""
    root, words = build([0, 1])
    words[0].raw_deps = case['raw']
    try:
        d = words[0].deps
    except (ValueError, IndexError):
        return
    raise Fail(f'deps of {case["raw"]} are {[(x["parent"].ord, x["deprel"]) for x in d]}')


CHECKS = {'scenario': scenario, 'relative_to_empty': relative_to_empty, 'many': many, 'bad': bad}
DR = ['dep', 'nsubj:pass', 'a:b:c', 'conj>x', 'ref']


def shrink(name_, case):
    if 'ops' not in case:
        return
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op[0] in ('deps', 'raw'):
            for j in range(len(op[2])):
                yield dict(case, ops=ops[:i] + [[op[0], op[1], op[2][:j] + op[2][j + 1:]]] + ops[i + 1:])
    ps = case['parents']
    if len(ps) > 1 and len(ps) not in ps:
        yield dict(case, parents=ps[:-1])


def generate(rnd, tier):
    for r in ('1.1:dep', '3:dep', '0:root|2.1:x', '2.1:x|1:dep'):
        yield 'bad', {'raw': r}
    # all placements of up to four empty nodes, then removing each of them
    for n in (1, 2):
        for k in range(1, 5):
            for pos in itertools.product([(i, a) for i in range(n) for a in (True, False)], repeat=k):
                if n == 2 and k == 4 and pos[0][0]:
                    continue
                base = [['empty', i, a, 'dep'] for i, a in pos]
                ref = [['raw', j, [[n + 1 + (j % k), 'x'], [0, 'root'], [n + 1 + ((j + 1) % k), 'y:z']]] for j in range(n + k)]
                for j in range(k):
                    for lz in (True, False):
                        yield 'scenario', {'parents': [0] * n, 'ops': base + ref + [['remove', j]], 'lazy': lz}
    for m in (9, 10, 11, 12, 14):
        for k in (0, 3, m - 1, 8):
            yield 'many', {'n': m, 'k': k}
    for m in (9, 10, 11, 13, 21):
        for lz in (True, False):
            yield 'scenario', {'parents': [0, 0], 'ops': [['empty', 0, True, 'dep'] for _ in range(m)] + [['empty', 1, True, 'd'], ['empty', 1, False, 'd'], ['empty', 0, False, 'd'],
                                                          ['raw', 0, [[i, 'dep'] for i in range(m + 5)]]], 'lazy': lz}
    yield None, None
    while True:
        n = rnd.choice([1, 2, 3, 5, 12])
        ops = [['empty', 0, True, 'dep']] * rnd.choice([0, 0, 0, 9, 11])
        pairs = lambda: [[rnd.randrange(40), rnd.choice(DR)] for _ in range(rnd.randrange(0, 4))]
        for _ in range(rnd.randrange(1, 14)):
            k = rnd.choice(['empty', 'empty', 'empty', 'remove', 'deps', 'raw', 'raw', 'append', 'read', 'readraw', 'rmword'])
            i = rnd.randrange(40)
            ops.append({'empty': lambda: ['empty', i, rnd.random() < .6, rnd.choice(DR)], 'remove': lambda: ['remove', i] + (['again'] if rnd.random() < .2 else []),
                        'deps': lambda: ['deps', i, pairs()], 'raw': lambda: ['raw', i, pairs()], 'append': lambda: ['append', i, rnd.randrange(40), rnd.choice(DR)],
                        'rmword': lambda: ['rmword', i, rnd.random() < .4],
                        'read': lambda: ['read', i], 'readraw': lambda: ['readraw', i]}[k]())
        ps = [0] * n if rnd.random() < .3 else [rnd.randrange(i + 1) for i in range(n)]
        yield 'scenario', {'parents': ps, 'ops': ops, 'lazy': rnd.random() < .6, 'rawfirst': rnd.random() < .5}
