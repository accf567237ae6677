"""Multi-word tokens and the surface text against a model: a list of (word names in order, form, misc) plus spacing flags of words."""
import itertools
from .core import Fail, check, eq
from .trees import build, well_formed, name, snap
from udapi.block.ud.removemwt import RemoveMwt


def scenario(case):
    root, words = build(case['parents'])
    n = len(words)
    nospace = {i: False for i in range(n)}
    for i in case.get('glued', []):
        if i < n:
            words[i].misc['SpaceAfter'] = 'No'
            nospace[i] = True
    model = []      # [sorted word indices, form, nospace, other misc, real object]
    topo = snap(root)

    def expected_tokens():
        out = []
        for i in range(n):
            ms = [m for m in model if i in m[0]]
            check(len(ms) <= 1, 'model')
            if not ms:
                out.append((words[i], words[i].form, nospace[i]))
            elif ms[0][0][0] == i:
                out.append((ms[0][4], ms[0][1], ms[0][2]))
        return out

    def text(toks):
        return ''.join(f + ('' if ns else ' ') for _, f, ns in toks).rstrip()

    def verify(what, pure=True):
        eq([id(m) for m in root.multiword_tokens], [id(m[4]) for m in model], f'{what}: the list of multi-word tokens of the tree')
        for idx, form, ns, misc, m in model:
            eq([w.form for w in sorted(m.words)], [words[i].form for i in idx], f'{what}: members of {form}')
            eq(len(m.words), len(idx), f'{what}: members of {form}')
            eq(m.form, form, f'{what}: form of the token')
            check(m.root is root, f'{what}: token.root')
            eq(m.no_space_after, ns, f'{what}: no_space_after of {form}')
            eq({k: v for k, v in m.misc.items() if k != 'SpaceAfter'}, misc, f'{what}: misc of {form}')
            eq(m.ord_range, f'{idx[0] + 1}-{idx[-1] + 1}', f'{what}: ord_range of {form}')
        for i in range(n):
            ms = [m for m in model if i in m[0]]
            check(words[i].multiword_token is (ms[0][4] if ms else None), lambda: f'{what}: {words[i].form}.multiword_token is wrong')
            eq(words[i].misc['SpaceAfter'] == 'No', nospace[i], f'{what}: SpaceAfter of {words[i].form}')
        if all(m[0][-1] - m[0][0] + 1 == len(m[0]) for m in model):
            toks = expected_tokens()
            eq([id(t) for t in root.token_descendants], [id(t) for t, _, _ in toks], f'{what}: token_descendants ({[t.form for t in root.token_descendants]})')
            eq(root.compute_text(), text(toks), f'{what}: compute_text of the root')
        eq(root.compute_text(use_mwt=False), text([(w, w.form, nospace[i]) for i, w in enumerate(words)]), f'{what}: compute_text without tokens')
        for w in words:
            sub, seen = [], set()
            for x in sorted([w] + w.unordered_descendants(), key=lambda x: x.ord):
                i = words.index(x)
                ms = [m for m in model if i in m[0]]
                if not ms:
                    sub.append((x, x.form, nospace[i]))
                elif id(ms[0]) not in seen:
                    seen.add(id(ms[0]))
                    sub.append((ms[0][4], ms[0][1], ms[0][2]))
            if all(m[0][-1] - m[0][0] + 1 == len(m[0]) for m in model):
                eq(w.compute_text(), text(sub), f'{what}: compute_text of {w.form}')
        eq(snap(root), topo, f'{what}: the tree changed')
    verify('at the beginning')
    for step, op in enumerate(case['ops']):
        what = f'step {step} {op}'
        if op[0] == 'create':
            idx = [i % n for i in op[1]]
            if len(set(idx)) != len(idx) or not idx:
                continue
            form, misc = f't{step}', op[2]
            given = [words[i] for i in idx]
            kept = list(given)
            m = root.create_multiword_token(given, form, dict(misc) if isinstance(misc, dict) else misc)
            eq([id(w) for w in given], [id(w) for w in kept], f'{what}: the given list was changed')
            model[:] = [x for x in model if not set(x[0]) & set(idx)]
            d = dict(misc) if isinstance(misc, dict) else dict(kv.split('=') for kv in misc.split('|')) if misc and misc != '_' else {}
            ns = d.pop('SpaceAfter', '') == 'No' or nospace[max(idx)]
            model.append([sorted(idx), form, ns, d, m])
            for i in idx:
                nospace[i] = False
        elif op[0] == 'remove':
            if not model:
                continue
            k = op[1] % len(model)
            model[k][4].remove()
            del model[k]
        elif op[0] == 'glue':
            w = op[1] % n
            words[w].misc['SpaceAfter'] = 'No' if op[2] else ''
            nospace[w] = bool(op[2])
        elif op[0] == 'gluemwt':
            if not model:
                continue
            m = model[op[1] % len(model)]
            m[4].misc['SpaceAfter'] = 'No' if op[2] else None
            m[2] = bool(op[2])
        verify(what)
    if case.get('strip'):
        if not all(m[0][-1] - m[0][0] + 1 == len(m[0]) for m in model):
            return
        want = [(w if isinstance(w, type(words[0])) else words[[m for m in model if m[4] is w][0][0][0]], f, ns) for w, f, ns in expected_tokens()]
        t = root.compute_text()
        RemoveMwt().process_tree(root)
        eq([m.form for m in root.multiword_tokens], [], 'ud.RemoveMwt: tokens left')
        eq([id(w) for w in root.descendants], [id(w) for w, _, _ in want], f'ud.RemoveMwt: words left are {[w.form for w in root.descendants]}')
        eq([(w.form, w.misc['SpaceAfter'] == 'No') for w in root.descendants], [(f, ns) for _, f, ns in want], 'ud.RemoveMwt: forms and spacing')
        eq(root.compute_text(), t, 'ud.RemoveMwt: text')
        check(all(w.multiword_token is None for w in root.descendants), 'ud.RemoveMwt: a word still has a token')
        well_formed(root)


CHECKS = {'scenario': scenario}


def shrink(name_, case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op[0] == 'create':
            for j in range(len(op[1])):
                yield dict(case, ops=ops[:i] + [['create', op[1][:j] + op[1][j + 1:], op[2]]] + ops[i + 1:])
    for k in ('glued', 'strip'):
        if case.get(k):
            yield dict(case, **{k: None if k == 'strip' else []})
    ps = case['parents']
    if len(ps) > 1 and len(ps) not in ps and all(max(op[1], default=0) < len(ps) - 1 for op in ops if op[0] == 'create'):
        yield dict(case, parents=ps[:-1])


def generate(rnd, tier):
    for n in range(1, 5):
        ranges = [list(range(a, b + 1)) for a in range(n) for b in range(a, n)]
        for k in range(1, 3 if n > 3 else 4):
            for rs in itertools.product(ranges, repeat=k):
                yield 'scenario', {'parents': [0] * n, 'ops': [['create', r, None] for r in rs], 'glued': [0, 2], 'strip': True}
                if k == 2:
                    for j in range(2):
                        yield 'scenario', {'parents': [0] + [1] * (n - 1), 'ops': [['create', r, 'A=b'] for r in rs] + [['remove', j]], 'glued': [1]}
    for p in itertools.permutations(range(3)):
        yield 'scenario', {'parents': [0, 1, 2, 1], 'ops': [['create', list(p), None]], 'glued': [0, 2], 'strip': True}
        yield 'scenario', {'parents': [0, 1, 2, 1], 'ops': [['create', list(p), 'A=b|SpaceAfter=No']], 'glued': [1]}
    for s in ([0, 2], [1, 3], [0, 3]):
        yield 'scenario', {'parents': [0, 1, 2, 1], 'ops': [['create', s, None], ['create', [1, 2], None], ['remove', 0]]}
    yield None, None
    from .trees import random_parents
    while True:
        n = rnd.randrange(1, 13)
        ops = []
        for _ in range(rnd.randrange(1, 10)):
            k = rnd.random()
            if k < .6:
                a = rnd.randrange(n)
                idx = list(range(a, min(n, a + rnd.randrange(1, 5))))
                if rnd.random() < .2:
                    rnd.shuffle(idx)
                if rnd.random() < .05:
                    idx = rnd.sample(range(n), rnd.randrange(1, n + 1))
                ops.append(['create', idx, rnd.choice([None, '_', 'A=b', 'SpaceAfter=No', {'X': '1'}])])
            elif k < .75:
                ops.append(['remove', rnd.randrange(20)])
            elif k < .9:
                ops.append(['glue', rnd.randrange(n), rnd.randrange(2)])
            else:
                ops.append(['gluemwt', rnd.randrange(20), rnd.randrange(2)])
        yield 'scenario', {'parents': random_parents(rnd, n), 'ops': ops, 'glued': [i for i in range(n) if rnd.random() < .3], 'strip': rnd.random() < .5}
