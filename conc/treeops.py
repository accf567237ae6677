"""Sequences of tree edits against the model (C01, C02)."""
from .core import Fail, check, eq
from .trees import *

KINDS = ['after_node', 'before_node', 'after_subtree', 'before_subtree']


def do_ops(case):
    """case: parents, other (parents of a second tree), empties (positions), ops."""
    root, nodes = build(case['parents'])
    m = Model(case['parents'])
    oroot, onodes = build(case.get('other', [0]), 'o')
    om = Model(case.get('other', [0]), 'o')
    agrees(root, m, 'after building')
    empties = []
    for e in case.get('empties', []):
        if not nodes:
            break
        base = root.descendants[e % len(nodes)]
        empties.append(base.create_empty_child('dep', form=f'e{len(empties)}'))
    created = [0]
    for step, op in enumerate(case['ops']):
        ws = list(root.descendants)
        byname = {w.form: w for w in ws}
        allw = [root] + ws
        before_o = snap_full(oroot)
        kept = {w.form: (id(w), w.lemma, w.deprel, w.upos) for w in ws}
        kind = op[0]
        what = f'step {step} {op}'
        m0 = m.copy()
        if kind == 'child':
            p = allw[op[1] % len(allw)]
            created[0] += 1
            nm = f'c{created[0]}'
            c = p.create_child(form=nm, lemma='l' + nm)
            m.words.append(nm)
            m.par[nm] = name(p)
            check(c.form == nm and c.lemma == 'l' + nm and c.parent is p, f'{what}: the new child has wrong attributes')
            kept[nm] = (id(c), 'l' + nm, None, None)
        elif kind == 'flatten':
            root.flatten()
            for w in m.words:
                m.par[w] = ''
        elif not ws:
            continue
        elif kind == 'parent':
            x, y = ws[op[1] % len(ws)], allw[op[2] % len(allw)]
            bad = y is x or name(x) in m.anc(name(y))
            expect(lambda: setattr(x, 'parent', y), bad, what, root)
            if not bad:
                m.par[name(x)] = name(y)
        elif kind == 'parent_none':
            expect(lambda: setattr(ws[op[1] % len(ws)], 'parent', None), True, what, root)
        elif kind == 'parent_empty':
            e = empties[0] if empties else ws[0].create_empty_child('dep')
            expect(lambda: setattr(ws[op[1] % len(ws)], 'parent', e), True, what, root)
            if not empties:
                root.empty_nodes.clear()
        elif kind == 'parent_other':
            oall = [oroot] + list(oroot.descendants)
            expect(lambda: setattr(ws[op[1] % len(ws)], 'parent', oall[op[2] % len(oall)]), True, what, root)
        elif kind == 'remove':
            x = ws[op[1] % len(ws)]
            if op[2] is None:
                x.remove()
            else:
                x.remove(children=op[2])
            m.remove(name(x), bool(op[2]) and op[2].startswith('rehang'))
        elif kind == 'shift':
            _, k, xi, yi, wc, skip = op
            x, y = ws[xi % len(ws)], allw[yi % len(allw)]
            nx, ny = name(x), name(y)
            moved = {nx} if wc else {nx} | set(m.desc(nx))
            isdesc = nx in m.anc(ny)
            sub = [ny] + ([w for w in m.desc(ny) if w != nx])
            refpos = {'after_node': m.ord(ny) + 1, 'before_node': m.ord(ny),
                      'after_subtree': max(map(m.ord, sub)) + 1, 'before_subtree': min(map(m.ord, sub))}[k]
            bad, noop = False, False
            if k.startswith('before') and ny == '':
                bad = True
            elif not wc and isdesc:
                bad, noop = not skip, skip
            f = lambda: getattr(x, 'shift_' + k)(y, without_children=wc, skip_if_descendant=skip)
            expect(f, bad, what, root)
            if not bad and not noop:
                m.shift(moved, refpos)
        else:
            raise ValueError(kind)
        agrees(root, m, what)
        if snap_full(oroot) != before_o:
            raise Fail(f'{what}: another tree was changed')
        for w in root.descendants:
            if w.form in kept and kept[w.form] != (id(w), w.lemma, w.deprel, w.upos):
                raise Fail(f'{what}: the word {w.form} was replaced or its attributes changed')
    agrees(oroot, om, 'the other tree')


def expect(f, bad, what, root):
    before = snap_full(root)
    try:
        f()
    except Exception as e:      # noqa
        if not bad:
            raise Fail(f'{what}: unexpected {type(e).__name__}: {e}')
        if snap_full(root) != before:
            raise Fail(f'{what}: refused with {type(e).__name__} but the tree has changed')
        return
    if bad:
        raise Fail(f'{what}: not refused')


def rand_op(rnd, kinds):
    k = rnd.choice(kinds)
    r = lambda: rnd.randrange(60)
    if k == 'child':
        return ['child', r()]
    if k == 'flatten':
        return ['flatten']
    if k == 'remove':
        return ['remove', r(), rnd.choice([None, None, 'rehang', 'warn', 'rehang_warn'])]
    if k == 'shift':
        return ['shift', rnd.choice(KINDS), r(), r(), rnd.random() < .35, rnd.random() < .3]
    return [k, r(), r()]


def rand_empties(rnd):
    if rnd.random() < .1:      # ten and more empty nodes after one word (their ords are not floats)
        return [rnd.randrange(20)] * rnd.randrange(9, 13) + [rnd.randrange(20) for _ in range(rnd.randrange(3))]
    return [rnd.randrange(20) for _ in range(rnd.choice([0, 0, 0, 1, 3]))]


def shrink_ops(name, case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    ps = case['parents']
    if ps and len(ps) not in ps:
        yield dict(case, parents=ps[:-1])
    for i, p in enumerate(ps):
        if p:
            yield dict(case, parents=ps[:i] + [0] + ps[i + 1:])
    if case.get('empties'):
        yield dict(case, empties=case['empties'][:-1])
