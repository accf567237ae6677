"""Every query of every node against the definitions."""
from .trees import *
from .core import Fail, check, eq
from udapi.core.document import Document

def queries(case):
    ps = case['parents']
    root, nodes = build(ps)
    for op in case.get('ops', []):
        ws = list(root.descendants)
        if op[0] == 'shift' and ws:
            x, y = ws[op[1] % len(ws)], ws[op[2] % len(ws)]
            x.shift_after_node(y, skip_if_descendant=True)
        elif op[0] == 'remove' and len(ws) > 1:
            ws[op[1] % len(ws)].remove(children='rehang')
    for e in case.get('empties', []):
        if root.descendants:
            root.descendants[e % len(root.descendants)].create_empty_child('dep', after=bool(e % 2), form=f'e{e}')
    well_formed(root)
    ws = list(root.descendants)
    m = Model([])
    m.words = [w.form for w in ws]
    m.par = {w.form: name(w.parent) for w in ws}
    before = snap_full(root)
    byname = {w.form: w for w in ws}
    byname[''] = root
    N = len(ws)
    nm = lambda l: [name(x) for x in l]
    allw = [root] + ws

    def variants(lst, want, x, what):
        o = m.ord(x)
        eq(nm(lst), want, what)
        withs = sorted(want + [x], key=m.ord)
        for add in (0, 1):
            base = withs if add else want
            for mode in ('', 'preceding_only', 'following_only'):
                w = [y for y in base if not mode or (m.ord(y) <= o if mode == 'preceding_only' else m.ord(y) >= o)]
                kw = {mode: True} if mode else {}
                # a new list for every call
                l2 = get()
                eq(nm(l2(add_self=bool(add), **kw)), w, f'{what}(add_self={add}, {mode})')
    for n in allw:
        x = name(n)
        get = lambda: n.children
        variants(n.children, m.children(x), x, f'{x or "root"}.children')
        d = m.desc(x)
        get = lambda: n.descendants
        variants(n.descendants, d, x, f'{x or "root"}.descendants')
        ud = nm(n.unordered_descendants())
        check(sorted(ud, key=m.ord) == d, lambda: f'{x}.unordered_descendants(): {ud}, expected {d} in any order')
        eq(n.is_leaf(), not m.children(x), f'{x}.is_leaf()')
        o = m.ord(x)
        p, q = n.prev_node, n.next_node
        eq(None if p is None else name(p), None if o == 0 else ('' if o == 1 else m.words[o - 2]), f'{x}.prev_node')
        eq(None if q is None else name(q), None if o == N else m.words[o], f'{x}.next_node')
        for k in allw:
            eq(bool(n.is_descendant_of(k)), name(k) in m.anc(x), f'{x}.is_descendant_of({name(k)})')
            eq(n.precedes(k), o < m.ord(name(k)), f'{x}.precedes({name(k)})')
            eq(n < k, o < m.ord(name(k)), f'{x} < {name(k)}')
        eq(bool(n.is_descendant_of(None)), False, 'is_descendant_of(None)')
        if x:
            get = lambda: n.siblings
            variants(n.siblings, [w for w in m.children(m.par[x]) if w != x], x, f'{x}.siblings')
            pp = m.par[x]
            lo, hi = sorted([o, m.ord(pp)])
            nonproj = pp != '' and any(pp not in m.anc(w) for w in m.words[lo:hi - 1])
            eq(n.is_nonprojective(), nonproj, f'{x}.is_nonprojective()')
            gap = False
            for y in m.words:
                if y == x or y in m.anc(x):
                    continue
                span = [m.ord(w) for w in [y] + m.desc(y)]
                if min(span) < o < max(span):
                    gap = True
            eq(n.is_nonprojective_gap(), gap, f'{x}.is_nonprojective_gap()')
    ee = root.descendants_and_empty
    eq(sorted([e.ord for e in root.empty_nodes] + list(range(1, N + 1))), [e.ord for e in ee], 'descendants_and_empty')
    # the lists handed out are the caller's own
    for n in allw:
        for l in (n.children, n.descendants, n.unordered_descendants()):
            l.append(None)
            del l[0]
    if snap_full(root) != before:
        raise Fail('asking queries changed the tree')


def across(case):
    """precedes() of words of different trees."""
    doc = Document()
    roots = []
    for i, z in enumerate(case['zones']):
        b = doc.create_bundle()
        r, ns = build([0, 1], 'w', root=b.create_tree(z))
        roots.append(r)
    for i, r in enumerate(roots):
        for j, q in enumerate(roots):
            for a in r.descendants:
                for b in q.descendants:
                    try:
                        got = a.precedes(b)
                    except ValueError:
                        got = 'ValueError'
                    want = a.ord < b.ord if i == j else ('ValueError' if case['zones'][i] != case['zones'][j] else i < j)
                    eq(got, want, f'word of tree {i} precedes word of tree {j}')


CHECKS = {'queries': queries, 'across': across}


def shrink(name_, case):
    for k in ('ops', 'empties'):
        v = case.get(k) or []
        for i in range(len(v)):
            yield dict(case, **{k: v[:i] + v[i + 1:]})
    ps = case.get('parents')
    if ps:
        if len(ps) not in ps:
            yield dict(case, parents=ps[:-1])
        for i, p in enumerate(ps):
            if p:
                yield dict(case, parents=ps[:i] + [0] + ps[i + 1:])


def generate(rnd, tier):
    for zs in (['', '', ''], ['a', 'a'], ['a', 'b'], [None, None]):
        yield 'across', {'zones': zs}
    for n in range(0, 5 if tier == 'quick' else 6):
        for v in parent_vectors(n):
            yield 'queries', {'parents': v}
    yield None, None
    while True:
        yield 'queries', {'parents': random_parents(rnd, rnd.choice([5, 6, 7, 8, 11])),
                          'empties': [rnd.randrange(20) for _ in range(rnd.choice([0, 0, 2, 4]))],
                          'ops': [[rnd.choice(['shift', 'shift', 'remove']), rnd.randrange(30), rnd.randrange(30)] for _ in range(rnd.choice([0, 0, 1, 3]))]}
