"""Building trees, their snapshots, and an independent model of trees (word list + parent map)."""
import itertools
from udapi.core.root import Root
from udapi.core.node import Node
from udapi.core.document import Document
from .core import Fail, check, eq


def parent_vectors(n):
    """All trees over words 1..n: parents[i-1] in 0..n, acyclic."""
    for v in itertools.product(range(n + 1), repeat=n):
        if acyclic(v):
            yield list(v)


def acyclic(v):
    for i in range(1, len(v) + 1):
        x, k = i, 0
        while x:
            x = v[x - 1]
            k += 1
            if k > len(v):
                return False
    return True


def random_parents(rnd, n):
    order = list(range(1, n + 1))
    rnd.shuffle(order)
    v = [0] * n
    style = rnd.random()
    for k, x in enumerate(order):
        cand = [0] + order[:k]
        v[x - 1] = rnd.choice(cand[-2:]) if style < .4 else rnd.choice(cand)
    return v


def build(parents, prefix='w', attrs=None, root=None):
    """A real tree; word i has form <prefix>i."""
    root = root if root is not None else Root()
    nodes = [root.create_child(form=f'{prefix}{i + 1}', deprel='dep') for i in range(len(parents))]
    # attach top-down so that no intermediate cycle is asked for
    done = {0}
    todo = list(range(1, len(parents) + 1))
    while todo:
        rest = []
        for i in todo:
            if parents[i - 1] in done:
                nodes[i - 1].parent = nodes[parents[i - 1] - 1] if parents[i - 1] else root
                done.add(i)
            else:
                rest.append(i)
        todo = rest
    return root, nodes


class Model:
    """words: names in word order; par: name -> parent name ('' is the root)."""

    def __init__(self, parents, prefix='w'):
        self.words = [f'{prefix}{i + 1}' for i in range(len(parents))]
        self.par = {f'{prefix}{i + 1}': (f'{prefix}{p}' if p else '') for i, p in enumerate(parents)}

    def children(self, x):
        return [w for w in self.words if self.par[w] == x]

    def anc(self, x):
        """Proper ancestors of x including the root."""
        out = []
        while x != '':
            x = self.par[x]
            out.append(x)
        return out

    def desc(self, x):
        return [w for w in self.words if x in self.anc(w)]

    def ord(self, x):
        return 0 if x == '' else self.words.index(x) + 1

    def copy(self):
        m = Model([])
        m.words, m.par = list(self.words), dict(self.par)
        return m

    def remove(self, x, rehang):
        if rehang:
            for ch in self.children(x):
                self.par[ch] = self.par[x]
            gone = [x]
        else:
            gone = [x] + self.desc(x)
        self.words = [w for w in self.words if w not in gone]
        for g in gone:
            del self.par[g]

    def shift(self, moved, refpos):
        """refpos: the moved block is placed before the first unmoved word with old ord >= refpos."""
        old = self.words
        left = [w for i, w in enumerate(old, 1) if w not in moved and i < refpos]
        right = [w for i, w in enumerate(old, 1) if w not in moved and i >= refpos]
        self.words = left + [w for w in old if w in moved] + right


def name(n):
    return '' if n.is_root() else n.form


def snap(root):
    """Everything C01-C03 talk about, read off the real tree."""
    out = []
    for n in [root] + list(root.descendants):
        out.append((n.form, id(n), n.ord, id(n.parent), [id(c) for c in n.children], id(n.root), n.lemma, n.deprel))
    return out


def snap_full(root):
    return (snap(root), [(id(e), e._ord, e.form) for e in root.empty_nodes],
            [(id(m), [id(w) for w in m.words], m.form, id(m.root)) for m in root.multiword_tokens])


def well_formed(root, what='tree'):
    ws = root.descendants
    n = len(ws)
    check(root.ord == 0, f'{what}: the root has ord {root.ord}')
    check(root.parent is None, f'{what}: the root has a parent')
    eq([w.ord for w in ws], list(range(1, n + 1)), f'{what}: ords of root.descendants')
    check(len({id(w) for w in ws}) == n, f'{what}: a word listed twice')
    ids = {id(w) for w in ws}
    for w in ws:
        check(w.root is root, lambda: f'{what}: {w.form}.root is another root')
        check(type(w) is Node, f'{what}: word of type {type(w)}')
        p = w.parent
        check(p is not None and (p is root or id(p) in ids), lambda: f'{what}: the parent of {w.form} is not in the tree')
        check(sum(c is w for c in p.children) == 1, lambda: f'{what}: {w.form} is listed {sum(c is w for c in p.children)}x among the children of its parent {name(p)!r}')
        k, x = 0, w
        while x is not root:
            x = x.parent
            k += 1
            check(k <= n and x is not None, lambda: f'{what}: {w.form} does not reach the root')
    for p in [root] + list(ws):
        for c in p.children:
            check(c.parent is p, lambda: f'{what}: {name(c)!r} is listed as a child of {name(p)!r} but its parent is {name(c.parent) if c.parent is not None else None!r}')
            check(id(c) in ids, lambda: f'{what}: child {name(c)!r} of {name(p)!r} is not a word of the tree')
        os_ = [c.ord for c in p.children]
        check(os_ == sorted(os_), lambda: f'{what}: children of {name(p)!r} not in word order: {os_}')


def agrees(root, m, what='tree'):
    well_formed(root, what)
    eq([w.form for w in root.descendants], m.words, f'{what}: words in order')
    eq({w.form: name(w.parent) for w in root.descendants}, m.par, f'{what}: attachments')
