"""The drawing of a tree is decoded back into the tree."""
import contextlib
import io
import itertools
import re
from .core import Fail, check, eq
from .trees import build, parent_vectors, random_parents
from udapi.core.document import Document
from udapi.block.write.textmodetrees import TextModeTrees

NODE = '┾┮┶╼'
UP, DOWN = '┾┶', '┾┮'


def decode(lines, names):
    """rows: list of names drawn in each row; edges: {child row: parent row}."""
    sym = {}
    for r, l in enumerate(lines):
        cs = [c for c, ch in enumerate(l) if ch in NODE]
        check(len(cs) <= 1, lambda: f'two node symbols in the line {l!r}')
        if cs:
            sym[r] = cs[0]
    at = lambda r, c: lines[r][c] if 0 <= r < len(lines) and c < len(lines[r]) else ' '
    edges = {}
    for r, c in sym.items():
        for d, chars in ((-1, UP), (1, DOWN)):
            if at(r, c) not in chars:
                continue
            q = r + d
            while True:
                check(0 <= q < len(lines), lambda: f'a line from row {r} leads nowhere')
                ch = at(q, c)
                check(ch in '│╪├┡┢╭╰', lambda: f'a line from row {r} is broken at row {q}: {ch!r}')
                if ch in '├┡┢╭╰':
                    check(ch in ('├┢╭' if d < 0 else '├┡╰'), lambda: f'wrong branch {ch!r} at row {q}')
                    k = c + 1
                    while at(q, k) in '─╪':
                        check(at(q, k) != '╪' or (at(q - 1, k) in '│╪├┡┢┾┮╭' and at(q + 1, k) in '│╪├┡┢┾┶╰'), lambda: f'a bridge at row {q} crosses nothing')
                        k += 1
                    check(sym.get(q) == k, lambda: f'the edge from row {r} does not reach a node at row {q}')
                    check(q not in edges, lambda: f'two edges to row {q}')
                    edges[q] = r
                    if ch == ('╭' if d < 0 else '╰'):
                        break
                q += d
    return sym, edges


def render(tree, kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        blk = TextModeTrees(**kw)
        if kw.get('color'):
            blk.color = True
        blk.process_tree(tree)
    return out.getvalue()


def draw(case):
    doc = Document()
    root = doc.create_bundle().create_tree()
    _, ws = build(case['parents'], root=root)
    for i, f in enumerate(case.get('forms', [])):
        if i < len(ws):
            ws[i].form = f
    for k in case.get('empties', []):
        if ws:
            if k % (len(ws) + 1) == 0:
                ws[0].create_empty_child('dep', after=False, form=f'e{len(root.empty_nodes)}')
            else:
                ws[k % (len(ws) + 1) - 1].create_empty_child('dep', form=f'e{len(root.empty_nodes)}')
    for k in case.get('mark', []):
        if ws:
            ws[k % len(ws)].misc['Mark'] = '1'
    nodes = [root] + ws
    top = nodes[case.get('top', 0) % len(nodes)]
    kw = dict(case.get('kw', {}))
    before = [(w.ord, w.form, w.parent.ord, str(w.misc)) for w in ws]
    txt = render(top, kw)
    eq([(w.ord, w.form, w.parent.ord, str(w.misc)) for w in ws], before, 'drawing changed the tree')
    txt = re.sub(r'\x1b\[[0-9;]*m', '', txt).split('\n')
    eq(txt[-1], '', 'the end of the last line')
    eq(txt[-2] if kw.get('add_empty_line', True) else '', '', 'the empty line')
    lines = txt[:-2] if kw.get('add_empty_line', True) else txt[:-1]
    lines = [l for l in lines if not l.startswith('# ')]
    # expected rows: the subtree (and empty nodes) in word order
    sub = {id(top)}
    grow = True
    while grow:
        grow = False
        for w in ws:
            if id(w) not in sub and id(w.parent) in sub:
                sub.add(id(w))
                grow = True
    rows = [n for n in root.descendants_and_empty if id(n) in sub]
    if kw.get('print_empty', True):
        if top is root:
            rows = list(root.descendants_and_empty)
        else:
            a, b = rows[0], rows[-1]
            al = list(root.descendants_and_empty)
            i, j = [k for k, n in enumerate(al) if n is a][0], [k for k, n in enumerate(al) if n is b][0]
            rows = [n for k, n in enumerate(al) if i <= k <= j and (id(n) in sub or n.is_empty())]
    if top is root:
        rows = [root] + rows
    eq(len(lines), len(rows), f'number of lines of the drawing {lines}')
    attrs = kw.get('attributes', 'form,upos,deprel').split(',')
    for n, l in zip(rows, lines):
        if n is root:
            eq(l.strip(' ─┮╼'), '', 'the line of the root')
            continue
        vals = n.get_attrs(attrs, undefs='_')
        t = re.sub(r'[─┾┮┶╼│╪├┡┢╭╰]', ' ', l).replace('**', ' ')
        eq(' '.join(t.split()), ' '.join(' '.join(vals).split()), f'the text in the line {l!r}')
    sym, edges = decode(lines, None)
    for r, n in enumerate(rows):
        if n.is_empty():
            check(r not in sym, lambda: f'the empty node in row {r} is drawn as a word')
            continue
        check(r in sym, lambda: f'no node symbol in row {r}: {lines[r]!r}')
        if n is top:
            check(r not in edges, 'the top node has a parent')
        else:
            check(r in edges, lambda: f'no edge leads to row {r} in {lines}')
            eq([k for k, p in enumerate(rows) if p is n.parent], [edges[r]], f'the parent of row {r} in {lines}')


CHECKS = {'draw': draw}
KW = [{}, {'layout': 'compact'}, {'layout': 'align'}, {'layout': 'align-words'}, {'minimize_cross': False}, {'hints': False}, {'indent': 0}, {'indent': 3},
      {'attributes': 'form'}, {'print_empty': False}, {'color': True}, {'minimize_cross': False, 'layout': 'compact', 'hints': False}]


def generate(rnd, tier):
    for n in range(0, 5):
        for p in parent_vectors(n):
            for kw in (KW[:4] if n == 4 else KW):
                for top in range(n + 1 if n < 4 or kw == {} else 1):
                    yield 'draw', {'parents': p, 'kw': kw, 'top': top}
    yield None, None
    while True:
        n = rnd.randint(3, 12)
        c = {'parents': random_parents(rnd, n), 'kw': dict(rnd.choice(KW))}
        if rnd.random() < .5:
            c['kw'].update(rnd.choice(KW))
        if rnd.random() < .4:
            c['top'] = rnd.randint(0, n)
        if rnd.random() < .4:
            c['empties'] = [rnd.randint(0, n) for _ in range(rnd.randint(1, 3))]
        if rnd.random() < .3:
            c['mark'] = [rnd.randint(0, n)]
        if rnd.random() < .5:
            c['forms'] = [rnd.choice(['a', 'bb', 'long_word', '1', 'x-y']) for _ in range(n)]
        yield 'draw', c


def shrink(name, case):
    for k in ('empties', 'mark', 'forms', 'top'):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}
    for k in case.get('kw', {}):
        yield dict(case, kw={a: b for a, b in case['kw'].items() if a != k})
    p = case['parents']
    for i in range(len(p), 0, -1):
        up = p[i - 1]
        yield dict(case, parents=[(up if x == i else x) - (1 if (up if x == i else x) > i else 0) for k, x in enumerate(p, 1) if k != i])
