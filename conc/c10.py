"""Documents, bundles and zones against a model: list of [bundle object, id, [(tree object, zone)]]."""
import itertools
import re
from .core import Fail, check, eq
from .trees import build
from udapi.core.bundle import Bundle
from udapi.core.document import Document
from udapi.core.root import Root
from udapi.core.run import Run
from udapi.block.util.split import Split
from udapi.block.util.splitsentence import SplitSentence
from udapi.block.util.joinsentence import JoinSentence
from udapi.block.segment.simple import Simple
from udapi.block.udpipe.base import Base

GOODZONE = re.compile(r'[a-z-]*(_[A-Za-z0-9-]+)?')


def legal(z):
    return isinstance(z, str) and GOODZONE.fullmatch(z) is not None and z != 'all'


def verify(doc, model, what, ids=True):
    eq([id(b) for b in doc.bundles], [id(m[0]) for m in model], f'{what}: bundles of the document')
    eq([b.number for b in doc.bundles], list(range(1, len(model) + 1)), f'{what}: bundle numbers')
    for b, bid, trees in model:
        check(b.document is doc, f'{what}: bundle.document')
        if ids:
            eq(b.bundle_id, bid, f'{what}: bundle_id')
            eq(b.address(), bid, f'{what}: address of the bundle')
        eq([id(t) for t in b.trees], [id(t) for t, _ in trees], f'{what}: trees of bundle {bid}')
        eq([t.zone for t in b.trees], [z for _, z in trees], f'{what}: zones of bundle {bid}')
        check(len({t.zone for t in b.trees}) == len(b.trees), lambda: f'{what}: bundle {bid} has zones {[t.zone for t in b.trees]}')
        for t, z in trees:
            check(t.bundle is b, f'{what}: tree.bundle')
            check(b.get_tree(z) is t, f'{what}: get_tree({z!r})')
            check(b.has_tree(z), f'{what}: has_tree({z!r})')
            eq(t.sent_id, (bid if ids else b.bundle_id) + ('/' + z if z else ''), f'{what}: sent_id of the tree with zone {z!r}')
            eq(t.address(), t.sent_id, f'{what}: address of the tree with zone {z!r}')
        for z in ('', 'en', 'cs', 'zz'):
            if z not in [y for _, y in trees]:
                check(not b.has_tree(z), f'{what}: has_tree({z!r}) of a missing zone')
                try:
                    b.get_tree(z)
                except Exception:
                    continue
                raise Fail(f'{what}: get_tree({z!r}) of a missing zone does not fail')


def refused(f, what, bad):
    try:
        f()
    except Exception as e:  # noqa
        check(bad, lambda: f'{what}: refused: {type(e).__name__}: {e}')
        return True
    check(not bad, f'{what}: must be refused')
    return False


def scenario(case):
    doc = Document()
    model = []
    made = [0]
    for step, op in enumerate(case['ops']):
        what = f'step {step} {op}'
        k = op[0]
        alltrees = [(m, t) for m in model for t in m[2]]
        if k == 'bundle':
            b = doc.create_bundle()
            made[0] += 1
            if op[1:]:
                b.bundle_id = op[1]
            model.append([b, op[1] if op[1:] else str(made[0]), []])
        elif not model:
            continue
        elif k == 'remove':
            i = op[1] % len(model)
            model[i][0].remove()
            del model[i]
        elif k == 'tree':
            m = model[op[1] % len(model)]
            z = op[2]
            res = []
            bad = (z or '') in [y for _, y in m[2]] or not legal(z or '')
            if not refused(lambda: res.append(m[0].create_tree(zone=z)), what, bad):
                m[2].append((res[0], z or ''))
        elif k == 'add':
            m = model[op[1] % len(model)]
            z = op[2]
            r = Root(zone=z)
            if op[3:]:
                r.sent_id = op[3]
            bad = (z or '') in [y for _, y in m[2]] or not legal(z or '')
            if not refused(lambda: m[0].add_tree(r), what, bad):
                m[2].append((r, z or ''))
        elif k == 'id':
            m = model[op[1] % len(model)]
            m[0].bundle_id = op[2]
            m[1] = op[2]
        elif not alltrees:
            continue
        elif k == 'zone':
            m, (t, z0) = alltrees[op[1] % len(alltrees)]
            z = op[2]
            bad = z != z0 and (z in [y for _, y in m[2]] or not legal(z))
            if not refused(lambda: setattr(t, 'zone', z), what, bad):
                m[2][:] = [(x, z if x is t else y) for x, y in m[2]]
        elif k == 'sid':
            m, (t, z0) = alltrees[op[1] % len(alltrees)]
            parts = op[2].split('/', 1)
            z = parts[1] if len(parts) == 2 else z0
            bad = z != z0 and (z in [y for _, y in m[2]] or not legal(z))
            if bad:
                parts = [m[1]]
                z = z0
                old = m[1]
                refused(lambda: setattr(t, 'sent_id', op[2]), what, True)
                m[1] = m[0].bundle_id       # either both the bundle id and nothing else, or nothing
                check(m[1] in (old, op[2].split('/', 1)[0]), f'{what}: bundle id {m[1]}')
            else:
                t.sent_id = op[2]
                m[1] = parts[0]
                m[2][:] = [(x, z if x is t else y) for x, y in m[2]]
        elif k == 'deltree':
            m, (t, z) = alltrees[op[1] % len(alltrees)]
            t.remove()
            m[2][:] = [x for x in m[2] if x[0] is not t]
        if not case.get('lazy'):
            verify(doc, model, what)
    verify(doc, model, 'at the end')


def order_of(doc, forms, what):
    verify(doc, [[b, b.bundle_id, [(t, t.zone) for t in b.trees]] for b in doc.bundles], what)
    eq([[w.form for w in t.descendants] for b in doc.bundles for t in b.trees], forms, f'{what}: words of trees in document order')
    check(len({b.bundle_id for b in doc.bundles}) == len(doc.bundles), lambda: f'{what}: bundle ids {[b.bundle_id for b in doc.bundles]}')


def blocks(case):
    """Blocks which create and remove bundles."""
    doc = Document()
    forms = []
    for s, n in enumerate(case['sizes']):
        b = doc.create_bundle()
        b.bundle_id = f's{s}'
        t = b.create_tree('')
        build([0] + list(range(1, n)), prefix=f'{s}_', root=t)
        forms.append([f'{s}_{i + 1}' for i in range(n)])
    S, k = len(forms), case['kind']
    if k == 'split_id':
        i, w = case['at'][0] % S, 0
        w = 1 + case['at'][1] % max(1, len(forms[i]) - 1)
        if len(forms[i]) < 2:
            return
        SplitSentence(sent_id=f's{i}', word_id=w + 1).process_document(doc)
        forms[i:i + 1] = [forms[i][:w], forms[i][w:]]
    elif k == 'split_misc':
        new = []
        for i, fs in enumerate(forms):
            cut = sorted({1 + x % max(1, len(fs) - 1) for j, x in case['cuts'] if j % S == i and len(fs) > 1})
            for c in cut:
                doc.bundles[i].trees[0].descendants[c].misc['Split'] = 'Yes'
            new += [fs[a:b] for a, b in zip([0] + cut, cut + [len(fs)])]
        SplitSentence(misc_name='Split').process_document(doc)
        forms = new
    elif k == 'join_id':
        if S < 2:
            return
        i = 1 + case['at'][0] % (S - 1)
        JoinSentence(sent_id=f's{i}').process_document(doc)
        forms[i - 1:i + 1] = [forms[i - 1] + forms[i]]
    elif k == 'join_misc':
        new = []
        marked = {1 + j % (S - 1) for j, _ in case['cuts']} if S > 1 else set()
        for i, fs in enumerate(forms):
            if i in marked:
                doc.bundles[i].trees[0].descendants[0].misc['Join'] = 'Yes'
                new[-1] = new[-1] + fs
            else:
                new.append(fs)
        JoinSentence(misc_name='Join').process_document(doc)
        forms = new
    elif k == 'parts':
        sp = Split(bundles_per_doc=case['at'][0] % 4 + 1)
        out = []
        first = True
        while first or not sp.finished:
            d = doc if first else Document()
            first = False
            sp.process_document(d)
            verify(d, [[b, b.bundle_id, [(t, t.zone) for t in b.trees]] for b in d.bundles], 'util.Split')
            out += [[w.form for w in t.descendants] for b in d.bundles for t in b.trees]
        eq(out, forms, 'util.Split: trees in order')
        return
    order_of(doc, forms, k)


class Tool:
    def segment_text(self, text):
        return text.split('|')


def segment(case):
    doc = Document()
    for s, zs in enumerate(case['sents']):
        b = doc.create_bundle()
        b.bundle_id = f's{s}'
        for z, text in zs:
            b.create_tree(z).text = text
    texts = [t.text for b in doc.bundles for t in b.trees]
    if case['kind'] == 'simple':
        Simple(zones=case.get('zones', 'all')).process_document(doc)
    else:
        bl = Base(tokenize=False, tag=False, parse=False, resegment=True, online=False)
        bl._tool = Tool()
        bl.zones = case.get('zones', 'all')
        bl.process_document(doc)
    verify(doc, [[b, b.bundle_id, [(t, t.zone) for t in b.trees]] for b in doc.bundles], case['kind'])
    check(len({id(b) for b in doc.bundles}) == len(doc.bundles), 'a bundle is in the document twice')
    sep = ' ' if case['kind'] == 'simple' else '|'
    if all(len(zs) == 1 for zs in case['sents']):
        eq(sep.join(t.text for b in doc.bundles for t in b.trees), sep.join(texts), f'{case["kind"]}: texts')


def detached(case):
    """A tree in no bundle yet: its sentence id is the last assigned one, and keeps its first part when a zone is assigned; then it takes over the id of its bundle."""
    r = Root()
    sid, zone = None, None
    for k, v in case['ops']:
        if k == 'zone':
            r.zone = v
            zone = v
            sid = (sid or '?').split('/', 1)[0] + ('/' + v if v else '')
        else:
            r.sent_id = v
            sid = v
        eq(r.sent_id, sid, f'{k} = {v!r}: sent_id of a tree without bundle')
        eq(r.zone or '', zone or '', f'{k} = {v!r}: zone of a tree without bundle')
    doc = Document()
    doc.create_bundle()
    b = doc.create_bundle()
    b.add_tree(r)
    verify(doc, [[doc.bundles[0], '1', []], [b, '2', [(r, zone or '')]]], 'adding the tree')


CHECKS = {'detached': detached, 'scenario': scenario, 'blocks': blocks, 'segment': segment}
ZONES = ['', 'en', 'cs', 'cs_gold', None, 'all', 'EN', 'a b', 'en_A-1', '_x', 'en/x']
TEXTS = ['One. Two', 'One', 'A b. C d! E f', 'One|Two', 'x|Y z. A', '']


def generate(rnd, tier):
    base = [['bundle'], ['tree', 0, ''], ['tree', 0, 'en'], ['bundle'], ['tree', 1, 'en'], ['bundle', 'x']]
    singles = [['remove', i] for i in range(3)] + [['tree', i, z] for i in range(3) for z in ZONES] + [['add', i, z, 'q/en'] for i in range(3) for z in ZONES] + [['add', i, z] for i in range(3) for z in ZONES] \
        + [['id', i, 'n'] for i in range(3)] + [['zone', i, z] for i in range(3) for z in ZONES if z is not None] \
        + [['sid', i, s] for i in range(3) for s in ('n', 'n/en', 'n/cs', 'n/', 'n/all', 'n/en/x', '1', '1/en')] + [['deltree', i] for i in range(3)] + [['bundle'], ['bundle', 'y']]
    for a in singles:
        yield 'scenario', {'ops': base + [a]}
    for a, b in itertools.product(singles, repeat=2):
        if a[0] != b[0] or a[0] in ('sid', 'remove', 'id'):
            if rnd.random() < (.3 if tier == 'quick' else 1):
                yield 'scenario', {'ops': base + [a, b], 'lazy': True}
    steps = [['zone', z] for z in ('', 'en', 'cs_gold')] + [['sid', x] for x in ('s1', 's2/en', 's3/', 'q/cs_gold')]
    for k in range(0, 4):
        for ops in itertools.product(steps, repeat=k):
            yield 'detached', {'ops': list(ops)}
    for sizes in itertools.product([1, 2, 3], repeat=3):
        for at in itertools.product(range(3), range(2)):
            for k in ('split_id', 'join_id', 'parts'):
                yield 'blocks', {'kind': k, 'sizes': list(sizes), 'at': list(at)}
        for cuts in ([[0, 0]], [[1, 0]], [[1, 0], [1, 1]], [[0, 0], [2, 1]], [[0, 1], [1, 1], [2, 1]]):
            for k in ('split_misc', 'join_misc'):
                yield 'blocks', {'kind': k, 'sizes': list(sizes), 'cuts': cuts}
    for k in ('simple', 'udpipe'):
        for t in itertools.product(TEXTS[:5], repeat=2):
            yield 'segment', {'kind': k, 'sents': [[['', x]] for x in t]}
        yield 'segment', {'kind': k, 'sents': [[['en', 'One. Two|x'], ['cs', 'Y']], [['en', 'Z']]], 'zones': 'en'}
    yield None, None
    while True:
        r = rnd.random()
        if r < .7:
            ops = [['bundle']]
            for _ in range(rnd.randrange(1, 25)):
                i = rnd.randrange(30)
                k = rnd.choice(['bundle', 'bundle', 'remove', 'tree', 'tree', 'tree', 'add', 'id', 'zone', 'zone', 'sid', 'sid', 'deltree'])
                z = rnd.choice(ZONES[:5]) if rnd.random() < .85 else rnd.choice(ZONES)
                ops.append({'bundle': ['bundle'] if rnd.random() < .7 else ['bundle', f'b{i}'], 'remove': ['remove', i], 'tree': ['tree', i, z], 'add': ['add', i, z] + ([f's{i}'] if rnd.random() < .5 else []),
                            'id': ['id', i, f'i{i}'], 'zone': ['zone', i, z or ''], 'sid': ['sid', i, f's{i}' + rnd.choice(['', '', '/', '/en', '/cs', '/cs_gold', '/all'])], 'deltree': ['deltree', i]}[k])
            yield 'scenario', {'ops': ops, 'lazy': rnd.random() < .3}
        elif r < .9:
            S = rnd.randrange(1, 6)
            yield 'blocks', {'kind': rnd.choice(['split_id', 'split_misc', 'join_id', 'join_misc', 'parts']), 'sizes': [rnd.randrange(1, 7) for _ in range(S)], 'at': [rnd.randrange(20), rnd.randrange(20)],
                             'cuts': [[rnd.randrange(S), rnd.randrange(10)] for _ in range(rnd.randrange(1, 6))]}
        else:
            zs = rnd.choice([[''], [''], ['en'], ['', 'cs']])
            zn = 'all' if len(zs) == 1 else zs[-1]
            yield 'segment', {'kind': rnd.choice(['simple', 'udpipe']), 'sents': [[[z, rnd.choice(TEXTS[:5])] for z in zs] for _ in range(rnd.randrange(1, 5))], 'zones': zn}
