"""Writing CoNLL-U and reading it back."""
import contextlib
import io
from .core import Fail, check, eq
from .trees import well_formed, build
from . import c07
from udapi.block.read.conllu import Conllu as Reader
from udapi.block.write.conllu import Conllu as Writer
from udapi.core.document import Document


def none(v):
    return '_' if v is None else str(v)


def make(sents, docjson=None):
    doc = Document()
    if docjson:
        doc.json.update(docjson)
    for s in sents:
        bundle = doc.create_bundle() if not s.get('same_bundle') or not doc.bundles else doc.bundles[-1]
        tree = bundle.create_tree(zone=s.get('zone', ''))
        if s.get('bundle_id'):
            bundle.bundle_id = s['bundle_id']
        _, ws = build(s['parents'], root=tree)
        for i, w in enumerate(ws, 1):
            for k, v in s.get('attrs', {}).get(str(i), {}).items():
                setattr(w, k, v)
        for after, form in s.get('empties', []):
            base = ([tree] + ws)[after % (len(ws) + 1)]
            if base is tree and ws:
                ws[0].create_empty_child('dep', after=False, form=form)
            elif ws:
                e = base.create_empty_child('x:y', form=form)
                e.feats = 'A=b'
                e.upos = 'X'
        if s.get('edeps'):
            alln = [tree] + ws + tree.empty_nodes
            for i, ds in s['edeps']:
                (alln[1:] or alln)[i % max(1, len(alln) - 1)].deps = [{'parent': alln[p % len(alln)], 'deprel': d} for p, d in ds]
        for a, b, form, misc in s.get('mwts', []):
            words = ws[a - 1:b]
            tree.create_multiword_token(words if not s.get('mwt_reversed') else words[::-1], form, misc)
        tree.text = s.get('text')
        tree.comment = s.get('comment', '')
        tree.newdoc = s.get('newdoc')
        tree.newpar = s.get('newpar')
        tree.json.update(s.get('json', {}))
        for k, x in s.get('edit', []):
            if tree.descendants:
                n = tree.descendants[x % len(tree.descendants)]
                r = tree.descendants[(x // 7) % len(tree.descendants)]
                if k == 'shift' and not n.multiword_token and not r.multiword_token and n is not r:
                    n.shift_after_node(r, without_children=True)
    return doc


def state(t):
    """Everything the round trip must keep."""
    nodes = sorted(list(t.descendants) + t.empty_nodes)
    return {
        'sent_id': t.sent_id, 'text': t.text if t.text is not None else None if any(m.form is None for m in t.multiword_tokens) else t.compute_text(), 'newdoc': t.newdoc or None, 'newpar': t.newpar or None, 'zone': t.zone,
        'comments': [c for c in (t.comment or '').split('\n') if c and c[0] != '$'], 'json': dict(t.json),
        'words': [[str(n.ord), none(n.form), none(n.lemma), none(n.upos), none(n.xpos), str(n.feats), none(n.deprel), n.raw_deps, str(n.misc),
                   n.is_empty(), n.parent.ord if n.parent is not None else None] for n in nodes],
        'deps': [[(str(d['parent'].ord), d['deprel']) for d in n.deps] for n in nodes],
        'mwts': sorted([[w.ord for w in sorted(m.words)], none(m.form), str(m.misc)] for m in t.multiword_tokens)}


def write(doc):
    return doc.to_conllu_string()


def check_lines(text, doc):
    """Every word, empty node and multi-word token exactly once, in word order, a token line right before its first word."""
    blocks = [b.split('\n') for b in text.split('\n\n')]
    check(blocks[-1] == [''], 'the text does not end by exactly one empty line')
    blocks = blocks[:-1]
    trees = [t for b in doc.bundles for t in b.trees]
    eq(len(blocks), len(trees), 'number of sentences written')
    for b, t in zip(blocks, trees):
        ids = [l.split('\t')[0] for l in b if not l.startswith('#')]
        check(all(len(l.split('\t')) == 10 for l in b if not l.startswith('#')), 'a line without ten columns')
        seen_line = False
        for l in b:
            if l.startswith('#'):
                check(not seen_line, 'a comment after the first word line')
            else:
                seen_line = True
        want = []
        started = set()
        for n in sorted(list(t.descendants) + t.empty_nodes):
            m = n.multiword_token
            if m is not None and id(m) not in started:
                started.add(id(m))
                os_ = sorted(w.ord for w in m.words)
                want.append(f'{os_[0]}-{os_[-1]}')
            want.append(str(n.ord))
        if not t.descendants:
            want.append('1')
        eq(ids, want, 'ID column')
        heads = [l.split('\t')[6] for l in b if not l.startswith('#') and l.split('\t')[0].isdigit()]
        if t.descendants:
            eq(heads, [str(w.parent.ord) for w in t.descendants], 'HEAD column')


def roundtrip(case):
    doc = make(case['sents'], case.get('docjson'))
    t1 = [t for b in doc.bundles for t in b.trees]
    before = [state(t) for t in t1] if not case.get('lazy') else None
    text = write(doc)
    check_lines(text, doc)
    s1 = [state(t) for t in t1]
    if before is not None:
        eq(s1, before, 'writing changed the tree')
    how = case.get('how', 'string')
    back = Document()
    if how == 'string':
        back.from_conllu_string(text)
    elif how == 'read_tree':
        r = Reader(filehandle=io.StringIO(text), sent_id_filter='.*')
        r.apply_on_document(back)
    else:
        r = Reader(filehandle=io.StringIO(text), max_docs=1000)
        r.apply_on_document(back)
    t2 = [t for b in back.bundles for t in b.trees]
    eq(len(t2), len(t1), 'number of trees read back')
    eq(back.json, doc.json, 'document-level json')
    for t in t2:
        well_formed(t)
        t.text  # noqa
    s2 = [state(t) for t in t2]
    for a, b in zip(s1, s2):
        for k in a:
            eq(b[k], a[k], f'{k} of sentence {a["sent_id"]} read back')
    eq([len(b.trees) for b in back.bundles], [len(b.trees) for b in doc.bundles], 'trees in bundles')
    text2 = write(back)
    eq(text2, text, 'the text written again')


def foreign(case):
    """A text in CoNLL-U (with any comments): read, written, read and written again: the same trees and the same text."""
    text = '\n'.join('\n'.join(c07.lines_of(c)) + '\n' for c in case['sents'])
    d1 = Document()
    d1.from_conllu_string(text)
    w1 = write(d1)
    check_lines(w1, d1)
    s1 = [state(t) for b in d1.bundles for t in b.trees]
    d2 = Document()
    d2.from_conllu_string(w1)
    s2 = [state(t) for b in d2.bundles for t in b.trees]
    eq(s2, s1, 'trees read back')
    eq(write(d2), w1, 'the text written again')


CHECKS = {'roundtrip': roundtrip, 'foreign': foreign}
VALS = {'form': ['a', 'b c', '_', '#', "don't", '日本', 'x\u2028y', '-', '1-2'], 'lemma': ['l', '_', None, 'a b'], 'upos': ['NOUN', None, 'PUNCT', '_'], 'xpos': ['NN', None, 'a|b'],
        'feats': ['_', 'Case=Nom', 'b=1|A=2', 'Number=Plur|Case=Acc', None, {'B': 'x', 'a': 'y'}], 'deprel': ['nsubj', None, 'nsubj:pass', 'root'],
        'misc': ['_', 'SpaceAfter=No', 'Gloss=x', 'b=1|A=2', 'X=a=b', None, {'Z': '1', 'A': '2'}, 'Lang']}
PLAIN = [' hello', ' x = y', 'nospace', ' text_en = foo', ' newpars', ' with\u2028line separator', ' next\x85line', ' $SENT', ' a\x0bb\x0c', ' trailing ', ' #']


def sent(rnd, i):
    n = rnd.choice([0, 1, 1, 2, 3, 4, 6, 11, 13])
    from .trees import random_parents
    s = {'parents': random_parents(rnd, n), 'bundle_id': f's{i}'}
    s['attrs'] = {str(k): {a: rnd.choice(VALS[a]) for a in VALS if rnd.random() < .35} for k in range(1, n + 1) if rnd.random() < .6}
    if n:
        s['empties'] = [[rnd.randrange(n + 1), f'e{k}'] for k in range(rnd.choice([0, 0, 0, 1, 2, 5, 14]))]
        if rnd.random() < .4:
            s['edeps'] = [[rnd.randrange(20), [[rnd.randrange(20), rnd.choice(['x', 'a:b', 'conj>y'])] for _ in range(rnd.randrange(4))]] for _ in range(rnd.randrange(5))]
        mw, k = [], 1
        while rnd.random() < .6:
            a = k + rnd.randrange(3)
            b = a + rnd.randrange(3)
            if b > n:
                break
            mw.append([a, b, rnd.choice([f'mw{a}', None, 'a b']), rnd.choice([None, '_', 'A=b', 'SpaceAfter=No', {'Z': '1', 'a': '3'}])])
            k = b + 1
        s['mwts'] = mw
        s['mwt_reversed'] = rnd.random() < .1
        if rnd.random() < .3:
            s['edit'] = [['shift', rnd.randrange(1000)] for _ in range(rnd.randrange(3))]
    if s['parents'] == [0]:
        s['attrs'] = {}
    s['text'] = rnd.choice([None, 'Some text.', '', 'a  b', 'x'])
    if any(m[2] is None for m in s.get('mwts', [])):
        s['text'] = 'Some text.'
    if rnd.random() < .6:
        s['comment'] = ''.join(rnd.choice(PLAIN) + '\n' for _ in range(rnd.randrange(4)))
        if rnd.random() < .4:
            ls = s['comment'].split('\n')[:-1]
            for ph in rnd.sample(['$SENT_ID', '$TEXT', '$NEWDOC', '$NEWPAR'], rnd.randrange(1, 5)):
                ls.insert(rnd.randrange(len(ls) + 1), ph)
            s['comment'] = '\n'.join(ls) + '\n'
    s['newdoc'] = rnd.choice([None, None, None, True, 'd1', 'my doc'])
    s['newpar'] = rnd.choice([None, None, True, 'p1'])
    if rnd.random() < .2:
        s['json'] = rnd.choice([{'a': 1}, {'a': {'b': [1, 'x']}, 'z': None}, {'k': 'ž "q"'}])
    if rnd.random() < .15:
        s['zone'] = rnd.choice(['en', 'cs_gold'])
    return s


def shrink(name_, case):
    ss = case['sents']
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(case, sents=ss[:i] + ss[i + 1:])
    for i, s in enumerate(ss):
        def rep(t):
            return dict(case, sents=ss[:i] + [t] + ss[i + 1:])
        for k in ('attrs', 'empties', 'edeps', 'mwts', 'comment', 'newdoc', 'newpar', 'json', 'zone', 'text', 'edit', 'mwt_reversed', 'same_bundle', 'comments', 'cols', 'spec'):
            if s.get(k):
                yield rep({a: b for a, b in s.items() if a != k})
        for k in ('empties', 'edeps', 'mwts', 'comments'):
            for j in range(len(s.get(k, []))):
                yield rep(dict(s, **{k: s[k][:j] + s[k][j + 1:]}))
        for k in ('attrs', 'cols'):
            for j in list(s.get(k, {})):
                yield rep(dict(s, **{k: {a: b for a, b in s[k].items() if a != j}}))
                if len(s[k][j]) > 1:
                    for l in s[k][j]:
                        yield rep(dict(s, **{k: dict(s[k], **{j: {a: b for a, b in s[k][j].items() if a != l}})}))
        if s.get('comment'):
            ls = s['comment'].split('\n')
            for j in range(len(ls) - 1):
                yield rep(dict(s, comment='\n'.join(ls[:j] + ls[j + 1:])))
        ps = s.get('parents')
        if ps and len(ps) not in ps and len(ps) > 1 and not s.get('mwts') and not s.get('empties') and not s.get('edeps'):
            yield rep(dict(s, parents=ps[:-1], attrs={a: b for a, b in s.get('attrs', {}).items() if a != str(len(ps))}))


def generate(rnd, tier):
    for a, vs in VALS.items():
        for v in vs:
            yield 'roundtrip', {'sents': [{'parents': [0, 1, 1], 'attrs': {'2': {a: v}}}]}
            yield 'roundtrip', {'sents': [{'parents': [0, 1, 1], 'attrs': {'3': {a: v}}, 'mwts': [[2, 3, 'x', 'A=b']]}]}
    for c in PLAIN:
        yield 'roundtrip', {'sents': [{'parents': [0], 'comment': c + '\n'}]}
    phs = ['$SENT_ID', '$TEXT', '$NEWDOC', '$NEWPAR']
    import itertools
    for k in range(1, 5):
        for sub in itertools.permutations(phs, k):
            for pos in range(k + 1):
                for nd, npar in ((None, None), (True, None), ('d', 'p'), (None, 'p')):
                    ls = list(sub)
                    ls.insert(pos, ' plain')
                    yield 'roundtrip', {'sents': [{'parents': [0], 'comment': '\n'.join(ls) + '\n', 'newdoc': nd, 'newpar': npar}]}
    for n in range(0, 5):
        for cut in itertools.product([0, 1], repeat=max(0, n - 1)):
            # a partition of the words into blocks, every subset of the blocks is a token
            blocks, cur = [], [1]
            for i, c in enumerate(cut, 2):
                if c:
                    blocks.append(cur)
                    cur = [i]
                else:
                    cur.append(i)
            blocks.append(cur)
            if not n:
                blocks = []
            for sub in itertools.product([0, 1], repeat=len(blocks)):
                mw = [[b[0], b[-1], 'mw', None] for b, u in zip(blocks, sub) if u]
                for em in ([], [[0, 'e']], [[1, 'e'], [n, 'f']]):
                    yield 'roundtrip', {'sents': [{'parents': [0] * n, 'mwts': mw, 'empties': em if n else []}, {'parents': [0, 1]}]}
    for l, s in c07.COMMENTS:
        yield 'foreign', {'sents': [{'heads': ['0'], 'comments': [l]}]}
    yield None, None
    while True:
        if rnd.random() < .3:
            sents = []
            for i in range(rnd.randrange(1, 4)):
                n = rnd.randrange(1, 14)
                case = {'heads': [str(rnd.choice([0] + list(range(1, i)))) for i in range(1, n + 1)]}
                a = rnd.randrange(1, n + 1)
                case['mwts'] = [[a, min(n, a + rnd.randrange(3)), 'mw', rnd.choice(['_', 'A=b'])]] if rnd.random() < .6 else []
                case['empties'] = [[rnd.randrange(n + 1), f'e{k}', rnd.choice(['_', '1:x', '0:root|1:a:b'])] for k in range(rnd.choice([0, 0, 1, 3, 12]))]
                case['cols'] = {str(k): {c: rnd.choice([v for v in c07.COLS[c] if c != '8' or '.' not in v]) for c in c07.COLS if rnd.random() < .3} for k in range(1, n + 1) if rnd.random() < .4} if n > 2 else {}
                ls, spec = c07.comments(rnd, rnd.randrange(7))
                case['comments'] = [l for l in ls if 'sent_id' not in l] + [f'# sent_id = x{i}']
                rnd.shuffle(case['comments'])
                sents.append(case)
            yield 'foreign', {'sents': sents}
        else:
            ss = [sent(rnd, i) for i in range(rnd.randrange(1, 4))]
            case = {'sents': ss, 'how': rnd.choice(['string', 'string', 'read_tree', 'max']), 'lazy': rnd.random() < .3}
            if case['how'] == 'max':
                # every line is stripped from the right in this mode of the reader
                for s in ss:
                    s['comment'] = '\n'.join(l.rstrip() for l in s.get('comment', '').split('\n'))
                ss[0]['newdoc'] = ss[0]['newdoc'] or True
            if case['how'] == 'read_tree':
                for s in ss:
                    s['comment'] = '\n'.join(l.rstrip() for l in s.get('comment', '').split('\n'))
            if rnd.random() < .1:
                case['docjson'] = {'d': [1, {'x': 'y'}]}
            yield 'roundtrip', case
