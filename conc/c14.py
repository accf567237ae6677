"""Tokenization, segmentation and spacing flags against the text."""
import itertools
from .core import Fail, check, eq
from .trees import build
from udapi.core.document import Document
from udapi.core.root import Root
from udapi.block.tokenize.onwhitespace import OnWhitespace
from udapi.block.tokenize.simple import Simple as TokSimple
from udapi.block.segment.simple import Simple as SegSimple
from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText

TOK = {'OnWhitespace': OnWhitespace, 'Simple': TokSimple}
UNESC = [(r'\s', ' '), (r'\t', '\t'), (r'\r', '\r'), (r'\n', '\n')]


def unesc(s):
    out, i = '', 0
    while i < len(s):
        for a, b in UNESC:
            if s.startswith(a, i):
                out += b
                i += 2
                break
        else:
            out += s[i]
            i += 1
    return out


def tokenize(case):
    doc = Document()
    root = doc.create_bundle().create_tree()
    root.text = text = case['text']
    blk = TOK[case['block']](keep_spaces=case['keep'])
    blk.process_tree(root)
    ws = list(root.descendants)
    eq(root.text, text, 'the text')
    eq([w.ord for w in ws], list(range(1, len(ws) + 1)), 'the numbering')
    check(all(w.parent is root for w in ws), 'a word is not attached to the root')
    eq(''.join(w.form for w in ws), ''.join(text.split()), 'the characters of the forms')
    check(all(w.form and not any(c.isspace() for c in w.form) for w in ws), 'a form is empty or has a white space')
    if case['block'] == 'OnWhitespace':
        eq([w.form for w in ws], text.split(), 'the forms')
    got = ''
    for w in ws:
        got += w.form
        check(w.misc['SpaceAfter'] in ('', 'No'), lambda: f'SpaceAfter={w.misc["SpaceAfter"]}')
        eq(w.no_space_after, w.misc['SpaceAfter'] == 'No', 'no_space_after')
        if not case['keep']:
            got += '' if w.misc['SpaceAfter'] == 'No' else ' '
            check(not w.misc['SpacesAfter'] and not w.misc['SpacesBefore'], 'spaces kept without being asked for')
        elif w.misc['SpacesAfter']:
            check(w.misc['SpaceAfter'] == '', 'SpaceAfter=No and SpacesAfter together')
            got += unesc(w.misc['SpacesAfter'])
        else:
            got += '' if w.misc['SpaceAfter'] == 'No' else ' '
    if case['keep']:
        if ws:
            eq(unesc(ws[0].misc['SpacesBefore']) + got, text, 'forms joined with the recorded spaces')
        check(not any(w.misc['SpacesBefore'] for w in ws[1:]), 'SpacesBefore at a later word')
    else:
        eq(got.rstrip(' '), ' '.join(text.split()), 'forms joined with the recorded spacing')
        check(not ws or not ws[-1].no_space_after, 'SpaceAfter=No at the last word')
        eq(root.compute_text(), ' '.join(text.split()), 'computed text')
    # tokenized again: refused
    if ws:
        try:
            blk.process_tree(root)
        except ValueError:
            eq([id(w) for w in root.descendants], [id(w) for w in ws], 'words after a refused tokenization')
        else:
            raise Fail('an already tokenized tree was tokenized')


def segment(case):
    seg = SegSimple(keep_spaces=case['keep'])
    got = seg.segment_string(case['text'])
    eq(('' if case['keep'] else ' ').join(got), case['text'], 'segments put together')
    check(len(got) >= 1, 'no segment')


def segdoc(case):
    doc = Document()
    for t in case['texts']:
        b = doc.create_bundle()
        for z, x in t:
            b.create_tree(z).text = x
    blk = SegSimple(keep_spaces=case['keep'], zones=case.get('zones', 'all'))
    blk.apply_on_document(doc)
    eq([b.number for b in doc.bundles], list(range(1, len(doc.bundles) + 1)), 'bundle numbers')
    zs = {z for t in case['texts'] for z, _ in t}
    for z in zs:
        sep = '' if case['keep'] else ' '
        got = [t.text for b in doc.bundles for t in b if t.zone == z]
        want = [x for t in case['texts'] for zz, x in t if zz == z]
        if case.get('zones', 'all') not in ('all', z):
            eq(got, want, f'texts of an unselected zone {z}')
        else:
            # each original text is the concatenation of consecutive new texts
            i = 0
            for x in want:
                acc = got[i] if i < len(got) else None
                i += 1
                while acc is not None and acc != x and len(acc) < len(x) and i < len(got):
                    acc = acc + sep + got[i]
                    i += 1
                eq(acc, x, f'segments of {x!r} put together')
            eq(i, len(got), 'number of segments')
    check(all(b.document is doc for b in doc.bundles), 'a bundle of another document')
    ids = [t.sent_id for b in doc.bundles for t in b]
    if len(zs) == 1 and len({b.bundle_id for b in doc.bundles}) != len(doc.bundles):
        raise Fail(f'repeated bundle ids {ids}')


def spaceafter(case):
    """Text = forms in order with optional white space between."""
    root, ws = build([0] * len(case['forms']))
    for w, f in zip(ws, case['forms']):
        w.form = f
    for a, b in case.get('mwts', []):
        root.create_multiword_token(ws[a:b + 1], ''.join(case['forms'][a:b + 1]))
    for i in case.get('pre', []):
        ws[i % len(ws)].misc['SpaceAfter'] = 'No'
    for i in case.get('empty', []):
        e = ws[i % len(ws)].create_empty_child('dep', form='E')
        e.misc['SpaceAfter'] = 'No'
    toks = list(root.token_descendants)
    text = ''
    for k, t in enumerate(toks):
        text += t.form
        if k + 1 < len(toks):
            text += case['gaps'][k % len(case['gaps'])]
    text += case.get('tail', '')
    root.text = text
    SetSpaceAfterFromText().process_tree(root)
    eq(root.text, text, 'the stored text')
    eq([t.form for t in root.token_descendants], [t.form for t in toks], 'the forms')
    eq(root.compute_text(), ' '.join(text.split()) if not any(' ' in f for f in case['forms']) else root.compute_text(), 'computed text')
    for k, t in enumerate(toks):
        nsa = k + 1 < len(toks) and case['gaps'][k % len(case['gaps'])] == ''
        if text != ' '.join(text.split()) or k + 1 < len(toks):
            eq(t.misc['SpaceAfter'], 'No' if nsa else '', f'SpaceAfter of token {k + 1} {t.form!r}')
    for e in root.empty_nodes:
        eq(e.misc['SpaceAfter'], '', 'SpaceAfter of an empty node')


CHECKS = {'tokenize': tokenize, 'segment': segment, 'segdoc': segdoc, 'spaceafter': spaceafter}
ALPHA = ['a', ' ', '.', '\t']
UNI = ['a', 'B', 'ž', '1', '_', ' ', '  ', '\t', '\n', '\r', '\xa0', '\u2028', '\x1f', '.', ',', '-', '"', '„', '\u0301', '𝄞', '中', '\\', '|', '=', '²', '़', '\u200d', '\u200b', '☺']
WORDS = ['A.', 'B', 'b', 'End.', 'Yes!', '"Why?"', '(No.)', 'e.g.', 'např.', 'Mr.', '„A.', '1.', '', '2', 'Ž', '.', '"', '«', 'Ab.', 'c.)', '…', '¿Q', "U.S.", '?', '()', '.“', 'é']


def generate(rnd, tier):
    for n in range(0, 6 if tier == 'quick' else 7):
        for cs in itertools.product(ALPHA, repeat=n):
            t = ''.join(cs)
            for blk in TOK:
                for keep in (False, True):
                    yield 'tokenize', {'text': t, 'block': blk, 'keep': keep}
    for n in range(0, 3):
        for ws in itertools.product(WORDS, repeat=n):
            for keep in (False, True):
                yield 'segment', {'text': ' '.join(ws), 'keep': keep}
                if n:
                    yield 'segdoc', {'texts': [[['', ' '.join(ws)]], [['', 'x']]], 'keep': keep}
    for n in range(1, 4):
        for forms in itertools.product(['a', 'b', 'aa'], repeat=n):
            for gaps in itertools.product(['', ' ', '  '], repeat=max(1, n - 1)):
                for pre in ([], [0], list(range(n)), [n - 1]):
                    yield 'spaceafter', {'forms': list(forms), 'gaps': list(gaps), 'pre': pre}
    yield None, None
    while True:
        r = rnd.random()
        if r < .4:
            yield 'tokenize', {'text': ''.join(rnd.choice(UNI) for _ in range(rnd.randint(1, 25))), 'block': rnd.choice(list(TOK)), 'keep': rnd.random() < .5}
        elif r < .6:
            yield 'segment', {'text': rnd.choice([' ', ' ', '  ', '\t']).join(rnd.choice(WORDS) for _ in range(rnd.randint(1, 12))), 'keep': rnd.random() < .5}
        elif r < .75:
            zones = rnd.choice([[''], ['en'], ['cs', 'en']])
            yield 'segdoc', {'texts': [[[z, ' '.join(rnd.choice(WORDS) for _ in range(rnd.randint(1, 9)))] for z in zones] for _ in range(rnd.randint(1, 4))],
                             'keep': rnd.random() < .5, 'zones': rnd.choice(['all', zones[-1]])}
        else:
            n = rnd.randint(1, 9)
            c = {'forms': [rnd.choice(['a', 'aa', 'b', '.', '"', 'ab', 'Ž', '中', '-', '..', 'x_y']) for _ in range(n)],
                 'gaps': [rnd.choice(['', '', ' ', ' ', '  ', '\t', '\xa0']) for _ in range(max(1, n - 1))],
                 'pre': [rnd.randrange(n) for _ in range(rnd.randint(0, 3))], 'empty': [rnd.randrange(n) for _ in range(rnd.randint(0, 2))],
                 'tail': rnd.choice(['', '', ' '])}
            if n > 2 and rnd.random() < .4:
                a = rnd.randrange(n - 1)
                c['mwts'] = [[a, min(n - 1, a + rnd.randint(1, 2))]]
            yield 'spaceafter', c


def shrink(name, case):
    for k in ('text',):
        if k in case:
            for i in range(len(case[k])):
                yield dict(case, text=case[k][:i] + case[k][i + 1:])
    for k in ('pre', 'empty', 'mwts', 'forms', 'texts'):
        if k in case:
            for i in range(len(case[k])):
                if k in ('pre', 'empty', 'mwts') or (len(case[k]) > 1 and not case.get('mwts')):
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
