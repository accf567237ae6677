"""The CoNLL-U reader against an independent reading of the ID/HEAD columns."""
import io
import itertools
from .core import Fail, check, eq
from .trees import well_formed, name
from udapi.block.read.conllu import Conllu
from udapi.core.document import Document


def lines_of(case):
    """case: heads (list of HEAD strings), cols ({word index: {column: value}}), mwts [(a, b, form, misc)], empties [(after, form, deps)],
    comments (list of comment lines)"""
    out = list(case.get('comments', []))
    n = len(case['heads'])
    em = {}
    for after, form, deps in case.get('empties', []):
        em.setdefault(min(after, n), []).append((form, deps))

    def empties(i):
        for k, (form, deps) in enumerate(em.get(i, []), 1):
            out.append(f'{i}.{k}\t{form}\tl{form}\tX\tx\tF={k}\t_\t_\t{deps}\tM={k}')
    empties(0)
    for i, h in enumerate(case['heads'], 1):
        for a, b, form, misc in case.get('mwts', []):
            if a == i:
                out.append(f'{a}-{b}\t{form}' + '\t_' * 7 + f'\t{misc}')
        c = {k: v for k, v in enumerate([str(i), f'w{i}', f'l{i}', 'X', '_', '_', h, 'dep', '_', '_'])}
        for k, v in case.get('cols', {}).get(str(i), {}).items():
            c[int(k)] = v
        out.append('\t'.join(c[k] for k in range(10)))
        empties(i)
    return out


def expected_parents(heads, fix, strict):
    """None = an error must be raised; otherwise (heads, cycles): cycles is a list of sets of words lying on one cycle."""
    n = len(heads)
    hs = []
    for h in heads:
        try:
            v = int(h)
        except ValueError:
            if h == '_' and not strict:
                v = 0
            else:
                return None
        if v < 0 or v > n:
            return None
        hs.append(v)
    cycles = []
    for i in range(1, n + 1):
        seen, x = [], i
        while x and x not in seen:
            seen.append(x)
            x = hs[x - 1]
        if x == i and set(seen) not in cycles:
            cycles.append(set(seen))
    if cycles and not fix:
        return None
    return hs, cycles


def none(v):
    return '_' if v is None else str(v)


def read(case):
    """One sentence through read_tree_from_lines."""
    lines = lines_of(case)
    r = Conllu(files='-', fix_cycles=case.get('fix', False), strict=case.get('strict', False), empty_parent='ignore')
    n = len(case['heads'])
    exp = expected_parents(case['heads'], case.get('fix', False), case.get('strict', False))
    badrange = any(not (1 <= a <= b <= n) for a, b, _, _ in case.get('mwts', []))
    before = list(lines)
    try:
        root = r.read_tree_from_lines(lines)
    except Exception as e:   # noqa
        check(exp is None or badrange, lambda: f'a valid sentence was refused: {type(e).__name__} {e}: HEADs {case["heads"]}')
        return
    eq(lines, before, 'the input lines were changed')
    if n == 0:
        check(root is None, 'no words, but a tree was returned')
        return
    check(not badrange, lambda: f'multi-word token with a range out of the sentence accepted: {case["mwts"]} with {n} words')
    check(exp is not None, lambda: f'HEADs {case["heads"]} (fix_cycles={case.get("fix", False)}, strict={case.get("strict", False)}) must be refused')
    well_formed(root)
    ws = root.descendants
    eq(len(ws), n, 'number of words')
    hs, cycles = exp
    got = [w.parent.ord for w in ws]
    oncycle = set().union(*cycles) if cycles else set()
    for i in range(1, n + 1):
        if i not in oncycle:
            eq(got[i - 1], hs[i - 1], f'HEAD of word {i}')
    for c in cycles:
        moved = [i for i in c if got[i - 1] != hs[i - 1]]
        check(len(moved) == 1 and got[moved[0] - 1] == 0, lambda: f'cycle {sorted(c)}: HEADs {hs} were read as {got}')
    # columns
    inmwt = set()
    for a, b, _, _ in case.get('mwts', []):
        inmwt |= set(range(a, b + 1))
    for i, w in enumerate(ws, 1):
        c = [str(i), f'w{i}', f'l{i}', 'X', '_', '_', None, 'dep', '_', '_']
        for k, v in case.get('cols', {}).get(str(i), {}).items():
            c[int(k)] = v
        g = [str(w.ord), none(w.form), none(w.lemma), none(w.upos), none(w.xpos), none(str(w.feats)), None, none(w.deprel), w.raw_deps, str(w.misc)]
        for k in (0, 1, 2, 3, 4, 5, 7, 8):
            eq(g[k], c[k], f'column {k + 1} of word {i}')
        m0 = {} if c[9] == '_' else dict(x.split('=', 1) if '=' in x else (x, True) for x in c[9].split('|'))
        if i in inmwt:
            m0.pop('SpaceAfter', None)
        else:
            eq(g[9], c[9], f'MISC of word {i}')
        eq(dict(w.misc), m0, f'MISC of word {i} as a mapping')
    # multi-word tokens
    got = [([w.ord for w in m.words], m.form) for m in root.multiword_tokens]
    want = [(list(range(a, b + 1)), form) for a, b, form, _ in sorted(case.get('mwts', []))]
    eq(got, want, 'multi-word tokens')
    for m in root.multiword_tokens:
        check(m.root is root and all(w.multiword_token is m for w in m.words), 'a word does not point to its multi-word token')
    for i, w in enumerate(ws, 1):
        if i not in inmwt:
            check(w.multiword_token is None, f'word {i} is in a multi-word token')
    for (a, b, form, misc), m in zip(sorted(case.get('mwts', [])), root.multiword_tokens):
        m0 = {} if misc == '_' else dict(x.split('=', 1) for x in misc.split('|'))
        if 'SpaceAfter=No' in case.get('cols', {}).get(str(b), {}).get('9', ''):
            m0['SpaceAfter'] = 'No'
        eq(dict(m.misc), m0, f'MISC of token {a}-{b}')
    # empty nodes
    em = {}
    want = []
    for after, form, deps in case.get('empties', []):
        a = min(after, n)
        em[a] = em.get(a, 0) + 1
        want.append((a, em[a], form, deps))
    want.sort()
    got = [(str(e.ord), e.form, e.lemma, e.upos, e.xpos, str(e.feats), e.raw_deps, str(e.misc)) for e in sorted(root.empty_nodes)]
    eq(got, [(f'{a}.{k}', f, f'l{f}', 'X', 'x', f'F={k}', d, f'M={k}') for a, k, f, d in want], 'empty nodes')
    # comments
    spec = case.get('spec', {})
    if 'sent_id' in spec:
        eq(root.sent_id, spec['sent_id'], 'sent_id')
    eq(root.text, spec.get('text'), 'text')
    eq(root.newdoc, spec.get('newdoc'), 'newdoc')
    eq(root.newpar, spec.get('newpar'), 'newpar')
    eq([x for x in root.comment.split('\n') if x and x[0] != '$'], spec.get('plain', []), 'comments')


def several(case):
    """Several sentences through read_trees / read_tree: one tree per sentence, in order; an illegal one makes loading fail."""
    text = '\n'.join('\n'.join(lines_of(c)) + '\n' for c in case['sents'])
    doc = Document()
    bad = any(expected_parents(c['heads'], False, False) is None for c in case['sents'])
    try:
        if case['how'] == 'string':
            doc.from_conllu_string(text)
        elif case['how'] == 'read_tree':
            Conllu(filehandle=io.StringIO(text), split_docs=True, empty_parent='ignore').apply_on_document(doc)
        else:
            Conllu(filehandle=io.StringIO(text), max_docs=len(case['sents']) + 1, empty_parent='ignore').apply_on_document(doc)
    except Exception:
        check(bad, f'a valid file was refused')
        return
    check(not bad, lambda: f'an illegal file was accepted: {[c["heads"] for c in case["sents"]]}')
    trees = [t for b in doc.bundles for t in b.trees]
    eq([[w.parent.ord for w in t.descendants] for t in trees], [[int(h) if h != '_' else 0 for h in c['heads']] for c in case['sents']], 'trees')
    for t in trees:
        well_formed(t)


CHECKS = {'read': read, 'several': several}
COLS = {'1': ['_', 'a b', '#', '-', 'x\u2028y', '日本'], '2': ['_', 'le mme', '|'], '3': ['_', 'NOUN', 'PUNCT'], '4': ['_', 'NN', 'a|b'], '5': ['_', 'Case=Nom', 'b=1|A=2', 'Number=Plur|Case=Acc'],
        '7': ['_', 'nsubj', 'nsubj:pass', 'root'], '8': ['_', '0:root', '1:a|2:b:c', '1.1:conj>x'], '9': ['_', 'SpaceAfter=No', 'Gloss=x|SpaceAfter=No', 'b=1|A=2', 'Flag', 'X=a=b']}
COMMENTS = [('# sent_id = s1', {'sent_id': 's1'}), ('# sent_id s-2/en', {'sent_id': 's-2/en'}), ('# text = A b  c.', {'text': 'A b  c.'}), ('# newdoc', {'newdoc': True}),
            ('# newdoc id = d 1', {'newdoc': 'd 1'}), ('# newpar', {'newpar': True}), ('# newpar id = p1', {'newpar': 'p1'}), ('# hello = there', {'plain': [' hello = there']}),
            ('#nospace', {'plain': ['nospace']}), ('# text_en = foo', {'plain': [' text_en = foo']}), ('# newdocument x', {'plain': [' newdocument x']})]


def comments(rnd, k):
    lines, spec, used = [], {}, set()
    for _ in range(k):
        l, s = rnd.choice(COMMENTS)
        key = list(s)[0]
        if key == 'plain':
            spec.setdefault('plain', []).extend(s['plain'])
        elif key in used:
            continue
        else:
            spec.update(s)
        used.add(key)
        lines.append(l)
    return lines, spec


def shrink(name_, case):
    if name_ == 'several':
        for i in range(len(case['sents'])):
            if len(case['sents']) > 1:
                yield dict(case, sents=case['sents'][:i] + case['sents'][i + 1:])
        return
    for k in ('mwts', 'empties'):
        for i in range(len(case.get(k, []))):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    for i in list(case.get('cols', {})):
        yield dict(case, cols={k: v for k, v in case['cols'].items() if k != i})
    if case.get('comments'):
        yield dict(case, comments=[], spec={})
    if len(case['heads']) > 1:
        yield dict(case, heads=case['heads'][:-1], cols={k: v for k, v in case.get('cols', {}).items() if int(k) < len(case['heads'])},
                   mwts=[m for m in case.get('mwts', []) if m[1] < len(case['heads'])])


def generate(rnd, tier):
    top = 4 if tier == 'quick' else 5
    yield 'read', {'heads': [], 'comments': ['# sent_id = s1'], 'spec': {}}
    for n in range(1, top + 1):
        vals = [str(v) for v in range(n + 1)]
        if n <= 3:
            vals += [str(n + 1), '-1', '_', 'x'] + ([str(-n)] if n > 1 else [])
        for hs in itertools.product(vals, repeat=n):
            for fix in (False, True):
                yield 'read', {'heads': list(hs), 'fix': fix}
            if n <= 2:
                yield 'read', {'heads': list(hs), 'strict': True}
    # single multi-word tokens, all ranges, also illegal ones
    for n in range(1, 5):
        for a in range(0, n + 3):
            for b in range(0, n + 3):
                if a and (a <= n):
                    yield 'read', {'heads': ['0'] * n, 'mwts': [[a, b, 'mw', '_']]}
    for col, vs in COLS.items():
        for v in vs:
            yield 'read', {'heads': ['0', '1'], 'cols': {'1': {col: v}}}
            yield 'read', {'heads': ['0', '1', '1'], 'cols': {'2': {col: v}}, 'mwts': [[1, 2, 'mw', 'A=b']]}
    for l, s in COMMENTS:
        yield 'read', {'heads': ['0'], 'comments': [l], 'spec': s}
    for how in ('string', 'read_tree', 'max'):
        for hs in (['0'], ['2', '0'], ['1'], ['3', '0', '1'], ['-1', '0'], ['2', '1']):
            yield 'several', {'how': how, 'sents': [{'heads': ['0', '1']}, {'heads': hs}, {'heads': ['2', '3', '0']}]}
    yield None, None
    while True:
        if rnd.random() < .15:
            sents = []
            for _ in range(rnd.randrange(1, 6)):
                n = rnd.randrange(1, 6)
                hs = [str(rnd.choice([0] + list(range(max(0, i - 2), i)))) for i in range(1, n + 1)]
                if rnd.random() < .1:
                    hs[rnd.randrange(n)] = str(rnd.randrange(n + 2))
                sents.append({'heads': hs})
            yield 'several', {'how': rnd.choice(['string', 'read_tree', 'max']), 'sents': sents}
            continue
        n = rnd.randrange(1, 15)
        style = rnd.random()
        if style < .5:
            perm = list(range(1, n + 1))
            rnd.shuffle(perm)
            hs = [0] * n
            for k, x in enumerate(perm):
                hs[x - 1] = rnd.choice([0] + perm[:k])
        else:
            hs = [rnd.randrange(n + 1) for _ in range(n)]
        hs = [str(h) for h in hs]
        if rnd.random() < .1:
            hs[rnd.randrange(n)] = rnd.choice(['_', '-1', str(n + 1), '', 'a', str(-n)])
        case = {'heads': hs, 'fix': rnd.random() < .5, 'strict': rnd.random() < .2}
        mw, i = [], 1
        while i < n and rnd.random() < .7:
            a = i + rnd.randrange(3)
            b = a + rnd.randrange(3)
            if b > n:
                break
            mw.append([a, b, f'mw{a}', rnd.choice(['_', 'A=b', 'A=b|C=d'])])
            i = b + 1
        case['mwts'] = mw
        case['empties'] = [[rnd.randrange(n + 1), f'e{k}', rnd.choice(['_', '1:x', '0:root|1:a:b'])] for k in range(rnd.choice([0, 0, 1, 3, 12]))]
        case['cols'] = {str(i): {c: rnd.choice(COLS[c]) for c in COLS if rnd.random() < .3} for i in range(1, n + 1) if rnd.random() < .4}
        if n == 1:
            case['cols'] = {}
        case['comments'], case['spec'] = comments(rnd, rnd.randrange(6))
        yield 'read', case
