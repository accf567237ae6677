"""The file iterator and the reader's document splitting, merging, filtering and limits, against a reference."""
import bz2
import glob
import gzip
import io
import itertools
import lzma
import os
import re
import shutil
import tempfile
from .core import Fail, check, eq
from udapi.core.document import Document
from udapi.core.files import Files
from udapi.block.read.conllu import Conllu
from udapi.block.read.sentences import Sentences

OPEN = {'gz': gzip.open, 'xz': lzma.open, 'bz2': bz2.open}


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c15-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def files(case):
    """A history of requests on Files."""
    with Dir() as d:
        names = []
        for k, n in enumerate(case['names']):
            p = os.path.join(d, n)
            o = OPEN.get(n.split('.')[-1], open)
            with o(p, 'wt', encoding='utf-8') as f:
                f.write(f'content {n} ě')
            if p not in names:
                names.append(p)
        given = [os.path.join(d, case['names'][i % len(case['names'])]) for i in case['given']] if case['names'] else []
        mode = case['mode']
        if mode == 'list':
            f, want = Files(filenames=list(given)), given
        elif mode in ('comma', 'space'):
            if not given:
                return
            f, want = Files(filenames=(',' if mode == 'comma' else ' ').join(given)), given
        elif mode == 'glob':
            if not names:
                try:
                    Files(filenames='!' + d + '/*')
                except RuntimeError:
                    return
                raise Fail('a pattern matching nothing was accepted')
            pat = case.get('pattern', '*')
            want = sorted(glob.glob(os.path.join(d, pat)))
            if not want:
                return
            f = Files(filenames='!' + os.path.join(d, pat))
        elif mode == 'mixed':
            want = sorted(names) + given + sorted(names)
            if not names:
                return
            f = Files(filenames='!' + d + '/*' + ''.join(' ' + g for g in given) + ',!' + d + '/*')
        elif mode == 'filehandle':
            h = io.StringIO('x')
            f, want = Files(filehandle=h), ['<filehandle_input>']
        eq(f.number_of_files, len(want), 'number_of_files')
        eq(f.filename, None, 'the current file before the first request')
        pos = 0
        for step, op in enumerate(case['ops']):
            what = f'step {step} ({op}) at position {pos}'
            if op == 'has':
                eq(f.has_next_file(), pos < len(want), what)
            elif op == 'name':
                pos += 1
                eq(f.next_filename(), want[pos - 1] if pos <= len(want) else None, what)
            elif op == 'cur':
                eq(f.filename, want[pos - 1] if 1 <= pos <= len(want) else None, what)
            elif op == 'handle':
                pos += 1
                h2 = f.next_filehandle()
                eq(f.filehandle is h2, True, what + ': filehandle')
                if pos > len(want):
                    eq(h2, None, what)
                elif mode == 'filehandle':
                    check(h2 is h, what + ': another file handle')
                else:
                    with h2:
                        eq(h2.read(), 'content ' + os.path.basename(want[pos - 1]) + ' ě', what)


def conllu_tree(t):
    out = ''
    if t.get('newdoc'):
        out += '# newdoc' + (f' id = {t["newdoc"]}' if t['newdoc'] is not True else '') + '\n'
    if t.get('id') is not None:
        out += f'# sent_id = {t["id"]}' + (f'/{t["zone"]}' if t.get('zone') else '') + '\n'
    return out + f'1\t{t["form"]}\t_\tX\t_\t_\t0\troot\t_\t_\n\n'


def reference(fs, o):
    """The documents as lists of bundles as lists of (form, bundle id, zone, newdoc)."""
    docs, cur, count, last = [], None, 0, ''
    n, split, merge, maxd = o.get('bundles_per_doc', 0), o.get('split_docs'), o.get('merge'), o.get('max_docs', 0)
    rx = o.get('sent_id_filter')
    for k, trees in enumerate(fs):
        skipped = None
        if not merge:
            cur = None
        for t in trees:
            nd = t.get('newdoc')
            sid = (t['id'] + ('/' + t['zone'] if t.get('zone') else '')) if t.get('id') is not None else None
            if rx is not None:
                if re.match(rx, sid) is None:
                    skipped = nd or skipped
                    continue
                nd, skipped = nd or skipped, None
            bid, zone = (t['id'], t.get('zone', '')) if sid is not None and not o.get('ignore_sent_id') else (None, '')
            if o.get('zone', 'keep') != 'keep':
                zone = o['zone']
            same = cur is not None and bid is not None and bid == last
            last = bid
            new = cur is None or bool(split and nd) or bool(n and not same and len(cur) == n)
            if nd or new:
                if maxd and count >= maxd:
                    return docs
                count += 1
            if new:
                cur = []
                docs.append(cur)
                same = False
            if not same:
                cur.append([])
            cur[-1].append((t['form'], bid, zone, nd or None))
    return docs


def load(case):
    o = case['opts']
    with Dir() as d:
        names = []
        for k, trees in enumerate(case['files']):
            p = os.path.join(d, f'f{k}.conllu')
            with open(p, 'w') as f:
                f.write(''.join(conllu_tree(t) for t in trees))
            names.append(p)
        want = reference(case['files'], o)
        rd = Conllu(files=names, **o)
        docs = []
        while not rd.finished:
            doc = Document()
            rd.apply_on_document(doc)
            docs.append(doc)
            check(len(docs) <= 2 * sum(len(t) for t in case['files']) + len(names) + 2, 'the reader never finishes')
        rd.filehandle and rd.filehandle.close()
    real = [[[(t.descendants[0].form, t._sent_id.split('/')[0] if case_ids(case) and t._sent_id else None, t.zone, t.newdoc) for t in b] for b in dd.bundles] for dd in docs if dd.bundles]
    if not case_ids(case) or o.get('ignore_sent_id'):
        real = [[[(f, None, z, nd) for f, _, z, nd in b] for b in dd] for dd in real]
    else:
        noid = {t['form'] for ts in case['files'] for t in ts if t.get('id') is None}
        ids = {t['id'] for ts in case['files'] for t in ts}
        for dd in real:
            for b in dd:
                for i, (f, s, z, nd) in enumerate(b):
                    if f in noid:
                        check(s not in ids or s is None, lambda: f'the tree {f} without a sent_id got the id {s}')
                        b[i] = (f, None, z, nd)
    flat = [x[0] for dd in real for b in dd for x in b]
    eq(flat, [x[0] for dd in want for b in dd for x in b], 'the delivered trees')
    eq(real, want, 'documents, bundles, (form, id, zone, newdoc)')
    for dd in docs:
        eq([b.number for b in dd.bundles], list(range(1, len(dd.bundles) + 1)), 'bundle numbers')
        for b in dd.bundles:
            for t in b:
                check(t.bundle is b and b.document is dd, 'bundle or document links')


def case_ids(case):
    return any(t.get('id') is not None for ts in case['files'] for t in ts)


def second(case):
    """A second reader adds its trees to the bundles of a loaded document, in order."""
    with Dir() as d:
        ps = []
        for k, n in enumerate(case['n']):
            ps.append(os.path.join(d, f'{k}.conllu'))
            with open(ps[-1], 'w') as f:
                f.write(''.join(conllu_tree({'form': f'{"ab"[k]}{i}', 'id': f's{i}' if case['ids'] else None}) for i in range(n)))
        doc = Document()
        r1, r2 = Conllu(files=[ps[0]], zone='a'), Conllu(files=[ps[1]], zone='b')
        r1.apply_on_document(doc)
        r2.apply_on_document(doc)
        r2.filehandle and r2.filehandle.close()
        na, nb = case['n']
        eq([[(t.zone, t.descendants[0].form) for t in b] for b in doc.bundles],
           [([('a', f'a{i}')] if i < na else []) + ([('b', f'b{i}')] if i < nb else []) for i in range(max(na, nb))], 'bundles')
        eq((r1.finished, r2.finished), (True, True), 'finished')


def sentences(case):
    with Dir() as d:
        ps = []
        for k, ls in enumerate(case['files']):
            ps.append(os.path.join(d, f'{k}.txt'))
            with open(ps[-1], 'w', newline='') as f:
                f.write(''.join(x + '\n' for x in ls))
        kw = {k: case[k] for k in ('ignore_empty_lines', 'bundles_per_doc', 'merge', 'zone') if k in case}
        rd = Sentences(files=ps, **kw)
        docs = rd.read_documents()
        rd.filehandle and rd.filehandle.close()
        want = [x.rstrip('\r\n ') for ls in case['files'] for x in ls if not (case.get('ignore_empty_lines') and x == '')]
        eq([t.text for dd in docs for b in dd.bundles for t in b], want, 'the texts')
        check(all(len(b.trees) == 1 for dd in docs for b in dd.bundles), 'a bundle with more trees')
        n = case.get('bundles_per_doc')
        if n:
            check(all(len(dd.bundles) <= n for dd in docs), 'a document with too many bundles')
        z = case.get('zone', '')
        check(all(t.zone == z for dd in docs for b in dd.bundles for t in b), 'zone')


CHECKS = {'files': files, 'load': load, 'second': second, 'sentences': sentences}
OPS = ['has', 'name', 'cur', 'handle']
OPTS = [{}, {'split_docs': True}, {'bundles_per_doc': 1}, {'bundles_per_doc': 2}, {'merge': True}, {'merge': True, 'bundles_per_doc': 2},
        {'merge': True, 'split_docs': True}, {'split_docs': True, 'bundles_per_doc': 2}, {'max_docs': 1}, {'max_docs': 2},
        {'max_docs': 2, 'split_docs': True}, {'max_docs': 2, 'bundles_per_doc': 1}, {'max_docs': 2, 'bundles_per_doc': 2}, {'max_docs': 1, 'merge': True},
        {'sent_id_filter': 's[0-9]*[02468]$'}, {'sent_id_filter': 's[123]$', 'split_docs': True}, {'sent_id_filter': 's[135]', 'bundles_per_doc': 2},
        {'zone': 'xx'}, {'ignore_sent_id': True}]


def mkfiles(shape, nd, zones, ids):
    """shape: numbers of bundles in the files; nd: set of bundle numbers with newdoc; zones: bundle -> number of trees."""
    out, k = [], 0
    for n in shape:
        ts = []
        for _ in range(n):
            for z in range(zones.get(k, 1)):
                t = {'form': f'w{k}{"abc"[z]}', 'id': f's{k}' if k in ids else None}
                if zones.get(k, 1) > 1:
                    t['zone'] = 'abc'[z]
                if z == 0 and k in nd:
                    t['newdoc'] = f'd{k}' if k % 2 else True
                ts.append(t)
            k += 1
        out.append(ts)
    return out


def generate(rnd, tier):
    for n in range(0, 5):
        names = [f'n{i}.txt' for i in range(n)]
        for mode in ('list', 'comma', 'space', 'glob', 'mixed', 'filehandle'):
            for ops in itertools.chain([['has', 'name', 'cur'] * 6], [['has', 'handle', 'cur'] * 6]):
                yield 'files', {'names': names, 'given': list(range(n)), 'mode': mode, 'ops': ops}
    for opts in OPTS:
        for shape in [[1], [2], [3], [1, 1], [2, 1], [1, 2], [3, 1], [0, 2], [2, 0, 1], [2, 2], [3, 2]]:
            n = sum(shape)
            for nd in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1)):
                yield 'load', {'files': mkfiles(shape, set(nd), {}, set(range(n))), 'opts': opts}
                if 'zone' not in opts:
                    yield 'load', {'files': mkfiles(shape, set(nd), {0: 2, n - 1: 2}, set(range(n))), 'opts': opts} if not opts.get('ignore_sent_id') else \
                        {'files': mkfiles(shape, set(nd), {}, set(range(n))), 'opts': opts}
                if 'sent_id_filter' not in opts:
                    yield 'load', {'files': mkfiles(shape, set(nd), {}, set(range(0, n, 2))), 'opts': opts}
    for na in range(0, 4):
        for nb in range(0, 5):
            for ids in (True, False):
                if na:
                    yield 'second', {'n': [na, nb], 'ids': ids}
    yield None, None
    exts = ['txt', 'txt', 'conllu', 'gz', 'xz', 'bz2']
    while True:
        r = rnd.random()
        if r < .35:
            n = rnd.randint(0, 5)
            yield 'files', {'names': [rnd.choice(['x', 'y', 'z', 'n' + str(i)]) + '.' + rnd.choice(exts) for i in range(n)],
                            'given': [rnd.randrange(9) for _ in range(rnd.randint(0, 6))], 'mode': rnd.choice(['list', 'comma', 'space', 'glob', 'mixed', 'filehandle']),
                            'pattern': rnd.choice(['*', '*.txt', 'x*', '?.gz']), 'ops': [rnd.choice(OPS) for _ in range(rnd.randint(1, 14))]}
        elif r < .85:
            shape = [rnd.randint(0, 5) for _ in range(rnd.randint(1, 4))]
            n = sum(shape)
            o = {}
            if rnd.random() < .4:
                o['split_docs'] = True
            if rnd.random() < .4:
                o['bundles_per_doc'] = rnd.randint(1, 4)
            if rnd.random() < .4:
                o['merge'] = True
            if rnd.random() < .35:
                o['max_docs'] = rnd.randint(1, 5)
            if rnd.random() < .3:
                o['sent_id_filter'] = rnd.choice(['s[0-4]', 's.*[13579]$', 's1', 'x', '.*[02468](/|$)'])
            zones = {k: rnd.randint(2, 3) for k in range(n) if rnd.random() < .4}
            ids = set(range(n))
            if rnd.random() < .3 and 'sent_id_filter' not in o:
                ids = {k for k in ids if k in zones or rnd.random() < .5}
            if rnd.random() < .2:
                o['zone'], zones = 'zz', {}
            if rnd.random() < .15 and not zones:
                o['ignore_sent_id'] = True
            nd = {k for k in range(n) if rnd.random() < .35}
            yield 'load', {'files': mkfiles(shape, nd, zones, ids), 'opts': o}
        else:
            c = {'files': [[rnd.choice(['a b', '', 'c ', 'd\r', 'e', '']) for _ in range(rnd.randint(0, 6))] for _ in range(rnd.randint(1, 3))]}
            for k, v in (('ignore_empty_lines', True), ('bundles_per_doc', rnd.randint(1, 3)), ('merge', True), ('zone', 'zz')):
                if rnd.random() < .4:
                    c[k] = v
            yield 'sentences', c


def shrink(name, case):
    if name == 'files':
        for i in range(len(case['ops'])):
            yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
    if name == 'load':
        for k in list(case['opts']):
            yield dict(case, opts={a: b for a, b in case['opts'].items() if a != k})
        for i in range(len(case['files'])):
            if len(case['files']) > 1:
                yield dict(case, files=case['files'][:i] + case['files'][i + 1:])
            for j in range(len(case['files'][i])):
                yield dict(case, files=case['files'][:i] + [case['files'][i][:j] + case['files'][i][j + 1:]] + case['files'][i + 1:])
