"""Which hooks are called on what, in which order; running scenarios; parsing scenarios."""
import io
import itertools
import sys
import types
from .core import Fail, check, eq
from .trees import build
from udapi.core.block import Block
from udapi.core.document import Document
from udapi.core.run import Run, _parse_command_line_arguments, _import_blocks

HOOKS = ['bundle', 'tree', 'node', 'empty_node']


def make(spec):
    doc = Document()
    for s, trees in enumerate(spec):
        b = doc.create_bundle()
        for z, n, em in trees:
            t = b.create_tree(z)
            _, ws = build([0] * n, prefix=f'{s}{z}', root=t)
            for k in em:
                if ws:
                    ws[k % n].create_empty_child('dep', form=f'{s}{z}e{len(t.empty_nodes)}')
    return doc


def block(hooks, log, edit, **kw):
    def mk(h):
        if h == 'bundle':
            return lambda self, b: log.append(('bundle', b.number))
        if h == 'tree':
            return lambda self, t: log.append(('tree', t.bundle.number, t.zone))

        def node(self, n):
            log.append((h, n.form))
            if edit == 'remove' and h == 'empty_node':
                n.remove()
            elif edit == 'child' and h == 'node':
                n.create_child(form='new').shift_before_node(n)
            elif edit == 'flat' and h == 'node' and n.children:
                for c in n.children:
                    c.parent = n.root
        return node
    cls = type('Probe', (Block,), {'process_' + h: mk(h) for h in hooks})
    return cls(**kw)


def selected(zones, z):
    return zones == 'all' or z in zones.split(',')


def hooks(case):
    doc = make(case['doc'])
    log, want = [], []
    kw = {k: case[k] for k in ('zones', 'if_empty_tree') if k in case}
    zones, ie = case.get('zones', 'all'), case.get('if_empty_tree', 'process')
    fail = False
    deleted = []
    for s, trees in enumerate(case['doc']):
        if 'bundle' in case['hooks']:
            want.append(('bundle', s + 1))
            continue
        for z, n, em in trees:
            if n == 0 and ie != 'process':
                if ie in ('fail', 'nonsense'):
                    fail = True
                    break
                if ie == 'delete':
                    deleted.append((s, z))
                continue
            if not selected(zones, z):
                continue
            if 'tree' in case['hooks']:
                want.append(('tree', s + 1, z))
                continue
            t = doc.bundles[s].get_tree(z)
            if 'node' in case['hooks']:
                want += [('node', f'{s}{z}{i + 1}') for i in range(n)]
            if 'empty_node' in case['hooks']:
                want += [('empty_node', e.form) for e in t.empty_nodes]
        if fail:
            break
    b = block(case['hooks'], log, case.get('edit'), **kw)
    ids = [[id(t) for t in bb.trees] for bb in doc.bundles]
    try:
        getattr(b, case.get('via', 'process_document'))(doc)
    except Exception as e:
        if not case['hooks']:
            eq(log, [], 'hooks called')
            return
        check(fail, lambda: f'unexpected {type(e).__name__} {e}')
        eq(log, want, 'hooks called before the failure')
        return
    check(bool(case['hooks']), 'a block without hooks was accepted')
    check(not fail, 'an empty tree was accepted')
    eq(log, want, 'hooks called')
    if 'bundle' not in case['hooks']:
        for s, bb in enumerate(doc.bundles):
            zs = [z for z, _, _ in case['doc'][s] if (s, z) not in deleted]
            eq([t.zone for t in bb.trees], zs, 'trees left in the bundle')


def default_bundle(case):
    """A block overriding process_bundle which calls the inherited one: all the selected trees."""
    doc = make(case['doc'])
    log = []

    class B(Block):
        def process_bundle(self, bundle):
            log.append(('bundle', bundle.number))
            super().process_bundle(bundle)

        def process_tree(self, tree):
            log.append(('tree', tree.bundle.number, tree.zone))
            super().process_tree(tree)

        def process_node(self, node):
            log.append(('node', node.form))
    B(zones=case['zones']).process_document(doc)
    want = []
    for s, trees in enumerate(case['doc']):
        want.append(('bundle', s + 1))
        for z, n, _ in trees:
            if selected(case['zones'], z):
                want.append(('tree', s + 1, z))
                want += [('node', f'{s}{z}{i + 1}') for i in range(n)]
    eq(log, want, 'hooks called')


def scenario(case):
    """Readers with given numbers of documents, and other blocks."""
    log = []
    docs = {}

    class Probe(Block):
        def __init__(self, name, rounds=None):
            super().__init__()
            self.name = name
            self.left = rounds
            if rounds is not None:
                self.finished = False

        def process_start(self):
            log.append(('start', self.name))

        def process_end(self):
            log.append(('end', self.name))

        def before_process_document(self, document):
            log.append(('before', self.name, docs.setdefault(id(document), (len(docs), document))[0]))

        def after_process_document(self, document):
            log.append(('after', self.name, docs[id(document)][0]))

        def process_document(self, document):
            log.append(('doc', self.name, docs[id(document)][0]))
            if self.left is not None:
                self.left -= 1
                self.finished = self.left <= 0
    blocks = [Probe(i, r) for i, r in enumerate(case['blocks'])]
    rounds = max([r for r in case['blocks'] if r is not None])
    rounds = max(rounds, 1)
    r = Run(types.SimpleNamespace(scenario=['x']))
    r.run_blocks([(str(b.name), b, {}) for b in blocks])
    n = len(blocks)
    want = [('start', i) for i in range(n)]
    for d in range(rounds):
        for i in range(n):
            want += [('before', i, d), ('doc', i, d), ('after', i, d)]
    want += [('end', i) for i in range(n)]
    eq(log, want, 'events')


def parse(case):
    names, args = [], []
    fail = False
    for w in case['words']:
        if '=' not in w:
            names.append(w)
            args.append({})
        else:
            if not names:
                fail = True
                break
            k, v = w.split('=', 1)
            args[-1][k] = int(v) if v and all(c in '0123456789' for c in v) else v
    words = list(case['words'])
    try:
        got = _parse_command_line_arguments(words)
    except RuntimeError:
        check(fail, 'a legal scenario was refused')
        return
    check(not fail, 'an argument before the first block was accepted')
    eq((list(got[0]), list(got[1])), (names, args), 'blocks and arguments')
    check([type(v) for a in got[1] for v in a.values()] == [type(v) for a in args for v in a.values()], 'types of arguments')
    eq(words, case['words'], 'the scenario was changed')


def create(case):
    """Blocks are created in the given order, each with its own arguments."""
    names, args = _parse_command_line_arguments(case['words'])
    bl = _import_blocks(names, args)
    eq([n for n, _, _ in bl], names, 'names')
    eq([b.block_name() for _, b, _ in bl], names, 'classes')
    for (_, b, _), a in zip(bl, args):
        for k, v in a.items():
            eq(getattr(b, k), v, f'argument {k}')


def no_reader(case):
    """Without a reader, the standard input is read (once) before the first block."""
    log = []

    class B(Block):
        def process_start(self):
            log.append('start')

        def process_end(self):
            log.append('end')

        def process_tree(self, tree):
            log.append(tree.sent_id)
    text = ''.join(f'# sent_id = s{i}\n' + '1\ta\t_\t_\t_\t_\t0\t_\t_\t_\n\n' for i in range(case['n']))
    old, sys.stdin = sys.stdin, io.TextIOWrapper(io.BytesIO(text.encode()))
    try:
        Run(types.SimpleNamespace(scenario=['x'])).run_blocks([(str(i), B(), {}) for i in range(case['blocks'])])
    finally:
        sys.stdin = old
    eq(log, ['start'] * case['blocks'] + [f's{i}' for i in range(case['n'])] * case['blocks'] + ['end'] * case['blocks'], 'events')


def execute(case):
    """A whole scenario of words, with a block of a private package."""
    log = []
    pkg, mod = types.ModuleType('pyvcpriv'), types.ModuleType('pyvcpriv.logger')
    pkg.__path__ = []

    class Logger(Block):
        def __init__(self, name='?', **kwargs):
            super().__init__(**kwargs)
            self.name = name

        def process_start(self):
            log.append(('start', self.name))

        def process_end(self):
            log.append(('end', self.name))

        def process_tree(self, tree):
            log.append((self.name, tree.sent_id))
    mod.Logger = Logger
    sys.modules['pyvcpriv'], sys.modules['pyvcpriv.logger'] = pkg, mod
    text = ''.join(f'# sent_id = s{i}\n' + '1\ta\t_\t_\t_\t_\t0\t_\t_\t_\n\n' for i in range(case['n']))
    words, names = [], []
    for a in case['blocks']:
        words.append('.pyvcpriv.Logger')
        if a:
            words += [f'name={a}']
        names.append(a or '?')
    old, sys.stdin = sys.stdin, io.TextIOWrapper(io.BytesIO(text.encode()))
    try:
        bl = Run(types.SimpleNamespace(scenario=words)).execute()
    finally:
        sys.stdin = old
        del sys.modules['pyvcpriv'], sys.modules['pyvcpriv.logger']
    eq(log, [('start', x) for x in names] + [(x, f's{i}') for x in names for i in range(case['n'])] + [('end', x) for x in names], 'events')
    eq([b.name for _, b, _ in bl if isinstance(b, Logger)], names, 'blocks returned')


def coref(case):
    """Hooks of coreference: every entity or mention of the document once, before the other hooks, whatever the zones are."""
    doc = make(case['doc'])
    allw = [w for b in doc.bundles for t in b.trees for w in t.descendants]
    words = [w for w in allw if w.root.zone == 'en']      # mentions in different zones are not comparable
    doc.meta['global.Entity'] = 'eid-etype-head-other'
    for i, ks in enumerate(case['entities']):
        e = doc.create_coref_entity(f'e{i}')
        for k in ks:
            if words:
                e.create_mention(words=[words[k % len(words)]])
    log = []

    class B(Block):
        pass
    for h in case['hooks']:
        setattr(B, 'process_' + h, (lambda h: lambda self, x: log.append((h, x.eid if h == 'coref_entity' else f'{x.entity.eid} {x.head.form}' if h == 'coref_mention' else x.form)))(h))
    B(zones=case['zones']).process_document(doc)
    want = []
    for e in doc.coref_entities:
        if 'coref_entity' in case['hooks']:
            want.append(('coref_entity', e.eid))
        elif 'coref_mention' in case['hooks']:
            want += [('coref_mention', f'{e.eid} {m.head.form}') for m in e.mentions]
    if 'node' in case['hooks']:
        want += [('node', w.form) for w in allw if selected(case['zones'], w.root.zone)]
    eq(log, want, 'hooks called')
    eq(len([x for x in log if x[0] == 'coref_mention']), sum(map(len, case['entities'])) if words and 'coref_mention' in case['hooks'] and 'coref_entity' not in case['hooks'] else 0, 'mentions')


CHECKS = {'no_reader': no_reader, 'execute': execute, 'coref': coref, 'hooks': hooks, 'default_bundle': default_bundle, 'scenario': scenario, 'parse': parse, 'create': create}
WORDS = ['a.B', 'read.Conllu', 'x=1', 'y=', 'z=a=b', 'zones=en', 'n=007', 'node=node.form = "_"', '=3', 'k=-1', 'util.Eval', 'p=1.5', 'q= 1']


def shrink(name_, case):
    if 'doc' in case:
        d = case['doc']
        for i in range(len(d)):
            yield dict(case, doc=d[:i] + d[i + 1:])
            for j in range(len(d[i])):
                yield dict(case, doc=d[:i] + [d[i][:j] + d[i][j + 1:]] + d[i + 1:])
    for k in ('words',) if name_ == 'parse' else ():
        if k in case:
            for i in range(len(case[k])):
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})


def generate(rnd, tier):
    d2 = [[[z, 1, [0]] for z in ('e', 'en', 'en_gold', '', 'gold', 'n', 'a', 'al', 'de', 'de_x')]]
    for hs in (['tree'], ['node'], ['node', 'empty_node']):
        for z in ('en_gold', 'en', 'e', 'en_gold,de', 'de_x', 'all', ',de', 'de_x,a', '', 'en,en', 'al', 'n,', 'gold,en_gold'):
            yield 'hooks', {'doc': d2, 'hooks': hs, 'zones': z}
    d1 = [[['', 2, [0, 0, 1]], ['en', 0, []]], [['en', 3, [2]], ['cs', 1, []], ['', 0, []]], [], [['cs', 2, [0, 1]]]]
    subsets = [[h for i, h in enumerate(HOOKS) if m >> i & 1] for m in range(16)]
    for hs in subsets:
        for z in ('all', '', 'en', 'cs,en', 'en,', 'xx', 'cs', 'e'):
            for ie in ('process', 'skip', 'skip_warn', 'delete', 'fail', 'nonsense'):
                yield 'hooks', {'doc': d1, 'hooks': hs, 'zones': z, 'if_empty_tree': ie}
        for ed in ('remove', 'child', 'flat'):
            yield 'hooks', {'doc': d1, 'hooks': hs, 'edit': ed}
        for via in ('run', 'apply_on_document'):
            yield 'hooks', {'doc': d1, 'hooks': hs, 'via': via}
    for z in ('all', '', 'en', 'cs,en'):
        yield 'default_bundle', {'doc': d1, 'zones': z}
    for k in range(1, 5):
        for bl in itertools.product([None, 1, 2, 3], repeat=k):
            if any(x is not None for x in bl):
                yield 'scenario', {'blocks': list(bl)}
    for n in (0, 1, 3):
        for k in (1, 2):
            yield 'no_reader', {'n': n, 'blocks': k}
            yield 'execute', {'n': n, 'blocks': ['a', None, 'b=c'][:k + 1]}
    for m in range(1, 8):
        for z in ('all', 'en', 'xx'):
            for es in ([[0]], [[0, 1], [2]], [[3, 4], [0, 4, 2], [1]]):
                yield 'coref', {'doc': d1 + [[['cs', 1, []], ['en', 2, []]]], 'hooks': [h for i, h in enumerate(['coref_entity', 'coref_mention', 'node']) if m >> i & 1], 'zones': z, 'entities': es}
    for k in range(0, 4):
        for ws in itertools.product(WORDS[:8], repeat=k):
            yield 'parse', {'words': list(ws)}
    yield 'create', {'words': ['read.Conllu', 'strict=x', 'zone=en', 'util.Eval', 'node=pass', 'tree=a=b', 'zones=cs', 'util.Eval', 'node=x', 'write.Conllu', 'print_text=0', 'write.TextModeTrees']}
    yield 'create', {'words': ['tokenize.OnWhitespace', 'keep_spaces=1', 'segment.Simple', 'tokenize.OnWhitespace']}
    yield None, None
    while True:
        r = rnd.random()
        if r < .6:
            doc = []
            for _ in range(rnd.randrange(0, 5)):
                zs = rnd.sample(['', 'en', 'cs', 'de_x', 'de', 'en_de'], rnd.randrange(0, 4))
                doc.append([[z, rnd.choice([0, 1, 2, 5]), [rnd.randrange(5) for _ in range(rnd.choice([0, 0, 2, 4]))]] for z in zs])
            c = {'doc': doc, 'hooks': [h for h in HOOKS if rnd.random() < (.2 if h in ('bundle', 'tree') else .7)], 'zones': rnd.choice(['all', 'all', '', 'en', 'en,cs', 'cs,,x', 'de_x', 'de', 'en_de', 'en_de,de_x']),
                 'if_empty_tree': rnd.choice(['process', 'process', 'skip', 'delete', 'skip_warn', 'fail'])}
            if rnd.random() < .3:
                c['edit'] = rnd.choice(['remove', 'child', 'flat'])
            if rnd.random() < .2:
                yield 'default_bundle', {'doc': doc, 'zones': c['zones']}
            else:
                yield 'hooks', c
        elif r < .7:
            bl = [rnd.choice([None, None, 1, 2, 5]) for _ in range(rnd.randrange(1, 7))]
            if any(x is not None for x in bl):
                yield 'scenario', {'blocks': bl}
        else:
            yield 'parse', {'words': [rnd.choice(WORDS) for _ in range(rnd.randrange(0, 9))]}
