"""deprel parts, no_space_after, gloss."""
import itertools
from .core import Fail, check, eq
from udapi.core.root import Root
from udapi.core.mwt import MWT

U = ['acl', 'root', 'x', 'nmod_a', 'č']
SD = ['relcl', 'a:b', 'x', ':', 'q_r']


def deprels(case):
    n = Root().create_child(form='a', deprel=case['deprel'])
    u, s = (None, None) if case['deprel'] is None else (case['deprel'].split(':', 1) + [''])[:2]

    def view(what):
        full = n.deprel
        want = None if u is None else (u if not s else f'{u}:{s}')
        if not ((full or '').endswith(':') and not s):
            eq(full, want, f'{what}: deprel')
        eq(n.udeprel, u, f'{what}: udeprel')
        eq(n.sdeprel, s, f'{what}: sdeprel')
        eq(n.deprel, full, f'{what}: reading changed deprel')
        if u is not None:
            eq(n.deprel.split(':', 1)[0], u, f'{what}: universal part')
    view('initially')
    for i, (part, v) in enumerate(case['ops']):
        what = f'step {i} {part}={v!r}'
        if part == 'u':
            n.udeprel = v
            u, s = v, (s or '')
        elif part == 's':
            if u is None:
                continue
            n.sdeprel = v
            s = v or ''
        else:
            n.deprel = v
            u, s = (None, None) if v is None else (v.split(':', 1) + [''])[:2]
        view(what)


def misc(case):
    n = Root().create_child(form='a') if case['kind'] == 'node' else MWT(form='x')
    node = case['kind'] == 'node'
    m = {}
    for i, op in enumerate(case['ops']):
        what = f'step {i} {op}'
        if op[0] == 'gloss':
            if not node:
                continue
            n.gloss = op[1]
            m.pop('Gloss', None)
            if op[1]:
                m['Gloss'] = op[1]
        elif op[0] == 'set':
            n.misc[op[1]] = op[2]
            m.pop(op[1], None)
            if op[2]:
                m[op[1]] = op[2]
        elif op[0] == 'str':
            n.misc = op[1]
            m = dict(p.split('=', 1) for p in op[1].split('|')) if op[1] not in ('', '_') else {}
        elif op[0] == 'del':
            del n.misc[op[1]]
            m.pop(op[1], None)
        elif op[0] == 'none':
            n.misc = None
            m = {}
        for _ in range(2):
            eq(n.no_space_after, m.get('SpaceAfter') == 'No', f'{what}: no_space_after')
            check(isinstance(n.no_space_after, bool), f'{what}: no_space_after is not a boolean')
            if node:
                eq(n.gloss, m.get('Gloss', ''), f'{what}: gloss')
            eq(dict(n.misc), m, f'{what}: misc')


CHECKS = {'deprels': deprels, 'misc': misc}


def generate(rnd, tier):
    starts = [None, 'acl', 'acl:relcl', 'a:b:c', 'a:', 'dep:x']
    dops = [('u', v) for v in U[:3]] + [('s', v) for v in SD[:4] + ['', None]] + [('d', v) for v in ['obl', 'obl:agent', 'p:q:r']]
    for d in starts:
        for n in (1, 2, 3):
            for ops in itertools.product(dops, repeat=n):
                yield 'deprels', {'deprel': d, 'ops': [list(x) for x in ops]}
    mops = [['gloss', 'g'], ['gloss', ''], ['gloss', None], ['set', 'SpaceAfter', 'No'], ['set', 'SpaceAfter', 'Yes'], ['set', 'SpaceAfter', ''],
            ['set', 'Gloss', 'h'], ['set', 'X', 'No'], ['str', 'SpaceAfter=No'], ['str', 'Gloss=No|SpaceAfter=no'], ['str', '_'], ['str', 'A=1|SpaceAfter=No|Gloss=z'],
            ['del', 'SpaceAfter'], ['del', 'Gloss'], ['none'], ['str', 'SpaceAfter=Yes'], ['str', 'NoSpaceAfter=No'], ['str', 'Gloss=a=b']]
    for kind in ('node', 'mwt'):
        for n in (1, 2):
            for ops in itertools.product(mops, repeat=n):
                yield 'misc', {'kind': kind, 'ops': list(ops)}
    yield None, None
    while True:
        if rnd.random() < .5:
            w = lambda: ''.join(rnd.choice('ab:xč_-1') for _ in range(rnd.randrange(1, 5)))
            u = lambda: w().replace(':', '') or 'u'
            yield 'deprels', {'deprel': rnd.choice([None, u(), u() + ':' + w().strip(':')]),
                              'ops': [rnd.choice([['u', u()], ['s', w()], ['s', ''], ['d', u() + ':' + (w())]]) for _ in range(rnd.randrange(1, 6))]}
        else:
            yield 'misc', {'kind': rnd.choice(['node', 'mwt']), 'ops': [rnd.choice(mops) for _ in range(rnd.randrange(2, 8))]}
