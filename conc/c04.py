"""FEATS/MISC mappings against a reference model (attribute dictionary + stored string)."""
from .core import Fail, check, eq
from udapi.core.dualdict import DualDict
from udapi.core.feats import Feats
from udapi.core.coref import OtherDualDict
from udapi.core.node import Node
from udapi.core.root import Root
from udapi.core.mwt import MWT

KEYS = ['Case', 'Gender', 'abbr', 'Abbr2', 'X', 'x2', 'Číslo', '9a']
VALS = ['Nom', '1', 'a=b', 'x:y', 'No', 'Yes', 'ž', '0', ' ']
SYN = {'DualDict': ('|', '=', '_'), 'Feats': ('|', '=', '_'), 'OtherDualDict': (',', ':', '')}


def parse(s, syn):
    d = {}
    if s not in ('_', '') or (s == '_' and syn[2] == ''):
        for part in s.split(syn[0]):
            k, sep, v = part.partition(syn[1])
            d[k] = v if sep else True
    return d


def ser(d, syn):
    return syn[0].join(k if v is True else f'{k}{syn[1]}{v}' for k, v in sorted(d.items(), key=lambda t: t[0].lower())) or syn[2]


class Model:
    def __init__(self, syn):
        self.d, self.s, self.syn = {}, None, syn


def view(obj, m, what, other_first):
    """Both views describe the model's attributes; reading twice changes nothing."""
    want_s = m.s if m.s is not None else ser(m.d, m.syn)

    def dicts():
        eq(dict(obj), m.d, f'{what}: dictionary view')
        eq(len(obj), len(m.d), f'{what}: len')
        for k in KEYS:
            eq(obj[k], m.d.get(k, ''), f'{what}: [{k!r}]')
            eq(k in obj, k in m.d, f'{what}: {k!r} in')
        eq(sorted(obj), sorted(m.d), f'{what}: iteration')

    def strs():
        got = str(obj)
        if isinstance(want_s, set):
            check(got in want_s, lambda: f'{what}: str() is {got!r}, expected one of {sorted(want_s)}')
        else:
            eq(got, want_s, f'{what}: str()')
    for f in ((dicts, strs, dicts, strs) if other_first else (strs, dicts, strs)):
        f()


def ops(case):
    cls, syn = case['cls'], SYN[case['cls']]
    how = case.get('how', 'obj')
    m = Model(syn)
    if how == 'obj':
        obj = {'DualDict': DualDict, 'Feats': Feats, 'OtherDualDict': OtherDualDict}[cls]()
        get = lambda: obj

        def assign(v):
            obj.set_mapping(v)
    else:
        holder = Root().create_child(form='a') if how == 'node' else MWT(form='x')
        attr = 'feats' if cls == 'Feats' else 'misc'
        get = lambda: getattr(holder, attr)

        def assign(v):
            setattr(holder, attr, v)
    for i, op in enumerate(case['ops']):
        what = f'step {i} {op}'
        k = op[0]
        o = get()
        if k == 'set':
            o[op[1]] = op[2]
            if op[2] is None or op[2] == '':
                changed = op[1] in m.d
                m.d.pop(op[1], None)
                if changed:
                    m.s = None
                elif m.s is not None:
                    m.s = {m.s, ser(m.d, syn)} if isinstance(m.s, str) else m.s    # deleting a missing attribute may reserialize
            else:
                v = op[2]
                if cls == 'OtherDualDict':
                    v = v.replace(',', '%2C')
                m.d[op[1]] = v
                m.s = None
        elif k == 'del':
            del o[op[1]]
            if m.d.pop(op[1], None) is not None:
                m.s = None
        elif k == 'pop':
            got = o.pop(op[1])
            eq(got, m.d.get(op[1], ''), f'{what}: result')
            if m.d.pop(op[1], None) is not None:
                m.s = None
        elif k == 'update':
            o.update(op[1])
            if op[1]:
                m.d.update(op[1])
                m.s = None
        elif k == 'clear':
            o.clear()
            m.d, m.s = {}, syn[2]
        elif k == 'str':
            assign(op[1])
            m.d = parse(op[1], syn) if op[1] else {}
            m.s = op[1] or syn[2]
        elif k == 'dict':
            src = dict(op[1])
            assign(src)
            m.d, m.s = dict(op[1]), None
            src['Case'] = 'changed later'      # a copy is stored
            src.clear()
        elif k == 'other':
            # whole-mapping assignment of another mapping object: a copy
            src = type(get())(op[1])
            assign(src)
            m.d, m.s = parse(op[1], syn), None
            src['Case'] = 'changed later'
            del src['Gender']
        elif k == 'self':
            assign(get())
            m.s = None if m.s is None else {m.s if isinstance(m.s, str) else '', ser(m.d, syn)} if isinstance(m.s, str) else m.s
        elif k == 'none':
            assign(None)
            m.d, m.s = {}, syn[2]
        elif k == 'copy':
            c = o.copy()
            view(c, m, what + ' (copy)', True)
            c['Case'] = 'changed in the copy'
            c.clear()
        elif k == 'new':
            if how == 'obj':
                t = type(obj)
                if op[1] == 'kw':
                    obj = t(**op[2])
                    m.d, m.s = dict(op[2]), None
                else:
                    obj = t(op[2])
                    m.d, m.s = parse(op[2], syn), (op[2] if op[2] else syn[2])
                get = lambda: obj
        elif k == 'dictview':
            eq(dict(o), m.d, what)
            continue
        elif k == 'strview':
            pass
        elif k == 'noread':
            continue
        if case.get('lazy') and i < len(case['ops']) - 1:
            continue
        view(get(), m, what, bool(i % 2))
    view(get(), m, 'at the end', True)
    if how == 'node' and cls == 'Feats':
        check(type(get()) is Feats, 'node.feats is not a Feats')
        eq(get().is_singular(), 'Sing' in str(m.d.get('Number', '')), 'is_singular')
    # equality with the string
    if isinstance(m.s, str) or m.s is None:
        s = m.s if m.s is not None else ser(m.d, syn)
        if cls != 'OtherDualDict':
            check(str(get()) == s, 'string')


CHECKS = {'ops': ops}


def shrink(name, case):
    for i in range(len(case['ops'])):
        yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])


def small_ops(syn):
    a, b, e = syn
    strs = ['', '_' if e == '_' else f'X{b}1', f'Case{b}Nom', f'x2{b}1{a}Case{b}Nom', f'X{a}abbr{b}2']
    out = [['set', 'Case', 'Acc'], ['set', 'Case', ''], ['set', 'X', None], ['set', 'abbr', 'q'], ['del', 'Case'], ['del', 'X'], ['clear'], ['none'],
           ['dict', {'X': '1', 'Case': 'Dat'}], ['dict', {}], ['self'], ['copy'], ['pop', 'Case'], ['update', {'x2': '7'}]]
    return out + [['str', s] for s in strs] + [['other', strs[3]], ['dictview'], ['strview']]


def generate(rnd, tier):
    import itertools
    for cls in SYN:
        so = small_ops(SYN[cls])
        for n in (1, 2):
            for t in itertools.product(so, repeat=n):
                for lazy in (True, False):
                    yield 'ops', {'cls': cls, 'how': 'obj', 'ops': list(t), 'lazy': lazy}
    for cls, how in (('Feats', 'node'), ('DualDict', 'node'), ('DualDict', 'mwt')):
        for t in itertools.product(small_ops(SYN[cls]), repeat=2):
            yield 'ops', {'cls': cls, 'how': how, 'ops': list(t), 'lazy': True}
    for cls in ('DualDict', 'OtherDualDict'):
        for t in itertools.product(small_ops(SYN[cls]), repeat=3):
            yield 'ops', {'cls': cls, 'how': 'obj', 'ops': list(t), 'lazy': True}
    yield None, None
    while True:
        cls = rnd.choice(list(SYN))
        a, b, e = SYN[cls]

        def attrs():
            ks = rnd.sample(KEYS, rnd.randrange(0, 5))
            return [(k, rnd.choice([v for v in VALS if a not in v])) for k in ks]

        def string():
            l = attrs()
            return a.join(k if rnd.random() < .15 else f'{k}{b}{v}' for k, v in l) or e

        def op():
            k = rnd.choice(['set', 'set', 'set', 'del', 'clear', 'str', 'dict', 'none', 'copy', 'dictview', 'strview', 'other', 'self', 'pop', 'update', 'new'])
            if k == 'set':
                return [k, rnd.choice(KEYS), rnd.choice(VALS + ['', None])]
            if k in ('del', 'pop'):
                return [k, rnd.choice(KEYS)]
            if k in ('str', 'other'):
                return [k, string()]
            if k in ('dict', 'update'):
                return [k, dict(attrs())]
            if k == 'new':
                return [k, 'kw', {n: v for n, v in attrs() if n.isidentifier()}] if rnd.random() < .5 else [k, 'str', string()]
            return [k]
        yield 'ops', {'cls': cls, 'how': rnd.choice(['obj', 'obj', 'node' if cls != 'OtherDualDict' else 'obj']), 'lazy': rnd.random() < .5,
                      'ops': [op() for _ in range(rnd.randrange(1, 10))]}
