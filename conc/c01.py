from .treeops import *

CHECKS = {'ops': do_ops}
shrink = shrink_ops
MODES = [None, 'rehang', 'warn', 'rehang_warn']


def generate(rnd, tier):
    for n in range(0, 5):
        for v in parent_vectors(n):
            for x in range(n):
                for y in range(n + 1):
                    yield 'ops', {'parents': v, 'ops': [['parent', x, y]]}
                for mode in MODES:
                    yield 'ops', {'parents': v, 'ops': [['remove', x, mode]]}
            yield 'ops', {'parents': v, 'ops': [['flatten'], ['child', n], ['parent', 0, n + 1]]}
            yield 'ops', {'parents': v, 'ops': [['child', x] for x in range(n + 1)]}
            if n:
                yield 'ops', {'parents': v, 'ops': [[k, x, x] for x in range(n) for k in ('parent_none', 'parent_empty', 'parent_other')]}
    for n in (2, 3):
        for v in parent_vectors(n):
            for x in range(n):
                for y in range(n + 1):
                    for z in range(n):
                        for u in range(n + 1):
                            yield 'ops', {'parents': v, 'ops': [['parent', x, y], ['parent', z, u]]}
    yield None, None
    kinds = ['child', 'parent', 'parent', 'parent', 'parent', 'remove', 'remove', 'shift', 'parent_none', 'parent_empty', 'parent_other']
    while True:
        n = rnd.randrange(0, 10)
        ks = kinds + (['flatten'] if rnd.random() < .3 else [])
        yield 'ops', {'parents': random_parents(rnd, n), 'other': random_parents(rnd, rnd.randrange(1, 4)),
                      'empties': rand_empties(rnd),
                      'ops': [rand_op(rnd, ks) for _ in range(rnd.randrange(1, 12))]}
