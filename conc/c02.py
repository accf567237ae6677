from .treeops import *

CHECKS = {'ops': do_ops}
shrink = shrink_ops


def generate(rnd, tier):
    for n in range(1, 5):
        for v in parent_vectors(n):
            for k in KINDS:
                for x in range(n):
                    for y in range(n + 1):
                        for wc in (False, True):
                            yield 'ops', {'parents': v, 'ops': [['shift', k, x, y, wc, (x + y) % 2 == 0]]}
            for x in range(n):
                yield 'ops', {'parents': v, 'ops': [['remove', x, None], ['child', 0]]}
                yield 'ops', {'parents': v, 'ops': [['remove', x, 'rehang'], ['child', 0]]}
    for k in KINDS:
        for x in range(3):
            yield 'ops', {'parents': [0, 1, 1], 'empties': [0] * 11 + [2], 'ops': [['shift', k, x, (x + 1) % 3 + 1, True, False], ['remove', x, 'rehang']]}
            yield 'ops', {'parents': [0, 1, 1], 'empties': [1] * 11 + [2], 'ops': [['remove', x, None]]}
    yield None, None
    kinds = ['child', 'parent', 'remove', 'shift', 'shift', 'shift', 'shift']
    while True:
        n = rnd.choice([5, 5, 6, 7, 8, 9, 12])
        yield 'ops', {'parents': random_parents(rnd, n),
                      'empties': rand_empties(rnd),
                      'ops': [rand_op(rnd, kinds) for _ in range(rnd.choice([1, 1, 2, 5, 10]))]}
