"""C30: splitters are reproducible and independent of other users."""
import itertools

import numpy as np

from mc import ref, xproc
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('every interleaving of the steps (take the next fold, overwrite the '
        'fold taken, restart, abandon, draw from the global generator) of '
        'two or three open iterations - of one splitter, of equal and of '
        'different splitters, over one or several inputs; every iteration '
        'must yield the folds it yields alone, and the global generator and '
        'the arguments must not change.  States: positions of the '
        'iterations; a trace is one interleaving.')
BOUNDS = {'quick': '2 iterations x 3 folds + 1 other step; 3 iterations x '
                   '2 folds; 65-4097 samples, 130 folds', 'thorough': '2 iterations x 3 folds + 2 other '
                   'steps; 3 iterations x 3 folds'}
ASSUMPTIONS = ['seeds are integers: a generator object is documented to be '
               'shared']


def makers():
    from kamrecsys import model_selection as ms
    return {
        'shuffle': lambda n: ms.ShuffleSplitWithinGroups(
            n_splits=n, test_size=.5, random_state=3),
        'shuffle2': lambda n: ms.ShuffleSplitWithinGroups(
            n_splits=n, test_size=1, train_size=1, random_state=4),
        'kfold': lambda n: ms.KFoldWithinGroups(
            n_splits=n, shuffle=True, random_state=3),
        'kfold-plain': lambda n: ms.KFoldWithinGroups(n_splits=n),
        'interlaced': lambda n: ms.InterlacedKFold(n_splits=n),
        'shuffle-0': lambda n: ms.ShuffleSplitWithinGroups(
            n_splits=n, test_size=.5, random_state=0),
        'shuffle-top': lambda n: ms.ShuffleSplitWithinGroups(
            n_splits=n, test_size=.5, random_state=2 ** 32 - 1),
        'kfold-0': lambda n: ms.KFoldWithinGroups(
            n_splits=n, shuffle=True, random_state=0),
        'kfold-top': lambda n: ms.KFoldWithinGroups(
            n_splits=n, shuffle=True, random_state=2 ** 32 - 1),
        'kfold-np': lambda n: ms.KFoldWithinGroups(
            n_splits=n, shuffle=True, random_state=np.int64(0))}


INPUT = [(11, [0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 1]),
         (9, [2, 2, 1, 1, 2, 1, 1, 2, 2]),
         (8, None)]


def cases(tier):
    names = ('shuffle', 'shuffle2', 'kfold', 'kfold-plain', 'interlaced')
    th = tier == 'thorough'
    for a in names:
        for n, f in ((65, 3), (129, 5), (257, 2), (513, 10), (1001, 4),
                     (1025, 3), (4097, 5), (300, 70), (1000, 130)):
            yield {'large': n, 'folds': f, 'splitter': a}
    for a in ('shuffle-0', 'shuffle-top', 'kfold-0', 'kfold-top',
              'kfold-np'):
        for n, f in ((65, 3), (257, 2), (1025, 3)):
            yield {'large': n, 'folds': f, 'splitter': a}
        for same in (True, False):
            yield {'splitters': [a, a], 'same': same, 'inputs': [0, 1],
                   'folds': 3, 'extra': 1}
    yield {'processes': [5, 31, 64, 65, 129, 300, 1001, 4097]}
    for a in names:
        for b in names:
            for same in (True, False):
                if same and a != b:
                    continue
                for ia in range(3) if th or a == b else (len(a) % 3,):
                    yield {'splitters': [a, b], 'same': same,
                           'inputs': [ia, (ia + len(a) + same) % 3],
                           'folds': 3,
                           'extra': 2 if th else 1}
                    if ia and not th:
                        continue
                    yield {'splitters': [a, b], 'same': same,
                           'inputs': [ia, ia], 'folds': 3,
                           'extra': 2 if th else 1}
    for a in names:
        for b in ('shuffle', 'kfold'):
            yield {'splitters': [a, b, a], 'same': True,
                   'inputs': [0, 1, 0], 'folds': 3 if th else 2, 'extra': 1}


def groups(n, kind):
    g = [(i * 7 + i // 5) % max(1, n // 6) for i in range(n)]
    if kind == 'str':
        return np.array(['user %d' % x for x in g])
    if kind == 'obj':
        return np.array(['u%d' % x for x in g], dtype=object)
    if kind == 'float':
        return np.array(g) * .5 - 3
    return np.array(g) * 1000003


def digest(arg):
    """folds of all splitters"""
    mk = makers()
    out = {}
    for n in arg['sizes']:
        for kind in ('int', 'str', 'obj', 'float'):
            for name in mk:
                out['%s %d %s' % (name, n, kind)] = xproc.sha([
                    fold(x) for x in mk[name](3).split(
                        np.zeros((n, 2)), groups=groups(n, kind))])
    return out


def large(case, t):
    """many samples or folds: fixed interleavings"""
    mk = makers()
    n, nf = case['large'], case['folds']
    X = np.arange(n)
    g = (np.arange(n) * 7 + np.arange(n) // 5) % max(1, n // (2 * nf))
    args = ref.snapshot(X, g)
    name = case['splitter']
    alone = [fold(x) for x in mk[name](nf).split(X, groups=g)]
    np.random.seed(5)
    rng = ref.snapshot(np.random.mtrand._rand)
    cv, other = mk[name](nf), mk['shuffle'](3)
    where = repr(case)
    a, b = cv.split(X, groups=g), cv.split(X, groups=g)
    c = other.split(X, groups=g)
    x, y = [fold(next(a))], []
    for i in range(nf):
        y.append(fold(next(b)))
        if i % 2:
            next(c, None)
        if i < nf - 1:
            x.append(fold(next(a)))
    expect(x == alone and y == alone, 'fold', where)
    expect([fold(z) for z in cv.split(X, groups=g)] == alone, 'fold', where)
    expect(ref.snapshot(np.random.mtrand._rand) == rng, 'global-generator',
           where)
    expect(ref.snapshot(X, g) == args, 'arguments-changed', where)
    t.ev()
    t.trace()
    t.step(3 * nf)
    t.state((name, n, nf))
    t.sample({'case': case})


def fold(x):
    return [[int(v) for v in y] for y in x]


def run(case, t):
    if 'large' in case:
        return large(case, t)
    if 'processes' in case:
        d = xproc.digests('checks.c30', {'sizes': case['processes']}, t)
        # names of groups do not matter
        for k, v in d.items():
            a, n, kind = k.split()
            expect(v == d['%s %s obj' % (a, n)] or kind != 'str',
                   'types-of-names', k)
        t.trace()
        t.sample({'case': case, 'first': sorted(d.items())[0]})
        return
    mk = makers()
    nf = case['folds']
    k = len(case['splitters'])
    inp = []
    for j in range(3):
        n, g = INPUT[j]
        inp.append((np.arange(n * 2).reshape(n, 2),
                    None if g is None else np.array(g)))

    def start(cv, j):
        X, g = inp[j]
        return cv.split(X) if g is None else cv.split(X, groups=g)
    alone = []
    for name, j in zip(case['splitters'], case['inputs']):
        alone.append([fold(x) for x in start(mk[name](nf), j)])
    extras = ('draw', 'restart', 'other')
    args = ref.snapshot(inp)
    # interleavings: sequences over iterations and other steps
    steps = [i for i in range(k) for _ in range(nf)]
    for ex in itertools.product(extras, repeat=case['extra']):
        if list(ex) != sorted(ex):
            continue
        for order in set_permutations(steps + list(ex)):
            if case['same']:
                one = {}
                cvs = [one.setdefault(n, mk[n](nf))
                       for n in case['splitters']]
            else:
                cvs = [mk[n](nf) for n in case['splitters']]
            its = [start(cv, j) for cv, j in zip(cvs, case['inputs'])]
            pos = [0] * k
            np.random.seed(5)
            rng = ref.snapshot(np.random.mtrand._rand)
            kept = []
            for op in order:
                where = '%r interleaving=%r' % (case, order)
                if op == 'draw':
                    expect(ref.snapshot(np.random.mtrand._rand) == rng,
                           'global-generator', where)
                    np.random.random(3)
                    rng = ref.snapshot(np.random.mtrand._rand)
                elif op == 'restart':
                    its[0].close() if hasattr(its[0], 'close') else None
                    its[0] = start(cvs[0], case['inputs'][0])
                    pos[0] = 0
                elif op == 'other':
                    list(start(cvs[-1], case['inputs'][0]))
                else:
                    if pos[op] >= nf:
                        continue
                    got = next(its[op])
                    expect(fold(got) == alone[op][pos[op]], 'fold', where,
                           iteration=op, number=pos[op], got=fold(got),
                           want=alone[op][pos[op]])
                    kept.append((got, fold(got)))
                    if len(kept) % 2:
                        for y in got:
                            y[...] = 0     # the caller owns the fold
                        kept.pop()
                    pos[op] += 1
                    t.state((repr(case['splitters']), case['same'],
                             repr(case['inputs']), tuple(pos)))
                for a, b in kept:
                    expect(fold(a) == b, 'fold-changed-later', where)
                t.step()
            expect(ref.snapshot(np.random.mtrand._rand) == rng,
                   'global-generator', where)
            expect(ref.snapshot(inp) == args, 'arguments-changed', where)
            t.trace()
            t.ev()
    t.sample({'case': case, 'interleaving': repr(order)})


def set_permutations(items):
    """all distinct permutations of a multiset"""
    items = sorted(items, key=str)

    def rec(rest):
        if not rest:
            yield ()
            return
        last = None
        for i, x in enumerate(rest):
            if x == last:
                continue
            last = x
            for r in rec(rest[:i] + rest[i + 1:]):
                yield (x,) + r
    return rec(items)
