"""C29: interlaced K-fold assigns sample i to fold i mod K."""
import numpy as np

from mc import ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every number of samples x number of folds x kind of input: fold f '
        'tests exactly the samples with index f modulo K in order and trains '
        'on the others; fewer than two folds or more folds than samples are '
        'rejected.  Non-trivial: a distinct (samples, folds).')
BOUNDS = {'quick': '<=60 samples, <=61 folds; 600 folds; samples to 66000',
          'thorough': '<=200 samples, all folds; ladder to 70000'}
ASSUMPTIONS = []


def cases(tier):
    th = tier == 'thorough'
    for n in range(1, 201 if th else 61):
        yield {'n': n, 'folds': list(range(-1, n + 3))}
    for n in (127, 128, 129, 255, 256, 257, 300, 1000) + (
            (32769, 70000) if th else ()):
        yield {'n': n, 'folds': [2, 3, 5, 10, 100, 127]}
    for k in (128, 129, 130, 255, 256, 257, 258, 300, 600):
        yield {'n': 2 * k + 1, 'folds': [k]}
    for n in (4097, 33000, 66000):
        yield {'n': n, 'folds': [2, 7]}


def run(case, t):
    from kamrecsys.model_selection import InterlacedKFold as IK
    n = case['n']
    expect(IK().get_n_splits() == 3, 'defaults')
    for k in case['folds']:
        where = 'samples=%d folds=%d' % (n, k)
        if k < 2:
            ref.raises(ValueError, lambda: IK(n_splits=k),
                       'folds-accepted', where)
            t.ev()
            continue
        cv = IK(n_splits=k)
        expect(cv.get_n_splits() == k, 'n-splits', where)
        for X in (np.zeros((n, 2)), list(range(n))) if n < 20 else (
                np.zeros(n),):
            if k > n:
                ref.raises(ValueError, lambda: list(cv.split(X)),
                           'too-many-folds-accepted', where)
                t.ev()
                continue
            res = [(a, b) for a, b in cv.split(X, groups=np.zeros(n))]
            if n <= 60:
                # neither targets nor groups are of any effect
                for y in (np.arange(n), list(range(n))[::-1], np.zeros(n)):
                    for g in (None, y, np.arange(n) % 2):
                        expect([(a.tolist(), b.tolist()) for a, b in
                                cv.split(X, y, g)] == [
                                    (a.tolist(), b.tolist())
                                    for a, b in res], 'target-or-groups',
                               where)
            expect(len(res) == k, 'number-of-folds', where, got=len(res))
            for f, (a, b) in enumerate(res):
                want = list(range(f, n, k))
                expect([int(x) for x in b] == want, 'test', where, fold=f,
                       got=b[:10])
                w = set(want)
                expect([int(x) for x in a] == [
                    i for i in range(n) if i not in w], 'train', where,
                    fold=f, got=a[:10])
            t.ev()
            t.sig((n, k))
    t.sample({'case': {'n': n}, 'folds': k})
