"""C27: within-group K-fold partitions every group over the folds."""
import itertools

import numpy as np

from mc import ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every assignment of samples to groups (up to renaming) up to the '
        'number of samples x number of folds x shuffling and seeds x kinds '
        'of group labels and inputs: the test sets partition the samples, '
        'train is the complement, and the folds of each group have the sizes '
        '(and, without shuffling, the consecutive members) of a K-fold split '
        'of the group; a group smaller than the number of folds and fewer '
        'than two folds are rejected.  Non-trivial: a distinct (assignment, '
        'folds, seed).')
BOUNDS = {'quick': '<=7 samples, <=4 groups, folds 2..5, 3 seeds; <=13 groups x folds 2..13',
          'thorough': '<=10 samples, <=4 groups, folds 2..6, 4 seeds'}
ASSUMPTIONS = []


def assignments(n, k):
    """restricted growth strings: group assignments up to renaming"""
    def rec(pre, top):
        if len(pre) == n:
            yield tuple(pre)
            return
        for g in range(min(top + 2, k)):
            for x in rec(pre + [g], max(top, g)):
                yield x
    return rec([], -1)


LABEL = {'int': lambda g: g, 'neg': lambda g: 5 - 3 * g,
         'str': lambda g: 'gx'[g % 2] + str(9 - g),
         'float': lambda g: .5 - g, 'close': lambda g: 1e8 + g,
         'big': lambda g: 2 ** 53 + g,
         'long': lambda g: 'group of a long name %d' % (10 ** g)}


def labels(a, kind):
    v = [LABEL[kind](g) for g in a]
    return v


def cases(tier):
    th = tier == 'thorough'
    for n in range(1, 11 if th else 8):
        for prefix in assignments(min(n, 3), 4):
            yield {'n': n, 'prefix': list(prefix), 'th': th}
    for n in (127, 128, 129, 255, 256, 257, 1000):
        yield {'ladder': n}
    for k in range(1, 17 if th else 14):
        yield {'groups': k, 'th': th}
    yield {'bad': True}


def xs(n):
    yield 'array', np.arange(2 * n).reshape(n, 2)
    yield 'list', [[i, 'a'] for i in range(n)]
    yield 'vector', np.arange(n) * 7


def judge(n, groups, arg, X, nf, shuffle, seed, t, where, y=None):
    from kamrecsys.model_selection import KFoldWithinGroups as KF
    cv = KF(n_splits=nf, shuffle=shuffle, random_state=seed)
    expect(cv.get_n_splits() == nf, 'n-splits', where)
    members = {}
    for i, g in enumerate(groups):
        members.setdefault(g, []).append(i)
    legal = all(len(m) >= nf for m in members.values())
    if not legal:
        ref.raises(ValueError, lambda: list(cv.split(X, y, groups=arg)),
                   'small-group-accepted', where)
        t.ev()
        return
    res = []
    for tr, te in cv.split(X, y, groups=arg):
        res.append((tr, te, [int(x) for x in tr], [int(x) for x in te]))
    expect(len(res) == nf, 'number-of-folds', where, got=len(res))
    seen = []
    for f, (tr, te, ltr, lte) in enumerate(res):
        expect([int(x) for x in tr] == ltr and [int(x) for x in te] == lte,
               'fold-changed-later', where)
        expect(len(set(lte)) == len(lte) and len(set(ltr)) == len(ltr),
               'repeated-sample', where, fold=f)
        expect(sorted(ltr + lte) == list(range(n)), 'not-complement', where,
               fold=f, train=ltr[:20], test=lte[:20])
        seen += lte
        for g, m in members.items():
            mine = [i for i in lte if groups[i] == g]
            size = len(m) // nf + (1 if f < len(m) % nf else 0)
            expect(len(mine) - len(m) // nf in (0, 1), 'unbalanced', where,
                   fold=f, group=g, got=len(mine), members=len(m))
            if not shuffle:
                start = sum(len(m) // nf + (1 if h < len(m) % nf else 0)
                            for h in range(f))
                expect(sorted(mine) == m[start:start + size], 'members',
                       where, fold=f, group=g, got=mine,
                       want=m[start:start + size])
    expect(sorted(seen) == list(range(n)), 'not-a-partition', where)
    t.ev()
    t.sig((groups, nf, shuffle, seed))


def run(case, t):
    from kamrecsys.model_selection import KFoldWithinGroups as KF
    if 'bad' in case:
        for nf in (1, 0, -1, 1.5):
            ref.raises(ValueError, lambda: KF(n_splits=nf), 'folds-accepted',
                       repr(nf))
            t.ev()
            t.sig(nf)
        ref.raises(ValueError, lambda: list(KF(2).split(
            np.zeros(4), groups=[0, 0, 1])), 'lengths-accepted')
        ref.raises(ValueError, lambda: list(KF(4).split(np.zeros(3))),
                   'too-many-folds-accepted')
        # the defaults: three folds of consecutive members
        g = [0, 1, 1] * 6
        x, y = [[(a.tolist(), b.tolist()) for a, b in cv.split(
            np.zeros(18), groups=g)] for cv in (KF(), KF(3, False, None))]
        expect(x == y and len(x) == 3, 'defaults')
        z = [[(a.tolist(), b.tolist()) for a, b in KF(
            3, True, s).split(np.zeros(18), groups=g)] for s in range(4)]
        expect(any(v != x for v in z), 'not-shuffled')
        return
    if 'groups' in case:
        # every number of groups times every number of folds
        k = case['groups']
        for nf in range(2, 17 if case['th'] else 14):
            a = tuple(g for i in range(nf + 3) for g in range(k)
                      if i < nf + g % 4)
            for sh, seed in ((False, None), (True, 3)):
                judge(len(a), a, np.array(a), np.zeros(len(a)), nf, sh, seed,
                      t, '%d groups %d folds' % (k, nf))
        return
    if 'ladder' in case:
        n = case['ladder']
        a = tuple((i * i) % 5 % 3 for i in range(n))
        for nf in (2, 5, 10):
            for sh, seed in ((False, None), (True, 3)):
                for arg in (np.array(a, dtype=np.int8), np.array(a)):
                    judge(n, a, arg, np.zeros(n), nf, sh, seed, t, repr(case))
        many = tuple(i // 3 for i in range(n * 3))
        judge(3 * n, many, np.array(many), np.zeros(3 * n), 3, True, 1, t,
              'many groups')
        judge(3 * n, many, np.array(many), np.zeros(3 * n), 2, False, None,
              t, 'many groups')
        return
    n = case['n']
    p = tuple(case['prefix'])
    for a in assignments(n, 4):
        if a[:len(p)] != p:
            continue
        for nf in range(2, 7 if case['th'] else 6):
            where = 'groups=%r folds=%d' % (a, nf)
            j = (sum(a) + nf) % len(LABEL)
            kind = sorted(LABEL)[j]
            lab = labels(a, kind)
            for xn, X in xs(n):
                for arg in (lab, np.array(lab), np.array(lab, dtype=object)):
                    judge(n, a, arg, X, nf, False, None, t, where)
                    if xn == 'array':
                        break
                    if xn == 'list' and arg is not lab:
                        break
            for seed in (0, 1, 7, 8)[:4 if case['th'] else 3]:
                judge(n, a, np.array(lab), np.zeros((n, 1)), nf, True, seed,
                      t, where + ' seed=%d' % seed)
            # targets are of no effect, also if they tell the groups
            for y in (lab, np.array(lab), labels([1] * n, kind),
                      labels(range(n), kind)):
                judge(n, a, np.array(lab), X, nf, False, None, t,
                      where + ' y=%r' % (y,), y)
                judge(n, a, lab, X, nf, True, nf, t,
                      where + ' y=%r' % (y,), y)
            if len(set(a)) == 1:
                judge(n, a, None, np.zeros(n), nf, False, None, t, where)
                judge(n, a, None, np.zeros(n), nf, True, 5, t, where)
    t.sample({'case': case, 'last': where})
