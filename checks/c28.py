"""C28: within-group shuffle split respects sizes in every group."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import expect
from checks.c27 import LABEL, assignments, labels

LEVEL = 'exploration'
RULE = ('every assignment of samples to groups (up to renaming) x every '
        'specification of test and train sizes of a grid (fractions, counts, '
        'missing) x shuffling and seeds: in every split and group the '
        'numbers of test and train samples are those specified for the size '
        'of the group, no sample is repeated or in both; without shuffling '
        'they are the leading members; specifications that some group cannot '
        'satisfy are rejected.  Non-trivial: a distinct (assignment, sizes, '
        'seed).')
BOUNDS = {'quick': '<=6 samples, <=3 groups, 37 sizes',
          'thorough': '<=8 samples, <=4 groups, 37 sizes'}
ASSUMPTIONS = []

SIZES = [None, .1, .25, .5, .75, .9, 1, 2, 3, 5]


def specs():
    for ts in SIZES:
        for tr in (None, .1, .5, .3, .9, 1, 2, 4):
            yield ts, tr


def want_sizes(n, ts, tr):
    """(n_train, n_test) in a group of n, or None if it is impossible"""
    def num(x, up):
        if x is None:
            return None
        if isinstance(x, float):
            return int(math.ceil(x * n) if up else math.floor(x * n))
        return x
    for x in (ts, tr):
        if isinstance(x, int) and (x <= 0 or x >= n):
            return None
    a, b = num(tr, False), num(ts, True)
    if a is None:
        a = n - b
    elif b is None:
        b = n - a
    if a + b > n or a <= 0 or b < 0:
        return None
    return a, b


def cases(tier):
    th = tier == 'thorough'
    for n in range(1, 9 if th else 7):
        for prefix in assignments(min(n, 3), 3):
            yield {'n': n, 'prefix': list(prefix), 'k': 4 if th else 3}
    for n in (127, 128, 129, 255, 256, 257, 1000):
        yield {'ladder': n}
    for ns in (1, 2, 19, 20, 21, 33, 64, 65, 100, 129, 257):
        yield {'splits': ns}
    for n in (20005, 65537, 100001) + ((300007,) if th else ()):
        yield {'huge': n}
    yield {'bad': True}


def judge(n, groups, arg, X, ts, tr, shuffle, seed, ns, t, where,
          y=None):
    from kamrecsys.model_selection import ShuffleSplitWithinGroups as SS
    ys = {'y': y} if y is not None else {}
    try:
        cv = SS(n_splits=ns, test_size=ts, train_size=tr, shuffle=shuffle,
                random_state=seed)
    except ValueError:
        cv = None
    members = {}
    for i, g in enumerate(groups):
        members.setdefault(g, []).append(i)
    bad = ts is None and tr is None or isinstance(ts, float) and isinstance(
        tr, float) and ts + tr > 1
    if bad:
        expect(cv is None, 'sizes-accepted', where)
        t.ev()
        return
    expect(cv is not None, 'sizes-rejected', where)
    want = {g: want_sizes(len(m), ts, tr) for g, m in members.items()}
    expect(cv.get_n_splits() == ns, 'n-splits', where)
    if any(w is None for w in want.values()):
        ref.raises(ValueError, lambda: list(cv.split(X, groups=arg, **ys)),
                   'impossible-sizes-accepted', where)
        t.ev()
        return
    res = []
    for a, b in cv.split(X, groups=arg, **ys):
        res.append((a, b, [int(x) for x in a], [int(x) for x in b]))
    expect(len(res) == ns, 'number-of-splits', where, got=len(res))
    if n > 5000:
        members = {g: np.array(m) for g, m in members.items()}
        for a, b, la, lb in res:
            use = np.zeros(n, dtype=int)
            np.add.at(use, a, 1)
            np.add.at(use, b, 2)
            expect(len(set(la + lb)) == len(la) + len(lb), 'overlap', where)
            for g, m in members.items():
                got = (int((use[m] == 1).sum()), int((use[m] == 2).sum()))
                expect(got == want[g], 'sizes', where, group=g, got=got,
                       want=want[g], members=len(m))
                if not shuffle:
                    expect((use[m[:got[0]]] == 1).all() and
                           (use[m[sum(got):]] == 0).all(), 'members', where,
                           group=g)
        t.ev()
        t.sig((n, repr(where), shuffle))
        return
    for f, (a, b, la, lb) in enumerate(res):
        expect([int(x) for x in a] == la and [int(x) for x in b] == lb,
               'split-changed-later', where)
        expect(len(set(la + lb)) == len(la) + len(lb), 'overlap', where,
               train=la, test=lb)
        expect(not la + lb or (min(la + lb) >= 0 and max(la + lb) < n),
               'unknown-sample', where)
        for g, m in members.items():
            ga = [i for i in la if groups[i] == g]
            gb = [i for i in lb if groups[i] == g]
            expect((len(ga), len(gb)) == want[g], 'sizes', where, group=g,
                   got=(len(ga), len(gb)), want=want[g], members=len(m))
            if not shuffle:
                expect(sorted(ga + gb) == m[:len(ga) + len(gb)] and
                       sorted(ga) == m[:len(ga)], 'members', where, group=g,
                       train=ga, test=gb)
    t.ev()
    t.sig((groups, ts, tr, shuffle, seed))


def run(case, t):
    from kamrecsys.model_selection import ShuffleSplitWithinGroups as SS
    if 'splits' in case:
        ns = case['splits']
        for n, groups in ((10, (0,) * 10), (11, (0, 1, 1, 0, 1) * 2 + (1,)),
                          (14, (2, 1, 0, 0, 1, 2, 2) * 2)):
            for ts, tr in ((2, 2), (1, None), (None, 3), (.25, .5), (.5, .5),
                           (.3, None), (1, .25)):
                for shuffle in (True, False):
                    for seed in (0, 5) if shuffle else (None,):
                        judge(n, groups, np.array(groups), np.zeros((n, 1)),
                              ts, tr, shuffle, seed, ns, t, repr(
                                  (ns, groups, ts, tr, shuffle)))
        t.sample({'case': case})
        return
    if 'bad' in case:
        for ts, tr in ((None, None), (1., None), (1.5, None), (None, 1.),
                       ('a', None), (.6, .5), (.5, .6), (.9, .9)):
            ref.raises(ValueError, lambda: SS(test_size=ts, train_size=tr),
                       'sizes-accepted', repr((ts, tr)))
            t.ev()
            t.sig((ts, tr))
        ref.raises(ValueError, lambda: list(SS(2).split(
            np.zeros(4), groups=[0, 0, 1])), 'lengths-accepted')
        # the defaults: ten splits, a tenth for testing
        n = 0
        for a, b in SS(random_state=1).split(np.zeros(30)):
            expect(len(a) == 27 and len(b) == 3, 'defaults')
            n += 1
        expect(n == 10, 'defaults')
        for seed in range(3):
            x, y = [[(a.tolist(), b.tolist()) for a, b in cv.split(
                np.zeros(30), groups=[0, 1, 1] * 10)] for cv in (
                    SS(random_state=seed), SS(10, .1, None, True, seed))]
            expect(x == y, 'defaults')
            expect(len(set(map(repr, x))) > 1, 'not-shuffled')
        return
    if 'ladder' in case:
        n = case['ladder']
        a = tuple((i * i) % 5 % 3 for i in range(n))
        for ts, tr in ((.1, None), (.25, .5), (3, None), (None, .9), (2, 3)):
            for sh, seed in ((False, None), (True, 3)):
                for arg in (np.array(a, dtype=np.int8), list(a)):
                    judge(n, a, arg, np.zeros(n), ts, tr, sh, seed, 2, t,
                          repr((case, ts, tr)))
        many = tuple(i // 4 for i in range(n * 4))
        judge(4 * n, many, np.array(many), np.zeros(4 * n), .5, .25, True,
              1, 2, t, 'many groups')
        return
    if 'huge' in case:
        n = case['huge']
        one = (0,) * n
        most = tuple(int(i % 5003 == 0) for i in range(n))
        for a in (one, most):
            for ts, tr in ((.1, .75), (3, None)):
                for sh, seed in ((False, None), (True, 3)):
                    judge(n, a, np.array(a), np.zeros(n), ts, tr, sh, seed,
                          1, t, repr((case, ts, tr)))
        judge(n, one, None, np.zeros(n), .25, .5, True, 2, 1, t, repr(case))
        return
    n = case['n']
    p = tuple(case['prefix'])
    for a in assignments(n, case['k']):
        if a[:len(p)] != p:
            continue
        for z, (ts, tr) in enumerate(specs()):
            where = 'groups=%r test=%r train=%r' % (a, ts, tr)
            kind = sorted(LABEL)[z % len(LABEL)]
            lab = labels(a, kind)
            arg = [np.array(lab), lab, lab, np.array(lab, dtype=object)][
                z % 4]
            X = np.zeros((n, 2)) if z % 2 else [[i] for i in range(n)]
            judge(n, a, arg, X, ts, tr, True, z % 5, 1 + z % 3, t, where)
            if sum(a) % 3 == z % 3:
                judge(n, a, arg, X, ts, tr, False, None, 2, t, where)
            # targets are of no effect, also if they tell the groups
            for y in (lab, np.array(lab), labels([1] * n, kind),
                      labels(range(n), kind)) if z % 8 == sum(a) % 8 else ():
                judge(n, a, arg, X, ts, tr, True, z % 5, 2, t,
                      where + ' y=%r' % (y,), y)
                judge(n, a, arg, X, ts, tr, False, None, 2, t,
                      where + ' y=%r' % (y,), y)
            if len(set(a)) == 1:
                judge(n, a, None, X, ts, tr, True, 3, 2, t, where)
    t.sample({'case': case, 'last': where})
