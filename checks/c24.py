"""C24: item finder statistics equal their definitions."""
import contextlib
from fractions import Fraction as F
import io
import itertools
import math

import numpy as np

from mc import ref, vec
from mc.core import expect
from checks.c22 import NARROW, extremes, moments

LEVEL = 'exploration'
RULE = ('every binary truth vector x every vector of predictions up to the '
        'length over a set of values with ties: means, deviations, sizes and '
        'the area under the ROC curve, as the fraction of pairs of a '
        'positive and a negative ranked correctly (ties count half), are '
        'compared with counting; the area is missing iff one class is '
        'missing; truth vectors that are not binary, different lengths and '
        'non finite values are rejected.  Non-trivial: a distinct (truth, '
        'predictions).')
BOUNDS = {'quick': 'length <=4 over 4 values, 5 over 3; 8 sets of nearly equal '
                   'values; 77 lengths to 131073',
          'thorough': 'length <=5 over 5 values, 7 over 3'}
ASSUMPTIONS = []

VALUES = [F(0), F(1, 2), F(1), F(1, 4), F(-3)]
# predictions that differ as little as floats do, or overwhelmingly
E = 2. ** -52
NEAR = [[1e-15, 2e-15, 3e-15], [1 - E, 1 - E / 2, 1.], [.5, .5 + E, .5 - E],
        [0., 5e-324, -5e-324], [1e15, 1e15 + 1, 1e15 - 1], [1e-15, 1 - 1e-15, .5],
        [-1e-9, 0., 1e-9], [1e8, 1e8 + 1e-7, -1e8]]


def cases(tier):
    th = tier == 'thorough'
    for n in range(1, 6 if th else 5):
        for y in itertools.product((0, 1), repeat=n):
            yield {'y': list(y), 'values': 5 if th else 4}
    for n in (6, 7) if th else (5,):
        for y in itertools.product((0, 1), repeat=n):
            yield {'y': list(y), 'values': 3}
    for i in range(len(NEAR)):
        for n in (2, 3, 4):
            yield {'near': i, 'n': n}
    yield {'bad': True}
    for pair in itertools.product(NARROW, repeat=2):
        yield {'narrow': list(pair)}
    for n in (127, 128, 129, 256, 300, 1000, 32769, 65537, 100001):
        yield {'ladder': n}
    ls = vec.lengths(tier)
    for i in range(0, len(ls), 8):
        yield {'vec': ls[i:i + 8]}
    for p in range(0, len(vec.POWERS), 8):
        yield {'powers': list(vec.POWERS[p:p + 8])}


def auc(y, p):
    if len(y) > 400:
        # the same number from counts of equal predictions
        cnt = {}
        for v, c in zip(p, y):
            cnt.setdefault(v, [0, 0])[c] += 1
        below = tot = 0
        for v in sorted(cnt):
            tot += cnt[v][1] * (2 * below + cnt[v][0])
            below += cnt[v][0]
        return F(tot, 2 * below * (len(y) - below))
    pos = [v for v, c in zip(p, y) if c]
    neg = [v for v, c in zip(p, y) if not c]
    tot = sum(F(1) if a > b else F(1, 2) if a == b else F(0)
              for a in pos for b in neg)
    return tot / (len(pos) * len(neg))


def judge(y, p, t, where, dt=float, report=True, pt=None):
    from kamrecsys import metrics as km
    a = np.array(y).astype(dt)
    b = np.array([float(x) for x in p])
    if pt is not None:
        b = np.array([x.numerator if x.denominator == 1 else float(x)
                      for x in p]).astype(pt)
    elif dt == np.int8:
        b = b.astype(np.float32)
    before = ref.snapshot(a, b)
    outs = [km.item_finder_statistics(a, b)]
    if report:
        with contextlib.redirect_stderr(io.StringIO()):
            outs.append(km.item_finder_report(a, b, disp=True))
        outs.append(km.item_finder_report(list(y), b, disp=False))
    expect(ref.snapshot(a, b) == before, 'arguments-changed', where)
    tm, pm = moments([F(x) for x in y]), moments(p)
    for s in outs:
        for got, want, key in (
                (s['n_samples'], len(y), 'n_samples'),
                (s['true']['mean'], tm[0], 'true-mean'),
                (s['true']['stdev'], tm[1], 'true-stdev'),
                (s['predicted']['mean'], pm[0], 'predicted-mean'),
                (s['predicted']['stdev'], pm[1], 'predicted-stdev')):
            # rounding of one value, in units of the largest one
            eps = 4e-15 * max(float(abs(x)) for x in p)
            single = b.dtype.kind == 'f' and b.dtype.itemsize < 8
            expect(abs(float(got) - want) <= eps or abs(
                float(got) - want) <= (1e-5 if single else 1e-12) * max(
                abs(want), 1e-30) or single and abs(float(got) - want) <=
                1e-6, key, where, got=got, want=want)
        if len(set(y)) == 2:
            w = float(auc(y, p))
            expect('area under the curve' in s and ref.feq(
                float(s['area under the curve']), w, 1e-9), 'auc', where,
                got=s.get('area under the curve'), want=w)
        else:
            expect('area under the curve' not in s, 'auc-of-one-class',
                   where)
    t.ev()


def narrow(case, t):
    dx, dy = case['narrow']
    for n in (1, 2, 3):
        for y in itertools.product((0, 1), repeat=n):
            v = extremes(dy)
            for k in range(len(v)):
                for st in (1, 2):
                    p = [v[(k + j * st) % len(v)] for j in range(n)]
                    judge(list(y), [F(x) for x in p], t,
                          'true=%s %r predicted=%s %r' % (dx, y, dy, p), dx,
                          k == 0, dy)
                    t.sig((dx, dy, y, p))
    t.sample({'case': case})


def area(y, q):
    """fraction of pairs in the right order, in whole numbers"""
    v, j = np.unique(q, return_inverse=True)
    pos = np.bincount(j, weights=y, minlength=len(v)).astype(int)
    neg = np.bincount(j, minlength=len(v)) - pos
    below = np.cumsum(neg) - neg
    return int((pos * (2 * below + neg)).sum()) / (
        2. * int(pos.sum()) * int(neg.sum()))


def vectors(case, t):
    from kamrecsys import metrics as km
    for n, p in [(n, 0) for n in case.get('vec', ())] + [
            (n, p) for p in case.get('powers', ()) for n in (2, 3, 9, 130)]:
        for sh in vec.SHAPES if n < 9000 else vec.SHAPES[n % 4:n % 4 + 2]:
            q = vec.quarters(n, sh)
            i = np.arange(n)
            for y in ((i * i) % 7 % 2, (i == n - 1) + 0, (i > 0) + 0) \
                    if n < 70000 else ((i * i) % 7 % 2,):
                where = 'n=%d %s times 2^%d, %d positives' % (n, sh, p,
                                                              y.sum())
                x = q * .25 * 2. ** p
                for fn in (km.item_finder_statistics,
                           lambda u, v: km.item_finder_report(
                               u, v, disp=False)):
                    s = fn(y, x)
                    expect(s['n_samples'] == n, 'n_samples', where,
                           got=s['n_samples'])
                    w = vec.moments(q)
                    g = s['predicted']
                    big = 4e-15 * abs(x).max() * 2
                    expect((abs(g['mean'] - w[0] * 2. ** p) <= big or
                            vec.near(g['mean'], w[0] * 2. ** p)) and (
                        abs(g['stdev'] - w[1] * 2. ** p) <= big or
                        vec.near(g['stdev'], w[1] * 2. ** p)), 'predicted',
                        where, got=g, want=w)
                    w = vec.moments(y, 1)
                    g = s['true']
                    expect(abs(g['mean'] - w[0]) <= 1e-12 and
                           abs(g['stdev'] - w[1]) <= 1e-12, 'true', where,
                           got=g, want=w)
                    if 0 < y.sum() < n:
                        w = area(y, q)
                        expect(abs(s['area under the curve'] - w) <= 1e-10,
                               'auc', where, want=w,
                               got=s['area under the curve'])
                    else:
                        expect('area under the curve' not in s,
                               'auc-of-one-class', where)
                    t.ev()
            t.sig((n, p, sh))
    t.sample({'case': case})


def run(case, t):
    if 'narrow' in case:
        return narrow(case, t)
    if 'vec' in case or 'powers' in case:
        return vectors(case, t)
    from kamrecsys import metrics as km
    if 'bad' in case:
        for fn in (km.item_finder_statistics,
                   lambda a, b: km.item_finder_report(a, b, disp=False)):
            for n in range(1, 5):
                for y in itertools.product((0, 1, 2, .5, -1), repeat=n):
                    if set(y) <= {0, 1}:
                        continue
                    ref.raises(ValueError, lambda: fn(
                        np.array(y, dtype=float), np.ones(n) * .3),
                        'non-binary-accepted', repr(y))
                    t.ev()
                    t.sig((n, y))
                for m in range(1, 5):
                    if n != m:
                        ref.raises(ValueError, lambda: fn(
                            np.arange(n) % 2, np.ones(m) * .3),
                            'length-accepted')
                for pos in range(n):
                    for bad in (float('nan'), float('inf')):
                        a = np.ones(n) * .3
                        a[pos] = bad
                        ref.raises(ValueError, lambda: fn(
                            np.arange(n) % 2, a), 'non-finite-accepted')
        return
    if 'near' in case:
        for y in itertools.product((0, 1), repeat=case['n']):
            for p in itertools.product(NEAR[case['near']],
                                       repeat=case['n']):
                judge(list(y), [F(v) for v in p], t, 'true=%r predicted=%r'
                      % (y, p))
                t.sig((y, p))
        return
    if 'ladder' in case:
        n = case['ladder']
        y = [(i * i) % 7 % 2 for i in range(n)]
        p = [F((i * 5) % 17, 4) for i in range(n)]
        judge(y, p, t, 'n=%d' % n)
        judge(y, p, t, 'n=%d' % n, np.int8)
        t.sig(n)
        return
    y = case['y']
    for j, p in enumerate(itertools.product(VALUES[:case['values']],
                                            repeat=len(y))):
        judge(y, p, t, 'true=%r predicted=%r' % (
            y, [float(x) for x in p]), (float, int, np.int8, bool)[j % 4],
            report=j % 5 == 0 or len(y) < 3)
        t.sig((tuple(y), p))
    t.sample({'case': case, 'last predicted': [float(x) for x in p]})
