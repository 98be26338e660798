"""C25: variance with a gamma prior equals its definition."""
from fractions import Fraction as F
import itertools

import numpy as np

from mc import ref, vec
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every vector up to the length over a grid of values and non finite '
        'markers x priors x types and shapes: the result is compared with '
        'rational arithmetic over the finite entries; the number of finite '
        'entries is returned on request; non finite data is rejected iff '
        'required; empty data is rejected.  Non-trivial: a distinct (vector, '
        'prior).')
BOUNDS = {'quick': 'length <=4 over 7 values, 8 priors, 6 types; 77 lengths to '
          '131073',
          'thorough': 'length <=5 over 7 values, 4 priors, 6 types'}
ASSUMPTIONS = ['squares of the values do not overflow; results are compared '
               'within the rounding errors of a two pass computation']

NAN, INF = float('nan'), float('inf')
VALUES = [0., 1., -2., .5, 100., NAN, INF]
PRIORS = [(1e-8, 1e-8), (1., 2.), (0.5, 0.), (3, 1), (0., 0.), (40., 1.),
          (1e4, 1e-3), (1e-3, 1e5)]
OFFSETS = [1e3, 1e6, -1e8, 881250949., 1e12, -4e15]


def cases(tier):
    for n in range(0, 6 if tier == 'thorough' else 5):
        for first in range(len(VALUES)) if n else (0,):
            yield {'n': n, 'first': first}
            if 0 < n < 4:
                for off in OFFSETS:
                    yield {'n': n, 'first': first, 'offset': off}
    for n in (127, 128, 129, 255, 256, 257, 1000):
        yield {'ladder': n}
    ls = vec.lengths(tier)
    for i in range(0, len(ls), 8):
        yield {'vec': ls[i:i + 8]}
    for p in range(0, len(vec.POWERS), 8):
        yield {'powers': list(vec.POWERS[p:p + 8])}


def forms(v):
    yield 'float', np.array(v, dtype=float)
    yield 'list', list(v)
    if all(not finite(x) or float(np.float32(x)) == x for x in v):
        yield 'float32', np.array(v, dtype=np.float32)
    if len(v) in (2, 4):
        yield '2d', np.array(v, dtype=float).reshape(2, -1)
        yield 'column', np.array(v, dtype=float).reshape(-1, 1)
    if all(x == int(x) if abs(x) < 128 else False for x in v):
        yield 'int8', np.array(v, dtype=np.int8)
        yield 'int', np.array(v, dtype=int)


def finite(x):
    return x == x and abs(x) != INF


def tolerance(v):
    # the rounding of the mean and of the differences, twice squared
    m = max([1.] + [abs(x) for x in v])
    d = max(v) - min(v) if v else 0.
    return len(v) * (1e-12 * (d * d) + 4e-15 * m * d + (4e-16 * m) ** 2 *
                     len(v) + 1e-15)


def want(v, a, b):
    f = [F(x) for x in v]
    n = len(f)
    s, q = sum(f), sum(x * x for x in f)
    return float((2 * F(b) + q - s * s / n) / (2 * F(a) + n)), n


def judge(v, t):
    from kamrecsys.metrics import variance_with_gamma_prior as var
    ok = [x for x in v if finite(x)]
    for form, x in forms(v):
        before = ref.snapshot(x)
        where = '%s %r' % (form, v if len(v) < 9 else len(v))
        for a, b in PRIORS:
            if not ok:
                ref.raises(ValueError, lambda: var(x, a, b), 'empty-accepted',
                           where)
                continue
            w, n = want(ok, a, b)
            got = var(x, a, b)
            tol = 1e-9 * (1. if form == 'float32' else 0.) + tolerance(
                [float(y) for y in ok])
            expect(abs(float(got) - w) <= tol + 1e-9 * w, 'variance',
                   where, prior=(a, b), got=got, want=w)
            expect(np.isfinite(got) and got >= 0, 'not-finite', where,
                   got=got)
            full = var(x, a, b, full_output=True)
            expect(float(full[0]) == float(got) and full[1] == n,
                   'full-output', where, got=full, want=(got, n))
            if len(ok) < len(v):
                ref.raises(ValueError, lambda: var(
                    x, a, b, force_all_finite=True), 'non-finite-accepted',
                    where)
            else:
                expect(float(var(x, a, b, force_all_finite=True)) ==
                       float(got), 'force-all-finite', where)
            t.ev()
        if ok:
            w, n = want(ok, 1e-8, 1e-8)
            expect(abs(float(var(x)) - w) <= 1e-9 * w + tolerance(
                [float(y) for y in ok]), 'default-prior',
                where, got=var(x), want=w)
        expect(ref.snapshot(x) == before, 'argument-changed', where)


def vectors(case, t):
    from kamrecsys.metrics import variance_with_gamma_prior as var
    for n, p in [(n, 0) for n in case.get('vec', ())] + [
            (n, p) for p in case.get('powers', ()) for n in (2, 3, 9, 130)]:
        for sh in vec.SHAPES if n < 20000 else vec.SHAPES[:2]:
            q = vec.quarters(n, sh)
            sd = vec.moments(q)[1] * 2. ** p
            x = q * .25 * 2. ** p
            bad = np.r_[np.nan, x, np.inf, -np.inf]
            for a, b in ((0., 0.), (.5, 2.), (1e-8, 1e-8)):
                w = (2 * b + n * sd * sd) / (2 * a + n)
                where = 'n=%d %s times 2^%d prior=%r' % (n, sh, p, (a, b))
                for v in (x, bad):
                    g = var(v, a, b)
                    f = var(v, a, b, full_output=True)
                    expect(vec.near(g, w, 1e-11) and float(f[0]) == float(g),
                           'variance', where, got=(g, f), want=w)
                    expect(f[1] == n, 'full-output', where, got=f)
                    t.ev()
            t.sig((n, p, sh))
    t.sample({'case': case})


def run(case, t):
    if 'vec' in case or 'powers' in case:
        return vectors(case, t)
    if 'ladder' in case:
        n = case['ladder']
        v = [float((i * 7) % 13 - 3) for i in range(n)]
        judge(v, t)
        judge([100., 101.] * n, t)
        judge([881250949. + (i * 31) % 17 for i in range(n)], t)
        t.sig(n)
        return
    if case['n'] == 0:
        judge([], t)
        t.sig(())
        return
    for rest in itertools.product(VALUES, repeat=case['n'] - 1):
        v = [VALUES[case['first']]] + list(rest)
        judge(v, t)
        if 'offset' in case:
            judge([x + case['offset'] for x in v], t)
        t.sig(repr(v))
    t.sample({'case': case, 'last': repr(v)})
