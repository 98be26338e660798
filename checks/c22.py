"""C22: mean absolute and squared errors are exact, bad input is rejected."""
from fractions import Fraction as F
import itertools
import math

import numpy as np

from mc import ref, vec
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every pair of vectors of equal length over a grid of values (in '
        'several types and containers) and every pair of different lengths: '
        'mean, standard deviation and root of the mean of absolute and '
        'squared differences are compared with rational arithmetic; vectors '
        'of different lengths or with non finite entries must be rejected '
        'at every position; arguments must not be changed.  Non-trivial: '
        'a distinct pair of vectors.')
BOUNDS = {'quick': 'length <=3 over 6 values; lengths <=5 rejected; ladder '
                   'to 65537; magnitudes 2^-140..2^140; 77 lengths to 131073', 'thorough': 'length <=4 over 6 values; ladder '
                   'to 1000001'}
ASSUMPTIONS = []

VALUES = [F(0), F(1), F(5), F(-2), F(5, 2), F(1, 4)]
TYPES = ('float', 'list', 'float32', 'int', 'int8', 'tuple', 'mixed')


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for ln in range(1, n + 1):
        for first in range(len(VALUES)):
            for second in range(len(VALUES)):
                yield {'n': ln, 'first': [first, second]}
    yield {'bad': True}
    for pair in itertools.product(NARROW, repeat=2):
        yield {'narrow': list(pair)}
    for n in (1, 2, 3):
        yield {'scale': n}
        yield {'dtypes': n}
    for n in (7, 127, 128, 129, 255, 256, 257, 1000, 1025, 65537) + (
            (32768, 32769, 100000, 1000001) if tier == 'thorough' else ()):
        yield {'ladder': n}
    ls = vec.lengths(tier)
    for i in range(0, len(ls), 8):
        yield {'vec': ls[i:i + 8]}
    for p in range(0, len(vec.POWERS), 8):
        yield {'powers': list(vec.POWERS[p:p + 8])}


def conv(v, kind, side=0):
    f = [float(x) for x in v]
    if kind == 'float':
        return np.array(f)
    if kind == 'list':
        return f
    if kind == 'tuple':
        return tuple(f)
    if kind == 'float32':
        return np.array(f, dtype=np.float32)
    if kind in ('int', 'int8'):
        return np.array([int(x) for x in f],
                        dtype=int if kind == 'int' else np.int8)
    if kind == 'mixed':
        return np.array(f, dtype=np.float32) if side else np.array(f)
    raise KeyError(kind)


NARROW = ('bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32',
          'int64', 'uint64', 'float32', 'float16')


def extremes(dt):
    """values of a type, near its limits and those of single precision"""
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return [0, 1]
    if dt.kind == 'f':
        return [0., 1., -2.5, 100.25, .125]
    i = np.iinfo(dt)
    v = [0, 1, 3, i.max, i.max - 1, i.min, i.min + 1, 16777216, 16777217,
         16777219, 33554433, 2 ** 31 + 1, 2 ** 40 + 1]
    # whole numbers that double precision holds
    return [x for x in dict.fromkeys(v) if i.min <= x <= i.max and
            int(float(x)) == x and abs(x) < 2 ** 52]


def narrow(case, t):
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    dx, dy = case['narrow']
    lists = [list(itertools.product(extremes(d), repeat=2)) for d in (dx, dy)]
    for va in lists[0]:
        for vb in lists[1]:
            x, y = np.array(va, dtype=dx), np.array(vb, dtype=dy)
            d = [abs(F(p) - F(q)) for p, q in zip(va, vb)]
            w1 = moments(d)
            m, sd = moments([z * z for z in d])
            w2 = (math.sqrt(m), m, sd)
            e = [float(z) for z in mean_absolute_error(x, y)]
            q = [float(z) for z in mean_squared_error(x, y)]
            big = float(max(d))
            eps = 1e-14
            if dx[0] == dy[0] == 'f':
                eps = 1e-6
            ok = all(abs(p - r) <= eps * big for p, r in zip(e, w1)) and \
                abs(q[0] - w2[0]) <= eps * big and all(
                    abs(p - r) <= eps * big ** 2
                    for p, r in zip(q[1:], w2[1:]))
            expect(ok, 'precision', '%s %r and %s %r' % (dx, va, dy, vb),
                   got=(e, q), want=(w1, w2))
            t.ev()
        t.sig((dx, dy, va))
    t.sample({'case': case})


def moments(d):
    n = len(d)
    m = sum(d) / n
    return float(m), math.sqrt(float(sum((x - m) ** 2 for x in d) / n))


def judge(a, b, kind, t, where):
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    x, y = conv(a, kind), conv(b, kind, 1)
    before = ref.snapshot(x, y)
    mae = [float(v) for v in mean_absolute_error(x, y)]
    mse = [float(v) for v in mean_squared_error(x, y)]
    expect(ref.snapshot(x, y) == before, 'arguments-changed', where)
    tol = 1e-5 if kind in ('float32', 'int8', 'mixed') else 1e-9
    w1 = moments([abs(p - q) for p, q in zip(a, b)])
    m, sd = moments([(p - q) ** 2 for p, q in zip(a, b)])
    w2 = (math.sqrt(m), m, sd)
    expect(len(mae) == 2 and all(ref.feq(p, q, tol) for p, q in
                                 zip(mae, w1)), 'mae', where, got=mae,
           want=w1, type=kind)
    expect(len(mse) == 3 and all(ref.feq(p, q, tol) for p, q in
                                 zip(mse, w2)), 'mse', where, got=mse,
           want=w2, type=kind)
    t.ev()


def compare(a, b, d, p, t, where):
    """a - b is d quarters times 2^p"""
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    s = 2. ** p
    for x, y in ((a, b), (b, a)):
        e = [float(v) for v in mean_absolute_error(x, y)]
        q = [float(v) for v in mean_squared_error(x, y)]
        w = vec.moments(np.abs(d))
        expect(vec.near(e[0], w[0] * s) and (
            vec.near(e[1], w[1] * s) or abs(e[1]) <= 1e-14 * e[0]), 'mae',
            where, got=e, want=w)
        m = vec.moments(d * d, 16)
        expect(vec.near(q[0], math.sqrt(m[0]) * s) and
               vec.near(q[1], m[0] * s * s) and (
                   vec.near(q[2], m[1] * s * s) or
                   abs(q[2]) <= 1e-14 * q[1]), 'mse', where, got=q, want=m)
        t.ev()


def vectors(case, t):
    """many lengths, and one odd error at either end or within"""
    for n in case.get('vec', ()):
        for sh in vec.SHAPES if n < 20000 else vec.SHAPES[:2]:
            d = vec.quarters(n, sh)
            b = (np.arange(n) * 5 + 3) % 13
            compare((b + d) * .25, b * .25, d, 0, t, 'n=%d %s' % (n, sh))
            t.sig((n, sh))
    for p in case.get('powers', ()):
        for n in (1, 2, 3, 9, 130):
            for sh in vec.SHAPES:
                d = vec.quarters(n, sh)
                for base in (0, 7):
                    b = np.arange(n) % 5 * base
                    compare((b + d) * .25 * 2. ** p, b * .25 * 2. ** p, d, p,
                            t, 'n=%d %s times 2^%d' % (n, sh, p))
                t.sig((n, sh, p))
    t.sample({'case': case})


def run(case, t):
    if 'narrow' in case:
        return narrow(case, t)
    if 'vec' in case or 'powers' in case:
        return vectors(case, t)
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    if 'bad' in case:
        for fn in (mean_absolute_error, mean_squared_error):
            for n in range(1, 6):
                for m in range(1, 6):
                    for kind in ('float', 'list'):
                        a, b = conv([1] * n, kind), conv([2] * m, kind)
                        if n != m:
                            ref.raises(ValueError, lambda: fn(a, b),
                                       'length-accepted', '%s %d %d' % (
                                           fn.__name__, n, m))
                        t.ev()
                        t.sig((fn.__name__, n, m, kind))
                for pos in range(n):
                    for bad in (float('nan'), float('inf'), -float('inf')):
                        for kind in ('float', 'list', 'float32'):
                            a = [1.] * n
                            a[pos] = bad
                            a, b = conv(a, kind), conv([1.] * n, kind)
                            for u, v in ((a, b), (b, a), (a, a)):
                                ref.raises(
                                    ValueError, lambda: fn(u, v),
                                    'non-finite-accepted', '%s n=%d pos=%d '
                                    '%r' % (fn.__name__, n, pos, bad))
                            t.ev()
                            t.sig((fn.__name__, n, pos, bad, kind))
        t.sample({'rejected': 'lengths 1 and 2'})
        return
    if 'dtypes' in case:
        # one argument has double precision: so has the result
        vals = (0.1, 1. / 3, 16777217., -2.7, 5.)
        wide = {'float64': np.float64, 'int64': np.int64, 'list': None}
        small = {'float32': np.float32, 'int8': np.int8, 'uint8': np.uint8,
                 'int16': np.int16, 'bool': np.bool_, 'int64': np.int64,
                 'float64': np.float64}
        for wn, sn in itertools.product(wide, small):
            for va in itertools.product(vals, repeat=case['dtypes']):
                a = [float(int(v)) if wn == 'int64' else v for v in va]
                x = list(a) if wn == 'list' else np.array(a, dtype=wide[wn])
                for s in (1, 2):
                    vb = [abs(v * s) % 100 if sn != 'bool' else s - 1
                          for v in va[::-1]]
                    y = np.array(vb).astype(small[sn])
                    b = [F(float(v)) for v in y]
                    if wn == 'list' and len(set(map(type, a))) > 1:
                        continue
                    d = [abs(F(p) - q) for p, q in zip(a, b)]
                    w1 = moments(d)
                    m, sd = moments([z * z for z in d])
                    w2 = (math.sqrt(m), m, sd)
                    for u, v in ((x, y), (y, x)):
                        e = [float(z) for z in mean_absolute_error(u, v)]
                        q = [float(z) for z in mean_squared_error(u, v)]
                        big = float(max(d))
                        ok = all(abs(p - r) <= 1e-14 * big
                                 for p, r in zip(e, w1)) and abs(
                            q[0] - w2[0]) <= 1e-14 * big and all(
                            abs(p - r) <= 1e-14 * big ** 2
                            for p, r in zip(q[1:], w2[1:]))
                        expect(ok, 'precision', '%s %r and %s %r' % (
                            wn, a, sn, y.tolist()), got=(e, q),
                            want=(w1, w2))
                        t.ev()
                t.sig((wn, sn, va))
        return
    if 'scale' in case:
        # errors of very different sizes: deviations must not cancel out
        for base in (0, 1, 1000, 10 ** 5, 10 ** 8):
            for step in (F(1, 2 ** 20), F(1, 1024), F(1, 8), F(1), F(1000)):
                for k in itertools.product(range(3), repeat=case['scale']):
                    a = [F(base) + step * x for x in k]
                    b = [F(0) for _ in a]
                    if len(set(a)) > 1 and float(step) < base * 1e-9:
                        continue
                    x = np.array([float(v) for v in a])
                    for s in (1, -1):
                        y = np.zeros(len(a))
                        u, v = (x, y) if s > 0 else (y, x)
                        e = [float(z) for z in mean_absolute_error(u, v)]
                        q = [float(z) for z in mean_squared_error(u, v)]
                        # rounding of one error, in units of its size
                        eps = 4e-15 * float(max(a))
                        w = moments(a)
                        ok = abs(e[0] - w[0]) <= eps and \
                            abs(e[1] - w[1]) <= eps
                        expect(ok, 'mae', 'y_true - y_pred=%r' % x, got=e,
                               want=w)
                        m, sd = moments([z * z for z in a])
                        eps = 4e-15 * float(max(a)) ** 2
                        ok = abs(q[1] - m) <= eps and \
                            abs(q[2] - sd) <= eps and \
                            abs(q[0] - math.sqrt(m)) <= 4e-15 * float(max(a))
                        expect(ok, 'mse', 'y_true - y_pred=%r' % x, got=q,
                               want=(math.sqrt(m), m, sd))
                        t.ev()
                    t.sig((base, step, k))
        return
    if 'ladder' in case:
        n = case['ladder']
        a = [F((i * 7) % 11, 2) - 2 for i in range(n)]
        b = [F((i * 5 + 3) % 13, 4) for i in range(n)]
        judge(a, b, 'float', t, 'n=%d' % n)
        judge([F(int(x)) for x in a], [F(int(x)) for x in b], 'int8', t,
              'n=%d' % n)
        t.sig(n)
        return
    n = case['n']
    i, j = case['first']
    for ra in itertools.product(VALUES, repeat=n - 1):
        for rb in itertools.product(VALUES, repeat=n - 1):
            a, b = (VALUES[i],) + ra, (VALUES[j],) + rb
            whole = all(x.denominator == 1 for x in a + b)
            for kind in TYPES if n < 3 else ('float',):
                if kind.startswith('int') and not whole:
                    continue
                judge(a, b, kind, t, '%r %r' % (
                    [float(x) for x in a], [float(x) for x in b]))
            t.sig((a, b))
    t.sample({'case': case, 'y_true': [float(x) for x in a],
              'y_pred': [float(x) for x in b]})
