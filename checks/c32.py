"""C32: numeric helpers meet their definitions on all inputs."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('the clipped logistic function at every binary exponent, a grid of '
        'mantissas, the bit patterns next to every clipping point, and all '
        'half precision numbers: range, monotony, symmetry and value; the '
        'test for binary scores on every vector within the bounds, in every '
        'numeric type; the message of every status code.  Non-trivial: a '
        'distinct input.')
BOUNDS = {'quick': 'all exponents x 8 mantissas; all 65536 half precision '
          'numbers; vectors of <=6 over 2, <=4 over 9 values',
          'thorough': 'all exponents x 256 mantissas; vectors of <=9 over 2, '
          '<=6 over 9 values'}
ASSUMPTIONS = ['values agree with a reference to 4 units in the last place']

LIM = 34.538776394910684
ALPH = [0., 1., -1., 2., .5, 1e-17, 1 - 2.0 ** -53, float('nan'),
        float('inf')]


def cases(tier):
    th = tier == 'thorough'
    for j in range(16):
        yield {'exp': j, 'mant': 256 if th else 8}
    yield {'half': 1}
    yield {'near': 1}
    for n in range(0, 10 if th else 7):
        yield {'bin': n, 'over': 2}
    for n in range(1, 7 if th else 5):
        yield {'bin': n, 'over': 9}
    yield {'sizes': 1}
    for n in (127, 1025, 4097, 10001, 65537, 100001, 131073, 262145) + (
            (1000003, 1 << 21) if th else ()):
        yield {'long': n}
    yield {'status': 1}
    yield {'info': 1}


def sigmoid_at(xs, t):
    """xs ascending floats (no NaN)"""
    from kamrecsys.utils import safe_sigmoid
    x = np.array(xs, dtype=float)
    keep = x.copy()
    y = safe_sigmoid(x)
    expect(isinstance(y, np.ndarray) and y.shape == x.shape, 'shape')
    expect(x.tobytes() == keep.tobytes(), 'argument-changed')
    y = np.asarray(y, dtype=float)
    bad = ~((y >= 1e-15 * (1 - 1e-9)) & (y <= 1 - 9e-16))
    expect(not bad.any(), 'range', x=x[bad][:3], y=y[bad][:3])
    d = np.diff(y) < -4e-16 * np.abs(y[1:])
    expect(not d.any(), 'not-monotone', x=x[1:][d][:3])
    z = np.asarray(safe_sigmoid(-x[::-1])[::-1], dtype=float)
    s = np.abs(y + z - 1)
    expect(not (s > 4.5e-16).any(), 'not-symmetric', x=x[s > 4.5e-16][:3])
    for a, b in zip(xs, y.tolist()):
        c = min(max(a, -LIM), LIM)
        want = 1 / (1 + math.exp(-c)) if c >= 0 else (
            math.exp(c) / (1 + math.exp(c)))
        expect(abs(b - want) <= 1e-15 * want, 'value', x=a, got=b, want=want)
    t.ev(len(xs))
    t.sig(x.tobytes())
    # the same values one by one and as columns
    for a in xs[::max(1, len(xs) // 16)]:
        expect(float(safe_sigmoid(a)) == float(
            safe_sigmoid(np.array([[a]]))[0, 0]), 'shape-dependent', x=a)


def binary(v, uniform):
    s = set(Fraction(x) if math.isfinite(x) else repr(x) for x in v)
    return s == {0, 1} or (uniform and s in ({0}, {1}))


def run(case, t):
    if 'exp' in case:
        j = case['exp']
        xs = []
        for e in range(-1074 + j, 1024, 16):
            for m in range(case['mant']):
                v = math.ldexp(1 + m / float(case['mant']), e)
                if math.isfinite(v):
                    xs.append(v)
        xs = sorted(set(xs) | {0.})
        sigmoid_at(xs, t)
        sigmoid_at([-x for x in xs[::-1]], t)
        sigmoid_at([-x for x in xs[:0:-1]] + xs, t)
    elif 'half' in case:
        h = np.arange(65536, dtype=np.uint16).view(np.float16)
        h = np.unique(h[~np.isnan(h)].astype(float))
        sigmoid_at(h.tolist(), t)
        sigmoid_at([x + 1 / 3. for x in h.tolist() if abs(x) < 100], t)
    elif 'long' in case:
        # the value of an argument does not depend on how many there are
        from kamrecsys.utils import safe_sigmoid
        n = case['long']
        base = [s * math.ldexp(m, e) for e in range(-60, 8) for m in (1, 1.3)
                for s in (1, -1)] + [0., -LIM, LIM, 1e308, -1e308]
        w = np.array([float(safe_sigmoid(np.array([b]))[0]) for b in base])
        for b in base:
            sigmoid_at([b], t)
        for shape in ((n,), (n, 1), (1, n)):
            for step in (1, 5):
                j = (np.arange(n) * step + np.arange(n) // 11) % len(base)
                x = np.array(base)[j].reshape(shape)
                y = np.asarray(safe_sigmoid(x), dtype=float)
                expect(y.shape == shape, 'shape', n=n)
                d = np.abs(y.ravel() - w[j]) > 4e-16 * w[j]
                expect(not d.any(), 'value-depends-on-length', n=n,
                       x=x.ravel()[d][:3], got=y.ravel()[d][:3],
                       want=w[j][d][:3])
        t.sig(n)
    elif 'near' in case:
        for c in (LIM, -LIM, 0., 1., -1., 36.7, -36.7, 709.78, -709.78,
                  745.13, -745.13, 88.72, -88.72):
            xs = [c]
            for _ in range(64):
                xs = [np.nextafter(xs[0], -np.inf)] + xs + [
                    np.nextafter(xs[-1], np.inf)]
            sigmoid_at([float(x) for x in xs], t)
        sigmoid_at([-float('inf'), -1e308, 0., 1e308, float('inf')], t)
        sigmoid_at([k / 64. for k in range(-64 * 40, 64 * 40)], t)
        from kamrecsys.utils import safe_sigmoid
        for v in (range(-50, 51), ):
            for dt in ('i1', 'i4', 'i8', 'f4'):
                y = safe_sigmoid(np.array(list(v), dtype=dt))
                w = safe_sigmoid(np.array(list(v), dtype=float))
                expect(np.max(np.abs(np.asarray(y, dtype=float) - w)) < (
                    1e-6 if dt in ('i1', 'f4') else 1e-15), 'type', dtype=dt)
            expect(np.array_equal(safe_sigmoid(list(v)), w), 'list')
    elif 'bin' in case:
        from kamrecsys.utils import is_binary_score as f
        for v in itertools.product(ALPH[:case['over']], repeat=case['bin']):
            for u in (True, False):
                r = f(np.array(v, dtype=float), allow_uniform=u)
                expect(r is True or r is False or isinstance(r, np.bool_),
                       'not-a-bool', v=v)
                expect(bool(r) == binary(v, u), 'binary', v=v,
                       allow_uniform=u, got=r)
            expect(bool(f(np.array(v))) == binary(v, True), 'default', v=v)
            if case['bin'] and case['over'] == 2:
                for dt in ('i1', 'u1', 'i4', 'i8', 'u8', 'f2', 'f4', '?'):
                    a = np.array(v).astype(dt)
                    expect(bool(f(a, False)) == binary(v, False) and
                           bool(f(a)) == binary(v, True), 'binary-' + dt,
                           v=v)
                expect(bool(f(list(v), False)) == binary(v, False), 'list')
            t.ev()
            t.sig(v)
    elif 'sizes' in case:
        from kamrecsys.utils import is_binary_score as f
        for n in (127, 128, 255, 256, 257, 1000, 1025, 4097, 10001, 32769,
                  70000, 100002, 131073, 262145, 300000, 1000003, 2097153):
            for dt in ('i1', 'u1', 'i8', 'f4', 'f8'):
                a = np.zeros(n, dtype=dt)
                expect(bool(f(a)) and not f(a, False), 'uniform', n=n)
                a[n - 1] = 1
                expect(bool(f(a)) and bool(f(a, False)), 'long', n=n)
                a[n // 2] = 2
                expect(not f(a) and not f(a, False), 'long', n=n)
                a[n // 2] = 1
                a[0] = 127
                expect(not f(a) and not f(a, False), 'long', n=n)
                # a single score that is neither, at any place
                for at in (0, 1, n // 3, n // 2, n - 2, n - 1) if (
                        n < 300001 or dt == 'f8') else ():
                    for dup in (a, np.ones_like(a), np.zeros_like(a)):
                        dup = dup.copy()
                        dup[0] = 0
                        dup[at] = 2
                        expect(not f(dup) and not f(dup, False), 'long',
                               n=n, at=at)
                t.ev(4)
                t.sig((n, dt))
        for dt in ('i1', 'u1', 'i2', 'i4'):
            for x in range(np.iinfo(dt).min, min(np.iinfo(dt).max,
                                                 40000) + 1) if dt in (
                    'i1', 'u1') else (-1, 2, 256, 257, 32767):
                a = np.array([0, 1, x], dtype=dt)
                expect(bool(f(a)) == (x in (0, 1)), 'third', x=x)
                a = np.array([x], dtype=dt)
                expect(bool(f(a)) == (x in (0, 1)) and not f(a, False),
                       'single', x=x)
                t.ev()
    elif 'status' in case:
        from kamrecsys import utils
        g = utils.get_fit_status_message
        names = ['success', 'maxfev', 'maxiter', 'pr_loss']
        seen = set()
        for c in range(-3, 300):
            m = g(c)
            expect(isinstance(m, str) and m, 'message', code=c)
            if 0 <= c < 4:
                expect(m == utils.fit_status_message[names[c]], 'message',
                       code=c, got=m)
                seen.add(m)
            else:
                expect(m not in utils.fit_status_message.values(),
                       'message', code=c, got=m)
            for x in (np.int64(c), float(c)):
                expect(g(x) == m, 'type', code=c)
            t.ev()
            t.sig(c)
        expect(len(seen) == 4, 'distinct')
    else:
        import platform
        import scipy
        import sklearn
        from kamrecsys import utils
        v = utils.get_version_info()
        for k, w in (('numpy', np.__version__), ('scipy', scipy.__version__),
                     ('sklearn', sklearn.__version__),
                     ('python', platform.python_version())):
            expect(v.get(k) == w, 'version', name=k, got=v.get(k), want=w)
        s = utils.get_system_info()
        for k, w in (('system', platform.system()),
                     ('release', platform.release()),
                     ('version', platform.version()),
                     ('machine', platform.machine())):
            expect(s.get(k) == w, 'system', name=k, got=s.get(k), want=w)
        expect('node' not in s and utils.get_system_info(True).get(
            'node') == platform.node(), 'node')
        t.ev(2)
    t.sample(case)
