"""C23: score statistics and histograms count every score once."""
from fractions import Fraction as F
import itertools
import math

import numpy as np

from mc import ref, vec
from mc.core import expect
from checks.c22 import NARROW, extremes, moments

LEVEL = 'exploration'
RULE = ('every vector of true scores (levels) and of predicted scores '
        '(levels, beside and in the middle of levels, outside the domain) up '
        'to the length x every domain: statistics and report are compared '
        'with rational arithmetic and with counts of nearest levels; '
        'histograms with a number of bins are compared with counts; the '
        'bins agree with those of a container of the same domain.  '
        'Non-trivial: a distinct (domain, true, predicted).')
BOUNDS = {'quick': 'length <=2 (3 on one domain), 11 domains; 77 lengths to '
          '131073',
          'thorough': 'length <=3 (4 on two domains), 11 domains'}
ASSUMPTIONS = ['a score in the middle of two levels may be counted for '
               'either']

DOMAINS = [(1, 5, 1), (1., 5., .5), (0, 1, 1), (-2, 2, 1), (.1, .7, .1),
           (0, 10, 5), (10., 11., .25), (-1., 1., 2.),
           (0., 4e6, 1e6), (0, .004, .001), (1990, 2026, 12)]


def cases(tier):
    th = tier == 'thorough'
    for di in range(len(DOMAINS)):
        for n in range(1, 4 if th else 3):
            yield {'domain': di, 'n': n, 'part': 0, 'of': 1}
        m = 4 if th and di in (0, 3) else 3 if di == 0 else None
        for part in range(32 if m else 0):
            yield {'domain': di, 'n': m, 'part': part, 'of': 32}
        yield {'hist': di}
    for n in (1, 127, 128, 256, 257, 1025, 32767, 32768, 33000, 65536, 70000):
        for di in (0, 1, 2) if n < 30000 or th else (0,):
            yield {'count': n, 'domain': di}
    for n in (9, 40, 101, 257, 1001, 2001) + ((10001,) if th else ()):
        for di in range(len(DOMAINS)) if n < 2000 else (0, 3):
            yield {'rare': n, 'domain': di}
    for di in range(len(DOMAINS)):
        yield {'scale': di, 'domain': di}
    ls = vec.lengths(tier)
    for i in range(0, len(ls), 6):
        yield {'vec': ls[i:i + 6], 'domain': i // 6 % 5}
    for di in range(len(DOMAINS)):
        yield {'zeros': di, 'domain': di}
    yield {'bad': True}
    for pair in itertools.product(NARROW, repeat=2):
        yield {'narrow': list(pair)}
    for st in ('.1', '.2', '.3', '.7', '1.1', '.05', '3', '.125'):
        yield {'strides': st, 'to': 200 if th else 60}


def levels(dom):
    lo, hi, st = [F(str(x)) for x in dom]
    return [lo + st * i for i in range(int(round((hi - lo) / st)) + 1)]


def predicted(lv, st):
    """probe values: on, beside, between and outside the levels"""
    out = [lv[0], lv[-1], lv[len(lv) // 2]]
    out += [lv[0] + st / 2, lv[-1] - st / 2, lv[0] + st * F(49, 100),
            lv[0] + st * F(51, 100), lv[0] - 7 * st, lv[-1] + F(1, 3),
            lv[-1] + 100 * st]
    return out


def judge_hist(hist, values, lv, st, where):
    """counts of nearest levels, the middle may go to either side"""
    hist = [int(x) for x in hist]
    expect(len(hist) == len(lv), 'histogram-length', where, got=len(hist))
    expect(sum(hist) == len(values), 'histogram-total', where, got=hist)
    lo = [0] * len(lv)
    free = []
    for v in values:
        d = [abs(v - x) for x in lv]
        near = [j for j in range(len(lv)) if d[j] - min(d) <= st / 10 ** 6]
        if len(near) == 1:
            lo[near[0]] += 1
        else:
            free.append(near)
    rest = [h - l for h, l in zip(hist, lo)]
    ok = all(x >= 0 for x in rest) and any(
        all(rest[j] == ch.count(j) for j in range(len(lv)))
        for ch in itertools.product(*free)) if len(free) < 9 else True
    expect(ok, 'histogram', where, got=hist, certain=lo, free=free)


def strides(case, t):
    """domains whose ends and strides are not binary fractions"""
    from kamrecsys import metrics as km
    st = F(case['strides'])
    for lo in (F(0), F(1), F('.1'), F('-1.3')):
        for n in range(1, case['to']):
            # the exact maximum, and the one found in floating point
            for dom in ((float(lo), float(lo + n * st), float(st)),
                        (float(lo), float(lo) + n * float(st), float(st))):
                where = 'domain=%r' % (dom,)
                v = np.array([dom[0], dom[1], float(lo + n // 2 * st)])
                s = km.score_predictor_statistics(v, v[::-1], dom)
                lv = [lo + st * i for i in range(n + 1)]
                expect(len(s['score levels']) == n + 1 and all(
                    abs(float(x) - float(y)) < 1e-9 for x, y in
                    zip(s['score levels'], lv)), 'score-levels', where,
                    got=s['score levels'])
                want = [0] * (n + 1)
                for j in (0, n, n // 2):
                    want[j] += 1
                for side in ('true', 'predicted'):
                    expect([int(x) for x in s[side]['histogram']] == want,
                           'histogram', where, side=side,
                           got=s[side]['histogram'])
                t.ev()
        t.sig((case['strides'], lo))


def narrow(case, t):
    """scores of types of fewer bits"""
    from kamrecsys import metrics as km
    dx, dy = case['narrow']
    ex, ey = extremes(dx), extremes(dy)
    for k in range(len(ex) + len(ey)):
        va = [ex[(k + j) % len(ex)] for j in (0, 1, 3)]
        vb = [ey[(2 * k + j * j) % len(ey)] for j in (0, 1, 2)]
        a, b = np.array(va, dtype=dx), np.array(vb, dtype=dy)
        where = '%s %r and %s %r' % (dx, va, dy, vb)
        before = ref.snapshot(a, b)
        s = km.score_predictor_statistics(a, b, (1, 5, 1))
        r = km.score_predictor_report(a, b, disp=False)
        expect(ref.snapshot(a, b) == before, 'arguments-changed', where)
        d = [abs(F(p) - F(q)) for p, q in zip(va, vb)]
        ae, se = moments(d), moments([z * z for z in d])
        big = float(max(max(d), max(abs(x) for x in va + vb)))
        tm, pm = moments([F(x) for x in va]), moments([F(x) for x in vb])
        for got, want, key in (
                (s['mean absolute error']['mean'], ae[0], 'mae'),
                (s['mean absolute error']['stdev'], ae[1], 'mae-stdev'),
                (s['mean squared error']['rmse'], math.sqrt(se[0]), 'rmse'),
                (s['true']['mean'], tm[0], 'true-mean'),
                (s['true']['stdev'], tm[1], 'true-stdev'),
                (s['predicted']['mean'], pm[0], 'predicted-mean'),
                (s['predicted']['stdev'], pm[1], 'predicted-stdev'),
                (r['mean absolute error'], ae[0], 'report-mae'),
                (r['root mean squared error'], math.sqrt(se[0]),
                 'report-rmse'),
                (r['true']['mean'], tm[0], 'report-true-mean'),
                (r['true']['stdev'], tm[1], 'report-true-stdev'),
                (r['predicted']['mean'], pm[0], 'report-predicted-mean'),
                (r['predicted']['stdev'], pm[1], 'report-predicted-stdev')):
            eps = 1e-6 if 'f' in (dx[0], dy[0]) else 1e-14
            expect(abs(float(got) - want) <= eps * big, key, where, got=got,
                   want=want)
        for side, v in (('true', va), ('predicted', vb)):
            judge_hist(s[side]['histogram'], [F(x) for x in v],
                       levels((1, 5, 1)), F(1), where + ' ' + side)
            for arr in (a if side == 'true' else b,):
                h, _ = km.score_histogram(arr, (1, 5, 1))
                judge_hist(h, [F(x) for x in v], levels((1, 5, 1)), F(1),
                           where)
        t.ev()
        t.sig((dx, dy, va, vb))
    t.sample({'case': case})


def zeros(case, t, dom, lv, st):
    """a zero of either sign is the same score"""
    from kamrecsys import metrics as km
    v = [0., -0., float(lv[0]), -1e-300, 1e-300]
    for n in (1, 2, 3, 4):
        for b in itertools.product(v, repeat=n):
            a = [float(lv[(i + n) % len(lv)]) for i in range(n)]
            for x, y in ((a, b), (b, a), (b, b), (b, b[::-1])):
                where = 'domain=%r true=%r predicted=%r' % (dom, x, y)
                s = km.score_predictor_statistics(
                    np.array(x), np.array(y), dom)
                for side, z in (('true', x), ('predicted', y)):
                    q = [F(w) if abs(w) > 1e-200 else F(0) for w in z]
                    judge_hist(s[side]['histogram'], q, lv, st, where)
                    h, _ = km.score_histogram(np.array(z), dom)
                    judge_hist(h, q, lv, st, where)
                    m, sd = moments(q)
                    eps = 1e-14 * max(1., max(abs(w) for w in z))
                    expect(abs(s[side]['mean'] - m) <= eps and
                           abs(s[side]['stdev'] - sd) <= eps, side, where,
                           got=s[side])
                m = moments([abs(F(p) - F(q)) for p, q in zip(x, y)])[0]
                expect(abs(s['mean absolute error']['mean'] - m) <= 1e-14 *
                       max(1., m), 'mae', where, got=s)
                t.ev()
            t.sig((dom, tuple(repr(w) for w in b)))
    t.sample({'case': case})


def vectors(case, t, dom, lv, st):
    """many lengths; levels, values beside them, and one odd value"""
    from kamrecsys import metrics as km
    m = len(lv)
    f = np.array([float(x) for x in lv])
    for n in case['vec']:
        i = np.arange(n)
        for sh in ('mixed', 'last', 'first') if n < 40000 else (
                'mixed', 'last'):
            j = (i * 7 + i // 5) % m
            if sh != 'mixed':
                j = np.zeros(n, dtype=int)
                j[-1 if sh == 'last' else 0] = m - 1
            off = np.array([0., .25, -.25, .375])[(i * 3 + i // 7) % 4]
            a, b = f[j], f[j] + off * float(st)
            b[0 if sh == 'last' else -1] += (m + 3) * float(st)
            k = np.where(b > f[-1], m - 1, j)
            where = 'domain=%r n=%d %s' % (dom, n, sh)
            s = km.score_predictor_statistics(a, b, dom)
            r = km.score_predictor_report(a, b, disp=False)
            expect(s['n_samples'] == r['n_samples'] == n, 'n_samples', where)
            for side, x, c in (('true', a, j), ('predicted', b, k)):
                want = np.bincount(c, minlength=m).tolist()
                h, lev = km.score_histogram(x, dom)
                expect(list(h) == want and list(
                    s[side]['histogram']) == want, 'histogram', where,
                    side=side, got=h, want=want)
                expect(np.allclose(np.asarray(s[side]['histogram density']) *
                                   n, want, rtol=1e-12, atol=1e-9),
                       'density', where, side=side)
                w = (math.fsum(x) / n,)
                w += (math.sqrt(math.fsum((x - w[0]) ** 2) / n),)
                for g in (s[side], r[side]):
                    big = 1e-13 * abs(x).max()
                    expect(abs(g['mean'] - w[0]) <= big and
                           abs(g['stdev'] - w[1]) <= big, side, where, got=g,
                           want=w)
            d = np.abs(a - b)
            mae, mse = math.fsum(d) / n, math.fsum(d * d) / n
            for g, w in ((s['mean absolute error']['mean'], mae),
                         (r['mean absolute error'], mae),
                         (s['mean squared error']['mean'], mse),
                         (s['mean squared error']['rmse'], math.sqrt(mse)),
                         (r['root mean squared error'], math.sqrt(mse)),
                         (s['mean absolute error']['stdev'], math.sqrt(
                             math.fsum((d - mae) ** 2) / n)),
                         (s['mean squared error']['stdev'], math.sqrt(
                             math.fsum((d * d - mse) ** 2) / n))):
                expect(abs(float(g) - w) <= 1e-12 * max(
                    1e-9, abs(w)) * 10, 'errors', where, got=g, want=w)
            t.ev()
            t.sig((dom, n, sh))
    t.sample({'case': case})


def run(case, t):
    if 'strides' in case:
        return strides(case, t)
    if 'narrow' in case:
        return narrow(case, t)
    import contextlib
    import io
    from kamrecsys import metrics as km
    from kamrecsys.data import EventWithScoreData
    if 'bad' in case:
        for fn in (km.score_predictor_statistics,
                   lambda a, b: km.score_predictor_report(a, b, disp=False)):
            for n in range(1, 5):
                for m in range(1, 5):
                    if n != m:
                        ref.raises(ValueError, lambda: fn(
                            np.ones(n), np.ones(m)), 'length-accepted')
                for pos in range(n):
                    for bad in (float('nan'), float('inf')):
                        a = np.ones(n)
                        a[pos] = bad
                        ref.raises(ValueError, lambda: fn(a, np.ones(n)),
                                   'non-finite-accepted')
                        ref.raises(ValueError, lambda: fn(np.ones(n), a),
                                   'non-finite-accepted')
                        t.ev(2)
                        t.sig((n, pos, bad))
        return
    dom = DOMAINS[case.get('domain', case.get('hist'))]
    lv = levels(dom)
    st = F(str(dom[2]))
    probes = predicted(lv, st)
    if 'hist' in case:
        d = EventWithScoreData()
        vals = [float(x) for x in probes if lv[0] <= x <= lv[-1]] + \
            [float(x) for x in lv]
        d.set_event(np.array([[i, i] for i in range(len(vals))]),
                    np.array(vals), dom)
        idx = [int(x) for x in d.digitize_score(np.array(vals))]
        for v, j in zip(vals, idx):
            h, s = km.score_histogram(np.array([v]), dom)
            # the data container and the metrics agree on every score
            expect(list(h).index(1) == j and h.sum() == 1,
                   'digitize-vs-histogram', domain=dom, score=v,
                   histogram=h.tolist(), digitized=j)
            t.ev()
            t.sig((dom, v))
        for dv in (dom, list(dom), np.array(dom)):
            h, s = km.score_histogram([float(x) for x in probes], dv)
            judge_hist(h, probes, lv, st, 'domain=%r' % (dv,))
            expect(len(s) == len(lv) and all(
                ref.feq(float(a), float(b)) for a, b in zip(s, lv)),
                'levels', domain=dv, got=s)
            t.ev()
        # what is returned belongs to the caller
        x = np.array([float(v) for v in probes])
        calls = [lambda: km.score_histogram(x, dom),
                 lambda: km.score_histogram(x, 5),
                 lambda: km.score_predictor_statistics(x, x[::-1], dom),
                 lambda: km.score_predictor_report(x, x[::-1], disp=False)]
        want = [ref.snapshot(f()) for f in calls]
        for j, f in enumerate(calls):
            ref.spoil(f())
            for i, g in enumerate(calls):
                expect(ref.snapshot(g()) == want[i], 'result-shared',
                       domain=dom, spoiled=j, changed=i)
            t.ev()
        # numbers of bins
        for nb in list(range(1, 12)) + [np.int32(4), np.int64(7)]:
            x = [float(v) for v in probes]
            h, s = km.score_histogram(np.array(x), nb)
            n = int(nb)
            lo, hi = min(x), max(x)
            w = (hi - lo) / n
            expect(len(h) == n and h.sum() == len(x), 'bins-total',
                   domain=dom, bins=nb, got=h)
            expect(all(ref.feq(float(s[j]), lo + w * (j + .5), 1e-7)
                       for j in range(n)), 'bins-centres', domain=dom,
                   bins=nb, got=s)
            want = [0] * n
            edge = False
            for v in x:
                j = (v - lo) / w
                if abs(j - round(j)) < 1e-9 and 0 < round(j) < n:
                    edge = True
                want[min(int(j), n - 1)] += 1
            if not edge:
                expect(list(h) == want, 'bins', domain=dom, bins=nb, got=h,
                       want=want)
            t.ev()
            t.sig((dom, 'bins', n))
        t.sample({'case': case, 'histogram': h.tolist()})
        return
    if 'vec' in case:
        return vectors(case, t, dom, lv, st)
    if 'zeros' in case:
        return zeros(case, t, dom, lv, st)
    if 'count' in case:
        # many equal scores
        n = case['count']
        for j in (0, len(lv) - 1):
            for off in (F(0), st / 4):
                v = lv[j] + off
                a = np.full(n + 2, float(v))
                a[-2:] = [float(lv[0]), float(lv[-1])]
                want = [0] * len(lv)
                want[j] += n
                want[0] += 1
                want[-1] += 1
                h, _ = km.score_histogram(a, dom)
                s = km.score_predictor_statistics(a, a[::-1], dom)
                for x in (h, s['true']['histogram'],
                          s['predicted']['histogram']):
                    expect([int(y) for y in x] == want, 'count', domain=dom,
                           scores=float(v), n=n, got=x, want=want)
                for x in (s['true'], s['predicted']):
                    expect(np.allclose(x['histogram density'],
                                       np.array(want) / (n + 2.),
                                       rtol=1e-9, atol=0),
                           'density', domain=dom, n=n)
                expect(s['n_samples'] == n + 2, 'n_samples', n=n)
                t.ev()
                t.sig((n, dom, v))
        return
    if 'rare' in case:
        # almost all scores are levels; a few are beside them
        n = case['rare']
        for few in (1, 2, 3):
            for off in (F(1, 4), F(-1, 3), F(9, 20)):
                for pos in (0, n // 2, n - few):
                    v = [lv[(i * 7) % len(lv)] for i in range(n)]
                    w = list(v)
                    for i in range(few):
                        w[pos + i] = lv[(i + pos) % len(lv)] + off * st
                    a = np.array([float(x) for x in v])
                    b = np.array([float(x) for x in w])
                    where = 'domain=%r n=%d few=%d at %d by %s' % (
                        dom, n, few, pos, off)
                    s = km.score_predictor_statistics(a, b, dom)
                    r = km.score_predictor_report(a, b, disp=False)
                    ae = moments([abs(x - y) for x, y in zip(v, w)])
                    se = moments([(x - y) ** 2 for x, y in zip(v, w)])
                    tm, pm = moments(v), moments(w)
                    for got, want, key in (
                            (s['mean absolute error']['mean'], ae[0], 'mae'),
                            (s['mean absolute error']['stdev'], ae[1],
                             'mae-stdev'),
                            (s['mean squared error']['mean'], se[0], 'mse'),
                            (s['mean squared error']['stdev'], se[1],
                             'mse-stdev'),
                            (s['mean squared error']['rmse'],
                             math.sqrt(se[0]), 'rmse'),
                            (s['true']['mean'], tm[0], 'true-mean'),
                            (s['true']['stdev'], tm[1], 'true-stdev'),
                            (s['predicted']['mean'], pm[0],
                             'predicted-mean'),
                            (s['predicted']['stdev'], pm[1],
                             'predicted-stdev'),
                            (r['mean absolute error'], ae[0], 'report-mae'),
                            (r['root mean squared error'], math.sqrt(se[0]),
                             'report-rmse'),
                            (r['predicted']['mean'], pm[0],
                             'report-predicted-mean'),
                            (r['predicted']['stdev'], pm[1],
                             'report-predicted-stdev')):
                        expect(abs(float(got) - want) <= 1e-10 * max(
                            1., abs(want)), key, where, got=got, want=want)
                    judge_hist(s['predicted']['histogram'], w, lv, st, where)
                    t.ev()
                    t.sig((dom, n, few, pos, off))
        return
    if 'scale' in case:
        # predictions far outside the domain, and with a tiny deviation
        for far in (0., 1e3, 1e6, -1e6, 1e9):
            for step in (0., 1e-3, 1., 7.):
                b = np.array([far, far + step, far, far - step])
                a = np.array([float(lv[0]), float(lv[-1])] * 2)
                s = km.score_predictor_statistics(a, b, dom)
                r = km.score_predictor_report(a, b, disp=False)
                for q in (s, r):
                    for key, v in (('true', a), ('predicted', b)):
                        m, sd = moments([F(x) for x in v])
                        eps = 4e-15 * abs(v).max()
                        expect(abs(q[key]['mean'] - m) <= eps and
                               abs(q[key]['stdev'] - sd) <= eps, key,
                               domain=dom, values=v, got=q[key], want=(m, sd))
                d = [F(x) - F(y) for x, y in zip(a, b)]
                m, sd = moments([abs(x) for x in d])
                eps = 4e-15 * float(max(abs(x) for x in d))
                expect(abs(s['mean absolute error']['mean'] - m) <= eps and
                       abs(s['mean absolute error']['stdev'] - sd) <= eps
                       and abs(r['mean absolute error'] - m) <= eps,
                       'mae-scale', domain=dom, true=a, predicted=b, got=s)
                t.ev()
                t.sig((dom, far, step))
        return
    n = case['n']
    tl = lv if len(lv) <= 3 else [lv[0], lv[1], lv[-1]]
    i = 0
    for yt in itertools.product(tl, repeat=n):
        for yp in itertools.product(probes, repeat=n):
            i += 1
            if i % case['of'] != case['part']:
                continue
            a = np.array([float(x) for x in yt])
            b = np.array([float(x) for x in yp])
            before = ref.snapshot(a, b)
            s = km.score_predictor_statistics(a, b, score_domain=dom)
            where = 'domain=%r true=%r predicted=%r' % (
                dom, a.tolist(), b.tolist())
            expect(ref.snapshot(a, b) == before, 'arguments-changed', where)
            ae = moments([abs(x - y) for x, y in zip(yt, yp)])
            se = moments([(x - y) ** 2 for x, y in zip(yt, yp)])
            tm, pm = moments(yt), moments(yp)
            for got, want, key in (
                    (s['n_samples'], n, 'n_samples'),
                    (s['mean absolute error']['mean'], ae[0], 'mae'),
                    (s['mean absolute error']['stdev'], ae[1], 'mae-stdev'),
                    (s['mean squared error']['mean'], se[0], 'mse'),
                    (s['mean squared error']['stdev'], se[1], 'mse-stdev'),
                    (s['mean squared error']['rmse'], math.sqrt(se[0]),
                     'rmse'),
                    (s['true']['mean'], tm[0], 'true-mean'),
                    (s['true']['stdev'], tm[1], 'true-stdev'),
                    (s['predicted']['mean'], pm[0], 'predicted-mean'),
                    (s['predicted']['stdev'], pm[1], 'predicted-stdev')):
                expect(ref.feq(float(got), want, 1e-7), key, where, got=got,
                       want=want)
            expect(len(s['score levels']) == len(lv) and all(
                ref.feq(float(x), float(y)) for x, y in
                zip(s['score levels'], lv)), 'score-levels', where,
                got=s['score levels'])
            for side, v in (('true', yt), ('predicted', yp)):
                judge_hist(s[side]['histogram'], v, lv, st,
                           where + ' ' + side)
                expect(np.allclose(np.asarray(s[side]['histogram density'])
                                   * n, s[side]['histogram']), 'density',
                       where, side=side,
                       got=s[side]['histogram density'])
            with contextlib.redirect_stderr(io.StringIO()):
                r = km.score_predictor_report(a, b, disp=i % 2 == 0)
            for got, want, key in (
                    (r['n_samples'], n, 'n_samples'),
                    (r['mean absolute error'], ae[0], 'mae'),
                    (r['root mean squared error'], math.sqrt(se[0]), 'rmse'),
                    (r['true']['mean'], tm[0], 'true-mean'),
                    (r['true']['stdev'], tm[1], 'true-stdev'),
                    (r['predicted']['mean'], pm[0], 'predicted-mean'),
                    (r['predicted']['stdev'], pm[1], 'predicted-stdev')):
                expect(ref.feq(float(got), want, 1e-7), 'report-' + key,
                       where, got=got, want=want)
            t.ev()
            t.sig((dom, yt, yp))
    t.sample({'case': case, 'last': where})
