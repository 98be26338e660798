"""C05: score levels, histogram bins, digitized scores and inferred domains."""
from fractions import Fraction as F

import numpy as np

from mc import ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every score domain of the grid (minimum x stride x number of levels, '
        'as rounded decimals and as accumulated floats, in several container '
        'types) is stored in a container whose scores are all levels, all '
        'midpoints, and points beside them; levels, bins and digitized '
        'scores are compared with exact rational arithmetic.  Non-trivial: '
        'a distinct (minimum, stride, count).')
BOUNDS = {'quick': '16 strides x 7 minima x 2..41 levels (and 100, 101, 256; 511-4097)',
          'thorough': '16 strides x 7 minima x 1..200 levels (and 256..65537)'}
ASSUMPTIONS = ['the stride divides the range up to rounding errors',
               'a score in the middle of two levels may take either unless '
               'the middle is computed exactly']

STRIDES = ['1', '2', '3', '7', '0.5', '0.25', '0.1', '0.2', '0.3', '0.7',
           '0.01', '0.05', '0.6', '10', '1/3', '1/7']
MINIMA = ['0', '1', '-2', '0.5', '1.1', '0.1', '-0.3']
TYPES = ('tuple', 'list', 'array', 'int', 'float32')


def cases(tier):
    ns = list(range(2, 42)) + [100, 101, 256] if tier == 'quick' else \
        list(range(1, 201)) + [256, 257, 500, 1001]
    for s in STRIDES:
        for m in MINIMA:
            for i in range(0, len(ns), 20):
                yield {'stride': s, 'min': m, 'n': ns[i:i + 20]}
    # many levels
    for s, m in (('1', '1'), ('0.1', '0.1'), ('3', '-2'), ('0.25', '0')):
        for n in (511, 513, 1023, 1025, 2049, 4097) + (
                (10001, 32769, 65537) if tier == 'thorough' else ()):
            yield {'stride': s, 'min': m, 'n': [n]}
    for n in (11, 101, 1001, 4097, 5001, 10001, 65537, 100001) + (
            (1000001,) if tier == 'thorough' else ()):
        yield {'many': n}
    for k in ('float', 'float32', 'int', 'int8', 'uint8'):
        for part in range(4):
            yield {'infer': k, 'part': part}


def variants(lo, st, n):
    hi = lo + st * (n - 1)
    yield 'tuple', (float(lo), float(hi), float(st))
    yield 'list', [float(lo), float(lo) + (n - 1) * float(st), float(st)]
    acc = float(lo)
    for _ in range(n - 1):
        acc += float(st)
    yield 'array', np.array([float(lo), acc, float(st)])
    if all(x.denominator == 1 for x in (lo, hi, st)):
        yield 'int', (int(lo), int(hi), int(st))
        yield 'ints', np.array([int(lo), int(hi), int(st)])
        if max(abs(lo), abs(hi)) < 128:
            yield 'int8', np.array([int(lo), int(hi), int(st)], dtype='i1')
    if n <= 60:
        yield 'float32', np.array([float(lo), float(hi), float(st)],
                                  dtype=np.float32)


def run(case, t):
    if 'infer' in case:
        return infer(case, t)
    if 'many' in case:
        return many(case, t)
    st, lo = F(case['stride']), F(case['min'])
    for n in case['n']:
        for name, dom in variants(lo, st, n):
            one(lo, st, n, name, dom, t)
        t.sig((case['stride'], case['min'], n))
    t.sample({'domain': repr(dom), 'levels': n})


def close(a, b, st, name):
    tol = 1e-3 if name == 'float32' else 1e-9
    return abs(a - b) <= tol * max(float(st), abs(b) * 1e-3, 1e-6)


def one(lo, st, n, name, dom, t):
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.metrics import generate_score_bins, \
        generate_score_levels
    where = 'domain=%r (%s)' % (dom, name)
    levels = [float(lo + st * i) for i in range(n)]
    eps = float(st) * 0.01
    scores, want = [], []
    for i, v in enumerate(levels):
        for x in (v, v - 40 * eps, v + 40 * eps, v - eps, v + eps):
            scores.append(x)
            want.append(i)
    scores += [levels[0] - 3 * float(st), levels[-1] + 5 * float(st),
               levels[0] - 1e6, levels[-1] + 1e6]
    want += [0, n - 1, 0, n - 1]
    m = len(scores)
    d = EventWithScoreData()
    keep = ref.snapshot(dom)
    d.set_event(np.array([[i, i % 3] for i in range(m)]), np.array(scores),
                score_domain=dom)
    expect(ref.snapshot(dom) == keep, 'argument-modified', where)
    t.ev()
    expect(d.n_score_levels == n, 'n_score_levels', where,
           got=d.n_score_levels, want=n)
    for i, (a, b) in enumerate(zip(d.score_domain,
                                   (lo, levels[-1], float(st)))):
        expect(close(float(a), float(b), st, name), 'score_domain', where)
    got = [float(x) for x in d.get_score_levels()]
    expect(len(got) == n and
           all(close(a, b, st, name) for a, b in zip(got, levels)),
           'score-levels', where, got=got[:4], want=levels[:4])
    for bins in (d.generate_score_bins(), generate_score_bins(dom)):
        expect(len(bins) == n + 1, 'n-bins', where, got=len(bins))
        expect(bins[0] == -np.inf and bins[-1] == np.inf, 'outer-bins',
               where)
        mids = [float(lo + st * i + st / 2) for i in range(n - 1)]
        expect(all(close(float(a), b, st, name)
                   for a, b in zip(bins[1:-1], mids)), 'inner-bins', where,
               got=list(bins[:4]), want=mids[:3])
    for got in (d.digitize_score(), d.digitize_score(np.array(scores)),
                d.digitize_score(np.array(scores)[::-1])[::-1]):
        got = [int(x) for x in got]
        bad = [(scores[i], got[i], want[i]) for i in range(m)
               if got[i] != want[i]]
        expect(not bad, 'digitize', where, wrong=bad[:3])
    # what is returned belongs to the caller
    calls = [d.generate_score_bins, d.get_score_levels, d.digitize_score,
             lambda: d.digitize_score(np.array(scores)),
             lambda: generate_score_bins(dom),
             lambda: generate_score_levels(dom)]
    keep = [ref.snapshot(f()) for f in calls]
    for f in calls:
        ref.spoil(f())
    expect([ref.snapshot(f()) for f in calls] == keep, 'result-shared',
           where)
    if all(x.denominator == 1 for x in (lo, st)) and n < 60:
        # the scores to digitize need not be of the type of those stored
        for dt in (int, np.int32, np.float64, np.int16):
            if dt is np.int16 and abs(float(lo + st * n)) > 3e4:
                continue
            e = EventWithScoreData()
            e.set_event(np.array([[i, 0] for i in range(n)]),
                        np.array(levels).astype(dt), score_domain=dom)
            for arg in (np.array(scores), list(scores),
                        np.array(scores, dtype=np.float32)):
                got = [int(x) for x in e.digitize_score(arg)]
                bad = [(scores[i], got[i], want[i]) for i in range(m)
                       if got[i] != want[i]]
                expect(len(got) == m and not bad, 'digitize-other-type',
                       where, stored=dt, wrong=bad[:3])
            got = [int(x) for x in e.digitize_score()]
            expect(got == list(range(n)), 'digitize', where, stored=dt,
                   got=got)
    got = d.digitize_score(np.array([float(lo + st * i + st / 2)
                                     for i in range(n)]))
    expect(all(g in (i, min(i + 1, n - 1)) for i, g in enumerate(got)),
           'digitize-midpoint', where)
    if all(x.denominator in (1, 2, 4) for x in (lo, st)):
        # boundaries without rounding errors: the bin above, as in histograms
        bad = [(i, g) for i, g in enumerate(got) if g != min(i + 1, n - 1)]
        expect(not bad, 'digitize-boundary', where, wrong=bad[:3])


def many(case, t):
    """no domain is given for many scores; some levels are rare"""
    from kamrecsys.data import EventWithScoreData
    n = case['many']
    for lo, st in (('1', '1'), ('0.5', '0.5'), ('-2', '0.1')):
        lo, st = F(lo), F(st)
        for rare in ((1,), (7,), (8,), (-1,), (1, 2, 3, 5)):
            for at in (0, n // 2, n - len(rare)):
                lev = [(i * 2 + i // 9 * 2) % 8 for i in range(n)]
                lev[:4] = [0, 2, 4, 6]
                lev[at:at + len(rare)] = rare
                sc = np.array([float(lo + st * j) for j in range(-1, 9)])[
                    np.array(lev) + 1]
                have = sorted(set(lev))
                gap = min(b - a for a, b in zip(have, have[1:]))
                want = [lo + st * have[0], lo + st * have[-1], st * gap]
                d = EventWithScoreData()
                d.set_event(np.stack([np.arange(n) % 50, np.arange(n) % 7],
                                     axis=1), sc)
                got = [float(x) for x in d.score_domain]
                where = 'n=%d min=%s stride=%s rare=%r at %d' % (
                    n, lo, st, rare, at)
                expect(all(abs(a - b) < 1e-7 for a, b in zip(got, want)),
                       'inferred-domain', where, got=got, want=want)
                expect((have[-1] - have[0]) % gap or d.n_score_levels == (
                    have[-1] - have[0]) // gap + 1, 'inferred-levels', where,
                    got=d.n_score_levels)
                t.ev()
                t.sig((n, str(lo), rare, at))
    t.sample({'case': case})


def infer(case, t):
    """no domain is given: minimum, maximum, and the smallest gap"""
    from kamrecsys.data import EventWithScoreData
    k = case['infer']
    sets = []
    for n in range(2, 12):
        for skip in range(0, n - 1):
            # level n//2 .. may be missing, but one adjacent pair remains
            lv = [i for i in range(n) if not (0 < i <= skip - 1)]
            if min(b - a for a, b in zip(lv, lv[1:])) == 1:
                sets.append(lv)
    params = {'float': [('0.1', '0.1'), ('1', '0.5'), ('-2', '1'),
                        ('0', '1/3'), ('1', '0.2'), ('0.5', '0.7')],
              'float32': [('0.1', '0.1'), ('1', '0.5'), ('0', '0.3')],
              'int': [('1', '1'), ('0', '5'), ('-3', '2')],
              'int8': [('1', '1'), ('-100', '20'), ('-120', '21')],
              'uint8': [('0', '20'), ('100', '15')]}[k]
    dt = {'float': float, 'float32': np.float32, 'int': int,
          'int8': np.int8, 'uint8': np.uint8}[k]
    for lo, st in params:
        lo, st = F(lo), F(st)
        for j, lv in enumerate(sets):
            if j % 4 != case['part']:
                continue
            base = [lo + st * i for i in lv]
            for order in (base, base[::-1], base[1::2] + base[0::2],
                          base + base[:1]):
                sc = np.array([float(x) for x in order]).astype(dt)
                d = EventWithScoreData()
                d.set_event(np.array([[i, 0] for i in range(len(sc))]), sc)
                where = 'scores=%r' % (sc,)
                n = int((max(base) - min(base)) / st) + 1
                expect(d.n_score_levels == n, 'inferred-levels', where,
                       got=d.n_score_levels, want=n)
                dom = [float(x) for x in d.score_domain]
                tol = 1e-5
                expect(abs(dom[0] - min(base)) < tol and
                       abs(dom[1] - max(base)) < tol and
                       abs(dom[2] - st) < tol, 'inferred-domain', where,
                       got=dom)
                got = [int(x) for x in d.digitize_score()]
                want = [int((x - min(base)) / st) for x in order]
                expect(got == want, 'inferred-digitize', where, got=got,
                       want=want)
                t.ev()
                t.sig((str(lo), str(st), tuple(lv)))
    t.sample({'kind': k, 'levels': sets[-1]})
