"""C06: binarize_score maps every score by the threshold, and nothing else."""
import itertools

import numpy as np

from mc import gen, huge, payload, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every score vector over the levels up to the length x domains x '
        'thresholds (default, levels, midpoints, outside) x score dtypes; '
        'scores, domain, levels, ids, events and features are compared with '
        'a list model.  Non-trivial: a distinct (domain, threshold, scores).')
BOUNDS = {'quick': 'length <=4 (float), <=3 (other types), 9 domains; '
          'vectors of 63-10001 scores', 'thorough': 'length <=6'}
ASSUMPTIONS = []

DOMAINS = [(1, 5, 1), (0, 4, 1), (0.5, 5.0, 0.5), (1, 4, 1), (0, 1, 1),
           (-2, 2, 1), (-5, -1, 1), (10, 30, 10), (0.1, 0.5, 0.1)]


def cases(tier):
    for c in huge.configs(tier):
        if tier == 'thorough' or c['huge'] % 4 == 1:
            yield c
    for n in gen.SIZES + gen.LARGE[:4 if tier == 'quick' else 7] + (10001,):
        yield {'large': n, 'domain': n % len(DOMAINS)}
    for sc in sorted(payload.SCORES):
        for n in (1, 2, 9, 40, 300):
            yield {'scores': sc, 'n': n}
    for di in range(len(DOMAINS)):
        for kind in ('float', 'int', 'list', 'float32', 'int8'):
            if kind in ('int', 'int8') and any(
                    float(x) != int(x) for x in DOMAINS[di]):
                continue
            for n in range(1, (5 if kind == 'float' else 4)
                           if tier == 'quick' else 7):
                yield {'domain': di, 'dtype': kind, 'n': n}


def scores(case, t):
    """scores of many types, thresholds at, beside and between them"""
    for (ot, n_ot), shape in itertools.product(payload.LAYOUT, (0, 2)):
        for evk, ok in (('obj', 'nested'), ('date', '3d'), ('nan', 'u8'),
                        (None, 'long'), ('bytes', None)):
            sc = payload.SCORES[case['scores']](np.arange(case['n']))
            lv = sorted(set(float(x) for x in sc))
            th = [None] + lv[:3] + lv[-2:] + [(a + b) / 2. for a, b in
                                              zip(lv, lv[1:])][:3]
            for thresh in th + [lv[0] - 1, lv[-1] + 1]:
                w = payload.World('EventWithScoreData', ot, n_ot, case['n'],
                                  evk, (ok,) * n_ot, case['scores'], shape)
                w.binarize(thresh)
                w.check('%r %r threshold=%r' % (case, ot, thresh))
                g = w.filter(np.arange(case['n']) % 3 != 1)
                g.check('filtered %r' % case)
                w.feature(0, 'f4')
                g.check('filtered %r' % case)
                t.ev()
            t.sig((case['scores'], case['n'], ot, shape, evk))
    t.sample({'case': case, 'thresholds': th})


def large(case, t):
    from kamrecsys.data import EventWithScoreData
    n, dom = case['large'], DOMAINS[case['domain']]
    nl = int(round((dom[1] - dom[0]) / dom[2])) + 1
    lv = [round(dom[0] + dom[2] * i, 10) for i in range(nl)]
    mid = (dom[0] + dom[1]) / 2.
    for ot, shape in (((0, 1), 0), ((1, 0), 1), ((0, 0), 2)):
        rows = gen.large_rows(n, ot, shape)
        ev = gen.event_array(rows, 'int', ot)
        evf = gen.event_feature(('struct', '1d', None)[shape], n)
        sc = np.array([lv[(i * 5 + i // nl) % nl] for i in range(n)])
        for thresh in (None, mid, lv[0], (lv[0] + lv[1]) / 2.):
            d = EventWithScoreData(n_otypes=2, event_otypes=ot)
            d.set_event(ev, sc, dom, event_feature=evf)
            r = ref.RefData(2, ot)
            r.set_event(ev, evf, sc, dom)
            f = gen.object_feature('2d', range(len(d.eid[0])))
            d.set_feature(0, d.eid[0].copy(), f)
            r.set_feature(0, d.eid[0], f)
            d.binarize_score(*([] if thresh is None else [thresh]))
            tt = mid if thresh is None else thresh
            r.score = [0 if s <= tt + 1e-12 else 1 for s in sc]
            r.domain = (0., 1., 1.)
            ref.compare(d, r, where='large %r %r' % (case, thresh))
            t.ev()
            t.sig((n, dom, ot, thresh))


def huge_case(case, t):
    for thresh in (None, 2, 3., 0, 4.5):
        w = huge.world(case, 'EventWithScoreData')
        for o in range(w.n_ot):
            w.set_feature(o, ('1d', '2d', 'struct')[o % 3])
        w.binarize(thresh)
        w.check('%r threshold=%r' % (case, thresh), False)
        t.ev()
        t.sig((repr(case), thresh))
    t.sample({'case': case})


def run(case, t):
    if 'huge' in case:
        return huge_case(case, t)
    if 'large' in case:
        return large(case, t)
    if 'scores' in case:
        return scores(case, t)
    from kamrecsys.data import EventWithScoreData
    dom = DOMAINS[case['domain']]
    nl = int(round((dom[1] - dom[0]) / dom[2])) + 1
    lv = [round(dom[0] + dom[2] * i, 10) for i in range(nl)]
    sub = lv if nl <= 5 else [lv[0], lv[3], lv[4], lv[5], lv[-1]]
    mid = (dom[0] + dom[1]) / 2.
    th = [None, mid, lv[0], lv[-1], lv[1], (lv[0] + lv[1]) / 2., dom[0] - 1,
          dom[1] + 1, mid + dom[2] / 4., mid - dom[2] / 4.]
    n = case['n']
    for sc in itertools.product(sub, repeat=n):
        for thresh in th:
            if case['dtype'] == 'list':
                arg = list(sc)
            else:
                arg = np.array(sc).astype(
                    {'float': float, 'int': int, 'float32': np.float32,
                     'int8': np.int8}[case['dtype']])
            if case['dtype'] == 'float32' and thresh is not None and any(
                    abs(s - thresh) < 1e-6 for s in sc):
                continue       # rounded scores are beside the threshold
            rows = [(i % 2, (i * 2 + 1) % 3) for i in range(n)]
            ev = gen.event_array(rows, 'int', (0, 1))
            evf = gen.event_feature('struct', n)
            d = EventWithScoreData()
            domarg = np.array(dom).astype(np.int8) \
                if case['dtype'] == 'int8' else dom
            d.set_event(ev, arg, domarg, event_feature=evf)
            f = gen.object_feature('2d', range(len(d.eid[0])))
            d.set_feature(0, d.eid[0].copy(), f)
            r = ref.RefData(2, (0, 1))
            r.set_event(ev, evf, sc, dom)
            r.set_feature(0, d.eid[0], f)
            if thresh is None:
                d.binarize_score()
            elif n % 2:
                d.binarize_score(thresh)
            else:
                d.binarize_score(score_thresh=thresh)
            tt = mid if thresh is None else thresh
            r.score = [0 if s <= tt + 1e-12 else 1 for s in sc]
            r.domain = (0., 1., 1.)
            ref.compare(d, r, where='domain=%r scores=%r threshold=%r' % (
                dom, sc, thresh))
            expect([int(x) for x in d.digitize_score()] == r.score,
                   'digitize-after-binarize')
            if thresh is None and n > 1:
                # binary scores stay as they are
                d.binarize_score()
                ref.compare(d, r, where='twice %r %r' % (dom, sc))
            t.ev()
        t.sig((dom, sc))
    t.sample({'domain': dom, 'dtype': case['dtype'], 'scores': sc})
