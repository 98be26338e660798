"""C19: topic model training performs exact EM steps."""
import itertools

import numpy as np

from mc import env, gen, models as M, plsa, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('the training is a transition system whose states are the published '
        'distributions: the state after n steps is observed by training with '
        'limit n and tolerance 0, for every n up to the depth.  For every '
        'training set, layout, number of topics, smoothing and seed each '
        'state is compared with the reference EM step of the preceding one; '
        'in each state the invariants (normalised, positive, expected counts '
        'add up to observed counts, reported loss is the likelihood) hold '
        'and the penalised likelihood does not decrease.  A trace is one '
        'complete trajectory.')
BOUNDS = {'quick': 'depth 6; all event lists of 2 events over 2x2x2 and '
                   '15 layouts; k in 1..3; alpha in 1, 0.3, 10; event counts '
                   'around powers of 2 and 10 to 4097',
          'thorough': 'depth 25; lists of 3 events; k in 1..5; event '
                      'counts to 32769'}
ASSUMPTIONS = ['alpha > 0']

DOMS = [(1., 5., 1.), (0.5, 2.5, .5), (0., 1., 1.), (-2., 2., 2.)]


def cases(tier):
    th = tier == 'thorough'
    for li in range(len(M.LAYOUT)):
        for k in (1, 2, 3, 4, 5) if th else (1, 2, 3):
            for a in (1., .3, 10., 1e-3) if th else (1., .3, 10.):
                yield {'layout': li, 'k': k, 'alpha': a,
                       'depth': 25 if th else 6}
    ev = list(itertools.product(range(2), range(2), range(2)))
    for first in ev:
        for n in (2, 3) if th else (2,):
            yield {'events': n, 'first': first, 'depth': 12 if th else 5}
    for n in (130, 257):
        yield {'layout': 1, 'k': 2, 'alpha': 1., 'depth': 3, 'n': n}
    # numbers of events around powers of two and of ten
    for p in (16, 32, 64, 100, 128, 192, 200, 256, 500, 512, 1000, 1024,
              2048, 4096) + ((8192, 10000, 16384, 32768) if th else ()):
        for n in (p - 1, p, p + 1):
            yield {'long': n, 'k': 2, 'alpha': .7, 'depth': 2}
    for n in ((1500, 3000, 5000, 20000) if th else (1500, 5000)):
        yield {'broad': n}
    # two columns of one type: some objects occur in only one of them
    for li in range(len(M.LAYOUT)):
        if len(set(M.LAYOUT[li][0])) < len(M.LAYOUT[li][0]):
            for shift in (1, 2, 3):
                yield {'layout': li, 'k': 2, 'alpha': .5, 'depth': 4,
                       'shift': shift}
    # late steps are as exact as the first ones
    for a in (1e-6, 1e-3, .5):
        for late in ((51, 63, 64, 100, 101, 128, 200) + (
                (256, 500, 1000, 1001) if th else ())):
            yield {'late': late, 'alpha': a}
    for k in (1, 4):
        for a in (1., .2):
            for n in (1, 7, 40):
                yield {'long': n, 'k': k, 'alpha': a,
                       'depth': 60 if th else 20}


def trajectory(c, alpha, k, seed, depth, t, where, start=0):
    lv = [c.dom[0] + c.dom[2] * j for j in range(
        int(round((c.dom[1] - c.dom[0]) / c.dom[2])) + 1)]
    r = plsa.Ref(c, alpha, k, lv)
    prev = None
    for n in range(start, depth + 1):
        m = M.make('MultinomialPLSA', k=k, seed=seed, alpha=alpha, tol=0.,
                   maxiter=n)
        c.fit(m)
        par = r.read(m)
        shape = (np.shape(m.pZ_), np.shape(m.pRgZ_))
        expect(shape == ((k,), (len(lv), k)), 'shape', where, got=shape)
        w = '%s k=%d alpha=%r seed=%d step=%d' % (where, k, alpha, seed, n)
        bad = r.consistent(par)
        expect(bad is None, 'invariant', w, problem=bad)
        L = r.loss(par)
        expect(ref.feq(float(m.fit_results_['final_loss']), L, 1e-8),
               'final_loss', w, got=m.fit_results_['final_loss'], want=L)
        pen = r.penalised(par)
        if prev is None:
            first = L
        else:
            want = r.step(prev[0])
            a, b = r.flat(par), r.flat(want)
            expect(np.allclose(a, b, rtol=1e-7, atol=1e-10), 'em-step', w,
                   got=a[:8].tolist(), want=b[:8].tolist())
            expect(pen >= prev[1] - 1e-8 * max(1., abs(pen)),
                   'penalised-likelihood-decreases', w, got=pen,
                   before=prev[1])
            t.step()
        expect(start or ref.feq(float(m.fit_results_['initial_loss']), first,
                                1e-8), 'initial_loss', w, got=m.fit_results_['initial_loss'],
               want=first)
        t.state((r.flat(par).round(12).tobytes(), repr(c.events)))
        prev = par, pen
    t.trace()
    t.ev()
    return par


def run(case, t):
    if 'events' in case:
        ev = list(itertools.product(range(2), range(2), range(2)))
        for rest in itertools.product(ev, repeat=case['events'] - 1):
            lst = [tuple(case['first'])] + list(rest)
            c = M.Case('MultinomialPLSA', M.LAYOUT[0], 'int',
                       [e[:2] for e in lst],
                       score=([float(e[2]) + 1 for e in lst], (1., 3., 1.)))
            par = trajectory(c, 1., 2, 1, case['depth'], t, repr(lst))
        t.sample({'case': case, 'last list': lst, 'pZ': par[0]})
        return
    if 'late' in case:
        n = case['late']
        for cols, ne in (((4, 5), 12), ((7, 6), 40)):
            rows = [((i * i) % cols[0], (i * 3 + i // 4) % cols[1])
                    for i in range(ne)]
            sc = [float((r[0] + r[1] + i) % 5 + 1)
                  for i, r in enumerate(rows)]
            c = M.Case('MultinomialPLSA', M.LAYOUT[0], 'int', rows,
                       score=(sc, (1., 5., 1.)))
            for k in (2, 3):
                par = trajectory(c, case['alpha'], k, 3, n + 1, t,
                                 repr(case), n - 1)
        t.sample({'case': case, 'pZ': par[0]})
        return
    if 'broad' in case:
        # as many users and items as events: tiny probabilities
        n = case['broad']
        rows = [(i, (i * 7 + i // 3) % (n - 1)) for i in range(n)]
        sc = [float((i * 3) % 5 + 1) for i in range(n)]
        c = M.Case('MultinomialPLSA', M.LAYOUT[0], 'int', rows,
                   score=(sc, (1., 5., 1.)))
        par = trajectory(c, 1., 3, 3, 2, t, repr(case))
        t.sample({'case': case, 'pZ': par[0]})
        return
    if 'long' in case:
        n = case['long']
        rows = [((i * i) % 5, (i * 3 + i // 4) % 6) for i in range(n)]
        sc = [float((r[0] + r[1] + i) % 5 + 1) for i, r in enumerate(rows)]
        c = M.Case('MultinomialPLSA', M.LAYOUT[0], 'int', rows,
                   score=(sc, (1., 5., 1.)))
        par = trajectory(c, case['alpha'], case['k'], 3, case['depth'], t,
                         repr(case))
        t.sample({'case': case, 'pZ': par[0]})
        return
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    kind = ('int', 'str', 'neg')[case['layout'] % 3]
    dom = DOMS[case['layout'] % len(DOMS)]
    nl = int(round((dom[1] - dom[0]) / dom[2])) + 1
    n = case.get('n', 3)
    rows = M.rows3(n + 5, n, s, case['layout'])
    if 'shift' in case:
        rows = [tuple(x + case['shift'] * (ci if case['shift'] != 3
                                           else s - 1 - ci)
                      for ci, x in enumerate(r)) for r in rows]
    sc = [dom[0] + dom[2] * ((i * 3 + i // 2) % nl)
          for i in range(len(rows))]
    for seed in (1, 2):
        c = M.Case('MultinomialPLSA', lay, kind, rows, score=(sc, dom))
        par = trajectory(c, case['alpha'], case['k'], seed, case['depth'],
                         t, repr(lay))
    t.sample({'case': case, 'pZ': par[0]})
