"""C17: explicit item finders accept exactly binary scores."""
import itertools

import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every score vector over {0, 1, 2, -1, 0.5} up to the length x every '
        'domain of a list x score types is given to the explicit item '
        'finder; it must be accepted iff the domain is (0, 1, 1) and both 0 '
        'and 1 and nothing else occur; and after fits under an optimizer '
        'that answers moderate, huge and tiny parameters all predictions are '
        'finite and strictly between 0 and 1.  Non-trivial: a distinct '
        '(domain, scores) or parameter vector.')
BOUNDS = {'quick': 'length <=4, 19 domains, 4 types; 63-65537 scores; '
                   '20 scales x 4 signs',
          'thorough': 'length <=6, 19 domains, 4 types; 40 scales x 8 signs'}
ASSUMPTIONS = ['parameters are finite and small enough for logits not to '
               'be NaN']

DOMAINS = [(0, 1, 1), (0., 1., 1.), [0, 1, 1], (0, 2, 1), (0, 1, .5),
           (-1, 1, 1), (1, 5, 1), (0, 2, 2),
           (0., .5, .5), (0, 1, 2), (0, -1, -1), (1, 1, 1), (0, 0, 1),
           (1, 0, 1), (0, 1, 1 + 1e-3), (1e-3, 1, 1), (0, 1.5, 1),
           np.array([0, 2, 1]), np.array([0, 1, 1], dtype=np.int8)]
VALUES = [0., 1., 2., -1., .5]
# domains and scores that differ from the binary ones by rounding only
NEAR_DOMAINS = [(0, 1 + e, 1) for e in (2.3e-16, -1.2e-16, 1e-12, 1e-9)] + [
    (0, 1, 1 + e) for e in (2.3e-16, -1.2e-16, 1e-12, -1e-9, 1e-6)] + [
    (e, 1, 1) for e in (5e-324, 1e-17, -1e-12, 1e-9, 1e-6)]
DOMAINS += NEAR_DOMAINS
NEAR = [5e-324, 1e-300, 1e-17, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4,
        1e-3]


def near(case, t):
    from kamrecsys import data as kd
    ev = np.array([[i % 3, (i * 2) % 4] for i in range(5)])
    for e in case['near']:
        for sgn, at, dt in itertools.product((1, -1), (0., 1.), (
                float, np.float32, np.longdouble)):
            v = np.asarray(at + sgn * e).astype(dt)
            for sc in ([0, 1, v, 1, 0], [1 - at, v, v, v, 1 - at],
                       [v, 0, 1, 1, 1], [0, 1, 0, 1, v]):
                sc = np.array(sc, dtype=dt)
                d = kd.EventWithScoreData()
                d.set_event(ev, sc, (0, 1, 1))
                m = M.make('LogisticPMF')
                want = bool(np.all((sc == 0) | (sc == 1)) and
                            np.any(sc == 0) and np.any(sc == 1))
                try:
                    with env.controlled(M.quick_hook(1)):
                        m.fit(d)
                    got = True
                except ValueError:
                    got = False
                expect(got == want, 'acceptance', scores=sc.tolist(),
                       type=dt, accepted=got)
                t.ev()
                t.sig((sc.tolist(), str(dt)))
    t.sample({'case': case})


def cases(tier):
    th = tier == 'thorough'
    for di in range(len(DOMAINS)):
        for n in range(1, 7 if th else 5):
            for first in VALUES if n > 3 else [None]:
                yield {'domain': di, 'n': n, 'first': first}
    for di in range(-len(NEAR_DOMAINS), 0):
        yield {'domain': di, 'n': 3, 'first': None}
    yield {'near': NEAR}
    for n in gen.SIZES + gen.LARGE + (10001, 65537):
        yield {'large': n}
    for name in ('LogisticPMF', 'ImplicitLogisticPMF'):
        for k in (1, 2, 3):
            yield {'model': name, 'k': k, 'scales': 40 if th else 20}


def run(case, t):
    from kamrecsys import data as kd
    if 'model' in case:
        name = case['model']
        c = M.Case(name, M.LAYOUT[0], 'int', M.rows3(6, 3, 2), 1)
        us, it = c.objects(c.types[0]), c.objects(c.types[1])
        un = c.unknown()[:1]
        q = np.array([c.query(u, i) for u in us + un for i in it + un])
        for j in range(case['scales']):
            for sign in range(8):
                def hook(fun, x0, **kw):
                    n = len(x0)
                    x = M.spread(n, sign, 10. ** (j * 140. /
                                                  case['scales'] - 3))
                    if sign % 4 == 1:
                        x = np.abs(x)
                    elif sign % 4 == 2:
                        x = -np.abs(x)
                    elif sign % 4 == 3:
                        x[1:] = 0.
                    hook.x = x
                    return env.result(x, 1.)
                m = M.make(name, k=case['k'])
                c.fit(m, hook)
                p = np.array(m.predict(q))
                expect(np.all(np.isfinite(p)) and np.all(p > 0.) and
                       np.all(p < 1.), 'not-a-probability', name,
                       got=p.tolist())
                t.ev()
                t.sig((name, case['k'], j, sign, p.tobytes()))
        t.sample({'case': case, 'predictions': p.tolist()[:3]})
        return
    if 'near' in case:
        return near(case, t)
    if 'large' in case:
        n = case['large']
        ev = np.array(gen.large_rows(n, (0, 1), 1))
        for dt in (float, int):
            for bad in (None, 0., 1., 2., -1., .5):
                for pos in (0, n // 2, n - 1):
                    sc = np.arange(n) % 2
                    if bad in (0., 1.):
                        sc[:] = bad       # a single 0 or 1, or none
                        sc[pos] = 1 - bad if pos else bad
                        want = pos != 0
                    else:
                        want = bad is None
                    if bad == .5 and dt is int:
                        continue
                    sc = sc.astype(dt)
                    if bad in (2., -1., .5):
                        sc[pos] = bad
                    d = kd.EventWithScoreData()
                    d.set_event(ev, sc, (0, 1, 1))
                    m = M.make('LogisticPMF')
                    try:
                        with env.controlled(M.quick_hook(1)):
                            m.fit(d)
                        got = True
                    except ValueError:
                        got = False
                    expect(got == want, 'acceptance', large=n, value=bad,
                           position=pos, type=dt, accepted=got)
                    t.ev()
                    t.sig((n, bad, pos, str(dt)))
        t.sample({'case': case})
        return
    dom = DOMAINS[case['domain']]
    n = case['n']
    ev = np.array([[i % 3, (i * 2) % 4] for i in range(n)])
    for sc in itertools.product(VALUES, repeat=n):
        if case['first'] is not None and sc[0] != case['first']:
            continue
        for dt in (float, np.float32, int, 'list'):
            if dt is int and .5 in sc:
                continue
            s = list(sc) if dt == 'list' else np.array(sc).astype(dt)
            d = kd.EventWithScoreData()
            try:
                d.set_event(ev, s, dom)
            except Exception:
                # a descending domain need not be representable at all
                if dom[0] > dom[1] or dom[2] <= 0:
                    got = False
                    t.ev()
                    continue
                raise
            m = M.make('LogisticPMF')
            want = tuple(float(x) for x in dom) == (0., 1., 1.) and \
                set(sc) == {0., 1.}
            try:
                with env.controlled(M.quick_hook(1)):
                    m.fit(d)
                got = True
            except ValueError:
                got = False
            expect(got == want, 'acceptance', domain=dom, scores=sc,
                   type=dt, accepted=got)
            if got:
                p = np.array(m.predict(ev))
                expect(p.shape == (n,) and np.all((p > 0) & (p < 1)),
                       'not-a-probability', scores=sc)
            t.ev()
        t.sig((dom, sc))
    t.sample({'case': case, 'last scores': sc, 'accepted': got})
