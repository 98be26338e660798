"""C18: implicit item finders train on the set of observed pairs."""
import itertools

import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every list of events up to the length over a small set of objects '
        '(all repetitions and orders), in several layouts, with and without '
        'scores: during the fit the feedback matrix in every format, the '
        'objective and the gradient at two points are compared with the '
        'documented ones of the set of observed pairs over all known pairs; '
        'fits to reordered and repeated events publish the same parameters.  '
        'Non-trivial: a distinct (layout, event list).')
BOUNDS = {'quick': '<=3 events over 3x3 pairs, 4 with repetitions; one pair up to 65540 times; 6 '
                   'layouts', 'thorough': '<=4 events over 3x3 pairs, 5 over '
                   '2x2; 15 layouts'}
ASSUMPTIONS = []


def cases(tier):
    th = tier == 'thorough'
    for li in range(len(M.LAYOUT)) if th else (0, 2, 4, 6, 8, 11):
        for n in (1, 2, 3, 4) if th else (1, 2, 3):
            for first in range(9) if n > 2 else (None,):
                yield {'layout': li, 'n': n, 'obj': 3, 'first': first}
        yield {'layout': li, 'n': 5 if th else 4, 'obj': 2, 'first': None}
    for n in (126, 127, 128, 129, 255, 256, 257, 300, 1025, 4097, 65540):
        yield {'repeat': n}


def judge(c, t, where, deep=False):
    seen = {}
    m = M.make('ImplicitLogisticPMF', k=1, C=.4)

    def hook(fun, x0, **kw):
        f, g = env.closure(fun, x0, kw)
        pts = [M.spread(len(x0), 1, .5), np.array(x0, dtype=float)]
        for form in ('array', 'csr', 'csc', 'lil'):
            a, nobj = m.get_event_array(form)
            seen[form] = np.array(a if form == 'array' else a.toarray())
        seen['f'] = [f(x) for x in pts]
        seen['g'] = [g(x) for x in pts] if g else None
        if g and deep:
            # the gradient is that of the objective over all known pairs
            x = pts[0]
            for z in range(len(x0)):
                e = np.zeros(len(x0))
                e[z] = 1e-3
                num = (8 * (f(x + e) - f(x - e)) -
                       (f(x + 2 * e) - f(x - 2 * e))) / 12e-3
                expect(abs(num - seen['g'][0][z]) < 1e-6 * max(
                    1., abs(num)), 'gradient', where, coordinate=z,
                    got=seen['g'][0][z], want=num)
        seen['iid'] = [dict((u, m.to_iid(c.types[j], u))
                            for u in c.objects(c.types[j]))
                       for j in range(2)]
        return env.result(pts[0], seen['f'][0])
    if not c.fit(m, hook):
        return None, m
    us, it = c.objects(c.types[0]), c.objects(c.types[1])
    pos = set(c.pairs())
    for form in ('array', 'csr', 'csc', 'lil'):
        a = seen[form]
        expect(a.shape == (len(us), len(it)), 'matrix-shape', where,
               format=form, got=a.shape)
        for u in us:
            for i in it:
                v = a[seen['iid'][0][u], seen['iid'][1][i]]
                expect(v == ((u, i) in pos), 'matrix', where, format=form,
                       user=u, item=i, got=v)
    want = M.objective(m, c, .4)
    expect(ref.feq(seen['f'][0], want, 1e-7), 'objective', where,
           got=seen['f'][0], want=want)
    t.ev()
    return seen, m


def same(a, b):
    return ref.feq(a['f'][0], b['f'][0]) and ref.feq(a['f'][1], b['f'][1]) \
        and (a['g'] is None or all(np.allclose(x, y, atol=1e-9) for x, y in
                                   zip(a['g'], b['g'])))


def run(case, t):
    if 'repeat' in case:
        # many repetitions of one event
        rows = [(0, 0)] * case['repeat'] + [(1, 1), (2, 0), (0, 1)]
        c = M.Case('ImplicitLogisticPMF', M.LAYOUT[0], 'int', rows)
        s1, m1 = judge(c, t, repr(case))
        c = M.Case('ImplicitLogisticPMF', M.LAYOUT[0], 'int', rows[-4:])
        s2, m2 = judge(c, t, repr(case))
        expect(s1 is None or same(s1, s2), 'repetition', repr(case))
        t.sig(repr(case))
        return
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    n, no = case['n'], case['obj']
    kind = ('int', 'str', 'neg')[case['layout'] % 3]
    pairs = list(itertools.product(range(no), repeat=2))
    a, b = M.index_of(lay)
    canon = {}
    for combo in itertools.product(range(len(pairs)), repeat=n):
        if case['first'] is not None and combo[0] != case['first']:
            continue
        rows = []
        for z, j in enumerate(combo):
            r = [0] * s
            r[a], r[b] = pairs[j]
            rows.append(tuple(r))
        c = M.Case('ImplicitLogisticPMF', lay, kind, rows)
        where = 'layout=%r events=%r' % (lay, c.events)
        seen, m = judge(c, t, where, frozenset(combo) not in canon)
        if seen is not None:
            key = frozenset(combo)
            if key in canon:
                expect(same(seen, canon[key]), 'order-or-repetition', where)
            else:
                canon[key] = seen
                # scores do not matter
                c2 = M.Case('ImplicitLogisticPMF', lay, kind, rows, score=(
                    [float(z % 5) + 1 for z in range(n)], (1., 5., 1.)))
                s2, m2 = judge(c2, t, where + ' scored')
                expect(same(seen, s2), 'scores-matter', where)
        t.sig((case['layout'], combo))
    t.sample({'case': case, 'last events': c.events})
