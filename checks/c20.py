"""C20: topic model predictions follow the published distributions."""
import itertools

import numpy as np

from mc import env, gen, models as M, plsa, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every layout x id kind x number of topics x method x score domain x '
        'number of training steps: the model is trained and every pair of '
        'known and unknown users and items is predicted, alone and in a '
        'batch, and compared with the expectation (or the set of most '
        'probable scores) computed from the published distributions.  '
        'Non-trivial: a distinct trained model and method.')
BOUNDS = {'quick': '15 layouts, 3 kinds, k in 1, 2, 3, 5, 2 limits; 1000 and '
                   '5000 and 30001 objects, 1001 levels',
          'thorough': '15 layouts, 8 kinds, k in 1..6, 4 limits'}
ASSUMPTIONS = []

DOMS = [(1., 5., 1.), (0.5, 5., .5), (0., 1., 1.), (-3., -1., 1.),
        (10, 30, 10)]


def cases(tier):
    th = tier == 'thorough'
    kinds = gen.KINDS if th else ('int', 'str', 'float', 'uint64', 'bytes')
    for li in range(len(M.LAYOUT)):
        for kind in kinds:
            for mode in (False, True):
                yield {'layout': li, 'kind': kind, 'mode': mode,
                       'ks': [1, 2, 3, 4, 5, 6] if th else [1, 2, 3, 5],
                       'limits': [0, 1, 5, 50] if th else [0, 7]}
    for n in (127, 129, 256, 300):
        yield {'layout': 1, 'kind': 'int', 'mode': False, 'ks': [2],
               'limits': [2], 'n': n}
    # probabilities of a pair, or of a score, become tiny
    for n in (1000, 5000):
        for mode in (False, True):
            yield {'layout': 0, 'kind': 'int', 'mode': mode, 'ks': [1, 2],
                   'limits': [1], 'n': n}
    for n in (30001,) + ((100001,) if th else ()):
        yield {'layout': 1, 'kind': 'int', 'mode': n % 7 == 0, 'ks': [2],
               'limits': [1], 'n': n}
    # hardly any smoothing, and all scores at one level (or at two)
    for mode in (False, True):
        for li in (0, 3, 7):
            for a in (1e-12, 1e-9, 1e-6, 1e-3, 100., 1e6):
                for at in ([0], [-1], [1], [0, -1], [0, 1]):
                    yield {'layout': li, 'kind': 'int', 'mode': mode,
                           'ks': [1, 3], 'limits': [0, 3], 'alpha': a,
                           'at': at}
    for mode in (False, True):
        yield {'layout': 0, 'kind': 'int', 'mode': mode, 'ks': [1, 3],
               'limits': [0, 3], 'n': 40, 'dom': (0., 1000., 1.)}


def run(case, t):
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    for k in case['ks']:
        dom = DOMS[(case['layout'] + k) % len(DOMS)]
        dom = case.get('dom', dom)
        nl = int(round((dom[1] - dom[0]) / dom[2])) + 1
        lv = [dom[0] + dom[2] * j for j in range(nl)]
        n = case.get('n', 3)
        rows = M.rows3(n + 6, n, s, k)
        sc = [lv[(i * 5 + i // 3) % nl] for i in range(len(rows))]
        if 'at' in case:
            at = [lv[x] for x in case['at']]
            sc = [at[(i + i // 3) % len(at)] for i in range(len(rows))]
        alpha = case.get('alpha', .1)
        c = M.Case('MultinomialPLSA', lay, case['kind'], rows,
                   score=(sc, dom))
        for lim in case['limits']:
            m = M.make('MultinomialPLSA' + (':mode' if case['mode'] else ''),
                       k=k, seed=k, maxiter=lim, tol=0., alpha=alpha)
            c.fit(m)
            r = plsa.Ref(c, alpha, k, lv)
            par = r.read(m)
            us, it = r.us, r.it
            if n > 10:
                us, it = us[:3] + us[-2:], it[:2] + it[-3:]
            un = c.unknown()
            pairs = [(u, i) for u in us + un for i in it + un]
            q = [c.query(u, i) for u, i in pairs]
            got = np.asarray(m.predict(np.array(
                q, dtype=gen.QDTYPE[case['kind']])), dtype=float)
            where = '%r k=%d limit=%d' % (lay, k, lim)
            expect(got.shape == (len(q),), 'shape', where)
            for j, (u, i) in enumerate(pairs):
                w = r.predict(par, u, i, case['mode'])
                g = float(got[j])
                one = float(m.predict(np.array(
                    q[j], dtype=gen.QDTYPE[case['kind']])))
                ok = any(ref.feq(g, x) for x in w) if case['mode'] else \
                    ref.feq(g, w)
                expect(ok, 'prediction', where, query=q[j], got=g, want=w)
                expect(ref.feq(one, g), 'single', where, query=q[j],
                       got=one, want=g)
                expect(lv[0] - 1e-9 <= g <= lv[-1] + 1e-9, 'range', where,
                       got=g)
                t.ev()
            # many queries at once, in blocks of any size
            if lim and n < 50 and case['kind'] == 'int':
                for z in (1001, 1025, 4097):
                    j = (np.arange(z) * 7 + np.arange(z) // 5) % len(q)
                    many = np.asarray(m.predict(np.array(q)[j]), dtype=float)
                    bad = ~np.isclose(many, got[j], rtol=1e-9, atol=1e-12)
                    expect(many.shape == (z,) and not bad.any(), 'many',
                           where, queries=z, got=many[bad][:3],
                           want=got[j][bad][:3])
                    t.ev()
            t.sig((repr(case), k, lim))
    t.sample({'case': case, 'last query': repr(q[-1]), 'got': g})
