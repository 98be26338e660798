"""C12: the gradient used in training is the derivative of the objective."""
import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect
from checks import c11

LEVEL = 'exploration'
RULE = ('every model x event layout x number of factors x C x training set '
        'is fitted under a controlled optimizer that compares the gradient '
        'it is handed with a five point difference stencil of the objective '
        'it is handed, along every coordinate, at every point of a set of '
        'parameter vectors.  Non-trivial: a distinct gradient.')
BOUNDS = {'quick': '15 layouts, k in 1, 2, C in 0, 0.7, 3 training sets, '
                   '6 points; k to 65; C from 1e-6 to 300; 260 objects; '
                   '65-65537 events',
          'thorough': '15 layouts, k in 1..4, C in 0, 0.7, 5, 4 training '
                      'sets, 8 points'}
ASSUMPTIONS = ['logits of the points stay below 30, beyond which the '
               'logistic function is documented to be clipped']


FACTORS = (4, 6, 7, 8, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 31, 32, 33,
           65)


def cases(tier):
    th = tier == 'thorough'
    for name in M.MODELS:
        for li in range(len(M.LAYOUT)):
            for k in (1, 2, 3, 4) if th else (1, 2):
                for C in (0., .7, 5.) if th else (0., .7):
                    yield {'model': name, 'layout': li, 'k': k, 'C': C,
                           'th': th}
        # more factors than objects
        for li in (0, 4, 6) if not th else range(len(M.LAYOUT)):
            for k in (3, 5, 9):
                yield {'model': name, 'layout': li, 'k': k, 'C': .7,
                       'th': False}
        for k in FACTORS + ((50, 100, 129) if th else ()):
            yield {'model': name, 'layout': k % len(M.LAYOUT), 'k': k,
                   'C': (.7, 0., 3.)[k % 3], 'th': False, 'many': True}
        for C in (1e-6, 1e-3, 300.):
            yield {'model': name, 'layout': 1, 'k': 2, 'C': C, 'th': False}
        for n in (129,) if name[0] == 'I' else (127, 130, 260):
            yield {'model': name, 'layout': 1, 'k': 1, 'C': .3, 'th': False,
                   'n': n}
        for n in (65, 129, 257, 1025, 4097):
            for sh in (1, 2, 3) if n < 100 else (1,):
                yield {'model': name, 'layout': (1, 2, 4)[n % 3], 'k': 2,
                       'C': .3, 'n': n, 'shape': sh, 'th': False}
        # some coordinates only
        for n in (16385, 20001, 32769, 65537) + (
                (100001, 131073, 262145) if th else ()):
            if name[0] == 'I' and n > 40000 and not th:
                continue
            yield {'model': name, 'layout': (1, 2, 4)[n % 3], 'k': 2,
                   'C': .3, 'n': n, 'shape': 1, 'th': False, 'some': True}


def run(case, t):
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    name = case['model']
    kind = ('int', 'str', 'neg')[case['layout'] % 3]
    sets = c11.rowsets(s) if 'n' not in case else [
        M.rows3(case['n'] + 7, case['n'], s) if 'shape' not in case else
        gen.large_rows(case['n'], lay[0], case['shape'])]
    for ri, rows in enumerate(sets):
        if ri == 3 and not case['th']:
            continue
        if 'many' in case and ri != case['k'] % 3:
            continue
        c = M.Case(name, lay, kind, rows, ri)
        where = '%s layout=%r k=%d C=%r rows=%d' % (
            name, lay, case['k'], case['C'], ri)
        grads = []

        def hook(fun, x0, **kw):
            f, g = env.closure(fun, x0, kw)
            n = len(x0)
            if g is None:
                return env.result(x0, f(x0))
            pts = [np.array(x0, dtype=float), M.spread(n, 2, .8),
                   np.zeros(n), M.spread(n, 7, -1.1)]
            if 'n' in case:
                pts = pts[1:2]
            if 'many' in case:
                pts = [M.spread(n, 2, 1.2 / case['k'] ** .5)]
            # most predictions are nearly certain
            for mu in (-9.5, 9.5) if not (
                    'n' in case or 'many' in case) else ():
                x = M.spread(n, 3, .5)
                x[0] = mu
                pts.append(x)
            if case['th']:
                pts += [M.spread(n, j, .3 * j) for j in range(1, 5)]
            for pi, x in enumerate(pts):
                keep = x.copy()
                gr = g(x)
                expect(np.array_equal(x, keep), 'point-changed', where)
                expect(gr.shape == (n,), 'gradient-shape', where,
                       got=gr.shape)
                h = 1e-2
                num = np.empty(n)
                js = range(n)
                if 'some' in case:
                    js = sorted(set(list(range(4)) + list(range(
                        4, n, n // 40 + 1)) + list(range(n - 3, n))))
                    gr = gr[js]
                    num = np.empty(len(js))
                for z, j in enumerate(js):
                    v = []
                    for d in (-2, -1, 1, 2):
                        y = x.copy()
                        y[j] += d * h
                        v.append(f(y))
                    num[z] = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
                err = np.abs(num - gr)
                tol = 1e-7 + 1e-10 * np.abs(f(x))
                bad = np.nonzero(err > tol)[0]
                expect(len(bad) == 0, 'gradient', where, point=pi,
                       coordinates=bad.tolist()[:6],
                       got=gr[bad].tolist()[:6], want=num[bad].tolist()[:6])
                g2 = g(x)[js] if 'some' in case else g(x)
                expect(np.array_equal(g2, gr), 'gradient-stateful', where)
                grads.append(gr)
                t.ev(n)
                t.sig((name, gr.tobytes()))
            return env.result(x0, f(x0))
        m = M.make(name, k=case['k'], C=case['C'])
        if not c.fit(m, hook):
            t.ev()
            t.sig((name, 'real fit'))
    t.sample({'case': case, 'gradient': grads[-1].tolist()[:4]
              if grads else None})
