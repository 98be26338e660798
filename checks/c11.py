"""C11: training minimises the documented objective on the given data."""
import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every model x event layout x number of factors x C x training set '
        '(repeated events, objects seen only in unused columns) is fitted '
        'once per point of a set of parameter vectors (the start, zero, two '
        'spread vectors, and moves along every coordinate); the controlled '
        'optimizer evaluates the objective there and answers it, and the '
        'value is compared with the documented objective of the parameters '
        'the model then publishes.  Non-trivial: a distinct objective value.')
BOUNDS = {'quick': '15 layouts, k in 1, 2, C in 0, 0.7, 4 rows sets; k to 9 '
                   'on 3; C from 1e-6 to 300; 65-65537 '
                   'events; all '
                   'coordinates on 3 layouts',
          'thorough': '15 layouts, k in 1, 2, 3, C in 0, 0.7, 5; all '
                      'coordinates everywhere'}
ASSUMPTIONS = ['logits of the points stay below 15, beyond which the '
               'logistic function is documented to be clipped']


def rowsets(s):
    yield M.rows3(6, 3, s)
    yield M.rows3(7, 4, s, 1)
    # repeated events, one user with one item only
    r = M.rows3(5, 3, s, 2)
    yield r + [r[0], r[2], r[0]]
    yield [tuple((i * (c + 1)) % (3 if c % 2 else 2) for c in range(s))
           for i in range(6)]


FACTORS = (4, 6, 7, 8, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 31, 32, 33,
           50, 64, 65, 100, 128)


def cases(tier):
    th = tier == 'thorough'
    for name in M.MODELS:
        for li in range(len(M.LAYOUT)):
            for k in (1, 2, 3) if th else (1, 2):
                for C in (0., .7, 5.) if th else (0., .7):
                    yield {'model': name, 'layout': li, 'k': k, 'C': C,
                           'coords': th or li in (0, 6, 8)}
    for name in M.MODELS:
        # more factors than objects
        for li in (0, 4, 6) if not th else range(len(M.LAYOUT)):
            for k in (3, 5, 9):
                yield {'model': name, 'layout': li, 'k': k, 'C': .7,
                       'coords': False}
        for k in FACTORS + ((129, 257) if th else ()):
            yield {'model': name, 'layout': k % len(M.LAYOUT), 'k': k,
                   'C': (.7, 0., 3.)[k % 3], 'coords': False}
        for dt in TYPES if name[0] != 'I' else ():
            for n in (6, 70, 1001) + ((20001,) if dt in (
                    'float16', 'int8', 'uint8') or th else ()):
                yield {'model': name, 'types': dt, 'n': n}
            if dt in ('float16', 'uint16') and name == 'LogisticPMF':
                yield {'model': name, 'types': dt, 'n': 140000}
        for C in (1e-6, 1e-3, 300.):
            yield {'model': name, 'layout': 1, 'k': 2, 'C': C,
                   'coords': False}
    for name in M.MODELS:
        for n in (127, 130, 256, 300):
            yield {'model': name, 'layout': 1, 'k': 1, 'C': .3, 'n': n,
                   'coords': False}


    for name in M.MODELS:
        for n in (65, 129, 257, 513, 1001, 1025, 4097) + (
                (10001, 65537) if name[0] != 'I' else ()):
            for sh in (1, 2, 3) if n < 1000 else (1, 3 - n % 2):
                if name[0] == 'I' and sh > 1 and n > 1025:
                    continue
                if n > 5000 and sh > 1:
                    continue
                yield {'model': name, 'layout': (1, 2, 4)[n % 3], 'k': 2,
                       'C': .3, 'n': n, 'shape': sh, 'coords': False}


def points(n, coords, start, long=False, k=1):
    # vectors of many parameters are scaled down to keep the logits small
    drift = (np.arange(n) - np.arange(n) % 97) * 1e-3 if long else 0.
    scale = .3 if long else 1. if k < 10 else 1.5 / k ** .5
    yield 'start', start * (1. if k < 10 else scale)
    yield 'zero', np.zeros(n)
    yield 'spread', (M.spread(n, 1, .8) - drift) * scale
    yield 'spread2', (M.spread(n, 5, -.5) - drift) * scale
    if coords:
        b = M.spread(n, 3, .4)
        for j in range(n):
            for d in (.75, -1.5):
                x = b.copy()
                x[j] += d
                yield 'coordinate %d' % j, x


TYPES = ('float16', 'float32', 'int8', 'uint8', 'int16',
         'uint16', 'int32', 'uint64', 'bool', 'list')


def types(case, t):
    """scores of any numeric type have the same objective"""
    name, n, dt = case['model'], case['n'], case['types']
    lay = M.LAYOUT[(0, 4, 6)[n % 3]]
    if name == 'LogisticPMF':
        v, dom = [(i * 2 + i // 3) % 3 > 0 for i in range(n)], (0, 1, 1)
        v = [int(x) for x in v]
    else:
        v = [(i * 3 + i // 5) % 5 + (dt != 'bool') for i in range(n)]
        dom = (1, 5, 1)
        if dt == 'bool':
            v, dom = [x % 2 for x in v], (0, 1, 1)
        elif dt in ('float16', 'float32', 'list'):
            v = [x / 4. for x in v]
            dom = (0., 1.25, .25)
    sc = v if dt == 'list' else np.array(v).astype(dt)
    c = M.Case(name, lay, 'int', gen.large_rows(n, lay[0], 1), 1,
               (sc, dom))
    c.score = [float(x) for x in v]
    where = '%s %d scores of type %s' % (name, n, dt)
    for salt in range(3):
        got = {}

        def hook(fun, x0, **kw):
            f, g = env.closure(fun, x0, kw)
            x = np.array(x0, dtype=float)
            expect(np.all(np.isfinite(x)), 'start', where)
            if salt:
                x = M.spread(len(x0), salt, .4)
            got['f'] = f(x)
            return env.result(x, got['f'])
        m = M.make(name, k=2, C=.3, seed=5)
        if not c.fit(m, hook):
            got['f'] = m.fit_results_['final_loss']
        want = M.objective(m, c, .3)
        expect(ref.feq(got['f'], want, 1e-8), 'objective', where,
               got=got['f'], want=want)
        t.ev()
        t.sig((name, dt, n, salt, want))
    t.sample({'case': case})


def run(case, t):
    if 'types' in case:
        return types(case, t)
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    name = case['model']
    kind = ('int', 'str', 'neg')[case['layout'] % 3]
    if 'shape' in case:
        sets = [gen.large_rows(case['n'], lay[0], case['shape'])]
    elif 'n' in case:
        sets = [M.rows3(case['n'] + 7, case['n'], s)]
    else:
        sets = list(rowsets(s))
    tol = 1e-11 if name == 'PMF' else 1e-9
    for ri, rows in enumerate(sets):
        c = M.Case(name, lay, kind, rows, ri)
        seen = {}

        def probe(fun, x0, **kw):
            f, g = env.closure(fun, x0, kw)
            seen['n'] = len(x0)
            seen['x0'] = np.array(x0, dtype=float)
            return env.result(x0, f(x0))
        m = M.make(name, k=case['k'], C=case['C'])
        where = '%s layout=%r k=%d C=%r rows=%d' % (
            name, lay, case['k'], case['C'], ri)
        if not c.fit(m, probe):
            # the optimizer is not called through scipy: judge its result
            want = M.objective(m, c, case['C'])
            expect(ref.feq(m.fit_results_['final_loss'], want, 1e-7),
                   'final-objective', where)
            t.ev()
            t.sig(want)
            continue
        m = None
        for pname, x in points(seen['n'], case['coords'] and ri < 2,
                               seen['x0'], 'shape' in case, case['k']):
            got = {}

            def hook(fun, x0, **kw):
                f, g = env.closure(fun, x0, kw)
                xx = np.array(x, dtype=float)
                got['f'] = f(xx)
                expect(np.array_equal(xx, x), 'point-changed', where)
                f(np.zeros(len(x)) + .1)
                got['f2'] = f(np.array(x))
                return env.result(x, got['f'])
            m = m or M.make(name, k=case['k'], C=case['C'])
            c.fit(m, hook)
            want = M.objective(m, c, case['C'])
            expect(ref.feq(got['f'], want, tol), 'objective',
                   where, point=pname, got=got['f'], want=want)
            expect(got['f'] == got['f2'], 'objective-stateful', where,
                   point=pname)
            t.ev()
            t.sig((case['model'], want))
    t.sample({'case': case, 'objective': want})
