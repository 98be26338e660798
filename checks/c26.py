"""C26: means of statistics average the statistic over the folds."""
import itertools

import numpy as np

from mc import ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every number of folds x number of argument lists x kind of '
        'container (dicts with keys in any order, lists, tuples) x shape of '
        'the statistic: the function must be called once per fold with the '
        'arguments of that fold, and the mean of its results returned.  '
        'Non-trivial: a distinct (structure, contents).')
BOUNDS = {'quick': '<=4 folds, <=3 arguments; folds to 257', 'thorough': '<=6 folds, <=4 '
          'arguments'}
ASSUMPTIONS = []


def cases(tier):
    th = tier == 'thorough'
    for folds in range(1, 7 if th else 5):
        for nargs in range(1, 5 if th else 4):
            for kind in ('dict', 'list', 'tuple', 'dict-int', 'mixed'):
                for out in ('scalar', 'int', 'pair', 'array', 'matrix'):
                    yield {'folds': folds, 'nargs': nargs, 'kind': kind,
                           'out': out}
    for folds in (7, 9, 10, 11, 12, 33, 65, 99, 101, 257):
        for kind in ('dict', 'list', 'tuple', 'dict-int', 'mixed'):
            for nargs in (1, 2, 3, 4):
                yield {'folds': folds, 'nargs': nargs, 'kind': kind,
                       'out': ('scalar', 'pair', 'matrix')[nargs % 3]}
    yield {'bad': True}
    yield {'missing': True}
    yield {'values': True}
    yield {'real': True}
    yield {'shapes': True}
    yield {'nonfinite': True}


def run(case, t):
    from kamrecsys import metrics as km
    if 'bad' in case:
        for x in (3, 2.5, None, np.arange(3), 'ab', {1, 2}):
            ref.raises(TypeError, lambda: km.statistics_mean(
                lambda v: 1., x), 'bad-argument-accepted', repr(x))
            t.ev()
            t.sig(repr(x))
        return
    if 'missing' in case:
        # a fold that one of the arguments lacks: nothing is averaged
        for nf in (1, 2, 3, 11):
            for kind in ('dict', 'dict-int'):
                for lack in range(nf):
                    for na in (2, 3):
                        for a in range(1, na):
                            col = [[float(f * (i + 1)) for f in range(nf)]
                                   for i in range(na)]
                            args = [{'f%d' % f if kind == 'dict' else f: v
                                     for f, v in enumerate(c)} for c in col]
                            del args[a]['f%d' % lack if kind == 'dict'
                                        else lack]
                            w = repr((nf, kind, lack, na, a))
                            for fun in (lambda *v: sum(v),
                                        lambda x, y=0., z=0.: x + y + z,
                                        lambda *v: (len(v), v[0])):
                                calls = []

                                def rec(*v):
                                    calls.append(v)
                                    return fun(*v)
                                ref.raises(
                                    (KeyError, IndexError, ValueError,
                                     TypeError),
                                    lambda: km.statistics_mean(rec, *args),
                                    'missing-fold-accepted', w)
                                expect(all(len(c) == na for c in calls),
                                       'calls', w, got=calls)
                                t.ev()
                            t.sig(w)
        return
    if 'values' in case:
        # arguments are handed over as they are, whatever they are, and each
        # fold counts even if its argument is empty, repeated, or the same
        # object as that of another fold
        pool = [[], [1, 2], 0, None, 'x', {}, {'a': 1}, (), np.zeros(0),
                np.ones(3), float('nan'), False, [[], []]]
        for i, a in enumerate(pool):
            for j, b in enumerate(pool):
                for kind in ('dict', 'list', 'tuple', 'more'):
                    one, two = [a, b, a], [b, b, a]
                    calls = []

                    def fun(x, y):
                        calls.append((x, y))
                        return float(len(calls))
                    if kind == 'list':
                        args = [one, two]
                    elif kind == 'tuple':
                        args = [tuple(one), tuple(two)]
                    else:
                        args = [dict(zip('pqr', v)) for v in (one, two)]
                    if kind == 'more':
                        # the first record tells the folds
                        args[1].update({'a': 1, 'pp': 2, 'z': 3})
                    got = km.statistics_mean(fun, *args)
                    w = '%s %r %r' % (kind, a, b)
                    expect(len(calls) == 3 and float(got) == 2., 'calls', w,
                           got=calls, mean=got)
                    left = list(zip(one, two))
                    for c in calls:
                        k = next((k for k, v in enumerate(left)
                                  if v[0] is c[0] and v[1] is c[1]), None)
                        expect(k is not None, 'arguments', w, got=c)
                        del left[k]
                    t.ev()
                    t.sig((i, j, kind))
        return
    if 'shapes' in case:
        # a statistic of any shape
        for sh in [(), (0,), (1,), (2,), (9,), (1, 1), (1, 2), (2, 1), (1, 5),
                   (3, 1), (2, 3), (0, 2), (2, 0), (1, 1, 1), (1, 2, 1),
                   (2, 1, 2), (3, 2, 4), (1, 1, 1, 3)]:
            size = int(np.prod(sh))
            base = (np.arange(size) * 3 % 7 + .25).reshape(sh)
            for nf in (1, 2, 3, 7):
                for dt in ('f8', 'i8', 'f4', '?'):
                    vals = [(base * (f + 1) - f).astype(dt)
                            for f in range(nf)]
                    want = sum(np.asarray(v, dtype=float)
                               for v in vals) / nf
                    for how in ('array', 'list') if size else ('array',):
                        k = {'f%d' % f: f for f in range(nf)}
                        for args in (list(range(nf)), tuple(range(nf)), k):
                            got = km.statistics_mean(
                                (lambda f: vals[f]) if how == 'array' else
                                (lambda f: vals[f].tolist()), args)
                            w = repr((sh, nf, dt, how))
                            expect(np.shape(got) == np.shape(want) and
                                   np.allclose(got, want, rtol=1e-6),
                                   'mean', w, got=got, want=want)
                            t.ev()
                t.sig((sh, nf))
        return
    if 'nonfinite' in case:
        # a statistic that is not a number, or infinite, is not left out
        nan, inf = float('nan'), float('inf')
        pool = [nan, inf, -inf, 1., 0., -2.5]
        for nf in (1, 2, 3, 4):
            for vals in itertools.product(pool, repeat=nf):
                if np.all(np.isfinite(vals)):
                    continue
                want = sum(vals) / nf
                keys = ['b', 'a', 'd', 'c'][:nf]
                for args in (list(vals), dict(zip(keys, vals))):
                    for out in ('scalar', 'pair'):
                        with np.errstate(all='ignore'):
                            got = km.statistics_mean(
                                (lambda v: v) if out == 'scalar' else
                                (lambda v: (v, 7.)), args)
                        w = want if out == 'scalar' else [want, 7.]
                        expect(np.shape(got) == np.shape(w) and
                               np.array_equal(got, w, equal_nan=True),
                               'mean-of-non-finite', got=got, want=w,
                               statistics=vals)
                        t.ev()
                t.sig(repr(vals))
        return
    if 'real' in case:
        yt = {i: np.array([1., 2, 3, 5])[:i + 1] for i in range(4)}
        yp = {i: np.array([1.5, 2, 1, 4.5])[:i + 1] for i in range(4)}
        got = km.statistics_mean(km.mean_absolute_error, yt, yp)
        want = np.mean([km.mean_absolute_error(yt[i], yp[i])
                        for i in range(4)], axis=0)
        expect(np.allclose(got, want), 'real-metric', got=got, want=want)
        t.ev()
        t.sig('real')
        return
    nf, na = case['folds'], case['nargs']
    for salt in range(3):
        val = [[(f * 5 + a * 3 + salt * 7) % 11 + .5 * a
                for a in range(na)] for f in range(nf)]
        calls = []

        def fun(*args):
            calls.append(args)
            x = sum((i + 1) * float(v) for i, v in enumerate(args))
            return {'scalar': x, 'int': int(x), 'pair': (x, x * x),
                    'array': np.array([x, 1, -x]),
                    'matrix': [[x, 0.], [2 * x, x * x]]}[case['out']]
        keys = ['fold%d' % f for f in range(nf)]
        args = []
        for a in range(na):
            kind = case['kind']
            col = [val[f][a] for f in range(nf)]
            if kind == 'mixed':
                kind = 'list' if a % 2 == 0 else 'tuple'
            if kind == 'dict':
                order = range(nf) if (a + salt) % 2 else range(nf)[::-1]
                args.append({keys[f]: col[f] for f in order})
            elif kind == 'dict-int':
                args.append({f: col[f] for f in
                             sorted(range(nf), key=lambda z: -z * (a + 1))})
            elif kind == 'list':
                args.append(col)
            else:
                args.append(tuple(col))
        before = repr(args)
        got = km.statistics_mean(fun, *args)
        expect(repr(args) == before, 'arguments-changed', repr(case))
        want_calls = sorted(tuple(v) for v in val)
        expect(sorted(calls) == want_calls, 'calls', repr(case), got=calls,
               want=want_calls)
        x = [sum((i + 1) * v for i, v in enumerate(r)) for r in val]
        if case['out'] == 'int':
            x = [int(v) for v in x]
        m1 = sum(x) / nf
        m2 = sum(v * v for v in x) / nf
        want = {'scalar': m1, 'int': m1, 'pair': [m1, m2],
                'array': [m1, 1, -m1], 'matrix': [[m1, 0.], [2 * m1, m2]]}[
                    case['out']]
        expect(np.shape(got) == np.shape(want) and np.allclose(got, want),
               'mean', repr(case), got=got, want=want)
        t.ev()
        t.sig((repr(case), salt))
    t.sample({'case': case, 'mean': repr(got)})
