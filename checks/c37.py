"""C37: concurrent use gives the results of sequential use."""
import io
import itertools
import math
import pickle

import numpy as np

from mc import env, gen, models as M, ref, sched
from mc.core import expect

LEVEL = 'exploration'
RULE = ('two real threads run operations on shared objects under a '
        'controlled scheduler that can stop a thread before every source '
        'line of the code under test: all schedules with at most the bound '
        'of preemptions are executed; every operation must give the result '
        'it gives alone, and shared models and containers must stay as they '
        'were.  Non-trivial: a distinct schedule.')
BOUNDS = {'quick': '1 preemption at every line of every scenario, 2 for '
          'predictions, 2 at every 4th line for containers and splitters',
          'thorough': '2 preemptions at every pair of lines, or of every '
          'n-th line where that would be more than 24000 schedules'}
PAIRS = 24000
ASSUMPTIONS = ['preemption inside a source line, or inside numpy and scipy, '
               'is not explored',
               'every thread trains a model of its own']

KINDS = M.ALL + ('MultinomialPLSA:mode',)


def scenarios():
    out = []
    for n in KINDS:
        out.append(('predict-predict', n, n))
    for a, b in itertools.combinations_with_replacement(KINDS[:4], 2):
        if {a, b} == {'PMF', 'LogisticPMF'} or (
                'MultinomialPLSA' in (a, b) and 'LogisticPMF' in (a, b)):
            continue        # no container suits both
        out.append(('fit-fit', a, b))
    for n in KINDS[:4]:
        out += [('fit-predict', n, n), ('fit-filter', n, n),
                ('pickle-predict', n, n), ('fit-read', n, n)]
    out += [('filter-filter', None, None), ('filter-read', None, None),
            ('read-read', None, None), ('build-build', None, None),
            ('load-load', None, None), ('stats-stats', None, None),
            ('binarize-binarize', None, None)]
    for a, b in (('K', 'K'), ('S', 'S'), ('I', 'I'), ('K', 'S')):
        out.append(('split-split', a, b))
        out.append(('split-same', a, b))
        out.append(('split-sizes', a, b))
    return out


def cases(tier):
    th = tier == 'thorough'
    for i, s in enumerate(scenarios()):
        parts = 48 if th else 8
        for j in range(parts):
            yield {'i': i, 's': list(s), 'part': j, 'of': parts, 'th': th}


def rows(name, salt=0):
    ev = np.array([[7, 10, 3], [3, 20, 5], [11, 10, 5], [7, 30, 3],
                   [3, 30, 3], [11, 20, 5]])
    return ev[salt:]


def shared(name):
    n = M.base(name) if name else 'PMF'
    if n == 'ImplicitLogisticPMF':
        n = 'PMF'       # implicit finders take any container
    ev = rows(n)
    sc, dom = M.scores_for(n, len(ev))
    d = M.container(n, ev, (0, 1, 2), 3, sc, dom)
    d.event_feature = np.arange(len(ev)) * 3
    d.set_feature(0, np.array([3, 7, 11]), np.array([30, 70, 110]))
    return d


def fitted(name, d, salt=0, idx=(0, 1)):
    kw = {} if name.startswith('Mult') else {'maxiter': 2, 'C': .1}
    if name.startswith('Mult'):
        kw['maxiter'] = 2
    m = M.make(name, 2, 3 + salt, **kw)
    with env.controlled(M.quick_hook(1)):
        m.fit(d, event_index=idx)
    return m


def snap(d):
    return ref.snapshot(d)


def val(x):
    return ref.snapshot(x)


def model_val(m):
    q = np.array([[7, 20, 3], [3, 99, 5], [0, 30, 3]])
    return M.pub(m), val(np.asarray(m.predict(q)))


def fit_op(name, d, salt, idx):
    def op():
        kw = {'maxiter': 2}
        m = M.make(name, 1 + salt, 3 + salt, **kw)
        m.fit(d, event_index=idx)
        return m
    return op


def build(kind, a, b):
    """-> (two operations, how to look at results, snapshot of the shared)"""
    d = shared(b if kind == 'fit-fit' and a == 'ImplicitLogisticPMF' else a
               if a in KINDS else None)
    look = [val, val]
    shot = lambda: snap(d)
    if kind == 'predict-predict':
        m = fitted(a, d)
        q1 = np.array([[7, 20, 3], [3, 10, 5], [99, 30, 3]])
        q2 = np.array([11, 99, 3])
        ops = [lambda: np.asarray(m.predict(q1)),
               lambda: np.asarray(m.predict(q2))]
        shot = lambda: (M.pub(m), snap(d), val([q1, q2]))
    elif kind == 'fit-fit':
        ops = [fit_op(a, d, 0, (0, 1)), fit_op(b, d, 1, (2, 1))]
        look = [model_val, model_val]
    elif kind == 'fit-predict':
        m = fitted(a, d)
        q = np.array([[7, 20, 3], [3, 99, 5]])
        ops = [fit_op(a, d, 1, (2, 1)), lambda: np.asarray(m.predict(q))]
        look = [model_val, val]
        shot = lambda: (M.pub(m), snap(d))
    elif kind == 'fit-filter':
        ops = [fit_op(a, d, 0, (0, 2)),
               lambda: snap(d.filter_event([0, 2, 5]))]
        look = [model_val, val]
    elif kind == 'fit-read':
        ops = [fit_op(a, d, 0, (0, 1)), read(d, 1)]
        look = [model_val, val]
    elif kind == 'pickle-predict':
        m = fitted(a, d)
        q = np.array([[7, 20, 3], [3, 99, 5]])
        ops = [lambda: np.asarray(pickle.loads(pickle.dumps(m)).predict(q)),
               lambda: np.asarray(m.predict(q[::-1]))]
        shot = lambda: (M.pub(m), snap(d))
    elif kind == 'filter-filter':
        ops = [lambda: snap(d.filter_event([0, 2, 5])),
               lambda: snap(d.filter_event(d.score > 2))]
    elif kind == 'filter-read':
        ops = [lambda: snap(d.filter_event([5, 1, 3])), read(d, 0)]
    elif kind == 'read-read':
        ops = [read(d, 0), read(d, 1)]
    elif kind == 'build-build':
        ops = [lambda: snap(shared('PMF')), lambda: snap(shared(
            'LogisticPMF'))]
    elif kind == 'binarize-binarize':
        ops = [binarize(2.), binarize(3.)]
    elif kind == 'load-load':
        ops = [load(0), load(1)]
    elif kind == 'stats-stats':
        ops = [stats(0), stats(1)]
    else:
        X = np.arange(12)
        g = np.array([0, 1, 0, 2, 1, 2, 0, 1, 2, 0, 1, 2])
        s1 = splitter(a, 0)
        s2 = splitter(b, 1) if kind == 'split-split' else s1
        Y, h = (X[:9], np.arange(9) % 3) if kind == 'split-sizes' else (X, g)
        ops = [lambda: [(p.tolist(), q.tolist())
                        for p, q in s1.split(X, groups=g)],
               lambda: [(p.tolist(), q.tolist())
                        for p, q in s2.split(Y, groups=h)]]
        shot = lambda: val([X, g, h])
    return ops, look, shot


def binarize(th):
    def op():
        d = shared('PMF')
        d.binarize_score(th)
        return snap(d)
    return op


def read(d, k):
    def op():
        return [d.to_iid_event(np.array([[7, 20, 3], [99, 10, 5]])),
                d.to_eid_event(d.event), d.digitize_score(),
                d.digitize_score(np.array([5, 1, 3, 4, 2 + k])),
                d.generate_score_bins(), d.to_eid(k, 1),
                d.to_iid(k, (7, 20)[k])]
    return op


def load(k):
    from kamrecsys.datasets import load_event_with_score
    text = [b'1\t2\t3\n4\t5\t1\n', b'9\t8\t5\n7\t7\t2\n1\t8\t3\n'][k]

    def op():
        return snap(load_event_with_score(io.BytesIO(text)))
    return op


def stats(k):
    from kamrecsys.metrics import (
        item_finder_statistics, score_predictor_statistics)
    from kamrecsys.utils import json_decodable
    y = np.array([1., 5., 3., 2.][k:])

    def op():
        s = {'a': score_predictor_statistics(y, y[::-1] + k),
             'b': item_finder_statistics((y > 2) * 1, y / (2. + k)),
             'c': [np.float32(k), {'d': y}]}
        json_decodable(s)
        return s
    return op


def splitter(kind, k):
    from kamrecsys import model_selection as ms
    if kind == 'K':
        return ms.KFoldWithinGroups(n_splits=3, shuffle=True,
                                    random_state=k)
    if kind == 'S':
        return ms.ShuffleSplitWithinGroups(n_splits=2, test_size=.25,
                                           random_state=k)
    return ms.InterlacedKFold(n_splits=2 + k)


def run(case, t):
    kind, a, b = case['s']
    with env.controlled(M.quick_hook(2)):
        ops, look, shot = build(kind, a, b)
        alone, lines = [], []
        before = shot()
        for op, lk in zip(ops, look):
            r, n, stuck, _ = sched.run([op], [(0, None)])
            if r[0][1] is not None:
                raise r[0][1]
            alone.append(lk(r[0][0]))
            lines.append(n[0])
        expect(shot() == before, 'shared-changed', kind, models=[a, b])
        small = kind in ('predict-predict', 'pickle-predict')
        cont = kind in ('filter-filter', 'filter-read', 'read-read',
                        'split-split', 'split-same', 'split-sizes')
        # grid of positions for the second preemption
        if case['th']:
            # at most about PAIRS schedules with two preemptions
            bound, step = 2, max(1, math.ceil(math.sqrt(
                2. * lines[0] * lines[1] / PAIRS)))
        elif small:
            bound, step = 2, 1
        elif cont:
            bound, step = 2, 4
        else:
            bound, step = 1, 1
        n = -1
        for plan in sched.plans(lines, bound):
            if len(plan) == 4 and step > 1 and (
                    plan[0][1] % step or plan[1][1] % step):
                continue
            n += 1
            if n % case['of'] != case['part']:
                continue
            res, _, stuck, where = sched.run(ops, plan)
            w = '%s %s/%s schedule=%r stopped at %r' % (
                kind, a, b, plan, where)
            expect(not stuck, 'deadlock', w, threads=stuck)
            for i in (0, 1):
                if res[i][1] is not None:
                    expect(False, 'exception', w, thread=i,
                           error=repr(res[i][1]))
                expect(look[i](res[i][0]) == alone[i], 'result', w, thread=i)
            expect(shot() == before, 'shared-changed', w)
            t.ev()
            t.sig((case['i'], tuple(plan)))
    t.sample({'scenario': case['s'], 'lines': lines, 'schedules': n + 1})
