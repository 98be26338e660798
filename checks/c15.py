"""C15: a rejected fit leaves a fitted model as it was."""
import itertools

import numpy as np

from mc import env, fault, gen, models as M, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('every sequence, up to the depth, of accepted fits (two data sets), '
        'predictions and rejected fits (wrong classes, containers without '
        'events, missing columns, scores that are not binary or not of the '
        'domain, for item finders) on each model; published attributes and '
        'predictions after each step equal those after the last accepted '
        'fit.  States: model x last accepted fit x last rejected argument.')
BOUNDS = {'quick': 'depth 3', 'thorough': 'depth 4'}
ASSUMPTIONS = []

NAMES = M.MODELS + ('MultinomialPLSA',)


def bad_args(name):
    """name -> (data, event_index)"""
    from kamrecsys import data as kd
    ev = np.array([[1, 2], [2, 1], [9, 2], [1, 1], [2, 9]])
    bin_ = np.array([0., 1, 1, 0, 1])

    class Other(kd.BaseData):
        pass

    def scored(sc, dom):
        d = kd.EventWithScoreData()
        d.set_event(ev, np.array(sc), dom)
        return d
    plain = kd.EventData()
    plain.set_event(ev)
    good = scored(bin_, (0., 1., 1.))
    empty = kd.EventWithScoreData()
    out = {'none': (None, (0, 1)), 'list': ([[1, 2]], (0, 1)),
           'array': (ev, (0, 1)), 'no-events': (empty, (0, 1)),
           'column': (good, (0, 2)), 'column2': (good, (5, 1)),
           'negative-column': (good, (0, -3))}
    if name != 'ImplicitLogisticPMF':
        out['plain-events'] = (plain, (0, 1))
    else:
        e = kd.EventData()
        out['no-events2'] = (e, (0, 1))
    if name == 'LogisticPMF':
        out['ratings'] = (scored([1., 5, 3, 2, 4], (1., 5., 1.)), (0, 1))
        out['three'] = (scored([0., 1, 2, 0, 1], (0., 2., 1.)), (0, 1))
        out['zeros'] = (scored([0.] * 5, (0., 1., 1.)), (0, 1))
        out['ones'] = (scored([1.] * 5, (0., 1., 1.)), (0, 1))
        out['half'] = (scored([0., 1, .5, 0, 1], (0., 1., .5)), (0, 1))
        out['domain'] = (scored(bin_, (0., 2., 1.)), (0, 1))
        out['minus'] = (scored([-1., 1, 1, -1, 1], (-1., 1., 2.)), (0, 1))
    return out


def cases(tier):
    for name in NAMES:
        for first in ('A', 'B'):
            for second in ('A', 'B', 'predict', 'reject'):
                yield {'model': name, 'first': first, 'second': second,
                       'depth': 4 if tier == 'thorough' else 3}


def run(case, t):
    name = case['model']
    d = {'A': M.Case(name, M.LAYOUT[0], 'int', M.rows3(6, 3, 2), 0),
         'B': M.Case(name, M.LAYOUT[6], 'str', M.rows3(8, 4, 3, 1), 1)}
    bad = bad_args(name)
    kw = {} if name == 'MultinomialPLSA' else {'maxiter': 2}
    q = {x: np.array([d[x].query(u, i) for u in d[x].objects(d[x].types[0])
                      + d[x].unknown()[:1]
                      for i in d[x].objects(d[x].types[1])],
                     dtype=gen.QDTYPE[d[x].kind]) for x in d}
    ops = ['A', 'B', 'predict'] + ['!' + b for b in sorted(bad)]
    seconds = [o for o in ops if o[0] == '!'] if case['second'] == 'reject' \
        else [case['second']]
    snaps = {b: ref.snapshot(bad[b][0]) for b in bad}
    for rest in itertools.product(seconds, *([ops] * (case['depth'] - 2))):
        hist = (case['first'],) + rest
        m = M.make(name, k=2, seed=2, **kw)
        where = '%s history=%s' % (name, hist)
        cur = None
        for n, op in enumerate(hist):
            if op in d:
                d[op].fit(m)
                cur = op
                pub, pred = M.pub(m), np.array(m.predict(q[cur]))
            elif op == 'predict':
                m.predict(q[cur])
            else:
                data, index = bad[op[1:]]
                try:
                    m.fit(data, event_index=index)
                except Exception:
                    pass
                else:
                    expect(False, 'not-rejected', where, argument=op)
                p = M.pub(m)
                expect(p == pub, 'rejected-fit-changed-model', where,
                       attributes=M.pub_diff(p, pub) if p != pub else [])
                got = np.array(m.predict(q[cur]))
                expect(np.array_equal(got, pred),
                       'rejected-fit-changed-prediction', where)
                t.state((name, cur, op))
                t.ev()
            t.step()
        t.trace()
    # a model that was never fitted stays so
    for b in sorted(bad):
        m = M.make(name, k=2, seed=2, **kw)
        pub = M.pub(m)
        try:
            m.fit(bad[b][0], event_index=bad[b][1])
        except Exception:
            pass
        p = M.pub(m)
        expect(p == pub, 'rejected-fit-changed-new-model', '%s %s' % (
            name, b), attributes=M.pub_diff(p, pub) if p != pub else [])
        expect(ref.snapshot(bad[b][0]) == snaps[b],
            'rejected-data-changed', name + b)
        t.state((name, 'new', b))
    t.sample({'case': case, 'last history': hist})
