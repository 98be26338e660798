"""C16: a fitted model is isolated from later changes of its data."""
import itertools

import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('a model is fitted; then every sequence, up to the depth, of '
        'operations on the training container (new events, new features, '
        'filtering, binarizing), of in-place writes to its events, scores '
        'and features and to the arrays the caller passed to the container '
        'or to the fit, and of fits of other models to the container is '
        'executed, as are in-place writes to its tables of ids, types and '
        'domain, which end a sequence.  After every step the predictions and published '
        'attributes of the model are those right after the fit; fits and '
        'predictions leave the content of the container as the list model '
        'says.  States: model x content of the container.')
BOUNDS = {'quick': 'depth 3 (2 on 3 of 4 layouts); 4 histories of '
                   '63-1025 events', 'thorough': 'depth 4, 4 layouts'}
ASSUMPTIONS = []

NAMES = M.MODELS + ('MultinomialPLSA',)
CFG = [(0, 'int'), (6, 'str'), (4, 'neg'), (8, 'obj')]
OPS = ('events', 'events2', 'feature', 'filter', 'filter-write', 'binarize',
       'write-event', 'write-score', 'write-args', 'fit-other', 'refit-same',
       'fit-selection', 'write-query', 'write-tables')


# (lowest, stride, levels, type) of scores
SCALES = [(10, 10, 20, 'float'), (-5, 1, 11, 'float'), (-500, 100, 8, 'int'),
          (0, 1, 2, 'int8'), (1, 1, 5, 'uint8'), (0, .5, 9, 'float32'),
          (1e6, 1e5, 5, 'float'), (0, 1e-3, 6, 'float'), (100, 1, 3, 'int16'),
          (0, 25, 5, 'float16'), (1, 1, 100, 'int'), (-1, .25, 9, 'float')]


def cases(tier):
    th = tier == 'thorough'
    for name in NAMES:
        for ci in range(len(CFG)):
            for first in OPS:
                yield {'model': name, 'cfg': ci, 'first': first,
                       'depth': 4 if th else 3 if ci == 0 or (
                           ci == 1 and name == 'PMF') else 2}
        for j in range(len(SCALES)):
            if name in ('PMF', 'MultinomialPLSA'):
                yield {'model': name, 'cfg': j % len(CFG), 'scale': j}
        if name == 'LogisticPMF':
            for j, dt in enumerate(('int8', 'int', 'uint8', 'float32',
                                    'float16', 'uint64')):
                yield {'model': name, 'cfg': j % len(CFG), 'binary': dt}
        for n in (63, 65, 128, 129, 257, 513, 1001, 1025) + (
                (4097,) if th else ()):
            for sh in (1,) if n > 130 else (0, 1, 3):
                yield {'name': name, 'large': n, 'shape': sh,
                       'cfg': n % len(CFG)}


class World(object):

    def __init__(self, name, li, kind, rows=None, scores=None, dtype=float):
        self.name, self.kind, self.dead = name, kind, False
        self.lay = M.LAYOUT[li]
        self.otypes, self.n_ot = self.lay[0], self.lay[1]
        self.s = len(self.otypes)
        self.rows = rows or M.rows3(6, 3, self.s)
        self.score, self.dom = scores or M.scores_for(name, len(self.rows))
        self.dtype = dtype
        self.scored = self.score is not None
        from kamrecsys import data as kd
        self.cls = kd.EventWithScoreData if self.scored else kd.EventData
        self.ot = np.array(self.otypes)
        self.data = self.cls(n_otypes=self.n_ot, event_otypes=self.ot)
        self.args = [self.ot]
        self.model = ref.RefData(self.n_ot, self.otypes)
        self.set_event(self.rows, self.score, self.dom)
        self.set_feature(0)
        self.index = None if self.lay[2] is None else np.array(self.lay[2])
        self.m = M.make(name, k=2, seed=5, **self.kw())
        self.fit(self.m)
        idx = M.index_of(self.lay)
        self.q = gen.event_array(
            [tuple((i + c * j) % 4 for c in range(self.s))
             for i in range(4) for j in range(2)], kind, self.otypes)
        self.same('after fit', ())
        self.pub = M.pub(self.m)
        self.pred = np.array(self.m.predict(self.q))

    def kw(self):
        return {'maxiter': 2}

    def fit(self, m, index='default'):
        if not isinstance(index, str):
            m.fit(self.data, event_index=index)
        elif self.index is None:
            m.fit(self.data)
        else:
            m.fit(self.data, event_index=self.index)
            self.args.append(self.index)
            self.index = np.array(self.index)

    def set_event(self, rows, score, dom):
        ev = gen.event_array(rows, self.kind, self.otypes)
        f = gen.event_feature('2d', len(rows))
        self.args += [ev, f]
        if self.scored:
            sc = np.array(score, dtype=self.dtype)
            dm = np.array(dom)
            self.args += [sc, dm]
            self.data.set_event(ev, sc, dm, event_feature=f)
            self.model.set_event(ev, f, sc, dm)
        else:
            self.data.set_event(ev, event_feature=f)
            self.model.set_event(ev, f)

    def set_feature(self, salt):
        o = self.otypes[0]
        eids = np.array(sorted(self.model.objects(o)),
                        dtype=gen.DTYPE[self.kind])
        rows = np.arange(len(eids)) * 10. + salt
        self.args += [eids, rows]
        self.model.set_feature(o, eids.copy(), rows.copy())
        self.data.set_feature(o, eids, rows)

    def same(self, where, hist):
        ref.compare(self.data, self.model, where='%s %s' % (where, hist))

    def do(self, op, n):
        """False if the operation is impossible here"""
        d = self.data
        if op == 'events':
            sc, dm = M.scores_for(self.name, 4, n + 1)
            if self.name == 'LogisticPMF':
                sc = [0., 1., 1., 0.]
            self.set_event([tuple((3 - i + c) % 4 for c in range(self.s))
                            for i in range(4)], sc, dm)
        elif op == 'events2':
            sc, dm = M.scores_for(self.name, 8, n + 2)
            self.set_event([tuple((i * (c + 1)) % 5 for c in range(self.s))
                            for i in range(8)], sc, dm)
        elif op == 'feature':
            self.set_feature(n + 1)
        elif op == 'filter':
            mask = np.arange(len(self.model.events)) % 3 != 0
            self.data = self.data.filter_event(mask)
            self.model = self.model.select(np.nonzero(mask)[0])
        elif op == 'filter-write':
            x = self.data.filter_event(np.arange(len(self.model.events)) > 0)
            x.event[...] = 0
            if self.scored:
                x.score[...] = 1.
        elif op == 'binarize':
            if not self.scored:
                return False
            d.binarize_score()
            self.model.binarize()
        elif op == 'write-event':
            d.event[...] = d.event[::-1].copy()
            self.model.events = self.model.events[::-1]
        elif op == 'write-score':
            if not self.scored:
                return False
            d.score[...] = d.score[::-1].copy()
            self.model.score = self.model.score[::-1]
        elif op == 'write-args':
            for a in self.args:
                if a.dtype.kind in 'iuf':
                    a[...] = 1
                else:
                    a[...] = 'q'
            self.args = []
        elif op == 'write-tables':
            # the container cannot be used any more; the model can
            for x in [d.n_objects, d.event_otypes] + list(d.eid) + (
                    [d.score_domain] if self.scored else []):
                if x.dtype.kind in 'iuf':
                    x[...] = 7
                else:
                    x[...] = 'q'
            for x in d.iid:
                x.clear()
            self.dead = True
        elif op == 'write-query':
            q = self.q.copy()
            self.m.predict(q)
            q[...] = q[0, 0]
        elif op in ('fit-other', 'refit-same', 'fit-selection'):
            sc = self.model.score
            if self.name == 'LogisticPMF' and len(set(sc)) < 2:
                return False
            name = self.name
            m = M.make(name, k=1, seed=9, **self.kw())
            if op == 'fit-selection':
                self.fit(m, np.array(M.index_of(self.lay))[::-1].copy())
            else:
                self.fit(m)
            if op == 'refit-same':
                # the fitted model is fitted again: a new reference
                self.fit(self.m)
                self.same('after refit', ())
                self.pub = M.pub(self.m)
                self.pred = np.array(self.m.predict(self.q))
        return True


HIST = [('write-args', 'filter-write', 'write-event', 'write-score',
         'feature', 'events', 'write-tables'),
        ('filter', 'write-event', 'binarize', 'fit-other', 'write-query',
         'events2', 'write-args'),
        ('write-score', 'write-event', 'binarize', 'write-tables'),
        ('fit-selection', 'filter-write', 'feature', 'write-args',
         'write-tables')]


def run(case, t):
    li, kind = CFG[case['cfg']]
    if 'large' in case:
        case = dict(case, model=case['name'])
        rows = gen.large_rows(case['large'], M.LAYOUT[li][0], case['shape'])
        hists = HIST
    elif 'scale' in case or 'binary' in case:
        # scores of many ranges and types
        rows = M.rows3(14, 4, len(M.LAYOUT[li][0]))
        hists = [HIST[0], HIST[1], ('fit-other', 'fit-selection',
                                    'refit-same', 'write-score', 'fit-other')]
    else:
        rows = None
        hists = [(case['first'],) + rest for rest in itertools.product(
            OPS, repeat=case['depth'] - 1)]
    for hist in hists:
        extra = ()
        if 'scale' in case:
            lo, st, n, dt = SCALES[case['scale']]
            extra = (([lo + st * (1 + i * 3 % (n - 1))
                       for i in range(len(rows))],
                      (lo, lo + st * (n - 1), st)), dt)
        elif 'binary' in case:
            extra = (M.scores_for('LogisticPMF', len(rows)), case['binary'])
        w = World(case['model'], li, kind, rows, *extra)
        where = '%s %r' % (case['model'], M.LAYOUT[li])
        for n, op in enumerate(hist):
            if not w.do(op, n):
                break
            t.step()
            p = M.pub(w.m)
            expect(p == w.pub, 'model-changed', where, history=hist[:n + 1],
                   attributes=M.pub_diff(p, w.pub) if p != w.pub else [])
            got = np.array(w.m.predict(w.q))
            expect(np.array_equal(got, w.pred), 'prediction-changed', where,
                   history=hist[:n + 1], got=got.tolist(),
                   want=w.pred.tolist())
            t.ev()
            if w.dead:
                break
            w.same(where, hist[:n + 1])
            t.state((case['model'], case['cfg'], w.model.key()))
        else:
            t.trace()
    t.sample({'case': case, 'last history': hist})
