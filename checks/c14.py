"""C14: a fit depends only on its data, the hyper-parameters and the seed."""
import itertools

import numpy as np

from mc import env, fault, gen, models as M, ref, xproc
from mc.core import expect

LEVEL = 'fault_enumeration'
RULE = ('(a) every sequence, up to the depth, of earlier operations on the '
        'same model object (fits to two other data sets, rejected fits, an '
        'optimizer that fails, predictions, changes of the global generator, '
        'fits of another model) precedes a fit; (b) an earlier fit is '
        'interrupted before every single line (or call) it executes.  The '
        'model fitted afterwards must equal, bit for bit in all published '
        'attributes and predictions, a new object fitted to the same data; '
        'the global generator must not be consumed.  (c) the fit is repeated '
        'in processes with other hash seeds, and with every pair of options '
        'of the optimizer on one object.  Non-trivial: a '
        'distinct history or interruption point.')
BOUNDS = {'quick': 'depth 2 and 3; interruption before every line of one '
                   'fit per model; 4 histories of 65-1025 events', 'thorough': 'depth 4; interruption '
                   'before every line of 6 fits per model'}
ASSUMPTIONS = ['the optimizer is deterministic']

NAMES = M.MODELS + ('MultinomialPLSA',)
OPS = ('fitA', 'fitB', 'fitC', 'reject', 'fail', 'predict', 'global',
       'other')


def cases(tier):
    th = tier == 'thorough'
    for name in NAMES:
        for first in OPS:
            for second in OPS:
                yield {'model': name, 'first': [first, second],
                       'depth': 4 if th else 3}
        for cfg in range(6 if th else 1):
            for part in range(16):
                yield {'model': name, 'fault': part, 'of': 16, 'cfg': cfg}
        for op in CHANGES:
            yield {'model': name, 'same': op, 'depth': 4 if th else 3}
        yield {'model': name, 'seeds': True}
        for n in (900, 1030, 2060, 4100) + ((20011,) if th else ()):
            yield {'model': name, 'objects': n}
        yield {'model': name, 'processes': [5, 33, 70, 130, 260, 515, 1001]
               + ([4099] if th else [])}
        yield {'model': name, 'options': 3 if th else 2}
        for n in (65, 129, 257, 513, 1001, 1025) + ((4097,) if th else ()):
            for sh in (1,) if n > 130 else (0, 1, 3):
                yield {'model': name, 'large': n, 'shape': sh}


SEEDS = list(range(7)) + [
    2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 65536, 123456789, np.int64(5),
    np.int32(6), np.uint32(2 ** 32 - 1), np.uint8(200)]


def objects(case, t):
    """many users, or many items: the seed alone decides"""
    from kamrecsys.data import EventData, EventWithScoreData
    name, n = case['model'], case['objects']
    for rows in ([(i, i * 3 % 4) for i in range(n)],
                 [(i * 3 % 4, i) for i in range(n)]):
        ev = np.array(rows)
        q = ev[:: n // 50 + 1]
        d = (EventData if name[0] == 'I' else EventWithScoreData)()
        if name[0] == 'I':
            d.set_event(ev)
        else:
            sc = np.arange(n) * 7 % 11 % (2 if name[0] == 'L' else 5)
            d.set_event(ev, sc if name[0] == 'L' else sc + 1,
                        (0, 1, 1) if name[0] == 'L' else (1, 5, 1))
        res = []
        for how in range(3):
            m = M.make(name, k=2, seed=6, **dict(kwargs(name), maxiter=1))
            np.random.seed(how)
            before = rng()
            with env.controlled(M.quick_hook(1)):
                m.fit(d)
            expect(rng() == before, 'global-generator', name, objects=n)
            res.append((M.pub(m), np.array(m.predict(q)).tobytes()))
            t.ev()
        expect(res[0] == res[1] == res[2], 'not-reproducible', name,
               objects=n)
        t.sig((name, n, rows[1]))
    t.sample({'case': case})


def data(name):
    a = M.Case(name, M.LAYOUT[0], 'int', M.rows3(7, 3, 2), 0)
    b = M.Case(name, M.LAYOUT[6], 'str', M.rows3(9, 4, 3, 1), 1)
    c = M.Case(name, M.LAYOUT[4], 'int', M.rows3(6, 2, 2, 2), 2)
    return {'A': a, 'B': b, 'C': c}


def kwargs(name):
    return {'maxiter': 3} if name == 'MultinomialPLSA' else {
        'maxiter': 2, 'C': .1}


def queries(c):
    us, it = c.objects(c.types[0])[-9:], c.objects(c.types[1])[:9]
    un = c.unknown()[:1]
    return np.array([c.query(u, i) for u in us + un for i in it + un],
                    dtype=gen.QDTYPE[c.kind])


class Fresh(object):
    """results of fitting new objects"""

    def __init__(self, name, d, seed=4):
        self.m = {}
        for x in d:
            m = M.make(name, k=2, seed=seed, **kwargs(name))
            d[x].fit(m)
            p = np.array(m.predict(queries(d[x])))
            self.m[x] = (M.pub(m), p)


def judge(m, name, d, fresh, x, where, t):
    d[x].fit(m)
    p = M.pub(m)
    w, wp = fresh.m[x]
    expect(p == w, 'fit-depends-on-history', where,
           attributes=M.pub_diff(p, w) if p != w else [])
    got = np.array(m.predict(queries(d[x])))
    expect(np.array_equal(got, wp), 'prediction-depends-on-history', where)
    t.ev()


def do(op, m, name, d, n):
    if op.startswith('fit'):
        d[op[-1]].fit(m)
    elif op == 'reject':
        try:
            m.fit(None)
        except Exception:
            pass
    elif op == 'fail':
        def hook(fun, x0, **kw):
            f, g = env.closure(fun, x0, kw)
            f(np.array(x0) + 1.)
            x0[...] = 9.
            raise FloatingPointError('optimizer failed')
        try:
            d['B'].fit(m, hook)
        except FloatingPointError:
            pass
    elif op == 'predict':
        try:
            m.predict(queries(d['A']))
        except Exception:
            pass
    elif op == 'global':
        np.random.seed(n)
        np.random.normal(size=n % 7)
    elif op == 'other':
        o = M.make(name, k=1, seed=n, **kwargs(name))
        d['B'].fit(o)
        o.predict(queries(d['B']))


def rng():
    return ref.snapshot(np.random.mtrand._rand)


def digest(arg):
    """fits to data of several sizes and kinds of ids"""
    name = arg['model']
    out = {}
    for n in arg['sizes']:
        for kind in ('int', 'str'):
            for shape in (0, 1):
                if shape == 0 and n > 300 and name.startswith('Implicit'):
                    continue
                lay = M.LAYOUT[(n + shape) % 3 * 2]
                c = M.Case(name, lay, kind, gen.large_rows(
                    n, lay[0], shape), 1)
                m = M.make(name, k=3, seed=4, **kwargs(name))
                c.fit(m)
                out['%s %d %s %d' % (name, n, kind, shape)] = xproc.sha(
                    M.pub(m), np.array(m.predict(queries(c))))
    return out


# options of the optimizer, of which every pair is combined
OPTIONS = {
    'pmf': [{}, {'method': 'CG'}, {'method': 'BFGS'},
            {'method': 'L-BFGS-B', 'tol': 1e-2}, {'tol': 1e-1},
            {'method': 'TNC'}, {'method': 'BFGS', 'maxiter': 1}],
    'plsa': [{'tol': .1}, {'maxiter': 0}, {'maxiter': 7}, {'alpha': .2}]}


def options(case, t):
    """one object fitted again and again with its options; other objects
    with other options between"""
    name = case['model']
    d = data(name)
    opts = OPTIONS['plsa' if name == 'MultinomialPLSA' else 'pmf']
    full = [dict(kwargs(name), **o) for o in opts]

    def new(o):
        return M.make(name, k=2, seed=3, **dict(o))
    alone = []
    for o in full:
        r = {}
        for x in 'AC':
            m = new(o)
            d[x].fit(m)
            r[x] = M.pub(m), np.array(m.predict(queries(d[x])))
        alone.append(r)
    expect(name == 'ImplicitLogisticPMF' or
           len(set(repr(r['A'][0]) for r in alone)) > 2, 'harness',
           'options without effect')
    for ia, ib in itertools.product(range(len(full)), repeat=2):
        for hist in itertools.product('AC', repeat=case['options']):
            objs = [new(full[ia]), new(full[ib])]
            kept = [dict(full[ia]), dict(full[ib])]
            for n, x in enumerate(hist + ('A', 'C')):
                for m, i in zip(objs, (ia, ib)):
                    where = '%s %r fit %d to %s after %r' % (
                        name, full[i], n, x, hist[:n])
                    d[x].fit(m)
                    p = M.pub(m)
                    expect(p == alone[i][x][0], 'fit-depends-on-history',
                           where, attributes=M.pub_diff(p, alone[i][x][0]))
                    expect(np.array_equal(m.predict(queries(d[x])),
                                          alone[i][x][1]),
                           'prediction-depends-on-history', where)
                    t.ev()
            expect([dict(full[ia]), dict(full[ib])] == kept,
                   'options-modified', name)
            t.sig((name, ia, ib, hist))
    t.sample({'case': case})


# changes of the one container that is fitted again and again
CHANGES = ('none', 'event', 'rows', 'more', 'score', 'inplace', 'domain',
           'types')


class Same(object):
    """a container that changes between fits, and its content"""

    def __init__(self, name):
        from kamrecsys import data as kd
        self.name = name
        self.rows = np.array([[1, 10], [2, 20], [3, 10], [3, 20], [4, 30],
                              [1, 30], [2, 10]])
        n = len(self.rows)
        self.ids = int
        if name == 'LogisticPMF':
            self.score, self.dom = np.arange(n) % 2 * 1., (0, 1, 1)
        else:
            self.score, self.dom = 1. + np.arange(n) * 3 % 5, (1, 5, 1)
        self.binary = name == 'LogisticPMF'
        self.d = kd.EventWithScoreData()
        self.store()

    def ext(self):
        return self.rows.astype(str) if self.ids is str else self.rows.copy()

    def store(self, d=None):
        (self.d if d is None else d).set_event(
            self.ext(), self.score.copy(), self.dom)

    def change(self, op):
        n = len(self.rows)
        if op == 'event':       # the same size, other events
            self.rows = self.rows.copy()
            self.rows[:, 1] = np.roll(self.rows[:, 1], 1)
            self.store()
        elif op == 'rows':      # the same objects, rows in another order
            self.rows = np.roll(self.rows, 2, axis=0)
            self.store()
        elif op == 'more':      # more events and objects, or fewer
            if n % 2:
                self.rows = np.r_[self.rows, [[5, 20]]]
                self.score = np.r_[self.score, self.score[:1]]
            else:
                self.rows, self.score = self.rows[:-1], self.score[:-1]
            self.store()
        elif op == 'score':
            self.score = np.roll(self.score, 1)
            self.store()
        elif op == 'inplace':   # written by hand into the container
            a, b = int(np.argmax(self.score)), int(np.argmin(self.score))
            self.score = self.score.copy()
            self.score[[a, b]] = self.score[[b, a]]
            self.d.score[[a, b]] = self.d.score[[b, a]]
            self.rows = self.rows.copy()
            self.rows[[0, 1], 1] = self.rows[[1, 0], 1]
            self.d.event[[0, 1], 1] = self.d.event[[1, 0], 1]
        elif op == 'domain':
            if not self.binary:
                self.dom = (1, 5, 1) if self.dom == (1, 9, 2) else (1, 9, 2)
            self.store()
        elif op == 'types':
            self.ids = int if self.ids is str else str
            self.store()

    def queries(self):
        us = sorted(set(self.rows[:, 0])) + [77]
        it = sorted(set(self.rows[:, 1])) + [77]
        q = np.array([(u, i) for u in us for i in it])
        return q.astype(str) if self.ids is str else q

    def fresh(self):
        from kamrecsys import data as kd
        d = kd.EventWithScoreData()
        self.store(d)
        m = M.make(self.name, k=2, seed=4, **kwargs(self.name))
        m.fit(d)
        return m


def same(case, t):
    """one model and one container whose content changes between the fits"""
    name = case['model']
    for rest in itertools.product(CHANGES, repeat=case['depth'] - 1):
        w = Same(name)
        m = M.make(name, k=2, seed=4, **kwargs(name))
        m.fit(w.d)
        hist = (case['same'],) + rest
        for n, op in enumerate(hist):
            w.change(op)
            m.fit(w.d)
            f = w.fresh()
            where = '%s: fits to one container changed by %s' % (
                name, hist[:n + 1])
            a, b = M.pub(m), M.pub(f)
            expect(a == b, 'fit-depends-on-history', where,
                   attributes=M.pub_diff(a, b) if a != b else [])
            expect(np.array_equal(m.predict(w.queries()),
                                  f.predict(w.queries())),
                   'prediction-depends-on-history', where)
            t.ev()
        t.sig((name, hist))
    t.sample({'case': case})


def run(case, t):
    name = case['model']
    if 'same' in case:
        return same(case, t)
    if 'processes' in case:
        d = xproc.digests('checks.c14', {
            'model': name, 'sizes': case['processes']}, t)
        t.sample({'case': case, 'first': sorted(d.items())[0]})
        return
    if 'options' in case:
        return options(case, t)
    if 'objects' in case:
        return objects(case, t)
    d = data(name)
    np.random.seed(77)
    if 'seeds' in case:
        res = []
        ranks = [1, 2, 3, 7]
        more = list(range(4, 18)) + [20, 24, 31, 32, 33, 50, 64, 65]
        for seed, k in list(itertools.product(SEEDS, ranks)) + [
                (4, k) for k in more]:
            if seed not in range(1, 7) and k != 2:
                continue
            r = []
            for how in range(4):
                rs = np.random.RandomState(seed) if how >= 2 else seed
                if how == 3:
                    rs = np.random.RandomState(0)
                    rs.set_state(np.random.RandomState(seed).get_state())
                m = M.make(name, k=k, seed=rs, **kwargs(name))
                np.random.seed(how)
                before = rng()
                d['A'].fit(m)
                expect(rng() == before, 'global-generator', name, how=how)
                r.append(np.array(m.predict(queries(d['A']))))
                t.ev()
                # the same seed again, on the same object
                if how < 2:
                    d['A'].fit(m)
                    r.append(np.array(m.predict(queries(d['A']))))
            expect(all(np.array_equal(x, r[0]) for x in r),
                   'not-reproducible', name, seed=seed)
            res.append(r[0].tobytes())
            t.sig((name, seed, k))
        expect(len(set(res)) > 1, 'seed-ignored', name)
        t.sample({'case': case})
        return
    if 'large' in case:
        li = (0, 6, 4)[case['large'] % 3]
        d['L'] = M.Case(name, M.LAYOUT[li], 'int', gen.large_rows(
            case['large'], M.LAYOUT[li][0], case['shape']), 1)
        d['N'] = M.Case(name, M.LAYOUT[li], 'int', gen.large_rows(
            case['large'] // 2 + 3, M.LAYOUT[li][0], case['shape']), 1)
        fresh = Fresh(name, d)
        for hist in ('LLAL', 'ALNL', 'NLLN', 'BLCL'):
            m = M.make(name, k=2, seed=4, **kwargs(name))
            for n, x in enumerate(hist):
                judge(m, name, d, fresh, x, '%r %s' % (case, hist[:n + 1]),
                      t)
                if n == 1:
                    do('fail', m, name, d, n)
                    do('predict', m, name, d, n)
            t.sig((name, case['large'], case['shape'], hist))
        t.sample({'case': case})
        return
    fresh = Fresh(name, d)
    if 'fault' in case:
        x, y = 'ABC'[case['cfg'] % 3], 'ACB'[case['cfg'] // 2]
        m = M.make(name, k=2, seed=4, **kwargs(name))
        if case['cfg'] % 2:
            d['A'].fit(m)
        with fault.at(None) as f:
            d[x].fit(m)
        total = f.count
        for n in range(case['fault'], total, case['of']):
            m = M.make(name, k=2, seed=4, **kwargs(name))
            if case['cfg'] % 2:
                d['A'].fit(m)
            before = rng()
            with fault.at(n) as f:
                d[x].fit(m)
            where = '%s: fit to %s interrupted before step %d (%s)' % (
                name, x, n, f.fired)
            for z in (y, x):
                judge(m, name, d, fresh, z, where, t)
            expect(rng() == before, 'global-generator', where)
            t.sig((name, case['cfg'], n))
        t.sample({'case': case, 'interruption points': total})
        return
    for depth in (2, 3) if case['depth'] == 3 else (2, 3, 4):
        for rest in itertools.product(OPS, repeat=depth - 2):
            hist = tuple(case['first']) + rest
            m = M.make(name, k=2, seed=4, **kwargs(name))
            for n, op in enumerate(hist):
                do(op, m, name, d, n + 3)
            before = rng()
            for x in ('A', 'C') if depth == 2 else ('A',):
                judge(m, name, d, fresh, x, '%s after %s' % (name, hist), t)
            expect(rng() == before, 'global-generator', name)
            t.sig((name, hist))
    t.sample({'case': case, 'last history': hist})
