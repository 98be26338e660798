"""Containers of thousands of objects and events against array oracles.

The expected content is held as arrays of external ids; the value of every
feature is a function of the external id, so that whole tables are compared at
once.  Internal ids are free, but must be 0..n-1 and one to one."""
import numpy as np

from .core import expect

# around 2^12, 2^13, 2^14, 2^15, 2^16, 2^17 and decimal thresholds
SIZES = (2049, 4097, 8193, 10001, 16385, 20001, 32767, 32768, 32769, 40000,
         50001, 65535, 65536, 65537, 70001)
MORE = (99999, 100001, 131071, 131073, 262145)

# event_otypes, n_otypes
LAYOUT = (((0, 1), 2), ((0, 0), 1), ((1, 0, 2), 3), ((0, 1, 0), 2))


def code(e):
    """number that stands for an external id"""
    if e.dtype.kind in 'iu':
        return e.astype(np.int64)
    return np.array([int(x[1:]) for x in e], dtype=np.int64)


def feature(e, kind):
    """rows of features of the objects of external ids e"""
    c = code(e)
    if kind == '1d':
        return c * 3 + 1
    if kind == '2d':
        return np.stack([c * .5, -c], axis=1)
    f = np.empty(len(c), dtype=[('a', int), ('s', 'U9')])
    f['a'] = c + 7
    f['s'] = [str(x) for x in c]
    return f


class World(object):

    def __init__(self, n, layout, shape, kind='int', cls=None, salt=0):
        from kamrecsys import data as kd
        self.ot, self.n_ot = LAYOUT[layout]
        s = len(self.ot)
        i = np.arange(n)
        ev = np.empty((n, s), dtype=int)
        for c in range(s):
            m = {0: n - c, 1: 13 + c, 2: n if c == 0 else 17,
                 3: n - 3 if c == s - 1 else 19 + c}[shape]
            st = (1, 7, 11)[c] if m % (7 * 11) else 1
            st = st if m % st or st == 1 else 1
            ev[:, c] = (i * st + 3 * c + i // m) % m
        # neither consecutive nor in the order of appearance
        ext = (ev * 7919) % 1000003 + 5 + 11 * np.array(self.ot)
        if kind == 'str':
            ext = np.array(['x%07d' % x for x in ext.ravel()]).reshape(
                ext.shape)
        self.kind, self.ext = kind, ext
        self.score = None
        self.evf = None
        cls = cls or ('EventWithScoreData', 'EventData')[salt % 2]
        self.d = getattr(kd, cls)(n_otypes=self.n_ot, event_otypes=self.ot)
        if salt % 3 != 1:
            self.evf = np.empty(n, dtype=[('t', int), ('w', float)])
            self.evf['t'] = i * 5 + 1
            self.evf['w'] = i * .25
        kw = {} if self.evf is None else {'event_feature': self.evf.copy()}
        if cls == 'EventData':
            self.d.set_event(ext.copy(), **kw)
        else:
            self.score = 1. + (i * 3 + i // 7) % 5
            self.dom = (1., 5., 1.)
            self.d.set_event(ext.copy(), self.score.copy(), self.dom, **kw)
        self.fk = [None] * self.n_ot

    def objects(self, o):
        return np.unique(self.ext[:, [c for c, x in enumerate(self.ot)
                                      if x == o]])

    def set_feature(self, o, kind, superset=True):
        e = self.objects(o)
        j = np.arange(len(e))
        e = e[np.argsort((j * 31) % 997, kind='stable')]
        if superset:
            more = np.arange(2000000, 2000000 + len(e) // 3 + 2)
            if self.kind == 'str':
                more = np.array(['x%07d' % x for x in more])
            e = np.concatenate([more[:2], e, more[2:]])
        self.d.set_feature(o, e, feature(e, kind))
        self.fk[o] = kind

    def filter(self, cond):
        w = object.__new__(World)
        w.__dict__.update(self.__dict__)
        w.fk = list(self.fk)
        w.d = self.d.filter_event(cond)
        w.ext = self.ext[cond]
        if self.score is not None:
            w.score = self.score[cond]
        if self.evf is not None:
            w.evf = self.evf[cond]
        return w

    def binarize(self, thresh=None):
        self.d.binarize_score(thresh)
        if thresh is None:
            thresh = (self.dom[0] + self.dom[1]) / 2
        self.score = (self.score > thresh).astype(int)
        self.dom = (0., 1., 1.)

    def check(self, where, conversions=True):
        d = self.d
        n = len(self.ext)
        expect(d.n_events == n, 'n_events', where, got=d.n_events, want=n)
        event = np.asarray(d.event)
        expect(event.shape == self.ext.shape and event.dtype.kind in 'iu',
               'event-shape', where, got=event.shape)
        for o in range(self.n_ot):
            objs = self.objects(o)
            e = np.asarray(d.eid[o])
            expect(len(e) == len(objs) == int(d.n_objects[o]) ==
                   len(d.iid[o]), 'n_objects', where, otype=o,
                   got=(len(e), d.n_objects[o], len(d.iid[o])),
                   want=len(objs))
            expect(np.array_equal(np.sort(e), objs), 'eid-bijection', where,
                   otype=o)
            expect(all(d.iid[o].get(k) == i for i, k in enumerate(
                e.tolist())), 'to_iid-inverse', where, otype=o)
            if self.fk[o] is None:
                expect(d.feature[o] is None, 'feature-stale', where, otype=o)
            else:
                want = feature(e, self.fk[o])
                got = np.asarray(d.feature[o])
                expect(got.shape == want.shape and np.array_equal(got, want),
                       'feature', where, otype=o)
            for i in (0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
                      len(e) - 1):
                if i < len(e):
                    expect(d.to_eid(o, i) == e[i], 'to_eid', where, otype=o,
                           iid=i)
                    expect(d.to_iid(o, e[i]) == i, 'to_iid', where, otype=o,
                           iid=i)
        back = np.empty_like(self.ext)
        for c, o in enumerate(self.ot):
            m = event[:, c]
            expect(n == 0 or (m.min() >= 0 and m.max() < len(d.eid[o])),
                   'event-range', where, column=c)
            back[:, c] = np.asarray(d.eid[o])[m]
        bad = np.nonzero((back != self.ext).any(axis=1))[0]
        expect(len(bad) == 0, 'events', where, first=bad[:3].tolist(),
               got=back[bad[:3]].tolist(), want=self.ext[bad[:3]].tolist())
        if self.evf is None:
            expect(d.event_feature is None, 'event_feature-none', where)
        else:
            expect(np.array_equal(d.event_feature, self.evf),
                   'event_feature', where)
        if self.score is not None:
            sc = np.asarray(d.score)
            expect(sc.shape == (n,) and np.array_equal(sc, self.score),
                   'score', where)
            expect(tuple(float(x) for x in d.score_domain) == self.dom,
                   'score_domain', where)
        if conversions:
            expect(np.array_equal(d.to_eid_event(event), self.ext),
                   'to_eid_event', where)
            q = self.ext[::-1].copy()
            want = event[::-1].copy()
            z = -3 if self.kind == 'int' else 'zz'
            for c in range(q.shape[1]):
                q[c::5, c] = z
                want[c::5, c] = len(d.eid[self.ot[c]])
            expect(np.array_equal(d.to_iid_event(q), want), 'to_iid_event',
                   where)

    def key(self):
        from . import core
        return core.h64(self.ext.tobytes() + repr(
            (self.ot, self.fk, self.evf is None,
             None if self.score is None else self.score.sum())).encode())


def configs(tier):
    for n in SIZES + (MORE if tier == 'thorough' else ()):
        for sh in range(4) if n < 20000 or tier == 'thorough' else (
                n % 2 * 2, 1 + n % 2 * 2):
            yield {'huge': n, 'shape': sh, 'lay': (n + sh) % 4,
                   'ids': 'str' if (n + sh) % 5 == 3 else 'int',
                   'salt': (n // 2 + sh) % 6}
    if tier != 'thorough':
        for n, sh in ((100001, 0), (131073, 2)):
            yield {'huge': n, 'shape': sh, 'lay': n % 2, 'ids': 'int',
                   'salt': n % 5}


def world(case, cls=None):
    return World(case['huge'], case['lay'], case['shape'], case['ids'], cls,
                 case['salt'])


def conds(n):
    """filters of n events"""
    i = np.arange(n)
    yield 'all', np.ones(n, bool)
    yield 'identity', i
    yield 'but one', i != n // 2
    yield 'even', i % 2 == 0
    yield 'tail', i >= n // 3
    yield 'reversed', i[::-1]
    yield 'strided', (i * 3) % n
    yield 'negative', -1 - i[:n // 2]
    yield 'repeated', i % 11
