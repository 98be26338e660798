"""Features and scores of many numeric types, carried through operations on
containers: values, types and shapes of the rows have to stay the same."""
import numpy as np

from . import gen
from .core import expect

KINDS = ('int2d', 'i1', 'u1', 'u8', 'f4', 'bool', 'obj', '3d', 'long',
         'bytes', 'nested', 'nan', 'extreme', 'date', 'wide', 'fortran',
         'readonly', 'empty', 'record', 'strided', 'column', 'column-str',
         '1x1')


def rows(kind, keys):
    """an array whose rows identify the keys (small integers)"""
    k = np.array(list(keys), dtype=int)
    n = len(k)
    if kind == 'column':
        return (k * 3 - 50.5).reshape(n, 1)
    if kind == 'column-str':
        return np.array(['c%d' % j for j in k], dtype='U9').reshape(n, 1)
    if kind == '1x1':
        return (k * 2 + 7).reshape(n, 1, 1)
    if kind == 'int2d':
        return np.c_[-k, k * 3, 7 - k * k, k * 0 - 1]
    if kind == 'i1':
        return (k % 251 - 125).astype('i1')
    if kind == 'u1':
        return np.c_[k % 256, 255 - k % 256, k // 256].astype('u1')
    if kind == 'u8':
        return (2 ** 63 + k.astype('u8') * 1025).astype('u8')
    if kind == 'f4':
        return (k / 3.).astype('f4')
    if kind == 'bool':
        return np.array([[(x >> b) & 1 for b in range(14)] for x in k],
                        dtype=bool).reshape(n, 14)
    if kind == 'obj':
        x = np.empty(n, dtype=object)
        for i, j in enumerate(k):
            x[i] = (None, 'name %d' % j, {'k': int(j)}, (int(j), -.5),
                    2 ** 70 + int(j))[j % 5]
        return x
    if kind == '3d':
        return (k[:, None, None] * 100 - 6 +
                np.arange(6).reshape(2, 3)) / 8.
    if kind == 'long':
        return np.array([u'\u5bff%d ' % j + 'x' * (j % 90) for j in k])
    if kind == 'bytes':
        return np.array([('\xe9t\xe9 %d' % j).encode('latin-1') for j in k])
    if kind == 'nested':
        x = np.zeros(n, dtype=[('a', [('b', 'f4'), ('c', 'U3')]),
                               ('d', 'i2', (2, 2)), ('e', '?')])
        x['a']['b'], x['a']['c'] = k / 7., (k % 999).astype('U3')
        x['d'] = -k[:, None, None] % 30000 - np.arange(4).reshape(2, 2)
        x['e'] = k % 2
        return x
    if kind == 'nan':
        return np.where(k % 3 == 0, np.nan, k + .25)
    if kind == 'extreme':
        return np.c_[np.where(k % 2, np.inf, -np.inf), k * 1e300,
                     5e-324 * k, -0. * k, 2. ** 53 - k]
    if kind == 'date':
        return np.datetime64('1997-09-20', 's') + k
    if kind == 'wide':
        return k[:, None] * 1000 + np.arange(40)[None, :]
    if kind == 'fortran':
        return np.asfortranarray(np.c_[k, -k, k + .5])
    if kind == 'readonly':
        x = np.c_[k, -k]
        x.flags.writeable = False
        return x
    if kind == 'empty':
        return np.zeros((n, 0))
    if kind == 'record':
        return np.rec.fromarrays([k, k / 3.], names='a,b')
    if kind == 'strided':
        return np.c_[k, k * 0, -k, k * 0][:, ::2]
    raise KeyError(kind)


def value(x):
    """comparable value of a row, types included"""
    if isinstance(x, np.void):
        return tuple(value(x[n]) for n in x.dtype.names)
    if isinstance(x, np.ndarray):
        return tuple(value(v) for v in x)
    return type(gen.py(x)).__name__ + ' ' + repr(gen.py(x))


def same(got, kind, keys, key, where=''):
    want = rows(kind, keys)
    expect(isinstance(got, np.ndarray), key + '-type', where)
    expect(got.shape == want.shape, key + '-shape', where, got=got.shape,
           want=want.shape, kind=kind)
    # (the width of strings is that of the longest one supplied)
    expect(not len(want) or got.dtype.kind == want.dtype.kind and (
        got.dtype.kind in 'SU' or got.dtype == want.dtype),
        key + '-dtype', where, got=got.dtype,
           want=want.dtype, kind=kind)
    if got.dtype == want.dtype and got.dtype != object and \
            got.tobytes() == want.tobytes():
        return
    g, w = [value(x) for x in got], [value(x) for x in want]
    bad = [i for i in range(len(w)) if g[i] != w[i]]
    expect(not bad, key, where, kind=kind, row=bad[:1],
           got=[g[i] for i in bad[:1]], want=[w[i] for i in bad[:1]])


SCORES = {
    'fraction': lambda k: .25 + k % 17 * .5, 'f4': lambda k: (
        1 + k % 9 / 3.).astype('f4'), 'int': lambda k: 1 + k % 5,
    'negative': lambda k: -3 - k % 7, 'i1': lambda k: (
        k % 255 - 127).astype('i1'), 'u1': lambda k: (k % 256).astype('u1'),
    'i4': lambda k: (k % 10 * 100000).astype('i4'), 'f2': lambda k: (
        k % 9 / 2.).astype('f2'), 'tiny': lambda k: 1 + k % 3 * 2. ** -50,
    'large': lambda k: 2 ** 53 + 2 * (k % 5)}


class World(object):
    """one container with features and scores, and what it should contain"""

    def __init__(self, cls, otypes, n_ot, n, evk=None, objk=(), score=None,
                 shape=0):
        from kamrecsys import data as kd
        ev = gen.event_array(gen.large_rows(n, otypes, shape), 'int', otypes)
        self.otypes, self.n_ot = otypes, n_ot
        self.evk, self.objk, self.score = evk, {}, score
        self.d = getattr(kd, cls)(n_otypes=n_ot, event_otypes=otypes)
        kw = {} if evk is None else {
            'event_feature': rows(evk, range(n))}
        if score is None and cls == 'EventWithScoreData':
            score = self.score = 'fraction'
        if score is None:
            self.d.set_event(ev, **kw)
        else:
            sc = SCORES[score](np.arange(n))
            step = 1 if sc.dtype.kind in 'iu' else .25
            self.domain = [float(sc.min()), float(sc.max()), step]
            self.d.set_event(ev, sc, tuple(self.domain), **kw)
        self.binary = False
        self.keep = list(range(n))
        self.events = [tuple(int(x) for x in e) for e in ev]
        for o, k in enumerate(objk):
            if k is not None:
                self.feature(o, k)

    def objects(self, o):
        return sorted(set(self.events[i][c] for i in self.keep
                          for c in range(len(self.otypes))
                          if self.otypes[c] == o))

    def feature(self, o, kind, order=1):
        """rows of objects in some order, among rows of unknown objects"""
        objs = self.objects(o)
        if not objs:
            return
        top = max(objs)
        ids = [top + 5] + objs[::-1][::2] + [-9] + objs[::-1][1::2] + [
            top + 3]
        if order == 2:
            ids = objs
        elif order == 3:
            ids = objs + [top + 1]
        f = rows(kind, [abs(e) % 5003 for e in ids])
        b = f.tobytes() if f.dtype != object else None
        self.d.set_feature(o, np.array(ids), f)
        expect(b is None or f.tobytes() == b, 'argument-changed',
               'set_feature', kind=kind)
        self.objk[o] = kind

    def filter(self, cond):
        n = len(self.keep)
        idx = np.arange(n)[cond]
        g = World.__new__(World)
        g.__dict__.update(self.__dict__)
        g.objk = dict(self.objk)
        g.d = self.d.filter_event(cond)
        g.keep = [self.keep[i] for i in idx]
        return g

    def binarize(self, thresh=None):
        self.d.binarize_score(thresh)
        self.thresh = sum(self.domain[:2]) / 2. if thresh is None else thresh
        self.binary = True

    def check(self, where):
        d = self.d
        e = d.to_eid_event(d.event)
        expect([tuple(int(x) for x in r) for r in e] ==
               [self.events[i] for i in self.keep], 'events', where)
        if self.evk is None:
            expect(d.event_feature is None, 'event_feature', where)
        else:
            same(np.asarray(d.event_feature), self.evk, self.keep,
                 'event_feature', where)
        for o in range(self.n_ot):
            if o not in self.objk:
                expect(d.feature[o] is None, 'feature', where, otype=o)
                continue
            objs = [int(d.to_eid(o, i)) for i in range(d.n_objects[o])]
            expect(sorted(objs) == self.objects(o), 'objects', where)
            same(np.asarray(d.feature[o]), self.objk[o],
                 [abs(e) % 5003 for e in objs], 'feature', where)
        if self.score is None:
            return
        sc = SCORES[self.score](np.array(self.keep, dtype=int))
        if self.binary:
            want = [0 if float(x) <= self.thresh else 1 for x in sc]
            expect([float(x) for x in d.score] == want, 'score', where,
                   got=d.score)
            expect([float(x) for x in d.score_domain] == [0., 1., 1.] and
                   d.n_score_levels == 2, 'score_domain', where)
        else:
            got = np.asarray(d.score)
            expect([gen.py(x) for x in got] == [gen.py(x) for x in sc],
                   'score', where, got=got, want=sc)
            expect(got.dtype.kind == sc.dtype.kind, 'score-type', where,
                   got=got.dtype, want=sc.dtype)
            expect([float(x) for x in d.score_domain] == self.domain,
                   'score_domain', where, got=d.score_domain)


LAYOUT = [((0, 1), 2), ((0, 0), 1), ((1, 0, 2), 3), ((0,), 1)]


def conds(n):
    i = np.arange(n)
    return [i != n // 2, i % 2 == 1, i == n - 1, np.ones(n, bool), i[::-1],
            (i * 3 + 1) % n, i[:n // 2 + 1], np.array([n - 1, 0, n - 1, -1]),
            i < 0]
