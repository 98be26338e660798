"""
The reference model of data containers: plain lists of events expressed by
external ids.  It knows nothing about internal ids.
"""
import numpy as np

from .core import Violation, expect, short
from .gen import py, rowval


class RefData(object):

    def __init__(self, n_otypes, otypes):
        self.n_otypes, self.otypes = n_otypes, tuple(otypes)
        self.events = None      # list of tuples of external ids
        self.evf = None         # list of values, or None
        self.score = None
        self.domain = None
        self.feature = [None] * n_otypes   # dict eid -> row value, or None

    def copy(self):
        r = RefData(self.n_otypes, self.otypes)
        r.events = None if self.events is None else list(self.events)
        r.evf = None if self.evf is None else list(self.evf)
        r.score = None if self.score is None else list(self.score)
        r.domain = self.domain
        r.feature = [None if f is None else dict(f) for f in self.feature]
        return r

    def set_event(self, events, evf=None, score=None, domain=None):
        self.events = [tuple(py(x) for x in e) for e in events]
        self.evf = None if evf is None else [rowval(x) for x in evf]
        self.score = None if score is None else [py(s) for s in score]
        self.domain = None if domain is None else tuple(map(float, domain))
        self.feature = [None] * self.n_otypes

    def set_feature(self, otype, eids, rows):
        objs = self.objects(otype)
        self.feature[otype] = {
            e: v for e, v in zip([py(e) for e in eids],
                                 [rowval(r) for r in rows]) if e in objs}

    def select(self, idx):
        """a new model consisting of the events at idx"""
        r = self.copy()
        r.events = [self.events[i] for i in idx]
        r.evf = None if self.evf is None else [self.evf[i] for i in idx]
        r.score = None if self.score is None else [
            self.score[i] for i in idx]
        for o in range(self.n_otypes):
            if r.feature[o] is not None:
                objs = r.objects(o)
                r.feature[o] = {
                    e: v for e, v in r.feature[o].items() if e in objs}
        return r

    def binarize(self, thresh=None):
        if thresh is None:
            thresh = (self.domain[0] + self.domain[1]) / 2.
        self.score = [0 if s <= thresh else 1 for s in self.score]
        self.domain = (0., 1., 1.)

    def objects(self, otype):
        return set(e[c] for e in self.events
                   for c in range(len(self.otypes))
                   if self.otypes[c] == otype)

    def key(self):
        return repr((self.otypes, self.events, self.evf, self.score,
                     self.domain,
                     [None if f is None else sorted(f.items(), key=repr)
                      for f in self.feature]))


def feq(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def compare(data, ref, unknown=(), where=''):
    """the observable content of a real container against the model"""
    s = len(ref.otypes)
    expect(data.n_otypes == ref.n_otypes, 'n_otypes', where)
    expect(data.s_event == s, 's_event', where, got=data.s_event, want=s)
    expect([py(x) for x in data.event_otypes] == list(ref.otypes),
           'event_otypes', where)
    if ref.events is None:
        expect(data.event is None, 'no-event', where)
        return
    n = len(ref.events)
    expect(data.n_events == n, 'n_events', where, got=data.n_events, want=n)
    # internal ids
    back = []
    for o in range(ref.n_otypes):
        objs = ref.objects(o)
        expect(int(data.n_objects[o]) == len(objs), 'n_objects', where,
               otype=o, got=data.n_objects[o], want=len(objs))
        expect(len(data.eid[o]) == len(objs), 'eid-length', where, otype=o)
        expect(len(data.iid[o]) == len(objs), 'iid-length', where, otype=o)
        names = [py(data.to_eid(o, i)) for i in range(len(objs))]
        expect(set(names) == objs and len(set(names)) == len(names),
               'eid-bijection', where, otype=o, got=names, want=objs)
        for i, e in enumerate(names):
            expect(data.to_iid(o, e) == i, 'to_iid-inverse', where, otype=o,
                   eid=e, got=data.to_iid(o, e), want=i)
            expect(py(data.eid[o][i]) == e, 'eid-table', where)
        for bad in (len(objs), len(objs) + 3, -1, -len(objs) - 1):
            raises(ValueError, lambda: data.to_eid(o, bad),
                   'to_eid-out-of-range', '%s otype=%s iid=%s' % (
                       where, o, bad))
        for e in unknown:
            if e not in objs:
                raises(ValueError, lambda: data.to_iid(o, e),
                       'to_iid-unknown', '%s otype=%s eid=%r' % (
                           where, o, e))
        back.append(names)
    # events
    ev = np.asarray(data.event)
    expect(ev.shape == (n, s), 'event-shape', where, got=ev.shape,
           want=(n, s))
    expect(ev.dtype.kind in 'iu', 'event-dtype', where, got=ev.dtype)
    got = [tuple(back[ref.otypes[c]][ev[i, c]]
                 if 0 <= ev[i, c] < len(back[ref.otypes[c]]) else None
                 for c in range(s)) for i in range(n)]
    expect(got == ref.events, 'events', where, got=got, want=ref.events)
    # event features
    if ref.evf is None:
        expect(data.event_feature is None, 'event_feature-none', where)
    else:
        expect(data.event_feature is not None, 'event_feature-lost', where)
        f = [rowval(x) for x in data.event_feature]
        expect(f == ref.evf, 'event_feature', where, got=f, want=ref.evf)
    # object features
    for o in range(ref.n_otypes):
        if ref.feature[o] is None:
            expect(data.feature[o] is None, 'feature-stale', where, otype=o,
                   got=data.feature[o])
        else:
            expect(data.feature[o] is not None, 'feature-lost', where,
                   otype=o)
            f = [rowval(x) for x in data.feature[o]]
            want = [ref.feature[o][e] for e in back[o]]
            expect(f == want, 'feature', where, otype=o, got=f, want=want)
    # scores
    if ref.score is not None:
        sc = [py(x) for x in data.score]
        expect(sc == ref.score, 'score', where, got=sc, want=ref.score)
        d = [float(x) for x in data.score_domain]
        expect(len(d) == 3 and all(feq(a, b) for a, b in zip(d, ref.domain)),
               'score_domain', where, got=d, want=ref.domain)
        nl = int(round((ref.domain[1] - ref.domain[0]) / ref.domain[2])) + 1
        expect(data.n_score_levels == nl, 'n_score_levels', where,
               got=data.n_score_levels, want=nl)


def raises(exc, fn, key, msg=''):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(key, '{} raised {} ({}) instead of {}'.format(
            msg, type(e).__name__, short(str(e), 100), exc))
    raise Violation(key, '{} returned {} instead of raising {}'.format(
        msg, short(r, 100), exc))


def snapshot(*objs):
    """structural fingerprint of arbitrary values, arrays included"""
    return tuple(_snap(o) for o in objs)


def _snap(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('O', o.shape, tuple(_snap(x) for x in o.ravel()))
        return ('A', o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, dict):
        return ('D', tuple(sorted(((repr(k), _snap(v))
                                   for k, v in o.items()))))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(_snap(x) for x in o))
    if isinstance(o, np.random.RandomState):
        s = o.get_state()
        return ('R', s[0], s[1].tobytes(), s[2:])
    if isinstance(o, np.generic):
        return ('G', repr(o))
    if hasattr(o, '__dict__') and type(o).__module__.startswith(
            ('kamrecsys', 'checks')):
        return ('X', type(o).__name__, _snap(
            {k: v for k, v in vars(o).items() if not k.startswith('_')}))
    return repr(o)


def spoil(x):
    """overwrite everything that was returned to the caller"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = np.full((), 77).astype(x.dtype)
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            del x[:]
