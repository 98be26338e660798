"""C02: filter_event yields exactly the container of the surviving events."""
import itertools

import numpy as np

from mc import gen, huge, payload, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('states are contents of a container; transitions are filter_event '
        'calls with every boolean mask (and, on small sets, every index '
        'array); all chains up to the depth are executed on the real '
        'container and every state is compared with the list-based model and '
        'with a container rebuilt from the surviving events')
BOUNDS = {'quick': 'events <=2: all matrices; 3, 4: up to renaming of objects; '
                   'all masks, chains of 2 (1 for 4 events); ladder 63-1001',
          'thorough': 'events <=3: all matrices; 4, 5: up to renaming; all '
                      'masks, chains of 3 (2 for 3 events); ladder to 33000'}
ASSUMPTIONS = []


def cases(tier):
    th = tier == 'thorough'
    combos = []
    for cls in ('EventData', 'EventWithScoreData'):
        for ot, n_ot, n_obj in (((0, 1), 2, (3, 3)), ((1, 0), 2, (3, 2)),
                                ((0, 0), 1, (3, 3)), ((0, 1, 0), 2, (2, 2, 2)),
                                ((0,), 1, (4,)), ((2, 0), 3, (3, 2)),
                                ((0, 1, 2), 3, (2, 2, 2)),
                                ((1, 1), 2, (3, 3))):
            combos.append((cls, ot, n_ot, n_obj))
    for (cls, ot, n_ot, n_obj) in combos:
        for kind in ('int', 'str', 'neg', 'float', 'int8', 'uint64', 'bytes'):
            for nr in (1, 2, 3):
                if nr == 3 and kind != 'int' and not th:
                    continue
                yield {'cls': cls, 'ot': list(ot), 'n_ot': n_ot,
                       'n_obj': list(n_obj), 'kind': kind, 'rows': nr,
                       'depth': 2 if not th or nr > 2 else 3,
                       'canonical': nr == 3 and not th}
    for (cls, ot, n_ot, n_obj) in combos:
        # longer event lists: canonical object orders, all masks
        for nr in (4, 5) if th else (4,):
            if len(ot) == 3 and nr > 3 and not th:
                continue
            for part in range(8):
                yield {'cls': cls, 'ot': list(ot), 'n_ot': n_ot,
                       'n_obj': list(n_obj), 'kind': 'int', 'rows': nr,
                       'depth': 1, 'part': part, 'canonical': True}
    for i, k in enumerate(payload.KINDS):
        for j in range(4 if th else 2):
            yield {'payload': k, 'layout': (i + j) % 4, 'cls': (
                'EventWithScoreData', 'EventData')[j % 2],
                'sizes': [1, 2, 5, 70, 300] if th else [1, 2, 5, 70]}
    for i, k in enumerate(sorted(payload.SCORES)):
        yield {'scores': k, 'layout': i % 4,
               'sizes': [1, 2, 5, 70, 300, 1025]}
    for c in huge.configs(tier):
        yield c
    for n in gen.SIZES + ((1000, 1025, 4097, 33000) if th else (1001,)):
        for sh in range(4):
            if n < 5000:
                yield {'large': n, 'shape': sh, 'kind': ('int', 'str')[sh % 2],
                       'cls': ('EventWithScoreData', 'EventData')[n % 3 == 0],
                       'ot': [[0, 1], [0, 0], [1, 0, 2], [0, 1]][(n + sh) % 4],
                       'n_ot': 3}
    for n in (130, 300) + ((1000, 33000) if th else ()):
        for cls in ('EventData', 'EventWithScoreData'):
            for ot in ((0, 1), (0, 0)):
                for kind in ('int', 'str'):
                    yield {'ladder': n, 'cls': cls, 'ot': list(ot),
                           'n_ot': 2, 'kind': kind}


EVF = ('struct', None, '1d', '2d', 'str')


def build(case, rows, j):
    from kamrecsys import data as kd
    ot, n_ot = tuple(case['ot']), case['n_ot']
    ev = gen.event_array(rows, case['kind'], ot)
    r = ref.RefData(n_ot, ot)
    d = getattr(kd, case['cls'])(n_otypes=n_ot, event_otypes=ot)
    evf = gen.event_feature(EVF[j % 5], len(rows))
    if case['cls'] == 'EventData':
        d.set_event(ev, event_feature=evf)
        r.set_event(ev, evf)
    else:
        sc = np.array([(3 * i + j) % 5 + 1 for i in range(len(rows))],
                      dtype=float)
        d.set_event(ev, sc, (1, 5, 1), event_feature=evf)
        r.set_event(ev, evf, sc, (1, 5, 1))
    for o in range(n_ot):
        if (j + o) % 3 == 2:
            continue
        objs = sorted(r.objects(o), key=lambda e: repr(e)[::-1])
        fk = gen.FEATURE_KINDS[(j + o) % 4]
        f = gen.object_feature(fk, list(range(len(objs))))
        e = np.array(objs, dtype=gen.DTYPE[case['kind']])
        d.set_feature(o, e, f)
        r.set_feature(o, e, f)
    return d, r


def rebuilt(case, r):
    """a container made from scratch of the events in the model"""
    from kamrecsys import data as kd
    d = getattr(kd, case['cls'])(n_otypes=r.n_otypes, event_otypes=r.otypes)
    ev = np.array(r.events, dtype=gen.DTYPE[case['kind']]).reshape(
        len(r.events), len(r.otypes))
    if case['cls'] == 'EventData':
        d.set_event(ev)
    else:
        d.set_event(ev, np.array(r.score, dtype=float), r.domain)
    return d


def one(case, d, r, cond, idx, t):
    before = ref.snapshot(d, cond)
    got = d.filter_event(cond)
    expect(ref.snapshot(d, cond) == before, 'original-modified',
           'filter_event changed the original container', cond=cond)
    expect(got is not d and type(got) is type(d), 'not-a-copy')
    want = r.select(idx)
    ref.compare(got, want, unknown=r.objects(r.otypes[0]),
                where='filter=%r' % (cond,))
    # events of the result are convertible by the result itself
    if len(want.events):
        b = got.to_eid_event(got.event)
        expect([tuple(gen.py(x) for x in e) for e in b] == want.events,
               'to_eid_event-after-filter')
    t.ev()
    t.step()
    t.state(want.key())
    t.sig((len(want.events), want.key()))
    return got, want


def conds(n, full):
    """(condition, surviving positions): boolean masks and index arrays"""
    for m in itertools.product((True, False), repeat=n):
        idx = [i for i in range(n) if m[i]]
        yield np.array(m, dtype=bool), idx
    if full:
        for k in range(1, min(n, 3) + 1):
            for p in itertools.permutations(range(n), k):
                yield np.array(p, dtype=int), list(p)
        if n <= 3:
            # arrays of indexes with repetitions (as bootstrap samples)
            for k in range(1, n + 2):
                for p in itertools.product(range(n), repeat=k):
                    if len(set(p)) < k:
                        yield np.array(p, dtype=int), list(p)
            yield np.array([-1, 0]), [n - 1, 0]
        yield [True] * n, list(range(n))
        yield [False] * (n - 1) + [True], [n - 1]
        # other sequences of indexes or of truth values
        yield [], []
        yield [0], [0]
        yield tuple(range(n))[::-1], list(range(n))[::-1]
        yield (True,) + (False,) * (n - 1), [0]
        yield range(n - 1), list(range(n - 1))
        yield np.array([n - 1], dtype=np.int8), [n - 1]
        yield np.array([n - 1, 0], dtype=np.uint16), [n - 1, 0]
        yield np.array([], dtype=int), []


def chain(case, d, r, depth, t, full):
    for cond, idx in conds(len(r.events), full):
        g, w = one(case, d, r, cond, idx, t)
        if depth > 1 and 0 < len(idx):
            if 0 < len(idx) < len(r.events) or depth == case['depth']:
                chain(case, g, w, depth - 1, t, False)
        elif depth == 1:
            t.trace()


def carried(case, t):
    """features and scores of many types"""
    ot, n_ot = payload.LAYOUT[case['layout']]
    for n in case['sizes']:
        for shape in (0, 1):
            if 'scores' in case:
                w = payload.World('EventWithScoreData', ot, n_ot, n,
                                  score=case['scores'], shape=shape)
            else:
                k = case['payload']
                j = payload.KINDS.index(k)
                w = payload.World(case['cls'], ot, n_ot, n, k, [
                    payload.KINDS[(j + o) % len(payload.KINDS)]
                    for o in range(n_ot)], shape=shape)
            w.check('%s before filtering' % case)
            for c in payload.conds(n):
                before = ref.snapshot(w.d)
                g = w.filter(c)
                where = '%s n=%d filter=%s' % (case, n, c)
                g.check(where)
                expect(ref.snapshot(w.d) == before, 'original-modified',
                       where)
                m = len(g.keep)
                if m > 1:
                    g.filter(np.arange(m) % 3 != 1).check(where + ' twice')
                t.ev()
                t.step()
                t.trace()
                t.state((n, shape, case.get('payload') or case['scores'],
                         repr(c)))
    t.sample({'case': case})


def huge_case(case, t):
    """filters of containers of many objects, twice in a row"""
    w = huge.world(case)
    n = len(w.ext)
    for o in range(w.n_ot):
        if (o + n) % 3:
            w.set_feature(o, ('1d', '2d', 'struct')[(o + n) % 3])
    w.check(repr(case), False)
    for j, (name, cond) in enumerate(huge.conds(n)):
        if n > 20000 and j > 1 and (j + n) % 3:
            continue
        where = '%r filter=%s' % (case, name)
        g = w.filter(cond)
        g.check(where, j == 0)
        if j % 2:
            m = len(g.ext)
            g.filter(np.arange(m) % 2 == 0).check('%s, then half' % where,
                                                  False)
        t.ev()
        t.step()
        t.state(g.key())
        t.sig(where)
    w.check('the original after filters %r' % case, False)
    t.trace()
    t.sample({'case': case})


def run(case, t):
    if 'huge' in case:
        return huge_case(case, t)
    if 'payload' in case or 'scores' in case:
        return carried(case, t)
    if 'ladder' in case:
        return ladder(case, t)
    if 'large' in case:
        return large(case, t)
    rows_iter = (gen.surjections_rows if case.get('canonical')
                 else gen.rows_over)(case['n_obj'], case['rows'])
    for j, rows in enumerate(rows_iter):
        if 'part' in case and j % 8 != case['part']:
            continue
        depth = case['depth']
        d, r = build(case, rows, j)
        ref.compare(d, r)
        chain(case, d, r, depth, t, full=(j % 4 == 0))
        # differential: the same events stored into a new container
        if j % 5 == 0:
            w = r.select(range(0, len(r.events), 2))
            w.feature = [None] * w.n_otypes
            w.evf = None
            ref.compare(rebuilt(case, w), w)
    t.sample({'case': case, 'events': [list(map(repr, e))
                                       for e in r.events]})


def ladder(case, t):
    n = case['ladder']
    ot = tuple(case['ot'])
    rows = [[(i * 7 + c * 3) % n, (i * 11 + 5) % n][:2] for c in (0,)
            for i in range(n)]
    if n % 7 == 0 or n % 11 == 0:
        rows = [[i, (i * 13 + 5) % n] for i in range(n)]
    d, r = build(case, rows, 0)
    ref.compare(d, r)
    masks = [np.arange(n) % 2 == 0, np.arange(n) % 3 == 1, np.arange(n) >= 1,
             np.arange(n) < n - 1, np.arange(n) == n - 1,
             np.arange(n) >= n // 2, np.ones(n, bool), np.arange(n) != n // 2]
    if n > 5000:
        masks = masks[:1] + masks[4:6]
    for m in masks:
        g, w = one(case, d, r, m, list(np.nonzero(m)[0]), t)
        k = len(w.events)
        if k > 1 and n < 5000:
            m2 = np.arange(k) % 2 == 1
            one(case, g, w, m2, list(np.nonzero(m2)[0]), t)
        t.trace()
    idx = np.arange(n)[::-1][:n // 2]
    one(case, d, r, idx, list(idx), t)
    for idx in (np.arange(n) // 2, (np.arange(n) * 3) % (n - 1),
                np.repeat([0, n - 1], n // 2 + 1), np.arange(2 * n) % n):
        one(case, d, r, idx, list(idx), t)


def large(case, t):
    n, ot = case['large'], tuple(case['ot'])
    d, r = build(case, gen.large_rows(n, ot, case['shape']), case['shape'])
    ref.compare(d, r)
    i = np.arange(n)
    for m in (i != n // 2, i % 2 == 0, i % 5 == 3, i < 64, i == n - 1,
              np.ones(n, bool), i > n, i[::-1], i[n // 2:], i * 3 % n,
              i % 7, np.array([n - 1, 0, n - 1, -1])):
        idx = list(np.nonzero(m)[0]) if m.dtype == bool else [
            int(k) % n for k in m]
        g, w = one(case, d, r, m, idx, t)
        if len(idx) > 2:
            m2 = np.arange(len(idx)) % 3 != 1
            one(case, g, w, m2, list(np.nonzero(m2)[0]), t)
        t.trace()
    t.sample({'case': case})
