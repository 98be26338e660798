"""C01: external and internal ids are in one-to-one correspondence."""
import itertools

import numpy as np

from mc import gen, huge, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every event matrix up to the bound x every assignment of object '
        'types to columns x id kinds; each is stored in the real container '
        'and every id, every event and every query row over known and '
        'unknown ids is converted both ways and compared with a list-based '
        'model; plus a ladder of object counts around 2^7, 2^8 and 2^15. '
        'Non-trivial: a distinct (types, kind, event matrix) stored.')
ASSUMPTIONS = ['external ids outside the alphabets behave like those inside']
BOUNDS = {'quick': 'n_otypes<=3, s_event<=3, rows<=3, 3 objects per column; '
                   'ladder to 70001 objects',
          'thorough': 'n_otypes<=3, s_event<=3, rows<=4; ladder to 262145'}

LADDER_Q = [1, 2, 3, 10, 127, 128, 129, 255, 256, 257, 1000]
LADDER_T = LADDER_Q + [4096, 32767, 32768, 32769, 65535, 65537]


def cases(tier):
    th = tier == 'thorough'
    for n_ot in (1, 2, 3):
        for ot in gen.all_otypes(n_ot, 3):
            s = len(ot)
            n_obj = [3, 3, 2][:s] if s < 3 else [2, 2, 2]
            for nr in range(1, 4 + (th and s < 3)):
                kinds = gen.KINDS if nr == 2 or (th and nr < 3) else (
                    'int', 'str', 'neg')
                if s == 3 and nr == 3:
                    kinds = ('int', 'str') if not th else kinds
                for k in kinds:
                    yield {'n_otypes': n_ot, 'otypes': list(ot), 'kind': k,
                           'rows': nr, 'n_obj': n_obj}
    for k in DTYPES:
        yield {'types': k}
    for k in ('U', 'O', 'S'):
        for i in range(len(TEXTS)):
            yield {'texts': k, 'first': i, 'all': th}
    for c in huge.configs(tier):
        yield c
    for n in (LADDER_T if th else LADDER_Q):
        for k in ('int', 'str', 'float'):
            for ot in ((0, 1), (1, 0), (0, 0), (0, 1, 0)):
                if n > 1000 and (k != 'int' or ot not in ((0, 1), (0, 0))):
                    continue
                yield {'ladder': n, 'kind': k, 'otypes': list(ot)}


def make(cls, n_ot, ot, ev, default_types):
    if default_types:
        data = cls(n_otypes=n_ot)
    else:
        data = cls(n_otypes=n_ot, event_otypes=ot)
    before = ref.snapshot(ev)
    if cls.__name__ == 'EventData':
        data.set_event(ev)
    else:
        data.set_event(ev, np.ones(ev.shape[0]), (1, 5, 1))
    expect(ref.snapshot(ev) == before, 'input-modified')
    return data


def judge(data, n_ot, ot, ev, kind, t, queries=True, near_no=0):
    s = len(ot)
    r = ref.RefData(n_ot, ot)
    r.set_event(ev)
    ref.compare(data, r, unknown=gen.UNKNOWN[kind] + gen.near(
        kind, r.objects(ot[0])))
    # whole arrays both ways
    back = data.to_eid_event(data.event)
    expect(back.shape == ev.shape and back.dtype == ev.dtype,
           'to_eid_event-shape', got=(back.shape, back.dtype))
    expect((back == ev).all(), 'to_eid_event', got=back, want=ev)
    fwd = data.to_iid_event(ev)
    expect(fwd.shape == ev.shape and (fwd == data.event).all() and
           fwd.dtype.kind == 'i', 'to_iid_event', got=fwd,
           want=data.event)
    for i in (0, len(ev) - 1):
        a = data.to_iid_event(ev[i])
        expect(a.shape == (s,) and (a == data.event[i]).all(),
               'to_iid_event-1d', got=a, want=data.event[i])
        b = data.to_eid_event(data.event[i])
        expect(b.shape == (s,) and (b == ev[i]).all(), 'to_eid_event-1d',
               got=b, want=ev[i])
    # internal ids out of range, at any place of a vector or an array
    size = [len(r.objects(o)) for o in ot]
    for c in range(s):
        for bad in (-1, -size[c], -size[c] - 1, size[c], size[c] + 3):
            x = np.array(data.event)
            x[(near_no + c) % len(x), c] = bad
            v = np.array(data.event[0])
            v[c] = bad
            for y in (x, v):
                ref.raises((ValueError, IndexError),
                           lambda: data.to_eid_event(y),
                           'to_eid_event-out-of-range', y)
                ref.raises((ValueError, IndexError),
                           lambda: data.to_eid_event(y.tolist()),
                           'to_eid_event-out-of-range', y)
    if not queries:
        return
    # every query over known and unknown ids
    alpha = []
    for c in range(s):
        known = sorted(r.objects(ot[c]), key=repr)
        unk = [u for u in gen.UNKNOWN[kind] if u not in r.objects(ot[c])]
        other = sorted(set(e for o in range(n_ot) for e in r.objects(o)) -
                       r.objects(ot[c]), key=repr)
        near = gen.near(kind, r.objects(ot[c]))
        k = near_no % max(1, len(near))
        alpha.append(known + unk[:1] + (near[k:] + near[:k])[:2] + other[:1])
    q = list(itertools.product(*alpha))
    Q = np.empty((len(q), s), dtype=gen.QDTYPE[kind])
    for i, row in enumerate(q):
        for c in range(s):
            Q[i, c] = row[c]
    pos = [{e: data.to_iid(ot[c], e) for e in r.objects(ot[c])}
           for c in range(s)]
    for mv in (None, -1, list(range(-s, 0)), np.arange(50, 50 + s),
               2 ** 40 + 3, [70000 * (c + 1) for c in range(s)]):
        if mv is None:
            miss = [len(r.objects(ot[c])) for c in range(s)]
        elif np.ndim(mv) == 0:
            miss = [mv] * s
        else:
            miss = [int(v) for v in mv]
        want = [[pos[c].get(row[c], miss[c]) for c in range(s)] for row in q]
        got = (data.to_iid_event(Q) if mv is None else
               data.to_iid_event(Q, missing_values=mv))
        expect(got.shape == Q.shape, 'to_iid_event-shape')
        expect(got.tolist() == want, 'to_iid_event-unknown',
               missing=mv, query=q, got=got.tolist(), want=want)
        for i in (0, len(q) // 2, len(q) - 1):
            g = (data.to_iid_event(Q[i]) if mv is None else
                 data.to_iid_event(Q[i], missing_values=mv))
            expect(g.tolist() == want[i], 'to_iid_event-1d-unknown',
                   missing=mv, query=q[i], got=g, want=want[i])
    if kind in ('int', 'neg', 'zero') and near_no % 3 == 0:
        # a number between two ids is unknown
        n = [len(r.objects(ot[c])) for c in range(s)]
        got = data.to_iid_event(ev + .5)
        expect(got.tolist() == [n] * len(ev), 'fraction', got=got)
        for e in sorted(r.objects(ot[0])):
            for x in (e + .5, e - .25, np.float64(e + .5), e + 2. ** -20,
                      np.float32(e + .5), complex(e, 1), str(e), (e,)):
                ref.raises(ValueError, lambda: data.to_iid(ot[0], x),
                           'fraction', x)
            for x in (float(e), np.float64(e), np.int32(e), np.int64(e)):
                expect(data.to_iid(ot[0], x) == data.to_iid(ot[0], e),
                       'type-of-id', x)
        got = data.to_iid_event(ev + 0.)
        expect((got == data.event).all(), 'float-ids', got=got)
    t.ev(len(q))
    # wrong shapes are rejected
    for bad in (np.zeros(s + 1, dtype=ev.dtype),
                np.zeros((2, s + 1), dtype=ev.dtype),
                np.zeros((1, 2, s), dtype=ev.dtype)):
        ref.raises(TypeError, lambda: data.to_iid_event(bad), 'bad-shape')
        ref.raises(TypeError, lambda: data.to_eid_event(
            bad.astype(object) if 0 else np.zeros(bad.shape, dtype=int)),
            'bad-shape')


def huge_case(case, t):
    for cls in ('EventData', 'EventWithScoreData'):
        w = huge.world(case, cls)
        w.check('%r %s' % (case, cls))
        t.ev()
        t.sig((repr(case), cls))
    t.sample({'case': case, 'events': w.ext[:2].tolist()})


DTYPES = {'days': 'M8[D]', 'seconds': 'M8[s]', 'spans': 'm8[h]',
          'half': 'f2', 'long': 'longdouble', 'bool': '?', 'single': 'f4',
          'short': 'i2', 'ubyte': 'u1', 'byte string': 'S7'}


# texts that normalisation of some sort takes for the same
TEXTS = ['a', 'a ', ' a', 'A', '\ta', 'a\n', '', ' ', '1', '01', '1.0', '+1',
         '1e0', '\xe9', 'e\u0301', 'E\u0301', '\xdf', 'ss', 'a\xa0', 'a_',
         'None', 'nan', '0', '-0', 'True', "a'", '"a"', 'a\\', '\uff41']


def texts(case, t):
    """small sets of texts; every other one is unknown"""
    from kamrecsys import data as kd
    kind, first = case['texts'], case['first']
    pool = [x.encode('latin-1', 'ignore') for x in TEXTS if all(
        ord(c) < 128 for c in x)] if kind == 'S' else TEXTS
    if first >= len(pool):
        return
    for others in itertools.chain(
            [()], itertools.combinations(range(first + 1, len(pool)), 1),
            itertools.combinations(range(first + 1, len(pool)), 2)):
        if len(others) == 2 and sum(others) % (1 if case['all'] else 7):
            continue
        known = [pool[i] for i in (first,) + others]
        ev = np.array([[k, known[(i + 1) % len(known)]]
                       for i, k in enumerate(known)],
                      dtype={'O': object}.get(kind))
        d = kd.EventData()
        d.set_event(ev)
        where = 'ids %r as %s' % (known, kind)
        expect(sorted(d.eid[0].tolist()) == sorted(known), 'external-ids',
               where, got=d.eid[0].tolist())
        expect(d.to_eid_event(d.event).tolist() == ev.tolist(),
               'to_eid_event', where)
        for o in (0, 1):
            for x in pool:
                if x in known:
                    i = d.to_iid(o, x)
                    expect(d.to_eid(o, i) == x, 'round-trip', where, id=x)
                else:
                    ref.raises(ValueError, lambda: d.to_iid(o, x),
                               'unknown-accepted ' + where + repr(x))
        q = np.array([[x, x] for x in pool], dtype={'O': object}.get(kind))
        want = [[known.index(x) if x in known else -1] for x in pool]
        got = d.to_iid_event(q)
        for x, w, g in zip(pool, want, got):
            expect(all((d.eid[o][g[o]] == x if g[o] < d.n_objects[o] else
                        x not in known) and (g[o] == d.n_objects[o]) ==
                       (w[0] < 0) for o in (0, 1)), 'to_iid_event', where,
                   id=x, got=g)
        t.ev()
        t.sig((kind, first, others))


def types(case, t):
    """ids of the other types that arrays may have"""
    from kamrecsys import data as kd
    dt = np.dtype(DTYPES[case['types']])
    for n in (1, 2, 3, 20):
        n = min(n, 2) if dt.kind == 'b' else n
        pool = (np.arange(n + 2) * 5 % 23 if dt.kind != 'b' else
                np.array([1, 0, 1, 0]))
        pool = pool.astype('S7' if dt.kind == 'S' else 'i8').astype(dt)
        for ot in ((0, 1), (0, 0), (1, 0, 1)):
            rows = [[pool[(i * (c + 1) + c) % n] for c in range(len(ot))]
                    for i in range(n + 1)]
            ev = np.array(rows, dtype=dt)
            for cls in ('EventData', 'EventWithScoreData'):
                d = make(getattr(kd, cls), 2, ot, ev, False)
                where = '%s %r n=%d' % (cls, dt, n)
                for o in set(ot):
                    objs = sorted(set(ev[:, [x == o for x in ot]].ravel()
                                      .tolist()))
                    expect(d.n_objects[o] == len(objs) and
                           d.eid[o].tolist() == objs, 'external-ids', where,
                           got=d.eid[o], want=objs)
                    for i in range(len(objs)):
                        expect(d.to_iid(o, d.to_eid(o, i)) == i,
                               'round-trip', where, id=objs[i])
                expect(np.array_equal(d.to_eid_event(d.event), ev),
                       'to_eid_event', where)
                expect(np.array_equal(d.to_iid_event(ev), d.event),
                       'to_iid_event', where)
                expect([d.to_iid_event(r).tolist() for r in ev] ==
                       d.event.tolist(), 'to_iid_event-1d', where)
                if dt.kind != 'b':
                    u = np.array([[pool[n]] * len(ot)], dtype=dt)
                    expect(d.to_iid_event(u)[0].tolist() == [
                        d.n_objects[o] for o in ot], 'unknown', where)
                t.ev()
            t.sig((case['types'], n, ot))
    t.sample({'case': case, 'ids': ev[:2]})


def run(case, t):
    if 'texts' in case:
        return texts(case, t)
    if 'types' in case:
        return types(case, t)
    if 'huge' in case:
        return huge_case(case, t)
    from kamrecsys.data import EventData, EventWithScoreData
    ot = tuple(case['otypes'])
    kind = case['kind']
    if 'ladder' in case:
        n = case['ladder']
        rows = [[(i * (2 * c + 1) + c) % n for c in range(len(ot))]
                for i in range(n)]
        ev = gen.event_array(rows, kind, ot)
        for cls in (EventData, EventWithScoreData):
            data = make(cls, 2, ot, ev, False)
            judge(data, 2, ot, ev, kind, t, queries=False)
            t.ev()
        t.sig((n, kind, ot))
        # unknown object next to the largest internal id
        objs = [set(gen.py(x) for c in range(len(ot)) if ot[c] == ot[d]
                    for x in ev[:, c]) for d in range(len(ot))]
        Q = ev[[0, -1]].astype(gen.QDTYPE[kind])
        for u in gen.UNKNOWN[kind][:1] + gen.near(kind, set.union(*objs)):
            Q[0, :] = u
            got = data.to_iid_event(Q)
            expect(got[0].tolist() == [len(x) for x in objs],
                   'unknown-after-last', query=u, got=got[0])
            expect((got[1] == data.event[-1]).all(), 'known-with-unknown',
                   query=u)
        t.sample(case)
        return
    n_ot = case['n_otypes']
    default = ot == tuple(range(n_ot))
    for j, rows in enumerate(gen.rows_over(case['n_obj'], case['rows'])):
        ev = gen.event_array(rows, kind, ot)
        if j % 2 == 0:
            data = make(EventData, n_ot, ot, ev, default)
        else:
            data = make(EventWithScoreData, n_ot, ot, ev, False)
        judge(data, n_ot, ot, ev, kind, t, queries=(j % 7 == 0), near_no=j // 7)
        t.ev()
        t.sig((n_ot, ot, kind, rows))
    t.sample({'case': case, 'last_event_array': ev.tolist()})
