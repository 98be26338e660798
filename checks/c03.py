"""C03: object features stay attached to their objects over all histories."""
import itertools

import numpy as np

from mc import gen, huge, payload, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('every sequence of operations (set_event with one of three event '
        'sets, set_feature of one of the types in one of several row '
        'orders / supersets / dtypes, filter_event by one of several masks, '
        'binarize_score) up to the depth, from the empty container, on the '
        'real class and on a list model keyed by external ids; after every '
        'operation the whole container is compared.  States: distinct '
        'abstract container contents reached.')
BOUNDS = {'quick': 'depth 4 (2 layouts) or 3 (4 layouts) after the first set_event; fixed '
                   'histories of containers with 63-1024 events',
          'thorough': 'depth 5 (4 layouts) or 4 (6 layouts) after the first set_event; to 4097 '
                      'events'}
ASSUMPTIONS = ['features cover every object of the container, as set_feature '
               'requires']

LAYOUT = [  # class, otypes, n_otypes, kind
    ('EventWithScoreData', (0, 1), 2, 'int'),
    ('EventData', (0, 1), 2, 'str'),
    ('EventWithScoreData', (1, 0), 2, 'neg'),
    ('EventWithScoreData', (0, 0), 1, 'big'),
    ('EventWithScoreData', (0, 1, 0), 2, 'int'),
    ('EventData', (1, 1), 2, 'int'),
    ('EventData', (2, 0, 1), 3, 'int'),
    ('EventWithScoreData', (0, 1), 2, 'obj'),
    ('EventWithScoreData', (0,), 1, 'float'),
    ('EventWithScoreData', (0, 2), 3, 'int8')]

ROWS = [[(0, 1), (2, 0), (1, 1), (0, 2)],
        [(1, 0), (0, 0), (1, 0)],
        [(3, 2), (2, 3), (0, 0), (1, 1), (3, 0)]]


def ops(lay):
    """(name, args) alphabet"""
    out = [('event', i) for i in range(3)]
    used = sorted(set(lay[1]))
    for o in used[:2]:
        out += [('feature', o, 'struct', 'rev'),
                ('feature', o, '2d', 'super')]
    out += [('filter', m) for m in ('even', 'tail', 'one', 'all')]
    if lay[0] == 'EventWithScoreData':
        out.append(('binarize', None))
    return out


def cases(tier):
    th = tier == 'thorough'
    for c in huge.configs(tier):
        yield c
    for n in gen.SIZES + gen.LARGE[:7 if th else 4]:
        for li in range(len(LAYOUT)):
            if LAYOUT[li][3] != 'int8' and (th or (n + li) % 3 == 0):
                yield {'large': n, 'layout': li, 'shape': (n + li) % 4}
    for i, k in enumerate(payload.KINDS):
        for lay in range(4):
            if th or lay in (i % 4, (i + 1) % 4):
                yield {'payload': k, 'layout': lay}
    for n in (100, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535,
              65536, 65537, 70000):
        yield {'table': n}
    for li in range(10 if th else 6):
        n = len(ops(LAYOUT[li]))
        for first in range(3):
            for a in range(n):
                for b in range(n):
                    yield {'layout': li, 'prefix': [first, a, b],
                           'depth': 5 if th and li < 4 else
                           4 if th or li in (0, 3) else 3}


def make(lay):
    from kamrecsys import data as kd
    cls, ot, n_ot, kind = lay
    return (getattr(kd, cls)(n_otypes=n_ot, event_otypes=ot),
            ref.RefData(n_ot, ot))


def apply(lay, op, d, r, k):
    """-> (container, model); None if the operation is not enabled"""
    cls, ot, n_ot, kind = lay
    if op[0] == 'event':
        rows = [tuple((x + c) % 4 for c, x in zip(range(len(ot)),
                                                  (row * 2)[:len(ot)]))
                for row in ROWS[op[1]]] if len(op) == 2 else op[2]
        ev = gen.event_array(rows, kind, ot)
        evf = gen.event_feature((None, 'struct', '2d')[op[1]], len(rows))
        if cls == 'EventData':
            d.set_event(ev, event_feature=evf)
            r.set_event(ev, evf)
        else:
            sc = np.array([1 + (i * 2 + op[1]) % 5
                           for i in range(len(rows))], dtype=float)
            dom = (1., 5., 1.)
            d.set_event(ev, sc, dom, event_feature=evf)
            r.set_event(ev, evf, sc, dom)
        return d, r
    if op[0] == 'feature':
        _, o, fk, order = op
        objs = sorted(r.objects(o), key=repr)
        if not objs:
            return None
        if order == 'rev':
            ids = objs[::-1]
        else:
            # known ids in an interleaved order among ids not in the data
            extra = [gen.py(x) for x in np.array(
                gen.UNKNOWN[kind], dtype=gen.DTYPE[kind])]
            extra = [e for e in extra if e not in r.objects(o)]
            ids = extra[:1] + objs[1::2] + extra[1:2] + objs[0::2] + \
                extra[2:]
        vals = gen.object_feature(fk, [k * 50 + 7 * i
                                       for i in range(len(ids))])
        eids = np.array(ids, dtype=gen.DTYPE[kind])
        d.set_feature(o, eids, vals)
        r.set_feature(o, eids, vals)
        return d, r
    if op[0] == 'filter':
        n = len(r.events)
        m = {'even': [i % 2 == 0 for i in range(n)],
             'tail': [i > 0 for i in range(n)],
             'one': [i == n // 2 for i in range(n)],
             'all': [True] * n}[op[1]]
        if not any(m):
            return None
        idx = [i for i in range(n) if m[i]]
        return d.filter_event(np.array(m)), r.select(idx)
    if op[0] == 'binarize':
        d.binarize_score()
        r.binarize()
        return d, r
    raise KeyError(op)


def large(case, t):
    """longer containers, a fixed set of histories"""
    n, lay = case['large'], LAYOUT[case['layout']]
    rows = [gen.large_rows(k, lay[1], case['shape'])
            for k in (n, n // 2 + 1)]
    fs = [[('feature', o, 'struct', 'rev'), ('feature', o, '2d', 'super')]
          for o in sorted(set(lay[1]))]
    fs = [x for f in fs for x in f]
    flt = [('filter', m) for m in ('even', 'tail', 'one', 'all')]
    bz = [('binarize', None)] if lay[0] == 'EventWithScoreData' else []
    for hist in ([('event', 1, rows[0])] + fs + flt[1:2] + flt[:1] + bz +
                 fs[1:2] + flt[3:] + [('event', 2, rows[1])],
                 [('event', 0, rows[1]), ('event', 1, rows[0])] + fs[::-1] +
                 bz + flt[::-1][:3] + [('event', 0, rows[1])] + fs[:1] +
                 flt[2:3],
                 [('event', 2, rows[0])] + fs[1:3] + flt[:1] * 4 + fs):
        d, r = make(lay)
        for k, op in enumerate(hist):
            x = apply(lay, op, d, r, k)
            if x is None:
                break
            d, r = x
            ref.compare(d, r, where='large %r history=%r' % (
                case, [h[:2] for h in hist[:k + 1]]))
            t.ev()
            t.step()
            t.state(r.key())
        t.trace()


def carried(case, t):
    """features of many types in short histories"""
    ot, n_ot = payload.LAYOUT[case['layout']]
    k = case['payload']
    for n in (1, 2, 5, 70, 300):
        for order in (1, 2, 3):
            for cls in ('EventData', 'EventWithScoreData'):
                if n == 300 and (order == 2) == (cls == 'EventData'):
                    continue
                w = payload.World(cls, ot, n_ot, n)
                where = '%s n=%d order=%d %s' % (case, n, order, cls)
                for o in sorted(set(ot)):
                    w.feature(o, k, order)
                    w.check(where)
                if cls == 'EventWithScoreData':
                    w.binarize()
                    w.check(where + ' binarized')
                for c in payload.conds(n):
                    g = w.filter(c)
                    g.check(where + ' filter=%s' % (c,))
                    o = ot[0]
                    g.feature(o, payload.KINDS[(len(k) + o + n) % len(
                        payload.KINDS)], order)
                    g.check(where + ' filter=%s, other features' % (c,))
                    w.check(where + ' source after filter=%s' % (c,))
                    t.step()
                t.state((k, case['layout'], n, order, cls))
                t.ev()
                t.trace()
    t.sample({'case': case})


def huge_case(case, t):
    w = huge.world(case)
    n = len(w.ext)
    kinds = ('1d', '2d', 'struct')
    for step in range(4):
        for o in range(w.n_ot):
            if (o + step) % 2 == 0 or step == 0:
                w.set_feature(o, kinds[(o + step + n) % 3], step % 2 == 0)
        where = '%r step %d' % (case, step)
        w.check(where, False)
        m = len(w.ext)
        i = np.arange(m)
        w = w.filter((i % 7 != 3, i[::-1][m // 5:], i % 2 == 0,
                      i > 5)[step])
        w.check('%s filtered' % where, False)
        if w.score is not None and step == 1:
            w.binarize()
            w.check('%s binarized' % where, False)
        t.ev(2)
        t.step(2)
        t.state(w.key())
        t.sig(where)
    t.trace()
    t.sample({'case': case})


def table(case, t):
    """few objects described in a long table"""
    n = case['table']
    for kind in ('i8', 'U6', 'f8'):
        ids = np.arange(n).astype(kind)
        for pos in ('first', 'last', 'spread'):
            at = {'first': [0, 1, 2, 3], 'last': list(range(n - 4, n)),
                  'spread': [0, n // 3, n // 2, n - 1]}[pos]
            d, _ = make(('EventData', (0, 1), 2, None))
            d.set_event(np.array([[ids[a], ids[b]] for a in at
                                  for b in at[::-1]]))
            for shape in ((n,), (n, 2)):
                v = (np.arange(n * shape[-1] if len(shape) > 1 else n) * 7 +
                     1).reshape(shape)
                for o, order in ((0, 1), (1, -1)):
                    d.set_feature(o, ids[::order].tolist(), v[::order])
                    for x, row in zip(d.eid[o], d.feature[o]):
                        expect(np.array_equal(row, v[int(float(x))]),
                               'feature-of-another-object', '%r %s %s' % (
                                   case, kind, pos), object=x, got=row,
                               want=v[int(float(x))])
                    expect(np.shape(d.feature[o]) == (4,) + shape[1:],
                           'shape-of-features', repr(case))
                    t.ev()
            t.state((n, kind, pos))
            t.sig((n, kind, pos))
    t.trace()
    t.sample({'case': case})


def run(case, t):
    if 'table' in case:
        return table(case, t)
    if 'huge' in case:
        return huge_case(case, t)
    if 'payload' in case:
        return carried(case, t)
    if 'large' in case:
        return large(case, t)
    lay = LAYOUT[case['layout']]
    alphabet = ops(lay)
    first, a, b = case['prefix']

    def replay(hist, check_from):
        d, r = make(lay)
        for k, op in enumerate([('event', first)] + hist):
            x = apply(lay, op, d, r, k)
            if x is None:
                return None
            d, r = x
            if k >= check_from:
                ref.compare(d, r, where='history=%r' % (hist[:k + 1],))
                t.ev()
                t.step()
                t.state(r.key())
        return d, r

    def go(hist):
        # children of a history are replayed from the empty container: the
        # new operation is judged, the prefix was judged before
        if replay(hist, len(hist)) is None:
            return
        if len(hist) == case['depth']:
            t.trace()
            return
        for op in alphabet:
            go(hist + [op])

    h = [alphabet[a]]
    if replay(h, 0) is None:
        return
    if b == 0:
        t.sample({'layout': repr(lay), 'history': [repr(x) for x in h]})
    go([alphabet[a], alphabet[b]])
