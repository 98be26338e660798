"""C39: illegal structure is rejected, legal structure accepted."""
import io
import itertools
import os

import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every pair of a number of object types and types of columns, every '
        'shape of an array stored in containers or given to the conversions of '
        'containers and of '
        'fitted models, and every text file whose rows have given numbers '
        'of columns: accepted with the exact result if it is legal, and '
        'rejected with the documented exception otherwise, without any '
        'change of the object.  Non-trivial: a distinct (operation, '
        'structure).')
BOUNDS = {'quick': 'n_otypes -2..4, <=3 columns of types -2..4; shapes up to '
                   '3 dimensions of sizes 0..5; files of <=3 rows of 1..5 '
                   'columns',
          'thorough': 'n_otypes -3..5, <=4 columns of types -3..5; shapes up '
                      'to 3 dimensions of sizes 0..7; files of <=4 rows of '
                      '1..6 columns'}
ASSUMPTIONS = ['ids in files are integers']

TYPES = [(0, 1), (0,), (0, 0), (1, 0, 1), (0, 1, 2)]


def cases(tier):
    th = tier == 'thorough'
    for n in range(-3 if th else -2, 6 if th else 5):
        yield {'what': 'types', 'n_otypes': n, 'columns': 4 if th else 3,
               'low': -3 if th else -2, 'high': 6 if th else 5}
    for ot in range(len(TYPES)):
        for obj in ('EventData', 'EventWithScoreData', 'PMF',
                    'ImplicitLogisticPMF', 'MultinomialPLSA'):
            yield {'what': 'shapes', 'types': ot, 'object': obj,
                   'size': 8 if th else 6}
        for obj in ('EventData', 'EventWithScoreData'):
            yield {'what': 'values', 'types': ot, 'object': obj}
            yield {'what': 'stores', 'types': ot, 'object': obj,
                   'size': 7 if th else 5}
    for loader in ('load_event', 'load_event_with_score'):
        for ot in range(len(TYPES)):
            for stamp in (False, True):
                yield {'what': 'file', 'loader': loader, 'types': ot,
                       'timestamp': stamp, 'rows': 4 if th else 3,
                       'columns': 6 if th else 5}


def run(case, t):
    {'types': types, 'shapes': shapes, 'stores': stores, 'values': values,
     'file': files}[case['what']](case, t)


def types(case, t):
    from kamrecsys import data as kd
    n = case['n_otypes']
    cols = range(case['low'], case['high'])
    specs = [None] + [c for m in range(1, case['columns'] + 1)
                      for c in itertools.product(cols, repeat=m)]
    for cls in (kd.EventData, kd.EventWithScoreData):
        for spec in specs:
            where = '%s n_otypes=%d event_otypes=%s' % (
                cls.__name__, n, spec)
            legal = n >= 1 and (spec is None or
                                all(0 <= o < n for o in spec))
            for kind in (tuple, list, np.array) if spec is not None else (
                    tuple,):
                arg = None if spec is None else kind(spec)

                def make():
                    return cls(n_otypes=n, event_otypes=arg)
                if not legal:
                    ref.raises(ValueError, make, 'illegal-types-accepted',
                               where)
                    continue
                try:
                    d = make()
                except Exception as e:
                    expect(False, 'legal-types-rejected', where,
                           error=repr(e))
                want = tuple(range(n)) if spec is None else spec
                expect(d.n_otypes == n and d.s_event == len(want) and
                       tuple(np.array(d.event_otypes).tolist()) == want,
                       'types', where, got=[d.n_otypes, d.s_event,
                                            np.array(d.event_otypes)])
                expect(d.n_events == 0 and d.event is None,
                       'new-container-not-empty', where)
            t.sig((cls.__name__, n, spec))
            t.ev()
        if n >= 1:
            # types of columns are a list
            for arg in (np.zeros((1, 1), int), np.zeros((2, 2), int)):
                ref.raises(ValueError, lambda: cls(
                    n_otypes=n, event_otypes=arg), 'illegal-types-accepted',
                    '%s two-dimensional' % cls.__name__)
    t.sample({'case': case, 'last': where})


def totuple(x):
    if np.ndim(x) == 0:
        return x
    return tuple(totuple(y) for y in x.tolist()) if isinstance(
        x, np.ndarray) else tuple(totuple(y) for y in x)


def state(d):
    return ref.snapshot(d)


def stores(case, t):
    """events of any shape are given to a new or to a filled container"""
    from kamrecsys import data as kd
    ot = TYPES[case['types']]
    s = len(ot)
    cls = getattr(kd, case['object'])

    def put(d, ev, n):
        if case['object'] == 'EventData':
            d.set_event(ev)
        else:
            d.set_event(ev, np.arange(n) % 5 + 1., (1., 5., 1.))
    old = gen.event_array(M.rows3(6, 3, s), 'int', ot)
    for ndim in range(4):
        for shape in itertools.product(range(1, case['size']), repeat=ndim):
            if ndim == 3 and max(shape) > 3:
                continue
            legal = ndim == 2 and shape[1] == s
            n = int(np.prod(shape))
            ev = (np.arange(n) * 7 % 5 * 3 + 1).reshape(shape)
            forms = [ev, ev.tolist()]
            if ndim:
                forms += [totuple(ev), list(ev)]
            for form in forms:
                for filled in (False, True):
                    where = '%s types %s shape %s as %s, filled=%r' % (
                        case['object'], ot, shape, type(form).__name__,
                        filled)
                    d = cls(n_otypes=max(ot) + 1, event_otypes=ot)
                    if filled:
                        put(d, old, len(old))
                        d.set_feature(0, d.eid[0], np.arange(len(d.eid[0])))
                    before = state(d)
                    try:
                        put(d, form, shape[0] if ndim else 1)
                    except Exception as e:
                        expect(not legal, 'legal-events-rejected', where,
                               error=repr(e))
                        expect(state(d) == before, 'rejected-but-changed',
                               where)
                    else:
                        expect(legal, 'illegal-events-accepted', where)
                        expect(np.array_equal(d.to_eid_event(d.event), ev)
                               and d.n_events == shape[0], 'events', where)
                        for o in set(ot):
                            k = len(d.eid[o])
                            f = list(range(5, 5 + k))
                            for form2 in (list, tuple, np.array):
                                d.set_feature(o, form2(d.eid[o][::-1]),
                                              form2(f))
                                expect(np.asarray(d.feature[o]).tolist() ==
                                       f[::-1], 'feature', where)
                    t.ev()
            t.sig((case['object'], ot, shape))
    t.sample({'case': case, 'last': where})


def values(case, t):
    """whatever is rejected leaves the container as it was"""
    from kamrecsys import data as kd
    ot = TYPES[case['types']]
    s = len(ot)
    cls = getattr(kd, case['object'])
    scored = case['object'] == 'EventWithScoreData'
    old = gen.event_array(M.rows3(6, 3, s), 'int', ot)
    good = gen.event_array(M.rows3(5, 2, s, 1), 'zero', ot)
    events = [('good', good)]
    for c in range(s):
        for bad in (None, 'x', (1, 2), float('nan'), [1], {}, object()):
            ev = np.empty(good.shape, dtype=object)
            ev[...] = good
            ev[(c + 1) % len(ev), c] = bad
            events.append((repr(bad)[:8] + ' in column %d' % c, ev))
    events += [('nan', np.full(good.shape, np.nan)), ('text', 'abc'),
               ('none', None), ('ragged', [[1] * s, [1] * (s + 1)]),
               ('empty', np.zeros((0, s), int))]
    n = len(good)
    for name, ev in events:
        more = [()]
        if scored:
            more = [(sc, dom) for sc in (
                [1., 2, 3, 4, 5], [3.] * n, ['a'] * n, [None] * n, None,
                [], [float('nan')] * n, [[1., 2.]] * n, 'x') for dom in (
                    None, (1, 5, 1), (1, 5, 0), (1, 5), (5, 1, 1), 'ab',
                    (1, 5, 1, 1), (1, float('nan'), 1), (0, 0, 0))]
            if name != 'good':
                more = more[:2]
        for m in more:
            for filled in (0, 1, 2):
                where = '%s: %s %r filled=%d' % (case['object'], name, m,
                                                 filled)
                d = cls(n_otypes=max(ot) + 1, event_otypes=ot)
                f = {'event_feature': np.arange(6)} if filled == 2 else {}
                if filled and scored:
                    d.set_event(old, np.arange(6) % 5 + 1., (1., 5., 1.),
                                **f)
                elif filled:
                    d.set_event(old, **f)
                if filled:
                    for o in set(ot):
                        d.set_feature(o, d.eid[o], np.arange(len(d.eid[o])))
                before = state(d)
                try:
                    with np.errstate(all='ignore'):
                        d.set_event(ev, *m)
                except Exception:
                    expect(state(d) == before, 'rejected-but-changed', where)
                    t.sig((case['object'], ot, name, repr(m)))
                else:
                    if name == 'good':
                        expect(np.array_equal(d.to_eid_event(d.event), ev),
                               'events', where)
                t.ev()
        if not scored:
            continue
    d = cls(n_otypes=max(ot) + 1, event_otypes=ot)
    if scored:
        d.set_event(old, np.arange(6) % 5 + 1., (1., 5., 1.))
    else:
        d.set_event(old)
    for o in set(ot):
        d.set_feature(o, d.eid[o], np.arange(len(d.eid[o])) * 2)
    before = state(d)
    # features and filters that cannot be used
    k = len(d.eid[ot[0]])
    acts = [('feature ' + nm, lambda a=a: d.set_feature(*a)) for nm, a in (
        ('missing', (ot[0], d.eid[ot[0]][:-1], np.arange(k - 1))),
        ('short', (ot[0], d.eid[ot[0]], np.arange(k - 1))),
        ('none', (ot[0], d.eid[ot[0]], None)),
        ('no ids', (ot[0], None, np.arange(k))),
        ('type', (max(ot) + 1, d.eid[ot[0]], np.arange(k))))]
    acts += [('filter %r' % (a,), lambda a=a: d.filter_event(a)) for a in (
        [6], [-7], [0, 99], [True] * 5, [True] * 7, 'x', [.5], {})]
    for nm, act in acts:
        try:
            act()
        except Exception:
            pass
        else:
            if nm == 'feature none':
                continue
            expect(not nm.startswith('filter') or nm == 'filter {}',
                   'illegal-filter-accepted', nm)
            expect(nm not in ('feature missing', 'feature short'),
                   'illegal-feature-accepted', nm)
            continue
        expect(state(d) == before, 'rejected-but-changed', nm)
        t.ev()
    t.sample({'case': case, 'last': where})


def shapes(case, t):
    ot = TYPES[case['types']]
    n_ot, s = max(ot) + 1, len(ot)
    name = case['object']
    rows = M.rows3(7, 3, s)
    model = name in M.ALL
    if model:
        if s == 1:
            return
        m = M.make(name, k=2)
        c = M.Case(name, (ot, n_ot, (0, 1)), 'int', rows, 0)
        c.fit(m, M.quick_hook(1))
        eev = c.ev
    else:
        from kamrecsys import data as kd
        m = getattr(kd, name)(n_otypes=n_ot, event_otypes=ot)
        eev = gen.event_array(rows, 'int', ot)
        if name == 'EventData':
            m.set_event(eev)
        else:
            m.set_event(eev, np.arange(7) % 5 + 1.)
    before = M.pub(m)
    pool = [[x for x in sorted(set(eev[:, e].tolist()))] for e in range(s)]
    objs = [sorted(set(x for e in range(s) if ot[e] == ot[f]
                       for x in pool[e])) for f in range(s)]
    sizes = range(case['size'])
    for ndim in range(4):
        for shape in itertools.product(sizes, repeat=ndim):
            if ndim == 3 and max(shape) > 3:
                continue
            legal = shape == (s,) or (ndim == 2 and shape[1] == s)
            n = int(np.prod(shape))
            where = '%s types %s shape %s' % (name, ot, shape)
            iid = np.array([i % 2 for i in range(n)], dtype=int).reshape(
                shape)
            eid = np.array([objs[i % s][i % 2] for i in range(n)],
                           dtype=int).reshape(shape)
            for fn, x, y in ((m.to_eid_event, iid, eid),
                             (m.to_iid_event, eid, iid)):
                k = x.copy()
                if legal:
                    try:
                        got = np.asarray(fn(x))
                    except Exception as e:
                        expect(False, 'legal-shape-rejected', where,
                               error=repr(e))
                    expect(got.shape == shape, 'shape', where,
                           got=got.shape)
                    expect(np.array_equal(got, y), 'converted', where,
                           got=got, want=y)
                    # nested lists and tuples are arrays
                    for z in (x.tolist(), totuple(x)) if n else ():
                        got = np.asarray(fn(z))
                        expect(got.shape == shape and np.array_equal(
                            got, y), 'converted-list', where, got=got,
                            want=y)
                else:
                    ref.raises(TypeError, lambda: fn(x),
                               'illegal-shape-accepted', where)
                    ref.raises(TypeError, lambda: fn(x.tolist()),
                               'illegal-list-accepted', where)
                expect(np.array_equal(x, k), 'argument-changed', where)
            if model and (legal and n or not legal and ndim < 3 and n):
                try:
                    p = np.array(m.predict(eid))
                except Exception as e:
                    expect(not legal, 'legal-query-rejected', where,
                           error=repr(e))
                else:
                    expect(legal, 'illegal-query-accepted', where)
                    expect(p.size == n // s, 'predictions', where,
                           got=p.shape)
                    for z in (eid.tolist(), totuple(eid)):
                        expect(np.array_equal(p, np.array(m.predict(z))),
                               'predictions-of-list', where)
            t.sig((name, ot, shape))
            t.ev()
    expect(M.pub(m) == before, 'object-changed', name)
    t.sample({'case': case, 'last': where})


def files(case, t):
    from kamrecsys import datasets
    load = getattr(datasets, case['loader'])
    ot = TYPES[case['types']]
    s = len(ot)
    score = case['loader'] == 'load_event_with_score'
    need = s + (1 if score else 0) + (1 if case['timestamp'] else 0)
    kw = {'n_otypes': max(ot) + 1, 'event_otypes': ot}
    if case['timestamp']:
        kw['event_dtype'] = datasets.event_dtype_timestamp
    path = os.path.join(os.environ['MC_SCRATCH'], 'c39-%d' % os.getpid())
    for n in range(1, case['rows'] + 1):
        for widths in itertools.product(range(1, case['columns'] + 1),
                                        repeat=n):
            rows = [[1 + (3 * r + c) % 5 for c in range(w)]
                    for r, w in enumerate(widths)]
            text = ''.join('\t'.join(map(str, r)) + '\n' for r in rows)
            where = '%s %s' % (case, widths)
            if len(set(widths)) == 1 and widths[0] > need:
                # the format does not say what further columns are
                continue
            legal = all(w == need for w in widths)
            if need == 1 and n == 1:
                continue
            for how in ('path', 'handle'):
                if how == 'path':
                    with open(path, 'w') as fp:
                        fp.write(text)

                def read():
                    return load(path if how == 'path' else
                                io.BytesIO(text.encode()), **kw)
                if not legal:
                    ref.raises(ValueError, read, 'illegal-file-accepted',
                               where)
                    continue
                try:
                    d = read()
                except Exception as e:
                    expect(False, 'legal-file-rejected', where,
                           error=repr(e))
                got = np.asarray(d.to_eid_event(d.event)).tolist()
                expect(got == [r[:s] for r in rows], 'events', where,
                       got=got)
                if score:
                    expect(d.score.tolist() == [r[s] for r in rows],
                           'scores', where, got=d.score)
                if case['timestamp']:
                    expect(d.event_feature['timestamp'].tolist() ==
                           [r[-1] for r in rows], 'event features', where)
            t.sig((case['loader'], ot, case['timestamp'], widths))
            t.ev()
    if os.path.exists(path):
        os.remove(path)
    for bad in (path, os.path.dirname(path)):
        try:
            load(bad, **kw)
        except (IOError, OSError):
            pass
        else:
            expect(False, 'missing-file', where)
    t.sample({'case': case, 'last': where})
