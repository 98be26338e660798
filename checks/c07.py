"""C07: a file of events is loaded exactly as it is written."""
import itertools
import os

import numpy as np

from mc import gen, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every table of events up to the bound is written as a tab separated '
        'file in every layout (with/without score, with no, one or two '
        'extra columns read as event features, comments, CRLF, no final '
        'newline, path / text handle / binary handle), read by the loaders, '
        'and the container is compared with a list model of the table.  '
        'Non-trivial: a distinct (layout, table).')
BOUNDS = {'quick': 'rows <=3 of <=3 columns over 3 ids; 6 content variants x '
                   '7 feature types; row counts to 65537',
          'thorough': 'rows <=4 of <=3 columns over 3 ids; the same '
                      'variants and counts'}
ASSUMPTIONS = ['ids are integers, as documented']

OT = [(None, 2), ((0, 1), 2), ((1, 0), 2), ((0, 0), 1), (None, 1), ((0,), 1),
      ((0, 1, 0), 2), (None, 3), ((2, 0), 3), ((1, 1), 2)]
STYLE = ['path', 'text', 'binary', 'crlf', 'comment', 'nofinal']

FEATURES = [None, [('timestamp', int)], [('w', float)], [('s', 'U5')],
            [('b', 'S4'), ('i', 'i1')], [('v', 'i1', (3,)), ('f', 'f4')],
            [('timestamp', int), ('w', float), ('n', 'U3')]]
VARIANTS = ['repeat', 'sorted', 'reversed', 'precise', 'huge', 'same']
LADDER = (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000,
          1023, 1024, 1025, 4097, 10001, 50000, 50001, 65537)


def text_and_value(dt, i):
    """columns of a file and the value they stand for"""
    cols, val = [], []
    for f in dt:
        base, n = np.dtype(f[1]), (f[2][0] if len(f) > 2 else None)
        one = []
        for j in range(n or 1):
            if base.kind == 'i':
                v = (i * 7 + j) % 5 - 2 if base.itemsize == 1 else \
                    881250949 + 13 * i
                c = str(v)
            elif base.kind == 'f':
                v = .25 * i - 1 if base.itemsize == 4 else 1. / (i + 3)
                c = repr(v)
            else:
                c = ('a%db', 'a %d', ' a%d ', '%d  ', '"%d\'')[i % 5] % (
                    i % 10)
                if f is dt[-1]:
                    c = c.rstrip()      # spaces at the end of a line
                v = c.encode() if base.kind == 'S' else c
                v = v[:base.itemsize // (4 if base.kind == 'U' else 1)]
            cols.append(c)
            one.append(v)
        val.append(one[0] if n is None else one)
    return cols, tuple(val)


def variant(case, t):
    from kamrecsys import datasets as ds
    ot, n_ot = OT[case['ot']]
    types = ot if ot is not None else tuple(range(n_ot))
    s = len(types)
    dt = FEATURES[case['dtype']]
    var = case['variant']
    n = case.get('n', 6)
    rows = [tuple((i * (2 * c + 1) + c + i // 5) % 97 if n > 50 else
                  (i * (c + 1) + i // 2) % 3 for c in range(s))
            for i in range(n)]
    feat = list(range(n))
    dom = (1., 5., 1.)
    sc = [1. + (i * 3 + i // 4) % 5 for i in range(n)]
    if var == 'repeat':
        rows = [rows[i // 3] for i in range(n)]
        feat = [i // 3 for i in range(n)]
        sc = [sc[i // 3] for i in range(n)]
    elif var == 'same':
        rows, feat, sc = [rows[1]] * n, [2] * n, [4.] * n
    elif var == 'sorted':
        rows = sorted(rows)
    elif var == 'updown':
        # the order of the first column only; the others against it
        rows = sorted(rows, key=lambda r: (r[0],) + tuple(-x for x in r[1:]))
    elif var == 'downup':
        rows = sorted(rows, key=lambda r: (-r[0],) + r[1:])
    elif var == 'second':
        rows = sorted(rows, key=lambda r: (r[-1], -r[0]))
    elif var == 'blocks':
        rows = sorted(rows)
        rows = rows[n // 2:] + rows[:n // 2]
    elif var == 'reversed':
        rows, feat = sorted(rows)[::-1], feat[::-1]
    elif var == 'precise':
        sc = [1. / 3, 3.7, 1e-17, 123456789.123456789, -2.5e300,
              4.000000000000001]
    elif var == 'huge':
        rows = [tuple(x + (2 ** 53 + 1 if c % 2 else -2 ** 62) + i % 2
                      for c, x in enumerate(r)) for i, r in enumerate(rows)]
    lines, ft = [], []
    for i in range(n):
        f = [str(x) for x in rows[i]]
        if case['score']:
            f.append(repr(sc[i]))
        if dt is not None:
            cols, v = text_and_value(dt, feat[i])
            f += cols
            ft.append(v)
        lines.append('\t'.join(f))
    d = os.path.join(os.environ['MC_SCRATCH'], 'p%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'x.event')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    kw = {} if ot is None else {'event_otypes': ot}
    if dt is not None:
        kw['event_dtype'] = np.dtype(dt)
    for _ in (0, 1):
        if case['score']:
            x = ds.load_event_with_score(path, n_otypes=n_ot,
                                         score_domain=dom, **kw)
        else:
            x = ds.load_event(path, n_otypes=n_ot, **kw)
        if _ == 0:
            spoil(x)    # data loaded earlier belong to their owner
    where = '%r first rows %r' % (case, lines[:6])
    got = np.asarray(x.to_eid_event(x.event))
    expect(x.n_events == n and got.shape == (n, s), 'n_events', where,
           got=x.n_events)
    for i in range(n):
        expect(tuple(int(v) for v in got[i]) == tuple(rows[i]), 'event',
               where, row=i, got=got[i], want=rows[i])
    if case['score']:
        g = [float(v) for v in x.score]
        bad = [i for i in range(n) if g[i] != sc[i]] if len(g) == n else [-1]
        expect(not bad, 'score', where, row=bad and bad[0],
               got=bad and g[bad[0]], want=bad and sc[bad[0]])
    if dt is not None:
        expect(len(x.event_feature) == n, 'feature', where)
        for i in range(n):
            for j, f in enumerate(dt):
                v = x.event_feature[f[0]][i]
                w = ft[i][j]
                expect(list(v) == w if isinstance(w, list) else v == w,
                       'feature', where, row=i, field=f[0], got=v, want=w)
    else:
        expect(x.event_feature is None, 'feature', where)
    t.ev()
    t.sig(repr(case))
    t.sample({'case': case, 'file': lines[:3]})


def spoil(x):
    """overwrite what a container holds"""
    arr = [x.event, x.event_feature, x.event_otypes, x.n_objects,
           getattr(x, 'score', None), getattr(x, 'score_domain', None)] + \
        list(x.eid) + list(x.feature)
    for a in arr:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = np.zeros((), dtype=a.dtype)
    for d in x.iid:
        d.clear()


def cases(tier):
    for oi in range(len(OT)):
        for score in (False, True):
            for fk in (None, 'timestamp', 'two'):
                yield {'ot': oi, 'score': score, 'feature': fk,
                       'rows': 3 if tier == 'quick' else 4}
    for score in (False, True):
        for fk in range(len(FEATURES)):
            for var in VARIANTS:
                for oi in (0, 3, 4, 6):
                    yield {'ot': oi, 'score': score, 'dtype': fk,
                           'variant': var}
    for score in (False, True):
        for j, (var, n) in enumerate(itertools.product(
                ('updown', 'downup', 'second', 'blocks'),
                (7, 25, 60, 130, 1100))):
            for oi in (0, 3, 4, 6):
                yield {'ot': oi, 'score': score,
                       'dtype': (j + oi) % len(FEATURES), 'variant': var,
                       'n': n}
    for score in (False, True):
        for dt in (0, 1):
            for n in (2, 3, 5, 100, 1001):
                yield {'ragged': n, 'score': score, 'dtype': dt}
    for score in (False, True):
        yield {'ot': 0, 'score': score, 'dtype': 0, 'n': 100001,
               'variant': 'ladder'}
    for n in LADDER + ((1 << 17, 300000) if tier == 'thorough' else ()):
        for score in (False, True):
            for fk in (0, 1):
                yield {'ot': 0, 'score': score, 'dtype': fk, 'n': n,
                       'variant': 'ladder'}


def ragged(case, t):
    """a row with a missing or additional column is not skipped"""
    from kamrecsys import datasets as ds
    d = os.path.join(os.environ['MC_SCRATCH'], 'p%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'x.event')
    score, n = case['score'], case['ragged']
    width = 2 + bool(score) + bool(case['dtype'])
    kw = {'event_dtype': ds.event_dtype_timestamp} if case['dtype'] else {}
    for at in sorted(set((1, 2, n // 2, n - 1)) & set(range(1, n))):
        for w in (1, width - 1, width + 1):
            rows = [['%d' % (i % 7 + 1)] * width for i in range(n)]
            rows[at] = ['5'] * w
            with open(path, 'w') as fp:
                fp.write(''.join('\t'.join(r) + '\n' for r in rows))
            try:
                x = (ds.load_event_with_score if score else ds.load_event)(
                    path, **kw)
            except Exception:
                x = None
            expect(x is None, 'row-skipped', '%r row %d of %d columns' % (
                case, at, w), got=x is not None and x.n_events)
            t.ev()
            t.sig((repr(case), at, w))
    t.sample({'case': case})


def run(case, t):
    if 'ragged' in case:
        return ragged(case, t)
    if 'variant' in case:
        return variant(case, t)
    from kamrecsys import datasets as ds
    ot, n_ot = OT[case['ot']]
    types = ot if ot is not None else tuple(range(n_ot))
    s = len(types)
    fdt = {None: None, 'timestamp': ds.event_dtype_timestamp,
           'two': np.dtype([('timestamp', int), ('w', float)])}[
               case['feature']]
    d = os.path.join(os.environ['MC_SCRATCH'], 'p%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'x.event')
    ids = [[7, -3, 100000], [5, 7, 2], [0, 1, 12345678901]]
    doms = [(1, 5, 1), (0.5, 5.0, 0.5), (-2., 2., 1.)]
    count = 0
    for n in range(1, case['rows'] + 1):
        rows_iter = gen.rows_over((3,) * s, n) if s < 3 and n < 3 else \
            gen.surjections_rows((3,) * s, n) if s < 3 or n < 3 else \
            itertools.islice(gen.surjections_rows((3,) * s, n), 0, 300)
        for j, rows in enumerate(rows_iter):
            count += 1
            style = STYLE[count % len(STYLE)]
            dom = doms[count % 3]
            ev = [[ids[types[c] % 3][r[c]] for c in range(s)] for r in rows]
            sc = [dom[0] + dom[2] * ((i * 3 + j) % 4) for i in range(n)]
            # time in seconds, milliseconds or nanoseconds
            unit = (1, 1000, 10 ** 9)[(count + j) % 3]
            ft = [(881250949 * unit + 13 * i - j, 0.25 * i + j)
                  for i in range(n)]
            lines = []
            for i in range(n):
                f = [str(x) for x in ev[i]]
                if case['score']:
                    f.append(repr(sc[i]) if (count + i) % 3 else
                             '%g' % sc[i])
                if case['feature'] == 'timestamp':
                    f.append(str(ft[i][0]))
                elif case['feature'] == 'two':
                    f += [str(ft[i][0]), repr(ft[i][1])]
                lines.append('\t'.join(f))
            nl = '\r\n' if style == 'crlf' else '\n'
            text = nl.join(lines) + ('' if style == 'nofinal' else nl)
            if style == 'comment':
                text = '# header\n#\n' + text + '# end\n'
            with open(path, 'wb') as fp:
                fp.write(text.encode('ascii'))
            if style == 'text':
                src = open(path, 'r')
            elif style == 'binary':
                src = open(path, 'rb')
            else:
                src = path
            kw = {} if ot is None else {'event_otypes': (
                ot if count % 2 else np.array(ot))}
            if fdt is not None:
                kw['event_dtype'] = fdt
            try:
                if case['score']:
                    x = ds.load_event_with_score(
                        src, n_otypes=n_ot, score_domain=dom, **kw)
                else:
                    x = ds.load_event(src, n_otypes=n_ot, **kw)
            finally:
                if src is not path:
                    src.close()
            r = ref.RefData(n_ot, types)
            evf = None
            if case['feature'] == 'timestamp':
                evf = [(a,) for a, _ in ft]
            elif case['feature'] == 'two':
                evf = ft
            if case['score']:
                r.set_event(ev, evf, sc, dom)
            else:
                r.set_event(ev, evf)
            expect(type(x).__name__ == ('EventWithScoreData' if case['score']
                                        else 'EventData'), 'class')
            ref.compare(x, r, where='style=%s file=%r' % (style, text))
            t.ev()
            t.sig((case['ot'], case['score'], case['feature'], rows))
    t.sample({'types': repr(ot), 'file': text})

