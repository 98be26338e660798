"""C36: models depend only on the selected columns and identity of ids."""
import itertools

import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('for every model, training set, and pair of selected columns of '
        'every layout of up to four columns whose other columns add no '
        'objects of the selected types: the model equals, parameter by '
        'parameter and prediction by prediction, the model of the two '
        'columns alone.  For every order preserving renaming of ids within '
        'and between kinds of ids, every presence of features, and every '
        'numeric type of the scores, predictions of corresponding objects '
        'are equal.  Each with the real and with an arbitrary optimizer.  '
        'Non-trivial: a distinct (model, layout, data).')
BOUNDS = {'quick': '<=4 columns, 3 object types, 3 data sets, 6 kinds of id; 65-1025 '
          'events',
          'thorough': 'as quick with 9 data sets and ladders to 300 objects'}
ASSUMPTIONS = ['results of the real optimizer on identical problems agree to '
               '1e-9',
               'scores of single and half precision are not compared (their '
               'mean is computed in their own precision)']


def layouts():
    """(event_otypes, event_index, swapped-column narrow types)"""
    for s in (2, 3, 4):
        for ot in itertools.product(range(3), repeat=s):
            # types are numbered in order of first appearance or reversed
            used = sorted(set(ot))
            if used != list(range(len(used))):
                continue
            for idx in itertools.permutations(range(s), 2):
                sel = {ot[idx[0]], ot[idx[1]]}
                if any(ot[c] in sel for c in range(s) if c not in idx):
                    # allowed when the other column adds no objects
                    if s == 4:
                        continue
                yield ot, idx


def cases(tier):
    th = tier == 'thorough'
    names = M.ALL + ('MultinomialPLSA:mode',)
    for n, (ot, idx) in enumerate(layouts()):
        for name in names:
            for d in range(9 if th else 3):
                yield {'name': name, 'ot': list(ot), 'idx': list(idx),
                       'data': d, 'real': (n + d) % 2}
    for name in names:
        for n in (65, 129, 257, 1025) + ((4097,) if th else ()):
            for j, (ot, idx) in enumerate((
                    ([0, 1, 2], [2, 0]), ([1, 0, 1], [0, 1]),
                    ([2, 0, 1, 0], [3, 2]), ([0, 0], [1, 0]))):
                yield {'name': name, 'ot': ot, 'idx': idx, 'data': 0,
                       'real': 0, 'large': n, 'shape': 1 if n > 130 else
                       (n + j) % 4}
        # another column has many times as many objects
        for n in (300, 1100) + ((5000,) if th else ()):
            for ot, idx in (([0, 1, 2], [0, 1]), ([2, 0, 1], [2, 1]),
                            ([0, 1, 0], [2, 0])):
                yield {'name': name, 'ot': ot, 'idx': idx, 'data': 0,
                       'real': 0, 'large': n, 'few': True}
    for name in names:
        # many columns
        for s in (5, 8, 9, 10, 12, 17, 33):
            for d, idx in enumerate(((s - 1, 0), (0, s - 2), (s - 2, s - 1))):
                yield {'name': name, 'ot': list(range(s)), 'idx': list(idx),
                       'data': d, 'real': 0}
            yield {'name': name, 'ot': [(i * 2) % 3 for i in range(s)],
                   'idx': [s - 1, s - 2], 'data': 0, 'real': 0}
    for name in names:
        for d in range(9 if th else 3):
            yield {'name': name, 'rename': d}
            yield {'name': name, 'extra': d}
        for m in (65, 128, 257, 300) if th else (65, 130):
            yield {'name': name, 'rename': 0, 'ladder': m}


def compare(a, b, qa, qb, where):
    """two fitted models answer corresponding queries alike"""
    for n in ('mu_', 'bu_', 'bi_', 'p_', 'q_', 'pz_', 'pxz_', 'pyz_',
              'prz_'):
        x, y = getattr(a, n, None), getattr(b, n, None)
        if x is None or y is None:
            continue
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        expect(x.shape == y.shape and np.allclose(
            x, y, rtol=1e-9, atol=1e-12), 'parameters', where, name=n,
            first=x.ravel()[:6], second=y.ravel()[:6])
    x = np.ravel(a.predict(np.array(qa)))
    y = np.ravel(b.predict(np.array(qb)))
    expect(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12),
           'predictions', where, first=x[:8], second=y[:8])
    for k in ('n_users', 'n_items', 'n_events', 'n_parameters',
              'final_loss'):
        u, v = a.fit_results_.get(k), b.fit_results_.get(k)
        expect((u is None) == (v is None) and (
            u is None or ref.feq(float(u), float(v), 1e-9)), 'results',
            where, name=k, first=u, second=v)


def fit(name, data, index, real, k):
    m = M.make(name, k, 5, **({} if name.startswith('Mult') else
                              {'C': .3, 'maxiter': 4}))
    with env.controlled(None if real else M.quick_hook(3)):
        if index is None:
            m.fit(data)
        else:
            m.fit(data, event_index=index)
    return m


def data_of(d):
    """rows of object indices (user, item)"""
    n, k, salt = [(5, 3, 0), (4, 2, 1), (7, 4, 2), (2, 1, 0), (6, 6, 3),
                  (9, 3, 4), (3, 1, 1), (8, 5, 5), (12, 4, 6)][d]
    return M.rows3(n, k, 2, salt)


def run(case, t):
    if 'rename' in case:
        return rename(case, t)
    if 'extra' in case:
        return extra(case, t)
    name, ot, idx = case['name'], case['ot'], case['idx']
    rows = data_of(case['data'])
    if 'large' in case:
        rows = ([(i % 2, i // 2 % 3) for i in range(case['large'])]
                if 'few' in case else
                gen.large_rows(case['large'], (0, 1), case['shape']))
    sc, dom = M.scores_for(M.base(name), len(rows), case['data'])
    s = len(ot)
    tu, ti = ot[idx[0]], ot[idx[1]]
    nob = max(max(r) for r in rows) + 1
    wide = []
    for j, r in enumerate(rows):
        w = [None] * s
        w[idx[0]], w[idx[1]] = r
        for c in range(s):
            if w[c] is None:
                # objects of another type, or one that a selected column has
                if ot[c] == tu:
                    w[c] = rows[(j * 2 + c) % len(rows)][0]
                elif ot[c] == ti:
                    w[c] = rows[(j * 2 + c) % len(rows)][1]
                elif 'few' in case:
                    w[c] = j
                else:
                    w[c] = (j * 3 + c) % (nob + 2)
        wide.append(tuple(w))
    where = '%r' % (case,)
    kind = gen.KINDS[(case['data'] + s + idx[0]) % len(gen.KINDS)]
    if 'large' in case:
        kind = ('int', 'str')[idx[0] % 2]
    evw = gen.event_array(wide, kind, ot)
    evn = evw[:, idx]
    n_ot = len(set(ot))
    a = M.container(M.base(name), evw, tuple(ot), n_ot, sc, dom)
    b = M.container(M.base(name), evn, (0, 0) if tu == ti else (0, 1),
                    1 if tu == ti else 2, sc, dom)
    k = 1 + case['data'] % 3
    index = tuple(idx)
    if case['data'] % 3 == 1:
        index = np.array(idx)
    ma = fit(name, a, index, case['real'], k)
    mb = fit(name, b, None, case['real'], k)
    users = sorted(set(gen.py(x) for x in evn[:, 0]))
    items = sorted(set(gen.py(x) for x in evn[:, 1]))
    unk = gen.py(np.array(gen.UNKNOWN[kind], dtype=gen.DTYPE[kind])[0])
    un = [unk] + gen.near(kind, users + items)[:2]
    qn = [[u, i] for u in users + un for i in items + un]
    # objects with both roles in one type
    if tu == ti:
        qn += [[i, u] for u in users for i in items]
    qw = []
    for j, (u, i) in enumerate(qn):
        w = [gen.py(evw[0, c]) if j % 2 else unk for c in range(s)]
        w[idx[0]], w[idx[1]] = u, i
        qw.append(w)
    dt = gen.QDTYPE[kind]
    compare(ma, mb, np.array(qw, dtype=dt), np.array(qn, dtype=dt), where)
    t.ev()
    t.sig((name, ot, idx, case['data']))
    t.sample({'case': case, 'wide': wide[:4]})


def tables(n):
    """order preserving names of 0..n-1"""
    def code(i):
        return ''.join(chr(ord('a') + (i // 26 ** p) % 26)
                       for p in (2, 1, 0))
    yield 'plain', np.arange(n)
    yield 'shifted', np.arange(n) * 3 - n
    yield 'big', np.arange(n) * 2 ** 33 + 2 ** 40
    yield 'int16', (np.arange(n) * 5 - 90).astype(np.int16)
    yield 'uint8', (np.arange(n) + (255 - n if n < 256 else 0)).astype(
        np.uint8 if n < 256 else np.uint16)
    yield 'float', np.arange(n) / 4. - 2.5
    yield 'str', np.array([code(i) for i in range(n)])
    yield 'long', np.array([code(i) + u'\u5bff' * 9 for i in range(n)])
    yield 'obj', np.array([code(i) for i in range(n)], dtype=object)
    yield 'squares', np.arange(n) ** 2 + 10


def rename(case, t):
    name = case['name']
    if 'ladder' in case:
        n = case['ladder']
        rows = [(i, (i * 7) % n) for i in range(n)] + [
            (i, (i * 3) % 5) for i in range(10)]
    else:
        rows = data_of(case['rename'])
    nob = max(max(r) for r in rows) + 1
    sc, dom = M.scores_for(M.base(name), len(rows), case['rename'])
    first = None
    q = [(u, i) for u in range(min(nob, 12)) for i in range(min(nob, 12))] \
        + [(nob - 1, nob - 1)]
    real = 'ladder' not in case
    for label, tab in tables(nob):
        for both in (False, True):
            if 'ladder' in case and both:
                continue
            ev = np.array([[tab[u], tab[i]] for u, i in rows],
                          dtype=tab.dtype)
            ot = ((0, 0), 1) if both else ((0, 1), 2)
            d = M.container(M.base(name), ev, ot[0], ot[1], sc, dom)
            m = fit(name, d, None, real, 2)
            qq = np.array([[tab[u], tab[i]] for u, i in q], dtype=tab.dtype)
            if first is None:
                first = {}
            if both not in first:
                first[both] = (m, qq)
            else:
                compare(first[both][0], m, first[both][1], qq,
                        '%r ids=%s types=%r' % (case, label, ot[0]))
            t.ev()
            t.sig((name, case['rename'], label, both))
    t.sample({'case': case})


def extra(case, t):
    """features, the domain and types of scores do not matter"""
    name = case['name']
    rows = data_of(case['extra'])
    sc, dom = M.scores_for(M.base(name), len(rows), case['extra'])
    ev = gen.event_array(rows, 'int', (0, 1))
    q = ev
    first = fit(name, M.container(M.base(name), ev, (0, 1), 2, sc, dom),
                None, True, 2)
    from kamrecsys import data as kd

    def variant(score, evf, feats):
        if score is None:
            d = kd.EventData()
            d.set_event(ev, event_feature=evf)
        else:
            d = kd.EventWithScoreData()
            d.set_event(ev, score, dom, evf)
        if feats:
            for o in (0, 1):
                eids = sorted(set(gen.py(x) for x in ev[:, o]))
                d.set_feature(o, np.array(eids), gen.object_feature(
                    feats, list(range(len(eids)))))
        return d
    for j, (evf, feats) in enumerate(itertools.product(
            (None,) + gen.FEATURE_KINDS, (None,) + gen.FEATURE_KINDS)):
        types = [None]
        if sc is not None:
            types = [list, float, int, np.int8, np.int32, np.uint8,
                     np.int16]
            if any(x != int(x) for x in sc):
                types = types[:2]
            types = [types[j % len(types)], types[(j + 3) % len(types)]]
        for ty in types:
            s = None if ty is None else list(sc) if ty is list else \
                np.array(sc).astype(ty)
            m = fit(name, variant(s, gen.event_feature(evf, len(rows)),
                                  feats), None, True, 2)
            compare(first, m, q, q, '%r features=%r/%r scores=%r' % (
                case, evf, feats, ty))
            t.ev()
            t.sig((name, case['extra'], evf, feats, str(ty)))
    t.sample({'case': case})
