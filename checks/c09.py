"""C09: predictions follow the model equation; unknown objects fall back."""
import itertools

import numpy as np

from mc import gen, models as M, ref
from mc.core import expect, short

LEVEL = 'exploration'
RULE = ('every model x event layout (types of columns x columns used by the '
        'model) x id kind x number of factors is fitted under an optimizer '
        'that answers arbitrary points of the parameter space; every pair of '
        'known and unknown users and items is predicted as a vector and in '
        'batches of every arrangement, and compared with the equation '
        'evaluated on the published parameters.  Non-trivial: a distinct '
        '(model, layout, kind, k, point).')
BOUNDS = {'quick': '15 layouts, 13 kinds, k in 1..21 and to 256, 3-4 objects per column; '
                   'ladder to 300 objects, batches to 131074',
          'thorough': '15 layouts, 13 kinds, k in 1..21 and to 1025; ladder to 1100'}
ASSUMPTIONS = ['ids are of the same kind in training and queries']


BATCHES = (513, 1025, 4099, 10001, 20003, 32771, 65537, 100003, 131074)
FACTORS = tuple(range(4, 22)) + (31, 32, 33, 50, 63, 64, 65, 100, 127, 128,
                                 129, 130, 255, 256)


def cases(tier):
    th = tier == 'thorough'
    kinds = gen.KINDS
    for name in M.MODELS:
        for li in range(len(M.LAYOUT)):
            for kind in kinds:
                yield {'model': name, 'layout': li, 'kind': kind,
                       'ks': [1, 2, 3, 5] if th else [1, 2, 3]}
        for n in (127, 128, 129, 255, 256, 257, 300) + (
                (1100,) if th else ()):
            yield {'model': name, 'layout': 1, 'kind': 'int', 'ladder': n}
            yield {'model': name, 'layout': 4, 'kind': 'str', 'ladder': n}
        for j, k in enumerate(FACTORS + ((257, 300, 513, 1000, 1025) if th
                                         else ())):
            yield {'model': name, 'layout': j % len(M.LAYOUT),
                   'kind': kinds[j % len(kinds)], 'ks': [k]}
        for n in BATCHES + ((262145, 1000003) if th else ()):
            yield {'model': name, 'layout': n % len(M.LAYOUT),
                   'kind': ('int', 'str')[n % 5 == 1 and n < 40000],
                   'ks': [2], 'batch': n}


def arrays(q, kind):
    """representations of the same queries"""
    yield np.array(q, dtype=gen.QDTYPE[kind])
    if kind != 'uint64':
        # numpy makes floats of lists of large numbers
        yield [list(x) for x in q]
    if kind in ('str', 'obj'):
        yield np.array(q, dtype='U48')
    if kind in ('int', 'neg', 'int8') and abs(np.array(q)).max() < 2 ** 31:
        yield np.asfortranarray(np.array(q, dtype=np.int32))


def fractions(model, case, users, items, t, where):
    """a number between integer ids is not an id"""
    if case.kind not in ('int', 'zero', 'neg', 'int8', 'uint8', 'int16',
                         'int32'):
        return
    q, want = [], []
    for d in (0., .5, .25, -.25, 2. ** -20):
        for dd in (0., .5):
            u, i = users[len(q) % len(users)], items[len(q) % len(items)]
            if not q:
                u, i = users[-1], items[0]
            q.append(np.array(case.query(u, i), dtype=float))
            q[-1][case.index[0]] += d
            q[-1][case.index[1]] += dd
            want.append(M.predicted(model, case, u + d if d else u,
                                    i + dd if dd else i))
    got = np.ravel(model.predict(np.array(q)))
    bad = [(q[j].tolist(), float(got[j]), want[j]) for j in range(len(q))
           if not ref.feq(float(got[j]), want[j])]
    expect(not bad, 'fraction', where, wrong=bad[:3])
    for j in (0, 1, 2):
        g = float(model.predict(list(q[j])))
        expect(ref.feq(g, want[j]), 'fraction', where, query=q[j], got=g,
               want=want[j])
    t.ev()


def judge(model, case, users, items, t, where):
    fractions(model, case, users, items, t, where)
    q, want = [], []
    for u in users:
        for i in items:
            q.append(case.query(u, i))
            want.append(M.predicted(model, case, u, i))
    for z in case.unknown()[:2]:
        if len(case.otypes) > 2:
            # the columns that are not used do not matter
            q.append(case.query(users[0], items[0], filler=z))
            want.append(M.predicted(model, case, users[0], items[0]))
    for arr in arrays(q, case.kind):
        got = np.asarray(model.predict(arr))
        expect(got.shape == (len(q),), 'shape', where, got=got.shape)
        bad = [(q[j], float(got[j]), want[j]) for j in range(len(q))
               if not ref.feq(float(got[j]), want[j])]
        expect(not bad, 'prediction', where, wrong=bad[:3])
        t.ev()
    return q, want


def run(case, t):
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    if 'ladder' in case:
        n = case['ladder']
        c = M.Case(case['model'], lay, case['kind'], M.rows3(n + 5, n, s))
        m = M.cls(case['model'])(C=1., k=1, random_state=1)
        c.fit(m, M.answer(lambda x0: M.spread(len(x0))))
        us, it = c.objects(c.types[0]), c.objects(c.types[1])
        pick = [0, 1, n // 2, 126, 127, n - 2, n - 1]
        pick = sorted(set(x for x in pick if 0 <= x < min(len(us),
                                                          len(it))))
        un = c.unknown()[:1]
        judge(m, c, [us[j] for j in pick] + un, [it[j] for j in pick] + un,
              t, 'ladder %r' % case)
        t.sig(repr(case))
        return
    for k in case['ks']:
        for salt in range(2):
            c = M.Case(case['model'], lay, case['kind'],
                       M.rows3(6 + salt, 3 + salt, s, salt), salt)
            m = M.cls(case['model'])(C=0.5, k=k, random_state=salt)
            c.fit(m, M.answer(lambda x0: M.spread(len(x0), salt + k)))
            us, it = c.objects(c.types[0]), c.objects(c.types[1])
            un = c.unknown()
            where = '%s layout=%r kind=%s k=%d' % (
                case['model'], lay, case['kind'], k)
            q, want = judge(m, c, us + un, it + un, t, where)
            # single events, as a vector
            for j in range(len(q)):
                v = q[j] if j % 2 and c.kind != 'uint64' else np.array(
                    q[j], dtype=gen.QDTYPE[c.kind])
                got = float(m.predict(v))
                expect(ref.feq(got, want[j]), 'prediction-single', where,
                       query=q[j], got=got, want=want[j])
            if 'batch' in case:
                # long batches, of which no period divides the length
                n = case['batch']
                order = np.arange(n) * 7 % len(q)
                arr = np.array(q, dtype=gen.QDTYPE[case['kind']])[order]
                got = np.asarray(m.predict(arr))
                w = np.array(want)[order]
                expect(got.shape == (n,), 'shape', where, got=got.shape)
                bad = np.nonzero(~(np.abs(got - w) <= 1e-9 * np.maximum(
                    1, np.abs(w))))[0]
                expect(not len(bad), 'prediction-batch', where,
                       wrong=[(int(j), float(got[j]), float(w[j]))
                              for j in bad[:3]], n=n)
            # both the user and the item are unknown: the global bias only
            if un:
                got = float(m.predict(np.array(
                    c.query(un[0], un[-1]), dtype=gen.QDTYPE[c.kind])))
                mu = float(np.ravel(m.mu_)[0])
                mu = mu if case['model'] == 'PMF' else M.sigmoid(mu)
                expect(ref.feq(got, mu), 'unknown-pair', where, got=got,
                       want=mu)
            t.ev(len(q))
            t.sig((case['model'], case['layout'], case['kind'], k, salt))
    t.sample({'case': case, 'first query': repr(q[0]), 'want': want[0]})
