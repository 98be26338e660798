"""C10: prediction is a pure function of the fitted model and the query."""
import copy
import itertools
import pickle

import numpy as np

from mc import gen, models as M, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('every sequence, up to the depth, of predictions (single events, '
        'lists, batches in several orders, with duplicates, with unknown '
        'objects, in several memory layouts, read-only arrays), rejected '
        'queries, and replacements of the model by its pickled, copied or '
        'deep-copied self, on a really fitted model.  Each answer is compared '
        'with the answer to the event alone given by an untouched model; the '
        'caller overwrites each returned array, and earlier answers must not '
        'change.  Batches of all sizes along a ladder.  States: published attributes x type of the last actions.')
BOUNDS = {'quick': 'depth 3, 5 models, 3 layouts; batches up to 32769',
          'thorough': 'depth 4, 5 models, 4 layouts; batches up to 262145'}
ASSUMPTIONS = []

NAMES = M.MODELS + ('MultinomialPLSA', 'MultinomialPLSA:mode')
# layouts x id kinds
CFG = [(0, 'int'), (7, 'neg'), (4, 'str'), (6, 'int32')]


def queries(case):
    """name -> (representation, list of rows)"""
    dt = gen.QDTYPE[case.kind]
    us, it = case.objects(case.types[0]), case.objects(case.types[1])
    un = case.unknown()
    allq = [case.query(u, i) for u in us + un[:1] for i in it + un[:1]]
    rev = allq[::-1]
    dup = [allq[1], allq[0], allq[1], allq[-1], allq[1], allq[2]]
    two = [allq[3], allq[-2]]
    ro = np.array(allq, dtype=dt)
    ro.setflags(write=False)
    wide = np.array([r + r for r in allq], dtype=dt)
    return {
        'vector': (np.array(allq[1], dtype=dt), [allq[1]]),
        'one-row': (np.array(allq[2:3], dtype=dt), allq[2:3]),
        'list-unknown': (list(allq[-1]), [allq[-1]]),
        'all': (np.array(allq, dtype=dt), allq),
        'reversed': (np.asfortranarray(np.array(rev, dtype=dt)), rev),
        'dup': ([list(r) for r in dup], dup),
        'two': (np.array(two, dtype=dt), two),
        'read-only': (ro, allq),
        'view': (wide[::-1, :len(allq[0])], rev),
    }


COPIES = ('pickle', 'copy', 'deepcopy')


def cases(tier):
    th = tier == 'thorough'
    ops = sorted(['vector', 'one-row', 'list-unknown', 'all', 'reversed',
                  'dup', 'two', 'read-only', 'view', 'reject']) + list(COPIES)
    for name in NAMES:
        for li, kind in CFG[:2]:
            yield {'model': name, 'layout': li, 'kind': kind, 'tier': tier}
    for name in NAMES:
        yield {'kept': name, 'seeds': 40 if th else 12}
    for name in NAMES:
        for li, kind in CFG if th else CFG[:3]:
            for first in ops:
                yield {'model': name, 'layout': li, 'kind': kind,
                       'first': first, 'depth': 4 if th else 3, 'ops': ops}


def build(case):
    lay = M.LAYOUT[case['layout']]
    name = case['model']
    c = M.Case(M.base(name), lay, case['kind'],
               M.rows3(6, 3, len(lay[0])), 1)
    m = M.make(name, k=2, seed=3)
    c.fit(m, M.quick_hook(2))
    return c, m


def step(m, op, q, memo, t, where):
    if op == 'pickle':
        return pickle.loads(pickle.dumps(m))
    if op == 'copy':
        return copy.copy(m)
    if op == 'deepcopy':
        return copy.deepcopy(m)
    if op == 'reject':
        try:
            m.predict(np.zeros((2, 0)))
        except Exception:
            pass
        return m
    arg, rows = q[op]
    before = ref.snapshot(arg)
    got = m.predict(arg)
    t.ev()
    expect(ref.snapshot(arg) == before, 'query-changed', where)
    val = np.array(np.ravel(got), dtype=float)
    want = np.array([memo[tuple(r)] for r in rows])
    expect(val.shape == want.shape and np.allclose(
        val, want, rtol=1e-12, atol=1e-12), 'prediction', where,
        got=val.tolist(), want=want.tolist())
    return m, got


def run(case, t):
    if 'kept' in case:
        return kept(case, t)
    if 'tier' in case:
        return ladder(case, t)
    c, m0 = build(case)
    q = queries(c)
    memo = {}
    fresh = pickle.dumps(m0)
    for arg, rows in q.values():
        for r in rows:
            if tuple(r) not in memo:
                memo[tuple(r)] = float(np.ravel(
                    pickle.loads(fresh).predict(
                        np.array(r, dtype=gen.QDTYPE[c.kind])))[0])
    expect(len(set(memo.values())) > 1 or M.base(case['model']) ==
           'MultinomialPLSA', 'harness', 'predictions do not differ')
    pub0 = M.pub(m0)
    for rest in itertools.product(case['ops'], repeat=case['depth'] - 1):
        hist = (case['first'],) + rest
        if hist[-1] in COPIES or hist[-1] == 'reject':
            continue
        for parity in (0, 1):
            history(case, hist, parity, fresh, q, memo, pub0, t)
    t.sample({'case': {k: v for k, v in case.items() if k != 'ops'},
              'answers': list(memo.items())[:2]})


SIZES = (list(range(1, 70)) + [
    100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 500, 501, 511, 512,
    513, 514, 999, 1000, 1001, 1023, 1024, 1025, 1026, 2000, 2001, 2047,
    2048, 2049, 4095, 4096, 4097, 5001, 8191, 8192, 8193, 10000, 10001,
    16384, 16385, 20001, 24576, 30000, 32767, 32768, 32769, 40000, 49152,
    50000])


def kept(case, t):
    """predictions of many models leave their published attributes"""
    lay = M.LAYOUT[0]
    name = case['kept']
    for seed in range(case['seeds']):
        for k in (1, 2, 3, 7):
            c = M.Case(M.base(name), lay, 'int',
                       M.rows3(6 + seed, 3, len(lay[0])), seed)
            m = M.make(name, k=k, seed=seed)
            c.fit(m, M.quick_hook(seed))
            us, it = c.objects(c.types[0]), c.objects(c.types[1])
            q = [c.query(u, i) for u in us + c.unknown()[:1] for i in it]
            before = M.pub(m)
            for arg in (q, q[:1], q[0], np.array(q[::-1])):
                m.predict(arg)
                t.ev()
                t.step()
                expect(M.pub(m) == before, 'model-changed', '%s k=%d seed=%d'
                       % (name, k, seed),
                       attributes=M.pub_diff(before, M.pub(m)))
            t.state((name, k, seed))
            t.trace()
        t.sig((name, seed))


def ladder(case, t):
    """one query of each size; every answer is that to the event alone"""
    c, m = build(case)
    q = queries(c)['all'][1]
    dt = gen.QDTYPE[c.kind]
    alone = np.array([float(np.ravel(m.predict(np.array(r, dtype=dt)))[0])
                      for r in q])
    big = case['tier'] == 'thorough' and [65535, 65536, 65537, 98304, 100000, 100001,
                                          131073, 262145] or []
    for n in SIZES + big:
        if M.base(case['model']) == 'MultinomialPLSA' and n > 140000:
            continue
        for salt in (0, 1):
            idx = (np.arange(n) * (1 + 6 * salt) + salt) % len(q)
            arg = np.array([q[i] for i in range(len(q))], dtype=dt)[idx]
            got = np.array(np.ravel(m.predict(arg)), dtype=float)
            t.ev()
            t.step()
            expect(got.shape == (n,) and np.allclose(
                got, alone[idx], rtol=1e-12, atol=1e-12), 'prediction',
                '%s: a query of %d events' % (case['model'], n))
    overwritten(case, m, np.array([q[i] for i in range(len(q))], dtype=dt),
                alone, t)
    t.sig((case['model'], case['layout'], alone.tolist()))
    t.trace()


def overwritten(case, m, q, alone, t):
    """one array (list) is overwritten and asked again"""
    k = len(q)
    for n in (1, 2, 3, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 1001, 1025,
              4097, 10001, 32769):
        arg = np.array(q)[np.arange(n) % k]
        lst = [list(x) for x in arg] if n < 300 else None
        row = list(q[0])
        for salt in range(4):
            idx = (np.arange(n) * (1 + 2 * salt) + salt * 3) % k
            if salt == 2:
                # one event differs only
                idx = (np.arange(n) * 3 + 3) % k
                idx[n // 2] = (idx[n // 2] + 1) % k
            arg[...] = q[idx]
            where = '%s: a query of %d events overwritten %d times' % (
                case['model'], n, salt)
            for a in (arg, arg[::-1], lst) if lst is not None else (arg,):
                want = alone[idx]
                if a is lst:
                    for x, y in zip(lst, arg):
                        x[:] = list(y)
                elif a is not arg:
                    want = want[::-1]
                got = np.array(np.ravel(m.predict(a)), dtype=float)
                t.ev()
                t.step()
                expect(got.shape == (n,) and np.allclose(
                    got, want, rtol=1e-12, atol=1e-12), 'prediction', where)
            row[:] = list(q[idx[0]])
            got = float(np.ravel(m.predict(row))[0])
            expect(abs(got - alone[idx[0]]) <= 1e-12 * max(1., abs(got)),
                   'prediction', where)
        t.sig((case['model'], n))
    # new batches that begin, or end, like the one before
    for n in (2, 9, 17, 33, 65, 129, 257, 1001, 4097):
        for at in sorted(set((0, 1, n // 2, n - 2, n - 1, min(8, n - 1),
                              min(32, n - 1), min(100, n - 1)))):
            idx = (np.arange(n) * 3 + at) % k
            for salt in range(3):
                idx = idx.copy()
                idx[at] = (idx[at] + salt) % k
                got = np.array(np.ravel(m.predict(np.array(q[idx]))),
                               dtype=float)
                t.ev()
                t.step()
                expect(got.shape == (n,) and np.allclose(
                    got, alone[idx], rtol=1e-12, atol=1e-12), 'prediction',
                    '%s: %d events that differ at %d' % (
                        case['model'], n, at))
    # arrays that are released and may be replaced at the same address
    for n in (1, 17, 100, 1025):
        for salt in range(12):
            idx = (np.arange(n) * 5 + salt) % k
            got = np.array(np.ravel(m.predict(q[idx])), dtype=float)
            expect(np.allclose(got, alone[idx], rtol=1e-12, atol=1e-12),
                   'prediction', '%s: a new query of %d events' % (
                       case['model'], n))
            t.ev()
            t.step()


def history(case, hist, parity, fresh, q, memo, pub0, t):
    where = '%s %s history=%s' % (case['model'],
                                  M.LAYOUT[case['layout']], hist)
    m = pickle.loads(fresh)
    older = [m]
    kept = []
    answers = 0
    for op in hist:
        r = step(m, op, q, memo, t, where)
        t.step()
        for arr, cp in kept:
            expect(np.array_equal(np.asarray(arr), cp),
                   'earlier-answer-changed', where)
        if isinstance(r, tuple):
            got = r[1]
            answers += 1
            if answers % 2 == parity and isinstance(got, np.ndarray) and \
                    got.flags.writeable:
                got[...] = -77.     # the caller owns the answer
            else:
                kept.append((got, np.array(got)))
        else:
            if r is not m:
                older.append(r)
            m = r
    for x in older:
        p = M.pub(x)
        expect(p == pub0, 'model-changed', where,
               attributes=M.pub_diff(p, pub0) if p != pub0 else [])
        t.state((case['model'], case['layout'], hist[-2:], p))
    t.sig((case['model'], case['layout'], hist))
    t.trace()
