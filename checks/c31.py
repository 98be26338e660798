"""C31: records convert to JSON and back without losing values."""
import collections
import datetime
import json
import math

import numpy as np
from scipy import sparse

from mc.core import expect

LEVEL = 'exploration'
RULE = ('every nested record within the bounds over the alphabet of values '
        '(Python and numpy scalars of every width, arrays of every '
        'dimension and dtype, sparse matrices, strings, objects without a '
        'JSON form) is converted, written as JSON, read, and compared with '
        'a recursive model; converting twice changes nothing.  Non-trivial: '
        'a distinct record.')
BOUNDS = {'quick': 'all trees with <=3 containers of <=2 entries over 13 '
          'values, every one of ~150 values in 8 contexts',
          'thorough': 'as quick with 4 containers, nesting ladder to 120'}
ASSUMPTIONS = ['keys are strings',
               'tuples and complex numbers have no documented JSON form '
               'and are not generated']


class Odd(object):
    def __str__(self):
        return u'odd \u5bff'


def values():
    """(name, factory, expected JSON value)"""
    out = []

    def add(name, f, want):
        out.append((name, f, want))
    for v in (0, 1, -1, 7, 255, 256, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1,
              2 ** 63, -2 ** 70):
        add('int%d' % v, lambda v=v: v, v)
    for v in (0., -0., 1., .1, -2.5, 1 / 3., 1e-300, 5e-324, 1e300, 2. ** 53,
              float('inf'), float('-inf'), float('nan')):
        add('float%r' % v, lambda v=v: v, v)
    for v in (True, False):
        add('bool%r' % v, lambda v=v: v, v)
        add('np-bool-%r' % v, lambda v=v: np.bool_(v), v)
    for v in (u'', u'a', u'"\\/\n\t', u'\u5bff\u53f8', u'\U0001f600', u'1',
              u'None', u'[1]', u'\x00'):
        add('str%r' % v, lambda v=v: v, v)
        add('npstr%r' % v, lambda v=v: np.str_(v), str(np.str_(v)))
    for dt in ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8'):
        ii = np.iinfo(dt)
        for v in (0, 1, ii.min, ii.max, ii.max // 3):
            add('np-%s-%d' % (dt, v), lambda v=v, dt=dt: np.dtype(dt).type(v),
                int(v))
    for dt in ('f2', 'f4', 'f8'):
        for v in (0., .1, -1.5, 60000., 1e-7, float('inf'), float('nan')):
            x = np.dtype(dt).type(v)
            add('np-%s-%r' % (dt, v), lambda x=x: x, float(x))
    for dt in ('i1', 'u1', 'i4', 'i8', 'u8', 'f2', 'f4', 'f8', '?'):
        for shape in ((), (0,), (1,), (3,), (2, 2), (1, 3), (0, 2), (2, 0),
                      (2, 1, 2)):
            n = int(np.prod(shape))
            a = (np.arange(n) * 3 - 1).astype(dt).reshape(shape)
            add('arr-%s-%s' % (dt, shape), lambda a=a: a.copy(), a.tolist())
    a = np.arange(12.).reshape(3, 4)
    add('arr-t', lambda: a.T, a.T.tolist())
    add('arr-slice', lambda: a[::-2, 1::2], a[::-2, 1::2].tolist())
    add('arr-ro', lambda: np.broadcast_to(np.float32(.1), (2, 2)),
        [[float(np.float32(.1))] * 2] * 2)
    add('arr-be', lambda: np.array([1, -2], '>i4'), [1, -2])
    add('arr-str', lambda: np.array([u'a', u'\u5bff']), [u'a', u'\u5bff'])
    add('arr-nan', lambda: np.array([np.nan, -np.inf, 0.]),
        [float('nan'), -float('inf'), 0.])
    add('arr-mat', lambda: np.matrix([[1, 2]]), [[1, 2]])
    o = [1, u'x', 2.5, [np.int32(4)], {'k': np.arange(2)}, np.float32(.5),
         Odd()]

    def obj():
        r = np.empty(7, dtype=object)
        r[:] = [1, u'x', 2.5, [np.int32(4)], {'k': np.arange(2)},
                np.float32(.5), Odd()]
        return r
    add('arr-obj', obj, [1, u'x', 2.5, [4], {'k': [0, 1]}, .5, str(o[-1])])
    for shape in ((1, 1), (2, 3), (6, 1), (1, 2, 3), (3, 0), (2, 1, 1, 3)):
        pool = [datetime.timedelta(3), np.float32(.25), {'k': np.int8(3)},
                [np.arange(2), Odd()], u'z', np.eye(2)]
        want = [str(pool[0]), .25, {'k': 3}, [[0, 1], str(Odd())], u'z',
                [[1., 0.], [0., 1.]]]

        def objs(shape=shape):
            r = np.empty(shape, dtype=object)
            for j, p in enumerate(np.ndindex(*shape)):
                r[p] = [datetime.timedelta(3), np.float32(.25),
                        {'k': np.int8(3)}, [np.arange(2), Odd()], u'z',
                        np.eye(2)][j % 6]
            return r
        w = np.empty(shape, dtype=object)
        for j, p in enumerate(np.ndindex(*shape)):
            w[p] = want[j % 6]
        add('arr-obj-%r' % (shape,), objs, w.tolist())
    add('arr-date', lambda: np.array(['2020-02-29'], 'M8[D]'),
        ['2020-02-29'])
    m = np.array([[0, 2, 0], [0, 0, -1]])
    for f in ('csr', 'csc', 'coo', 'lil', 'dok', 'bsr', 'dia'):
        for dt in ('i4', 'f8'):
            add('sparse-%s-%s' % (f, dt), lambda f=f, dt=dt: getattr(
                sparse, f + '_matrix')(m.astype(dt)),
                m.astype(dt).tolist())
    add('none', lambda: None, None)
    add('arr-none', lambda: np.array([None, 1, np.bool_(0)], dtype=object),
        [None, 1, False])
    d = datetime.timedelta(1, 2, 3)
    add('delta', lambda: d, str(d))
    t = datetime.datetime(2020, 2, 29, 1, 2, 3)
    add('time', lambda: t, str(t))
    add('class', lambda: Odd, str(Odd))
    add('odd', Odd, str(Odd()))
    add('elist', list, [])
    add('edict', dict, {})
    return out


VAL = values()
SMALL = [i for i, v in enumerate(VAL) if v[0] in (
    'int7', 'float0.1', 'boolTrue', "str'a'", 'np-i4-1', 'np-f4-0.1',
    'arr-i8-(3,)', 'arr-f8-(2, 2)', 'arr-f8-(0,)', 'arr-?-(1,)', 'arr-obj',
    'sparse-csr-f8', 'delta', 'none', 'np-bool-True')]


def trees(budget, width):
    """all containers using at most `budget` containers; leaves are None"""
    if budget == 0:
        return []
    out = []
    for kind in 'dlo':
        for n in range(width + 1):
            out.extend((kind,) + s for s in fill(n, budget - 1, width))
    return out


def fill(n, budget, width):
    if n == 0:
        return [()]
    out = []
    for rest in fill(n - 1, budget, width):
        out.append((None,) + rest)
    for b in range(1, budget + 1):
        for sub in trees(b, width):
            if count(sub) != b:
                continue
            for rest in fill(n - 1, budget - b, width):
                out.append((sub,) + rest)
    return out


def count(t):
    return 0 if t is None else 1 + sum(count(x) for x in t[1:])


def leaves(t):
    return 1 if t is None else sum(leaves(x) for x in t[1:])


def build(t, it):
    """-> (record, expected)"""
    if t is None:
        v = VAL[next(it)]
        return v[1](), v[2]
    sub = [build(x, it) for x in t[1:]]
    if t[0] == 'l':
        return [s[0] for s in sub], [s[1] for s in sub]
    d = (dict if t[0] == 'd' else collections.OrderedDict)(
        (u'k%d' % (9 - i), s[0]) for i, s in enumerate(sub))
    return d, collections.OrderedDict(
        (u'k%d' % (9 - i), s[1]) for i, s in enumerate(sub))


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(
            same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (
            a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


def arrays(n, which, t):
    """long arrays and strings"""
    i = np.arange(n)
    f = [(j * 7 % 1001) / 3. for j in range(n)]
    h = [float(np.float32(v)) for v in f]
    s = [u'%d\u5bff' % (j % 77) for j in range(n)]
    g = f + f
    many = ((np.array(f), f), (np.array(f, dtype='f4'), h),
            (i - 5, list(range(-5, n - 5))),
            (i % 2 == 0, [j % 2 == 0 for j in range(n)]), (np.array(s), s),
            (np.array(g).reshape(n, 2), [g[2 * j:2 * j + 2]
                                         for j in range(n)]),
            (np.array(g).reshape(2, n), [f, f]),
            (np.array(s, dtype=object), s), (u'\u5bffx' * n, u'\u5bffx' * n),
            ([np.float64(v) for v in f], f),
            (sparse.csr_matrix(np.array([f])), [f]))
    expect(len(many) == 11, 'HARNESS')
    a, w = many[which]
    judge({u'a': a, u'b': [a, np.int8(1)]}, collections.OrderedDict(
        [(u'a', w), (u'b', [w, 1])]), 'array of %d' % n, t)


TOP = [('d', None), ('l', None), ('o', None), ('d', ('l', None)),
       ('l', ('d', None)), ('l', ('l', None, None)),
       ('d', ('d', None), None), ('l', None, None, None)]


def cases(tier):
    th = tier == 'thorough'
    ts = trees(4 if th else 3, 2)
    for j in range(64):
        yield {'trees': j, 'of': len(ts[j::64]), 'budget': 4 if th else 3}
    for j in range(8):
        yield {'context': j}
    for d in (5, 10, 50) + ((120,) if th else ()):
        yield {'deep': d}
    for n in (1001, 4097, 10001, 65537, 100001) + ((1000001,) if th else ()):
        for i in range(11):
            yield {'arrays': n, 'which': i}
    yield {'shared': 1}


def judge(rec, want, where, t):
    from kamrecsys.utils import json_decodable
    json_decodable(rec)
    try:
        text = json.dumps(rec)
    except (TypeError, ValueError) as e:
        expect(False, 'not-serializable', where, error=str(e))
    got = json.loads(text, object_pairs_hook=collections.OrderedDict)
    expect(same(got, want), 'value', where, got=got, want=want)
    json_decodable(rec)
    expect(json.dumps(rec) == text, 'not-idempotent', where)
    t.ev()
    t.sig(text)


def run(case, t):
    if 'trees' in case:
        ts = trees(case['budget'], 2)[case['trees']::64]
        expect(len(ts) == case['of'], 'HARNESS')
        for n, tr in enumerate(ts):
            k = leaves(tr)
            # every value at every position, neighbours rotate
            for a in range(len(SMALL)):
                for step in ((1, 4) if k > 1 else (0,)):
                    idx = [SMALL[(a + i * step + i * n) % len(SMALL)]
                           for i in range(k)]
                    rec, want = build(tr, iter(idx))
                    judge(rec, want, 'tree=%r values=%r' % (
                        tr, [VAL[i][0] for i in idx]), t)
                if k == 0:
                    break
    elif 'context' in case:
        tr = TOP[case['context']]
        for i in range(len(VAL)):
            idx = [(i + j * 7) % len(VAL) for j in range(leaves(tr))]
            rec, want = build(tr, iter(idx))
            judge(rec, want, 'tree=%r values=%r' % (
                tr, [VAL[i][0] for i in idx]), t)
        # arrays of the caller are only read
        from kamrecsys.utils import json_decodable
        for i in range(len(VAL)):
            v = VAL[i][1]()
            if isinstance(v, np.ndarray) and v.dtype != object:
                keep = v.copy()
                json_decodable({'a': v, 'b': [v]})
                expect(v.dtype == keep.dtype and v.shape == keep.shape and
                       v.tobytes() == keep.tobytes(), 'array-changed',
                       VAL[i][0])
    elif 'arrays' in case:
        arrays(case['arrays'], case['which'], t)
    elif 'deep' in case:
        for kinds in ('d', 'l', 'dl', 'dol'):
            rec, want = VAL[SMALL[7]][1](), VAL[SMALL[7]][2]
            for i in range(case['deep']):
                if kinds[i % len(kinds)] == 'l':
                    rec, want = [np.int8(i), rec], [i, want]
                else:
                    rec = {u'a': np.int8(i), u'b': rec}
                    want = collections.OrderedDict([(u'a', i), (u'b', want)])
            judge(rec, want, 'depth %d' % case['deep'], t)
        for n in (127, 128, 255, 256, 1000, 5000, 10001, 65537):
            if case['deep'] == 5:
                rec = [np.float32(i) / 8 for i in range(n)]
                judge(rec, [i / 8. for i in range(n)], 'long', t)
                rec = {u'%d' % i: np.arange(i % 5) for i in range(n)}
                judge(rec, collections.OrderedDict(
                    (u'%d' % i, list(range(i % 5))) for i in range(n)),
                    'wide', t)
    else:
        a = np.arange(3)
        sub = {u'x': a, u'y': [np.float64(.5)]}
        w = collections.OrderedDict([(u'x', [0, 1, 2]), (u'y', [.5])])
        judge({u'p': sub, u'q': [sub, a], u'r': a}, collections.OrderedDict(
            [(u'p', w), (u'q', [w, [0, 1, 2]]), (u'r', [0, 1, 2])]),
            'shared', t)
    t.sample(case)
