"""Alphabets and builders.  All enumerations are complete and deterministic."""
import itertools

import numpy as np

# --- external ids ------------------------------------------------------------
# each kind maps 0,1,2,... to external ids that are neither consecutive nor in
# the order of appearance; UNKNOWN are ids that never occur in the data

_INT = [7, 3, 11, 5, 2, 13, 4, 21, 9, 17]
_ZERO = [0, 2, 1, 4, 3, 6, 5, 8, 7, 9]
_NEG = [-3, 5, 0, -10, 8, -1, 2, -7, 4, 12]
_BIG = [2**40 + 3, 2**33, 5, 2**50, 2**31 + 1, 77, 2**32, 1, 2**45, 9]
_STR = ['b', 'aa', 'Z', '10', '9', u'\u5bff\u53f8', 'a b', 'ab', 'B', 'zz9']
_U64 = [2**60 + 3, 2**53 + 1, 5, 2**63 + 1, 2**53, 77, 2**64 - 1, 1, 2**63,
        9]
_BYT = [b'b', b'aa', b'Z', b'10', b'9', b'\xff\xfe', b'a b', b'ab', b'B',
        b'zz9']
_FLT = [1.5, -0.25, 3.0, 2.75, 0.5, 10.0, 4.25, 7.5, -2.0, 6.0]

KINDS = ('int', 'zero', 'neg', 'big', 'str', 'obj', 'float', 'int8', 'uint8',
         'int32', 'uint64', 'bytes', 'int16')

_TAB = {'int': _INT, 'zero': _ZERO, 'neg': _NEG, 'big': _BIG, 'str': _STR,
        'obj': _STR, 'float': _FLT, 'int8': _NEG, 'uint8': _ZERO,
        'int32': _NEG, 'uint64': _U64, 'bytes': _BYT, 'int16': _NEG}

DTYPE = {'int': np.int64, 'zero': np.int64, 'neg': np.int64,
         'big': np.int64, 'str': 'U8', 'obj': object, 'float': np.float64,
         'int8': np.int8, 'uint8': np.uint8, 'int32': np.int32,
         'uint64': np.uint64, 'bytes': 'S8', 'int16': np.int16}

UNKNOWN = {'int': [6, -1, 1000], 'zero': [10, -1, 99], 'neg': [1, -2, 100],
           'big': [3, 2**40, -1], 'str': ['zzzzzzzz', '', 'a'],
           'obj': ['zzzzzzzzzzz', '', 'a'], 'float': [1.0, 99.5, -7.0],
           'int8': [1, -2, 100], 'uint8': [10, 11, 200],
           'int32': [1, -2, 100], 'uint64': [3, 2**40, 2**63 + 5],
           'bytes': [b'zzzzzzzz', b'', b'a'], 'int16': [1, -2, 100]}


# types of queries that can hold ids the training data cannot hold
QDTYPE = dict(DTYPE, str='U40', int8=np.int64, uint8=np.int64,
              int32=np.int64, int16=np.int64, bytes='S40')


def near(kind, known):
    """unknown ids that are confused with a known one by truncation, by
    overflow, by rounding or by a comparison of prefixes"""
    known = sorted(known, key=repr)
    out = []
    for e in known[:1] + known[-1:]:
        if kind in ('str', 'obj'):
            out += [max(known, key=len) + 'q', e + ' ', e[:-1],
                    e.ljust(8, '_') + 'q', e.swapcase(), e + '\u0301']
        elif kind == 'bytes':
            out += [max(known, key=len) + b'q', e + b' ', e[:-1],
                    e.ljust(8, b'_') + b'q', e.swapcase()]
        elif kind == 'uint64':
            out += [e ^ 1, abs(e - 1), e ^ 2 ** 32, e ^ 2 ** 16, e ^ 2 ** 63]
        elif kind == 'float':
            out += [e + 2. ** -40, -e, float(int(e))]
        elif kind in ('int8', 'uint8'):
            out += [e + 256, e - 256, e + 2 ** 32]
        else:
            out += [e + 2 ** 32, e - 2 ** 32, e + 2 ** 16, -e]
    return [x for i, x in enumerate(out)
            if x not in known and x not in out[:i]]


def eid(kind, i, otype=0):
    """external id of the i-th object; different types get shifted tables, so
    that the same external id denotes different objects in different types"""
    tab = _TAB[kind]
    if i < len(tab):
        return tab[(i * 3 + otype) % len(tab)]
    # ladder sizes: beyond the table
    if kind in ('str', 'obj'):
        return 'x%05d' % ((i * 7919) % 100003)
    if kind == 'bytes':
        return b'x%05d' % ((i * 7919) % 100003)
    if kind == 'float':
        return ((i * 7919) % 100003) + 100.5
    if kind == 'int8':
        return -100 + (i * 1) if i < 100 else 27 - i
    if kind == 'uint8':
        return 255 - i
    return ((i * 7919) % 100003) + 1000 * (otype + 1)


def event_array(rows, kind, otypes):
    """rows: object indices; otypes: type of each column"""
    dt = DTYPE[kind]
    ev = np.empty((len(rows), len(otypes)), dtype=dt)
    for i, r in enumerate(rows):
        for c, j in enumerate(r):
            ev[i, c] = eid(kind, j, otypes[c])
    return ev


SIZES = (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513)
LARGE = (1000, 1001, 1023, 1024, 1025, 2049, 4097)
HUGE = (10001, 32769, 65537, 100001)


def large_rows(n, otypes, shape=0):
    """n events; shape 0: about n objects per column, 1: few objects per
    column, 2: few in the first column, 3: few in the last column"""
    m = [max(2, n - 7), 13, 1 << 30, 1 << 30][shape]
    few = {2: 0, 3: len(otypes) - 1}.get(shape)
    out = []
    for i in range(n):
        r = []
        for c in range(len(otypes)):
            k = 11 + c if c == few else min(m, max(2, n - c))
            r.append((i * (1, 7, 11)[c % 3] + 3 * c + i // k) % k)
        out.append(r)
    return out


def py(x):
    """numpy scalar -> python value"""
    return x.item() if isinstance(x, np.generic) else x


def all_otypes(n_otypes, max_s, surjective=False):
    """all event_otypes up to length max_s"""
    for s in range(1, max_s + 1):
        for o in itertools.product(range(n_otypes), repeat=s):
            if surjective and len(set(o)) < n_otypes:
                continue
            yield o


# --- payloads ----------------------------------------------------------------

def event_feature(kind, n):
    """event features whose i-th element identifies the i-th event"""
    if kind is None:
        return None
    if kind == '1d':
        return np.arange(n) * 10 + 3
    if kind == '2d':
        return np.arange(2 * n, dtype=float).reshape(n, 2) + 0.5
    if kind == 'struct':
        x = np.empty(n, dtype=[('timestamp', int), ('tag', 'U4')])
        for i in range(n):
            x[i] = (1000 - 7 * i, 't%d' % i)
        return x
    if kind == 'str':
        return np.array(['e%d' % i for i in range(n)])
    raise KeyError(kind)


FEATURE_KINDS = ('1d', '2d', 'struct', 'str')


def object_feature(kind, keys):
    """features whose row identifies the object given by keys (indices)"""
    n = len(keys)
    if kind == '1d':
        return np.array([100 + 3 * k for k in keys])
    if kind == '2d':
        return np.array([[k + .5, -k, k * k] for k in keys],
                        dtype=float).reshape(n, 3)
    if kind == 'struct':
        x = np.empty(n, dtype=[('age', int), ('zip', 'U5'), ('g', 'i1', 2)])
        for i, k in enumerate(keys):
            x[i] = (k + 18, 'z%d' % k, (k % 2, k % 3))
        return x
    if kind == 'str':
        return np.array(['f%d' % k for k in keys])
    raise KeyError(kind)


def rowval(x):
    """comparable python value of a row of a feature / event feature"""
    if isinstance(x, np.void):
        return tuple(rowval(x[n]) for n in x.dtype.names)
    if isinstance(x, np.ndarray):
        return tuple(rowval(v) for v in x)
    return py(x)


def rows_over(n_obj, n_rows):
    """all matrices of object indices: n_obj per column"""
    alphabet = list(itertools.product(*[range(n) for n in n_obj]))
    return itertools.product(alphabet, repeat=n_rows)


def surjections_rows(n_obj, n_rows):
    """as rows_over, up to renaming of first appearance (canonical)"""
    for rows in rows_over(n_obj, n_rows):
        ok = True
        for c in range(len(n_obj)):
            m = -1
            for r in rows:
                if r[c] > m + 1:
                    ok = False
                    break
                m = max(m, r[c])
            if not ok:
                break
        if ok:
            yield rows
