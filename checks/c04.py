"""C04: containers are isolated from each other and from callers."""
import copy
import pickle

import numpy as np

from mc import gen, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth over a pool of live '
        'containers: set_event / set_feature / binarize_score on any of '
        'them, filter_event, deepcopy or pickle producing a further one, in-place writes of the '
        'caller into every array it passed in earlier (arrays of their own, and '
        'leading, strided and reversed parts of larger ones), and in-place writes '
        'into the events, scores, features, event features, tables of ids, '
        'types and score domain of one container.  After every operation all live containers are compared '
        'with their models, and arrays passed by the caller with copies made '
        'before the call.  States: distinct tuples of abstract contents.')
BOUNDS = {'quick': '4 operations after the first, <=3 live containers, '
                   '4 layouts; fixed histories of 63-1024 events',
          'thorough': '5 operations after the first, <=4 live containers, '
                      '6 layouts'}
ASSUMPTIONS = []

LAYOUT = [('EventWithScoreData', (0, 1), 2, 'int'),
          ('EventData', (0, 0), 1, 'str'),
          ('EventWithScoreData', (1, 0, 1), 2, 'obj'),
          ('EventWithScoreData', (1, 0), 2, 'float'),
          ('EventData', (0, 1), 2, 'int'),
          ('EventWithScoreData', (0,), 1, 'neg')]
ROWS = [[(0, 1, 0), (2, 0, 1), (1, 1, 2), (0, 2, 0)],
        [(1, 0, 1), (3, 0, 2), (1, 2, 0)]]


class World(object):
    """live containers, their models, and what the caller holds"""

    def __init__(self, lay):
        from kamrecsys import data as kd
        self.lay = lay
        self.live = []
        self.args = []      # arrays passed by the caller and not yet altered
        self.count = 0
        self.cls = getattr(kd, lay[0])
        ot = np.array(lay[1])
        self.args.append(ot)
        self.live.append([self.cls(n_otypes=lay[2], event_otypes=ot),
                          ref.RefData(lay[2], lay[1])])

    def passed(self, *xs):
        xs = [x for x in xs if x is not None]
        self.args.extend(xs)
        return ref.snapshot(*xs)

    def part(self, x):
        """x, or the same contents as a part of a larger array"""
        mode = (self.count + len(self.live)) % 4
        if not isinstance(x, np.ndarray) or mode == 0:
            return x
        n = len(x)
        if mode == 1:
            y = np.concatenate([x, x])
            return y[:n]
        if mode == 2:
            y = np.repeat(x, 2, axis=0)
            return y[::2]
        y = np.concatenate([x[:1], x[::-1]])
        return y[:0:-1]

    def do(self, op):
        """-> False if the operation is not enabled"""
        self.count += 1
        name, c = op[0], op[1]
        if c >= len(self.live):
            return False
        d, r = self.live[c]
        cls, ot, n_ot, kind = self.lay
        if name == 'event':
            rows = [row[:len(ot)] for row in ROWS[op[2]]] \
                if len(op) == 3 else op[3]
            ev = gen.event_array(rows, kind, ot)
            evf = gen.event_feature(('struct', '2d')[op[2]], len(rows))
            ev, evf = self.part(ev), self.part(evf)
            if cls == 'EventData':
                s = self.passed(ev, evf)
                d.set_event(ev, event_feature=evf)
                expect(ref.snapshot(ev, evf) == s, 'argument-modified')
                r.set_event(ev, evf)
            else:
                sc = np.array([1 + (i * 2 + op[2]) % 5
                               for i in range(len(rows))], dtype=float)
                sc, dom = self.part(sc), self.part(np.array([1., 5., 1.]))
                s = self.passed(ev, sc, dom, evf)
                d.set_event(ev, sc, dom, event_feature=evf)
                expect(ref.snapshot(ev, sc, dom, evf) == s,
                       'argument-modified')
                r.set_event(ev, evf, sc, dom)
            return True
        if r.events is None:
            return False
        if name == 'feature':
            o = ot[0]
            objs = sorted(r.objects(o), key=repr)[::-1]
            vals = gen.object_feature(
                op[2], [self.count * 20 + i for i in range(len(objs))])
            eids = self.part(np.array(objs, dtype=gen.DTYPE[kind]))
            vals = self.part(vals)
            s = self.passed(eids, vals)
            d.set_feature(o, eids, vals)
            expect(ref.snapshot(eids, vals) == s, 'argument-modified')
            r.set_feature(o, eids, vals)
        elif name == 'filter':
            if len(self.live) >= op[3]:
                return False
            n = len(r.events)
            m = np.ones(n, bool) if op[2] == 'all' else np.arange(n) % 2 == 1
            if not m.any():
                return False
            s = self.passed(m)
            g = d.filter_event(m)
            expect(ref.snapshot(m) == s, 'argument-modified')
            expect(all(g is not x for x, _ in self.live), 'not-a-copy')
            self.live.append([g, r.select(np.nonzero(m)[0])])
        elif name == 'binarize':
            d.binarize_score()
            r.binarize()
        elif name == 'copy':
            if len(self.live) >= op[3]:
                return False
            g = copy.deepcopy(d) if (self.count + c + op[2]) % 2 else \
                pickle.loads(pickle.dumps(d))
            self.live.append([g, r.copy()])
        elif name == 'scribble-args':
            # the caller reuses the buffers it passed in earlier
            if not self.args:
                return False
            for x in self.args:
                scribble(x)
            self.args = []
        elif name == 'scribble-data':
            # the owner of one container alters its contents in place; the
            # model of this container becomes meaningless, so it is dropped
            arrays = [d.event, d.event_feature] + [
                d.feature[o] for o in range(n_ot)]
            arrays += [d.n_objects, d.event_otypes] + list(d.eid)
            if r.score is not None:
                arrays += [d.score, d.score_domain]
            for x in d.iid:
                x.clear()
            for x in arrays:
                if x is not None:
                    scribble(x)
            del self.live[c]
            if not self.live:
                return False
        return True

    def check(self, where):
        for i, (d, r) in enumerate(self.live):
            ref.compare(d, r, where='container %d after %r' % (i, where))

    def key(self):
        return repr([r.key() for _, r in self.live])


def scribble(x):
    if not isinstance(x, np.ndarray) or not x.flags.writeable:
        return
    if x.dtype.names:
        for n in x.dtype.names:
            scribble(x[n])
    elif x.dtype.kind in 'US':
        x[...] = '!'
    elif x.dtype.kind == 'O':
        x[...] = 'gone'
    elif x.dtype.kind == 'b':
        x[...] = ~x
    else:
        x[...] = 99


def ops(lay, cap):
    out = []
    score = lay[0] == 'EventWithScoreData'
    for c in range(2):
        out.append(('event', c, 1))
        out.append(('feature', c, 'struct'))
        out.append(('filter', c, 'all', cap))
        out.append(('filter', c, 'odd', cap))
        if score:
            out.append(('binarize', c))
        out.append(('scribble-data', c))
    out.append(('copy', 0, 0, cap))
    out.append(('scribble-args', 0))
    return out


def cases(tier):
    th = tier == 'thorough'
    for n in gen.SIZES + gen.LARGE[:7 if th else 4]:
        for li in range(len(LAYOUT)):
            if th or (n + li) % 3 == 0:
                yield {'large': n, 'layout': li, 'shape': (n + li) % 4}
    for li in range(6 if th else 4):
        n = len(ops(LAYOUT[li], 3))
        for a in range(n):
            for b in range(n):
                yield {'layout': li, 'prefix': [a, b], 'cap': 4 if th else 3,
                       'depth': 5 if th else 4 if li in (0, 1) else 3}


def large(case, t):
    """longer containers, a fixed set of histories"""
    n, lay = case['large'], LAYOUT[case['layout']]
    rows = [gen.large_rows(k, lay[1], case['shape'])
            for k in (n, n // 2 + 1)]
    fill = [('event', 0, 0, rows[0]), ('feature', 0, 'struct')]
    bz = [('binarize', 0)] if lay[0] == 'EventWithScoreData' else []
    args = [('scribble-args', 0)]
    al, odd = [('filter', 0, 'all', 4)], [('filter', 0, 'odd', 4)]
    for hist in (fill + args + al + odd + [('scribble-data', 1)] + args,
                 fill + al + args + [('scribble-data', 0)] + odd +
                 [('event', 0, 1, rows[1])] + args,
                 fill + odd + bz + [('feature', 1, '2d')] + al + args +
                 [('event', 0, 1, rows[1])] + [('scribble-data', 0)],
                 fill + al + bz + [('feature', 0, '2d')] + odd + args +
                 [('event', 1, 1, rows[1])] + [('scribble-data', 0)] + args,
                 fill + [('copy', 0, 0, 4), ('copy', 1, 0, 4)] + bz + odd +
                 args + [('scribble-data', 1)],
                 fill + odd + [('copy', 0, 1, 4)] +
                 [('event', 2, 1, rows[1])] + [('scribble-data', 0)] + args):
        w = World(lay)
        for k, op in enumerate(hist):
            if not w.do(op):
                break
            w.check('large %r %r' % (case, [h[:2] for h in hist[:k + 1]]))
            t.step()
            t.ev()
            t.state(w.key())
        t.trace()


def run(case, t):
    if 'large' in case:
        return large(case, t)
    lay = LAYOUT[case['layout']]
    alphabet = ops(lay, case['cap'])

    def replay(hist, judge):
        w = World(lay)
        w.do(('event', 0, 0))
        for k, op in enumerate(hist):
            if not w.do(op):
                return False
            if k >= judge:
                w.check(hist[:k + 1])
                t.step()
                t.ev()
                t.state(w.key())
        return True

    def go(hist):
        if not replay(hist, len(hist) - 1):
            return
        if len(hist) >= case['depth']:
            t.trace()
            return
        for op in alphabet:
            go(hist + [op])

    a, b = case['prefix']
    if b == 0:
        t.sample({'layout': repr(lay), 'first': repr(alphabet[a])})
    if replay([alphabet[a]], 0):
        go([alphabet[a], alphabet[b]])
