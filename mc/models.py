"""Recommenders: data layouts, adversarial optimizers, reference formulas."""
import itertools
import math

import numpy as np

from . import env, gen
from .core import expect

# event_otypes, n_otypes, event_index
LAYOUT = [((0, 1), 2, None), ((0, 1), 2, (0, 1)), ((0, 1), 2, (1, 0)),
          ((1, 0), 2, (0, 1)), ((0, 0), 1, (0, 1)), ((0, 1, 2), 3, (0, 2)),
          ((0, 1, 2), 3, (2, 1)), ((0, 1, 0), 2, (2, 1)),
          ((0, 1, 0), 2, (0, 2)), ((1, 1), 2, (0, 1)), ((2, 0), 3, (0, 1)),
          ((0, 1, 1), 2, (0, 2)), ((1, 0), 2, (1, 0)),
          ((0, 1, 2), 3, [1, 0]), ((2, 1, 0), 3, np.array([1, 2]))]

MODELS = ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF')


def cls(name):
    from kamrecsys import item_finder, score_predictor
    return getattr(score_predictor, name, None) or getattr(item_finder, name)


def index_of(lay):
    return (0, 1) if lay[2] is None else tuple(int(x) for x in lay[2])


def rows3(n_rows, n_obj, s, salt=0):
    """a fixed list of events that uses every object of every column; the
    numbers of objects differ between columns"""
    sizes = [n_obj + (0, 2, 1)[(c + salt) % 3] for c in range(s)]
    n_rows = max([n_rows] + sizes)
    return [tuple((i * (1 + 2 * c) + c * c + salt * (i + c)) % sizes[c]
                  if i >= sizes[c] else (i + c + salt) % sizes[c]
                  for c in range(s)) for i in range(n_rows)]


def scores_for(name, n, salt=0):
    if name in ('PMF', 'MultinomialPLSA'):
        if salt % 5 == 1:
            # values that are not exact in binary
            return [.1 + .7 * ((i * 3 + salt) % 5) for i in range(n)], (
                .1, 2.9, .7)
        if salt % 5 == 2:
            return [1 + (i * 3 + salt) % 5 for i in range(n)], (1, 5, 1)
        if salt % 5 == 3:
            # some scores are outside the domain or between two levels
            return [.25 + 1.5 * ((i * 3 + salt) % 5) for i in range(n)], (
                1., 5., 1.)
        return [1. + (i * 3 + salt) % 5 for i in range(n)], (1., 5., 1.)
    if name == 'LogisticPMF':
        return [float((i + salt) % 2 if n > 1 else 1)
                for i in range(n)], (0., 1., 1.)
    return None, None


def container(name, ev, otypes, n_ot, score=None, dom=None):
    """the data container a model accepts"""
    from kamrecsys import data as kd
    if name == 'ImplicitLogisticPMF' and score is None:
        d = kd.EventData(n_otypes=n_ot, event_otypes=otypes)
        d.set_event(ev)
    else:
        d = kd.EventWithScoreData(n_otypes=n_ot, event_otypes=otypes)
        d.set_event(ev, np.array(score), dom)
    return d


class Case(object):
    """one training set in terms of external ids"""

    def __init__(self, name, lay, kind, rows, salt=0, score=None):
        self.name, self.lay, self.kind = name, lay, kind
        self.otypes, self.n_ot = lay[0], lay[1]
        self.ev = gen.event_array(rows, kind, self.otypes)
        self.events = [tuple(gen.py(x) for x in e) for e in self.ev]
        if score is None:
            self.score, self.dom = scores_for(name, len(rows), salt)
        else:
            self.score, self.dom = score
        self.index = index_of(lay)
        self.types = tuple(self.otypes[c] for c in self.index)
        self.data = container(name, self.ev, self.otypes, self.n_ot,
                              self.score, self.dom)

    def objects(self, otype):
        return sorted(set(e[c] for e in self.events
                          for c in range(len(self.otypes))
                          if self.otypes[c] == otype))

    def pairs(self):
        """(user, item) of every event used for training"""
        a, b = self.index
        return [(e[a], e[b]) for e in self.events]

    def fit(self, model, hook=None):
        with env.controlled(hook) as c:
            if self.lay[2] is None:
                model.fit(self.data)
            else:
                model.fit(self.data, event_index=self.lay[2])
        return c.used

    def query(self, u, i, filler=None):
        """a whole event whose user and item are u and i"""
        q = [None] * len(self.otypes)
        q[self.index[0]], q[self.index[1]] = u, i
        for c in range(len(q)):
            if q[c] is None:
                q[c] = self.events[0][c] if filler is None else filler
        return q

    def unknown(self):
        known = set(self.objects(self.types[0])) | set(
            self.objects(self.types[1]))
        x = [gen.py(v) for v in np.array(gen.UNKNOWN[self.kind],
                                         dtype=gen.DTYPE[self.kind])]
        x = x[:1] + gen.near(self.kind, known)[:3] + x[1:]
        return [v for v in x if v not in known]


def spread(n, salt=0, scale=1.):
    """a vector of distinct, reproducible values"""
    return np.array([scale * (((i * 37 + 11 + salt * 29) % 101) - 50) / 40. +
                     i * 1e-3 for i in range(n)])


def answer(make_x):
    """an optimizer that answers an arbitrary point"""
    def hook(fun, x0, **kw):
        f, g = env.closure(fun, x0, kw)
        x = np.array(make_x(np.array(x0, dtype=float)), dtype=float)
        return env.result(x, f(x))
    return hook


def params(model, case, u, i):
    """bias and factors of a user and an item as the model stores them"""
    try:
        a = model.to_iid(case.types[0], u)
        bu, p = float(model.bu_[a]), [float(x) for x in model.p_[a]]
    except ValueError:
        bu, p = 0., None
    try:
        b = model.to_iid(case.types[1], i)
        bi, q = float(model.bi_[b]), [float(x) for x in model.q_[b]]
    except ValueError:
        bi, q = 0., None
    return bu, bi, p, q


def linear(model, case, u, i):
    mu = float(np.ravel(model.mu_)[0])
    bu, bi, p, q = params(model, case, u, i)
    s = mu + bu + bi
    if p is not None and q is not None:
        s += math.fsum(x * y for x, y in zip(p, q))
    return s


BOUND = 34.538776394910684


def sigmoid(x):
    x = min(max(x, -BOUND), BOUND)
    return 1. / (1. + math.exp(-x))


def predicted(model, case, u, i):
    s = linear(model, case, u, i)
    return s if case.name == 'PMF' else sigmoid(s)


def extreme(model, case):
    """is a logit beyond the range in which the logistic function is exact?"""
    if case.name == 'PMF':
        return False
    us, it = case.objects(case.types[0]), case.objects(case.types[1])
    if case.name == 'LogisticPMF':
        return any(abs(linear(model, case, u, i)) > 15
                   for u, i in case.pairs())
    return any(abs(linear(model, case, u, i)) > 15 for u in us for i in it)


def penalty(model, case):
    """squared norms of the parameters of the known objects"""
    nu, ni = len(case.objects(case.types[0])), len(
        case.objects(case.types[1]))
    tot = []
    for x, n in ((model.bu_, nu), (model.p_, nu), (model.bi_, ni),
                 (model.q_, ni)):
        x = np.asarray(x, dtype=float)[:n]
        tot.extend((x ** 2).ravel().tolist())
    return math.fsum(tot)


def objective(model, case, C):
    """documented objective at the parameters the model stores"""
    reg = 0.5 * C * penalty(model, case)
    if case.name == 'PMF':
        return 0.5 * math.fsum(
            (s - linear(model, case, u, i)) ** 2
            for s, (u, i) in zip(case.score, case.pairs())) + reg

    def ce(y, z):
        z = min(max(z, -BOUND), BOUND)
        # log(1 + e^z) - y z
        return (z if z > 0 else 0.) + math.log1p(math.exp(-abs(z))) - y * z
    if case.name == 'LogisticPMF':
        return math.fsum(ce(s, linear(model, case, u, i)) for s, (u, i)
                         in zip(case.score, case.pairs())) + reg
    pos = set(case.pairs())
    return math.fsum(
        ce(1. if (u, i) in pos else 0., linear(model, case, u, i))
        for u in case.objects(case.types[0])
        for i in case.objects(case.types[1])) + reg


ALL = MODELS + ('MultinomialPLSA',)


def make(name, k=1, seed=1, **kw):
    """a model; 'MultinomialPLSA:mode' predicts by the mode"""
    if name.startswith('MultinomialPLSA'):
        kw.setdefault('maxiter', 4)
        kw.pop('C', None)
        return cls('MultinomialPLSA')(
            k=k, random_state=seed,
            use_expectation=not name.endswith(':mode'), **kw)
    return cls(name)(k=k, random_state=seed, **kw)


def base(name):
    return name.split(':')[0]


def pub(model):
    """values of all published attributes"""
    from . import ref
    return ref.snapshot({a: v for a, v in vars(model).items()
                         if not a.startswith('_')})


def pub_diff(a, b):
    """names of the published attributes in which two snapshots differ"""
    x, y = dict(a[0][1]), dict(b[0][1])
    return sorted(n for n in set(x) | set(y) if x.get(n) != y.get(n))


def quick_hook(salt, scale=.3):
    """a cheap optimizer: a fixed answer that depends on the problem"""
    def hook(fun, x0, **kw):
        f, g = env.closure(fun, x0, kw)
        x = np.array(x0, dtype=float) * .5 + spread(len(x0), salt, .3)
        return env.result(x, f(x))
    return hook
