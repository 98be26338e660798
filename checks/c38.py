"""C38: hyper-parameters act as given."""
import copy
import itertools

import numpy as np
from sklearn.base import clone

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('every sequence, up to the depth, of setting hyper-parameters (by '
        'set_params or by assignment), rejected settings, cloning, copying, '
        'fits to two data sets and predictions on each model; after every '
        'operation the reported hyper-parameters are the last ones given, '
        'and after every fit the model equals a new one constructed with '
        'these and fitted to the same data.  States: model x '
        'hyper-parameters x last fit.')
BOUNDS = {'quick': 'depth 4 ending in a fit, 4 models',
          'thorough': 'depth 5 ending in a fit, 4 models'}
ASSUMPTIONS = ['arguments for optimizers are not hyper-parameters in the '
               'sense of get_params: they are those of the defaults here']

START = {'PMF': {'C': .5, 'k': 1, 'random_state': 3},
         'LogisticPMF': {'C': .5, 'k': 1, 'random_state': 3},
         'ImplicitLogisticPMF': {'C': .5, 'k': 1, 'random_state': 3},
         'MultinomialPLSA': {'alpha': .5, 'k': 1, 'random_state': 3,
                             'use_expectation': True}}
CHANGE = {'C': (.125, 0.), 'alpha': (.125, 2.), 'k': (2, 17),
          'random_state': (4, 0), 'use_expectation': (False,)}


def ops(name):
    out = [('fit', 'A'), ('fit', 'B'), ('predict',), ('clone',),
           ('deepcopy',), ('illegal',)]
    for i, p in enumerate(sorted(START[name])):
        for j, v in enumerate(CHANGE[p]):
            out.append((('set', 'assign')[(i + j) % 2], p, v))
    return out


def cases(tier):
    for name in M.ALL:
        for a in range(len(ops(name))):
            yield {'model': name, 'first': a,
                   'depth': 5 if tier == 'thorough' else 4}
    for name in M.ALL:
        yield {'model': name, 'grid': True}


DATA = {}


def data(name):
    if name not in DATA:
        DATA[name] = {
            'A': M.Case(name, M.LAYOUT[0], 'int', M.rows3(7, 3, 2), 0),
            'B': M.Case(name, M.LAYOUT[2], 'str', M.rows3(9, 4, 2, 1), 3)}
    return DATA[name]


FRESH = {}


def step_hook(fun, x0, **kw):
    """a cheap optimizer whose answer depends on loss and gradient"""
    f, g = env.closure(fun, x0, kw)
    x = np.array(x0, dtype=float)
    x = x * .5 + M.spread(len(x), 1, .3)
    if g is not None:
        x = x - .01 * g(x)
    return env.result(x, f(x))


def fit(name, m, which):
    data(name)[which].fit(m, step_hook)


def outcome(name, m, which):
    c = data(name)[which]
    us, it = c.objects(c.types[0]), c.objects(c.types[1])
    un = c.unknown()[:1]
    q = np.array([c.query(u, i) for u in us + un for i in it + un],
                 dtype=gen.QDTYPE[c.kind])
    p = np.array(m.predict(q))
    return M.pub(m), (p.dtype.str, p.shape, p.tobytes())


def fresh(name, pars, which=None):
    key = (name, tuple(sorted(pars.items())), which)
    if key not in FRESH:
        m = M.cls(name)(**pars)
        if which is None:
            FRESH[key] = M.pub(m), None
        else:
            fit(name, m, which)
            FRESH[key] = outcome(name, m, which)
    return FRESH[key]


def reported(m, pars, where):
    got = m.get_params()
    for p in pars:
        expect(p in got and got[p] == pars[p] and getattr(m, p) == pars[p],
               'reported-parameter', where, parameter=p, given=pars[p],
               got=[got.get(p), getattr(m, p)])


def same(name, m, pars, which, where):
    p, q = outcome(name, m, which)
    rp, rq = fresh(name, pars, which)
    expect(p == rp, 'differs-from-new-model', where, parameters=pars,
           attributes=M.pub_diff(p, rp) if p != rp else [])
    expect(q == rq, 'prediction-differs-from-new-model', where,
           parameters=pars)


def run(case, t):
    name = case['model']
    if 'grid' in case:
        return grid(name, t)
    o = ops(name)
    for rest in itertools.product(o, repeat=case['depth'] - 2):
        hist = (o[case['first']],) + rest
        if hist[-1][0] == 'predict':
            continue
        for end in 'AB':
            history(name, hist + (('fit', end),), t)
        t.trace()
    t.sample({'case': case, 'last history': repr(hist)})


def history(name, hist, t):
    where = '%s %s' % (name, hist)
    pars = dict(START[name])
    m = M.cls(name)(**pars)
    last = None
    left = []
    for op in hist:
        if op[0] == 'fit':
            fit(name, m, op[1])
            last = (op[1], dict(pars))
            same(name, m, pars, op[1], where)
        elif op[0] == 'predict':
            if last is None or last[1] != pars:
                return
            same(name, m, pars, last[0], where)
        elif op[0] in ('set', 'assign'):
            if op[0] == 'set':
                expect(m.set_params(**{op[1]: op[2]}) is m, 'set-params',
                       where)
            else:
                setattr(m, op[1], op[2])
            pars[op[1]] = op[2]
        elif op[0] == 'illegal':
            ref.raises(ValueError, lambda: m.set_params(no_such_name=1),
                       'unknown-parameter', where)
        else:
            left.append((m, dict(pars), last))
            if op[0] == 'clone':
                m, last = clone(m), None
                p, rp = M.pub(m), fresh(name, pars)[0]
                expect(p == rp, 'clone-not-new', where,
                       attributes=M.pub_diff(p, rp) if p != rp else [])
            else:
                m = copy.deepcopy(m)
        reported(m, pars, where)
        t.state((name, sorted(pars.items()), last))
        t.step()
    # models that were cloned or copied are not affected by what followed
    for m, pars, last in left:
        reported(m, pars, where)
        if last is not None and last[1] == pars:
            same(name, m, pars, last[0], where)
    t.ev()


def grid(name, t):
    """construction by keywords, by position, and by default"""
    first = sorted(set(START[name]) - {'k', 'random_state'})
    for reg in (0., .01, .5, 1., 2., 1e3):
        for k in (1, 2, 5, 65, 129, 1000):
            for seed in (None, 0, 1, 2 ** 32 - 1):
                for e in (True, False):
                    pars = {'k': k, 'random_state': seed}
                    pars['alpha' if 'alpha' in first else 'C'] = reg
                    if 'use_expectation' in first:
                        pars['use_expectation'] = e
                    elif not e:
                        continue
                    m = M.cls(name)(**pars)
                    reported(m, pars, name)
                    reported(clone(m), pars, name)
                    t.sig((name, sorted(pars.items(), key=repr)))
                    t.ev()
    one = dict(START[name], k=1, random_state=None)
    one['alpha' if 'alpha' in first else 'C'] = 1.
    reported(M.cls(name)(), one, 'defaults of ' + name)
    # arguments by position in the documented order
    if name == 'MultinomialPLSA':
        reported(M.cls(name)(2, .5, False, 7), {
            'k': 2, 'alpha': .5, 'use_expectation': False,
            'random_state': 7}, name)
    else:
        reported(M.cls(name)(.5, 2, 7), {
            'C': .5, 'k': 2, 'random_state': 7}, name)
    for k in (20, 33, 65, 129, 300):
        m = M.cls(name)(k=k, random_state=3)
        fit(name, m, 'A')
        reported(m, {'k': k}, name)
        c = data(name)['A']
        nu, ni = len(c.objects(c.types[0])), len(c.objects(c.types[1]))
        expect(int(m.fit_results_['n_parameters']) == (
            k * (1 + nu + ni + c.data.n_score_levels)
            if name == 'MultinomialPLSA' else 1 + (nu + ni) * (1 + k)),
            'n_parameters', name, k=k, got=m.fit_results_['n_parameters'])
        t.ev()
    # values at the ends of the ranges are used as they are
    for reg in (0., 5e-324, 1e-310, 1e-300, 1e-16, 1e-9, 1e9):
        for k in (1, 2):
            for how in ('new', 'assign'):
                pars = {('alpha' if 'alpha' in first else 'C'): reg,
                        'k': k, 'random_state': 0}
                m = M.cls(name)(**pars)
                if how == 'assign':
                    m = M.cls(name)()
                    for p in pars:
                        setattr(m, p, pars[p])
                for which in 'AB':
                    with np.errstate(all='ignore'):
                        fit(name, m, which)
                    reported(m, pars, name + ' after fit')
                    t.ev()
                with np.errstate(all='ignore'):
                    outcome(name, m, which)
                reported(m, pars, name + ' after predict')
                t.sig((name, reg, k, how))
    for which in 'AB':
        m = M.cls(name)()
        m.set_params(random_state=3)
        fit(name, m, which)
        same(name, m, dict(one, random_state=3), which, name)
    t.sample({'model': name, 'defaults': repr(one)})
