"""C13: fit results describe the fit that produced the parameters."""
import copy
import itertools

import numpy as np

from mc import env, gen, models as M, plsa, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('every model x layout x option set x outcome of the optimizer '
        '(success, each failure status, early and late answers, answers at '
        'the start): the options that reach the optimizer, the recorded '
        'results, the stored parameters and what is kept of the training '
        'data are compared with what the controlled optimizer was given and '
        'answered; and real fits with every optimizer method and limit.  '
        'Non-trivial: a distinct record of results.')
BOUNDS = {'quick': '6 layouts, 12 option sets, 6 outcomes; 6 methods x 5 '
                   'limits; 63-1025 events', 'thorough': '15 layouts, 12 option sets, 6 '
                   'outcomes; 6 methods x 9 limits, 4 training sets'}
ASSUMPTIONS = ['real optimizers of scipy do not return a point that is worse '
               'than the start']

OUTCOMES = [dict(status=0, nit=3, nfev=11, njev=5, message='fine'),
            dict(status=1, nit=100, nfev=2000, njev=1999, message='limit'),
            dict(status=2, nit=1, nfev=1, njev=2, message='precision'),
            dict(status=3, nit=7, nfev=9, njev=8, message='NaN'),
            dict(status=0, nit=0, nfev=1, njev=1, message='at start'),
            dict(status=5, nit=2, nfev=4, njev=3, message='odd')]
OPTIONS = [{}, {'maxiter': 7}, {'method': 'BFGS'}, {'tol': 1e-3},
           {'options': {'gtol': 1e-2}},
           {'method': 'L-BFGS-B', 'options': {'maxiter': 3, 'disp': False},
            'tol': 1e-7},
           {'options': {'maxiter': 9}, 'maxiter': 4},
           {'options': {}}, {'method': 'Powell', 'maxiter': 2},
           {'maxiter': 0}, {'options': {'maxiter': 0}},
           {'method': 'BFGS', 'maxiter': 0, 'tol': 0.},
           {'maxiter': 1}, {'maxiter': 1000}, {'maxiter': 32768},
           {'maxiter': 65537, 'tol': 1e-300}, {'maxiter': 10 ** 6},
           {'maxiter': 2 ** 31 + 1, 'tol': 1e3},
           {'options': {'maxiter': 10 ** 7, 'gtol': 0., 'norm': 2}}]
METHODS = ['CG', 'BFGS', 'L-BFGS-B', 'TNC', 'Powell', 'Nelder-Mead']


def cases(tier):
    th = tier == 'thorough'
    lays = range(len(M.LAYOUT)) if th else (0, 2, 4, 6, 8, 14)
    for name in M.MODELS:
        for li in lays:
            for oi in range(len(OPTIONS)):
                yield {'model': name, 'layout': li, 'options': oi}
        for li in lays if th else (0, 6):
            for meth in METHODS:
                yield {'model': name, 'layout': li, 'method': meth,
                       'limits': [0, 1, 2, 3, 5, 8, 13, 40, 200] if th else
                       [0, 1, 2, 6, 100]}
    for name in M.MODELS + ('MultinomialPLSA',):
        for n in gen.SIZES + gen.LARGE[:7 if th else 5]:
            for sh in range(4):
                if sh != 1 and n > (600 if name[0] == 'P' else 130):
                    continue
                if th or (n + sh) % 2:
                    yield {'model': name, 'layout': (0, 3, 4)[n % 3],
                           'large': n, 'shape': sh}
    for name in M.ALL:
        for li in lays:
            yield {'model': name, 'layout': li, 'two': True}
    for li in lays:
        for mi in (0, 1, 2, 5, 30):
            for alpha in (1., 30., 100.) if mi < 6 else (1., 1e-3):
                yield {'model': 'MultinomialPLSA', 'layout': li,
                       'maxiter': mi, 'alpha': alpha}
        for tol in (.3, 3e-2, 1e-2, 1e-3, 1e-4) + ((1e-6, 1e-7) if th
                                                   else ()):
            yield {'model': 'MultinomialPLSA', 'layout': li, 'tol': tol}


def counts(m, c, k, where, plsa=None):
    r = m.fit_results_
    nu, ni = len(c.objects(c.types[0])), len(c.objects(c.types[1]))
    want = 1 + (nu + ni) * (1 + k) if plsa is None else \
        k * (1 + nu + ni + plsa)
    for key, w in (('n_users', nu), ('n_items', ni),
                   ('n_events', len(c.events)), ('n_parameters', want)):
        expect(int(r[key]) == w, key, where, got=r[key], want=w)
    for a in ('event', 'event_feature', 'score'):
        v = getattr(m, a, None)
        expect(v is None, 'training-data-kept', where, attribute=a)


def apart(m, where):
    """options given for the next fit leave the record of the last one"""
    o = getattr(m, 'optimizer_kwargs', None)
    if not isinstance(o, dict):
        return
    r = m.fit_results_['optimizer_kwargs']
    keep, saved = ref.snapshot(r), copy.deepcopy(o)
    for d in [o] + [x for x in o.values() if isinstance(x, dict)]:
        d['maxiter'] = 12345
        d['extra'] = 7
    expect(ref.snapshot(r) == keep and
           m.fit_results_['optimizer_kwargs'] is r, 'record-changed-later',
           where, got=r)
    o.clear()
    o.update(saved)


def two(case, lay, s, name, kind, t):
    """objects of a model do not share what they publish: whatever is done
    with one, the others keep the record of their own fit"""
    cs = [M.Case(name, lay, kind, M.rows3(6 + 2 * j, 3 + j, s, j), j)
          for j in range(3)]
    for hist in itertools.product(range(3), repeat=3):
        ms = []
        kept = {}
        for n, j in enumerate(hist):
            # a new object, and for each earlier one a fit to other data
            ms.append(M.make(name, k=1 + j, seed=n, maxiter=2 + n))
            for a, m in enumerate(ms):
                x = (j + a) % 3
                cs[x].fit(m, None if name == 'MultinomialPLSA' else
                          M.quick_hook(a + n))
                kept[a] = M.pub(m), x
                for b, o in enumerate(ms):
                    if b in kept:
                        p = M.pub(o)
                        expect(p == kept[b][0], 'record-of-another-fit',
                               name, history=hist, step=n, fitted=a,
                               changed=b, attributes=M.pub_diff(
                                   p, kept[b][0]) if p != kept[b][0]
                               else [])
                        y = cs[kept[b][1]]
                        expect(int(o.fit_results_['n_events']) ==
                               len(y.events), 'n_events', name)
                t.ev()
        for a, m in enumerate(ms):
            for o in ms[:a]:
                expect(m.fit_results_ is not o.fit_results_,
                       'shared-results', name)
        t.sig((name, case['layout'], hist))
    t.sample({'case': case})


def early(case, lay, s, name, kind, t):
    """a fit that stops early records the step at which it has stopped: it
    is the fit without tolerance that is limited to as many steps"""
    for k in (1, 2, 3):
        for alpha in (.1, 1.):
            for lim in (2, 7, 200):
                c = M.Case(name, lay, kind, M.rows3(9, 3 + k, s, k), k)
                a = M.make(name, k=k, alpha=alpha, maxiter=lim,
                           tol=case['tol'])
                c.fit(a)
                r = a.fit_results_
                n = int(r['n_iterations'])
                b = M.make(name, k=k, alpha=alpha, maxiter=n, tol=0.)
                c.fit(b)
                q = b.fit_results_
                where = '%r k=%d alpha=%g limit=%d' % (case, k, alpha, lim)
                for key in ('initial_loss', 'final_loss', 'n_iterations'):
                    expect(r[key] == q[key], key, where, got=r[key],
                           want=q[key])
                p, w = M.pub(a), M.pub(b)
                d = set(M.pub_diff(p, w) if p != w else [])
                d -= {repr('fit_results_'), repr('optimizer_kwargs')}
                expect(not d, 'parameters', where, attributes=d)
                expect(n <= lim and (n == lim or r['success']), 'limit',
                       where, got=n)
                t.ev()
                t.sig((repr(case), k, alpha, lim, float(r['final_loss'])))
    t.sample({'case': case, 'last': where, 'stopped after': n})


def run(case, t):
    lay = M.LAYOUT[case['layout']]
    s = len(lay[0])
    name = case['model']
    kind = ('int', 'str', 'neg')[case['layout'] % 3]
    if 'large' in case:
        rows = gen.large_rows(case['large'], lay[0], case['shape'])
        c = M.Case(name, lay, kind, rows, 1)
        ks = (1, 3) if case['large'] > 140 else (1, 3, 65, 129)
        for k in ks:
            where = '%r k=%d' % (case, k)
            if name == 'MultinomialPLSA':
                m = M.make(name, k=k, maxiter=2)
                c.fit(m)
                counts(m, c, k, where, plsa=5)
            else:
                m = M.make(name, k=k, C=.5, maxiter=1)
                if not c.fit(m, M.quick_hook(k)):
                    c.fit(m)
                counts(m, c, k, where)
                f = M.objective(m, c, .5)
                expect(ref.feq(float(m.fit_results_['final_loss']), f, 1e-7)
                       or M.extreme(m, c), 'final_loss', where,
                       got=m.fit_results_['final_loss'], want=f)
            t.ev()
            t.sig((name, case['large'], case['shape'], k))
        t.sample({'case': case})
        return
    if 'two' in case:
        return two(case, lay, s, name, kind, t)
    if 'tol' in case:
        return early(case, lay, s, name, kind, t)
    if 'maxiter' in case:
        for k in (1, 2, 3):
            c = M.Case(name, lay, kind, M.rows3(7, 3 + k, s, k), k)
            opts = {'maxiter': case['maxiter'], 'tol': 0.}
            m = M.make(name, k=k, alpha=case['alpha'], **opts)
            before = copy.deepcopy(opts)
            c.fit(m)
            where = 'MultinomialPLSA %r k=%d' % (case, k)
            counts(m, c, k, where, plsa=5)
            r = m.fit_results_
            expect(opts == before, 'options-changed', where)
            expect(r['optimizer_kwargs'] == opts, 'optimizer_kwargs', where,
                   got=r['optimizer_kwargs'])
            # also where smoothing makes the fit worse than the start
            p = plsa.Ref(c, case['alpha'], k, [
                float(x) for x in c.data.get_score_levels()])
            f = p.loss(p.read(m))
            expect(ref.feq(float(r['final_loss']), f, 1e-9), 'final_loss',
                   where, got=r['final_loss'], want=f)
            if case['maxiter'] == 0:
                expect(r['final_loss'] == r['initial_loss'],
                       'loss-without-steps', where)
            apart(m, where)
            expect(bool(r['success']) == (r['status'] == 0), 'success',
                   where)
            t.ev()
            t.sig((name, repr(case), float(r['final_loss'])))
        return
    if 'method' in case:
        for k in (1, 2, 3):
            for lim in case['limits']:
                for salt in range(2):
                    c = M.Case(name, lay, kind, M.rows3(8, 4, s, salt), salt)
                    m = M.make(name, k=k, C=.5, method=case['method'],
                               maxiter=lim, seed=salt)
                    real = []

                    def watch(fun, x0, **kw):
                        real.append(env.Optimizer.real(fun, x0, **kw))
                        return copy.deepcopy(real[-1])
                    seen = c.fit(m, watch)
                    where = '%s %r k=%d limit=%d' % (name, lay, k, lim)
                    if seen and len(real) == 1:
                        # what the method itself said of its run
                        for key, w in (
                                ('n_iterations', real[0].get('nit', 0)),
                                ('func_calls', real[0].nfev),
                                ('grad_calls', real[0].get('njev', 0)),
                                ('status', real[0].status),
                                ('message', real[0].message)):
                            expect(m.fit_results_[key] == w, key,
                                   where + case['method'],
                                   got=m.fit_results_[key], want=w)
                    counts(m, c, k, where)
                    r = m.fit_results_
                    f = M.objective(m, c, .5)
                    expect(ref.feq(float(r['final_loss']), f, 1e-7),
                           'final_loss', where, got=r['final_loss'], want=f)
                    expect(r['final_loss'] <= r['initial_loss'] *
                           (1 + 1e-12), 'loss-increased', where,
                           initial=r['initial_loss'], final=r['final_loss'])
                    expect(r['optimizer_method'] == case['method'],
                           'optimizer_method', where)
                    if case['method'] != 'TNC':
                        # some methods of scipy always do one step
                        expect(r['n_iterations'] <= max(lim, 1), 'limit', where,
                               got=r['n_iterations'])
                    t.ev()
                    t.sig((name, case['method'], lim, float(f)))
        return
    given = OPTIONS[case['options']]
    for oi, out in enumerate(OUTCOMES):
        k = 1 + oi % 4
        c = M.Case(name, lay, kind, M.rows3(6, 3, s, oi), oi)
        opts = copy.deepcopy(given)
        m = M.make(name, k=k, C=.5, **opts)
        seen = {}
        where = '%s %r options=%r outcome=%r' % (name, lay, given, out)
        for rep in range(3):
            # the same object is fitted to other data
            c = M.Case(name, lay, kind, M.rows3(6 + rep, 3 + rep, s, oi),
                       oi + rep)

            def hook(fun, x0, **kw):
                seen.clear()
                seen.update(kw)
                seen['options'] = dict(kw.get('options') or {})
                f, g = env.closure(fun, x0, kw)
                seen['f0'] = f(np.array(x0))
                x = np.array(x0) if out['nit'] == 0 else M.spread(
                    len(x0), oi + 5 * rep, .7)
                seen['f'] = f(x)
                return env.result(x, seen['f'], **out)
            if not c.fit(m, hook):
                break
            r = m.fit_results_
            counts(m, c, k, where)
            expect(opts == given, 'options-changed', where, got=opts)
            for key, w in (('success', out['status'] == 0),
                           ('status', out['status']),
                           ('message', out['message']),
                           ('n_iterations', out['nit']),
                           ('func_calls', out['nfev']),
                           ('grad_calls', out['njev'])):
                expect(r[key] == w, key, where, got=r[key], want=w)
            expect(ref.feq(float(r['final_loss']), seen['f']),
                   'final_loss', where, got=r['final_loss'], want=seen['f'])
            f = M.objective(m, c, .5)
            expect(ref.feq(seen['f'], f, 1e-7), 'stored-parameters', where,
                   got=f, want=seen['f'])
            expect(ref.feq(float(r['initial_loss']), seen['f0']),
                   'initial_loss', where, got=r['initial_loss'],
                   want=seen['f0'])
            meth = given.get('method', 'CG')
            expect(r['optimizer_method'] == meth == seen['method'],
                   'optimizer_method', where, got=(
                       r['optimizer_method'], seen['method']))
            wopt = dict(given.get('options', {}))
            wopt.setdefault('disp', False)
            if 'maxiter' in given:
                wopt['maxiter'] = given['maxiter']
            expect(seen['options'] == wopt, 'options-passed', where,
                   got=seen['options'], want=wopt)
            expect(seen.get('tol') == given.get('tol'), 'tol-passed', where,
                   got=seen.get('tol'))
            rec = r['optimizer_kwargs']
            expect(dict(rec.get('options', {})) == wopt and
                   rec.get('tol') == given.get('tol'), 'optimizer_kwargs',
                   where, got=rec)
            apart(m, where)
            t.ev()
            t.sig((name, oi, case['options'], seen['f']))
    t.sample({'case': case, 'results': {
        a: repr(b) for a, b in m.fit_results_.items()}})
