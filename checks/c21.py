"""C21: topic model training stops for the reason it reports."""
import numpy as np

from mc import env, gen, models as M, ref
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('the losses along each trajectory are observed by training with '
        'every limit and tolerance 0; then training is run with every '
        'combination of a limit and a tolerance between consecutive relative '
        'changes (and beyond), and the number of iterations, status, success '
        'flag, message and final loss are compared with those the trajectory '
        'determines.  States: (trajectory, step); transitions: runs.')
BOUNDS = {'quick': '8 trajectories of 12 steps, 7 with losses below one, '
                   '2 of 70 steps',
          'thorough': '40 trajectories of 40 steps, 7 with losses below one, '
                      '8 of 300 steps'}
ASSUMPTIONS = ['the change is measured relative to the newer loss']

# (events with repetitions, alpha): the loss is below one, or far above it
SMALL = [([(0, 0, 0, 30), (0, 1, 1, 2)], .01), ([(0, 0, 0, 9),
         (1, 0, 1, 1)], .01), ([(0, 0, 1, 5), (0, 0, 0, 1)], .1),
         ([(0, 0, 2, 300), (0, 1, 2, 1), (1, 0, 0, 1)], .001),
         ([(i, j, (i + j) % 3, 1) for i in range(12) for j in range(9)], 1.),
         ([(0, 0, 0, 400), (0, 1, 1, 1)], .01),
         ([(0, 0, 1, 900), (1, 1, 0, 1)], .001)]


def cases(tier):
    th = tier == 'thorough'
    for i in range(40 if th else 8):
        for part in range(4):
            yield {'traj': i, 'depth': 40 if th else 12, 'part': part}
    for i in range(len(SMALL)):
        for part in range(4):
            yield {'traj': i, 'depth': 40 if th else 12, 'part': part,
                   'small': True}
    for i in range(8 if th else 2):
        yield {'traj': i, 'depth': 300 if th else 70, 'part': 0, 'long': 1}


def run(case, t):
    i = case['traj']
    lay = M.LAYOUT[(0, 6, 4, 8)[i % 4]]
    k = 2 + i % 3
    n = 4 + i % 3
    rows = M.rows3(n + 9, n, len(lay[0]), i)
    sc, dom = M.scores_for('MultinomialPLSA', len(rows), i)
    alpha = (1., .1)[i // 4 % 2]
    if 'small' in case:
        lay, k = M.LAYOUT[0], 2
        ev, alpha = SMALL[i]
        ev = [e[:3] for e in ev for _ in range(e[3])]
        rows = [e[:2] for e in ev]
        sc, dom = [1. + e[2] for e in ev], (1., 3., 1.)
    c = M.Case('MultinomialPLSA', lay, 'int', rows, score=(sc, dom))
    depth = case['depth']

    def fit(maxiter, tol):
        m = M.make('MultinomialPLSA', k=k, seed=i, alpha=alpha, tol=tol,
                   maxiter=maxiter)
        c.fit(m)
        return m.fit_results_
    loss = [float(fit(0, 0.)['final_loss'])]
    rel = []
    for j in range(1, depth + 1):
        r = fit(j, 0.)
        loss.append(float(r['final_loss']))
        rel.append(abs((loss[j] - loss[j - 1]) / loss[j]))
        t.state((i, j, loss[j], 'small' in case))
        if rel[-1] > 0:
            expect(r['n_iterations'] == j and r['status'] == 2,
                   'limit-ignored', repr(case), got=r['n_iterations'],
                   limit=j, status=r['status'])
        else:
            break
    marks = sorted(x for x in rel if x > 0)
    tols = [0., marks[0] * .5, marks[-1] * 2, 1e300]
    for a, b in zip(marks, marks[1:]):
        if b > a * 1.02:
            tols.append((a * b) ** .5)
    todo = [(lim, tol) for lim in range(0, depth + 1) for tol in tols]
    todo = todo[case['part']::4]
    if 'long' in case:
        # stops at every step of a long trajectory
        todo = [(depth + 7, tol) for tol in tols] + [
            (lim, marks[0] * .5) for lim in range(depth + 1)]
    for lim, tol in todo:
        r = fit(lim, tol)
        stop = next((j + 1 for j in range(min(lim, len(rel)))
                     if rel[j] < tol), None)
        where = 'trajectory %d limit=%d tol=%r' % (i, lim, tol)
        if stop is None and lim > len(rel) or stop == len(loss):
            continue
        w = (lim, 2) if stop is None else (stop, 0)
        expect((r['n_iterations'], r['status']) == w, 'stop', where,
               got=(r['n_iterations'], r['status']), want=w)
        expect(bool(r['success']) == (w[1] == 0), 'success', where,
               got=r['success'])
        from kamrecsys.utils import get_fit_status_message
        expect(r['message'] == get_fit_status_message(w[1]), 'message',
               where, got=r['message'])
        expect(ref.feq(float(r['final_loss']), loss[w[0]]), 'final_loss',
               where, got=r['final_loss'], want=loss[w[0]])
        t.step()
        t.trace()
        t.sig((i, lim, tol, 'small' in case))
        t.ev()
    if case['part'] == 0:
        # documented defaults
        m = M.cls('MultinomialPLSA')(k=k, random_state=i, alpha=alpha)
        c.fit(m)
        w = fit(100, 1e-10)
        for key in ('n_iterations', 'status', 'final_loss'):
            expect(m.fit_results_[key] == w[key], 'defaults', repr(case),
                   entry=key, got=m.fit_results_[key], want=w[key])
    t.sample({'case': case, 'relative changes': rel[:5]})
