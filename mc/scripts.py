"""Runs the experiment scripts in process and predicts what they record."""
import io
import json
import math
import os
import runpy
import sys

import numpy as np

from . import core, models
from .core import expect

SP, IF = 'exp_recsys_sp.py', 'exp_recsys_if.py'
MERGE, STATS = 'exp_recsys_fold_merge.py', 'stats_recsys.py'
HELPERS = ('exp_recsys_util',)

# method -> script, model, fixed options
METHODS = {'pmf': (SP, 'PMF', {}),
           'plsam': (SP, 'MultinomialPLSA', {'use_expectation': True}),
           'plsamm': (SP, 'MultinomialPLSA', {'use_expectation': False}),
           'lpmf': (IF, 'LogisticPMF', {})}


class Failed(Exception):
    pass


def folder():
    d = os.path.join(os.environ['MC_SCRATCH'], 'exp%d' % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d)
    return d


def path(name):
    return os.path.join(folder(), name)


def write(name, text):
    with io.open(path(name), 'w', newline='') as f:
        f.write(text)
    return path(name)


def run(script, argv, stdin=None):
    """run a script like `python scripts/<script> argv`; -> its stdout"""
    d = os.path.join(core.REPO, 'scripts')
    old = sys.argv, sys.stdin, sys.stdout, list(sys.path)
    err = np.geterr()
    for k in list(sys.modules):
        f = getattr(sys.modules[k], '__file__', None) or ''
        if os.path.dirname(f) == d:
            del sys.modules[k]
    out = io.TextIOWrapper(io.BytesIO(), encoding='utf-8')
    sys.stdout = out
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode('utf-8')),
                                     encoding='utf-8')
    sys.argv = [os.path.join(d, script)] + [str(a) for a in argv]
    sys.path.insert(0, d)
    keep = sys.stderr
    sys.stderr = io.StringIO()
    try:
        runpy.run_path(sys.argv[0], run_name='__main__')
    except SystemExit as e:
        if e.code not in (0, None):
            raise Failed('exit status %r: %s' % (
                e.code, sys.stderr.getvalue()[-300:]))
    finally:
        sys.stderr = keep
        sys.argv, sys.stdin, sys.stdout, sys.path[:] = old
        np.seterr(**err)
    out.flush()
    return out.buffer.getvalue().decode('utf-8')


def table(n_users, n_items, per_user, salt=0, scores=(1, 2, 3, 4, 5),
          shuffle=True):
    """rows (user, item, score, timestamp); ids are not consecutive"""
    rows = []
    for u in range(n_users):
        k = per_user[u % len(per_user)]
        for j in range(k):
            i = (u * 2 + j * (1 + salt % 2) + salt) % n_items
            rows.append((uid(u, salt), iid(i, salt),
                         scores[(u * 3 + j * 2 + salt + i) % len(scores)],
                         1000 + 7 * len(rows)))
    if shuffle and len(rows) > 2:
        n = len(rows)
        step = next(s for s in range(n // 2 + 1, 2 * n) if math.gcd(s, n)
                    == 1)
        rows = [rows[(k * step + salt) % n] for k in range(n)]
    return rows


def uid(u, salt):
    return ((u + 2) * 7 + salt * 3) % 31 + 1 if u < 31 else 100 + u


def iid(i, salt):
    return ((i + 1) * 5 + salt) % 37 + 1 if i < 37 else 200 + i


def text(rows, timestamp=True):
    return ''.join('%d\t%d\t%s%s\n' % (
        r[0], r[1], ('%g' % r[2]), '\t%d' % r[3] if timestamp else '')
        for r in rows)


def infer(scores):
    """the domain estimated from scores"""
    lv = sorted(set(float(s) for s in scores))
    return [lv[0], lv[-1], min(b - a for a, b in zip(lv, lv[1:]))]


def to_model(method, scores, dom):
    """scores and domain as the model gets them"""
    if METHODS[method][0] == IF:
        mid = (dom[0] + dom[1]) / 2.
        return [0. if s <= mid else 1. for s in scores], (0., 1., 1.)
    return [float(s) for s in scores], tuple(dom)


def options(method, o):
    """constructor options of the model"""
    r = dict(METHODS[method][2])
    if METHODS[method][1] == 'MultinomialPLSA':
        r['alpha'] = o.get('alpha', 1.)
    else:
        r['C'] = o.get('C', .01)
    r['k'], r['tol'] = o.get('k', 1), o.get('tol', 1e-5)
    if o.get('maxiter') is not None:
        r['maxiter'] = o['maxiter']
    r['random_state'] = o.get('rseed')
    return r


FLAG = {'C': '-C', 'k': '-k', 'tol': '--tol', 'maxiter': '--maxiter',
        'alpha': '--alpha', 'rseed': '--rseed'}
LONG = {'C': '--lambda', 'k': '--dim', 'tol': '--tol',
        'maxiter': '--maxiter', 'alpha': '--alpha', 'rseed': '--rseed'}


def args_of(o, long_form=False):
    out = []
    for k in sorted(o):
        out += [(LONG if long_form else FLAG)[k], repr(o[k])]
    return out


def fit(method, rows, dom, o):
    """-> the model trained by the library on these rows alone"""
    name = METHODS[method][1]
    sc, md = to_model(method, [r[2] for r in rows], dom)
    d = models.container(name, np.array([r[:2] for r in rows]), (0, 1), 2,
                         sc, md)
    rec = models.cls(name)(**options(method, o))
    rec.fit(d)
    return rec


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(
        x == y or abs(x - y) <= tol * max(1, abs(x), abs(y)) or (
            x != x and y != y) for x, y in zip(a, b))


VOLATILE = ('start_time', 'end_time', 'elapsed_time', 'elapsed_utime')


def judge_fold(info, method, train, test, dom, o, get, results, where):
    """one fold: predictions are those of a model trained on `train`"""
    rec = fit(method, train, dom, o)
    true, _ = to_model(method, [r[2] for r in test], dom)
    expect(get('event') == [list(r[:2]) for r in test], 'events', where,
           got=get('event'), want=[r[:2] for r in test])
    expect(close(get('true'), true), 'true-scores', where, got=get('true'),
           want=true)
    want = [float(np.ravel(rec.predict(np.array(r[:2])))[0]) for r in test]
    expect(close(get('predicted'), want), 'predictions', where,
           got=get('predicted'), want=want)
    tr, te = results
    for k in ('n_users', 'n_items', 'n_events'):
        n = {'n_users': len(set(r[0] for r in train)),
             'n_items': len(set(r[1] for r in train)),
             'n_events': len(train)}[k]
        expect(tr.get(k) == n, 'training-' + k, where, got=tr.get(k), want=n)
    res = dict(rec.fit_results_)
    for k in ('final_loss', 'initial_loss', 'n_iterations', 'status',
              'success', 'n_parameters'):
        if isinstance(res.get(k), (int, float, np.number, bool)):
            expect(k in tr and close([float(tr[k])], [float(res[k])]),
                   'results-' + k, where, got=tr.get(k), want=res[k])
    expect(te.get('n_events') == len(test), 'test-n_events', where,
           got=te.get('n_events'))
    for r in (tr, te):
        expect(r['start_time'] and r['end_time'], 'time', where)


def judge_common(info, method, o, dom, scheme, n_folds, timestamp, where):
    c, m = info['condition'], info['model']
    script, name, _ = METHODS[method]
    expect(close(c['score_domain'], [float(x) for x in dom]),
           'recorded-domain', where, got=c['score_domain'], want=dom)
    for k, got, want in (
            ('scheme', c['scheme'], scheme),
            ('n_folds', c['n_folds'], n_folds),
            ('has_timestamp', c['has_timestamp'], timestamp),
            ('name', m['name'], name),
            ('script', info['environment']['script']['name'], script),
            ('task_type', m['task_type'], 'item_finder' if script == IF
             else 'score_predictor')):
        expect(got == want, 'recorded-' + k, where, got=got, want=want)
    expect(name in m['recommender'], 'recorded-recommender', where)
    want = {k: v
            for k, v in options(method, o).items()}
    expect(m['options'] == want, 'recorded-options', where,
           got=m['options'], want=want)


def counts(d, rows, where, key):
    for k, n in (('n_events', len(rows)),
                 ('n_users', len(set(r[0] for r in rows))),
                 ('n_items', len(set(r[1] for r in rows)))):
        expect(d[k] == n, key + '-' + k, where, got=d[k], want=n)


def judge_holdout(info, method, o, train, test, dom, timestamp, where):
    judge_common(info, method, o, dom, 'holdout', 1, timestamp, where)
    counts(info['training'], train, where, 'training')
    counts(info['test'], test, where, 'test')
    expect(list(info['training']['results']) == ['0'] and
           list(info['test']['results']) == ['0'], 'folds', where)
    p = info['prediction']
    judge_fold(info, method, train, test, dom, o, lambda k: p[k],
               (info['training']['results']['0'],
                info['test']['results']['0']), where)
    if timestamp:
        expect(p['event_feature'] == {'timestamp': [r[3] for r in test]},
               'event-feature', where, got=p.get('event_feature'))
    else:
        expect(not p.get('event_feature'), 'event-feature', where)


def judge_cv(info, method, o, rows, dom, n_folds, timestamp, where,
             folds=None):
    judge_common(info, method, o, dom, 'cv', n_folds, timestamp, where)
    for part in ('training', 'test'):
        counts(info[part], rows, where, part)
    p = info['prediction']
    names = [str(f) for f in (range(n_folds) if folds is None else folds)]
    for d, n in ([(p[k], k) for k in ('event', 'true', 'predicted', 'mask')]
                 + [(info[k]['results'], k) for k in ('training', 'test')]):
        expect(sorted(d) == sorted(names), 'folds', where, part=n,
               got=list(d), want=names)
    by_user = {}
    for i, r in enumerate(rows):
        by_user.setdefault(r[0], []).append(i)
    for f in names:
        w = where + ' fold ' + f
        mask = p['mask'][f]
        expect(len(set(mask)) == len(mask) and all(
            0 <= i < len(rows) for i in mask), 'mask', w, got=mask)
        for u, idx in by_user.items():
            n = math.ceil(.2 * len(idx) - 1e-9)
            expect(len(set(mask) & set(idx)) == n, 'mask-sizes', w, user=u,
                   got=mask, events=idx)
        s = set(mask)
        judge_fold(info, method, [r for i, r in enumerate(rows)
                                  if i not in s], [rows[i] for i in mask],
                   dom, o, lambda k: p[k][f], (
                       info['training']['results'][f],
                       info['test']['results'][f]), w)
        if timestamp:
            expect(p['event_feature']['timestamp'][f] == [
                rows[i][3] for i in mask], 'event-feature', w)
    if timestamp:
        expect(list(p['event_feature']) == ['timestamp'] and sorted(
            p['event_feature']['timestamp']) == sorted(names),
            'event-feature', where)
    else:
        expect(not p.get('event_feature'), 'event-feature', where)


def strip(info):
    """what a result says, without times and environment"""
    r = json.loads(json.dumps(info))
    r.pop('environment', None)
    for part in ('training', 'test'):
        for f in r[part]['results'].values():
            for k in VOLATILE:
                f.pop(k, None)
    for k in ('out_file', 'merged'):
        r['condition'].pop(k, None)
    return r
