"""C35: evaluation statistics cover exactly the recorded predictions."""
from fractions import Fraction as F
import itertools
import json
import math
import os

from mc import ref, scripts as S
from mc.core import expect
from checks.c22 import moments
from checks.c23 import DOMAINS, judge_hist, levels, predicted
from checks.c24 import auc

LEVEL = 'exploration'
RULE = ('the evaluation script reads every record of predictions within the '
        'bounds: all vectors of true and predicted scores, every '
        'distribution of them over up to three folds (also empty ones) in '
        'every order of the folds, every way to pass files and to keep the '
        'data; the statistics equal exact arithmetic over all the recorded '
        'predictions, and the rest of the record is passed on unchanged.  '
        'Non-trivial: a distinct record.')
BOUNDS = {'quick': '<=3 predictions over 3 levels x 10 values, 8 domains, '
          'all distributions over 3 folds of 4 predictions',
          'thorough': 'all distributions over 3 folds of 6 predictions; '
          'ladder to 1000'}
ASSUMPTIONS = []


def cases(tier):
    th = tier == 'thorough'
    for di in range(len(DOMAINS)):
        for part in range(8):
            yield {'sp': di, 'part': part, 'th': th}
    for n in range(1, 6 if th else 5):
        yield {'if': n}
    for part in range(8):
        yield {'folds': 6 if th else 4, 'part': part}
    for n in (127, 128, 256, 300) + ((1000, 5000) if th else ()):
        yield {'ladder': n}
    for n in (1000, 1025, 2001, 4097, 10001, 32769) + (
            (65537, 100001) if th else ()):
        yield {'wide': n}
    for n in (2, 4, 5, 9, 20):
        yield {'special': n}
    for n in (2, 3, 10):
        yield {'near': n}
    yield {'bad': 1}


REST = {'environment': {'script': {'name': 'x'}, 'n': [1, 2.5, None, True]},
        'training': {'file': u'\u5bff', 'results': {'0': {'final_loss': .1}}},
        'test': {'n_events': 3}}


def record(task, dom, true, pred, folds=None, turn=0):
    """folds: list of (name, positions); true and predicted scores are
    listed in orders of the folds that differ by a rotation"""
    ev = [[i % 3 + 1, i + 5] for i in range(len(true))]
    p = {'event': ev, 'true': true, 'predicted': pred,
         'event_feature': {'timestamp': list(range(len(true)))}}
    if folds is not None:
        turn %= len(folds)
        p = {k: {n: [v[i] for i in idx] for n, idx in (
            folds[turn:] + folds[:turn] if k == 'predicted' else folds)}
             for k, v in p.items() if k != 'event_feature'}
    r = json.loads(json.dumps(REST))
    r.update(condition={'score_domain': [float(x) for x in dom],
                        'scheme': 'cv' if folds else 'holdout'},
             model={'task_type': task, 'options': {'C': .01}}, prediction=p)
    return r


def evaluate(rec, n, where, keep=None):
    keep = n % 3 == 0 if keep is None else keep
    argv = ['--keepdata'] if keep else ['--no-keepdata'] if n % 3 == 1 \
        else []
    src = S.write('r.json', json.dumps(rec))
    out = S.path('s.json')
    how = n % 4
    if how == 0:
        text = S.run(S.STATS, argv + ['-i', src, '-o', out])
    elif how == 1:
        text = S.run(S.STATS, argv + [src, out])
    elif how == 2:
        text = S.run(S.STATS, ['--in', src] + argv)
    else:
        text = S.run(S.STATS, argv, stdin=json.dumps(rec))
    if how < 2:
        expect(text == '', 'stdout', where)
        with open(out) as f:
            text = f.read()
        os.remove(out)
    got = json.loads(text)
    with open(src) as f:
        expect(json.load(f) == rec, 'input-changed', where)
    st = got.pop('statistics', None)
    want = dict(rec)
    if not keep:
        del want['prediction']
    expect(got == want, 'rest-of-record', where, got=got, want=want)
    expect(isinstance(st, dict), 'no-statistics', where)
    return st


def check(st, pairs, where, tol=1e-9):
    for path, want in pairs:
        v = st
        for k in path.split('/'):
            expect(k in v, 'missing-' + path, where)
            v = v[k]
        expect(isinstance(v, (int, float)) and ref.feq(float(v), float(want),
                                                       tol),
               path.replace('/', '-'), where, got=v, want=want)


def judge_sp(rec, dom, yt, yp, n, where, hist=True):
    st = evaluate(rec, n, where)
    ae = moments([abs(x - y) for x, y in zip(yt, yp)])
    se = moments([(x - y) ** 2 for x, y in zip(yt, yp)])
    tm, pm = moments(yt), moments(yp)
    check(st, [('n_samples', len(yt)),
               ('mean absolute error/mean', ae[0]),
               ('mean absolute error/stdev', ae[1]),
               ('mean squared error/mean', se[0]),
               ('mean squared error/stdev', se[1]),
               ('mean squared error/rmse', math.sqrt(se[0])),
               ('true/mean', tm[0]), ('true/stdev', tm[1]),
               ('predicted/mean', pm[0]), ('predicted/stdev', pm[1])],
          where, 1e-7)
    lv, stp = levels(dom), F(str(dom[2]))
    expect(len(st['score levels']) == len(lv) and all(
        ref.feq(a, float(b)) for a, b in zip(st['score levels'], lv)),
        'levels', where, got=st['score levels'])
    for side, v in (('true', yt), ('predicted', yp)):
        if hist:
            judge_hist(st[side]['histogram'], v, lv, stp, where + side)
        expect(all(ref.feq(a * len(v), b) for a, b in zip(
            st[side]['histogram density'], st[side]['histogram'])),
            'density', where)


def judge_if(rec, yt, yp, n, where):
    st = evaluate(rec, n, where)
    tm, pm = moments([F(x) for x in yt]), moments(yp)
    check(st, [('n_samples', len(yt)), ('true/mean', tm[0]),
               ('true/stdev', tm[1]), ('predicted/mean', pm[0]),
               ('predicted/stdev', pm[1])], where, 1e-7)
    if len(set(yt)) == 2:
        check(st, [('area under the curve', auc(yt, yp))], where)
    else:
        expect('area under the curve' not in st, 'auc', where)


def fl(x):
    return [float(v) for v in x]


def ints(x):
    """whole numbers recorded without a fraction"""
    return [int(v) if v == int(v) else float(v) for v in x]


def run(case, t):
    if 'sp' in case:
        dom = DOMAINS[case['sp']]
        lv = levels(dom)
        probes = predicted(lv, F(str(dom[2])))
        tl = lv if len(lv) <= 3 else [lv[0], lv[1], lv[-1]]
        i = 0
        for n in (1, 2, 3):
            for yt in itertools.product(tl, repeat=n):
                for k, yp in enumerate(itertools.product(probes, repeat=n)):
                    if n == 2 and not case['th'] and k % 5:
                        continue
                    if n == 3 and k % (37 if case['th'] else 331):
                        continue
                    i += 1
                    if i % 8 != case['part']:
                        continue
                    where = 'domain=%r true=%r predicted=%r' % (
                        dom, fl(yt), fl(yp))
                    judge_sp(record('score_predictor', dom, fl(yt), fl(yp)),
                             dom, yt, yp, i // 8, where)
                    t.ev()
                    t.sig((dom, yt, yp))
    elif 'if' in case:
        n = case['if']
        for i, (yt, yp) in enumerate(itertools.product(
                itertools.product((0, 1), repeat=n),
                itertools.product((F(1, 4), F(1, 2), F(7, 8)), repeat=n))):
            if n > 3 and i % 7:
                continue
            where = 'true=%r predicted=%r' % (yt, fl(yp))
            judge_if(record('item_finder', (1, 5, 1), list(yt), fl(yp)), yt,
                     yp, i, where)
            t.ev()
            t.sig((yt, yp))
    elif 'folds' in case:
        n = case['folds']
        dom = (1., 5., .5)
        yt = [F(1) + F((3 * i) % 9, 2) for i in range(n)]
        yb = [i % 2 for i in range(n)]
        yp = [F(5 - i, 1) + F(i % 2, 4) for i in range(n)]
        pb = [F(1 + (i * 5) % 7, 8) for i in range(n)]
        i = 0
        for assign in itertools.product(range(3), repeat=n):
            for order in itertools.permutations(('0', '1', '2')):
                i += 1
                if i % 8 != case['part']:
                    continue
                folds = [(f, [j for j in range(n) if assign[j] == int(f)])
                         for f in order]
                if i % 3:
                    folds = [f for f in folds if f[1]]
                where = 'folds=%r' % (folds,)
                num = fl if i % 2 else ints
                judge_sp(record('score_predictor', dom, num(yt), num(yp),
                                folds, i // 8), dom, yt, yp, i // 8, where)
                judge_if(record('item_finder', dom, yb, fl(pb), folds,
                                i // 8 + 1), yb, pb, i // 8, where)
                t.ev(2)
                t.sig((assign, order))
    elif 'wide' in case:
        # the record of many predictions is passed on, or dropped, as a whole
        n = case['wide']
        yt = [F(1) + F((i * 7) % 9, 2) for i in range(n)]
        yp = [F((i * 13) % 50, 8) + F(1, 16) for i in range(n)]
        yb = [(i * i) % 7 % 2 for i in range(n)]
        dom = (1., 5., .5)
        for j, folds in enumerate((None, [('1', list(range(n // 3))), (
                '0', list(range(n // 3, n)))])):
            for keep in (0, 1):
                for task, true in (('score_predictor', yt),
                                   ('item_finder', yb)):
                    rec = record(task, dom, fl(true), fl(yp), folds, j)
                    if folds is None:
                        f = rec['prediction']['event_feature']
                        f['tag'] = ['t%d' % (i % 7) for i in range(n)]
                    # n: how files are passed
                    z = 3 * (4 * n + j + 2 * keep) + (0 if keep else 1)
                    st = evaluate(rec, z, 'n=%d keep=%d' % (n, keep),
                                  bool(keep))
                    expect(st['n_samples'] == n, 'n_samples', case,
                           got=st['n_samples'])
                    t.ev()
        t.sig(n)
    elif 'special' in case:
        # one prediction, or each of a class, has a special value
        n = case['special']
        dom = (1., 5., .5)
        yt = [F(1) + F((i * 7) % 9, 2) for i in range(n)]
        yb = [(i + 1) * i // 2 % 2 for i in range(n)]
        i = 0
        for v in (0, 1, -1, 5, 6, 100, F(1, 2), -7):
            for at in [[j] for j in range(n)] + [list(range(n)), [
                    j for j in range(n) if yb[j]]]:
                yp = [F((j * 13) % 40, 8) + F(1, 16) for j in range(n)]
                for j in at:
                    yp[j] = F(v)
                if i % 2:
                    folds = [('1', list(range(n // 2, n))),
                             ('0', list(range(n // 2)))]
                else:
                    folds = None
                i += 1
                num = (fl, ints)[i % 4 > 1]
                where = 'value=%s at %r of %d' % (v, at, n)
                judge_sp(record('score_predictor', dom, fl(yt), num(yp),
                                folds, i), dom, yt, yp, i, where)
                judge_if(record('item_finder', dom, yb, num(yp), folds, i),
                         yb, yp, i + 1, where)
                t.ev(2)
                t.sig((n, v, tuple(at)))
    elif 'near' in case:
        # scores that differ very little; deviations that are very small
        n = case['near']
        for e in range(1, 13):
            for base in (0., 1., 3., -2.5):
                x = [base + 10. ** -e * (j * j % 5) for j in range(n)]
                y = [base + 10. ** -e * (j * 3 % 7) for j in range(n)]
                st = evaluate(record('score_predictor', (1., 5., 1.), x, y),
                              e, 'near')
                ae = moments([abs(F(a) - F(b)) for a, b in zip(x, y)])
                se = moments([(F(a) - F(b)) ** 2 for a, b in zip(x, y)])
                for path, w in (
                        ('true/stdev', moments([F(v) for v in x])[1]),
                        ('predicted/stdev', moments([F(v) for v in y])[1]),
                        ('mean absolute error/mean', ae[0]),
                        ('mean absolute error/stdev', ae[1]),
                        ('mean squared error/mean', se[0]),
                        ('mean squared error/stdev', se[1]),
                        ('mean squared error/rmse', math.sqrt(se[0]))):
                    a, b = path.split('/')
                    expect(abs(st[a][b] - float(w)) <= 1e-6 * float(w) +
                           1e-14, path.replace('/', '-'), 'near %g' % base,
                           step=10. ** -e, got=st[a][b], want=float(w))
                t.ev()
                t.sig((n, e, base))
    elif 'ladder' in case:
        n = case['ladder']
        dom = (1., 5., .5)
        yt = [F(1) + F((i * 7) % 9, 2) for i in range(n)]
        yp = [F((i * 13) % 50, 8) + F(1, 16) for i in range(n)]
        yb = [(i * i) % 7 % 2 for i in range(n)]
        for folds in (None, [('1', list(range(n // 3))),
                             ('0', list(range(n // 3, n)))],
                      [(str(f), list(range(f, n, 11))) for f in range(11)]):
            for turn in (0, 1, 7):
                judge_sp(record('score_predictor', dom, fl(yt), fl(yp), folds,
                                turn), dom, yt, yp, n, 'n=%d' % n)
                judge_if(record('item_finder', dom, yb, fl(yp), folds, turn),
                         yb, yp, n, 'n=%d' % n)
            t.ev(2)
        t.sig(n)
    else:
        rec = record('classifier', (1, 5, 1), [1., 2.], [1., 2.])
        src = S.write('r.json', json.dumps(rec))
        ref.raises((TypeError, ValueError), lambda: S.run(S.STATS, [src]),
                   'task-accepted')
        rec = record('item_finder', (1, 5, 1), [1., 2.], [1., 2.])
        src = S.write('r.json', json.dumps(rec))
        ref.raises(ValueError, lambda: S.run(S.STATS, [src]),
                   'non-binary-accepted')
        rec = record('score_predictor', (1, 5, 1), [1., 2.], [1.])
        src = S.write('r.json', json.dumps(rec))
        ref.raises(ValueError, lambda: S.run(S.STATS, [src]),
                   'length-accepted')
        t.ev(3)
    t.sample(case)
