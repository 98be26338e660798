"""C34: experiment results record what was actually run."""
import itertools
import json
import os

from mc import models, scripts as S
from mc.core import expect

LEVEL = 'exploration'
RULE = ('the experiment scripts run over every combination of method, '
        'scheme, presence of timestamps, way to give the score domain, and '
        'data set, with the ways to pass files and the options rotating; '
        'every recorded fold is compared with a model trained by the library '
        'on exactly the rows outside of the recorded mask (or of the '
        'training file), event by event.  Illegal schemes, folds, and '
        'missing files are rejected without a result.  Non-trivial: a '
        'distinct (data, options) combination.')
BOUNDS = {'quick': '5 data sets of 2..5 users, 2..3 folds, every option '
          'alone and all pairs of option values for one data set',
          'thorough': '9 data sets, 2..5 folds, ladders to 300 events'}
ASSUMPTIONS = ['every user has at least two events in cross validation',
               'files are in the documented layout',
               'without a seed predictions are compared only for scripts '
               'whose result does not depend on it']

DATA = [(3, 4, (3, 4, 2), 0), (2, 3, (2,), 1), (4, 5, (2, 5, 3), 2),
        (5, 3, (2, 3), 3), (2, 6, (6, 5), 4), (1, 4, (4,), 5),
        (6, 7, (7, 2, 5), 6), (3, 9, (9,), 7), (7, 2, (2,), 8)]
SCORES = [(1, 2, 3, 4, 5), (1, 5), (1.5, 2, 2.5, 3, 5), (0, 1), (-2, 0, 2)]
VALUES = {'C': [.01, 1., .5], 'k': [1, 2, 3], 'tol': [1e-5, .1, 0.],
          'maxiter': [None, 1, 3, 0], 'alpha': [1., .25, 3.],
          'rseed': [1, 0, 12345]}


def allowed(method):
    return [k for k in ('C', 'k', 'tol', 'maxiter', 'alpha', 'rseed')
            if k != ('C' if method.startswith('plsa') else 'alpha')]


def cases(tier):
    th = tier == 'thorough'
    n = 0
    for method in ('pmf', 'plsam', 'plsamm', 'lpmf'):
        for scheme in ('holdout', 'cv'):
            for ts, domain in itertools.product((True, False), (0, 1, 2)):
                for di in range(9 if th else 5):
                    n += 1
                    if di == 5 and scheme == 'cv':
                        continue
                    yield {'method': method, 'scheme': scheme, 'ts': ts,
                           'domain': domain, 'data': di, 'n': n,
                           'folds': 2 + n % (4 if th else 2)}
        # every pair of option values
        ks = allowed(method)
        for a, b in itertools.combinations(ks, 2):
            for x, y in itertools.product(VALUES[a], VALUES[b]):
                n += 1
                o = {k: VALUES[k][0] for k in ks}
                o.update({a: x, b: y})
                yield {'method': method, 'scheme': ('cv', 'holdout')[n % 2],
                       'ts': n % 3 > 0, 'domain': n % 3, 'data': n % 3,
                       'n': n, 'folds': 2, 'o': o}
    for method in ('pmf', 'lpmf', 'plsam'):
        for k in range(4):
            yield {'bad': k, 'method': method}
        for m in (30, 130, 258) if th else (30, 130):
            yield {'ladder': m, 'method': method}
        yield {'one-event': method}
        yield {'slow': method}
    for method in ('pmf', 'plsam', 'plsamm', 'lpmf'):
        for j in range(6):
            yield {'relation': j, 'method': method, 'n': j + len(method)}


def domain_args(kind, rows):
    """-> (arguments, domain)"""
    sc = [r[2] for r in rows]
    lo, hi, st = S.infer(sc)
    if kind == 0:
        return [], (lo, hi, st)
    if kind == 1:
        d = (lo - 2 * st, hi + st, st)
        if not any(d):
            d = (lo, hi, st)
        return ['-d'] + [repr(float(x)) for x in d], d
    d = (lo, hi + 3 * st, st)
    return ['--domain'] + [repr(float(x)) for x in d], d


def launch(script, argv, infile, out, n):
    """the documented ways to pass the files"""
    how = n % 5
    if how == 0:
        text = S.run(script, ['-i', infile, '-o', out] + argv)
    elif how == 1:
        text = S.run(script, argv + ['--in', infile, '--out', out, '-q'])
    elif how == 2:
        text = S.run(script, [infile, out] + argv)
    elif how == 3:
        with open(infile) as f:
            s = f.read()
        text = S.run(script, argv, stdin=s)
    else:
        text = S.run(script, argv + ['-i', infile, '--verbose'])
    if how < 3:
        expect(text == '', 'stdout', how=how, got=text[:100])
        with open(out) as f:
            text = f.read()
        os.remove(out)
    expect(text != '', 'no-output', how=how)
    return json.loads(text)


def run(case, t):
    if 'bad' in case:
        return bad(case, t)
    if 'ladder' in case:
        rows = S.table(case['ladder'], 7, (2, 3), 1)
        return cv(case['method'], rows, {'rseed': 3, 'maxiter': 1}, 2, True,
                  0, 0, 'ladder %d' % case['ladder'], t)
    if 'slow' in case:
        return slow(case['slow'], t)
    if 'relation' in case:
        return relation(case, t)
    if 'one-event' in case:
        return single(case['one-event'], t)
    m, di, n = case['method'], case['data'], case['n']
    nu, ni, per, salt = DATA[di]
    sc = SCORES[(di + n // 7) % len(SCORES)]
    rows = S.table(nu, ni, per, salt, sc)
    if len(set(r[2] for r in rows)) < 2:
        rows[0] = rows[0][:2] + (sc[0],) + rows[0][3:]
        rows[-1] = rows[-1][:2] + (sc[-1],) + rows[-1][3:]
    o = case.get('o') or {'rseed': n % 7, 'maxiter': [2, 5][n % 2]}
    o = {k: v for k, v in o.items() if v is not None}
    where = '%r options=%r rows=%r' % (case, o, rows[:6])
    if case['scheme'] == 'cv':
        cv(m, rows, o, case['folds'], case['ts'], case['domain'], n, where,
           t)
    else:
        test = S.table(nu + 1, ni + 1, per, salt + 1, sc)
        if n % 4:
            # known and unknown users and items
            test = [(S.uid(u, salt), S.iid(i, salt), sc[(u + i) % len(sc)],
                     900 + 3 * u + 50 * i) for u in range(nu + 1)
                    for i in range(ni + 1) if (u + i + n) % 3]
        # sorted by users only, from last to first, by items, or not sorted
        if n % 5 == 1:
            test.sort(key=lambda r: (r[0], -r[1]))
        elif n % 5 == 2:
            test.reverse()
        elif n % 5 == 3:
            test.sort(key=lambda r: (r[1], r[0]))
        elif n % 5 == 4:
            test = test[1::2] + test[0::2]
        holdout(m, rows, test, o, case['ts'], case['domain'], n, where, t)
    t.sample({'case': case, 'rows': rows[:4]})


def relation(case, t):
    """test events that resemble the training events"""
    j, n = case['relation'], case['n']
    for salt in range(3):
        rows = S.table(5, 6, (4, 3, 5), salt)
        sc = [r[2] for r in rows]
        test = [rows[::-1],                                # other order
                list(rows),                                # the same events
                [r[:2] + (s,) + r[3:] for r, s in zip(     # other scores
                    rows, sc[1:] + sc[:1])],
                [(r[0], q[1]) + r[2:] for r, q in zip(     # other pairs
                    rows, rows[::-1])],
                rows[1:] + rows[:1],
                rows[::-1] + rows[:3]][j]
        holdout(case['method'], rows, test, {'rseed': salt, 'maxiter': 3},
                salt != 1, salt, n + salt, '%r salt=%d rows=%r' % (
                    case, salt, rows[:4]), t)


def cv(m, rows, o, folds, ts, domain, n, where, t):
    d, dom = domain_args(domain, rows)
    infile = S.write('train.event', S.text(rows, ts))
    argv = d + S.args_of(o, n % 2 == 0) + [
        '-m', m, '-v', 'cv', '-f', folds] + (
            [] if ts and n % 2 else ['--timestamp'] if ts else
            ['--no-timestamp'])
    try:
        info = launch(S.METHODS[m][0], argv, infile, S.path('out.json'), n)
    except ValueError:
        # legal only if some training set may lack one of the classes
        y = S.to_model(m, [r[2] for r in rows], dom)[0]
        k = sum(-(-sum(1 for r in rows if r[0] == u) // 5)
                for u in set(r[0] for r in rows))
        expect(m == 'lpmf' and min(y.count(0.), y.count(1.)) <= k,
               'failed', where)
        return
    S.judge_cv(info, m, o, rows, dom, folds, ts, where)
    t.ev(folds)
    t.sig((m, 'cv', folds, ts, domain, sorted(o.items()), rows))
    for part in ('training', 'test'):
        if n % 5 != 3:
            expect('train.event' in info[part]['file'], part + '-file',
                   where, got=info[part]['file'])
    # the statistics script accepts the result
    stats(info, m, dom, where, n)


def holdout(m, rows, test, o, ts, domain, n, where, t):
    d, dom = domain_args(domain, rows)
    infile = S.write('train.event', S.text(rows, ts))
    tfile = S.write('test.event', S.text(test, ts))
    argv = d + S.args_of(o, n % 2 == 0) + ['-t', tfile] + (
        ['-v', 'holdout'] if n % 3 else []) + (
        [] if m in ('pmf', 'lpmf') and n % 2 else ['--method', m]) + (
            [] if ts else ['--no-timestamp'])
    y = S.to_model(m, [r[2] for r in rows], dom)[0]
    try:
        info = launch(S.METHODS[m][0], argv, infile, S.path('out.json'), n)
    except ValueError:
        expect(m == 'lpmf' and len(set(y)) == 1, 'failed', where)
        return
    expect(m != 'lpmf' or len(set(y)) == 2, 'one-class-accepted', where)
    S.judge_holdout(info, m, o, rows, test, dom, ts, where)
    t.ev()
    t.sig((m, 'holdout', ts, domain, sorted(o.items()), rows))
    if n % 5 != 3:
        expect('train.event' in info['training']['file'], 'training-file',
               where, got=info['training']['file'])
    expect('test.event' in info['test']['file'], 'test-file', where,
           got=info['test']['file'])
    stats(info, m, dom, where, n)


def stats(info, m, dom, where, n):
    if n % 3 == 0:
        f = S.write('r.json', json.dumps(info))
        r = json.loads(S.run(S.STATS, [f]))
        p = info['prediction']['true']
        k = (sum(len(x) for x in p.values()) if isinstance(p, dict)
             else len(p))
        expect(r['statistics']['n_samples'] == k, 'statistics', where)


def slow(m, t):
    """fitting and prediction that take a known time"""
    import datetime
    import time
    c = models.cls(S.METHODS[m][1])
    keep = {n: c.__dict__.get(n) for n in ('fit', 'predict')}

    def delayed(f, s):
        def g(*a, **kw):
            time.sleep(s)
            r = f(*a, **kw)
            time.sleep(s)
            return r
        return g
    rows = S.table(3, 4, (4,), 0, (1, 5, 2, 4))
    infile = S.write('train.event', S.text(rows))
    try:
        c.fit, c.predict = delayed(c.fit, .04), delayed(c.predict, .02)
        for a in (['-t', infile], ['-v', 'cv', '-f', 2]):
            info = json.loads(S.run(S.METHODS[m][0], [
                '-i', infile, '-m', m, '--rseed', 1, '--maxiter', 2] + a))
            for part, least in (('training', .08), ('test', .04)):
                for f, r in info[part]['results'].items():
                    x = [datetime.datetime.strptime(
                        v if '.' in v else v + '.0', '%Y-%m-%dT%H:%M:%S.%f')
                        for v in (r['start_time'], r['end_time'])]
                    d = (x[1] - x[0]).total_seconds()
                    expect(d >= least - .005, part + '-time', got=r)
                    h, mi, s = r['elapsed_time'].split(':')
                    e = float(h) * 3600 + float(mi) * 60 + float(s)
                    expect(e >= least - .005, part + '-elapsed', got=r)
                    t.ev()
    finally:
        for n, f in keep.items():
            if f is None:
                delattr(c, n)
            else:
                setattr(c, n, f)
    t.sig(m)


def single(m, t):
    """files of one test event"""
    rows = S.table(3, 4, (3,), 1)
    if len(set(r[2] for r in rows)) < 2:
        rows[0] = rows[0][:2] + (5,) + rows[0][3:]
    for i, r in enumerate(rows):
        holdout(m, rows, [r], {'rseed': i, 'maxiter': 2}, i % 2 == 0, 0, i,
                'one test event %r' % (r,), t)
    holdout(m, rows, [(999, 998, 3, 5)], {'rseed': 4, 'maxiter': 2}, True, 0,
            1, 'unknown test event', t)
    # a single user: one test event per fold
    rows = S.table(1, 4, (4,), 0, (1, 5, 2, 4))
    cv(m, rows, {'rseed': 2, 'maxiter': 2}, 2, True, 0, 1, 'one user', t)


def bad(case, t):
    m = case['method']
    script = S.METHODS[m][0]
    rows = S.table(3, 4, (3,), 1)
    infile = S.write('train.event', S.text(rows))
    out = S.path('out.json')
    base = ['-i', infile, '-m', m, '--rseed', 1, '--maxiter', 1, '-o', out]
    k = case['bad']
    argvs = [[['-v', 'cv', '-f', 3, '-n', f] for f in (-1, 3, 4, 100)],
             [['-v', 'holdout']],
             [['-v', 'other'], ['-m', 'svd'], ['-f', 'x'],
              ['-d', 1, 5]],
             [['-t', S.path('missing.event')]]][k]
    for a in argvs:
        try:
            S.run(script, base + a)
        except (S.Failed, IOError, TypeError, ValueError):
            pass
        else:
            expect(False, 'accepted', arguments=a)
        if os.path.exists(out):
            with open(out) as f:
                expect(f.read() == '', 'result-of-rejected-run', arguments=a)
        t.ev()
        t.sig((m, a))
    t.sample(case)
