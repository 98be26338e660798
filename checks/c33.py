"""C33: cross validation fold by fold equals all folds at once."""
import itertools
import json
import os
import subprocess
import sys

from mc import core, scripts as S, xproc
from mc.core import expect

LEVEL = 'model_checking'
RULE = ('state: the set of folds already run and the set already merged; '
        'transitions: run one fold by the real script (in every order, also '
        'with other runs between), merge result files by the real script in '
        'every order and every subset.  Every single result and every merge '
        'is compared with the run of all folds at once restricted to those '
        'folds; statistics of the complete merge equal those of the run at '
        'once.')
BOUNDS = {'quick': '2..3 folds, all orders and subsets, 4 methods',
          'thorough': '2..4 folds, all orders and subsets, 8 data sets'}
ASSUMPTIONS = ['the same seed is given to every run', 'folds are merged once '
               'each']

DATA = [(3, 4, (3, 4, 2), 0), (4, 5, (2, 5, 3), 2), (2, 6, (6, 5), 4),
        (5, 3, (2, 3), 3), (1, 5, (5,), 5), (6, 7, (7, 2, 5), 6),
        (3, 9, (9,), 7), (7, 2, (2,), 8),
        (5, 13, (12, 10, 11, 12, 9), 1)]


def cases(tier):
    th = tier == 'thorough'
    n = 0
    for di in range(8 if th else 3):
        for m in ('pmf', 'plsam', 'plsamm', 'lpmf'):
            for k in (2, 3, 4) if th else (2, 3):
                for ts in (True, False):
                    n += 1
                    yield {'data': di, 'method': m, 'folds': k, 'ts': ts,
                           'n': n}
    for m in ('pmf', 'plsam', 'plsamm', 'lpmf'):
        for n in (40, 300, 1500) if th else (40, 300):
            yield {'processes': n, 'method': m, 'folds': 3, 'ts': n == 40}
    for m in ('pmf', 'lpmf'):
        for di in (0, 8):
            yield {'data': di, 'method': m, 'folds': 11 if not th else 12,
                   'ts': True, 'n': 5, 'wide': True}


def launch(case, argv, infile, out):
    S.run(S.METHODS[case['method']][0], [
        '-i', infile, '-o', out, '-m', case['method'], '-v', 'cv', '-f',
        case['folds'], '--rseed', case['n'] % 5, '--maxiter', 2, '-k',
        1 + case['n'] % 2] + ([] if case['ts'] else ['--no-timestamp']) +
        argv)
    with open(out) as f:
        return json.load(f)


def restrict(info, folds):
    """the result of all folds at once, limited to some folds"""
    r = S.strip(info)
    for part in ('training', 'test'):
        r[part]['results'] = {f: r[part]['results'][f] for f in folds}
    p = r['prediction']
    for k in list(p):
        if k == 'event_feature':
            p[k] = {n: {f: v[f] for f in folds} for n, v in p[k].items()}
        else:
            p[k] = {f: p[k][f] for f in folds}
    return r


def differ(a, b, pos=''):
    """first place where two records differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return pos + '/' + k
            d = differ(a[k], b[k], pos + '/' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (pos, i))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if S.close([a], [b]) else '%s %r %r' % (pos, a, b)
    return None if a == b and type(a) is type(b) else '%s %r %r' % (
        pos, a, b)


def shell(seed, script, argv):
    """a run of a script in a process of its own"""
    q = subprocess.Popen(
        [sys.executable, '-W', 'ignore', os.path.join(
            core.REPO, 'scripts', script)] + [str(a) for a in argv],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=dict(xproc.environ(seed), PYTHONPATH=core.REPO),
        cwd=S.folder())
    return q


def wait(q, where):
    o, e = q.communicate(timeout=200)
    expect(q.returncode == 0, 'script-fails', where + ': ' +
           e.decode('utf-8', 'replace')[-300:])
    return o.decode('utf-8')


def processes(case, t):
    """every run in a process of its own, with its own hash seed; results
    pass through standard output, and data through standard input"""
    n = case['processes']
    rows = S.table(n // 8, n // 5, (8, 7, 9), 2, (1, 5, 2, 4))
    rows = [(r[0] % 1009, r[1] % 1013) + r[2:] for r in rows]
    infile = S.write('train.event', S.text(rows, case['ts']))
    K, where = case['folds'], repr(case)
    argv = ['-i', infile, '-m', case['method'], '-v', 'cv', '-f', K,
            '--rseed', 3, '--maxiter', 3, '-k', 2] + (
                [] if case['ts'] else ['--no-timestamp'])
    script = S.METHODS[case['method']][0]
    jobs = [shell('0', script, argv)] + [
        shell(xproc.SEEDS[1 + f % 3], script, argv + [
            '-n', f, '-o', S.path('f%d.json' % f)]) for f in range(K)]
    out = [wait(q, where) for q in jobs]
    whole = json.loads(out[0])
    for f in range(K):
        with open(S.path('f%d.json' % f)) as fp:
            one = json.load(fp)
        d = differ(S.strip(one), restrict(whole, [str(f)]))
        expect(not d, 'single-fold', where, fold=f, at=d)
        t.step()
        t.state((f, S.strip(one)))
    for n, order in enumerate(((0, 1, 2), (2, 0, 1), (1, 2))):
        got = json.loads(wait(shell(xproc.SEEDS[n], S.MERGE, [
            S.path('f%d.json' % f) for f in order]), where))
        d = differ(S.strip(got), restrict(whole, [str(f) for f in order]))
        expect(not d, 'merge', where, order=order, at=d)
        t.trace()
        t.sig((case['method'], n, order))
    t.ev()
    t.sample({'case': case, 'rows': rows[:4]})


def run(case, t):
    if 'processes' in case:
        return processes(case, t)
    nu, ni, per, salt = DATA[case['data']]
    # half of the scores of every user are low, half are high
    rows = S.table(nu, ni, per, salt, (1, 5, 2, 4))
    y = S.to_model('lpmf', [r[2] for r in rows], S.infer(
        [r[2] for r in rows]))[0]
    k = sum(-(-sum(1 for r in rows if r[0] == u) // 5)
            for u in set(r[0] for r in rows))
    if case['method'] == 'lpmf' and min(y.count(0.), y.count(1.)) <= k:
        rows = S.table(3, 8, (8,), salt, (1, 5, 2, 4))
    infile = S.write('train.event', S.text(rows, case['ts']))
    where = repr(case)
    K = case['folds']
    whole = launch(case, [], infile, S.path('all.json'))
    t.state(('all', S.strip(whole)))
    names = [str(f) for f in range(K)]
    expect(sorted(whole['prediction']['event']) == sorted(names), 'folds',
           where)
    again = launch(case, [], infile, S.path('all2.json'))
    d = differ(S.strip(again), S.strip(whole))
    expect(not d, 'not-reproducible', where, at=d)

    # every order of running the folds, as separate runs of the script
    orders = (list(itertools.permutations(range(K)))
              if K < 4 and not case.get('wide') else
              [tuple(range(K)), tuple(range(K))[::-1]])
    for order in orders:
        for f in order:
            one = launch(case, ['-n', f] if f % 2 else ['--fold-no', f],
                         infile, S.path('f%d.json' % f))
            d = differ(S.strip(one), restrict(whole, [str(f)]))
            expect(not d, 'single-fold', where, order=order, fold=f, at=d)
            t.step()
            t.state((f, S.strip(one)))
            t.trace()
    single = {}
    for f in range(K):
        with open(S.path('f%d.json' % f)) as fp:
            single[f] = json.load(fp)

    # every subset merged in every order
    stat = json.loads(S.run(S.STATS, ['-i', S.path('all.json')]))
    if not case.get('wide'):
        subsets = [c for n in range(1, K + 1)
                   for c in itertools.permutations(range(K), n)]
    else:
        subsets = [tuple(range(K)), tuple(range(K))[::-1],
                   tuple((i * 5 + 3) % K for i in range(K))] + [
                       tuple((i + r) % K for i in range(K))
                       for r in range(1, K)]
    for order in subsets:
        out = S.path('merged.json')
        files = [S.path('f%d.json' % f) for f in order]
        if len(order) % 2:
            S.run(S.MERGE, ['-o', out] + files)
            with open(out) as fp:
                got = json.load(fp)
        else:
            text = S.run(S.MERGE, files)
            got = json.loads(text)
            with open(out, 'w') as fp:
                fp.write(text)
        d = differ(S.strip(got), restrict(whole, [str(f) for f in order]))
        expect(not d, 'merge', where, order=order, at=d)
        # times of every fold are those of its own run
        for f in order:
            for part in ('training', 'test'):
                a = got[part]['results'][str(f)]
                b = single[f][part]['results'][str(f)]
                d = differ(a, b)
                expect(not d, 'merge-times', where, order=order, fold=f,
                       at=d)
            env = got['environment'].get('environment_fold', {})
            expect(sorted(env) == sorted(str(x) for x in order),
                   'merge-environment', where, order=order, got=list(env))
            expect(env[str(f)].get('script') ==
                   single[f]['environment'].get('script') and
                   env[str(f)].get('system') ==
                   single[f]['environment'].get('system'),
                   'merge-environment', where, order=order, fold=f)
        expect(got['condition'].get('merged') is True, 'merged-flag', where)
        for f in order:
            with open(S.path('f%d.json' % f)) as fp:
                expect(json.load(fp) == single[f], 'input-changed', where)
        t.step()
        t.state((order, S.strip(got)))
        t.trace()
        t.sig((case['data'], case['method'], K, case['ts'], order))
        t.ev()
        if len(order) == K:
            s = json.loads(S.run(S.STATS, ['-i', out]))
            d = differ(s['statistics'], stat['statistics'])
            expect(not d, 'statistics', where, order=order, at=d)
    t.sample({'case': case, 'rows': rows[:4], 'order': list(order)})
