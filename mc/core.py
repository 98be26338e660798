"""
Case runner of the bounded exhaustive explorer.

A check module (checks/<pid>.py) defines

  LEVEL, RULE, ASSUMPTIONS   strings for the evidence file
  cases(tier)                -> iterable of JSON-able case descriptions.  The
                                enumeration is complete within the bounds the
                                module states and never draws random choices.
  run(case, t)               -> executes the real code on every behaviour the
                                case stands for; raises Violation if one breaks
                                the property; counts with `t` (a Tally).

Cases are independent, so they are distributed over a pool of processes.
"""
import ctypes
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '240'))
MAX_HASHES = 400000
MAX_FAILS = int(os.environ.get('MC_FAILS', '40'))


class Violation(Exception):
    """the code under test breaks the property; `key` identifies the failure"""

    def __init__(self, key, msg, detail=None):
        Exception.__init__(self, '{}: {}'.format(key, msg))
        self.key, self.msg, self.detail = key, msg, detail


class CaseTimeout(Exception):
    pass


def h64(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Tally(object):
    """measured counts of one case, merged over all cases"""

    def __init__(self):
        self.n = 0            # executions of the real code that were judged
        self.trans = 0        # transitions taken
        self.traces = 0       # model traces replayed on the implementation
        self.states = set()   # hashes of distinct states
        self.sigs = set()     # hashes of distinct non-trivial outcomes
        self.samples = []
        self.capped = False

    def ev(self, n=1):
        self.n += n

    def sig(self, x):
        if len(self.sigs) < MAX_HASHES:
            self.sigs.add(h64(x))

    def state(self, x):
        if len(self.states) < MAX_HASHES:
            self.states.add(h64(x))

    def step(self, n=1):
        self.trans += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def merge(self, o):
        self.n += o.n
        self.trans += o.trans
        self.traces += o.traces
        self.states |= o.states
        self.sigs |= o.sigs
        if len(self.samples) < 6:
            self.samples.extend(o.samples[:2])


def expect(cond, key, msg='', /, **detail):
    if not cond:
        if detail:
            msg = '{} {}'.format(msg, ' '.join(
                '{}={}'.format(k, short(v)) for k, v in sorted(
                    detail.items())))
        raise Violation(key, msg)


def short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


_mod = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case):
    """-> (Tally, None | dict describing a failure)"""
    t = Tally()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(case, t)
        return t, None
    except Violation as e:
        return t, {'key': e.key, 'msg': e.msg,
                   'trace': traceback.format_exc(limit=-6)}
    except CaseTimeout:
        return t, {'key': 'no-termination',
                   'msg': 'no result within {} s'.format(CASE_TIMEOUT),
                   'trace': traceback.format_exc(limit=-6)}
    except MemoryError as e:
        tb = traceback.format_exc(limit=-12)
        if REPO + '/' not in tb:
            raise
        return t, {'key': 'exception-MemoryError', 'trace': tb,
                   'msg': 'out of memory: ' + short(str(e))}
    except BaseException as e:   # the code under test crashed, exited, or
        if isinstance(e, KeyboardInterrupt):
            raise
        # returned something the judge cannot even look at
        return t, {'key': 'exception-' + type(e).__name__,
                   'msg': 'unexpected {}: {}'.format(
                       type(e).__name__, short(str(e))),
                   'trace': traceback.format_exc(limit=-12)}
    finally:
        signal.alarm(0)


_now = None      # per worker: index of the case and the time of its start
_slot = None
_stop = None     # set when the remaining cases shall be skipped


def _worker_init(now, stop, slots):
    """workers die with the parent"""
    global _now, _slot, _stop
    _now, _stop = now, stop
    with slots.get_lock():
        _slot = slots.value % (len(now) // 2)
        slots.value += 1
    try:
        ctypes.CDLL('libc.so.6').prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _pool_chunk(items):
    return [_pool_run(x) for x in items]


def _pool_run(item):
    i, case = item
    if _stop.value:
        return i, case, None, None
    _now[2 * _slot], _now[2 * _slot + 1] = i, time.time()
    try:
        t, fail = run_one(_mod, case)
        if fail and fail['key'] == 'no-termination':
            _stop.value = 1
    except MemoryError:
        return i, case, None, {'key': 'HARNESS', 'msg': 'out of memory',
                               'trace': ''}
    finally:
        _now[2 * _slot + 1] = 0
    return i, case, t, fail


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known:'):
                    w = dict(x.split('=', 1) for x in line.split()[1:3])
                    if w.get('property') == pid:
                        out[w['key']] = line.split(None, 3)[3].strip()
    return out


def main(pid, tier, seed, replay=None):
    global _mod
    t0 = time.time()
    sys.path.insert(0, VERIF)
    scratch = tempfile.mkdtemp(prefix='mc-{}-'.format(pid.lower()))
    os.environ['MC_SCRATCH'] = scratch
    owner = os.getpid()
    try:
        return _main(pid, tier, seed, replay, t0)
    finally:
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, tier, seed, replay, t0):
    global _mod
    total = Tally()
    fails = []
    n_cases = 0
    try:
        from mc import env
        env.setup()
        import importlib
        mod = _mod = importlib.import_module('checks.' + pid.lower())
        if hasattr(mod, 'prepare'):
            mod.prepare(tier)
        boot = None
    except Exception as e:
        tb = traceback.format_exc(limit=-12)
        if 'kamrecsys' not in tb and '/scripts/' not in tb:
            sys.stderr.write(tb)
            return 2
        boot = {'key': 'import', 'msg': 'the code cannot be imported: '
                '{}'.format(e), 'trace': tb}

    if boot is not None:
        fails.append((0, {'boot': True}, boot))
    elif replay is not None:
        with open(replay) as f:
            case = json.load(f)['case']
        t, fail = run_one(mod, case)
        total.merge(t)
        if fail:
            fails.append((0, case, fail))
    else:
        items = list(enumerate(mod.cases(tier)))
        n_cases = len(items)
        nproc = int(os.environ.get('MC_JOBS', str(min(8, os.cpu_count()))))
        chunk = max(1, min(64, n_cases // (nproc * 12)))
        ctx = mp.get_context('fork')
        now, stop = ctx.Array('d', 2 * nproc), ctx.Value('i', 0)
        with ctx.Pool(nproc, initializer=_worker_init,
                      initargs=(now, stop, ctx.Value('i', 0))) as pool:
            results = pool.imap_unordered(_pool_chunk, [
                items[k:k + chunk] for k in range(0, n_cases, chunk)])
            while len(fails) < MAX_FAILS:
                try:
                    done = results.next(timeout=10)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    stuck = [int(now[2 * k]) for k in range(nproc)
                             if now[2 * k + 1] and time.time() -
                             now[2 * k + 1] > CASE_TIMEOUT + 60]
                    if stuck:
                        # not even interrupted by the alarm
                        fails.append(items[stuck[0]] + ({
                            'key': 'no-termination', 'trace': '',
                            'msg': 'no result, not to be interrupted'},))
                        break
                    continue
                for i, case, t, fail in done:
                    if t is not None:
                        total.merge(t)
                    if fail:
                        fails.append((i, case, fail))
    fails.sort(key=lambda x: x[0])
    return report(pid, tier, seed, total, fails, n_cases, t0, replay)


def report(pid, tier, seed, total, fails, n_cases, t0, replay):
    mod = _mod
    known = known_findings(pid)
    rc = 0
    seen_known = set()
    unlisted = []
    for i, case, f in fails:
        if f['key'] == 'HARNESS':
            sys.stderr.write(f['msg'] + '\n' + f['trace'])
            return 2
        if f['key'] in known:
            seen_known.add(f['key'])
        else:
            unlisted.append((i, case, f))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property={} {}'.format(pid, known[k]))
    keys = set()
    for i, case, f in unlisted:
        rc = 1
        if f['key'] in keys or len(keys) >= 5:
            continue
        keys.add(f['key'])
        if replay is None:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '{}-{:016x}.json'.format(
                pid, h64(repr(case))))
            with open(path, 'w') as fp:
                json.dump({'property': pid, 'case': case, 'key': f['key'],
                           'msg': f['msg'], 'trace': f['trace'],
                           'how': './replay ' + path}, fp, indent=1)
        else:
            path = replay
        print('VIOLATION property={} replay={}'.format(pid, path))
        print('  {}: {}'.format(f['key'], f['msg'][:1000]))
        if replay is not None:
            print(f['trace'])
    if replay is None:
        level = getattr(mod, 'LEVEL', 'exploration')
        samples = total.samples[:6] or [c for _, c, _ in fails[:3]] or [
            'no case was run']
        cov = {'rule': getattr(mod, 'RULE', ''), 'samples': samples,
               'cases': n_cases, 'evaluations': total.n,
               'distinct_nontrivial': len(total.sigs)}
        if level == 'model_checking':
            cov['states'] = len(total.states)
            cov['transitions'] = total.trans
            cov['traces_validated_against_impl'] = total.traces
            for k in ('evaluations', 'distinct_nontrivial'):
                if cov[k] in (0, len(total.states), total.trans,
                              total.traces):
                    del cov[k]
        if rc == 0 and not total.capped:
            cov['exhaustive'] = True
        cov['bounds'] = getattr(mod, 'BOUNDS', {}).get(
            tier, '') if isinstance(getattr(mod, 'BOUNDS', {}), dict) \
            else mod.BOUNDS
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
              'coverage': cov,
              'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
              'wall_s': round(time.time() - t0, 3),
              'violations': len(unlisted)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.{}.{}.tmp'.format(pid, os.getpid()))
        with open(tmp, 'w') as fp:
            json.dump(ev, fp, indent=1, default=repr)
        os.replace(tmp, os.path.join(d, pid + '.json'))
        print('{} {} cases={} evaluations={} outcomes={} states={} '
              'transitions={} traces={} wall={:.1f}s violations={}'.format(
                  pid, tier, n_cases, total.n, len(total.sigs),
                  len(total.states), total.trans, total.traces,
                  time.time() - t0, len(unlisted)))
    return rc
