"""The same computation in several processes that differ in what must not
matter: the seed of the hashes of strings and the working directory."""
import os
import subprocess
import sys

from . import core
from .core import expect

SEEDS = ('0', '1', '4711', '123456789')
MAIN = ("import sys, json; sys.path.insert(0, {0!r}); from mc import env; "
        "env.setup(); import importlib; m = importlib.import_module({1!r}); "
        "sys.stdout.write(json.dumps(m.digest(json.loads({2!r}))))")


def environ(seed):
    return dict(os.environ, PYTHONHASHSEED=seed, MC_REPO=core.REPO,
                OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def digests(module, arg, t, seeds=SEEDS):
    """module.digest(arg) -> dict of strings, equal in every process"""
    import json
    run = []
    for n, s in enumerate(seeds):
        r = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c', MAIN.format(
                core.VERIF, module, json.dumps(arg))],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environ(s),
            cwd=(core.VERIF, os.environ['MC_SCRATCH'])[n % 2])
        run.append(r)
    out = []
    for s, r in zip(seeds, run):
        o, e = r.communicate(timeout=200)
        expect(r.returncode == 0, 'process-failed', 'hash seed %s: %s' % (
            s, e.decode('utf-8', 'replace')[-400:]))
        out.append(json.loads(o.decode('utf-8')))
    for s, o in zip(seeds[1:], out[1:]):
        bad = sorted(k for k in set(o) | set(out[0])
                     if o.get(k) != out[0].get(k))
        expect(not bad, 'differs-between-processes',
               'hash seeds %s and %s' % (seeds[0], s), what=bad[:4])
        t.ev(len(o))
    for k, v in out[0].items():
        t.sig((k, v))
    return out[0]


def sha(*objs):
    import hashlib
    from . import ref
    return hashlib.sha256(repr(ref.snapshot(*objs)).encode()).hexdigest()
