#!/usr/bin/env python3
"""Runs the checks of their properties on copies of /repo with each planted
bug: tools/plants.py [ids]; results go to tools/plants.json."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
OUT = os.path.join(T, 'plants.json')


def run(i):
    d = os.path.join(V, 'seeded', i)
    pid = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', '-C', repo, 'apply', d + '/patch.diff'],
                       check=True)
        r = subprocess.run([V + '/check', pid, 'quick'], text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, MC_REPO=repo))
        hit = r.returncode == 1 and 'VIOLATION property=' + pid in r.stdout
        return [pid] if hit else []
    finally:
        shutil.rmtree(tmp)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for i in list(res):
        if not os.path.exists(V + '/seeded/%s/patch.diff' % i):
            del res[i]
    for i in ids:
        res[i] = run(i)
        print(i, 'caught' if res[i] else 'MISSED', flush=True)
        json.dump(res, open(OUT, 'w'), indent=0, sort_keys=True)
    for f in os.listdir(V + '/replays'):
        if not f.startswith('.'):
            os.unlink(os.path.join(V, 'replays', f))


main()
