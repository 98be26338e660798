#!/usr/bin/env python3
"""Mutation of the code under test: every small syntactic change (operators,
comparisons, constants, arguments, conditions, statements) is applied alone to
a copy of /repo; if the stable tests still pass, the checks of the file are
run until one reports a violation.

  tools/mutate.py list [files]      the mutants
  tools/mutate.py run OUT JOBS [files]   run them, one JSON line each in OUT
"""
import ast
import warnings
import json
import os
import shutil
import subprocess
import sys
import tempfile
from multiprocessing import Pool

warnings.simplefilter("ignore")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'kamrecsys/'
FILES = {
 K + 'data/base.py': 'C01 C03 C04 C16 C36 C10',
 K + 'data/event.py': 'C01 C03 C04 C09 C36 C07 C15 C16 C02 C39',
 K + 'data/event_with_score.py': 'C05 C06 C03 C04 C07 C01 C16 C02 C39',
 K + 'datasets/base.py': 'C07 C08 C03',
 K + 'datasets/movielens.py': 'C08 C07',
 K + 'datasets/flixster.py': 'C08 C07',
 K + 'datasets/sushi3.py': 'C08 C07',
 K + 'datasets/others.py': 'C08 C07',
 K + 'base/base.py': 'C09 C10 C14 C15 C16 C13 C11 C18 C36 C20',
 K + 'base/__init__.py': 'C01 C09',
 K + 'item_finder/base.py': 'C17 C18 C15 C09 C11 C14 C13 C16 C10 C36',
 K + 'score_predictor/base.py': 'C09 C20 C15 C11 C14 C13 C16 C10 C36',
 K + 'item_finder/matrix_factorization.py':
     'C09 C11 C12 C13 C17 C18 C14 C15 C16 C10 C36 C38',
 K + 'score_predictor/matrix_factorization.py':
     'C09 C11 C12 C13 C14 C15 C16 C10 C36 C38',
 K + 'score_predictor/topic_model.py':
     'C19 C20 C21 C14 C15 C13 C16 C10 C36 C38',
 K + 'metrics/base.py': 'C26 C23 C24 C05 C22 C35',
 K + 'metrics/item_finder.py': 'C24 C35',
 K + 'metrics/real.py': 'C22 C25 C26 C23 C24 C35',
 K + 'metrics/score_predictor.py': 'C23 C35 C22 C26',
 K + 'model_selection/split.py': 'C27 C28 C29 C30',
 K + 'utils/base.py': 'C32 C17 C18 C13',
 K + 'utils/kamexputils.py': 'C31 C32 C34 C35',
 K + 'utils/kammath.py': 'C32 C09 C11',
 'scripts/exp_recsys_fold_merge.py': 'C33 C34',
 'scripts/exp_recsys_if.py': 'C34 C33',
 'scripts/exp_recsys_sp.py': 'C34 C33',
 'scripts/exp_recsys_util.py': 'C34 C33',
 'scripts/stats_recsys.py': 'C35',
 'data/flixster.py': 'C08', 'data/movielens100k.py': 'C08',
 'data/movielens1m.py': 'C08', 'data/movielens_mini.py': 'C08',
 'data/sushi3.py': 'C08',
}
CMP = {'Lt': ['<='], 'LtE': ['<'], 'Gt': ['>='], 'GtE': ['>'], 'Eq': ['!='],
       'NotEq': ['=='], 'Is': ['is not'], 'IsNot': ['is'],
       'In': ['not in'], 'NotIn': ['in']}
BIN = {'Add': ['-'], 'Sub': ['+'], 'Mult': ['/'], 'Div': ['*'],
       'FloorDiv': ['/'], 'Mod': ['//'], 'Pow': ['*'], 'BitAnd': ['|'],
       'BitOr': ['&']}
SKIPCALL = {'print', 'info', 'debug', 'warning', 'error', 'warn', 'append'}


def mutants(path):
    src = open(path, encoding='utf-8').read()
    lines = src.split('\n')
    starts = [0]
    for li in lines:
        starts.append(starts[-1] + len(li) + 1)

    def off(line, col):
        b = lines[line - 1].encode()[:col].decode()
        return starts[line - 1] + len(b)

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno,
                                                n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []
    tree = ast.parse(src)

    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((n.lineno, what, a, b, new))

    def visit(node, infun):
        if isinstance(node, ast.If) and (
                '__name__' in text(node.test) or
                'logger' in text(node.test) or '--help' in text(node.test)):
            return
        if isinstance(node, ast.FunctionDef) and node.name == '_test':
            return
        if isinstance(node, ast.Call) and text(node.func) == 'print' and \
                path.startswith('/repo/data/') and '# ' in text(node)[:300]:
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP[type(node.ops[0]).__name__]:
                add(node, '(%s %s %s)' % (text(node.left), o,
                                          text(node.comparators[0])),
                    'cmp ' + o)
        elif isinstance(node, ast.BinOp):
            if not isinstance(node.left, ast.Constant) or \
                    not isinstance(node.left.value, str):
                for o in BIN.get(type(node.op).__name__, []):
                    add(node, '(%s %s %s)' % (text(node.left), o,
                                              text(node.right)), 'bin ' + o)
        elif isinstance(node, ast.BoolOp):
            o = 'or' if isinstance(node.op, ast.And) else 'and'
            add(node, '(' + (' %s ' % o).join(
                '(%s)' % text(x) for x in node.values) + ')', 'bool ' + o)
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, (ast.Not, ast.USub)):
                add(node, '(%s)' % text(node.operand), 'drop unary')
        elif isinstance(node, ast.Constant) and infun:
            v = node.value
            if v is True or v is False:
                add(node, str(not v), 'const')
            elif isinstance(v, int):
                add(node, str(v + 1), 'const+1')
                if v:
                    add(node, str(v - 1), 'const-1')
            elif isinstance(v, float):
                add(node, repr(v * 2 if v else 1.0), 'const*2')
        elif isinstance(node, ast.Call):
            f = node.func
            name = f.attr if isinstance(f, ast.Attribute) else \
                getattr(f, 'id', '')
            if isinstance(f, ast.Attribute) and name in (
                    'copy', 'astype', 'ravel', 'tolist', 'strip', 'lower',
                    'flatten') :
                add(node, text(f.value), 'drop .' + name)
            if name in ('deepcopy', 'array', 'asarray', 'asanyarray',
                        'atleast_1d', 'atleast_2d', 'sorted', 'list',
                        'unique', 'ascontiguousarray', 'copy', 'float',
                        'int', 'abs') and node.args:
                if not (isinstance(f, ast.Attribute) and name == 'copy'
                        and text(f.value) not in ('copy', 'np')):
                    add(node, text(node.args[0]), 'drop %s()' % name)
            if len(node.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in node.args):
                a, b = node.args[:2]
                if text(a) != text(b):
                    s0, e1 = span(a)[0], span(b)[1]
                    out.append((node.lineno, 'swap args', s0, e1,
                                text(b) + src[span(a)[1]:span(b)[0]] +
                                text(a)))
            for kw in node.keywords:
                if kw.arg and name not in ('add_argument', 'set_defaults'):
                    a = off(kw.lineno, kw.col_offset)
                    b = span(kw.value)[1]
                    # remove with the comma in front or behind
                    j = b
                    while src[j] in ' \n\t':
                        j += 1
                    if src[j] == ',':
                        out.append((kw.lineno, 'drop kw ' + kw.arg, a, j + 1,
                                    ''))
                    else:
                        i = a
                        while src[i - 1] in ' \n\t':
                            i -= 1
                        if src[i - 1] == ',':
                            i -= 1
                        out.append((kw.lineno, 'drop kw ' + kw.arg, i, b, ''))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)) and infun:
            add(node.test, '(%s) and False' % text(node.test)
                if not isinstance(node, ast.IfExp) else 'False', 'if False')
            if not isinstance(node, ast.While):
                add(node.test, 'True', 'if True')
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                             ast.Continue, ast.Break, ast.Delete)) and infun:
            if isinstance(node, ast.Expr):
                if isinstance(node.value, ast.Constant):
                    return
                if isinstance(node.value, ast.Call):
                    f = node.value.func
                    name = f.attr if isinstance(f, ast.Attribute) else \
                        getattr(f, 'id', '')
                    if name in SKIPCALL - {'append'} or \
                            name == 'add_argument':
                        return
            add(node, 'pass', 'drop statement')
        for c in ast.iter_child_nodes(node):
            visit(c, infun or isinstance(node, (ast.FunctionDef,
                                                ast.Lambda)))
    visit(tree, False)
    res = []
    for line, what, a, b, new in sorted(set(out)):
        m = src[:a] + new + src[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((line, what, a, b, new, ' '.join(src[a:b].split())))
    return res


ST = r'''
cd $1; export HOME=$2 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8
timeout 100 /opt/venv/bin/python -m pytest -q -p no:cacheprovider \
 --timeout=60 --continue-on-collection-errors --tb=line -o \
 junit_family=xunit2 --junitxml=$2/junit.xml kamrecsys >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py $2/o.json junit:$2/junit.xml >/dev/null 2>&1
'''
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def stable(repo, tmp):
    subprocess.run(['bash', '-c', ST, 'x', repo, tmp])
    try:
        o = json.load(open(tmp + '/o.json'))
    except (OSError, ValueError):
        return False
    return BASE <= set(o['passed'])


def init():
    global W
    W = tempfile.mkdtemp(prefix='mut-')
    shutil.copytree('/repo', W + '/repo', symlinks=True)
    subprocess.run(['git', 'clone', '-q', V, W + '/verif'], check=True)


def run(job):
    f, line, what, a, b, new, old = job
    p = os.path.join(W, 'repo', f)
    src = open('/repo/' + f, encoding='utf-8').read()
    r = dict(file=f, line=line, what=what, a=a, b=b, old=old[:120],
             new=' '.join(new.split())[:120])
    try:
        open(p, 'w', encoding='utf-8').write(src[:a] + new + src[b:])
        if not stable(W + '/repo', W):
            r['res'] = 'tests'
            return r
        r['odd'] = []
        for c in FILES[f].split():
            try:
                q = subprocess.run(
                    [W + '/verif/check', c, 'quick'], text=True,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=600, env=dict(os.environ, MC_REPO=W + '/repo',
                                          MC_JOBS='1', MC_CASE_TIMEOUT='60', MC_FAILS='1'))
            except subprocess.TimeoutExpired:
                r['odd'].append(c + ' timeout')
                continue
            if q.returncode == 1 and 'VIOLATION property=' + c in q.stdout:
                r['res'] = c
                return r
            if q.returncode:
                r['odd'].append('%s rc=%d' % (c, q.returncode))
        r['res'] = 'SURVIVED'
        return r
    finally:
        open(p, 'w', encoding='utf-8').write(src)
        shutil.rmtree(W + '/verif/replays', ignore_errors=True)
        os.makedirs(W + '/verif/replays')


def main():
    files = sys.argv[2:] if sys.argv[1] == 'list' else sys.argv[4:]
    jobs = []
    for f in files or sorted(FILES):
        for m in mutants('/repo/' + f):
            jobs.append((f,) + m)
    if sys.argv[1] == 'list':
        from collections import Counter
        for k, v in sorted(Counter(j[0] for j in jobs).items()):
            print(v, k)
        print(len(jobs))
        return
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        for li in open(out):
            d = json.loads(li)
            done.add((d['file'], d['line'], d['what'], d['a'], d['b']))
    # a sample: each n-th mutant of the kinds that are rarely equivalent
    n = int(os.environ.get('MUT_EVERY', 1))
    if n > 1:
        jobs = [j for j in jobs
                if j[2] not in ('swap args', 'drop kw dtype')][::n]
    jobs = [j for j in jobs if j[:5] not in done]
    print(len(jobs), 'to do', flush=True)
    with Pool(int(sys.argv[3]), initializer=init) as pool:
        for r in pool.imap_unordered(run, jobs):
            with open(out, 'a') as fh:
                fh.write(json.dumps(r) + '\n')


main()
