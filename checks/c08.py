"""C08: named data sets equal the distributed files they are converted from."""
import io
import os
import pickle
import runpy
import shutil
import subprocess
import sys

import numpy as np

from checks import c07
from mc import core, ref
from mc.core import expect

LEVEL = 'exploration'
RULE = ('for each converter: every small set of original files (all values '
        'of every categorical attribute, all pairs of genres, every '
        'character of the source encoding, all orders and subsets of rated '
        'objects) is written in the distributed format into a scratch copy '
        'of the code, converted by the script, loaded by the named loader, '
        'and compared with a list model built from the same table.  '
        'Non-trivial: a distinct table.')
BOUNDS = {'quick': '<=4 users, <=4 items (40 items for attribute sweeps)',
          'thorough': 'as quick, with all event matrices of 3x3 objects'}
ASSUMPTIONS = ['titles contain neither the separators of the distributed '
               'format nor the comment character #',
               'every rated object is described in the feature files']

OCC = ['none', 'other', 'administrator', 'artist', 'doctor', 'educator',
       'engineer', 'entertainment', 'executive', 'healthcare', 'homemaker',
       'lawyer', 'librarian', 'marketing', 'programmer', 'retired',
       'salesman', 'scientist', 'student', 'technician', 'writer']
MONTH = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
         'Oct', 'Nov', 'Dec']
GENRE = ["Action", "Adventure", "Animation", "Children's", "Comedy", "Crime",
         "Documentary", "Drama", "Fantasy", "Film-Noir", "Horror", "Musical",
         "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western"]
AGE = ['1', '18', '25', '35', '45', '50', '56']
CP1252 = [bytes([b]).decode('cp1252') for b in range(0xA1, 0x100)] + [
    bytes([b]).decode('cp1252') for b in range(0x80, 0xA0)
    if b not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)] + list("!\"'$%&()*+,-./;<>?@")
ZIP = ['85711', '00501', 'T8H1N', '94043', '9999', 'V3N4P']


def cases(tier):
    for s in ('movielens100k', 'movielens1m', 'sushi3', 'flixster'):
        for j in range(24):
            yield {'set': s, 'events': j, 'th': tier == 'thorough'}
        for j in range(12):
            yield {'set': s, 'sweep': j}
        for j in range(4):
            # under a locale whose encoding is ASCII
            yield {'set': s, 'sweep': j, 'ascii': True}
        for n in (257, 1100):
            yield {'set': s, 'large': n}
    yield {'set': 'tables', 'events': 0, 'th': False}
    for j in range(8):
        yield {'set': 'mini', 'events': j, 'th': tier == 'thorough'}
        yield {'set': 'pci', 'events': j, 'th': tier == 'thorough'}


_root = {}


def root():
    """one copy of the code per process, and the modules imported from it"""
    pid = os.getpid()
    if _root.get('pid') == pid:
        return _root['path']
    r = os.path.join(os.environ['MC_SCRATCH'], 'repo%d' % pid)
    os.makedirs(r)
    for d in ('kamrecsys', 'data'):
        shutil.copytree(os.path.join(core.REPO, d), os.path.join(r, d),
                        ignore=shutil.ignore_patterns('__pycache__',
                                                      'tests'))
    for k in [k for k in sys.modules if k.split('.')[0] == 'kamrecsys']:
        del sys.modules[k]
    sys.path.insert(0, r)
    import kamrecsys.datasets as ds
    if not os.path.realpath(ds.__file__).startswith(os.path.realpath(r)):
        raise RuntimeError('imported from a wrong place')
    _root.update(pid=pid, path=r, ds=ds)
    return r


def write(name, text, encoding='utf-8'):
    with io.open(os.path.join(root(), 'data', name), 'w', newline='',
                 encoding=encoding) as f:
        f.write(text)


ASCII = dict(os.environ, LC_ALL='C', LANG='C', PYTHONUTF8='0',
             PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8')
LOAD = """
import sys, pickle, locale
sys.path.insert(0, sys.argv[1])
import kamrecsys.datasets as ds
if 'utf' in locale.getpreferredencoding(False).lower():
    sys.exit(3)
with open(sys.argv[3], 'wb') as f:
    pickle.dump(getattr(ds, sys.argv[2])(), f)
"""


def sub(args):
    q = subprocess.run([sys.executable, '-W', 'ignore'] + args, env=ASCII,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode == 3:
        raise RuntimeError('no ASCII locale')
    expect(q.returncode == 0, 'ascii-locale', args[0][:40] + ' fails: ' +
           q.stdout.decode('utf-8', 'replace')[-300:])


def load(name, how, arg=None):
    """load by the named loader in one of the documented ways"""
    f = getattr(_root['ds'], name)
    if how == 'ascii':
        out = os.path.join(root(), 'pickled')
        sub(['-c', LOAD, root(), name, out])
        with open(out, 'rb') as h:
            return pickle.load(h)
    data = os.path.join(root(), 'kamrecsys', 'datasets', 'data')
    if arg is None or how == 0:
        c07.spoil(f())      # data loaded earlier belong to their owner
        return f()
    path = os.path.join(root(), 'moved.event')
    shutil.move(os.path.join(data, arg), path)
    if how == 1:
        return f(path)
    with open(path, 'rb') as h:
        return f(infile=h)


def convert(script, how):
    """run the converter as a script in one of the documented ways"""
    r = root()
    if how == 'ascii':
        data = os.path.join(r, 'kamrecsys', 'datasets', 'data')
        for f in os.listdir(data):
            if f != 'readme.md':
                os.remove(os.path.join(data, f))
        sub([os.path.join(r, 'data', script)])
        return
    argv, cwd = sys.argv, os.getcwd()
    data = os.path.join(r, 'kamrecsys', 'datasets', 'data')
    for f in os.listdir(data):
        if f != 'readme.md':
            os.remove(os.path.join(data, f))
    target = None
    path = os.path.join(r, 'data', script)
    try:
        if how == 1:
            os.chdir(os.path.join(r, 'data'))
            path = script
        sys.argv = [path]
        if how == 2:
            target = os.path.join(r, 'target')
            shutil.rmtree(target, ignore_errors=True)
            os.mkdir(target)
            if script == 'movielens_mini.py':
                shutil.copy(os.path.join(r, 'src.event'), os.path.join(
                    target, 'movielens100k.event'))
            sys.argv.append(target)
        elif script == 'movielens_mini.py':
            shutil.copy(os.path.join(r, 'src.event'), os.path.join(
                data, 'movielens100k.event'))
        runpy.run_path(path, run_name='__main__')
    finally:
        sys.argv = argv
        os.chdir(cwd)
    if target is not None:
        expect(os.listdir(data) in ([], ['readme.md']), 'wrong-directory')
        for f in os.listdir(target):
            shutil.copy(os.path.join(target, f), data)


def pairs(users, items, j, th):
    """lists of events: (user, item) index pairs"""
    grid = [(u, i) for u in range(users) for i in range(items)]
    n = len(grid)
    out = []
    for m in range(1, 2 ** min(n, 9)):
        ev = [grid[k] for k in range(min(n, 9)) if m >> k & 1]
        if m % 3 == 1:
            ev = ev[::-1]
        out.append(ev)
    if not th:
        out = out[::7] + out[-1:]
    return out[j % 8::8]


def run(case, t):
    kind = case['set']
    if 'sweep' in case:
        tables = [sweep(kind, case['sweep'])]
    elif 'large' in case:
        n = case['large']
        tables = [(n, n, [(u, (u * 7 + k) % n) for u in range(n)
                          for k in range(2)], 100)]
    else:
        tables = [(3, 3, ev, case['events'])
                  for ev in pairs(3, 3, case['events'], case['th'])]
        if case['events'] >= 8:
            tables = tables[:4]
    for n, (users, items, ev, salt) in enumerate(tables):
        globals()[kind](users, items, ev, salt,
                        'ascii' if case.get('ascii') else (n + salt) % 3, t)
        t.ev()
        t.sig((kind, users, items, tuple(ev), salt))
    t.sample({'set': kind, 'users': users, 'items': items, 'events': ev[:6]})


def sweep(kind, j):
    """many objects, so that all the values of the attributes occur"""
    n = 42
    ev = [(u, (u * 5 + j + k) % n) for u in range(n) for k in range(2)]
    return (n, n, ev, 100 + j)


def judge(x, ev, ft, sc, dom, users, items, where):
    r = ref.RefData(2, (0, 1))
    r.set_event(ev, ft, sc, dom)
    for o, f in ((0, users), (1, items)):
        if f is not None:
            r.feature[o] = {e: v for e, v in f.items() if e in r.objects(o)}
    ref.compare(x, r, where=where)


def uid(u, salt):
    """different for all objects of a table (by a permutation of a prime)"""
    if salt < 100:
        return [3, 10, 1][u]
    return (u * 17 + salt) % 43 + 1 if u < 42 else (u * 17) % 6037 + 1000


def iid(i, salt):
    if salt < 100:
        # 3845 is treated in a special way by the converter of movielens1m
        return [7, 2, 3845][i] if salt % 3 else [7, 2, 11][i]
    return (i * 5 + salt) % 43 + 1 if i < 42 else (i * 5) % 7919 + 10000


def title(i, salt, end, width):
    t = _title(i, salt) + end
    if len(t) > width:
        t = _title(i, salt)[:width - len(end)] + end
    return t


def _title(i, salt):
    c = CP1252[(i + salt * 42) % len(CP1252)]
    return ('Mov%se, The' % c, 'L%s' % (c * 3), c + ' x ' + c,
            'Plain', (c + 'abcdefg ') * 9)[(i + salt) % 5]


def movielens100k(users, items, ev, salt, how, t):
    rows = [(uid(u, salt), iid(i, salt), 1 + (u * 2 + i) % 5,
             881250949 + 7 * k) for k, (u, i) in enumerate(ev)]
    write('u.data', ''.join('%d\t%d\t%d\t%d\n' % r for r in rows))
    uf, txt = {}, []
    for u in range(users):
        g, o = (u + salt) % 2, (u + salt) % 21
        z = ZIP[(u + salt) % 6]
        txt.append('%d|%d|%s|%s|%s\n' % (uid(u, salt), 7 + u, 'MF'[g],
                                         OCC[o], z))
        uf[uid(u, salt)] = (7 + u, g, o, z)
    write('u.user', ''.join(txt))
    itf, txt = {}, []
    for i in range(items):
        g = [0] * 18
        g[(i + salt) % 18] = 1
        g[(i * 5 + salt) % 18] = 1
        name = title(i, salt, ' (19%02d)' % ((i + salt) % 100), 81)
        if (i + salt) % 11 == 3:
            date, ds = (0, 0, 0), ''
        else:
            date = (1 + (i * 3 + salt) % 28, 1 + (i + salt) % 12, 1922 + i)
            ds = '%02d-%s-%d' % (date[0], MONTH[date[1] - 1], date[2])
        url = 'http://us.imdb.com/M/title-exact?%%20(%d)' % i
        if i % 7 == 2:
            url = url.ljust(134, 'x')
        if (i + salt) % 13 == 5:
            url = ''
        txt.append('|'.join([str(iid(i, salt)), name, ds, '', url,
                             str(int(not any(g)))] + [str(x) for x in g]) +
                   '\n')
        itf[iid(i, salt)] = (name, date[0], date[1], date[2], tuple(g), url)
    write('u.item', ''.join(txt), 'cp1252')
    convert('movielens100k.py', how)
    judge(load('load_movielens100k', how, 'movielens100k.event'), [r[:2] for r in rows],
          [(r[3],) for r in rows], [float(r[2]) for r in rows],
          (1., 5., 1.), uf, itf, 'movielens100k %r' % (rows[:5],))


def movielens1m(users, items, ev, salt, how, t):
    rows = [(uid(u, salt), iid(i, salt), 1 + (u * 2 + i) % 5,
             978300760 + 7 * k) for k, (u, i) in enumerate(ev)]
    write('ratings.dat', ''.join('%d::%d::%d::%d\n' % r for r in rows))
    uf, txt = {}, []
    for u in range(users):
        g, a, o = (u + salt) % 2, (u + salt) % 7, (u * 2 + salt) % 21
        z = (ZIP + ['98107-2117'])[(u + salt) % 7]
        txt.append('%d::%s::%s::%d::%s\n' % (uid(u, salt), 'MF'[g], AGE[a],
                                             o, z))
        uf[uid(u, salt)] = (g, a, o, z[:5])
    write('users.dat', ''.join(txt))
    itf, txt = {}, []
    for i in range(items):
        g = [0] * 18
        g[(i + salt) % 18] = 1
        g[(i * 5 + salt) % 18] = 1
        y = 1919 + (i + salt) % 80
        name = title(i, salt, (' (1900) (%d)' if i % 5 == 2 else
                               ' (%d)') % y, 82)
        raw = name
        if iid(i, salt) == 3845:
            # the character that the distributed file has as an entity
            raw = 'Cr&#8230;a (Femme) (%d)' % y
            name = u'Cr\u2026a (Femme) (%d)' % y
        txt.append('%d::%s::%s\n' % (iid(i, salt), raw, '|'.join(
            [GENRE[k] for k in range(18) if g[k]][::-1 if i % 2 else 1])))
        itf[iid(i, salt)] = (name, y, tuple(g))
    write('movies.dat', ''.join(txt), 'cp1252')
    convert('movielens1m.py', how)
    judge(load('load_movielens1m', how, 'movielens1m.event'), [r[:2] for r in rows],
          [(r[3],) for r in rows], [float(r[2]) for r in rows],
          (1., 5., 1.), uf, itf, 'movielens1m %r' % (rows[:5],))


def sushi3(users, items, ev, salt, how, t):
    mat = [[-1] * items for _ in range(users)]
    for u, i in ev:
        mat[u][i] = (u * 2 + i + salt) % 5
    write('sushi3b.5000.10.score', ''.join(
        ' '.join(str(x) for x in r) + '\n' for r in mat))
    rows = [(u, i, float(mat[u][i])) for u in range(users)
            for i in range(items) if mat[u][i] >= 0]
    uf, txt = {}, []
    for u in range(users):
        v = (1000 + 3 * u + salt, u % 2, u % 6, 100 + u, (u + salt) % 48,
             (u + salt) % 12, (u // 2) % 2, (u * 5) % 48, (u * 7) % 12,
             (u // 3) % 2, (u + salt) % 2)
        uf[u] = v
        txt.append('\t'.join(str(x) for x in v) + '\n')
    write('sushi3.udata', ''.join(txt))
    itf, txt = {}, []
    jp = [u'\u3042\u306a\u3054', u'\u307e\u3050\u308d', 'ebi',
          u'\u3044\u304b x', u'\u9bad(\u7a4d)']
    for i in range(items):
        v = ((jp[(i + salt) % 5] + str(i)).ljust(20, jp[i % 4][0])
             if i % 3 == 0 else jp[(i + salt) % 5] + str(i), i % 2, (i // 2) % 2,
             (i + salt) % 12, 2.5 - i * 0.0625, 0.25 * (i % 13),
             1 + i / 16., (i % 8) / 8.)
        itf[i] = v
        txt.append('\t'.join([str(i)] + [
            x if isinstance(x, str) else repr(x) for x in v]) + '\n')
    write('sushi3.idata', ''.join(txt))
    convert('sushi3.py', how)
    judge(load('load_sushi3b_score', how, 'sushi3b_score.event'), [r[:2] for r in rows], None,
          [r[2] for r in rows], (0., 4., 1.), uf, itf, 'sushi3 %r' % rows[:5])


def flixster(users, items, ev, salt, how, t):
    rows = [(uid(u, salt), iid(i, salt), .5 + .5 * ((u * 2 + i + salt) % 10))
            for u, i in ev]
    write('ratings.txt', ''.join('%d\t%d\t%.1f\n' % r for r in rows))
    convert('flixster.py', how)
    judge(load('load_flixster_rating', how, 'flixster.event'), [r[:2] for r in rows], None,
          [r[2] for r in rows], (.5, 5., .5), None, None,
          'flixster %r' % rows[:5])


def mini(users, items, ev, salt, how, t):
    # ids around the threshold 10 of the subset; the feature files are those
    # of the full data set
    us, its = [1, 10, 11], [9, 100, 10]
    rows = [(us[u], its[i], 1 + (u + i) % 5, 881250949 + k)
            for k, (u, i) in enumerate(ev)] + [(2, 3, 4, 99)]
    text = '# comment\n' + ''.join('%d\t%d\t%d\t%d\n' % r for r in rows)
    with open(os.path.join(root(), 'src.event'), 'w') as f:
        f.write(text)
    convert('movielens_mini.py', how)
    data = os.path.join(root(), 'kamrecsys', 'datasets', 'data')
    uf, itf, tu, ti = {}, {}, [], []
    for u in us + [2]:
        uf[u] = (20 + u, u % 2, u % 21, '0%04d' % u)
        tu.append('%d\t%d\t%d\t%d\t%s\n' % ((u,) + uf[u]))
    for i in its + [3]:
        g = tuple(int(k == i % 18) for k in range(18))
        itf[i] = ('T%d (1995)' % i, 1, 2, 1990, g, 'http://x/%d' % i)
        ti.append('%d\t%s\t1\t2\t1990\t%s\t%s\n' % (
            i, itf[i][0], '\t'.join(str(x) for x in g), itf[i][5]))
    with open(os.path.join(data, 'movielens100k.user'), 'w') as f:
        f.write(''.join(tu))
    with open(os.path.join(data, 'movielens100k.item'), 'w') as f:
        f.write(''.join(ti))
    keep = [r for r in rows if r[0] <= 10 and r[1] <= 10]
    judge(_root['ds'].load_movielens_mini(), [r[:2] for r in keep],
          [(r[3],) for r in keep], [float(r[2]) for r in keep],
          (1., 5., 1.), uf, itf, 'mini %r' % rows)


def pci(users, items, ev, salt, how, t):
    us = ['Lisa Rose', 'Gene Seymour', 'Toby']
    its = ['Lady in the Water', 'Snakes on a Plane', 'Superman Returns']
    rows = [(us[u], its[i], 1 + .5 * ((u * 2 + i + salt) % 9))
            for u, i in ev]
    path = os.path.join(root(), 'kamrecsys', 'datasets', 'data', 'pci.event')
    if how == 2:
        path = os.path.join(root(), 'other.event')
    with open(path, 'w') as f:
        f.write(''.join('%s\t%s\t%g\n' % r for r in rows))
    x = (_root['ds'].load_pci_sample() if how != 2
         else _root['ds'].load_pci_sample(path))
    judge(x, [r[:2] for r in rows], None, [r[2] for r in rows],
          (1., 5., .5), None, None, 'pci %r' % rows)


def lines(text):
    return [x.strip() for x in text.strip().split(';')]


PREF = lines("""Hokkaido; Aomori; Iwate; Akita; Miyagi; Yamagata; Fukushima;
Niigata; Ibaraki; Tochigi; Gunma; Saitama; Chiba; Tokyo; Kanagawa; Yamanashi;
Shizuoka; Nagano; Aichi; Gifu; Toyama; Ishikawa; Fukui; Shiga; Mie; Kyoto;
Osaka; Nara; Wakayama; Hyogo; Okayama; Hiroshima; Tottori; Shimane; Yamaguchi;
Ehime; Kagawa; Tokushima; Kochi; Fukuoka; Nagasaki; Saga; Kumamoto; Kagoshima;
Miyazaki; Oita; Okinawa; non-Japan""")
OCC1M = lines("""Other or Not Specified; Academic/Educator; Artist;
Clerical/Admin; College/Grad Student; Customer Service; Doctor/Health Care;
Executive/Managerial; Farmer; Homemaker; K-12 Student; Lawyer; Programmer;
Retired; Sales/Marketing; Scientist; Self-Employed; Technician/Engineer;
Tradesman/Craftsman; Unemployed; Writer""")


def tables(users, items, ev, salt, how, t):
    """tables of names of the values of attributes"""
    ds = _root['ds']
    for info, key, names in (
            ('MOVIELENS100K_INFO', 'user_occupation', OCC),
            ('MOVIELENS100K_INFO', 'item_genre', GENRE),
            ('MOVIELENS1M_INFO', 'item_genre', GENRE),
            ('MOVIELENS1M_INFO', 'user_occupation', OCC1M),
            ('MOVIELENS1M_INFO', 'user_age', lines(
                'Under 18; 18-24; 25-34; 35-44; 45-49; 50-55; 56+')),
            ('SUSHI3_INFO', 'user_age', lines(
                '15-19; 20-29; 30-39; 40-49; 50-59; 60-')),
            ('SUSHI3_INFO', 'user_prefecture', PREF),
            ('SUSHI3_INFO', 'user_region', lines(
                """Hokkaido; Tohoku; Hokuriku; Kanto+Shizuoka;
                Nagano+Yamanashi; Chukyo; Kinki; Chugoku; Shikoku; Kyushu;
                Okinawa; non-Japan"""))):
        got = [str(x).lower() for x in getattr(ds, info)[key]]
        expect(got == [x.lower() for x in names], 'names',
               '%s %s: %r' % (info, key, got))
        t.ev()
