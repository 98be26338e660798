"""Reference of the topic model: one exact EM step in plain Python."""
import math

import numpy as np


class Ref(object):

    def __init__(self, case, alpha, k, levels):
        """case: models.Case; levels: score levels of the domain"""
        self.c, self.alpha, self.k = case, alpha, k
        self.levels = levels
        self.us = case.objects(case.types[0])
        self.it = case.objects(case.types[1])
        self.obs = []
        for (u, i), s in zip(case.pairs(), case.score):
            r = min(range(len(levels)), key=lambda j: abs(levels[j] - s))
            self.obs.append((u, i, r))

    def read(self, m):
        """published parameters in terms of external ids"""
        c = self.c
        pz = [float(x) for x in np.asarray(m.pZ_)]
        px = {u: [float(x) for x in m.pXgZ_[m.to_iid(c.types[0], u)]]
              for u in self.us}
        py = {i: [float(x) for x in m.pYgZ_[m.to_iid(c.types[1], i)]]
              for i in self.it}
        pr = [[float(x) for x in row] for row in np.asarray(m.pRgZ_)]
        return pz, px, py, pr

    def joint(self, par, u, i, r):
        pz, px, py, pr = par
        return [pz[z] * px[u][z] * py[i][z] * pr[r][z]
                for z in range(self.k)]

    def loss(self, par):
        return -math.fsum(math.log(math.fsum(self.joint(par, u, i, r)))
                          for u, i, r in self.obs) / len(self.obs)

    def penalised(self, par):
        """log likelihood plus log of the Dirichlet priors"""
        pz, px, py, pr = par
        a = self.alpha
        tot = [-self.loss(par) * len(self.obs)]
        for v in [pz] + list(px.values()) + list(py.values()) + pr:
            tot.extend(a * math.log(x) for x in v)
        return math.fsum(tot)

    def step(self, par):
        k, a = self.k, self.alpha
        q = []
        for u, i, r in self.obs:
            j = self.joint(par, u, i, r)
            s = math.fsum(j)
            q.append([x / s for x in j])
        return self.maximise(q)

    def maximise(self, q):
        k, a = self.k, self.alpha
        nx = {u: [a] * k for u in self.us}
        ny = {i: [a] * k for i in self.it}
        nr = [[a] * k for _ in self.levels]
        nz = [a] * k
        for (u, i, r), w in zip(self.obs, q):
            for z in range(k):
                nx[u][z] += w[z]
                ny[i][z] += w[z]
                nr[r][z] += w[z]
                nz[z] += w[z]
        tx = [math.fsum(nx[u][z] for u in self.us) for z in range(k)]
        ty = [math.fsum(ny[i][z] for i in self.it) for z in range(k)]
        tr = [math.fsum(row[z] for row in nr) for z in range(k)]
        tz = math.fsum(nz)
        return ([x / tz for x in nz],
                {u: [nx[u][z] / tx[z] for z in range(k)] for u in self.us},
                {i: [ny[i][z] / ty[z] for z in range(k)] for i in self.it},
                [[row[z] / tr[z] for z in range(k)] for row in nr])

    def flat(self, par):
        pz, px, py, pr = par
        return np.array(list(pz) + [x for u in self.us for x in px[u]] +
                        [x for i in self.it for x in py[i]] +
                        [x for row in pr for x in row])

    def consistent(self, par):
        """the invariant of every state after a maximisation step: the
        expected counts add up to the observed counts.  -> message or None"""
        pz, px, py, pr = par
        k, a, n = self.k, self.alpha, len(self.obs)
        for name, v in (('Z', [sum(pz)]),
                        ('X|Z', [sum(px[u][z] for u in self.us)
                                 for z in range(k)]),
                        ('Y|Z', [sum(py[i][z] for i in self.it)
                                 for z in range(k)]),
                        ('R|Z', [sum(row[z] for row in pr)
                                 for z in range(k)])):
            if any(abs(x - 1) > 1e-9 for x in v):
                return 'Pr[%s] is not normalised: %r' % (name, v)
        if any(x <= 0 or x > 1 + 1e-12 for x in self.flat(par)):
            return 'a probability is not positive'
        nz = [x * (n + k * a) - a for x in pz]
        for objs, p, col, name in ((self.us, px, 0, 'user'),
                                   (self.it, py, 1, 'item')):
            for o in objs:
                got = math.fsum(p[o][z] * (nz[z] + len(objs) * a) - a
                                for z in range(k))
                want = sum(1 for e in self.obs if e[col] == o)
                if abs(got - want) > 1e-7 * max(1, n):
                    return 'expected count of %s %r is %r, not %r' % (
                        name, o, got, want)
        for r in range(len(self.levels)):
            got = math.fsum(pr[r][z] * (nz[z] + len(self.levels) * a) - a
                            for z in range(k))
            want = sum(1 for e in self.obs if e[2] == r)
            if abs(got - want) > 1e-7 * max(1, n):
                return 'expected count of score %r is %r, not %r' % (
                    self.levels[r], got, want)
        return None

    def predict(self, par, u, i, mode):
        """expected score, or the set of most probable scores"""
        pz, px, py, pr = par
        one = [1.] * self.k
        x, y = px.get(u, one), py.get(i, one)
        w = [math.fsum(pz[z] * x[z] * y[z] * row[z] for z in range(self.k))
             for row in pr]
        s = math.fsum(w)
        if not mode:
            return math.fsum(a * b for a, b in zip(w, self.levels)) / s
        top = max(w)
        return [lv for lv, v in zip(self.levels, w)
                if v >= top * (1 - 1e-9)]
