#!/usr/bin/env python3
"""Behaviour-preserving edits on which the checks have to stay quiet:
tools/refactor.py [batch] [checks].  Each batch is applied as a whole to a copy
of /repo, and the checks are run on it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = 'kamrecsys/data/event.py'
BD = 'kamrecsys/data/base.py'
ES = 'kamrecsys/data/event_with_score.py'
PM = 'kamrecsys/score_predictor/matrix_factorization.py'
LM = 'kamrecsys/item_finder/matrix_factorization.py'
TM = 'kamrecsys/score_predictor/topic_model.py'
BB = 'kamrecsys/base/base.py'
IB = 'kamrecsys/item_finder/base.py'
SB = 'kamrecsys/score_predictor/base.py'
SP = 'kamrecsys/model_selection/split.py'
MB = 'kamrecsys/metrics/base.py'
MR = 'kamrecsys/metrics/real.py'
MS = 'kamrecsys/metrics/score_predictor.py'
MI = 'kamrecsys/metrics/item_finder.py'
UB = 'kamrecsys/utils/base.py'
UE = 'kamrecsys/utils/kamexputils.py'
UM = 'kamrecsys/utils/kammath.py'
E1 = 'scripts/exp_recsys_sp.py'
E2 = 'scripts/exp_recsys_if.py'
EU = 'scripts/exp_recsys_util.py'
ST = 'scripts/stats_recsys.py'
FM = 'scripts/exp_recsys_fold_merge.py'

# batch -> list of (what, file, old, new); `old` may occur more than once
R = {}

R['A'] = [
 ('comprehension for loop', EV, """            new_ev = np.empty_like(ev, dtype=int)
            for e in xrange(self.s_event):
                iid = self.iid[self.event_otypes[e]]
                new_ev[:, e] = [iid.get(i, missing_values[e])
                                for i in ev[:, e]]
""", """            new_ev = np.array(
                [[self.iid[self.event_otypes[e]].get(
                    ev[i, e], missing_values[e])
                  for e in xrange(self.s_event)]
                 for i in xrange(ev.shape[0])],
                dtype=int).reshape(ev.shape)
"""),
 ('loop over columns with zip', EV, """            for e in xrange(self.s_event):
                new_data[:, e] = self.eid[self.event_otypes[e]][data[:, e]]
""", """            for e, otype in enumerate(self.event_otypes):
                new_data[:, e] = np.take(self.eid[otype], data[:, e])
"""),
 ('reordered statements', EV, """        self.n_events = self.event.shape[0]
        if event_feature is not None:
            self.event_feature = np.asarray(event_feature).copy()
        else:
            self.event_feature = None
""", """        self.event_feature = (
            None if event_feature is None else np.array(event_feature))
        self.n_events = len(self.event)
"""),
 ('ids by return_inverse', BD, """        eid = np.unique(event)
        iid = {k: i for (i, k) in enumerate(eid)}

        return len(eid), eid, iid
""", """        eid = np.unique(np.asarray(event).ravel())
        n_objects = eid.shape[0]
        iid = dict(zip(eid, range(n_objects)))

        return n_objects, eid, iid
"""),
 ('substitution table by searching', BD,
  """        table = np.tile(-1, orig_obj.shape)
        table[sub_index] = np.arange(sub_index.shape[0])

        return table
""", """        table = np.full(len(orig_obj), -1, dtype=int)
        for new, old in enumerate(sub_index):
            table[old] = new

        return table
"""),
 ('set_feature by a dictionary', BD, """        iid = self.iid[otype]
        index = np.repeat(len(eid), len(iid))
        for i, j in enumerate(eid):
            if j in iid:
                index[iid[j]] = i
        self.feature[otype] = np.asarray(feature)[index].copy()
""", """        row = {j: i for i, j in enumerate(eid)}
        index = [row.get(j, len(eid)) for j in self.eid[otype]]
        self.feature[otype] = np.asarray(feature)[np.array(index, dtype=int)]
"""),
 ('threshold computed elsewhere', ES, """            score_thresh = (
                float(self.score_domain[0]) + float(self.score_domain[1])) / 2

        self.score = np.where(self.score <= score_thresh, 0, 1)
        self.score_domain = np.array([0, 1, 1])
        self.n_score_levels = 2
""", """            low, high = (float(x) for x in self.score_domain[:2])
            score_thresh = low + (high - low) / 2

        self.n_score_levels = 2
        self.score_domain = np.array([0, 1, 1])
        self.score = (self.score > score_thresh).astype(int)
"""),
 ('digitize without a branch', ES, """        digitized_scores = score
        if digitized_scores is None:
            digitized_scores = np.digitize(self.score, bins) - 1
        else:
            digitized_scores = np.digitize(score, bins) - 1

        return digitized_scores
""", """        if score is None:
            score = self.score

        return np.searchsorted(bins, score, side='right') - 1
"""),
 ('bins as means of levels', MB, """    bins = generate_score_levels(score_domain)[:-1]
    bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])

    return bins
""", """    levels = generate_score_levels(score_domain)
    half = score_domain[2] / 2
    inner = [level + half for level in levels[:-1]]

    return np.array([-np.inf] + inner + [np.inf])
"""),
 ('levels with arange of all', MB, """    return np.hstack(
        [start + stride * np.arange(n_strides, dtype=float), end])
""", """    levels = np.empty(n_strides + 1, dtype=float)
    levels[:n_strides] = np.arange(n_strides) * stride + start
    levels[n_strides] = end

    return levels
"""),
 ('loss by einsum and dot', PM, """        esc = (mu[0] + bu[ev[:, 0]] + bi[ev[:, 1]] +
               np.sum(p[ev[:, 0], :] * q[ev[:, 1], :], axis=1))
        loss = np.sum((sc - esc)**2)

        # regularization term
        reg = (np.sum(bu**2) + np.sum(bi**2) + np.sum(p**2) + np.sum(q**2))

        return 0.5 * loss + 0.5 * self.C * reg
""", """        res = sc - (np.einsum('ij,ij->i', p[ev[:, 0]], q[ev[:, 1]]) +
                    bi[ev[:, 1]] + bu[ev[:, 0]] + mu[0])

        # regularization term
        reg = np.sum(coef[1:]**2)

        return (np.dot(res, res) + self.C * reg) / 2.
"""),
 ('gradient by add.at', PM, """        grad_bu[:] = np.bincount(
            ev[:, 0], weights=neg_res, minlength=n_users)
        grad_bi[:] = np.bincount(
            ev[:, 1], weights=neg_res, minlength=n_items)
""", """        np.add.at(grad_bu, ev[:, 0], neg_res)
        np.add.at(grad_bi, ev[:, 1], neg_res)
"""),
 ('keywords passed in another way', PM, """        res = minimize(
            fun=self.loss,
            x0=self._coef,
            args=(ev, sc, n_objects),
            method=optimizer_method,
            jac=self.grad_loss,
            **optimizer_kwargs)
""", """        res = minimize(
            lambda x: self.loss(x, ev, sc, n_objects), self._coef,
            jac=lambda x: self.grad_loss(x, ev, sc, n_objects),
            method=optimizer_method, **optimizer_kwargs)
"""),
 ('stack for r_', PM, """        self.bu_ = np.r_[self._coef.view(self._dt)['bu'][0], 0.0]
        self.bi_ = np.r_[self._coef.view(self._dt)['bi'][0], 0.0]
""", """        self.bu_ = np.append(self._coef.view(self._dt)['bu'][0], 0.0)
        self.bi_ = np.append(self._coef.view(self._dt)['bi'][0], 0.0)
"""),
 ('prediction by einsum', PM, """        return (self.mu_[0] + self.bu_[ev[:, 0]] + self.bi_[ev[:, 1]] +
                np.sum(self.p_[ev[:, 0], :] * self.q_[ev[:, 1], :],
                       axis=1))
""", """        users, items = ev[:, 0], ev[:, 1]
        cross = (self.p_[users] * self.q_[items]).sum(axis=1)

        return cross + (self.mu_[0] + self.bu_[users] + self.bi_[items])
"""),
 ('loss by sums over classes', LM, """        loss = - np.sum(sc * np.log(esc) + (1 - sc) * np.log(1 - esc))
""", """        loss = -(np.sum(np.log(esc[sc == 1])) +
                 np.sum(np.log(1 - esc[sc != 1])))
"""),
 ('matrix instead of loop over users', LM, """        loss = 0.0
        for i in xrange(n_users):
            evi = ev.getrow(i).toarray().reshape(-1)
            esc = sigmoid(
                mu[0] + bu[i] + bi[:] +
                np.sum(p[i, :][np.newaxis, :] * q, axis=1))
            loss = loss - np.sum(
                evi * np.log(esc) + (1 - evi) * np.log(1. - esc))
""", """        all_ev = ev.toarray()
        esc = sigmoid(mu[0] + bu[:, np.newaxis] + bi[np.newaxis, :] +
                      np.dot(p, q.T))
        loss = -np.sum(np.where(all_ev > 0, np.log(esc), np.log(1. - esc)))
"""),
 ('matrix gradient', LM, """        for i in xrange(n_users):
            evi = ev.getrow(i).toarray().reshape(-1)
            esc = sigmoid(
                mu[0] + bu[i] + bi[:] +
                np.sum(p[i, :][np.newaxis, :] * q, axis=1))
            common_term = esc - evi

            grad_mu[0] += np.sum(common_term)
            grad_bu[i] = np.sum(common_term)
            grad_bi[:] += common_term
            grad_p[i, :] = np.sum(common_term[:, np.newaxis] * q, axis=0)
            grad_q[:, :] += common_term[:, np.newaxis] * p[i, :][np.newaxis, :]
""", """        diff = sigmoid(mu[0] + bu[:, np.newaxis] + bi[np.newaxis, :] +
                       np.dot(p, q.T)) - ev.toarray()
        grad_mu[0] = diff.sum()
        grad_bu[:] = diff.sum(axis=1)
        grad_bi[:] = diff.sum(axis=0)
        grad_p[:, :] = diff.dot(q)
        grad_q[:, :] = diff.T.dot(p)
"""),
 ('helper for the m-step', TM, """        # p[r | z]
        self.pRgZ_ = (
            np.array([
                         np.bincount(
                             sc,
                             weights=self._q[:, k],
                             minlength=self.n_score_levels
                         ) for k in xrange(self.k)]).T +
            self.alpha)
        self.pRgZ_ /= self.pRgZ_.sum(axis=0, keepdims=True)

        # p[x | z]
        self.pXgZ_ = (
            np.array([
                         np.bincount(
                             ev[:, 0],
                             weights=self._q[:, k],
                             minlength=n_objects[0]
                         ) for k in xrange(self.k)]).T +
            self.alpha)
        self.pXgZ_ /= self.pXgZ_.sum(axis=0, keepdims=True)

        # p[y | z]
        self.pYgZ_ = (
            np.array([
                         np.bincount(
                             ev[:, 1],
                             weights=self._q[:, k],
                             minlength=n_objects[1]
                         ) for k in xrange(self.k)]).T +
            self.alpha)
        self.pYgZ_ /= self.pYgZ_.sum(axis=0, keepdims=True)
""", """        def dist(index, size):
            count = np.zeros((size, self.k))
            np.add.at(count, index, self._q)
            count += self.alpha
            return count / count.sum(axis=0)[np.newaxis, :]

        self.pYgZ_ = dist(ev[:, 1], n_objects[1])
        self.pXgZ_ = dist(ev[:, 0], n_objects[0])
        self.pRgZ_ = dist(sc, self.n_score_levels)
"""),
 ('loss by einsum', TM, """        loss = np.sum(
            self.pZ_[np.newaxis, :] *
            self.pRgZ_[sc, :] *
            self.pXgZ_[ev[:, 0], :] *
            self.pYgZ_[ev[:, 1], :], axis=1)
        loss = -np.sum(np.log(loss)) / self.n_events

        return loss
""", """        joint = (self.pXgZ_[ev[:, 0]] * self.pYgZ_[ev[:, 1]] *
                 self.pRgZ_[sc]).dot(self.pZ_)

        return -np.mean(np.log(joint))
"""),
 ('while loop', TM, """        for iter_no in xrange(maxiter):

            # E-Step
""", """        while iter_no + 1 < maxiter:
            iter_no += 1

            # E-Step
"""),
 ('prediction by einsum', TM, """        pRgXY = np.sum(
            self.pZ_[np.newaxis, np.newaxis, :] *
            self.pRgZ_[np.newaxis, :, :] *
            self.pXgZ_[ev[:, 0], np.newaxis, :] *
            self.pYgZ_[ev[:, 1], np.newaxis, :], axis=2)
        pRgXY /= pRgXY.sum(axis=1, keepdims=True)
""", """        weight = self.pXgZ_[ev[:, 0]] * self.pYgZ_[ev[:, 1]] * self.pZ_
        pRgXY = np.array([[np.sum(w * r) for r in self.pRgZ_]
                          for w in weight])
        pRgXY = pRgXY / np.sum(pRgXY, axis=1)[:, np.newaxis]
"""),
 ('early conversion', BB, """        eev = check_array(np.atleast_2d(eev), dtype=None)
        ev = self.to_iid_event(eev)[:, self.event_index]

        return np.squeeze(self.raw_predict(ev))
""", """        eev = check_array(np.atleast_2d(eev), dtype=None)
        ev = np.take(self.to_iid_event(eev), self.event_index, axis=1)
        sc = self.raw_predict(ev)

        return np.squeeze(sc)
"""),
 ('dense feedback by a mask', IB, """        ev = sparse.coo_matrix((scores, (users, items)), shape=n_objects)
        ev = ev.tocsr()
        ev.data[:] = 1
        if sparse_type == 'csc':
            ev = ev.tocsc()
        elif sparse_type == 'lil':
            ev = ev.tolil()
        elif sparse_type == 'array':
            ev = ev.toarray()
""", """        ev = np.zeros(n_objects, dtype=int)
        ev[users, items] = scores
        if sparse_type != 'array':
            ev = {'csr': sparse.csr_matrix, 'csc': sparse.csc_matrix,
                  'lil': sparse.lil_matrix}[sparse_type](ev)
"""),
 ('lists of members', SP, """            for i, g in enumerate(group_indices):
                train_i, test_i = train_test_split(
                    indices[groups == g],
""", """            members = [np.nonzero(groups == g)[0] for g in group_indices]
            for member in members:
                train_i, test_i = train_test_split(
                    member,
"""),
 ('precomputed members', SP, """        for i, g in enumerate(group_indices):
            group_member = indices[groups == g]
            iters[i] = cv.split(group_member)

        # generate training and test splits
        for fold in xrange(self.n_splits):
            test_fold[:] = False
            for i, g in enumerate(group_indices):
                group_train_i, group_test_i = next(iters[i])
                test_fold[indices[groups == g][group_test_i]] = True
            yield test_fold
""", """        members = [indices[groups == g] for g in group_indices]
        iters = [cv.split(member) for member in members]

        # generate training and test splits
        for fold in xrange(self.n_splits):
            test_fold = np.zeros(n_samples, dtype=bool)
            for member, it in zip(members, iters):
                test_fold[member[next(it)[1]]] = True
            yield test_fold
"""),
 ('masks for a predefined split', SP, """        test_fold = np.arange(n_samples, dtype=int) % self.n_splits
        cv = PredefinedSplit(test_fold)

        return(cv.split())
""", """        indices = np.arange(n_samples, dtype=int)
        tests = [indices % self.n_splits == f for f in range(self.n_splits)]

        return ((indices[~test], indices[test]) for test in tests)
"""),
 ('mean and std by sums', MR, """    errs = np.abs(y_true - y_pred)
    mean = np.nanmean(errs)
    stdev = np.nanstd(errs)

    return mean, stdev
""", """    errs = np.abs(y_pred - y_true)

    return np.mean(errs), np.sqrt(np.mean((errs - np.mean(errs)) ** 2))
"""),
 ('rmse first', MR, """    errs = (y_true - y_pred) ** 2
    mean = np.nanmean(errs)
    stdev = np.nanstd(errs)
    rmse = np.sqrt(np.maximum(mean, 0.))

    return rmse, mean, stdev
""", """    diff = y_true - y_pred
    errs = diff * diff
    mean = errs.sum() / errs.size

    return np.sqrt(mean), mean, errs.std()
"""),
 ('variance by a dot product', MR, """    x_sqdev = ((x - x.mean()) ** 2).sum()
    var = (2 * b + x_sqdev) / (2 * a + n)
""", """    dev = x - np.sum(x) / n
    var = (np.dot(dev, dev) + 2 * b) / (n + 2 * a)
"""),
 ('report from the statistics', MS, """    stats = {
        'mean absolute error': skm.mean_absolute_error(y_true, y_pred),
        'root mean squared error':
            np.sqrt(np.maximum(skm.mean_squared_error(y_true, y_pred), 0.)),
        'n_samples': y_true.size,
""", """    stats = {
        'mean absolute error': np.abs(y_true - y_pred).mean(),
        'root mean squared error':
            np.sqrt(((y_true - y_pred) ** 2).mean()),
        'n_samples': len(y_true),
"""),
 ('table of messages', UB, """    if status == 0:
        message = fit_status_message['success']
    elif status == 1:
        message = fit_status_message['maxfev']
    elif status == 2:
        message = fit_status_message['maxiter']
    elif status == 3:
        message = fit_status_message['pr_loss']
    else:
        message = 'Unknown status code.'

    return message
""", """    keys = {0: 'success', 1: 'maxfev', 2: 'maxiter', 3: 'pr_loss'}
    if status not in keys:
        return 'Unknown status code.'

    return fit_status_message[keys[status]]
"""),
 ('sets for uniform scores', UB, """    if allow_uniform:
        is_binary = (
            np.array_equal(elements, [0, 1]) or
            np.array_equal(elements, [0]) or
            np.array_equal(elements, [1]))
    else:
        is_binary = np.array_equal(elements, [0, 1])

    return is_binary
""", """    accepted = [[0, 1]] + ([[0], [1]] if allow_uniform else [])

    return any(np.array_equal(elements, x) for x in accepted)
"""),
 ('sigmoid with minimum and maximum', UM, """    x = np.clip(x, -34.538776394910684, 34.538776394910684)

    return expit(x)
""", """    dom = 34.538776394910684

    return expit(np.minimum(np.maximum(x, -dom), dom))
"""),
 ('one helper for both branches', UE, """    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, (dict, list)) and not issparse(v):
                json_decodable(v)
            elif isinstance(v, np.ndarray):
                x[k] = v.tolist()
                json_decodable(x[k])
            elif issparse(v):
                x[k] = v.toarray().tolist()
                json_decodable(x[k])
            elif isinstance(v, np.integer):
                x[k] = int(v)
            elif isinstance(v, np.floating):
                x[k] = float(v)
            elif isinstance(v, np.complexfloating):
                x[k] = complex(v)
            elif isinstance(v, np.bool_):
                x[k] = bool(v)
            elif not (v is None or isinstance(v, (bool, int, float, complex))):
                x[k] = str(v)
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, (dict, list)) and not issparse(v):
                json_decodable(v)
            elif isinstance(v, np.ndarray):
                x[k] = v.tolist()
                json_decodable(x[k])
            elif issparse(v):
                x[k] = v.toarray().tolist()
                json_decodable(x[k])
            elif isinstance(v, np.integer):
                x[k] = int(v)
            elif isinstance(v, np.floating):
                x[k] = float(v)
            elif isinstance(v, np.complexfloating):
                x[k] = complex(v)
            elif isinstance(v, np.bool_):
                x[k] = bool(v)
            elif not (v is None or isinstance(v, (bool, int, float, complex))):
                x[k] = str(v)
""", """    if isinstance(x, dict):
        keys = list(x.keys())
    elif isinstance(x, list):
        keys = range(len(x))
    else:
        return
    for k in keys:
        v = x[k]
        if issparse(v):
            v = x[k] = v.toarray()
        if isinstance(v, np.ndarray):
            v = x[k] = v.tolist()
        if isinstance(v, (dict, list)):
            json_decodable(v)
        elif isinstance(v, np.integer):
            x[k] = int(v)
        elif isinstance(v, np.floating):
            x[k] = float(v)
        elif isinstance(v, np.complexfloating):
            x[k] = complex(v)
        elif isinstance(v, np.bool_):
            x[k] = bool(v)
        elif v is not None and not isinstance(
                v, (bool, int, float, complex)):
            x[k] = str(v)
"""),
 ('generator for dictionaries', MB, """        for k in sorted(arg_list[0]):
            args = [arg[k] for arg in arg_list]
            stats.append(fun(*args))

    elif isinstance(arg_list[0], (list, tuple)):

        # in a case of list list, collect elements at the same position
        for k in xrange(len(arg_list[0])):
            args = [arg[k] for arg in arg_list]
            stats.append(fun(*args))
""", """        keys = sorted(arg_list[0].keys(), reverse=True)
        stats = [fun(*[arg[k] for arg in arg_list]) for k in keys]

    elif isinstance(arg_list[0], (list, tuple)):

        # in a case of list list, collect elements at the same position
        stats = [fun(*args) for args in zip(*arg_list)]
"""),
]

R['B'] = [
 ('optimizer imported as a module', PM, """from scipy.optimize import minimize
""", """import scipy.optimize
"""),
 ('optimizer called in a module', PM, """        res = minimize(
            fun=self.loss,
            x0=self._coef,
            args=(ev, sc, n_objects),
            method=optimizer_method,
            jac=self.grad_loss,
            **optimizer_kwargs)
""", """        def both(coef):
            return (self.loss(coef, ev, sc, n_objects),
                    self.grad_loss(coef, ev, sc, n_objects))

        res = scipy.optimize.minimize(
            both, self._coef.copy(), jac=True, method=optimizer_method,
            **optimizer_kwargs)
"""),
 ('optimizer imported in a function', LM, """from scipy.optimize import minimize
""", ""),
 ('optimizer imported in a function', LM, """        res = minimize(
""", """        from scipy.optimize import minimize as optimize
        res = optimize(
"""),
 ('results as a new dictionary', PM,
  """        self.fit_results_['n_users'] = n_objects[0]
        self.fit_results_['n_items'] = n_objects[1]
        self.fit_results_['n_events'] = self.n_events
        self.fit_results_['n_parameters'] = self._coef.size
        self.fit_results_['success'] = res.success
        self.fit_results_['status'] = res.status
        self.fit_results_['message'] = res.message
        self.fit_results_['final_loss'] = res.fun
""", """        self.fit_results_.update(
            n_users=int(n_objects[0]), n_items=int(n_objects[1]),
            n_events=ev.shape[0], n_parameters=len(self._coef),
            final_loss=float(res.fun))
        for key in ('success', 'status', 'message'):
            self.fit_results_[key] = res[key]
"""),
 ('initialization by bincount', PM, """        for i in xrange(n_users):
            j = np.nonzero(ev[:, 0] == i)[0]
            if len(j) > 0:
                self.bu_[i] = np.sum(sc[j] - self.mu_[0]) / len(j)
""", """        count = np.bincount(ev[:, 0], minlength=n_users)
        total = np.bincount(ev[:, 0], weights=sc - self.mu_[0],
                            minlength=n_users)
        self.bu_[count > 0] = total[count > 0] / count[count > 0]
"""),
 ('variance without a loop', PM, """        var = 0.0
        for i in xrange(n_events):
            var += (
                (sc[i] -
                 (self.mu_[0] + self.bu_[ev[i, 0]] + self.bi_[ev[i, 1]])) ** 2)
        var /= n_events
""", """        res = sc - (self.mu_[0] + self.bu_[ev[:, 0]] + self.bi_[ev[:, 1]])
        var = np.mean(res ** 2)
"""),
 ('helper method for views', LM, """        mu = coef.view(self._dt)['mu'][0]
        bu = coef.view(self._dt)['bu'][0]
        bi = coef.view(self._dt)['bi'][0]
        p = coef.view(self._dt)['p'][0]
        q = coef.view(self._dt)['q'][0]
""", """        mu, bu, bi, p, q = (
            coef.view(self._dt)[name][0]
            for name in ('mu', 'bu', 'bi', 'p', 'q'))
"""),
 ('scores by where', LM, """        loss = - np.sum(sc * np.log(esc) + (1 - sc) * np.log(1 - esc))
""", """        loss = - np.sum(np.log(np.where(sc == 1, esc, 1 - esc)))
"""),
 ('loops over factors merged', LM,
  """        weights = common_term[:, np.newaxis] * q[ev[:, 1], :]
        for i in xrange(self.k):
            grad_p[:, i] = np.bincount(
                ev[:, 0], weights=weights[:, i], minlength=n_users)
        weights = common_term[:, np.newaxis] * p[ev[:, 0], :]
        for i in xrange(self.k):
            grad_q[:, i] = np.bincount(
                ev[:, 1], weights=weights[:, i], minlength=n_items)
""", """        for i in xrange(self.k):
            grad_q[:, i] = np.bincount(
                ev[:, 1], weights=common_term * p[ev[:, 0], i],
                minlength=n_items)
            grad_p[:, i] = np.bincount(
                ev[:, 0], weights=common_term * q[ev[:, 1], i],
                minlength=n_users)
"""),
 ('private copy of the options', LM, """        # private instance variables
        self._coef = None
""", """        # private instance variables
        self._options = dict(self.optimizer_kwargs)
        self._coef = None
"""),
 ('private cache of levels', ES, """        self.score_domain = np.array(score_domain)
        self.n_score_levels = n_score_levels
""", """        self._levels = generate_score_levels(score_domain)
        self.n_score_levels = len(self._levels)
        self.score_domain = np.array(score_domain)
"""),
 ('levels by hand', ES, """        return np.linspace(
            self.score_domain[0], self.score_domain[1], self.n_score_levels)
""", """        low, high = float(self.score_domain[0]), float(self.score_domain[1])
        n = self.n_score_levels
        if n == 1:
            return np.array([low])

        return low + (high - low) * (np.arange(n) / (n - 1.0))
"""),
 ('filter by indexes', EV, """        # re-arrange filter
        filter_cond = np.asarray(filter_cond)
        if filter_cond.size == 0:
            # an array converted from an empty list is not of an integer type
            filter_cond = filter_cond.astype(int)
""", """        # re-arrange filter
        cond = np.asarray(filter_cond)
        filter_cond = np.arange(self.n_events)[
            cond if cond.size else cond.astype(int)]
"""),
 ('filter: ids renumbered by searching', EV,
  """            table = self._gen_id_substitution_table(self.eid[otype], sub_index)
            data.event[:, self.event_otypes == otype] = table[
                data.event[:, self.event_otypes == otype]]

            # filter object info
            data.eid[otype] = self.eid[otype][sub_index]
            data.iid[otype] = {k: i for (i, k) in enumerate(data.eid[otype])}
            data.n_objects[otype] = data.eid[otype].shape[0]
""", """            # filter object info
            data.n_objects[otype] = len(sub_index)
            data.eid[otype] = np.take(self.eid[otype], sub_index)
            data.iid[otype] = dict(
                (k, i) for i, k in enumerate(data.eid[otype]))
            for e in xrange(self.s_event):
                if self.event_otypes[e] == otype:
                    data.event[:, e] = np.searchsorted(
                        sub_index, data.event[:, e])
"""),
 ('events set by converting', EV, """        new_event = np.empty_like(event, dtype=int)
        for e in xrange(self.s_event):
            iid = ids[self.event_otypes[e]][2]
            new_event[:, e] = [iid[i] for i in event[:, e]]
""", """        columns = []
        for e in xrange(self.s_event):
            iid = ids[self.event_otypes[e]][2]
            columns.append([iid[i] for i in event[:, e]])
        new_event = np.array(columns, dtype=int).T.copy()
"""),
 ('external ids looked up first', BD, """        if iid < 0:
            raise ValueError("Illegal internal id")
        try:
            return self.eid[otype][iid]
        except IndexError:
            raise ValueError("Illegal internal id")
""", """        eid = self.eid[otype]
        if not 0 <= iid < len(eid):
            raise ValueError("Illegal internal id")

        return eid[iid]
"""),
 ('membership tested first', BD, """        try:
            return self.iid[otype][eid]
        except KeyError:
            raise ValueError("Illegal external id")
""", """        table = self.iid[otype]
        if eid not in table:
            raise ValueError("Illegal external id")

        return table[eid]
"""),
 ('posterior in logarithms', TM, """            self._q = (
                self.pZ_[np.newaxis, :] *
                self.pRgZ_[sc, :] *
                self.pXgZ_[ev[:, 0], :] *
                self.pYgZ_[ev[:, 1], :])
            self._q /= (self._q.sum(axis=1, keepdims=True))
""", """            joint = (self.pXgZ_[ev[:, 0]] * self.pYgZ_[ev[:, 1]] *
                     self.pRgZ_[sc] * self.pZ_)
            self._q = joint / np.sum(joint, axis=1)[:, np.newaxis]
"""),
 ('prior of the initialization by modulo', TM,
  """        for r in xrange(self.n_score_levels):
            for k in xrange(self.k):
                if (k % self.n_score_levels) == r:
                    a[r, k] = 1000.0
                else:
                    a[r, k] = 1.0
""", """        a[:, :] = 1.0
        for k in xrange(self.k):
            a[k % self.n_score_levels, k] = 1000.0
"""),
 ('flag for success set early', TM, """            if precision < tol:
                logger.info(
                    "Reached to specified tolerance:"
                    " {:.15g}".format(precision))
                break
            pre_loss = cur_loss
        else:
            # finished without reaching to a specified tolerance
            self.fit_results_['status'] = 2
            logger.warning(
""", """            pre_loss = cur_loss
            converged = precision < tol
            if converged:
                logger.info("Reached to tolerance %s", precision)
                break
        else:
            converged = False
        if not converged:
            # finished without reaching to a specified tolerance
            self.fit_results_['status'] = 2
            logger.warning(
"""),
 ('expectation by a product', TM, """            sc = np.dot(pRgXY, self.score_levels[:, np.newaxis])[:, 0]
""", """            sc = (pRgXY * self.score_levels).sum(axis=1)
"""),
 ('order of checks', MS, """    # check inputs
    assert_all_finite(y_true)
    y_true = np.asarray(y_true, dtype=float)
    assert_all_finite(y_pred)
    y_pred = np.asarray(y_pred, dtype=float)
    check_consistent_length(y_true, y_pred)
""", """    # check inputs
    check_consistent_length(y_true, y_pred)
    for y in (y_true, y_pred):
        assert_all_finite(y)
    y_true, y_pred = np.asarray(y_true, dtype=float), np.asarray(y_pred, dtype=float)
"""),
 ('density by means', MS, """    stats['true']['histogram density'] = (hist / hist.sum())
""", """    stats['true']['histogram density'] = hist.astype(float) / y_true.size
"""),
 ('histogram by digitizing', MR, """    hist, bins = np.histogram(x, bins=bins)
""", """    hist, bins = np.histogram(np.ravel(x), bins=bins)
    hist = hist.astype(int)
"""),
 ('area by ranks', MI,
  """        stats['area under the curve'] = skm.roc_auc_score(y_true, y_pred)
""", """        order = np.unique(y_pred, return_inverse=True)[1]
        n_same = np.bincount(order)
        ranks = (np.cumsum(n_same) - (n_same - 1) / 2.0)[order]
        n_pos = np.sum(y_true == 1)
        n_neg = y_true.size - n_pos
        stats['area under the curve'] = (
            np.sum(ranks[y_true == 1]) - n_pos * (n_pos + 1) / 2.0) / (
                n_pos * n_neg)
"""),
 ('splitter: masks to indexes', SP,
  """        for train_fold, test_fold in self._iter_masks(X, y, groups):
            yield indices[train_fold], indices[test_fold]
""", """        for masks in self._iter_masks(X, y, groups):
            train, test = [np.flatnonzero(m) for m in masks]
            yield train, test
"""),
 ('splitter: reordered checks', SP, """        if self.n_splits > n_samples:
            raise ValueError(
                ("Cannot have number of splits n_splits={0} greater"
                 " than the number of samples: n_samples={1}."
                 ).format(self.n_splits, n_samples))
""", """        if not self.n_splits <= n_samples:
            raise ValueError("too many splits")
"""),
 ('load: names of fields', 'kamrecsys/datasets/base.py',
  """    if event_dtype is None:
        event_feature = None
    else:
        event_feature = x['event_feature']
""", """    event_feature = (
        x['event_feature'] if 'event_feature' in x.dtype.names else None)
"""),
 ('converter: with statement', 'data/movielens100k.py',
  """for line in infile.readlines():
    f = line.rstrip('\\r\\n').split("|")
    print(f[0], f[1], sep='\\t', end='\\t', file=outfile)
    if f[2] == 'M':
        print('0', end='\\t', file=outfile)
    elif f[2] == 'F':
        print('1', end='\\t', file=outfile)
    else:
        raise ValueError
    print(occupation[f[3]], end='\\t', file=outfile)
    print(f[4], file=outfile)
""", """for line in infile:
    uid, age, gender, job, zip_code = line.rstrip('\\r\\n').split("|")
    if gender not in ('M', 'F'):
        raise ValueError
    print(uid, age, 'MF'.index(gender), occupation[job], zip_code,
          sep='\\t', file=outfile)
"""),
 ('folds counted by enumerate', EU,
  """    for train_i, test_i in cv.split(ev, groups=ev[:, 0]):
        # in an one-fold mode, non target folds are ignored
        if target_fold is not None and fold != target_fold:
            fold += 1
            continue
""", """    folds = list(cv.split(ev, groups=ev[:, 0]))
    for fold, (train_i, test_i) in enumerate(folds):
        # in an one-fold mode, non target folds are ignored
        if target_fold not in (None, fold):
            continue
"""),
 ('no counter', EU, """                info['prediction']['event_feature'][k][str(fold)] = (
                    data.event_feature[k][test_i])

        fold += 1
""", """                info['prediction']['event_feature'][k][str(fold)] = (
                    data.event_feature[k][test_i])
"""),
 ('hold-out: helper for counts', EU,
  """    info['training']['n_events'] = train_data.n_events
    info['training']['n_users'] = (
        train_data.n_objects[train_data.event_otypes[0]])
    info['training']['n_items'] = (
        train_data.n_objects[train_data.event_otypes[1]])
""", """    info['training'].update(
        n_items=train_data.n_objects[train_data.event_otypes[1]],
        n_users=train_data.n_objects[train_data.event_otypes[0]],
        n_events=train_data.n_events)
"""),
 ('model created by a table', E1, """    if opt.method == 'pmf':
        from kamrecsys.score_predictor import PMF
""", """    if opt.method in ('pmf',):
        from kamrecsys.score_predictor import PMF
"""),
 ('evaluation: lists joined', ST,
  """        y_true = np.concatenate([true[fold] for fold in true])
        y_pred = np.concatenate([pred[fold] for fold in true])
""", """        pred = info['prediction']
        y_true, y_pred = [], []
        for fold in pred['true']:
            y_true += pred['true'][fold]
            y_pred += pred['predicted'][fold]
        y_true, y_pred = np.array(y_true), np.array(y_pred)
"""),
 ('merge: loop over the files', FM, """    infile = opt.infile[0]
    logger.info("Processing \\"" + infile.name + "\\"")
    cv_info = first_fold(infile)

    for i in range(1, len(opt.infile)):
        infile = opt.infile[i]
        logger.info("Processing \\"" + infile.name + "\\"")
        rest_fold(infile, cv_info)
""", """    cv_info = None
    for infile in opt.infile:
        logger.info("Processing \\"" + infile.name + "\\"")
        if cv_info is None:
            cv_info = first_fold(infile)
        else:
            rest_fold(infile, cv_info)
"""),
]

DB = 'kamrecsys/datasets/base.py'
ML = 'kamrecsys/datasets/movielens.py'

R['C'] = [
 ('loader: reading extracted', DB, """    x = np.atleast_1d(
        np.genfromtxt(fname=infile, delimiter='\\t', dtype=dtype))
    data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
    if event_dtype is None:
        event_feature = None
    else:
        event_feature = x['event_feature']
    data.set_event(x['event'], event_feature=event_feature)
    return data
""", """    x = _read_table(infile, dtype)
    data = EventData(event_otypes=event_otypes, n_otypes=n_otypes)
    data.set_event(
        x['event'], x['event_feature'] if event_dtype is not None else None)
    return data


def _read_table(infile, dtype, **kwargs):
    table = np.genfromtxt(infile, dtype, delimiter='\\t', **kwargs)
    return table.reshape(-1)
"""),
 ('loader: comprehension of fields', DB, """    if event_dtype is None:
        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
    else:
        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                          ('event_feature', event_dtype)])
""", """    fields = [('event', np.int64, (s_events,)), ('score', np.float64)]
    if event_dtype is not None:
        fields.append(('event_feature', event_dtype))
    dtype = np.dtype(fields)
"""),
 ('score loader: scores contiguous', DB, """    data.set_event(
        x['event'], x['score'], score_domain=score_domain,
        event_feature=event_feature)
""", """    scores = np.ascontiguousarray(x['score'])
    data.set_event(
        np.ascontiguousarray(x['event']), score=scores,
        event_feature=event_feature, score_domain=score_domain)
"""),
 ('movielens: opened by codecs', ML, """    x = np.atleast_1d(
        np.genfromtxt(fname=infile, delimiter='\\t', dtype=dtype,
                      encoding='utf-8'))
    data.set_feature(1, x['eid'], x['feature'])
""", """    with codecs.open(infile, 'r', 'utf-8') as item_file:
        x = np.genfromtxt(
            fname=item_file, delimiter='\\t', dtype=dtype)
    x = np.atleast_1d(x)
    data.set_feature(1, x['eid'], x['feature'])
"""),
 ('explicit finder: early return order', IB, """        # check whether scores are binary
        if (
                (not np.array_equal(data.score_domain, [0, 1, 1])) or
                (not is_binary_score(data.score, allow_uniform=False)) or
                (data.n_score_levels != 2)):
            raise ValueError('Scores are not binary type')
""", """        # check whether scores are binary
        binary = (
            data.n_score_levels == 2 and
            tuple(data.score_domain) == (0, 1, 1) and
            is_binary_score(data.score, allow_uniform=False))
        if not binary:
            raise ValueError('Scores are not binary type')
"""),
 ('event array: conversion by asformat', IB, """        scores = np.ones_like(users, dtype=int)
""", """        scores = np.ones(len(users), dtype=int)
"""),
 ('event array: asformat', IB, """        if sparse_type == 'csc':
            ev = ev.tocsc()
        elif sparse_type == 'lil':
            ev = ev.tolil()
        elif sparse_type == 'array':
            ev = ev.toarray()
""", """        if sparse_type == 'array':
            ev = ev.toarray()
        else:
            ev = ev.asformat(sparse_type)
"""),
 ('event array: clipped', IB, """        ev.data[:] = 1
""", """        ev.data = np.minimum(ev.data, 1)
"""),
 ('fit: checked by take in one step', BB, """        if event_index is None:
            event_index = np.arange(data.s_event, dtype=int)
        else:
            event_index = np.array(event_index, dtype=int)
        event = data.event.take(event_index, axis=1)
""", """        event_index = np.array(
            range(data.s_event) if event_index is None else event_index,
            dtype=int)
        event = data.event[:, event_index]
"""),
 ('predict: helper', BB, """        eev = check_array(np.atleast_2d(eev), dtype=None)
        ev = self.to_iid_event(eev)[:, self.event_index]
        return np.squeeze(self.raw_predict(ev))
""", """        return np.squeeze(self.raw_predict(self._internal_events(eev)))

    def _internal_events(self, eev):
        eev = check_array(np.atleast_2d(eev), dtype=None)
        ev = self.to_iid_event(eev)
        return ev.take(self.event_index, axis=1)
"""),
 ('json: one conversion', UE, """    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, (dict, list)) and not issparse(v):
                json_decodable(v)
            elif isinstance(v, np.ndarray):
                x[k] = v.tolist()
                json_decodable(x[k])
            elif issparse(v):
                x[k] = v.toarray().tolist()
                json_decodable(x[k])
            elif isinstance(v, np.integer):
                x[k] = int(v)
            elif isinstance(v, np.floating):
                x[k] = float(v)
            elif isinstance(v, np.complexfloating):
                x[k] = complex(v)
            elif isinstance(v, np.bool_):
                x[k] = bool(v)
            elif not (v is None or isinstance(v, (bool, int, float, complex))):
                x[k] = str(v)
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, (dict, list)) and not issparse(v):
                json_decodable(v)
            elif isinstance(v, np.ndarray):
                x[k] = v.tolist()
                json_decodable(x[k])
            elif issparse(v):
                x[k] = v.toarray().tolist()
                json_decodable(x[k])
            elif isinstance(v, np.integer):
                x[k] = int(v)
            elif isinstance(v, np.floating):
                x[k] = float(v)
            elif isinstance(v, np.complexfloating):
                x[k] = complex(v)
            elif isinstance(v, np.bool_):
                x[k] = bool(v)
            elif not (v is None or isinstance(v, (bool, int, float, complex))):
                x[k] = str(v)
""", """    if isinstance(x, dict):
        keys = list(x)
    elif isinstance(x, list):
        keys = range(len(x))
    else:
        keys = []
    for k in keys:
        v = x[k]
        if issparse(v):
            v = v.toarray()
        if isinstance(v, np.ndarray):
            v = v.tolist()
        elif isinstance(v, (np.integer, np.floating, np.complexfloating,
                            np.bool_)):
            v = v.item()
        if isinstance(v, (dict, list)):
            json_decodable(v)
        elif v is not None and not isinstance(
                v, (bool, int, float, complex)):
            v = str(v)
        x[k] = v
"""),
 ('system info: file read directly', UE, """            process_pipe = subprocess.Popen(
                ['/bin/cat', '/proc/cpuinfo'],
                stdout=subprocess.PIPE, stderr=DEVNULL)
            hard_info, _ = process_pipe.communicate()
            hard_info = hard_info.decode('utf-8').split('\\n')
""", """            hard_info = subprocess.check_output(
                ['cat', '/proc/cpuinfo'], stderr=DEVNULL)
            hard_info = hard_info.decode('utf-8').split('\\n')
"""),
 ('sigmoid: where', UM, """    x = np.clip(x, -34.538776394910684, 34.538776394910684)
    return expit(x)
""", """    dom = 34.538776394910684
    x = np.minimum(np.maximum(x, -dom), dom)
    return 1.0 / (1.0 + np.exp(-x))
"""),
 ('merge: helper for predictions', FM, """    for sub_info in cv_info['prediction']:
        if sub_info == 'event_feature':
            for k in cv_info['prediction']['event_feature']:
                cv_info['prediction']['event_feature'][k][fold] = (
                    info['prediction']['event_feature'][k][fold])
        else:
            cv_info['prediction'][sub_info][fold] = (
                info['prediction'][sub_info][fold])

    # close file
    fp.close()
""", """    merged = cv_info['prediction']
    for sub_info, entry in info['prediction'].items():
        if sub_info != 'event_feature':
            merged[sub_info][fold] = entry[fold]
            continue
        for k, feature in entry.items():
            merged[sub_info][k][fold] = feature[fold]

    fp.close()
"""),
 ('merge: dump', FM, """    opt.outfile.write(json.dumps(cv_info))
""", """    json.dump(cv_info, opt.outfile)
"""),
 ('merge: deep copy of the environment', FM,
  """    fold = next(iter(cv_info['training']['results']))
""", """    fold = list(cv_info['training']['results'].keys())[0]
"""),
 ('options of a model', E1, """        info['model']['options'] = {
            'alpha': opt.alpha, 'k': opt.k, 'tol': opt.tol,
            'use_expectation': False}
        if opt.maxiter is not None:
            info['model']['options']['maxiter'] = opt.maxiter
""", """        options = info['model']['options']
        options.update(alpha=opt.alpha, k=opt.k, tol=opt.tol)
        options['use_expectation'] = False
        if opt.maxiter is not None:
            options['maxiter'] = opt.maxiter
"""),
 ('domain of scores', E1, """    if np.all(np.array(score_domain) == 0):
        score_domain = None
""", """    if not any(score_domain):
        score_domain = None
"""),
 ('loaders: features selected', E1, """    data = load_event_with_score(
        fp,
        event_dtype=event_dtype_timestamp if has_timestamp else None,
        score_domain=score_domain)
    info['condition']['score_domain'] = data.score_domain
""", """    kwargs = {'score_domain': score_domain}
    if has_timestamp:
        kwargs['event_dtype'] = event_dtype_timestamp
    data = load_event_with_score(fp, **kwargs)
    info['condition']['score_domain'] = data.score_domain
"""),
]

R['D'] = [
 ('external ids by a helper', EV, """            new_data = np.empty_like(data, dtype=self.eid[0].dtype)
            for e in xrange(self.s_event):
                new_data[:, e] = self.eid[self.event_otypes[e]][data[:, e]]
""", """            columns = [np.take(self.eid[t], data[:, e])
                       for e, t in enumerate(self.event_otypes)]
            new_data = np.stack(columns, axis=1).astype(self.eid[0].dtype)
"""),
 ('negative ids found by the minimum', EV, """        if np.any(data < 0):
            raise ValueError("Illegal internal id")
""", """        if data.size > 0 and np.min(data) < 0:
            raise ValueError("Illegal internal id: {0}".format(np.min(data)))
"""),
 ('types by a dictionary', EV, """        ids = [self._gen_id(event[:, self.event_otypes == otype])
               for otype in xrange(self.n_otypes)]
""", """        ids = {}
        for otype in xrange(self.n_otypes):
            columns = np.nonzero(self.event_otypes == otype)[0]
            ids[otype] = self._gen_id(event.take(columns, axis=1))
"""),
 ('ids by return_index', BD, """        eid = np.unique(event)
        iid = {k: i for (i, k) in enumerate(eid)}
        return len(eid), eid, iid
""", """        eid = np.unique(np.ravel(event))
        n_objects = eid.shape[0]
        return n_objects, eid, dict(zip(eid, range(n_objects)))
"""),
 ('domain in a function', ES, """            score_domain = [
                np.min(score),
                np.max(score),
                np.min(np.diff(levels))]
""", """            score_domain = [levels[0], levels[-1], np.diff(levels).min()]
"""),
 ('predict: dot of rows by einsum', PM, """                np.sum(self.p_[ev[:, 0], :] * self.q_[ev[:, 1], :],
                       axis=1))


# ====""", """                np.einsum('nk,nk->n', self.p_[ev[:, 0]], self.q_[ev[:, 1]]))


# ===="""),
 ('predict: log probabilities', TM, """        pRgXY = np.sum(
            self.pZ_[np.newaxis, np.newaxis, :] *
            self.pRgZ_[np.newaxis, :, :] *
            self.pXgZ_[ev[:, 0], np.newaxis, :] *
            self.pYgZ_[ev[:, 1], np.newaxis, :], axis=2)
        pRgXY /= pRgXY.sum(axis=1, keepdims=True)
""", """        pZgXY = self.pZ_[np.newaxis, :] * self.pXgZ_[ev[:, 0], :]
        pZgXY = pZgXY * self.pYgZ_[ev[:, 1], :]
        pRgXY = np.dot(pZgXY, self.pRgZ_.T)
        pRgXY = pRgXY / np.sum(pRgXY, axis=1)[:, np.newaxis]
"""),
 ('EM: one helper for distributions', TM, """        self.pXgZ_ = (
            np.array([
                         np.bincount(
                             ev[:, 0],
                             weights=self._q[:, k],
                             minlength=n_objects[0]
                         ) for k in xrange(self.k)]).T +
            self.alpha)
        self.pXgZ_ /= self.pXgZ_.sum(axis=0, keepdims=True)
""", """        n_users = np.zeros((n_objects[0], self.k), dtype=float)
        np.add.at(n_users, ev[:, 0], self._q)
        n_users += self.alpha
        self.pXgZ_ = n_users / n_users.sum(axis=0)[np.newaxis, :]
"""),
 ('variance: by numpy', MR, """    x_sqdev = ((x - x.mean()) ** 2).sum()
    var = (2 * b + x_sqdev) / (2 * a + n)
""", """    var = (2 * b + n * np.var(x)) / (2 * a + n)
"""),
 ('deviations by hand', MR, """    errs = np.abs(y_true - y_pred)
    mean = np.nanmean(errs)
    stdev = np.nanstd(errs)
""", """    errs = np.absolute(np.subtract(y_pred, y_true))
    mean = errs.mean()
    stdev = np.sqrt(np.mean((errs - mean) ** 2))
"""),
 ('interlaced folds without PredefinedSplit', SP, """        test_fold = np.arange(n_samples, dtype=int) % self.n_splits
        cv = PredefinedSplit(test_fold)
        return(cv.split())
""", """        indices = np.arange(n_samples, dtype=int)
        test_fold = np.mod(indices, self.n_splits)
        return ((indices[test_fold != fold], indices[test_fold == fold])
                for fold in range(self.n_splits))
"""),
 ('results: recorded in a loop', EU, """    res_info.update(rec.fit_results_)
""", """    for key in rec.fit_results_:
        res_info[key] = rec.fit_results_[key]
"""),
]


R['E'] = [
 ('one function for loss and gradient', PM, """        res = minimize(
            fun=self.loss,
""", """        def value_and_slope(coef, *given):
            return self.loss(coef, *given), self.grad_loss(coef, *given)

        res = minimize(
            fun=value_and_slope,
"""),
 ('one function for loss and gradient', PM, """            jac=self.grad_loss,
""", """            jac=True,
"""),
 ('random factors drawn at once', PM, """        mask = np.bincount(ev[:, 0], minlength=n_users).nonzero()[0]
        self.p_[mask, :] = (
            self._rng.normal(0.0, np.sqrt(var), (len(mask), k)))
        mask = np.bincount(ev[:, 1], minlength=n_items).nonzero()[0]
        self.q_[mask, :] = (
            self._rng.normal(0.0, np.sqrt(var), (len(mask), k)))
""", """        users, items = np.unique(ev[:, 0]), np.unique(ev[:, 1])
        drawn = self._rng.normal(
            0.0, np.sqrt(var), (len(users) + len(items), k))
        self.p_[users] = drawn[:len(users)]
        self.q_[items] = drawn[len(users):]
"""),
 ('random factors by a helper', LM, """        mask = np.bincount(ev[:, 0], minlength=n_users).nonzero()[0]
        self.p_[mask, :] = self._rng.normal(0.0, 1.0, (len(mask), k))
        mask = np.bincount(ev[:, 1], minlength=n_items).nonzero()[0]
        self.q_[mask, :] = self._rng.normal(0.0, 1.0, (len(mask), k))
""", """        for factors, col in ((self.p_, 0), (self.q_, 1)):
            seen = np.unique(ev[:, col])
            factors[seen, :] = self._rng.standard_normal((len(seen), k))
"""),
 ('object information by comprehension', BD, """        for otype in xrange(self.n_otypes):
            self.eid[otype] = copy(data.eid[otype])
            self.iid[otype] = copy(data.iid[otype])
""", """        for ids in (self.eid, self.iid):
            for otype, table in enumerate(ids):
                ids[otype] = copy(table)
"""),
 ('set_event: helper for one column', EV, """        new_event = np.empty_like(event, dtype=int)
        for e in xrange(self.s_event):
            iid = ids[self.event_otypes[e]][2]
            new_event[:, e] = [iid[i] for i in event[:, e]]
""", """        new_event = np.empty(event.shape, dtype=int)
        for e, otype in enumerate(self.event_otypes):
            new_event[:, e] = list(map(ids[otype][2].__getitem__,
                                       event[:, e]))
"""),
 ('otypes: checked one after another', EV, """            if (event_otypes.ndim != 1 or np.min(event_otypes) < 0 or
                    np.max(event_otypes) >= n_otypes):
                raise ValueError("Illegal event_otypes specification")
""", """            legal = event_otypes.ndim == 1
            if legal:
                legal = not ((event_otypes.min() < 0) or
                             (event_otypes.max() >= n_otypes))
            if not legal:
                raise ValueError("Illegal event_otypes specification")
"""),
 ('filter: feature first', EV, """        data.event = self.event[filter_cond, :].copy()
        data.n_events = data.event.shape[0]
""", """        if self.event_feature is not None:
            data.event_feature = self.event_feature[filter_cond].copy()
        data.event = np.array(self.event[filter_cond])
        data.n_events = len(data.event)
"""),
 ('binary scores by comparison', ES, """        self.score = np.where(self.score <= score_thresh, 0, 1)
""", """        self.score = 1 - (self.score <= score_thresh).astype(int)
"""),
 ('shuffle: masks made anew', SP, """            train_fold[:] = False
            test_fold[:] = False
            for i, g in enumerate(group_indices):
                train_i, test_i = train_test_split(
                    indices[groups == g],
                    test_size=self.test_size, train_size=self.train_size,
                    shuffle=self.shuffle, random_state=rng)
                train_fold[train_i] = True
                test_fold[test_i] = True
            yield train_fold, test_fold
""", """            parts = [train_test_split(
                np.flatnonzero(groups == g), test_size=self.test_size,
                train_size=self.train_size, shuffle=self.shuffle,
                random_state=rng) for g in group_indices]
            train_fold = np.zeros(n_samples, dtype=bool)
            test_fold = np.zeros(n_samples, dtype=bool)
            for train_i, test_i in parts:
                train_fold[train_i] = True
                test_fold[test_i] = True
            yield train_fold, test_fold
"""),
 ('k-fold: helper for the check', SP, """        n_splits = int(n_splits)

        if n_splits <= 1:
            raise ValueError(
                "k-fold cross-validation requires at least one"
                " train/test split by setting n_splits=2 or more,"
                " got n_splits={0}.".format(n_splits))

        self.n_splits = n_splits
""", """        self.n_splits = int(n_splits)
        if not self.n_splits > 1:
            raise ValueError(
                "k-fold cross-validation requires two folds or more")
"""),
 ('loader: event type made by a list', DB, """    if event_dtype is None:
        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
    else:
        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                          ('event_feature', event_dtype)])
""", """    fields = [('event', int, (s_events,)), ('score', float)]
    if event_dtype is not None:
        fields += [('event_feature', event_dtype)]
    dtype = np.dtype(fields)
"""),
 ('loader: feature by a conditional', DB, """    if event_dtype is None:
        event_feature = None
    else:
        event_feature = x['event_feature']
""", """    event_feature = x['event_feature'] if event_dtype is not None else None
"""),
 ('initial responsibilities: rows of a table', TM,
  """        for i in xrange(self.n_events):
            self._q[i, :] = self._rng.dirichlet(alpha=a[sc[i], :])
""", """        self._q = np.array([self._rng.dirichlet(row) for row in a[sc]])
"""),
 ('EM: sums by a helper', TM, """        self.pZ_ = np.sum(self._q, axis=0) + self.alpha
        self.pZ_ /= np.sum(self.pZ_)
""", """        weight = self.alpha + self._q.sum(axis=0)
        self.pZ_ = weight / weight.sum()
"""),
 ('extended tables by vstack', TM, """        self.pXgZ_ = np.r_[self.pXgZ_, np.ones((1, self.k), dtype=float)]
        self.pYgZ_ = np.r_[self.pYgZ_, np.ones((1, self.k), dtype=float)]
""", """        unknown = np.ones((1, self.k), dtype=float)
        self.pXgZ_ = np.vstack([self.pXgZ_, unknown])
        self.pYgZ_ = np.vstack([self.pYgZ_, unknown])
"""),
 ('predict: columns chosen first', BB, """        ev = self.to_iid_event(eev)[:, self.event_index]

        return np.squeeze(self.raw_predict(ev))
""", """        iev = self.to_iid_event(eev)
        sc = self.raw_predict(np.take(iev, self.event_index, axis=1))
        return np.squeeze(np.asarray(sc))
"""),
 ('test: prediction before the times', EU, """    res_info['n_events'] = ev.shape[0]
""", """    n_events = len(ev)
    res_info.update(n_events=n_events)
"""),
 ('training: elapsed times first', EU, """    end_time = datetime.datetime.now()
    end_utime = os.times()[0]
    res_info['end_time'] = end_time.isoformat()
    res_info['elapsed_time'] = end_time - start_time
    res_info['elapsed_utime'] = end_utime - start_utime
""", """    end_utime, end_time = os.times()[0], datetime.datetime.now()
    res_info['elapsed_utime'] = end_utime - start_utime
    res_info['elapsed_time'] = end_time - start_time
    res_info['end_time'] = end_time.isoformat()
"""),
 ('hold-out: keys of features', EU, """        info['prediction']['event_feature'] = {
            k: test_data.event_feature[k]
            for k in test_data.event_feature.dtype.names}
""", """        feature = {}
        for name in test_data.event_feature.dtype.names:
            feature[name] = test_data.event_feature[name]
        info['prediction']['event_feature'] = feature
"""),
 ('merge: rest in one loop', FM, """    for i in range(1, len(opt.infile)):
        infile = opt.infile[i]
""", """    for infile in opt.infile[1:]:
"""),
 ('statistics: positions of folds', ST, """        y_true = np.concatenate([true[fold] for fold in true])
        y_pred = np.concatenate([pred[fold] for fold in true])
""", """        order = sorted(true)
        y_true = np.hstack([true[fold] for fold in order])
        y_pred = np.hstack([pred[fold] for fold in order])
"""),
]


def apply(batch, repo):
    for what, f, old, new in R[batch]:
        p = os.path.join(repo, f)
        s = open(p, encoding='utf-8').read()
        # blank lines between the lines of the text do not matter
        rex = r'\n(?:[ ]*\n)*'.join(re.escape(li) for li in old.split('\n'))
        if not re.search(rex, s):
            print('%s: %s: text not found' % (batch, what))
            continue
        open(p, 'w', encoding='utf-8').write(re.sub(rex, lambda m: new, s))


def main():
    batch = sys.argv[1]
    pids = sys.argv[2:] or ['C%02d' % i for i in range(1, 40)]
    tmp = tempfile.mkdtemp(prefix='refactor-')
    bad = []
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        apply(batch, repo)
        for pid in pids:
            r = subprocess.run([V + '/check', pid, 'quick'], text=True,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT,
                               env=dict(os.environ, MC_REPO=repo))
            print(pid, 'quiet' if r.returncode == 0 else
                  'ALARM\n' + r.stdout[-3000:], flush=True)
            if r.returncode:
                bad.append(pid)
    finally:
        shutil.rmtree(tmp)
    print('alarms:', bad)


if __name__ == '__main__':
    main()
