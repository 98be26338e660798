From 0921c803f8dd6c3a8e7abcb30e98865688016dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:16 +0000
Subject: [PATCH 01/48] fix: make model_selection importable and usable with
 current sklearn

The private sklearn function _validate_shuffle_split_init has been removed,
and KFold accepts shuffle and random_state by keywords only and rejects a
random_state without shuffling.
---
 kamrecsys/model_selection/split.py | 46 ++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..6267d9c 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -49,6 +48,47 @@ __all__ = []
 # =============================================================================
 
 
+def _validate_shuffle_split_init(test_size, train_size):
+    """
+    check the sizes of test and train sets, because this private function of
+    sklearn is no longer provided
+
+    Parameters
+    ----------
+    test_size : float, int, None
+        the size of a test set
+    train_size : float, int, None
+        the size of a training set
+
+    Raises
+    ------
+    ValueError
+        if the specification of sizes is illegal
+    """
+    if test_size is None and train_size is None:
+        raise ValueError('test_size and train_size can not both be None')
+
+    for name, size in (('test_size', test_size), ('train_size', train_size)):
+        if size is None:
+            continue
+        kind = np.asarray(size).dtype.kind
+        if kind not in 'fi':
+            raise ValueError(
+                'Invalid value for {0}: {1!r}'.format(name, size))
+        if kind == 'f' and size >= 1.:
+            raise ValueError(
+                '{0}={1:f} should be smaller than 1.0 or be an'
+                ' integer'.format(name, size))
+
+    if (np.asarray(test_size).dtype.kind == 'f' and
+            np.asarray(train_size).dtype.kind == 'f' and
+            test_size + train_size > 1.):
+        raise ValueError(
+            'The sum of test_size and train_size = {0:f}, should be smaller'
+            ' than 1.0. Reduce test_size and/or train_size.'.format(
+                test_size + train_size))
+
+
 # =============================================================================
 # Classes
 # =============================================================================
@@ -272,7 +312,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From b1d0ee5f9279f8a3e2e8acd15da14890e242ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:52 +0000
Subject: [PATCH 02/48] fix: accept documented array-likes (lists) for X and
 groups in splitters

---
 kamrecsys/model_selection/split.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index 6267d9c..18f48e7 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -22,6 +22,7 @@ import logging
 
 import numpy as np
 from sklearn.utils import indexable, check_random_state
+from sklearn.utils.validation import _num_samples
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
 
@@ -168,11 +169,12 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples, dtype=int)
@@ -286,7 +288,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         X, y, groups = indexable(X, y, groups)
 
         # get the number of samples
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
@@ -298,11 +300,12 @@ class KFoldWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples)
@@ -404,7 +407,7 @@ class InterlacedKFold(BaseCrossValidator):
             The testing set indices for that split.
         """
         X, y, groups = indexable(X, y, groups)
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
-- 
2.43.0


From 8dad50cb5c94bbc1b23d417abf1d1c86e112b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:52 +0000
Subject: [PATCH 03/48] fix: ShuffleSplitWithinGroups ignored train_size if
 test_size is given too

---
 kamrecsys/model_selection/split.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index 18f48e7..658215b 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -163,12 +163,19 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
         # check arguments
         X, y, groups = indexable(X, y, groups)
 
-        for train, test in super(
-                ShuffleSplitWithinGroups, self).split(X, y, groups):
-            yield train, test
+        indices = np.arange(_num_samples(X), dtype=int)
+        for train_fold, test_fold in self._iter_masks(X, y, groups):
+            yield indices[train_fold], indices[test_fold]
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
+        for train_fold, test_fold in self._iter_masks(X, y, groups):
+            yield test_fold
+
+    def _iter_masks(self, X, y=None, groups=None):
+        # yields a pair of mask arrays for training and test splits.  These are
+        # not complements of each other if both train_size and test_size are
+        # specified.
         n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
@@ -178,20 +185,23 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         # constants
         indices = np.arange(n_samples, dtype=int)
+        train_fold = np.empty(n_samples, dtype=bool)
         test_fold = np.empty(n_samples, dtype=bool)
         rng = check_random_state(self.random_state)
         group_indices = np.unique(groups)
 
         # generate training and test splits
         for fold in xrange(self.n_splits):
+            train_fold[:] = False
             test_fold[:] = False
             for i, g in enumerate(group_indices):
                 train_i, test_i = train_test_split(
                     indices[groups == g],
                     test_size=self.test_size, train_size=self.train_size,
                     shuffle=self.shuffle, random_state=rng)
+                train_fold[train_i] = True
                 test_fold[test_i] = True
-            yield test_fold
+            yield train_fold, test_fold
 
     def get_n_splits(self, X=None, y=None, groups=None):
         """Returns the number of splitting iterations in the cross-validator
-- 
2.43.0


From 77e6c3bfeab31f59686a5060d10f5172bb21f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:53 +0000
Subject: [PATCH 04/48] fix: to_eid must reject negative internal ids

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..a816fbd 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if iid < 0:
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From 252db22888e4469330a58b7d304dea0ad14049e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:53 +0000
Subject: [PATCH 05/48] fix: matrix factorization models crash if there is only
 one user or item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..d44c9cd 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..44e7e47 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From 2f7f834b50ddedc05c708b29a3c2e70792d28bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:53 +0000
Subject: [PATCH 06/48] fix: setting new events to a data container altered
 recommenders fitted to it

---
 kamrecsys/data/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index a816fbd..e7e111a 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -64,9 +64,11 @@ class ObjectUtilMixin(object):
             raise TypeError("input data must data.BaseData class")
 
         self.n_otypes = data.n_otypes
-        self.n_objects = data.n_objects
-        self.eid = data.eid
-        self.iid = data.iid
+        # these arrays are updated in place when new events are set to the data,
+        # so these are copied to keep them consistent with a learned model
+        self.n_objects = data.n_objects.copy()
+        self.eid = data.eid.copy()
+        self.iid = data.iid.copy()
 
     def to_eid(self, otype, iid):
         """
-- 
2.43.0


From a0f7fee3a78e2bb48b0a13430ac90ac1ca986a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:54 +0000
Subject: [PATCH 07/48] fix: prediction failed or used wrong objects if
 event_index or event_otypes differ from defaults

Events were restricted to the elements of event_index before they were
converted by tables indexed with whole events, and the numbers of objects
were overwritten by those of the restricted events.
---
 kamrecsys/base/base.py        | 9 ++++-----
 kamrecsys/item_finder/base.py | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..46c0145 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -177,7 +177,7 @@ class BaseEventRecommender(
         ev = np.atleast_2d(self.event)
 
         # get number of objects
-        n_objects = self.n_objects
+        n_objects = self.n_objects[self.event_otypes[self.event_index]]
 
         return ev, n_objects
 
@@ -213,8 +213,6 @@ class BaseEventRecommender(
 
         # select information about events used for training
         self.event = self.event.take(self.event_index, axis=1)
-        self.n_objects = self.n_objects.take(self.event_otypes)
-        self.n_objects = self.n_objects.take(self.event_index)
 
     @abstractmethod
     def raw_predict(self, ev):
@@ -248,9 +246,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        ev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(ev))
 
 
 # =============================================================================
diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..8115f97 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -168,8 +168,8 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
         n_objects = self.n_objects[self.event_otypes[self.event_index]]
 
         # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        users = self.event[:, 0]
+        items = self.event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From 2bda8619886d2e7942d8e445b0fa8ec8560db35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:29 +0000
Subject: [PATCH 08/48] fix: predict rejected non-integer external ids

---
 kamrecsys/base/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 46c0145..bf1eb28 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -246,7 +246,9 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        # external ids are not always integers
+        dtype = int if self.eid[0].dtype.kind in 'iu' else None
+        eev = check_array(np.atleast_2d(eev), dtype=dtype)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From 5e9e0c9466eb7184b2fddb17226d417172277c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:29 +0000
Subject: [PATCH 09/48] fix: repeated events were counted more than once in
 implicit feedback arrays

---
 kamrecsys/item_finder/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 8115f97..018856e 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -172,15 +172,16 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
         items = self.event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
-        # generate array
+        # generate array.  conversion to the csr format sums up the duplicated
+        # entries, but repeated events must be treated as one consumption.
         ev = sparse.coo_matrix((scores, (users, items)), shape=n_objects)
+        ev = ev.tocsr()
+        ev.data[:] = 1
         if sparse_type == 'csc':
             ev = ev.tocsc()
-        elif sparse_type == 'csr':
-            ev = ev.tocsr()
         elif sparse_type == 'lil':
             ev = ev.tolil()
-        else:
+        elif sparse_type == 'array':
             ev = ev.toarray()
 
         return ev, n_objects
-- 
2.43.0


From 2d2d1d36087ac0d4b50f2e076aba9dfa3c78c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 10/48] fix: statistics_mean rejected lists of function
 arguments

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..203fa45 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -92,7 +92,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], (list, tuple)):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From 9d323a5c3cad7b5e71d7a8e0d2346b2bf77eb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 11/48] fix: score_histogram rejected the number of bins of a
 Python int type

---
 kamrecsys/metrics/real.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..5315acf 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -147,7 +147,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +157,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-- 
2.43.0


From 6d3ad333bb23c177468bf6bffa2a0026995d6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 12/48] fix: variance_with_gamma_prior accepted non-finite data
 and overflowed on small integer types

Non-finite values were not rejected if force_all_finite=True, squares of small
integer types overflowed, and arrays whose ndim > 1 were rejected.
---
 kamrecsys/metrics/real.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 5315acf..76f0e8e 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -217,12 +217,13 @@ def variance_with_gamma_prior(
     """
 
     # arrange inputs
+    x = np.asarray(x, dtype=float).ravel()
     if force_all_finite:
-        x = as_float_array(x).ravel()
+        assert_all_finite(x)
     else:
-        x = np.compress(np.isfinite(x), x)
-        if x.size < 1:
-            raise ValueError('Found array with 0 sample.')
+        x = x[np.isfinite(x)]
+    if x.size < 1:
+        raise ValueError('Found array with 0 sample.')
 
     # calc variance
     n = x.size
-- 
2.43.0


From ab74c153609ddf92428f56e1a3458772ba4babfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:53 +0000
Subject: [PATCH 13/48] fix: the number of score levels was wrong for strides
 affected by rounding errors

For example, score_domain=(1, 1.3, .1) produced five levels and (0, .3, .1)
produced three levels, instead of four.
---
 kamrecsys/data/event_with_score.py   |  5 ++---
 kamrecsys/metrics/__init__.py        |  2 ++
 kamrecsys/metrics/base.py            | 28 ++++++++++++++++++++++++++--
 kamrecsys/metrics/real.py            |  7 ++-----
 kamrecsys/metrics/score_predictor.py |  8 ++++----
 5 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..ea7a1e9 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -21,7 +21,7 @@ from abc import ABCMeta
 from six import with_metaclass
 
 from . import EventData
-from ..metrics import generate_score_bins
+from ..metrics import generate_score_bins, generate_score_levels
 
 
 # =============================================================================
@@ -154,8 +154,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
-        self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+        self.n_score_levels = len(generate_score_levels(score_domain))
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/__init__.py b/kamrecsys/metrics/__init__.py
index c3da229..2875d66 100644
--- a/kamrecsys/metrics/__init__.py
+++ b/kamrecsys/metrics/__init__.py
@@ -18,6 +18,7 @@ from six.moves import xrange
 import logging
 
 from .base import (
+    generate_score_levels,
     generate_score_bins,
     statistics_mean)
 from .real import (
@@ -41,6 +42,7 @@ from .item_finder import (
 # =============================================================================
 
 __all__ = [
+    'generate_score_levels',
     'generate_score_bins',
     'statistics_mean',
     'mean_absolute_error',
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 203fa45..7db30cf 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -42,6 +42,31 @@ __all__ = []
 # =============================================================================
 
 
+def generate_score_levels(score_domain):
+    """
+    Generate a sequence of possible scores from score_domain
+
+    Unlike :func:`numpy.arange` , the number of levels is not affected by
+    rounding errors even if a stride cannot be represented exactly.
+
+    Parameters
+    ----------
+    score_domain : array-like, shape=(3,)
+        a triple of the minimum, the maximum, and strides of the score
+
+    Returns
+    -------
+    score_levels : array, shape=(n_score_levels,), dtype=float
+        possible scores in an ascending order
+    """
+    n_strides = (score_domain[1] - score_domain[0]) / score_domain[2]
+    n_strides = int(np.ceil(n_strides - 1e-6))
+
+    return np.hstack(
+        [score_domain[0] + score_domain[2] * np.arange(n_strides, dtype=float),
+         score_domain[1]])
+
+
 def generate_score_bins(score_domain):
     """
     Generate histogram bins for scores from score_domain
@@ -57,8 +82,7 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    bins = generate_score_levels(score_domain)[:-1]
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 76f0e8e..9ae7da2 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -21,7 +21,7 @@ import numpy as np
 from sklearn.utils import (
     as_float_array, assert_all_finite, check_consistent_length)
 
-from . import generate_score_bins
+from . import generate_score_bins, generate_score_levels
 
 # =============================================================================
 # Metadata variables
@@ -160,10 +160,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
-        scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
-             score_domain[1]])
+        scores = generate_score_levels(score_domain)
 
     # return statistics
     return hist, scores
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..8d89603 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -25,7 +25,9 @@ from sklearn.utils import (
 
 import sklearn.metrics as skm
 
-from . import mean_absolute_error, mean_squared_error, score_histogram
+from . import (
+    generate_score_levels, mean_absolute_error, mean_squared_error,
+    score_histogram)
 
 # =============================================================================
 # Metadata variables
@@ -141,9 +143,7 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
     stats['n_samples'] = y_true.size
 
     # a list of possible score levels
-    stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+    stats['score levels'] = generate_score_levels(score_domain)
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From 1816d32864153b8c6ba785b05af8cecff4c27583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:28 +0000
Subject: [PATCH 14/48] fix: loaders failed on files of one line and on events
 of one object type

numpy.genfromtxt returns a 0-d array for a file of one line, and a scalar
sub-dtype drops the dimension of an event of one object.
---
 kamrecsys/datasets/base.py      | 14 ++++++++------
 kamrecsys/datasets/movielens.py | 16 ++++++++++------
 kamrecsys/datasets/others.py    |  3 ++-
 kamrecsys/datasets/sushi3.py    |  8 +++++---
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,11 +85,12 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -137,11 +138,12 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..75acf27 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -163,7 +163,8 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('age', int), ('gender', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -175,8 +176,9 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18),
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -293,7 +295,8 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('gender', int), ('age', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -302,8 +305,9 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('year', int),
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..693a4a6 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -189,7 +189,8 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('current_ew', int),
         ('moved', int)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -204,8 +205,9 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('price', float),
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From c9fc82faafce5f014ce2514aa3ac33edd9238ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:28 +0000
Subject: [PATCH 15/48] fix: set_event left object features aligned with
 obsolete internal ids

---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..7ae6e04 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -208,6 +208,8 @@ class EventData(BaseData, EventUtilMixin):
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
+            # rows of features are aligned with the replaced internal ids
+            self.feature[otype] = None
 
         self.event = np.empty_like(event, dtype=int)
         for e in xrange(self.s_event):
-- 
2.43.0


From 1d33c27c01502a5d76f75a68d7f7da62f1214803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:28 +0000
Subject: [PATCH 16/48] fix: MultinomialPLSA reported a failure if it converged
 at the last allowed iteration

---
 kamrecsys/score_predictor/topic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..fb0c774 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -287,8 +287,8 @@ class MultinomialPLSA(BaseScorePredictor):
                     " {:.15g}".format(precision))
                 break
             pre_loss = cur_loss
-
-        if iter_no >= maxiter - 1:
+        else:
+            # finished without reaching to a specified tolerance
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
-- 
2.43.0


From bf634803d38bc584719e7d06134cf47b959c3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:28 +0000
Subject: [PATCH 17/48] fix: models modified a dictionary of optimizer options
 owned by a caller

Consequently, maxiter specified for one model leaked into the other models
created with the same options.
---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index d44c9cd..fa63bc9 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -128,7 +128,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
@@ -503,7 +503,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 44e7e47..ab35b4d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -117,7 +117,7 @@ class PMF(BaseScorePredictor):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
-- 
2.43.0


From 655dda5c5e7e0342983ae515cf5b6fffcb399ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 18/48] fix: rejected training data broke an already learned
 recommender

Object information of a model was replaced with those of invalid data before
the data were checked.
---
 kamrecsys/base/base.py            | 4 ++++
 kamrecsys/item_finder/base.py     | 8 ++++++--
 kamrecsys/score_predictor/base.py | 4 ++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index bf1eb28..6b9b7bc 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -202,6 +202,10 @@ class BaseEventRecommender(
             a set of indexes to specify the elements in events that are used
             in a recommendation model
         """
+        # check input before updating this model
+        if not isinstance(data, EventData):
+            raise TypeError("input data must data.EventData class")
+
         super(BaseEventRecommender, self).fit(data)
 
         # set object information in data
diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 018856e..e99baac 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -23,7 +23,7 @@ from scipy import sparse as sparse
 from six import with_metaclass
 
 from ..base import BaseEventRecommender
-from ..data import EventData, ScoreUtilMixin
+from ..data import EventData, EventWithScoreData, ScoreUtilMixin
 from ..utils import is_binary_score
 
 # =============================================================================
@@ -118,7 +118,9 @@ class BaseExplicitItemFinder(
             only 0 or 1, at least one 0 or 1 must be contained, and the
             number of score levels are 2
         """
-        super(BaseExplicitItemFinder, self).fit(data, event_index)
+        # check input before updating this model
+        if not isinstance(data, EventWithScoreData):
+            raise TypeError("input data must data.EventWithScoreData class")
 
         # check whether scores are binary
         if (
@@ -127,6 +129,8 @@ class BaseExplicitItemFinder(
                 (data.n_score_levels != 2)):
             raise ValueError('Scores are not binary type')
 
+        super(BaseExplicitItemFinder, self).fit(data, event_index)
+
         # set object information in data
         self._set_score_info(data)
 
diff --git a/kamrecsys/score_predictor/base.py b/kamrecsys/score_predictor/base.py
index c5087d2..d5c30cb 100644
--- a/kamrecsys/score_predictor/base.py
+++ b/kamrecsys/score_predictor/base.py
@@ -110,6 +110,10 @@ class BaseScorePredictor(
             a set of indexes to specify the elements in events that are used
             in a recommendation model
         """
+        # check input before updating this model
+        if not isinstance(data, EventWithScoreData):
+            raise TypeError("input data must data.EventWithScoreData class")
+
         super(BaseScorePredictor, self).fit(data, event_index)
 
         # set object information in data
-- 
2.43.0


From 409794adb73ea88c724ca950014e4e707b6cd30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 19/48] fix: json.load does not accept an encoding argument any
 more

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From b9e2484e664643a48131cf412a884e407155c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 20/48] fix: hold-out tests recorded the training file as the
 test file

---
 scripts/exp_recsys_util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..4d94c96 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 9805b8883d37e3887c1e811edc3c55624f5d5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 21/48] fix: the end time of a test was recorded as its start
 time

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 4d94c96..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
-- 
2.43.0


From 547ff23ac96c53e951a8e0a33c5d8233d67fbaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 22/48] fix: NameError instead of a message of an invalid
 validation scheme

---
 scripts/exp_recsys_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..41c325f 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -320,7 +320,8 @@ def do_task(info, load_data, target_fold=None):
     elif info['condition']['scheme'] == 'cv':
         cv_test(info, load_data, target_fold=target_fold)
     else:
-        raise TypeError("Invalid validation scheme: {0:s}".format(opt.method))
+        raise TypeError("Invalid validation scheme: {0:s}".format(
+            info['condition']['scheme']))
 
     # output information
     outfile = info['condition']['out_file']
-- 
2.43.0


From f2970a180f11df39f6f0fb05d0b62d3af407fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 23/48] fix: predictions on one test event were not recorded as
 an array

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 41c325f..d056d53 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -129,7 +129,7 @@ def testing(rec, ev):
     logger.info("test_start_time = " + res_info['start_time'])
 
     # prediction
-    esc = rec.predict(ev)
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
-- 
2.43.0


From a31f68d3020f758917ff2bf447c7aad3f756e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:25 +0000
Subject: [PATCH 24/48] fix: to_iid_event rejected an int value of
 missing_values

---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 7ae6e04..8918c37 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -101,6 +101,8 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         """
         if missing_values is None:
             missing_values = self.n_objects[self.event_otypes]
+        elif np.ndim(missing_values) == 0:
+            missing_values = np.repeat(missing_values, self.s_event)
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 83e24de705f1faf770e01dfd680290d67d42a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 25/48] fix: set_event kept a reference to an array of
 score_domain owned by a caller

---
 kamrecsys/data/event_with_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index ea7a1e9..2a9e91f 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -153,7 +153,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(self.score),
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.asanyarray(score_domain)
+        self.score_domain = np.array(score_domain)
         self.n_score_levels = len(generate_score_levels(score_domain))
 
     def digitize_score(self, score=None):
-- 
2.43.0


From 29353a45928ecef8555d8baba4e7cc87ccc6892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 26/48] fix: MultinomialPLSA reported one iteration and an
 infinite loss if maxiter=0

---
 kamrecsys/score_predictor/topic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index fb0c774..fce8c23 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -260,8 +260,8 @@ class MultinomialPLSA(BaseScorePredictor):
         tol = self.optimizer_kwargs['tol']
 
         # main loop
-        iter_no = 0
-        cur_loss = np.inf
+        iter_no = -1
+        cur_loss = pre_loss
         for iter_no in xrange(maxiter):
 
             # E-Step
-- 
2.43.0


From 43af53ec6de4a1b3be9adce7d3d8fea0d5151ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 27/48] fix: reports of single precision scores could not be
 displayed

---
 kamrecsys/metrics/item_finder.py     | 3 ++-
 kamrecsys/metrics/score_predictor.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/item_finder.py b/kamrecsys/metrics/item_finder.py
index cb2feaa..4d5834f 100644
--- a/kamrecsys/metrics/item_finder.py
+++ b/kamrecsys/metrics/item_finder.py
@@ -26,7 +26,7 @@ from sklearn.utils import (
 import sklearn.metrics as skm
 
 from . import mean_absolute_error
-from ..utils import is_binary_score
+from ..utils import is_binary_score, json_decodable
 
 # =============================================================================
 # Metadata variables
@@ -96,6 +96,7 @@ def item_finder_report(y_true, y_pred, disp=True):
 
     # display statistics
     if disp:
+        json_decodable(stats)
         print(
             json.dumps(
                 stats, sort_keys=True, indent=4, separators=(',', ': '),
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 8d89603..ac74d67 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -28,6 +28,7 @@ import sklearn.metrics as skm
 from . import (
     generate_score_levels, mean_absolute_error, mean_squared_error,
     score_histogram)
+from ..utils import json_decodable
 
 # =============================================================================
 # Metadata variables
@@ -95,6 +96,7 @@ def score_predictor_report(y_true, y_pred, disp=True):
 
     # display statistics
     if disp:
+        json_decodable(stats)
         print(json.dumps(
             stats, sort_keys=True, indent=4, separators=(',', ': '),
             ensure_ascii=False),
-- 
2.43.0


From 4f63ccc3371953c2bed4c661463c363002395ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:37 +0000
Subject: [PATCH 28/48] fix: score levels and thresholds overflowed on scores
 of narrow numeric types

---
 kamrecsys/data/event_with_score.py | 8 +++++---
 kamrecsys/metrics/base.py          | 8 ++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 2a9e91f..629ea0a 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -149,10 +149,13 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
 
         self.score = np.array(score)
         if score_domain is None:
+            levels = np.unique(self.score)
+            if levels.dtype.kind in 'iu':
+                levels = levels.astype(int)
             score_domain = [
                 np.min(self.score),
                 np.max(self.score),
-                np.min(np.diff(np.unique(self.score)))]
+                np.min(np.diff(levels))]
         self.score_domain = np.array(score_domain)
         self.n_score_levels = len(generate_score_levels(score_domain))
 
@@ -197,8 +200,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
         # default threshold
         if score_thresh is None:
             score_thresh = (
-                (self.score_domain[1] - self.score_domain[0]) / 2 +
-                self.score_domain[0])
+                float(self.score_domain[0]) + float(self.score_domain[1])) / 2
 
         self.score = np.where(self.score <= score_thresh, 0, 1)
         self.score_domain = np.array([0, 1, 1])
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 7db30cf..8f3f02e 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -59,12 +59,12 @@ def generate_score_levels(score_domain):
     score_levels : array, shape=(n_score_levels,), dtype=float
         possible scores in an ascending order
     """
-    n_strides = (score_domain[1] - score_domain[0]) / score_domain[2]
-    n_strides = int(np.ceil(n_strides - 1e-6))
+    # narrow integer types may overflow
+    start, end, stride = np.asarray(score_domain, dtype=float)
+    n_strides = int(np.ceil((end - start) / stride - 1e-3))
 
     return np.hstack(
-        [score_domain[0] + score_domain[2] * np.arange(n_strides, dtype=float),
-         score_domain[1]])
+        [start + stride * np.arange(n_strides, dtype=float), end])
 
 
 def generate_score_bins(score_domain):
-- 
2.43.0


From 5c92e23deb34bf586eeb5591e9442a6f18c2a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:18 +0000
Subject: [PATCH 29/48] fix: non-ASCII names of items were loaded as '???'

---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 75acf27..b73d013 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -178,7 +178,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -307,7 +307,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 693a4a6..a5d62ed 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -207,7 +207,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From af004aaf12fa2a7e0769e075f9359e30b44eb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:27 +0000
Subject: [PATCH 30/48] fix: training failed with optimizers that do not report
 numbers of gradient calls or iterations

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index fa63bc9..82d846a 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -381,9 +381,9 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit', 0)
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
@@ -737,9 +737,9 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit', 0)
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index ab35b4d..598d944 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -373,9 +373,9 @@ class PMF(BaseScorePredictor):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit', 0)
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
-- 
2.43.0


From 5d8d0f78732d0ae123df6cf67da93ab3c576f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:07 +0000
Subject: [PATCH 31/48] fix: illegal event_index or data without events broke
 an already learned recommender

---
 kamrecsys/base/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 6b9b7bc..b622079 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -206,17 +206,20 @@ class BaseEventRecommender(
         if not isinstance(data, EventData):
             raise TypeError("input data must data.EventData class")
 
+        # select information about events used for training.  this fails if
+        # data have no events or the specified elements
+        if event_index is None:
+            event_index = np.arange(data.s_event, dtype=int)
+        else:
+            event_index = np.asanyarray(event_index, dtype=int)
+        event = data.event.take(event_index, axis=1)
+
         super(BaseEventRecommender, self).fit(data)
 
         # set object information in data
         self._set_event_info(data)
-        if event_index is None:
-            self.event_index = np.arange(self.s_event, dtype=int)
-        else:
-            self.event_index = np.asanyarray(event_index, dtype=int)
-
-        # select information about events used for training
-        self.event = self.event.take(self.event_index, axis=1)
+        self.event_index = event_index
+        self.event = event
 
     @abstractmethod
     def raw_predict(self, ev):
-- 
2.43.0


From 715ac94b070ca6507812dbc80885a49b6918de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:40 +0000
Subject: [PATCH 32/48] fix: learned recommenders kept a reference to an array
 of event_index owned by a caller

---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index b622079..8b7604c 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -211,7 +211,7 @@ class BaseEventRecommender(
         if event_index is None:
             event_index = np.arange(data.s_event, dtype=int)
         else:
-            event_index = np.asanyarray(event_index, dtype=int)
+            event_index = np.array(event_index, dtype=int)
         event = data.event.take(event_index, axis=1)
 
         super(BaseEventRecommender, self).fit(data)
-- 
2.43.0


From 5d3c4173b9c75f6063e4cee7738d4fb1415e73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:21 +0000
Subject: [PATCH 33/48] fix: sparse matrices of the DOK format were lost in
 records of results

dok_matrix is a subclass of dict, and was taken for a container.
---
 kamrecsys/utils/kamexputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..f373092 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,7 +64,7 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
-            if isinstance(v, (dict, list)):
+            if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
@@ -82,7 +82,7 @@ def json_decodable(x):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
-            if isinstance(v, (dict, list)):
+            if isinstance(v, (dict, list)) and not issparse(v):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
-- 
2.43.0


From 88abdee11b94e16652f44ef0427f44762a89d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:55 +0000
Subject: [PATCH 34/48] fix: variance with a gamma prior cancelled out if the
 mean of data is large

---
 kamrecsys/metrics/real.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 9ae7da2..a3e8548 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -225,10 +225,10 @@ def variance_with_gamma_prior(
     # calc variance
     n = x.size
 
-    x_sum = x.sum()
-    x_sqsum = (x ** 2).sum()
-    var = (2 * b + x_sqsum - (x_sum ** 2) / n) / (2 * a + n)
-    var = b / a if var <= 0. else var
+    # the sum of squared deviations is computed from centered data, because
+    # the difference between sums of squares cancels out if a mean is large
+    x_sqdev = ((x - x.mean()) ** 2).sum()
+    var = (2 * b + x_sqdev) / (2 * a + n)
 
     if full_output:
         return var, n
-- 
2.43.0


From 10932e5097a5e4519ce83575aa4b7c5cd8e7d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:24:57 +0000
Subject: [PATCH 35/48] fix: filtered containers and models shared id tables,
 object types and score domains

---
 kamrecsys/data/base.py             | 4 ++++
 kamrecsys/data/event.py            | 4 ++--
 kamrecsys/data/event_with_score.py | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index e7e111a..b643039 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -17,6 +17,7 @@ from six.moves import xrange
 
 import logging
 from abc import ABCMeta
+from copy import copy
 
 import numpy as np
 from six import with_metaclass
@@ -69,6 +70,9 @@ class ObjectUtilMixin(object):
         self.n_objects = data.n_objects.copy()
         self.eid = data.eid.copy()
         self.iid = data.iid.copy()
+        for otype in xrange(self.n_otypes):
+            self.eid[otype] = copy(data.eid[otype])
+            self.iid[otype] = copy(data.iid[otype])
 
     def to_eid(self, otype, iid):
         """
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 8918c37..8a1e452 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -136,7 +136,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             raise TypeError("input data must data.EventData class")
 
         self.s_event = data.s_event
-        self.event_otypes = data.event_otypes
+        self.event_otypes = data.event_otypes.copy()
         self.n_events = data.n_events
         self.event = data.event
         self.event_feature = data.event_feature
@@ -261,7 +261,7 @@ class EventData(BaseData, EventUtilMixin):
         data.eid = self.eid.copy()
         data.iid = self.iid.copy()
         data.feature = self.feature.copy()
-        # data.event_otypes = self.event_otypes.copy()
+        data.event_otypes = self.event_otypes.copy()
 
         for otype in xrange(data.n_otypes):
 
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 629ea0a..6765621 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -63,7 +63,7 @@ class ScoreUtilMixin(with_metaclass(ABCMeta, object)):
         if not isinstance(data, EventWithScoreData):
             raise TypeError("input data must data.EventWithScoreData class")
 
-        self.score_domain = data.score_domain
+        self.score_domain = np.array(data.score_domain)
         self.score = data.score
         self.n_score_levels = data.n_score_levels
 
@@ -234,6 +234,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
         # filter out event data
         if self.score is not None:
             data.score = self.score[filter_cond]
+            data.score_domain = np.array(self.score_domain)
 
         return data
 
-- 
2.43.0


From 5035632ee021229018af06959f852eda0d83cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:18:33 +0000
Subject: [PATCH 36/48] fix: metrics converted integers of 32 bits or less to
 single precision

---
 kamrecsys/metrics/item_finder.py     | 11 +++++------
 kamrecsys/metrics/real.py            | 11 +++++------
 kamrecsys/metrics/score_predictor.py | 11 +++++------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/kamrecsys/metrics/item_finder.py b/kamrecsys/metrics/item_finder.py
index 4d5834f..0144642 100644
--- a/kamrecsys/metrics/item_finder.py
+++ b/kamrecsys/metrics/item_finder.py
@@ -21,8 +21,7 @@ import json
 
 import numpy as np
 
-from sklearn.utils import (
-    as_float_array, assert_all_finite, check_consistent_length)
+from sklearn.utils import assert_all_finite, check_consistent_length
 import sklearn.metrics as skm
 
 from . import mean_absolute_error
@@ -79,9 +78,9 @@ def item_finder_report(y_true, y_pred, disp=True):
     assert_all_finite(y_true)
     if not is_binary_score(y_true):
         raise ValueError('True scores must be binary')
-    y_true = as_float_array(y_true)
+    y_true = np.asarray(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.asarray(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calc statistics
@@ -132,9 +131,9 @@ def item_finder_statistics(y_true, y_pred):
     assert_all_finite(y_true)
     if not is_binary_score(y_true):
         raise ValueError('True scores must be binary')
-    y_true = as_float_array(y_true)
+    y_true = np.asarray(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.asarray(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calc statistics
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index a3e8548..b0b4574 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -18,8 +18,7 @@ from six.moves import xrange
 import logging
 
 import numpy as np
-from sklearn.utils import (
-    as_float_array, assert_all_finite, check_consistent_length)
+from sklearn.utils import assert_all_finite, check_consistent_length
 
 from . import generate_score_bins, generate_score_levels
 
@@ -70,9 +69,9 @@ def mean_absolute_error(y_true, y_pred):
 
     # check inputs
     assert_all_finite(y_true)
-    y_true = as_float_array(y_true)
+    y_true = np.asarray(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.asarray(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calculate errors
@@ -109,9 +108,9 @@ def mean_squared_error(y_true, y_pred):
 
     # check inputs
     assert_all_finite(y_true)
-    y_true = as_float_array(y_true)
+    y_true = np.asarray(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.asarray(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calculate errors
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index ac74d67..9827adf 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -20,8 +20,7 @@ import logging
 import json
 
 import numpy as np
-from sklearn.utils import (
-    as_float_array, assert_all_finite, check_consistent_length)
+from sklearn.utils import assert_all_finite, check_consistent_length
 
 import sklearn.metrics as skm
 
@@ -80,9 +79,9 @@ def score_predictor_report(y_true, y_pred, disp=True):
 
     # check inputs
     assert_all_finite(y_true)
-    y_true = as_float_array(y_true)
+    y_true = np.asarray(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.asarray(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calc statistics
@@ -133,9 +132,9 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(y_true)
-    y_true = as_float_array(y_true)
+    y_true = np.asarray(y_true, dtype=float)
     assert_all_finite(y_pred)
-    y_pred = as_float_array(y_pred)
+    y_pred = np.asarray(y_pred, dtype=float)
     check_consistent_length(y_true, y_pred)
 
     # calc statistics
-- 
2.43.0


From 18074e3fe6db91d48d999aef400a86d52d9fa00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:21:13 +0000
Subject: [PATCH 37/48] fix: sums of scores in half precision overflowed in
 initialising models

---
 kamrecsys/item_finder/matrix_factorization.py     | 2 +-
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 82d846a..8385ced 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -190,7 +190,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.q_ = self._coef.view(self._dt)['q'][0]
 
         # set bias term
-        self.mu_[0] = np.sum(sc) / n_events
+        self.mu_[0] = np.sum(sc, dtype=float) / n_events
         for i in xrange(n_users):
             j = np.nonzero(ev[:, 0] == i)[0]
             if len(j) > 0:
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 598d944..07c5647 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -179,7 +179,7 @@ class PMF(BaseScorePredictor):
         self.q_ = self._coef.view(self._dt)['q'][0]
 
         # set bias term
-        self.mu_[0] = np.sum(sc) / n_events
+        self.mu_[0] = np.sum(sc, dtype=float) / n_events
         for i in xrange(n_users):
             j = np.nonzero(ev[:, 0] == i)[0]
             if len(j) > 0:
-- 
2.43.0


From 30de8054bd2193a276dd1cf98c6957644d7516f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:41:36 +0000
Subject: [PATCH 38/48] fix: filtering by an empty list or a tuple of indexes
 failed

---
 kamrecsys/data/event.py            | 3 +++
 kamrecsys/data/event_with_score.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 8a1e452..e3e1bab 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -248,6 +248,9 @@ class EventData(BaseData, EventUtilMixin):
 
         # re-arrange filter
         filter_cond = np.asarray(filter_cond)
+        if filter_cond.size == 0:
+            # an array converted from an empty list is not of an integer type
+            filter_cond = filter_cond.astype(int)
 
         # copy data
         data = copy(self)
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 6765621..b7a6300 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -233,6 +233,9 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
 
         # filter out event data
         if self.score is not None:
+            if isinstance(filter_cond, tuple):
+                # a tuple would be taken as indexes of dimensions
+                filter_cond = list(filter_cond)
             data.score = self.score[filter_cond]
             data.score_domain = np.array(self.score_domain)
 
-- 
2.43.0


From 8a9ec4039fef0b6f878ff76e76897a939bc97764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:12 +0000
Subject: [PATCH 39/48] fix: set_event rejected events in nested lists or
 tuples

---
 kamrecsys/data/event.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index e3e1bab..7803e90 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -207,6 +207,7 @@ class EventData(BaseData, EventUtilMixin):
         event_feature : optional, array_like, shape=(n_events, variable)
             feature of events
         """
+        event = np.asarray(event)
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
-- 
2.43.0


From 157dbccdb3587fe4136c76994a405c5568fe156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:26 +0000
Subject: [PATCH 40/48] fix: events in nested lists or tuples could not be
 converted or predicted

---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 7803e90..22a9e51 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -62,6 +62,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         new_data : array_like
             array whose elements are represented by external ids
         """
+        data = np.asarray(data)
         if data.ndim == 1 and data.shape[0] == self.s_event:
             new_data = np.array(
                 [self.eid[self.event_otypes[e]][data[e]]
@@ -99,6 +100,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         TypeError
             Shape of an input array is illegal
         """
+        ev = np.asarray(ev)
         if missing_values is None:
             missing_values = self.n_objects[self.event_otypes]
         elif np.ndim(missing_values) == 0:
-- 
2.43.0


From e1d013fc0cc3bc9d00eccadc7aad640570fa8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:26 +0000
Subject: [PATCH 41/48] fix: set_feature rejected features in lists or tuples

---
 kamrecsys/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index b643039..2f729a5 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -252,7 +252,7 @@ class BaseData(with_metaclass(ABCMeta, ObjectUtilMixin, object)):
         for i, j in enumerate(eid):
             if j in iid:
                 index[iid[j]] = i
-        self.feature[otype] = feature[index].copy()
+        self.feature[otype] = np.asarray(feature)[index].copy()
 
 
 # =============================================================================
-- 
2.43.0


From cc7a940b0ec52d7792c74f8ad5b4fc366dd0e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:47:36 +0000
Subject: [PATCH 42/48] fix: events of an illegal shape were rejected after
 changing a container

---
 kamrecsys/data/event.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 22a9e51..e91dda9 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -208,8 +208,16 @@ class EventData(BaseData, EventUtilMixin):
             with external ids
         event_feature : optional, array_like, shape=(n_events, variable)
             feature of events
+
+        Raises
+        ------
+        TypeError
+            Shape of an input array is illegal
         """
         event = np.asarray(event)
+        if event.ndim != 2 or event.shape[1] != self.s_event:
+            raise TypeError('The shape of an input is illegal')
+
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
-- 
2.43.0


From d1acd229ea65804f4ddfdcc2328edc7e0108db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:06 +0000
Subject: [PATCH 43/48] fix: statistics over folds paired scores by the order
 in the file

True and predicted scores of the folds were concatenated in the order in
which the folds are written in each of the two JSON objects; scores of
different folds were compared if these orders differ.
---
 scripts/stats_recsys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index 8e2eb31..dbd0008 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -106,8 +106,9 @@ def do_task(opt):
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-        y_true = np.concatenate(list(info['prediction']['true'].values()))
-        y_pred = np.concatenate(list(info['prediction']['predicted'].values()))
+        true, pred = info['prediction']['true'], info['prediction']['predicted']
+        y_true = np.concatenate([true[fold] for fold in true])
+        y_pred = np.concatenate([pred[fold] for fold in true])
     else:
         y_true = info['prediction']['true']
         y_pred = info['prediction']['predicted']
-- 
2.43.0


From 180ff78cfeccc737bdaab98a208a46eced052fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:13 +0000
Subject: [PATCH 44/48] fix: recorded optimizer options changed with those of
 the model

fit_results_['optimizer_kwargs'] shared its dictionaries with the
attribute of the model, so that changing the options for the next fit
changed the record of the last one.
---
 kamrecsys/item_finder/matrix_factorization.py     | 2 ++
 kamrecsys/score_predictor/matrix_factorization.py | 1 +
 kamrecsys/score_predictor/topic_model.py          | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 8385ced..18596c1 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -343,6 +343,7 @@ class LogisticPMF(BaseExplicitItemFinder):
 
         # check optimization parameters
         optimizer_kwargs = self.optimizer_kwargs.copy()
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         optimizer_method = optimizer_kwargs.pop('method', 'CG')
 
         # get initial loss
@@ -699,6 +700,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
 
         # check optimization parameters
         optimizer_kwargs = self.optimizer_kwargs.copy()
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         optimizer_method = optimizer_kwargs.pop('method', 'CG')
 
         # get initial loss
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 07c5647..129649d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -335,6 +335,7 @@ class PMF(BaseScorePredictor):
 
         # check optimization parameters
         optimizer_kwargs = self.optimizer_kwargs.copy()
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         optimizer_method = optimizer_kwargs.pop('method', 'CG')
 
         # get initial loss
diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index fce8c23..4b2efac 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -309,7 +309,7 @@ class MultinomialPLSA(BaseScorePredictor):
         self.fit_results_['success'] = (self.fit_results_['status'] == 0)
         self.fit_results_['message'] = (
             get_fit_status_message(self.fit_results_['status']))
-        self.fit_results_['optimizer_kwargs'] = self.optimizer_kwargs
+        self.fit_results_['optimizer_kwargs'] = self.optimizer_kwargs.copy()
 
         # add parameters for unknown users and items
         self.pXgZ_ = np.r_[self.pXgZ_, np.ones((1, self.k), dtype=float)]
-- 
2.43.0


From db23eef25892a7e474a55a4620dc3c694dfdd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:54 +0000
Subject: [PATCH 45/48] fix: predict truncated fractions and overflowed large
 ids to confuse unknown objects with known ones

---
 kamrecsys/base/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 8b7604c..fb9ca16 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -253,9 +253,8 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        # external ids are not always integers
-        dtype = int if self.eid[0].dtype.kind in 'iu' else None
-        eev = check_array(np.atleast_2d(eev), dtype=dtype)
+        # external ids are not always integers, and must not be converted
+        eev = check_array(np.atleast_2d(eev), dtype=None)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From 581dbbaf8e8e619e6852f43815960f482e7d90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:54 +0000
Subject: [PATCH 46/48] fix: None and numpy booleans in records of results
 became strings

---
 kamrecsys/utils/kamexputils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index f373092..29d7af8 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -78,7 +78,9 @@ def json_decodable(x):
                 x[k] = float(v)
             elif isinstance(v, np.complexfloating):
                 x[k] = complex(v)
-            elif not isinstance(v, (bool, int, float, complex)):
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
+            elif not (v is None or isinstance(v, (bool, int, float, complex))):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
@@ -96,7 +98,9 @@ def json_decodable(x):
                 x[k] = float(v)
             elif isinstance(v, np.complexfloating):
                 x[k] = complex(v)
-            elif not isinstance(v, (bool, int, float, complex)):
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
+            elif not (v is None or isinstance(v, (bool, int, float, complex))):
                 x[k] = str(v)
 
 
-- 
2.43.0


From 3f2a21438f7ce57db69f2b3af59583a598e610f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 47/48] fix: to_eid_event took negative internal ids for ids of
 the last objects

---
 kamrecsys/data/event.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index e91dda9..13819d4 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -61,8 +61,15 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         -------
         new_data : array_like
             array whose elements are represented by external ids
+
+        Raises
+        ------
+        ValueError
+            an internal id is negative
         """
         data = np.asarray(data)
+        if np.any(data < 0):
+            raise ValueError("Illegal internal id")
         if data.ndim == 1 and data.shape[0] == self.s_event:
             new_data = np.array(
                 [self.eid[self.event_otypes[e]][data[e]]
-- 
2.43.0


From 786db0d2e7f4e4ef9327fbdf61233bed7219a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 48/48] fix: set_event rejected ids or scores only after
 changing a container

---
 kamrecsys/data/event.py            | 16 ++++++++++------
 kamrecsys/data/event_with_score.py | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 13819d4..51e81d8 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -225,17 +225,21 @@ class EventData(BaseData, EventUtilMixin):
         if event.ndim != 2 or event.shape[1] != self.s_event:
             raise TypeError('The shape of an input is illegal')
 
+        # nothing is stored until all ids are found to be legal
+        ids = [self._gen_id(event[:, self.event_otypes == otype])
+               for otype in xrange(self.n_otypes)]
+        new_event = np.empty_like(event, dtype=int)
+        for e in xrange(self.s_event):
+            iid = ids[self.event_otypes[e]][2]
+            new_event[:, e] = [iid[i] for i in event[:, e]]
+
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
-                self._gen_id(event[:, self.event_otypes == otype]))
+                ids[otype])
             # rows of features are aligned with the replaced internal ids
             self.feature[otype] = None
 
-        self.event = np.empty_like(event, dtype=int)
-        for e in xrange(self.s_event):
-            iid = self.iid[self.event_otypes[e]]
-            self.event[:, e] = [iid[i] for i in event[:, e]]
-
+        self.event = new_event
         self.n_events = self.event.shape[0]
         if event_feature is not None:
             self.event_feature = np.asarray(event_feature).copy()
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index b7a6300..b73e09e 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -145,19 +145,22 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
             feature of events
         """
 
-        super(EventWithScoreData, self).set_event(event, event_feature)
-
-        self.score = np.array(score)
+        score = np.array(score)
         if score_domain is None:
-            levels = np.unique(self.score)
+            levels = np.unique(score)
             if levels.dtype.kind in 'iu':
                 levels = levels.astype(int)
             score_domain = [
-                np.min(self.score),
-                np.max(self.score),
+                np.min(score),
+                np.max(score),
                 np.min(np.diff(levels))]
+        n_score_levels = len(generate_score_levels(score_domain))
+
+        super(EventWithScoreData, self).set_event(event, event_feature)
+
+        self.score = score
         self.score_domain = np.array(score_domain)
-        self.n_score_levels = len(generate_score_levels(score_domain))
+        self.n_score_levels = n_score_levels
 
     def digitize_score(self, score=None):
         """
-- 
2.43.0

