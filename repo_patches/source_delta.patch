From 349eab55d78158af843e841bf8b885a5475cb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 01/51] fix: PreferenceModel.add leaves the training data
 unchanged when it rejects labels

---
 src/lop/models/PreferenceModel.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..bc39555 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -188,6 +188,24 @@ class PreferenceModel(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        # check the labels before storing anything, so a rejected call leaves the
+        # training data as it was.
+        if type not in self.probit_idxs:
+            raise ValueError("add given an unknown type of training data: " + str(type))
+        elif type == 'ordinal':
+            ratings = np.array(y)
+            if len(ratings.shape) > 1:
+                ratings = ratings[:,0]
+            if (ratings.astype(int) <= 0).any():
+                raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
+        elif type == 'abs':
+            if not isinstance(y, (tuple, np.ndarray)):
+                print('abs type received unknown type for y')
+                return
+            v = y[0] if isinstance(y, tuple) else y
+            if (v < 0).any() or (v > 1.0).any():
+                raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
+
         if self.X_train is None:
             self.X_train = X
             len_X = 0
@@ -217,9 +235,6 @@ class PreferenceModel(Model):
             else:
                 new_y = y
 
-            if (new_y[:,0] <= 0).any():
-                raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
-
             if self.y_train[self.probit_idxs[type]] is None:
                 self.y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
             else:
@@ -233,15 +248,10 @@ class PreferenceModel(Model):
             if isinstance(y, tuple):
                 v = y[0]
                 idxs = y[1]
-            elif isinstance(y, np.ndarray):
+            else:
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-            else:
-                print('abs type received unknown type for y')
-                return
 
-            if (v < 0).any() or (v > 1.0).any():
-                raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
             v = np.where(v < 0.001, 0.001, v)
             v = np.where(v > 0.999, 0.999, v)            
 
-- 
2.43.0


From 50ae40d26e7405ced213c0f397c697764c96d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 02/51] fix: models copy the first training points instead of
 keeping the caller's array

---
 src/lop/models/GP.py              | 2 +-
 src/lop/models/PreferenceModel.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..d801d30 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -69,7 +69,7 @@ class GP(Model):
         y = y - self.mean_func(X)
 
         if self.X_train is None:
-            self.X_train = X
+            self.X_train = np.array(X) # copy, so later changes by the caller have no effect
             self.y_train = y
             self.training_sigma = training_sigma
         else:
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index bc39555..9cc0365 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -207,7 +207,7 @@ class PreferenceModel(Model):
                 raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
 
         if self.X_train is None:
-            self.X_train = X
+            self.X_train = np.array(X) # copy, so later changes by the caller have no effect
             len_X = 0
         else:
             len_X = len(self.X_train)
@@ -233,7 +233,7 @@ class PreferenceModel(Model):
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                new_y = np.array(y)
 
             if self.y_train[self.probit_idxs[type]] is None:
                 self.y_train[self.probit_idxs[type]] = (new_y[:,0], new_y[:,1])
@@ -247,7 +247,7 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                idxs = np.array(y[1])
             else:
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-- 
2.43.0


From 55a92c12988257fb7df16ad283ed46e2ba900e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 03/51] fix: removing unreferenced points keeps rated points
 and the prior range right

---
 src/lop/models/PreferenceModel.py | 51 +++++++++++++++++--------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 9cc0365..05468ce 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -111,43 +111,48 @@ class PreferenceModel(Model):
     # @post - X_train has removed indicies, all references in y_train have been
     #          decremented
     def remove_without_reference(self, remove_prior=True):
-        counts = np.zeros(self.X_train.shape[0])
+        if self.X_train is None:
+            return
+        referenced = np.zeros(self.X_train.shape[0], dtype=bool)
 
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
-                for pair in y:
-                    counts[pair[1]] += 1
-                    counts[pair[2]] += 1
-
-        # check which pts don't have any counts
-        #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
-        idx_to_rm = []
-        cur_cts = 0
-        for i in range(len(counts)):
-            if counts[i] == 0:
-                idx_to_rm.append(i)
-                cur_cts += 1
-
-            counts[i] = cur_cts
+                referenced[y[:,1]] = True
+                referenced[y[:,2]] = True
+            else:
+                referenced[y[1]] = True
 
-        # remove X_train points to remove
-        self.X_train = np.delete(self.X_train, idx_to_rm, axis=0)
+        # the new index of each kept point (number of kept points before it)
+        new_idx = np.cumsum(referenced) - 1
 
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
-                for pair in y:
-                    pair[1] -= counts[pair[1]]
-                    pair[2] -= counts[pair[2]]
+                y[:,1] = new_idx[y[:,1]]
+                y[:,2] = new_idx[y[:,2]]
+            else:
+                self.y_train[self.probit_idxs[type]] = (y[0], new_idx[y[1]])
 
+        # remove X_train points to remove
+        self.X_train = self.X_train[referenced]
+        if len(self.X_train) == 0:
+            # nothing is left, go back to having no training data
+            self.X_train = None
+            self.prior_idx = None
 
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
-            self.prior_idx = prior_idx
+            self.prior_idx = (int(np.sum(referenced[:self.prior_idx[0]])),
+                              int(np.sum(referenced[:self.prior_idx[1]])))
+
+        self.optimized = False
 
 
 
-- 
2.43.0


From 309786a5f163340be052d1dbbac6f3d71980270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 04/51] fix: dominance pairs for 1d training points

---
 src/lop/models/PreferenceModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 05468ce..cdb66a4 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -271,7 +271,8 @@ class PreferenceModel(Model):
             d_better = get_dk(1,0)
             # Go through each new sample and check if it pareto optimal to others
             for i, x in enumerate(X):
-                dominate = np.all(x > self.X_train, axis=1)
+                # reshape handles 1d points
+                dominate = np.all((x > self.X_train).reshape(len(self.X_train), -1), axis=1)
 
                 cur_pairs = [(d_better, i+len_X, j) for j in range(len(dominate)) if dominate[j]]
                 pairs += cur_pairs
-- 
2.43.0


From 18fb9d96a7f931e1c4887cc71449ab5d4a840f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 05/51] fix: select with return_not_selected uses the skipped
 points before giving up

---
 src/lop/active_learning/ActiveLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..bcfacb6 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -99,7 +99,7 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or len(not_selected) > 0):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
-- 
2.43.0


From a508f6a970b0c6d98c8160e0420ab86a01838ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 06/51] fix: pair selection stays within the points it may pick
 and the number asked for

---
 src/lop/active_learning/AcquisitionSelection.py | 10 ++++++++--
 src/lop/active_learning/ActiveLearner.py        |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..d956c97 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies, 1)[0]
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
@@ -230,7 +230,13 @@ class AcquisitionSelection(AcquisitionBase):
 
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
-        
+
+        # only consider pairs of the given indicies
+        idxs = np.array(list(indicies))
+        masked_Q = np.full(align_Q.shape, -np.inf)
+        masked_Q[np.ix_(idxs, idxs)] = align_Q[np.ix_(idxs, idxs)]
+        align_Q = masked_Q
+
         pair = self.pick_pair_from_metric(align_Q, prev_selection)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index bcfacb6..f2ee263 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -106,7 +106,7 @@ class ActiveLearner:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
@@ -138,7 +138,7 @@ class ActiveLearner:
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +155,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
-- 
2.43.0


From 83114dd73ace786359fbebf059671892f60e6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 07/51] fix: MixedDecision drops the samples of one call before
 the next

---
 src/lop/active_learning/MixedStrategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..6e14080 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -266,6 +266,10 @@ class MixedDecision(MixedStrategyPeak3):
             pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
             _ = self.abs_comp.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
+            # the samples are only valid for this set of candidates
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
             ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
             print('ratio = ' + str(ratio))
             
@@ -416,6 +420,10 @@ class MixedDecision2(MixedStrategyPeak3):
             pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
             _ = self.abs_comp.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
+            # the samples are only valid for this set of candidates
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
             ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
             print('ratio = ' + str(ratio))
             
-- 
2.43.0


From 59f654fba65d530024bb65fe59a90854df747a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 08/51] fix: GP predicts its mean function when it has no
 training data

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index d801d30..a433848 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
-- 
2.43.0


From 7fe16615b642b424f78e089ff5b9fbfa3e54e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 09/51] fix: generate_ranking_pairs returns the pairs it
 generates

---
 src/lop/utilities/preference_pairs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..073c7ab 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,7 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
+    return pairs
+
 
 
-- 
2.43.0


From 16a2bb028cd0b26d37b2b5a11a64139338ef1061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 10/51] fix: p_human_choice normalizes each row of rewards on
 its own

---
 src/lop/utilities/human_choice_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..3de1dd3 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,7 +41,7 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
     if len(r.shape) > 1:
         sum_e = np.sum(e,axis=-1)
-- 
2.43.0


From 4d6e5b1e8bc9e7fd425a3729461e774708ec00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 11/51] fix: mixed comparision ties compare the same scores as
 the comparision

---
 src/lop/active_learning/RateChooseLearner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..6212876 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -173,7 +173,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
@@ -386,7 +386,7 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From f15b31fbcbdd40d5f2b0ece5644fd5b7c6410584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 12/51] fix: MixedDecision can decide without training data

---
 src/lop/active_learning/MixedStrategy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 6e14080..aa50ce2 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -270,7 +270,10 @@ class MixedDecision(MixedStrategyPeak3):
             self.pairwise_l.unset_samples()
             self.abs_comp.unset_samples()
 
-            ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
+            if self.pairwise_l.sel_metric == self.abs_comp.sel_metric:
+                ratio = 1.0 # also when both are 0, as they are without training data
+            else:
+                ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
             print('ratio = ' + str(ratio))
             
             if ratio > 2.0:
@@ -424,7 +427,10 @@ class MixedDecision2(MixedStrategyPeak3):
             self.pairwise_l.unset_samples()
             self.abs_comp.unset_samples()
 
-            ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
+            if self.pairwise_l.sel_metric == self.abs_comp.sel_metric:
+                ratio = 1.0 # also when both are 0, as they are without training data
+            else:
+                ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
             print('ratio = ' + str(ratio))
             
             if ratio > 2.0:
-- 
2.43.0


From 8a3199a6c420b05efe39ec1e694cd90145d138b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 13/51] fix: AlignmentDecision selects before its first
 decision and leaves the model fit to all data

---
 src/lop/active_learning/MixedTypeDecision.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..351ef97 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -70,7 +70,8 @@ class AlignmentDecision(RateChooseLearner):
         #abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
         select_pair = True
-        
+        # only scored when selecting using the decision metric
+        rating_score, pref_score = None, None
 
         if self.num_calls < self.calls_to_decision:
             if self.num_calls % 2 == 0:
@@ -142,6 +143,8 @@ class AlignmentDecision(RateChooseLearner):
         ## Reset model and start evaluating samples
         self.model.y_train[0] = pref_data
         self.model.y_train[2] = rating_data
+        # the model was fit to only part of the data, so have it fit all of it again
+        self.model.optimized = False
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-- 
2.43.0


From 1aa251ad9909eb823fc19e9415837f927982f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 14/51] fix: combined kernels return the gradient of every
 parameter

---
 src/lop/kernels/KernelFunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..31ce8fe 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -235,7 +235,7 @@ class DualKern(KernelFunc):
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-        return a_grad + b_grad
+        return np.append(np.array(a_grad), np.array(b_grad), axis=0)
 
 
 
-- 
2.43.0


From dab773565b6b30de7ebbeecb3bc67e65b9b22505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 15/51] fix: randomize_hyper samples exactly the
 hyperparameters set_hyper takes

---
 src/lop/kernels/KernelFunc.py     | 6 ++++++
 src/lop/models/PreferenceGP.py    | 7 +++++--
 src/lop/probits/AbsBoundProbit.py | 2 ++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index 31ce8fe..3d39f96 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -165,6 +165,12 @@ class DualKern(KernelFunc):
     def get_param(self):
         return np.append(self.a.get_param(), self.b.get_param(), axis=0)
 
+    ## Performs random sampling using the same liklihood function used by the param
+    # liklihood function
+    # @return numpy array of independent samples.
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
     ## param_likli
     # log liklihood of the parameter (prior)
     def param_likli(self):
diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..e4a381e 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -483,11 +483,14 @@ class PreferenceGP(PreferenceModel):
     def randomize_hyper(self):
         probit_samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            # only probits with data are part of the hyperparameters
+            if self.y_train[i] is not None:
+                sample = self.probits[i].randomize_hyper()
+                probit_samples = np.append(probit_samples, sample, axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
+            return
         
         cov_samples = self.cov_func.randomize_hyper()
 
diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..3cb4338 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
-- 
2.43.0


From 775243beb596df69b19e1e53111caac5ecbfdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 16/51] fix: RBF kernel adds noise only between a set of points
 and itself

---
 src/lop/kernels/RBF_kern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..5a9aee3 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -116,7 +116,7 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        if np.array_equal(X, Y):
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
-- 
2.43.0


From 63123f2275ef992ce1f81633c740525e969f492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 17/51] fix: zeroed RBF kernel gives the same value pointwise
 as in its matrix

---
 src/lop/kernels/RBF_kern_zeroed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..21763e3 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -142,5 +142,7 @@ class RBF_kern_zeroed(RBF_kern):
         
         cov = super().__call__(u,v)
         cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
+        # same scaling as the covariance matrix
+        cov_0 = cov_0 / (self.sigma * self.sigma)
 
         return cov - cov_0
-- 
2.43.0


From 52015e86421b7a10996fba4207898fabd4cda137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 18/51] fix: prediction with a singular covariance keeps one
 mean per point

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index e4a381e..fe72573 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -129,7 +129,7 @@ class PreferenceGP(PreferenceModel):
         except:
             try:
                 K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
+                alpha = K_inv @ F
             except:
                 pdb.set_trace()
 
-- 
2.43.0


From fbff7a6843e0c2c989bc65040b2d7e6c45c79810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 19/51] fix: fake functions give one value per point for single
 points and lists

---
 src/lop/utilities/FakeFunction.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..8c3979b 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,8 +145,7 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         return np.max(rewards * self.w, axis=1)
@@ -172,8 +171,7 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
         return np.min(rewards * self.w, axis=1)
@@ -199,13 +197,10 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            return rewards
         vals = rewards * self.w
-        mins = np.min(vals, axis=1)
-        return np.sqrt(np.max(vals, axis=1)) + mins*mins
+        mins = np.min(vals, axis=-1)
+        return np.sqrt(np.max(vals, axis=-1)) + mins*mins
 
     def __str__(self):
         return 'FakeSquaredMinMax: (w: ' + str(self.w) + ')'
@@ -262,7 +257,8 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
+        # a single point of several dimensions gives a single value
+        if isinstance(rewards, np.ndarray) and (len(rewards.shape) > 1 or self.dim == 1):
             z = np.zeros(rewards.shape[0])
         else:
             z = 0
-- 
2.43.0


From 3624e3bfff7333fe5d80c98e20a0ed01f41faa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 20/51] fix: ordinal log likelihood does not underflow with
 many ratings

---
 src/lop/probits/OrdinalProbit.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..3a2dc3f 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -229,3 +229,13 @@ class OrdinalProbit(ProbitBase):
     def likelihood(self, y, F):
         return np.prod(self.likelihood_each(y, F))
 
+    ## log_likelihood
+    # Returns the log liklihood function for the given probit. Sums the logs of each
+    # label, as the product of many likelihoods underflows.
+    # @param y - the given set of labels for the probit (rating, u)
+    # @param F - the input data samples
+    #
+    # @return log P(y|F)
+    def log_likelihood(self, y, F):
+        return np.sum(np.log(self.likelihood_each(y, F)))
+
-- 
2.43.0


From 40b75e9760cc5bac6a0a4eebfe3cd5da95d23283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 21/51] fix: absolute log likelihood counts every score of a
 point

---
 src/lop/probits/AbsBoundProbit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 3cb4338..b43abda 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -309,10 +309,8 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
 
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
-- 
2.43.0


From a97cc4462a38af28d268f3f824dfa724f6f8ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:31 +0000
Subject: [PATCH 22/51] fix: weighted and mixture fake functions evaluate
 batches of queries per point

---
 src/lop/utilities/FakeFunction.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 8c3979b..6377383 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -148,7 +148,7 @@ class FakeWeightedMax(FakeFunction):
             return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
-        return np.max(rewards * self.w, axis=1)
+        return np.max(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMax: (w: ' + str(self.w) + ')'
@@ -174,7 +174,7 @@ class FakeWeightedMin(FakeFunction):
             return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
-        return np.min(rewards * self.w, axis=1)
+        return np.min(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMin: (w: ' + str(self.w) + ')'
@@ -257,15 +257,20 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
+        if isinstance(rewards, list):
+            rewards = np.array(rewards)
         # a single point of several dimensions gives a single value
-        if isinstance(rewards, np.ndarray) and (len(rewards.shape) > 1 or self.dim == 1):
+        if isinstance(rewards, np.ndarray) and len(rewards.shape) > 1:
+            z = np.zeros(rewards.shape[:-1])
+        elif isinstance(rewards, np.ndarray) and len(rewards.shape) == 1 and self.dim == 1:
             z = np.zeros(rewards.shape[0])
         else:
             z = 0
 
         for i in range(self.num_kerns):
             #z += norm.pdf(rewards, loc=self.means[i], scale=self.sigs[i])
-            z += multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i])
+            # pdf drops dimensions of length one
+            z += np.reshape(multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i]), np.shape(z))
 
         return z
 
-- 
2.43.0


From 6b265d0ba06daf6076d76d23201b6cf67539117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:04 +0000
Subject: [PATCH 23/51] fix: AlignmentDecision restores the training data when
 scoring fails

---
 src/lop/active_learning/MixedTypeDecision.py | 53 ++++++++++----------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 351ef97..055cdef 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -118,33 +118,32 @@ class AlignmentDecision(RateChooseLearner):
         print('rating_data')
         print(rating_data)
 
-        ## Generate samples using only preference data
-        self.model.y_train[2] = None
-        self.model.optimize()
-        mu_pref, sig_pref = self.model.predict(x_rep)
-        pref_cov = self.model.cov
-
-        pref_rep, pref_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
-
-
-        ## Generate samples using only rating data
-        self.model.y_train[0] = None
-        self.model.y_train[2] = rating_data
-        
-
-        self.model.optimize()
-        mu_rating, sig_rating = self.model.predict(x_rep)
-        rating_cov = self.model.cov
-
-        rating_rep, rating_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
-        
-
-
-        ## Reset model and start evaluating samples
-        self.model.y_train[0] = pref_data
-        self.model.y_train[2] = rating_data
-        # the model was fit to only part of the data, so have it fit all of it again
-        self.model.optimized = False
+        try:
+            ## Generate samples using only preference data
+            self.model.y_train[2] = None
+            self.model.optimize()
+            mu_pref, sig_pref = self.model.predict(x_rep)
+            pref_cov = self.model.cov
+
+            pref_rep, pref_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+
+
+            ## Generate samples using only rating data
+            self.model.y_train[0] = None
+            self.model.y_train[2] = rating_data
+            
+
+            self.model.optimize()
+            mu_rating, sig_rating = self.model.predict(x_rep)
+            rating_cov = self.model.cov
+
+            rating_rep, rating_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+        finally:
+            ## Reset model and start evaluating samples
+            self.model.y_train[0] = pref_data
+            self.model.y_train[2] = rating_data
+            # the model was fit to only part of the data, so have it fit all of it again
+            self.model.optimized = False
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-- 
2.43.0


From f509a841f2beb7f513637d37923dff453e857d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 24/51] fix: drawing random hyperparameters keeps the ordinal
 ones

---
 src/lop/probits/OrdinalProbit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 3a2dc3f..bf2909a 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -72,6 +72,12 @@ class OrdinalProbit(ProbitBase):
         else:
             b = self.b
         return np.array([self.sigma, b])
+
+    ## Performs random sampling of the hyperparameters
+    # There is no prior on the ordinal hyperparameters, so they keep their values.
+    # @return numpy array of the same length as get_hyper
+    def randomize_hyper(self):
+        return self.get_hyper()
     
 
     ## set_b
-- 
2.43.0


From cd2066e045c1279b2cbe573b6e7c31fd1dbfb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 25/51] fix: zeroed RBF kernel has no noise in its zero point
 covariance

---
 src/lop/kernels/RBF_kern.py        | 6 ++++--
 src/lop/kernels/RBF_kern_zeroed.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5a9aee3..3badcab 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -99,8 +99,10 @@ class RBF_kern(KernelFunc):
     #        and k is the dimension of the samples
     # @param Y - samples (n2, k) numpy array
     #
+    # @param noise - [opt] set to False to not add the noise between a set of points and itself
+    #
     # @return the covariance matrix of the samples.
-    def cov(self, X, Y):
+    def cov(self, X, Y, noise=True):
         N = X.shape[0]
         M = Y.shape[0]
 
@@ -116,7 +118,7 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if np.array_equal(X, Y):
+        if noise and np.array_equal(X, Y):
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 21763e3..90e7312 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -82,8 +82,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = super().cov(X, self.zero_pt[np.newaxis,:], noise=False)
+        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y, noise=False)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
-- 
2.43.0


From 7f4add427ee0d92010c9e5d1c4f18dee5b7e61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 26/51] fix: RBF kernel gradient of the length scale

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 3badcab..8d0fc12 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -147,7 +147,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -163,7 +163,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From 66061eef9cdf176f56d882dda3f07948030c6b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:55 +0000
Subject: [PATCH 27/51] fix: periodic kernel gradients of the length scale and
 the period

---
 src/lop/kernels/PeriodicKern.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..d876cd5 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,19 +147,16 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
-        
+
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
-        
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l*self.l))
+
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
@@ -173,9 +170,9 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
-- 
2.43.0


From a91eab669424763a0b1facbafcb2325484adae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:55 +0000
Subject: [PATCH 28/51] fix: zeroed RBF kernel gradients match its value

---
 src/lop/kernels/RBF_kern_zeroed.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 90e7312..dc9ecb9 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -108,8 +108,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = super().cov(X, self.zero_pt[np.newaxis,:], noise=False)
+        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y, noise=False)
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -117,9 +117,11 @@ class RBF_kern_zeroed(RBF_kern):
         x_sig, x_l = super().cov_gradient(X, self.zero_pt[np.newaxis,:])
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
-        # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        # f(x)g'(x) + f'(x)g(x), scaled by 1 / sigma^2 as the covariance matrix
+        sigma2 = self.sigma * self.sigma
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / sigma2 \
+                        - 2 * X_expanded * Y_expanded / (sigma2 * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / sigma2
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -132,8 +134,13 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_u = super().gradient(u, self.zero_pt)
         grad_zero_v = super().gradient(v, self.zero_pt)
 
-        # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        cov_u = super().__call__(u, self.zero_pt)
+        cov_v = super().__call__(v, self.zero_pt)
+
+        # f(x)g'(x) + f'(x)g(x), scaled by 1 / sigma^2 as the covariance
+        sigma2 = self.sigma * self.sigma
+        grad_zero = (cov_u * grad_zero_v +  grad_zero_u * cov_v) / sigma2
+        grad_zero[0] -= 2 * cov_u * cov_v / (sigma2 * self.sigma)
 
         return grad - grad_zero
 
-- 
2.43.0


From 5d9156ff68a48bd56ad1628f2c08096dea0eccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:14 +0000
Subject: [PATCH 29/51] fix: derivative of the preference probit's second
 derivative

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From a00fd0bba92e56f1ca64f2d430a5d62a531aa332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 30/51] fix: derivatives of the absolute likelihood's second
 derivative

---
 src/lop/probits/AbsBoundProbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index b43abda..e72c054 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -354,7 +354,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        dW[y[1],y[1],y[1]] = -Wdiag # derivatives() returns -Wdiag as W
 
         return dW
 
@@ -402,10 +402,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
-- 
2.43.0


From 97bc37af9bf224d5e974fa6df560c5082199f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 31/51] fix: second derivative of the ordinal likelihood

---
 src/lop/probits/OrdinalProbit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index bf2909a..7620148 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -145,6 +145,14 @@ class OrdinalProbit(ProbitBase):
                 out = std_norm_pdf(z)
         return out
 
+    ## z_norm_pdf
+    # The z value times its normal pdf for a single rating, 0 at the infinite breakpoints.
+    def z_norm_pdf(self, y, f):
+        if y == 0 or y == self.n_ordinals:
+            return 0
+        return self.z_k(y, f) * self.norm_pdf(y, f)
+
+
     def norm_cdf(self, y, F, var_x=0.0):
         if isinstance(y, tuple):
             f = F[y[1]]
@@ -203,7 +211,7 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
         W = np.diagflat(-d2py_df2)
 
-- 
2.43.0


From c02598e52858d1f3c3eeae4bd4e4077392d192d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:06 +0000
Subject: [PATCH 32/51] fix: absolute likelihood prior gradient matches the
 prior

---
 src/lop/probits/AbsBoundProbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index e72c054..c286805 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -204,8 +204,8 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([0.0])
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
-                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                # param_likli has no prior on v
+                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta), 0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From 6f127c49e248e23e79716222154bbc21d63845a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 33/51] fix: linear model fits comparisons that do not
 determine every weight

---
 src/lop/models/PreferenceLinear.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 5f81114..adc2e18 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -91,6 +91,8 @@ class PreferenceLinear(PreferenceModel):
                                        gradient=gradient, 
                                        hess=hess,
                                        loss_func = self.loss_func,
+                                       # the hessian is singular if the comparisons do not determine every weight
+                                       invert_function=self.mat_inv,
                                        lambda_type="binary", # sets the type of line search ("static", "binary", "iter")
                                        line_search_max_itr=5)
 
@@ -99,6 +101,8 @@ class PreferenceLinear(PreferenceModel):
 
             # measure error convergence
             w_err = np.linalg.norm(w_new - w, ord=2)
+            # weights that separate the comparisons grow forever, stop when growing gains nothing
+            w_err = min(w_err, np.sqrt(np.abs(gradient @ (w_new - w))))
             
             w = w_new
             n_loops += 1
-- 
2.43.0


From bea67d66516f89cf84a48332d05257ad4b67c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:58 +0000
Subject: [PATCH 34/51] fix: preference likelihood and derivatives hold for
 large differences

---
 src/lop/probits/PreferenceProbit.py |  2 +-
 src/lop/probits/ProbitBase.py       | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index 5ea3739..05a3624 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -325,7 +325,7 @@ class PreferenceProbit(ProbitBase):
     # @return log P(y|F)
     def log_likelihood(self, y, F):
         z = self.z_k(y, F)
-        x = np.clip(z, -30, 100 )
+        x = np.clip(z, -1e6, 100 )
         return np.sum(spec.log_ndtr(x))
 
 
diff --git a/src/lop/probits/ProbitBase.py b/src/lop/probits/ProbitBase.py
index d464328..9f609a3 100644
--- a/src/lop/probits/ProbitBase.py
+++ b/src/lop/probits/ProbitBase.py
@@ -50,13 +50,9 @@ def calc_pdf_cdf_ratio(z):
     # https://www.wolframalpha.com/input/?i2d=true&i=Limit%5BDivide%5BPower%5B%5C%2840%29Exp%5B-Divide%5BPower%5Bx%2C2%5D%2C2%5D%5D%5C%2841%29%2C2%5D%2CPower%5Berfc%5C%2840%29-Divide%5Bx%2CSqrt%5B2%5D%5D%5C%2841%29%2C2%5D%5D%2Cx-%3E-%E2%88%9E%5D
     # As zk -> infinity then pdf_zk / cdf_zk goes to 0
     # https://www.wolframalpha.com/input/?i2d=true&i=Limit%5BDivide%5BPower%5B%5C%2840%29Exp%5B-Divide%5BPower%5Bx%2C2%5D%2C2%5D%5D%5C%2841%29%2C2%5D%2CPower%5Berfc%5C%2840%29-Divide%5Bx%2CSqrt%5B2%5D%5D%5C%2841%29%2C2%5D%5D%2Cx-%3E%E2%88%9E%5D
-    # this code checks for those states and inputs the appropriate values
-    pdf_z = std_norm_pdf(z)
-    cdf_z = std_norm_cdf(z)
-
-    pdf_cdf_z = np.where(cdf_z == 0, \
-                    np.where(pdf_z < 0.5, float('inf'), 0), \
-                    pdf_z / cdf_z)
+    # the ratio of the logs gives the appropriate values without under or overflowing
+    z = np.clip(z, -1e6, 1e6)
+    pdf_cdf_z = np.exp(-(z**2)/2 - spec.log_ndtr(z)) / _sqrt_2pi
 
     pdf_cdf_2 = np.where(np.isinf(pdf_cdf_z), 0,  pdf_cdf_z*pdf_cdf_z)
 
-- 
2.43.0


From 1c9a7aa282a13d663d525e484275e51c0bf64223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 35/51] fix: linear model stops where the likelihood is flat

---
 src/lop/models/PreferenceLinear.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index adc2e18..a152052 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -96,6 +96,10 @@ class PreferenceLinear(PreferenceModel):
                                        lambda_type="binary", # sets the type of line search ("static", "binary", "iter")
                                        line_search_max_itr=5)
 
+            # where the likelihood is flat there is no step to take
+            if not np.isfinite(w_new).all():
+                break
+
             # normalize the weights
             #w_new = w_new / np.linalg.norm(w_new, ord=2)
 
-- 
2.43.0


From f719f2970eab268a61455cd1abcfafdb07c2a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 36/51] fix: absolute scores that are not numbers are refused

---
 src/lop/models/PreferenceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index cdb66a4..4c7eb2b 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -208,7 +208,7 @@ class PreferenceModel(Model):
                 print('abs type received unknown type for y')
                 return
             v = y[0] if isinstance(y, tuple) else y
-            if (v < 0).any() or (v > 1.0).any():
+            if not ((v >= 0) & (v <= 1.0)).all(): # also refuses nan
                 raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
 
         if self.X_train is None:
-- 
2.43.0


From a7161bb6b62969d3ad29fe3d0d4858496696de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 37/51] fix: generalized variance of dependent points is zero

---
 src/lop/active_learning/GV_UCBLearner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/GV_UCBLearner.py b/src/lop/active_learning/GV_UCBLearner.py
index 64227a5..22a5386 100644
--- a/src/lop/active_learning/GV_UCBLearner.py
+++ b/src/lop/active_learning/GV_UCBLearner.py
@@ -62,7 +62,8 @@ class GV_UCBLearner(UCBLearner):
 
         # calculate the Standardized general variance
         # The matrix covariance equivelant to the standard deviation
-        SGV = [np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]) ** exp_v for idx in indicies]
+        # (the determinant of a singular covariance may come out just below zero)
+        SGV = [max(np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]), 0.0) ** exp_v for idx in indicies]
 
         selected_GV_UCB = mu[indicies] + self.alpha*np.array(SGV)
 
-- 
2.43.0


From 73c8ecaebb7dcca6ed6fa76729162edad53531c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 38/51] fix: information gain counts choices of probability
 zero as nothing

---
 src/lop/active_learning/MutualInfoLearner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MutualInfoLearner.py b/src/lop/active_learning/MutualInfoLearner.py
index c9ff311..e8b3af8 100644
--- a/src/lop/active_learning/MutualInfoLearner.py
+++ b/src/lop/active_learning/MutualInfoLearner.py
@@ -109,7 +109,9 @@ class MutualInfoLearner(ActiveLearner):
         sum_p_over_w = np.sum(p, axis=0)
 
         # Find the information gain using the sample equation (4) in [1]
-        info_gain = np.sum(p * np.log2(self.M * p / sum_p_over_w)) / self.M
+        # (a choice that a sample never makes adds nothing)
+        pos = p > 0
+        info_gain = np.sum(p[pos] * np.log2((self.M * p / np.where(sum_p_over_w > 0, sum_p_over_w, 1))[pos])) / self.M
 
         return info_gain
         
-- 
2.43.0


From f258c72bf31f495b2fb553ec7ed339e420f1e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 39/51] fix: alignment of samples with large values stays
 finite

---
 src/lop/active_learning/AcquisitionBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 5dd8d20..cd60752 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -131,7 +131,7 @@ class AcquisitionBase(ActiveLearner):
             return np.zeros((all_rep.shape[0], all_rep.shape[0]))
         
         if self.alignment_f == 'rho':
-            rho_R = np.exp(all_rep)
+            rho_R = np.exp(all_rep - np.max(all_rep, axis=1, keepdims=True))
             rho_R_sum = np.sum(rho_R, axis=1)
             rho_R = rho_R / np.repeat(rho_R_sum[:,np.newaxis], all_rep.shape[1], axis=1)
 
@@ -168,7 +168,7 @@ class AcquisitionBase(ActiveLearner):
 
             # calculate the probability of p(q=argmax Rw| Q,Rw')
             p_q_mod = np.swapaxes(p_q, 1,2)
-            g = np.sum(np.log(p_q_mod[:,np.arange(Q_rep.shape[0]), q_best_w]), axis=2)
+            g = np.sum(np.log(np.maximum(p_q_mod[:,np.arange(Q_rep.shape[0]), q_best_w], np.finfo(float).tiny)), axis=2)
 
             f = g + g.T
             return f
-- 
2.43.0


From 0558a2e25ac35df173ba8f622e1f5a0f55aab6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:30 +0000
Subject: [PATCH 40/51] fix: expected alignment of answers that no sample gives

---
 src/lop/active_learning/AcquisitionSelection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index d956c97..3dc9712 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -160,7 +160,8 @@ class AcquisitionSelection(AcquisitionBase):
         E_align_q = np.sum(align_expand, axis=(0,1)) / (self.M * self.M)
         E_p_q = np.mean(p_q, axis=0)
 
-        align_Q = E_align_q / E_p_q
+        # (an answer no sample gives adds nothing)
+        align_Q = np.divide(E_align_q, E_p_q, out=np.zeros_like(E_align_q), where=E_p_q > 0)
 
         align_Q = np.sum(align_Q, axis=0)
 
@@ -223,7 +224,8 @@ class AcquisitionSelection(AcquisitionBase):
         
         E_p_q = np.mean(p_q, axis=0)
 
-        E_align_q = E_align_q / E_p_q
+        # (an answer no sample gives adds nothing)
+        E_align_q = np.divide(E_align_q, E_p_q, out=np.zeros_like(E_align_q), where=E_p_q > 0)
 
         ################## Add a print statement here, is E_p_q a weird number???
         #pdb.set_trace()
-- 
2.43.0


From 8da370aed6a90e75d7870b759c6a02da26ab1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:15 +0000
Subject: [PATCH 41/51] fix: calc_cdf divides by the standard deviation, not
 the variance

---
 src/lop/utilities/probability_utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..a10fba4 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -70,7 +70,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mu = np.delete(mu, idx, 0)
 
         if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+            p *= spec.ndtr((0 - mu[0]) / np.sqrt(cov[0,0]))
 
         return p
     
-- 
2.43.0


From 0ea34a94f42c7d3d2276a79b71a56070ee69efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:36 +0000
Subject: [PATCH 42/51] fix: calc_cdf 'switch' pairs different variables when
 none are correlated

---
 src/lop/utilities/probability_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index a10fba4..6f06eb0 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -46,7 +46,7 @@ def calc_cdf(mu, cov, method='mvn'):
         cov = np.copy(cov)
         mu = np.copy(mu)
         mod_cov = np.abs(np.copy(cov))
-        np.fill_diagonal(mod_cov, 0)
+        np.fill_diagonal(mod_cov, -1) # (never a variable with itself)
 
         while cov.shape[0] > 1:
             idx = np.unravel_index(np.argmax(mod_cov), cov.shape)
-- 
2.43.0


From 8caf17dbdaa26ee6c1d81785733565e7068d812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 43/51] fix: BayesInfoGain runs on the linear preference model

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..129ee89 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
-- 
2.43.0


From 52224ce0cca0c1c234aa422158f10a1f8ce3fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 44/51] fix: BayesInfoGain selects two different eligible
 points

---
 src/lop/active_learning/BayesInfoGain.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 129ee89..6c7a8e7 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -175,12 +175,12 @@ class BayesInfoGain(ActiveLearner):
 
 
     def select_pair(self, candidate_pts, mu, data, indicies, prev_selection, debug=False):
-        p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
-
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
+        p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
+
         if debug:
             print('\t p_B: ' + str(p_B))
 
@@ -257,6 +257,12 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
+        # only consider pairs of the given indicies
+        idxs = np.array(list(indicies))
+        masked_gain = np.full(info_gain.shape, -np.inf)
+        masked_gain[np.ix_(idxs, idxs)] = info_gain[np.ix_(idxs, idxs)]
+        info_gain = masked_gain
+
         idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
         
 
-- 
2.43.0


From 3d79b576c336bf314c3dac42d24392fe133f48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:35 +0000
Subject: [PATCH 45/51] fix: BayesInfoGain scores stay numbers when an answer
 can't be given

The posterior of an answer was divided by the probability of the answer, and then
normalised again; with predictions far apart that probability is 0 and the scores
are NaN (and no pair can be picked from them).
---
 src/lop/active_learning/BayesInfoGain.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 6c7a8e7..ef6fb04 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -70,8 +70,10 @@ class BayesInfoGain(ActiveLearner):
 
 
         # calculate probability of B given Y and each q using Bayes rule
-        p_B_q = p_q_B * p_B / np.repeat(p_q[:,np.newaxis], N, axis=1)
-        p_B_q = p_B_q / np.repeat(np.sum(p_B_q, axis=1)[:, np.newaxis], N, axis=1) 
+        # (p_q cancels out, an answer that can't be given leaves nothing to weigh)
+        p_B_q = p_q_B * p_B
+        p_q_tot = np.sum(p_B_q, axis=1)[:, np.newaxis]
+        p_B_q = np.divide(p_B_q, p_q_tot, out=np.zeros_like(p_B_q), where=p_q_tot > 0)
 
         if debug:
             print('\tp_B_q = ' + str(p_B_q))
@@ -221,11 +223,10 @@ class BayesInfoGain(ActiveLearner):
             
 
         p_B_rep = np.repeat(np.repeat(p_B[np.newaxis,np.newaxis, :], N, axis=0), N, axis=1)
-        p_q_rep = np.repeat(p_q[:,:,np.newaxis], N, axis=2)
-        p_B_q = p_q_B * p_B_rep / p_q_rep
-
-
-        p_B_q = p_B_q / np.repeat(np.sum(p_B_q, axis=2)[:,:,np.newaxis], N, axis=2)
+        # p_q cancels out, an answer that can't be given leaves nothing to weigh
+        p_B_q = p_q_B * p_B_rep
+        p_q_tot = np.sum(p_B_q, axis=2)[:,:,np.newaxis]
+        p_B_q = np.divide(p_B_q, p_q_tot, out=np.zeros_like(p_B_q), where=p_q_tot > 0)
 
         if debug:
             print('\tp_B_q:')
-- 
2.43.0


From be5a08877059aaef12804305a8bf0de386d6541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:02 +0000
Subject: [PATCH 46/51] fix: BayesInfoGain weighs the answers to queries of
 several points with 'probit'

The probabilities given the best candidate were computed and then not used, so that
every candidate for a third point had an information gain of exactly 0.
---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index ef6fb04..1200748 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -54,7 +54,7 @@ class BayesInfoGain(ActiveLearner):
                     if self.p_q_B_method == 'probit':
                         sub_probit = probit_mat[q_i, Q_subi]
                         sub_probit_w = np.where(q_i == B_i, np.fmax(sub_probit, 1-sub_probit), sub_probit)
-                        p_q_B[i, B_i] = np.prod(sub_probit)
+                        p_q_B[i, B_i] = np.prod(sub_probit_w)
                     elif self.p_q_B_method == '999': 
                         p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.999, sub_probit))
                     elif self.p_q_B_method == '99':
-- 
2.43.0


From e042e9a8e4854aeaa84044cf34096151d21b0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:35 +0000
Subject: [PATCH 47/51] fix: ordinal likelihood of ratings far from the
 prediction stays a number

The log of a likelihood too small to represent was -inf, and the derivatives of
ratings between two breakpoints overflowed to NaN, so that a linear model of
points with large values kept its random initial weights.
---
 src/lop/probits/OrdinalProbit.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 7620148..69f9156 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -30,6 +30,7 @@
 
 import numpy as np
 import scipy.stats as st
+import scipy.special as spec
 import copy
 import pdb
 
@@ -184,7 +185,7 @@ class OrdinalProbit(ProbitBase):
         y_orig = y
         y = y[0]
         l = self.likelihood_each(y_orig, F)
-        py = np.log(l)
+        py = self.log_likelihood_each(y_orig, F)
 
         # First derivative - Chu and Gharamani
         # Having issues with derivative (likelihood denominator drops to 0)
@@ -206,6 +207,8 @@ class OrdinalProbit(ProbitBase):
                 else:
                     z1 = self.z_k(y[i], f[i])
                     z2 = self.z_k(y[i]-1, f[i])
+                    if abs(z1) < abs(z2): # (the same terms swapped, the exponential can't overflow)
+                        z1, z2 = z2, z1
                     ep = np.exp(-0.5*(z1**2 - z2**2))
                     dpy_df[i] = self._isigma*(z1*ep-z2)/(ep - 1.0)
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
@@ -234,6 +237,22 @@ class OrdinalProbit(ProbitBase):
         return self.norm_cdf(y, F) - self.norm_cdf(y_modified, F)
 
 
+    ## log_likelihood_each
+    # The log of the likelihood of each label. Uses the lower tail of the normal, where the
+    # log of the cdf is known even if the likelihood is too small to represent.
+    def log_likelihood_each(self, y, F):
+        if (y[0] < 1).any():
+            raise Exception("Can't pass likelihood with 0 rating (must all be positive ordinal values)")
+        f = F[y[1]]
+        b = np.hstack(([-np.inf], self.b[1:-1], [np.inf]))
+        z1 = self._isigma*(b[y[0]] - f)
+        z2 = self._isigma*(b[y[0]-1] - f)
+        z1, z2 = np.where(z2 > 0, -z2, z1), np.where(z2 > 0, -z1, z2)
+
+        log_cdf = spec.log_ndtr(z1)
+        return log_cdf + np.log1p(-np.exp(spec.log_ndtr(z2) - log_cdf))
+
+
     ## likelihood
     # Returns the liklihood function for the given probit
     # @param y - the given set of labels for the probit
@@ -251,5 +270,5 @@ class OrdinalProbit(ProbitBase):
     #
     # @return log P(y|F)
     def log_likelihood(self, y, F):
-        return np.sum(np.log(self.likelihood_each(y, F)))
+        return np.sum(self.log_likelihood_each(y, F))
 
-- 
2.43.0


From 6875ef608bb9c1c4f8bcff637e3d6a1611a5eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:53 +0000
Subject: [PATCH 48/51] fix: base kernel covariance gradient put the parameters
 on the last axis

---
 src/lop/kernels/KernelFunc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index 3d39f96..529ac87 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -59,14 +59,14 @@ class KernelFunc:
     #        and k is the dimension of the samples
     # @param Y - samples (n2, k)
     #
-    # @return the covariance gradient tensor of the samples. [n1, n2, k]
+    # @return the covariance gradient tensor of the samples. [k, n1, n2]
     def cov_gradient(self, X, Y):
-        cov = np.empty((len(X), len(Y), len(self)))
+        cov = np.empty((len(self), len(X), len(Y)))
 
         for i,x1 in enumerate(X):
             for j,x2 in enumerate(Y):
                 cov_ij = self.gradient(x1, x2)
-                cov[i,j, :] = cov_ij
+                cov[:, i,j] = cov_ij
         return cov
 
     ## set_param
-- 
2.43.0


From 5869f4e39fd5f4f9ed837932bca845431a32c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:53 +0000
Subject: [PATCH 49/51] fix: preferring more points than there are candidates
 selected points that do not exist

---
 src/lop/active_learning/ActiveLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index f2ee263..9960aed 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -201,7 +201,7 @@ class ActiveLearner:
             elif prefer_pts < 0:
                 raise ValueError("Can't pass negative number of points to prefer")
             else:
-                return set(range(prefer_pts)) # first set of indicies of prefered points
+                return set(range(min(prefer_pts, len(candidate_pts)))) # first set of indicies of prefered points
         else:
             raise ValueError("get_prefered_set_of_pts/select passed unknown prefer_pts number")
 
-- 
2.43.0


From 15889410e7f1d1a591e026aecf6b18d028ff465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 50/51] fix: GP kept the caller's list of training noise by
 reference

---
 src/lop/models/GP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a433848..ef804ba 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -65,6 +65,8 @@ class GP(Model):
     def add(self, X, y, training_sigma=0.0005):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
+        else:
+            training_sigma = np.array(training_sigma) # copy, so later changes by the caller have no effect
 
         y = y - self.mean_func(X)
 
-- 
2.43.0


From 47d5e26c62492f08115e69f8e242b5240943cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 51/51] fix: no comparisons given as an array or tuple broke
 the next prediction

---
 src/lop/models/PreferenceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 4c7eb2b..e8bef1b 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -223,7 +223,7 @@ class PreferenceModel(Model):
                 # reset index of pairwise comparisons
                 y = [(d, u+len_X, v+len_X) for d, u, v in y]
 
-            if y == []:
+            if len(y) == 0:
                 pass
             elif self.y_train[self.probit_idxs[type]] is None:
                 self.y_train[self.probit_idxs[type]] = np.array(y)
-- 
2.43.0

