From 9ab49c9cf787116fedde394824eae32dfbc19229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 01/58] fix: propagate read errors from the svmlight loader
 instead of crashing

PyFile_GetLine returns NULL with the Python exception set when the stream
fails (I/O error, corrupted archive, interrupt). The result was dereferenced
unconditionally, so any failing read killed the interpreter.
---
 rankeval/dataset/_svmlight_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..0566258 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -116,6 +116,9 @@ PyTypeObject &vector_owner_type(int typenum)
  * Parsing.
  */
 
+// Thrown when a Python exception is already set and only has to be propagated.
+class PythonError : public std::exception {};
+
 class SyntaxError : public std::runtime_error {
 public:
   SyntaxError(std::string const &msg)
@@ -325,6 +328,8 @@ void parse_file(PyObject *pystream,
   std::string line;
   while (true) {
     PyObject* py_line = PyFile_GetLine(pystream, 0);
+    if (py_line == NULL)  // the stream raised (I/O error, interrupt, ...)
+      throw PythonError();
     line = std::string(PyBytes_AS_STRING(py_line));
     if (line.empty())
         break;
@@ -352,6 +357,8 @@ static PyObject *load_svmlight_file(PyObject *self, PyObject *args)
     parse_file(pystream, data, labels, qids);
     return to_dense(data, labels, qids);
 
+  } catch (PythonError const &e) {
+    return 0;
   } catch (SyntaxError const &e) {
     PyErr_SetString(PyExc_ValueError, e.what());
     return 0;
-- 
2.43.0


From 02849fad7634a00f06107cea49d3427e2f3e5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 02/58] fix: release the line objects read by the svmlight
 loader

PyFile_GetLine returns a new reference, which was never released: loading a
dataset leaked the whole content of the file.
---
 rankeval/dataset/_svmlight_format.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 0566258..5071d88 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -330,7 +330,13 @@ void parse_file(PyObject *pystream,
     PyObject* py_line = PyFile_GetLine(pystream, 0);
     if (py_line == NULL)  // the stream raised (I/O error, interrupt, ...)
       throw PythonError();
-    line = std::string(PyBytes_AS_STRING(py_line));
+    try {
+      line = std::string(PyBytes_AS_STRING(py_line));
+    } catch (...) {
+      Py_DECREF(py_line);
+      throw;
+    }
+    Py_DECREF(py_line);
     if (line.empty())
         break;
     lineno++;	  
-- 
2.43.0


From 4ee917056da114a073a1cbeb5b0fd16612d1ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 03/58] fix: do not drop the rest of a svmlight file at a NUL
 byte

Lines were handled as C strings: a NUL byte (e.g. a zero-filled block of a
damaged file) at the beginning of a line was taken for the end of the file, and
elsewhere for the end of the line, silently returning part of the dataset. Use
the real length of the line, and reject lines with NUL bytes. For the same
reason, reject streams which are not opened in binary mode rather than reading
the memory of their str objects as if it were the line.
---
 rankeval/dataset/_svmlight_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 5071d88..fb238d2 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -249,6 +249,9 @@ void parse_line(const std::string &line,
   if (line.length() == 0)
   	throw std::invalid_argument("empty line, lineno " + std::to_string(lineno));
 
+  if (line.find('\0') != std::string::npos)
+  	throw std::invalid_argument("unexpected NUL byte, lineno " + std::to_string(lineno));
+
   if (line[0] == '#')
     return;
 
@@ -331,7 +334,9 @@ void parse_file(PyObject *pystream,
     if (py_line == NULL)  // the stream raised (I/O error, interrupt, ...)
       throw PythonError();
     try {
-      line = std::string(PyBytes_AS_STRING(py_line));
+      if (!PyBytes_Check(py_line))
+        throw std::invalid_argument("the stream is not opened in binary mode");
+      line = std::string(PyBytes_AS_STRING(py_line), PyBytes_GET_SIZE(py_line));
     } catch (...) {
       Py_DECREF(py_line);
       throw;
-- 
2.43.0


From aa9bbd83f47b037d1822521d9455f9d204378e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 04/58] fix: keep rows aligned when the first rows of a
 svmlight file are empty

Rows without any feature preceding the first row with some features were not
padded with zeros, thus the values of all the rows were shifted (or the loading
failed when the number of values was not a multiple of the rows).
---
 rankeval/dataset/_svmlight_format.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index fb238d2..ca30149 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -313,6 +313,9 @@ void parse_line(const std::string &line,
   // it means we have to reshape the dataset to include new columns...
   if (max_feature > 0 && (next_feature - 1) > max_feature) {
     reshape_data(data, max_feature, next_feature - 1);
+  } else if (max_feature == 0 && labels.size() > 1) {
+    // ...the previous rows, if any, had no features at all: they are all zeros
+    data.insert(data.begin(), (labels.size() - 1) * (next_feature - 1), 0);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From cfde91f1168c5ad1dbda050e8b5a0260156f29d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 05/58] fix: write the query id when dumping a dataset with a
 single instance

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index ca30149..5b7b99a 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -415,7 +415,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    int n_queries = PyArray_DIM(qids_array, 0);
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
-- 
2.43.0


From 0764a71ec673fd523e32c99b1d9a5a484497bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 06/58] fix: dump column-major datasets in the right order

np.array preserves the memory layout of its argument by default, while the
native writer walks the matrix row by row: a Fortran-ordered matrix was written
with its values scrambled.
---
 rankeval/dataset/svmlight_format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..503284a 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,7 +189,8 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
+    # the native writer expects row-major data
+    X = np.array(X, dtype=np.float32, order='C')
     y = np.array(y, dtype=np.float32)
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
-- 
2.43.0


From 64e4815532e663788e6d665f394aace5b5d94576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 07/58] fix: cache a scorer only once its scores are complete

RTEnsemble.score(cache=True) stored the scorer before computing the scores: if
the scoring was interrupted (KeyboardInterrupt, MemoryError), the following
calls returned None, or scores without learning rate and base score. The same
happened to other threads using the model in the meantime, and a concurrent
clear_cache() caused a KeyError between the check and the lookup.
---
 rankeval/model/rt_ensemble.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index a01cf27..d3f3516 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -332,12 +332,11 @@ class RTEnsemble(object):
             raise RuntimeError("Dataset features are not compatible with "
                                "model features")
 
-        if dataset not in self._cache_scorer or \
-                detailed and self._cache_scorer[dataset].partial_y_pred is None:
+        # a single lookup, since the cache may be cleared in the meantime
+        scorer = self._cache_scorer.get(dataset)
+        if scorer is None or detailed and scorer.partial_y_pred is None:
 
             scorer = Scorer(self, dataset)
-            if cache:
-                self._cache_scorer[dataset] = scorer
             # The scoring is performed only if it has not been done before...
             scorer.score(detailed)
 
@@ -350,8 +349,11 @@ class RTEnsemble(object):
                 scorer.y_pred += self.base_score
                 if detailed:
                     scorer.partial_y_pred[:, :1] += self.base_score
-        else:
-            scorer = self._cache_scorer[dataset]
+
+            # cached only once complete: an interrupted scoring, or another
+            # thread, must not leave/find a partial result in the cache
+            if cache:
+                self._cache_scorer[dataset] = scorer
 
         if detailed:
             return scorer.y_pred, scorer.partial_y_pred, scorer.out_leaves
-- 
2.43.0


From cb2d32fb5ac1a9310dd1aea720869045af5dcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 08/58] fix: tell apart datasets differing only in the
 partition into queries

The hash and the equality of Dataset ignored the query offsets: two datasets
with the same instances and the same query ids, assigned to different rows, were
considered the same one by the caches keyed on datasets. NDCG reused the ideal
DCG of the wrong queries, reporting values even greater than 1.
---
 rankeval/dataset/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..be847f5 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -409,7 +409,7 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
+            for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
                 h.update(arr)
             self._hash_cached = int(h.hexdigest(), 16)
 
@@ -419,7 +419,8 @@ class Dataset(object):
         # use != instead of == because it is more efficient for sparse matrices:
         x_eq = not(self.X != other.X).any()
         return x_eq and (self.y == other.y).all() and \
-               (self.query_ids == other.query_ids).all()
+               (self.query_ids == other.query_ids).all() and \
+               (self.query_offsets == other.query_offsets).all()
 
     def __ne__(self, other):
         # Not strictly necessary, but to avoid having both x==y and x!=y
-- 
2.43.0


From 74ee524790bfc80fe18c882701bc9a7c4feeb385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 09/58] fix: do not leave the state of an evaluation inside
 NDCG

NDCG.eval left behind the current dataset and query, which eval_per_query used
to pick the ideal DCG: calling eval_per_query after eval raised IndexError (or
used the ideal DCG of an unrelated query, if the evaluation was interrupted),
and two threads could not share the metric. Keep the state of the evaluation
local.
---
 rankeval/metrics/ndcg.py | 41 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..f97c56c 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -5,7 +5,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
-from collections import defaultdict
 import numpy as np
 
 from rankeval.metrics.dcg import DCG
@@ -52,9 +51,7 @@ class NDCG(Metric):
         self.dcg = DCG(cutoff=self.cutoff,
                        implementation=self.implementation)
 
-        self._current_dataset = None
-        self._current_rel_qid = None
-        self._cache_idcg_score = defaultdict(int)
+        self._cache_idcg_score = dict()
 
     def eval(self, dataset, y_pred):
         """
@@ -80,21 +77,25 @@ class NDCG(Metric):
             length of n_queries.
 
         """
-        # used to cache ideal DCG scores on a dataset basis
-        self._current_dataset = dataset
-        self._current_rel_qid = 0
-
         # Compute the ideal DCG scores only once and cache them
-        if self._current_dataset not in self._cache_idcg_score:
+        idcg_scores = self._cache_idcg_score.get(dataset)
+        if idcg_scores is None:
 
-            idcg_score = np.ndarray(shape=dataset.n_queries, dtype=np.float32)
+            idcg_scores = np.ndarray(shape=dataset.n_queries, dtype=np.float32)
             for rel_id, (qid, q_y, _) in enumerate(
                     self.query_iterator(dataset, dataset.y)):
-                idcg_score[rel_id] = self.dcg.eval_per_query(q_y, q_y)
+                idcg_scores[rel_id] = self.dcg.eval_per_query(q_y, q_y)
+
+            self._cache_idcg_score[dataset] = idcg_scores
 
-            self._cache_idcg_score[self._current_dataset] = idcg_score
+        detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
+        for rel_id, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            detailed_scores[rel_id] = self._normalize(
+                self.dcg.eval_per_query(q_y, q_y_pred), idcg_scores[rel_id])
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        self.detailed_scores = detailed_scores
+        return np.nanmean(detailed_scores), detailed_scores
 
     def eval_per_query(self, y, y_pred):
         """
@@ -119,15 +120,13 @@ class NDCG(Metric):
         dcg: float
             Represents the DCG score for one query.
         """
-        dcg_score = self.dcg.eval_per_query(y, y_pred)
-
-        if self._current_rel_qid is not None:
-            idcg_score = \
-                self._cache_idcg_score[self._current_dataset][self._current_rel_qid]
-            self._current_rel_qid += 1
-        else:
-            idcg_score = self.dcg.eval_per_query(y, y)
+        return self._normalize(self.dcg.eval_per_query(y, y_pred),
+                               self.dcg.eval_per_query(y, y))
 
+    def _normalize(self, dcg_score, idcg_score):
+        """
+        This method normalizes a DCG score by means of the ideal one.
+        """
         if idcg_score != 0:
             ndcg = dcg_score / idcg_score
         else:
-- 
2.43.0


From 1ed5c6fed1f84cf52ba317ac2617d08a09eb328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 10/58] fix: allow a metric to be shared by several threads

Metric.eval filled the array stored in the instance, and read it back to compute
the mean: two threads evaluating the same metric object mixed up their scores.
---
 rankeval/metrics/metric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rankeval/metrics/metric.py b/rankeval/metrics/metric.py
index 9907f5e..ea0e184 100644
--- a/rankeval/metrics/metric.py
+++ b/rankeval/metrics/metric.py
@@ -62,12 +62,15 @@ class Metric(six.with_metaclass(ABCMeta)):
             Represents the detailed metric scores for each query. It has the
             length of n_queries.
         """
-        self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
+        detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
         for rel_qid, (qid, q_y, q_y_pred) in enumerate(
                 self.query_iterator(dataset, y_pred)):
-            self.detailed_scores[rel_qid] = self.eval_per_query(q_y, q_y_pred)
-        return np.nanmean(self.detailed_scores), self.detailed_scores
+            detailed_scores[rel_qid] = self.eval_per_query(q_y, q_y_pred)
+
+        # published only once complete
+        self.detailed_scores = detailed_scores
+        return np.nanmean(detailed_scores), detailed_scores
 
     @abstractmethod
     def eval_per_query(self, y, y_pred):
-- 
2.43.0


From 7f16e799bb4c8dae57c5c3c87052da4a01fa2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 11/58] fix: do not use query ids as positions in MSE

MSE.eval stored the score of each query at the position given by its query id,
raising IndexError (or misplacing the scores) unless the ids were 0..n-1. The
scores are also no more accumulated in the shared instance, see Metric.eval.
---
 rankeval/metrics/mse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..957e033 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -56,12 +56,16 @@ class MSE(Metric):
         """
         # return super(self.__class__, self).eval(dataset, y_pred)
 
-        self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
+        detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
-        return self.detailed_scores.sum(), self.detailed_scores
+
+        # published only once complete
+        self.detailed_scores = detailed_scores
+        return detailed_scores.sum(), detailed_scores
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 4509dad64eb610ef6dda28a5d7ee0484acb0071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 12/58] fix: drop the unsupported initial_lexsort argument in
 Kendalltau

It has been ignored by scipy since 1.0 and then removed, making any evaluation
of the metric fail.
---
 rankeval/metrics/kendall_tau.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..f14bc68 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -90,7 +90,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From a7a38c0a53e2b91a8cd66bccc0b2f57701dd6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 13/58] fix: never put training queries in the test set of a
 split

When no query is left for the test set (train_size + vali_size = 1, or because
of the rounding) the slice [-test_qn:] selected all the queries, or most of
them, rather than none.
---
 rankeval/dataset/dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index be847f5..1ed898e 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -198,7 +198,6 @@ class Dataset(object):
 
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
-        test_qn = self.n_queries - train_qn - vali_qn
 
         qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
         for qid, start_offset, end_offset in self.query_iterator():
@@ -211,7 +210,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From df31a8be2cab2e9b3ac40a0908a45adb2db9e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 14/58] fix: make bias_variance work outside of notebooks

The progress bar was closed even when not created (NameError), and np.bool does
not exist anymore in numpy.
---
 rankeval/analysis/statistical.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..7ca8f8e 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -214,7 +214,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -222,7 +222,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
@@ -235,9 +235,10 @@ def _kfold_scoring(dataset, k, algo):
         # update scores for the current fold
         scores[test_rows] = fold_scores
         
-    progress_bar.bar_style = "success"
-    progress_bar.close()
-        
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
+
     return scores
 
 
-- 
2.43.0


From 89ca45677142b25ec4cc3fa7f786c84e88fc37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 15/58] fix: export_graphviz with max_depth raised TypeError on
 cropped nodes

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..4f789f4 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -360,7 +360,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             if highlight_leaves or output_leaves is not None:
                 # color cropped nodes grey
                 out_file.write(', fillcolor="#C0C0C0"')
-            out_file.write('] ;\n' % node_id)
+            out_file.write('] ;\n')
 
             if parent_id is not None:
                 # Add edge to parent
-- 
2.43.0


From 2a1ae0cc8c9431382fc124152e2e57ccc9940bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:09 +0000
Subject: [PATCH 16/58] fix: feature importance of trees made by a single leaf

The root of such trees was processed as a split on feature -1: the native code
wrote out of the bounds of its arrays, while the Python code credited the last
feature of the dataset.
---
 rankeval/analysis/_efficient_feature_impl.cpp | 6 ++++--
 rankeval/analysis/feature.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..ea20f95 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -86,8 +86,10 @@ void c_feature_importance_tree(
     for (unsigned int instance = 0; instance < n_instances; ++instance)
         y_pred_tree[instance] = mean_y_target;
 
-    TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // a tree made by a single leaf has no split to analyze
+    if (!is_leaf_node(trees_root[tree_id], trees_left_child, trees_right_child))
+        queue.push_back(TreeNode(trees_root[tree_id], 0, n_instances - 1));
 
     while (!queue.empty()) {
 
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..530aebe 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -139,7 +139,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # a tree made by a single leaf has no split to analyze
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From c4f17a4c496f28a48152a7d2e51a25bc3f6e154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:09 +0000
Subject: [PATCH 17/58] fix: do not mistake a partial download for a complete
 dataset

The dataset and models folders were created before downloading and decompressing
their content, and their existence was taken as evidence of a previous download:
a failure of the network, of the disk, or a crash left an empty or partial
folder behind, so that any following load_dataset failed on the missing files or
silently used truncated files and partial lists of models. Two processes
loading the same missing dataset also used each other's partial files.
Prepare the content in a temporary folder, and rename it only once complete.
---
 rankeval/dataset/datasets_fetcher.py | 74 +++++++++++++++++++---------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..77a26a4 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -11,6 +11,8 @@ import json
 import shutil
 import tarfile
 import fnmatch
+import tempfile
+from contextlib import closing
 from os import environ, makedirs
 from os.path import exists, expanduser, join
 
@@ -46,10 +48,53 @@ def __get_data_home__(data_home=None):
         data_home = environ.get('RANKEVAL_DATA', join('~', 'rankeval_data'))
     data_home = expanduser(data_home)
     if not exists(data_home):
-        makedirs(data_home)
+        try:
+            makedirs(data_home)
+        except OSError:
+            # it could have been created by another process in the meantime
+            if not exists(data_home):
+                raise
     return data_home
 
 
+def __download_and_extract__(url, archive_name, home):
+    """
+    Download the archive identified by url and decompress it into the home
+    folder. The folder is created only once its content is complete: if the
+    process fails, or is killed, the (partial) content is left elsewhere and it
+    is never mistaken for an already downloaded one.
+    """
+    parent = os.path.dirname(home)
+    try:
+        makedirs(parent)
+    except OSError:
+        if not exists(parent):
+            raise
+
+    tmp_home = tempfile.mkdtemp(prefix=os.path.basename(home) + '.',
+                                suffix='.part', dir=parent)
+    try:
+        archive_path = os.path.join(tmp_home, archive_name)
+        with closing(urlopen(url)) as opener:
+            with open(archive_path, 'wb') as f:
+                f.write(opener.read())
+
+        print ("Decompressing %s" % archive_name)
+        content_home = os.path.join(tmp_home, 'content')
+        os.makedirs(content_home)
+        with closing(tarfile.open(archive_path, "r:gz")) as archive:
+            archive.extractall(path=content_home)
+
+        try:
+            os.rename(content_home, home)
+        except OSError:
+            # another process could have completed the same download
+            if not exists(home):
+                raise
+    finally:
+        shutil.rmtree(tmp_home, ignore_errors=True)
+
+
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                                  download_if_missing=True, force_download=True,
                                  with_models=True):
@@ -94,9 +139,6 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             os.makedirs(data_home)
 
     # preparing file names...
-    archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
-    models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
-
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
         test_file_path = os.path.join(dataset_home, dataset_dictionary['TEST_FILE'])
@@ -118,19 +160,12 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
-        os.makedirs(dataset_home)
-
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
         print ("Downloading dataset from %s " % data_url)
-        opener = urlopen(data_url)
-        with open(archive_name, 'wb') as f:
-            f.write(opener.read())
-
-        print ("Decompressing %s" % archive_name)
-        tarfile.open(archive_name, "r:gz").extractall(path=dataset_home)
-        os.remove(archive_name)
+        __download_and_extract__(
+            data_url, dataset_dictionary['DATASET_ARCHIVE_NAME'], dataset_home)
 
     license_agreement = ""
     if dataset_dictionary.get('LICENSE_FILE') is not None:
@@ -155,18 +190,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
-            os.makedirs(models_home)
-
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
-            opener = urlopen(models_url)
-            with open(models_archive_name, 'wb') as f:
-                f.write(opener.read())
-
-            print ("Decompressing %s" % models_archive_name)
-            tarfile.open(models_archive_name, "r:gz").extractall(
-                path=models_home)
-            os.remove(models_archive_name)
+            __download_and_extract__(
+                models_url, dataset_dictionary['MODELS_ARCHIVE_NAME'],
+                models_home)
 
         # filling data structure to return
         matches = []
-- 
2.43.0


From 686e2976f9d9ac2748e05177bcc01edacc29e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:09 +0000
Subject: [PATCH 18/58] fix: honour download_if_missing=False when only part of
 the data is available

Only the existence of the parent folder was checked, thus the dataset or the
models were downloaded anyway whenever just the other ones were on disk.
---
 rankeval/dataset/datasets_fetcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 77a26a4..17a8cd9 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -126,8 +126,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
-        raise IOError('dataset not found')
+    if not download_if_missing:
+        if not os.path.exists(dataset_home):
+            raise IOError('dataset not found')
+        if with_models and not os.path.exists(models_home):
+            raise IOError('models not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
         raise Exception('no k-fold available for the dataset')
-- 
2.43.0


From a9c675d4dff2623d61831313db5baaa5b0f15cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:09 +0000
Subject: [PATCH 19/58] fix: an interrupted force_download must not leave a
 partial dataset

Removing the old data in place, a crash or an error in the middle left a partial
folder which the following calls took for the whole dataset.
---
 rankeval/dataset/datasets_fetcher.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 17a8cd9..8b082aa 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -138,7 +138,13 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     # delete data_home if force_download is True, then re-create data_home dir
     if force_download:
         if os.path.exists(data_home):
-            shutil.rmtree(data_home)
+            # moved away before removing it: if interrupted, what is left must
+            # not be mistaken for a complete dataset
+            trash = tempfile.mkdtemp(
+                prefix=os.path.basename(data_home) + '.', suffix='.old',
+                dir=os.path.dirname(data_home))
+            os.rename(data_home, os.path.join(trash, 'data'))
+            shutil.rmtree(trash)
             os.makedirs(data_home)
 
     # preparing file names...
-- 
2.43.0


From 4f2f1ba413162538f4b2a6d4531926f6c2fec34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:09 +0000
Subject: [PATCH 20/58] fix: do not silently omit the models of an unreadable
 folder

os.walk ignores by default the errors in listing a folder: load_dataset returned
a partial list of models rather than reporting them.
---
 rankeval/dataset/datasets_fetcher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 8b082aa..ff17548 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -6,6 +6,7 @@
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 import os
+import errno
 import six
 import json
 import shutil
@@ -206,13 +207,18 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                 models_home)
 
         # filling data structure to return
+        def raise_error(error):
+            # a folder which can not be read is not an empty one
+            if error.errno != errno.ENOENT:
+                raise error
+
         matches = []
         if fold is None:
-            for root, dirnames, filenames in os.walk(models_home):
+            for root, dirnames, filenames in os.walk(models_home, onerror=raise_error):
                 for filename in fnmatch.filter(filenames, '*'):
                     matches.append(os.path.join(root, filename))
         else:
-            for root, dirnames, filenames in os.walk(model_subfolder):
+            for root, dirnames, filenames in os.walk(model_subfolder, onerror=raise_error):
                 for filename in fnmatch.filter(filenames, '*'):
                     matches.append(os.path.join(root, filename))
 
-- 
2.43.0


From 9a8e57fb04e0c66f3bb326cf32b0ef811fefecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:09 +0000
Subject: [PATCH 21/58] fix: istella-full has no validation file

The catalogue reported the string 'None', which load_dataset takes for the name
of the file with the validation set.
---
 rankeval/dataset/write_json_dataset_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/write_json_dataset_catalogue.py b/rankeval/dataset/write_json_dataset_catalogue.py
index 3920662..66d735a 100644
--- a/rankeval/dataset/write_json_dataset_catalogue.py
+++ b/rankeval/dataset/write_json_dataset_catalogue.py
@@ -17,7 +17,7 @@ output_file = "dataset_dictionary.json"
 def __add_istella_full__(data):
     item = {'TRAIN_FILE': 'full/train.txt',
             'TEST_FILE': 'full/test.txt',
-            'VALIDATION_FILE': 'None',
+            'VALIDATION_FILE': None,
             'LICENSE_FILE': 'istella-letor-LA.txt',
             'DATASET_ARCHIVE_NAME': 'istella-letor.tar.gz',
             'MODELS_ARCHIVE_NAME': 'istella-letor-models.tar.gz',
-- 
2.43.0


From 82d987b92ab47c080bb6ca70477159b9ee5f87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 22/58] fix: count ties with the observed difference in the
 randomization test

The observed difference was computed in single precision and the ones of the
random reassignments in double precision: reassignments equivalent to the
observed one (e.g. the identity) were often not counted because of the rounding,
up to reporting a p-value of 0.
---
 rankeval/analysis/statistical.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 7ca8f8e..184b1e9 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -126,6 +126,11 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
             min=0, max=10, description="Randomization Test")
         display(progress_bar)
 
+    # double precision, so that reassignments as good as the observed one are not
+    # missed because of the rounding
+    metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
+    metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
@@ -136,9 +141,6 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
         best_metrics = metric_scores_b
         worst_metrics = metric_scores_a
 
-    difference = np.mean(best_metrics) - np.mean(worst_metrics)
-    abs_difference = np.abs(difference)
-
     p1 = 0.0  # one-sided
     p2 = 0.0  # two-sided
     N = float(len(metric_scores_a))
@@ -146,6 +148,9 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
     a_sum = np.sum(best_metrics)
     b_sum = np.sum(worst_metrics)
 
+    difference = a_sum / N - b_sum / N
+    abs_difference = np.abs(difference)
+
     # repeat n_prem times
     for i in range(n_perm):
         if ipywidgets and i % (n_perm/10) == 0:
-- 
2.43.0


From 14e7a8944a90dfa34ce7924e264d303fc2c697a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 23/58] fix: relevance analyses of datasets with a different
 number of documents

np.unique does not accept a ragged list of arrays: document_graded_relevance and
rank_confusion_matrix failed whenever the datasets had different sizes.
---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..5f95f14 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -450,7 +450,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.sort(np.unique(np.concatenate([dataset.y for dataset in datasets])))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -509,7 +509,7 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.sort(np.unique(np.concatenate([dataset.y for dataset in datasets]))).astype(np.int32)
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
-- 
2.43.0


From 51f3afb73f84bef6ee506959eb69ce37d983b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 24/58] fix: tree_wise_performance of models smaller than the
 step

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 5f95f14..82ff3e8 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,7 +115,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if len(trees) == 0 or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-- 
2.43.0


From 05dfd461d7683177fb020e5c8664dbaff70e4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 25/58] fix: rank_confusion_matrix when some relevance label is
 missing

Labels were used as positions in the matrix, which has one row for each label
actually found in the datasets.
---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 82ff3e8..8062ca4 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -523,8 +523,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        y_i = np.searchsorted(rel_labels, dataset.y[i].astype(np.int32))
+                        y_j = np.searchsorted(rel_labels, dataset.y[j].astype(np.int32))
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 00bbebac1b7a8139665dcd93659f40b3ea018a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:54 +0000
Subject: [PATCH 26/58] fix: do not lose values when memory runs out while
 dumping a dataset

---
 rankeval/dataset/_svmlight_format.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 5b7b99a..f1c269e 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -422,6 +422,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
     int   *qids   = (int*) qids_array->data;
 
     std::ostringstream out;
+    out.exceptions(std::ios::badbit);  // do not hide failing allocations
     out.precision(9);
 
     float* data_pointer = data;
-- 
2.43.0


From 9dca58d0c9d89d889cc5308cee8d4562bb407f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 27/58] fix: strict inequality of large thresholds in XGBoost
 models

threshold - 1 equals threshold in single precision from 2**25 on, thus
nextafter left those thresholds unchanged and the split condition became
<= instead of <.
---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..7766a8e 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, np.float32(-np.inf),
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From 0424db3b1c7f06aff1b4e7696997c21c606f5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 28/58] fix: do not return an empty model when coremltools is
 missing

---
 rankeval/model/proxy_CatBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..686c9ab 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -58,7 +58,7 @@ class ProxyCatBoost(object):
             import coremltools
         except ImportError:
             logging.error('Missing coremltools package!.')
-            return
+            raise
 
         coreml_model = coremltools.models.model.MLModel(file_path)
 
-- 
2.43.0


From 3ac08b015331cc1de9f0ba96aa97c27b916dae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:51 +0000
Subject: [PATCH 29/58] fix: load CatBoost models made of trees of different
 sizes

---
 rankeval/model/proxy_CatBoost.py | 47 ++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 686c9ab..5041401 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -62,21 +62,24 @@ class ProxyCatBoost(object):
 
         coreml_model = coremltools.models.model.MLModel(file_path)
 
-        n_trees, n_nodes = ProxyCatBoost._count_nodes(coreml_model)
+        n_nodes_trees = ProxyCatBoost._count_nodes_trees(coreml_model)
+        n_trees, n_nodes = len(n_nodes_trees), n_nodes_trees.sum()
         # Initialize the model and allocate the needed space
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
+        # The trees may have different sizes (e.g., different depths)
+        trees_offset = np.cumsum(n_nodes_trees) - n_nodes_trees
 
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_tree = n_nodes_trees[node.treeId]
+            tree_offset = trees_offset[node.treeId]
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
-                                                       n_nodes_per_tree)
+                                                       n_nodes_tree)
             node_id_off = node_id_remap + tree_offset
 
             if node_id_remap == 0:  # this is the root of a tree
@@ -103,9 +106,9 @@ class ProxyCatBoost(object):
                 model.trees_nodes_value[node_id_off] = node.branchFeatureValue
                 model.trees_nodes_feature[node_id_off] = node.branchFeatureIndex
                 model.trees_left_child[node_id_off] = tree_offset +\
-                    ProxyCatBoost.remap_nodeId(left, n_nodes_per_tree)
+                    ProxyCatBoost.remap_nodeId(left, n_nodes_tree)
                 model.trees_right_child[node_id_off] = tree_offset + \
-                    ProxyCatBoost.remap_nodeId(right, n_nodes_per_tree)
+                    ProxyCatBoost.remap_nodeId(right, n_nodes_tree)
 
     @staticmethod
     def remap_nodeId(nodeId, n_nodes_per_tree):
@@ -148,15 +151,35 @@ class ProxyCatBoost(object):
             in the model identified by file_path.
         """
 
+        n_nodes_trees = ProxyCatBoost._count_nodes_trees(coreml_model)
+
+        return len(n_nodes_trees), n_nodes_trees.sum()
+
+    @staticmethod
+    def _count_nodes_trees(coreml_model):
+        """
+        Count the number of nodes (both split and leaf nodes) of each tree
+        in the CoreML model.
+
+        Parameters
+        ----------
+        coreml_model : CoreML model
+            The CoreML model to load from
+
+        Returns
+        -------
+        n_nodes_trees : numpy 1d array (n_trees)
+            The number of nodes (both split and leaf nodes) of each tree.
+        """
+
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
 
         n_trees = np.max([node.treeId for node in nodes]) + 1
 
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
+        n_nodes_trees = np.zeros(n_trees, dtype=np.int64)
         for node in nodes:
-            n_nodes_trees[node.treeId] = node.nodeId
-
-        # node_Id starts from 0, thus + 1
-        n_nodes = np.sum(n_nodes_trees + 1)
+            # node_Id starts from 0, thus + 1
+            n_nodes_trees[node.treeId] = max(n_nodes_trees[node.treeId],
+                                             node.nodeId + 1)
 
-        return n_trees, n_nodes
\ No newline at end of file
+        return n_nodes_trees
\ No newline at end of file
-- 
2.43.0


From 60332f45960b5d4aa7e8f0a9358f23a7a69149c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:44 +0000
Subject: [PATCH 30/58] fix: hash datasets that are not C-contiguous

---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 1ed898e..7732ead 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -409,7 +409,8 @@ class Dataset(object):
 
             h = hashlib.md5()
             for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
-                h.update(arr)
+                # hashlib accepts only C-contiguous buffers
+                h.update(np.ascontiguousarray(arr))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
-- 
2.43.0


From 4061df26dd8fa638687967b0283489437f87c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:44 +0000
Subject: [PATCH 31/58] fix: feature importance of datasets that are not
 C-contiguous float32

---
 rankeval/analysis/_efficient_feature.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..9d7c72e 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -60,9 +60,13 @@ def eff_feature_importance(model, dataset):
     # initialize features importance
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
+    # the native code accesses the data by row, in single precision
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -85,9 +89,13 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the native code accesses the data by row, in single precision
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From fbe1fa92fc36886e0757154f0f8eca76bad11d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:46 +0000
Subject: [PATCH 32/58] fix: feature importance of splits sending every
 document to the right

---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 rankeval/analysis/_efficient_feature_impl.h   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index ea20f95..a3f44c9 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -131,7 +131,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..84baa00 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -1,12 +1,13 @@
 class TreeNode {
     public:
         unsigned int node_id;
-        unsigned int start_id;
-        unsigned int end_id;
+        // signed: the end of the range precedes its start when it is empty
+        int start_id;
+        int end_id;
 
         TreeNode(unsigned int node_id,
-                 unsigned int start_id,
-                 unsigned int end_id) :
+                 int start_id,
+                 int end_id) :
             node_id(node_id),
             start_id(start_id),
             end_id(end_id) {}
-- 
2.43.0


From 61c6cffa6ebb0d4bf277dc69f18fd82c49b371a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 33/58] fix: do not wrap around the feature ids over 32767

---
 rankeval/analysis/_efficient_feature.pyx      | 8 ++++----
 rankeval/analysis/_efficient_feature_impl.cpp | 6 +++---
 rankeval/analysis/_efficient_feature_impl.h   | 4 ++--
 rankeval/model/rt_ensemble.py                 | 2 +-
 rankeval/scoring/_efficient_scoring.pyx       | 9 ++++-----
 5 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 9d7c72e..9b9734d 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -23,7 +23,7 @@ cdef extern from "_efficient_feature_impl.h":
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -38,7 +38,7 @@ cdef extern from "_efficient_feature_impl.h":
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -69,7 +69,7 @@ def eff_feature_importance(model, dataset):
         <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
-        <short*> np.PyArray_DATA(model.trees_nodes_feature),
+        <int*> np.PyArray_DATA(model.trees_nodes_feature),
         <float*> np.PyArray_DATA(model.trees_nodes_value),
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
@@ -98,7 +98,7 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
-        <short*> np.PyArray_DATA(model.trees_nodes_feature),
+        <int*> np.PyArray_DATA(model.trees_nodes_feature),
         <float*> np.PyArray_DATA(model.trees_nodes_value),
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index a3f44c9..e1ac8ba 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -9,7 +9,7 @@ void c_feature_importance(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes__feature,
+        const int* trees_nodes__feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -53,7 +53,7 @@ void c_feature_importance_tree(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -97,7 +97,7 @@ void c_feature_importance_tree(
         queue.pop_back();
 
         int node_id = node.node_id;
-        short feature_id = trees_nodes_feature[node_id];
+        int feature_id = trees_nodes_feature[node_id];
         float threshold = trees_nodes_value[node_id];
 
         feature_count[feature_id]++;
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 84baa00..e535dd1 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -22,7 +22,7 @@ void c_feature_importance(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -37,7 +37,7 @@ void c_feature_importance_tree(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index d3f3516..883078f 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -167,7 +167,7 @@ class RTEnsemble(object):
         self.trees_nodes_value = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.float32)
         self.trees_nodes_feature = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int16)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
 
     def is_leaf_node(self, index):
         """
diff --git a/rankeval/scoring/_efficient_scoring.pyx b/rankeval/scoring/_efficient_scoring.pyx
index 4b44d5c..40c81e8 100644
--- a/rankeval/scoring/_efficient_scoring.pyx
+++ b/rankeval/scoring/_efficient_scoring.pyx
@@ -38,7 +38,7 @@ def basic_scoring(model, X):
 
     cdef int[:] trees_root = model.trees_root
     cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef int[:] trees_nodes_feature = model.trees_nodes_feature
     cdef float[:] trees_nodes_value = model.trees_nodes_value
     cdef int[:] trees_left_child = model.trees_left_child
     cdef int[:] trees_right_child  = model.trees_right_child
@@ -80,7 +80,7 @@ def detailed_scoring(model, X):
 
     cdef int[:] trees_root = model.trees_root
     cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef int[:] trees_nodes_feature = model.trees_nodes_feature
     cdef float[:] trees_nodes_value = model.trees_nodes_value
     cdef int[:] trees_left_child = model.trees_left_child
     cdef int[:] trees_right_child  = model.trees_right_child
@@ -115,14 +115,13 @@ cdef int _score_single_instance_single_tree(float[:,:] X,
                                             np.intp_t idx_tree,
                                             int[:] trees_root,
                                             float[:] trees_weight,
-                                            short[:] trees_nodes_feature,
+                                            int[:] trees_nodes_feature,
                                             float[:] trees_nodes_value,
                                             int[:] trees_left_child,
                                             int[:] trees_right_child) nogil:
 
-    # Check the usage of np.intp_t in plave of np.int16_t
     cdef int cur_node = trees_root[idx_tree]
-    cdef short feature_idx
+    cdef int feature_idx
     cdef float feature_threshold
     while trees_left_child[cur_node] != -1 and trees_right_child[cur_node] != -1:
         feature_idx = trees_nodes_feature[cur_node]
-- 
2.43.0


From 2b80f3875a62e3039436b18cd843c7f579ddbf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:25 +0000
Subject: [PATCH 34/58] fix: do not wrap around the counts of feature
 importance at 65536

---
 rankeval/analysis/_efficient_feature.pyx      | 15 +++++++++------
 rankeval/analysis/_efficient_feature_impl.cpp |  4 ++--
 rankeval/analysis/_efficient_feature_impl.h   |  4 ++--
 rankeval/analysis/feature.py                  |  4 ++--
 rankeval/visualization/feature.py             |  2 +-
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 9b9734d..5a08b67 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -28,7 +28,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -44,7 +44,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
@@ -58,7 +58,7 @@ def eff_feature_importance(model, dataset):
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
     # initialize features importance
-    feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+    feature_count = np.zeros(dataset.n_features, dtype=np.int32)
 
     # the native code accesses the data by row, in single precision
     X = np.ascontiguousarray(dataset.X, dtype=np.float32)
@@ -74,13 +74,13 @@ def eff_feature_importance(model, dataset):
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <int*> np.PyArray_DATA(feature_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         model.n_trees);
 
     return np.asarray(feature_imp, dtype=np.float32), \
-           np.asarray(feature_count, dtype=np.uint16)
+           np.asarray(feature_count, dtype=np.int32)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -88,6 +88,7 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
                              feature_imp, feature_count):
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
+    tree_count = np.zeros(dataset.n_features, dtype=np.int32)
 
     # the native code accesses the data by row, in single precision
     X = np.ascontiguousarray(dataset.X, dtype=np.float32)
@@ -104,10 +105,12 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <int*> np.PyArray_DATA(model.trees_right_child),
         tree_id,
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <int*> np.PyArray_DATA(tree_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         <float*> np.PyArray_DATA(y_pred),
         <float*> np.PyArray_DATA(y_pred_tree));
 
+    feature_count += tree_count.astype(feature_count.dtype)
+
     return np.asarray(y_pred_tree, dtype=np.float32)
\ No newline at end of file
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index e1ac8ba..b978ea5 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -14,7 +14,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         int n_instances,
         int n_features,
         int n_trees) {
@@ -59,7 +59,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index e535dd1..9426ab8 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -27,7 +27,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -43,7 +43,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 530aebe..a206b89 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -70,7 +70,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
         # initialize features count
-        feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+        feature_count = np.zeros(dataset.n_features, dtype=np.int32)
 
         # default scores on the root node of the first tree
         y_pred = np.zeros(dataset.n_instances)
@@ -86,7 +86,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     performance = xr.DataArray([feature_imp, feature_count],
                                name='Feature Importance Analysis',
                                coords=[['importance', 'count'],
-                                       np.arange(dataset.n_features, dtype=np.uint16)],
+                                       np.arange(dataset.n_features, dtype=np.int32)],
                                dims=['type', 'feature'])
 
     return performance
diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 0d9a6c1..ca03693 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -44,7 +44,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     """
 
     feature_importance = feature_perf.sel(type='importance').data
-    feature_count = feature_perf.sel(type='count').data.astype(np.uint16)
+    feature_count = feature_perf.sel(type='count').data.astype(np.int32)
 
     # figure
     fig, ax1 = plt.subplots(figsize=(16, 5))
-- 
2.43.0


From 4080a828732e98884095e33af04a515231684199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 35/58] fix: refuse invalid, repeated or unordered ids in
 svmlight files

Ids out of the range of an int wrapped around, the characters after a number
were dropped, and the values of features repeated or not in increasing order
ended up in other features.
---
 rankeval/dataset/_svmlight_format.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index f1c269e..3cb0b27 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -267,8 +267,9 @@ void parse_line(const std::string &line,
   }
   labels.push_back(y);
 
-  int idx;
+  long long idx, last_idx = -1;
   double x;
+  int n_chars;
   int next_feature = 1;
   bool reuse_line = false;
 
@@ -279,8 +280,13 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u", &idx) != 1) {
+  if (sscanf(token.c_str(), "qid:%lld%n", &idx, &n_chars) != 1) {
     reuse_line = true;
+  } else if ((size_t) n_chars != token.length() || idx != (int) idx) {
+    throw std::invalid_argument( std::string("expected 'qid:id', got '") +
+                                 token.c_str() +
+                                 "', lineno " +
+                                 std::to_string(lineno));
   } else {
     qids.push_back(idx);
   }
@@ -290,7 +296,11 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
+    // the whole token is expected to be valid, and the ids to be increasing
+    if(sscanf(token.c_str(), "%lld:%lf%n", &idx, &x, &n_chars) == 2 &&
+       (size_t) n_chars == token.length() && idx == (int) idx && idx > last_idx) {
+
+        last_idx = idx;
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From 5c8fc81ef962e788cce197a828ddc9c8a286580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 36/58] fix: refuse datasets whose queries are not contiguous

The offsets of the queries assigned the documents to the wrong ones.
---
 rankeval/dataset/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 7732ead..e59d94b 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -65,6 +65,12 @@ class Dataset(object):
         self.query_ids, self.query_offsets = \
             np.unique(query_ids, return_index=True)
 
+        # the offsets describe the queries only if each one is a single block
+        qids = np.ravel(query_ids)
+        n_changes = np.count_nonzero(qids[1:] != qids[:-1])
+        if n_changes >= max(self.query_ids.size, 1):
+            raise Exception("The documents of a query are not contiguous")
+
         # resort the arrays per offset (if the file does not contains qids in
         # order, the np.unique will return qids with a different ordering...
         idx_sort = np.argsort(self.query_offsets)
-- 
2.43.0


From 16cb09941d1ece416d1cfb40e3bd7f3a68dec40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 37/58] fix: never download when download_if_missing is False

A failing stat between the checks and the use of the folders ended up in a
download.
---
 rankeval/dataset/datasets_fetcher.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index ff17548..17619eb 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -170,6 +170,9 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
+        if not (download_if_missing or force_download):
+            raise IOError('dataset not found')
+
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
@@ -200,6 +203,9 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
+            if not (download_if_missing or force_download):
+                raise IOError('models not found')
+
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
             __download_and_extract__(
-- 
2.43.0


From 7affc3ed12fa4ea6cffb6badab1c9a7e518daa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 38/58] fix: return the leaves from get_predicted_leaves

It always raised, since it looked for a missing attribute.
---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From 25f895feff12314b71d39854e72cd0962d4eb3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 39/58] fix: do not take an interrupted detailed scoring as
 done

The scorer returned no scores at all when called again.
---
 rankeval/scoring/scorer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 702f30a..8778c9f 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -82,9 +82,12 @@ class Scorer(object):
             return self.y_pred
 
         if detailed:
-            self.out_leaves, self.partial_y_pred = \
+            out_leaves, partial_y_pred = \
                 detailed_scoring(self.model, self.dataset.X)
-            self.y_pred = self.partial_y_pred.sum(axis=1)
+            self.y_pred = partial_y_pred.sum(axis=1)
+            self.partial_y_pred = partial_y_pred
+            # the last one: it tells that the detailed scoring has been done
+            self.out_leaves = out_leaves
         else:
             self.y_pred = basic_scoring(self.model, self.dataset.X)
 
-- 
2.43.0


From 519837a256ca0825dbb13eb1bb17076a206dce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 40/58] fix: compare datasets of different shapes, or with
 other objects

---
 rankeval/dataset/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index e59d94b..fb32058 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -422,6 +422,12 @@ class Dataset(object):
         return self._hash_cached
 
     def __eq__(self, other):
+        if not isinstance(other, Dataset):
+            return NotImplemented
+        # arrays of different shapes can not be compared element by element
+        if self.X.shape != other.X.shape or \
+                self.query_ids.shape != other.query_ids.shape:
+            return False
         # use != instead of == because it is more efficient for sparse matrices:
         x_eq = not(self.X != other.X).any()
         return x_eq and (self.y == other.y).all() and \
-- 
2.43.0


From 67c6ecc422ebf2187811ff8f263712f8e4d58054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 41/58] fix: raise LookupError for a query id missing from the
 dataset

---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index fb32058..c7bb3d2 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -321,8 +321,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError("query_id {:d} is missing from the dataset"
+                              .format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From 35fabb2ddfbd907d6b6ebd9e035be1dfc3a5f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 42/58] fix: plot_shape draws on a figure of its own, not over
 an existing one

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4f789f4..068606d 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -56,7 +56,7 @@ def plot_shape(topological, max_level=10):
     )
 
     # figure
-    fig = plt.figure(1, figsize=(12, 6))
+    fig = plt.figure(figsize=(12, 6))
 
     tr = Affine2D().translate(np.pi, 0) + PolarAxes.PolarTransform()
     x_ticks = [x+2. for x in range(max_levels-1)]
-- 
2.43.0


From 0bf8989245030870f02fd1c28cf40d3a8e9cfa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 43/58] fix: plot_shape draws each level in its own ring

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 068606d..3be6c94 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -105,7 +105,7 @@ def plot_shape(topological, max_level=10):
                 z[start_idx:end_idx, level] = ts[level, node]
 
     # draw the tree nodes frequencies
-    h = ax.pcolormesh(theta, r, z, cmap=cm, vmin=0., vmax=1.)
+    h = ax.pcolormesh(theta, r, z[:-1, :-1], cmap=cm, vmin=0., vmax=1.)
 
     # color bar
     cax = fig.add_axes([.95, 0.15, 0.025, 0.8]) # axes for the colot bar
-- 
2.43.0


From 57c2f117f5ce88b6945fb0cd2de9777c8052ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 44/58] fix: plot_feature_importance accepts fewer features
 than max_features

---
 rankeval/visualization/feature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index ca03693..957f83f 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -62,8 +62,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     if isinstance(max_features, six.integer_types):
         idx_sorted = idx_sorted[:max_features]
-    else:
-        max_features = len(feature_importance)
+    max_features = len(idx_sorted)
 
     top_features = idx_sorted
     top_importances = feature_importance[idx_sorted]
-- 
2.43.0


From 4f8d91cda0b0f798f82673d7ab181c68ce8c49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 45/58] fix: plot_rank_confusion_matrix labels each axis with
 what it shows

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6a75563..9045b8b 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -422,8 +422,8 @@ def plot_rank_confusion_matrix(performance):
             axes[i, 0].pcolormesh(matrix)
             axes[i, 0].set_title(performance.name + " for " + dataset.name +
                                 " and model " + model.name)
-            axes[i, 0].set_ylabel("Label j")
-            axes[i, 0].set_xlabel("Label i")
+            axes[i, 0].set_ylabel("Label i")
+            axes[i, 0].set_xlabel("Label j")
             # axes[i,0].legend(["Label "+str(int(l)) for l in
             # performance.coords['label'].values])
 
-- 
2.43.0


From 30da8a7ec5f36524ca71ce324395fa6680b39ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 46/58] fix: plot_rank_confusion_matrix accepts a single label

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 9045b8b..cf94bdd 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -388,7 +388,7 @@ def is_log_scale_matrix(matrix):
     """
     flat = matrix.values.flatten()
     flat.sort()
-    if flat[-1]/flat[-2] > 2:
+    if len(flat) > 1 and flat[-1]/flat[-2] > 2:
         return True
     else:
         return False
-- 
2.43.0


From 6d3e495fa8d4ab320448b19647dc46368c773a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 47/58] fix: plot_query_class_performance names every model
 when comparing metrics

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index cf94bdd..2598b4a 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -493,6 +493,8 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 # add some text for labels, title and axes ticks
                 axes[i, 0].yaxis.grid(True, zorder=0, ls="--")
                 axes[i, 0].set_ylabel("Metric Score")
+                axes[i, 0].set_title(performance.name + " for " + dataset.name +
+                                     " and model " + model.name)
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
                 y_max = np.ceil(performance.values.max()*1.4*10.)/10.
@@ -501,8 +503,6 @@ def plot_query_class_performance(performance, show_values=False, compare="models
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
                               loc=2, borderaxespad=0.)
-            fig.suptitle(performance.name + " for " + dataset.name +
-                         " and model " + model.name)
 
             fig_list.append(fig)
 
-- 
2.43.0


From 34d81b63418497f2b5946210c9b3112141b4d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 48/58] fix: init_plot_style works with recent versions of
 matplotlib

---
 rankeval/visualization/effectiveness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 2598b4a..5270074 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -18,7 +18,9 @@ def init_plot_style():
     -------
 
     """
-    plt.style.use("seaborn-notebook")
+    # renamed in recent versions of matplotlib
+    plt.style.use("seaborn-notebook" if "seaborn-notebook" in plt.style.available
+                  else "seaborn-v0_8-notebook")
     sns.set_palette("deep")
 
 
-- 
2.43.0


From 037247895cbfeb5ac6d6d84836980108d343fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 49/58] fix: plot_feature_importance gives a figure that can be
 drawn when all the importances are zero

---
 rankeval/visualization/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 957f83f..f9e0fef 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -100,7 +100,8 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     ax1.set_xlim(-bar_width/2 - bar_width, max_features - 1 + bar_width*5/2)
 
-    step_y = np.ceil(top_importances.max() * 10) / 100
+    # the importances may be all zero
+    step_y = np.ceil(top_importances.max() * 10) / 100 or 0.1
     align_y_axis(ax1, ax2, step_y, 100, num_ticks=6)
 
     ax1.set_ylabel("Importance Gain")
-- 
2.43.0


From 0e18b559868b801ad76793581e246f7a49b4c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:56 +0000
Subject: [PATCH 50/58] fix: plot_query_wise_performance names every metric and
 model it plots

---
 rankeval/visualization/effectiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 5270074..e4c8ef2 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -297,6 +297,7 @@ def plot_query_wise_performance(performance, compare="models"):
                                     metric_values.values*100, label=metric)
 
                 axes[i, 0].set_ylabel("Query %")
+                axes[i, 0].set_title(model)
                 axes[i, 0].yaxis.set_ticks(np.arange(0, 101, 25))
                 axes[i, 0].yaxis.grid(True, zorder=0, ls="--")
             axes[i, 0].set_xlabel("Metric Score")
@@ -320,7 +321,7 @@ def plot_query_wise_performance(performance, compare="models"):
                 axes[j, 0].set_ylabel("Query %")
                 axes[j, 0].yaxis.set_ticks(np.arange(0, 101, 25))
                 axes[j, 0].yaxis.grid(True, zorder=0, ls="--")
-            axes[j, 0].set_xlabel(metric)
+                axes[j, 0].set_xlabel(metric)
             axes[j, 0].legend(bbox_to_anchor=(1.05, 1), loc=2, borderaxespad=0.)
             fig.tight_layout(rect=[0, 0.03, 1, 0.95])
             fig_list.append(fig)
-- 
2.43.0


From 17d9b7acd8f26d2c855798c0473ccfe10ba3df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 51/58] fix: let the exception of the stream reach the caller
 of dump

---
 rankeval/dataset/_svmlight_format.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 3cb0b27..adf5a5b 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -451,11 +451,8 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
       data_pointer += n_features;
       out << std::endl;
 
-      if (PyFile_WriteString(out.str().c_str(), pystream) == -1) {
-        std::string msg("error in SVMlight/libSVM writer: not able to write");
-        PyErr_SetString(PyExc_RuntimeError, msg.c_str());
-        return 0;
-      }
+      if (PyFile_WriteString(out.str().c_str(), pystream) == -1)
+        return 0;  // the stream raised (I/O error, interrupt, ...)
       // Reset string stream content
       out.str("");
       out.clear();
-- 
2.43.0


From 5df9916ec2ece0dcaf0167355e0a75630744af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 52/58] fix: report lack of memory in dump as MemoryError

---
 rankeval/dataset/_svmlight_format.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index adf5a5b..5aae5a4 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -461,6 +461,9 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
     Py_INCREF(Py_None);
     return Py_None;
 
+  } catch (std::bad_alloc const &e) {
+    PyErr_SetString(PyExc_MemoryError, e.what());
+    return 0;
   } catch (std::exception const &e) {
     std::string msg("error in SVMlight/libSVM writer: ");
     msg += e.what();
-- 
2.43.0


From 66810036a365c8bceca4649095afa561ad37c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 53/58] fix: rethrow what the conversion of a loaded file
 raised, not a copy of a destroyed object

---
 rankeval/dataset/_svmlight_format.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 5aae5a4..8559a17 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -173,7 +173,6 @@ static PyObject *to_dense(std::vector<float> &data,
                         std::vector<int> &qids)
 {
   // We could do with a smart pointer to Python objects here.
-  std::exception const *exc = 0;
   PyObject *data_arr = 0,
            *qids_arr = 0,
            *labels_arr = 0,
@@ -187,8 +186,11 @@ static PyObject *to_dense(std::vector<float> &data,
     ret_tuple = Py_BuildValue("OOO",
                               data_arr, labels_arr, qids_arr);
 
-  } catch (std::exception const &e) {
-    exc = &e;
+  } catch (...) {
+    Py_XDECREF(data_arr);
+    Py_XDECREF(qids_arr);
+    Py_XDECREF(labels_arr);
+    throw;
   }
 
   // Py_BuildValue increases the reference count of each array,
@@ -198,9 +200,6 @@ static PyObject *to_dense(std::vector<float> &data,
   Py_XDECREF(qids_arr);
   Py_XDECREF(labels_arr);
 
-  if (exc)
-    throw *exc;
-
   return ret_tuple;
 }
 
-- 
2.43.0


From d02599acfff0a8dbdb2147fa16315461895e5a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 54/58] fix: read the values of svmlight files whatever the
 locale

---
 rankeval/dataset/_svmlight_format.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 8559a17..de5525f 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -236,6 +236,22 @@ void reshape_data(std::vector<float> &data,
 }
 
 
+/*
+ * Parse a number written as in C, whatever the current locale is.
+ */
+static bool parse_double(const char *s, double &x)
+{
+  char *end;
+  x = PyOS_string_to_double(s, &end, NULL);
+  if (x == -1.0 && PyErr_Occurred()) {
+    if (!PyErr_ExceptionMatches(PyExc_ValueError))
+      throw PythonError();
+    PyErr_Clear();
+    return false;
+  }
+  return *end == '\0';
+}
+
 /*
  * Parse single line. Throws exception on failure.
  */
@@ -296,8 +312,9 @@ void parse_line(const std::string &line,
     reuse_line = false;
 
     // the whole token is expected to be valid, and the ids to be increasing
-    if(sscanf(token.c_str(), "%lld:%lf%n", &idx, &x, &n_chars) == 2 &&
-       (size_t) n_chars == token.length() && idx == (int) idx && idx > last_idx) {
+    n_chars = -1;
+    if(sscanf(token.c_str(), "%lld:%n", &idx, &n_chars) == 1 && n_chars > 0 &&
+       parse_double(token.c_str() + n_chars, x) && idx == (int) idx && idx > last_idx) {
 
         last_idx = idx;
 
-- 
2.43.0


From 379ca13073fb3224f1ea2c40a669eb7b9e33840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 55/58] fix: read textual models as UTF-8 whatever the locale

---
 rankeval/model/proxy_LightGBM.py    | 5 +++--
 rankeval/model/proxy_ScikitLearn.py | 5 +++--
 rankeval/model/proxy_XGBoost.py     | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index db8cbb1..8ac1688 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -29,6 +29,7 @@ to load is trained on a dataset with missing values (especially in the case you
 use the setting zero_as_missing=true).
 """
 
+import io
 import re
 
 import numpy as np
@@ -74,7 +75,7 @@ class ProxyLightGBM(object):
 
         curr_tree = root_node = 0
         num_leaves = num_splits = 0
-        with open(file_path, 'r') as f:
+        with io.open(file_path, 'r', encoding='utf-8') as f:
             for line in f:
 
                 match = tree_reg.match(line)
@@ -205,7 +206,7 @@ class ProxyLightGBM(object):
         n_nodes = 0
         n_trees = 0
 
-        with open(file_path, 'r') as f:
+        with io.open(file_path, 'r', encoding='utf-8') as f:
             for line in f:
                 match = num_leaves_reg.match(line)
                 if match:
diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..81786b0 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -20,6 +20,7 @@ The Scikit-Learn project is described here:
     http://scikit-learn.org/
 """
 
+import io
 import re
 
 import numpy as np
@@ -60,7 +61,7 @@ class ProxyScikitLearn(object):
         num_nodes = 0
         learning_rate = 1
         queue = list()
-        with open(file_path, 'r') as f:
+        with io.open(file_path, 'r', encoding='utf-8') as f:
             for line in f:
 
                 match = base_score_reg.match(line)
@@ -153,7 +154,7 @@ class ProxyScikitLearn(object):
         n_nodes = 0
         n_trees = 0
 
-        with open(file_path, 'r') as f:
+        with io.open(file_path, 'r', encoding='utf-8') as f:
             for line in f:
 
                 match = tree_reg.match(line)
diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index 7766a8e..b4e6fe9 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -34,6 +34,7 @@ different predictions with respect to the original model. Without a fix by
 XGBoost authors, DO NOT USE this proxy.
 """
 
+import io
 import re
 import sys
 import numpy as np
@@ -71,7 +72,7 @@ class ProxyXGBoost(object):
         root_node = 0
         num_nodes = 0
         queue = list()
-        with open(file_path, 'r') as f:
+        with io.open(file_path, 'r', encoding='utf-8') as f:
             for line in f:
 
                 match_tree = tree_reg.match(line)
@@ -160,7 +161,7 @@ class ProxyXGBoost(object):
         n_nodes = 0
         n_trees = 0
 
-        with open(file_path, 'r') as f:
+        with io.open(file_path, 'r', encoding='utf-8') as f:
             for line in f:
 
                 match = tree_reg.match(line)
-- 
2.43.0


From 21dabe145b9459f4969cf0fee4b3b4e8d825c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 56/58] fix: feature importance of tables with more than 2^32
 cells

The offset of a cell was computed in 32 bits, hence wrapped around.
---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index b978ea5..7416f1d 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -109,7 +109,7 @@ void c_feature_importance_tree(
         unsigned int instance;
         while (start_id <= end_id) {
             instance = split_instance[start_id];
-            if (X[instance * n_features + feature_id] <= threshold) {
+            if (X[(size_t) instance * n_features + feature_id] <= threshold) {
                 y_target_mean_left += y_target[instance];
                 ++start_id;
             } else {
-- 
2.43.0


From 7540349b07abfb005c01ba6639462ac3de87f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 57/58] fix: loading svmlight files of more than 2^31 cells

The number of cells to insert when a row introduces new features was
an int: it overflowed, and rows were lost or memory overwritten.
---
 rankeval/dataset/_svmlight_format.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index de5525f..fb136b5 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -211,22 +211,22 @@ void reshape_data(std::vector<float> &data,
                   int &old_num_feature,
                   int new_num_feature)
 {
-  int rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
-  int cells_to_add = rows_to_fix * (new_num_feature - old_num_feature);
-  int cells_to_add_per_row = cells_to_add / rows_to_fix;
+  // the cells of a dataset may be more than an int can count
+  npy_intp rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
+  npy_intp cells_to_add_per_row = new_num_feature - old_num_feature;
+  npy_intp cells_to_add = rows_to_fix * cells_to_add_per_row;
 
-  for (int i=0; i<cells_to_add; ++i)
-    data.push_back(0);
+  data.resize(data.size() + cells_to_add, 0);
 
   std::vector<float>::iterator it = data.end() - new_num_feature - cells_to_add;
-  int move_counter = cells_to_add;
-  for (int i=0; i<=rows_to_fix; ++i) {
+  npy_intp move_counter = cells_to_add;
+  for (npy_intp i=0; i<=rows_to_fix; ++i) {
     int window = (i == 0) ? new_num_feature : old_num_feature;
     if (move_counter > 0)
       std::copy(it, it + window, it + move_counter);
 
     if (i > 0) {
-      for (int j=0; j<cells_to_add_per_row; ++j)
+      for (npy_intp j=0; j<cells_to_add_per_row; ++j)
         *(it + move_counter + old_num_feature + j) = 0;
     }
 
-- 
2.43.0


From ef8832079147d6b54cb6281cbb16ef8d1b743d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 58/58] fix: scoring in a process forked after some scoring

The threads kept by the OpenMP runtime do not survive a fork: the child
waited for them forever. They are now released before forking.
---
 rankeval/scoring/__init__.py            |  8 ++++++++
 rankeval/scoring/_efficient_scoring.pyx | 21 +++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/rankeval/scoring/__init__.py b/rankeval/scoring/__init__.py
index c705cd6..c8a540c 100644
--- a/rankeval/scoring/__init__.py
+++ b/rankeval/scoring/__init__.py
@@ -9,6 +9,14 @@
 The :mod:`rankeval.scoring` module includes utilities to score a model on a given dataset.
 """
 
+import os
+
 from .scorer import Scorer
+from ._efficient_scoring import release_threads
+
+# The threads of OpenMP do not survive a fork: a child process forked after
+# some scoring would wait for them forever at its first parallel region.
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(before=release_threads)
 
 __all__ = ['Scorer']
diff --git a/rankeval/scoring/_efficient_scoring.pyx b/rankeval/scoring/_efficient_scoring.pyx
index 40c81e8..8e9a490 100644
--- a/rankeval/scoring/_efficient_scoring.pyx
+++ b/rankeval/scoring/_efficient_scoring.pyx
@@ -25,6 +25,27 @@ np.import_array()
 
 from cython.parallel import prange, parallel
 
+cdef extern from *:
+    """
+    #if defined(_OPENMP) && _OPENMP >= 201511 && __GNUC__ >= 9
+    #include <omp.h>
+    static void rankeval_release_threads(void) {
+        omp_pause_resource_all(omp_pause_soft);
+    }
+    #else
+    static void rankeval_release_threads(void) {}
+    #endif
+    """
+    void rankeval_release_threads()
+
+
+def release_threads():
+    """
+    Release the threads kept by the OpenMP runtime for the next parallel
+    regions of the calling thread (they are created again when needed).
+    """
+    rankeval_release_threads()
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 def basic_scoring(model, X):
-- 
2.43.0

