From e69c8acdf1bfbc64e78d886d3ff66e3e050510b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:44 +0000
Subject: [PATCH 01/63] fix: forget SLIM supports cached from an earlier fit
 when new data is ingested

---
 skmine/itemsets/slim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..77e72ad 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -654,6 +654,8 @@ class SLIM(BaseEstimator, TransformerMixin):
             series_to_add = pd.Series([Bitmap() for item in not_in_sct], index=not_in_sct, dtype=object)
             self.standard_codetable_ = pd.concat([self.standard_codetable_, series_to_add])
 
+        SLIM.get_support.cache_clear()  # supports cached from previously ingested data are obsolete
+
         # Convert Standard Codetable pandas.Series in list of (frozenset({.}), Bitmap({...}),...)
         ct_it = ((frozenset([e]), tids) for e, tids in self.standard_codetable_.items())
 
-- 
2.43.0


From c83ec4896d48d768178f857aedd6ec945c549dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 02/63] fix: SLIM.transform(out=...) accepts items that are not
 strings

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 77e72ad..78ea588 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -542,7 +542,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From b9ac36805c2176a5be2271c954daa30a512cd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 03/63] fix: copying a SLIM estimator keeps max_time

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 78ea588..6d92997 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -782,4 +782,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning)
+        return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
-- 
2.43.0


From 49cc5407f883cb55fb856c65ac40f09ff63edbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:58 +0000
Subject: [PATCH 04/63] fix: SlimClassifier passes its pruning option on to the
 per-class models

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From f48f96a7ea2a3d2870fae8a073a37d7db99b50f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:03 +0000
Subject: [PATCH 05/63] fix: SLIMVectorizer names all its options so that
 get_params and clone keep them

---
 skmine/feature_extraction/slim_vectorizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..b8c712a 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -70,10 +70,9 @@ class SLIMVectorizer(SLIM):
     patterns should output matrices with very few zeros.
     """
 
-    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, **kwargs):
-        super().__init__(**kwargs)
+    def __init__(self, strategy="codes", k=5, pruning=False, stop_items=None, max_time=-1, items=None):
+        super().__init__(pruning=pruning, max_time=max_time, items=items)
         self.k = k
-        self.pruning = pruning
         self.stop_items = stop_items
         if strategy not in STRATEGIES:
             raise ValueError(f"strategy must be one of {STRATEGIES}")
-- 
2.43.0


From f10ae9d13db780c1f29224beb36b96e7f8365d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:09 +0000
Subject: [PATCH 06/63] fix: SLIMVectorizer can be fitted with stop_items

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index b8c712a..a3cebce 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -80,7 +80,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From 3f34da056e45928755f4bb9a6297609b175707de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 07/63] fix: restore the pandas use_inf_as_na option when the
 input is rejected

---
 skmine/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..a7887ad 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -114,10 +114,10 @@ def _check_D_sklearn(D):
     if D.shape[1] == 0:  # SKLEARN : check_empty_data_messages
         raise ValueError("Empty data")
 
-    pd.options.mode.use_inf_as_na = True
-    if D.isnull().values.any():
+    with pd.option_context("mode.use_inf_as_na", True):
+        has_null = D.isnull().values.any()
+    if has_null:
         raise ValueError("esimator does not check for NaN and inf")
-    pd.options.mode.use_inf_as_na = False
 
 
 def _check_D(D):
-- 
2.43.0


From ac3f739b9d439e25b69e2e74306184ee9df1cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 08/63] fix: CallBacks is immutable for all mutating dict
 operations

---
 skmine/callbacks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..3355969 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -96,7 +96,13 @@ class CallBacks(dict):
         raise NotImplementedError(f"{type(self)} is immutable")
 
     __setitem__ = _frozen
+    __delitem__ = _frozen
+    __ior__ = _frozen
     update = _frozen
+    setdefault = _frozen
+    pop = _frozen
+    popitem = _frozen
+    clear = _frozen
 
     def __call__(self, miner):
         # print("dir(miner)", dir(miner))
-- 
2.43.0


From 44ffc22107019a69ea47a3ea7c6a1f864801abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 09/63] fix: LCM writes its per-root files to a private
 temporary directory, removed on every exit

---
 skmine/itemsets/lcm.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..786acb1 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -12,7 +12,7 @@ as described in `http://lig-membres.imag.fr/termier/HLCM/hlcm.pdf`
 # License: BSD 3 clause
 
 import os
-import shutil
+import tempfile
 from collections import defaultdict
 from itertools import takewhile
 
@@ -164,7 +164,7 @@ class LCM(TransformerMixin, BaseEstimator):
         out : str, default=None
             File where results are written. Discover return None. The 'out' option is usefull 
             to save memory : Instead of store all branch of lcm-tree in memory , each root 
-            branch of lcm is written in a separated file in dir (TEMP_dir), and all files are
+            branch of lcm is written in a separated file in a temporary dir, and all files are
             concatenated in the final 'out' file.
 
         Returns
@@ -218,24 +218,20 @@ class LCM(TransformerMixin, BaseEstimator):
             return df
 
         else:  # store results in files
-            temp_dir = 'TEMP_dir'  # temporary dir where root items branch files are written
-            if os.path.exists(temp_dir):  # remove dir TEMP_dir if it exists
-                shutil.rmtree(temp_dir)
-            os.mkdir(temp_dir)  # create dir TEMP_dir
-
-            Parallel(n_jobs=self.n_jobs, prefer="processes")(
-                delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
-                for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
-
-            with open(self.out_,
-                      'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
-                for fname in [f"{temp_dir}/root{k}.dat" for k in
-                              range(len(list(self.item_to_tids_.items())))]:  # all items root files
-                    with open(fname) as infile:
-                        for line in infile:
-                            if line.strip():  # to skip empty lines
-                                outfile.write(line)
-            shutil.rmtree(temp_dir)  # remove the temporary dir where root files are written
+            # private temporary dir where root items branch files are written, removed on exit
+            with tempfile.TemporaryDirectory() as temp_dir:
+                Parallel(n_jobs=self.n_jobs, prefer="processes")(
+                    delayed(self._explore_root)(item, tids, root_file=f"{temp_dir}/root{k}.dat")
+                    for k, (item, tids) in enumerate(list(self.item_to_tids_.items())))
+
+                with open(self.out_,
+                          'w') as outfile:  # concatenate all itemsroot files located in temp_dir in a single file
+                    for fname in [f"{temp_dir}/root{k}.dat" for k in
+                                  range(len(list(self.item_to_tids_.items())))]:  # all items root files
+                        with open(fname) as infile:
+                            for line in infile:
+                                if line.strip():  # to skip empty lines
+                                    outfile.write(line)
 
             return None
 
-- 
2.43.0


From 987742e81deb42f23ad78fdef1833328889c83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 10/63] fix: make_transactions accepts a RandomState instance
 as documented

---
 skmine/datasets/_samples_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..aba1af1 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -63,7 +63,10 @@ def make_transactions(
 
     avg_transaction_size = density * n_items
 
-    generator = np.random.RandomState(random_state)  # pylint: disable= no-member
+    if isinstance(random_state, np.random.RandomState):
+        generator = random_state
+    else:
+        generator = np.random.RandomState(random_state)  # pylint: disable= no-member
 
     item_stop = item_start + n_items
     choices = np.arange(start=item_start, stop=item_stop)
-- 
2.43.0


From 7e1fd9bf16a5ebab76b08649ad6cae789f58991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 11/63] fix: make_classification shuffles with the given
 random_state

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index aba1af1..4901a1d 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -178,6 +178,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From 235a4431ecc37adb1fce1ed0eb9f856191e04b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 12/63] fix: do not leave a truncated dataset in the cache when
 writing it fails

---
 skmine/datasets/periodic.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..43e4253 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -50,6 +50,16 @@ def fetch_file(filepath, separator=',', format=None):
     return s
 
 
+def _write_cache(s, filepath, **kwargs):
+    """Write a dataset to the cache, a file that could not be written completely is removed"""
+    try:
+        s.to_csv(filepath, **kwargs)
+    except BaseException:
+        if os.path.exists(filepath):
+            os.remove(filepath)
+        raise
+
+
 def fetch_health_app(data_home=None, filename="health_app.csv"):
     """Fetch and return the health app log dataset
 
@@ -90,7 +100,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
     else:
         s = pd.read_csv(health_app_url, sep="|", on_bad_lines='skip', usecols=[0, 1], **kwargs).squeeze(axis="columns")
-        s.to_csv(p, header=False)
+        _write_cache(s, p, header=False)
     s.index.name = "timestamp"
     s.index = pd.to_datetime(s.index, format="%Y%m%d-%H:%M:%S:%f")
 
@@ -145,7 +155,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
 
     if filename not in os.listdir(data_home):
         s = pd.read_csv(canadianTV_url, **kwargs).squeeze(axis="columns")
-        s.to_csv(p, index=True, header=False)
+        _write_cache(s, p, index=True, header=False)
     else:
         s = pd.read_csv(p, **kwargs).squeeze(axis="columns")
 
-- 
2.43.0


From c2e6e1562444a29141095e7f7d0d956af2cdecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:19 +0000
Subject: [PATCH 13/63] fix: fetch_ubiq gives the working directory back

---
 skmine/datasets/periodic.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 43e4253..32c0e06 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -197,20 +197,23 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = os.path.abspath(data_home or get_data_home())
     ubiq_dir = os.path.join(data_home, 'UbiqLog')
     user_ubiq_dir = os.path.join(ubiq_dir, 'users_ubiq')
     if not os.path.exists(ubiq_dir):
         os.makedirs(ubiq_dir, exist_ok=True)
+        cwd = os.getcwd()
         os.chdir(ubiq_dir)
-
-        infile = "all_log_applications_nonbin.txt"
-        os.system("wget " + UBIQ_url)
-        os.system("unzip UbiqLog4UCI.zip")
-        os.system("rm __MACOSX -rf")
-        os.system('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
-        os.makedirs(user_ubiq_dir)
-        parse_all_user(infile, user_ubiq_dir, min_occ=10)
+        try:
+            infile = "all_log_applications_nonbin.txt"
+            os.system("wget " + UBIQ_url)
+            os.system("unzip UbiqLog4UCI.zip")
+            os.system("rm __MACOSX -rf")
+            os.system('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
+            os.makedirs(user_ubiq_dir)
+            parse_all_user(infile, user_ubiq_dir, min_occ=10)
+        finally:
+            os.chdir(cwd)
 
     filename = os.path.join(user_ubiq_dir, user_filename)
     if not os.path.exists(filename):
-- 
2.43.0


From 183ef95ca65bc82d8a3a5b8056b69e2a53d49262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:26 +0000
Subject: [PATCH 14/63] fix: MDLPDiscretizer.transform applies cut points by
 column name

---
 skmine/preprocessing/mdlp_discretizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..13a0133 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -240,11 +240,16 @@ class MDLPDiscretizer(BaseMiner):
 
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
-        _X = X.values if isinstance(X, pd.DataFrame) else X
+        if isinstance(X, pd.DataFrame):  # columns may come in another order than in fit
+            _X = X.values
+            all_cut_points = [self.cut_points_[col] for col in X.columns]
+        else:
+            _X = X
+            all_cut_points = list(self.cut_points_.values())
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
             delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            for idx, cut_points in enumerate(all_cut_points)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
-- 
2.43.0


From 7ace0ab910395d36402f520074743bce106bf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:32 +0000
Subject: [PATCH 15/63] fix: MDLPDiscretizer.transform keeps the row index of a
 DataFrame

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 13a0133..73de4e8 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -256,7 +256,7 @@ class MDLPDiscretizer(BaseMiner):
         _X = np.concatenate(vects, axis=1)
 
         if isinstance(X, pd.DataFrame):
-            _X = pd.DataFrame(_X, columns=X.columns)
+            _X = pd.DataFrame(_X, columns=X.columns, index=X.index)
 
         return _X
 
-- 
2.43.0


From b9fb980dcb715155effed712b5879748297e7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:38 +0000
Subject: [PATCH 16/63] fix: PeriodicPatternMiner can be queried when fitted
 with auto_time_scale=False

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..64a4818 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -142,6 +142,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
-- 
2.43.0


From 53ad50ffdf426dfd3a59fcc255ffd1c5fce0a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:44 +0000
Subject: [PATCH 17/63] fix: describing periodic patterns does not alter them

---
 skmine/periodic/pattern_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/pattern_collection.py b/skmine/periodic/pattern_collection.py
index e3f2bcb..b216419 100644
--- a/skmine/periodic/pattern_collection.py
+++ b/skmine/periodic/pattern_collection.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .class_patterns import cost_one
@@ -212,7 +214,7 @@ class PatternCollection(object):
                     map_ev=map_ev, leaves_first=True), clp, np.sum(np.abs(E)), len(ocls[pi]), len(set(ocls[pi])),
                     p.getTypeStr())
 
-            pattern_tree = p.nodes
+            pattern_tree = copy.deepcopy(p.nodes)  # the pattern itself must not be altered
             pattern_tree["next_id"] = p.next_id
             pattern_tree["t0"] = int(t0)
             pattern_tree["E"] = [int(e) for e in E]
-- 
2.43.0


From 9bb31e24ed65759d9e9b015b023d9d6f524e3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:49 +0000
Subject: [PATCH 18/63] fix: PeriodicPatternMiner.transform and export_patterns
 work when no pattern was found

---
 skmine/periodic/cycles.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 64a4818..069f392 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -30,6 +30,8 @@ INDEX_TYPES = (
     pd.Index,
 )
 
+CYCLES_COLUMNS = ["t0", "pattern_json_tree", "pattern", "repetition_major", "period_major", "E"]
+
 
 class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
     """
@@ -205,10 +207,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                div_nb_sec=self.div_nb_sec_,
                                                                                is_datetime=self.is_datetime_)
 
-        if not patterns_list_of_dict:
-            return pd.DataFrame()  # FIXME
-
-        self.cycles = pd.DataFrame(patterns_list_of_dict)
+        self.cycles = pd.DataFrame(patterns_list_of_dict, columns=CYCLES_COLUMNS)
 
         if self.auto_time_scale:  # restore time in nano-second
             self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
-- 
2.43.0


From 1335755bdac0649124b5c1c60cab3323d2c3e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 19/63] fix: reconstruct and get_residuals return an empty
 table when there is nothing to return

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 069f392..c97acce 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -346,7 +346,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -402,7 +402,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.auto_time_scale and self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From 1f38f0e86e2ecea1f5f8ce2c640e57ae5353bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:00 +0000
Subject: [PATCH 20/63] fix: get_residuals reports datetimes also with
 auto_time_scale=False

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index c97acce..51042f7 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -404,7 +404,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
-- 
2.43.0


From fe713fb23572ad149ce0f4b850868a6c923b4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 21/63] fix: draw_pattern draws the currently fitted patterns
 without a prior call to transform

---
 skmine/periodic/cycles.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 51042f7..b138b69 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -443,9 +443,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         Digraph
             The generated tree. To see it in a python script, you have to add .view()
         """
-        # transform must have been called before draw_pattern
-        if self.cycles is None:
-            raise Exception("transform must have been called before draw_pattern")
+        # the tree of the currently fitted patterns, whether transform has been called before or not
+        self.transform(None)
 
         pattern = copy.deepcopy(self.cycles.loc[pattern_id]["pattern_json_tree"])
         # map each event id to its real textual name
-- 
2.43.0


From 7cf66996ff9bbfa39b274c7a9c02bae6e13e5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:11 +0000
Subject: [PATCH 22/63] fix: imported periodic patterns can be exported again

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index b138b69..6f9fde0 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -277,6 +277,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
         self.data_details_ = DataSequence(dict(big_dict["data_details"]))
+        self.alpha_groups_ = {event: pd.Index(times) for event, times in big_dict["data_details"].items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 59bfde3d376ff934f4514449368776361e57ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 23/63] fix: shift corrections are rescaled to the input unit
 for integer indexes too

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 6f9fde0..e216bd5 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -211,12 +211,12 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         if self.auto_time_scale:  # restore time in nano-second
             self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+            self.cycles["E"] = self.cycles["E"].map(
+                lambda x: [e * (10 ** self.n_zeros_ * self.div_nb_sec_) for e in x])
 
             if self.is_datetime_:
                 self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
                 self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
-
                 def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
                 self.cycles["E"] = self.cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
-- 
2.43.0


From 39a749df9eba6c9f91c9a469fa31bbc790322f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:43 +0000
Subject: [PATCH 24/63] fix: textual periodic patterns give periods and
 distances in the input unit for integer indexes too

---
 skmine/periodic/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index a0eafca..3796e5f 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -910,16 +910,16 @@ class Pattern(object):
         if self.isInterm(nid):
             r = self.nodes[nid].get("r", "-")
             p = self.nodes[nid].get("p", "-")
+            p *= (10 ** n_zeros * div_nb_sec)  # restore time in the unit of the input (nano-second for datetimes)
             if is_datetime:
-                p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                 p = timedelta(microseconds=p / 1000)
             ss = "[r=%s p=%s]" % (r, p)
             sc = ""
             for ni, nn in enumerate(self.nodes[nid]["children"]):
                 if ni > 0:
                     d = nn[1]
+                    d *= (10 ** n_zeros * div_nb_sec)  # restore time in the unit of the input
                     if is_datetime:
-                        d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                         d = timedelta(microseconds=d / 1000)
                     sc += " [d=%s] " % d
                 sc += self.__str__(nn[0], map_ev, leaves_first, n_zeros, div_nb_sec, is_datetime)
-- 
2.43.0


From 2faaa08811eff701eadf021e4dfec34bfec03816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 25/63] fix: computing a code length never stops in the
 debugger

---
 skmine/periodic/pattern.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index 3796e5f..ddbb25f 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -1,5 +1,4 @@
 import copy
-import pdb
 from datetime import timedelta
 
 import graphviz
@@ -1594,7 +1593,6 @@ class Pattern(object):
 
         if nid > 0 and self.nodes[nid]["r"] > 0:
             if Tmax / (self.nodes[nid]["r"] - 1) < self.nodes[nid]["p"]:
-                pdb.set_trace()
                 print("PROBLEM!! INCORRECT UPPER BOUND")
             # block period (only not for the root one, already specified)
             pmax = np.floor(Tmax / (self.nodes[nid]["r"] - 1.))
-- 
2.43.0


From 27cbe65169c50b54a77e89b44f1a53e369f73fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 26/63] fix: time references of one pattern are not kept in a
 shared default argument

---
 skmine/periodic/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index ddbb25f..7465ec7 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -561,7 +561,7 @@ class Pattern(object):
         rEd, _ = self.computeEDict(occsD)
         return [rEd[oo] for oo in oids[1:]]
 
-    def getOccsRefs(self, nid=0, pref=[], refs={}, cnref='root', offset=0):
+    def getOccsRefs(self, nid=0, pref=[], refs=None, cnref='root', offset=0):
         """
         FIXME : to be explained
         For each node indicate which other node is used as time reference, together with perfect offsets
@@ -580,6 +580,8 @@ class Pattern(object):
         """
         if not self.isNode(nid):
             return None
+        if refs is None:
+            refs = {}
         first_occ_cycle = None
         first_occ_rep = None
         next_ref = None
-- 
2.43.0


From b1bc01ae93641f020013a4cfb36089dcf2caec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 27/63] fix: importing the periodic miner does not change numpy
 print options

---
 skmine/periodic/run_mine.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index d1d6184..73e1066 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -12,8 +12,6 @@ from .extract_cycles import compute_cycles_dyn, extract_cycles_fold
 from .pattern import Pattern
 from .pattern_collection import PatternCollection
 
-numpy.set_printoptions(suppress=True)
-
 TOP_KEACH = 5
 CHECK_HORDER = True
 
-- 
2.43.0


From 36c7cac5443b63778b3b1134a930e911927be76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:50 +0000
Subject: [PATCH 28/63] fix: compute the size of nested patterns without eval

---
 skmine/periodic/run_mine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index 73e1066..72d88c2 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -440,7 +440,8 @@ def nest_cmplx(cmplx_candidates, data_details):
             for epp in store:
                 if not type(u_elems[epp][1]) is int:
                     # size, pr_key, t0, indices in cmplx_candidates
-                    keep.append((eval(pr_key.split("_")[-1]), pr_key, u_elems[epp][0], u_elems[epp][1]))
+                    size = numpy.prod([int(r) for r in pr_key.split("_")[-1].split("*")])
+                    keep.append((size, pr_key, u_elems[epp][0], u_elems[epp][1]))
 
     keep.sort()
     nested_patts = []
-- 
2.43.0


From 1611d6aa5cf3a12a80737d1adc1e338fd83226bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 29/63] fix: duplicate candidates are skipped when their cost
 is given

---
 skmine/periodic/candidate_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/candidate_pool.py b/skmine/periodic/candidate_pool.py
index 2e9a06c..521140b 100644
--- a/skmine/periodic/candidate_pool.py
+++ b/skmine/periodic/candidate_pool.py
@@ -168,7 +168,7 @@ class CandidatePool(object):
             c = self.addCand(p, nkey, with_props=False)
             # HERE figure out reasonable max_offset
             max_offset = None
-            if costOne is not None and c.getCost() is not None:
+            if c is not None and costOne is not None and c.getCost() is not None:
                 max_offset = np.minimum(
                     int(np.floor(c.getCost() / costOne)), c.getNbOccs() - 2)
             if c is not None:
-- 
2.43.0


From 13273f80b36a1e62313819238423b6e1aecd25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 30/63] fix: candidates can be added one by one together with
 their properties

---
 skmine/periodic/candidate_pool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/candidate_pool.py b/skmine/periodic/candidate_pool.py
index 521140b..4e79989 100644
--- a/skmine/periodic/candidate_pool.py
+++ b/skmine/periodic/candidate_pool.py
@@ -140,13 +140,13 @@ class CandidatePool(object):
                 self.map_nkeys[nkey])
             if self.cand_props is None:
                 self.cand_props = np.array(props)
-                self.sorted_pids = range(len(props))
+                self.sorted_pids = sortPids(self.cand_props)
             else:
                 npids = range(
                     self.cand_props.shape[0], self.cand_props.shape[0] + len(props))
                 self.cand_props = np.vstack([self.cand_props, props])
                 self.sorted_pids = mergeSortedPids(
-                    self.cand_props, self.sorted_pids, npids)
+                    self.cand_props, self.sorted_pids, sortPids(self.cand_props, npids))
 
         self.next_cid += 1
         return c
-- 
2.43.0


From 03abd98643519afdd90bc90d82d47735c7f701ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:58 +0000
Subject: [PATCH 31/63] fix: MBDLLBorder can be fitted when one class has no
 maximal itemset

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..e393b4b 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,7 +39,7 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
-    L2 = [{x} for x in U - S[0]]
+    L2 = [{x} for x in U - S[0]] if S else [set()]
     for i in range(1, len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
         L2 = list(filter_minimal(_L2))
-- 
2.43.0


From 7fa86c69c75378515a112fba5722c92874bf6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 32/63] fix: GraphMDL.fit does not write its cover marks into
 the caller's graph

---
 skmine/graph/graphmdl/graph_mdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..fbc4012 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -1,3 +1,4 @@
+import copy
 import time
 
 from skmine.base import BaseMiner
@@ -83,7 +84,7 @@ class GraphMDL(BaseMiner):
         if D is None:
             raise ValueError("You should give a graph")
         else:
-            self._data = D
+            self._data = copy.deepcopy(D)  # the cover marks nodes and edges
             self._init_graph_mdl()
             self._anytime_graph_mdl_with_timeout()
             return self
-- 
2.43.0


From 51cd10c506391f23c0703b4f84cbfec4f0f88b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 33/63] fix: the time limit of an earlier GraphMDL.fit does not
 apply to a later one

---
 skmine/graph/graphmdl/graph_mdl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index fbc4012..77b8781 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -79,8 +79,7 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        self._timeout = timeout if timeout else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 5317786607512377931a8477c891d5910ac1c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 34/63] fix: GraphMDL.fit does not prune with rows of an
 earlier fit

---
 skmine/graph/graphmdl/graph_mdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 77b8781..491fd3e 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -53,6 +53,7 @@ class GraphMDL(BaseMiner):
             the initial code table (CT0), and run a cover computation to create the first rewritten graph.
         """
         self._already_test = []
+        self._pruning_rows = []
         self._label_codes = LabelCodes(self._data)  # label codes creation
         # CT0 creation
         self._code_table = CodeTable(self._label_codes, self._data)
-- 
2.43.0


From 7ee4af05b8a4da9e18ae51a3d2bca6016cfa96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:12 +0000
Subject: [PATCH 35/63] fix: GraphMDL.patterns raises when the model is not
 fitted

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 491fd3e..5038c7c 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -273,7 +273,7 @@ class GraphMDL(BaseMiner):
             return self._patterns
 
         else:
-            return ValueError("The fit method must be called first")
+            raise ValueError("The fit method must be called first")
 
     def description_length(self):
         """
-- 
2.43.0


From 05cadab4086156eec2d8a5d79ea574ca4d2798ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 36/63] fix: an unlabelled edge is refused instead of matching
 any edge

---
 skmine/graph/graphmdl/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..3d04012 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -322,7 +322,7 @@ def _edge_match(edge1, edge2):
     if 'label' in edge1 and 'label' in edge2:
         return edge1['label'] == edge2['label']
     else:
-        return ValueError("All edges must have labels")
+        raise ValueError("All edges must have labels")
 
 
 def _edge_match_for_multigraph(edge1, edge2):
-- 
2.43.0


From ae272a285a9e2d331ec5a6f2317071f7ece8a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 37/63] fix: covering raises on unlabelled edges instead of
 taking them as marked

---
 skmine/graph/graphmdl/code_table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..4b34e9c 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -449,7 +449,7 @@ class CodeTable:
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
                             label] == cover_marker
                     else:
-                        return ValueError(f"{start} and {end} should be a graph node and {start}-{end} a graph edge."
+                        raise ValueError(f"{start} and {end} should be a graph node and {start}-{end} a graph edge."
                                           f"Also the edge should have {label}  as label")
                 else:
                     raise ValueError(f"{start} and {end} should be a graph node and {start}-{end} a graph edge."
@@ -540,7 +540,7 @@ class CodeTable:
                     res.append(False)
             return True in res
         else:
-            return ValueError("This embedding should have edges")
+            raise ValueError("This embedding should have edges")
 
     def mark_embedding(self, embedding, graph, pattern, cover_marker):
         """ Mark an embedding of a pattern in the graph with a given cover_marker
@@ -580,7 +580,7 @@ class CodeTable:
                     self.mark_node(node2, graph, cover_marker, pattern.nodes(data=True)[edge[1]]['label'])
 
         else:
-            return ValueError("This embedding should have edges")
+            raise ValueError("This embedding should have edges")
 
     def get_node_label_number(self, node_number, graph):
         """ compute the number of label for a given node_number in the graph
-- 
2.43.0


From ca555e007d2fb3d04b364892a266c79f2ab335ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:23 +0000
Subject: [PATCH 38/63] fix: GraphMDL does not fail when a candidate comes up
 again

---
 skmine/graph/graphmdl/graph_mdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 5038c7c..375a53a 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -134,7 +134,7 @@ class GraphMDL(BaseMiner):
                         if temp_code_length < self._description_length:
                             self._rewritten_graph = self._code_table.rewritten_graph()
                             self._description_length = temp_code_length
-                            utils.MyLogger.info("New DL ", self._description_length)
+                            utils.MyLogger.info(f"New DL {self._description_length}")
                             utils.MyLogger.info(f"new pattern added: {utils.display_graph(row.pattern())}")
                             utils.MyLogger.info(f"search time = {time.time() - b}")
                             self._compute_pruning_candidates()
@@ -153,7 +153,7 @@ class GraphMDL(BaseMiner):
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From 50579b6511ced27ffb6680ee468f36caada345da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 39/63] fix: GraphMDL pruning does not change the list of rows
 it is traversing

---
 skmine/graph/graphmdl/graph_mdl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 375a53a..7f7f34e 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -226,7 +226,7 @@ class GraphMDL(BaseMiner):
         """
         for r in self._code_table.rows():
             if r.pattern() in self._old_usage.keys():
-                if r.pattern_usage() < self._old_usage[r.pattern()]:
+                if r.pattern_usage() < self._old_usage[r.pattern()] and r not in self._pruning_rows:
                     self._pruning_rows.append(r)
 
     def _pruning(self):
@@ -239,7 +239,7 @@ class GraphMDL(BaseMiner):
         utils.MyLogger.info(f"Pruning start ....")
         self._compute_old_usage()  # compute old pattern usage
         self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        for r in list(self._pruning_rows):
             self._code_table.remove_row(r)
             self._code_table.cover()
             if self._code_table.compute_total_description_length() < self._description_length:
@@ -248,6 +248,7 @@ class GraphMDL(BaseMiner):
                 self._pruning_rows.remove(r)
                 self._compute_pruning_candidates()  # recompute the pruning candidates
                 self._pruning()
+                break
             else:
                 self._code_table.add_row(r)
 
-- 
2.43.0


From 7aaa940bf8d0401646a18ae63c393b1bc79b5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 40/63] fix: GraphMDL.discover can display patterns with
 several nodes

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..b1277d1 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -176,7 +176,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From 9fa96d1d8e34fc2a5ffcacaaff3eca14c88596f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:39 +0000
Subject: [PATCH 41/63] fix: merging graph patterns does not read a port that
 was never set

---
 skmine/graph/graphmdl/candidate.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..d841ef7 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -128,9 +128,6 @@ class Candidate:
             elif edge[1] in second_port:
                 port = first_port[second_port.index(edge[1])]
                 graph.add_edge(mapping[edge[0]], port, label=edge[2]['label'])
-            elif edge[0] == edge[1] and edge[0] in port[1]:
-                port = first_port[second_port.index(edge[1])]
-                graph.add_edge(port[0], port, label=edge[2]['label'])
             else:
                 graph.add_edge(mapping[edge[0]], mapping[edge[1]], label=edge[2]['label'])
 
-- 
2.43.0


From f4f57e7429f7f87e7d2ade9625c74feac7e08e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:43 +0000
Subject: [PATCH 42/63] fix: graph files are closed when they cannot be parsed

---
 skmine/graph/graphmdl/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 3d04012..aaa22c0 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -1098,15 +1098,14 @@ def get_graph_from_file(file):
     -------
     Graph
     """
-    file = open(file)
-    lines = [line.split(' ') for line in file][3:]
+    with open(file) as f:
+        lines = [line.split(' ') for line in f][3:]
     graph = nx.DiGraph()
     for line in lines:
         if line[0] == 'v':
             graph.add_node(int(line[1]) + 1, label=line[3].split('\n')[0])
         else:
             graph.add_edge(int(line[1]) + 1, int(line[2]) + 1, label=line[3].split('\n')[0])
-    file.close()
     return graph
 
 
-- 
2.43.0


From c2b774b766c63c26f4e57e7c53ca3797ee732fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:06 +0000
Subject: [PATCH 43/63] fix: GraphMDL stops when every candidate was tried
 without improvement

---
 skmine/graph/graphmdl/graph_mdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 7f7f34e..2a104b2 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -154,6 +154,8 @@ class GraphMDL(BaseMiner):
                             self._code_table.remove_row(row)
                     else:
                         utils.MyLogger.debug("Already test")
+                else:  # no candidate improves the code table
+                    stop = self._graph_mdl_end()
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From 2aaa48848e295a5771bb221fa5bbf1765e49a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 44/63] fix: get_pattern_node_infos does not read the ports of
 another node

---
 skmine/graph/graphmdl/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index aaa22c0..e5a560e 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -1031,8 +1031,8 @@ def get_pattern_node_infos(rewritten_graph):
     """
     pattern_node = dict()
     for node in rewritten_graph.nodes(data=True):
+        res = []
         if 'is_Pattern' in node[1]:
-            res = []
             for edge in rewritten_graph.edges(node[0], data=True):
                 res.append(edge[2]['label'])
 
-- 
2.43.0


From 558c60a160b573ce2165cd61627019d75384fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 45/63] fix: an itemset that is maximal in both classes yields
 no emerging pattern

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index e393b4b..49c34b8 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -62,7 +62,7 @@ def mbdllborder(isets1, isets2):
     borders = list()
 
     for iset in isets2:
-        if any((e > iset for e in isets1)):
+        if any((e >= iset for e in isets1)):
             continue
         inter = (iset & e for e in isets1)
         R = filter_maximal(inter)
-- 
2.43.0


From 10282e11e32d8953daf45815c35121e8aa9cdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:05 +0000
Subject: [PATCH 46/63] fix: rejected labels no longer erase the cut points of
 a fitted MDLPDiscretizer

---
 skmine/preprocessing/mdlp_discretizer.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 73de4e8..b68ca35 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -195,9 +195,6 @@ class MDLPDiscretizer(BaseMiner):
         y : np.ndarray of pd.Series of shape(n_samples,)
             The label vector used to discretize ``X``
         """
-        self.cut_points_ = dict()
-        self.discretizers_ = []
-
         assert y is not None and np.issubdtype(y.dtype, np.integer)
 
         random_state = _check_random_state(self.random_state)
-- 
2.43.0


From 9ecf1da319b3cc22c2b3975f4a21843c5347282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:12 +0000
Subject: [PATCH 47/63] fix: LCM.fit rejects data without a shape before
 replacing the fitted model

---
 skmine/itemsets/lcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 786acb1..85c0daa 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -110,6 +110,7 @@ class LCM(TransformerMixin, BaseEstimator):
 
         self._validate_data(D, force_all_finite=False, accept_sparse=False, ensure_2d=False, ensure_min_samples=1,
                             dtype=list)
+        n_features_in_ = D.shape[-1] if not isinstance(D, list) else len(D[-1])  # nb items
         n_transactions_ = 0
         item_to_tids_ = defaultdict(Bitmap)
         for transaction in D:
@@ -137,7 +138,7 @@ class LCM(TransformerMixin, BaseEstimator):
 
         self.item_to_tids_ = SortedDict(ord_freq_dic)  # {0:tids0, 1:tids1 ....}key item ordered by decreasing frequency
         self.ord_item_freq_ = ord_item_freq  # [cat, dog, '0', ...] list of ordered item by decreasing frequency
-        self.n_features_in_ = D.shape[-1] if not isinstance(D, list) else len(D[-1])  # nb items
+        self.n_features_in_ = n_features_in_
 
         return self
 
-- 
2.43.0


From 6933d13b8e5865853fe92e0ce5ac01049f9983ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:16 +0000
Subject: [PATCH 48/63] fix: PeriodicPatternMiner.fit converts the index before
 it touches fitted state

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index e216bd5..ae90ba4 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -120,7 +120,6 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if not isinstance(S.index, INDEX_TYPES):
             raise TypeError(f"S must have an index with a type amongst {INDEX_TYPES}")
 
-        self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
         serie = S.copy(deep=True)
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
@@ -133,6 +132,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
+        self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
         verbose = False
         if self.auto_time_scale:
             converted_times_res, n_digit_nano_shifted, resolution, div_nb_sec = autoscale_time_unit(S_times_nano,
-- 
2.43.0


From 8ff6d6505b572c8e2b276952ea8a38d216d19b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:55 +0000
Subject: [PATCH 49/63] fix: MDLOptimizer without discover falls back to its
 repr

---
 skmine/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/base.py b/skmine/base.py
index 89e1a64..d5e2ab7 100644
--- a/skmine/base.py
+++ b/skmine/base.py
@@ -204,7 +204,10 @@ class MDLOptimizer(ABC):
         return (0, 0,)
 
     def _repr_html_(self):
-        s = self.discover()  # call discover with default parameters
+        discover = getattr(self, "discover", None)
+        if discover is None:  # not every optimizer is able to discover
+            return repr(self)
+        s = discover()  # call discover with default parameters
         df = s.to_frame(name="usage")
         if not df.empty:
             return df._repr_html_()  # pylint: disable=protected-access
-- 
2.43.0


From 3c04a510de61f6232ea09fe05038097edfc0000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:57 +0000
Subject: [PATCH 50/63] fix: copying a SLIMVectorizer keeps its class and
 options

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 6d92997..9f0c94d 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -782,4 +782,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
+        return type(self)(**self.get_params(deep=False))
-- 
2.43.0


From 17a03833c4459f1efd3ebc073d084cd3ccd90540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:06 +0000
Subject: [PATCH 51/63] fix: SLIM.fit keeps the classes of a fitted model when
 it refuses the data

---
 skmine/itemsets/slim.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 9f0c94d..4525cad 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -160,15 +160,14 @@ class SLIM(BaseEstimator, TransformerMixin):
         y: Ignored
             Not used, present here for API consistency by convention.
         """
-        if y is not None:
-            self.classes_ = np.unique(y)
-
         self._validate_data(X, force_all_finite=False, accept_sparse=False, ensure_2d=False,
                             ensure_min_samples=1, dtype=list)
         self.n_features_in_ = X.shape[-1] if not isinstance(X, list) else len(X[-1])
         # TODO : significant for one-hot D, not for list of itemset
         start = time.time()
         self.prefit(X, y=y)
+        if y is not None:
+            self.classes_ = np.unique(y)
         while True:
             seen_cands = set(self.codetable_.keys())
             candidates = self.generate_candidates(stack=seen_cands)
-- 
2.43.0


From 3d293013a81e9666bad3d129469838e40c3cfd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:49 +0000
Subject: [PATCH 52/63] fix: SlimClassifier.predict compares code lengths
 instead of scores that underflow to zero

---
 skmine/itemsets/slim_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..c6cdefe 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,7 +89,8 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # code lengths are compared as they are: exp(-0.2 * x) is 0 for every code length above a few hundred bits
+        self.models_scores = np.vstack([-model.get_code_length(X).values for model in self.models_]).T
 
         return self.classes_[self.models_scores.argmax(axis=1)]
 
-- 
2.43.0


From a175f042059a0c469d7a94ce9804353161adbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:52 +0000
Subject: [PATCH 53/63] fix: export_patterns keeps events that are not strings,
 which import_patterns mixed up

---
 skmine/periodic/cycles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index ae90ba4..a2db585 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -248,6 +248,8 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         data_dict = self.alpha_groups_.copy()
         for k, v in data_dict.items():
             data_dict[k] = v.to_list()
+        if not all(isinstance(event, str) for event in data_dict):
+            data_dict = list(data_dict.items())  # as keys of a json object, the events would come back as strings
 
         big_dict = {
             "is_datetime_": self.is_datetime_,
@@ -276,8 +278,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.n_zeros_ = big_dict["n_zeros_"]
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
-        self.data_details_ = DataSequence(dict(big_dict["data_details"]))
-        self.alpha_groups_ = {event: pd.Index(times) for event, times in big_dict["data_details"].items()}
+        data_dict = dict(big_dict["data_details"])
+        self.data_details_ = DataSequence(data_dict)
+        self.alpha_groups_ = {event: pd.Index(times) for event, times in data_dict.items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 5bf0a19fce36103a0fa86b2bc6bc3b333a8d6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:10 +0000
Subject: [PATCH 54/63] fix: PeriodicPatternMiner.fit accepts different events
 at the same time

---
 skmine/periodic/cycles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index a2db585..5c03ae3 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -124,11 +124,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         if serie.index.duplicated().any():  # there are potentially duplicates, i.e. occurrences that happened at the
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
-            serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
+            serie = serie.groupby(by=serie.index, group_keys=False).apply(lambda x: x.drop_duplicates())
             diff = len_S - len(serie)
             if diff:
-                serie = serie.reset_index(level=0, drop=True)
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
-- 
2.43.0


From 9f0c9d921e8d57c2a1ba6895aa342adbc58947b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:54 +0000
Subject: [PATCH 55/63] fix: fetch_ubiq does not keep a dataset that could not
 be prepared completely

---
 skmine/datasets/periodic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 32c0e06..65a9135 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -3,6 +3,7 @@ Base IO for all periodic datasets
 """
 import os
 import re
+import shutil
 from datetime import datetime, timedelta
 
 import pandas as pd
@@ -212,6 +213,10 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
             os.system('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
             os.makedirs(user_ubiq_dir)
             parse_all_user(infile, user_ubiq_dir, min_occ=10)
+        except BaseException:  # an incomplete dataset must not be taken for a complete one by a later call
+            os.chdir(cwd)
+            shutil.rmtree(ubiq_dir)
+            raise
         finally:
             os.chdir(cwd)
 
-- 
2.43.0


From 1a8fe4749230bd7890ca5b7a20bd79f0f8b531b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:41 +0000
Subject: [PATCH 56/63] fix: display_ct shows a code table without rows

---
 skmine/graph/graphmdl/code_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 4b34e9c..722e3b9 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -325,7 +325,8 @@ class CodeTable:
         data = [row.display_row() for row in self._rows if row.pattern_usage() != 0]
         for u, v in self._singleton_code_length.items():
             data.append([u, v, '', '', '', ''])
-        return pandas.DataFrame(numpy.array(data),
+        # without any row an array has no second dimension
+        return pandas.DataFrame(numpy.array(data).reshape(-1, 6),
                                 columns=['Pattern Structure', 'Pattern usage', 'Pattern code length',
                                          'Port count', 'Pattern port usage',
                                          'Pattern port code length'])
-- 
2.43.0


From ab375aa9b7e91550ebe3e2c6d848cdc4a7359b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:17 +0000
Subject: [PATCH 57/63] fix: SLIM.reconstruct works when no transaction has an
 item

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4525cad..9fbf8cd 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -577,7 +577,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         pd.Series
             original database containing a list of transactions
         """
-        n_transactions = (max(map(Bitmap.max, filter(lambda e: e, self.codetable_.values()))) + 1)
+        n_transactions = max(map(Bitmap.max, filter(lambda e: e, self.codetable_.values())), default=-1) + 1
 
         D = pd.Series([set()] * n_transactions)
         for itemset, tids in self.codetable_.items():
-- 
2.43.0


From 65c1e5422a92d42685fc8e91889d5f7c8ec4886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 58/63] fix: LCMMax.transform honours options given by position

---
 skmine/itemsets/lcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index 85c0daa..3f4d8da 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -352,10 +352,10 @@ class LCMMax(LCM, TransformerMixin):
                 else:
                     yield itemset, len(tids), tids
 
-    def transform(self, X=None, *args, **kwargs):
-        outfile = kwargs.get('out')
-        kwargs['out'] = None
-        patterns = super().transform(X, **kwargs)
+    def transform(self, X=None, return_tids=False, lexicographic_order=True, max_length=-1, out=None):
+        outfile = out
+        patterns = super().transform(X, return_tids=return_tids, lexicographic_order=lexicographic_order,
+                                     max_length=max_length, out=None)
         # keep only maximal itemsets
         maximals = filter_maximal(patterns["itemset"])
         patterns = patterns[patterns.itemset.isin(maximals)].copy()
-- 
2.43.0


From 82e20d2e722fd387e22cd4e09b3b2c8c6c78a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 59/63] fix: get_residuals leaves out the occurrences of the
 selected patterns

---
 skmine/periodic/cycles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 5c03ae3..ff6f3c5 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -413,7 +413,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        # compare the occurrences themselves, the two tables do not have the same index
+        complementary_reconstruct = reconstruct_all.merge(reconstruct_, how='left', indicator=True)
+        complementary_reconstruct = complementary_reconstruct.query("_merge == 'left_only'").drop(columns="_merge")
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From 3f031ce42710f2adc66b370f10c8df1628b47e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 60/63] fix: dates counted in seconds or milliseconds are mined
 in nanoseconds like all others

---
 skmine/periodic/cycles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index ff6f3c5..44d2b67 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -129,7 +129,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
-        S_times_nano = serie.index.astype("int64")
+        times = serie.index
+        if isinstance(times, pd.DatetimeIndex):
+            times = pd.DatetimeIndex(times.values.astype("datetime64[ns]"))  # dates may be counted in another unit
+        S_times_nano = times.astype("int64")
         self.is_datetime_ = isinstance(S.index, pd.DatetimeIndex)
         verbose = False
         if self.auto_time_scale:
-- 
2.43.0


From f29255dd2cd47a6f1b3a9e0b63b7ae4bd1ad1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:57 +0000
Subject: [PATCH 61/63] fix: SLIM.transform shows the description length also
 when the result is written to a file

---
 skmine/itemsets/slim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 9fbf8cd..adba946 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -538,6 +538,11 @@ class SLIM(BaseEstimator, TransformerMixin):
                 itids.append(tids) if self.return_tids_ else []
                 iusages.append(len(tids))
 
+        if self.return_dl_:
+            print("data_size :", self.data_size_)
+            print("model_size :", self.model_size_)
+            print("total_size :", self.data_size_ + self.model_size_)
+
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
@@ -550,10 +555,6 @@ class SLIM(BaseEstimator, TransformerMixin):
             df = pd.DataFrame(data={'itemset': itemsets,
                                     ('tids' if self.return_tids_ else 'usage'): (
                                         itids if self.return_tids_ else iusages)})
-            if self.return_dl_:
-                print("data_size :", self.data_size_)
-                print("model_size :", self.model_size_)
-                print("total_size :", self.data_size_ + self.model_size_)
             return df
 
     def reconstruct(self) -> pd.Series:
-- 
2.43.0


From fd355ded85b272aa9d762ed4787e771e9711ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 62/63] fix: fetch_ubiq fails when a download or unpacking
 command fails

---
 skmine/datasets/periodic.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 65a9135..4f47482 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -166,6 +166,13 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     return s
 
 
+def _run(command, warning=0):
+    """Run a shell command, an exit status other than success or `warning` is an error"""
+    status = os.system(command)
+    if status and status != warning << 8:
+        raise OSError("command failed: " + command)
+
+
 def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : no cover
     """
     Fetch and return smartphone lifelogging event from different users
@@ -207,10 +214,10 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
         os.chdir(ubiq_dir)
         try:
             infile = "all_log_applications_nonbin.txt"
-            os.system("wget " + UBIQ_url)
-            os.system("unzip UbiqLog4UCI.zip")
-            os.system("rm __MACOSX -rf")
-            os.system('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
+            _run("wget " + UBIQ_url)
+            _run("unzip UbiqLog4UCI.zip", warning=1)
+            _run("rm __MACOSX -rf")
+            _run('grep "\\"Application\\":" UbiqLog4UCI/*/log_*.txt > ' + infile)
             os.makedirs(user_ubiq_dir)
             parse_all_user(infile, user_ubiq_dir, min_occ=10)
         except BaseException:  # an incomplete dataset must not be taken for a complete one by a later call
-- 
2.43.0


From 99bdf03ed7473fc91baf48ad022ca0c95218f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:25 +0000
Subject: [PATCH 63/63] fix: MDLPDiscretizer.transform refuses arrays with
 another number of columns than in fit

---
 skmine/preprocessing/mdlp_discretizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index b68ca35..c2c5f08 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -241,6 +241,8 @@ class MDLPDiscretizer(BaseMiner):
             _X = X.values
             all_cut_points = [self.cut_points_[col] for col in X.columns]
         else:
+            if X.shape[1] != len(self.cut_points_):
+                raise ValueError(f"X should have {len(self.cut_points_)} columns")
             _X = X
             all_cut_points = list(self.cut_points_.values())
 
-- 
2.43.0

