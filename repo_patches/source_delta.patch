From e41740554a2e461c7804e3942add5d1e1d0a756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 01/55] fix: convert one-dimensional probability predictions
 without the removed np.float alias and return training labels

---
 quantificationlib/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..e6b663b 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -331,15 +331,10 @@ class UsingClassifiers(BaseQuantifier):
             return preds
         if preds.ndim == 1 or preds.shape[1] == 1:
             #  binary problem
-            if preds.ndim == 1:
-                preds_mod = np.copy(preds)
-            else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
+            preds_mod = np.copy(preds.ravel())
+            if np.issubdtype(preds_mod.dtype, np.floating):
                 # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+                return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
                 return preds_mod
         else:
-- 
2.43.0


From 0111baea41782c6e569d6937c95273da6b9b886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 02/55] fix: generate bags for the sample that is passed
 instead of returning bags of an earlier one

---
 quantificationlib/bag_generator.py | 133 +++++++++++++++--------------
 1 file changed, 69 insertions(+), 64 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..8c70636 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -134,25 +134,22 @@ class PriorShift_BagGenerator(BagGenerator):
                 is not implemented or when the parameters for the selected method are incorrect
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
-
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
+        random_state = self.random_state
+        if isinstance(random_state, (numbers.Integral, np.integer)):
+            random_state = np.random.RandomState(random_state)
+        if not isinstance(random_state, np.random.RandomState):
             raise ValueError('Invalid random generaror object')
 
-        if self.bag_size is None:
-            self.bag_size = len(y)
+        bag_size = len(y) if self.bag_size is None else self.bag_size
 
         if self.method == 'Uniform':
-            return self._generate_uniform(X, y)
+            return self._generate_uniform(X, y, bag_size, random_state)
         elif self.method == 'Dirichlet':
-            return self._generate_dirichlet(X, y)
+            return self._generate_dirichlet(X, y, bag_size, random_state)
         else:
             raise ValueError('Invalid method for random generaror object')
 
-    def _generate_uniform(self, X, y):
+    def _generate_uniform(self, X, y, bag_size, random_state):
         """ Create bags of examples simulating prior probability shift using an uniform distribution of the prevalences
 
             The implemented algorithm was proposed by Kramer, see references
@@ -165,6 +162,12 @@ class PriorShift_BagGenerator(BagGenerator):
             y : array-like, shape (n_examples, )
                 True classes
 
+            bag_size : int
+                Number of examples in each bag
+
+            random_state : RandomState instance
+                To generate random numbers
+
             Returns
             ------
             prevalences : numpy array, shape (n_bags, n_classes)
@@ -181,16 +184,17 @@ class PriorShift_BagGenerator(BagGenerator):
         """
 
         # checking if min_prevalence has correct values
-        if isinstance(self.min_prevalence, list):
-            self.min_prevalence = np.array(self.min_prevalence)
-        if self.min_prevalence is not None:
-            if np.isscalar(self.min_prevalence):
-                if self.min_prevalence > 1 or self.min_prevalence < 0:
+        min_prevalence = self.min_prevalence
+        if isinstance(min_prevalence, list):
+            min_prevalence = np.array(min_prevalence)
+        if min_prevalence is not None:
+            if np.isscalar(min_prevalence):
+                if min_prevalence > 1 or min_prevalence < 0:
                     raise ValueError('The value for min_prevalence must be in [0, 1]')
             else:
-                if np.sum(self.min_prevalence) > 1:
+                if np.sum(min_prevalence) > 1:
                     raise ValueError('The values for min_prevalence cannot sum more than 1')
-                if (self.min_prevalence < 0).any():
+                if (min_prevalence < 0).any():
                     raise ValueError('The values for min_prevalence must be greater than 0')
 
         if X is not None:
@@ -204,57 +208,57 @@ class PriorShift_BagGenerator(BagGenerator):
         #  The idea is to perform a efficient comprobation. For binary problems all random generation will be correct
         #  becuase the values low-high are fixed appropriately. For multiclass problems (min_examples will be
         #  not None) we need to check it
-        if self.min_prevalence is None:
+        if min_prevalence is None:
             min_nexamples = None
             low = 0
-            high = self.bag_size
+            high = bag_size
         elif n_classes == 2:
             #  binary problem
-            if np.isscalar(self.min_prevalence):
+            if np.isscalar(min_prevalence):
                 # same prevalence
                 min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence)
-                high = int(self.bag_size * (1 - self.min_prevalence))
+                low = round(bag_size * min_prevalence)
+                high = int(bag_size * (1 - min_prevalence))
             else:
                 # different prevalence
                 min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence[0])
-                high = int(self.bag_size * (1 - self.min_prevalence[1]))
-        elif np.isscalar(self.min_prevalence):
+                low = round(bag_size * min_prevalence[0])
+                high = int(bag_size * (1 - min_prevalence[1]))
+        elif np.isscalar(min_prevalence):
             #  multiclass problem, min prevalence equal to all classes
-            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size)
+            min_nexamples = np.round(np.ones(n_classes) * min_prevalence * bag_size)
             low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            high = bag_size - min_nexamples[-1]
         else:
             #  multiclass problem, different prevalences
-            min_nexamples = np.round(self.min_prevalence * self.bag_size)
+            min_nexamples = np.round(min_prevalence * bag_size)
             low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            high = bag_size - min_nexamples[-1]
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
         while n_bag < self.n_bags:
             # Kraemer method:
-            ps = self.random_state.randint(low, high, n_classes - 1)
-            ps = np.append(ps, [0, self.bag_size])
+            ps = random_state.randint(low, high, n_classes - 1)
+            ps = np.append(ps, [0, bag_size])
             ps = np.diff(np.sort(ps))  # number of samples for each class
 
             #  checking if the combination is correct, only needed in multiclass problems. Only the values for the
             #  classes in the middle must be checked
             if min_nexamples is None or (ps[1:-1] >= min_nexamples[1:-1]).all():
-                self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
+                self.prevalences_[:, n_bag] = ps / bag_size  # to obtain prevalences
                 position = 0
                 for cls, n_examples in zip(classes, np.array(ps)):
                     if n_examples != 0:
-                        indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                        indexes = random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
                         self.indexes_[position:position+len(indexes), n_bag] = indexes
                         position = position + len(indexes)
 
                 n_bag = n_bag + 1
         return self.prevalences_, self.indexes_
 
-    def _generate_dirichlet(self, X, y):
+    def _generate_dirichlet(self, X, y, bag_size, random_state):
         """ Create bags of examples simulating prior probability shift using the Dirichlet distribution
 
             Parameters
@@ -265,6 +269,12 @@ class PriorShift_BagGenerator(BagGenerator):
             y : array-like, shape (n_examples, )
                 True classes
 
+            bag_size : int
+                Number of examples in each bag
+
+            random_state : RandomState instance
+                To generate random numbers
+
             Returns
             ------
             prevalences : numpy array, shape (n_bags, n_classes)
@@ -280,32 +290,33 @@ class PriorShift_BagGenerator(BagGenerator):
         n_classes = len(classes)
 
         # checking if alphas  has correct values
-        if isinstance(self.alphas, list):
-            self.alphas = np.array(self.alphas)
-        if self.alphas is not None:
-            if np.isscalar(self.alphas):
-                self.alphas = np.ones(n_classes) * self.alphas
+        alphas = self.alphas
+        if isinstance(alphas, list):
+            alphas = np.array(alphas)
+        if alphas is not None:
+            if np.isscalar(alphas):
+                alphas = np.ones(n_classes) * alphas
             else:
-                if len(self.alphas) != n_classes:
+                if len(alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.prevalences_ = np.random.dirichlet(alphas, size=self.n_bags).transpose()
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
             position = 0
             for n_cls, cls in enumerate(classes):
                 #  compute the number of examples given the prevalence
                 if n_cls < n_classes - 1:
-                    n_examples = min(self.bag_size - position,
-                                     int(np.round(self.prevalences_[n_cls, n_bag] * self.bag_size)))
+                    n_examples = min(bag_size - position,
+                                     int(np.round(self.prevalences_[n_cls, n_bag] * bag_size)))
                 else:
-                    n_examples = self.bag_size - position
+                    n_examples = bag_size - position
                 #  adjust the true prevalence given the number of examples
-                self.prevalences_[n_cls, n_bag] = n_examples / self.bag_size
+                self.prevalences_[n_cls, n_bag] = n_examples / bag_size
 
                 if n_examples != 0:
-                    indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                    indexes = random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
                     self.indexes_[position:position + len(indexes), n_bag] = indexes
                     position = position + len(indexes)
 
@@ -394,25 +405,22 @@ class CovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
-
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
+        random_state = self.random_state
+        if isinstance(random_state, (numbers.Integral, np.integer)):
+            random_state = np.random.RandomState(random_state)
+        if not isinstance(random_state, np.random.RandomState):
             raise ValueError('Invalid random generaror object')
 
         X, y = check_X_y(X, y)
         classes = np.unique(y)
         n_classes = len(classes)
-        if self.bag_size is None:
-            self.bag_size = len(X)
+        bag_size = len(X) if self.bag_size is None else self.bag_size
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         #  selecting the center example for each bag
-        centers = self.random_state.randint(0, len(X), self.n_bags)
+        centers = random_state.randint(0, len(X), self.n_bags)
 
         for n_bag in range(self.n_bags):
             #  compute similarity using RBF kernel using the default value for gamma 1/num_features
@@ -420,9 +428,9 @@ class CovariateShift_BagGenerator(BagGenerator):
             #  the probability to select an example for the bag is proportional to its similarity
             probs = similarity / np.sum(similarity)
 
-            self.indexes_[:, n_bag] = self.random_state.choice(range(len(X)), self.bag_size, p=probs[0, :])
+            self.indexes_[:, n_bag] = random_state.choice(range(len(X)), bag_size, p=probs[0, :])
             for n_cls, cls in enumerate(classes):
-                self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / self.bag_size
+                self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / bag_size
 
         return self.prevalences_, self.indexes_
 
@@ -528,9 +536,6 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
-        if self.prevalences_ is not None and self.indexes_ is not None:
-            return self.prevalences_, self.indexes_
-
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
         prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
-- 
2.43.0


From 9f76ac48d7a07f7530ba7229bebdcdb79e4b0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 03/55] fix: draw Dirichlet prevalences from random_state
 instead of the global generator

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 8c70636..ea4e365 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -300,7 +300,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(alphas, size=self.n_bags).transpose()
+        self.prevalences_ = random_state.dirichlet(alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From 05e7eea7bbd4de7f9788d341896921ba1ae25451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 04/55] fix: Dirichlet bags with the default alphas

---
 quantificationlib/bag_generator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index ea4e365..1493d70 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -290,15 +290,14 @@ class PriorShift_BagGenerator(BagGenerator):
         n_classes = len(classes)
 
         # checking if alphas  has correct values
-        alphas = self.alphas
+        alphas = 1 if self.alphas is None else self.alphas
         if isinstance(alphas, list):
             alphas = np.array(alphas)
-        if alphas is not None:
-            if np.isscalar(alphas):
-                alphas = np.ones(n_classes) * alphas
-            else:
-                if len(alphas) != n_classes:
-                    raise ValueError('the size of alphas parameter does not match the number of classes')
+        if np.isscalar(alphas):
+            alphas = np.ones(n_classes) * alphas
+        else:
+            if len(alphas) != n_classes:
+                raise ValueError('the size of alphas parameter does not match the number of classes')
 
         self.prevalences_ = random_state.dirichlet(alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
-- 
2.43.0


From 96e0fe95123fca147cce4f20472fb0d17e261cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 05/55] fix: default bag_size of
 PriorAndCovariateShift_BagGenerator

---
 quantificationlib/bag_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 1493d70..02fd272 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -537,18 +537,19 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
 
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
-        prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
+        bag_size = len(y) if self.bag_size is None else self.bag_size
+        prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=bag_size,
                                         method=self.method, alphas=self.alphas,
                                         min_prevalence=self.min_prevalence, random_state=self.random_state,
                                         verbose=self.verbose)
-        covariate = CovariateShift_BagGenerator(n_bags=n_bags_covariate, bag_size=self.bag_size,
+        covariate = CovariateShift_BagGenerator(n_bags=n_bags_covariate, bag_size=bag_size,
                                                 random_state=self.random_state,
                                                 verbose=self.verbose)
 
         classes = np.unique(y)
         n_classes = len(classes)
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior.generate_bags(X, y)
         self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate.generate_bags(X, y)
-- 
2.43.0


From b0410d2efbdc3674302c1b3be0cbe70cd527d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 06/55] fix: reject a min_prevalence that no bag can satisfy
 instead of looping for ever

---
 quantificationlib/bag_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 02fd272..aa639c3 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -235,6 +235,9 @@ class PriorShift_BagGenerator(BagGenerator):
             low = min_nexamples[0]
             high = bag_size - min_nexamples[-1]
 
+        if min_nexamples is not None and np.sum(min_nexamples) >= bag_size:
+            raise ValueError('The value for min_prevalence is too large for the number of classes')
+
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
-- 
2.43.0


From ce664ef29e28ec33c895d994f8eeca616fe83038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 07/55] fix: regression quantifiers built with the default bag
 generator no longer share one object

---
 quantificationlib/multiclass/regression.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..03a939b 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -24,7 +24,7 @@ class REG(six.with_metaclass(ABCMeta)):
 
         Parameters
         ----------
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a PriorShift_BagGenerator with its default values)
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -105,7 +105,7 @@ class REG(six.with_metaclass(ABCMeta)):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='equal_width',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='equal_width',
                  regression_estimator=None, verbose=0, **kwargs):
         super(REG, self).__init__(**kwargs)
         self.bag_generator = bag_generator
@@ -156,12 +156,13 @@ class REG(six.with_metaclass(ABCMeta)):
                                                     att_range=att_range)
 
         #  compute bags
-        prevalences, indexes = self.bag_generator.generate_bags(X, y)
+        bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else self.bag_generator
+        prevalences, indexes = bag_generator.generate_bags(X, y)
 
-        self.dataX_ = np.zeros((self.bag_generator.n_bags, self.n_bins * n_features))
+        self.dataX_ = np.zeros((bag_generator.n_bags, self.n_bins * n_features))
         self.dataY_ = np.transpose(prevalences)
 
-        for nbag in range(self.bag_generator.n_bags):
+        for nbag in range(bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
                     np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
@@ -247,7 +248,7 @@ class REGX(WithoutClassifiers, REG):
 
         Parameters
         ----------
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a PriorShift_BagGenerator with its default values)
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -327,7 +328,7 @@ class REGX(WithoutClassifiers, REG):
         ----------
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='normal',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='normal',
                  regression_estimator=None, verbose=False):
         super(REGX, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose)
@@ -417,7 +418,7 @@ class REGy(UsingClassifiers, REG):
             An estimator object implementing `fit` and `predict_proba`. It is used to classify the examples of the
             testing set and to compute the distribution of the whole testing set
 
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a PriorShift_BagGenerator with its default values)
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -519,7 +520,7 @@ class REGy(UsingClassifiers, REG):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=None,
                  n_bins=8, bin_strategy='equal_width', regression_estimator=None, verbose=False):
         super(REGy, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose,
-- 
2.43.0


From 8439e8059dedbc3d25b8c1ae2823efbf2aab8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 08/55] fix: fit a copy of the regression estimator also for
 binary problems

---
 quantificationlib/multiclass/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 03a939b..ca4ae94 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -174,7 +174,8 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator)
+                self.estimators_.fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From c4120537a80d72f01a1ed6e8e1c008b26d4948b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 09/55] fix: normalise the histograms of training bags by the
 size of the bag

---
 quantificationlib/multiclass/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ca4ae94..3517c1d 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -142,7 +142,6 @@ class REG(six.with_metaclass(ABCMeta)):
 
         classes = np.unique(y)
         self.n_classes_ = len(classes)
-        n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
         else:
@@ -165,7 +164,7 @@ class REG(six.with_metaclass(ABCMeta)):
         for nbag in range(bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
-                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
+                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / len(indexes)
 
     def fit_regressor(self):
         """ This method trains the regressor model using `dataX_` and `dataY_`
-- 
2.43.0


From 742fbd532d759bf383aaf40ef5bccb414aa86b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 10/55] fix: REGX.fit sets classes_

---
 quantificationlib/multiclass/regression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 3517c1d..0a01ff2 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -346,6 +346,8 @@ class REGX(WithoutClassifiers, REG):
              y : array-like, shape (n_examples, )
                  True classes
          """
+        super(REGX, self).fit(X, y)
+
         if self.verbose > 0:
             print('Class %s: Creating training distribution...' % self.__class__.__name__, end='')
 
-- 
2.43.0


From 19cd7b3dbb6d0b3c83a01c9c4320553a680413ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 11/55] fix: raise instead of returning nan when every
 multiclass regressor predicts zero

---
 quantificationlib/multiclass/regression.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 0a01ff2..907029c 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -234,7 +234,11 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                raise ValueError("predicted prevalences by object of class %s are all 0", self.__class__.__name__)
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From ebc15732957a6652cbd0634c7bf184a3ae5fd274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 12/55] fix: EoQ objects no longer share one default bag
 generator nor change the n_bags of the given one

---
 quantificationlib/ensembles/eoq.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..a1c3e6b 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
@@ -152,7 +152,7 @@ class EoQ(WithoutClassifiers):
         verbose : int
             The verbosity level
     """
-    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=None,
                  combination_strategy='mean',
                  ensemble_estimator_train=None, ensemble_estimator_test=None,
                  distribution_function='PDF', n_bins=100, bin_strategy='equal_width', distance_bags='euclidean',
@@ -226,11 +226,12 @@ class EoQ(WithoutClassifiers):
 
         #  compute bags if needed
         if prevalences is None and indexes is None:
-            if not isinstance(self.bag_generator, BagGenerator):
+            bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else copy(self.bag_generator)
+            if not isinstance(bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-            self.bag_generator.n_bags = self.n_quantifiers
-            self.prevalences_, self.indexes_ = self.bag_generator.generate_bags(X, y)
+            bag_generator.n_bags = self.n_quantifiers
+            self.prevalences_, self.indexes_ = bag_generator.generate_bags(X, y)
         else:
             self.prevalences_ = prevalences
             self.indexes_ = indexes
-- 
2.43.0


From 2d0a628036b694b173eaeccccff3fa517c13bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 13/55] fix: EoQ honours n_bins and bin_strategy with
 quantifiers that do not use classifiers

---
 quantificationlib/ensembles/eoq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index a1c3e6b..dff14d5 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -242,10 +242,10 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.bincuts_ = np.zeros((X.shape[1], 100 + 1))
+            self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
             for att in range(X.shape[1]):
-                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
-                                                        n_bins=self.n_bins, bin_strategy='equal_width')
+                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
+                                                        n_bins=self.n_bins, bin_strategy=self.bin_strategy)
 
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
-- 
2.43.0


From 04638a170ae54c1e739f646104617c17041aa8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 14/55] fix: EoQ computes the cumulative distributions of a bag

---
 quantificationlib/ensembles/eoq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index dff14d5..d7b3792 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -260,7 +260,7 @@ class EoQ(WithoutClassifiers):
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
@@ -389,7 +389,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins])
 
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
@@ -467,8 +467,8 @@ class EoQ(WithoutClassifiers):
                     test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
-                        test_distributions[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                        test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
+                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
                 if predictions_test.ndim == 1:
@@ -494,7 +494,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins])
             else:
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
-- 
2.43.0


From 2e83145ef383c7f2221a2815203e24530c46a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 15/55] fix: EoQ describes each training bag by its own
 examples in distribution_similarity

---
 quantificationlib/ensembles/eoq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index d7b3792..1327db8 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -257,7 +257,7 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 for att in range(X.shape[1]):
                     self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
+                        np.histogram(X[self.indexes_[:, i], att], bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
                             np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
@@ -380,12 +380,12 @@ class EoQ(WithoutClassifiers):
                 for descr in range(n_descriptors):
                     if predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                             np.histogram(predictions_train[:, descr],
-                                          bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                             np.histogram(predictions_train[indexes_ext[:, i], descr],
+                                          bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     elif predictions_train.ndim == 3:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_train.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                            np.histogram(predictions_train.mean(axis=1)[indexes_ext[:, i], descr],
+                                         bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-- 
2.43.0


From bbdd064abd64d4755569e865e332b7ff40893eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 16/55] fix: EoQ.fit works with crisp training predictions

---
 quantificationlib/ensembles/eoq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 1327db8..234e0d6 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -365,6 +365,8 @@ class EoQ(WithoutClassifiers):
             # compute bincuts according to bin_strategy
             self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
             for descr in range(n_descriptors):
+                if predictions_train.ndim == 1:
+                    continue  # crisp predictions, distribution_similarity cannot be used
                 if predictions_train.ndim == 2:
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
                                                               classes=self.classes_,
@@ -378,6 +380,8 @@ class EoQ(WithoutClassifiers):
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
             for i in range(self.n_quantifiers):
                 for descr in range(n_descriptors):
+                    if predictions_train.ndim == 1:
+                        continue
                     if predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                              np.histogram(predictions_train[indexes_ext[:, i], descr],
-- 
2.43.0


From a13eed1e6ce38398caf7359e4c4d5dfa8be8a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 17/55] fix: EoQ extends the indexes of the bags when the bag
 size differs from the number of examples

---
 quantificationlib/ensembles/eoq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 234e0d6..bd47cf6 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -334,7 +334,7 @@ class EoQ(WithoutClassifiers):
             else:
                 n_repetitions = len(predictions_train) // len(y)
                 y_ext = np.tile(y, n_repetitions)
-                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(y))
+                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(self.indexes_))
                 indexes_ext = np.tile(self.indexes_, (n_repetitions, 1)) + np.transpose(np.tile(adapt_indexs,
                                                                                                 (
                                                                                                     self.n_quantifiers,
-- 
2.43.0


From cccfc646b15775af408a326b20a3342b518e44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 18/55] fix: EoQ members with crisp predictions receive those
 of their own classifier

---
 quantificationlib/ensembles/eoq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index bd47cf6..aef9bdf 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -295,7 +295,9 @@ class EoQ(WithoutClassifiers):
                         print('fitted')
 
                 #  compute predictions_train
-                if self.base_quantifier.probabilistic_predictions:
+                #  the crisp predictions of an EnsembleOfClassifiers cannot be told apart from probabilities
+                if self.base_quantifier.probabilistic_predictions or \
+                        isinstance(self.ensemble_estimator_train, EnsembleOfClassifiers):
                     predictions_train = self.ensemble_estimator_train.predict_proba(X)
                 else:
                     predictions_train = self.ensemble_estimator_train.predict(X)
@@ -442,7 +444,8 @@ class EoQ(WithoutClassifiers):
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
             if predictions_test is None:
-                if self.base_quantifier.probabilistic_predictions:
+                if self.base_quantifier.probabilistic_predictions or \
+                        isinstance(self.ensemble_estimator_test, EnsembleOfClassifiers):
                     predictions_test = self.ensemble_estimator_test.predict_proba(X)
                 else:
                     predictions_test = self.ensemble_estimator_test.predict(X)
-- 
2.43.0


From 121007bc6d72984ed67d234dae8df6d663dfedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 19/55] fix: EoQ selects at least one model

---
 quantificationlib/ensembles/eoq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index aef9bdf..3103012 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -463,7 +463,7 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 difference[i] = mean_absolute_error(p, prevalences[i])
             indxs = np.argsort(difference)
-            prevalence_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            prevalence_similarity_selected = indxs[0:max(1, round(self.n_quantifiers * self.percentage_of_selected_models))]
 
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
@@ -507,7 +507,7 @@ class EoQ(WithoutClassifiers):
                                  % self.base_quantifier.__class__.__name__)
             distances = cdist(test_distribution, self.distributions_, metric=self.distance_bags)
             indxs = np.argsort(distances.squeeze())
-            distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            distribution_similarity_selected = indxs[0:max(1, round(self.n_quantifiers * self.percentage_of_selected_models))]
 
         prediction = 0
         if self.combination_strategy == 'mean':
-- 
2.43.0


From 68cd9b3d4c132c9316c4e438a30d8c76d59fb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 20/55] fix: EoQ rejects unknown combination strategies

---
 quantificationlib/ensembles/eoq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 3103012..27c959d 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -433,6 +433,10 @@ class EoQ(WithoutClassifiers):
         if self.verbose > 0:
             print('Class %s: Computing predictions for testing distribution...' % self.__class__.__name__, end='')
 
+        if self.combination_strategy not in ('mean', 'median', 'prevalence_similarity', 'distribution_similarity', 'all'):
+            raise ValueError("Class %s: unknown combination strategy %s"
+                             % (self.__class__.__name__, self.combination_strategy))
+
         n_classes = len(self.classes_)
         prevalences = np.zeros((self.n_quantifiers, n_classes))
 
-- 
2.43.0


From eade6b66c729d02ab7ca62649f47cd682f3a8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 21/55] fix: EoQ combines with the mean when the medians of all
 the prevalences are zero

---
 quantificationlib/ensembles/eoq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 27c959d..20084a7 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -519,6 +519,8 @@ class EoQ(WithoutClassifiers):
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'median':
             prediction = np.median(prevalences, axis=0)
+            if not np.any(prediction):
+                prediction = np.mean(prevalences, axis=0)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'prevalence_similarity':
             prediction = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
@@ -532,6 +534,8 @@ class EoQ(WithoutClassifiers):
             m0 = m0 / float(np.sum(m0))
             prediction['mean'] = m0
             m1 = np.median(prevalences, axis=0)
+            if not np.any(m1):
+                m1 = np.mean(prevalences, axis=0)
             m1 = m1 / float(np.sum(m1))
             prediction['median'] = m1
             m2 = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
-- 
2.43.0


From 3966e37b4256fbe2a9193b4fc304f24128b3f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 22/55] fix: each member of an EnsembleOfClassifiers is a copy
 of the base estimator

---
 quantificationlib/estimators/ensembles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..4bb8626 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -16,6 +16,7 @@ from sklearn.base import BaseEstimator, ClassifierMixin
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
 
+from copy import deepcopy
 from joblib import Parallel, delayed
 
 
@@ -109,8 +110,8 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
 
             # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
             # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
-                                                                                             y[indexes[:, n_est]])
+            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(
+                                                                X[indexes[:, n_est], :], y[indexes[:, n_est]])
                                                             for n_est in range(self.n_estimators_))
 
         self.classes_ = np.unique(y)
-- 
2.43.0


From b258d15dabf448d1e394865e5709fd684f054679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 23/55] fix: fitting an EnsembleOfClassifiers again trains it
 with the new data

---
 quantificationlib/estimators/ensembles.py | 25 ++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 4bb8626..2d745e0 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -96,23 +96,20 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
             ValueError
                 When base_estimator is None
         """
-        if self.classes_ is None and self.estimators_ is None:
+        if self.base_estimator is None:
+            raise ValueError("An estimator is needed for %s objects", self.__class__.__name__)
 
-            #  estimators_ are not fitted
-            if self.base_estimator is None:
-                raise ValueError("An estimator is needed for %s objects", self.__class__.__name__)
+        X, y = check_X_y(X, y, accept_sparse=True)
 
-            X, y = check_X_y(X, y, accept_sparse=True)
+        self.n_estimators_ = indexes.shape[1]
+        # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
+        self.estimators_ = np.empty(self.n_estimators_, dtype=object)
 
-            self.n_estimators_ = indexes.shape[1]
-            # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
-            self.estimators_ = np.empty(self.n_estimators_, dtype=object)
-
-            # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
-            # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(
-                                                                X[indexes[:, n_est], :], y[indexes[:, n_est]])
-                                                            for n_est in range(self.n_estimators_))
+        # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
+        # performance due to the overhead of spawning threads.  See joblib issue #112.
+        self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(
+                                                            X[indexes[:, n_est], :], y[indexes[:, n_est]])
+                                                        for n_est in range(self.n_estimators_))
 
         self.classes_ = np.unique(y)
         return self
-- 
2.43.0


From 46101ea5c6d8f742cb27ce0873497836c1fe52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 24/55] fix: probability of the inner classes in the Frank and
 Hall rule

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..487774b 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -250,7 +250,7 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         # of the right group of the c_i-1 estimator, and the probability of the left group of the c_i estimator
         for c_i in range(1, n_classes - 1):
             # Pr(y = c_i) = p_right_estimator_i-1 * p_left_estimator_i
-            probs_samples[:, c_i] = 1 - predictions[:, c_i - 1] * predictions[:, c_i]
+            probs_samples[:, c_i] = (1 - predictions[:, c_i - 1]) * predictions[:, c_i]
         # the probability of the last class is the probability of the right group of the last estimator
         probs_samples[:, n_classes - 1] = 1 - predictions[:, n_classes - 1 - 1]
 
-- 
2.43.0


From fdbac88a651a3e218ec0ab31fc3d68799a9be59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 25/55] fix: FrankAndHallMonotoneClassifier corrects the
 samples with inconsistent probabilities

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 487774b..ab38188 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -535,7 +535,7 @@ class FrankAndHallMonotoneClassifier(FrankAndHallClassifier):
             Sep 2014, Nancy, France. pp.323 - 337, 2014,
         """
         ascending = np.all(probabilities[:, 1:] >= probabilities[:, :-1], axis=1)
-        samples_to_correct = np.nonzero(ascending is False)[0]
+        samples_to_correct = np.nonzero(~ascending)[0]
         if len(samples_to_correct) == 0:
             return probabilities
         else:
-- 
2.43.0


From 325a6418209ec7db5b8c8479ba486bf2afec6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 26/55] fix: true prevalence of the left group when the Frank
 and Hall tree is built

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index ab38188..61ad3ad 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -797,7 +797,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         for i in range(n_estimators):
             # compute the true prevalence of the left group for such estimator
             y_val_bin = self.label_binarizer_.transform(y)[:, i]
-            num_left = np.count_nonzero(y_val_bin == 0)  # left 0, right +1
+            num_left = np.count_nonzero(y_val_bin == 1)  # left 1, right 0
             p_true = num_left / float(n_samples)
             scores[i] = self.performance_measure(p_true, p_pred[i])
             if self.verbose:
-- 
2.43.0


From 58cc89fb37edc658ff32a577febf6ffee9ff5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 27/55] fix: Frank and Hall classifiers are silent unless
 verbose is set

---
 quantificationlib/estimators/frank_and_hall.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 61ad3ad..7265544 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -113,7 +113,8 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         if self.params_fit is not None:
             params = self.params_fit[pos_class]
             clf.set_params(**params)
-            print("Estimator ", pos_class, " params: ", params)
+            if self.verbose:
+                print("Estimator ", pos_class, " params: ", params)
         #######
         clf.fit(X, y_bin)
         return clf
-- 
2.43.0


From c3e5857a8e8e4d61794cb2a6b25e4e301334e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 28/55] fix: Frank and Hall decomposition of problems with two
 classes

---
 quantificationlib/estimators/frank_and_hall.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 7265544..ee222d7 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -994,6 +994,8 @@ class FHLabelBinarizer(LabelBinarizer):
                     4ht column: (not really used)
         """
         y_bin = super().transform(y)
+        if y_bin.shape[1] == 1:  # LabelBinarizer uses only one column for binary problems
+            y_bin = np.hstack((1 - y_bin, y_bin))
         y_bin_fh = copy(y_bin)
         for i in range(len(self.classes_)):
             y_bin_fh[:, i] = np.sum(y_bin[:, 0:i + 1], axis=1)
-- 
2.43.0


From 1b1abc32ed7167873a05210282e900fc71fdaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 29/55] fix: OneVsRestQuantifier returns a distribution when
 all the binary prevalences are zero

---
 quantificationlib/decomposition/multiclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index 93d50cb..2b6b950 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -199,5 +199,7 @@ class OneVsRestQuantifier(UsingClassifiers):
 
         if np.sum(prevalences) > 0:
             prevalences = prevalences / float(np.sum(prevalences))
+        else:
+            prevalences[:] = 1 / len(self.classes_)
 
         return prevalences
-- 
2.43.0


From 9520443133d7265c42530e6e516b20f0a61b69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 30/55] fix: OrdinalQuantificationTree can be cloned and used
 without an estimator

---
 quantificationlib/ordinal/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ordinal/trees.py b/quantificationlib/ordinal/trees.py
index a3afdf9..ed2903a 100644
--- a/quantificationlib/ordinal/trees.py
+++ b/quantificationlib/ordinal/trees.py
@@ -35,5 +35,6 @@ class OrdinalQuantificationTree(PCC):
         Association for Computational Linguistics, A, 5863.
     """
     def __init__(self, estimator_test=None, verbose=0):
-        super(OrdinalQuantificationTree, self).__init__(estimator_test=FrankAndHallTreeClassifier(estimator_test),
-                                                        verbose=verbose)
+        if estimator_test is not None and not isinstance(estimator_test, FrankAndHallTreeClassifier):
+            estimator_test = FrankAndHallTreeClassifier(estimator_test)
+        super(OrdinalQuantificationTree, self).__init__(estimator_test=estimator_test, verbose=verbose)
-- 
2.43.0


From 79f0d575fc2bbaf77b2fedf144e5d9003e6f2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 31/55] fix: fit of the quantifiers without classifiers returns
 the object

---
 quantificationlib/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index e6b663b..9ab2c79 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -62,6 +62,7 @@ class WithoutClassifiers(BaseQuantifier):
         """
         check_X_y(X, y, accept_sparse=True)
         self.classes_ = np.unique(y)
+        return self
 
 
 class UsingClassifiers(BaseQuantifier):
-- 
2.43.0


From 8cba78d69a4d9774ec92d27141f33f22c194d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 32/55] fix: EM stores its parameters with their names

---
 quantificationlib/multiclass/em.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/multiclass/em.py b/quantificationlib/multiclass/em.py
index 4c04940..e2a9f7a 100644
--- a/quantificationlib/multiclass/em.py
+++ b/quantificationlib/multiclass/em.py
@@ -103,8 +103,8 @@ class EM(UsingClassifiers):
     def __init__(self, estimator_train=None, estimator_test=None, verbose=0, epsilon=1e-4, max_iter=1000):
         super(EM, self).__init__(estimator_train=estimator_train, estimator_test=estimator_test,
                                  needs_predictions_train=True, probabilistic_predictions=True, verbose=verbose)
-        self.epsilon_ = epsilon
-        self.max_iter_ = max_iter
+        self.epsilon = epsilon
+        self.max_iter = max_iter
         self.prevalences_train_ = None
 
     def fit(self, X, y, predictions_train=None):
@@ -191,7 +191,7 @@ class EM(UsingClassifiers):
         prevalences = np.copy(self.prevalences_train_)
         prevalences_prev = np.ones(n_classes)
 
-        while iterations < self.max_iter_ and (mean_absolute_error(prevalences, prevalences_prev) > self.epsilon_
+        while iterations < self.max_iter and (mean_absolute_error(prevalences, prevalences_prev) > self.epsilon
                                                or iterations < 10):
 
             nonorm_posteriors = np.multiply(self.predictions_test_, np.divide(prevalences, self.prevalences_train_))
@@ -204,7 +204,7 @@ class EM(UsingClassifiers):
             iterations = iterations + 1
 
         if self.verbose > 0:
-            if iterations < self.max_iter_:
+            if iterations < self.max_iter:
                 print('done')
             else:
                 print('done but it might have not converged, max_iter reached')
-- 
2.43.0


From cd270c82fe72202487aa444117ffa8357e2b4521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 33/55] fix: EDX stores its parameters with their names

---
 quantificationlib/multiclass/energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/multiclass/energy.py b/quantificationlib/multiclass/energy.py
index c8b09bb..2768a50 100644
--- a/quantificationlib/multiclass/energy.py
+++ b/quantificationlib/multiclass/energy.py
@@ -490,7 +490,7 @@ class EDX(WithoutClassifiers):
     def __init__(self, distance=euclidean_distances, verbose=0):
         super(EDX, self).__init__(verbose=verbose)
         # variables to represent the distributions using the main idea of ED-based algorithms
-        self.distance_ = distance
+        self.distance = distance
         self.train_n_cls_i_ = None
         self.train_distrib_ = None
         self.K_ = None
@@ -525,7 +525,7 @@ class EDX(WithoutClassifiers):
             self.train_distrib_[cls] = X[y == cls]
             self.train_n_cls_i_[n_cls, 0] = len(self.train_distrib_[cls])
 
-        self.K_, self.G_, self.C_, self.b_ = compute_ed_param_train(self.distance_, self.train_distrib_,
+        self.K_, self.G_, self.C_, self.b_ = compute_ed_param_train(self.distance, self.train_distrib_,
                                                                     self.classes_, self.train_n_cls_i_)
         if self.verbose > 0:
             print('done')
@@ -553,7 +553,7 @@ class EDX(WithoutClassifiers):
 
         check_array(X, accept_sparse=True)
 
-        a = compute_ed_param_test(self.distance_, self.train_distrib_, X, self.K_, self.classes_,
+        a = compute_ed_param_test(self.distance, self.train_distrib_, X, self.K_, self.classes_,
                                   self.train_n_cls_i_)
 
         prevalences = solve_ed(G=self.G_, a=a, C=self.C_, b=self.b_)
-- 
2.43.0


From 3a7180cff0a3ef538fd5860c53f984c3b31cc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 34/55] fix: PWK stores its parameters

---
 quantificationlib/estimators/weighted_knn.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 514cd3b..a9c1ca9 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -14,6 +14,7 @@ from scipy import stats
 from sklearn.utils.extmath import weighted_mode
 
 from sklearn.base import BaseEstimator, ClassifierMixin
+from sklearn.exceptions import NotFittedError
 from sklearn.neighbors import KNeighborsClassifier
 
 
@@ -85,8 +86,14 @@ class PWK(BaseEstimator, ClassifierMixin):
     """
     def __init__(self, n_neighbors=10, algorithm='auto', leaf_size=30, p=2, metric='minkowski', metric_params=None,
                  n_jobs=None):
-        self.knn_ = KNeighborsClassifier(n_neighbors=n_neighbors, algorithm=algorithm, leaf_size=leaf_size,
-                                         metric=metric, p=p, metric_params=metric_params, n_jobs=n_jobs)
+        self.n_neighbors = n_neighbors
+        self.algorithm = algorithm
+        self.leaf_size = leaf_size
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.n_jobs = n_jobs
+        self.knn_ = None
         self.classes_ = None
         self.weights_ = None
         self.y_ = None
@@ -108,6 +115,9 @@ class PWK(BaseEstimator, ClassifierMixin):
         for n_cls, cls in enumerate(self.classes_):
             self.weights_[y == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
 
+        self.knn_ = KNeighborsClassifier(n_neighbors=self.n_neighbors, algorithm=self.algorithm,
+                                         leaf_size=self.leaf_size, metric=self.metric, p=self.p,
+                                         metric_params=self.metric_params, n_jobs=self.n_jobs)
         self.knn_.fit(X, y)
         return self
 
@@ -124,6 +134,9 @@ class PWK(BaseEstimator, ClassifierMixin):
             preds : array-like, shape shape(n_examples, )
                  Crisp predictions for the examples in X
         """
+        if self.knn_ is None:
+            raise NotFittedError('PWK not fitted')
+
         _, neigh_ind = self.knn_.kneighbors(X)
 
         mode, _ = weighted_mode(self.y_[neigh_ind], self.weights_[neigh_ind], axis=1)
@@ -143,6 +156,9 @@ class PWK(BaseEstimator, ClassifierMixin):
             preds : array-like, shape shape(n_examples, n_classes)
                  Probabilistic predictions for the examples in X
         """
+        if self.knn_ is None:
+            raise NotFittedError('PWK not fitted')
+
         _, neigh_ind = self.knn_.kneighbors(X)
 
         probabilities = np.zeros((X.shape[0], len(self.classes_)))
-- 
2.43.0


From 0f0f892c7d7560631c9d9bbb12bcacc84ec6ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 35/55] fix: PWKQuantifier stores its parameters

---
 quantificationlib/multiclass/knn.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/knn.py b/quantificationlib/multiclass/knn.py
index deea5f9..b9c8b63 100644
--- a/quantificationlib/multiclass/knn.py
+++ b/quantificationlib/multiclass/knn.py
@@ -11,6 +11,7 @@ PWKQuantifier a quantifier based on K-Nearest Neighbor
 
 import numpy as np
 
+from sklearn.exceptions import NotFittedError
 from sklearn.metrics import confusion_matrix
 
 from quantificationlib.base import WithoutClassifiers
@@ -74,7 +75,11 @@ class PWKQuantifier(WithoutClassifiers):
     def __init__(self, n_neighbors=10, p=2, metric='minkowski', metric_params=None, verbose=0):
         super(PWKQuantifier, self).__init__(verbose=verbose)
         #  Attributes
-        self.knn_estimator_ = PWK(n_neighbors=n_neighbors, p=p, metric=metric, metric_params=metric_params)
+        self.n_neighbors = n_neighbors
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.knn_estimator_ = None
         self.cm_ = None
         self.problem_ = None
 
@@ -94,6 +99,8 @@ class PWKQuantifier(WithoutClassifiers):
         """
         super().fit(X, y)
 
+        self.knn_estimator_ = PWK(n_neighbors=self.n_neighbors, p=self.p, metric=self.metric,
+                                  metric_params=self.metric_params)
         self.knn_estimator_.fit(X, y)
         predictions_train = self.knn_estimator_.predict(X)
 
@@ -143,6 +150,9 @@ class PWKQuantifier(WithoutClassifiers):
             prevalences : ndarray, shape(n_classes, )
                 Contains the predicted prevalence for each class
         """
+        if self.knn_estimator_ is None:
+            raise NotFittedError('PWKQuantifier not fitted')
+
         predictions_test = self.knn_estimator_.predict(X)
 
         if self.verbose > 0:
-- 
2.43.0


From 3778b780d2c9b56eac65e3d91cb8e77424105b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 36/55] fix: CV_estimator keeps its cv parameter and accepts
 the default one

---
 quantificationlib/estimators/cross_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..2c37e85 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -128,6 +128,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.estimators_ = ()
         self.le_ = None
         self.classes_ = None
+        self.cv_ = None
         self.X_train_ = None
         self.y_train_ = None
 
@@ -150,10 +151,10 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = np.unique(y)
         self.le_ = LabelEncoder().fit(y)
         # check cv
-        self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        self.cv_ = check_cv(5 if self.cv == 'warn' else self.cv, y, classifier=is_classifier(self.estimator))
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=self.cv_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +266,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.cv_.split(self.X_train_, self.y_train_):
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.cv_.split(self.X_train_, self.y_train_)):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From 29f96371958922dc3f6f1eafd5b8d8c723407248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 37/55] fix: CV_estimator predicts each training example with
 the estimators that did not use it

---
 quantificationlib/estimators/cross_validation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 2c37e85..fa03c6b 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -129,6 +129,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.le_ = None
         self.classes_ = None
         self.cv_ = None
+        self.folds_ = None
         self.X_train_ = None
         self.y_train_ = None
 
@@ -153,8 +154,11 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         # check cv
         self.cv_ = check_cv(5 if self.cv == 'warn' else self.cv, y, classifier=is_classifier(self.estimator))
         # train CV and save the estimators for each fold
+        #  the folds may be random, they must be the same when the training examples are predicted
+        self.folds_ = list(self.cv_.split(X, y, self.groups))
+
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv_, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=self.folds_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -266,14 +270,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv_.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.folds_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv_.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.folds_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From d18c2991ecf3dd5dd45ae096159702a921eb7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 38/55] fix: DFy computes the bins with the labels of the
 training predictions

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..f2b7fc6 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -249,7 +249,7 @@ class DFy(UsingClassifiers):
         # compute bincuts according to bin_strategy
         self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=self.y_ext_, classes=self.classes_,
                                                       n_bins=self.n_bins, bin_strategy=self.bin_strategy,
                                                       att_range=[0, 1])
 
-- 
2.43.0


From bfa59d87b3cf22922b2cf157132fdb88fcef839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 39/55] fix: no example is left out of the histograms when the
 deviation is zero

---
 quantificationlib/multiclass/df.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index f2b7fc6..ea726b6 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -722,6 +722,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
             bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts[0], bincuts[-1] = -np.inf, np.inf
     elif bin_strategy == 'normal':
         weights = np.ones((x.shape[0],))
         for n_cls, cls in enumerate(classes):
@@ -733,6 +734,7 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
             bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts[0], bincuts[-1] = -np.inf, np.inf
     else:
         raise ValueError('Unknown bin strategy (possible values: ''equal_width'', ''binormal'', ''normal''')
 
-- 
2.43.0


From 2c756ca4581ac10d0966e445ab388a22dd736d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 40/55] fix: DFy and DFX reject the distances that are only
 implemented for binary problems

---
 quantificationlib/multiclass/df.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index ea726b6..c1dd37b 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -345,6 +345,9 @@ class DFy(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError("Class %s: distance %s can only be used for binary quantification"
+                                 % (self.__class__.__name__, self.distance))
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
@@ -612,6 +615,9 @@ class DFX(WithoutClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError("Class %s: distance %s can only be used for binary quantification"
+                                 % (self.__class__.__name__, self.distance))
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-- 
2.43.0


From ddf41480546901289da4f49a96a093f3a869fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 41/55] fix: FriedmanME rejects the distances that are only
 implemented for binary problems

---
 quantificationlib/multiclass/friedman.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/multiclass/friedman.py b/quantificationlib/multiclass/friedman.py
index b9f300e..69129c4 100644
--- a/quantificationlib/multiclass/friedman.py
+++ b/quantificationlib/multiclass/friedman.py
@@ -260,6 +260,9 @@ class FriedmanME(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError("Class %s: distance %s can only be used for binary quantification"
+                                 % (self.__class__.__name__, self.distance))
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-- 
2.43.0


From 11492aa0e5769e6443509c28e30706019e956102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 42/55] fix: PDFOrdinaly rejects unknown distances

---
 quantificationlib/ordinal/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 6fdc646..2b84060 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -279,7 +279,8 @@ class PDFOrdinaly(UsingClassifiers):
             if np.sum(prevalences) > 0:
                 prevalences = prevalences / float(np.sum(prevalences))
         else:
-            prevalences = None
+            raise ValueError('Distance %s not implemented with objects of class %s'
+                             % (self.distance, self.__class__.__name__))
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From 1cb8e171c823251a2bf130018669ea51ebdf3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 43/55] fix: golden_section_search does not hide the errors of
 the distance function

---
 quantificationlib/search.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..99f17a5 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -180,13 +180,7 @@ def golden_section_search(distance_func, mixture_func, test_distrib, tol, a, b,
             h = invphi * h
             c = a + invphi2 * h
             train_mixture_distrib = mixture_func(prevalence=c, **kwargs)
-            try:
-                fc = distance_func(train_mixture_distrib, test_distrib)
-            except:
-                print(train_mixture_distrib)
-                print(c)
-                for key, value in kwargs.items():
-                    print("%s == %s" % (key, value))
+            fc = distance_func(train_mixture_distrib, test_distrib)
         else:
             a = c
             c = d
@@ -194,13 +188,7 @@ def golden_section_search(distance_func, mixture_func, test_distrib, tol, a, b,
             h = invphi * h
             d = a + invphi * h
             train_mixture_distrib = mixture_func(prevalence=d, **kwargs)
-            try:
-                fd = distance_func(train_mixture_distrib, test_distrib)
-            except:
-                print(train_mixture_distrib)
-                print(c)
-                for key, value in kwargs.items():
-                    print("%s == %s" % (key, value))
+            fd = distance_func(train_mixture_distrib, test_distrib)
 
     if fc < fd:
         return fc, np.array([1 - (a + d) / 2, (a + d) / 2])
-- 
2.43.0


From 1d69c33ee0727b41a6c8a9083ef7fb784cef2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 44/55] fix: global_search passes the mixtures to the distance
 function with the shape of the test distribution

---
 quantificationlib/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 99f17a5..ddaed37 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -74,13 +74,13 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         mix_0 = mixture_func(prevalence=0, **kwargs)
         mixtures = np.zeros((101, len(mix_0)))
         mixtures[0, :] = np.squeeze(mix_0)
-        losses[0] = distance_func(mixtures[0, :], test_distrib)
+        losses[0] = distance_func(mixtures[0, :].reshape(np.shape(test_distrib)), test_distrib)
         for i in range(1, 101):
             mixtures[i, :] = np.squeeze(mixture_func(prevalence=i / 100, **kwargs))
-            losses[i] = distance_func(mixtures[i, :], test_distrib)
+            losses[i] = distance_func(mixtures[i, :].reshape(np.shape(test_distrib)), test_distrib)
     elif mixtures is not None:
         for i in range(0, 101):
-            losses[i] = distance_func(mixtures[i, :], test_distrib)
+            losses[i] = distance_func(mixtures[i, :].reshape(np.shape(test_distrib)), test_distrib)
     else:
         for i in range(0, 101):
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
-- 
2.43.0


From 43e815ba39f9778d1902b96a11df13e7ede68f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 45/55] fix: global_search looks for local minima

---
 quantificationlib/search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index ddaed37..bcd45fb 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -89,7 +89,7 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
     p_estimated = 2
     minimum_loss = np.inf
     for i in range(1, 100):
-        if losses[i - 1] < losses[i] < losses[i + 1]:
+        if losses[i - 1] >= losses[i] <= losses[i + 1]:
             n_mins = n_mins + 1
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
                                             max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
-- 
2.43.0


From 13e3e242c7b2d53e6316f8f9ca426e3e5f03c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 46/55] fix: kld of distributions with zero prevalences

---
 quantificationlib/metrics/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/metrics/multiclass.py b/quantificationlib/metrics/multiclass.py
index 20ddfb9..bb7dfaa 100644
--- a/quantificationlib/metrics/multiclass.py
+++ b/quantificationlib/metrics/multiclass.py
@@ -80,7 +80,7 @@ def kld(p_true, p_pred, eps=1e-12):
             The Kullback-Leiber divergence
     """
     p_true, p_pred = check_prevalences(p_true, p_pred)
-    return np.sum(p_true * np.log2(p_true / (p_pred + eps)))
+    return np.sum(p_true * np.log2(np.where(p_true > 0, p_true, 1) / (p_pred + eps)))
 
 
 def mean_absolute_error(p_true, p_pred):
-- 
2.43.0


From 933dab3c99acc7e4f67aecc7fab96aad33937a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 47/55] fix: binary_kld when the true prevalence is 0 or 1

---
 quantificationlib/metrics/binary.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/metrics/binary.py b/quantificationlib/metrics/binary.py
index eee791e..45d5b03 100644
--- a/quantificationlib/metrics/binary.py
+++ b/quantificationlib/metrics/binary.py
@@ -33,10 +33,14 @@ def binary_kld(p_true, p_pred, eps=1e-12):
         KLD: float
              The Kullback-Leiber divergence for binary problems
     """
-    if p_pred == 0:
+    if p_true == 0:
+        kld = 0.0
+    elif p_pred == 0:
         kld = p_true * np.log2(p_true / eps)
     else:
         kld = p_true * np.log2(p_true / p_pred)
+    if p_true == 1:
+        return kld
     if p_pred == 1:
         kld = kld + (1 - p_true) * np.log2((1 - p_true) / eps)
     else:
-- 
2.43.0


From c385262299693b7d39b1e79a6c662cb9d8142621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 48/55] fix: sorting the rows of a plot does not reverse the
 list of columns of the caller

---
 quantificationlib/plot/qlplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/plot/qlplot.py b/quantificationlib/plot/qlplot.py
index 5027a59..0d9c97e 100644
--- a/quantificationlib/plot/qlplot.py
+++ b/quantificationlib/plot/qlplot.py
@@ -18,7 +18,7 @@ def _sort_rows_bycolumns(m, columns=[0], order='ascending'):
     Sort rows of matrix based on the list of columns. 
     By default sort based on the firt column ascending
     """
-    columns.reverse() 
+    columns = columns[::-1] 
     sort_order = np.lexsort(tuple(m[:, i] for i in columns))
     if order=='descending':
         sort_order = sort_order[::-1]
-- 
2.43.0


From 51a3b10e1a6fbd17a4d354d895bfa63ce1bbb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 49/55] fix: DFy and DFX answered a distribution function they
 do not implement with PDFs

---
 quantificationlib/multiclass/df.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index c1dd37b..22fbb21 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -235,6 +235,10 @@ class DFy(UsingClassifiers):
             ValueError
                 When estimator_train and predictions_train are both None
         """
+        if self.distribution_function not in ('PDF', 'CDF'):
+            raise ValueError("Class %s: unknown distribution function %s"
+                             % (self.__class__.__name__, self.distribution_function))
+
         super().fit(X, y, predictions_train=predictions_train)
 
         if self.verbose > 0:
@@ -530,6 +534,10 @@ class DFX(WithoutClassifiers):
             y : array-like, shape (n_examples, )
                 True classes
         """
+        if self.distribution_function not in ('PDF', 'CDF'):
+            raise ValueError("Class %s: unknown distribution function %s"
+                             % (self.__class__.__name__, self.distribution_function))
+
         super().fit(X, y)
 
         if self.verbose > 0:
-- 
2.43.0


From 5c4e667be4f627b9d0b21bfa1819c1aa264a2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 50/55] fix: EoQ answered a distribution function it does not
 implement with PDFs

---
 quantificationlib/ensembles/eoq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 20084a7..763224c 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -218,6 +218,10 @@ class EoQ(WithoutClassifiers):
             raise ValueError("Class %s: quantifier must be an object of a class derived from BaseQuantifier"
                              % self.__class__.__name__)
 
+        if self.distribution_function not in ('PDF', 'CDF'):
+            raise ValueError("Class %s: unknown distribution function %s"
+                             % (self.__class__.__name__, self.distribution_function))
+
         self.classes_ = np.unique(y)
         n_classes = len(self.classes_)
 
-- 
2.43.0


From 6e20ec24245b059a53bedba97b56ff8a7d15ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 51/55] fix: CV_estimator answered an unknown voting with the
 hard one

---
 quantificationlib/estimators/cross_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index fa03c6b..82bbd10 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -147,6 +147,9 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             y : array-like, shape (n_examples, )
                 True classes
         """
+        if self.voting not in ('hard', 'soft'):
+            raise ValueError("Class %s: unknown voting %s" % (self.__class__.__name__, self.voting))
+
         self.X_train_ = X
         self.y_train_ = y
         self.classes_ = np.unique(y)
-- 
2.43.0


From ba1a41faeff1b59975170f70c598c48e250653e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 52/55] fix: DDAGClassifier answered an unknown predict_method
 with the full probabilistic one

---
 quantificationlib/estimators/ordinal_ddag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/estimators/ordinal_ddag.py b/quantificationlib/estimators/ordinal_ddag.py
index 6478635..598c18e 100644
--- a/quantificationlib/estimators/ordinal_ddag.py
+++ b/quantificationlib/estimators/ordinal_ddag.py
@@ -264,6 +264,9 @@ class DDAGClassifier(OneVsOneClassifier):
         if self.classes_ is None:
             raise NotFittedError("This instance of %s class is not fitted yet", type(self).__name__)
 
+        if self.predict_method not in ('full_probabilistic', 'winner_node'):
+            raise ValueError("Class %s: unknown predict_method %s" % (self.__class__.__name__, self.predict_method))
+
         n_classes = len(self.classes_)
         n_samples = X.shape[0]
         probs_ini = np.ones((n_samples, n_classes))
-- 
2.43.0


From ce09ccdf18474414fbd07893495f8d6926216bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 53/55] fix: AC and PAC answered unknown distances when the
 matrix can be inverted

---
 quantificationlib/baselines/ac.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantificationlib/baselines/ac.py b/quantificationlib/baselines/ac.py
index 6d7b9fb..ab3d4d2 100644
--- a/quantificationlib/baselines/ac.py
+++ b/quantificationlib/baselines/ac.py
@@ -245,6 +245,9 @@ class AC(UsingClassifiers):
 
             prevalences = prevalences.squeeze()
         else:
+            if self.distance not in ('HD', 'L1', 'L2'):
+                raise ValueError('Class %s: distance function %s not supported'
+                                 % (self.__class__.__name__, self.distance))
             try:
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
@@ -497,6 +500,9 @@ class PAC(UsingClassifiers):
 
             prevalences = prevalences.squeeze()
         else:
+            if self.distance not in ('HD', 'L1', 'L2'):
+                raise ValueError('Class %s: distance function %s not supported'
+                                 % (self.__class__.__name__, self.distance))
             try:
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
-- 
2.43.0


From 9fd524d9a696136fe6feadfe7e6ca9ae58f8c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 54/55] fix: global_search misses a minimum at the ends of the
 interval when there is another one inside

---
 quantificationlib/search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index bcd45fb..d357aec 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -88,8 +88,8 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
     n_mins = 0
     p_estimated = 2
     minimum_loss = np.inf
-    for i in range(1, 100):
-        if losses[i - 1] >= losses[i] <= losses[i + 1]:
+    for i in range(0, 101):
+        if losses[max(i - 1, 0)] >= losses[i] <= losses[min(i + 1, 100)]:
             n_mins = n_mins + 1
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
                                             max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
-- 
2.43.0


From 07ec3372ba4a35a95b6289b20c827478f1748dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:10 +0000
Subject: [PATCH 55/55] fix: OrdinalQuantificationTree keeps estimator_test as
 it was given

---
 quantificationlib/ordinal/trees.py | 50 ++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ordinal/trees.py b/quantificationlib/ordinal/trees.py
index ed2903a..99d4025 100644
--- a/quantificationlib/ordinal/trees.py
+++ b/quantificationlib/ordinal/trees.py
@@ -35,6 +35,52 @@ class OrdinalQuantificationTree(PCC):
         Association for Computational Linguistics, A, 5863.
     """
     def __init__(self, estimator_test=None, verbose=0):
-        if estimator_test is not None and not isinstance(estimator_test, FrankAndHallTreeClassifier):
-            estimator_test = FrankAndHallTreeClassifier(estimator_test)
         super(OrdinalQuantificationTree, self).__init__(estimator_test=estimator_test, verbose=verbose)
+        # PCC object that uses the tree
+        self.pcc_ = None
+
+    def fit(self, X, y, predictions_train=None):
+        """ Fits a PCC object whose estimator is a FrankAndHallTreeClassifier based on `estimator_test`
+
+            Parameters
+            ----------
+            X : array-like, shape (n_examples, n_features)
+                Data
+
+            y : array-like, shape (n_examples, )
+                True classes
+
+            predictions_train : Not used
+        """
+        self.pcc_ = self.__make_pcc()
+        self.pcc_.fit(X, y)
+        self.classes_ = self.pcc_.classes_
+        return self
+
+    def predict(self, X, predictions_test=None):
+        """ Predict the class distribution of a testing bag (see PCC)
+
+            Parameters
+            ----------
+            X : array-like, shape (n_examples, n_features)
+                Testing bag
+
+            predictions_test : ndarray, shape (n_examples, n_classes) (default=None)
+                Predictions for the testing bag
+
+            Returns
+            -------
+            prevalences : ndarray, shape(n_classes, )
+                Contains the predicted prevalence for each class
+        """
+        pcc = self.pcc_ if self.pcc_ is not None else self.__make_pcc()
+        prevalences = pcc.predict(X, predictions_test)
+        self.predictions_test_ = pcc.predictions_test_
+        return prevalences
+
+    def __make_pcc(self):
+        """ Creates the PCC object that uses the tree """
+        estimator = self.estimator_test
+        if estimator is not None and not isinstance(estimator, FrankAndHallTreeClassifier):
+            estimator = FrankAndHallTreeClassifier(estimator)
+        return PCC(estimator_test=estimator, verbose=self.verbose)
-- 
2.43.0

