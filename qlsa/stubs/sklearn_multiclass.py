"""What the analysis assumes of sklearn.multiclass (walked like the repository's own source)."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.exceptions import NotFittedError
from sklearn.preprocessing import LabelBinarizer
from sklearn.utils import check_array


class OneVsRestClassifier(BaseEstimator, ClassifierMixin):
    def __init__(self, estimator, n_jobs=None, verbose=0):
        self.estimator = estimator
        self.n_jobs = n_jobs
        self.verbose = verbose

    def fit(self, X, y):
        self.label_binarizer_ = LabelBinarizer()
        y_bin = self.label_binarizer_.fit_transform(y)
        self.classes_ = self.label_binarizer_.classes_
        self.estimators_ = [clone(self.estimator).fit(X, y_bin[:, i]) for i in range(y_bin.shape[1])]
        return self

    def _scores(self, X):
        if not hasattr(self, 'estimators_'):
            raise NotFittedError('not fitted')
        check_array(X, accept_sparse=True)
        n = len(self.estimators_)
        scores = np.zeros((len(X), n))
        for i in range(n):
            scores[:, i] = self.estimators_[i].predict_proba(X)[:, 1]
        if n == 1:
            scores = np.hstack((1 - scores, scores))
        return scores

    def predict(self, X):
        scores = self._scores(X)
        return self.classes_[np.argmax(scores, axis=1)]

    def predict_proba(self, X):
        scores = self._scores(X)
        return scores / np.sum(scores, axis=1)[:, np.newaxis]


class OneVsOneClassifier(BaseEstimator, ClassifierMixin):
    def __init__(self, estimator, n_jobs=None):
        self.estimator = estimator
        self.n_jobs = n_jobs

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        n_classes = len(self.classes_)
        if n_classes == 1:
            raise ValueError('OneVsOneClassifier can not be fit when only one class is present.')
        self.estimators_ = []
        for i in range(n_classes):
            for j in range(i + 1, n_classes):
                cond = np.logical_or(y == self.classes_[i], y == self.classes_[j])
                y_binary = (y[cond] == self.classes_[j]).astype(int)
                self.estimators_.append(clone(self.estimator).fit(X[cond], y_binary))
        return self
