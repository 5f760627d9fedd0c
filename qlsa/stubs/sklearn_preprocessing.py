"""What the analysis assumes of sklearn.preprocessing (walked like the repository's own source)."""
import numpy as np
import qlsa_ext
from sklearn.base import BaseEstimator
from sklearn.exceptions import NotFittedError
from sklearn.preprocessing import label_binarize


class LabelBinarizer(BaseEstimator):
    def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label = neg_label
        self.pos_label = pos_label
        self.sparse_output = sparse_output

    def fit(self, y):
        self.y_type_ = 'multiclass'
        self.classes_ = np.unique(y)
        return self

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def transform(self, y):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('not fitted')
        r = label_binarize(y, classes=self.classes_)
        if self.sparse_output:
            return qlsa_ext.sparse(r)
        return r

    def inverse_transform(self, Y, threshold=None):
        if self.sparse_output:
            Y = Y.toarray()
        if len(self.classes_) == 2:
            return self.classes_[(Y.ravel() > 0.5).astype(int)]
        return self.classes_[np.argmax(Y, axis=1)]
