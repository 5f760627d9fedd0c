"""Quantifiers that stand for any base quantifier: what they learn and answer is an unknown function of what they are given."""
import numpy as np
from quantificationlib.base import UsingClassifiers, WithoutClassifiers
import qlsa_ext


class Part(object):
    """an object a quantifier is made of"""


class StubX(WithoutClassifiers):
    def __init__(self, verbose=0):
        super(StubX, self).__init__(verbose=verbose)
        self.part = Part()
        self.model_ = None

    def fit(self, X, y):
        super().fit(X, y)
        self.model_ = qlsa_ext.learn(X, y, None)
        return self

    def predict(self, X):
        return qlsa_ext.answer(self.model_, X, None, len(self.classes_))


class StubY(UsingClassifiers):
    def __init__(self, estimator_train=None, estimator_test=None, verbose=0, probabilistic_predictions=True,
                 needs_predictions_train=True):
        super(StubY, self).__init__(estimator_train=estimator_train, estimator_test=estimator_test, verbose=verbose,
                                    needs_predictions_train=needs_predictions_train,
                                    probabilistic_predictions=probabilistic_predictions)
        self.part = Part()
        self.model_ = None

    def fit(self, X, y, predictions_train=None):
        super().fit(X, y, predictions_train=predictions_train)
        self.model_ = qlsa_ext.learn(None, self.y_ext_ if self.needs_predictions_train else y, self.predictions_train_)
        return self

    def predict(self, X, predictions_test=None):
        super().predict(X, predictions_test=predictions_test)
        return qlsa_ext.answer(self.model_, None, self.predictions_test_, len(self.classes_))
