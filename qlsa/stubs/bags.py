"""A bag generator that gives the bags it holds."""


class FixedBags(object):
    def __init__(self, n_bags):
        self.n_bags = n_bags
        self.prevalences_ = None
        self.indexes_ = None

    def generate_bags(self, X, y):
        return self.prevalences_, self.indexes_
