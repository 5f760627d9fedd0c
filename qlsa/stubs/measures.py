"""A performance measure that answers given numbers, one after another (so that the shape of a tree is chosen by the scenario)."""


class Script:
    def __init__(self, values):
        self.values = values
        self.asked = 0

    def __call__(self, p_true, p_pred):
        v = self.values[self.asked % len(self.values)]
        self.asked = self.asked + 1
        return v
