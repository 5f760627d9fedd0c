"""What the plotting functions draw on."""


class Patch(object):
    def set_color(self, color):
        pass

    def set_facecolor(self, color):
        pass

    def set(self, **options):
        pass


class Axes(object):
    def __init__(self):
        self.drawn = []

    def set_xlim(self, limits):
        pass

    def set_ylim(self, limits):
        pass

    def set_xlabel(self, text):
        pass

    def set_ylabel(self, text):
        pass

    def set(self, **options):
        pass

    def add_collection(self, collection):
        self.drawn.append(collection)

    def boxplot(self, data, **options):
        return {'boxes': [Patch(), Patch()], 'medians': [Patch(), Patch()]}
