class Color(object):
    def __init__(self, red, green, blue):
        self.components = (red, green, blue)

    def __eq__(self, other):
        return isinstance(other, Color) and self.components == other.components

    def __hash__(self):
        return hash(self.components)

    def __repr__(self):
        return "rgb(%s, %s, %s)" % self.components
