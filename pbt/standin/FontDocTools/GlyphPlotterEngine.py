import enum


class CoordinateSystem(enum.Enum):
    frame = 1
    contentMargins = 2
    content = 3


class PaintMode(enum.Enum):
    fill = 1
    stroke = 2
    fillAndStroke = 3


class Margins(object):
    def __init__(self, left, top, right, bottom):
        self.left, self.top, self.right, self.bottom = left, top, right, bottom


class _Bounds(object):
    def __init__(self):
        self.added = []

    def addBounds(self, bounds):
        self.added.append(tuple(bounds))


class GlyphPlotterEngine(object):
    """Attributes, their setters and a list of content; other drawing calls are recorded in
    `calls` with the attributes in force."""

    def __init__(self):
        self._boundsAggregator = _Bounds()
        self._content = []
        self._pen = None
        self.calls = []
        self._fillColor, self._fillOpacity = "black", 1
        self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash = 1, "black", 1, None
        self._labelFont, self._labelFontSize = "sans-serif", 12
        self._contentMargins = self._frameMargins = None

    def setContentMargins(self, margins):
        self._contentMargins = margins

    def setFrameMargins(self, margins):
        self._frameMargins = margins

    def setLabelFontSize(self, contentSize, frameSize=None):
        self._labelFontSize = contentSize

    def setFillColor(self, color):
        self._fillColor = color

    def setFillOpacity(self, opacity):
        self._fillOpacity = opacity

    def setStrokeWidth(self, width):
        self._strokeWidth = width

    def setStrokeColor(self, color):
        self._strokeColor = color

    def setStrokeOpacity(self, opacity):
        self._strokeOpacity = opacity

    def setStrokeDash(self, dash):
        self._strokeDash = dash

    def attributes(self):
        return (self._fillColor, self._fillOpacity, self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash)

    def moveToXY(self, x, y):
        self._pen = (x, y)

    def _fillAttributes(self):
        return "fill='%s' fill-opacity='%s'" % (self._fillColor, self._fillOpacity)

    def _strokeAttributes(self):
        dash = "" if self._strokeDash is None else " stroke-dasharray='%s'" % self._strokeDash
        return "stroke='%s' stroke-opacity='%s' stroke-width='%s'%s" % (self._strokeColor, self._strokeOpacity, self._strokeWidth, dash)

    def drawCircle(self, coordinates, x, y, radius, mode):
        self.calls.append(("circle", coordinates, x, y, radius, mode) + self.attributes())

    def drawLabel(self, coordinates, x, y, angle, alignment, text):
        self.calls.append(("label", coordinates, x, y, alignment, text) + self.attributes())

    def drawArrow(self, coordinates, x0, y0, x1, y1, style, position):
        self.calls.append(("arrow", coordinates, x0, y0, x1, y1, style, position) + self.attributes())
