"""Exported contours: points (type, smooth, name, coordinates) in the order of the point pen"""


def advance(state, index, node, m, label):
    """the next node of the outline; state: (finished contours, current contour, is it open,
    does it end with off-curve points of a quadratic curve, labels that are given up)"""
    done, contour, is_open, off, given_up = state
    points = node["points"][m]
    smooth = node["flags"] % 2 == 1
    kind = node["type"]
    if kind == "move":
        if contour:
            contour, lost = finished(contour, is_open)
            done = done + [contour]
            given_up = given_up + lost
        return done, [("move", smooth, label, points[0])], node["flags"] // 8 % 2 == 1, False, given_up
    if kind == "line":
        new = [("qcurve" if off else "line", smooth, label, points[0])]
        off = False
    elif kind == "curve":
        new = [(None, False, None, points[1]), (None, False, None, points[2]),
               ("curve", smooth, label, points[0])]
        off = False
    else:
        new = [(None, False, label, points[0])]
        off = True
    return done, contour + new, is_open, off, given_up


def finished(contour, is_open):
    """the contour as it is exported, labels that are given up for another one"""
    if is_open or len(contour) == 1:
        return contour, []
    first, last = contour[0], contour[-1]
    if last[0] is None:
        # the last curve ends at the start point
        return [("qcurve", first[1], first[2], first[3])] + contour[1:], []
    if last[0] == "curve" and last[3] == first[3]:
        # the start point is there twice, the end point of the curve is kept
        if first[2] is None:
            return [last] + contour[1:-1], []
        if last[2] is None:
            return [("curve", last[1], first[2], last[3])] + contour[1:-1], []
        return [last] + contour[1:-1], [(first[2], last[2])]
    # the closing line
    return [("line", first[1], first[2], first[3])] + contour[1:], []


def result(state):
    done, contour, is_open, off, given_up = state
    if contour:
        contour, lost = finished(contour, is_open)
        return done + [contour], given_up + lost
    return done, given_up


def components(comps, order, m):
    return [(order[c["gid"]], (round(c["scaleX"][m], 15), 0, 0, round(c["scaleY"][m], 15),
                               c["offsetX"][m], c["offsetY"][m])) for c in comps]


# ---------------------------------------------------------------------- segment pens
class Segments:
    """a segment pen that logs what it is told to draw"""

    def __init__(self):
        self.log = []

    def moveTo(self, pt):
        self.log.append(("moveTo", [pt]))

    def lineTo(self, pt):
        self.log.append(("lineTo", [pt]))

    def curveTo(self, *points):
        self.log.append(("curveTo", list(points)))

    def qCurveTo(self, *points):
        self.log.append(("qCurveTo", list(points)))

    def closePath(self):
        self.log.append(("closePath", []))

    def endPath(self):
        self.log.append(("endPath", []))

    def addComponent(self, name, transformation):
        self.log.append(("addComponent", [name, transformation]))


def draw_on(state, node, m):
    """the next node; state: (calls, start point of the contour or None before the first one,
    is it open, off-curve points since the last point on the curve)"""
    calls, start, is_open, off = state
    points = node["points"][m]
    kind = node["type"]
    if kind == "move":
        return (calls + contour_end(start, is_open, off) + [("moveTo", [points[0]])], points[0],
                node["flags"] // 8 % 2 == 1, [])
    if kind == "line":
        if off:
            return calls + [("qCurveTo", off + [points[0]])], start, is_open, []
        return calls + [("lineTo", [points[0]])], start, is_open, []
    if kind == "curve":
        return calls + [("curveTo", [points[1], points[2], points[0]])], start, is_open, off
    return calls, start, is_open, off + [points[0]]


def contour_end(start, is_open, off):
    if start is None:
        return []
    calls = []
    if off:
        # the last curve ends on the start point
        calls = [("qCurveTo", off + [start])]
    return calls + [("endPath" if is_open else "closePath", [])]


def drawn_segments(state, comps, order, m):
    calls, start, is_open, off = state
    return calls + contour_end(start, is_open, off) + [
        ("addComponent", [order[c["gid"]], (c["scaleX"][m], 0, 0, c["scaleY"][m],
                                            c["offsetX"][m], c["offsetY"][m])]) for c in comps]


# ---------------------------------------------------------------------- point pens
class Points:
    """a point pen that logs what it is told to draw"""

    def __init__(self):
        self.log = []

    def beginPath(self, identifier=None):
        self.log.append(("beginPath", []))

    def addPoint(self, pt, segmentType=None, smooth=False, name=None, identifier=None):
        self.log.append(("addPoint", [segmentType, smooth, name, pt]))

    def endPath(self):
        self.log.append(("endPath", []))

    def addComponent(self, baseGlyphName, transformation, identifier=None):
        self.log.append(("addComponent", [baseGlyphName, transformation]))


def drawn_points(nodes, comps, order, m):
    """all calls of the point pen"""
    state = ([], [], False, False, [])
    index = 0
    for node in nodes:
        state = advance(state, index, node, m, None)
        index += 1
    calls = []
    contours, lost = result(state)
    for contour in contours:
        calls.append(("beginPath", []))
        for kind, smooth, name, pt in contour:
            calls.append(("addPoint", [kind, smooth, name, pt]))
        calls.append(("endPath", []))
    for name, transformation in components(comps, order, m):
        calls.append(("addComponent", [name, transformation]))
    return calls
