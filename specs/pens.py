"""Drawing with the point pen"""


def draw(pen, contours, components=()):
    for (pt, segment), rest in contours:
        pen.beginPath()
        pen.addPoint(pt, segment)
        for pt, segment in rest:
            pen.addPoint(pt, segment)
        pen.endPath()
    for name, transformation in components:
        pen.addComponent(name, transformation)


def drawn(contours, num_masters):
    """one node per point; the first one begins the contour, which is open if it is a move"""
    nodes = []
    for (pt, segment), rest in contours:
        nodes.append({"type": "move", "flags": 8 if segment == "move" else 0,
                      "points": [[(round(pt[0]), round(pt[1]))] for _ in range(num_masters)]})
        for pt, segment in rest:
            nodes.append({"type": "qcurve" if segment is None else "line", "flags": 0,
                          "points": [[(round(pt[0]), round(pt[1]))] for _ in range(num_masters)]})
    return nodes


def referenced(components, num_masters):
    """one component per reference, the same in all masters"""
    out = []
    for gid, (xx, xy, yx, yy, dx, dy) in components:
        out.append({"gid": gid, "offsetX": [dx] * num_masters, "offsetY": [dy] * num_masters,
                    "scaleX": [xx] * num_masters, "scaleY": [yy] * num_masters})
    return out
