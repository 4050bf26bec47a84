"""outlines that were converted to quadratic curves, against the cubic ones"""


def contours(nodes, m):
    """-> [(open, [(type, points)])] of one master"""
    out = []
    for n in nodes:
        if n["type"] == "move":
            out.append((bool(n.get("flags", 0) & 8), []))
        out[-1][1].append((n["type"], [tuple(p) for p in n["points"][m]]))
    return out


def cubic_points(contour, steps=48):
    """points on a contour of lines and cubic curves, in their order"""
    is_open, nodes = contour
    out = []
    at = None
    for kind, pts in nodes:
        if kind == "curve":
            p3, p1, p2 = pts
            for k in range(1, steps + 1):
                t = k / steps
                a, b, c, d = (1 - t) ** 3, 3 * t * (1 - t) ** 2, 3 * t * t * (1 - t), t ** 3
                out.append(tuple(a * at[i] + b * p1[i] + c * p2[i] + d * p3[i] for i in (0, 1)))
            at = p3
        else:
            if kind == "line":
                out += between(at, pts[0], 4)
            else:
                out.append(pts[0])
            at = pts[0]
    if not is_open and out and out[0] != at:
        out += between(at, out[0], 4)
    return out


def between(a, b, steps):
    return [tuple(a[i] + (b[i] - a[i]) * k / steps for i in (0, 1)) for k in range(1, steps + 1)]


def quadratic_points(contour, steps=16):
    """the same for lines and quadratic curves; off-curve points imply on-curve ones between them"""
    is_open, nodes = contour
    start = at = nodes[0][1][0]
    out = [start]
    off = []

    def curve(end):
        nonlocal at
        n = steps if len(off) < 5 else 6
        for i, c in enumerate(off):
            to = end if i == len(off) - 1 else tuple((c[k] + off[i + 1][k]) / 2 for k in (0, 1))
            for s in range(1, n + 1):
                t = s / n
                out.append(tuple((1 - t) ** 2 * at[k] + 2 * t * (1 - t) * c[k] + t * t * to[k] for k in (0, 1)))
            at = to
        off.clear()

    for kind, pts in nodes[1:]:
        if kind == "qcurve":
            off.append(pts[0])
        elif off:
            curve(pts[0])
            at = pts[0]
        else:
            out += between(at, pts[0], 4)
            at = pts[0]
    if off:
        curve(start)
    elif not is_open and at != start:
        out += between(at, start, 4)
    return out


def area(pts):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(pts, pts[1:] + pts[:1])) / 2


def distance(p, pts, closed):
    """from a point to the polygon"""
    best = 1e30
    for a, b in zip(pts, pts[1:] + (pts[:1] if closed else [])) if len(pts) > 1 else [(pts[0], pts[0])]:
        dx, dy = b[0] - a[0], b[1] - a[1]
        n = dx * dx + dy * dy
        t = max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n)) if n else 0
        best = min(best, (p[0] - a[0] - t * dx) ** 2 + (p[1] - a[1] - t * dy) ** 2)
    return best ** 0.5
