"""What the data of a glyph become in the UFO of a master."""

# hue of the mark as an HLS colour with this lightness and saturation
LIGHT, SATURATION = 0.8, 0.76


def mark_color(hue):
    """the six sectors of the hue, 255 to the full circle"""
    from fractions import Fraction as F

    light, sat = F(4, 5), F(19, 25)
    top = light + sat - light * sat
    low = 2 * light - top
    rgb = []
    for third in (F(1, 3), F(0), F(-1, 3)):
        h = (F(hue, 255) + third) % 1
        if h < F(1, 6):
            v = low + (top - low) * 6 * h
        elif h < F(1, 2):
            v = top
        elif h < F(2, 3):
            v = low + (top - low) * (F(2, 3) - h) * 6
        else:
            v = low
        rgb.append(v)
    return rgb


def ufo_bitmap(d):
    """one of the bitmaps"""
    rows = d["bitmap"]["data"]
    w, h = d["size_pixels"]
    return dict(
        imageData=[rows[len(rows) - 1 - i] for i in range(len(rows))], bitDepth=1,
        horiAdvance=d["adv"][0], vertAdvance=d["adv"][1], width=w, height=h,
        horiBearingX=d["origin"][0], horiBearingY=d["origin"][1] + h, ppemX=d["ppm"], ppemY=d["ppm"])


def ufo_bitmaps(data):
    return [ufo_bitmap(d) for d in data]


def anchor(a):
    r = dict(x=a["x"], y=a["y"])
    if "name" in a:
        r["name"] = a["name"]
    return r


def anchors(gdef):
    return [anchor(a) for a in gdef["anchors"]]


def expected(follow, M, m):
    """lib, unicodes, anchors, note of a glyph in master m, mask nodes and metrics"""
    r = dict(lib={}, unicodes=[], anchors=[], note=None, nodes=[], metrics=None)
    metrics = []
    for k, d in follow:
        if k in (1250, 1253):
            r["unicodes"] += list(d)
        elif k == 2018 and "anchors" in d:
            r["anchors"] = anchors(d)
        elif k == 2017:
            r["note"] = d
        elif k == 2012:
            r["lib"]["public.markColor"] = mark_color(d)
        elif k == 2015:
            r["lib"]["com.fontlab.v5.userData"] = d
        elif k == 2007:
            d = dict(d)
            d["bitmap"] = {x: y for x, y in d["bitmap"].items() if x != "preview"}
            r["lib"]["com.fontlab.v5.background"] = d
        elif k == 2013:
            r["lib"]["com.fontlab.v5.bitmaps"] = ufo_bitmaps(d)
        elif k == 2009:
            r["nodes"] = d.get("nodes", [])
        elif k == 2011:
            metrics = [d] + metrics
        elif k == 2028:
            metrics += list(d)
    for k, d in follow:
        if k == 2029:
            for j, a in enumerate(d):
                r["anchors"][j] = dict(r["anchors"][j], x=a["x"][m], y=a["y"][m])
    if metrics:
        r["metrics"] = metrics[m]
    return r
