"""PostScript stem hints: what the stems of one master are"""


def stem(direction, pos, width):
    # a negative width means a stem given by its other edge, but for ghost hints
    if width < 0 and width != -20 and width != -21:
        return (direction + "stem", pos + width, -width)
    return (direction + "stem", pos, width)


def link_stem(direction, i, link, nodes, master):
    source, target = link
    a = nodes[source]["points"][master][0][i]
    if target == -1:  # bottom edge: a bottom ghost hint sits 21 units above it
        return (direction + "stem", a + 21, -21)
    if target == -2:  # top edge
        return (direction + "stem", a, -20)
    return (direction + "stem", a, nodes[target]["points"][master][0][i] - a)


def master_stems(hints, links, nodes, master):
    h = [stem("h", s[master]["pos"], s[master]["width"]) for s in hints["h"]]
    v = [stem("v", s[master]["pos"], s[master]["width"]) for s in hints["v"]]
    if links:
        v = v + [link_stem("v", 0, link, nodes, master) for link in links["x"]]
        h = h + [link_stem("h", 1, link, nodes, master) for link in links["y"]]
    return {"h": h, "v": v}


def stem_texts(stems):
    return [f"{s[0]} {s[1]} {s[2]}" for s in stems]
