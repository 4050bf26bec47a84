"""Names and colours of guides"""


def some_color(r, g, b):
    return f"#{r:02x}{g:02x}{b:02x}"


def ufo_color(color):
    r, g, b = [int(color[k : k + 2], 16) / 255 for k in (1, 3, 5)]
    return f"{r:0.4f},{g:0.4f},{b:0.4f},1"


def with_properties(guides, kinds, properties):
    """each property goes to the guide of its direction with its 1-based index, if there is one"""
    out = []
    count = {"h": 0, "v": 0}
    for guide, d in zip(guides, kinds):
        count[d] += 1
        g = dict(guide)
        for p in properties[d]:
            if p["index"] == count[d]:
                if "color" in p:
                    g["color"] = ufo_color(p["color"])
                if "name" in p:
                    g["name"] = p["name"]
        out.append(g)
    return out
