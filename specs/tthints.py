"""Exported TrueType commands"""

CODES = {
    "AlignBottom": "alignb", "AlignTop": "alignt", "SingleLinkH": "singleh", "SingleLinkV": "singlev",
    "DoubleLinkH": "doubleh", "DoubleLinkV": "doublev", "AlignH": "alignh", "AlignV": "alignv",
    "InterpolateH": "interpolateh", "InterpolateV": "interpolatev", "MDeltaH": "mdeltah",
    "MDeltaV": "mdeltav", "FDeltaH": "fdeltah", "FDeltaV": "fdeltav",
}
POINTS = {"pt": "point", "pti": "point", "pt1": "point1", "pt2": "point2"}
ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}


def program(commands, zones, stems, label):
    """the same commands in the same order, with labels of points and names of zones and stems"""
    out = []
    for c in commands:
        code, params = c["cmd"], c["params"]
        d = {"code": CODES[code]}
        for k in ("pti", "pt", "pt1", "pt2"):
            if k in params:
                d[POINTS[k]] = label(params[k], code)
        if "zone" in params:
            d["zone"] = zones["ttZonesT" if code == "AlignTop" else "ttZonesB"][params["zone"]]
        if "stem" in params:
            if params["stem"] >= 0:
                d["stem"] = stems["ttStemsH" if code[-1] == "H" else "ttStemsV"][params["stem"]]["name"]
            elif params["stem"] != -1:
                d["round"] = True
        if "align" in params and params["align"] >= 0:
            d["align"] = ALIGN.get(params["align"], "round")
        if "shift" in params:
            d["delta"] = params["shift"]
            d["ppm1"] = params["ppm1"]
            d["ppm2"] = params["ppm2"]
        out.append(d)
    return out


def rounding(px_to_ppm):
    """size from which each pixel width applies; the widest one if there are several"""
    out = {}
    for px, ppm in px_to_ppm.items():
        key = str(ppm)
        if key in out:
            px = max(px, out[key])
        out[key] = px
    return out


def stem_records(stems, rounds):
    return [{"stem": s["stem"], "round": rounds(s["round"])} for s in stems]


def record_of(records, index):
    for r in records:
        if r["stem"] == index:
            return r
    return None


def text_keys(table):
    return {str(k): v for k, v in table.items()}


def sorted_text_keys(table):
    return {str(k): v for k, v in sorted(table.items())}


def by_width(rounds):
    return {k: v for k, v in sorted(rounds.items(), key=lambda item: item[1])}


ORDER = ("point", "point1", "point2", "round", "stem", "zone", "align", "delta", "ppm1", "ppm2")


def xml_line(command, quoted):
    """the command with its parts in the order of FontLab"""
    parts = ['    <ttc code="' + command["code"] + '"']
    for k in ORDER:
        if k in command:
            parts.append(" " + k + '="' + ("true" if k == "round" else quoted(str(command[k]))) + '"')
    return "".join(parts) + "/>"


def xml(commands, quoted):
    return [xml_line(c, quoted) for c in commands]


def font_values(gasp, ttinfo, stemsnaplimit, zoneppm, codeppm, keys):
    """what the entries of the file say about the font, in the order of the file"""
    font = {}
    for key in keys:
        if key == "gasp":
            font["gasp"] = {str(r["maxPpem"]): r["flags"] for r in gasp}
        elif key == "ttinfo":
            if "head_lowest_rec_ppem" in ttinfo:
                font["head_lowest_rec_ppem"] = ttinfo["head_lowest_rec_ppem"]
            if "head_units_per_em" in ttinfo:
                font["head_units_per_em"] = ttinfo["head_units_per_em"]
        elif key == "stemsnaplimit":
            font["stemsnaplimit"] = stemsnaplimit
        elif key == "zoneppm":
            font["zoneppm"] = zoneppm
        elif key == "codeppm":
            font["codeppm"] = codeppm
    return font
