"""C17 export of TrueType hinting"""
import contextlib
import copy
import io
import re

from pyvc.aids import (
    added, last_is, one_new_name, own_name, settled, setup_names, some_names, text_key, unknown_list,
    spot_is, unknown_text,
)
from pyvc.natives import nf_deepcopy
from pyvc.terms import I, REG, simp, zb, zi
from pyvc.values import FDict, FList, FmtStr, HDict, HList, Ref, Unsupported, vsubst
from specs import tthints

POINTS = {
    "AlignTop": ("pt",), "AlignBottom": ("pt",), "AlignH": ("pt",), "AlignV": ("pt",),
    "SingleLinkH": ("pt1", "pt2"), "SingleLinkV": ("pt1", "pt2"),
    "DoubleLinkH": ("pt1", "pt2"), "DoubleLinkV": ("pt1", "pt2"),
    "InterpolateH": ("pti", "pt1", "pt2"), "InterpolateV": ("pti", "pt1", "pt2"),
    "MDeltaH": ("pt",), "MDeltaV": ("pt",), "FDeltaH": ("pt",), "FDeltaV": ("pt",),
}
CODES = {
    "AlignBottom": "alignb", "AlignTop": "alignt", "SingleLinkH": "singleh",
    "SingleLinkV": "singlev", "DoubleLinkH": "doubleh", "DoubleLinkV": "doublev",
    "AlignH": "alignh", "AlignV": "alignv", "InterpolateH": "interpolateh",
    "InterpolateV": "interpolatev", "MDeltaH": "mdeltah", "MDeltaV": "mdeltav",
    "FDeltaH": "fdeltah", "FDeltaV": "fdeltav",
}
ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}


def unique(names):
    """the names the export gives: the first bearer keeps its name"""
    seen, out = set(), []
    for n in names:
        k, i = n, 0
        while k in seen:
            i += 1
            k = f"{n}#{i}"
        seen.add(k)
        out.append(k)
    return out


def rounding(px_to_ppm):
    out = {}
    for px, ppm in px_to_ppm.items():
        out[str(ppm)] = max(px, out.get(str(ppm), px))
    return out


def rounds_contract(d):
    from vfbLib.ufo.tth import transform_stem_rounds

    with contextlib.redirect_stdout(io.StringIO()):
        got = transform_stem_rounds(copy.deepcopy(d), "stem")
    if got != rounding(d):
        return [dict(clause="size from which each pixel width applies", detail=f"{d}: {got}")]
    return []


def command(cmd, stems, zones):
    """expected export of one command"""
    code, p = cmd["cmd"], cmd["params"]
    out = {"code": CODES[code]}
    for k in POINTS[code]:
        out[{"pt": "point", "pti": "point", "pt1": "point1", "pt2": "point2"}[k]] = p[k]
    if code == "AlignTop":
        out["zone"] = zones["ttZonesT"][p["zone"]]
    if code == "AlignBottom":
        out["zone"] = zones["ttZonesB"][p["zone"]]
    if "stem" in p:
        if p["stem"] >= 0:
            mine = stems["ttStemsH" if code[-1] == "H" else "ttStemsV"]
            # the export chooses the first stem in place of one that does not exist
            out["stem"] = mine[p["stem"] if p["stem"] < len(mine) else 0]
        elif p["stem"] <= -2:
            out["round"] = True
    if "align" in p and p["align"] >= 0:
        out["align"] = ALIGN.get(p["align"], "round")
    if "shift" in p:
        out.update(delta=p["shift"], ppm1=p["ppm1"], ppm2=p["ppm2"])
    return out


def expected(font):
    f, g = {}, {}
    if font.get("gasp") is not None:
        f["gasp"] = {str(r["maxPpem"]): r["flags"] for r in font["gasp"]}
    for k in ("head_lowest_rec_ppem", "head_units_per_em"):
        if k in (font.get("ttinfo") or {}):
            f[k] = font["ttinfo"][k]
    for k in ("stemsnaplimit", "zoneppm", "codeppm"):
        if font.get(k) is not None:
            f[k] = font[k]
    stems = {"ttStemsV": [], "ttStemsH": []}
    if font.get("stems"):
        order = ("ttStemsV", "ttStemsH")
        names = unique([s["name"] for d in order for s in font["stems"][d]])
        res = {}
        for d in order:
            for i, s in enumerate(font["stems"][d]):
                n = names.pop(0)
                stems[d].append(n)
                px = dict(s["round"])
                for src in (font.get("ppems"), font.get("ppem1")):
                    for rec in (src or {}).get(d, []):
                        if rec["stem"] == i:
                            px.update(rec["round"])
                res[n] = dict(width=s["value"], horizontal=d == "ttStemsV", round=rounding(px))
        if res:
            f["stems"] = res
    zones = {"ttZonesT": [], "ttZonesB": []}
    if font.get("zones"):
        order = ("ttZonesT", "ttZonesB")
        names = unique([z["name"] for d in order for z in font["zones"][d]])
        res = {}
        for d in order:
            for z in font["zones"][d]:
                n = names.pop(0)
                zones[d].append(n)
                res[n] = dict(position=z["position"], width=z["value"], top=d == "ttZonesT")
        every = zones["ttZonesB"] + zones["ttZonesT"]
        for i, delta in (font.get("deltas") or {}).items():
            res[every[i]]["deltas"] = {str(k): v for k, v in delta.items()}
        if res:
            f["zones"] = res
    for name, prog in font["glyphs"]:
        if prog:
            g[name] = [command(c, stems, zones) for c in prog]
    return dict(font=f, glyphs=g)


# ------------------------------------------------------------------ UFO
LABELLED = ("point", "point1", "point2")


def tt_ufo_contract(font, nodes, comps, M, twice):
    """TrueType hinting in the lib of the exported UFOs

    nodes: {glyph: nodes}, comps: {glyph: [gid]}; all points of a glyph differ"""
    import xml.etree.ElementTree as ET

    from specs.fonts import export, glyph_data, make_font

    fails = []

    def bad(clause, detail=""):
        fails.append(dict(clause=clause, detail=str(detail)))

    ents = [(key, copy.deepcopy(font[k])) for k, key in KEYS if font.get(k) is not None and k not in ("gasp", "ttinfo")]
    glyphs = []
    for n, prog in font["glyphs"]:
        d = glyph_data(n, M, nodes=copy.deepcopy(nodes.get(n, [])))
        if comps.get(n):
            d["components"] = [dict(gid=g, offsetX=[0] * M, offsetY=[0] * M, scaleX=[1.0] * M, scaleY=[1.0] * M)
                               for g in comps[n]]
        if prog:
            d["tth"] = copy.deepcopy(prog)
        glyphs.append(d)
    vfb = make_font(M, ents, glyphs)
    before = [copy.deepcopy(e.data) for e in vfb.entries]
    ufos = export(vfb)
    if twice:
        ufos = export(vfb)
    for e, b in zip(vfb.entries, before):
        if e.data != b:
            bad(f"entry {e.key} unchanged (frame)", f"{e.data} {b}")
    stems = {d: [] for d in ("ttStemsH", "ttStemsV")}
    for d in stems:
        for i, st in enumerate((font.get("stems") or {}).get(d, [])):
            px = dict(st["round"])
            for src in (font.get("ppems"), font.get("ppem1")):
                for rec in (src or {}).get(d, []):
                    if rec["stem"] == i:
                        px.update(rec["round"])
            stems[d].append(dict(width=st["value"], horizontal=d == "ttStemsV", round=rounding(px)))
    zones = {d: [dict(position=z["position"], width=z["value"], top=d == "ttZonesT")
                 for z in (font.get("zones") or {}).get(d, [])] for d in ("ttZonesB", "ttZonesT")}
    every = zones["ttZonesB"] + zones["ttZonesT"]
    for i, delta in (font.get("deltas") or {}).items():
        every[i]["delta"] = {str(k): v for k, v in delta.items()}
    names = [n for n, _ in font["glyphs"]]
    for m, ufo in enumerate(ufos):
        lib = ufo.lib.get("com.fontlab.v2.tth", {})
        got_s, got_z = lib.get("stems", {}), lib.get("zones", {})
        key = lambda d: sorted((repr(sorted((k, v if not isinstance(v, dict) else sorted(v.items())) for k, v in x.items())) for x in d))
        if key(got_s.values()) != key(stems["ttStemsH"] + stems["ttStemsV"]):
            bad("UFO lists every stem once", f"{got_s} {stems}")
        if key(got_z.values()) != key(every):
            bad("UFO lists every zone once", f"{got_z} {zones}")
        for what, recs in (("stems", got_s), ("zones", got_z)):
            had = [x["name"] for d in (font.get(what) or {}).values() for x in d if x["name"]]
            for n in had:
                if n not in recs:
                    bad(f"UFO keeps the names of {what}", f"{n} {list(recs)}")
        for k, default in (("stemsnaplimit", 68), ("zoneppm", 48), ("codeppm", None)):
            w = font.get(k)
            if lib.get(k, default if w is not None else None) != w:
                bad(f"UFO {k}", f"{lib.get(k)} {w}")
        for n, prog in font["glyphs"]:
            g = ufo[n]
            xml = g.lib.get("com.fontlab.ttprogram")
            if not prog:
                if xml:
                    bad("UFO program only where there is one", n)
                continue
            if not xml:
                bad("UFO program", n)
                continue
            cmds = [dict(x.attrib) for x in ET.fromstring(xml)]
            if len(cmds) != len(prog):
                bad("UFO program has the same commands", f"{len(cmds)} {len(prog)}")
                continue
            where = {}
            for cn in set(names):
                for c in ufo[cn].contours:
                    for p in c.points:
                        if p.name:
                            if (cn, p.name) in where:
                                bad("point labels are unique", f"{cn} {p.name}")
                            where[cn, p.name] = (p.x, p.y)
            def point(label, cn, i):
                """does the label denote point i?"""
                parts = comps.get(cn)
                if parts:
                    for k, gid in enumerate(parts):
                        base = names[gid]
                        if i < len(nodes.get(base, [])):
                            if not label.endswith(f"-{k}"):
                                return False
                            label = label[: -len(f"-{k}")]
                            # the label of a start point may have given way to the one of the
                            # closing curve (C14), which a composite does not follow
                            start = nodes[base][i]["type"] == "move"
                            return start and (base, label) not in where or point(label, base, i)
                        i -= len(nodes.get(base, []))
                    return label == ("lsb", "rsb")[i]
                ns = nodes.get(cn, [])
                if i >= len(ns):
                    return label == ("lsb", "rsb")[i - len(ns)]
                return where.get((cn, label)) == tuple(ns[i]["points"][m][0])

            for cmd, x in zip(prog, cmds):
                want = command(cmd, {d: list(range(len(v))) for d, v in stems.items()},
                               {d: list(range(len(v))) for d, v in zones.items()})
                code = cmd["cmd"]
                if set(want) != set(x):
                    bad("UFO command has its parts", f"{cmd} {x}")
                    continue
                for k, v in want.items():
                    if k in LABELLED:
                        if not point(x[k], n, v):
                            bad("UFO command refers to the point", f"{n} {cmd} {x} {where}")
                    elif k == "stem":
                        if got_s.get(x[k]) != stems["ttStemsH" if code[-1] == "H" else "ttStemsV"][v]:
                            bad("UFO command refers to the stem", f"{cmd} {x} {got_s}")
                    elif k == "zone":
                        if got_z.get(x[k]) != zones["ttZonesT" if code == "AlignTop" else "ttZonesB"][v]:
                            bad("UFO command refers to the zone", f"{cmd} {x} {got_z}")
                    elif k == "round":
                        if x[k] != "true":
                            bad("UFO command keeps the rounding", f"{cmd} {x}")
                    elif x[k] != str(v):
                        bad("UFO command keeps its values", f"{cmd} {x}")
    return fails


def gen_outline(rng, M, seen):
    """nodes whose points all differ, except for curves that end on the start point"""
    nodes = []

    def pt():
        while True:
            p = [(rng.randint(-900, 900), rng.randint(-900, 900)) for _ in range(M)]
            if not any(q in seen for q in p):
                seen.update(p)
                return p

    for _ in range(rng.choice([1, 1, 2])):
        start = pt()
        op = rng.random() < 0.3
        nodes.append(dict(type="move", flags=8 if op else 0, points=[[p] for p in start]))
        k = rng.randint(1, 4)
        for i in range(k):
            t = rng.choice(["line", "curve"])
            end = pt()
            if t == "curve":
                if i == k - 1 and rng.random() < 0.6:
                    end = start
                nodes.append(dict(type="curve", flags=0, points=[[a, b, c] for a, b, c in zip(end, pt(), pt())]))
            else:
                nodes.append(dict(type="line", flags=0, points=[[p] for p in end]))
    return nodes


def gen_ufo(rng):
    M = rng.choice([1, 1, 2])
    font, _ = gen(rng)
    for k in ("ppems", "ppem1"):
        if font[k] and rng.random() < 0.2:
            font[k] = None
    ns = {d[-1]: len(v) for d, v in (font.get("stems") or dict(ttStemsV=[], ttStemsH=[])).items()}
    nz = {d[-1]: len(v) for d, v in (font.get("zones") or dict(ttZonesT=[], ttZonesB=[])).items()}
    names = ["A", "b", "C", "d"][: rng.randint(1, 4)]
    nodes, comps, progs = {}, {}, []
    for i, n in enumerate(names):
        if rng.random() < 0.3 and i:
            comps[n] = [rng.choice([j for j in range(i) if names[j] not in comps]) for _ in range(rng.randint(1, 2))]
            size = sum(len(nodes[names[j]]) for j in comps[n])
        else:
            nodes[n] = gen_outline(rng, M, set())
            size = len(nodes[n])
        prog = []
        for _ in range(rng.choice([0, 1, 3, 6])):
            c = gen_cmd(rng, ns, nz)
            for k in POINTS[c["cmd"]]:
                c["params"][k] = rng.randrange(size + 2) if rng.random() < 0.6 else rng.choice([0, size - 1])
            if c["params"].get("stem", -1) >= 0 and rng.random() < 0.1:
                c["params"]["stem"] = ns[c["cmd"][-1]] + rng.choice([0, 1])
            prog.append(c)
        progs.append((n, prog))
    font["glyphs"] = progs
    return font, nodes, comps, M, rng.random() < 0.2


KEYS = [("gasp", "gasp"), ("ttinfo", "ttinfo"), ("ppems", "TrueType Stem PPEMs"),
        ("stems", "TrueType Stems"), ("ppem1", "TrueType Stem PPEMs 1"), ("zones", "TrueType Zones"),
        ("stemsnaplimit", "stemsnaplimit"), ("zoneppm", "zoneppm"), ("codeppm", "codeppm"),
        ("deltas", "TrueType Zone Deltas")]


def export_contract(font, order, compiled):
    from specs.fonts import glyph_data, make_font
    from vfbLib.tth import extract_truetype_hinting

    ents = [(dict(KEYS)[k], copy.deepcopy(font[k])) for k in order if font.get(k) is not None]
    glyphs = [glyph_data(n, 1, tth=copy.deepcopy(p)) if p else glyph_data(n, 1) for n, p in font["glyphs"]]
    vfb = make_font(1, ents, glyphs)
    vfb.ttStemsV_count = len((font.get("stems") or {}).get("ttStemsV", []))
    vfb.ttStemsH_count = len((font.get("stems") or {}).get("ttStemsH", []))
    if compiled:
        for e in vfb.entries:
            if e.id != 1536:
                e.compile()
    before = [copy.deepcopy(e.data) for e in vfb.entries]
    with contextlib.redirect_stdout(io.StringIO()):
        got = extract_truetype_hinting(vfb)
    want = expected(font)
    fails = []
    for part in ("font", "glyphs"):
        keys = set(want[part]) | set(got.get(part, {}))
        for k in sorted(keys):
            a, b = got.get(part, {}).get(k, "(absent)"), want[part].get(k, "(absent)")
            if a != b:
                fails.append(dict(clause=f"exported {part} {k if part == 'font' else 'program'}",
                                  detail=f"{k}: {a} != {b}"))
    if not compiled:
        for e, b in zip(vfb.entries, before):
            if e.data != b:
                fails.append(dict(clause=f"entry {e.key} unchanged (frame)", detail=f"{e.data} {b}"))
    return fails


def gen_cmd(rng, ns, nz):
    code = rng.choice(sorted(POINTS))
    if code == "AlignTop" and not nz["T"] or code == "AlignBottom" and not nz["B"]:
        code = "AlignH"
    p = {k: rng.choice([0, 1, 5, 200, rng.randrange(3000)]) for k in POINTS[code]}
    if code in ("AlignTop", "AlignBottom"):
        p["zone"] = rng.randrange(nz["T" if code == "AlignTop" else "B"])
    if "Link" in code:
        n = ns[code[-1]]
        p["stem"] = rng.choice([-1, -2, -3] + [rng.randrange(n) if n else -1] * 4)
    if code[:6] in ("AlignH", "AlignV", "Single", "Interp"):
        p["align"] = rng.choice([-1, 0, 1, 2, 3, 4, 4, 5, 9])
    if "Delta" in code:
        p.update(shift=rng.randint(-127, 127), ppm1=rng.randint(1, 255), ppm2=rng.randint(1, 255))
    return dict(cmd=code, params=p)


def gen(rng):
    font = {}
    names = ["", "X", "Y", "X#1", "Y#1", "X#2", "x"]
    maybe = lambda p, f: f() if rng.random() < p else None
    font["gasp"] = maybe(0.6, lambda: [dict(maxPpem=i, flags=rng.randrange(16)) for i in sorted(rng.sample(range(1, 65535), rng.randint(0, 4)))])
    font["ttinfo"] = maybe(0.5, lambda: {k: rng.randint(1, 3000) for k in ("head_lowest_rec_ppem", "head_units_per_em") if rng.random() < 0.7})
    for k, hi in (("stemsnaplimit", 300), ("zoneppm", 300), ("codeppm", 4000)):
        font[k] = maybe(0.6, lambda: rng.choice([0, 1, hi]))
    small = rng.random() < 0.5
    ppm = lambda: rng.randint(1, 4) if small else rng.randint(1, 300)
    font["stems"] = maybe(0.75, lambda: {d: [dict(value=rng.randint(-50, 900), name=rng.choice(names), round={6: ppm()})
                                            for _ in range(rng.randint(0, 4))] for d in ("ttStemsV", "ttStemsH")})
    st = font["stems"] or dict(ttStemsV=[], ttStemsH=[])
    n = {d: len(st[d]) for d in st}

    def recs(pxs):
        out = {}
        for d in ("ttStemsV", "ttStemsH"):
            idx = list(range(n[d]))
            if rng.random() < 0.3:
                rng.shuffle(idx)
            out[d] = [dict(stem=i, round={px: ppm() for px in pxs}) for i in idx]
        return out

    font["ppems"] = maybe(0.7, lambda: recs([2, 3, 4, 5]))
    font["ppem1"] = maybe(0.7, lambda: recs([1]))
    font["zones"] = maybe(0.75, lambda: {d: [dict(position=rng.randint(-300, 900), value=rng.randint(-40, 40), name=rng.choice(names))
                                            for _ in range(rng.randint(0, 4))] for d in ("ttZonesT", "ttZonesB")})
    z = font["zones"] or dict(ttZonesT=[], ttZonesB=[])
    nz = {"T": len(z["ttZonesT"]), "B": len(z["ttZonesB"])}
    tot = nz["T"] + nz["B"]
    font["deltas"] = maybe(0.6, lambda: {i: {rng.randint(1, 250): rng.randint(-8, 8) for _ in range(rng.randint(1, 4))}
                                         for i in rng.sample(range(tot), rng.randint(0, tot))})
    font["glyphs"] = [(f"g{i}", [gen_cmd(rng, {"H": n["ttStemsH"], "V": n["ttStemsV"]}, nz) for _ in range(rng.randint(0, 5))])
                      for i in range(rng.randint(0, 4))]
    order = [k for k, _ in KEYS]
    return font, order


# ------------------------------------------------------------------ proofs
def p_program(e):
    """TTGlyphHints.get_tt_glyph_hints: any program, any zones and stems"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.contracts import map_value
    from pyvc.schema import Below, Choice, Const, ListOf, Rec, S32, Text
    from pyvc.terms import I, REG, Str
    from pyvc.values import FDict, FList, SStr
    from specs import tthints
    from specs.entries import TT_COMMANDS
    from vfbLib.ufo.tth import TTGlyphHints

    sizes = {k: z3.Int(f"number of {k}") for k in ("ttZonesT", "ttZonesB", "ttStemsH", "ttStemsV")}
    e.assume(z3.And([n >= 0 for n in sizes.values()]))

    def many(k, val):
        iv = z3.Const(REG.fresh_name("i"), I)
        t = SStr(z3.Function(f"name of {k}", I, Str)(iv))
        return FList((("r", sizes[k], iv, (("e", val(t)),)),))

    zones = FDict(tuple(("e", k, many(k, lambda t: t)) for k in ("ttZonesT", "ttZonesB")))
    stems = FDict(tuple(("e", k, many(k, lambda t: FDict((("e", "name", t),)))) for k in ("ttStemsH", "ttStemsV")))

    def param(code, p):
        if p == "zone":
            return Below(0, sizes["ttZonesT" if code == "AlignTop" else "ttZonesB"])
        if p == "stem":
            return Below(-(2 ** 31), sizes["ttStems" + code[-1]])
        return S32

    cmds = ListOf(Choice(*[Rec(dict(cmd=Const(c), params=Rec({p: param(c, p) for p in ps})))
                           for c, (_, ps) in TT_COMMANDS.items()])).sym("commands")
    e.subject = ()

    class Glyph:
        def get_point_label(self, index, code):
            """the label of the point"""

        name = "g"

    lab = z3.Function("label", I, Str, Str)

    def label(e, a, kw):
        from pyvc.expr import text_term
        from pyvc.terms import zi

        i, c = (e.force(x) for x in a[-2:])
        return SStr(lab(zi(i), text_term(c)))

    def contract(index, code):
        """the label of the point"""

    e.contracts[Glyph.get_point_label] = label
    e.contracts[contract] = label
    g = e.call(Glyph, [])
    h = e.call(TTGlyphHints, [g, cmds, zones, stems])
    got = e.call(e.getattr(h, "get_tt_glyph_hints"), [])
    want = e.call(tthints.program, [cmds, zones, stems, contract])
    Comparer(e, "program").value(got, want)


def p_rounds(e, keys):
    """transform_stem_rounds: the size of every pixel width, whatever the sizes are"""
    from pyvc.compare import Comparer
    from pyvc.schema import S32
    from pyvc.values import FDict
    from specs import tthints
    from vfbLib.ufo.tth import transform_stem_rounds

    d = FDict(tuple(("e", k, S32.sym(f"size {k}")) for k in keys))
    e.subject = ()
    sizes = [x[2] for x in d.ents]
    for i, a in enumerate(sizes):
        for b in sizes[:i]:
            e.branch(a == b)
    got = e.call(transform_stem_rounds, [d, "stem"])
    Comparer(e, "sizes").value(got, e.call(tthints.rounding, [d]))


def p_xml(e):
    """get_xml_tth, tt_cmd_dict_to_xml: one line per command, nothing left out"""
    import html

    from pyvc.compare import Comparer
    from pyvc.expr import text_term
    from pyvc.schema import Choice, Const, ListOf, OneOf, Rec, S32, Text
    from pyvc.terms import Str
    from pyvc.values import SStr
    from specs import tthints
    from specs.entries import TT_COMMANDS
    from vfbLib.ufo.tth import get_xml_tth
    import z3

    esc = z3.Function("html.escape", Str, Str)

    def escape(e, a, kw):
        from pyvc.values import FmtStr

        t = e.force(a[0])
        if isinstance(t, str):
            return html.escape(t)
        if isinstance(t, FmtStr):
            return t  # decimal digits and sign
        return SStr(esc(text_term(t)))

    e.contracts[html.escape] = escape
    e.assumptions.add("html.escape: a function of the text, numbers are not changed by it")
    shapes = []
    for c, (_, ps) in TT_COMMANDS.items():
        f = dict(code=Const(tthints.CODES[c]))
        for k in ("pti", "pt", "pt1", "pt2"):
            if k in ps:
                f[tthints.POINTS[k]] = Text()
        if "zone" in ps:
            f["zone"] = Text()
        if "stem" in ps:
            f.update(round=Const(True), stem=Text())
        if "align" in ps:
            f["align"] = OneOf(*tthints.ALIGN.values())
        if "shift" in ps:
            f.update(delta=S32, ppm1=S32, ppm2=S32)
        shapes.append(Rec(f, optional=("round", "stem", "align")))
    cmds = ListOf(Choice(*shapes)).sym("commands")
    e.subject = ()
    got = e.call(get_xml_tth, [cmds])
    Comparer(e, "xml").value(got, e.call(tthints.xml, [cmds, html.escape]))


TT_LIB_KEY = "com.fontlab.v2.tth"


def hinting_builder(e, **attrs):
    """a VfbToUfoBuilder in any state"""
    from pyvc.values import HInst
    from vfbLib.ufo.builder import VfbToUfoBuilder

    b = e.alloc(HInst(VfbToUfoBuilder))
    for a, v in attrs.items():
        e.setattr(b, a, v)
    return b


def symbolic_zones():
    from pyvc.schema import ListOf, Rec, S32, Text

    return {d: ListOf(Rec(dict(position=S32, value=S32, name=Text()))).sym(d) for d in ("ttZonesB", "ttZonesT")}


def list_now(e, ref):
    """sets the list to an unknown one -> its items"""
    from pyvc.values import HList

    items = unknown_list(e, "items")
    e.heap[ref.id] = HList(items)
    return items


def p_zones(e):
    """VfbToUfoBuilder.set_tt_zones, any zones: each is added under a name of its own, in the
    order of bottom and top zones. Invariant: the names so far are those of the zones so far"""
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.values import FDict, HList

    data = symbolic_zones()
    e.subject = ()
    order = e.alloc(HList(()))
    b = hinting_builder(e, tt_zones=some_names(e), tt_zone_names=order)

    def invariant(d):
        def initially(e, fr):
            mine = e.getitem(e.getattr(b, "zone_names"), d)
            Comparer(e, "no zones of the direction at first").value(mine, [])
            if d == "ttZonesB":
                Comparer(e, "no zones at first").value(e.getattr(b, "tt_zone_names"), [])
            other = e.getitem(e.getattr(b, "zone_names"), "ttZonesB" if d == "ttZonesT" else "ttZonesT")
            now[d] = tuple(e.seq_of(other))

        def arbitrary(e, fr, k):
            names = some_names(e)
            e.setattr(b, "tt_zones", names)
            mine = e.getitem(e.getattr(b, "zone_names"), d)
            every = e.getattr(b, "tt_zone_names")
            state = names, list_now(e, mine), list_now(e, every)
            return state, {names.id, e.getattr(names, "log").id, mine.id, every.id}, {(b.id, "tt_zones")}

        def step(e, fr, k, state):
            names, mine, every = state
            zone = e.getitem(data[d], k)
            e.prove("the zones are kept", e.getattr(b, "tt_zones") == names)
            got = one_new_name(e, names, e.getattr(b, "tt_zone_names"), every, e.force(e.getitem(zone, "name")),
                               "a zone")
            if got is None:
                return
            last_is(e, e.getitem(e.getattr(b, "zone_names"), d), mine, got[0], "a zone in its direction")
            Comparer(e, "the zone").value(got[1], FDict((
                ("e", "position", e.getitem(zone, "position")), ("e", "top", d == "ttZonesT"),
                ("e", "width", e.getitem(zone, "value")))))

        return Invariant(e.length(data[d]), (), initially, arbitrary, step)

    now = {}
    e.invariants = [invariant(d) for d in ("ttZonesB", "ttZonesT")]
    e.call(e.getattr(b, "set_tt_zones"), [FDict(tuple(("e", d, data[d]) for d in data))])
    names = e.invariants[1].final
    e.prove("the zones are kept", e.getattr(b, "tt_zones") == names[0])
    for d, inv in zip(("ttZonesB", "ttZonesT"), e.invariants):
        e.prove(f"the names of {d}", tuple(settled(e, e.getitem(e.getattr(b, "zone_names"), d))) == tuple(inv.final[1]))
    e.prove("the order of the zones", tuple(settled(e, e.getattr(b, "tt_zone_names"))) == tuple(names[2]))


def p_zones_export(e, what):
    """extract_tt_zones and extract_tt_stems, any zones and stems: each is added under a name of
    its own, in their order"""
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import ListOf, Rec, S32, Text
    from pyvc.values import FDict, HDict, HList
    from specs.abstract import Log, NameSet
    from vfbLib import tth

    stems = what == "stems"
    ds = ("ttStemsV", "ttStemsH") if stems else ("ttZonesT", "ttZonesB")
    if stems:
        rec = Rec(dict(value=S32, name=Text(), round=Rec({6: S32})))
    else:
        rec = Rec(dict(position=S32, value=S32, name=Text()))
    data = {d: ListOf(rec).sym(d) for d in ds}
    e.subject = ()
    target = e.alloc(HDict(()))
    logs = {d: log_dict(e) for d in ds}
    local = "stem_names" if stems else "zone_names_global"

    def want(d, r, key):
        f = [("e", "name", key), ("e", "width", e.getitem(r, "value"))]
        if stems:
            f += [("e", "round", e.getitem(r, "round")), ("e", "horizontal", d == "ttStemsV")]
        else:
            f += [("e", "position", e.getitem(r, "position")), ("e", "top", d == "ttZonesT")]
        return FDict(tuple(f))

    def invariant(d):
        def initially(e, fr):
            if d == ds[0]:
                e.prove("no names at first", zi(e.length(fr.locals[local])) == 0)
                for x in ds:
                    Comparer(e, "nothing at first").value(e.getitem(e.getitem(target, what), x), [])
                    if not stems:
                        e.prove("no names at first", settled(e, e.getattr(logs[x], "log")) == ())

        def arbitrary(e, fr, k):
            names = some_names(e, cls=NameSet)
            fr.locals[local] = names
            mine = e.getitem(e.getitem(target, what), d)
            state = [names, list_now(e, mine)]
            objs = {names.id, e.getattr(names, "log").id, mine.id}
            if not stems:
                log = e.getattr(logs[d], "log")
                state.append(list_now(e, log))
                objs.add(log.id)
            return state, objs, set()

        def step(e, fr, k, state):
            names, mine, *log = state
            r = e.getitem(data[d], k)
            e.prove("the names are kept", fr.locals[local] == names)
            got = added(e, names, what)
            if got is None:
                return
            own_name(e, names, got[0], e.force(e.getitem(r, "name")), what)
            seq = settled(e, e.getitem(e.getitem(target, what), d))
            if e.prove(f"{what}: one is added", len(seq) == len(mine) + 1 and tuple(seq[:-1]) == tuple(mine)
                       and seq[-1][0] == "e"):
                new = seq[-1][1]
                e.prove(f"{what}: the name", text_key(e.force(e.getitem(new, "name"))) == text_key(got[0]))
                Comparer(e, what).value(new, want(d, r, e.getitem(new, "name")))
            if log:
                seq = settled(e, e.getattr(logs[d], "log"))
                if e.prove(f"{what}: one name is noted", len(seq) == len(log[0]) + 1 and
                           tuple(seq[:-1]) == tuple(log[0]) and seq[-1][0] == "e"):
                    i, name = e.force(seq[-1][1])
                    e.prove(f"{what}: the index of the name", zi(i) == k)
                    e.prove(f"{what}: the name noted", text_key(e.force(name)) == text_key(got[0]))

        return Invariant(e.length(data[d]), (local,), initially, arbitrary, step)

    e.invariants = [invariant(d) for d in ds]
    d = FDict(tuple(("e", d, data[d]) for d in ds))
    if stems:
        e.call(tth.extract_tt_stems, [d, target])
    else:
        e.call(tth.extract_tt_zones, [d, target, FDict(tuple(("e", x, logs[x]) for x in ds))])
    for d, inv in zip(ds, e.invariants):
        e.prove(f"the {what} of {d}", tuple(settled(e, e.getitem(e.getitem(target, what), d))) == tuple(inv.final[1]))


def opaque(e, what):
    """a value about which nothing is known"""
    import z3
    from pyvc.terms import I, REG
    from pyvc.values import FObj
    from specs.abstract import Datum

    return FObj(Datum, (("what", what), ("number", z3.Const(REG.fresh_name(what), I))))


def delta_table(size):
    from pyvc.schema import Below, DictOf, S32

    return DictOf(Below(0, size), DictOf(S32, S32)).sym("deltas")


def as_texts(e, table):
    return e.call(tthints.text_keys, [table])


def p_deltas(e):
    """VfbToUfoBuilder.set_tt_zone_deltas: the deltas of every zone are those of its index.
    Invariant: the zone of any name has the deltas of the last of the indices so far that
    stands for it"""
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.spots import spot
    from pyvc.values import FDict, HDict

    key = unknown_text(e)
    base = (("e", "position", opaque(e, "position")), ("e", "top", opaque(e, "top")),
            ("e", "width", opaque(e, "width")))
    zone = e.alloc(HDict(base))
    names = unknown_list(e, "names")
    b = hinting_builder(e, tt_zones=spot(e, key, lambda: log_dict(e), True, zone),
                        tt_zone_names=FList(names))
    data = delta_table(e.length(FList(names)))
    _, n, iv, ents = data.ents[0]

    def initially(e, fr):
        Comparer(e, "no deltas at first").value(zone, FDict(base))

    def arbitrary(e, fr, k):
        now = base
        if e.choose_free(2):
            now += (("e", "delta", opaque(e, "delta")),)
        e.heap[zone.id] = HDict(now)
        return now, {zone.id}, set()

    def step(e, fr, k, now):
        index, table = (vsubst(x, [(iv, k)]) for x in ents[0][1:])
        if e.branch(e.force(e.getitem(FList(names), index)).t == key.t):
            now = base + (("e", "delta", as_texts(e, table)),)
        Comparer(e, "the zone").value(zone, FDict(now))

    inv = Invariant(n, (), initially, arbitrary, step)
    e.invariants = [inv]
    e.call(e.getattr(b, "set_tt_zone_deltas"), [data])
    Comparer(e, "the zone").value(zone, FDict(inv.final))


STEM_DIRECTIONS = ("ttStemsH", "ttStemsV")


def size_at(e, ppm, what):
    """pixel widths by size, seen at one size -> (the dict, is there a width, the width)"""
    import z3
    from pyvc.spots import spot

    def same(e, k):
        k = e.force(k)
        if isinstance(k, FmtStr) and len(k.parts) == 1 and isinstance(k.parts[0], tuple) and \
                k.parts[0][0] == "v" and tuple(k.parts[0][2:]) == (-1, ""):
            return zi(k.parts[0][1]) == ppm
        if isinstance(k, str) and re.fullmatch(r"-?\d+", k):
            return zi(int(k)) == ppm
        raise Unsupported("key of the pixel widths")

    present = z3.Const(REG.fresh_name(f"{what} has the size"), z3.BoolSort())
    value = z3.Const(REG.fresh_name(f"{what} at the size"), I)
    return spot(e, None, lambda: z3.Const(REG.fresh_name("width"), I), present, value, same=same), present, value


def p_ppms(e):
    """VfbToUfoBuilder.set_tt_stem_ppms: a record for every stem of the entry"""
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, Rec, S32
    from pyvc.values import FObj
    from specs.abstract import Datum
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.ufo.tth import transform_stem_rounds

    rec = Rec(dict(stem=S32, round=Rec({k: S32 for k in (2, 3, 4, 5)})))
    data = FDict(tuple(("e", d, ListOf(rec).sym(d)) for d in STEM_DIRECTIONS))
    e.subject = ()

    def rounds(e, a, kw):
        r = a[0] if a else kw["data"]
        return FObj(Datum, tuple((f"size of {k}", e.getitem(r, k)) for k in (2, 3, 4, 5)))

    def contract(r):
        """the widths by size"""

    e.contracts[transform_stem_rounds] = e.contracts[contract] = rounds
    b = hinting_builder(e)
    lists = {}
    for d in STEM_DIRECTIONS:
        lists[d] = e.alloc(HList(()))
    e.setattr(b, "stem_ppms", FDict(tuple(("e", d, lists[d]) for d in lists)))
    e.call(e.getattr(b, "set_tt_stem_ppms"), [data])
    for d in STEM_DIRECTIONS:
        Comparer(e, f"records of {d}").value(lists[d], e.call(tthints.stem_records, [e.getitem(data, d), contract]))


def p_record(e):
    """VfbToUfoBuilder.get_tt_stem_ppms: the record of the stem, which is made if there is none"""
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, Rec, S32

    d = STEM_DIRECTIONS[e.choose_free(2)]
    records = ListOf(Rec(dict(stem=S32, round=S32))).sym("records")
    mine = e.alloc(HList(records.seq))
    other = e.alloc(HList(()))
    e.subject = ()
    b = hinting_builder(e, stem_ppms=FDict(tuple(("e", x, mine if x == d else other) for x in STEM_DIRECTIONS)))
    index = S32.sym("index")
    got = e.call(e.getattr(b, "get_tt_stem_ppms"), [d, index])
    want = e.call(tthints.record_of, [records, index])
    Comparer(e, "no record of the other direction").value(other, FList(()))
    if want is None:
        new = FDict((("e", "stem", index), ("e", "round", FDict(()))))
        Comparer(e, "a new record").value(got, new)
        seq = settled(e, mine)
        if e.prove("the record is kept", len(seq) == 2 and seq[-1][0] == "e" and e.force(seq[-1][1]) == got):
            Comparer(e, "the other records").value(FList(seq[:-1]), records)
    else:
        Comparer(e, "the record of the stem").value(got, want)
        Comparer(e, "the records").value(mine, records)


def p_ppm1(e):
    """VfbToUfoBuilder.set_tt_stem_ppms_1: the width of 1 pixel is added to every stem, for its size
    unless that has another width already. Invariant: of the width of any stem at any size"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import ListOf, Rec, S32
    from vfbLib.ufo.builder import VfbToUfoBuilder

    ppm, stem = z3.Ints("the_size the_stem")
    mine = STEM_DIRECTIONS[e.choose_free(2)]
    round_, present0, value0 = size_at(e, ppm, "the stem")
    record = e.alloc(HDict((("e", "stem", stem), ("e", "round", round_))))
    data = {d: ListOf(Rec(dict(stem=S32, round=Rec({1: S32})))).sym(d) for d in STEM_DIRECTIONS}
    e.subject = ()

    def find(e, a, kw):
        d, i = (list(a) + [kw[x] for x in ("direction", "index") if x in kw])[-2:]
        if d == mine and e.branch(zi(e.force(i)) == stem):
            return record
        other = size_at(e, ppm, "another stem")[0]
        return e.alloc(HDict((("e", "stem", i), ("e", "round", other))))

    e.contracts[VfbToUfoBuilder.get_tt_stem_ppms] = find
    b = hinting_builder(e)

    def state():
        return e.getattr(round_, "present"), e.getattr(round_, "value")

    def initially(e, fr):
        spot_is(e, "nothing is changed at first", round_, present0, value0)

    def arbitrary(e, fr, k):
        present = z3.Const(REG.fresh_name("has the size"), z3.BoolSort())
        value = z3.Const(REG.fresh_name("width"), I)
        e.setattr(round_, "present", present)
        e.setattr(round_, "value", value)
        return (present, value), {round_.id}, set()

    def step(e, fr, k, state):
        present, value = state
        r = e.getitem(data[mine], k)
        here = z3.And(zi(e.getitem(r, "stem")) == stem, zi(e.getitem(e.getitem(r, "round"), 1)) == ppm)
        spot_is(e, "width at a size", round_, z3.Or(present, here),
                value if e.branch(z3.Or(present, z3.Not(here))) else 1)
        e.prove("the widths are those of the stem", e.force(e.getitem(record, "round")) == round_)

    inv = Invariant(e.length(data[mine]), (), initially, arbitrary, step)
    e.invariants = [inv]
    e.call(e.getattr(b, "set_tt_stem_ppms_1"), [FDict(tuple(("e", d, data[d]) for d in data))])
    spot_is(e, "width at a size", round_, *inv.final)


def p_stems(e):
    """VfbToUfoBuilder.set_tt_stems: every stem with its width, its direction, its name and its
    widths by size, of which that of 6 pixels comes from here. Invariant: the list is longer by
    one for each stem so far"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import ListOf, Rec, S32, Text
    from vfbLib.ufo.builder import VfbToUfoBuilder

    ppm = z3.Int("the_size")
    data = {d: ListOf(Rec(dict(value=S32, name=Text(), round=Rec({6: S32})))).sym(d) for d in STEM_DIRECTIONS}
    e.subject = ()
    found = {}

    def find(e, a, kw):
        d, i = (list(a) + [kw[x] for x in ("direction", "index") if x in kw])[-2:]
        round_, present, value = size_at(e, ppm, "the stem")
        found["last"] = d, i, round_, present, value
        return e.alloc(HDict((("e", "stem", i), ("e", "round", round_))))

    e.contracts[VfbToUfoBuilder.get_tt_stem_ppms] = find
    lists = {d: e.alloc(HList(())) for d in STEM_DIRECTIONS}
    b = hinting_builder(e, stems=FDict(tuple(("e", d, lists[d]) for d in lists)))

    def invariant(d):
        def initially(e, fr):
            Comparer(e, "no stems at first").value(lists[d], [])

        def arbitrary(e, fr, k):
            return list_now(e, lists[d]), {lists[d].id}, set()

        def step(e, fr, k, items):
            r = e.getitem(data[d], k)
            seq = settled(e, lists[d])
            if not e.prove("a stem is added", len(seq) == len(items) + 1 and tuple(seq[:-1]) == tuple(items)
                           and seq[-1][0] == "e"):
                return
            new = e.force(seq[-1][1])
            fd, fi, round_, present, value = found["last"]
            e.prove("the widths of the stem", fd == d)
            e.prove("the widths of the stem", zi(e.force(fi)) == k)
            got = e.force(e.getitem(new, "round"))
            if not e.prove("the widths of the stem", got == round_):
                return
            Comparer(e, "a stem").value(new, FDict((
                ("e", "horizontal", d == "ttStemsV"), ("e", "width", e.getitem(r, "value")),
                ("e", "name", e.getitem(r, "name")), ("e", "round", got))))
            here = zi(e.getitem(e.getitem(r, "round"), 6)) == ppm
            spot_is(e, "width at a size", round_, z3.Or(present, here), 6 if e.branch(here) else value)

        return Invariant(e.length(data[d]), (), initially, arbitrary, step)

    e.invariants = [invariant(d) for d in STEM_DIRECTIONS]
    e.call(e.getattr(b, "set_tt_stems"), [FDict(tuple(("e", d, data[d]) for d in data))])
    for d, inv in zip(STEM_DIRECTIONS, e.invariants):
        e.prove(f"the stems of {d}", settled(e, lists[d]) == tuple(inv.final))


def p_stems_lib(e):
    """VfbToUfoBuilder.build_tt_stems_lib: every stem is added under a name of its own, which it
    gets in the list too; its own name if that is free. Invariant: the names so far are those of
    the stems so far"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.terms import Str
    from pyvc.values import FObj, HInst, SStr
    from specs.abstract import Record

    changes = e.alloc(HList(()))
    sizes = {d: z3.Int(f"number of {d}") for d in STEM_DIRECTIONS}
    e.assume(z3.And([n >= 0 for n in sizes.values()]))
    rest = ("horizontal", "width", "round")

    def stem(d, k):
        f = {x: FObj(Datum, (("what", x), ("of", d), ("number", k))) for x in rest}
        f["name"] = SStr(z3.Function(f"name of {d}", I, Str)(k))
        return FObj(Record, (("d", d), ("k", k), *f.items()))

    from specs.abstract import Datum

    def item(e, a, kw):
        return dict(e.force(a[0]).attrs)[a[1]]

    def change(e, a, kw):
        e.call(e.getattr(changes, "append"), [(e.force(a[0]), a[1], a[2])])

    def items(e, a, kw):
        return FList(tuple(("e", x) for x in e.force(a[0]).attrs[2:]))

    e.contracts[Record.__getitem__] = item
    e.contracts[Record.__setitem__] = change
    e.contracts[Record.items] = items
    many = {}
    for d in STEM_DIRECTIONS:
        iv = z3.Const(REG.fresh_name("i"), I)
        many[d] = FList((("r", sizes[d], iv, (("e", stem(d, iv)),)),))
    lib = e.alloc(HDict((("e", TT_LIB_KEY, e.alloc(HDict(()))),)))
    b = hinting_builder(e, stems=FDict(tuple(("e", d, many[d]) for d in many)), lib=lib)

    def before(d, k):
        return zi(k) if d == STEM_DIRECTIONS[0] else sizes[STEM_DIRECTIONS[0]] + zi(k)

    def invariant(d):
        def initially(e, fr):
            if d == STEM_DIRECTIONS[0]:
                Comparer(e, "no stems at first").value(fr.locals["lib"], {})
                e.prove("no names are changed at first", settled(e, changes) == ())
            else:
                e.prove("the stems of the other direction", fr.locals["lib"] == e.invariants[0].final[0])

        def arbitrary(e, fr, k):
            names = some_names(e, size=before(d, k))
            fr.locals["lib"] = names
            i = z3.Const(REG.fresh_name("number"), I)
            e.assume(i >= 0)
            if "i" in fr.locals:
                fr.locals["i"] = i
            return (names, list_now(e, changes)), {names.id, e.getattr(names, "log").id, changes.id}, set()

        def step(e, fr, k, state):
            names, old = state
            e.prove("the stems are kept", fr.locals["lib"] == names)
            got = added(e, names, "a stem")
            if got is None:
                return
            key, value = got
            x = stem(d, k)
            Comparer(e, "a stem").value(value, FDict(tuple(("e", y, dict(x.attrs)[y]) for y in rest)))
            seq = settled(e, changes)
            name = dict(x.attrs)["name"]
            if e.prove("its name in the list is changed", len(seq) == len(old) + 1 and
                       tuple(seq[:-1]) == tuple(old) and seq[-1][0] == "e"):
                r, y, v = e.force(seq[-1][1])
                e.prove("the stem itself is changed", y == "name" and synt_eq(r, x))
                e.prove("the name in the list", text_key(e.force(v)) == text_key(key))
            if not e.branch(e.eq(name, "")):
                own_name(e, names, key, name, "a stem")

        return Invariant(sizes[d], ("lib", "i"), initially, arbitrary, step)

    from pyvc.engine import synt_eq

    e.invariants = [invariant(d) for d in STEM_DIRECTIONS]
    e.call(e.getattr(b, "build_tt_stems_lib"), [])
    mine = e.getitem(lib, TT_LIB_KEY)
    if e.branch(sizes[STEM_DIRECTIONS[0]] + sizes[STEM_DIRECTIONS[1]] > 0):
        if e.prove("the stems are in the lib", zb(e.contains(mine, "stems"))):
            e.prove("the stems are in the lib", e.force(e.getitem(mine, "stems")) == e.invariants[1].final[0])
    else:
        e.prove("no stems in the lib", z3.Not(zb(e.contains(mine, "stems"))))


def any_dict(e):
    from pyvc.values import HInst
    from specs.abstract import AnyDict

    return e.alloc(HInst(AnyDict))


def index_spot(e, index, present, value):
    """a dict with numbers as keys, seen at one of them"""
    from pyvc.spots import spot

    return spot(e, None, lambda: any_dict(e), present, value, same=lambda e, k: zi(e.force(k)) == index)


def p_ppem_export(e, one):
    """extract_tt_stem_ppems, extract_tt_stem_ppem_1: the widths of every stem of the entry.
    Invariant: of the widths of any stem"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import ListOf, Rec, S32
    from vfbLib import tth

    ds = ("ttStemsV", "ttStemsH")
    index = z3.Int("the_stem")
    mine = ds[e.choose_free(2)]
    there = [d for d in ds if e.choose_free(2)]
    rec = Rec(dict(stem=S32, round=Rec({k: S32 for k in ((1,) if one else (2, 3, 4, 5))})))
    data = {d: ListOf(rec).sym(d) for d in there}
    e.subject = ()
    base = FDict(tuple(("e", k, opaque(e, f"size of {k}")) for k in (2, 3, 4, 5)))

    def some():
        """-> (is there an entry, its content)"""
        i = e.choose_free(3 if one else 2)
        return (False, None) if i == 0 else (True, base) if i == 1 else (
            True, FDict((*(base.ents if e.choose_free(2) else ()), ("e", 1, opaque(e, "size of 1")))))

    def content(x):
        return None if x is None else e.alloc(HDict(x.ents))

    state0 = some()
    focus = index_spot(e, index, state0[0], content(state0[1]))
    target = FDict(tuple(("e", d, focus if d == mine else any_dict(e)) for d in ds))

    def holds(present, value):
        got = e.getattr(focus, "present")
        if e.prove("is there an entry", zb(got) == present) and present:
            Comparer(e, "widths of the stem").value(e.getattr(focus, "value"), value)

    def initially(e, fr):
        holds(*state0)

    def arbitrary(e, fr, k):
        present, value = some()
        ref = content(value)
        e.setattr(focus, "present", present)
        e.setattr(focus, "value", ref)
        return (present, value), {focus.id} | ({ref.id} if ref else set()), set()

    def step(e, fr, k, state):
        present, value = state
        r = e.getitem(data[mine], k)
        if e.branch(zi(e.getitem(r, "stem")) == index):
            new = e.getitem(r, "round")
            if one:
                old = value.ents if present else ()
                new = FDict((*[x for x in old if x[1] != 1], ("e", 1, e.getitem(new, 1))))
            present, value = True, new
        holds(present, value)

    if mine in there:
        e.invariants = [Invariant(e.length(data[mine]), (), initially, arbitrary, step)]
    e.call(tth.extract_tt_stem_ppem_1 if one else tth.extract_tt_stem_ppems,
           [FDict(tuple(("e", d, data[d]) for d in there)), target])
    holds(*(e.invariants[0].final if mine in there else state0))


def zone_list(e, what, focus, side, sides):
    """lists of records with different names, one of which is looked at
    -> ({side: list}, {side: size}, place of the record, its name)"""
    import z3
    from pyvc.terms import Str
    from pyvc.values import FObj, SStr
    from specs.abstract import Record

    place = z3.Int("place")
    key = z3.Const("the_name", Str)
    sizes = {s: z3.Int(f"number of {s}") for s in sides}
    e.assume(z3.And([n >= 0 for n in sizes.values()]))
    e.assume(z3.And(place >= 0, place < sizes[side]))
    lists = {}
    for s in sides:
        def run(n, first, s=s):
            i = z3.Const(REG.fresh_name("i"), I)
            name = z3.Function(f"other name of {s}", I, Str)(i + first)
            return ("r", n, i, (("e", FObj(Record, (("name", SStr(name)), ("place", i + first)))),))

        REG.on(f"other name of {s}", lambda a: [a != key])
        if s == side:
            seq = run(place, 0), ("e", focus), run(simp(sizes[s] - place - 1), place + 1)
        else:
            seq = (run(sizes[s], 0),)
        lists[s] = e.alloc(HList(seq))
    e.assumptions.add(f"{what} have different names (proved of the function that makes them)")

    def item(e, a, kw):
        if a[1] == "name":
            return dict(e.force(a[0]).attrs)["name"]
        if a[1] == "round":
            return any_dict(e)
        raise Unsupported("part of a record")

    e.contracts[Record.__getitem__] = item
    e.contracts[Record.__setitem__] = lambda e, a, kw: None

    def duplicate(e, a, kw):
        x = e.force(a[0])
        return any_dict(e) if isinstance(x, FObj) and x.cls is Record else nf_deepcopy(e, *a, **kw)

    e.contracts[copy.deepcopy] = duplicate
    return lists, sizes, place, SStr(key)


def merged(e, local, lists, key):
    """invariants of the loops over the other records: the entry of the record is kept"""
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.invariants import Invariant
    from pyvc.spots import spot

    def invariant(n):
        def initially(e, fr):
            got = e.force(fr.locals[local])
            if isinstance(e.get(got), HDict):
                Comparer(e, "nothing at first").value(got, {})

        def arbitrary(e, fr, k):
            s = e.force(fr.locals[local])
            if isinstance(e.get(s), HDict):
                s = fr.locals[local] = spot(e, key, lambda: any_dict(e), False, None)
            return (s, e.getattr(s, "present"), e.getattr(s, "value")), {s.id}, set()

        def step(e, fr, k, state):
            s, present, value = state
            e.prove("the dict is kept", fr.locals[local] == s)
            e.prove("the entry of the record is kept", zb(e.getattr(s, "present")) == zb(present))
            e.prove("the entry of the record is kept", synt_eq(e.getattr(s, "value"), value))

        return Invariant(n, (local,), initially, arbitrary, step)

    return [invariant(x[1]) for r in lists for x in e.seq_of(r) if x[0] == "r"]


def p_merge_zones(e):
    """merge_zone_information: for any zone, its fields and the deltas of its index. Invariants:
    the deltas of the zone are those of the last index so far that is its own; the entry of the
    zone is the one that it has been given"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import DictOf, Int, S32
    from vfbLib.tth import merge_zone_information

    sides = ("ttZonesB", "ttZonesT")
    side = sides[e.choose_free(2)]
    base = tuple(("e", x, opaque(e, x)) for x in ("position", "top", "width"))
    zone = e.alloc(HDict(base))
    lists, sizes, place, key = zone_list(e, "zones", zone, side, sides)
    e.heap[zone.id] = HDict((("e", "name", key),) + base)
    number = place if side == "ttZonesB" else sizes["ttZonesB"] + place
    font = e.alloc(HDict((("e", "zones", e.alloc(HDict(tuple(("e", s, lists[s]) for s in sides)))),)))
    deltas = bool(e.choose_free(2))
    inv = []
    if deltas:
        data = DictOf(Int(0, 2**16), DictOf(S32, S32)).sym("deltas")
        _, n, iv, ents = data.ents[0]
        e.setitem(font, "zone_deltas", data)
        total = sizes["ttZonesB"] + sizes["ttZonesT"]

        def initially(e, fr):
            Comparer(e, "no deltas at first").value(zone, FDict((("e", "name", key),) + base))

        def arbitrary(e, fr, k):
            now = (("e", "name", key),) + base
            if e.choose_free(2):
                now += (("e", "deltas", opaque(e, "deltas")),)
            e.heap[zone.id] = HDict(now)
            if k is not n:
                e.assume(vsubst(ents[0][1], [(iv, k)]) < total)
            return now, {zone.id}, set()

        def step(e, fr, k, now):
            index, table = (vsubst(x, [(iv, k)]) for x in ents[0][1:])
            if e.branch(index == number):
                now = (("e", "name", key),) + base + (("e", "deltas", e.call(tthints.sorted_text_keys, [table])),)
            Comparer(e, "the zone").value(zone, FDict(now))

        inv = [Invariant(n, (), initially, arbitrary, step)]
    e.subject = ()
    e.invariants = inv + merged(e, "zones_dict", [lists[s] for s in sides], key)
    e.call(merge_zone_information, [font])
    now = inv[0].final[1:] if inv else base
    got = e.getitem(font, "zones")
    spot_is(e, "the zone", got, True, FDict(now))
    e.prove("no deltas of their own", z3.Not(zb(e.contains(font, "zone_deltas"))))


def p_merge_stems(e):
    """merge_stem_information: for any stem, its fields and the widths that both entries have for
    its index"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.terms import Str
    from pyvc.values import SStr
    from vfbLib.tth import merge_stem_information
    from vfbLib.ufo.tth import transform_stem_rounds

    sides = ("ttStemsV", "ttStemsH")
    side = sides[e.choose_free(2)]
    base = tuple(("e", x, opaque(e, x)) for x in ("width", "horizontal"))
    stem = e.alloc(HDict(base))
    lists, sizes, place, key = zone_list(e, "stems", stem, side, sides)
    six = opaque(e, "size of 6")
    own = e.alloc(HDict((("e", 6, six),)))
    e.heap[stem.id] = HDict((("e", "name", key), ("e", "round", own)) + base)
    font = e.alloc(HDict((("e", "stems", e.alloc(HDict(tuple(("e", s, lists[s]) for s in sides)))),)))
    case = e.choose_free(4)
    more = tuple(("e", k, opaque(e, f"size of {k}")) for k in ((), (2, 3, 4, 5), (1,), (2, 3, 4, 5, 1))[case])
    focus = index_spot(e, place, case > 0, e.alloc(HDict(more)) if case else None)
    other = index_spot(e, z3.IntVal(-1), False, None)
    data = FDict(tuple(("e", s, focus if s == side else other) for s in sides))
    j = z3.Const(REG.fresh_name("i"), I)
    n = z3.Int("number of sizes")
    e.assume(n > 0)
    sizes_ = FDict((("r", n, j, (("e", SStr(z3.Function("size", I, Str)(j)), z3.Function("width", I, I)(j)),)),))

    def rounds(e, a, kw):
        if not (isinstance(a[0], Ref) and isinstance(e.get(a[0]), HDict)):
            return FDict((("e", "1", 1),))
        Comparer(e, "the widths of the stem").value(a[0], FDict((("e", 6, six),) + more))
        return sizes_

    e.contracts[transform_stem_rounds] = rounds
    e.subject = ()
    e.invariants = merged(e, "stems_dict", [lists[s] for s in sides], key)
    e.call(merge_stem_information, [data, font])
    got = e.getitem(font, "stems")
    want = e.call(tthints.by_width, [sizes_])
    spot_is(e, "the stem", got, True, FDict(base + (("e", "round", want),)))


def p_merge_none(e, name):
    """no stems or zones at all"""
    from pyvc.compare import Comparer
    from vfbLib import tth

    lists = FDict(tuple(("e", d, FList(())) for d in (
        ("ttStemsV", "ttStemsH") if name == "stems" else ("ttZonesB", "ttZonesT"))))
    ents = (("e", "gasp", 1),) + ((("e", name, lists),) if e.choose_free(2) else ())
    if name == "zones" and e.choose_free(2):
        ents += (("e", "zone_deltas", FDict(())),)
    font = e.alloc(HDict(ents))
    if name == "stems":
        data = FDict(tuple(("e", d, index_spot(e, zi(0), True, e.alloc(HDict(())))) for d in ("ttStemsV", "ttStemsH")))
        e.call(tth.merge_stem_information, [data, font])
    else:
        e.call(tth.merge_zone_information, [font])
    Comparer(e, "nothing is listed").value(font, FDict((("e", "gasp", 1),)))


def p_label(e):
    """VfbToUfoGlyph.get_point_label of a glyph with an outline: the label of the point if it has
    one, the side bearings, or a new label, which no other point has"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.spots import spot
    from pyvc.values import HInst
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.vfb2ufo import vfb2ufo_label_codes

    codes = sorted(vfb2ufo_label_codes)
    code = codes[e.choose_free(len(codes))]
    index = z3.Int("index")
    e.assume(index >= 0)
    size = z3.Int("nodes")
    e.assume(size >= 0)
    old = unknown_text(e)
    has_label = z3.Bool("has a label")
    points = spot(e, None, lambda: unknown_text(e), has_label, old, same=lambda e, k: zi(e.force(k)) == index)
    labels = some_names(e)
    g = e.alloc(HInst(VfbToUfoGlyph))
    iv = z3.Const(REG.fresh_name("i"), I)
    for a, v in dict(mm_components=FList(()), mm_nodes=FList((("r", size, iv, (("e", iv),)),)), labels=labels,
                     point_labels=points, builder=None, name="g").items():
        e.setattr(g, a, v)
    got = e.force(e.call(e.getattr(g, "get_point_label"), [index, code]))
    log = settled(e, e.getattr(labels, "log"))
    if not e.branch(z3.Or(has_label, index == size, index == size + 1)):
        new = added(e, labels, "a label")
        if new is None:
            return
        e.prove("the label of the point", text_key(got) == text_key(new[0]))
        e.prove("the point of the label", zi(e.force(new[1])) == index)
        spot_is(e, "the label of the point", points, True, e.getattr(points, "value"))
        e.prove("the label of the point", text_key(e.force(e.getattr(points, "value"))) == text_key(got))
        return
    e.prove("no label is added", log == ())
    spot_is(e, "the label of the point", points, has_label, old)
    if e.branch(has_label):
        Comparer(e, "the label").value(got, old)
    else:
        Comparer(e, "the side bearing").value(got, "lsb" if e.branch(index == size) else "rsb")


def p_label_composite(e, K):
    """VfbToUfoGlyph.get_point_label of a composite of K glyphs: the label of the point in the glyph it
    belongs to, with the number of the component; the side bearings behind all points"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import Str
    from pyvc.values import FDict, FmtStr, HInst, SStr
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.vfb2ufo import vfb2ufo_label_codes

    codes = sorted(vfb2ufo_label_codes)
    code = codes[e.choose_free(len(codes))]
    index = z3.Int("index")
    e.assume(index >= 0)

    def glyph(name, comps, size, builder):
        g = e.alloc(HInst(VfbToUfoGlyph))
        iv = z3.Const(REG.fresh_name("i"), I)
        for a, v in dict(mm_components=FList(tuple(("e", c) for c in comps)), labels=some_names(e), point_labels=FDict(()),
                         mm_nodes=FList((("r", size, iv, (("e", iv),)),) if size is not None else ()),
                         builder=builder, name=name).items():
            e.setattr(g, a, v)
        return g

    order = ["x", "b0", "y", "b1", "b2"]
    gid = {0: 1, 1: 3, 2: 4}
    sizes, bases = [], {}
    for k in range(K):
        n = z3.Int(f"nodes{k}")
        e.assume(n >= 0)
        sizes.append(n)
        bases[f"b{k}"] = glyph(f"b{k}", (), n, None)
    builder = hinting_builder(e, glyphOrder=FList(tuple(("e", x) for x in order)),
                              glyph_masters=FDict(tuple(("e", k, v) for k, v in bases.items())))
    comps = [FDict((("e", "gid", gid[k]),)) for k in range(K)]
    g = glyph("composite", comps, None, builder)
    labels = [z3.Function(f"label of b{k}", I, Str) for k in range(K)]

    def label(e, a, kw):
        ar = dict(zip(("self", "index", "code", "start_count"), a), **kw)
        if ar["self"] == g:
            return e.call_function(VfbToUfoGlyph.get_point_label, a, kw)
        k = next(k for k in range(K) if bases[f"b{k}"] == ar["self"])
        i = zi(e.num(ar["index"]))
        e.prove("kind of the label", ar["code"] == code and ar.get("start_count", 1) == 1)
        e.prove("a point of the component", z3.And(i >= 0, i < sizes[k]))
        return SStr(labels[k](i))

    e.contracts[VfbToUfoGlyph.get_point_label] = label
    got = e.call(e.getattr(g, "get_point_label"), [index, code])
    at = z3.IntVal(0)
    for k in range(K):
        if e.branch(z3.And(index >= at, index < at + sizes[k])):
            want = FmtStr((SStr(labels[k](index - at)), f"-{k}"))
            break
        at = at + sizes[k]
    else:
        if e.branch(index > at + 1):  # no such point
            return
        want = "lsb" if e.branch(index == at) else "rsb"
    Comparer(e, "the label").value(got, want)


ENTRY_KEYS = ["gasp", "ttinfo", "TrueType Zones", "TrueType Stems", "TrueType Stem PPEMs", "TrueType Stem PPEMs 1",
              "stemsnaplimit", "zoneppm", "codeppm", "TrueType Zone Deltas", "Glyph", "PostScript Hints", "Glyph"]


def p_extract(e, keys):
    """extract_truetype_hinting: each entry of the file goes to its function, in the order of the file"""
    import z3
    import vfbLib.tth as T
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, Rec, S32, U16
    from pyvc.values import FDict, HInst, Unsupported
    from specs.abstract import SomeEntry
    from specs.tthints import font_values

    if keys is None:  # each alone
        keys = [ENTRY_KEYS[e.choose_free(len(ENTRY_KEYS))]]
    given, entries = [], []
    for i, k in enumerate(keys):
        if k == "gasp":
            d = ListOf(Rec(dict(maxPpem=U16, flags=U16))).sym(f"d{i}")
        elif k == "ttinfo":
            d = Rec(dict(max_zones=S32, head_lowest_rec_ppem=S32, head_units_per_em=S32),
                    optional=("head_lowest_rec_ppem", "head_units_per_em")).sym(f"d{i}")
        elif k in ("stemsnaplimit", "zoneppm", "codeppm"):
            d = S32.sym(f"d{i}")
        else:
            d = FDict((("e", "entry", i),))
        ent = e.alloc(HInst(SomeEntry))
        e.setattr(ent, "key", k)
        e.setattr(ent, "data", None)
        given.append((k, d, ent))
        entries.append(ent)
    file = e.alloc(HInst(SomeEntry))
    e.setattr(file, "entries", FList(tuple(("e", x) for x in entries)))
    log = []

    def decompile(e, a, kw):
        e.setattr(a[0], "data", next(d for k, d, x in given if x == a[0]))

    e.contracts[SomeEntry.decompile] = decompile
    todo = {"TrueType Stem PPEMs": "extract_tt_stem_ppems", "TrueType Stems": "extract_tt_stems",
            "TrueType Stem PPEMs 1": "extract_tt_stem_ppem_1", "TrueType Zones": "extract_tt_zones",
            "TrueType Zone Deltas": "extract_tt_zone_deltas", "Glyph": "extract_glyph_hints"}
    import inspect

    for name in [*todo.values(), "merge_stem_information", "merge_zone_information"]:
        f = getattr(T, name)

        def record(e, a, kw, name=name, f=f):
            log.append((name, inspect.signature(f).bind(*a, **kw).arguments))

        e.contracts[f] = record
    got = e.call(T.extract_truetype_hinting, [file])
    font, glyphs = e.getitem(got, "font"), e.getitem(got, "glyphs")
    want = [(todo[k], d) for k, d, _ in given if k in todo]
    calls = [x for x in log if not x[0].startswith("merge")]
    e.prove("the functions of the entries, in the order of the file", [x[0] for x in calls] == [x[0] for x in want])
    e.prove("the stems and zones are complete before they are put together",
            sorted(x[0] for x in log[len(calls):]) == ["merge_stem_information", "merge_zone_information"])
    if [x[0] for x in calls] != [x[0] for x in want]:
        return
    rounds, zones = [], []
    for (name, args), (_, d) in zip(calls, want):
        Comparer(e, f"data of {name}").value(args["data"], d)
        if name.startswith("extract_tt_stem_ppem"):
            rounds.append(args["target"])
        elif name == "extract_glyph_hints":
            e.prove("hints of the glyphs", args["target"] == glyphs and args["font_hints"] == font)
            zones.append(args["zone_names"])
        else:
            e.prove(f"target of {name}", args["target"] == font)
            if name == "extract_tt_zones":
                zones.append(args["zone_names"])
    for name, args in log[len(calls):]:
        if name == "merge_stem_information":
            rounds.append(args["data"])
        e.prove(f"target of {name}", args["font"] == font)
    for what, x, k in (("rounding", rounds, "ttStems"), ("zones", zones, "ttZones")):
        e.prove(f"one dict of the {what}", all(y == x[0] for y in x))
        if x:
            Comparer(e, f"{what}, at first").value(x[0], FDict(tuple((("e", k + d, FDict(()))) for d in (
                "VH" if k == "ttStems" else "TB"))))
    part = lambda k: next((d for q, d, _ in given if q == k), None)
    Comparer(e, "values of the font").value(font, e.call(font_values, [
        part(k) for k in ("gasp", "ttinfo", "stemsnaplimit", "zoneppm", "codeppm")] + [FList(tuple(("e", k) for k in keys))]))


def log_dict(e):
    from pyvc.values import HInst, HList
    from specs.abstract import Log

    x = e.alloc(HInst(Log))
    e.setattr(x, "log", e.alloc(HList(())))
    return x


def setup_all(e):
    from pyvc import spots

    spots.setup(e)
    setup_names(e)


def proofs():
    from props.proofs import Proof

    modular = dict(setup=setup_all, modular=True)
    out = [Proof("VfbToUfoBuilder.build_tt_stems_lib", p_stems_lib, **modular),
           Proof("VfbToUfoBuilder.set_tt_stem_ppms", p_ppms, **modular),
           Proof("VfbToUfoBuilder.get_tt_stem_ppms", p_record, **modular),
           Proof("VfbToUfoBuilder.set_tt_stem_ppms_1", p_ppm1, **modular),
           Proof("VfbToUfoBuilder.set_tt_stems", p_stems, **modular),
           Proof("VfbToUfoBuilder.set_tt_zone_deltas", p_deltas, **modular),
           Proof("VfbToUfoBuilder.set_tt_zones", p_zones, **modular),
           Proof("extract_tt_zones", p_zones_export, ("zones",), **modular),
           Proof("VfbToUfoGlyph.get_point_label", p_label, **modular),
           *[Proof(f"VfbToUfoGlyph.get_point_label, composite of {K}", p_label_composite, (K,), **modular) for K in (1, 2, 3)],
           Proof("extract_truetype_hinting, one entry", p_extract, (None,), **modular),
           Proof("extract_truetype_hinting, all entries", p_extract, (ENTRY_KEYS,), **modular),
           Proof("extract_truetype_hinting, other order", p_extract, (ENTRY_KEYS[::-1],), **modular),
           Proof("extract_tt_stem_ppems", p_ppem_export, (False,), **modular),
           Proof("extract_tt_stem_ppem_1", p_ppem_export, (True,), **modular),
           Proof("merge_zone_information", p_merge_zones, **modular),
           Proof("merge_stem_information", p_merge_stems, **modular),
           *[Proof(f"merge of no {x}", p_merge_none, (x,), **modular) for x in ("stems", "zones")],
           Proof("extract_tt_stems", p_zones_export, ("stems",), **modular),
           Proof("TTGlyphHints.get_tt_glyph_hints", p_program), Proof("get_xml_tth", p_xml)]
    for keys in ((6,), (1, 2), (6, 1), (6, 2, 3), (6, 2, 3, 4, 5), (6, 2, 3, 4, 5, 1)):
        out.append(Proof(f"transform_stem_rounds, pixel widths {keys}", p_rounds, (keys,)))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(400, 9000)):
        d = {px: rng.choice([1, 2, 3, rng.randint(1, 400)]) for px in rng.sample(range(1, 7), rng.randint(0, 6))}
        run.case(rounds_contract, d)
    for _ in range(run.n(700, 15000)):
        font, order = gen(rng)
        if rng.random() < 0.3:
            # the entries with the rounding may come in another order
            a = [k for k in order if k in ("ppems", "stems")]
            rng.shuffle(a)
            rest = [k for k in order if k not in a]
            order = a + rest
        run.case(export_contract, font, order, False)
    for _ in range(run.n(200, 3000)):
        run.case(tt_ufo_contract, *gen_ufo(rng))
    for _ in range(run.n(60, 700)):
        font, order = gen(rng)
        font["ttinfo"] = None  # its stored form needs all fields
        for k in ("ppems", "ppem1"):
            for d in font[k] or ():
                # stored without an index
                font[k][d].sort(key=lambda r: r["stem"])
        run.case(export_contract, font, order, True)
    return proofs.finish(run)
