"""Contracts of the entry compilers and parsers.

For every entry type: the domain of its data (precondition), the documented byte layout
(`layout`, a spec function over the data) and the value that decoding these bytes must
give (`expect`, the identity unless stated).  The contracts are

    compile(d)          ensures  the stream holds exactly layout(d)
    parse(layout(d))    ensures  result == expect(d) and all bytes are consumed

for every d in the domain.  Layout functions are plain Python over a writer `w`.
"""
from pyvc.schema import (
    Assembly, Color, Dep,
    COORD, Few, S8, S16, S32, U8, U16, U32, Choice, Const, DictOf, Float, Hex, Int, ListOf,
    Map, OneOf, Rec, Scaled, Slope, Subset, Text, Tup, Filter,
)
from specs.wire import Ctx

ENTRIES = []


class Entry:
    def __init__(self, pid, ids, schema, layout, expect=None, ctxs=None, concrete=None,
                 legal=None, refuse=None, note="", bounded=None, part=None):
        self.pid, self.ids, self.schema, self.layout = pid, ids, schema, layout
        self.expect = expect
        self.ctxs = ctxs or [Ctx()]
        self.concrete = concrete  # concrete-only domain when richer than `schema`
        self.legal = legal
        self.refuse = refuse or []  # values that must be refused by the compiler
        self.note = note
        self.part = part  # a subset of the domain, for the proofs only
        self.bounded = bounded  # reason why only the bounded run applies
        ENTRIES.append(self)

    @property
    def name(self):
        return list(self.ids.values())[0] + (f" [{self.part}]" if self.part else "")


def const(s):
    return lambda ctx: s


MASTERS = [Ctx(M=1), Ctx(M=2), Ctx(M=4), Ctx(M=8), Ctx(M=16)]

# ============================================================================ C06


def l_hex(w, d, ctx):
    w.HEX(d)


Entry("C06", {1: "Block File Data Start", 4: "Block Font Start", 262: "Block Names Start",
              1261: "cvt", 1262: "prep", 1263: "fpgm", 2030: "Font Flags",
              513: "Block Font Info End", 271: "Block MM Font Info Start",
              527: "Block MM Font Info End", 272: "Block MM Kerning Start",
              528: "Block MM Kerning End", 5: "Block Font End", 2: "Block File Data End"},
      const(Hex()), l_hex)


def l_empty(w, d, ctx):
    pass


Entry("C06", {518: "Block Names End", 257: "Block Font Info Start"}, const(Const("")),
      l_empty)


def l_u16(w, d, ctx):
    w.U16(d)


Entry("C06", {1502: "MM Encoding Type", 1503: "Master Count", 1034: "is_fixed_pitch",
              1031: "underline_thickness", 1054: "ms_charset", 1134: "xuid_num",
              1132: "year", 1130: "version_major", 1131: "version_minor", 1135: "upm",
              1090: "fond_id", 1530: "blue_values_num", 1531: "other_blues_num",
              1532: "family_blues_num", 1533: "family_other_blues_num",
              1534: "stem_snap_h_num", 1535: "stem_snap_v_num", 1267: "font_style",
              1057: "pcl_id", 1058: "vp_id", 1060: "ms_id", 1270: "hhea_line_gap",
              1272: "stemsnaplimit", 1274: "zoneppm", 1275: "codeppm",
              1604: "dropoutppm", 2022: "Export PCLT Table", 1513: "Axis Count",
              2012: "mark"},
      const(U16), l_u16, refuse=[-1, 65536, 2**31])


def l_s16(w, d, ctx):
    w.S16(d)


Entry("C06", {1048: "weight_code", 1030: "underline_position", 1278: "hhea_ascender",
              1279: "hhea_descender", 2032: "Measurement Line"},
      const(S16), l_s16, refuse=[32768, -32769, 65535])


def l_s32(w, d, ctx):
    w.S32(d)


Entry("C06", {1044: "unique_id"}, const(S32), l_s32, refuse=[2**31, -(2**31) - 1])


def l_double(w, d, ctx):
    w.D(d)


Entry("C06", {1029: "italic_angle", 1047: "slant_angle"}, const(Float()), l_double)


def l_doubles(w, d, ctx):
    for f in d:
        w.D(f)


Entry("C06", {1517: "weight_vector", 1247: "Primary Instance Locations"},
      const(ListOf(Float())), l_doubles)


def l_panose(w, d, ctx):
    for x in d:
        w.S8(x)


Entry("C06", {1118: "panose"}, const(ListOf(S8, n=10)), l_panose,
      refuse=[[0] * 9, [0] * 11, [128] + [0] * 9])


def l_u32list(w, d, ctx):
    for x in d:
        w.U32(x)


Entry("C06", {1133: "xuid"}, const(ListOf(U32)), l_u32list, refuse=[[-1], [2**32]])


def l_text(w, d, ctx):
    w.S(d)


Entry("C06", {1026: "font_name", 1046: "version", 1038: "notice", 1025: "full_name",
              1027: "family_name", 1024: "pref_family_name", 1056: "menu_name",
              1092: "apple_name", 1028: "weight", 1065: "width", 1069: "License",
              1070: "License URL", 1037: "copyright", 1061: "trademark",
              1062: "designer", 1063: "designer_url", 1064: "vendor_url", 1039: "source",
              1128: "tt_version", 1129: "tt_u_id", 1127: "style_name",
              1137: "pref_style_name", 1139: "mac_compatible", 1140: "Sample Text",
              1059: "pcl_chars_set", 2025: "note", 2016: "customdata",
              1277: "OpenType Class", 1514: "Axis Name", 1504: "Master Name",
              1066: "default_character", 2034: "Custom Dict", 2015: "glyph.customdata",
              2017: "glyph.note"},
      const(Text()), l_text, refuse=["字"])


def l_vendor(w, d, ctx):
    w.SP(d, 4)


Entry("C06", {1121: "vendor"}, const(Text()), l_vendor)


def l_encoding(w, d, ctx):
    gid, name = d
    w.U16(gid)
    w.S(name)


Entry("C06", {1501: "Encoding Default", 1500: "Encoding"}, const(Tup(U16, Text())),
      l_encoding, refuse=[(65536, "a"), (-1, "a")])


def l_bits128(w, d, ctx):
    v = 0
    for b in d:
        v += 2**b
    w.UINT(v, 16)


Entry("C06", {2021: "unicoderanges"}, const(Subset(*range(128))), l_bits128,
      refuse=[[128], [0, 200]])


def l_counted(w, d, ctx):
    w.V(len(d))
    for x in d:
        w.V(x)


Entry("C06", {1068: "Collection"}, const(ListOf(S32, big=(108, 1132))), l_counted,
      refuse=[[2**31], [-(2**31) - 1]])

MACROMAN_EXTRA = "ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»… ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ"


def gen_name(rng, sz):
    mac = rng.random() < 0.4
    if mac:
        plat, enc = 1, 0
        chars = "abzAZ09 .-" + MACROMAN_EXTRA
    else:
        plat, enc = rng.choice([(3, 1), (3, 0), (0, 3), (1, 1), (1, 25), (2, 0)])
        chars = "abzAZ09 äßéЖλ字😀\x01￿"
    n = rng.choice([0, 1, 2, 5, 20, 110])
    return (rng.choice([0, 1, 2, 16, 17, 255, 256, 32767]), plat, enc,
            rng.choice([0, 1033, 1031, 65535]),
            "".join(rng.choice(chars) for _ in range(n)))


def l_names(w, d, ctx):
    w.V(len(d))
    for nameID, platID, encID, langID, name in d:
        w.V(nameID)
        w.V(platID)
        w.V(encID)
        w.V(langID)
        w.V(len(name))
        for ch in name:
            if platID == 1 and encID == 0:
                w.V(ch.encode("mac_roman")[0])
            else:
                w.V(ord(ch))


Entry("C06", {1138: "fontnames"}, None, l_names,
      concrete=const(Map(lambda rng, sz: [gen_name(rng, sz)
                                           for _ in range(rng.randint(0, sz))])),
      bounded="names of more than four characters")


def sym_name(n, mac):
    """names of n characters: those of the Mac Roman encoding, or any"""
    def sym(path, idx):
        from pyvc.schema import Int
        from pyvc.terms import CHR, MACROMAN
        from pyvc.values import FmtStr, SStr

        codes = [Int(0, 255 if mac else 0x10FFFF).sym(f"{path}.c{i}", idx) for i in range(n)]
        chars = [SStr(CHR(MACROMAN(c) if mac else c)) for c in codes]
        return "" if not n else chars[0] if n == 1 else FmtStr(chars)

    return Dep(None, sym)


for n in range(5):
    for part, plat, enc in (("Mac Roman", Const(1), Const(0)), ("another Mac encoding", Const(1), Int(1, 65535)),
                            ("another platform", Choice(Const(0), Int(2, 65535)), U16)):
        Entry("C06", {1138: "fontnames"},
              const(ListOf(Tup(U16, plat, enc, U16, sym_name(n, part == "Mac Roman")))), l_names,
              concrete=const(Map(lambda rng, sz: [gen_name(rng, sz) for _ in range(rng.randint(0, sz))])),
              part=f"{part}, {n} characters")


def l_cmap(w, d, ctx):
    w.V(len(d))
    for c in d:
        w.V(c["language_id"])
        w.V(c["platform_id"])
        w.V(c["encoding_id"])
        w.V(c["format"])
        w.V(c["option"])
        w.SV(c["page_name"])


Entry("C06", {1141: "Custom CMAPs"},
      const(ListOf(Rec(dict(language_id=S32, platform_id=S32, encoding_id=S32,
                            format=S32, option=S32, page_name=Text())))), l_cmap)


def l_pclt(w, d, ctx):
    w.VU(d["font_number"])
    w.V(d["pitch"])
    w.V(d["x_height"])
    w.V(d["style"])
    w.V(d["type_family"])
    w.V(d["cap_height"])
    w.V(d["symbol_set"])
    w.S(d["typeface"])
    for x in d["character_complement"]:
        w.U8(x)
    w.S(d["file_name"])
    w.S8(d["stroke_weight"])
    w.S8(d["width_type"])
    w.U8(d["serif_style"])


Entry("C06", {1136: "PCLT Table"},
      const(Rec(dict(font_number=U32, pitch=S32, x_height=S32, style=S32,
                     type_family=S32, cap_height=S32, symbol_set=S32,
                     typeface=Text(minbytes=16, maxbytes=16),
                     character_complement=ListOf(U8, n=8),
                     file_name=Text(minbytes=6, maxbytes=6), stroke_weight=S8,
                     width_type=S8, serif_style=U8))), l_pclt)


def l_flversion(w, d, ctx):
    w.U8(1)
    w.V({"windows": 0, "macos": 1}[d["platform"]])
    w.U8(2)
    w.U8(255)
    for x in d["version"]:
        w.U8(x)
    w.U8(3)
    w.V(d["owner"])
    w.U8(0)


Entry("C06", {10: "FL Version"},
      const(Rec(dict(platform=OneOf("windows", "macos"), version=Tup(U8, U8, U8, U8),
                     owner=S32))), l_flversion)


def l_kernflags(w, d, ctx):
    w.V(len(d))
    for name, flags in d.items():
        a, b = flags
        w.SV(name)
        w.V(a)
        w.V(b)


Entry("C06", {2026: "OpenType Kerning Class Flags"},
      const(DictOf(Text(), Tup(S32, S32))), l_kernflags)


def l_metflags(w, d, ctx):
    w.V(len(d))
    for name, flags in d.items():
        a, b, c = flags
        w.SV(name)
        w.V(a)
        w.V(b)
        w.V(c)


Entry("C06", {2024: "OpenType Metrics Class Flags"},
      const(DictOf(Text(), Tup(S32, S32, S32))), l_metflags)


def l_table(w, d, ctx):
    w.S(d["tag"])
    w.HEX(d["data"])


Entry("C06", {2014: "TrueTypeTable"},
      const(Rec(dict(tag=Text(minbytes=4, maxbytes=4), data=Hex()))), l_table)

# ============================================================================ C07


def node_schema(M):
    def pts(n):
        return ListOf(ListOf(Tup(COORD, COORD), n=n), n=M)

    return Choice(
        Rec(dict(type=OneOf("move", "line", "qcurve"), flags=Int(0, 15), points=pts(1))),
        Rec(dict(type=Const("curve"), flags=Int(0, 15), points=pts(3))),
    )


NODE_TYPES = {"move": 0, "line": 1, "curve": 3, "qcurve": 4}


def l_outline(w, nodes, M):
    w.V(M)
    count = 0
    for node in nodes:
        count += 1 + 2 * len(node["points"][0]) * M
    w.V(2 * count)
    w.V(len(nodes))
    prev = [(0, 0) for _ in range(M)]
    for node in nodes:
        w.U8(node["flags"] * 16 + NODE_TYPES[node["type"]])
        for j in range(len(node["points"][0])):
            for m in range(M):
                x, y = node["points"][m][j]
                px, py = prev[m]
                w.V(x - px)
                w.V(y - py)
                prev[m] = (x, y)


def l_globalmask(w, d, ctx):
    l_outline(w, d["nodes"], ctx.M)


Entry("C07", {1295: "Global Mask"},
      lambda ctx: Rec(dict(num_masters=Const(ctx.M), nodes=ListOf(node_schema(ctx.M), hi=2**22))),
      l_globalmask, ctxs=MASTERS)


def l_mask(w, d, ctx):
    w.V(len(d["weight_vector"]))
    for f in d["weight_vector"]:
        w.V(round(f * 100000000))
    l_outline(w, d["nodes"], ctx.M)


Entry("C07", {2009: "mask"},
      lambda ctx: Rec(dict(weight_vector=ListOf(Scaled(100000000, -(10**9), 10**9)),
                           num_masters=Const(ctx.M),
                           nodes=ListOf(node_schema(ctx.M), hi=2**22))),
      l_mask, ctxs=MASTERS)


def l_glyph_outline(w, d, ctx):
    w.U8(1)
    w.U8(9)
    w.U8(7)
    w.U8(1)
    w.U8(1)
    w.SV(d["name"])
    w.U8(8)
    l_outline(w, d["nodes"], ctx.M)
    w.U8(15)


GLYPH_ID = {2001: "Glyph"}
Entry("C07", GLYPH_ID,
      lambda ctx: Rec(dict(name=Text(nonempty=True), num_masters=Const(ctx.M),
                           nodes=ListOf(node_schema(ctx.M), hi=2**22))),
      l_glyph_outline, ctxs=MASTERS)

# ============================================================================ C08

TT_COMMANDS = {
    "AlignTop": (1, ("pt", "zone")),
    "AlignBottom": (2, ("pt", "zone")),
    "SingleLinkH": (3, ("pt1", "pt2", "stem", "align")),
    "SingleLinkV": (4, ("pt1", "pt2", "stem", "align")),
    "DoubleLinkH": (5, ("pt1", "pt2", "stem")),
    "DoubleLinkV": (6, ("pt1", "pt2", "stem")),
    "AlignH": (7, ("pt", "align")),
    "AlignV": (8, ("pt", "align")),
    "InterpolateH": (13, ("pti", "pt1", "pt2", "align")),
    "InterpolateV": (14, ("pti", "pt1", "pt2", "align")),
    "MDeltaH": (20, ("pt", "shift", "ppm1", "ppm2")),
    "MDeltaV": (21, ("pt", "shift", "ppm1", "ppm2")),
    "FDeltaH": (22, ("pt", "shift", "ppm1", "ppm2")),
    "FDeltaV": (23, ("pt", "shift", "ppm1", "ppm2")),
}

TTH = Choice(*[
    Rec(dict(cmd=Const(c), params=Rec({p: S32 for p in ps})))
    for c, (_, ps) in TT_COMMANDS.items()
])


def l_tth(w, d, ctx):
    w.V(len(d))
    for c in d:
        code, names = TT_COMMANDS[c["cmd"]]
        w.U8(code)
        for p in names:
            w.V(c["params"][p])
    w.V(0)
    w.V(0)
    w.V(0)


def hint_schema(M):
    return ListOf(ListOf(Rec(dict(pos=S32, width=S32)), n=M))


def guide_schema(M):
    return ListOf(ListOf(Rec(dict(pos=S32, angle=Slope())), n=M))


def l_guides(w, d, ctx):
    for k in ("h", "v"):
        w.V(len(d[k]))
        for g in d[k]:
            for m in range(ctx.M):
                w.V(g[m]["pos"])
                w.V(slope(g[m]["angle"]))


def slope(angle):
    from math import radians, tan

    return round(tan(radians(angle)) * 10000)


def l_hints(w, hints, M):
    for k in ("h", "v"):
        w.V(len(hints[k]))
        for mm in hints[k]:
            for m in range(M):
                w.V(mm[m]["pos"])
                w.V(mm[m]["width"])
    masks = hints.get("hintmasks", [])
    w.V(len(masks))
    for k, v in masks:
        w.U8({"h": 1, "v": 2, "r": 255}[k])
        w.V(v)


def assemble(lines):
    from fontTools.ttLib.tables.ttProgram import Program

    p = Program()
    p.fromAssembly(lines)
    return p.getBytecode()


def l_imported(w, d):
    w.U8(0x29)
    w.VU(d["width"])
    w.V(d["lsb"])
    w.V(d["unknown1"])
    w.V(d["unknown2"])
    w.V(d["unknown3"])
    for x in d["bbox"]:
        w.V(x)
    w.U8(0x2A)
    w.V(d["num_contours"])
    for e in d["endpoints"]:
        w.VU(e)
    nodes = d.get("nodes", [])
    w.V(len(nodes))
    px = 0
    py = 0
    for n in nodes:
        x, y = n["point"]
        w.V(x - px)
        w.V(y - py)
        px = x
        py = y
        w.U8(n["flags"])
    w.U8(0x2B)
    code = assemble(d["instructions"])
    w.V(len(code))
    w.RAW(code)
    w.U8(0x2C)
    w.V(len(d["hdmx"]))
    for x in d["hdmx"]:
        w.U8(x)
    w.U8(0x28)


def l_glyph(w, d, ctx):
    M = ctx.M
    w.U8(1)
    w.U8(9)
    w.U8(7)
    w.U8(1)
    if "name" in d:
        w.U8(1)
        w.SV(d["name"])
    w.U8(8)
    l_outline(w, d["nodes"], M)
    if "metrics" in d:
        w.U8(2)
        for m in range(M):
            x, y = d["metrics"][m]
            w.V(x)
            w.V(y)
    if "hints" in d:
        w.U8(3)
        l_hints(w, d["hints"], M)
    if "guides" in d:
        w.U8(4)
        l_guides(w, d["guides"], ctx)
    if "components" in d:
        w.U8(5)
        w.V(len(d["components"]))
        for c in d["components"]:
            w.V(c["gid"])
            for m in range(M):
                w.V(c["offsetX"][m])
                w.V(c["offsetY"][m])
                w.D(c["scaleX"][m])
                w.D(c["scaleY"][m])
    if "kerning" in d:
        w.U8(6)
        w.V(len(d["kerning"]))
        for gid, values in d["kerning"].items():
            w.V(gid)
            for v in values:
                w.V(v)
    if "imported" in d:
        w.U8(9)
        l_imported(w, d["imported"])
    if "tth" in d:
        w.U8(0x0A)
        w.SIZED(l_tth, d["tth"], ctx)
    w.U8(15)


def e_glyph(d, ctx):
    """hint directions that are empty and have no masks are the same as no hints"""
    r = dict(d)
    if "hints" in d:
        h = d["hints"]
        if not h["h"] and not h["v"] and "hintmasks" not in h:
            del r["hints"]
    return r


def component_schema(M):
    return Rec(dict(gid=S32, offsetX=ListOf(S32, n=M), offsetY=ListOf(S32, n=M),
                    scaleX=ListOf(Float(), n=M), scaleY=ListOf(Float(), n=M)))


NOPUSH = ["SVTCA[1]", "SVTCA[0]", "MDAP[1]", "IUP[0]", "IUP[1]", "POP[ ]", "ADD[ ]",
          "SRP0[ ]", "MIRP[01101]", "SHP[0]", "CALL[ ]", "IP[ ]"]


def gen_assembly(rng, sz):
    from fontTools.ttLib.tables.ttProgram import Program

    lines = []
    for _ in range(rng.choice([0, 1, 3, 12])):
        if rng.random() < 0.5:
            lines += ["PUSH[ ]"] + [str(rng.choice([0, 1, 7, 255, 256, -1, 1000, -32768]))
                                    for _ in range(rng.randint(1, 9))]
        else:
            lines.append(rng.choice(NOPUSH))
    p = Program()
    p.fromAssembly(lines)
    b = p.getBytecode()
    q = Program()
    q.fromBytecode(b)
    lines = q.getAssembly()
    q2 = Program()
    q2.fromAssembly(lines)
    assert q2.getBytecode() == b
    return lines


def gen_imported(rng, sz):
    S = S32.gen
    nc = rng.choice([-1, 0, 0, 1, 2, 5])
    d = dict(width=U32.gen(rng), lsb=S(rng), unknown1=S(rng), unknown2=S(rng),
             unknown3=S(rng), bbox=[S(rng) for _ in range(4)], num_contours=nc,
             endpoints=[U32.gen(rng) for _ in range(max(0, nc))])
    n = rng.choice([0, 1, 3, 20])
    if n:
        d["nodes"] = []
        for _ in range(n):
            f = rng.randrange(256)
            d["nodes"].append(dict(flags=f, on=f & 1,
                                   point=(COORD.gen(rng), COORD.gen(rng))))
    d["instructions"] = gen_assembly(rng, sz)
    d["hdmx"] = [rng.randrange(256) for _ in range(rng.choice([0, 1, 5]))]
    return d


def sym_imported(path, idx):
    from pyvc.values import FDict, FList, Alt

    def alt(contours):
        def node(p, i):
            d = Rec(dict(flags=Int(0, 255), point=Tup(COORD, COORD))).sym(p, i)
            f = d.ents[0][2]
            return FDict((d.ents[0], ("e", "on", f % 2), d.ents[1]))

        ents = [list(Rec({k: v}).sym(path, idx).ents)[0] for k, v in dict(
            width=U32, lsb=S32, unknown1=S32, unknown2=S32, unknown3=S32,
            bbox=ListOf(S32, n=4)).items()]
        if contours:
            lst = ListOf(U32).sym(path + ".endpoints", idx)
            ents += [("e", "num_contours", lst.seq[0][1]), ("e", "endpoints", lst)]
        else:
            ents += [("e", "num_contours", -1), ("e", "endpoints", FList(()))]
        ents += Rec(dict(nodes=ListOf(Dep(None, node), lo=1), instructions=Assembly(None),
                         hdmx=ListOf(Int(0, 255))), optional=["nodes"]).sym(path, idx).ents
        return FDict(ents)

    return Alt(Choice(Const(0), Const(1)).sym(path, idx).tag, [alt(False), alt(True)])


def glyph_fields(M):
    return dict(
        name=Text(nonempty=True),
        num_masters=Const(M),
        nodes=ListOf(node_schema(M), hi=2**22),
        metrics=ListOf(Tup(S32, S32), n=M),
        hints=Rec(dict(h=hint_schema(M), v=hint_schema(M),
                       hintmasks=ListOf(Tup(OneOf("h", "v", "r"), S32), lo=1)),
                  optional=["hintmasks"]),
        guides=Rec(dict(h=guide_schema(M), v=guide_schema(M))),
        components=ListOf(component_schema(M), lo=1),
        kerning=DictOf(S32, ListOf(S32, n=M), lo=1),
        imported=Dep(gen_imported, sym_imported),
        tth=ListOf(TTH, lo=1, hi=2**22),
    )


OPTIONAL = ["name", "metrics", "hints", "guides", "components", "kerning", "imported", "tth"]


def glyph_concrete(ctx):
    return Rec(glyph_fields(ctx.M), optional=OPTIONAL)


def glyph_sections(names, optional=(), nonempty=()):
    """the domain with these sections only"""
    def f(ctx):
        fields = glyph_fields(ctx.M)
        fs = {k: v for k, v in fields.items()
              if k in names or k in ("num_masters", "nodes")}
        if "nodes" not in names:
            fs["nodes"] = Const([])
        for k in nonempty:
            if k in fs:
                h = fs[k].fields
                fs[k] = Rec(dict(h, h=ListOf(h["h"].elem, lo=1), v=ListOf(h["v"].elem, lo=1)))
        return Rec(fs, optional=[n for n in names if n in optional])

    return f


# the whole domain is run, its parts are proved: every section on its own, every pair of
# sections, all of them together
Entry("C08", GLYPH_ID, None, l_glyph, expect=e_glyph, ctxs=MASTERS,
      concrete=glyph_concrete)
for _s in OPTIONAL:
    Entry("C08", GLYPH_ID, glyph_sections(("name", _s), optional=OPTIONAL), l_glyph,
          expect=e_glyph, ctxs=MASTERS, part=_s)
for _i, _s in enumerate(OPTIONAL[1:]):
    for _t in OPTIONAL[_i + 2:]:
        Entry("C08", GLYPH_ID, glyph_sections((_s, _t)), l_glyph,
              expect=e_glyph, ctxs=[MASTERS[1]], part=f"{_s}, {_t}")
Entry("C08", GLYPH_ID, glyph_sections(["nodes"] + OPTIONAL, nonempty=("hints", "guides")), l_glyph,
      expect=e_glyph, ctxs=MASTERS[:2], part="all sections")

# ============================================================================ C09


def l_anchors(w, d, ctx):
    w.V(len(d))
    w.V(ctx.M)
    for a in d:
        for m in range(ctx.M):
            w.V(a["x"][m])
            w.V(a["y"][m])


Entry("C09", {2029: "Glyph Anchors MM"},
      lambda ctx: ListOf(Rec(dict(x=ListOf(S32, n=ctx.M), y=ListOf(S32, n=ctx.M)))),
      l_anchors, ctxs=MASTERS)


def l_anchors_supp(w, d, ctx):
    w.V(len(d))
    for a in d:
        w.V(a["hue"])
        w.V(a["data"])


Entry("C09", {2020: "Glyph Anchors Supplemental"}, const(ListOf(Rec(dict(hue=S32, data=S32)))),
      l_anchors_supp)

GDEF_CLASSES = ("unassigned", "base", "ligature", "mark", "component")


def l_gdef(w, d, ctx):
    w.V(GDEF_CLASSES.index(d.get("glyph_class", "unassigned")))
    anchors = d.get("anchors", [])
    w.V(len(anchors))
    for a in anchors:
        w.SV(a.get("name", ""))
        w.V(a["x"])
        w.V(-1)
        w.V(a["y"])
        w.V(-1)
    carets = d.get("carets", [])
    w.V(len(carets))
    for pos, idx in carets:
        w.V(pos)
        w.V(idx)
    classes = d.get("ot_classes", [])
    w.V(len(classes))
    for c in classes:
        w.V(c)


Entry("C09", {2018: "Glyph GDEF Data"},
      const(Rec(dict(glyph_class=OneOf("base", "ligature", "mark", "component"),
                     anchors=ListOf(Rec(dict(x=S32, y=S32, name=Text(nonempty=True)),
                                        optional=["name"]), lo=1),
                     carets=ListOf(Tup(S32, S32), lo=1),
                     ot_classes=ListOf(S32, lo=1)),
                optional=["glyph_class", "anchors", "carets", "ot_classes"])),
      l_gdef)


def l_sketch(w, d, ctx):
    w.V(len(d))
    for a, b, c in d:
        w.V(a)
        w.V(b)
        w.V(c)


Entry("C09", {2019: "Glyph Sketch"}, const(ListOf(Tup(S32, S32, S32))), l_sketch)


def l_origin(w, d, ctx):
    w.S16(d["x"])
    w.S16(d["y"])


Entry("C09", {2027: "Glyph Origin"}, const(Rec(dict(x=S16, y=S16))), l_origin,
      refuse=[dict(x=32768, y=0), dict(x=0, y=-32769)])


def l_u16list(w, d, ctx):
    for x in d:
        w.U16(x)


Entry("C09", {1250: "unicodes"}, const(ListOf(U16)), l_u16list, refuse=[[65536], [-1]])
Entry("C09", {1253: "Glyph Unicode Non-BMP"}, const(ListOf(U32)), l_u32list,
      refuse=[[2**32], [-1]])


def l_links(w, d, ctx):
    for k in ("y", "x"):
        w.V(len(d[k]))
        for a, b in d[k]:
            w.V(a)
            w.V(b)


Entry("C09", {2008: "Links"},
      const(Rec(dict(x=ListOf(Tup(S32, S32)), y=ListOf(Tup(S32, S32))))), l_links)


def l_maskmetrics(w, d, ctx):
    x, y = d
    w.S16(x)
    w.S16(y)


Entry("C09", {2011: "mask.metrics"}, const(Tup(S16, S16)), l_maskmetrics,
      refuse=[(40000, 0)])


def l_pairs(w, d, ctx):
    for a, b in d:
        w.V(a)
        w.V(b)


Entry("C09", {2028: "mask.metrics_mm"},
      lambda ctx: ListOf(Tup(S32, S32), n=ctx.M - 1), l_pairs, ctxs=MASTERS)

Entry("C09", {1294: "Global Guides"},
      lambda ctx: Rec(dict(h=guide_schema(ctx.M), v=guide_schema(ctx.M))), l_guides,
      ctxs=MASTERS)


NONZERO = Choice(Int(1, 2**31 - 1), Int(-(2**31), -1))
GUIDE_PROPERTY = Rec(dict(index=NONZERO, color=Color(), name=Text(nonempty=True)), optional=("color", "name"))


def l_gprops(w, d, ctx):
    for k in ("h", "v"):
        for g in d[k]:
            w.V(g["index"])
            if "color" in g:
                c = g["color"]
                w.VL(int(c[5:7], 16) * 65536 + int(c[3:5], 16) * 256 + int(c[1:3], 16),
                     False)
            else:
                w.V(-1)
            w.SV(g.get("name", ""))
        w.V(0)


Entry("C09", {1296: "Global Guide Properties", 2031: "Glyph Guide Properties"},
      const(Rec(dict(h=ListOf(GUIDE_PROPERTY), v=ListOf(GUIDE_PROPERTY)))), l_gprops)


def l_vsb(w, d, ctx):
    for x in d:
        w.V(x)


Entry("C09", {2023: "VSB"}, const(ListOf(S32)), l_vsb)

# ============================================================================ C10


def l_gasp(w, d, ctx):
    for r in d:
        w.U16(r["maxPpem"])
        w.U16(r["flags"])


Entry("C10", {1265: "gasp"}, const(ListOf(Rec(dict(maxPpem=U16, flags=U16)))), l_gasp)

TTINFO_REQ = [(0x33, "max_zones"), (0x34, "max_twilight_points"), (0x35, "max_storage"),
              (0x36, "max_function_defs"), (0x37, "max_instruction_defs"),
              (0x38, "max_stack_elements")]
TTINFO_A = [(0x3A, "head_units_per_em"), (0x3B, "head_mac_style"),
            (0x3C, "head_lowest_rec_ppem"), (0x56, "head_creation"),
            (0x57, "head_creation2"), (0x3D, "head_font_direction_hint"),
            (0x3E, "os2_us_weight_class"), (0x3F, "os2_us_width_class"),
            (0x40, "os2_fs_type"), (0x41, "os2_y_subscript_x_size"),
            (0x42, "os2_y_subscript_y_size"), (0x43, "os2_y_subscript_x_offset"),
            (0x44, "os2_y_subscript_y_offset"), (0x45, "os2_y_superscript_x_size"),
            (0x46, "os2_y_superscript_y_size"), (0x47, "os2_y_superscript_x_offset"),
            (0x48, "os2_y_superscript_y_offset"), (0x49, "os2_y_strikeout_size"),
            (0x4A, "os2_y_strikeout_position"), (0x4B, "os2_s_family_class")]
TTINFO_B = [(0x4D, "os2_s_typo_ascender"), (0x4E, "os2_s_typo_descender"),
            (0x4F, "os2_s_typo_line_gap"), (0x50, "os2_fs_selection"),
            (0x51, "os2_us_win_ascent"), (0x52, "os2_us_win_descent"),
            (0x5C, "Average Width")]
TTINFO_H = [(0x53, "Hdmx PPMs 1"), (0x58, "Hdmx PPMs 2")]
TT_OPTIONS = ["use_custom_tt_values", "create_vdmx", "add_null_cr_space", "3", "4", "5",
              "6", "7", "8", "9", "10", "11", "12", "13", "14"]


def l_ttinfo(w, d, ctx):
    for code, name in TTINFO_REQ:
        w.U8(code)
        w.V(d[name])
    v = 0
    for b in d["head_flags"]["flags"]:
        v += 2**b
    for o in d["head_flags"]["options"]:
        v += 2 ** (16 + TT_OPTIONS.index(o))
    w.U8(0x39)
    w.V(v)
    for code, name in TTINFO_A:
        if name in d:
            w.U8(code)
            w.V(d[name])
    w.U8(0x4C)
    for x in d["OpenTypeOS2Panose"]:
        w.U8(x)
    for code, name in TTINFO_B:
        if name in d:
            w.U8(code)
            w.V(d[name])
    for code, name in TTINFO_H:
        if name in d:
            w.U8(code)
            w.V(len(d[name]))
            for x in d[name]:
                w.U8(x)
    w.U8(0x54)
    w.VU(d["Codepages"]["os2_ul_code_page_range1"])
    w.VU(d["Codepages"]["os2_ul_code_page_range2"])
    w.U8(0x32)


def ttinfo_schema(ctx, flags=True):
    f = {n: S32 for _, n in TTINFO_REQ}
    f["head_flags"] = Rec(dict(flags=Subset(*range(16)), options=Subset(*TT_OPTIONS)))
    for _, n in TTINFO_A:
        f[n] = S32
    f["OpenTypeOS2Panose"] = ListOf(U8, n=10)
    for _, n in TTINFO_B:
        f[n] = S32
    for _, n in TTINFO_H:
        f[n] = ListOf(U8)
    f["Codepages"] = Rec(dict(os2_ul_code_page_range1=U32, os2_ul_code_page_range2=U32))
    return Rec(f, optional=[n for _, n in TTINFO_A + TTINFO_B + TTINFO_H])


Entry("C10", {1264: "ttinfo"}, ttinfo_schema, l_ttinfo)


def l_ttinfo_twice(w, d, ctx):
    """one field with two values"""
    key, a, b = d
    for v in (a, b):
        w.U8(key)
        w.V(v)
        if key == 0x54:
            w.V(v)
    w.U8(0x32)


def l_vdmx(w, d, ctx):
    w.V(len(d))
    for r in d:
        w.V(r["pelHeight"])
        w.V(r["max"])
        w.V(r["min"])


Entry("C10", {1271: "vdmx"}, const(ListOf(Rec(dict(pelHeight=S32, max=S32, min=S32)))),
      l_vdmx)


def stems_schema(elem, **kw):
    def f(ctx):
        return Rec(dict(ttStemsV=ListOf(elem), ttStemsH=ListOf(elem)))

    return f


def l_stems(w, d, ctx):
    for k in ("ttStemsV", "ttStemsH"):
        w.V(len(d[k]))
        for s in d[k]:
            w.V(s["value"])
            e = s["name"]
            w.U8(len(e.encode("cp1252")))
            w.S(e)
            w.V(s["round"][6])


Entry("C10", {1269: "TrueType Stems"},
      stems_schema(Rec(dict(value=S32, name=Text(maxbytes=255), round=Rec({6: S32})))),
      l_stems)


def numbered(elem_round, count=None):
    """stem records carry their own index"""

    def f(ctx):
        def gen(n):
            return Map(lambda rng, sz: [
                dict(stem=j, round={k: S32.gen(rng) for k in elem_round})
                for j in range(rng.randint(0, sz) if n is None else n)])

        c = count(ctx) if count else (None, None)
        return Rec(dict(ttStemsV=gen(c[0]), ttStemsH=gen(c[1])))

    return f


def l_ppems(w, d, ctx):
    for k in ("ttStemsV", "ttStemsH"):
        w.V(len(d[k]))
        for s in d[k]:
            w.V(s["round"][2])
            w.V(s["round"][3])
            w.V(s["round"][4])
            w.V(s["round"][5])


def l_ppems23(w, d, ctx):
    for k in ("ttStemsV", "ttStemsH"):
        w.V(len(d[k]))
        for s in d[k]:
            w.V(s["round"][2])
            w.V(s["round"][3])


def l_ppems1(w, d, ctx):
    for k in ("ttStemsV", "ttStemsH"):
        for s in d[k]:
            w.V(s["round"][1])


class Numbered(ListOf):
    """list of records whose field `stem` is their index"""

    def __init__(self, keys, n=None):
        self.keys = keys
        ListOf.__init__(self, None, n=n)

    def gen(self, rng, sz=3):
        n = self.n if self.n is not None else rng.randint(0, sz)
        return [dict(stem=j, round={k: S32.gen(rng) for k in self.keys}) for j in range(n)]

    def sym(self, path, idx=()):
        import z3
        from pyvc.terms import REG, I
        from pyvc.values import FList, FDict
        from pyvc.schema import _app, MAXLEN

        rd = Rec({k: S32 for k in self.keys})
        if self.n is not None:
            return FList(("e", FDict([("e", "stem", j),
                                      ("e", "round", rd.sym(f"{path}[{j}].round", idx))]))
                         for j in range(self.n))
        name = path + "#n"
        REG.on(name, lambda a: [a >= 0, a <= MAXLEN])
        n = _app(name, I, idx)
        iv = z3.Const(REG.fresh_name("i"), I)
        return FList([("r", n, iv, (("e", FDict([
            ("e", "stem", iv),
            ("e", "round", rd.sym(path + "[].round", tuple(idx) + (iv,)))])),))])


def numbered_schema(keys, count=None):
    def f(ctx):
        c = count(ctx) if count else (None, None)
        return Rec(dict(ttStemsV=Numbered(keys, c[0]), ttStemsH=Numbered(keys, c[1])))

    return f


Entry("C10", {1268: "TrueType Stem PPEMs"}, numbered_schema((2, 3, 4, 5)), l_ppems)
Entry("C10", {1266: "TrueType Stem PPEMs 2 And 3"}, numbered_schema((2, 3)), l_ppems23)
Entry("C10", {1524: "TrueType Stem PPEMs 1"},
      numbered_schema((1,), lambda c: (c.ttv, c.tth)), l_ppems1,
      ctxs=[Ctx(ttv=0, tth=0), Ctx(ttv=1, tth=0), Ctx(ttv=0, tth=2), Ctx(ttv=3, tth=4)],
      note="stem counts come from the file; four count pairs")


def l_zones(w, d, ctx):
    for k in ("ttZonesT", "ttZonesB"):
        w.V(len(d[k]))
        for z in d[k]:
            w.V(z["position"])
            w.V(z["value"])
            w.SV(z["name"])


ZONE = Rec(dict(position=S32, value=S32, name=Text()))
Entry("C10", {1255: "TrueType Zones"},
      const(Rec(dict(ttZonesT=ListOf(ZONE), ttZonesB=ListOf(ZONE)))), l_zones)


def l_zonedeltas(w, d, ctx):
    rows = sorted((z, p, s) for z, spec in d.items() for p, s in spec.items())
    w.V(len(rows))
    for z, p, s in rows:
        w.V(z)
        w.V(p)
        w.V(s)


Entry("C10", {1273: "TrueType Zone Deltas"}, None, l_zonedeltas,
      concrete=const(Choice(DictOf(Int(-3, 2000), DictOf(Int(0, 2000), S32, lo=1)),
                            DictOf(Few(0, 3), DictOf(Few(9, 13), S32, lo=1)))),
      bounded="more than three deltas: sorting and grouping of nested dictionaries")


def in_order(d, ctx):
    return {z: {p: d[z][p] for p in sorted(d[z])} for z in sorted(d)}


def sym_deltas(shape):
    """zones with these numbers of deltas; zones and sizes are different"""
    def sym(path, idx):
        from pyvc.terms import REG
        import z3
        from pyvc.values import FDict

        def fresh(name, lo, hi, others):
            REG.on(name, lambda a: [a >= lo, a <= hi] + [a != o for o in others])
            return z3.Int(name)

        ents, zones = [], []
        for i, n in enumerate(shape):
            z = fresh(f"{path}.z{i}", -(2**31), 2**31 - 1, list(zones))
            zones.append(z)
            ppms, sub = [], []
            for j in range(n):
                p = fresh(f"{path}.p{i}.{j}", -(2**31), 2**31 - 1, list(ppms))
                ppms.append(p)
                sub.append(("e", p, S32.sym(f"{path}.s{i}.{j}")))
            ents.append(("e", z, FDict(sub)))
        return FDict(ents)

    return Dep(None, sym)


for shape in ((), (1,), (2,), (1, 1), (1, 2), (3,), (1, 1, 1), (2, 2)):
    Entry("C10", {1273: "TrueType Zone Deltas"}, const(sym_deltas(shape)), l_zonedeltas, expect=in_order,
          concrete=const(DictOf(Few(0, 3), DictOf(Few(9, 13), S32, lo=1))),
          part=f"zones with {' + '.join(map(str, shape)) or 'no'} deltas")

# ============================================================================ C11


def l_aniso(w, d, ctx):
    for axis in d:
        w.V(len(axis))
        for a, b in axis:
            w.V(a)
            w.V(b)


Entry("C11", {1523: "Anisotropic Interpolation Mappings"},
      const(ListOf(ListOf(Tup(S32, S32)))), l_aniso)


Entry("C11", {1515: "Axis Mappings Count"}, const(ListOf(U32, n=4)), l_u32list)


def l_axismap(w, d, ctx):
    for a, b in d:
        w.D(a)
        w.D(b)


Entry("C11", {1516: "Axis Mappings"}, const(ListOf(Tup(Float(), Float()))), l_axismap)


def l_masterloc(w, d, ctx):
    i, loc = d
    w.U32(i)
    for f in loc:
        w.D(f)


Entry("C11", {1505: "Master Location"},
      const(Tup(U32, Tup(Float(), Float(), Float(), Float()))), l_masterloc)


def l_instances(w, d, ctx):
    w.V(len(d))
    for i in d:
        w.SV(i["name"])
        for f in i["values"]:
            w.V(round(f * 10000))


S4 = Scaled(10000, -(2**31), 2**31 - 1)
Entry("C11", {1254: "Primary Instances"},
      const(ListOf(Rec(dict(name=Text(), values=Tup(S4, S4, S4, S4))))), l_instances)


def l_psinfo(w, d, ctx):
    for f in d["font_matrix"]:
        w.D(f)
    w.S32(d["force_bold"])
    for k in ("blue_values", "other_blues", "family_blues", "family_other_blues"):
        for x in d[k]:
            w.S32(x)
    w.D(d["blue_scale"])
    for k in ("blue_shift", "blue_fuzz", "std_hw", "std_vw"):
        w.U32(d[k])
    for k in ("stem_snap_h", "stem_snap_v"):
        for x in d[k]:
            w.U32(x)
    for k in ("xMin", "yMin", "xMax", "yMax"):
        w.S16(d["bounding_box"][k])
    for k in ("adv_width_min", "adv_width_max", "adv_width_avg", "ascender", "descender",
              "x_height", "cap_height"):
        w.S32(d[k])


F_ = Float()
Entry("C11", {1536: "PostScript Info"},
      const(Rec(dict(font_matrix=Tup(F_, F_, F_, F_, F_, F_), force_bold=S32,
                     blue_values=ListOf(S32, n=14), other_blues=ListOf(S32, n=10),
                     family_blues=ListOf(S32, n=14),
                     family_other_blues=ListOf(S32, n=10), blue_scale=F_,
                     blue_shift=U32, blue_fuzz=U32, std_hw=U32, std_vw=U32,
                     stem_snap_h=ListOf(U32, n=12), stem_snap_v=ListOf(U32, n=12),
                     bounding_box=Rec(dict(xMin=S16, yMin=S16, xMax=S16, yMax=S16)),
                     adv_width_min=S32, adv_width_max=S32, adv_width_avg=S32,
                     ascender=S32, descender=S32, x_height=S32, cap_height=S32))),
      l_psinfo)


def l_psglobal(w, d, ctx):
    v = 0
    if "generate_flex" in d:
        v += 1
    for b in d["other"]:
        v += 2**b
    w.U16(v)


Entry("C11", {1093: "PostScript Hinting Options"},
      const(Rec(dict(generate_flex=Const(1), other=Subset(*range(1, 16))),
                optional=["generate_flex"])), l_psglobal)


def l_psglyph(w, d, ctx):
    v = 0
    if "hint_replacement" in d:
        v += 2**29
    if "horizontal_3_stem" in d:
        v += 2**30
    if "vertical_3_stem" in d:
        v += 2**31
    for b in d["other"]:
        v += 2**b
    w.U32(v)


Entry("C11", {2010: "Glyph Hinting Options"},
      const(Rec(dict(hint_replacement=Const(1), horizontal_3_stem=Const(1),
                     vertical_3_stem=Const(1), other=Subset(*range(29))),
                optional=["hint_replacement", "horizontal_3_stem", "vertical_3_stem"])),
      l_psglyph)

EXPORT_OPTIONS = ("use_custom_opentype_export_options",
                  "use_default_opentype_export_options", "use_custom_cmap_encoding",
                  3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)


def l_export(w, d, ctx):
    v = 0
    for o in d:
        v += 2 ** EXPORT_OPTIONS.index(o)
    w.U16(v)


Entry("C11", {1744: "Export Options"}, const(Subset(*EXPORT_OPTIONS)), l_export)

FONT_OPTIONS = {
    1: "fit_ascender", 2: "fit_descender", 3: "auto_metrics_left",
    4: "auto_metrics_right", 5: "auto_metrics_close", 6: "auto_hinting_min_h_len",
    7: "auto_hinting_min_v_len", 8: "auto_hinting_min_h_width",
    9: "auto_hinting_min_v_width", 10: "auto_hinting_max_h_width",
    11: "auto_hinting_max_v_width", 12: "auto_hinting_h_ratio",
    13: "auto_hinting_v_ratio", 14: "duplicate_place_x", 15: "paste_place_x",
    16: "opentype_name_records", 17: "codepage_for_cmap_1_0",
    18: "dont_ignore_unicode_indexes", 19: "head_bbox_savings",
    20: "autohinting_options", 21: "export_hinted_truetype_font",
    22: "autohint_unhinted_glyphs", 23: "keep_existing_truetype_instructions",
    24: "export_visual_truetype_hints", 25: "apply_bbox_savings",
    26: "auto_win_asc_desc", 27: "add_characters", 28: "export_embedded_bitmaps",
    29: "copy_hdmx_data_from_base_to_composite_glyph",
    30: "dont_automatically_reorder_glyphs", 31: "export_ot", 32: "export_volt",
    33: "write_kern_feature", 34: "t1_terminal", 35: "t1_pfm", 36: "t1_afm",
    37: "t1_autohint", 38: "t1_unicode", 39: "optimize_align", 40: "optimize_reduce",
    41: "t1_encoding", 42: "ot_write_gdef", 43: "t1_use_os2", 44: "subrize",
    45: "t1_sort", 46: "export_kern_table", 47: "t1_fs_type", 48: "expand_kern_flags",
    49: "expand_kern_codepage", 50: "expand_kern_count", 51: "decompose",
    114: "duplicate_place_y", 115: "paste_place_y",
}
FONT_OPTION_CODES = {v: k for k, v in FONT_OPTIONS.items()}
TTAUTO = (("generate_triple_hints", 0x100), ("generate_delta_instructions", 0x200),
          ("direct_links_to_center_of_the_glyph_where_possible", 0x400),
          ("interpolate_positions_of_cusp_points", 0x800),
          ("interpolate_positions_of_double_links", 0x1000), ("add_link_to_rsb", 0x2000))
EXPKERN = (("limit_action", 1), ("limit_codepage", 2), ("limit_cmap_10", 4),
           ("limit_font_window", 8), ("limit_count", 16), ("limit_keep", 32),
           ("apply_to_assistance", 0x1000))


def l_fontoptions(w, d, ctx):
    for k, v in d.items():
        w.U8(FONT_OPTION_CODES[k])
        if k == "auto_hinting_h_ratio" or k == "auto_hinting_v_ratio":
            w.V(round(v * 10000))
        elif k == "autohinting_options":
            x = v["single_link_attachment_precision"]
            for name, bit in TTAUTO:
                x += v[name] * bit
            w.V(x)
        elif k == "expand_kern_flags":
            x = 0
            for name, bit in EXPKERN:
                x += v[name] * bit
            w.V(x)
        else:
            w.V(v)
    w.U8(100)


def fontoptions_schema(ctx):
    f = {}
    bit = Int(0, 1)
    for k in FONT_OPTIONS.values():
        if k in ("auto_hinting_h_ratio", "auto_hinting_v_ratio"):
            f[k] = S4
        elif k == "autohinting_options":
            g = dict(single_link_attachment_precision=Int(0, 7))
            for n, _ in TTAUTO:
                g[n] = bit
            f[k] = Rec(g)
        elif k == "expand_kern_flags":
            f[k] = Rec({n: bit for n, _ in EXPKERN})
        else:
            f[k] = S32
    return Rec(f, optional=list(f))


Entry("C11", {1743: "Font Options"}, fontoptions_schema, l_fontoptions)

MODES = {"names_or_index": 0, "unicode_ranges": 1, "codepages": 3}


def l_mapping(w, d, ctx):
    w.U8(1)
    w.V(MODES[d["mapping_mode"]])
    w.U8(2)
    w.V(d["m2"])
    w.U8(3)
    w.V(d["m3"])
    w.U8(4)
    w.V(d["mapping_id"])
    w.U8(0)


Entry("C11", {1742: "Mapping Mode"},
      const(Rec(dict(mapping_mode=OneOf("names_or_index", "unicode_ranges", "codepages"),
                     m2=S32, m3=S32, mapping_id=S32))), l_mapping)


def l_kernpair(w, d, ctx):
    w.U32(d["l"])
    w.U32(d["r"])
    for v in d["values"]:
        w.S16(v)


Entry("C11", {1410: "MMKernPair"},
      lambda ctx: Rec(dict(l=U32, r=U32, values=ListOf(S16, n=ctx.M))), l_kernpair,
      ctxs=MASTERS)

# ============================================================================ C12


def rle_ref(data):
    """Run-length reference: list of (spec, bytes)"""
    flat = [b for row in data for b in row]
    out = []
    i = 0
    buf = []

    def flush():
        for k in range(0, len(buf), 128):
            c = buf[k : k + 128]
            out.append((len(c) - 1, c))
        buf.clear()

    while i < len(flat):
        j = i
        while j < len(flat) and flat[j] == flat[i]:
            j += 1
        if j - i > 2:
            flush()
            n = j - i
            while n >= 128:
                out.append((-127, [flat[i]]))
                n -= 128
            if n:
                out.append((-n + 1, [flat[i]]))
        else:
            buf += flat[i:j]
        i = j
    flush()
    return out
