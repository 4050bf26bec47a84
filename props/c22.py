"""C22 font info"""
import copy

from specs import fontinfo
from specs.fontinfo import TT


def info_values(info):
    from attrs import fields
    from ufoLib2.objects.info import Info

    names = [f.name.lstrip("_") for f in fields(Info)]
    return {k: plain(getattr(info, k)) for k in names if k != "guidelines"}


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "rangeMaxPPEM"):
        return dict(rangeMaxPPEM=v.rangeMaxPPEM, rangeGaspBehavior=[int(x) for x in v.rangeGaspBehavior])
    if hasattr(v, "nameID"):
        return {k: getattr(v, k) for k in ("nameID", "platformID", "encodingID", "languageID", "string")}
    if isinstance(v, int) and not isinstance(v, bool):
        return int(v)
    return v


def bytecode(text):
    from fontTools.ttLib.tables.ttProgram import Program

    p = Program()
    p.fromAssembly(text)
    return p.getBytecode()


def info_contract(entries, ps, hints):
    """attributes of the font info of each exported master, and the lib of the font"""
    from specs.fonts import export, make_font

    M = len(ps)
    fails = []
    base = export(make_font(M, [], [], [{} for _ in ps]), pshints=hints)
    got = export(make_font(M, copy.deepcopy(entries), [], copy.deepcopy(ps)), pshints=hints)
    if len(got) != M:
        return [dict(clause="one font for each master", detail=f"{len(got)}")]
    want_a, want_l = fontinfo.expected(entries)
    counts = dict(x for x in entries if x[0] in fontinfo.COUNTED)
    thick = want_a.get("postscriptUnderlineThickness", 0)
    for m, (b, g) in enumerate(zip(base, got)):
        want = info_values(b.info)
        want.update(want_a)
        want.update(fontinfo.master_expected(ps[m], counts, hints))
        vals = info_values(g.info)
        pos = want.pop("postscriptUnderlinePosition")
        if abs(vals.pop("postscriptUnderlinePosition") - pos - thick / 2) > 0.5:
            fails.append(dict(clause="top of the underline", detail=f"{pos} {thick}"))
        for k in vals:
            a, x = vals[k], plain(want.get(k))
            if a != x or isinstance(a, bool) != isinstance(x, bool) or isinstance(a, float) != isinstance(x, float):
                fails.append(dict(clause=f"font info {k}", detail=f"master {m}: {a!r} is not {x!r}"))
        lib = {k: v for k, v in b.lib.items()}
        lib.update(want_l)
        if set(lib) != set(g.lib):
            fails.append(dict(clause="keys of the lib", detail=f"{sorted(g.lib)} is not {sorted(lib)}"))
            continue
        for k in lib:
            x = lib[k]
            v = g.lib[k]
            if k == TT:
                v = dict(v)
                if v.pop("formatVersion", None) != "1":
                    fails.append(dict(clause="format version", detail=str(g.lib[k])))
                for p in ("controlValueProgram", "fontProgram"):
                    if p in v and p in x and bytecode(v[p]) == bytes.fromhex(x[p]):
                        v[p] = x[p]
            if v != x:
                fails.append(dict(clause=f"lib {k}", detail=f"{v} is not {x}"))
    return fails


# ------------------------------------------------------------------ bounded runs
def text(rng):
    return "".join(rng.choice(["a", "B", " ", "ä", "-", "1", ":", "€", "\n"]) for _ in range(rng.choice([0, 1, 3, 12])))


def num(rng):
    return rng.choice([0, 1, -1, 2, 5, -7, 100, -250, 1000, 1001, 32767, -32768, 65535, 2**31 - 1, -(2**31),
                       rng.randint(-3000, 3000)])


def gen_value(rng, i):
    if i in (1130, 1131, 1135):
        return abs(num(rng))
    if i in (1044, 1090, 1278, 1279, 1270, 1066, 1030, 1031):
        return num(rng) if i not in (1030, 1031) else rng.randint(-1000, 1000)
    if i == 1029:
        return rng.choice([0.0, -12.5, 9.25, 1e-3])
    if i == 1118:
        return [rng.randint(0, 15) for _ in range(10)]
    if i == 2021:
        return sorted(rng.sample(range(127), rng.choice([0, 1, 5])))
    if i == 1034:
        return rng.choice([0, 1, 2, -1])
    if i == 1048:
        return rng.choice([-1, 0, 1, 2, 400, 999, 1000, 1001, 65535])
    if i == 1138:
        return [(rng.randint(0, 300), rng.choice([0, 1, 3]), rng.choice([0, 1]), rng.choice([0, 0x409]), text(rng))
                for _ in range(rng.choice([0, 1, 3]))]
    if i == 1267:
        return rng.choice([0, 1, 32, 33, 64]) + rng.choice([0, 0, 2, 4, 8, 16, 128, 256, 0x1E, 0xFF80])
    if i == 1265:
        return [dict(maxPpem=rng.randint(0, 65535), flags=rng.randint(0, 15)) for _ in range(rng.choice([0, 1, 4]))]
    if i == 2024:
        return {text(rng): (rng.randint(0, 7), 0, 0) for _ in range(rng.choice([0, 1, 3]))}
    if i == 1261:
        return bytes(rng.choice([0, 1, 127, 128, 255]) for _ in range(2 * rng.choice([0, 1, 4]))).hex()
    if i in (1262, 1263):
        return rng.choice(["", "b0002c", "b800ff85", "2f", "b80fff581b59"])
    if i == 1264:
        d = {}
        p = rng.choice([0.0, 0.3, 1.0])
        for k in list(fontinfo.TTINFO) + list(fontinfo.MAXP) + list(fontinfo.TTINFO_NOT) + [
                "head_creation", "os2_fs_type", "os2_s_family_class", "Average Width", "head_flags", "Codepages",
                "OpenTypeOS2Panose", "Hdmx PPMs 1"]:
            if rng.random() >= p:
                continue
            d[k] = dict(os2_us_width_class=rng.randint(1, 9), os2_fs_type=rng.choice([0, 2, 4, 8, 0x104, 0x300, 0xFFFF]),
                        os2_s_family_class=rng.choice([0, 1, 255, 256, 0x801, 0x0E0F, 0x7FFF]),
                        head_flags=rng.choice([dict(flags=[0, 3, 5], options=["use_custom_tt_values"]), dict(flags=[]), {}]),
                        Codepages=dict(os2_ul_code_page_range1=rng.choice([0, 1, 0x80000000, 0xFFFFFFFF, 0x10F]),
                                       os2_ul_code_page_range2=rng.choice([0, 1, 0x80000000, 0x20])),
                        OpenTypeOS2Panose=[1] * 10).get(k)
            if k == "Hdmx PPMs 1":
                d[k] = [8, 9]
            elif d[k] is None:
                d[k] = rng.choice([0, 0, num(rng)]) if k in fontinfo.MAXP else num(rng)
            if k in ("head_lowest_rec_ppem", "os2_us_win_ascent", "os2_us_win_descent"):
                d[k] = abs(d[k])  # the UFO has no others
        return d
    return text(rng)


IDS = list(fontinfo.SAME) + list(fontinfo.LIB) + [
    1030, 1024, 1137, 1034, 1048, 1138, 1267, 1265, 1264, 1261, 1262, 1263]


def gen(rng):
    k = rng.choice([0, 1, 1, 2, 6, len(IDS)])
    ids = rng.sample(IDS, min(k, len(IDS)))
    if rng.random() < 0.2 and ids:
        ids.append(rng.choice(ids))
    ents = [(i, gen_value(rng, i)) for i in ids]
    M = rng.choice([1, 1, 2, 4])
    ps = []
    for _ in range(M):
        full = dict(
            force_bold=rng.choice([0, 1]), blue_values=[rng.randint(-300, 900) for _ in range(14)],
            other_blues=[rng.randint(-300, 900) for _ in range(10)],
            family_blues=[rng.randint(-300, 900) for _ in range(14)],
            family_other_blues=[rng.randint(-300, 900) for _ in range(10)],
            blue_scale=rng.choice([0.039625, 0.0, 0.05]), blue_shift=rng.randint(0, 9), blue_fuzz=rng.randint(0, 9),
            std_hw=rng.randint(0, 99), std_vw=rng.randint(0, 99),
            stem_snap_h=[rng.randint(0, 200) for _ in range(12)], stem_snap_v=[rng.randint(0, 200) for _ in range(12)],
            ascender=num(rng), descender=num(rng), x_height=num(rng), cap_height=num(rng))
        ps.append(full if rng.random() < 0.8 else {})
    for i, (k, _) in fontinfo.COUNTED.items():
        if rng.random() < 0.5:
            ents.insert(rng.randint(0, len(ents)), (i, rng.choice([0, 1, 2, 5, 10])))
    return ents, ps, rng.random() < 0.7


# ------------------------------------------------------------------ proofs
UFOLIB = ("guidelines", "openTypeGaspRangeRecords", "openTypeNameRecords", "openTypeOS2WidthClass")


def setup_info(e):
    """the attributes that ufoLib2 turns into objects of its own keep their values (trusted)"""
    from pyvc.values import FList, HList, Ref
    from ufoLib2.objects.info import Info
    from vfbLib.helpers import binaryToIntList

    def put(name):
        def f(e, a, kw):
            e.get(a[0]).attrs["_" + name] = a[1]

        return f

    for name in UFOLIB:
        e.contracts[getattr(Info, name).fset] = put(name)
    bits = e.contracts[binaryToIntList]

    def fresh_bits(e, a, kw):
        r = bits(e, a, kw)
        return e.alloc(HList(r.seq)) if isinstance(r, FList) else r

    e.contracts[binaryToIntList] = e.contracts[fontinfo.bits] = fresh_bits


def setup_build(e):
    from vfbLib.ufo.builder import VfbToUfoBuilder as B
    from vfbLib.ufo.info import VfbToUfoInfo

    setup_info(e)
    for f in (B.add_current_glyph, B.assure_tt_lib, B.build_tt_stems_lib, B.build_tt_zones_lib,
              B.build_tt_glyph_lib, B.fix_masters_count, VfbToUfoInfo.fix_underline_position):
        e.contracts[f] = lambda e, a, kw: None


def anything(what):
    from pyvc.terms import I, REG
    from pyvc.values import FObj
    from specs.abstract import Datum

    import z3
    return FObj(Datum, (("number", z3.Const(REG.fresh_name(what), I)),))


def a_dict(e, d):
    from pyvc.values import HDict

    return e.alloc(HDict(tuple(("e", k, v) for k, v in d.items())))


def some_info(e):
    """a font info in any state"""
    from attrs import fields
    from pyvc.values import HInst
    from ufoLib2.objects.info import Info
    from vfbLib.ufo.info import VfbToUfoInfo

    info = e.alloc(HInst(VfbToUfoInfo))
    for f in fields(Info):
        e.get(info).attrs[f.name] = anything(f.name)
    e.setattr(info, "lib", a_dict(e, {}))
    e.call(e.getattr(info, "build_mapping"), [])
    return info


def some_builder(e, entries):
    """a builder in any state, for a font with these entries"""
    from pyvc.values import FObj, HInst, HList
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.vfb.vfb import Vfb

    b = e.alloc(HInst(VfbToUfoBuilder))
    for k in vars(VfbToUfoBuilder(Vfb(timing=False))):
        e.setattr(b, k, anything(k))
    vfb = FObj(Vfb, (("minimal", False), ("entries", e.alloc(HList(tuple(("e", x) for x in entries))))))
    e.setattr(b, "vfb", vfb)
    e.setattr(b, "minimal", False)
    e.setattr(b, "info", some_info(e))
    e.setattr(b, "lib", a_dict(e, {"com.fontlab.v2.tth": a_dict(e, {"stemsnaplimit": 1})}))
    return b


def state(e, info):
    return {k: v for k, v in e.get(info).attrs.items() if k not in ("lib", "mapping", "mapping_int")}


def check_info(e, info, before, want):
    """the attributes in want have these values, all others are as they were"""
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq

    now = state(e, info)
    for k, v in before.items():
        name = k.lstrip("_")
        if name in want:
            Comparer(e, f"font info {name}").value(now[k], want[name])
        else:
            e.prove(f"font info {name} stays as it was", synt_eq(e.force(now[k]), e.force(v)))
    for k in want:
        if k not in now and "_" + k not in now:
            e.prove(f"font info {k}", False)


def an_entry(i, data):
    from pyvc.values import FObj
    from specs.abstract import SomeEntry

    return FObj(SomeEntry, (("id", i), ("key", "some key"), ("data", data)))


def number_of_bits(name, size, idx=()):
    """a number by its bits"""
    import z3
    from pyvc.schema import _app

    c = [_app(f"{name}.{j}", z3.BoolSort(), idx) for j in range(size)]
    return c, z3.Sum([z3.If(x, 2 ** j, 0) for j, x in enumerate(c)])


def Bits(size):
    from pyvc.schema import Dep

    return Dep(None, lambda path, idx: number_of_bits(path, size, idx)[1])


def bit_list(c, drop=(), add=0):
    import z3
    from pyvc.values import FList

    return FList(tuple(("c", ((x, (("e", j + add),)), (z3.Not(x), ()))) for j, x in enumerate(c) if j not in drop))


def style_of(e, c, before):
    if e.branch(c[6]):
        return "regular"
    if e.branch(c[5]):
        return "bold italic" if e.branch(c[0]) else "bold"
    return "italic" if e.branch(c[0]) else before


def p_entry(e, i):
    """one entry, whatever came before it"""
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.schema import ListOf, Rec, S32, Text, Tup, U16
    import z3

    d = anything("value")
    want, lib, counts = {}, {}, {}
    if i in fontinfo.SAME:
        want[fontinfo.SAME[i]] = d
    elif i in fontinfo.LIB:
        lib[fontinfo.LIB[i]] = d
    elif i == 1030:
        want["postscriptUnderlinePosition"] = d
    elif i == 1024:
        want["familyName"] = want["openTypeNamePreferredFamilyName"] = d
    elif i == 1137:
        want["styleName"] = want["openTypeNamePreferredSubfamilyName"] = d
    elif i == 1034:
        d = S32.sym("value")
        want["postscriptIsFixedPitch"] = d != 0
    elif i == 1048:
        d = S32.sym("value")
        want["openTypeOS2WeightClass"] = z3.If(d < 1, 1, z3.If(d > 1000, 1000, d))
    elif i == 1138:
        d = ListOf(Tup(U16, U16, U16, U16, Text())).sym("records")
        want["openTypeNameRecords"] = e.call(fontinfo.name_records, [d])
    elif i == 1267:
        c, d = number_of_bits("bit", 16)
        e.assume(z3.Not(z3.And(c[6], z3.Or(c[0], c[5]))))  # regular and bold or italic is no style
        want["openTypeOS2Selection"] = bit_list(c, drop=(0, 5, 6))
    elif i == 1265:
        d = ListOf(Rec(dict(maxPpem=U16, flags=Bits(4)))).sym("ranges")
        want["openTypeGaspRangeRecords"] = e.call(fontinfo.gasp_records, [d])
    elif i in fontinfo.COUNTED:
        counts["num_" + fontinfo.COUNTED[i][0]] = d
    e.subject = (i, d)
    b = some_builder(e, [an_entry(i, d)])
    info = e.getattr(b, "info")
    before, mine = state(e, info), dict(e.get(b).attrs)
    mine.update(counts)
    if i == 1267:
        want["styleMapStyleName"] = style_of(e, c, before["styleMapStyleName"])
    e.call(e.getattr(b, "build"), [])
    check_info(e, info, before, want)
    for k, v in mine.items():
        e.prove(f"{k} of the conversion stays as it was", synt_eq(e.force(e.getattr(b, k)), e.force(v)))
    got = e.getattr(b, "lib")
    for k in fontinfo.LIB.values():
        has = e.contains(got, k)
        e.prove(f"lib has {k}", has == (k in lib))
        if k in lib:
            Comparer(e, f"lib {k}").value(e.getitem(got, k), lib[k])


def p_tt(e, i, there):
    """TrueType entries: the control values, the programs and the TrueType info, with or without what
    other entries have put into the lib"""
    import struct
    import vfbLib.ufo.builder as B
    import z3
    from fontTools.misc.textTools import deHexStr
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.schema import ListOf, S16
    from pyvc.values import FBytes, FDict, FList, Ref
    from vfbLib.ufo.info import VfbToUfoInfo
    from vfbLib.ufo.vfb2ufo import TT_UFO_LIB_KEY

    d = anything("text")
    raw, asm, values = anything("bytes"), anything("assembly"), ListOf(S16).sym("values")
    calls = []

    def dehex(e, a, kw):
        e.prove("the text of the entry", synt_eq(e.force(a[0]), d))
        return raw

    def unpack(e, a, kw):
        e.prove("little-endian signed 16-bit values", e.force(a[0]) in ("<h", b"<h") and synt_eq(e.force(a[1]), raw))
        e.assumptions.add("struct.iter_unpack('<h', x): the signed 16-bit values of x in order")
        seq = values.seq[0]
        return FList((("r", seq[1], seq[2], (("e", (seq[3][0][1],)),)),))

    def assembly(e, a, kw):
        e.prove("the bytes of the entry", synt_eq(e.force(a[0]), raw))
        return asm

    e.contracts[deHexStr] = dehex
    e.contracts[struct.iter_unpack] = unpack
    e.contracts[B.format_assembly] = assembly
    e.contracts[VfbToUfoInfo.set_tt_info] = lambda e, a, kw: calls.append(a[1:])
    e.subject = (i, there)
    b = some_builder(e, [an_entry(i, d)])
    info = e.getattr(b, "info")
    old = {k: anything(k) for k in ("formatVersion", *there)} if there is not None else {}
    if there is not None:
        e.setattr(info, "lib", a_dict(e, {"other": 1, TT_UFO_LIB_KEY: a_dict(e, old)}))
    else:
        e.setattr(info, "lib", a_dict(e, {"other": 1}))
    before, mine = state(e, info), dict(e.get(b).attrs)
    e.call(e.getattr(b, "build"), [])
    check_info(e, info, before, {})
    for k, v in mine.items():
        e.prove(f"{k} of the conversion stays as it was", synt_eq(e.force(e.getattr(b, k)), e.force(v)))
    e.prove("the info is taken over", len(calls) == (i == 1264) and all(
        len(c) == 1 and synt_eq(e.force(c[0]), d) for c in calls))
    want = {"other": 1}
    tt = dict(old)
    if i != 1264:
        tt = {"formatVersion": old.get("formatVersion", "1"), **tt}
        tt[{1261: "controlValue", 1262: "controlValueProgram", 1263: "fontProgram"}[i]] = e.call(
            fontinfo.control_values, [values]) if i == 1261 else asm
    if tt:
        want[TT_UFO_LIB_KEY] = FDict(tuple(("e", k, v) for k, v in tt.items()))
    Comparer(e, "lib of the font").value(e.getattr(info, "lib"), FDict(tuple(("e", k, v) for k, v in want.items())))


TT_KEYS = list(fontinfo.TTINFO) + list(fontinfo.MAXP) + list(fontinfo.TTINFO_NOT) + [
    "head_creation", "os2_fs_type", "os2_s_family_class", "Average Width", "head_flags", "Codepages",
    "OpenTypeOS2Panose", "Hdmx PPMs 1", "hhea_line_gap"]


def p_ttinfo(e, keys):
    """VfbToUfoInfo.set_tt_info, from any state: the numbers with these names"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, S32, U8
    from pyvc.values import FDict, FList, FObj
    from specs.abstract import SomeDate

    info = some_info(e)
    lib = {"formatVersion": "1", "maxZones": 5, "other": 6}
    e.setattr(info, "lib", a_dict(e, {TT: a_dict(e, lib)}))
    before = state(e, info)
    want, data = {}, {}
    for k in keys:
        v = S32.sym(k)
        if k in fontinfo.TTINFO:
            want[fontinfo.TTINFO[k]] = v
        elif k in fontinfo.MAXP:
            lib[fontinfo.MAXP[k]] = v
        elif k == "head_creation":
            want["openTypeHeadCreated"] = e.call(
                e.getattr(FObj(SomeDate, (("timestamp", v),)), "strftime"), ["%Y/%m/%d %H:%M:%S"])
        elif k == "os2_fs_type":
            c, v = number_of_bits("embedding", 16)
            want["openTypeOS2Type"] = bit_list(c)
        elif k == "os2_s_family_class":
            c, v = number_of_bits("class", 16)
            want["openTypeOS2FamilyClass"] = FList(tuple(
                ("e", z3.Sum([z3.If(x, 2 ** j, 0) for j, x in enumerate(y)])) for y in (c[8:], c[:8])))
        elif k == "Average Width":
            if e.branch(v != 0):
                want["postscriptNominalWidthX"] = z3.If(v > 0, v, -v)
        elif k == "head_flags":
            v = FDict((("e", "options", anything("options")),))
            if e.choose_free(2):
                v = FDict(v.ents + (("e", "flags", anything("flags")),))
                want["openTypeHeadFlags"] = v.ents[-1][2]
            else:
                want["openTypeHeadFlags"] = FList(())
        elif k == "Codepages":
            c, n = number_of_bits("first", 32)
            d, m = number_of_bits("second", 32)
            v = FDict((("e", "os2_ul_code_page_range1", n), ("e", "os2_ul_code_page_range2", m)))
            if e.branch(z3.Or(c + d)):
                want["openTypeOS2CodePageRanges"] = FList(bit_list(c).seq + bit_list(d, add=32).seq)
        elif k in ("OpenTypeOS2Panose", "Hdmx PPMs 1"):
            v = ListOf(U8).sym(k)
        data[k] = v
    e.call(e.getattr(info, "set_tt_info"), [FDict(tuple(("e", k, v) for k, v in data.items()))])
    check_info(e, info, before, want)
    Comparer(e, "lib").value(e.getattr(info, "lib"), FDict((("e", TT, FDict(tuple(
        ("e", k, v) for k, v in lib.items()))),)))


def setup_ttinfo(e):
    import z3
    from pyvc.terms import I, Str
    from pyvc.values import FObj, SStr, Unsupported
    from specs.abstract import SomeDate
    from vfbLib.ufo.time import convert_timestamp

    setup_info(e)

    def text(e, a, kw):
        return SStr(z3.Function(f"date as {e.force(a[1])}", I, Str)(e.getattr(a[0], "timestamp")))

    e.contracts[convert_timestamp] = lambda e, a, kw: FObj(SomeDate, (("timestamp", e.force(a[0])),))
    e.contracts[SomeDate.strftime] = text


def p_underline(e):
    """position of the underline: its top instead of its middle, within half a unit"""
    import z3
    from pyvc.schema import S32
    from pyvc.terms import zi

    info = some_info(e)
    pos, thick = S32.sym("position"), S32.sym("thickness")
    e.subject = (pos, thick)
    e.setattr(info, "postscriptUnderlinePosition", pos)
    e.setattr(info, "postscriptUnderlineThickness", thick)
    before = state(e, info)
    e.call(e.getattr(info, "fix_underline_position"), [])
    got = zi(e.force(e.getattr(info, "postscriptUnderlinePosition")))
    e.prove("top of the underline", z3.And(2 * got <= 2 * pos + thick + 1, 2 * got >= 2 * pos + thick - 1))
    before.pop("postscriptUnderlinePosition")
    check_info(e, info, before, {})


def p_master(e, M, m, hints):
    """VfbToUfoBuilder.get_master_info: values of one master, in a copy of the font's"""
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.schema import Int, ListOf, Rec, S32, U32
    from pyvc.values import FDict, FList

    b = some_builder(e, [])
    info = e.getattr(b, "info")
    before = state(e, info)
    ps = []
    for i in range(M):
        d = {k: anything(k) for k in list(fontinfo.MASTER) + list(fontinfo.HINTS)}
        d["force_bold"] = S32.sym(f"force bold {i}")
        for k, n in (("blue_values", 14), ("other_blues", 10), ("family_blues", 14),
                     ("family_other_blues", 10), ("stem_snap_h", 12), ("stem_snap_v", 12)):
            d[k] = FList(tuple(("e", anything(k)) for _ in range(n)))
        ps.append(d)
    e.setattr(b, "masters_ps_info", FList(tuple(
        ("e", FDict(tuple(("e", k, v) for k, v in d.items()))) for d in ps)))
    e.setattr(b, "include_ps_hints", hints)
    e.setattr(b, "mm_guides", None)
    want = {v: ps[m][k] for k, v in fontinfo.MASTER.items()}
    case = e.choose_free(5)
    for j, (key, attr) in enumerate(fontinfo.COUNTED.values()):
        n = (case * 3 + j * case) % 11
        e.setattr(b, f"num_{key}", n)
        if n and hints:
            want[attr] = FList(ps[m][key].seq[:n])
    if hints:
        want.update({v: ps[m][k] for k, v in fontinfo.HINTS.items()})
        want["postscriptForceBold"] = ps[m]["force_bold"] != 0
    got = e.call(e.getattr(b, "get_master_info"), [m])
    e.prove("a font info of its own", got != info)
    check_info(e, got, before, want)
    for k, v in before.items():
        e.prove(f"font info {k} of the font", synt_eq(e.force(e.get(info).attrs[k]), e.force(v)))


def setup_master(e):
    import copy as c
    from pyvc.values import HInst, Ref

    setup_info(e)

    def deepcopy(e, a, kw):
        x = e.force(a[0])
        if isinstance(x, Ref) and isinstance(e.get(x), HInst):
            return e.alloc(HInst(e.get(x).cls, dict(e.get(x).attrs)))
        raise Unsupported("copy of something else")

    from pyvc.values import Unsupported
    e.contracts[c.deepcopy] = deepcopy


def proofs():
    from props.proofs import Proof

    out = []
    for i in list(fontinfo.SAME) + list(fontinfo.LIB) + [1030, 1024, 1137, 1034, 1048, 1138, 1267, 1265] + list(
            fontinfo.COUNTED):
        out.append(Proof(f"entry {i} in VfbToUfoBuilder.build", p_entry, (i,), setup=setup_build, modular=True))
    for i in (1261, 1262, 1263, 1264):
        for there in (None, (), ("controlValue", "controlValueProgram", "fontProgram")):
            out.append(Proof(f"entry {i} in VfbToUfoBuilder.build, TrueType lib {'absent' if there is None else list(there)}",
                             p_tt, (i, there), setup=setup_build, modular=True))
    for k in TT_KEYS:
        out.append(Proof(f"VfbToUfoInfo.set_tt_info, {k}", p_ttinfo, ([k],), setup=setup_ttinfo, modular=True))
    out.append(Proof("VfbToUfoInfo.set_tt_info, all", p_ttinfo, ([k for k in TT_KEYS if k not in (
        "Codepages", "os2_fs_type", "Average Width")],), setup=setup_ttinfo, modular=True))
    out.append(Proof("VfbToUfoInfo.fix_underline_position", p_underline, setup=setup_info))
    for M, m in ((1, 0), (2, 0), (2, 1), (4, 3)):
        for h in (False, True):
            out.append(Proof(f"get_master_info, master {m + 1} of {M}" + ", no PostScript hints" * (not h),
                             p_master, (M, m, h), setup=setup_master, modular=True))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for i in IDS:
        for _ in range(run.n(4, 60)):
            run.case(info_contract, [(i, gen_value(rng, i))], [{}], True)
    for _ in range(run.n(150, 3000)):
        run.case(info_contract, *gen(rng))
    return proofs.finish(run)
