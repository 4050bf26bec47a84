"""C21 glyph data in the UFO"""
import copy

from specs import glyphdata

TTL = "public.truetype.instructions"


def outline(g):
    return [[(p.x, p.y, p.type, p.smooth, p.name) for p in c] for c in g.contours]


def parts(g):
    return dict(
        width=g.width, height=g.height, unicodes=list(g.unicodes), note=g.note, lib={k: v for k, v in g.lib.items()},
        anchors=[(a.x, a.y, a.name) for a in g.anchors], outline=outline(g),
        components=[(c.baseGlyph, tuple(c.transformation)) for c in g.components],
        guidelines=[(x.x, x.y, x.angle, x.name, x.color) for x in g.guidelines])


def glyph_contract(M, glyphs, minimal):
    """every glyph of each master has its own data, those without have none"""
    from specs.fonts import export, make_font

    fails = []
    plain = [copy.deepcopy(d) for d, _ in glyphs]
    masks = []
    for i, (d, follow) in enumerate(glyphs):
        nodes = glyphdata.expected(follow, M, 0)["nodes"]
        masks.append(dict(name=f"mask of {i}", num_masters=M, nodes=copy.deepcopy(nodes), metrics=[(0, 0)] * M))
    base = export(make_font(M, [], plain + masks), minimal=minimal)
    vfb = make_font(M, [], copy.deepcopy(glyphs))
    data = copy.deepcopy([x.data for x in vfb.entries])
    got = export(vfb, minimal=minimal)
    if [x.data for x in vfb.entries] != data:
        fails.append(dict(clause="the font itself stays as it is", detail=""))
    for m, (b, f) in enumerate(zip(base, got)):
        layer = f.layers["public.background"] if "public.background" in f.layers else {}
        with_mask = []
        if [g.name for g in f] != [d["name"] for d, _ in glyphs]:
            fails.append(dict(clause="glyphs of a master", detail=str([g.name for g in f])))
            continue
        for i, (d, follow) in enumerate(glyphs):
            name = d["name"]
            want = parts(b[name])
            new = glyphdata.expected(follow, M, m)
            want["width"], want["height"] = d["metrics"][m]
            want["unicodes"] = new["unicodes"]
            want["note"] = new["note"]
            want["anchors"] = [(a["x"], a["y"], a.get("name")) for a in new["anchors"]]
            want["lib"].update(new["lib"])
            if d.get("imported"):
                want["lib"] = dict(want["lib"])
                want["lib"][TTL] = dict(want["lib"][TTL], id=outline_hash(f, name, d["metrics"][m][0]))
            have = parts(f[name])
            color = have["lib"].get("public.markColor")
            rgb = want["lib"].get("public.markColor")
            if color is not None and rgb is not None and color_fits(color, rgb):
                want["lib"]["public.markColor"] = color
            for k in want:
                if have[k] != want[k]:
                    fails.append(dict(clause=f"{k} of a glyph", detail=f"{name} {m}: {have[k]} is not {want[k]}"[:400]))
            mask = b[f"mask of {i}"]
            if len(mask.contours) and not minimal:
                with_mask.append(name)
                if name not in layer:
                    continue
                x = layer[name]
                w = new["metrics"] or d["metrics"][m]
                if outline(x) != outline(mask):
                    fails.append(dict(clause="mask", detail=f"{name} {m}: {outline(x)} is not {outline(mask)}"[:400]))
                if (x.width, x.height) != tuple(w):
                    fails.append(dict(clause="size of the mask", detail=f"{name} {m}: {x.width} {x.height} is not {w}"))
        if sorted(g.name for g in layer) != sorted(with_mask):
            fails.append(dict(clause="glyphs with mask", detail=f"{sorted(g.name for g in layer)} is not {with_mask}"))
    return fails


def outline_hash(font, name, width):
    from fontTools.pens.hashPointPen import HashPointPen

    pen = HashPointPen(width, glyphSet=font)
    font[name].drawPoints(pen)
    return pen.hash


def color_fits(text, rgb):
    p = text.split(",")
    if len(p) != 4 or p[3] != "1":
        return False
    return all(len(x) == 6 and abs(float(x) - v) <= 0.00005001 for x, v in zip(p, rgb))


# ------------------------------------------------------------------ bounded runs
def gen(rng):
    from props import c12, c14

    M = rng.choice([1, 1, 2, 4, 16])
    n = rng.choice([1, 2, 4])
    co = lambda: rng.choice([0, 1, -1, 300, -4000, 32767, rng.randint(-999, 999)])
    glyphs = []
    p = rng.choice([0.1, 0.5, 1.0])
    for i in range(n):
        d = dict(name=f"g{i}", num_masters=M, nodes=c14.gen_nodes(rng, M, rng.choice([0, 1])),
                 metrics=[(abs(co()), abs(co())) for _ in range(M)])
        if rng.random() < 0.4:
            d["imported"] = dict(instructions=["SVTCA[0]", "IUP[1]"])
        ents = []

        def add(k, f):
            if rng.random() < p:
                ents.append((k, f()))

        def gdef():
            r = {}
            if rng.random() < 0.8:
                r["anchors"] = [dict(x=co(), y=co()) for _ in range(rng.choice([1, 2, 3]))]
                for a in r["anchors"]:
                    if rng.random() < 0.8:
                        a["name"] = rng.choice(["top", "_top", "bot"])
            if rng.random() < 0.3:
                r["carets"] = [(100, 0)]
            return r

        add(1250, lambda: [rng.randrange(1, 65536) for _ in range(rng.choice([0, 1, 3]))])
        add(1253, lambda: [rng.randrange(65536, 0x110000) for _ in range(rng.choice([1, 2]))])
        add(2018, gdef)
        add(2012, lambda: rng.randint(0, 255))
        add(2015, lambda: rng.choice(["", "user", "a\nb"]))
        add(2017, lambda: rng.choice(["note", "two\nlines", "ä"]))
        add(2007, lambda: image(rng))
        add(2013, lambda: c12.datum(rng, 2013))
        add(2009, lambda: dict(num_masters=M, weight_vector=[1.0], nodes=c14.gen_nodes(rng, M, rng.choice([0, 1, 2]))))
        add(2009, lambda: dict(num_masters=M, weight_vector=[1.0]))
        ents = ents[:]
        rng.shuffle(ents)
        if rng.random() < p:
            ents.append((2011, (abs(co()), abs(co()))))
            if M > 1:
                ents.append((2028, [(abs(co()), abs(co())) for _ in range(M - 1)]))
        for k, x in list(ents):
            if k == 2018 and "anchors" in x and rng.random() < 0.7:
                ents.insert(rng.randint(0, len(ents)), (2029, [
                    dict(x=[co() for _ in range(M)], y=[co() for _ in range(M)])
                    for _ in range(rng.choice([len(x["anchors"]), 1]))]))
        glyphs.append((d, ents))
    return M, glyphs, rng.random() < 0.1


def image(rng):
    from props import c12

    r = c12.random_bitmap(rng, True)
    if rng.random() < 0.5:
        r["bitmap"]["preview"] = ["#", " "]
    return r


# ------------------------------------------------------------------ proofs
def some_glyph(e, **attrs):
    """a glyph in any state"""
    from props.c22 import a_dict, anything
    from pyvc.schema import ListOf, S32, Tup, U32
    from pyvc.values import HInst, HList
    from vfbLib.ufo.glyph import VfbToUfoGlyph

    g = e.alloc(HInst(VfbToUfoGlyph))
    for k in vars(VfbToUfoGlyph()):
        e.setattr(g, k, anything(k))
    e.setattr(g, "lib", a_dict(e, {"other": anything("other")}))
    e.setattr(g, "unicodes", e.alloc(HList(ListOf(U32).sym("earlier code points").seq)))
    e.setattr(g, "mm_mask_metrics", e.alloc(HList(ListOf(Tup(S32, S32)).sym("earlier sizes").seq)))
    for k, v in attrs.items():
        e.setattr(g, k, v)
    return g


def frozen(e, x):
    """what a list or dict holds now"""
    from pyvc.values import FDict, FList, HDict, HList, Ref

    if isinstance(x, Ref):
        p = e.get(x)
        if isinstance(p, (HDict, HList)):
            return FDict(p.ents) if isinstance(p, HDict) else FList(p.seq)
    return x


def some_data(e, k):
    """data of the entry, with what becomes of them"""
    from props.c22 import anything
    from pyvc.schema import Hex, ListOf, Rec, S32, Text, Tup, U32
    from pyvc.values import FDict, FList

    if k in (1250, 1253):
        return ListOf(U32).sym("code points")
    if k == 2018:
        pos = dict(x=S32, y=S32)
        d = dict(glyph_class=anything("class"), carets=anything("carets"))
        if e.choose_free(2):
            d["anchors"] = ListOf(Rec(dict(pos, name=Text()), optional=("name",))).sym("anchors")
        return FDict(tuple(("e", x, y) for x, y in d.items()))
    if k == 2007:
        b = dict(flag=anything("flag"), data=anything("image data"))
        if e.choose_free(2):
            b["preview"] = anything("preview")
        b = FDict(tuple(("e", x, y) for x, y in b.items()))
        return FDict((("e", "origin", anything("origin")), ("e", "bitmap", b)))
    if k == 2013:
        pair = Tup(S32, S32)
        return ListOf(Rec(dict(ppm=S32, origin=pair, adv=pair, size_pixels=pair, bitmap=Rec(dict(
            flag=S32, data=ListOf(U32)))))).sym("bitmaps")
    if k == 2009:
        d = dict(num_masters=anything("masters"), weight_vector=anything("weights"))
        if e.choose_free(2):
            d["nodes"] = anything("nodes")
        return FDict(tuple(("e", x, y) for x, y in d.items()))
    if k == 2011:
        return Tup(S32, S32).sym("size")
    if k == 2028:
        return ListOf(Tup(S32, S32)).sym("sizes")
    return anything("data")


IN_LIB = {2015: "com.fontlab.v5.userData", 2007: "com.fontlab.v5.background", 2013: "com.fontlab.v5.bitmaps"}
STORED = {2017: "note", 2029: "mm_anchors", 2008: "links", 2031: "guide_properties"}


def p_follow(e, k):
    """one entry behind the entry of a glyph in any state, through VfbToUfoBuilder.build"""
    from props.c22 import an_entry, some_builder
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.values import FDict, FList

    d = some_data(e, k)
    e.subject = (k, d)
    b = some_builder(e, [an_entry(k, d)])
    g = some_glyph(e)
    e.setattr(b, "current_glyph", g)
    before = {x: frozen(e, v) for x, v in e.get(g).attrs.items()}
    mine = dict(e.get(b).attrs)
    want, lib = {}, {"other": e.getitem(before["lib"], "other")}
    if k in (1250, 1253):
        want["unicodes"] = FList(before["unicodes"].seq + d.seq)
    elif k == 2011:
        want["mm_mask_metrics"] = FList(before["mm_mask_metrics"].seq + (("e", d),))
    elif k == 2028:
        want["mm_mask_metrics"] = FList(before["mm_mask_metrics"].seq + d.seq)
    elif k in STORED:
        want[STORED[k]] = d
    elif k == 2018:
        if e.contains(d, "anchors"):
            want["anchors"] = e.call(glyphdata.anchors, [d])
    elif k == 2009:
        want["mm_mask_nodes"] = e.call(e.getattr(d, "get"), ["nodes", FList(())])
    elif k == 2013:
        lib[IN_LIB[k]] = e.call(glyphdata.ufo_bitmaps, [d])
    elif k == 2015:
        lib[IN_LIB[k]] = d
    elif k == 2007:
        bm = FDict(tuple(x for x in e.getitem(d, "bitmap").ents if x[1] != "preview"))
        lib[IN_LIB[k]] = FDict((("e", "origin", e.getitem(d, "origin")), ("e", "bitmap", bm)))
    e.call(e.getattr(b, "build"), [])
    for x, v in mine.items():
        e.prove(f"{x} of the conversion stays as it was", synt_eq(e.force(e.getattr(b, x)), e.force(v)))
    now = e.get(g).attrs
    for x in now:
        if x == "lib":
            Comparer(e, "lib of the glyph").value(now[x], FDict(tuple(("e", a, y) for a, y in lib.items())))
        elif x in want or x in ("unicodes", "mm_mask_metrics"):
            Comparer(e, f"{x} of the glyph").value(now[x], want.get(x, before.get(x)))
        else:
            e.prove(f"{x} of the glyph stays as it was", x in before and synt_eq(
                e.force(now[x]), e.force(before[x])))


def p_mask_size(e):
    """UfoMasterGlyph._extract_master_mask_metrics for any number of masters"""
    from props.c22 import anything
    from pyvc.compare import Comparer
    from pyvc.schema import Int, ListOf, S32, Tup
    from pyvc.terms import zi
    from vfbLib.ufo.paths import UfoMasterGlyph
    import z3

    own = ListOf(Tup(S32, S32)).sym("sizes of the glyph")
    mask = ListOf(Tup(S32, S32)).sym("sizes of the mask")
    m = Int(0, 15).sym("master")
    e.subject = (own, mask, m)
    n, c = own.seq[0][1], mask.seq[0][1]
    e.assume(z3.And(m < n, z3.Or(c == 0, c == n)))
    x = master_glyph(e, some_glyph(e, mm_metrics=own, mm_mask_metrics=mask), m)
    e.call(e.getattr(x, "_extract_master_mask_metrics"), [])
    want = e.getitem(mask if e.branch(c > 0) else own, m)
    Comparer(e, "size of the mask").value(e.getattr(x, "mask_metrics"), want)


def master_glyph(e, g, m):
    from pyvc.values import FList
    from vfbLib.ufo.paths import UfoMasterGlyph

    return e.call(UfoMasterGlyph, [g, FList(()), m])


def p_anchors(e, A, C):
    """UfoMasterGlyph._extract_master_anchors: A anchors, C of which (or None) have positions in
    any number of masters"""
    from pyvc.compare import Comparer
    from pyvc.schema import Int, ListOf, Rec, S32, Text
    from pyvc.values import FDict, FList
    import z3

    m = Int(0, 15).sym("master")
    al, ml, want = [], [], []
    for j in range(A):
        d = dict(x=S32.sym(f"x {j}"), y=S32.sym(f"y {j}"))
        if e.choose_free(2):
            d["name"] = Text().sym(f"name {j}")
        al.append(d)
        want.append(dict(d))
    for j in range(C or 0):
        p = {k: ListOf(S32, 1).sym(f"{k} of anchor {j}") for k in "xy"}
        for k in "xy":
            e.assume(m < p[k].seq[0][1])
            want[j][k] = e.getitem(p[k], m)
        ml.append(p)

    def table(x):
        return FList(tuple(("e", FDict(tuple(("e", k, v) for k, v in d.items()))) for d in x))

    e.subject = (table(al), table(ml), m)
    g = some_glyph(e, anchors=table(al), mm_anchors=None if C is None else table(ml))
    x = master_glyph(e, g, m)
    e.call(e.getattr(x, "_extract_master_anchors"), [])
    Comparer(e, "anchors").value(e.getattr(x, "anchors"), table(want))
    Comparer(e, "anchors of the other masters").value(e.getattr(g, "anchors"), table(al))


STEPS = ("_extract_master_ps_hints", "_extract_master_contours", "_extract_master_mask_metrics",
         "_finalize_point_labels", "_extract_master_tt_hints", "_extract_master_anchors",
         "_extract_master_guides")


def setup_master(e):
    from vfbLib.ufo.paths import UfoMasterGlyph

    from props.c22 import setup_build
    setup_build(e)
    for n in STEPS:
        e.contracts[getattr(UfoMasterGlyph, n)] = lambda e, a, kw: None


def p_build(e, minimal, hints):
    """UfoMasterGlyph.build: what does not depend on its other methods"""
    from props.c22 import a_dict, anything
    from pyvc.compare import Comparer
    from pyvc.schema import Int, ListOf, S32, Tup
    from pyvc.values import FDict, HList, Ref

    own = ListOf(Tup(S32, S32)).sym("sizes of the glyph")
    m = Int(0, 15).sym("master")
    e.subject = (own, m)
    e.assume(m < own.seq[0][1])
    inner = a_dict(e, {"a": anything("inner")})
    g = some_glyph(e, mm_metrics=own, lib=a_dict(e, {"x": anything("x"), "y": inner}), tth_commands=e.alloc(HList(())))
    codes = frozen(e, e.getattr(g, "unicodes"))
    x = master_glyph(e, g, m)
    e.call(e.getattr(x, "build"), [minimal, hints])
    w, h = e.call(tuple, [e.getitem(own, m)])
    Comparer(e, "width").value(e.getattr(x, "width"), w)
    Comparer(e, "height").value(e.getattr(x, "height"), h)
    Comparer(e, "code points").value(e.getattr(x, "unicodes"), codes)
    Comparer(e, "lib").value(e.getattr(x, "lib"), e.getattr(g, "lib"))
    e.prove("a lib of its own", e.force(e.getattr(x, "lib")) != e.force(e.getattr(g, "lib")))
    e.prove("data of its own in the lib", e.force(e.getitem(e.getattr(x, "lib"), "y")) != inner)
    e.prove("a list of code points of its own", e.force(e.getattr(x, "unicodes")) != e.force(e.getattr(g, "unicodes")))



def setup_fonts(e):
    from fontTools.pens.hashPointPen import HashPointPen
    from specs import ufofont
    from ufoLib2.objects.font import Font
    from ufoLib2.objects.glyph import Glyph
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.ufo.kerning import UfoKerning
    from vfbLib.ufo.paths import UfoMasterGlyph

    from props.c22 import anything, setup_build
    setup_build(e)

    def made(cls):
        return lambda e, a, kw: e.instantiate(cls, a, kw)

    e.contracts[Font] = made(ufofont.SomeFont)
    e.contracts[Glyph] = made(ufofont.SomeGlyph)
    e.contracts[HashPointPen] = made(ufofont.SomeHashPen)
    e.contracts[UfoMasterGlyph] = made(ufofont.SomeMaster)
    e.made = {}

    def of_master(what):
        def f(e, a, kw):
            m = a[1] if len(a) > 1 else kw["master_index"]
            if (what, m) not in e.made:
                e.made[what, m] = anything(what)
            return e.made[what, m]

        return f

    e.contracts[VfbToUfoBuilder.get_master_info] = of_master("info")
    e.contracts[UfoKerning.get_master_kerning] = of_master("kerning")


def p_font(e, G, m, minimal):
    """VfbToUfoBuilder.get_ufo_master: G glyphs with any data"""
    from props.c22 import a_dict, anything, some_builder
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.values import FDict, FList, HInst, HList, Ref
    from specs import ufofont
    from ufoLib2.objects.features import Features
    from vfbLib.ufo.kerning import UfoKerning

    b = some_builder(e, [])
    case = e.choose_free(4)
    mm, data = [], []
    for j in range(G):
        d = {k: anything(k) for k in ("anchors", "guidelines", "unicodes", "width", "height")}
        d["mask_metrics"] = (anything("mask width"), anything("mask height"))
        tt = a_dict(e, {"assembly": anything("assembly")})
        hints = (case + j) % 2 == 0
        d["lib"] = a_dict(e, dict({"x": anything("x")}, **({TTL: tt} if hints else {})))
        mask = bool((case // 2 + j // 2 + j) % 2)
        x = e.instantiate(ufofont.SomeMMGlyph, [f"glyph {j}", anything("note"), a_dict(e, d), mask], {})
        mm.append(x)
        data.append((d, hints, tt, mask))
    e.setattr(b, "glyph_masters", a_dict(e, {f"glyph {j}": x for j, x in enumerate(mm)}))
    kern = e.alloc(HInst(UfoKerning))
    e.setattr(b, "ufo_kerning", kern)
    feat = e.alloc(HInst(ufofont.SomeMMGlyph))
    e.setattr(feat, "text", anything("feature code"))
    e.setattr(b, "ufo_features", feat)
    groups = a_dict(e, {"a": anything("members")})
    e.setattr(b, "ufo_groups", groups)
    e.setattr(b, "minimal", minimal)
    mine = dict(e.get(b).attrs)
    font = e.call(e.getattr(b, "get_ufo_master"), [m, True])
    got = e.getattr(font, "parts")
    for k, v in dict(features=e.getattr(feat, "text"), info=e.made["info", m], kerning=e.made["kerning", m],
                     lib=e.getattr(b, "lib")).items():
        e.prove(f"{k} of the font", synt_eq(e.force(e.getitem(got, k)), e.force(v)))
    Comparer(e, "groups of the font").value(e.getitem(got, "groups"), groups)
    e.prove("groups of its own", e.force(e.getitem(got, "groups")) != groups)
    glyphs = e.call(list, [e.getattr(font, "glyphs")])
    glyphs = [x[1] for x in e.get(glyphs).seq]
    e.prove("one glyph each", len(glyphs) == G)
    for j, (g, x) in enumerate(zip(glyphs, mm)):
        d, hints, tt, mask = data[j]
        a = e.get(g).attrs
        e.prove("name of a glyph", synt_eq(e.force(a["name"]), f"glyph {j}"))
        (_, (kind, src)), = e.get(a["log"]).seq
        e.prove("outline of its own master glyph", kind == "outline" and e.force(e.getattr(src, "mm_glyph")) == x)
        order, index = e.call(tuple, [e.getattr(src, "key")])
        e.prove("master", synt_eq(e.force(index), m))
        e.prove("order of the glyphs", synt_eq(e.force(order), e.force(e.getattr(b, "glyphOrder"))))
        for y, z in zip(e.call(tuple, [e.getattr(src, "built")]), (minimal, e.getattr(b, "include_ps_hints"),
                                                                   e.getattr(b, "encode_data_base64"))):
            e.prove("options of the conversion", synt_eq(e.force(y), e.force(z)))
        for k in ("anchors", "guidelines", "unicodes", "width", "height", "lib"):
            e.prove(f"{k} of a glyph", k in a and synt_eq(e.force(a[k]), e.force(d[k])))
        e.prove("note of a glyph", "note" in a and synt_eq(e.force(a["note"]), e.force(e.getattr(x, "note"))))
        e.prove("nothing else of a glyph", set(a) <= {
            "anchors", "guidelines", "unicodes", "width", "height", "lib", "note", "name", "log", "contours"})
        e.prove("hash of the outline", e.contains(tt, "id") == hints)
        if hints:
            h = e.force(e.getitem(tt, "id"))
            e.prove("hash of its own outline", isinstance(h, Ref) and e.getattr(h, "drawn") == g)
            w, glyphset = e.call(tuple, [e.getattr(h, "made")])
            e.prove("hash with its own width", synt_eq(e.force(w), e.force(d["width"])))
            e.prove("hash with the outlines of this font", e.force(glyphset) == font)
    layers = [x[1] for x in e.get(e.getattr(e.getattr(font, "layers"), "all")).seq]
    want = [] if minimal else [j for j in range(G) if data[j][3]]
    e.prove("a background layer, if there is a mask", len(layers) == bool(want))
    for layer in layers:
        e.prove("name of the layer", synt_eq(e.force(e.getattr(layer, "name")), "public.background"))
        mg = [x[1] for x in e.get(e.getattr(layer, "glyphs")).seq]
        e.prove("the glyphs with mask", len(mg) == len(want))
        for g, j in zip(mg, want):
            a = e.get(g).attrs
            e.prove("name of the glyph of a mask", synt_eq(e.force(a["name"]), f"glyph {j}"))
            (_, (kind, src)), = e.get(a["log"]).seq
            e.prove("mask of its own master glyph", kind == "mask" and e.force(e.getattr(src, "mm_glyph")) == mm[j])
            w, h = data[j][0]["mask_metrics"]
            e.prove("size of a mask", synt_eq(e.force(a["width"]), w) and synt_eq(e.force(a["height"]), h))
    for k, v in mine.items():
        e.prove(f"{k} of the conversion stays as it was", synt_eq(e.force(e.getattr(b, k)), e.force(v)))


def proofs():
    from props.c22 import setup_build
    from props.proofs import Proof

    out = []
    for k in [1250, 1253, 2007, 2008, 2009, 2011, 2013, 2015, 2017, 2018, 2028, 2029, 2031]:
        out.append(Proof(f"entry {k} in VfbToUfoBuilder.build", p_follow, (k,), setup=setup_build, modular=True))
    out.append(Proof("UfoMasterGlyph._extract_master_mask_metrics", p_mask_size, modular=True))
    for A, C in ((1, None), (3, None), (1, 1), (2, 1), (3, 3), (4, 4)):
        out.append(Proof(f"UfoMasterGlyph._extract_master_anchors, {A} anchors, positions of {C}", p_anchors, (A, C), modular=True))
    for mi in (False, True):
        for h in (False, True):
            out.append(Proof("UfoMasterGlyph.build" + ", minimal" * mi + ", no PostScript hints" * (not h), p_build,
                             (mi, h), setup=setup_master, modular=True))
    for G in (0, 1, 2, 4):
        for m in (0, 3):
            for mi in (False, True):
                out.append(Proof(f"VfbToUfoBuilder.get_ufo_master, {G} glyphs, master {m + 1}" + ", minimal" * mi,
                                 p_font, (G, m, mi), setup=setup_fonts, modular=True))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for hue in range(256):
        run.case(glyph_contract, 1, [(dict(name="a", nodes=[], num_masters=1, metrics=[(5, 0)]), [(2012, hue)])], False)
    for _ in range(run.n(150, 3000)):
        run.case(glyph_contract, *gen(rng))
    return proofs.finish(run)
