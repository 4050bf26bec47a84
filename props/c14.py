"""C14 exported contours"""
import copy

from pyvc.concrete import same


def split(nodes):
    out = []
    for n in nodes:
        if n["type"] == "move":
            out.append([])
        out[-1].append(n)
    return out


def expected_contours(nodes, m, labels, renames):
    """point-pen contours: lists of (type, smooth, name, point)"""
    index = {id(n): i for i, n in enumerate(nodes)}
    contours = []
    for sub in split(nodes):
        is_open = bool(sub[0]["flags"] & 8)
        pts = []
        off = False
        for n in sub:
            p = n["points"][m]
            name, smooth = labels.get(index[id(n)]), bool(n["flags"] & 1)
            if n["type"] == "move":
                pts.append(["move", smooth, name, p[0]])
            elif n["type"] == "line":
                pts.append(["qcurve" if off else "line", smooth, name, p[0]])
            elif n["type"] == "curve":
                pts += [[None, False, None, p[1]], [None, False, None, p[2]],
                        ["curve", smooth, name, p[0]]]
            else:
                pts.append([None, False, name, p[0]])
            off = n["type"] == "qcurve"
        if not is_open and len(sub) > 1:
            last = pts[-1]
            if last[0] is None:
                pts[0][0] = "qcurve"
            elif last[0] == "curve" and tuple(last[3]) == tuple(pts[0][3]):
                first = pts[0]
                pts[0] = pts.pop()
                if first[2] is not None:
                    if pts[0][2] is None:
                        pts[0][2] = first[2]
                    else:
                        renames[first[2]] = pts[0][2]
            else:
                pts[0][0] = "line"
        contours.append(pts)
    return contours


def expected_components(comps, order, m):
    out = []
    for c in comps:
        xx, yy = round(c["scaleX"][m], 15), round(c["scaleY"][m], 15)
        out.append((order[c["gid"]], (xx, 0, 0, yy, c["offsetX"][m], c["offsetY"][m])))
    return out


class Rec:
    def __init__(self):
        self.contours, self.components, self.cur = [], [], None

    def beginPath(self, **kw):
        self.cur = []

    def addPoint(self, pt, segmentType=None, smooth=False, name=None, **kw):
        self.cur.append([segmentType, bool(smooth), name, pt])

    def endPath(self):
        self.contours.append(self.cur)
        self.cur = None

    def addComponent(self, g, t, **kw):
        self.components.append((g, t))


def diff(fails, what, got, want):
    if not eq(got, want):
        fails.append(dict(clause=what, detail=f"{got} != {want}"))


def eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def points_contract(nodes, mask, comps, labels, M, how):
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.paths import UfoMasterGlyph

    fails = []
    order = [f"g{i}" for i in range(8)]
    for m in range(M):
        g = VfbToUfoGlyph()
        g.name = "g"
        n2, c2 = copy.deepcopy(nodes), copy.deepcopy(comps)
        g.mm_nodes, g.mm_components, g.mm_metrics = n2, c2, [(100 + i, i) for i in range(M)]
        g.mm_mask_nodes = copy.deepcopy(mask)
        g.point_labels = dict(labels)
        u = UfoMasterGlyph(g, order, m)
        u.build()
        pen = Rec()
        u.drawPoints(pen)
        ren = {}
        diff(fails, "contours", pen.contours, expected_contours(nodes, m, labels, ren))
        diff(fails, "components", pen.components, expected_components(comps, order, m))
        diff(fails, "replaced labels", u.rename_points, ren)
        pen = Rec()
        u.drawPointsMask(pen)
        diff(fails, "mask contours", pen.contours, expected_contours(mask, m, {}, {}))
        diff(fails, "mask has no components", pen.components, [])
        diff(fails, "advance of the master", (u.width, u.height), (100 + m, m))
        if n2 != nodes or c2 != comps:
            fails.append(dict(clause="data unchanged (frame)", detail=""))
    return fails


def access_contract(nodes, comps, M):
    """through Vfb: point pen and segment pen of a glyph / a glyph master"""
    from specs.fonts import glyph_data, make_font

    fails = []
    others = [glyph_data(f"g{i}", M) for i in range(8)]
    mine = glyph_data("me", M, nodes=copy.deepcopy(nodes), components=copy.deepcopy(comps))
    vfb = make_font(M, [], others + [mine])
    order = list(vfb.keys())
    for m in range(M):
        pen = Rec()
        vfb.getGlyphMaster("me", m).drawPoints(pen)
        diff(fails, "contours of a glyph master", pen.contours, expected_contours(nodes, m, {}, {}))
        diff(fails, "components of a glyph master", pen.components, expected_components(comps, order, m))
        g = vfb["me"]
        g.master_index = m
        pen = Seg()
        g.draw(pen)
        diff(fails, "segments", pen.v, expected_segments(nodes, m)
             + [("addComponent", n, t) for n, t in
                [(order[c["gid"]], (c["scaleX"][m], 0, 0, c["scaleY"][m], c["offsetX"][m], c["offsetY"][m])) for c in comps]])
    pen = Rec()
    vfb["me"].master_index = 0
    vfb["me"].drawPoints(pen)
    diff(fails, "contours of a glyph", pen.contours, expected_contours(nodes, 0, {}, {}))
    diff(fails, "components of a glyph", pen.components, expected_components(comps, order, 0))
    diff(fails, "number of contours of a glyph", (len(vfb["me"]), len(vfb.getGlyphMaster("me", M - 1))),
         (len(split(nodes)),) * 2)
    data = vfb["me"].entry.data
    if data["nodes"] != nodes or data.get("components") != comps:
        fails.append(dict(clause="data unchanged (frame)", detail=""))
    return fails


def redraw_contract(before, after, m, M, how):
    """an outline that is drawn, edited and drawn again"""
    from specs.fonts import glyph_data, make_font

    fails = []
    vfb = make_font(M, [], [glyph_data("me", M, nodes=copy.deepcopy(before))])
    vfb.master_index = m
    g = vfb["me"] if how == "glyph" else vfb.getGlyphMaster("me", m)
    pen = Rec()
    g.drawPoints(pen)
    diff(fails, "contours before the edit", pen.contours, expected_contours(before, m, {}, {}))
    vfb["me"].entry.data["nodes"] = copy.deepcopy(after)
    pen = Rec()
    g.drawPoints(pen)
    diff(fails, "contours after the edit", pen.contours, expected_contours(after, m, {}, {}))
    diff(fails, "number of contours", len(g), len(split(after)))
    return fails


def export_contract(nodes, mask, comps, M):
    from specs.fonts import export, glyph_data, make_font

    fails = []
    others = [glyph_data(f"g{i}", M) for i in range(8)]
    mine = glyph_data("me", M, nodes=copy.deepcopy(nodes), components=copy.deepcopy(comps))
    vfb = make_font(M, [], others + [(mine, [("mask", dict(nodes=copy.deepcopy(mask)))])])
    order = [f"g{i}" for i in range(8)] + ["me"]
    for m, font in enumerate(export(vfb)):
        pen = Rec()
        font["me"].drawPoints(pen)
        diff(fails, "UFO contours", pen.contours, expected_contours(nodes, m, {}, {}))
        diff(fails, "UFO components", [(n, tuple(t)) for n, t in pen.components],
             expected_components(comps, order, m))
        want = expected_contours(mask, m, {}, {})
        if want:
            pen = Rec()
            font.layers["public.background"]["me"].drawPoints(pen)
            diff(fails, "UFO mask contours", pen.contours, want)
    return fails


class Seg:
    def __init__(self):
        self.v = []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a: self.v.append((name, *a))


def expected_segments(nodes, m):
    out = []
    for sub in split(nodes):
        is_open = bool(sub[0]["flags"] & 8)
        start = sub[0]["points"][m][0]
        out.append(("moveTo", start))
        q = []
        for n in sub[1:]:
            p = n["points"][m]
            if n["type"] == "qcurve":
                q.append(p[0])
            elif n["type"] == "line":
                out.append(("qCurveTo", *q, p[0]) if q else ("lineTo", p[0]))
                q = []
            else:
                out.append(("curveTo", p[1], p[2], p[0]))
        if q:
            out.append(("qCurveTo", *q, start))
        out.append(("endPath",) if is_open else ("closePath",))
    return out


def gen_nodes(rng, M, size):
    nodes = []
    span = rng.choice([2, 3, 1000, 20000])
    c = lambda: [(rng.randint(-span, span), rng.randint(-span, span)) for _ in range(M)]
    for _ in range(size):
        is_open = rng.random() < 0.35
        start = c()
        flags = rng.choice([0, 1, 2, 4, 7]) | (8 if is_open else 0)
        nodes.append(dict(type="move", flags=flags, points=[[p] for p in start]))
        k = rng.randint(0, 6)
        prev = "move"
        for i in range(k):
            opts = ["line", "curve", "qcurve"]
            if prev == "qcurve":
                opts = ["line", "qcurve"]
            if i == k - 1 and is_open:
                opts = [o for o in opts if o != "qcurve"]
            t = rng.choice(opts)
            end = c()
            if i == k - 1 and rng.random() < 0.6:
                # some masters end on the start point, others may not
                end = [s if rng.random() < 0.8 else e for s, e in zip(start, end)]
            if t == "curve":
                pts = [[a, b, d] for a, b, d in zip(end, c(), c())]
            else:
                pts = [[a] for a in end]
            nodes.append(dict(type=t, flags=rng.choice([0, 0, 1, 2, 3, 9]), points=pts))
            prev = t
    return nodes


def gen_comps(rng, M):
    f = lambda: rng.choice([1.0, -1.0, 0.5, 1.2, 0.1 + 0.2, rng.uniform(-2, 2)])
    return [dict(gid=rng.randrange(8), offsetX=[rng.randint(-900, 900) for _ in range(M)],
                 offsetY=[rng.randint(-900, 900) for _ in range(M)],
                 scaleX=[f() for _ in range(M)], scaleY=[f() for _ in range(M)])
            for _ in range(rng.choice([0, 0, 1, 3]))]


# ------------------------------------------------------------------ proofs
NAMES = ("contour", "path_is_open", "in_qcurve")


def install_labels(e):
    import z3
    from pyvc.terms import I, Str, zi
    from pyvc.values import Mrg, SStr
    from specs.abstract import Labels

    has = z3.Function("has label", I, z3.BoolSort())
    label = z3.Function("label", I, Str)

    def get(e, a, kw):
        i = zi(a[1])
        default = a[2] if len(a) > 2 else kw.get("default")
        return Mrg(((has(i), SStr(label(i))), (z3.Not(has(i)), default)))

    e.contracts[Labels.get] = get


def lockstep(e, n, nodes, m, u, labels):
    """the exported contours follow specs.contours.advance; True for masks (no labels)"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import OneOf, S32, Text
    from pyvc.terms import I, REG, zi
    from pyvc.values import FList, HInst, HList, Mrg
    from specs.abstract import Log
    from specs.contours import advance

    attr = "contours" if labels else "mask_contours"

    def compare(name, e, fr, state, first=False):
        done, contour, is_open, off, given_up = e.force(state)
        c = Comparer(e, name)
        c.value(e.getattr(u, attr), done)
        c.value(fr.locals["contour"], contour)
        c.value(fr.locals["path_is_open"], is_open)
        c.value(fr.locals["in_qcurve"], off)
        if labels:
            now = e.getattr(u, "rename_points")
            c.value(now if first else e.getattr(now, "log"), given_up)

    def initially(e, fr):
        from pyvc.values import FDict

        done = e.alloc(HList())
        compare("before the first node", e, fr,
                (done, e.alloc(HList()), False, False, FDict(()) if labels else e.alloc(HList())), True)

    def opaque(what, k):
        i = z3.Const(REG.fresh_name("i"), I)
        size = z3.Const(REG.fresh_name(f"number of {what}"), I)
        e.assume(size >= 0)
        name = REG.fresh_name(what)
        return (("r", size, i, (("e", z3.Function(name, I, I)(i)),)),)

    def point(name, types):
        kind = types[e.choose_free(len(types))]
        at = (S32.sym(REG.fresh_name(f"{name} x")), S32.sym(REG.fresh_name(f"{name} y")))
        lab = None
        if labels:
            has = z3.Const(REG.fresh_name(f"{name} has a label"), z3.BoolSort())
            lab = Mrg(((has, Text().sym(REG.fresh_name(f"label {name}"))), (z3.Not(has), None)))
        smooth = z3.Const(REG.fresh_name(f"smooth {name}"), z3.BoolSort())
        return (kind, smooth, lab, at)

    def arbitrary(e, fr, k):
        shape = e.choose_free(3)
        e.assume(zi(k) == 0 if shape == 0 else zi(k) > 0)
        seq = ()
        if shape:
            seq += (("e", point("first", ["move"])),)
        off = False
        if shape == 2:
            last = point("last", ["line", "curve", "qcurve", None])
            seq += opaque("points", k) + (("e", last),)
            off = last[0] is None
        is_open = z3.Const(REG.fresh_name("open"), z3.BoolSort()) if shape else False
        done, lost = opaque("contours", k), opaque("labels", k)
        if shape == 0:
            done, lost = (), ()
        e.setattr(u, attr, e.alloc(HList(done)))
        fr.locals["contour"] = e.alloc(HList(seq))
        fr.locals["path_is_open"] = is_open
        fr.locals["in_qcurve"] = off
        objs = {e.getattr(u, attr).id, fr.locals["contour"].id}
        if labels:
            log = e.alloc(HInst(Log))
            e.setattr(log, "log", e.alloc(HList(lost)))
            e.setattr(u, "rename_points", log)
            objs |= {log.id, e.getattr(log, "log").id}
        state = (FList(done), FList(seq), is_open, off, FList(lost))
        return state, objs, {(u.id, attr), (u.id, "rename_points")}

    def step(e, fr, k, state):
        node = e.getitem(nodes, k)
        lab = e.call(e.getattr(labels, "get"), [k]) if labels else None
        compare("contours so far", e, fr, e.call(advance, [state, k, node, m, lab]))

    return Invariant(n, NAMES, initially, arbitrary, step)


def p_contours(e, M, m, mask):
    """UfoMasterGlyph._extract_master_contours: the contours of one master, any outline that
    starts with a move; the components"""
    from pyvc.compare import Comparer
    from pyvc.engine import Infeasible
    from pyvc.schema import Float, ListOf, Rec as R, S32, Below
    from pyvc.values import FDict, FList, FObj
    from specs.abstract import Labels
    from specs.contours import result
    from specs.entries import node_schema
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.paths import UfoMasterGlyph

    nd = ListOf(node_schema(M), hi=2**22).sym("nodes")
    n = nd.seq[0][1]
    e.subject = nd
    if e.branch(n > 0):
        if not e.branch(e.truth(e.eq(e.getitem(e.getitem(nd, 0), "type"), "move"))):
            raise Infeasible()  # an outline starts with a move
    labels = FObj(Labels, ())
    g = e.call(VfbToUfoGlyph, [])
    e.setattr(g, "name", "g")
    e.setattr(g, "mm_mask_nodes" if mask else "mm_nodes", nd)
    e.setattr(g, "point_labels", labels)
    order = ListOf(S32).sym("names")
    u = e.call(UfoMasterGlyph, [g, order, m])
    inv = lockstep(e, n, nd, m, u, None if mask else labels)
    e.invariants = [inv]
    e.call(e.getattr(u, "_extract_master_contours"), [mask])
    if inv.final is None:
        return  # no nodes
    contours, lost = e.force(e.call(result, [inv.final]))
    Comparer(e, "contours").value(e.getattr(u, "mask_contours" if mask else "contours"), contours)
    if not mask:
        Comparer(e, "labels given up").value(e.getattr(e.getattr(u, "rename_points"), "log"), lost)


def p_components(e, M, m):
    """UfoMasterGlyph._extract_master_contours: the components of one master"""
    from pyvc.compare import Comparer
    from pyvc.schema import Below, ListOf, RealNumber, Rec as R, S32, Text, Tup
    from pyvc.values import FObj
    from specs.abstract import Labels
    from specs.contours import components
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.paths import UfoMasterGlyph

    order = ListOf(Text()).sym("names")
    each = lambda s: ListOf(s, n=M)
    comps = ListOf(R(dict(gid=Below(0, order.seq[0][1]), offsetX=each(S32), offsetY=each(S32),
                          scaleX=each(RealNumber()), scaleY=each(RealNumber())))).sym("components")
    e.subject = comps
    g = e.call(VfbToUfoGlyph, [])
    e.setattr(g, "name", "g")
    e.setattr(g, "mm_nodes", [])
    e.setattr(g, "point_labels", FObj(Labels, ()))
    e.setattr(g, "mm_components", comps)
    u = e.call(UfoMasterGlyph, [g, order, m])
    e.call(e.getattr(u, "_extract_master_contours"), [])
    Comparer(e, "components").value(e.getattr(u, "components"), e.call(components, [comps, order, m]))
    Comparer(e, "contours").value(e.getattr(u, "contours"), [])


DRAW = ("path_is_open", "in_path", "in_qcurve", "qcurve", "start")


def install_pen(e):
    from pyvc.values import HList
    from specs.contours import Segments

    def q_curve_to(e, a, kw):
        log = e.getattr(a[0], "log")
        e.call(e.getattr(log, "append"), [("qCurveTo", e.alloc(HList(a[1].seq)))])

    q_curve_to.spread = True
    e.contracts[Segments.qCurveTo] = q_curve_to


def draws(e, n, nodes, m, pen):
    """the calls of the pen follow specs.contours.draw_on"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.engine import Infeasible
    from pyvc.invariants import Invariant
    from pyvc.schema import S32
    from pyvc.terms import I, REG, zi
    from pyvc.values import FList, HList
    from specs.contours import draw_on

    def compare(name, e, fr, state):
        calls, start, is_open, off = e.force(state)
        c = Comparer(e, name)
        c.value(e.getattr(pen, "log"), calls)
        c.value(fr.locals["start"], start)
        c.value(fr.locals["path_is_open"], is_open)
        c.value(fr.locals["qcurve"], off)
        c.value(e.truth(fr.locals["in_qcurve"]), e.truth(off))
        c.value(fr.locals["in_path"], start is not None)

    def initially(e, fr):
        compare("before the first node", e, fr, (e.alloc(HList()), None, False, e.alloc(HList())))

    def opaque(what, k):
        i = z3.Const(REG.fresh_name("i"), I)
        size = z3.Const(REG.fresh_name(f"number of {what}"), I)
        e.assume(size >= 0)
        return (("r", size, i, (("e", z3.Function(REG.fresh_name(what), I, I)(i)),)),)

    def point(name):
        return (S32.sym(REG.fresh_name(f"{name} x")), S32.sym(REG.fresh_name(f"{name} y")))

    def arbitrary(e, fr, k):
        shape = e.choose_free(3)
        e.assume(zi(k) == 0 if shape == 0 else zi(k) > 0)
        calls = opaque("calls", k) if shape else ()
        start = point("start") if shape else None
        is_open = z3.Const(REG.fresh_name("open"), z3.BoolSort()) if shape else False
        off = opaque("points", k) + (("e", point("last")),) if shape == 2 else ()
        e.setattr(pen, "log", e.alloc(HList(calls)))
        fr.locals.update(start=start, path_is_open=is_open, in_path=shape > 0,
                         in_qcurve=shape == 2, qcurve=e.alloc(HList(off)))
        objs = {e.getattr(pen, "log").id, fr.locals["qcurve"].id}
        arbitrary.now = is_open, off
        return (FList(calls), start, is_open, FList(off)), objs, {(pen.id, "log")}

    def step(e, fr, k, state):
        node = e.getitem(nodes, k)
        kind = e.force(e.getitem(node, "type"))
        is_open, off = state[2], state[3]
        if off.seq:
            # not in any outline: cubic curves among quadratic ones, and an open contour that
            # ends between two points on the curve
            if e.branch(e.truth(e.eq(kind, "curve"))):
                raise Infeasible()
            if e.branch(e.truth(e.eq(kind, "move"))) and e.branch(is_open):
                raise Infeasible()
        compare("calls so far", e, fr, e.call(draw_on, [state, node, m]))

    return Invariant(n, DRAW, initially, arbitrary, step)


def p_draw(e, M, m):
    """VfbGlyph.draw: any outline that starts with a move, and its components"""
    from pyvc.compare import Comparer
    from pyvc.engine import Infeasible
    from pyvc.schema import Below, ListOf, RealNumber, Rec as R, S32, Text, Tup
    from pyvc.values import FList, HDict, HInst
    from specs.abstract import SomeEntry
    from specs.contours import Segments, drawn_segments
    from specs.entries import node_schema
    from vfbLib.vfb.glyph import VfbGlyph
    from vfbLib.vfb.vfb import Vfb

    nd = ListOf(node_schema(M), hi=2**22).sym("nodes")
    n = nd.seq[0][1]
    if e.branch(n > 0):
        if not e.branch(e.truth(e.eq(e.getitem(e.getitem(nd, 0), "type"), "move"))):
            raise Infeasible()  # an outline starts with a move
    order = ListOf(Text()).sym("names")
    each = lambda s: ListOf(s, n=M)
    comps = ListOf(R(dict(gid=Below(0, order.seq[0][1]), offsetX=each(S32), offsetY=each(S32),
                          scaleX=each(RealNumber()), scaleY=each(RealNumber())))).sym("components")
    e.subject = FList((("e", nd), ("e", comps)))
    entry = e.alloc(HInst(SomeEntry))
    e.setattr(entry, "data", e.alloc(HDict([("e", "nodes", nd), ("e", "components", comps)])))
    font = e.alloc(HInst(Vfb))
    e.setattr(font, "glyph_order", order)
    g = e.alloc(HInst(VfbGlyph))
    for k, v in dict(entry=entry, links_entry=None, ps_hinting_options=None, _parent=font,
                     _glyph=None, master_index=m).items():
        e.setattr(g, k, v)
    pen = e.call(Segments, [])
    inv = draws(e, n, nd, m, pen)
    e.invariants = [inv]
    e.call(e.getattr(g, "draw"), [pen])
    state = inv.final
    if state is None:
        state = (FList(()), None, False, FList(()))
    elif state[3].seq and e.branch(state[2]):
        raise Infeasible()
    Comparer(e, "calls of the pen").value(e.getattr(pen, "log"),
                                          e.call(drawn_segments, [state, comps, order, m]))


def p_points(e, M, m, how, K):
    """VfbGlyph.drawPoints, VfbGlyphMaster.drawPoints, len: any outline of K nodes that starts
    with a move, its components; anything may have been drawn before"""
    from pyvc.compare import Comparer
    from pyvc.engine import Infeasible
    from pyvc.schema import Below, ListOf, RealNumber, Rec as R, S32, Text, Tup
    from pyvc.values import FList, FObj, HDict, HInst
    from props.c22 import anything
    from specs.abstract import SomeEntry
    from specs.contours import Points, drawn_points
    from specs.entries import node_schema
    from vfbLib.ufo.paths import UfoMasterGlyph
    from vfbLib.vfb.glyph import VfbGlyph, VfbGlyphMaster
    from vfbLib.vfb.vfb import Vfb

    nd = FList(tuple(("e", node_schema(M).sym(f"node {i}")) for i in range(K)))
    if K and not e.branch(e.truth(e.eq(e.getitem(e.getitem(nd, 0), "type"), "move"))):
        raise Infeasible()
    order = ListOf(Text()).sym("names")
    each = lambda s: ListOf(s, n=M)
    comps = ListOf(R(dict(gid=Below(0, order.seq[0][1]), offsetX=each(S32), offsetY=each(S32),
                          scaleX=each(RealNumber()), scaleY=each(RealNumber())))).sym("components")
    e.subject = FList((("e", nd), ("e", comps)))
    data = [("e", "name", Text().sym("name")), ("e", "nodes", nd), ("e", "components", comps),
            ("e", "metrics", ListOf(Tup(S32, S32), n=M).sym("metrics"))]
    entry = e.alloc(HInst(SomeEntry))
    e.setattr(entry, "data", e.alloc(HDict(data)))
    font = e.alloc(HInst(Vfb))
    e.setattr(font, "glyph_order", order)
    e.setattr(font, "master_index", m)
    g = e.alloc(HInst(VfbGlyph))
    for k, v in dict(entry=entry, links_entry=None, ps_hinting_options=None, _parent=font,
                     _glyph=[None, FObj(UfoMasterGlyph, ())][e.choose_free(2)], master_index=0).items():
        e.setattr(g, k, v)
    if how == "glyph master":
        g = e.call(VfbGlyphMaster, [g, m])
    pen = e.call(Points, [])
    e.call(e.getattr(g, "drawPoints"), [pen])
    Comparer(e, "calls of the pen").value(e.getattr(pen, "log"),
                                          e.call(drawn_points, [nd, comps, order, m]))
    moves = 0
    for x in nd.seq:
        moves += bool(e.branch(e.truth(e.eq(e.getitem(x[1], "type"), "move"))))
    Comparer(e, "number of contours").value(e.call(e.getattr(g, "__len__"), []), moves)


def c_draw(d, M, m, *_):
    nodes = [dict(n, points=[list(p) for p in n["points"]]) for n in d[0]]
    return access_contract, (nodes, [dict(c, gid=c["gid"] % 8) for c in d[1]], M)


def proofs():
    from props.proofs import Proof

    def case(nodes, M, m, mask):
        nodes = [dict(n, points=[list(p) for p in n["points"]]) for n in nodes]
        if mask:
            return points_contract, ([], nodes, [], {}, M, "direct")
        return points_contract, (nodes, [], [], {i: f"p{i}" for i in range(len(nodes))}, M, "direct")

    return [Proof(f"{'mask ' if k else ''}contours of master {m} of {M}", p_contours, (M, m, k),
                  setup=install_labels, case=case)
            for M in (1, 2, 4) for m in range(M) for k in (False, True)] + [
        Proof(f"components of master {m} of {M}", p_components, (M, m), setup=install_labels,
              case=lambda d, M, m: (points_contract, ([], [], [dict(c, gid=c["gid"] % 8) for c in d], {}, M, "direct")))
        for M in (1, 2, 4) for m in range(M)] + [
        Proof(f"VfbGlyph.draw, master {m} of {M}", p_draw, (M, m), setup=install_pen, case=c_draw)
        for M in (1, 2, 4) for m in range(M)] + [
        Proof(f"{how}.drawPoints, {K} nodes, master {m} of {M}", p_points, (M, m, how, K), case=c_draw)
        for how in ("glyph", "glyph master") for M, m, K in
        [(1, 0, k) for k in range(4)] + [(2, 1, 2), (4, 0, 1), (4, 3, 1)]]


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(500, 12000)):
        M = rng.choice([1, 1, 2, 4])
        nodes = gen_nodes(rng, M, rng.choice([0, 1, 1, 2, 3]))
        labels = {i: f"p{i}" for i in range(len(nodes)) if rng.random() < 0.4}
        mask = gen_nodes(rng, M, rng.choice([0, 1, 2]))
        run.case(points_contract, nodes, mask, gen_comps(rng, M), labels, M, "direct")
    for _ in range(run.n(200, 4000)):
        M = rng.choice([1, 2, 4])
        run.case(access_contract, gen_nodes(rng, M, rng.choice([0, 1, 2, 3])), gen_comps(rng, M), M)
    for _ in range(run.n(100, 2000)):
        M = rng.choice([1, 2, 4])
        run.case(redraw_contract, gen_nodes(rng, M, rng.choice([0, 1, 2])), gen_nodes(rng, M, rng.choice([0, 1, 2])),
                 rng.randrange(M), M, rng.choice(["glyph", "master"]))
    for _ in range(run.n(40, 500)):
        M = rng.choice([1, 2, 4])
        run.case(export_contract, gen_nodes(rng, M, rng.choice([1, 2, 3])),
                 gen_nodes(rng, M, rng.choice([0, 1])), gen_comps(rng, M), M)
    return proofs.finish(run)
