"""C18 drawing into glyphs, merging masters"""
import copy

from pyvc.concrete import call, same


def nodes_of(contours):
    """expected (type, flags, point) per drawn point"""
    out = []
    for c in contours:
        for i, (pt, typ, smooth) in enumerate(c):
            t = "move" if i == 0 else ("qcurve" if typ is None else "line")
            out.append((t, 8 if i == 0 and typ == "move" else 0, (round(pt[0]), round(pt[1]))))
    return out


def draw(pen, ops):
    for op in ops:
        if op[0] == "contour":
            pen.beginPath()
            for pt, typ, smooth in op[1]:
                pen.addPoint(pt, typ, smooth=smooth)
            pen.endPath()
        else:
            pen.addComponent(op[1], op[2])


def split(ops):
    return [o[1] for o in ops if o[0] == "contour"], [o for o in ops if o[0] == "component"]


def font(M, nodes):
    from specs.fonts import glyph_data, make_font

    gs = [glyph_data(f"b{i}", M) for i in range(4)]
    d = glyph_data("g", M, nodes=copy.deepcopy(nodes))
    return make_font(M, [], gs + [d, glyph_data("z", M)])


def draw_contract(M, old, ops, via):
    """drawing adds nodes behind the existing ones, one per point, for every master"""
    vfb = font(M, old)
    others = {k: copy.deepcopy(vfb[k].entry.data) for k in vfb.keys() if k != "g"}
    g = vfb["g"] if via == "glyph" else vfb.getGlyphMaster("g", 0)
    rest = {k: copy.deepcopy(v) for k, v in vfb["g"].entry.data.items() if k not in ("nodes", "components")}
    draw(g.getPointPen(), ops)
    fails = []
    data = vfb["g"].entry.data
    contours, comps = split(ops)
    want = nodes_of(contours)
    if not same(data["nodes"][: len(old)], old):
        fails.append(dict(clause="nodes that were there before", detail=""))
    new = data["nodes"][len(old):]
    fails += compare(new, want, range(M), "drawn")
    order = list(vfb.glyph_order)
    gc = [(order[c["gid"]], c) for c in data.get("components", [])]
    if len(gc) != len(comps):
        fails.append(dict(clause="one component per component", detail=f"{gc}"))
    for (name, c), (_, base, tr) in zip(gc, comps):
        w = dict(scaleX=[tr[0]] * M, scaleY=[tr[3]] * M, offsetX=[tr[4]] * M, offsetY=[tr[5]] * M)
        if name != base or any(list(c[k]) != w[k] for k in w):
            fails.append(dict(clause="component", detail=f"{name} {c} {base} {tr}"))
    for k, v in rest.items():
        if not same(data.get(k), v):
            fails.append(dict(clause=f"{k} unchanged (frame)", detail=""))
    for k, v in others.items():
        if not same(vfb[k].entry.data, v):
            fails.append(dict(clause="other glyphs unchanged (frame)", detail=k))
    return fails


def compare(nodes, want, masters, what):
    fails = []
    if len(nodes) != len(want):
        return [dict(clause=f"{what}: one node per point", detail=f"{len(nodes)} {len(want)}")]
    for n, (t, f, p) in zip(nodes, want):
        if n["type"] != t or n["flags"] != f:
            fails.append(dict(clause=f"{what}: type and flags", detail=f"{n} {t} {f}"))
        for m in masters:
            q = n["points"][m]
            if len(q) != 1 or tuple(q[0]) != p or not all(type(v) is int for v in q[0]):
                fails.append(dict(clause=f"{what}: coordinates", detail=f"{m}: {n} {p}"))
    return fails


def masters_contract(M, per_master, order, again, name_first):
    """each master drawn on its own, in any order, then merged by compiling"""
    from vfbLib.compilers.glyph import GlyphCompiler  # noqa: F401

    vfb = font(M, [])
    fails = []
    if name_first:
        before = copy.deepcopy(vfb["g"].entry.data)
        for k in list(vfb.keys()) * 2:
            vfb[k], vfb.getGlyphMaster(k, M - 1), len(vfb[k])
        if not same(before, vfb["g"].entry.data):
            fails.append(dict(clause="reading by name changes nothing", detail=""))
    e = vfb["g"].entry
    for m in order:
        gm = vfb.getGlyphMaster("g", m)
        before = copy.deepcopy((e.data, e.temp_masters))
        if again:
            gm.clearContours()
        draw(gm.getPointPen(), per_master[m])
        now = (e.data, e.temp_masters)
        if m != 0:
            if not same(before[0], now[0]):
                fails.append(dict(clause="other masters left alone", detail=f"master {m} changed master 0"))
            for k in range(M):
                if k != m and not same((before[1] or [{}] * M)[k], now[1][k]):
                    fails.append(dict(clause="other masters left alone", detail=f"master {m} changed {k}"))
        elif not same(before[1], now[1]):
            fails.append(dict(clause="other masters left alone", detail="master 0 changed others"))
    e.compile()
    # another master drawn later must not be lost, nor drawn twice
    if e.temp_masters is not None and M > 1:
        fails.append(dict(clause="merged once", detail=""))
    e.decompile()
    for m in order:
        want = nodes_of(split(per_master[m])[0])
        fails += compare(e.data.get("nodes", []), want, [m], "merged")
        comps = split(per_master[m])[1]
        got = e.data.get("components", [])
        if len(got) != len(comps):
            fails.append(dict(clause="merged components", detail=f"{got}"))
        for c, (_, base, tr) in zip(got, comps):
            w = (tr[0], tr[3], tr[4], tr[5])
            g = (c["scaleX"][m], c["scaleY"][m], c["offsetX"][m], c["offsetY"][m])
            if vfb.glyph_order[c["gid"]] != base or g != w:
                fails.append(dict(clause="merged component", detail=f"{m}: {g} {w}"))
    return fails


def mismatch_contract(M, ops, m, change):
    """outlines of another structure are refused"""
    vfb = font(M, [])
    draw(vfb.getGlyphMaster("g", 0).getPointPen(), ops)
    other = mutate(ops, change)
    draw(vfb.getGlyphMaster("g", m).getPointPen(), other)
    e = vfb["g"].entry
    st, r = call(lambda: e.compile())
    if st == "ok":
        return [dict(clause="masters of different structure are refused", detail=f"{ops} / {other}")]
    return []


def mutate(ops, change):
    ops = copy.deepcopy(ops)
    kind, k = change
    cs = [o for o in ops if o[0] == "contour"]
    if kind == "less":
        c = cs[k % len(cs)]
        del c[1][-1]
    elif kind == "more":
        c = cs[k % len(cs)]
        c[1].append(((1, 1), "line", False))
    elif kind == "type":
        c = cs[k % len(cs)][1]
        i = 1 + k % (len(c) - 1)
        p, t, s = c[i]
        c[i] = (p, "line" if t is None else None, s)
    elif kind == "open":
        c = cs[k % len(cs)][1]
        p, t, s = c[0]
        c[0] = (p, "line" if t == "move" else "move", s)
    elif kind == "component":
        ops.append(("component", "b0", (1, 0, 0, 1, 0, 0)))
    elif kind == "base":
        for i, o in enumerate(ops):
            if o[0] == "component":
                ops[i] = ("component", "b1" if o[1] != "b1" else "b2", o[2])
    return ops


def refuse_contract(typ):
    vfb = font(1, [])
    pen = vfb["g"].getPointPen()

    def f():
        pen.beginPath()
        pen.addPoint((0, 0), "line")
        pen.addPoint((1, 1), typ)
        pen.endPath()

    st, r = call(f)
    if st == "ok":
        return [dict(clause="other segments are refused", detail=typ)]
    return []


def read_contract(M, nodes, via):
    """reading a glyph by name, drawing it to a pen and asking for its size change nothing"""
    import pickle

    from props.c14 import Rec

    vfb = font(M, nodes)
    e = [e for e in vfb.entries if e.id == 2001]
    if via == "bytes":
        for x in e:
            x.compile()
    ref = font(M, nodes)
    want = [x.data for x in ref.entries if x.id == 2001]
    fails = []
    for k in list(vfb.keys()):
        g = vfb[k]
        len(g), g.name, k in vfb
        g.drawPoints(Rec())
        for m in range(M):
            gm = vfb.getGlyphMaster(k, m)
            gm.drawPoints(Rec())
            len(gm)
        g.getPointPen()
    for i, x in enumerate(e):
        if via == "bytes":
            if not same(x.data.get("nodes", []), want[i]["nodes"]) or x.data.get("name") != want[i]["name"]:
                fails.append(dict(clause="reading changes nothing", detail=f"{x.data}"))
        elif not same(x.data, want[i]):
            fails.append(dict(clause="reading changes nothing", detail=f"{x.data} {want[i]}"))
    return fails


def gen_ops(rng, structure=None):
    co = lambda: rng.choice([rng.randint(-900, 900), rng.uniform(-900, 900), rng.randint(-99, 99) + 0.5, 0, -0.4])
    tr = lambda: (rng.choice([1, 1.0, 0.5, -1, 1.25]), 0, 0, rng.choice([1, 1.0, 2, -0.75]), rng.randint(-500, 500), rng.randint(-500, 500))
    if structure is not None:
        out = []
        for o in structure:
            if o[0] == "contour":
                out.append(("contour", [((co(), co()), t, s) for _, t, s in o[1]]))
            else:
                out.append(("component", o[1], tr()))
        return out
    ops = []
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.25:
            ops.append(("component", f"b{rng.randrange(4)}", tr()))
            continue
        c = [((co(), co()), rng.choice(["move", "line", "qcurve"]), rng.random() < 0.3)]
        prev = "line"
        for _ in range(rng.randint(0, 6)):
            t = rng.choice([None, "qcurve"] if prev is None else [None, "line", "line", "qcurve"])
            c.append(((co(), co()), t, rng.random() < 0.3))
            prev = t
        ops.append(("contour", c))
    return ops


# ------------------------------------------------------------------ proofs
SAME = dict(nodes=("type", "flags"), components=("gid",))


def drawn_masters(e, M, same=True):
    """glyph data and the data drawn for each further master, any number of nodes and
    components; of the same structure"""
    import z3
    from pyvc.schema import ListOf, OneOf, S32, Tup, U8
    from pyvc.terms import I, REG
    from pyvc.values import FDict, FList

    sizes = {k: z3.Int(f"number of {k}") for k in SAME}
    ivs = {k: z3.Const(REG.fresh_name("i"), I) for k in SAME}
    e.assume(z3.And([n >= 0 for n in sizes.values()]))

    def parts(who):
        iv = ivs["nodes"]
        node = dict(type=U8.sym(f"type {who}", (iv,)), flags=U8.sym(f"flags {who}", (iv,)),
                    points=[ListOf(Tup(S32, S32)).sym(f"pts {who} {m}", (iv,)) for m in range(M)])
        iv = ivs["components"]
        comp = dict(gid=S32.sym(f"gid {who}", (iv,)))
        for k in ("offsetX", "offsetY", "scaleX", "scaleY"):
            comp[k] = [S32.sym(f"{k} {who} {m}", (iv,)) for m in range(M)]
        if who and same:
            for f in ("type", "flags", "gid"):
                old, g = REG.ax[f"{f} {who}"], z3.Function(f"{f} 0", I, I)
                REG.on(f"{f} {who}", lambda a, g=g, old=old: old(a) + [a == g(a.arg(0))])
        return dict(nodes=node, components=comp)

    def seq(kind, d, n=None):
        rec = FDict(tuple(("e", k, FList(tuple(("e", y) for y in x)) if isinstance(x, list) else x)
                          for k, x in d.items()))
        return (("r", sizes[kind] if n is None else n, ivs[kind], (("e", rec),)),)

    return [parts(m) for m in range(M)], seq


def p_merge(e, M):
    """GlyphCompiler.merge: each master's own coordinates, nothing else"""
    from pyvc.compare import Comparer
    from pyvc.values import FDict, FList, HDict, HList
    from vfbLib.compilers.glyph import GlyphCompiler

    parts, seq = drawn_masters(e, M)
    e.subject = ()
    heap = lambda kind: e.alloc(HList(seq(kind, parts[0][kind])))
    data = e.alloc(HDict((("e", "name", "g"), ("e", "nodes", heap("nodes")), ("e", "components", heap("components")))))
    drawn = lambda m: FDict(tuple(("e", k, FList(seq(k, parts[m][k]))) for k in SAME))
    masters = FList((("e", FDict(())),) + tuple(("e", drawn(m)) for m in range(1, M)))
    e.call(GlyphCompiler.merge, [masters, data])

    def merged(kind):
        d = {k: [parts[m][kind][k][m] for m in range(M)] if isinstance(x, list) else x
             for k, x in parts[0][kind].items()}
        return FList(seq(kind, d))

    Comparer(e, "merged glyph").value(data, FDict((
        ("e", "name", "g"), ("e", "nodes", merged("nodes")), ("e", "components", merged("components")))))


def p_refuse(e, kind, m):
    """another number of nodes or components is refused"""
    import z3
    from pyvc.engine import Raise
    from pyvc.values import FDict, FList, HDict, HList
    from vfbLib.compilers.glyph import GlyphCompiler

    parts, seq = drawn_masters(e, 3)
    e.subject = ()
    n = z3.Int("other number")
    e.assume(z3.And(n >= 0, n != z3.Int(f"number of {kind}")))
    data = e.alloc(HDict((("e", kind, e.alloc(HList(seq(kind, parts[0][kind])))),)))
    masters = FList(tuple(("e", FDict(() if k != m else (("e", kind, FList(seq(kind, parts[m][kind], n))),)))
                          for k in range(3)))
    try:
        e.call(GlyphCompiler.merge, [masters, data])
    except Raise as x:
        e.prove("refused", True)
        return
    e.prove("masters of different structure are refused", z3.BoolVal(False))


def p_draw(e, M, m):
    """VfbGlyphPointPen: one node per point of any contours, behind the nodes that were there"""
    import z3
    from props.c15 import glyph_object
    from pyvc.compare import Comparer
    from pyvc.schema import Below, Float, ListOf, OneOf, Rec, S16, Tup, U8
    from pyvc.terms import I, REG, Str
    from pyvc.values import FDict, FList, HDict, HList, SStr
    from specs import pens
    from vfbLib.vfb.pens import VfbGlyphPointPen

    pt = Tup(Float(), Float())
    contours = ListOf(Tup(Tup(pt, OneOf("move", "line", "qcurve", None)),
                          ListOf(Tup(pt, OneOf("line", "qcurve", None))))).sym("contours")
    old = ListOf(Rec(dict(type=OneOf("move", "line"), flags=U8, points=ListOf(ListOf(Tup(S16, S16)), n=M)))).sym("old")
    e.subject = ()
    n, size = z3.Int("components"), z3.Int("glyphs")
    iv, jv = (z3.Const(REG.fresh_name("i"), I) for _ in range(2))
    e.assume(z3.And(n > 0, size > 0))
    name = z3.Function("glyph name", I, Str)
    REG.on_pair("glyph name", lambda a, b: z3.Implies(a == b, a.arg(0) == b.arg(0)))
    gid = Below(0, size).sym("gid", (iv,))
    matrix = Tup(*[Float()] * 6).sym("matrix", (iv,))
    components = [FList((("r", n, iv, (("e", (x, matrix)),)),)) for x in (SStr(name(gid)), gid)]
    order = FList((("r", size, jv, (("e", SStr(name(jv))),)),))
    if m:
        e.assume(contours.seq[0][1] > 0)
    data = e.alloc(HDict((("e", "name", "g"), ("e", "nodes", e.alloc(HList(old.seq))))))
    g = glyph_object(e, M, m, data, None)
    v = e.getattr(e.getattr(g, "entry"), "vfb")
    e.setattr(v, "glyph_order", order)
    pen = e.call(VfbGlyphPointPen, [g, v])
    e.call(pens.draw, [pen, contours, components[0]])
    new = e.call(pens.drawn, [contours, M])
    comps = e.call(pens.referenced, [components[1], M])
    ent = e.getattr(g, "entry")
    got, temp = e.getattr(ent, "data"), e.getattr(ent, "temp_masters")
    if m:
        Comparer(e, "other master left alone").value(got, FDict((("e", "name", "g"), ("e", "nodes", old))))
        got = e.getitem(temp, m)
        Comparer(e, "drawn into this master").value(e.getitem(got, "nodes"), new)
        Comparer(e, "components of this master").value(e.getitem(got, "components"), comps)
        for k in range(M):
            if k != m:
                Comparer(e, "other masters left alone").value(e.getitem(temp, k), FDict(()))
    else:
        e.prove("other masters left alone", temp is None)
        Comparer(e, "drawn behind the old nodes").value(got, FDict((
            ("e", "name", "g"), ("e", "nodes", FList(old.seq + tuple(e.listy(new)))),
            ("e", "components", comps))))


def proofs():
    from props.proofs import Proof

    out = [Proof(f"GlyphCompiler.merge, {M} masters", p_merge, (M,)) for M in (1, 2, 4, 8, 16)]
    for M in (1, 2, 4):
        for m in range(M):
            out.append(Proof(f"VfbGlyphPointPen, master {m + 1} of {M}", p_draw, (M, m)))
    for kind in SAME:
        for m in (1, 2):
            out.append(Proof(f"GlyphCompiler.merge, other number of {kind} in master {m + 1}", p_refuse, (kind, m)))
    return out


PROOFS = proofs()


def check(run):
    rng = run.rng
    from props import proofs

    proofs.prove(run, __name__)
    from props.c14 import gen_nodes

    for _ in range(run.n(400, 9000)):
        M = rng.choice([1, 1, 2, 4])
        old = gen_nodes(rng, M, rng.choice([0, 0, 1, 2]))
        run.case(draw_contract, M, old, gen_ops(rng), rng.choice(["glyph", "master"]))
    for _ in range(run.n(400, 9000)):
        M = rng.choice([1, 2, 2, 4])
        st = gen_ops(rng)
        per = [gen_ops(rng, st) for _ in range(M)]
        order = list(range(M))
        rng.shuffle(order)
        run.case(masters_contract, M, per, order, rng.random() < 0.5, rng.random() < 0.5)
    for _ in range(run.n(200, 4000)):
        M = rng.choice([2, 4])
        ops = gen_ops(rng)
        cs = [o for o in ops if o[0] == "contour"]
        kinds = ["component"]
        if any(o[0] == "component" for o in ops):
            kinds += ["base"]
        if cs:
            kinds += ["less", "more", "open"]
            if all(len(o[1]) > 1 for o in cs):
                kinds += ["type", "type"]
        run.case(mismatch_contract, M, ops, rng.randrange(1, M), (rng.choice(kinds), rng.randrange(9)))
    for t in ("curve", "move", "foo"):
        run.case(refuse_contract, t)
    for _ in range(run.n(100, 2000)):
        M = rng.choice([1, 2, 4])
        run.case(read_contract, M, gen_nodes(rng, M, rng.choice([0, 1, 2])), rng.choice(["data", "bytes"]))
    return proofs.finish(run)
