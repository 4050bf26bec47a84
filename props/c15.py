"""C15 PostScript stem hints"""
import ast
import copy

from specs.pshints import master_stems, stem


def edges(h, d):
    return stem(d, h["pos"], h["width"])


def expected_hints(hints, links, nodes, m):
    return master_stems(hints, links, nodes, m)


def expected_sets(stems, masks):
    """[(node index, [stems])] in order; the last set of a point wins"""
    if not masks:
        return {0: stems["h"] + stems["v"]}
    sets, cur, idx = [], [], 0
    for kind, i in masks:
        if kind == "r":
            sets.append((idx, cur))
            idx, cur = (-i - 1 if i < 0 else i), []
        else:
            cur.append(stems[kind][i])
    sets.append((idx, cur))
    return {i: c for i, c in sets if c}


def normalize_contract(d, pos, width):
    from vfbLib.ufo.pshints import normalize_hint, normalize_hint_dict

    want = edges(dict(pos=pos, width=width), d)
    fails = []
    for got in (normalize_hint((f"{d}stem", pos, width)),
                normalize_hint_dict(dict(pos=pos, width=width), f"{d}stem")):
        if got != want:
            fails.append(dict(clause="edges of the stem", detail=f"{got} != {want}"))
    return fails


def parse_lib(lib):
    """[(point tag, [stem tuples])] of an exported lib"""
    if not lib:
        return []
    assert lib["formatVersion"] == "1"
    out = []
    for hs in lib["hintSetList"]:
        st = []
        for s in hs["stems"]:
            a, b, c = s.split(" ")
            st.append((a, int(b), int(c)))
        out.append((hs["pointTag"], st))
    return out


def ufo_contract(hints, masks, links, nodes, M, labels=()):
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.paths import UfoMasterGlyph
    from vfbLib.ufo.pshints import get_master_hints

    fails = []
    for m in range(M):
        g = VfbToUfoGlyph()
        g.name = "g"
        g.mm_nodes, g.mm_metrics = copy.deepcopy(nodes), [(0, 0)] * M
        g.mm_hints, g.links, g.hintmasks = copy.deepcopy(hints), copy.deepcopy(links), list(masks)
        stems = expected_hints(hints, links, nodes, m)
        got = get_master_hints(g, m)
        if got != stems:
            fails.append(dict(clause="stems of a master", detail=f"{got} != {stems}"))
        for i in labels:  # points that have a label already
            g.labels[f"hr{i:02}"], g.point_labels[i] = i, f"hr{i:02}"
        u = UfoMasterGlyph(g, [], m)
        u.build()
        fails += compare_sets(u.lib.get("com.adobe.type.autohint.v2"), stems, masks, nodes, m,
                              [[(p[2], p[3]) for p in c] for c in u.contours])
        if g.mm_hints != hints or g.links != links or g.mm_nodes != nodes:
            fails.append(dict(clause="data unchanged (frame)", detail=""))
    return fails


def compare_sets(lib, stems, masks, nodes, m, contours, clause=""):
    """each hint set is tagged with the point of the outline where it applies"""
    want = sorted((tuple(nodes[i]["points"][m][0]), sorted(set(s)))
                  for i, s in expected_sets(stems, masks).items() if s)
    names = {}
    for c in contours:
        for name, pt in c:
            if name is not None:
                if name in names:
                    return [dict(clause=clause + "point labels are unique", detail=f"{name}")]
                names[name] = tuple(pt)
    got = []
    for tag, s in parse_lib(lib):
        if tag not in names:
            return [dict(clause=clause + "hint set refers to a point of the outline", detail=f"{tag} {names}")]
        got.append((names[tag], s))
    if sorted(got) != want:
        return [dict(clause=clause + "stems of each hint set", detail=f"{sorted(got)} != {want}")]
    return []


def glyph_contract(hints, masks, links, nodes, M):
    from specs.fonts import glyph_data, make_font

    fails = []
    h = copy.deepcopy(hints)
    if masks:
        h["hintmasks"] = [tuple(x) for x in masks]
    d = glyph_data("g", M, nodes=copy.deepcopy(nodes), hints=h)
    vfb = make_font(M, [], [(d, [("Links", copy.deepcopy(links))])])
    g = vfb["g"]
    for m in range(M):
        g.master_index = m
        stems = expected_hints(hints, links, nodes, m)
        got = g.resolve_hints()
        if got != stems:
            fails.append(dict(clause="resolved stems of a master", detail=f"{got} != {stems}"))
        got = {i: s for i, s in g.resolve_hint_sets().items() if s}
        want = {i: s for i, s in expected_sets(stems, masks).items() if s}
        if {i: sorted(set(s)) for i, s in got.items()} != {i: sorted(set(s)) for i, s in want.items()}:
            fails.append(dict(clause="resolved hint sets", detail=f"{got} != {want}"))
    if g.entry.data["nodes"] != nodes or any(g.entry.data["hints"][k] != hints[k] for k in "hv"):
        fails.append(dict(clause="data unchanged (frame)", detail=""))
    return fails


def export_contract(hints, masks, links, nodes, M):
    from specs.fonts import export, glyph_data, make_font

    h = copy.deepcopy(hints)
    if masks:
        h["hintmasks"] = [tuple(x) for x in masks]
    d = glyph_data("g", M, nodes=copy.deepcopy(nodes), hints=h)
    before = copy.deepcopy(d)
    vfb = make_font(M, [], [(d, [("Links", copy.deepcopy(links))])])
    fails = []
    for m, font in enumerate(export(vfb)):
        stems = expected_hints(hints, links, nodes, m)
        fails += compare_sets(font["g"].lib.get("com.adobe.type.autohint.v2"), stems, masks, nodes, m,
                              [[(p.name, (p.x, p.y)) for p in c.points] for c in font["g"].contours], "exported ")
    if d != before:
        fails.append(dict(clause="data unchanged by the export (frame)", detail=""))
    return fails


def gen(rng, negative=False):
    M = rng.choice([1, 1, 2, 4])
    span = rng.choice([5, 60, 1200])
    n = rng.randint(1, 7)
    nodes = []
    pt = lambda: [(rng.randint(-span, span), rng.randint(-span, span)) for _ in range(M)]
    for i in range(n):
        t = "move" if not i or rng.random() < 0.1 else rng.choice(["line", "line", "curve"])
        end = pt()
        if t == "move":
            start = end
        if t == "curve":
            if rng.random() < 0.4:
                end = [a if rng.random() < 0.9 else b for a, b in zip(start, end)]
            nodes.append(dict(type=t, flags=0, points=[[a, b, c] for a, b, c in zip(end, pt(), pt())]))
        else:
            nodes.append(dict(type=t, flags=rng.choice([0, 0, 8]) if t == "move" else 0, points=[[a] for a in end]))
    w = lambda: rng.choice([-20, -21, -19, -22, 0, -1, 1, 20, 21, rng.randint(-span, span)])
    hints = {d: [[dict(pos=rng.randint(-span, span), width=w()) for _ in range(M)]
                 for _ in range(rng.randint(0, 4))] for d in "hv"}
    if rng.random() < 0.3 and hints["h"]:
        hints["h"].append(copy.deepcopy(hints["h"][0]))
    links = dict(x=[], y=[])
    if rng.random() < 0.6:
        for a in "xy":
            for _ in range(rng.randint(0, 3)):
                links[a].append((rng.randrange(n), rng.choice([-1, -2, rng.randrange(n), rng.randrange(n)])))
    masks = []
    if rng.random() < 0.7:
        num = {"h": len(hints["h"]) + len(links["y"]), "v": len(hints["v"]) + len(links["x"])}
        for i in sorted(rng.sample(range(n), rng.randint(0, n))) if rng.random() < 0.8 else [rng.randrange(n) for _ in range(4)]:
            for d in "hv":
                for k in range(num[d]):
                    if rng.random() < 0.5:
                        masks.append((d, k))
                if num[d] and rng.random() < 0.3:
                    masks.append((d, rng.randrange(num[d])))
            masks.append(("r", -i - 1 if negative and rng.random() < 0.3 else i))
        for d in "hv":
            if num[d]:
                masks.append((d, rng.randrange(num[d])))
    return hints, masks, links, nodes, M


# ------------------------------------------------------------------ proofs
def p_normalize(e, d):
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import S32
    from pyvc.values import FDict
    from vfbLib.ufo.pshints import normalize_hint, normalize_hint_dict

    pos, w = S32.sym("pos"), S32.sym("width")
    e.subject = (pos, w)
    name = f"{d}stem"
    flip = z3.And(w < 0, w != -20, w != -21)
    want = (name, z3.If(flip, pos + w, pos), z3.If(flip, -w, w))
    Comparer(e, "normalize_hint").value(e.call(normalize_hint, [(name, pos, w)]), want)
    hint = FDict((("e", "pos", pos), ("e", "width", w)))
    Comparer(e, "normalize_hint_dict").value(e.call(normalize_hint_dict, [hint, name]), want)


def hint_domain(M):
    from pyvc.schema import ListOf, Rec, S32, Tup

    stems = ListOf(ListOf(Rec(dict(pos=S32, width=S32)), n=M))
    nodes = ListOf(Rec(dict(points=ListOf(ListOf(Tup(S32, S32), lo=1), n=M))), lo=1)
    return stems, nodes


def p_master(e, M, m, linked):
    from pyvc.compare import Comparer
    from pyvc.schema import Below, ListOf, Tup
    from pyvc.values import FDict
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.pshints import get_master_hints
    from specs.pshints import master_stems

    stems, nodes = hint_domain(M)
    nd = nodes.sym("nodes")
    n = nd.seq[0][1]
    # -1: bottom edge, -2: top edge, else the other node of the link
    link = Tup(Below(0, n), Below(-2, n))
    hints = FDict((("e", "h", stems.sym("h")), ("e", "v", stems.sym("v"))))
    links = FDict((("e", "x", ListOf(link).sym("x")), ("e", "y", ListOf(link).sym("y")))) if linked else FDict(())
    e.subject = (hints, links, nd)
    g = e.call(VfbToUfoGlyph, [])
    e.setattr(g, "mm_hints", hints)
    e.setattr(g, "links", links)
    e.setattr(g, "mm_nodes", nd)
    got = e.call(get_master_hints, [g, m])
    want = e.call(master_stems, [hints, links, nd, m])
    Comparer(e, "stems of the master").value(got, want)


def glyph_object(e, M, m, data, links, eid=2001):
    """VfbGlyph with this structure"""
    from props.c03 import new_vfb
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.glyph import VfbGlyph

    v = new_vfb(e)
    e.setattr(v, "num_masters", M)
    ent = e.call(VfbEntry, [v], dict(eid=eid))
    e.setattr(ent, "data", data)
    g = e.call(VfbGlyph, [ent, v])
    e.setattr(g, "master_index", m)
    if links is not None:
        le = e.call(VfbEntry, [v], dict(eid=2008))
        e.setattr(le, "data", links)
        e.setattr(g, "links_entry", le)
    return g


def p_resolve(e, M, m, linked):
    """VfbGlyph.resolve_hints, resolve_hint_sets of a glyph without hint replacement"""
    from pyvc.compare import Comparer
    from pyvc.schema import Below, ListOf, Tup
    from pyvc.values import FDict
    from specs.pshints import master_stems

    stems, nodes = hint_domain(M)
    nd = nodes.sym("nodes")
    n = nd.seq[0][1]
    link = Tup(Below(0, n), Below(-2, n))
    hints = FDict((("e", "h", stems.sym("h")), ("e", "v", stems.sym("v"))))
    links = FDict((("e", "x", ListOf(link).sym("x")), ("e", "y", ListOf(link).sym("y")))) if linked else FDict(())
    e.subject = (hints, links, nd)
    g = glyph_object(e, M, m, FDict((("e", "hints", hints), ("e", "nodes", nd))), links if linked else None)
    got = e.call(e.getattr(g, "resolve_hints"), [])
    want = e.call(master_stems, [hints, links, nd, m])
    Comparer(e, "stems of the master").value(got, want)
    got = e.call(e.getattr(g, "resolve_hint_sets"), [])
    both = e.binop(ast.Add(), e.getitem(want, "h"), e.getitem(want, "v"))
    Comparer(e, "one hint set for the glyph").value(got, FDict((("e", 0, both),)))


def p_sets(e, K):
    """VfbGlyph.resolve_hint_sets of a glyph with K hint replacements and any number of
    stems in each set"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import Below, ListOf, OneOf, Tup
    from pyvc.terms import REG, I, zi
    from pyvc.values import Alt, FDict, FList, vsubst

    stems, nodes = hint_domain(1)
    h, v = stems.sym("h"), stems.sym("v")
    nh, nv = h.seq[0][1], v.seq[0][1]
    seq, want, at = [], [], 0
    for k in range(K + 1):
        if k:
            at = z3.Int(f"node{k}")
            e.assume(at >= 0)
            seq.append(("e", ("r", at)))
        n = z3.Int(f"n{k}")
        e.assume(n >= 0)
        iv = z3.Const(REG.fresh_name("i"), I)
        hor = z3.Function(f"hor{k}", I, z3.BoolSort())(iv)
        ih = Below(0, nh).sym(f"ih{k}", (iv,))
        iw = Below(0, nv).sym(f"iv{k}", (iv,))
        seq.append(("r", n, iv, (("c", ((hor, (("e", ("h", ih)),)), (z3.Not(hor), (("e", ("v", iw)),)))),)))
        want.append((at, n, iv, hor, ih, iw))
    masks = FList(tuple(seq))
    hints = FDict((("e", "h", h), ("e", "v", v), ("e", "hintmasks", masks)))
    e.subject = hints
    for i in range(1, K + 1):
        for j in range(i):
            e.assume(zi(want[i][0]) != zi(want[j][0]))  # the last set of a node wins otherwise
    g = glyph_object(e, 1, 0, FDict((("e", "hints", hints), ("e", "nodes", FList(())))), None)
    if not K:
        e.assume(want[0][1] > 0)  # a glyph without masks has one set of all stems
    res = e.call(e.getattr(g, "resolve_hints"), [])
    got = e.call(e.getattr(g, "resolve_hint_sets"), [])
    used = []
    for at, n, iv, hor, ih, iw in want:
        if e.branch(n > 0):
            item = lambda d, i: vsubst(e.listy(e.getitem(res, d))[0][3][0][1], [(e.listy(e.getitem(res, d))[0][2], i)])
            seq = (("r", n, iv, (("c", ((hor, (("e", item("h", ih)),)), (z3.Not(hor), (("e", item("v", iw)),)))),)),)
            Comparer(e, "stems of a set").value(e.getitem(got, at), FList(seq))
            used.append(at)
    def only(ents, pre):
        for en in ents:
            if en[0] == "c":
                for c, sub in en[1]:
                    only(sub, pre + [c])
            else:
                e.prove("no other set", en[0] == "e" and z3.Implies(
                    z3.And(pre), z3.Or([zi(en[1]) == zi(at) for at in used] or [z3.BoolVal(False)])))

    only(e.get(got).ents, [z3.BoolVal(True)])


class SetOf:
    """marker: the set of the elements of a list"""


def setup_build(e):
    """set, sorted: the distinct elements of a list in ascending order, which are none
    when the list is empty; point labels: one name per point"""
    import z3
    from pyvc.schema import Str
    from pyvc.terms import REG, I, zi
    from pyvc.values import FList, FObj, SStr, Unsupported
    from vfbLib.ufo.glyph import VfbToUfoGlyph

    e.ordered = []
    e.loose = True  # comparing two hint sets only decides about a warning

    def set_(e, a, kw):
        if not a:
            return e.nat.nf_set(e)
        return FObj(SetOf, (("of", FList(e.seq_of(a[0]))),))

    def sorted_(e, a, kw):
        if not (isinstance(a[0], FObj) and a[0].cls is SetOf) or len(a) > 1 or kw:
            raise Unsupported("another order")
        of = dict(a[0].attrs)["of"]
        k = len(e.ordered)
        n, i = z3.Int(f"distinct{k}"), z3.Const(REG.fresh_name("i"), I)
        e.assume(z3.And(n >= 0, (n == 0) == (zi(e.num(e.nat.nf_len(e, of))) == 0)))
        e.assumptions.add("sorted(set(x)): the distinct elements of x in ascending order")
        el = (SStr(z3.Function(f"kind{k}", I, Str)(i)), z3.Function(f"pos{k}", I, I)(i), z3.Function(f"width{k}", I, I)(i))
        r = FList((("r", n, i, (("e", el),)),))
        e.ordered.append((of, r))
        return r

    e.label = z3.Function("label", I, Str)

    def label(e, a, kw):
        ar = dict(zip(("self", "index", "code", "start_count"), a), **kw)
        e.prove("label of a hint replacement", ar["code"] == "PSHintReplacement")
        return SStr(e.label(zi(e.num(ar["index"]))))

    e.contracts[set] = set_
    e.contracts[sorted] = sorted_
    e.contracts[VfbToUfoGlyph.get_point_label] = label


def p_build(e, K):
    """build_ps_glyph_hints: K hint replacements, any number of stems in each hint set (K None: no
    masks, one set of all stems)"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import Below, Const, ListOf, S32, Tup
    from pyvc.terms import REG, I, zi
    from pyvc.values import FDict, FList, SStr, vsubst
    from specs.pshints import stem_texts
    from vfbLib.ufo.glyph import VfbToUfoGlyph
    from vfbLib.ufo.paths import UfoMasterGlyph
    from vfbLib.ufo.pshints import build_ps_glyph_hints
    from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY

    lists = {d: ListOf(Tup(Const(f"{d}stem"), S32, S32)).sym(d) for d in "hv"}
    master = FDict(tuple(("e", d, lists[d]) for d in "hv"))
    masks, sets, at = [], [], 0
    item = lambda d, i: vsubst(lists[d].seq[0][3], [(lists[d].seq[0][2], i)])
    for k in range(-1 if K is None else 0, -1 if K is None else K + 1):
        if k:
            raw = z3.Int(f"node{k}")
            masks.append(("e", ("r", raw)))
            at = z3.If(raw < 0, -raw - 1, raw)
        n, iv = z3.Int(f"n{k}"), z3.Const(REG.fresh_name("i"), I)
        e.assume(n >= 0)
        hor = z3.Function(f"hor{k}", I, z3.BoolSort())(iv)
        ih = Below(0, lists["h"].seq[0][1]).sym(f"ih{k}", (iv,))
        iw = Below(0, lists["v"].seq[0][1]).sym(f"iv{k}", (iv,))
        masks.append(("r", n, iv, (("c", ((hor, (("e", ("h", ih)),)), (z3.Not(hor), (("e", ("v", iw)),)))),)))
        sets.append((at, n, FList((("r", n, iv, (("c", ((hor, item("h", ih)), (z3.Not(hor), item("v", iw)))),)),))))
    if K is None:
        both = FList(lists["h"].seq + lists["v"].seq)
        sets = [(0, zi(e.num(e.nat.nf_len(e, both))), both)]
    e.subject = (lists["h"], lists["v"], FList(tuple(masks)))
    for i in range(len(sets)):
        for j in range(i):  # each point once (else the last set of a point wins), with its own name
            a, b = zi(sets[i][0]), zi(sets[j][0])
            e.assume(z3.And(a != b, e.label(a) != e.label(b)))
    if K == 0:
        e.assume(sets[0][1] > 0)  # a glyph without masks has one set of all stems
    full = [e.branch(zi(n) > 0) for _, n, _ in sets]
    mm = e.call(VfbToUfoGlyph, [])
    e.setattr(mm, "hintmasks", FList(tuple(masks)))
    glyph = e.instantiate(UfoMasterGlyph, [mm, FList(()), 0], {})
    before = e.call(dict, [FDict((("e", "other", 1),))])
    e.setattr(glyph, "lib", before)
    e.call(build_ps_glyph_hints, [mm, glyph, master])
    # the code puts each set in order once, in their order (but for an empty last set)
    used = [x for k, x in enumerate(sets) if k < len(sets) - 1 or full[k]]
    e.prove("each set is put in order", len(used) == len(e.ordered))
    if len(used) != len(e.ordered):
        return
    kept = []
    for (at, n, stems), (of, order) in zip(used, e.ordered):
        Comparer(e, "stems of a set").value(of, stems)
        if e.branch(zi(n) > 0):
            kept.append((at, order))
    want = [FDict((("e", "pointTag", SStr(e.label(zi(at)))), ("e", "stems", e.call(stem_texts, [order]))))
            for at, order in kept]
    ents = [("e", "other", 1)]
    if want:
        ents.append(("e", PS_GLYPH_LIB_KEY, FDict((("e", "formatVersion", "1"),
                     ("e", "hintSetList", FList(tuple(("e", w) for w in want)))))))
    Comparer(e, "hint sets in the lib").value(e.getattr(glyph, "lib"), FDict(tuple(ents)))


def c_normalize(d, direction):
    return normalize_contract, (direction,) + tuple(d)


def c_master(d, M, m, linked):
    hints, links, nodes = d
    for i, nd in enumerate(nodes):
        nd.update(type="line" if i else "move", flags=0)
        nd["points"] = [p[:1] for p in nd["points"]]
    return ufo_contract, (hints, [], links, nodes, M)


def c_sets(d, K):
    hints = dict(h=d["h"], v=d["v"])
    nodes = [dict(type="line" if i else "move", flags=0, points=[[(i, 0)]]) for i in range(
        1 + max([i for k, i in d["hintmasks"] if k == "r"] or [0]))]
    return glyph_contract, (hints, d["hintmasks"], dict(x=[], y=[]), nodes, 1)


def c_build(d, K):
    h, v, masks = d
    hints = {k: [[dict(pos=p, width=w)] for _, p, w in x] for k, x in (("h", h), ("v", v))}
    node = lambda i: -i - 1 if i < 0 else i
    nodes = [dict(type="line" if i else "move", flags=0, points=[[(i, 0)]]) for i in range(
        1 + max([node(i) for k, i in masks if k == "r"] or [0]))]
    return ufo_contract, (hints, [tuple(x) for x in masks], dict(x=[], y=[]), nodes, 1)


def c_resolve(d, M, m, linked):
    fn, args = c_master(d, M, m, linked)
    return glyph_contract, args


def proofs():
    from props.proofs import Proof

    out = [Proof(f"normalize_hint, {d}", p_normalize, (d,), case=c_normalize) for d in "hv"]
    for M in (1, 2, 4):
        for m in range(M):
            for linked in (False, True):
                out.append(Proof(f"get_master_hints, master {m + 1} of {M}" + ", links" * linked,
                                 p_master, (M, m, linked), case=c_master))
                out.append(Proof(f"VfbGlyph.resolve_hints, master {m + 1} of {M}" + ", links" * linked,
                                 p_resolve, (M, m, linked), case=c_resolve))
    for K in range(4):
        out.append(Proof(f"VfbGlyph.resolve_hint_sets, {K} hint replacements", p_sets, (K,), case=c_sets))
    for K in (None, 0, 1, 2, 3):
        out.append(Proof(f"build_ps_glyph_hints, " + ("no hint masks" if K is None else f"{K} hint replacements"),
                         p_build, (K,), setup=setup_build, modular=True, case=c_build))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for w in list(range(-40, 30)) + [-1000, 999, -32768, 2**31 - 1, -(2**31)]:
        for p in (0, -20, 21, 500, rng.randint(-2000, 2000)):
            run.case(normalize_contract, rng.choice("hv"), p, w)
    for _ in range(run.n(500, 12000)):
        a = gen(rng, True)
        run.case(ufo_contract, *a, [i for i in range(len(a[3])) if rng.random() < 0.15])
    for _ in range(run.n(250, 6000)):
        run.case(glyph_contract, *gen(rng))
    for _ in range(run.n(60, 800)):
        run.case(export_contract, *gen(rng, True))
    return proofs.finish(run)
