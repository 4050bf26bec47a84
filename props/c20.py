"""C20 glyph names"""
import copy
import re
from io import BytesIO

from pyvc.concrete import same

from pyvc.aids import one_new_name, settled, setup_names, some_names, text_key


def unique_ok(names, keys):
    """every glyph under one name, different names, first bearer keeps the plain name"""
    fails = []
    if len(keys) != len(names):
        fails.append(dict(clause="every glyph is reachable", detail=f"{names} {keys}"))
    if len(set(keys)) != len(keys):
        fails.append(dict(clause="names are different", detail=f"{keys}"))
    for i, (n, k) in enumerate(zip(names, keys)):
        if not (k == n or (k.startswith(n + "#") and k[len(n) + 1:].isdigit())):
            fails.append(dict(clause="name of the glyph", detail=f"{i}: {n!r} is {k!r}"))
        elif n not in keys[:i] and k != n:
            fails.append(dict(clause="a name that is free is kept", detail=f"{i}: {n!r} is {k!r}"))
    return fails


def names_contract(spec, M, how):
    """spec: list of (kind, payload) in file order"""
    from specs.fonts import entry, glyph_data
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.num_masters = M
    entry(vfb, 1503, M)
    want = []  # (name, number, links, hinting options)
    ps = None
    for i, (kind, x) in enumerate(spec):
        if kind == "glyph":
            d = glyph_data(x, M)
            d["metrics"] = [(i, m) for m in range(M)]
            entry(vfb, 2001, d)
            want.append([x or "", i, None, None])
        elif kind == "links":
            e = entry(vfb, 2008, copy.deepcopy(x))
            if want:
                want[-1][2] = e
        elif kind == "hint":
            e = entry(vfb, 2010, copy.deepcopy(x))
            if want:
                want[-1][3] = e
        elif kind == "ps":
            ps = entry(vfb, 1093, copy.deepcopy(x))
        else:
            entry(vfb, kind, x)
    if how == "bytes":
        # through a file
        vfb.header.data = dict(signature=0x464C571A, app_version=0x31, file_version=0x30,
                               version_major=3, version_minor=0)
        out = BytesIO()
        ents = vfb.entries
        vfb.write_bytes(out)
        f = Vfb(timing=False)
        f.read_bytes(BytesIO(out.getvalue()))
        for w in want:
            for k in (2, 3):
                if w[k] is not None:
                    w[k] = f.entries[ents.index(w[k])]
        ps = f.entries[ents.index(ps)] if ps is not None else None
        vfb = f
    fails = []
    keys = list(vfb.keys())
    if keys != list(vfb.keys()) or keys != list(vfb.glyph_order):
        fails.append(dict(clause="glyph order is the order of the keys", detail=f"{keys} {vfb.glyph_order}"))
    fails += unique_ok([w[0] for w in want], keys)
    if fails:
        return fails
    gi = [e for e in vfb.entries if e.id == 2001]
    for i, k in enumerate(keys):
        g = vfb[k]
        name, num, links, hint = want[i]
        if k not in vfb or vfb.glyph_order.index(k) != i:
            fails.append(dict(clause="position in the glyph order", detail=k))
        if g.entry is not gi[i] or g.entry.data["metrics"][0][0] != num or g.entry.data.get("name", "") != name:
            fails.append(dict(clause="data of the glyph", detail=f"{k}: {g.entry.data}"))
        if g.links_entry is not links:
            fails.append(dict(clause="links belong to the glyph before them", detail=f"{k}"))
        if g.ps_hinting_options is not hint:
            fails.append(dict(clause="hinting options belong to the glyph before them", detail=f"{k}"))
        for m in range(M):
            gm = vfb.getGlyphMaster(k, m)
            if gm.entry is not gi[i] or gm.master_index != m:
                fails.append(dict(clause="glyph master", detail=f"{k} {m}"))
        if dict(vfb.items())[k] is not g:
            fails.append(dict(clause="items", detail=k))
    for mst in vfb.get_masters():
        if list(mst.keys()) != keys or mst.glyph_order != keys or any(k not in mst or mst[k].entry is not gi[i] for i, k in enumerate(keys)):
            fails.append(dict(clause="names in a master", detail=""))
    if ps is not None and vfb.ps_hinting_options is not ps:
        fails.append(dict(clause="font hinting options", detail=""))
    if "no such glyph" in vfb:
        fails.append(dict(clause="no other names", detail=""))
    for get in (vfb.__getitem__, lambda k: vfb.getGlyphMaster(k, 0)):
        try:
            get("no such glyph")
            fails.append(dict(clause="no other names", detail="found"))
        except KeyError:
            pass
    if list(vfb.keys()) != keys or list(vfb.glyph_order) != keys:
        fails.append(dict(clause="looking up a name changes nothing", detail=f"{keys} {list(vfb.keys())}"))
    return fails


def ufo_names_contract(names, M):
    """every named glyph is exported, in the order of the file"""
    from specs.fonts import export, glyph_data, make_font

    vfb = make_font(M, [], [glyph_data(n, M, metrics=[(i, m) for m in range(M)]) for i, n in enumerate(names)])
    fails = []
    want = [(n, i) for i, n in enumerate(names) if n]
    for m, ufo in enumerate(export(vfb)):
        order = ufo.lib.get("public.glyphOrder", [])
        fails += unique_ok([n for n, _ in want], order)
        if fails:
            return fails
        if set(ufo.keys()) != set(order):
            fails.append(dict(clause="UFO has the glyphs of its order", detail=f"{list(ufo.keys())} {order}"))
            return fails
        for k, (n, i) in zip(order, want):
            if (ufo[k].width, ufo[k].height) != (i, m):
                fails.append(dict(clause="UFO glyph has its own data", detail=f"{k}: {ufo[k].width} is not {i}"))
    return fails


def gen(rng):
    pool = rng.choice([["A", "B", "A#1", "A#2", "A#1#1", ""], ["A", "A", "A#1"], ["", "#1", "#2", None],
                       [f"g{i}" for i in range(30)], [".notdef", "space", "a", "ä"]])
    spec = []
    if rng.random() < 0.4:
        spec.append(("ps", rng.choice([b"\1\0", b"\6\x80"])))
    if rng.random() < 0.1:
        spec.append(("links", dict(x=[(0, 1)], y=[])))
    for _ in range(rng.randint(0, 9)):
        spec.append(("glyph", rng.choice(pool)))
        if rng.random() < 0.4:
            spec.append((2003, b"\x01\x02"))
        if rng.random() < 0.5:
            spec.append(("links", dict(x=[(0, rng.choice([-1, -2, 1]))], y=[])))
        if rng.random() < 0.4:
            spec.append(("hint", rng.choice([b"\0\0\0\x20", b"\0\0\0\x81"])))
    return spec


# ------------------------------------------------------------------ proofs
def p_glyph_names(e):
    """Vfb._decompile_glyphs: any number of entries of any types. Invariant: the names so far are
    those of the glyphs so far, in their order; the last glyph is the one found last"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.invariants import Invariant
    from pyvc.schema import Int, MAXLEN, Rec, Text, U16
    from pyvc.terms import I, REG, zb, zi
    from pyvc.values import FList, FObj, HInst, HList, SStr
    from specs.abstract import SomeEntry
    from vfbLib.vfb.glyph import VfbGlyph
    from vfbLib.vfb.vfb import Vfb

    def entry_at(k):
        data = Rec(dict(name=Text()), {"name"}).sym("data", (k,))
        return FObj(SomeEntry, (("id", U16.sym("id", (k,))), ("data", data), ("number", k)))

    n = Int(0, MAXLEN).sym("entries")
    j = z3.Const(REG.fresh_name("i"), I)
    entries = FList((("r", n, j, (("e", entry_at(j)),)),))
    vfb = e.call(Vfb, [])
    e.setattr(vfb, "entries", entries)

    def initially(e, fr):
        Comparer(e, "no glyphs at first").value(e.getattr(vfb, "_glyphs"), {})
        Comparer(e, "no order at first").value(e.getattr(vfb, "glyph_order"), [])
        Comparer(e, "no name at first").value(fr.locals["name"], None)

    def arbitrary(e, fr, k):
        last = name = None
        size = Int(0, MAXLEN).sym(REG.fresh_name("glyphs"))
        i = z3.Const(REG.fresh_name("i"), I)
        before = (("r", size, i, (("e", SStr(z3.Function(REG.fresh_name("order"), I, SStr_sort())(i))),)),)
        if e.choose_free(2):
            e.assume(zi(k) > 0)
            name = SStr(z3.Const(REG.fresh_name("last name"), SStr_sort()))
            last = e.alloc(HInst(VfbGlyph))
            for a in ("entry", "links_entry", "ps_hinting_options"):
                e.setattr(last, a, FObj(SomeEntry, (("number", z3.Const(REG.fresh_name(a), I)),)))
        else:
            before = ()
        names = some_names(e, name, last)
        e.setattr(vfb, "_glyphs", names)
        e.setattr(vfb, "glyph_order", e.alloc(HList(before)))
        e.setattr(vfb, "ps_hinting_options", FObj(SomeEntry, (("number", z3.Const(REG.fresh_name("ps"), I)),)))
        fr.locals["name"] = name
        objs = {names.id, e.getattr(names, "log").id, e.getattr(vfb, "glyph_order").id}
        old = None
        if last is not None:
            objs.add(last.id)
            old = [e.getattr(last, a) for a in ("entry", "links_entry", "ps_hinting_options")]
        state = names, before, name, last, old, e.getattr(vfb, "ps_hinting_options")
        return state, objs, {(vfb.id, a) for a in ("_glyphs", "glyph_order", "ps_hinting_options")}

    def step(e, fr, k, state):
        names, before, name, last, old, ps = state
        x = entry_at(k)
        kind = U16.sym("id", (k,))
        same = lambda what, got, want: e.prove(what, synt_eq(e.force(got), want))
        e.prove("the names are kept", e.getattr(vfb, "_glyphs") == names)
        want = list(old) if last is not None else None
        want_ps = ps
        if e.branch(kind == 2001):
            d = dict(x.attrs)["data"]
            nm = e.force(e.call(e.getattr(d, "get"), ["name", ""]))
            got = one_new_name(e, names, e.getattr(vfb, "glyph_order"), before, nm, "a glyph")
            if got is None:
                return
            key, value = got
            same("the glyph has the entry", e.getattr(value, "entry"), x)
            same("no links yet", e.getattr(value, "links_entry"), None)
            same("no hinting options yet", e.getattr(value, "ps_hinting_options"), None)
            e.prove("the glyph found last", text_key(e.force(fr.locals["name"])) == text_key(key))
        else:
            e.prove("no name is added", settled(e, e.getattr(names, "log")) == ())
            e.prove("the order is kept", settled(e, e.getattr(vfb, "glyph_order")) == tuple(before))
            same("the glyph found last", fr.locals["name"], name)
            if e.branch(kind == 2008):
                if want:
                    want[1] = x
            elif e.branch(kind == 2010):
                if want:
                    want[2] = x
            elif e.branch(kind == 1093):
                want_ps = x
        if last is not None:
            for a, w in zip(("entry", "links_entry", "ps_hinting_options"), want):
                same(f"{a} of the glyph before", e.getattr(last, a), w)
        same("hinting options of the font", e.getattr(vfb, "ps_hinting_options"), want_ps)

    e.invariants = [Invariant(n, ("name",), initially, arbitrary, step)]
    e.call(e.getattr(vfb, "_decompile_glyphs"), [])


def SStr_sort():
    from pyvc.terms import Str

    return Str


def p_ufo_name(e):
    """VfbToUfoBuilder.add_current_glyph, whatever has been added before"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, Text
    from pyvc.terms import I, REG
    from pyvc.values import HInst, HList
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.ufo.glyph import VfbToUfoGlyph

    b = e.alloc(HInst(VfbToUfoBuilder))
    names = some_names(e)
    order = ListOf(Text()).sym("order").seq
    e.setattr(b, "glyph_masters", names)
    e.setattr(b, "glyphOrder", e.alloc(HList(order)))
    g = e.call(VfbToUfoGlyph, [])
    name = Text().sym("name")
    case = e.choose_free(3)
    e.setattr(g, "name", name if case == 0 else None)
    e.setattr(b, "current_glyph", g if case < 2 else None)
    e.call(e.getattr(b, "add_current_glyph"), [])
    if case == 0:
        got = one_new_name(e, names, e.getattr(b, "glyphOrder"), order, name, "a glyph")
        if got is not None:
            e.prove("the glyph itself is added", got[1] == g)
    else:
        e.prove("no name is added", settled(e, e.getattr(names, "log")) == ())
        e.prove("the order is kept", settled(e, e.getattr(b, "glyphOrder")) == tuple(order))


def p_access(e, state):
    """the accessors of the font, of a master and of the masters of glyphs, for up to 3 glyphs under
    any different names, whether the glyphs have been interpreted before or not"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.engine import Raise, synt_eq
    from pyvc.schema import Text
    from pyvc.values import FList, FObj, HInst
    from specs.abstract import SomeEntry
    from vfbLib.vfb.glyph import VfbGlyph
    from vfbLib.vfb.vfb import Vfb

    vfb = e.call(Vfb, [])
    n = e.choose_free(3) + 1 if state == "interpreted" else e.choose_free(4)
    names = [Text().sym(f"name {i}") for i in range(n)]
    for i in range(n):
        for k in range(i):
            e.assume(text_key(names[i]) != text_key(names[k]))
    glyphs = []
    for i in range(n):
        g = e.alloc(HInst(VfbGlyph))
        e.setattr(g, "entry", FObj(SomeEntry, (("number", i),)))
        e.setattr(g, "vfb", vfb)
        glyphs.append(g)
    e.setattr(vfb, "num_masters", 2)
    times = []

    def interpret(e, a, kw):
        times.append(1)
        e.setattr(vfb, "_glyphs", e.call(dict, [FList(tuple(
            ("e", FList((("e", x), ("e", g)))) for x, g in zip(names, glyphs)))]))
        e.setattr(vfb, "glyph_order", e.call(list, [FList(tuple(("e", x) for x in names))]))

    if state == "interpreted":
        interpret(e, (), {})
        times.clear()
    e.contracts[Vfb._decompile_glyphs] = interpret
    m = e.choose_free(2)
    of = e.choose_free(2)
    who = vfb if of == 0 else e.getitem(e.call(e.getattr(vfb, "get_masters"), []), m)
    what = e.choose_free(5)
    key = Text().sym("key")
    where = [i for i in range(n) if e.branch(text_key(key) == text_key(names[i]))] if what > 1 else []
    same = lambda w, got, want: e.prove(w, synt_eq(e.force(got), want))
    order = FList(tuple(("e", x) for x in names))
    if what == 0:
        Comparer(e, "the names").value(e.call(list, [e.call(e.getattr(who, "keys"), [])]), order)
        Comparer(e, "the order").value(e.getattr(who, "glyph_order"), order)
    elif what == 1:
        got = e.call(list, [e.call(e.getattr(who, "items"), [])])
        got = [e.force(x[1]) for x in settled(e, got)]
        if e.prove("an item for each glyph", len(got) == n):
            for x, k, g in zip(got, names, glyphs):
                Comparer(e, "its name").value(e.getitem(x, 0), k)
                same("its glyph", e.getitem(x, 1), g)
    elif what == 2:
        r = e.call(e.getattr(type_of(who, vfb), "__contains__"), [who, key])
        e.prove("there is such a glyph", e.truth(r) == bool(where))
    else:
        try:
            if what == 3:
                got = e.getitem(who, key)
            else:
                got = e.call(e.getattr(vfb, "getGlyphMaster"), [key, m])
        except Raise as x:
            e.prove("an error for other names only", not where and x.exc.type is KeyError)
            return
        if not e.prove("an error for other names", bool(where)):
            return
        if what == 3 and of == 0:
            same("the glyph", got, glyphs[where[0]])
        else:
            same("the entry", e.getattr(got, "entry"), e.getattr(glyphs[where[0]], "entry"))
            same("the master", e.getattr(got, "master_index"), m)
    e.prove("interpreted once", len(times) == (0 if state == "interpreted" else 1))


def type_of(who, vfb):
    from vfbLib.vfb.vfb import Vfb, VfbMaster

    return Vfb if who == vfb else VfbMaster


def proofs():
    from props.proofs import Proof

    return [Proof("Vfb._decompile_glyphs", p_glyph_names, setup=setup_names, modular=True),
            Proof("VfbToUfoBuilder.add_current_glyph", p_ufo_name, setup=setup_names, modular=True)] + [
        Proof(f"access to the glyphs: {s}", p_access, (s,), modular=True) for s in ("interpreted", "not yet interpreted")]


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(500, 12000)):
        run.case(names_contract, gen(rng), rng.choice([1, 2, 4]), rng.choice(["data", "bytes"]))
    for _ in range(run.n(60, 1200)):
        pool = rng.choice([["A"], ["A", "B"], ["A", "A#0", "A#1", "A#1#0", "A#3"], [f"g{i}" for i in range(30)]])
        run.case(ufo_names_contract, [rng.choice(pool) for _ in range(rng.choice([0, 1, 4, 14]))], rng.choice([1, 2]))
    return proofs.finish(run)
