"""C13 groups and kerning"""
import copy

from pyvc.concrete import same

from pyvc.aids import spot_is, unknown_list, unknown_text

SIDES = {1: 2**10, 2: 2**11}


def expected_groups(orig, flags, order, skip):
    """-> (groups before overlaps are resolved, key glyphs)"""
    groups, keys = {}, {}
    for name, members in orig.items():
        key = [m.strip("'") for m in members if m.endswith("'")]
        glyphs = key + [m for m in members if not m.endswith("'")]
        present = [g for g in glyphs if g in order]
        if skip:
            if glyphs and not present:
                continue
            glyphs = present
        # with more than one marked glyph the first one that exists counts
        cand = [k for k in key if k in order]
        k0 = cand[0] if cand else (key[0] if key and not present else None)
        if name.startswith("_"):
            if name not in flags:
                continue
            finals = [f"public.kern{s}.{name}" for s in (1, 2) if flags[name][0] & SIDES[s]]
        else:
            finals = [name]
        for f in finals:
            groups[f] = glyphs
            if k0 is not None:
                keys[f] = k0
    return groups, keys


def groups_contract(orig, flags, order, skip):
    from vfbLib.ufo.groups import build_glyph_to_group_maps, transform_groups

    fails = []
    o2 = copy.deepcopy(orig)
    got, gorder, gkeys = transform_groups(o2, copy.deepcopy(flags), list(order), skip)
    want, wkeys = expected_groups(orig, flags, order, skip)
    if not same(got, want):
        fails.append(dict(clause="groups and members", detail=f"{got} != {want}"))
    if gorder != list(want):
        fails.append(dict(clause="group order", detail=f"{gorder} != {list(want)}"))
    if not same(gkeys, wkeys):
        fails.append(dict(clause="key glyphs", detail=f"{gkeys} != {wkeys}"))
    if o2 != orig:
        fails.append(dict(clause="classes unchanged (frame)", detail=str(o2)))
    # one kerning group per glyph and side
    res, m1, m2 = build_glyph_to_group_maps(copy.deepcopy(want))
    fails += check_rebuilt(want, res, m1, m2)
    return fails


def first_group(groups, side):
    m = {}
    for n, gl in groups.items():
        if n.startswith(f"public.kern{side}"):
            for g in gl:
                m.setdefault(g, n)
    return m


def check_rebuilt(groups, res, m1, m2):
    fails = []
    for side, got in ((1, m1), (2, m2)):
        want = first_group(groups, side)
        if got != want:
            fails.append(dict(clause=f"group of each glyph, side {side}", detail=f"{got} != {want}"))
    return fails + check_final(groups, res)


def check_final(groups, res):
    fails = []
    want = {n: g for n, g in groups.items() if not n.startswith("public.kern")}
    for side in (1, 2):
        for g, n in first_group(groups, side).items():
            want.setdefault(n, []).append(g)
    if not same(res, want):
        fails.append(dict(clause="one kerning group per glyph and side, others kept",
                          detail=f"{res} != {want}"))
    for side in (1, 2):
        seen = {}
        for n, gl in res.items():
            if n.startswith(f"public.kern{side}"):
                for g in gl:
                    if g in seen:
                        fails.append(dict(clause="at most one group per side",
                                          detail=f"{g}: {seen[g]} {n}"))
                    seen[g] = n
    return fails


def expected_kerning(order, groups, keys, mm_kerning, m):
    first = {1: first_group(groups, 1), 2: first_group(groups, 2)}
    final = set(first[1].values()) | set(first[2].values())

    def side(s, g):
        own = [n for n, k in keys.items() if k == g and n.startswith(f"public.kern{s}")]
        # the first group counts if the glyph is key glyph of several
        return own[0] if own and own[0] in final else None

    want = {}
    for (L, rid), values in mm_kerning.items():
        R = order[int(rid)]
        lg, rg = side(1, L), side(2, R)
        exception = (lg is None and L in first[1]) or (rg is None and R in first[2])
        if values[m] != 0 or exception:
            want[lg or L, rg or R] = values[m]
    return want


def kerning_contract(orig, flags, order, mm_kerning, M):
    from vfbLib.ufo.groups import transform_groups
    from vfbLib.ufo.kerning import UfoKerning

    fails = []
    got, _, gkeys = transform_groups(copy.deepcopy(orig), copy.deepcopy(flags), list(order))
    want, wkeys = expected_groups(orig, flags, order, False)
    mk = copy.deepcopy(mm_kerning)
    uk = UfoKerning(list(order), got, mk, gkeys)
    fails += check_final(want, uk.groups)
    for m in range(M):
        g = uk.get_master_kerning(m)
        w = expected_kerning(order, want, wkeys, mm_kerning, m)
        if g != w:
            fails.append(dict(clause="kerning of a master", detail=f"master {m}: {g} != {w}"))
    if mk != mm_kerning:
        fails.append(dict(clause="kerning table unchanged (frame)", detail=""))
    return fails


def export_contract(orig, flags, order, mm_kerning, M):
    """the same through the exporter that converts a whole file"""
    from specs.fonts import export, glyph_data, make_font

    kern = {g: {} for g in order}
    for (L, rid), v in mm_kerning.items():
        kern[L][int(rid)] = v
    ents = [("OpenType Class", f"{n}: {' '.join(m)}") for n, m in orig.items()]
    ents.append(("OpenType Kerning Class Flags", copy.deepcopy(flags)))
    glyphs = [glyph_data(g, M, kerning=k) if k else glyph_data(g, M) for g, k in kern.items()]
    vfb = make_font(M, ents, glyphs)
    fonts = export(vfb, move_groups=False)
    want, wkeys = expected_groups(orig, flags, order, False)
    fails = []
    for m, font in enumerate(fonts):
        fails += check_final(want, dict(font.groups))
        w = expected_kerning(order, want, wkeys, mm_kerning, m)
        if dict(font.kerning) != w:
            fails.append(dict(clause="exported kerning of a master",
                              detail=f"master {m}: {dict(font.kerning)} != {w}"))
    if len(fonts) != M:
        fails.append(dict(clause="one UFO per master", detail=str(len(fonts))))
    return fails


POOL = ["A", "B", "C", "Adieresis", "a.sc", "b", "space", "quotesingle", "x"]


def gen(rng):
    order = rng.sample(POOL, rng.randint(2, 7))
    names = rng.sample(["_A", "_B", "__x", "_A_r", ".m1", "caps", "lc", "_C", "C_sc"], rng.randint(0, 6))
    orig, flags = {}, {}
    disjoint = rng.random() < 0.5
    left = list(POOL)
    rng.shuffle(left)
    for n in names:
        k = rng.randint(0, 4)
        if disjoint:
            m, left = left[:k], left[k:]
        else:
            m = rng.sample(POOL, k)
        m = list(m)
        want_key = n.startswith("_") if rng.random() < 0.85 else rng.random() < 0.5
        if want_key and m:
            for i in rng.sample(range(len(m)), 2 if len(m) > 1 and rng.random() < 0.1 else 1):
                m[i] += "'"
        orig[n] = m
        if n.startswith("_") and rng.random() < 0.85 or rng.random() < 0.05:
            flags[n] = (rng.choice([2**10, 2**11, 3 * 2**10, 0, 2**10 | 5, 2**11 | 2**12, 2**9 | 2**12]),
                        rng.choice([0, 0, 7]))
    return orig, flags, order


def gen_kern(rng, order, M):
    mk = {}
    for L in order:
        for r in rng.sample(range(len(order)), rng.randint(0, len(order))):
            if rng.random() < 0.6:
                mk[(L, r)] = [rng.choice([0, 0, -10, 33, rng.randint(-3000, 3000)]) for _ in range(M)]
    return mk


# ------------------------------------------------------------------ proofs
def setup_kerning(e):
    """the groups are known by which glyphs they have and which glyphs are their keys"""
    from pyvc.contracts import install_maps, some_map
    from vfbLib.ufo.groups import build_glyph_to_group_maps
    from vfbLib.ufo.kerning import UfoKerning

    install_maps(e)
    e.contracts[build_glyph_to_group_maps] = lambda e, a, kw: tuple(map(some_map, ("groups", "first", "second")))
    e.contracts[UfoKerning._reverse_key_glyph_dict] = lambda e, a, kw: some_map("keys")


def p_kerning(e, M):
    """kerning of each master: key glyphs stand for their groups, exceptions are kept"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.contracts import map_has, map_value
    from pyvc.schema import Below, S16
    from pyvc.terms import I, REG, Str
    from pyvc.values import FDict, FList, SStr
    from vfbLib.ufo.kerning import UfoKerning

    n, size = z3.Int("pairs"), z3.Int("glyphs")
    e.assume(z3.And(n >= 0, size >= 0))
    is_glyph = z3.Function("is a glyph", Str, z3.BoolSort())
    left, name = z3.Function("left", I, Str), z3.Function("glyph name", I, Str)
    iv, jv = (z3.Const(REG.fresh_name("i"), I) for _ in range(2))
    rid = Below(0, size).sym("rid", (iv,))
    # names of glyphs are unique, pairs are given once, no glyph has the name of a group, and
    # each group has one key glyph
    REG.on("left", lambda a: [is_glyph(a)])
    REG.on("glyph name", lambda a: [is_glyph(a)])
    REG.on("in groups", lambda a: [z3.Implies(a, z3.Not(is_glyph(a.arg(0))))])
    for x in ("first", "second"):
        REG.on(f"in {x}", lambda a: [z3.Implies(a, is_glyph(a.arg(0)))])
    for x in (1, 2):
        REG.on(f"in keys {x}", lambda a: [z3.Implies(a, is_glyph(a.arg(0)))])
        REG.on_pair(f"value of keys {x}", lambda a, b: z3.Implies(a == b, a.arg(0) == b.arg(0)))
    REG.on_pair("glyph name", lambda a, b: z3.Implies(a == b, a.arg(0) == b.arg(0)))
    r = z3.Function("rid", I, I)
    REG.on_pair("left", lambda a, b: z3.Implies(z3.And(a == b, r(a.arg(0)) == r(b.arg(0))), a.arg(0) == b.arg(0)))
    values = FList(tuple(("e", S16.sym(f"value{m}", (iv,))) for m in range(M)))
    kerning = FDict((("r", n, iv, (("e", (SStr(left(iv)), rid), values),)),))
    order = FList((("r", size, jv, (("e", SStr(name(jv))),)),))
    e.subject = ()
    k = e.call(UfoKerning, [order, FDict(()), kerning, FDict(())])

    def side(s, g):
        v = map_value(f"keys {s}", g).t
        c = z3.And(map_has(f"keys {s}", g), map_has("groups", v))
        return c, SStr(z3.If(c, v, g))

    L, R = left(iv), name(rid)
    (cl, lname), (cr, rname) = side(1, L), side(2, R)
    exception = z3.Or(z3.And(z3.Not(cl), map_has("first", L)), z3.And(z3.Not(cr), map_has("second", R)))
    for m in range(M):
        got = e.call(e.getattr(k, "get_master_kerning"), [m])
        v = values.seq[m][1]
        keep = z3.Or(v != 0, exception)
        want = FDict((("r", n, iv, (("c", ((keep, (("e", (lname, rname), v),)), (z3.Not(keep), ()))),)),))
        Comparer(e, f"kerning of master {m + 1}").value(got, want)


def symbolic_groups(e):
    """any number of groups of any number of glyphs -> (the dict, their number, name and glyphs
    of group k, their number)"""
    import z3
    from pyvc.terms import I, REG, Str
    from pyvc.values import FDict, FList, SStr

    n, k, t = z3.Int("groups"), z3.Const(REG.fresh_name("k"), I), z3.Const(REG.fresh_name("t"), I)
    name, size = z3.Function("group name", I, Str), z3.Function("glyphs of the group", I, I)
    glyph = z3.Function("glyph", I, I, Str)
    REG.on("glyphs of the group", lambda a: [a >= 0])
    e.assume(n >= 0)
    glyphs = FList((("r", size(k), t, (("e", SStr(glyph(k, t))),)),))
    return FDict((("r", n, k, (("e", SStr(name(k)), glyphs),)),)), n, name, size, glyph


def some_spot(e, key, empty=False):
    """a dict with any entry, or none -> (the dict, is there one, the value)"""
    import z3
    from pyvc.spots import spot
    from pyvc.terms import REG

    present = z3.Const(REG.fresh_name("has the key"), z3.BoolSort())
    value = unknown_text(e)
    return spot(e, key, lambda: unknown_text(e), present, value), present, value


def p_maps(e):
    """build_glyph_to_group_maps: for any glyph, the first group of the side that has the glyph.
    Invariants: of the groups so far, and of the glyphs so far of a group"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.terms import I, REG, zb, zi
    from pyvc.values import SStr
    from pyvc.texts import test
    from vfbLib.ufo.groups import build_glyph_to_group_maps, rebuild_kerning_groups

    groups, n, name, size, glyph = symbolic_groups(e)
    key = unknown_text(e)
    maps = ("glyph_group_1", "glyph_group_2")
    rebuilt = []

    def rebuild(e, a, kw):
        rebuilt.append(a)
        return "the groups"

    e.contracts[rebuild_kerning_groups] = rebuild

    def some_maps(e, fr):
        state, objs = [], set()
        for x in maps:
            s, present, value = some_spot(e, key)
            fr.locals[x] = s
            objs.add(s.id)
            state.append((present, value))
        return state, objs

    def compare(e, what, fr, state):
        for x, entry in zip(maps, state):
            spot_is(e, f"{what}: {x}", fr.locals[x], *entry)

    def empty(e, fr):
        for x in maps:
            Comparer(e, "no groups at first").value(fr.locals[x], {})

    def has(k, upto):
        t = z3.Const("t", I)
        return z3.Exists([t], z3.And(t >= 0, t < zi(upto), glyph(k, t) == key.t))

    def seen(e, state, k, upto):
        """the entries after some glyphs of group k: the first group that has the glyph stays"""
        out = []
        for side, (present, value) in zip((1, 2), state):
            x = SStr(name(k))
            mine = zb(test(e, "starts with", x, f"public.kern{side}"))
            out.append((z3.Or(present, z3.And(mine, has(k, upto))), SStr(z3.If(present, value.t, x.t))))
        return out

    # ---- the glyphs of one group
    now = {}

    def inner_initially(e, fr):
        now["before"] = [(zb(e.getattr(fr.locals[x], "present")), e.force(e.getattr(fr.locals[x], "value")))
                         for x in maps]

    def inner_arbitrary(e, fr, t):
        objs = set()
        for x, entry in zip(maps, seen(e, now["before"], now["k"], t)):
            s, _, _ = some_spot(e, key)
            e.setattr(s, "present", entry[0])
            e.setattr(s, "value", entry[1])
            fr.locals[x] = s
            objs.add(s.id)
        return None, objs, set()

    def inner_step(e, fr, t, state):
        compare(e, "glyphs so far", fr, seen(e, now["before"], now["k"], zi(t) + 1))

    class Inner(Invariant):
        def fits(self, e, fr, m):
            k = now.get("k")
            self.count = size(k) if k is not None else -1
            return super().fits(e, fr, m)

    inner = Inner(None, maps, inner_initially, inner_arbitrary, inner_step)

    # ---- the groups
    def arbitrary(e, fr, k):
        now["k"] = k
        state, objs = some_maps(e, fr)
        return state, objs, set()

    def step(e, fr, k, state):
        compare(e, "groups so far", fr, seen(e, state, k, size(k)))

    outer = Invariant(n, maps, empty, arbitrary, step)
    e.invariants = [outer, inner]
    got = e.force(e.call(build_glyph_to_group_maps, [groups]))
    if not e.prove("groups and two tables are returned", isinstance(got, tuple) and len(got) == 3 and len(rebuilt) > 0):
        return
    e.prove("the groups are those that have been rebuilt", got[0] == "the groups")
    a = rebuilt[-1]
    e.prove("they are rebuilt from the groups and the tables",
            a[0] is groups and e.force(a[1]) == e.force(got[1]) and e.force(a[2]) == e.force(got[2]))
    compare_final = [e.force(x) for x in got[1:]]
    for x, entry, side in zip(compare_final, outer.final, (1, 2)):
        spot_is(e, f"first group of a glyph, side {side}", x, *entry)


def p_keys(e):
    """UfoKerning._reverse_key_glyph_dict: for any side and glyph, the first group of the side
    whose key glyph it is. Invariant: of the groups so far"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.terms import I, REG, Str, zb
    from pyvc.texts import test
    from pyvc.values import FDict, HInst, SStr
    from vfbLib.ufo.kerning import UfoKerning

    n, i = z3.Int("groups"), z3.Const(REG.fresh_name("k"), I)
    name, glyph = z3.Function("group name", I, Str), z3.Function("key glyph", I, Str)
    e.assume(n >= 0)
    keys = FDict((("r", n, i, (("e", SStr(name(i)), SStr(glyph(i))),)),))
    side, key = e.choose_free(2) + 1, unknown_text(e)

    def initially(e, fr):
        Comparer(e, "no keys at first").value(fr.locals["rev"], {})

    def arbitrary(e, fr, k):
        s, present, value = some_spot(e, (side, key))
        fr.locals["rev"] = s
        return (present, value), {s.id}, set()

    def step(e, fr, k, state):
        present, value = state
        mine = z3.And(zb(test(e, "starts with", SStr(name(k)), f"public.kern{side}")), glyph(k) == key.t)
        spot_is(e, "keys so far", fr.locals["rev"], z3.Or(present, mine), SStr(z3.If(present, value.t, name(k))))

    inv = Invariant(n, ("rev",), initially, arbitrary, step)
    e.invariants = [inv]
    u = e.alloc(HInst(UfoKerning))
    got = e.call(e.getattr(u, "_reverse_key_glyph_dict"), [keys])
    spot_is(e, "group of a key glyph", e.force(got), *inv.final)


def p_members(e):
    """_build_groups: for any group, the glyphs whose group it is, in their order. Invariant: of
    the glyphs so far"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.spots import spot
    from pyvc.terms import I, REG, Str, zb
    from pyvc.values import FDict, FList, HList, SStr
    from vfbLib.ufo.groups import _build_groups

    n, i = z3.Int("glyphs"), z3.Const(REG.fresh_name("k"), I)
    name, group = z3.Function("glyph name", I, Str), z3.Function("group", I, Str)
    e.assume(n >= 0)
    REG.on_pair("glyph name", lambda a, b: z3.Implies(a == b, a.arg(0) == b.arg(0)))
    mapping = FDict((("r", n, i, (("e", SStr(name(i)), SStr(group(i))),)),))
    key = unknown_text(e)

    def initially(e, fr):
        Comparer(e, "no groups at first").value(fr.locals["groups"], {})

    def arbitrary(e, fr, k):
        members = unknown_list(e, "members")
        size = members[0][1]
        ref = e.alloc(HList(members))
        s = spot(e, key, lambda: e.alloc(HList(unknown_list(e, "members of another"))), size > 0, ref)
        fr.locals["groups"] = s
        return members, {s.id, ref.id}, set()

    def step(e, fr, k, members):
        s = fr.locals["groups"]
        if e.branch(group(k) == key.t):
            members += (("e", SStr(name(k))),)
        spot_is(e, "groups so far", s, e.length(FList(members)) > 0, FList(members))

    inv = Invariant(n, ("groups",), initially, arbitrary, step)
    e.invariants = [inv]
    got = e.force(e.call(_build_groups, [mapping]))
    members = inv.final
    spot_is(e, "members of a group", got, e.length(FList(members)) > 0, FList(members))


def p_rebuild(e):
    """rebuild_kerning_groups: the groups that are not for kerning, and those of the glyphs of
    each side"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.terms import I, REG, Str
    from pyvc.values import FDict, FList, SStr
    from specs.groups import rebuilt
    from vfbLib.ufo.groups import _build_groups, rebuild_kerning_groups

    def some_groups(what):
        i = z3.Const(REG.fresh_name("k"), I)
        n = z3.Int(f"number of {what}")
        e.assume(n >= 0)
        members = SStr(z3.Function(f"members of {what}", I, Str)(i))
        return FDict((("r", n, i, (("e", SStr(z3.Function(what, I, Str)(i)), members),)),))

    groups, *built = map(some_groups, ("groups", "groups of side 1", "groups of side 2"))
    e.contracts[_build_groups] = lambda e, a, kw: built[a[0] - 1]
    got = e.call(rebuild_kerning_groups, [groups, 1, 2])
    Comparer(e, "the groups").value(got, e.call(rebuilt, [groups, *built]))


def p_transform(e, which):
    """transform_groups, any classes: what becomes of a class, under its name or those of its
    sides. Invariant: the group of any name comes from one of the classes so far, which makes
    it the glyphs and the key glyph that it has; the order is that of the classes"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.expr import is_text
    from pyvc.invariants import Invariant
    from pyvc.spots import spot
    from pyvc.terms import I, REG, Str, zb, zi
    from pyvc.texts import test
    from pyvc.values import FDict, FList, FObj, FmtStr, HList, SStr, Unsupported
    from specs.abstract import Flags, Missing
    from specs.groups import final_names, key_first, key_glyphs
    from vfbLib.ufo.groups import check_for_missing_glyphs, transform_groups

    classes, n, name, size, glyph = symbolic_groups(e)
    REG.on_pair("group name", lambda a, b: z3.Implies(a == b, a.arg(0) == b.arg(0)))
    e.assumptions.add("no class has the name of a group that is made for a kerning class")
    flags, order = FObj(Flags, ()), FObj(Missing, (("what", "glyphs of the font"),))
    skip = z3.Bool("skip")
    flag = z3.Function("flags of", Str, I)
    REG.on("flags of", lambda a: [a >= 0, a < 2**32])
    flagged = z3.Function("has flags", Str, z3.BoolSort())
    absent = z3.Function("is missing", Str, z3.BoolSort())
    now = {}

    def has_flags(e, a, kw):
        return flagged(e.force(a[1]).t)

    def flags_of(e, a, kw):
        x = e.force(a[1])
        if not e.branch(flagged(x.t)):
            raise Unsupported("flags of another class")
        return (flag(x.t), 0)

    e.contracts[Flags.__contains__] = has_flags
    e.contracts[Flags.__getitem__] = flags_of
    e.contracts[Flags.get] = lambda e, a, kw: flags_of(e, a, kw) if e.branch(has_flags(e, a, kw)) else (a[2:] or [None])[0]
    e.contracts[Missing.__contains__] = lambda e, a, kw: absent(e.force(a[1]).t)
    e.contracts[Missing.__len__] = lambda e, a, kw: e.getattr(a[0], "size")

    # ---- check_for_missing_glyphs, by contract
    number = z3.Function("number of missing glyphs", I, I)

    def all_missing(k):
        return number(k) == now["total"]

    def missing_glyphs(e, a, kw):
        k = now["k"]
        names = dict(zip(("group_name", "glyphs", "glyphOrder", "skip_missing_group_glyphs"), a))
        names.update(kw)
        x = SStr(name(k))
        members = classes.ents[0][3][0][2]
        _, m, iv, sub = vs_members(members, k)
        Comparer(e, "glyphs of the class, key glyphs first").value(
            names["glyphs"], e.call(key_first, [FList((("r", m, iv, sub),))]))
        e.prove("missing glyphs: order", e.force(names["glyphOrder"]) == order)
        e.prove("missing glyphs: skip", zb(e.truth(names.get("skip_missing_group_glyphs", False))) == skip)
        now["total"] = zi(e.length(names["glyphs"]))
        e.assume(z3.And(number(k) >= 0, number(k) <= now["total"]))
        # if all glyphs are missing each of them is
        t = z3.Const("t", I)
        e.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < size(k), all_missing(k), quoted(glyph(k, t))),
                                           absent(strip(glyph(k, t))))))
        gone = FObj(Missing, (("size", number(k)),))
        kept = some_glyphs(k)
        if e.branch(z3.And(skip, all_missing(k), number(k) > 0)):
            return (e.alloc(HList()), gone)
        e.assume(z3.Implies(now["total"] > 0, e.length(kept) > 0))
        return (kept, gone)

    def vs_members(members, k):
        from pyvc.values import vsubst

        return vsubst(members.seq, [(classes.ents[0][2], k)])[0]

    def some_glyphs(k):
        """the glyphs of class k that are not left out"""
        i = z3.Const("i", I)
        m = z3.Function("number of glyphs kept", I, I)
        e.assume(m(k) >= 0)
        return FList((("r", m(k), i, (("e", SStr(z3.Function("glyph kept", I, I, Str)(k, i))),)),))

    def strip(t):
        from pyvc.texts import part

        return part("strip", ["'"], t).t

    def quoted(t):
        from pyvc.texts import known

        return known("ends with", "'", t)

    e.contracts[check_for_missing_glyphs] = missing_glyphs

    # ---- the entry that is looked at: the group of some side of a class, or another class
    N = unknown_text(e)
    key = N if which == 0 else FmtStr((f"public.kern{which}.", N))

    def same_name(e, k):
        """is k the name that is looked at"""
        k = e.force(k)
        if isinstance(k, SStr):
            return k.t == N.t if which == 0 else False
        if isinstance(k, FmtStr) and len(k.parts) == 2 and isinstance(k.parts[1], SStr) and k.parts[0] in (
                "public.kern1.", "public.kern2."):
            return k.parts[1].t == N.t if which and k.parts[0] == f"public.kern{which}." else False
        raise Unsupported("another name of a group")

    def entry(e, present, value):
        # the groups so far come from earlier classes: there is none of the name of this one
        return spot(e, key, None, present, value, same=same_name, others=False)

    def initially(e, fr):
        for x, what in (("groups", {}), ("key_glyphs", {}), ("group_order", [])):
            Comparer(e, "nothing at first").value(fr.locals[x], what)

    def arbitrary(e, fr, k):
        now["k"] = k
        objs = set()
        source = z3.Const(REG.fresh_name("source"), I)
        present = z3.Const(REG.fresh_name("is a group"), z3.BoolSort())
        has_key = z3.Const(REG.fresh_name("has a key"), z3.BoolSort())
        e.assume(z3.Implies(z3.Or(present, has_key), z3.And(source >= 0, source < zi(k), name(source) == N.t)))
        value, kg = some_glyphs(source), unknown_text(e)
        for x, p, v in (("groups", present, value), ("key_glyphs", has_key, kg)):
            s = entry(e, p, v)
            fr.locals[x] = s
            objs.add(s.id)
        names = unknown_list(e, "names")
        fr.locals["group_order"] = e.alloc(HList(names))
        objs.add(fr.locals["group_order"].id)
        return (present, value, has_key, kg, names), objs, set()

    def step(e, fr, k, state):
        present, value, has_key, kg, names = state
        x = SStr(name(k))
        left_out = z3.And(skip, all_missing(k), number(k) > 0)
        finals = e.force(e.call(final_names, [x, flags, left_out]))
        Comparer(e, "order of the groups").value(fr.locals["group_order"], FList(names + e.seq_of(finals)))
        kern = zb(test(e, "starts with", x, "_"))
        made = z3.And(x.t == N.t, z3.Not(left_out),
                      z3.And(kern, flagged(x.t), (flag(x.t) / 2**(9 + which)) % 2 == 1) if which else z3.Not(kern))
        spot_is(e, "glyphs of a group", fr.locals["groups"], z3.Or(present, made),
                value if not e.branch(made) else some_glyphs(k))
        # the key glyph is the first one that exists, or the first one of a group without glyphs
        t, u = z3.Ints("t u")
        good = lambda t: z3.And(t >= 0, t < size(k), quoted(glyph(k, t)),
                                z3.Or(z3.Not(absent(strip(glyph(k, t)))), all_missing(k)))
        first = lambda t: z3.And(good(t), z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < t), z3.Not(good(u)))))
        s = fr.locals["key_glyphs"]
        e.prove("is there a key glyph", zb(e.truth(e.getattr(s, "present"))) == z3.Or(
            has_key, z3.And(made, z3.Exists([t], good(t)))))
        c = Comparer(e, "key glyph of a group")
        got = e.getattr(s, "value")
        c.under([z3.Not(made)], lambda: c.value(got, kg))

        def first_one():
            y = e.force(got)
            e.prove("the key glyph is a text", isinstance(y, SStr))
            if isinstance(y, SStr):
                e.prove("the first key glyph", z3.Exists([t], z3.And(first(t), y.t == strip(glyph(k, t)))))

        if e.branch(z3.And(made, z3.Exists([t], good(t)))):
            first_one()

    inv = Invariant(n, ("groups", "group_order", "key_glyphs"), initially, arbitrary, step)
    e.invariants = [inv]
    got = e.force(e.call(transform_groups, [classes, flags, order, skip]))
    if not e.prove("groups, order and key glyphs are returned", isinstance(got, tuple) and len(got) == 3):
        return
    present, value, has_key, kg, names = inv.final
    spot_is(e, "glyphs of a group", e.force(got[0]), present, value)
    Comparer(e, "order of the groups").value(got[1], FList(names))
    spot_is(e, "key glyph of a group", e.force(got[2]), has_key, kg)


def p_missing(e):
    """check_for_missing_glyphs, any glyphs of a group"""
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, Text
    from pyvc.terms import Str, zb
    from pyvc.values import FObj
    from specs.abstract import GlyphOrder, Missing
    from specs.groups import present_glyphs
    from vfbLib.ufo.groups import check_for_missing_glyphs
    import z3

    absent = z3.Function("is missing", Str, z3.BoolSort())
    e.contracts[Missing.__contains__] = lambda e, a, kw: absent(e.force(a[1]).t)
    e.contracts[GlyphOrder.__contains__] = lambda e, a, kw: z3.Not(absent(e.force(a[1]).t))
    glyphs = ListOf(Text()).sym("glyphs")
    skip = bool(e.choose_free(2))
    got = e.call(check_for_missing_glyphs, [unknown_text(e), glyphs, FObj(GlyphOrder, ()), skip])
    want = e.call(present_glyphs, [glyphs, FObj(Missing, ()), skip])
    for x, y, what in zip(e.force(got), e.force(want), ("glyphs of the group", "missing glyphs")):
        Comparer(e, what).value(x, y)


def setup_maps(e):
    from pyvc import spots, texts

    texts.setup(e)
    spots.setup(e)


def proofs():
    from props.proofs import Proof

    return [Proof("build_glyph_to_group_maps", p_maps, setup=setup_maps, modular=True),
            Proof("UfoKerning._reverse_key_glyph_dict", p_keys, setup=setup_maps, modular=True),
            Proof("rebuild_kerning_groups", p_rebuild, setup=setup_maps, modular=True),
            Proof("check_for_missing_glyphs", p_missing, setup=setup_maps, modular=True),
            *[Proof(f"transform_groups, {x}", p_transform, (i,), setup=setup_maps, modular=True)
              for i, x in enumerate(("other groups", "side 1", "side 2"))],
            Proof("_build_groups", p_members, setup=setup_maps, modular=True)] + [Proof(f"UfoKerning.get_master_kerning, {M} masters", p_kerning, (M,), setup=setup_kerning)
            for M in (1, 2, 4)]


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(600, 15000)):
        orig, flags, order = gen(rng)
        run.case(groups_contract, orig, flags, order, rng.random() < 0.5)
    for _ in range(run.n(600, 15000)):
        orig, flags, order = gen(rng)
        M = rng.choice([1, 1, 2, 4])
        run.case(kerning_contract, orig, flags, order, gen_kern(rng, order, M), M)
    for _ in range(run.n(60, 900)):
        orig, flags, order = gen(rng)
        M = rng.choice([1, 2, 4])
        run.case(export_contract, orig, flags, order, gen_kern(rng, order, M), M)
    return proofs.finish(run)
