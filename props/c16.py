"""C16 dates, guides and bit numbers"""
import copy
import math
from datetime import UTC, datetime, timedelta

from pyvc.concrete import call

TIME_ZERO = 2082841200  # the file format counts seconds from 1904-01-01 01:00
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)


def time_contract(t):
    """t: stored (signed) timestamp"""
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    fails = []
    secs = max(0, t % 2**32 - TIME_ZERO)
    got = convert_timestamp(t)
    want = EPOCH + timedelta(seconds=secs)
    if got != want or got.utcoffset() != timedelta(0):
        fails.append(dict(clause="date of a timestamp", detail=f"{t}: {got} != {want}"))
    back = datetime_to_fl(want)
    w = secs + TIME_ZERO
    w = w - 2**32 if w >= 2**31 else w
    if back != w:
        fails.append(dict(clause="timestamp of a date", detail=f"{want}: {back} != {w}"))
    return fails


def early_contract(days):
    from vfbLib.ufo.time import datetime_to_fl

    got = datetime_to_fl(EPOCH - timedelta(days=days, seconds=1))
    if got != TIME_ZERO:
        return [dict(clause="dates before 1970 are clamped", detail=str(got))]
    return []


def late_contract(t):
    """dates beyond the range are refused"""
    from vfbLib.ufo.time import datetime_to_fl

    st, r = call(lambda: datetime_to_fl(EPOCH + timedelta(seconds=t)))
    if st == "ok":
        return [dict(clause="a date beyond the range is refused", detail=str(r))]
    return []


def angle(d, a):
    if d == "v":
        a = 90 - a
    if a < 0:
        a += 360
    if a > 360:
        a -= 360
    return a


def check_guides(mm, m, props, got):
    want = []
    for d in "hv":
        for i, g in enumerate(mm[d]):
            w = dict(x=g[m]["pos"] if d == "v" else 0, y=g[m]["pos"] if d == "h" else 0, angle=angle(d, g[m]["angle"]))
            for p in props[d] if props else ():
                if p["index"] == i + 1:
                    if "name" in p:
                        w["name"] = p["name"]
                    if "color" in p:
                        rgb = [int(p["color"][k: k + 2], 16) / 255 for k in (1, 3, 5)]
                        w["color"] = "%0.4f,%0.4f,%0.4f,1" % tuple(rgb)
            want.append(w)
    fails = []
    if len(got) != len(want):
        return [dict(clause="one guide per guide", detail=f"{got} {want}")]
    for a, b in zip(got, want):
        a = {k: v for k, v in dict(a).items() if v is not None and k != "identifier"}
        x, y = a.pop("angle", None), b.pop("angle")
        if a != b:
            fails.append(dict(clause="axis, position, name and colour", detail=f"{a} != {b}"))
        if x is None or not 0 <= x <= 360:
            fails.append(dict(clause="angle within one turn", detail=f"{x}"))
        elif abs((x - y + 90) % 180 - 90) > 0.00501:
            fails.append(dict(clause="angle denotes the same line", detail=f"{x} {y}"))
    return fails


def guide_contract(mm, props, M):
    from vfbLib.ufo.guides import apply_guide_properties, get_master_guides

    fails = []
    for m in range(M):
        mm2, p2 = copy.deepcopy(mm), copy.deepcopy(props)
        gs = get_master_guides(mm2, m)
        apply_guide_properties(gs, p2)
        fails += check_guides(mm, m, props, gs)
        if mm2 != mm or p2 != props:
            fails.append(dict(clause="data unchanged (frame)", detail=""))
    return fails


def export_contract(mm, props, gmm, gprops, M):
    from specs.fonts import export, glyph_data, make_font

    vfb = make_font(M, [("Global Guides", copy.deepcopy(mm)), ("Global Guide Properties", copy.deepcopy(props))],
                    [(glyph_data("a", M, guides=copy.deepcopy(gmm)), [("Glyph Guide Properties", copy.deepcopy(gprops))]),
                     glyph_data("b", M)])
    fails = []
    for m, font in enumerate(export(vfb)):
        as_dict = lambda g: dict(x=g.x if g.x is not None else 0, y=g.y if g.y is not None else 0,
                                 angle=g.angle, name=g.name, color=g.color)
        for what, got, w, p in (("font", font.info.guidelines, mm, props),
                                ("glyph", font["a"].guidelines, gmm, gprops),
                                ("other glyph", font["b"].guidelines, dict(h=[], v=[]), None)):
            got = [as_dict(g) if not isinstance(g, dict) else g for g in got or []]
            fails += [dict(clause=f"exported {what}: {f['clause']}", detail=f["detail"])
                      for f in check_guides(w, m, p, got)]
    return fails


def bits_contract(n, start, order):
    from vfbLib.helpers import binaryToIntList, intListToBinary

    fails = []
    got = binaryToIntList(n, start)
    want = [i + start for i in range(n.bit_length()) if n >> i & 1]
    if got != want:
        fails.append(dict(clause="bit positions", detail=f"{n}: {got}"))
    if start == 0:
        import random

        perm = list(want)
        random.Random(order).shuffle(perm)
        back = intListToBinary(perm)
        if back != n or type(back) is not int:
            fails.append(dict(clause="number of bit positions", detail=f"{perm}: {back} != {n}"))
    return fails


def gen_guides(rng, M):
    a = lambda: rng.choice([0, 0, 0.0, 90, -90, 45.0, -45.0, 30, 12.3456789, -0.001, 180, -180, 359.999, 360, 270, rng.uniform(-90, 90)])
    return {d: [[dict(pos=rng.randint(-30000, 30000), angle=a()) for _ in range(M)]
                for _ in range(rng.randint(0, 4))] for d in "hv"}


def gen_props(rng, mm):
    out = {}
    for d in "hv":
        out[d] = []
        idx = rng.sample(range(1, 7), rng.randint(0, 4))
        for i in idx:
            p = dict(index=i)
            if rng.random() < 0.6:
                p["color"] = "#" + "%02x%02x%02x" % tuple(rng.choice([0, 1, 15, 16, 128, 255, rng.randrange(256)]) for _ in range(3))
            if rng.random() < 0.6:
                p["name"] = rng.choice(["x-height", "ä", "baseline", "g%d" % i])
            out[d].append(p)
    return out


# ------------------------------------------------------------------ contracts
class Date:
    """marker: the UTC date `secs` seconds after 1970"""


def setup_dates(e):
    """datetime (a dependency): UTC dates by their number of seconds since 1970"""
    from pyvc.values import FObj, Unsupported

    note = "datetime.fromtimestamp(n, UTC) is the date n seconds after 1970, timestamp its inverse"

    def from_ts(e, a, kw):
        n, tz = e.force(a[0]), (a[1] if len(a) > 1 else kw.get("tz"))
        if tz is not UTC or not e.nat.is_num(n):
            raise Unsupported("date of another kind")
        e.assumptions.add(note)
        return FObj(Date, (("secs", n),))

    def ts(e, a, kw):
        from pyvc.terms import FIX, zi
        from pyvc.values import SFl

        d = e.force(a[0])
        if not (isinstance(d, FObj) and d.cls is Date):
            raise Unsupported("timestamp of something else")
        e.assumptions.add(note)
        return SFl(FIX(zi(dict(d.attrs)["secs"])))

    e.contracts[datetime.fromtimestamp] = from_ts
    e.contracts[datetime.timestamp] = ts


def p_date(e):
    """date of a stored timestamp"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.values import FObj
    from vfbLib.ufo.time import convert_timestamp

    t = e.subject = z3.Int("t")
    e.assume(z3.And(t >= -(2**31), t < 2**31))
    r = e.call(convert_timestamp, [t])
    u = z3.If(t < 0, t + 2**32, t)
    ok = isinstance(r, FObj) and r.cls is Date
    e.prove("a UTC date", ok)
    if ok:
        Comparer(e, "seconds since 1970, not before").value(
            dict(r.attrs)["secs"], z3.If(u < TIME_ZERO, 0, u - TIME_ZERO))


def p_stamp(e):
    """stored timestamp of a date"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from pyvc.values import FObj
    from vfbLib.ufo.time import datetime_to_fl

    s = z3.Int("secs")
    e.assume(z3.And(s >= -62135596800, s <= 253402300799))  # years 1 to 9999
    u = s + TIME_ZERO
    e.subject = z3.If(u >= 2**31, u - 2**32, u)
    e.branch(u < 2**32)
    e.branch(s < 0)
    try:
        r = e.call(datetime_to_fl, [FObj(Date, (("secs", s),))])
    except Raise as x:
        e.prove("only dates beyond the range are refused", u >= 2**32)
        e.prove("refused by OverflowError", issubclass(x.exc.type, OverflowError))
        return
    e.prove("dates beyond the range are refused", u < 2**32)
    Comparer(e, "timestamp").value(r, z3.If(s < 0, TIME_ZERO, z3.If(u >= 2**31, u - 2**32, u)))


def p_guides(e, M, m):
    """guides of one master: axis, position, an angle of the same line within one turn"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import Angle, Int, ListOf, Rec
    from pyvc.values import FList
    from vfbLib.ufo.guides import get_master_guides

    mm = Rec(dict(h=ListOf(ListOf(Rec(dict(pos=Int(-(2**31), 2**31 - 1), angle=Angle(-360, 450))), n=M)),
                  v=ListOf(ListOf(Rec(dict(pos=Int(-(2**31), 2**31 - 1), angle=Angle(-360, 450))), n=M)))).sym("mm")
    e.subject = (mm, m)
    got = e.call(get_master_guides, [mm, m])
    seq = e.nat.nf_list(e, got)
    seq = e.get(seq).seq
    from pyvc.values import vsubst

    lists = [x for _, x in ((en[1], en[2]) for en in mm.ents)]
    want = [t for li in lists for t in li.seq]
    ok = len(seq) == 2 and all(g[0] == "r" and len(g[3]) == 1 for g in seq)
    e.prove("one list of guides per direction", ok)
    if not ok:
        return
    for d, g, w in zip("hv", seq, want):
        Comparer(e, f"number of {d} guides").value(g[1], w[1])
        i = z3.Int(f"i_{d}")
        e.assume(z3.And(i >= 0, i < w[1]))
        body = vsubst(g[3], [(g[2], i)])
        while len(body) == 1 and body[0][0] == "c":
            e.prove("some guide for each guide", z3.Or([c for c, _ in body[0][1]]))
            body = body[0][1][e.choose([c for c, _ in body[0][1]])][1]
        ok = len(body) == 1 and body[0][0] == "e"
        e.prove("one guide per guide", ok)
        if not ok:
            return
        guide = body[0][1]
        src = vsubst(w[3], [(w[2], i)])[0][1]
        src = dict((en[1], en[2]) for en in src.seq[m][1].ents)
        item = lambda k: e.getitem(guide, k)
        Comparer(e, "position").value(item("y" if d == "h" else "x"), src["pos"])
        Comparer(e, "other coordinate").value(item("x" if d == "h" else "y"), 0)
        a = src["angle"].t if d == "h" else 90 - src["angle"].t
        r = e.real(item("angle"))
        e.prove("angle within one turn", z3.And(r >= 0, r <= 360))
        e.prove("angle denotes the same line", z3.Or([z3.And(
            r - a - k <= z3.Q(1, 200), r - a - k >= -z3.Q(1, 200)) for k in (-360, -180, 0, 180, 360)]))


def p_properties(e, kinds, given):
    """apply_guide_properties: the guides `kinds` (their directions), each property of `given`
    (direction, parts) at any index, with any colour"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import Int, Text
    from pyvc.values import FDict, FList
    from specs.guides import some_color, with_properties
    from vfbLib.ufo.guides import apply_guide_properties

    byte = Int(0, 255)
    mk = lambda ents: e.call(dict, [FDict(tuple(("e",) + x for x in ents))])
    base = [[("angle", z3.Int(f"angle{i}")), ("x", z3.Int(f"x{i}")), ("y", z3.Int(f"y{i}")), ("_direction", d)]
            for i, d in enumerate(kinds)]
    props = {"h": [], "v": []}
    for i, (d, parts) in enumerate(given):
        ents = [("index", Int(-(2**31), 2**31 - 1).sym(f"index{i}"))]
        if "c" in parts:
            ents.append(("color", e.call(some_color, [byte.sym(f"{k}{i}") for k in "rgb"])))
        if "n" in parts:
            ents.append(("name", Text().sym(f"name{i}")))
        for j, _ in enumerate(kinds):
            e.branch(ents[0][1] == j + 1)
        props[d].append(FDict(tuple(("e",) + x for x in ents)))
    props = FDict(tuple(("e", d, FList(tuple(("e", p) for p in ps))) for d, ps in props.items()))
    e.subject = props
    guides = e.call(list, [FList(tuple(("e", mk(b)) for b in base))])
    e.call(apply_guide_properties, [guides, props])
    want = e.call(with_properties, [FList(tuple(("e", mk(b[:3])) for b in base)), kinds, props])
    Comparer(e, "guides").value(guides, want)


BITS = 32


def bit_number():
    import z3

    c = [z3.Bool(f"bit{j}") for j in range(BITS)]
    return c, sum(z3.If(x, z3.IntVal(2**j), z3.IntVal(0)) for j, x in enumerate(c))


def p_bits(e, start):
    """bit positions of every number below 2**32"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.terms import simp
    from pyvc.values import FList
    from vfbLib.helpers import binaryToIntList

    c, n = bit_number()
    e.subject = n
    n = simp(n)
    st = z3.Int("start") if start else 0
    r = e.call_function(binaryToIntList, [n, st], {})
    Comparer(e, "positions of the bits, in order").value(r, FList(tuple(
        ("c", ((x, (("e", st + j),)), (z3.Not(x), ()))) for j, x in enumerate(c))))


def p_number(e):
    """number of a list of bit positions below 32"""
    from pyvc.compare import Comparer
    from pyvc.values import FList
    from vfbLib.helpers import intListToBinary
    import z3

    c, n = bit_number()
    e.subject = n
    r = e.call_function(intListToBinary, [FList(tuple(
        ("c", ((x, (("e", j),)), (z3.Not(x), ()))) for j, x in enumerate(c)))], {})
    Comparer(e, "sum of the bits").value(r, n)


def c_properties(d, kinds, given):
    mm = {k: [[dict(pos=7 * i, angle=i)] for i in range(kinds.count(k))] for k in "hv"}
    return guide_contract, (mm, d, 1)


def c_guides(d, M, m):
    return guide_contract, (d[0], dict(h=[], v=[]), M)


def proofs():
    from props.proofs import Proof

    out = [Proof("convert_timestamp", p_date, setup=setup_dates, case=lambda d: (time_contract, (d,))),
           Proof("datetime_to_fl", p_stamp, setup=setup_dates, allowed=(OverflowError,),
                 case=lambda d: (time_contract, (d,)))]
    for M in (1, 2, 4):
        for m in range(M):
            out.append(Proof(f"get_master_guides, master {m + 1} of {M}", p_guides, (M, m),
                             case=c_guides))
    for kinds in ("hv", "vhv"):
        for given in ([("h", "cn"), ("v", "cn")], [("v", "c"), ("h", "n"), ("v", "n")], [("h", "")], [("v", "c"), ("v", "c")]):
            out.append(Proof(f"apply_guide_properties, guides {kinds}, properties {' '.join(d + ':' + x for d, x in given)}",
                             p_properties, (kinds, given), modular=True, case=c_properties))
    for st in (False, True):
        out.append(Proof("binaryToIntList" + " with a start" * st, p_bits, (st,),
                         case=lambda d, st: (bits_contract, (d, 5 * st, 1))))
    out.append(Proof("intListToBinary", p_number, case=lambda d: (bits_contract, (d, 0, 1))))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    ts = {TIME_ZERO + d for d in range(-3, 4)} | {0, 1, -1, 2**31 - 1, -(2**31), 2**31 - 2, -(2**31) + 1}
    ts |= {rng.randint(-(2**31), 2**31 - 1) for _ in range(run.n(800, 60000))}
    ts |= {(TIME_ZERO + rng.randint(0, 2**32 - TIME_ZERO - 1) + 2**31) % 2**32 - 2**31 for _ in range(run.n(800, 60000))}
    for t in sorted(ts):
        run.case(time_contract, t)
    for d in (0, 1, 365, 24000, 300000):
        run.case(early_contract, d)
    for t in (2**32 - TIME_ZERO, 2**32 - TIME_ZERO + 1, 2**32, 2**33):
        run.case(late_contract, t)
    for n in list(range(0, 300)) + [2**k + d for k in (15, 16, 31, 32, 63, 64, 100) for d in (-1, 0, 1)]:
        run.case(bits_contract, n, rng.choice([0, 0, 1, 32]), 1)
    for _ in range(run.n(300, 8000)):
        run.case(bits_contract, rng.getrandbits(rng.choice([8, 16, 32, 33, 64, 120])), rng.choice([0, 0, 5]), rng.random())
    for _ in range(run.n(400, 9000)):
        M = rng.choice([1, 2, 4])
        mm = gen_guides(rng, M)
        run.case(guide_contract, mm, gen_props(rng, mm), M)
    for _ in range(run.n(40, 400)):
        M = rng.choice([1, 2, 4])
        a, b = gen_guides(rng, M), gen_guides(rng, M)
        run.case(export_contract, a, gen_props(rng, a), b, gen_props(rng, b), M)
    return proofs.finish(run)
