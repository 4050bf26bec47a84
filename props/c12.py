"""C12 bitmaps"""
import copy
from io import BytesIO

from pyvc.concrete import call, lookup, make_vfb, short
from specs.wire import Ctx, W

PLATFORMS = ["macos", "windows"]


def bpr(w):
    return max(1, (w + 15) // 16) * 2


def random_rows(rng, w, h):
    n = bpr(w)
    mode = rng.randrange(6)
    total = n * h
    flat = []
    while len(flat) < total:
        if mode == 0:
            flat.append(rng.randrange(256))
        elif mode == 1:
            flat += [rng.choice([0, 255, 128, 1])] * rng.choice([1, 2, 3, 4, 127, 128, 129, 256, 257])
        elif mode == 2:
            flat += [rng.choice([0, 255])] * rng.choice([1, 2, 3])
        elif mode == 3:
            k = rng.choice([1, 2, 3, 127, 128, 129, 130])
            flat += [rng.randrange(256)] * k
        elif mode == 4:
            flat += [i & 255 for i in range(rng.choice([1, 5, 127, 128, 129, 300]))]
        else:
            flat += [0]
    flat = flat[:total]
    return [flat[i * n : i * n + n] for i in range(h)]


def random_bitmap(rng, image):
    w = rng.choice([0, 1, 7, 8, 15, 16, 17, 32, 33, 300, 1000, 1040, 2100])
    h = rng.choice([0, 1, 2, 3, 5, 9])
    rows = random_rows(rng, w, h)
    S = lambda: rng.choice([0, 1, -1, 107, 108, -108, 1132, -(2**31), 2**31 - 1, rng.randint(-2000, 2000)])
    U = lambda: rng.choice([0, 1, 107, 108, 1131, 1132, 2**32 - 1, 2**31, rng.randint(0, 3000)])
    d = dict(origin=(S(), S()), size_pixels=(w, h), bitmap=dict(data=rows))
    if image:
        d["size_units"] = (U(), U())
    else:
        d["ppm"] = U()
        d["adv"] = (U(), U())
    return d


def reader(b):
    """independent decoder of the encoded numbers"""
    pos = [0]

    def num(signed=True):
        c = b[pos[0]]
        pos[0] += 1
        if 0x20 <= c < 247:
            return c - 139
        if c < 251:
            v = (c - 247) * 256 + b[pos[0]] + 108
            pos[0] += 1
            return v
        if c < 255:
            v = -(c - 251) * 256 - b[pos[0]] - 108
            pos[0] += 1
            return v
        v = int.from_bytes(b[pos[0] : pos[0] + 4], "big", signed=signed)
        pos[0] += 4
        return v

    return num, pos


def decode_rle(chunk, fails):
    i, flat = 0, []
    while i < len(chunk):
        spec = chunk[i] - 256 if chunk[i] > 127 else chunk[i]
        i += 1
        if spec >= 0:
            part = chunk[i : i + spec + 1]
            if len(part) != spec + 1:
                fails.append(dict(clause="announced data length ends at a chunk", detail=""))
            flat += part
            i += spec + 1
        else:
            if -spec + 1 > 128:
                fails.append(dict(clause="chunks of at most 128 bytes", detail=str(spec)))
            if i >= len(chunk):
                fails.append(dict(clause="announced data length ends at a chunk", detail=""))
            flat += list(chunk[i : i + 1]) * (-spec + 1)
            i += 1
    return flat


def read_one(num, pos, b, image, platform, fails):
    d = {}
    if not image:
        d["ppm"] = num(False)
    d["origin"] = (num(), num())
    d["size_units" if image else "adv"] = (num(False), num(False))
    d["size_pixels"] = (num(False), num(False))
    n = num()
    chunk = b[pos[0] : pos[0] + n]
    if len(chunk) != n:
        fails.append(dict(clause="announced data length == bytes that follow", detail=f"{n} {len(chunk)}"))
    pos[0] += n
    flat = decode_rle(list(chunk), fails)
    if platform == "windows":
        flat = [255 - x for x in flat]
    k = bpr(d["size_pixels"][0])
    d["bitmap"] = dict(data=[flat[j : j + k] for j in range(0, len(flat), k)])
    return d


def strip(d):
    if isinstance(d, list):
        return [strip(x) for x in d]
    d = dict(d)
    d["bitmap"] = dict(data=d["bitmap"]["data"])
    return {k: tuple(v) if isinstance(v, list) else v for k, v in d.items()}


def compile_(eid, platform, data):
    image = eid == 2007
    fails = []
    key, parser, compiler = lookup(eid)
    ctx = Ctx(platform=platform)
    arg = copy.deepcopy(data)
    st, b = call(lambda: compiler().compile(arg, make_vfb(ctx)))
    if st == "raise":
        return [dict(clause="compile: no exception", detail=f"{type(b).__name__}: {b}")]
    if arg != data:
        fails.append(dict(clause="compile leaves the data alone", detail=short(arg)))
    num, pos = reader(b)
    try:
        if image:
            got = read_one(num, pos, b, True, platform, fails)
        else:
            got = [read_one(num, pos, b, False, platform, fails) for _ in range(num(False))]
    except IndexError:
        return fails + [dict(clause="compiled bytes follow the layout", detail=short(b.hex()))]
    if pos[0] != len(b):
        fails.append(dict(clause="announced data length == bytes that follow", detail=f"{len(b) - pos[0]} more"))
    if got != strip(data):
        fails.append(dict(clause="compiled bytes mean the same image", detail=f"{short(got)} {short(data)}"))
    # back through the parser
    st, r = call(lambda: parser().parse(BytesIO(b), len(b), make_vfb(ctx)))
    if st == "raise":
        fails.append(dict(clause="parse(compile(d)): no exception", detail=f"{type(r).__name__}: {r}"))
    elif strip(r) != strip(data):
        fails.append(dict(clause="parse(compile(d)) == d", detail=f"{short(strip(r))} {short(data)}"))
    return fails


def write_one(w, d, image, platform, rng):
    if not image:
        w.VU(d["ppm"])
    for x in d["origin"]:
        w.V(x)
    for x in d["size_units" if image else "adv"]:
        w.VU(x)
    for x in d["size_pixels"]:
        w.VU(x)
    flat = [x for r in d["bitmap"]["data"] for x in r]
    if platform == "windows":
        flat = [255 - x for x in flat]
    out, i = [], 0
    while i < len(flat):
        j = i
        while j < len(flat) and flat[j] == flat[i] and j - i < 129:
            j += 1
        if j - i >= 2 and rng.random() < 0.7:
            k = rng.randint(2, j - i)
            out += [(-(k - 1)) & 255, flat[i]]
            i += k
        else:
            k = min(len(flat) - i, rng.choice([1, 2, 5, 127, 128]))
            out += [k - 1] + flat[i : i + k]
            i += k
    w.V(len(out))
    w.b += bytes(out)


def parse_(eid, platform, data, seed):
    import random

    rng = random.Random(seed)
    image = eid == 2007
    w = W()
    if image:
        write_one(w, data, True, platform, rng)
    else:
        w.VU(len(data))
        for d in data:
            write_one(w, d, False, platform, rng)
    key, parser, compiler = lookup(eid)
    b = w.getvalue()
    s = BytesIO(b + b"\x00\x8c")
    st, r = call(lambda: parser().parse(s, len(b), make_vfb(Ctx(platform=platform))))
    if st == "raise":
        return [dict(clause="parse: no exception", detail=f"{type(r).__name__}: {r}")]
    if strip(r) != strip(data):
        return [dict(clause="parse gives the rows that were stored", detail=f"{short(strip(r))} {short(data)}")]
    if s.read() != b"\x00\x8c":
        return [dict(clause="parse consumes exactly the entry", detail="")]
    return []


def datum(rng, eid):
    if eid == 2007:
        return random_bitmap(rng, True)
    return [random_bitmap(rng, False) for _ in range(rng.choice([0, 1, 2, 3]))]


def random_wire(rng):
    eid = rng.choice([2007, 2013])
    w = W()
    if eid == 2007:
        write_one(w, random_bitmap(rng, True), True, "macos", rng)
    else:
        n = rng.choice([0, 1, 2])
        w.VU(n)
        for _ in range(n):
            write_one(w, random_bitmap(rng, False), False, "macos", rng)
    return eid, Ctx(), w.getvalue()


# ------------------------------------------------------------------ proofs
def some_chunks(name="chunks", idx=()):
    """any well-formed chunks"""
    import z3
    from pyvc.schema import Int, MAXLEN, U8, _app
    from pyvc.terms import I, REG, simp
    from pyvc.values import FList

    REG.on(name + "#n", lambda a: [a >= 0, a <= MAXLEN])
    n = _app(name + "#n", I, idx)
    i, j = (z3.Const(REG.fresh_name(x), I) for x in "ij")
    at = tuple(idx) + (i,)
    spec = Int(-127, 127).sym(name + ".spec", at)
    size = simp(z3.If(spec >= 0, spec + 1, 1))
    chunk = FList((("e", spec), ("r", size, j, (("e", U8.sym(name + ".byte", at + (j,))),))))
    return FList((("r", n, i, (("e", chunk),)),))


def parser_at(e, cls, stream, ctx):
    from pyvc.contracts import Stub

    p = e.call(cls, [])
    e.setattr(p, "stream", stream)
    e.setattr(p, "vfb", Stub(ctx))
    return p


def p_read(e):
    """BaseBitmapParser._read_bitmap: the chunks, and exactly their bytes"""
    import z3
    from pyvc import terms
    from pyvc.compare import Comparer
    from pyvc.contracts import layout_tokens
    from pyvc.values import HStream
    from specs import bitmaps
    from vfbLib.parsers.bitmap import BaseBitmapParser

    chunks = e.subject = some_chunks()
    wire = layout_tokens(e, bitmaps.write, chunks, None)
    tail = (("X", z3.Const("tail", terms.Byt)),)
    st = e.alloc(HStream((), tuple(wire) + tail))
    p = parser_at(e, BaseBitmapParser, st, Ctx())
    size = e.call(bitmaps.size, [chunks])
    got = e.call(e.getattr(p, "_read_bitmap"), [size])
    Comparer(e, "chunks").value(got, chunks)
    e.prove("exactly the announced bytes are read", e.get(st).rest == tail)


def p_decode(e):
    """BaseBitmapParser._decode_bitmap"""
    from pyvc.compare import Comparer
    from specs import bitmaps
    from vfbLib.parsers.bitmap import BaseBitmapParser

    chunks = e.subject = some_chunks()
    mine = e.call(list, [chunks])
    p = parser_at(e, BaseBitmapParser, None, Ctx())
    got = e.call(e.getattr(p, "_decode_bitmap"), [mine])
    Comparer(e, "bytes").value(got, e.call(bitmaps.decoded, [chunks]))


def wellformed(e, chunks):
    from pyvc.compare import Comparer
    from specs import bitmaps

    e.prove("chunks are well-formed", e.call(bitmaps.wellformed, [chunks]))


def p_flush(e):
    """flush_buffer: chunks that stand for the bytes of the buffer, behind the others"""
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, U8
    from pyvc.values import FList, HList
    from specs import bitmaps
    from vfbLib.compilers.bitmap import flush_buffer

    old = some_chunks("old")
    buf = e.subject = ListOf(U8).sym("buf")
    target = e.alloc(HList(old.seq))
    e.call(flush_buffer, [target, buf, 128])
    seq = e.get(target).seq
    if not e.prove("the chunks before are kept", seq[:1] == old.seq):
        return
    new = FList(seq[1:])
    Comparer(e, "bytes").value(e.call(bitmaps.decoded, [new]), buf)
    wellformed(e, new)


def rows_of_bytes():
    from pyvc.schema import ListOf, U8

    return ListOf(ListOf(U8)).sym("rows")


def install_groups(e):
    """itertools.groupby (trusted contract): runs of equal bytes that make up its argument"""
    import itertools
    import z3
    from pyvc.schema import Int, MAXLEN, U8
    from pyvc.terms import I, REG
    from pyvc.values import FList

    e.grouped = None

    def groupby(e, a, kw):
        if len(a) != 1 or kw or e.grouped is not None:
            from pyvc.values import Unsupported

            raise Unsupported("groupby")
        n = Int(0, MAXLEN).sym("groups")
        g, j = (z3.Const(REG.fresh_name(x), I) for x in "gj")
        value, count = U8.sym("value", (g,)), Int(1, MAXLEN).sym("count", (g,))
        e.grouped = FList(e.seq_of(a[0])), n
        return FList((("r", n, g, (("e", (value, FList((("r", count, j, (("e", value),)),)))),)),))

    e.contracts[itertools.groupby] = groupby


def p_encode(e):
    """BaseBitmapCompiler._encode_bitmap: well-formed chunks that stand for the bytes of the
    rows. Invariant: the chunks so far and the buffer stand for the groups so far"""
    import itertools
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import Int, ListOf, MAXLEN, U8
    from pyvc.terms import REG
    from pyvc.values import FList, HList
    from specs import bitmaps
    from vfbLib.compilers.bitmap import BaseBitmapCompiler

    rows = e.subject = rows_of_bytes()

    def groupby_(e, a, kw, inner=e.contracts[itertools.groupby]):
        r = inner(e, a, kw)
        e.invariants = [Invariant(e.grouped[1], ("encoded", "buf"), initially, arbitrary, step)]
        return r

    def new_chunks(e, fr, old):
        seq = e.get(fr.locals["encoded"]).seq
        e.prove("the chunks so far are kept", seq[:len(old.seq)] == old.seq)
        return FList(seq[len(old.seq):])

    def initially(e, fr):
        for x in ("encoded", "buf"):
            Comparer(e, f"{x} before the first group").value(fr.locals[x], [])

    def arbitrary(e, fr, k):
        old = some_chunks(REG.fresh_name("chunks"))
        buf = ListOf(U8).sym(REG.fresh_name("buffer"))
        fr.locals["encoded"] = e.alloc(HList(old.seq))
        fr.locals["buf"] = e.alloc(HList(buf.seq))
        return (old, buf), {fr.locals[x].id for x in ("encoded", "buf")}, set()

    def step(e, fr, k, state):
        old, buf = state
        value = U8.sym("value", (k,))
        run = e.call(bitmaps.run, [value, Int(1, MAXLEN).sym("count", (k,))])
        new = new_chunks(e, fr, old)
        wellformed(e, new)
        Comparer(e, "bytes so far").value(e.call(bitmaps.joined, [e.call(bitmaps.decoded, [new]), fr.locals["buf"]]),
                                          e.call(bitmaps.joined, [buf, run]))

    e.contracts[itertools.groupby] = groupby_
    p = e.call(BaseBitmapCompiler, [])
    got = e.call(e.getattr(p, "_encode_bitmap"), [rows])
    Comparer(e, "bytes that are grouped").value(e.grouped[0], e.call(bitmaps.joined_rows, [rows]))
    if not e.invariants or e.invariants[0].final is None:
        from pyvc.values import Unsupported

        raise Unsupported("no loop over the groups")
    old, buf = e.invariants[0].final
    seq = e.seq_of(got)
    e.prove("the chunks so far are kept", seq[:len(old.seq)] == old.seq)
    new = FList(seq[len(old.seq):])
    wellformed(e, new)
    Comparer(e, "bytes").value(e.call(bitmaps.decoded, [new]), buf)


def image_schema(image):
    from pyvc.schema import ListOf, Rec, S32, Tup, U32, U8

    pair = Tup(U32, U32)
    bitmap = Rec(dict(data=ListOf(ListOf(U8))))
    if image:
        return Rec(dict(origin=Tup(S32, S32), size_units=pair, size_pixels=pair, bitmap=bitmap))
    return ListOf(Rec(dict(ppm=U32, origin=Tup(S32, S32), adv=pair, size_pixels=pair, bitmap=bitmap)))


def free_indices(e, rows):
    """the indices of loops around a list of lists of numbers"""
    from pyvc.terms import is_sym
    from pyvc.tokens import index_consts

    bound, free = set(), {}

    def walk(seq):
        for x in seq:
            if x[0] == "r":
                bound.add(x[2].decl().name())
                for c in index_consts(x[1]):
                    free[c.decl().name()] = c
                walk(x[3])
            elif x[0] == "c":
                for c, s in x[1]:
                    walk(s)
            elif x[0] == "e" and (is_sym(x[1]) or isinstance(x[1], int)):
                for c in index_consts(x[1]):
                    free[c.decl().name()] = c
            else:
                walk(e.seq_of(x[1]))

    walk(e.seq_of(rows))
    return tuple(free[x] for x in sorted(free) if x not in bound)


def chunks_at(e, idx):
    """the chunks of the image with this index; less than 2 GiB"""
    from specs import bitmaps

    chunks = some_chunks("chunks", idx)
    size = e.call(bitmaps.size, [chunks])
    e.assume(size < 2**31)
    e.assume(size >= 0)  # a sum of positive numbers
    return chunks


def p_image_compile(e, eid, platform):
    """the fields and the encoded rows; _encode_bitmap by its contract"""
    from pyvc.compare import Comparer
    from pyvc.contracts import Stub, layout_tokens
    from pyvc.values import FList, vsubst
    from specs import bitmaps
    from vfbLib.compilers.bitmap import BaseBitmapCompiler

    key, parser, compiler = lookup(eid)
    d = e.subject = image_schema(eid == 2007).sym("d")
    rows = {}

    def spec(e, a, kw):
        idx = free_indices(e, a[0])
        rows[len(idx)] = a[0], idx
        return chunks_at(e, idx)

    def encode(e, a, kw):
        idx = free_indices(e, a[1])
        want, old = rows[len(idx)]
        want = vsubst(want, list(zip(old, idx)))
        if platform == "windows":
            want = e.call(bitmaps.inverted, [want])
        Comparer(e, "rows that are encoded").value(a[1], want)
        return e.call(list, [chunks_at(e, idx)])

    e.contracts[bitmaps.chunks_of] = spec
    e.contracts[BaseBitmapCompiler._encode_bitmap] = encode
    exp = layout_tokens(e, bitmaps.background if eid == 2007 else bitmaps.glyph_bitmaps, d, None)
    c = e.call(compiler, [])
    out = e.call(e.getattr(c, "compile"), [d, Stub(Ctx(platform=platform))])
    Comparer(e, "compile(d) == layout(d)").tokens(e.toks(e.force(out)), exp)


def p_image_parse(e, eid, platform):
    """the fields and the rows; _decode_bitmap by its contract, the preview is not looked at"""
    import z3
    from pyvc import terms
    from pyvc.compare import Comparer
    from pyvc.contracts import Stub, layout_tokens
    from pyvc.schema import ListOf, U8
    from pyvc.values import FList, HStream
    from specs import bitmaps
    from vfbLib.parsers.bitmap import BaseBitmapParser

    key, parser, compiler = lookup(eid)
    d = e.subject = image_schema(eid == 2007).sym("d")

    def decode(e, a, kw):
        idx = free_indices(e, a[1])
        Comparer(e, "chunks that are decoded").value(a[1], chunks_at(e, idx))
        return e.call(list, [ListOf(U8).sym("flat", idx)])

    def flat(e, a, kw):
        x = ListOf(U8).sym("flat", free_indices(e, a[0]))
        return e.call(bitmaps.inverted_bytes, [x]) if platform == "windows" else x

    e.contracts[bitmaps.chunks_of] = lambda e, a, kw: chunks_at(e, free_indices(e, a[0]))
    e.contracts[bitmaps.flat_of] = flat
    e.contracts[BaseBitmapParser._decode_bitmap] = decode
    e.contracts[BaseBitmapParser._get_preview] = lambda e, a, kw: e.call(list, [[]])
    e.assumptions.add("BaseBitmapParser._get_preview changes nothing (its text is not verified)")
    wire = layout_tokens(e, bitmaps.background if eid == 2007 else bitmaps.glyph_bitmaps, d, None)
    tail = (("X", z3.Const("tail", terms.Byt)),)
    st = e.alloc(HStream((), tuple(wire) + tail))
    p = e.call(parser, [])
    out = e.call(e.getattr(p, "parse"), [st, e.size_fn(wire), Stub(Ctx(platform=platform))])
    spec = bitmaps.background_data if eid == 2007 else bitmaps.glyph_bitmaps_data
    Comparer(e, "parse(layout(d)) == d").value(e.call(bitmaps.without_preview, [out, eid == 2007]), e.call(spec, [d]))
    e.prove("parse consumes exactly the entry", e.get(st).rest == tail)


def proofs():
    from props.proofs import Proof

    def fit(d):
        """rows of the width that the image announces"""
        d = copy.deepcopy(d)
        w = d["size_pixels"][0] % 3000
        flat = [b for row in d["bitmap"]["data"] for b in row]
        n = bpr(w)
        flat += [0] * (-len(flat) % n)
        d["bitmap"] = dict(data=[flat[j:j + n] for j in range(0, len(flat), n)])
        d["size_pixels"] = (w, d["size_pixels"][1])
        return {k: tuple(v) if isinstance(v, list) else v for k, v in d.items()}

    def c_compile(d, eid, platform):
        return compile_, (eid, platform, fit(d) if eid == 2007 else [fit(x) for x in d])

    def c_parse(d, eid, platform):
        return parse_, (eid, platform, fit(d) if eid == 2007 else [fit(x) for x in d], 1)

    def c_encode(d):
        flat = [b for row in d for b in row]
        flat += [0] * (len(flat) % 2)
        w = min(len(flat) * 8, 3000)
        flat = flat + [0] * (-len(flat) % bpr(w))
        return c_compile(dict(origin=(0, 0), size_units=(0, 0), size_pixels=(w, 0), bitmap=dict(data=[flat])),
                         2007, "macos")

    return [Proof("BaseBitmapParser._read_bitmap", p_read, modular=True),
            Proof("BaseBitmapParser._decode_bitmap", p_decode, modular=True),
            Proof("flush_buffer", p_flush, modular=True),
            Proof("BaseBitmapCompiler._encode_bitmap", p_encode, setup=install_groups, case=c_encode)] + [
        Proof(f"{lookup(eid)[2].__name__}.compile ({platform})", p_image_compile, (eid, platform), case=c_compile,
              modular=True)
        for eid in (2007, 2013) for platform in PLATFORMS] + [
        Proof(f"{lookup(eid)[1].__name__}.parse ({platform})", p_image_parse, (eid, platform), case=c_parse,
              modular=True)
        for eid in (2007, 2013) for platform in PLATFORMS]


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for i in range(run.n(300, 4000)):
        eid = rng.choice([2007, 2013])
        p = PLATFORMS[i % 2]
        run.case(compile_, eid, p, datum(rng, eid))
        run.case(parse_, eid, p, datum(rng, eid), rng.randrange(10**6))
    return proofs.finish(run)
