"""C05 complete consumption"""
import copy
from io import BytesIO

from props.entry_runs import find
from pyvc.concrete import Timeout, call, entry_cases, make_vfb, same, short
from specs import entries
from specs.wire import W, run_wire

EXTRAS = [b"\x8c", b"\x8c\x8d", b"ab", b"\xff\x00\x00\x00\x07", b"\x8b\x8b\x8b\x8b\x8b\x8b\x8b\x8b\x8b",
          b"\x8b\x00", b"\x01", b"\x41" * 16, b"\x0f", b"\x64\x64"]


def new_entry(ctx, eid, data):
    from vfbLib.vfb.entry import VfbEntry

    vfb = make_vfb(ctx)
    e = VfbEntry(vfb, eid=eid)
    e.data = data
    return vfb, e


def decompile(ctx, eid, data, base=None, what=""):
    """post-state of VfbEntry.decompile on arbitrary bytes"""
    vfb, e = new_entry(ctx, eid, data)
    st, r = call(e.decompile, seconds=0.5)
    fails = []
    if st == "raise":
        if isinstance(r, (Timeout, MemoryError)):
            return []  # termination on corrupt data is not promised
        if e.data != data or type(e.data) is not bytes:
            fails.append(dict(clause="failed decompile keeps the bytes", detail=f"{what} {short(e.data)}"))
        if not vfb.any_errors:
            fails.append(dict(clause="failed decompile is marked in the file", detail=what))
        return fails
    if isinstance(e.data, bytes):
        fails.append(dict(clause="decompile gives a structure", detail=what))
    if vfb.any_errors:
        fails.append(dict(clause="no error is marked without an error", detail=what))
    if base is not None:
        vfb0, e0 = new_entry(ctx, eid, base)
        e0.decompile()
        if same(e.data, e0.data):
            fails.append(dict(clause="left-over bytes are not discarded silently",
                              detail=f"{what}: {short(data.hex())} gives the same as {short(base.hex())}: {short(e.data)}"))
    return fails


def extra(eid, ctx, base, ex):
    return decompile(ctx, eid, base + ex, base, "extra bytes")


def damaged(eid, ctx, data):
    return decompile(ctx, eid, data, None, "damaged data")


def direct(eid, ctx, base, following):
    """the parser reads nothing behind the size it was given"""
    from pyvc.concrete import lookup

    key, parser, compiler = lookup(eid)
    s = BytesIO(base + following)
    st, r = call(lambda: parser().parse(s, len(base), make_vfb(ctx)))
    if st == "raise":
        return [dict(clause="valid data is accepted", detail=f"{type(r).__name__}: {r}")]
    if s.read() != following:
        return [dict(clause="no bytes of the following entry are read", detail=base.hex())]
    s = BytesIO(base)
    r2 = parser().parse(s, len(base), make_vfb(ctx))
    if not same(r, r2):
        return [dict(clause="bytes of the following entry have no influence", detail=base.hex())]
    return []


def unknown(eid, data):
    vfb, e = new_entry(entries.Ctx(), eid, data)
    e.decompile()
    if e.data != data.hex():
        return [dict(clause="unknown entries keep their bytes as hex", detail=repr(e.data))]
    return []


def kern_pair(M, l, r, values, size, tail):
    """FontLab 3 records a wrong size for this entry; it still ends where its data end"""
    from props.c03 import frame, header_bytes
    from vfbLib.vfb.vfb import Vfb

    w = W()
    w.U32(l)
    w.U32(r)
    for v in values:
        w.S16(v)
    data = w.getvalue()
    w = W()
    w.U16(1410)
    w.U16(size)
    m = frame(1503, bytes([M, 0]))
    t = frame(1502, tail)
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(header_bytes(1) + m + w.getvalue() + data + t))
    got = [(e.id, e.data) for e in vfb.entries[1:]]
    fails = []
    if got != [(1410, data), (1502, tail)]:
        fails.append(dict(clause="no bytes of the following entry are read", detail=f"{got} {data.hex()} {tail.hex()}"))
        return fails
    e = vfb.entries[1]
    e.decompile()
    if e.data != dict(l=l, r=r, values=list(values)):
        fails.append(dict(clause="data of the entry", detail=f"{e.data}"))
    return fails


def valid_wires(run, n):
    for e in entries.ENTRIES:
        if not (e.schema or e.concrete):
            continue
        for eid, ctx, d in entry_cases(e, run.rng, max(n, len(e.ids))):
            yield eid, ctx, run_wire(e.layout, d, ctx)
    from props import c12, c19

    for i in range(n):
        eid, ctx, w = c12.random_wire(run.rng)
        yield eid, ctx, w
        yield 1276, entries.Ctx(), c19.random_text(run.rng).encode("cp1252")


# ------------------------------------------------------------------ contracts
def p_parse(e, outcome):
    """parse hands over exactly the bytes of the entry; left-over bytes are an error"""
    import z3
    from props.c03 import byts, stream
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from pyvc.terms import simp
    from pyvc.values import FObj, PyExc
    from specs.abstract import Datum, Failed, PrefixParser

    (a, na), (b, nb), (t, _) = byts("consumed"), byts("left"), byts("next_entry")
    e.assume(z3.And(na >= 0, nb >= 0, na + nb < 2**32))
    s = stream(e, (a, b, t))
    result = FObj(Datum, (("id", z3.Int("result")),))
    handed = []

    def f_parse(e, args, kw):
        st = e.getattr(args[0], "stream")
        handed.append((e.get(st).rest, e.getattr(args[0], "vfb")))
        if outcome == "raises":
            raise Raise(PyExc(Failed))
        if outcome == "rest":
            e.get(st).rest = e.get(st).rest[1:]
        if outcome == "none":
            pass
        if outcome == "all":
            e.get(st).rest = ()
        return result

    e.contracts[PrefixParser._parse] = f_parse
    vfb = FObj(Datum, (("id", z3.Int("vfb")),))
    p = e.call(PrefixParser, [])
    left = {"rest": nb, "none": na + nb, "all": z3.IntVal(0), "raises": z3.IntVal(0)}[outcome]
    # a parser has to be told about the empty entry, too
    try:
        r = e.call(e.getattr(p, "parse"), [s, simp(na + nb), vfb])
    except Raise as x:
        if outcome == "raises":
            e.prove("errors of the entry's parser are passed on", x.exc.type is Failed)
        else:
            e.prove("only left-over bytes are an error", left > 0)
    else:
        e.prove("errors of the entry's parser are passed on", outcome != "raises")
        e.prove("left-over bytes are not discarded silently", left == 0)
        Comparer(e, "result").value(r, result)
    e.prove("the entry's parser is called once", len(handed) == 1)
    for toks, v in handed:
        Comparer(e, "the entry's parser gets exactly the bytes of the entry").tokens(toks, (a, b))
        e.prove("the entry's parser gets the file", v is vfb)
    e.prove("no bytes of the following entry are read", e.get(s).rest == (t,))


def p_kern_pair(e, M):
    """the size of this entry follows from the number of masters, whatever is recorded"""
    import z3
    from props.c03 import byts, new_vfb, stream
    from pyvc.compare import Comparer
    from pyvc.natives import int_toks
    from vfbLib.vfb.entry import VfbEntry

    size = z3.Int("recorded")
    e.assume(z3.And(size >= 0, size < 65536))
    w = tuple(x for j in range(2) for x in int_toks(u32(e, f"k{j}"), 4, False, False))
    w += tuple(x for j in range(M) for x in int_toks(s16(e, f"v{j}"), 2, True, False))
    rest, _ = byts("next_entry")
    s = stream(e, tuple(int_toks(1410, 2, False, False)) + tuple(int_toks(size, 2, False, False)) + w + (rest,))
    en = e.call(VfbEntry, [new_vfb(e, num_masters=M)])
    e.call(e.getattr(en, "read"), [s])
    Comparer(e, "id").value(e.getattr(en, "id"), 1410)
    Comparer(e, "data of the entry").tokens(e.toks(e.force(e.getattr(en, "data"))), w)
    e.prove("no bytes of the following entry are read", e.get(s).rest == (rest,))


def u32(e, name, lo=0, hi=2**32):
    import z3

    x = z3.Int(name)
    e.assume(z3.And(x >= lo, x < hi))
    return x


def s16(e, name):
    return u32(e, name, -32768, 32768)


def p_unknown(e):
    """entries of an unknown type keep their bytes as hex digits"""
    import z3
    from props.c03 import byts, new_vfb
    from pyvc.compare import Comparer
    from pyvc.schema import HEXOF
    from pyvc.values import FBytes, SStr
    from vfbLib.constants import parser_classes
    from vfbLib.vfb.entry import VfbEntry

    eid = u32(e, "id", 0, 0x8000)
    for k in parser_classes:
        e.assume(eid != k)
    data, n = byts("data")
    e.assume(z3.And(n >= 0, n < 2**32))
    en = e.call(VfbEntry, [new_vfb(e)], {"eid": eid})
    e.setattr(en, "data", FBytes((data,)))
    e.call(e.getattr(en, "decompile"), [])
    Comparer(e, "hex digits of the bytes").value(e.getattr(en, "data"), SStr(HEXOF(data[1])))
    e.call(e.getattr(en, "compile"), [])
    Comparer(e, "the same bytes again").tokens(e.toks(e.force(e.getattr(en, "data"))), (data,))


def proofs():
    from props import c04
    from props.proofs import Proof

    out = [Proof(f"BaseParser.parse, the entry's parser {what}", p_parse, (k,), allowed=())
           for k, what in (("rest", "leaves some bytes"), ("none", "reads nothing"),
                           ("all", "reads all bytes"), ("raises", "fails"))]
    for k in ("bytes", "structure"):
        out.append(Proof(f"VfbEntry.decompile of an entry held as {k}", c04.p_entry_decompile, (k,),
                         setup=c04.setup_any))
    for M in (1, 2, 4, 8, 16):
        out.append(Proof(f"VfbEntry.read of a FontLab 3 kerning pair, {M} masters", p_kern_pair, (M,)))
    out.append(Proof("entries of unknown types", p_unknown))
    return out


def p_leftover(e, idx, eid, ctx):
    """a parser that has read its entry does not swallow bytes that follow in the entry"""
    import z3
    from props.c03 import byts
    from pyvc.compare import Comparer
    from pyvc.concrete import lookup
    from pyvc.contracts import Stub, layout_tokens
    from pyvc.engine import Raise
    from pyvc.values import HStream

    en = entries.ENTRIES[idx]
    key, parser, compiler = lookup(eid)
    d = e.subject = en.schema(ctx).sym("d")
    wire = layout_tokens(e, en.layout, d, ctx)
    (x, nx), (t, _) = byts("left"), byts("next_entry")
    e.assume(z3.And(nx > 0, nx < 2**31))
    st = e.alloc(HStream((), tuple(wire) + (x, t)))
    size = e.toks_size(tuple(wire) + (x,))
    p = e.call(parser, [])
    try:
        e.call(e.getattr(p, "parse"), [st, size, Stub(ctx)])
    except Raise as r:
        e.prove("left-over bytes are an error", True)
    else:
        e.prove("left-over bytes are an error", False)
    e.prove("no bytes of the following entry are read", e.get(st).rest == (t,))


# entries that extend to the end of their data: every byte belongs to a value
TO_THE_END = ("Block File Data Start", "Block Names End", "weight_vector", "xuid", "font_name", "vendor",
              "Encoding Default", "unicoderanges", "TrueTypeTable", "unicodes", "Glyph Unicode Non-BMP",
              "VSB", "gasp", "Anisotropic Interpolation Mappings", "Axis Mappings")


def c_leftover(d, idx, eid, ctx):
    return extra, (eid, ctx, run_wire(entries.ENTRIES[idx].layout, d, ctx), b"\x8c")


def leftover_proofs():
    from props.proofs import Proof
    from pyvc import concrete

    out, seen = [], set()
    for idx, en in enumerate(entries.ENTRIES):
        if en.bounded or not en.schema or en.name in TO_THE_END:
            continue
        for eid in en.ids:
            info = concrete.lookup(eid)
            if info is None or info[1] is None or (idx, info[1]) in seen:
                continue
            seen.add((idx, info[1]))
            for ctx in en.ctxs:
                out.append(Proof(f"{en.name} ({eid}), {ctx}: left-over bytes", p_leftover, (idx, eid, ctx),
                                 case=c_leftover))
    return out


# ------------------------------------------------------------------ keys of fields
TTINFO_KEYS = (0x32, 0x39, 0x4C, 0x54) + tuple(
    k for k, _ in entries.TTINFO_REQ + entries.TTINFO_A + entries.TTINFO_B + entries.TTINFO_H)
GLYPH_KEYS = (1, 2, 3, 4, 5, 6, 8, 9, 10, 15)
IMPORTED_KEYS = (0x28, 0x29, 0x2A, 0x2B, 0x2C)
# what stands before the key, the keys that are known, what ends the entry
KEYED = {"TrueType info": (1264, b"", TTINFO_KEYS, b"\x32"),
         "glyph": (2001, b"\x01\x09\x07\x01", GLYPH_KEYS, b"\x0f"),
         "imported glyph data": (2001, b"\x01\x09\x07\x01\x09", IMPORTED_KEYS, b"\x28\x0f")}


def not_a_structure(eid, ctx, data, clause):
    vfb, e = new_entry(ctx, eid, data)
    st, r = call(e.decompile, seconds=0.5)
    fails = []
    if st != "raise" or e.data != data or not vfb.any_errors:
        fails.append(dict(clause=clause, detail=f"{eid} {data.hex()} gives {short(e.data)}"))
    return fails


def unknown_key(what, key, rest):
    """a field whose length nobody knows is not skipped"""
    eid, before, _, end = KEYED[what]
    return not_a_structure(eid, entries.Ctx(), before + bytes([key]) + rest + end, "fields of an unknown kind are an error")


def twice(key, a, b):
    """the first of two values for one field is not lost"""
    w = W()
    for v in (a, b):
        w.U8(key)
        if key == 0x4C:
            for _ in range(10):
                w.U8(v % 256)
        elif key in (0x53, 0x58):
            w.V(1)
            w.U8(v % 256)
        else:
            w.V(v)
            if key == 0x54:
                w.V(v)
    w.U8(0x32)
    return not_a_structure(1264, entries.Ctx(), w.getvalue(), "a second value of a field does not replace the first")


def keyed(e, eid, toks, clause):
    from pyvc.concrete import lookup
    from pyvc.contracts import Stub
    from pyvc.engine import Raise
    from pyvc.values import HStream

    st = e.alloc(HStream((), tuple(toks)))
    p = e.call(lookup(eid)[1], [])
    try:
        e.call(e.getattr(p, "parse"), [st, e.toks_size(tuple(toks)), Stub(entries.Ctx())])
    except Raise:
        e.prove(clause, True)
    else:
        e.prove(clause, False)


def p_unknown_key(e, what):
    import z3
    from props.c03 import byts
    from pyvc.natives import int_toks

    eid, before, known, end = KEYED[what]
    t, n = byts("rest")
    e.assume(z3.And(n >= 0, n < 2**31))
    for k in range(256):
        if k not in known:
            e.subject = k
            toks = tuple(x for b in before + bytes([k]) for x in int_toks(b, 1, False, False))
            # (nothing but the end behind it, and anything)
            for rest in (tuple(x for b in end for x in int_toks(b, 1, False, False)), (t,)):
                keyed(e, eid, toks + rest, "fields of an unknown kind are an error")


def c_unknown_key(k, what):
    return unknown_key, (what, k, b"")


def p_twice(e, key):
    from pyvc.contracts import layout_tokens

    d = e.subject = (key, u32(e, "a", -2**31, 2**31), u32(e, "b", -2**31, 2**31))
    keyed(e, 1264, layout_tokens(e, entries.l_ttinfo_twice, d, None), "a second value of a field does not replace the first")


def c_twice(d, key):
    return twice, tuple(d)


def key_proofs():
    from props.proofs import Proof

    out = [Proof(f"keys of fields that are unknown, {what}", p_unknown_key, (what,), case=c_unknown_key)
           for what in KEYED]
    return out + [Proof(f"TrueType info with a field {hex(k)} that occurs twice", p_twice, (k,), case=c_twice)
                  for k in TTINFO_KEYS if k not in (0x32, 0x4C, 0x53, 0x58)]


PROOFS = proofs() + leftover_proofs() + key_proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for eid, ctx, w in valid_wires(run, run.n(8, 120)):
        name = f"entry {eid}"
        for ex in rng.sample(EXTRAS, 3 if run.tier == "quick" else 8):
            run.case(extra, eid, ctx, w, ex, label=name)
        run.case(direct, eid, ctx, w, rng.choice(EXTRAS), label=name)
        for _ in range(2):
            if w:
                run.case(damaged, eid, ctx, w[: rng.randrange(len(w))], label=name)
                b = bytearray(w)
                b[rng.randrange(len(b))] = rng.choice([0, 1, 0x1F, 0xFF, 0x8B, rng.randrange(256)])
                if b.count(0xFF) <= w.count(b"\xff"):
                    # (announced counts of billions only cost time)
                    run.case(damaged, eid, ctx, bytes(b), label=name)
    for what, (_, _, known, _) in KEYED.items():
        for key in range(256):
            if key not in known:
                run.case(unknown_key, what, key, rng.choice([b"", b"\x8b", rng.randbytes(3)]), label="keys of fields")
    for key in TTINFO_KEYS[1:]:
        run.case(twice, key, rng.randint(-100, 100), rng.randint(-100, 100), label="keys of fields")
    for i in range(run.n(40, 400)):
        M = rng.choice([1, 2, 4, 8, 16])
        run.case(kern_pair, M, rng.randrange(2**32), rng.randrange(2**32), [rng.randint(-32768, 32767) for _ in range(M)],
                 rng.choice([0, 4, 8, 8 + 2 * M, 12, 200]), rng.randbytes(rng.choice([0, 2, 4])))
    for i in range(run.n(30, 200)):
        run.case(unknown, rng.choice([3, 6, 9999, 0x7FFF]), rng.randbytes(rng.choice([0, 1, 50])))
    return proofs.finish(run)
