"""C03 file framing"""
from io import BytesIO

from pyvc.concrete import call, same
from specs.wire import W

PLAIN = [10000, 9999, 600, 1068, 1026, 1500, 2001, 1410 + 5000, 0x7FFF, 3, 1, 5, 1250, 1276, 2012]


def header_bytes(minor, offset=44, pad=b""):
    w = W()
    w.U32(0x464C571A)
    w.U8(0x31)
    w.U8(0x30)
    w.U8(3)
    w.U8(minor)
    w.U32(offset)
    return w.getvalue() + (pad or b"\0" * (offset - 12))


def frame(eid, data):
    w = W()
    if len(data) > 0xFFFF:
        w.U16(eid | 0x8000)
        w.U32(len(data))
    else:
        w.U16(eid)
        w.U16(len(data))
    return w.getvalue() + data


def blob(n, k):
    return bytes((i * 7 + k) & 255 for i in range(min(n, 300))) + b"\x8c" * max(0, n - 300)


def hdict(minor):
    return dict(signature=0x464C571A, app_version=0x31, file_version=0x30, version_major=3,
                version_minor=minor)


def raw_of(e):
    """data bytes of an entry; the reader interprets some of them right away"""
    if isinstance(e.data, bytes):
        return e.data
    return e.compiler().compile(e.data, e.vfb)


def framing(minor, spec):
    """spec: list of (id, data length, pattern) or (id, bytes)"""
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    fails = []
    ents = [(i[0], i[1] if isinstance(i[1], bytes) else blob(i[1], i[2])) for i in spec]
    vfb = Vfb(timing=False)
    vfb.header.data = hdict(minor)
    for eid, data in ents:
        e = VfbEntry(vfb, eid=eid)
        e.data = data
        vfb.add_entry(e)
    out = BytesIO()
    st, r = call(lambda: vfb.write_bytes(out))
    exp = header_bytes(minor) + b"".join(frame(i, d) for i, d in ents)
    if st != "ok" or out.getvalue() != exp:
        k = next((i for i, (a, b) in enumerate(zip(out.getvalue(), exp)) if a != b), "length")
        fails.append(dict(clause="written bytes", detail=f"{r!r} differ at {k}: {out.getvalue()[:200].hex()} / {exp[:200].hex()}"))
    # reading (what follows the end entry is not part of the file)
    tail = b"\x05\x00\x01\x00\x8c" if ents and ents[-1][0] == 2 else b""
    st2, f2 = call(lambda: read_back(exp + tail, minor, ents))
    if st2 == "raise":
        fails.append(dict(clause="reading succeeds", detail=f"{type(f2).__name__}: {f2}"))
    else:
        fails += f2
    return fails


def read_back(data, minor, ents, offset=44, prefix_only=False):
    from vfbLib.vfb.vfb import Vfb

    fails = []
    v = Vfb(timing=False)
    v.read_bytes(BytesIO(data))
    h = v.header.data
    if not isinstance(h, dict) or any(h.get(k) != x for k, x in hdict(minor).items()):
        fails.append(dict(clause="header fields read back", detail=repr(h)))
    ids = [e.id for e in v.entries]
    want = [i for i, _ in ents]
    if prefix_only:
        want = want[: len(ids)]
    if ids != want:
        fails.append(dict(clause="same ids in the same order", detail=f"{ids} {want}"))
        return fails
    for k, (e, (i, d)) in enumerate(zip(v.entries, ents)):
        if prefix_only and k == len(ids) - 1:
            if isinstance(e.data, bytes) and not d.startswith(e.data):
                fails.append(dict(clause="data of the cut entry", detail=f"entry {k}"))
        elif raw_of(e) != d:
            fails.append(dict(clause="same data bytes", detail=f"entry {k} id {i}: {raw_of(e)[:80].hex()} {d[:80].hex()} {len(raw_of(e))} {len(d)}"))
    return fails


def longheader(minor, offset, ents):
    pad = bytes((3 * i) & 255 for i in range(offset - 12))
    data = header_bytes(minor, offset, pad) + b"".join(frame(i, d) for i, d in ents)
    st, f = call(lambda: read_back(data, minor, ents))
    if st == "raise":
        return [dict(clause="reading succeeds", detail=f"{type(f).__name__}: {f}")]
    return f


def truncated(minor, ents, cut):
    data = (header_bytes(minor) + b"".join(frame(i, d) for i, d in ents))[:cut]
    from pyvc.concrete import Timeout

    st, f = call(lambda: read_back(data, minor, ents, prefix_only=True), seconds=3)
    if st == "raise":
        if isinstance(f, (Timeout, MemoryError)):
            return [dict(clause="reading a truncated file terminates", detail=repr(f))]
        return []
    if cut < 44:
        # inside the file header
        return [dict(clause="entries of a cut header", detail=str(f))] if f else []
    # entries completely in front of the cut are all there
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    v.read_bytes(BytesIO(data))
    pos, full = 44, 0
    for i, d in ents:
        pos += len(frame(i, d))
        if pos <= cut:
            full += 1
    if len(v.entries) < full:
        f.append(dict(clause="entries in front of the cut are read", detail=f"{len(v.entries)} < {full}"))
    return f


def cut_anywhere(minor):
    ents = [(600, b"abc"), (9999, b"x" * 0x10005), (1276, b"end")]
    total = 44 + sum(len(frame(i, d)) for i, d in ents)
    out = []
    for cut in [*range(0, 80), *range(total - 20, total)]:
        out += truncated(minor, ents, cut)
    return out


# ------------------------------------------------------------------ contracts
def fdict(**kw):
    from pyvc.values import FDict

    return FDict(tuple(("e", k, v) for k, v in kw.items()))


def byts(name):
    """arbitrary bytes and their number"""
    import z3
    from pyvc.terms import Byt, bytlen

    b = z3.Const(name, Byt)
    return ("X", b), bytlen(b)


def stream(e, toks):
    from pyvc.values import HStream

    r = e.alloc(HStream((), tuple(toks)))
    e.total[r.id] = tuple(toks)
    return r


def header_toks(e, minor, offset):
    from pyvc.natives import int_toks

    t = ()
    for v, n in ((0x464C571A, 4), (0x31, 1), (0x30, 1), (3, 1), (minor, 1), (offset, 4)):
        t += tuple(int_toks(v, n, False, False))
    return t


def sym_minor(e):
    import z3

    minor = z3.Int("minor")
    e.assume(z3.And(minor >= 0, minor <= 255))
    return minor


def sym_header(minor):
    return fdict(**dict(hdict(0), version_minor=minor))


def p_header_compile(e):
    """the file header of 44 bytes"""
    from pyvc.compare import Comparer
    from vfbLib.compilers.header import VfbHeaderCompiler

    minor = sym_minor(e)
    e.subject = ("file", minor, 0)
    out = e.call(e.getattr(e.call(VfbHeaderCompiler, []), "compile"), [sym_header(minor)])
    Comparer(e, "header bytes").tokens(
        e.toks(e.force(out)), header_toks(e, minor, 44) + (("O", 0),) * 32)


def p_header_parse(e):
    """header fields, and what follows starts at the recorded offset"""
    import z3
    from pyvc.compare import Comparer
    from vfbLib.vfb.header import VfbHeader

    minor = sym_minor(e)
    pad, n = byts("pad")
    rest, _ = byts("entries")
    off = z3.Int("offset")
    e.assume(z3.And(off == n + 12, n >= 0, off < 2**32))
    e.subject = ("offset", minor, off)
    s = stream(e, header_toks(e, minor, off) + (pad, rest))
    h = e.call(VfbHeader, [])
    e.call(e.getattr(h, "read"), [s])
    Comparer(e, "header fields read back").value(e.getattr(h, "data"), sym_header(minor))
    e.prove("the first entry is at the recorded offset", e.get(s).rest == (rest,))


def new_vfb(e, **kw):
    from vfbLib.vfb.vfb import Vfb

    v = e.call(Vfb, [], {"timing": False})
    for k, x in kw.items():
        e.setattr(v, k, x)
    return v


def frame_toks(e, eid, data, size):
    """the frame of an entry of `size` bytes; one of two forms"""
    from pyvc.natives import int_toks

    if e.branch(size > 0xFFFF):
        h = tuple(int_toks(eid + 0x8000, 2, False, False)) + tuple(int_toks(size, 4, False, False))
    else:
        h = tuple(int_toks(eid, 2, False, False)) + tuple(int_toks(size, 2, False, False))
    return h, h + (data,)


def sym_id(e):
    import z3

    eid = z3.Int("id")
    e.assume(z3.And(eid >= 0, eid < 0x8000))
    return eid


def p_entry_header(e):
    """id and size in front of the data of an entry"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.values import FBytes
    from vfbLib.vfb.entry import VfbEntry

    eid = sym_id(e)
    data, n = byts("data")
    e.assume(z3.And(n >= 0, n < 2**32))
    e.subject = ("entry", eid, n)
    h, _ = frame_toks(e, eid, data, n)
    en = e.call(VfbEntry, [new_vfb(e)], {"eid": eid})
    e.setattr(en, "data", FBytes((data,)))
    out = e.getattr(en, "header")
    Comparer(e, "entry header").tokens(e.toks(e.force(out)), h)


def p_entry_read(e):
    """an entry is read with its id and exactly its data"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.values import FBytes
    from vfbLib.vfb.entry import VfbEntry

    eid = sym_id(e)
    e.assume(eid != 1410)
    data, n = byts("data")
    rest, _ = byts("rest")
    e.assume(z3.And(n >= 0, n < 2**32))
    e.subject = ("entry", eid, n)
    _, f = frame_toks(e, eid, data, n)
    s = stream(e, f + (rest,))
    en = e.call(VfbEntry, [new_vfb(e)])
    e.call(e.getattr(en, "read"), [s])
    Comparer(e, "same id").value(e.getattr(en, "id"), eid)
    Comparer(e, "same data bytes").tokens(e.toks(e.force(e.getattr(en, "data"))), (data,))
    e.prove("reading ends where the data end", e.get(s).rest == (rest,))


def entry_value(e, v, eid, data, **kw):
    """a VfbEntry object, whatever its attributes are called"""
    from pyvc.engine import synt_eq
    from pyvc.values import FObj
    from vfbLib.vfb.entry import VfbEntry

    mark = 31999
    en = e.call(VfbEntry, [v], dict(kw, eid=mark))
    e.setattr(en, "data", b"31999 placeholder")
    attrs = []
    for a, x in e.get(en).attrs.items():
        if isinstance(x, int) and not isinstance(x, bool) and x == mark:
            x = eid
        elif synt_eq(x, b"31999 placeholder"):
            x = data
        attrs.append((a, x))
    return FObj(VfbEntry, tuple(attrs))


def sym_entries(e, v):
    """any number of entries in compiled form -> (list of entries, their frames)"""
    import z3
    from pyvc.natives import int_toks
    from pyvc.terms import REG, I, Byt, bytlen
    from pyvc.values import FBytes, FList

    n = z3.Int("entries#n")
    e.assume(n >= 0)
    iv = z3.Const(REG.fresh_name("i"), I)
    fid, fdata = z3.Function("id", I, I), z3.Function("data", I, Byt)
    REG.on("id", lambda a: [a >= 0, a < 0x8000, a != 1410] + [a != x for x in READ_AT_ONCE])
    REG.on("data", lambda a: [bytlen(a) < 2**32])
    data, size = ("X", fdata(iv)), bytlen(fdata(iv))
    ent = entry_value(e, v, fid(iv), FBytes((data,)))
    long = tuple(int_toks(fid(iv) + 0x8000, 2, False, False)) + tuple(int_toks(size, 4, False, False))
    short = tuple(int_toks(fid(iv), 2, False, False)) + tuple(int_toks(size, 2, False, False))
    head = ("c", ((size > 0xFFFF, long), (z3.Not(size > 0xFFFF), short)))
    return FList((("r", n, iv, (("e", ent),)),)), (("r", n, iv, (head, data)),)


# the reader interprets these itself (number of masters, end of the file, ...)
READ_AT_ONCE = (2, 10, 1503, 1269)


def p_write(e):
    """the file is the header followed by the frames of all entries in order"""
    from pyvc.compare import Comparer

    minor = sym_minor(e)
    e.subject = ("file", minor, 0)
    v = new_vfb(e)
    ents, frames = sym_entries(e, v)
    e.setattr(v, "entries", ents)
    e.setattr(e.getattr(v, "header"), "data", sym_header(minor))
    out = stream(e, ())
    e.call(e.getattr(v, "write_bytes"), [out])
    Comparer(e, "written bytes").tokens(e.get(out).data, header_toks(e, minor, 44) + (("O", 0),) * 32 + frames)


def p_read_all(e, end):
    """all entries are read, in order, with id and data, up to the end entry or the end of
    the file"""
    from pyvc.compare import Comparer
    from pyvc.natives import int_toks
    from specs import fonts

    minor = sym_minor(e)
    e.subject = ("file", minor, 0)
    v = new_vfb(e)
    ents, frames = sym_entries(e, v)
    rest, _ = byts("rest")
    last = (tuple(int_toks(2, 2, False, False)) + tuple(int_toks(0, 2, False, False)) + (rest,)
            if end else ())
    s = stream(e, header_toks(e, minor, 44) + (("O", 0),) * 32 + frames + last)
    e.call(e.getattr(v, "read_bytes"), [s])
    Comparer(e, "header fields read back").value(
        e.getattr(e.getattr(v, "header"), "data"), sym_header(minor))
    e.prove("reading stops at the end entry", e.get(s).rest == ((rest,) if end else ()))
    Comparer(e, "same entries in the same order").value(
        e.call(fonts.entry_pairs, [e.getattr(v, "entries")]),
        e.call(fonts.entry_pairs, [ents, ((2, b""),) if end else ()]))


def p_read_now(e, eid):
    """an entry which the reader interprets: it is kept with its data, and the font knows the platform, the
    number of masters, the numbers of stems; the entries behind it follow"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.schema import Int, ListOf, U16
    from pyvc.values import FList
    from specs import fonts
    from vfbLib.vfb.entry import VfbEntry

    minor = sym_minor(e)
    e.subject = ("file", minor, 0)
    v = new_vfb(e)
    ents, frames = sym_entries(e, v)
    data, n = byts("data")
    e.assume(z3.And(n >= 0, n <= 0xFFFF))  # the long form is the same for all entries
    _, f = frame_toks(e, eid, data, n)
    force = eid == 10 and e.choose_free(2) == 1
    e.setattr(v, "force_unicode_strings", force)
    masters = U16.sym("masters")
    stems = ListOf(Int(0, 9))
    platform = ("macos", "windows", "unknown")[e.choose_free(3)] if eid == 10 else "macos"
    value = masters
    count = dict(ttStemsV=0, ttStemsH=0)
    if eid == 10:
        value = fdict(platform=platform, owner="A")
    elif eid == 1269:
        have = [k for k in count if e.choose_free(2)]
        lists = {k: stems.sym(k) for k in have}
        value = fdict(**lists)
        count.update({k: e.call(len, [lists[k]]) for k in have})

    def decompile(e, a, kw):
        Comparer(e, "the bytes of the entry").tokens(e.toks(e.force(e.getattr(a[0], "data"))), (data,))
        e.setattr(a[0], "data", value)

    e.contracts[VfbEntry.decompile] = decompile
    s = stream(e, header_toks(e, minor, 44) + (("O", 0),) * 32 + tuple(f) + frames)
    e.call(e.getattr(v, "read_bytes"), [s])
    seq = e.seq_of(e.getattr(v, "entries"))
    if not e.prove("the entry is kept", bool(seq) and seq[0][0] == "e"):
        return
    first = e.force(seq[0][1])
    Comparer(e, "its id").value(e.getattr(first, "id"), eid)
    Comparer(e, "its data").value(e.getattr(first, "data"), value)
    Comparer(e, "the entries behind it").value(e.call(fonts.entry_pairs, [FList(tuple(seq[1:]))]),
                                               e.call(fonts.entry_pairs, [ents]))
    want = dict(num_masters=masters if eid == 1503 else 0, ttStemsV_count=count["ttStemsV"],
                ttStemsH_count=count["ttStemsH"], writer_platform=platform,
                encoding="utf-8" if force or platform == "macos" else "cp1252")
    for k, x in want.items():
        Comparer(e, k).value(e.getattr(v, k), x)


CUTS = ["in the id", "behind the id", "in the size", "behind the size", "in the data",
        "behind the id, long", "in the size, long", "in the data, long"]


def p_cut(e, where):
    """a file that was cut off behind any number of entries, within the frame of the next one"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.natives import int_toks
    from pyvc.values import FList
    from specs import fonts

    minor = sym_minor(e)
    e.subject = ("cut", minor, 0)
    v = new_vfb(e)
    ents, frames = sym_entries(e, v)
    eid = sym_id(e)
    for x in READ_AT_ONCE + (1410,):
        e.assume(eid != x)
    long = where.endswith("long")
    size = z3.Int("size of the cut entry")
    e.assume(z3.And(size > 0xFFFF, size < 2**32) if long else z3.And(size > 0, size <= 0xFFFF))
    ident = tuple(int_toks(eid + 0x8000 * long, 2, False, False))
    sizes = tuple(int_toks(size, 4 if long else 2, False, False))
    data, n = byts("data in front of the cut")
    e.assume(z3.And(n >= 0, n < size))
    k = where.split(",")[0]
    cut = {"in the id": ident[:1], "behind the id": ident, "in the size": ident + sizes[:1],
           "behind the size": ident + sizes, "in the data": ident + sizes + (data,)}[k]
    s = stream(e, header_toks(e, minor, 44) + (("O", 0),) * 32 + frames + cut)
    e.call(e.getattr(v, "read_bytes"), [s])
    Comparer(e, "header fields read back").value(
        e.getattr(e.getattr(v, "header"), "data"), sym_header(minor))
    seq = e.seq_of(e.getattr(v, "entries"))
    if seq and seq[-1][0] == "e":
        last, seq = seq[-1][1], seq[:-1]  # the cut entry
        if k == "in the data":
            Comparer(e, "the cut entry").value(e.call(fonts.entry_pairs, [FList((("e", last),))]),
                                               FList((("e", (eid, FBytes_of(data))),)))
    Comparer(e, "the entries in front of the cut").value(
        e.call(fonts.entry_pairs, [FList(seq)]), e.call(fonts.entry_pairs, [ents]))


def p_cut_header(e):
    """a file that was cut off within its header: an error, or no entries"""
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from pyvc.values import FList

    minor = sym_minor(e)
    e.subject = ("cut header", minor, 0)
    v = new_vfb(e)
    toks = header_toks(e, minor, 44) + (("O", 0),) * 32
    s = stream(e, toks[:e.choose_free(44)])
    try:
        e.call(e.getattr(v, "read_bytes"), [s])
    except Raise:
        return
    Comparer(e, "no entries").value(e.getattr(v, "entries"), FList(()))


def FBytes_of(*toks):
    from pyvc.values import FBytes

    return FBytes(toks)


def some_file(e, s):
    """open gives a file with this stream -> log of what is done to it"""
    from specs.jsonout import SomeFile

    log = []

    def open_(e, a, kw):
        f = e.instantiate(SomeFile, [s, *a], kw)
        log.append(f)
        return f

    e.contracts[open] = open_
    return log


def p_disk(e, op):
    """Vfb.write, Vfb.read: the same through a file, which is opened once and closed"""
    from pathlib import Path

    from pyvc.compare import Comparer
    from pyvc.values import FList
    from specs import fonts

    minor = sym_minor(e)
    e.subject = ("file", minor, 0)
    v = new_vfb(e)
    ents, frames = sym_entries(e, v)
    toks = header_toks(e, minor, 44) + (("O", 0),) * 32 + frames
    path = Path("/fonts/A.vfb")
    s = stream(e, () if op == "write" else toks)
    log = some_file(e, s)
    if op == "write":
        e.setattr(v, "entries", ents)
        e.setattr(e.getattr(v, "header"), "data", sym_header(minor))
        e.call(e.getattr(v, "write"), [path])
        Comparer(e, "written bytes").tokens(e.get(s).data, toks)
    else:
        e.setattr(v, "vfb_path", path)
        e.setattr(v, "entries", ((3, b"of the last file"),))
        e.call(e.getattr(v, "read"), [])
        Comparer(e, "entries").value(e.call(fonts.entry_pairs, [e.getattr(v, "entries")]),
                                     e.call(fonts.entry_pairs, [ents]))
    e.prove("one file", len(log) == 1)
    e.prove("its path", e.getattr(log[0], "path") == path)
    e.prove("its mode", e.getattr(log[0], "mode") == ("wb" if op == "write" else "rb"))
    Comparer(e, "opened and closed").value(e.getattr(log[0], "log"), FList((("e", "open"), ("e", "close"))))


def c_file(d, *args):
    """a concrete file for the counterexample of a proof"""
    kind, minor, n = d
    minor = minor if isinstance(minor, int) else 0
    if kind.startswith("cut"):
        return cut_anywhere, (minor,)
    if kind == "offset":
        return longheader, (minor, max(12, min(int(n), 100000)), [(600, b"abc")])
    if kind == "entry":
        return framing, (1, [(minor, min(int(n), 200000), 1), (9999, 3, 2)])
    return framing, (minor, [(600, 3, 1), (9999, 0x10000, 2), (1276, 0xFFFF, 3), (2, 0, 0)])


def proofs():
    from props.proofs import Proof

    pf = [
        Proof("VfbHeaderCompiler.compile: 44 bytes of header", p_header_compile),
        Proof("VfbHeader.read: header fields, entries start at the recorded offset", p_header_parse),
        Proof("VfbEntry.header: id and size of any entry", p_entry_header),
        Proof("VfbEntry.read: id and data of any entry", p_entry_read),
        Proof("Vfb.write_bytes: header and frames of any number of entries", p_write),
        Proof("Vfb.read_bytes: any number of entries up to the end entry", p_read_all, (True,)),
        Proof("Vfb.read_bytes: any number of entries, no end entry", p_read_all, (False,)),
    ]
    pf += [Proof(f"Vfb.read_bytes of a file that was cut off {w}", p_cut, (w,),
                 allowed=(EOFError, ValueError, TypeError)) for w in CUTS]
    pf.append(Proof("Vfb.read_bytes of a file that was cut off in the header", p_cut_header))
    pf += [Proof(f"Vfb.{op}: through a file", p_disk, (op,)) for op in ("write", "read")]
    pf += [Proof(f"Vfb.read_bytes: entry {i} is interpreted while reading", p_read_now, (i,)) for i in (10, 1503, 1269)]
    for x in pf:
        x.case = c_file
    return pf


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    sizes = [0, 1, 2, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x18000, 70000]
    for n in sizes:
        run.case(framing, 0, [(600, n, 1), (9999, 3, 2), (2, 0, 0)])
        run.case(framing, 0, [(1276, 2, 1), (600, n, 1)])
    mc = lambda m: (1503, bytes([m, 0]))
    for i in range(run.n(250, 4000)):
        k = rng.choice([0, 1, 2, 5, 9])
        spec = []
        m = rng.choice([1, 2, 4])
        if rng.random() < 0.5:
            spec.append(mc(m))
            if rng.random() < 0.6:
                spec.append((1410, rng.randbytes(8 + 2 * m)))
        for _ in range(k):
            eid = rng.choice(PLAIN) if rng.random() < 0.7 else rng.randrange(3, 0x8000)
            if eid in (2, 10, 1503, 1269, 1410):
                continue
            n = rng.choice([0, 1, 2, 3, 7, 40, 300]) if rng.random() < 0.93 else rng.choice(sizes)
            spec.append((eid, n, rng.randrange(256)))
        if rng.random() < 0.6:
            spec.append((2, rng.choice([0, 0, 4]), 5))
        run.case(framing, rng.randrange(256), spec)
    for i in range(run.n(20, 300)):
        ents = [(rng.choice(PLAIN), rng.randbytes(rng.choice([0, 1, 9]))) for _ in range(3)]
        run.case(longheader, rng.randrange(256), rng.choice([12, 13, 44, 45, 64, 200]), ents)
    for j in range(run.n(2, 12)):
        ents = [mc(1)] + [(rng.choice(PLAIN), rng.randbytes(rng.choice([0, 1, 9, 20]))) for _ in range(5)] + [(2, b"")]
        if j % 2:
            ents.insert(3, (777, blob(0x10000, 1)))
        total = 44 + sum(len(frame(*e)) for e in ents)
        cuts = [c for c in range(total) if c < 200 or c > total - 120 or c % 9973 == 0]
        for cut in cuts:
            run.case(truncated, 1, ents, cut)
    return proofs.finish(run)
