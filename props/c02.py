"""C02 fixed-width numbers, doubles, strings"""
import struct
from io import BytesIO

from pyvc.concrete import call
from pyvc.schema import Float, Text

WIDTHS = {"int8": (1, True), "uint8": (1, False), "int16": (2, True), "uint16": (2, False),
          "int32": (4, True), "uint32": (4, False)}


def writer(pre):
    from vfbLib.compilers.base import StreamWriter

    w = StreamWriter()
    w.stream.write(pre)
    return w


def reader(data):
    from vfbLib.parsers.base import StreamReader

    r = StreamReader()
    r.stream = BytesIO(data)
    return r


def le(v, n):
    v %= 256**n
    return bytes((v >> (8 * i)) & 255 for i in range(n))


def integer(name, v, tail):
    n, signed = WIDTHS[name]
    lo, hi = (-(256**n) // 2, 256**n // 2 - 1) if signed else (0, 256**n - 1)
    fails = []
    pre = b"\x01\xff"
    w = writer(pre)
    st, r = call(lambda: getattr(w, "write_" + name)(v))
    out = w.stream.getvalue()
    if not lo <= v <= hi:
        if st == "ok" or out != pre:
            fails.append(dict(clause=f"write_{name}: refuses and writes nothing", detail=f"{v}: {out.hex()}"))
        return fails
    if st != "ok" or out != pre + le(v, n):
        fails.append(dict(clause=f"write_{name}: little endian bytes", detail=f"{v}: {out.hex()} {r!r}"))
    rd = reader(le(v, n) + tail)
    st, r = call(lambda: getattr(rd, "read_" + name)())
    if (st, r) != ("ok", v) or rd.stream.read() != tail:
        fails.append(dict(clause=f"read_{name}: value and position", detail=f"{v}: {r!r}"))
    return fails


def doubles(raw, tail):
    vals = [struct.unpack("<d", raw[i : i + 8])[0] for i in range(0, len(raw), 8)]
    fails = []
    w = writer(b"\x02")
    st, r = call(lambda: w.write_doubles(vals))
    # NaN payloads are not preserved by all conversions of the platform
    if st != "ok" or (w.stream.getvalue() != b"\x02" + raw):
        fails.append(dict(clause="write_doubles", detail=f"{w.stream.getvalue().hex()} {raw.hex()} {r!r}"))
    rd = reader(raw + tail)
    st, r = call(lambda: rd.read_doubles(len(vals)))
    if st != "ok" or struct.pack(f"<{len(vals)}d", *r) != raw or rd.stream.read() != tail:
        fails.append(dict(clause="read_doubles", detail=f"{r!r}"))
    for v in vals[:1]:
        w = writer(b"")
        w.write_double(v)
        if w.stream.getvalue() != raw[:8]:
            fails.append(dict(clause="write_double", detail=repr(v)))
        rd = reader(raw[:8] + tail)
        x = rd.read_double()
        if struct.pack("<d", x) != raw[:8] or rd.stream.read() != tail:
            fails.append(dict(clause="read_double", detail=repr(v)))
    return fails


def vlen(n):
    from props.c01 import wire

    return wire(n, True, False)


def texts(s, enc, pad, tail):
    fails = []
    e = s.encode(enc)
    for how, call_, exp in (
        ("write_str", lambda w: w.write_str(s), e),
        ("write_str pad", lambda w: w.write_str(s, pad), e + b"\0" * max(0, pad - len(e))),
        ("write_str_with_len", lambda w: w.write_str_with_len(s), vlen(len(e)) + e),
        ("write_bytes", lambda w: w.write_bytes(e), e),
    ):
        w = writer(b"\x07")
        w.encoding = enc
        st, r = call(lambda: call_(w))
        if st != "ok" or w.stream.getvalue() != b"\x07" + exp:
            fails.append(dict(clause=how, detail=f"{r!r} {w.stream.getvalue()!r} {exp!r}"))
    if not s:
        for how, call_, exp in (
            ("write_str None", lambda w: w.write_str(None, pad), b"\0" * pad),
            ("write_str_with_len None", lambda w: w.write_str_with_len(None), b"\x8b"),
        ):
            w = writer(b"")
            st, r = call(lambda: call_(w))
            if st != "ok" or w.stream.getvalue() != exp:
                fails.append(dict(clause=how, detail=f"{r!r} {w.stream.getvalue()!r} {exp!r}"))
    for how, data, call_, exp, rest in (
        ("read_str", e + tail, lambda r: r.read_str(len(e)), s, tail),
        ("read_str_with_len", vlen(len(e)) + e + tail, lambda r: r.read_str_with_len(), s, tail),
        ("read_str_all", e, lambda r: r.read_str_all(), s, b""),
    ):
        rd = reader(data)
        rd.encoding = enc
        st, r = call(lambda: call_(rd))
        if (st, r) != ("ok", exp) or rd.stream.read() != rest:
            fails.append(dict(clause=how, detail=f"{r!r} {exp!r}"))
    return fails


# ------------------------------------------------------------------ contracts
def octets(x, n):
    """the n bytes of x, least significant first"""
    import z3

    u = z3.If(x < 0, x + 256**n, x)
    return tuple(("O", u if n == 1 else (u / z3.IntVal(256**j)) % 256) for j in range(n))


def stream_of(cls):
    """a reader or writer on a stream"""
    def make(e, st, enc=None):
        obj = e.call(cls(), [])
        e.get(obj).attrs["stream"] = st
        if enc:
            e.get(obj).attrs["encoding"] = enc
        return obj
    return make


def _w():
    from vfbLib.compilers.base import StreamWriter

    return StreamWriter


def _r():
    from vfbLib.parsers.base import StreamReader

    return StreamReader


new_writer, new_reader = stream_of(_w), stream_of(_r)


def p_write_int(e, name):
    import z3
    from props.c01 import prefix
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from pyvc.values import HStream

    n, signed = WIDTHS[name]
    lo, hi = (-(256**n) // 2, 256**n // 2 - 1) if signed else (0, 256**n - 1)
    x = e.subject = z3.Int("value")
    st = e.alloc(HStream(prefix()))
    ok = z3.And(x >= lo, x <= hi)
    e.branch(ok)
    try:
        e.call(e.getattr(new_writer(e, st), "write_" + name), [x])
    except Raise:
        e.prove("only numbers out of range are refused", z3.Not(ok))
        e.prove("a refused number writes nothing", e.get(st).data == prefix())
        return
    e.prove("numbers out of range are refused", ok)
    Comparer(e, "little-endian bytes").tokens(e.get(st).data, prefix() + octets(x, n))


def p_read_int(e, name):
    import z3
    from props.c01 import suffix
    from pyvc.compare import Comparer
    from pyvc.values import HStream

    n, signed = WIDTHS[name]
    b = [z3.Int(f"b{j}") for j in range(n)]
    for y in b:
        e.assume(z3.And(y >= 0, y <= 255))
    u = sum(y * 256**j for j, y in enumerate(b))
    x = e.subject = z3.If(z3.And(signed, u >= 256**n // 2), u - 256**n, u)
    st = e.alloc(HStream((), tuple(("O", y) for y in b) + suffix()))
    r = e.call(e.getattr(new_reader(e, st), "read_" + name), [])
    Comparer(e, "number read").value(r, x)
    e.prove("just the number is consumed", e.get(st).rest == suffix())


def double_list():
    from pyvc.schema import Float, ListOf

    return ListOf(Float()).sym("d")


def double_tokens(d):
    return tuple(("r", t[1], t[2], tuple(("D", x[1]) for x in t[3])) for t in d.seq)


def p_write_double(e, many):
    from props.c01 import prefix
    from pyvc.compare import Comparer
    from pyvc.schema import Float
    from pyvc.values import FList, HStream

    st = e.alloc(HStream(prefix()))
    w = new_writer(e, st)
    if many:
        d = e.subject = double_list()
        e.call(e.getattr(w, "write_doubles"), [d])
        exp = double_tokens(d)
    else:
        x = Float().sym("d")
        e.subject = FList((("e", x),))
        e.call(e.getattr(w, "write_double"), [x])
        exp = (("D", x),)
    Comparer(e, "8 bytes of each double").tokens(e.get(st).data, prefix() + exp)


def p_read_double(e, many):
    from props.c01 import suffix
    from pyvc.compare import Comparer
    from pyvc.schema import Float
    from pyvc.values import FList, HStream

    if many:
        d = e.subject = double_list()
        st = e.alloc(HStream((), double_tokens(d) + suffix()))
        r = e.call(e.getattr(new_reader(e, st), "read_doubles"), [d.seq[0][1]])
    else:
        d = Float().sym("d")
        e.subject = FList((("e", d),))
        st = e.alloc(HStream((), (("D", d),) + suffix()))
        r = e.call(e.getattr(new_reader(e, st), "read_double"), [])
    Comparer(e, "doubles read").value(r, d)
    e.prove("just the doubles are consumed", e.get(st).rest == suffix())


def encoded(e, s, enc):
    return e.toks(e.nat.call_method(e, s, "encode", [enc], {}))


def p_write_str(e, how, enc):
    import z3
    from props.c01 import prefix
    from pyvc.compare import Comparer
    from pyvc.terms import REG, I, simp, zi
    from pyvc.values import HStream

    s = None if "None" in how else Text(enc).sym("s")
    pad = z3.Int("pad")
    e.subject = (s if s is not None else "", pad)
    st = e.alloc(HStream(prefix()))
    w = new_writer(e, st, enc)
    t = encoded(e, s, enc) if s is not None else ()
    size = zi(e.toks_size(t))
    if "pad" in how:
        e.call(e.getattr(w, "write_str"), [s, pad])
        n = simp(z3.If(size < pad, pad - size, 0))
        exp = t + (("r", n, z3.Const(REG.fresh_name("i"), I), (("O", 0),)),)
    elif "len" in how:
        e.assume(size < 2**31)
        e.call(e.getattr(w, "write_str_with_len"), [s])
        exp = (("V", size, True),) + t
    else:
        e.call(e.getattr(w, "write_str"), [s])
        exp = t
    Comparer(e, "text bytes").tokens(e.get(st).data, prefix() + exp)


def p_write_bytes(e):
    import z3
    from props.c01 import prefix
    from pyvc.compare import Comparer
    from pyvc.terms import Byt
    from pyvc.values import FBytes, HStream

    t = (("X", z3.Const("raw", Byt)),)
    st = e.alloc(HStream(prefix()))
    e.call(e.getattr(new_writer(e, st), "write_bytes"), [FBytes(t)])
    Comparer(e, "the bytes").tokens(e.get(st).data, prefix() + t)


def p_read_str(e, how, enc):
    import z3
    from props.c01 import suffix
    from pyvc.compare import Comparer
    from pyvc.terms import zi
    from pyvc.values import HStream

    s = Text(enc).sym("s")
    e.subject = (s, 0)
    t = encoded(e, s, enc)
    size = zi(e.toks_size(t))
    e.assume(size < 2**31)
    if how == "read_str":
        st = e.alloc(HStream((), t + suffix()))
        args, rest = [size], suffix()
    elif how == "read_str_with_len":
        st = e.alloc(HStream((), (("V", size, True),) + t + suffix()))
        args, rest = [], suffix()
    else:
        st = e.alloc(HStream((), t))
        args, rest = [], ()
    r = e.call(e.getattr(new_reader(e, st, enc), how), args)
    Comparer(e, "text read").value(r, s)
    e.prove("just the text is consumed", tuple(e.drop_empty(e.get(st).rest)) == rest)


def c_text(d, how, enc):
    s, pad = d
    return texts, (s, enc, max(-3, min(pad, 5000)), b"\xff\x00")


def c_doubles(d, many):
    return doubles, (b"".join(struct.pack("<d", v) for v in d), b"\x01")


def proofs():
    from props.proofs import Proof

    out = []
    for name in WIDTHS:
        out.append(Proof(f"write_{name}", p_write_int, (name,), allowed=(OverflowError, struct.error),
                         case=lambda d, nm: (integer, (nm, d, b"\xff\x00"))))
        out.append(Proof(f"read_{name}", p_read_int, (name,),
                         case=lambda d, nm: (integer, (nm, d, b"\xff\x00"))))
    for many in (False, True):
        out.append(Proof(f"write_double{'s' * many}", p_write_double, (many,), case=c_doubles))
        out.append(Proof(f"read_double{'s' * many}", p_read_double, (many,), case=c_doubles))
    for enc in ("cp1252", "utf-8"):
        for how in ("str", "str pad", "str_with_len"):
            for none in ("", " None"):
                out.append(Proof(f"write_{how}{none} {enc}", p_write_str, (how + none, enc),
                                 case=c_text))
        for how in ("read_str", "read_str_with_len", "read_str_all"):
            out.append(Proof(f"{how} {enc}", p_read_str, (how, enc), case=c_text))
    out.append(Proof("write_bytes", p_write_bytes))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for name, (n, signed) in WIDTHS.items():
        vals = set()
        for k in (0, 7, 8, 15, 16, 31, 32, 40):
            for d in (-2, -1, 0, 1, 2):
                vals |= {2**k + d, -(2**k) + d}
        if n == 1:
            vals |= set(range(-130, 258))
        vals |= {rng.randint(-(256**n), 256**n) for _ in range(run.n(150, 5000))}
        if n == 2 and run.tier == "thorough":
            vals |= set(range(-33000, 66000))
        for v in sorted(vals):
            run.case(integer, name, v, rng.randbytes(rng.choice([0, 1, 4])))
    fl = Float()
    for i in range(run.n(150, 4000)):
        k = rng.choice([0, 1, 1, 2, 5])
        raw = b"".join(struct.pack("<d", fl.gen(rng)) if rng.random() < 0.6 else rng.randbytes(7) + bytes([rng.randrange(0x7F)])
                       for _ in range(k))
        run.case(doubles, raw, rng.randbytes(rng.choice([0, 3])))
    for i in range(run.n(400, 8000)):
        enc = rng.choice(["cp1252", "cp1252", "utf-8"])
        s = Text(enc).gen(rng)
        if i % 40 == 0:
            s = "ä" * rng.choice([53, 54, 107, 108, 565, 566, 1131, 1132])
        if i % 10 == 0:
            s = ""
        run.case(texts, s, enc, rng.choice([0, 1, 3, 5, 12, len(s), len(s) + 1]), rng.randbytes(rng.choice([0, 2])))
    return proofs.finish(run)
