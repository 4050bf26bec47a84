"""C01 encoded integers"""
import struct
from io import BytesIO

from pyvc.concrete import call
from specs.wire import W


def wire(v, signed, long):
    w = W()
    w.VL(v, signed) if long else w._v(v, signed)
    return w.getvalue()


def legal(v, signed):
    return -(2**31) <= v < 2**31 if signed else 0 <= v < 2**32


def roundtrip(v, signed, long, tail):
    from vfbLib.compilers.base import StreamWriter
    from vfbLib.compilers.value import write_value, write_value_long
    from vfbLib.parsers.base import StreamReader
    from vfbLib.parsers.value import read_value

    fails = []
    # short forms do not depend on the signedness
    ok = legal(v, signed) or (not long and -1131 <= v <= 1131)
    pre = b"\x00\x8b"
    for how in ("function", "method"):
        s = BytesIO()
        s.write(pre)
        if how == "function":
            st, r = call(lambda: (write_value_long if long else write_value)(v, s, signed))
        else:
            sw = StreamWriter()
            sw.stream = s
            st, r = call(lambda: sw.write_value(v, shortest=not long, signed=signed))
        out = s.getvalue()
        if not ok:
            if st == "ok":
                fails.append(dict(clause=f"{how}: out of range is refused", detail=out.hex()))
            elif not isinstance(r, (struct.error, OverflowError, ValueError)):
                fails.append(dict(clause=f"{how}: refused with an error", detail=repr(r)))
            if out != pre:
                fails.append(dict(clause=f"{how}: refused value writes nothing", detail=out.hex()))
            continue
        exp = pre + wire(v, signed, long)
        if st != "ok":
            fails.append(dict(clause=f"{how}: writes", detail=repr(r)))
        elif out != exp:
            fails.append(dict(clause=f"{how}: encoding", detail=f"{out.hex()} != {exp.hex()}"))
    if ok:
        data = wire(v, signed, long) + tail
        for how in ("function", "method"):
            s = BytesIO(data)
            if how == "function":
                st, r = call(lambda: read_value(s, signed))
            else:
                sr = StreamReader()
                sr.stream = s
                st, r = call(lambda: sr.read_value(signed=signed))
            if st != "ok" or r != v or type(r) is not int:
                fails.append(dict(clause=f"read {how}: value", detail=f"{r!r} != {v}"))
            elif s.read() != tail:
                fails.append(dict(clause=f"read {how}: position", detail=data.hex()))
    return fails


def lead(b, rest, signed):
    from vfbLib.parsers.value import read_value

    s = BytesIO(bytes([b]) + rest)
    st, r = call(lambda: read_value(s, signed))
    if b == 0:
        good = st == "raise" and isinstance(r, EOFError)
    elif b < 0x20:
        good = st == "raise" and isinstance(r, ValueError)
    elif b < 0xF7:
        good = (st, r) == ("ok", b - 139) and s.read() == rest
    elif b < 0xFB:
        good = (st, r) == ("ok", (b - 247) * 256 + rest[0] + 108) and s.read() == rest[1:]
    elif b < 0xFF:
        good = (st, r) == ("ok", -(b - 251) * 256 - rest[0] - 108) and s.read() == rest[1:]
    else:
        v = struct.unpack(">i" if signed else ">I", rest[:4])[0]
        good = (st, r) == ("ok", v) and s.read() == rest[4:]
    return [] if good else [dict(clause="decoding of a lead byte", detail=f"{b:02x}: {r!r}")]


def empty(signed):
    from vfbLib.parsers.value import read_value

    st, r = call(lambda: read_value(BytesIO(b""), signed))
    if st == "raise" and isinstance(r, EOFError):
        return []
    return [dict(clause="EOFError at the end of the data", detail=repr(r))]


# ------------------------------------------------------------------ contracts
def prefix():
    import z3
    from pyvc.terms import Byt

    return (("X", z3.Const("pre", Byt)),)


def suffix():
    import z3
    from pyvc.terms import Byt

    return (("X", z3.Const("tail", Byt)),)


def in_range(x, signed, long):
    import z3

    full = z3.And(x >= -(2**31), x < 2**31) if signed else z3.And(x >= 0, x < 2**32)
    return full if long else z3.Or(full, z3.And(x >= -1131, x <= 1131))


def p_write(e, how, signed, long):
    """the stream is extended by the documented representation, or left alone and an
    exception leaves the function"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from pyvc.tokens import v_forms
    from pyvc.values import HInst, HStream
    from vfbLib.compilers.base import StreamWriter
    from vfbLib.compilers.value import write_value, write_value_long

    x = e.subject = z3.Int("value")
    st = e.alloc(HStream(prefix()))
    ok = in_range(x, signed, long)
    e.branch(ok)
    try:
        if how == "function":
            e.call(write_value_long if long else write_value, [x, st, signed])
        else:
            sw = e.call(StreamWriter, [])
            e.get(sw).attrs["stream"] = st
            e.call(e.getattr(sw, "write_value"), [x], dict(shortest=not long, signed=signed))
    except Raise as r:
        e.prove("only numbers out of range are refused", z3.Not(ok))
        e.prove("refused by struct.error", issubclass(r.exc.type, struct.error))
        e.prove("a refused number writes nothing", e.get(st).data == prefix())
        return
    e.prove("numbers out of range are refused", ok)
    forms = v_forms(x, signed, long)
    i = e.choose([c for c, _ in forms])
    Comparer(e, "representation of the number").tokens(
        e.get(st).data, prefix() + tuple(("O", b) for b in forms[i][1]))


def reader(e, how, st, signed):
    from vfbLib.parsers.base import StreamReader
    from vfbLib.parsers.value import read_value

    if how == "function":
        return e.call(read_value, [st, signed])
    sr = e.call(StreamReader, [])
    e.get(sr).attrs["stream"] = st
    return e.call(e.getattr(sr, "read_value"), [], dict(signed=signed))


def p_read(e, how, signed, long):
    """reading the documented representation gives the number and consumes just that"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.tokens import v_forms
    from pyvc.values import HStream

    x = e.subject = z3.Int("value")
    e.assume(in_range(x, signed, long))
    forms = v_forms(x, signed, long)
    i = e.choose([c for c, _ in forms])
    st = e.alloc(HStream((), tuple(("O", b) for b in forms[i][1]) + suffix()))
    r = reader(e, how, st, signed)
    Comparer(e, "number read").value(r, x)
    e.prove("just the number is consumed", e.get(st).rest == suffix())


def p_lead(e, how, signed):
    """the format by its lead byte"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from pyvc.values import HStream

    b = [z3.Int(f"b{j}") for j in range(5)]
    e.subject = (b[0], tuple(b[1:]))
    for x in b:
        e.assume(z3.And(x >= 0, x <= 255))
    st = e.alloc(HStream((), tuple(("O", x) for x in b) + suffix()))
    try:
        r = reader(e, how, st, signed)
    except Raise as ex:
        if ex.exc.type is EOFError:
            e.prove("EOFError for a null byte only", b[0] == 0)
        else:
            e.prove("ValueError for the undefined lead bytes only",
                    z3.And(b[0] >= 1, b[0] < 32, issubclass(ex.exc.type, ValueError)))
        return
    big = ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
    exp = [(z3.And(b[0] >= 32, b[0] < 247), b[0] - 139, 1),
           (z3.And(b[0] >= 247, b[0] < 251), (b[0] - 247) * 256 + b[1] + 108, 2),
           (z3.And(b[0] >= 251, b[0] < 255), -(b[0] - 251) * 256 - b[1] - 108, 2),
           (b[0] == 255, z3.If(z3.And(big >= 2**31, signed), big - 2**32, big), 5)]
    e.prove("no number for other lead bytes", z3.Or([c for c, _, _ in exp]))
    i = e.choose([c for c, _, _ in exp])
    Comparer(e, "number read").value(r, exp[i][1])
    e.prove("bytes consumed", e.get(st).rest == tuple(("O", x) for x in b[exp[i][2]:]) + suffix())


def p_empty(e, how, signed):
    from pyvc.engine import Raise
    from pyvc.values import HStream

    e.subject = 0
    st = e.alloc(HStream((), ()))
    try:
        reader(e, how, st, signed)
    except Raise as ex:
        e.prove("EOFError at the end of the data", ex.exc.type is EOFError)
        return
    e.prove("EOFError at the end of the data", False)


TAILS = b"\x00\xff\x8b\x1f\xf7"


def c_value(d, how, signed, long):
    return roundtrip, (d, signed, long, TAILS)


def proofs():
    from props.proofs import Proof

    out = []
    errs = (struct.error, EOFError, ValueError)
    for how in ("function", "method"):
        for signed in (True, False):
            sg = "signed" if signed else "unsigned"
            for long in (False, True):
                a = (how, signed, long)
                lg = "longest" if long else "shortest"
                out.append(Proof(f"write {how} {sg} {lg}", p_write, a, contracts=False,
                                 allowed=errs, case=c_value))
                out.append(Proof(f"read {how} {sg} {lg}", p_read, a, contracts=False,
                                 case=c_value))
            out.append(Proof(f"read {how} {sg} by lead byte", p_lead, (how, signed),
                             contracts=False, allowed=errs,
                             case=lambda d, how, s: (lead, (d[0], bytes(d[1]) + b"\1", s))))
            out.append(Proof(f"read {how} {sg} at the end", p_empty, (how, signed),
                             contracts=False, allowed=errs,
                             case=lambda d, how, s: (empty, (s,))))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    vals = set(range(-1300, 1301))
    for k in (7, 8, 15, 16, 24, 31, 32, 33, 40, 63, 64):
        for d in (-2, -1, 0, 1, 2):
            vals |= {2**k + d, -(2**k) + d}
    vals |= {rng.randint(-(2**31), 2**32) for _ in range(run.n(400, 20000))}
    vals |= {rng.randint(-(2**20), 2**20) for _ in range(run.n(400, 20000))}
    for v in sorted(vals):
        signs = (True, False) if abs(v) > 900 or run.tier == "thorough" else (rng.random() < 0.5,)
        for signed in signs:
            for long in (False, True):
                run.case(roundtrip, v, signed, long, rng.randbytes(rng.choice([0, 1, 5])))
    for b in range(256):
        for signed in (True, False):
            for _ in range(run.n(2, 60)):
                run.case(lead, b, rng.randbytes(rng.choice([4, 5, 9])), signed)
    for signed in (True, False):
        run.case(empty, signed)
    return proofs.finish(run)
