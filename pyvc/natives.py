"""Semantics of the Python built-ins and library functions the code under contract uses.

These are the trusted contracts of the dependencies (struct, io.BytesIO, int, str, list,
dict, math).  Calls whose arguments are all concrete run the host function.
"""
import builtins
import enum
import inspect
import io
import copy
import itertools
import math
import struct
import types
import typing
import warnings

import z3

from .expr import _symbolic, flt_term, text_term, is_flt, is_num, is_text, raise_
from .schema import HEXOF
from .terms import (
    FATAN2, FDEG, FIX, FRAD, FTAN, I, REG, RND, TRUNC, enc_id, is_int,
    is_sym, simp, zb, zi,
)
from .terms import CEIL, CHR, MACROMAN, Str
from .tokens import index_consts
from . import texts
from .values import (
    Alt, FBytes, FDict, FList, FmtStr, FObj, HCell, HDict, HInst, HList, HSet, HStream, Mrg, PyExc, Ref, SFl, SStr, Unsupported, vsubst,
)

BYTEUP = z3.Function("ucfirst", z3.DeclareSort("PyStr"), z3.DeclareSort("PyStr"))


# ------------------------------------------------------------------ helpers
def concrete(args):
    return not any(_symbolic(a) for a in args)


def host(e, f, args, kwargs):
    """run a host function on concrete arguments"""
    try:
        r = f(*args, **kwargs)
    except (Unsupported, z3.Z3Exception):
        raise
    except Exception as ex:
        raise_(type(ex), *ex.args)
    return wrap(e, r)


def wrap(e, r):
    if isinstance(r, list):
        return e.alloc(HList(tuple(("e", wrap(e, x)) for x in r)))
    if isinstance(r, dict) and type(r) is dict:
        return e.alloc(HDict(tuple(("e", k, wrap(e, v)) for k, v in r.items())))
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(e, x) for x in r)
    return r


FIELDS = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True),
          "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def parse_fmt(e, fmt):
    """-> (big endian?, [(count or None, code)]); counts may be symbolic"""

    parts = fmt.parts if isinstance(fmt, FmtStr) else (fmt,)
    toks = []
    for p in parts:
        if isinstance(p, str):
            toks.extend(p)
        elif isinstance(p, tuple) and p[0] == "v" and is_int(p[1]) and p[2] == -1 and not p[3]:
            toks.append(p[1])
        elif isinstance(p, tuple) and p[0] == "times" and len(p[2]) == 1 and p[2].isalpha():
            toks.append(simp(z3.If(zi(p[1]) > 0, zi(p[1]), 0)))
            toks.append(p[2])
        else:
            raise Unsupported("struct format")
    big = False
    native = True
    if toks and isinstance(toks[0], str) and toks[0] in "<>=!@":
        big = toks[0] in ">!"
        native = toks[0] == "@"
        toks = toks[1:]
    out = []
    cnt = None
    for t in toks:
        if isinstance(t, str) and t.isdigit():
            cnt = (cnt or 0) * 10 + int(t) if not is_sym(cnt) else cnt
        elif is_int(t):
            if cnt is not None:
                raise Unsupported("struct format")
            cnt = t
        elif t == " ":
            continue
        else:
            out.append((cnt, t))
            cnt = None
    if native and len({c for _, c in out}) > 1:
        raise Unsupported("native alignment")
    return big, out


def in_field(x, n, signed):
    lo, hi = (-(256**n) // 2, 256**n // 2 - 1) if signed else (0, 256**n - 1)
    if not is_sym(x):
        return lo <= x <= hi
    return simp(z3.And(x >= lo, x <= hi))


def unsigned(x, n):
    """x mod 256**n for x in the signed or unsigned range"""
    if not is_sym(x):
        return x % 256**n
    return simp(z3.If(x < 0, x + 256**n, x))


def int_toks(x, n, signed, big, e=None):
    u = unsigned(x, n) if signed else x
    if n == 1:
        return (("O", u),)
    if not big:
        return (("LE", n, u),)
    if not is_sym(u):
        return tuple(("O", b) for b in u.to_bytes(n, "big"))
    return tuple(("O", simp((u / z3.IntVal(256 ** (n - 1 - j))) % 256)) for j in range(n))


def struct_pack(e, fmt, args):
    big, fields = parse_fmt(e, fmt)
    toks = ()
    args = list(args)
    for cnt, code in fields:
        if is_sym(cnt):
            raise Unsupported("struct.pack with a symbolic count")
        for _ in range(1 if cnt is None else cnt):
            if not args:
                raise_(struct.error, "pack expected more items")
            v = e.force(args.pop(0))
            if code in FIELDS:
                n, signed = FIELDS[code]
                if not is_num(v):
                    raise_(struct.error, "required argument is not an integer")
                v = e.num(v)
                e.require(in_field(v, n, signed), struct.error, "out of range")
                toks += int_toks(v, n, signed, big)
            elif code == "d":
                if big:
                    raise Unsupported("big-endian double")
                if is_num(v):
                    v = SFl(FIX(zi(e.num(v)))) if is_sym(v) else float(v)
                if not is_flt(v):
                    raise_(struct.error, "required argument is not a float")
                toks += (("D", v),)
            else:
                raise Unsupported(f"struct code {code}")
    if args:
        raise_(struct.error, "too many items")
    return mkbytes(toks)


def mkbytes(toks):
    if all(t[0] == "O" and not is_sym(t[1]) for t in toks):
        return bytes(int(t[1]) for t in toks)
    return FBytes(toks)


def to_int(e, toks, big, signed):
    toks = tuple(toks)
    if not toks:
        return 0
    if len(toks) == 1 and toks[0][0] == "LE" and not big:
        n, u = toks[0][1], toks[0][2]
    else:
        n, u = 0, 0
        bs = e.byte_list(toks)
        n = len(bs)
        # recognise the big-endian spelling of one number
        for j, b in enumerate(bs):
            w = (n - 1 - j) if big else j
            u = u + b * 256**w if not (is_sym(u) or is_sym(b)) else simp(zi(u) + zi(b) * 256**w)
        u = e.fold_bytes(bs, big, u)
    if not signed:
        return u
    if not is_sym(u):
        return u - 256**n if u >= 256**n // 2 else u
    return simp(z3.If(u >= 256**n // 2, u - 256**n, u))


def struct_unpack(e, fmt, data):
    big, fields = parse_fmt(e, fmt)
    toks = e.toks(data)
    out = []
    if any(is_sym(c) for c, _ in fields):
        if len(fields) != 1:
            raise Unsupported("struct format")
        cnt, code = fields[0]
        if code not in FIELDS and (code != "d" or big):
            raise Unsupported("struct format")
        n, signed = FIELDS.get(code, (8, None))
        size = e.toks_size(toks)
        if not e.valid(zi(size) == zi(cnt) * n):
            raise Unsupported("struct.unpack of a length that may differ")
        seq = []
        for t in toks:
            if t[0] == "r" and code == "d" and all(x[0] == "D" for x in t[3]):
                seq.append(("r", t[1], t[2], tuple(("e", x[1]) for x in t[3])))
            elif code == "d":
                raise Unsupported("struct.unpack of this layout")
            elif t[0] == "r" and all(x[0] in ("O", "LE") for x in t[3]):
                rd = e.tok_reader(t[3])
                sub = []
                while rd(None):
                    g = rd(n)
                    if g is None:
                        raise Unsupported("struct.unpack of this layout")
                    sub.append(("e", to_int(e, g, big, signed)))
                seq.append(("r", t[1], t[2], tuple(sub)))
            else:
                raise Unsupported("struct.unpack of this layout")
        return FList(seq)
    st = e.tok_reader(toks)
    for cnt, code in fields:
        for _ in range(1 if cnt is None else cnt):
            if code in FIELDS:
                n, signed = FIELDS[code]
                t = st(n)
                if t is None:
                    raise_(struct.error, "unpack requires a buffer of more bytes")
                out.append(to_int(e, t, big, signed))
            elif code == "d":
                t = st(8)
                if t is None:
                    raise_(struct.error, "unpack requires a buffer of more bytes")
                if len(t) == 1 and t[0][0] == "D" and not big:
                    out.append(t[0][1])
                else:
                    raise Unsupported("double from other bytes")
            else:
                raise Unsupported(f"struct code {code}")
    if st(None):
        raise_(struct.error, "unpack requires a buffer of fewer bytes")
    return tuple(out)


def int_to_bytes(e, x, length=1, byteorder="big", signed=False):
    x = e.force(x)
    if isinstance(x, enum.IntEnum):
        x = int(x)
    x = e.num(x)
    length = e.force(length)
    if is_sym(length):
        raise Unsupported("to_bytes with a symbolic length")
    e.require(in_field(x, length, signed), OverflowError, "int too big to convert")
    return mkbytes(int_toks(x, length, signed, byteorder == "big"))


# ------------------------------------------------------------------ functions
def has(f):
    return f in TABLE or (isinstance(f, type) and f.__module__ in ("builtins", "io",
                                                                  "collections"))


def nf_len(e, x):
    return e.length(x)


def nf_range(e, *a):
    a = [e.force(x) for x in a]
    if not any(is_sym(x) for x in a):
        try:
            return range(*a)
        except TypeError as ex:
            raise_(TypeError, str(ex))
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if is_sym(step) and e.valid(step > 0) and e.valid(zi(hi) >= zi(lo)):
        iv = z3.Const(REG.fresh_name("i"), I)
        n = CEIL(simp(zi(hi) - zi(lo)), step)
        return FList((("r", n, iv, (("e", simp(zi(lo) + iv * step)),)),))
    if is_sym(step) or step == 0:
        raise Unsupported("range with this step")
    if step == 1:
        n = simp(z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), 0))
        if is_sym(n) and e.valid(zi(hi) >= zi(lo)):
            n = simp(zi(hi) - zi(lo))
    elif step > 0:
        n = simp(z3.If(zi(hi) > zi(lo), (zi(hi) - zi(lo) + (step - 1)) / z3.IntVal(step), 0))
    else:
        n = simp(z3.If(zi(lo) > zi(hi), (zi(lo) - zi(hi) + (-step - 1)) / z3.IntVal(-step), 0))
    iv = z3.Const(REG.fresh_name("i"), I)
    return FList((("r", n, iv, (("e", simp(zi(lo) + iv * step)),)),))


def nf_enumerate(e, x, start=0):
    seq = e.seq_of(x)
    out, off = [], start
    for it in seq:
        if it[0] == "e":
            out.append(("e", (off, it[1])))
            off = simp(zi(off) + 1) if is_sym(off) else off + 1
        elif it[0] == "r" and len(it[3]) == 1 and it[3][0][0] == "e":
            out.append(("r", it[1], it[2],
                        (("e", (simp(zi(off) + it[2]), it[3][0][1])),)))
            off = simp(zi(off) + zi(it[1]))
        elif it[0] == "c":
            # positions depend on the alternative taken
            i = e.choose([c for c, _ in it[1]])
            rest = tuple(it[1][i][1]) + tuple(seq[seq.index(it) + 1:])
            sub = nf_enumerate(e, FList(rest), off)
            return FList(tuple(out) + e.seq_of(sub))
        elif it[0] == "r" and all(s[0] == "e" for s in it[3]):
            m = len(it[3])
            out.append(("r", it[1], it[2], tuple(
                ("e", (simp(zi(off) + it[2] * m + j), s[1])) for j, s in enumerate(it[3]))))
            off = simp(zi(off) + zi(it[1]) * m)
        else:
            raise Unsupported("enumerate of this sequence")
    return FList(out)


def nf_zip(e, *its, strict=False):
    if len(its) == 2 and isinstance(its[0], Ref) and its[0] == its[1] and isinstance(
            e.get(its[0]), HCell):
        # pairs of consecutive elements of one iterator
        c = e.get(its[0])
        seq = c.seq
        c.seq = ()
        out = []
        flat = list(seq)
        j = 0
        while j < len(flat):
            x = flat[j]
            if x[0] == "e":
                if j + 1 >= len(flat):
                    if strict:
                        raise_(ValueError, "zip() argument 2 is shorter than argument 1")
                    break
                y = flat[j + 1]
                if y[0] != "e":
                    raise Unsupported("zip of an iterator with itself")
                out.append(("e", (x[1], y[1])))
                j += 2
            elif x[0] == "r" and len(x[3]) % 2 == 0 and all(s[0] == "e" for s in x[3]):
                out.append(("r", x[1], x[2], tuple(
                    ("e", (x[3][q][1], x[3][q + 1][1])) for q in range(0, len(x[3]), 2))))
                j += 1
            else:
                raise Unsupported("zip of an iterator with itself")
        return FList(out)
    seqs = [e.seq_of(x) for x in its]
    if all(all(x[0] == "e" for x in s) for s in seqs):
        if strict and len({len(s) for s in seqs}) > 1:
            # elements up to the shorter one are produced first
            raise_(ValueError, "zip() argument lengths differ")
        return FList(tuple(("e", t) for t in zip(*[[x[1] for x in s] for s in seqs])))
    if all(len(s) == 1 and s[0][0] == "r" and len(s[0][3]) == 1 and s[0][3][0][0] == "e"
           for s in seqs):
        n = seqs[0][0][1]
        if all(e.valid(zi(n) == zi(s[0][1])) for s in seqs[1:]):
            iv = z3.Const(REG.fresh_name("i"), I)
            return FList((("r", n, iv, (("e", tuple(
                vsubst(s[0][3][0][1], [(s[0][2], iv)]) for s in seqs)),)),))
    raise Unsupported("zip of sequences of unknown length")


def nf_iter(e, x):
    x = e.force(x)
    if isinstance(x, Ref) and isinstance(e.get(x), HCell):
        return x
    return e.alloc(HCell(e.seq_of(x)))


def nf_next(e, it, *default):
    it = e.force(it)
    if isinstance(it, Ref) and isinstance(e.get(it), HCell):
        c = e.get(it)
        if not c.seq:
            if default:
                return default[0]
            raise_(StopIteration)
        if c.seq[0][0] == "e":
            v = c.seq[0][1]
            c.seq = c.seq[1:]
            return v
    raise Unsupported("next")


def minmax(which):
    def f(e, *a, **kw):
        if set(kw) - {"default"}:
            raise Unsupported("min/max with key")
        vals = list(a) if len(a) > 1 else e.elems(a[0])
        vals = [e.force(v) for v in vals]
        if not vals:
            if "default" in kw and len(a) == 1:
                return kw["default"]
            raise_(ValueError, "empty")
        if concrete(vals):
            return which(vals)
        if not all(is_num(v) for v in vals):
            raise Unsupported("min/max")
        r = e.num(vals[0])
        for v in vals[1:]:
            v = e.num(v)
            c = zi(v) < zi(r) if which is min else zi(v) > zi(r)
            r = simp(z3.If(c, zi(v), zi(r)))
        return r

    return f


def nf_abs(e, x):
    x = e.force(x)
    if is_num(x):
        if not is_sym(x):
            return abs(x)
        x = e.num(x)
        return simp(z3.If(x < 0, -x, x))
    if isinstance(x, float):
        return abs(x)
    raise Unsupported("abs")


def nf_round(e, x, nd=None):
    x = e.force(x)
    if nd is not None:
        if isinstance(x, SFl) and z3.is_real(x.t) and isinstance(nd, int) and 0 <= nd < 20:
            # the nearest multiple of 10**-nd, as a real number
            e.assumptions.add("round(x, n) is a multiple of 10**-n at most half a unit away")
            f = z3.Function(f"round_{nd}", z3.RealSort(), z3.IntSort())

            def ax(a):
                d = a.arg(0) * 10**nd - z3.ToReal(a)
                return [d <= z3.Q(1, 2), d >= -z3.Q(1, 2)]

            REG.on(f"round_{nd}", ax)
            k = f(x.t)
            return SFl(z3.ToReal(k) / 10**nd)
        if _symbolic(x) or _symbolic(nd):
            raise Unsupported("round with digits")
        return host(e, round, (x, nd), {})
    if is_num(x):
        return e.num(x)
    if isinstance(x, float):
        return host(e, round, (x,), {})
    if isinstance(x, SFl):
        return simp(RND(x.t))
    raise Unsupported("round")


def nf_int(e, x=0, *a, **kw):
    x = e.force(x)
    if isinstance(x, enum.IntEnum):
        return int(x)
    if is_num(x) and not a and not kw:
        return e.num(x) if is_sym(x) else int(x)
    if isinstance(x, SFl) and z3.is_real(x.t) and not a and not kw:
        return simp(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, SFl):
        if x.t.decl().name() == "float_of_int":
            k = x.t.arg(0)
            if e.valid(z3.And(k >= -(2**53), k <= 2**53)):
                return k
        return simp(TRUNC(x.t))
    if not _symbolic(x):
        return host(e, int, (x,) + tuple(a), kw)

    if isinstance(x, FmtStr) and len(x.parts) == 1 and isinstance(x.parts[0], tuple) and \
            x.parts[0][0] == "v" and is_int(x.parts[0][1]) and not x.parts[0][3] and not a:
        return x.parts[0][1]
    if isinstance(x, FmtStr) and (list(a) or list(kw.values())) == [16] and not (a and kw) and all(
            isinstance(p, tuple) and p[0] == "v" and is_int(p[1]) and p[2:] in ((-1, "02x"), (-1, "02X"))
            and e.valid(z3.And(zi(p[1]) >= 0, zi(p[1]) < 256)) for p in x.parts):
        n = z3.IntVal(0)
        for p in x.parts:
            n = 256 * n + zi(p[1])
        return simp(n)
    raise Unsupported("int of a text")


def nf_float(e, x=0.0):
    x = e.force(x)
    if is_flt(x):
        return x
    if is_num(x):
        return SFl(FIX(zi(e.num(x)))) if is_sym(x) else host(e, float, (x,), {})
    if not _symbolic(x):
        return host(e, float, (x,), {})
    raise Unsupported("float of a text")


def nf_str(e, x=""):
    x = e.force(x)
    if is_text(x):
        return x
    if not _symbolic(x):
        return host(e, str, (x,), {})
    if is_int(x):
        return e.fmt((("v", x, -1, ""),))
    if isinstance(x, Ref) and isinstance(e.get(x), HInst):
        f = inspect.getattr_static(e.get(x).cls, "__str__", None)
        if isinstance(f, types.FunctionType):
            return e.call(f, [x])
    raise Unsupported("str")


def nf_bool(e, x=False):
    return e.truth(x)


def pytypes(e, v):
    """host class of a value"""
    if isinstance(v, (bool, z3.BoolRef)):
        return bool
    if is_int(v):
        return int if not isinstance(v, enum.Enum) else type(v)
    if is_text(v):
        return str
    if is_flt(v):
        return float
    if isinstance(v, (bytes, FBytes)):
        return bytes
    if isinstance(v, FList):
        return list
    if isinstance(v, FDict):
        return dict
    if isinstance(v, FObj):
        return v.cls
    if isinstance(v, Ref):
        p = e.get(v)
        return {HList: list, HDict: dict, HSet: set, HStream: io.BytesIO}.get(
            type(p), getattr(p, "cls", None)) or object
    if isinstance(v, PyExc):
        return v.type
    return type(v)


def nf_isinstance(e, v, cls):
    if isinstance(v, (Alt, Mrg)):
        opts = e.options(v)
        r = [z3.And(zb(c), zb(nf_isinstance(e, x, cls))) for c, x in opts]
        return simp(z3.Or(r))
    v = e.force(v)
    cls = cls if isinstance(cls, tuple) else (cls,)
    return any(issubclass(pytypes(e, v), c) for c in cls)


def nf_type(e, v):
    return pytypes(e, e.force(v))


def nf_hasattr(e, o, name):
    from .engine import Raise

    try:
        e.getattr(o, name)
        return True
    except Raise as r:
        if r.exc.type is AttributeError:
            return False
        raise


def nf_getattr(e, o, name, *default):
    from .engine import Raise

    name = e.force(name)
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return e.getattr(o, name)
    except Raise as r:
        if r.exc.type is AttributeError and default:
            return default[0]
        raise


def nf_setattr(e, o, name, v):
    e.setattr(o, e.force(name), v)


def nf_list(e, x=()):
    if texts.is_set(x):
        return x  # only whether it is empty is known
    s = e.seq_of(e.force(x)) if not isinstance(x, tuple) else tuple(("e", y) for y in x)
    return e.alloc(HList(s))


def nf_tuple(e, x=()):
    x = e.force(x)
    if isinstance(x, tuple):
        return x
    s = e.seq_of(x)
    if all(i[0] == "e" for i in s):
        return tuple(i[1] for i in s)
    if sum(i[0] == "c" for i in s) > 2:
        return FList(s)
    try:
        return tuple(e.elems(FList(s)))
    except Unsupported:
        return FList(s)  # a tuple of unknown length behaves like an immutable list


def nf_dict(e, x=(), /, **kw):
    d = HDict(e.dict_entries(x) if not (isinstance(x, tuple) and not x) else ())
    r = e.alloc(d)
    for k, v in kw.items():
        e.setitem(r, k, v)
    return r


def nf_set(e, x=()):
    r = e.alloc(HSet())
    if isinstance(x, tuple):
        seq = tuple(("e", y) for y in x)
    else:
        seq = e.seq_of(x)
    vals = []
    flat = []
    for it in seq:
        if it[0] == "e":
            flat.append(it)
            vals.append(it[1])
        elif it[0] == "c" and sorted(len(s) for _, s in it[1]) == [0, 1] and all(
                y[0] == "e" for _, s in it[1] for y in s):
            c, s = next((c, s) for c, s in it[1] if s)
            flat.append(("o", c, s[0][1]))
            vals.append(s[0][1])
        else:
            flat = None
            break
    if flat is None and texts.on(e):
        return texts.text_set(e, seq)
    if flat is not None and concrete(vals) and len(set(vals)) == len(vals):
        e.get(r).elts = tuple(flat)
        return r
    for it in e.elems(FList(seq)):
        set_add(e, r, it)
    return r


def nf_reversed(e, x):
    x = e.force(x)
    if isinstance(x, range):
        return FList(tuple(("e", y) for y in reversed(x)))
    s = e.seq_of(x)
    if len(s) == 1 and s[0][0] == "r":
        _, n, iv, sub = s[0]
        return FList((("r", n, iv, tuple(reversed(vsubst(sub, [(iv, simp(zi(n) - 1 - iv))])))),))
    if all(i[0] == "e" for i in s):
        return FList(tuple(reversed(s)))
    raise Unsupported("reversed")


def permuted(e, s, natural, reverse):
    """the elements of a sequence in some order, which is a function of the sequence"""
    from .engine import synt_eq

    _, n, iv, sub = s[0]
    j = z3.Const("place", I)
    s = (("r", n, j, vsubst(sub, [(iv, j)])),)
    for old, how, new in e.permutations:
        if how == (natural, reverse) and synt_eq(old, s):
            return e.alloc(HList(new))
    perm = z3.Function(REG.fresh_name("place in the order"), I, I)
    e.assumptions.add("sorted: the elements in an order that is a function of the sequence")
    i = z3.Const(REG.fresh_name("i"), I)
    new = (("r", n, i, vsubst(sub, [(iv, perm(i))])),)
    e.permutations.append((s, (natural, reverse), new))
    return e.alloc(HList(new))


def nf_sorted(e, x, key=None, reverse=False):
    x = e.force(x)
    if isinstance(x, Ref) and isinstance(e.get(x), HSet):
        el = e.get(x).elts
        if key is None and all(i[0] in ("e", "o") and concrete([i[-1]]) for i in el):
            seq = []
            for i in sorted(el, key=lambda i: i[-1], reverse=reverse):
                seq.append(i if i[0] == "e" else
                           ("c", ((i[1], (("e", i[2]),)), (simp(z3.Not(zb(i[1]))), ()))))
            return e.alloc(HList(seq))
    s = e.seq_of(x)
    if len(s) == 1 and s[0][0] == "r" and all(i[0] == "e" for i in s[0][3]) and len(s[0][3]) == 1:
        return permuted(e, s, key is None, reverse)
    vals = e.elems(x)
    if concrete(vals) and key is None:
        return wrap(e, sorted(vals, reverse=reverse))
    if len(vals) <= 1:
        return e.alloc(HList(tuple(("e", v) for v in vals)))
    ks = [e.call(key, [v]) for v in vals] if key is not None else vals
    if concrete(ks):
        order = sorted(range(len(vals)), key=lambda i: ks[i], reverse=reverse)
        return e.alloc(HList(tuple(("e", vals[i]) for i in order)))
    keys = [tuple(k) if isinstance(k, tuple) else (k,) for k in ks]
    if len(vals) <= 4 and not reverse and len({len(k) for k in keys}) == 1 and all(
            is_int(x) for k in keys for x in k):
        def less(a, b):
            r = z3.BoolVal(False)
            for x, y in reversed(list(zip(a, b))):
                r = z3.Or(zi(x) < zi(y), z3.And(zi(x) == zi(y), r))
            return r

        out = []  # a stable insertion, following every order
        for v, k in zip(vals, keys):
            at = len(out)
            while at and e.branch(simp(less(k, out[at - 1][1]))):
                at -= 1
            out.insert(at, (v, k))
        return e.alloc(HList(tuple(("e", v) for v, _ in out)))
    raise Unsupported("sorted")


def nf_sum(e, x, start=0):
    s = e.seq_of(x)
    import ast

    tot = start
    for it in s:
        if it[0] == "e":
            tot = e.binop(ast.Add(), tot, it[1])
        elif it[0] == "c":
            opts = []
            for c, sub in it[1]:
                opts.append((c, nf_sum(e, FList(sub), 0)))
            if not all(is_num(v) for _, v in opts):
                raise Unsupported("sum")
            r = zi(e.num(opts[-1][1]))
            for c, v in reversed(opts[:-1]):
                r = z3.If(zb(c), zi(e.num(v)), r)
            tot = e.binop(ast.Add(), tot, simp(r))
        elif it[0] == "r" and len(it[3]) == 1 and it[3][0][0] == "e" and is_int(it[3][0][1]):
            k = z3.Const(REG.fresh_name("k"), I)
            f = e.prefix_sum(zi(vsubst(it[3][0][1], [(it[2], k)])), k)
            tot = e.binop(ast.Add(), tot, simp(z3.substitute(f, (k, zi(it[1])))))
        else:
            raise Unsupported("sum of this sequence")
    return tot


def quant(is_any):
    def f(e, x):
        s = e.seq_of(x)
        cs = []
        for it in s:
            if it[0] == "e":
                cs.append(zb(e.truth(it[1])))
            elif it[0] == "c":
                for c, sub in it[1]:
                    t = zb(f(e, FList(sub)))
                    cs.append(z3.And(zb(c), t) if is_any else z3.Implies(zb(c), t))
            elif it[0] == "r" and len(it[3]) == 1 and it[3][0][0] == "e":
                t = e.truth(it[3][0][1])
                if isinstance(t, bool):
                    if t != is_any:
                        continue
                    cs.append(zi(it[1]) > 0 if is_any else zi(it[1]) <= 0)
                else:
                    cs.append(quantified(e, is_any, it[1], it[2], t))
            else:
                raise Unsupported("any/all of this sequence")
        r = simp((z3.Or if is_any else z3.And)(cs)) if cs else (not is_any)
        return r

    return f


def quantified(e, is_any, n, iv, t):
    b = z3.And(iv >= 0, iv < zi(n))
    if is_any:
        return z3.Exists([iv], z3.And(b, t))
    return z3.ForAll([iv], z3.Implies(b, t))


def nf_bytesio(e, data=b""):
    data = e.force(data)
    t = e.toks(data)
    st = HStream((), t)
    r = e.alloc(st)
    e.total[r.id] = t
    return r


def nf_bytes(e, x=b"", *a):
    x = e.force(x)
    if isinstance(x, (bytes, FBytes)):
        return x
    if is_int(x):
        if not is_sym(x):
            return bytes(x)
        return FBytes((("r", simp(z3.If(x > 0, x, 0)), z3.Const(REG.fresh_name("i"), I),
                        (("O", 0),)),))
    s = e.seq_of(x)

    def conv(s):
        out = []
        for it in s:
            if it[0] == "e":
                v = e.num(e.force(it[1]))
                if not e.branch(in_field(v, 1, False)):
                    raise_(ValueError, "bytes must be in range(0, 256)")
                out.append(("O", v))
            elif it[0] == "c":
                out.append(("c", tuple((c, conv(y)) for c, y in it[1])))
            elif it[0] == "r":
                iv = it[2]
                e.pc.append(z3.And(iv >= 0, iv < zi(it[1])))
                try:
                    for y in it[3]:
                        if y[0] != "e" or not e.valid(in_field(e.num(y[1]), 1, False)):
                            raise Unsupported("bytes of a list")
                finally:
                    e.pc.pop()
                out.append(("r", it[1], iv, tuple(("O", y[1]) for y in it[3])))
            else:
                raise Unsupported("bytes of a list")
        return tuple(out)

    return mkbytes(conv(s))


def nf_print(e, *a, **k):
    return None


def math1(fn, term):
    def f(e, x):
        x = e.force(x)
        if not _symbolic(x):
            return host(e, fn, (x,), {})
        return SFl(term(flt_term(x)))

    return f


def nf_atan2(e, a, b):
    a, b = e.force(a), e.force(b)
    if not _symbolic(a) and not _symbolic(b):
        return host(e, math.atan2, (a, b), {})
    if is_num(a) and is_num(b):
        return SFl(FATAN2(zi(e.num(a)), zi(e.num(b))))
    raise Unsupported("atan2")


def nf_from_bytes(e, data, byteorder="big", signed=False):
    return to_int(e, e.toks(e.force(data)), byteorder == "big", signed)


def nf_fromhex(e, s):
    s = e.force(s)
    if isinstance(s, str):
        return host(e, bytes.fromhex, (s,), {})
    if isinstance(s, SStr):
        if z3.is_app(s.t) and s.t.decl().name() == "hexof":
            return FBytes((("X", s.t.arg(0)),))
        raise Unsupported("fromhex of any text")

    raise_(TypeError, "fromhex")


def nf_chr(e, x):
    x = e.force(x)
    if not is_sym(x):
        return host(e, chr, (x,), {})
    x = zi(e.num(x))
    e.require(z3.And(x >= 0, x < 0x110000), ValueError, "chr")
    return SStr(CHR(x))


def single(s):
    """code of a text of one character, or None"""
    if isinstance(s, SStr) and z3.is_app(s.t) and s.t.decl().name() == "chr":
        return s.t.arg(0)


def nf_ord(e, x):
    x = e.force(x)
    if not _symbolic(x):
        return host(e, ord, (x,), {})
    c = single(x)
    if c is None and isinstance(x, FBytes):
        toks = e.drop_empty(x.toks)
        if len(toks) == 1 and toks[0][0] == "O":
            return toks[0][1]
    if c is None:
        raise Unsupported("ord")
    return c


MAC_NAMES = ("macroman", "mac_roman", "mac-roman", "macintosh")


def nf_repr(e, x):
    return e.fmt((("v", x, 114, ""),))


def nf_divmod(e, a, b):
    import ast

    return (e.binop(ast.FloorDiv(), a, b), e.binop(ast.Mod(), a, b))


def nf_defaultdict(e, *a):
    raise Unsupported("defaultdict")


def nf_cast(e, t, v):
    return v


def nf_map(e, f, x):
    out = e.alloc(HList())

    def elem(v):
        r = e.call(f, [v])
        e.get(out).seq += (("e", r),)

    from .engine import Frame

    e.for_each(x, elem, Frame("map", {}))
    return out


TABLE = {
    len: nf_len, range: nf_range, enumerate: nf_enumerate, zip: nf_zip, iter: nf_iter,
    next: nf_next, min: minmax(min), max: minmax(max), abs: nf_abs, round: nf_round,
    int: nf_int, float: nf_float, str: nf_str, bool: nf_bool, isinstance: nf_isinstance,
    type: nf_type, hasattr: nf_hasattr, getattr: nf_getattr, setattr: nf_setattr,
    list: nf_list, tuple: nf_tuple, dict: nf_dict, set: nf_set, frozenset: nf_set,
    reversed: nf_reversed, sorted: nf_sorted, sum: nf_sum, any: quant(True),
    all: quant(False), io.BytesIO: nf_bytesio, bytes: nf_bytes, print: nf_print,
    struct.pack: lambda e, f, *a: struct_pack(e, e.force(f), a),
    struct.unpack: lambda e, f, d: struct_unpack(e, e.force(f), e.force(d)),
    math.tan: math1(math.tan, FTAN), math.radians: math1(math.radians, FRAD),
    math.degrees: math1(math.degrees, FDEG), math.atan2: nf_atan2, chr: nf_chr, ord: nf_ord, repr: nf_repr,
    divmod: nf_divmod, typing.cast: nf_cast, map: nf_map, warnings.warn: nf_print,
}


def call(e, f, args, kwargs):
    h = TABLE.get(f) if _hash(f) else None
    if h is not None:
        return h(e, *args, **kwargs)
    # bound built-in methods of classes
    nm = getattr(f, "__name__", "")
    slf = getattr(f, "__self__", None)
    if slf is int and nm == "from_bytes":
        return nf_from_bytes(e, *args, **kwargs)
    if slf is bytes and nm == "fromhex":
        return nf_fromhex(e, *args)
    if nm == "hex" and getattr(f, "__objclass__", None) is bytes:
        return call_method(e, args[0], "hex", [], {})
    if concrete(list(args) + list(kwargs.values())):
        return host(e, f, args, kwargs)
    oc = getattr(f, "__objclass__", None)
    if oc is not None and args:
        return call_method(e, args[0], nm, list(args[1:]), kwargs)
    if slf is not None and not isinstance(slf, type(builtins)):
        if isinstance(slf, (str, bytes, dict, list, tuple, set, int, float, frozenset)):
            return call_method(e, slf, nm, args, kwargs)
    if any(isinstance(x, (Alt, Mrg)) for x in [*args, *kwargs.values()]):
        return call(e, f, [e.force(x) for x in args], {k: e.force(x) for k, x in kwargs.items()})
    raise Unsupported(f"call of {getattr(f, '__qualname__', f)}")


def _hash(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def nf_chain(e, parts):
    """itertools.chain.from_iterable; the result is only read from its start to its end"""
    def flat(seq):
        out = ()
        for x in seq:
            if x[0] == "e":
                out += tuple(e.seq_of(x[1]))
            elif x[0] == "r":
                out += (("r", x[1], x[2], flat(x[3])),)
            elif x[0] == "c":
                out += (("c", tuple((c, flat(s)) for c, s in x[1])),)
            else:
                raise Unsupported("chain")
        return out

    return FList(flat(e.seq_of(parts)))


TABLE[itertools.chain.from_iterable] = nf_chain


def nf_deepcopy(e, x, memo=None):
    """copy.deepcopy of lists, dicts, tuples and immutable values"""
    if memo is not None:
        raise Unsupported("deepcopy with a memo")
    seen = {}

    def frozen(x):
        """no mutable object is part of the value"""
        if isinstance(x, (Ref, Mrg, Alt)):
            return False
        if isinstance(x, (FDict, FList)):
            return all(frozen_item(i) for i in (x.ents if isinstance(x, FDict) else x.seq))
        if isinstance(x, tuple):
            return all(map(frozen, x))
        if isinstance(x, FObj):
            return x.cls.__name__ == "Datum"  # a value about which nothing is known
        return z3.is_expr(x) or isinstance(x, (SStr, SFl, FBytes, FmtStr, str, bytes, int, float, type(None)))

    def frozen_item(i):
        return isinstance(i, tuple) and all(frozen(y) if not isinstance(y, tuple) else frozen_item(y) for y in i)

    def items(seq):
        out = []
        for i in seq:
            if i[0] == "e":
                out.append(("e", *map(copied, i[1:])))
            elif i[0] == "o":
                out.append(("o", i[1], *map(copied, i[2:])))
            elif frozen_item(i):
                out.append(i)
            else:
                raise Unsupported("deepcopy of a list of objects")
        return tuple(out)

    def copied(x):
        x = e.force(x)
        if isinstance(x, tuple):
            return tuple(map(copied, x))
        if isinstance(x, FDict):
            return e.alloc(HDict(items(x.ents)))
        if isinstance(x, FList):
            return e.alloc(HList(items(x.seq)))
        if isinstance(x, Ref):
            if x.id not in seen:
                p = e.get(x)
                if isinstance(p, HDict) and not p.ro:
                    seen[x.id] = e.alloc(HDict(items(p.ents)))
                elif isinstance(p, HList):
                    seen[x.id] = e.alloc(HList(items(p.seq)))
                else:
                    raise Unsupported("deepcopy of an object")
            return seen[x.id]
        if frozen(x):
            return x
        raise Unsupported("deepcopy")

    return copied(x)


TABLE[copy.deepcopy] = nf_deepcopy


# ------------------------------------------------------------------ methods
def call_method(e, recv, name, args, kwargs):
    recv = e.force(recv)
    if isinstance(recv, Ref):
        p = e.get(recv)
        if isinstance(p, HStream):
            return stream_method(e, recv, p, name, args, kwargs)
        if isinstance(p, HList):
            return list_method(e, recv, p, name, args, kwargs)
        if isinstance(p, HDict):
            return dict_method(e, recv, p, name, args, kwargs)
        if isinstance(p, HSet):
            return set_method(e, recv, p, name, args, kwargs)
        raise Unsupported(f"method {name}")
    if isinstance(recv, FDict) or isinstance(recv, dict):
        return fdict_method(e, recv, name, args, kwargs)
    if isinstance(recv, (FList, list)) or isinstance(recv, tuple):
        if not _symbolic(recv) and concrete(args) and not isinstance(recv, FList):
            if name in ("index", "count", "copy"):
                return host(e, getattr(recv, name), args, kwargs)
        if name == "index":
            return seq_index(e, e.seq_of(recv), args[0])
        if name == "copy":
            return e.alloc(HList(e.seq_of(recv)))
        if name == "count":
            return seq_count(e, recv, args[0])
        e.frozen(recv, f" ({name})")
    if is_text(recv):
        return str_method(e, recv, name, args, kwargs)
    if isinstance(recv, (bytes, FBytes)):
        return bytes_method(e, recv, name, args, kwargs)
    if is_num(recv):
        if name == "to_bytes":
            return int_to_bytes(e, recv, *args, **kwargs)
        if not is_sym(recv) and concrete(args):
            return host(e, getattr(recv, name), args, kwargs)
        raise Unsupported(f"int.{name}")
    if isinstance(recv, float) and concrete(args):
        return host(e, getattr(recv, name), args, kwargs)
    if isinstance(recv, SFl) and name == "is_integer":
        if z3.is_real(recv.t):
            return simp(z3.IsInt(recv.t))
        raise Unsupported("is_integer")
    if concrete(args) and not _symbolic(recv):
        return host(e, getattr(recv, name), args, kwargs)
    raise Unsupported(f"method {name} of {type(recv).__name__}")


def seq_count(e, recv, x):
    """list.count: a sum over the elements"""
    n = 0
    for y in e.elems(recv):
        c = e.truth(e.eq(y, x))
        n = n + int(c) if isinstance(c, bool) else zi(n) + z3.If(c, z3.IntVal(1), z3.IntVal(0))
    return simp(n) if z3.is_expr(n) else n


def stream_method(e, ref, p, name, args, kwargs):
    if name == "write":
        data = e.force(args[0])
        if not isinstance(data, (bytes, FBytes)):
            raise_(TypeError, "a bytes-like object is required")
        p.data = p.data + e.toks(data)
        return e.toks_size(e.toks(data))
    if name == "getvalue":
        if ref.id in e.total and e.total[ref.id]:
            if p.data:
                raise Unsupported("stream that is read and written")
            return mkbytes(e.total[ref.id])
        return mkbytes(p.data)
    if name == "getbuffer":
        return e.alloc(HInst(_Buffer, {"nbytes": e.toks_size(e.total.get(ref.id) or p.data)}))
    if name == "read":
        if p.data and not e.total.get(ref.id):
            raise Unsupported("stream that is read and written")
        n = e.force(args[0]) if args else None
        if n is None or (not is_sym(n) and n == -1):
            return mkbytes(e.read_all(ref.id))
        return mkbytes(e.read_n(ref.id, n))
    if name == "close":
        return None
    if name == "seek" and len(args) == 1:
        off = e.force(args[0])
        if not e.total.get(ref.id) or not is_num(off):
            raise Unsupported("stream.seek")
        e.require(zb(simp(zi(off) >= 0)), ValueError, "negative seek value")
        p.rest = tuple(e.total[ref.id])
        e.read_n(ref.id, off)
        return off
    raise Unsupported(f"stream.{name}")


class _Buffer:
    pass


def seq_index(e, seq, x):
    x = e.force(x)
    if len(seq) == 1 and seq[0][0] == "r" and len(seq[0][3]) == 1 and seq[0][3][0][0] == "e" \
            and isinstance(seq[0][3][0][1], SStr) and is_text(x):
        # the position of the first element that equals x, if there is one
        _, n, iv, ((_, el),) = seq[0]
        t = text_term(x)
        if index_consts(el.t, skip=(iv.decl().name(),)) or index_consts(zi(n)):
            raise Unsupported("index of, in a loop")
        nm = f"{el.t} {iv} {n}"
        pos = z3.Function(f"index in {nm}", Str, z3.IntSort())
        found = z3.Function(f"found in {nm}", Str, z3.BoolSort())
        if f"index in {nm}" not in REG.ax:
            at = lambda j: z3.substitute(el.t, (iv, j))
            REG.on(f"index in {nm}", lambda a: [z3.Implies(found(a.arg(0)), z3.And(
                a >= 0, a < zi(n), at(a) == a.arg(0)))])
            if z3.is_app(el.t) and el.t.num_args() == 1 and el.t.arg(0).eq(iv):
                f, old = el.t.decl().name(), REG.ax.get(el.t.decl().name(), lambda a: [])
                REG.on(f, lambda a: old(a) + [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < zi(n)), found(a))])
        if not e.branch(found(t)):
            raise_(ValueError, "not in list")
        i = pos(t)
        return i
    for j, it in enumerate(seq):
        if it[0] != "e":
            raise Unsupported("index of")
        if e.branch(e.eq(it[1], x)):
            return j
    raise_(ValueError, "not in list")


def list_method(e, ref, p, name, args, kwargs):
    if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear") \
            and p.ro:
        raise Unsupported("input data is changed")
    if name == "append":
        p.seq = p.seq + (("e", args[0]),)
        return None
    if name == "extend":
        e.list_extend(ref, args[0])
        return None
    if name == "copy":
        return e.alloc(HList(p.seq))
    if name == "clear":
        p.seq = ()
        return None
    if name == "index":
        return seq_index(e, p.seq, args[0])
    if name == "count":
        return seq_count(e, ref, args[0])
    if all(x[0] == "e" for x in p.seq):
        l = [x[1] for x in p.seq]
        if name == "insert":
            i = e.force(args[0])
            if is_sym(i):
                raise Unsupported("insert at a symbolic index")
            l.insert(i, args[1])
            p.seq = tuple(("e", x) for x in l)
            return None
        if name == "pop":
            i = e.force(args[0]) if args else -1
            if is_sym(i):
                raise Unsupported("pop at a symbolic index")
            try:
                v = l.pop(i)
            except IndexError:
                raise_(IndexError)
            p.seq = tuple(("e", x) for x in l)
            return v
        if name == "reverse":
            p.seq = tuple(reversed(p.seq))
            return None
        if name == "remove":
            j = seq_index(e, p.seq, args[0])
            p.seq = p.seq[:j] + p.seq[j + 1:]
            return None
        if name == "sort":
            r = nf_sorted(e, FList(p.seq), **kwargs)
            e.get(ref).seq = e.get(r).seq
            return None
    if name == "insert" and not is_sym(args[0]) and args[0] == 0:
        p.seq = (("e", args[1]),) + p.seq
        return None
    if name == "pop" and len(args) == 1 and not is_sym(args[0]) and args[0] == 0 and p.seq and p.seq[0][0] == "e":
        v = p.seq[0][1]
        p.seq = p.seq[1:]
        return v
    if name == "pop" and not args and p.seq and p.seq[-1][0] == "e":
        v = p.seq[-1][1]
        p.seq = p.seq[:-1]
        return v
    if name == "pop" and not args and p.seq and p.seq[-1][0] == "r" and len(
            p.seq[-1][3]) == 1 and p.seq[-1][3][0][0] == "e" and e.valid(zi(p.seq[-1][1]) > 0):
        _, n, iv, sub = p.seq[-1]
        left = simp(zi(n) - 1)
        p.seq = p.seq[:-1] + (("r", left, iv, sub),)
        return vsubst(sub, [(iv, left)])[0][1]
    if name == "reverse":
        r = nf_reversed(e, FList(p.seq))
        p.seq = r.seq
        return None
    raise Unsupported(f"list.{name}")


def fdict_method(e, d, name, args, kwargs):
    if isinstance(d, dict):
        if name == "get" and _symbolic(args[0]):
            dflt = args[1] if len(args) > 1 else None
            from .engine import mrg

            k = e.force(args[0])
            keys = list(d)
            conds = [e.eq(k, x) for x in keys]
            hit = [(c, d[x]) for c, x in zip(conds, keys) if c is not False]
            if not hit:
                return dflt
            none = simp(z3.Not(z3.Or([zb(c) for c, _ in hit])))
            return mrg(hit + [(none, dflt)])
        if concrete(args):
            if name in ("items", "keys", "values", "get", "copy"):
                return getattr(d, name)(*args)
        if name == "update" or name == "pop":
            raise Unsupported("input data is changed")
    ents = d.ents if isinstance(d, FDict) else e.dict_entries(d)
    if name == "get":
        return e.dict_get(ents, e.force(args[0]), default=args[1] if len(args) > 1 else None)
    if name in ("items", "values", "keys") and isinstance(d, FDict):
        e.check_log(d)
    if name == "items":
        return FList(e.map_ents(ents, lambda k, v: (k, v)))
    if name == "values":
        return FList(e.map_ents(ents, lambda k, v: v))
    if name == "keys":
        return FList(e.keys_seq(ents))
    if name == "copy":
        return e.alloc(HDict(ents))
    e.frozen(d, f" (dict.{name})")


def dict_method(e, ref, p, name, args, kwargs):
    if name in ("items", "values", "keys"):
        e.distinct_keys(p.ents)
        return fdict_method(e, FDict(p.ents), name, args, kwargs)
    if name in ("get", "copy"):
        return fdict_method(e, FDict(p.ents), name, args, kwargs)
    if p.ro:
        raise Unsupported("input data is changed")
    if name == "setdefault":
        k = e.force(args[0])
        v = e.dict_find(tuple(p.ents), k)
        if v is not e._MISSING:
            return v
        v = args[1] if len(args) > 1 else None
        e.setitem(ref, k, v)
        return v
    if name == "update":
        for ent in (e.dict_entries(args[0]) if args else ()):
            if ent[0] == "e":
                e.setitem(ref, ent[1], ent[2])
            else:
                e.get(ref).ents += (ent,)
        for k, v in kwargs.items():
            e.setitem(ref, k, v)
        return None
    if name == "pop":
        k = e.force(args[0])
        v = e.dict_find(tuple(p.ents), k)
        if v is e._MISSING:
            if len(args) > 1:
                return args[1]
            raise_(KeyError, k)
        e.delitem(ref, k)
        return v
    if name == "clear":
        p.ents = ()
        return None
    raise Unsupported(f"dict.{name}")


def set_add(e, ref, v):
    p = e.get(ref)
    v = e.force(v)
    cs = []
    for x in p.elts:
        if x[0] == "e":
            c = e.eq(x[1], v)
        elif x[0] == "o":
            c = simp(z3.And(zb(x[1]), zb(e.eq(x[2], v))))
        else:
            raise Unsupported("set of unknown size")
        if c is True:
            return
        if c is not False:
            cs.append(zb(c))
    if cs:
        if e.branch(simp(z3.Or(cs))):
            return
    p = e.get(ref)
    p.elts = p.elts + (("e", v),)


def set_op(e, o, a, b):
    raise Unsupported("set operation")


def set_method(e, ref, p, name, args, kwargs):
    if name == "add":
        set_add(e, ref, args[0])
        return None
    if name == "update":
        for a in args:
            for x in e.elems(a):
                set_add(e, ref, x)
        return None
    if name in ("discard", "remove"):
        out = []
        v = e.force(args[0])
        there = []
        for x in p.elts:
            if x[0] not in ("e", "o"):
                raise Unsupported("set of unknown size")
            cond, val = (True, x[1]) if x[0] == "e" else (x[1], x[2])
            c = e.eq(val, v)
            there.append(z3.And(zb(cond), zb(c)))
            keep = simp(z3.And(zb(cond), z3.Not(zb(c))))
            if keep is True:
                out.append(("e", val))
            elif keep is not False:
                out.append(("o", keep, val))
        if name == "remove" and not e.branch(simp(z3.Or(there)) if there else False):
            raise_(KeyError, v)
        e.get(ref).elts = tuple(out)
        return None
    if name == "copy":
        return e.alloc(HSet(p.elts))
    raise Unsupported(f"set.{name}")


def str_method(e, s, name, args, kwargs):

    args = [e.force(a) for a in args]
    if isinstance(s, str) and concrete(args) and concrete(list(kwargs.values())):
        if name == "join" and args:
            pass
        else:
            return host(e, getattr(s, name), args, kwargs)
    if name == "join":
        vals = e.elems(args[0])
        if concrete(vals) and isinstance(s, str):
            return host(e, s.join, (vals,), {})
        parts = []
        for j, v in enumerate(vals):
            if j and s != "":
                parts.append(s)
            v = e.force(v)
            if isinstance(v, FmtStr):
                parts.extend(v.parts)
            elif is_text(v):
                parts.append(v)
            else:
                raise_(TypeError, "join")
        out = ""
        for q in parts:
            out = e.concat(out, q if isinstance(q, (str, SStr)) else FmtStr((q,)))
        return out
    if name == "encode":
        enc = args[0] if args else kwargs.get("encoding", "utf-8")
        c = single(s)
        if c is not None and enc in MAC_NAMES and z3.is_app(c) and c.decl().name() == "mac_roman":
            return mkbytes((("O", c.arg(0)),))
        if c is not None:
            raise Unsupported("encoding of a character")
        if isinstance(s, SStr) and isinstance(enc, str):
            return FBytes((("S", s.t, enc_id(enc)),))
        if isinstance(s, str) and isinstance(enc, str):
            return host(e, s.encode, args, kwargs)
    if name == "strip" and args == ["\0"]:
        # texts of the domains contain no null characters
        if isinstance(s, SStr):
            e.assumptions.add("texts of the domain contain no null characters")
            return s
        if isinstance(s, FmtStr) and len(s.parts) == 2 and isinstance(s.parts[0], SStr) and \
                isinstance(s.parts[1], tuple) and s.parts[1][0] == "pad":
            e.assumptions.add("texts of the domain contain no null characters")
            return s.parts[0]
    if texts.on(e):
        r = texts.method(e, s, name, args, kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"str.{name}")


def bytes_method(e, b, name, args, kwargs):
    args = [e.force(a) for a in args]
    if isinstance(b, bytes) and concrete(args):
        return host(e, getattr(b, name), args, kwargs)
    toks = e.toks(b)
    if name == "decode":
        enc = args[0] if args else kwargs.get("encoding", "utf-8")
        toks = e.drop_empty(toks)
        if not toks:
            return ""
        if enc in MAC_NAMES and len(toks) == 1 and toks[0][0] == "O" and is_sym(toks[0][1]):
            e.assumptions.add("mac_roman: one character for each byte, and back")
            return SStr(CHR(MACROMAN(toks[0][1])))
        if len(toks) == 1 and toks[0][0] == "S" and toks[0][2] == enc_id(enc):
            return SStr(toks[0][1])
        if all(t[0] == "O" and not is_sym(t[1]) for t in toks):
            return host(e, bytes(t[1] for t in toks).decode, args, kwargs)
        if toks[0][0] == "S" and toks[0][2] == enc_id(enc) and all(
                _is_pad(t) for t in toks[1:]):
            return FmtStr((SStr(toks[0][1]), ("pad", toks[1:])))
        raise Unsupported("decode of other bytes")
    if name == "hex":
        toks = e.drop_empty(toks)
        if not toks:
            return ""
        if len(toks) == 1 and toks[0][0] == "X":
            return SStr(HEXOF(toks[0][1]))
        raise Unsupported("hex of other bytes")
    if name in ("rstrip", "strip") and args == [b"\0"] and toks and toks[0][0] == "S" and all(
            _is_pad(t) for t in toks[1:]):
        e.assumptions.add("texts contain no null characters at their ends")
        return FBytes(toks[:1])
    raise Unsupported(f"bytes.{name}")


def _is_pad(t):
    return t == ("O", 0) or (t[0] == "r" and all(_is_pad(x) for x in t[3])) or (
        t[0] == "c" and all(all(_is_pad(x) for x in s) for _, s in t[1]))
