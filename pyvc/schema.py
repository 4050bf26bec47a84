"""Input domains of contracts (their preconditions).

Every domain can produce the symbolic value that stands for *all* of its members
(skolem functions of the enclosing list indices) and random concrete members, biased
to the boundaries, for the concrete contract runs.
"""
import struct
import z3
from .terms import REG, I, B, Str, Flt, Byt, FDIV, EMPTY, enclen, enc_id, zi
from .values import SStr, SFl, FList, FDict, Alt

MAXLEN = 2**31 - 1
HEXOF = z3.Function("hexof", Byt, Str)


def _app(name, sort, idx):
    sorts = [I] * len(idx) + [sort]
    if idx:
        return z3.Function(name, *sorts)(*[zi(i) for i in idx])
    return z3.Const(name, sort)


class Schema:
    def gen(self, rng, sz=3):
        raise NotImplementedError

    def sym(self, path, idx=()):
        raise NotImplementedError


class Const(Schema):
    def __init__(self, v):
        self.v = v

    def gen(self, rng, sz=3):
        return self.v

    def sym(self, path, idx=()):
        from .values import freeze_const

        return freeze_const(self.v)


BOUND = [0, 1, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 255, 256, 127, 128,
         -128, -129, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31,
         -(2**31), 2**32 - 1, 2, 3, 7, 10, 100, 1000, 10000]


class Int(Schema):
    def __init__(self, lo, hi, bias=()):
        self.lo, self.hi = lo, hi
        self.edges = sorted(
            {b for b in [lo, hi, lo + 1, hi - 1] + BOUND + list(bias) if lo <= b <= hi}
        )

    def gen(self, rng, sz=3):
        r = rng.random()
        if r < 0.45:
            return rng.choice(self.edges)
        if r < 0.8:
            return max(self.lo, min(self.hi, rng.randint(-1500, 1500)))
        return rng.randint(self.lo, self.hi)

    def sym(self, path, idx=()):
        lo, hi = self.lo, self.hi
        REG.on(path, lambda a: [a >= lo, a <= hi])
        return _app(path, I, idx)


class Below(Schema):
    """symbolic only: lo <= n < the length of a list"""

    def __init__(self, lo, end):
        self.lo, self.end = lo, end

    def sym(self, path, idx=()):
        lo, end = self.lo, self.end
        REG.on(path, lambda a: [a >= lo, a < end])
        return _app(path, I, idx)


class Few(Int):
    """small range, so that equal values are frequent"""

    def gen(self, rng, sz=3):
        return rng.randint(self.lo, self.hi)


S32 = Int(-(2**31), 2**31 - 1)
U32 = Int(0, 2**32 - 1)
S16 = Int(-(2**15), 2**15 - 1)
U16 = Int(0, 2**16 - 1)
U8 = Int(0, 255)
S8 = Int(-128, 127)
# coordinates whose differences still fit the number format
COORD = Int(-(2**30), 2**30 - 1)


class OneOf(Schema):
    """a finite set of constants"""

    def __init__(self, *options):
        self.options = options

    def gen(self, rng, sz=3):
        return rng.choice(self.options)

    def sym(self, path, idx=()):
        n = len(self.options)
        REG.on(path, lambda a: [a >= 0, a < n])
        return Alt(_app(path, I, idx), self.options)


class Choice(Schema):
    def __init__(self, *schemas):
        self.schemas = schemas

    def gen(self, rng, sz=3):
        return rng.choice(self.schemas).gen(rng, sz)

    def sym(self, path, idx=()):
        n = len(self.schemas)
        REG.on(path + "?", lambda a: [a >= 0, a < n])
        return Alt(
            _app(path + "?", I, idx),
            [s.sym(f"{path}|{i}", idx) for i, s in enumerate(self.schemas)],
        )


SAMPLE_CHARS = {
    "cp1252": "aAbz09 _.-%äßéÿ€™’Œñ",
    "utf-8": "aAz0 .äß€λЖ字😀",
    "ascii": "abzA09._- ",
}


class Text(Schema):
    """texts encodable in `enc`; `ok` restricts concrete characters"""

    def __init__(self, enc="cp1252", nonempty=False, maxbytes=None, minbytes=0,
                 exclude="", note=""):
        self.enc, self.nonempty = enc, nonempty
        self.maxbytes, self.minbytes = maxbytes, minbytes
        self.exclude = exclude

    def gen(self, rng, sz=3):
        chars = [c for c in SAMPLE_CHARS[self.enc] if c not in self.exclude]
        lo = max(self.minbytes, 1 if self.nonempty else 0)
        hi = self.maxbytes if self.maxbytes is not None else 12
        r = rng.random()
        n = lo if r < 0.15 else hi if r < 0.25 else rng.randint(lo, max(lo, min(hi, 12)))
        if self.maxbytes is None and rng.random() < 0.04:
            n = rng.choice([107, 108, 300, 1131, 1132])
        s = ""
        while len(s.encode(self.enc)) < n:
            c = rng.choice(chars)
            if self.maxbytes is not None and len((s + c).encode(self.enc)) > hi:
                c = "a"
            s += c
        return s

    def sym(self, path, idx=()):
        t = _app(path, Str, idx)
        e = enc_id(self.enc)

        def ax(a):
            r = []
            if self.nonempty or self.minbytes > 0:
                r.append(a != EMPTY)
            if self.maxbytes is not None:
                r.append(enclen(a, e) <= self.maxbytes)
            if self.minbytes:
                r.append(enclen(a, e) >= self.minbytes)
            return r

        REG.on(path, ax)
        return SStr(t)


class Hex(Schema):
    """lower-case hex text of arbitrary bytes"""

    def __init__(self, nonempty=False):
        self.nonempty = nonempty

    def gen(self, rng, sz=3):
        n = rng.choice([0, 1, 2, 3, 16, 40, 300])
        if self.nonempty:
            n = max(1, n)
        return bytes(rng.randrange(256) for _ in range(n)).hex()

    def sym(self, path, idx=()):
        b = _app(path, Byt, idx)
        if self.nonempty:
            from .terms import bytlen

            REG.on(path, lambda a: [bytlen(a) >= 1])
        return SStr(HEXOF(b))


class Float(Schema):
    def gen(self, rng, sz=3):
        return rng.choice(
            [0.0, 1.0, -1.0, 0.5, 0.1, 1e300, -1e-300, 5e-324, 0.039625,
             rng.uniform(-1000, 1000), rng.uniform(-1, 1),
             struct.unpack("<d", rng.randbytes(7) + b"\x3f")[0]]
        )

    def sym(self, path, idx=()):
        return SFl(_app(path, Flt, idx))


class Angle(Schema):
    """doubles taken as real numbers (rounding errors are not modelled)"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def gen(self, rng, sz=3):
        return rng.choice([self.lo, self.hi, 0.0, rng.uniform(self.lo, self.hi)])

    def sym(self, path, idx=()):
        lo, hi = self.lo, self.hi
        REG.on(path, lambda a: [a >= lo, a <= hi])
        return SFl(_app(path, z3.RealSort(), idx))


class RealNumber(Float):
    """doubles taken as real numbers"""

    def sym(self, path, idx=()):
        return SFl(_app(path, z3.RealSort(), idx))


class Scaled(Schema):
    """the doubles k/den for lo <= k <= hi"""

    def __init__(self, den, lo, hi):
        self.den, self.k = den, Int(lo, hi, bias=[den, den // 2, -den, 2900, 5700, 11500])

    def gen(self, rng, sz=3):
        return self.k.gen(rng, sz) / self.den

    def sym(self, path, idx=()):
        return SFl(FDIV(self.k.sym(path, idx), z3.IntVal(self.den)))


class Slope(Schema):
    """angles that the parser produces: degrees(atan2(k, 10000))"""

    def __init__(self, lo=-(10**8), hi=10**8):
        self.k = Int(lo, hi, bias=[1, 3, 5773, 10000, 17321, 57290])

    def gen(self, rng, sz=3):
        from math import atan2, degrees

        return degrees(atan2(self.k.gen(rng, sz), 10000))

    def sym(self, path, idx=()):
        from .terms import FDEG, FATAN2

        return SFl(FDEG(FATAN2(self.k.sym(path, idx), z3.IntVal(10000))))


class ListOf(Schema):
    def __init__(self, elem, lo=0, hi=None, n=None, big=()):
        self.elem, self.lo, self.hi, self.n = elem, lo, hi, n
        self.big = big

    def gen(self, rng, sz=3):
        if self.n is not None:
            k = self.n
        else:
            hi = self.lo + sz
            if self.hi is not None:
                hi = min(hi, self.hi)
            k = rng.choice([self.lo, rng.randint(self.lo, hi), rng.randint(self.lo, hi), hi])
            if self.big and rng.random() < 0.15:
                k = rng.choice(self.big)
        return [self.elem.gen(rng, max(1, sz - 1)) for _ in range(k)]

    def sym(self, path, idx=()):
        if self.n is not None:
            return FList(("e", self.elem.sym(f"{path}[{j}]", idx)) for j in range(self.n))
        name = path + "#n"
        lo, hi = self.lo, self.hi if self.hi is not None else MAXLEN
        REG.on(name, lambda a: [a >= lo, a <= hi])
        n = _app(name, I, idx)
        iv = z3.Const(REG.fresh_name("i"), I)
        return FList(
            [("r", n, iv, (("e", self.elem.sym(path + "[]", tuple(idx) + (iv,))),))]
        )


class Tup(Schema):
    def __init__(self, *elems):
        self.elems = elems

    def gen(self, rng, sz=3):
        return tuple(e.gen(rng, sz) for e in self.elems)

    def sym(self, path, idx=()):
        return tuple(e.sym(f"{path}.{j}", idx) for j, e in enumerate(self.elems))


class Rec(Schema):
    """dict with fixed keys, in this order; optional keys may be absent"""

    def __init__(self, fields, optional=()):
        self.fields = fields
        self.optional = set(optional)

    def gen(self, rng, sz=3):
        d = {}
        p = rng.choice([0.0, 0.5, 0.5, 1.0])
        for k, s in self.fields.items():
            if k in self.optional and rng.random() >= p:
                continue
            d[k] = s.gen(rng, sz)
        return d

    def sym(self, path, idx=()):
        ents = []
        for k, s in self.fields.items():
            v = s.sym(f"{path}.{k}", idx)
            if k in self.optional:
                c = _app(f"{path}.{k}??", B, idx)
                ents.append(("o", c, k, v))
            else:
                ents.append(("e", k, v))
        return FDict(ents)


class DictOf(Schema):
    def __init__(self, key, val, lo=0, hi=None):
        self.key, self.val, self.lo, self.hi = key, val, lo, hi

    def gen(self, rng, sz=3):
        k = rng.randint(self.lo, self.lo + sz)
        d = {}
        for _ in range(k * 2):
            if len(d) >= k:
                break
            d[self.key.gen(rng, sz)] = self.val.gen(rng, max(1, sz - 1))
        if len(d) < self.lo:
            return self.gen(rng, sz)
        return d

    def sym(self, path, idx=()):
        name = path + "#n"
        lo, hi = self.lo, self.hi if self.hi is not None else MAXLEN
        REG.on(name, lambda a: [a >= lo, a <= hi])
        n = _app(name, I, idx)
        iv = z3.Const(REG.fresh_name("i"), I)
        kp = path + ".key"
        k = self.key.sym(kp, tuple(idx) + (iv,))
        v = self.val.sym(path + "{}", tuple(idx) + (iv,))

        def distinct(a, b):
            # keys of one dict are pairwise different
            na, nb = a.num_args(), b.num_args()
            if na == 0 or na != nb:
                return None
            same = z3.And([a.arg(j) == b.arg(j) for j in range(na - 1)] or [z3.BoolVal(True)])
            return z3.Implies(z3.And(same, a == b), a.arg(na - 1) == b.arg(na - 1))

        REG.on_pair(kp, distinct)
        return FDict([("r", n, iv, (("e", k, v),))])


class Subset(Schema):
    """ordered sub-list of constants"""

    def __init__(self, *names):
        self.names = names

    def gen(self, rng, sz=3):
        p = rng.choice([0, 0.5, 0.5, 1])
        return [n for n in self.names if rng.random() < p]

    def sym(self, path, idx=()):
        seq = []
        for n in self.names:
            c = _app(f"{path}.{n}??", B, idx)
            seq.append(("c", ((c, (("e", n),)), (z3.Not(c), ()))))
        return FList(seq)


class AsmLines:
    """marker: the list of lines that fontTools disassembles `code` to"""


class Assembly(Schema):
    """lists of instructions as disassembled by fontTools (trusted: assembling what has
    been disassembled gives the same bytes, and the other way round)"""

    def __init__(self, f):
        self.f = f

    def gen(self, rng, sz=3):
        return self.f(rng, sz)

    def sym(self, path, idx=()):
        from .values import FBytes, FObj

        return FObj(AsmLines, (("code", FBytes((("X", _app(path, Byt, idx)),))),))


class Dep(Schema):
    """domain with fields that depend on each other"""

    def __init__(self, gen, sym):
        self.gen_, self.sym_ = gen, sym

    def gen(self, rng, sz=3):
        return self.gen_(rng, sz)

    def sym(self, path, idx=()):
        return self.sym_(path, idx)


class Color(Schema):
    """'#rrggbb', in lower-case hexadecimal digits"""

    def gen(self, rng, sz=3):
        k = rng.choice([0, 1, 255, 65280, 0xFF0000, 0x123456, rng.randrange(2**24)])
        return "#%06x" % k

    def sym(self, path, idx=()):
        from .values import FmtStr

        c = Int(0, 255)
        return FmtStr(("#",) + tuple(("v", c.sym(f"{path}.{k}", idx), -1, "02x") for k in "rgb"))


class Map(Schema):
    """concrete-only domain: f(rng, sz)"""

    def __init__(self, f):
        self.f = f

    def gen(self, rng, sz=3):
        return self.f(rng, sz)


class Filter(Schema):
    """restrict a domain for the concrete runs only (symbolically the whole domain)"""

    def __init__(self, base, pred):
        self.base, self.pred = base, pred

    def gen(self, rng, sz=3):
        for _ in range(200):
            v = self.base.gen(rng, sz)
            if self.pred(v):
                return v
        raise RuntimeError("filter")
