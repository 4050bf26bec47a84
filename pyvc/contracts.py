"""Contracts on the real functions, discharged by the symbolic engine."""
import os
import time
import traceback

import z3

from . import terms
from .compare import Comparer
from .engine import Engine, Raise
from .terms import I, REG, check, is_sym, reset_registry, simp, zb, zi
from .tokens import canon, v_forms
from .values import FBytes, HInst, HStream, Ref, Unsupported

REPO = os.environ.get("VFBLIB_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stub:
    """the part of a Vfb that compilers and parsers look at"""

    def __init__(self, ctx):
        self.num_masters = ctx.M
        self.ttStemsV_count = ctx.ttv
        self.ttStemsH_count = ctx.tth
        self.writer_platform = ctx.platform


def prefixes():
    return (os.path.join(os.path.realpath(REPO), "src"), os.path.join(REPO, "src"),
            os.path.join(HERE, "specs"))


def new_engine(contracts=True):
    e = Engine(repo_prefixes=prefixes())
    install_wire(e)
    install_program(e)
    if contracts:
        install_values(e)
    return e


# ------------------------------------------------------------------ spec writer
def install_wire(e):
    from specs.wire import W

    def put(name, f):
        e.contracts[getattr(W, name)] = f

    def out(e, w, toks):
        p = e.get(e.get(w).attrs["out"])
        p.data = p.data + tuple(toks)

    def num(n, signed):
        def f(e, a, kw):
            from .natives import int_toks

            x = e.num(e.force(a[1]))
            nn = n if n is not None else a[2]
            lo, hi = (-(256**nn) // 2, 256**nn // 2) if signed else (0, 256**nn)
            e.prove("layout: value fits its field", z3.And(zi(x) >= lo, zi(x) < hi))
            out(e, a[0], int_toks(x, nn, signed, False))
        return f

    def enc(signed, long):
        def f(e, a, kw):
            x = e.num(e.force(a[1]))
            s = signed if signed is not None else (a[2] if len(a) > 2 else
                                                   kw.get("signed", True))
            lo, hi = (-(2**31), 2**31) if s else (0, 2**32)
            if not s:
                lo = -1131
            e.prove("layout: encoded number in range", z3.And(zi(x) >= lo, zi(x) < hi))
            out(e, a[0], (("VL" if long else "V", x, s),))
        return f

    for nm, n, s in (("U8", 1, False), ("S8", 1, True), ("U16", 2, False), ("S16", 2, True),
                     ("U32", 4, False), ("S32", 4, True), ("UINT", None, False)):
        put(nm, num(n, s))
    put("V", enc(True, False))
    put("VU", enc(False, False))
    put("VL", enc(None, True))

    def D(e, a, kw):
        out(e, a[0], (("D", e.force(a[1])),))

    def encode(e, text, encn):
        return e.toks(e.nat.call_method(e, e.force(text), "encode", [encn], {}))

    def S(e, a, kw):
        out(e, a[0], encode(e, a[1], a[2] if len(a) > 2 else kw.get("enc", "cp1252")))

    def SV(e, a, kw):
        t = encode(e, a[1], a[2] if len(a) > 2 else kw.get("enc", "cp1252"))
        out(e, a[0], (("V", e.toks_size(t), True),) + t)

    def SP(e, a, kw):
        t = encode(e, a[1], a[3] if len(a) > 3 else kw.get("enc", "cp1252"))
        n = a[2]
        size = e.toks_size(t)
        pad = simp(z3.If(zi(size) < n, n - zi(size), 0))
        out(e, a[0], t + (("r", pad, z3.Const(REG.fresh_name("i"), I), (("O", 0),)),))

    def HEX(e, a, kw):
        out(e, a[0], e.toks(e.call(bytes.fromhex, [a[1]])))

    def RAW(e, a, kw):
        out(e, a[0], e.toks(e.force(a[1])))

    def SIZED(e, a, kw):
        w, layout, d, ctx = a
        t = layout_tokens(e, layout, d, ctx)
        out(e, w, (("V", e.toks_size(t), True),) + t)

    for nm, f in (("D", D), ("S", S), ("SV", SV), ("SP", SP), ("HEX", HEX), ("RAW", RAW), ("SIZED", SIZED)):
        put(nm, f)


def layout_tokens(e, layout, d, ctx):
    from specs.wire import W

    s = e.alloc(HStream())
    w = e.alloc(HInst(W, {"out": s}))
    e.call(layout, [w, d, ctx])
    return e.get(s).data


# ------------------------------------------------------------------ encoded numbers
def install_values(e):
    """callers of the number encoding are checked against its contract"""
    from vfbLib.compilers import value as cv
    from vfbLib.parsers import value as pv
    from .engine import PyExc
    import struct

    def arg(a, kw, i, name, default):
        return a[i] if len(a) > i else kw.get(name, default)

    def w(long):
        def f(e, a, kw):
            x = e.force(arg(a, kw, 0, "value", None))
            stream = arg(a, kw, 1, "stream", None)
            signed = e.truth(arg(a, kw, 2, "signed", True))
            if not isinstance(signed, bool):
                signed = e.branch(signed)
            if not e.nat.is_num(x):
                raise Unsupported("encoded number of another type")
            x = e.num(x)
            ok = (z3.And(zi(x) >= -(2**31), zi(x) < 2**31) if signed
                  else z3.And(zi(x) >= (0 if long else -1131), zi(x) < 2**32))
            e.require(simp(ok), struct.error, "out of range")
            st = e.get(e.force(stream))
            st.data = st.data + (("VL" if long else "V", x, signed),)
        return f

    def r(e, a, kw):
        sref = e.force(arg(a, kw, 0, "stream", None))
        signed = arg(a, kw, 1, "signed", True)
        while True:
            st = e.get(sref)
            if st.rest and st.rest[0][0] in ("r", "c"):
                e.stream_at_rep(sref.id)
                continue
            if st.rest and st.rest[0][0] in ("S", "X"):
                c = e.toks_empty(st.rest[:1])
                if c is True or e.valid(c):
                    st.rest = st.rest[1:]
                    continue
            break
        if not st.rest:
            raise Raise(PyExc(EOFError))
        t = st.rest[0]
        if t[0] in ("V", "VL"):
            st.rest = st.rest[1:]
            x, s = t[1], t[2]
            if s == signed:
                return x
            return reinterpret(e, x, signed, t[0] == "VL")
        return e.call_function(pv.read_value, a, kw)

    from vfbLib import helpers

    def bits(e, a, kw):
        from .terms import bits_of
        from .values import FList

        x = e.force(arg(a, kw, 0, "value", None))
        start = e.force(arg(a, kw, 1, "start", 0))
        d = bits_of(x) if is_sym(x) else None
        if d is None or is_sym(start):
            return e.call_function(helpers.binaryToIntList, a, kw)
        return FList(tuple(
            ("e", start + b) if c is True else
            ("c", ((c, (("e", start + b),)), (simp(z3.Not(zb(c))), ())))
            for b, c in sorted(d.items())))

    e.contracts[helpers.binaryToIntList] = bits
    e.contracts[cv.write_value] = w(False)
    e.contracts[cv.write_value_long] = w(True)
    e.contracts[pv.read_value] = r


def install_program(e):
    """the fontTools assembler (a dependency): an uninterpreted pair of inverse functions"""
    from fontTools.ttLib.tables.ttProgram import Program
    from specs import entries
    from .schema import AsmLines
    from .values import FObj

    note = ("fontTools Program: fromAssembly(getAssembly of bytecode b) gives b, getAssembly is "
            "a function of the bytecode")

    def code(e, lines):
        lines = e.force(lines)
        if not (isinstance(lines, FObj) and lines.cls is AsmLines):
            raise Unsupported("assembly of a list of another origin")
        e.assumptions.add(note)
        return dict(lines.attrs)["code"]

    def new(e, a, kw):
        return e.alloc(HInst(Program, {}))

    def from_assembly(e, a, kw):
        e.get(a[0]).attrs["code"] = code(e, a[1])

    def from_bytecode(e, a, kw):
        e.get(a[0]).attrs["code"] = e.force(a[1])

    def get_bytecode(e, a, kw):
        return e.get(a[0]).attrs["code"]

    def get_assembly(e, a, kw):
        e.assumptions.add(note)
        return FObj(AsmLines, (("code", FBytes(e.toks(e.get(a[0]).attrs["code"]))),))

    e.contracts[Program] = new
    e.contracts[Program.fromAssembly] = from_assembly
    e.contracts[Program.fromBytecode] = from_bytecode
    e.contracts[Program.getBytecode] = get_bytecode
    e.contracts[Program.getAssembly] = get_assembly
    e.contracts[entries.assemble] = lambda e, a, kw: code(e, a[0])


def install_maps(e):
    """dicts about which nothing is known: uninterpreted functions of the key"""
    from specs.abstract import Map
    from .engine import PyExc
    from .expr import text_term

    def split(k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int):
            return f" {k[0]}", k[1]
        return "", k

    def args(e, a, kw):
        k = e.force(kw.get("key", a[1] if len(a) > 1 else None))
        if isinstance(k, tuple):
            k = tuple(e.force(x) for x in k)
        part, k = split(k)
        if k is None:
            return None, None
        name = dict(a[0].attrs)["name"]
        return map_has(name + part, text_term(k)), map_value(name + part, text_term(k))

    def has(e, a, kw):
        h, v = args(e, a, kw)
        return False if h is None else h

    def get(e, a, kw):
        h, v = args(e, a, kw)
        default = kw.get("default", a[2] if len(a) > 2 else None)
        if h is None or not e.branch(h):
            return default
        return v

    def item(e, a, kw):
        h, v = args(e, a, kw)
        if h is None or not e.branch(h):
            raise Raise(PyExc(KeyError))
        return v

    e.contracts[Map.__contains__] = has
    e.contracts[Map.get] = get
    e.contracts[Map.__getitem__] = item


def map_has(name, key):
    return z3.Function(f"in {name}", terms.Str, z3.BoolSort())(key)


def map_value(name, key):
    from .values import SStr

    return SStr(z3.Function(f"value of {name}", terms.Str, terms.Str)(key))


def some_map(name):
    from specs.abstract import Map
    from .values import FObj

    return FObj(Map, (("name", name),))


def reinterpret(e, x, signed, long):
    """value read with the other signedness than the one it was written with"""
    x = zi(x)
    w = simp(z3.If(x >= 2**31, x - 2**32, x)) if signed else simp(z3.If(x < 0, x + 2**32, x))
    if long:
        return w
    return simp(z3.If(z3.And(x >= -1131, x <= 1131), x, w))


# ------------------------------------------------------------------ running contracts
class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.functions = {}
        self.assumptions = set()
        self.unsupported = None
        self.paths = 0
        self.time = 0.0
        self.solver = 0.0
        self.subject = None
        self.invariant = False  # rests on an invariant that the proof supplies

    @property
    def proved(self):
        return (self.unsupported is None and self.obls
                and all(o[1] == "discharged" for o in self.obls))

    def refuted(self):
        return [o for o in self.obls if o[1] == "refuted"]


def run_contract(name, thunk, contracts=True, allowed=(), limit=None):
    """explore thunk(engine) for all inputs; obligations are recorded by the thunk.
    Exceptions that leave the function break the contract unless listed in `allowed`."""
    reset_registry()
    res = Result(name)
    t0 = time.time()
    s0 = terms.STATS.time
    e = new_engine(contracts)
    e.no_raise = not allowed
    if limit:
        e.maxsteps = limit
    try:
        outs = e.explore(lambda: thunk(e))
        for pcs, out, heap, loc in outs:
            if out[0] == "raise":
                exc = out[1]
                if any(issubclass(exc.type, a) for a in allowed):
                    continue
                e.pc = list(pcs)
                e.prove(f"{name}: no {exc.type.__name__} at {e.where}", z3.BoolVal(False))
        res.paths = len(outs)
        if not outs:
            raise Unsupported("no feasible path (vacuous contract)")
    except Unsupported as u:
        res.unsupported = f"{u} [{e.where}]"
    except RecursionError:
        res.unsupported = "recursion"
    except Exception as ex:  # a bug of the verifier is never a verdict about the code
        tb = traceback.extract_tb(ex.__traceback__)[-3:]
        res.unsupported = f"internal {type(ex).__name__}: {ex} {[(f.filename.split('/')[-1], f.lineno) for f in tb]} [{e.where}]"
    res.obls = e.obls
    res.subject = e.subject
    res.invariant = bool(e.invariants)
    res.functions = dict(e.functions)
    res.assumptions = set(e.assumptions)
    res.time = time.time() - t0
    res.solver = terms.STATS.time - s0
    return res


TAIL = FBytes((("X", z3.Const("tail", terms.Byt)),))


def compile_contract(entry, eid, ctx):
    from .concrete import lookup

    key, parser, compiler = lookup(eid)

    def thunk(e):
        d = e.subject = entry.schema(ctx).sym("d")
        exp = layout_tokens(e, entry.layout, d, ctx)
        c = e.call(compiler, [])
        out = e.call(e.getattr(c, "compile"), [d, Stub(ctx)])
        Comparer(e, "compile(d) == layout(d)").tokens(e.toks(e.force(out)), exp)

    return run_contract(f"{entry.name}: compile {ctx}", thunk)


def parse_contract(entry, eid, ctx):
    from .concrete import lookup

    key, parser, compiler = lookup(eid)

    def thunk(e):
        d = e.subject = entry.schema(ctx).sym("d")
        wire = layout_tokens(e, entry.layout, d, ctx)
        tail = (("X", z3.Const("tail", terms.Byt)),)
        st = e.alloc(HStream((), tuple(wire) + tail))
        size = e.size_fn(wire) if any(t[0] not in "O" for t in wire) else len(wire)
        p = e.call(parser, [])
        out = e.call(e.getattr(p, "parse"), [st, size, Stub(ctx)])
        exp = e.call(entry.expect, [d, ctx]) if entry.expect else d
        Comparer(e, "parse(layout(d)) == d").value(out, exp)
        rest = e.get(st).rest
        e.prove("parse consumes exactly the entry", rest == tail)

    return run_contract(f"{entry.name}: parse {ctx}", thunk)
