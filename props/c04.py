"""C04 edit histories: the real objects against a model of the file"""
import contextlib
import copy
import io
from io import BytesIO

from props.c03 import frame, hdict, header_bytes
from pyvc.concrete import same, short
from specs import entries as E
from specs.wire import Ctx, run_wire

# entry types used in the histories (those the reader interprets at once are 1503, 1410)
IDS = [1502, 1530, 1026, 1068, 1276, 2001, 2008, 2023, 1065, 1254, 2031, 1536, 1743, 2010,
       1277, 1500, 6, 1250, 10, 1269, 1093]
AT_ONCE = (1503, 10, 1269)  # the reader interprets these entries at once


def table():
    out = {}
    for e in E.ENTRIES:
        for i in e.ids:
            if i in IDS and (e.schema or e.concrete):
                out[i] = e
    return out


TABLE = table()
UNKNOWN = 7777
CTX = Ctx(M=1)


def wire(eid, d, M):
    if eid == UNKNOWN:
        return bytes.fromhex(d)
    if eid == 1503:
        return bytes([d & 255, d >> 8])
    e = TABLE[eid]
    return run_wire(e.layout, copy.deepcopy(d), Ctx(M=M))


def expect(eid, d, M):
    if eid in (UNKNOWN, 1503):
        return d
    e = TABLE[eid]
    return e.expect(copy.deepcopy(d), Ctx(M=M)) if e.expect else d


def overwrite(obj, new):
    """change a structure in place"""
    if isinstance(obj, list) and isinstance(new, list):
        obj[:] = new
        return True
    if isinstance(obj, dict) and isinstance(new, dict):
        obj.clear()
        obj.update(new)
        return True
    return False


class Model:
    """entries: [id, bytes or None, datum or None]; exactly one is the current form"""

    def __init__(self):
        self.header, self.ents, self.M = None, [], 0


def history(files, ops, drop, via):
    """files: list of (minor, M, [(eid, datum)]); ops: list of tuples"""
    import os
    import tempfile

    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    fails = []
    vfb = Vfb(timing=False, drop_keys=set(drop))
    mod = Model()
    wrote = 0

    def bad(clause, detail=""):
        fails.append(dict(clause=clause, detail=str(detail)))

    def check_all(where):
        if [e.id for e in vfb.entries] != [m[0] for m in mod.ents]:
            bad("entries", f"{where}: {[e.id for e in vfb.entries]} {[m[0] for m in mod.ents]}")
            return
        for e, m in zip(vfb.entries, mod.ents):
            want = m[1] if m[1] is not None else m[2]
            got = e.data
            if not (isinstance(got, bytes) == isinstance(want, bytes) and same(got, want)):
                bad("entry data", f"{where}: {m[0]}: {str(got)[:300]} != {str(want)[:300]}")

    def read(k):
        minor, M, spec = files[k]
        ents = [(1503, M)] + list(spec)
        raw = [(i, wire(i, d, M)) for i, d in ents]
        blob = header_bytes(minor) + b"".join(frame(i, d) for i, d in raw)
        if via == "path":
            fd, path = tempfile.mkstemp(suffix=".vfb")
            try:
                os.write(fd, blob)
                os.close(fd)
                from pathlib import Path

                vfb.vfb_path = Path(path)
                vfb.read()
            finally:
                os.unlink(path)
        else:
            vfb.read_bytes(BytesIO(blob))
        mod.header, mod.M = minor, M
        mod.ents = []
        for (i, d), (_, b) in zip(ents, raw):
            if i in drop:
                continue
            d = expect(i, d, M)
            mod.ents.append([i, None, d] if i in AT_ONCE else [i, b, None])
            mod.ents[-1].append(d)
        fresh = Vfb(timing=False, drop_keys=set(drop))
        fresh.read_bytes(BytesIO(blob))
        visible = lambda v: {k: getattr(v, k) for k in (
            "num_masters", "ttStemsV_count", "ttStemsH_count", "writer_platform", "encoding", "any_errors",
            "glyph_order", "ps_hinting_options", "lib")}
        if visible(vfb) != visible(fresh):
            bad("nothing of the previous file is visible", f"{visible(vfb)} != {visible(fresh)}")
        if len(vfb.get_masters()) != M:
            bad("number of masters of the file", "")
        if vfb.num_masters != M:
            bad("number of masters of the file that was read last", f"{vfb.num_masters} {M}")
        if vfb.any_errors:
            bad("error flag of the file that was read last")
        want = [m[3].get("name", "") for m in mod.ents if m[0] == 2001]
        if len(set(want)) == len(want):
            check_names(want)

    def check_names(want):
        keys = list(vfb.keys())
        # looking glyphs up decompiles what is needed for it
        for m, e in zip(mod.ents, vfb.entries):
            if m[0] in (2001, 2008, 2010, 1093):
                if m[1] is not None and not isinstance(e.data, bytes):
                    m[1], m[2] = None, expect(m[0], m[3], mod.M)
                    m[3] = m[2]
        if keys != want:
            bad("glyph names of the file that was read last", f"{keys} {want}")
        for k, e in zip(keys, [e for e in vfb.entries if e.id == 2001]):
            if vfb[k].entry is not e:
                bad("glyph belongs to the file that was read last", k)

    def write():
        exp = header_bytes(mod.header)
        for m in mod.ents:
            if m[1] is None:
                m[1], m[2] = wire(m[0], m[3], mod.M), None
            exp += frame(m[0], m[1])
        if via == "path":
            from pathlib import Path

            fd, path = tempfile.mkstemp(suffix=".vfb")
            os.close(fd)
            try:
                vfb.write(Path(path))
                with open(path, "rb") as f:
                    got = f.read()
            finally:
                os.unlink(path)
        else:
            out = BytesIO()
            vfb.write_bytes(out)
            got = out.getvalue()
        if got != exp:
            k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            bad("file reflects the current data", f"at {k}: {got[max(0, k - 9):k + 30].hex()} != {exp[max(0, k - 9):k + 30].hex()}")

    for n, op in enumerate(ops):
        where = f"step {n} {op[0]}"
        kind = op[0]
        if mod.header is None and kind != "read":
            continue
        if kind == "read":
            read(op[1])
        elif kind == "write":
            write()
        elif kind == "decompile_all":
            vfb.decompile()
            for m in mod.ents:
                if m[1] is not None and m[0] not in drop:
                    m[1], m[2] = None, expect(m[0], m[3], mod.M)
                    m[3] = m[2]
        elif kind == "compile_all":
            vfb.compile()
            for m in mod.ents:
                if m[1] is None:
                    m[1], m[2] = wire(m[0], m[3], mod.M), None
        elif kind == "as_dict":
            d = vfb.as_dict()
            if len(d["entries"]) != len(mod.ents):
                bad("as_dict lists the entries", where)
            for m, x in zip(mod.ents, d["entries"]):
                if m[1] is not None:
                    if x["decompiled"] != m[1].hex() or x["size"] != len(m[1]):
                        bad("as_dict shows the current bytes", f"{where} {m[0]}")
                elif not same(x["decompiled"], m[2]):
                    bad("as_dict shows the current data", f"{where} {m[0]}")
        elif kind == "append":
            e = VfbEntry(vfb, eid=op[1])
            e.data = copy.deepcopy(op[2])
            vfb.add_entry(e)
            mod.ents.append([op[1], None, op[2], op[2]])
        elif mod.ents:
            i = op[1] % len(mod.ents)
            m, e = mod.ents[i], vfb.entries[i]
            if kind == "decompile":
                e.decompile()
                if m[1] is not None:
                    m[1], m[2] = None, expect(m[0], m[3], mod.M)
                    m[3] = m[2]
            elif kind == "compile":
                if e.compile() is not True:
                    bad("compile succeeds", where)
                if m[1] is None:
                    m[1], m[2] = wire(m[0], m[3], mod.M), None
                if e.size != len(m[1]):
                    bad("size of the current data", f"{where}: {e.size} {len(m[1])}")
            elif kind == "header" and m[1] is not None:
                if e.header != frame(m[0], m[1])[: len(frame(m[0], m[1])) - len(m[1])]:
                    bad("entry header matches the current data", where)
            elif kind in ("assign", "inplace") and m[0] != 1503:
                d = op[2].get(m[0])
                if d is None:
                    continue
                new = copy.deepcopy(d)
                if kind == "inplace" and m[1] is None and overwrite(e.data, new):
                    pass
                else:
                    e.data = new
                m[1], m[2], m[3] = None, d, d
            elif kind == "bytes" and m[0] != 1503:
                d = op[2].get(m[0])
                if d is None:
                    continue
                b = wire(m[0], d, mod.M)
                e.data = b
                m[1], m[2], m[3] = b, None, d
            elif kind == "remove" and m[0] != 1503:
                del vfb.entries[i], mod.ents[i]
        check_all(where)
        if fails:
            break
    if not fails and mod.header is not None:
        write()
        check_all("end")
        write()
    return fails


def datum(rng, eid, M):
    if eid == UNKNOWN:
        return rng.randbytes(rng.choice([0, 1, 5])).hex()
    e = TABLE[eid]
    return (e.concrete or e.schema)(Ctx(M=M)).gen(rng, rng.choice([0, 1, 2]))


def gen_file(rng):
    M = rng.choice([1, 1, 2, 4])
    spec = []
    glyphs = 0
    for _ in range(rng.randint(0, 7)):
        eid = rng.choice(sorted(TABLE) + [UNKNOWN, 2001])
        if eid in (2008, 2010) and not glyphs:
            continue
        if eid == 2001:
            glyphs += 1
        spec.append((eid, datum(rng, eid, M)))
        if rng.random() < 0.08 and eid == UNKNOWN:
            spec[-1] = (UNKNOWN, (b"\xab" * rng.choice([65535, 65536, 70000])).hex())
    return rng.randrange(256), M, spec


def gen(rng):
    files = [gen_file(rng) for _ in range(rng.choice([1, 2, 3]))]
    ops = [("read", 0)]
    # all files of a history share the number of masters of the edits
    M = files[0][1]
    files = [(a, M, s) if m == M else gen_same(rng, M) for a, m, s in files]
    for _ in range(rng.randint(1, 10)):
        k = rng.choice(["read", "write", "write", "decompile", "decompile", "decompile_all", "compile",
                        "compile_all", "as_dict", "append", "assign", "assign", "inplace", "inplace",
                        "inplace", "bytes", "remove", "header"])
        if k == "read":
            ops.append((k, rng.randrange(len(files))))
        elif k in ("write", "decompile_all", "compile_all", "as_dict"):
            ops.append((k,))
        elif k == "append":
            eid = rng.choice([i for i in TABLE if i != 2001] + [UNKNOWN])
            ops.append((k, eid, datum(rng, eid, M)))
        elif k in ("assign", "inplace", "bytes"):
            ops.append((k, rng.randrange(20), {i: datum(rng, i, M) for i in list(TABLE) + [UNKNOWN]}))
        else:
            ops.append((k, rng.randrange(20)))
    drop = [] if rng.random() < 0.7 else rng.sample(sorted(TABLE) + [UNKNOWN], 3)
    return files, ops, drop, rng.choice(["buffer", "buffer", "path"])


def gen_same(rng, M):
    while True:
        f = gen_file(rng)
        if f[1] == M:
            return f


def raw_history(minor, raws, ops):
    """entries that are never decompiled keep their original bytes, whatever they are"""
    from vfbLib.vfb.vfb import Vfb

    blob = header_bytes(minor) + b"".join(frame(i, d) for i, d in raws)
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(blob))
    fails = []
    for op in ops:
        if op == "write":
            out = BytesIO()
            vfb.write_bytes(out)
            if out.getvalue() != blob:
                fails.append(dict(clause="original bytes are written back", detail=""))
        elif op == "compile":
            vfb.compile()
        elif op == "as_dict":
            vfb.as_dict()
        elif op == "header":
            vfb.header.decompile()
            d = vfb.header.data
            if d.get("version_minor") != minor:
                fails.append(dict(clause="header", detail=str(d)))
    return fails


def failing(eid, good, junk, after):
    """a decompile that fails leaves bytes and sets the flag; reading anew clears it"""
    from vfbLib.vfb.vfb import Vfb

    blob = header_bytes(1) + frame(eid, junk)
    ok = header_bytes(1) + frame(eid, good)
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(blob))
    fails = []
    try:
        vfb.decompile()
    except Exception:
        if vfb.entries[0].data != junk or not vfb.any_errors:
            fails.append(dict(clause="failed decompile keeps the bytes", detail=""))
        out = BytesIO()
        vfb.write_bytes(out)
        if out.getvalue() != blob:
            fails.append(dict(clause="original bytes after a failed decompile", detail=""))
    vfb.read_bytes(BytesIO(ok))
    if vfb.any_errors:
        fails.append(dict(clause="error flag cleared by reading another file", detail=""))
    vfb.decompile()
    out = BytesIO()
    vfb.write_bytes(out)
    if out.getvalue() != ok:
        fails.append(dict(clause="file after an earlier error", detail=""))
    return fails


# ------------------------------------------------------------------ contracts
def setup_any(e):
    """parsers and compilers about which nothing is known"""
    import z3
    from pyvc.engine import Raise
    from pyvc.terms import I, Byt
    from pyvc.values import FBytes, FObj, PyExc
    from specs.abstract import Datum, Failed, SomeCompiler, SomeParser

    comp, parsed = z3.Function("compiled", I, Byt), z3.Function("parsed", Byt, I)
    fails = z3.Function("parser_fails", Byt, z3.BoolSort())

    def f_compile(e, a, kw):
        d = e.force(a[1])
        ok = isinstance(d, FObj) and d.cls is Datum
        e.prove("the compiler gets the current structure", ok)
        return FBytes((("X", comp(dict(d.attrs)["id"])),)) if ok else b""

    def f_parse(e, a, kw):
        s, size = e.force(a[1]), a[2]
        toks = e.get(s).rest
        ok = len(toks) == 1 and toks[0][0] == "X"
        e.prove("the parser gets the bytes of the entry", ok)
        if not ok:
            return None
        e.prove("the parser gets the size of the entry", e.eq(size, e.toks_size(toks)))
        b = toks[0][1]
        e.get(s).rest = ()
        if e.branch(fails(b)):
            raise Raise(PyExc(Failed))
        return FObj(Datum, (("id", parsed(b)),))

    e.contracts[SomeCompiler.compile] = f_compile
    e.contracts[SomeParser.parse] = f_parse


def functions():
    import z3
    from pyvc.terms import I, Byt

    return (z3.Function("compiled", I, Byt), z3.Function("parsed", Byt, I),
            z3.Function("parser_fails", Byt, z3.BoolSort()))


def datum_of(t):
    from pyvc.values import FObj
    from specs.abstract import Datum

    return FObj(Datum, (("id", t),))


def bytes_of(t):
    from pyvc.values import FBytes

    return FBytes((("X", t),))


def any_entry(e, v, data, **kw):
    """a VfbEntry of any type in any state"""
    from pyvc.values import HInst
    from specs.abstract import SomeCompiler, SomeParser
    from props.c03 import entry_value

    o = entry_value(e, v, z3_id(e), data, parser=SomeParser, compiler=SomeCompiler)
    en = e.alloc(HInst(o.cls, dict(o.attrs)))
    for k, x in kw.items():
        e.setattr(en, k, x)
    return en


def z3_id(e):
    from props.c03 import sym_id

    return sym_id(e)


def state(e, kind):
    import z3
    from pyvc.terms import Byt

    b, d = z3.Const("bytes", Byt), z3.Int("structure")
    return bytes_of(b) if kind == "bytes" else datum_of(d), b, d


def p_entry_compile(e, kind):
    """compile: bytes of the current structure; bytes stay as they are"""
    from pyvc.compare import Comparer
    from props.c03 import new_vfb

    comp, parsed, fails = functions()
    data, b, d = state(e, kind)
    v = new_vfb(e)
    en = any_entry(e, v, data)
    r = e.call(e.getattr(en, "compile"), [])
    Comparer(e, "compile succeeds").value(r, True)
    Comparer(e, "bytes of the current structure").value(
        e.getattr(en, "data"), bytes_of(b if kind == "bytes" else comp(d)))
    e.prove("no error is marked", e.eq(e.getattr(v, "any_errors"), False))


def p_entry_decompile(e, kind):
    """decompile: structure of the current bytes; a failure keeps the bytes and is marked"""
    from pyvc.compare import Comparer
    from pyvc.engine import Raise
    from props.c03 import new_vfb
    from specs.abstract import Failed

    comp, parsed, fails = functions()
    data, b, d = state(e, kind)
    v = new_vfb(e)
    import z3

    before = z3.Bool("any_errors")
    e.setattr(v, "any_errors", before)
    en = any_entry(e, v, data)
    try:
        e.call(e.getattr(en, "decompile"), [])
    except Raise as x:
        e.prove("only errors of the parser leave decompile", x.exc.type is Failed)
        e.prove("a structure is never decompiled again", kind == "bytes")
        e.prove("only a failing parser raises", fails(b))
        Comparer(e, "failed decompile keeps the bytes").value(e.getattr(en, "data"), data)
        e.prove("failed decompile is marked in the file", e.truth(e.getattr(v, "any_errors")))
        return
    if kind == "bytes":
        e.prove("errors of the parser are not swallowed", z3.Not(fails(b)))
    Comparer(e, "structure of the current bytes").value(
        e.getattr(en, "data"), datum_of(parsed(b)) if kind == "bytes" else data)
    e.prove("no error is marked", e.eq(e.truth(e.getattr(v, "any_errors")), before))


def p_entry_merge(e, masters):
    """masters drawn with a pen are merged into the structure before it is compiled, once"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.values import FList
    from props.c03 import new_vfb
    from specs.abstract import SomeCompiler

    calls = []
    e.contracts[SomeCompiler.merge.__func__] = lambda e, a, kw: calls.append(a[1:])
    comp, parsed, fails = functions()
    data, b, d = state(e, "structure")
    tmp = FList((("e", datum_of(z3.Int("drawn"))),))
    v = new_vfb(e, num_masters=masters)
    en = any_entry(e, v, data, temp_masters=tmp)
    e.call(e.getattr(en, "compile"), [])
    want = 0 if masters == 1 else 1
    e.prove("merged exactly once if there are masters", len(calls) == want)
    if calls and len(calls) == 1:
        Comparer(e, "masters").value(calls[0][0], tmp)
        Comparer(e, "structure").value(calls[0][1], data)
        Comparer(e, "merged masters are dropped").value(e.getattr(en, "temp_masters"), None)


def sym_any_entries(e, v):
    """any number of entries, each as bytes or as a structure"""
    import z3
    from pyvc.terms import REG, I, Byt, bytlen
    from pyvc.values import Mrg
    from props.c03 import entry_value
    from specs.abstract import SomeCompiler, SomeParser

    n = z3.Int("entries#n")
    e.assume(n >= 0)
    iv = z3.Const(REG.fresh_name("i"), I)
    fid, fb, fd = z3.Function("id", I, I), z3.Function("bytes", I, Byt), z3.Function("structure", I, I)
    isb = z3.Function("compiled_form", I, z3.BoolSort())
    REG.on("id", lambda a: [a >= 0, a < 0x8000])
    REG.on("bytes", lambda a: [bytlen(a) < 2**32])
    REG.on("compiled", lambda a: [bytlen(a) < 2**32])
    data = Mrg(((isb(iv), bytes_of(fb(iv))), (z3.Not(isb(iv)), datum_of(fd(iv)))))
    ent = entry_value(e, v, fid(iv), data, parser=SomeParser, compiler=SomeCompiler)
    from pyvc.values import HList

    return e.alloc(HList((("r", n, iv, (("e", ent),)),))), (n, iv, fid(iv), isb(iv), fb(iv), fd(iv))


def pairs(n, iv, cases):
    """expected ids and data: cases [(condition, id, data)]"""
    from pyvc.values import FList

    return FList((("r", n, iv, (("c", tuple((c, (("e", (i, d)),)) for c, i, d in cases)),)),))


def got_pairs(e, v):
    from specs.fonts import entry_pairs

    return e.call(entry_pairs, [e.getattr(v, "entries")])


def p_compile_all(e):
    """Vfb.compile: every entry has the bytes of its current structure"""
    import z3
    from pyvc.compare import Comparer
    from props.c03 import new_vfb

    comp, parsed, fails = functions()
    v = new_vfb(e)
    ents, (n, iv, i, isb, b, d) = sym_any_entries(e, v)
    e.setattr(v, "entries", ents)
    e.setattr(e.getattr(v, "header"), "data", b"header")
    e.call(e.getattr(v, "compile"), [])
    Comparer(e, "entry data").value(got_pairs(e, v), pairs(n, iv, [
        (isb, i, bytes_of(b)), (z3.Not(isb), i, bytes_of(comp(d)))]))


def p_decompile_all(e, drop):
    """Vfb.decompile: every entry that is not dropped has the structure of its bytes"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.terms import REG
    from pyvc.values import HSet
    from props.c03 import hdict, new_vfb, fdict

    comp, parsed, fails = functions()
    REG.on("parser_fails", lambda a: [z3.Not(a)])
    v = new_vfb(e)
    ents, (n, iv, i, isb, b, d) = sym_any_entries(e, v)
    e.setattr(v, "entries", ents)
    e.setattr(e.getattr(v, "header"), "data", fdict(**hdict(1)))
    x = z3.Int("dropped")
    e.setattr(v, "any_errors", True)
    if drop:
        e.setattr(v, "drop_keys", e.alloc(HSet((("e", x),))))
    e.call(e.getattr(v, "decompile"), [])
    keep = i == x if drop else z3.BoolVal(False)
    Comparer(e, "entry data").value(got_pairs(e, v), pairs(n, iv, [
        (z3.And(isb, keep), i, bytes_of(b)),
        (z3.And(isb, z3.Not(keep)), i, datum_of(parsed(b))), (z3.Not(isb), i, datum_of(d))]))
    Comparer(e, "no error is marked").value(e.getattr(v, "any_errors"), False)


def p_write_any(e):
    """write: header and the current data of every entry, in order"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.natives import int_toks
    from pyvc.terms import bytlen
    from props.c03 import new_vfb, stream, header_toks, sym_header, sym_minor

    comp, parsed, fails = functions()
    minor = sym_minor(e)
    v = new_vfb(e)
    ents, (n, iv, i, isb, b, d) = sym_any_entries(e, v)
    e.setattr(v, "entries", ents)
    e.setattr(e.getattr(v, "header"), "data", sym_header(minor))
    out = stream(e, ())
    e.call(e.getattr(v, "write_bytes"), [out])

    def frame_of(t):
        size = bytlen(t)
        u16 = lambda x: tuple(int_toks(x, 2, False, False))
        return (("c", ((size > 0xFFFF, u16(i + 0x8000) + tuple(int_toks(size, 4, False, False))),
                       (z3.Not(size > 0xFFFF), u16(i) + u16(size)))), ("X", t))

    frames = (("r", n, iv, (("c", ((isb, frame_of(b)), (z3.Not(isb), frame_of(comp(d))))),)),)
    Comparer(e, "file reflects the current data").tokens(
        e.get(out).data, header_toks(e, minor, 44) + (("O", 0),) * 32 + frames)


SEEN = ("num_masters", "ttStemsV_count", "ttStemsH_count", "writer_platform", "encoding", "any_errors",
        "glyph_order", "ps_hinting_options", "_glyphs")


def p_read_again(e):
    """reading a file: nothing of what the object held before is left"""
    import z3
    from pyvc.compare import Comparer
    from props.c03 import header_toks, new_vfb, stream, sym_entries, sym_minor

    minor = sym_minor(e)
    a, v = new_vfb(e), new_vfb(e)
    old = lambda k: datum_of(z3.Int("old_" + k))
    seen = [k for k in SEEN if k in e.get(v).attrs]
    for k in seen:
        e.setattr(v, k, old(k))
    for k in ("header", "entries"):
        e.setattr(v, k, old(k))
    ents, frames = sym_entries(e, v)
    toks = header_toks(e, minor, 44) + (("O", 0),) * 32 + frames
    e.call(e.getattr(a, "read_bytes"), [stream(e, toks)])
    e.call(e.getattr(v, "read_bytes"), [stream(e, toks)])
    for k in seen:
        Comparer(e, f"{k} is that of the new file").value(e.getattr(v, k), e.getattr(a, k))
    Comparer(e, "header").value(*[e.getattr(e.getattr(x, "header"), "data") for x in (v, a)])
    Comparer(e, "entries").value(got_pairs(e, v), got_pairs(e, a))


def c_history(d, *args):
    import random

    rng = random.Random(1)
    return history, gen(rng)


def export_frame(M, ents, glyphs, kinds):
    """exporting leaves the data and the file as they were; exceptions are not judged here"""
    from specs.fonts import export, make_font
    from vfbLib.tth import extract_truetype_hinting

    vfb = make_font(M, copy.deepcopy(ents), copy.deepcopy(glyphs))
    before = [(e.key, copy.deepcopy(e.data)) for e in vfb.entries]
    fails = []
    for kind, options in kinds:
        try:
            if kind == "ufo":
                export(vfb, **options)
            elif kind == "tth":
                with contextlib.redirect_stdout(io.StringIO()):
                    extract_truetype_hinting(vfb)
            else:
                import json

                json.dumps(vfb.as_dict(), default=str)
        except Exception:
            pass
        for e, (k, d) in zip(vfb.entries, before):
            if not same(e.data, d):
                fails.append(dict(clause="exporting leaves the data as it was",
                                  detail=f"{kind} {options}: {k}: {short(e.data)} was {short(d)}"))
        if len(vfb.entries) != len(before):
            fails.append(dict(clause="exporting adds and removes no entries", detail=kind))
        if fails:
            break
    return fails


EXPORTS = [("ufo", {}), ("ufo", {}), ("ufo", dict(minimal=True)), ("ufo", dict(base64=True)), ("ufo", dict(pshints=False)),
           ("ufo", dict(add_kerning_groups=True)), ("ufo", dict(move_groups=False)), ("tth", {}), ("tth", {}), ("dict", {})]


def proofs():
    from props.proofs import Proof

    out = []
    for k in ("bytes", "structure"):
        out.append(Proof(f"VfbEntry.compile of an entry held as {k}", p_entry_compile, (k,), setup=setup_any))
        out.append(Proof(f"VfbEntry.decompile of an entry held as {k}", p_entry_decompile, (k,), setup=setup_any))
    for m in (1, 2, 4):
        out.append(Proof(f"VfbEntry.compile with drawn masters, {m} masters", p_entry_merge, (m,), setup=setup_any))
    out.append(Proof("Vfb.compile, any number of entries", p_compile_all, setup=setup_any))
    for x in (False, True):
        out.append(Proof("Vfb.decompile, any number of entries" + ", one key dropped" * x, p_decompile_all, (x,),
                         setup=setup_any))
    out.append(Proof("Vfb.write_bytes, any number of entries in any form", p_write_any, setup=setup_any))
    out.append(Proof("Vfb.read_bytes into an object in any state", p_read_again, setup=setup_any))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(700, 15000)):
        run.case(history, *gen(rng))
    for _ in range(run.n(150, 2000)):
        raws = [(rng.choice([i for i in sorted(TABLE) if i not in AT_ONCE] + [UNKNOWN]), rng.randbytes(rng.choice([0, 1, 3, 30])))
                for _ in range(rng.randint(0, 6))]
        run.case(raw_history, rng.randrange(256), raws,
                 [rng.choice(["write", "write", "compile", "as_dict", "header"]) for _ in range(rng.randint(1, 5))])
    for _ in range(run.n(100, 1500)):
        eid = rng.choice([i for i in TABLE if i not in (2001, *AT_ONCE)])
        good = wire(eid, datum(rng, eid, 1), 1)
        run.case(failing, eid, good, good + b"\0" * 3 if rng.random() < 0.5 else good[:-1], None)
    from specs.rich import rich_font

    for _ in range(run.n(400, 6000)):
        run.case(export_frame, *rich_font(rng), [rng.choice(EXPORTS) for _ in range(rng.randint(1, 3))])
    return proofs.finish(run)
