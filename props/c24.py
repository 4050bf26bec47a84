"""C24 JSON export"""
import contextlib
import copy
import io
import json
import struct
import tempfile
from pathlib import Path

from pyvc.concrete import same
from specs.jsonout import plain


def files():
    return tempfile.TemporaryDirectory(prefix="vfb-json-")


def frame(eid, data):
    if len(data) > 0xFFFF:
        return struct.pack("<HI", eid | 0x8000, len(data)) + data
    return struct.pack("<HH", eid, len(data)) + data


def file_header():
    from vfbLib.vfb.vfb import Vfb  # noqa: F401 (the header is decided by C03)
    from vfbLib.compilers.header import VfbHeaderCompiler
    from props.c03 import hdict

    return hdict(1), VfbHeaderCompiler().compile(hdict(1))


def name_of(eid):
    from specs import entries

    for e in entries.ENTRIES:
        if eid in e.ids:
            return e.ids[eid]
    return None


def contents(M, cases):
    """the entries of a file: [(id, name, bytes, decompiled data)]"""
    from specs import entries
    from specs.wire import run_wire

    out = [(1503, "Master Count", struct.pack("<H", M), M)]
    for idx, eid, ctx, d in cases:
        e = entries.ENTRIES[idx]
        w = run_wire(e.layout, d, ctx)
        x = e.expect(d, ctx) if e.expect else d
        out.append((eid, e.ids[eid], w, x))
    return out


def written(fails, what, path, header, want, only_header=False):
    if not path.exists():
        fails.append(dict(clause=what, detail="no file"))
        return
    got = json.loads(path.read_bytes())
    if set(got) != {"header", "entries"}:
        fails.append(dict(clause=what, detail=str(sorted(got))))
        return
    if not same(got["header"], {"decompiled": plain(header)}):
        fails.append(dict(clause=f"{what}: header", detail=str(got["header"])[:500]))
    if only_header:
        want = []
    if len(got["entries"]) != len(want):
        fails.append(dict(clause=f"{what}: number of entries", detail=f"{len(got['entries'])} != {len(want)}"))
        return
    for g, w in zip(got["entries"], want):
        if not same(g, plain(w)):
            fails.append(dict(clause=f"{what}: entry", detail=f"{str(g)[:600]} != {str(plain(w))[:600]}"))


def again(raw):
    """the bytes of the entries of a file after decompiling and compiling"""
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    v.read_bytes(io.BytesIO(raw))
    v.decompile()
    v.compile()
    return [x.data for x in v.entries]


def json_contract(M, cases, options, unknown):
    """save_vfb_json of a file with these entries"""
    from vfbLib.json import save_vfb_json

    fails = []
    header, head = file_header()
    ents = contents(M, cases)
    ents += [(eid, str(eid), b, b.hex()) for eid, b in unknown]
    raw = head + b"".join(frame(eid, b) for eid, _, b, _ in ents)
    with files() as tmp:
        src = Path(tmp) / "My Font.1.vfb"
        src.write_bytes(raw)
        (Path(tmp) / "out").mkdir()
        kw = dict(options)
        out = Path(tmp) / "out" if kw.pop("elsewhere", False) else None
        with contextlib.redirect_stdout(io.StringIO()):
            save_vfb_json(src, out_path=out, **kw)
        early = set() if kw.get("roundtrip") else {1503}  # the reader needs it
        want = []
        if kw.get("roundtrip") and kw.get("no_decompile"):
            ents = [(i, n, b, d) for (i, n, _, d), b in zip(ents, again(raw))]
            header = head.hex()
        for eid, name, b, d in ents:
            if kw.get("no_decompile") and eid not in early:
                want.append(dict(key=name, size=len(b), decompiled=b.hex()))
            else:
                want.append(dict(key=name, decompiled=d))
        written(fails, "JSON", (out or Path(tmp)) / "My Font.1.vfb.json", header, want,
                kw.get("only_header", False))
        if src.read_bytes() != raw:
            fails.append(dict(clause="the font file is unchanged (frame)", detail=""))
    return fails


def dict_contract(M, cases):
    """Vfb.as_dict in any mix of both forms; the font stays as it is"""
    from vfbLib.vfb.vfb import Vfb

    fails = []
    header, head = file_header()
    ents = contents(M, cases)
    raw = head + b"".join(frame(eid, b) for eid, _, b, _ in ents)
    v = Vfb(timing=False)
    v.read_bytes(io.BytesIO(raw))
    want = []
    for i, ((eid, name, b, d), en) in enumerate(zip(ents, v.entries)):
        if i % 2 or eid == 1503:
            en.decompile()
            want.append(dict(key=name, decompiled=d))
        else:
            want.append(dict(key=name, size=len(b), decompiled=b.hex()))
    before = copy.deepcopy([(x.id, x.key, x.data) for x in v.entries])
    got = v.as_dict()
    if not same(plain(got), plain(dict(header=dict(decompiled=header), entries=want))):
        fails.append(dict(clause="as_dict", detail=f"{str(plain(got))[:900]} != {str(plain(want))[:900]}"))
    if not same([(x.id, x.key, x.data) for x in v.entries], before):
        fails.append(dict(clause="as_dict leaves the font as it is (frame)", detail=""))
    return fails


def key_contract(eid, data):
    """the name under which an entry is written"""
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    en = VfbEntry(Vfb(timing=False), eid=eid)
    en.data = data
    fails = []
    want = dict(key=name_of(eid) or str(eid), size=len(data), decompiled=data.hex())
    got = dict(en.as_dict())
    if name_of(eid) is None and not got["key"].isdigit():
        # registered, but none of the entries under contract
        from vfbLib.constants import parser_classes

        want["key"] = parser_classes[eid][0]
    if got != want:
        fails.append(dict(clause="as_dict of bytes", detail=f"{got} != {want}"))
    if en.data != data:
        fails.append(dict(clause="entry unchanged (frame)", detail=""))
    return fails


def diff_contract(M, cases, other):
    """vfbdiff: the lines in which the exported data differ, none if they are the same"""
    import sys
    from unittest import mock

    from vfbLib.diff import diffvfb

    fails = []
    header, head = file_header()
    with files() as tmp:
        paths, wants = [], []
        for name, cs in (("a.vfb", cases), ("b.vfb", other)):
            ents = contents(M, cs)
            p = Path(tmp) / name
            p.write_bytes(head + b"".join(frame(eid, b) for eid, _, b, _ in ents))
            paths.append(str(p))
            wants.append([dict(key=n, decompiled=plain(d)) for _, n, _, d in ents])
        html = Path(tmp) / "diff.html"

        def run(*more):
            out = io.StringIO()
            with mock.patch.object(sys, "argv", ["vfbdiff", *more, *paths]), contextlib.redirect_stdout(out):
                diffvfb()
            return out.getvalue().splitlines()

        got = run()
        run("--html", str(html))
        page = html.read_text("utf-8")
    equal = same(*wants)
    if (got == []) != equal:
        fails.append(dict(clause="differences are shown if there are any", detail=str(got)[:500]))
    if not equal:
        lines = [json_lines(header, w) for w in wants]
        for sign, k in (("-", 0), ("+", 1)):
            shown = [x[1:] for x in got if x.startswith(sign) and not x.startswith(3 * sign + " ")]
            ok = [x for x in shown if x in lines[k]]
            if len(ok) != len(shown) or not (shown or len(lines[k]) < len(lines[1 - k])):
                fails.append(dict(clause="differing lines", detail=f"{shown} {lines[k]}"[:900]))
    else:
        lines = None
    if lines:
        # in HTML a row of the table shows one line of the data
        rows = page.count('class="diff_header"')
        if rows > 2 * (len(lines[0]) + len(lines[1])):
            fails.append(dict(clause="HTML: one row for a line", detail=f"{rows} rows for {len(lines[0])} lines"))
    elif "No Differences Found" not in page:
        fails.append(dict(clause="HTML: no differences", detail=""))
    return fails


def json_lines(header, entries):
    import orjson

    return orjson.dumps(dict(header=dict(decompiled=plain(header)), entries=entries),
                        option=orjson.OPT_INDENT_2 | orjson.OPT_SORT_KEYS).decode().splitlines()


SPECIAL = {1503, 10, 1269, 1410, 2}  # the reader interprets them


def gen_cases(rng, M, n):
    from specs import entries
    from specs.wire import Ctx

    able = [i for i, e in enumerate(entries.ENTRIES) if (e.schema or e.concrete) and not e.part
            and not SPECIAL & set(e.ids)
            and (len(e.ctxs) == 1 or any(c.M == M and not c.ttv and not c.tth for c in e.ctxs))]
    out = []
    while len(out) < n:
        i = rng.choice(able)
        e = entries.ENTRIES[i]
        ctx = next((c for c in e.ctxs if c.M == M and not c.ttv and not c.tth), e.ctxs[0])
        if (ctx.ttv, ctx.tth, ctx.platform) != (0, 0, "macos"):
            continue
        d = (e.concrete or e.schema)(ctx).gen(rng, rng.choice([0, 1, 2, 3]))
        try:
            json.dumps(plain(d), allow_nan=False)
        except ValueError:
            continue  # no number
        out.append((i, rng.choice(list(e.ids)), ctx, d))
    return out


OPTIONS = [dict(), dict(no_decompile=True), dict(roundtrip=True), dict(roundtrip=True, no_decompile=True),
           dict(only_header=True), dict(elsewhere=True), dict(unicode_strings=True), dict(minimal=True)]


# ------------------------------------------------------------------ proofs
def some_dict(e, d):
    """keys and values of a dict in their order"""
    from specs.jsonout import pairs_of

    return e.call(pairs_of, [[d]])


def p_entry(e, kind, minimize):
    """VfbEntry.as_dict of an entry with any name, held in any form"""
    import z3
    from props.c03 import byts, new_vfb, sym_id
    from props.c04 import any_entry, datum_of
    from pyvc.compare import Comparer
    from pyvc.schema import HEXOF, Text
    from pyvc.terms import Byt, bytlen
    from pyvc.values import FBytes, SStr
    from specs.abstract import SomeCompiler, SomeParser
    from specs.jsonout import entry_dict

    v = new_vfb(e)
    b = z3.Const("bytes", Byt)
    data = dict(bytes=FBytes((("X", b),)), structure=datum_of(z3.Int("structure")), nothing=None)[kind]
    en = any_entry(e, v, data)
    key = Text().sym("key")
    e.setattr(en, "key", key)
    kw = {} if minimize is None else dict(minimize=minimize)
    got = e.call(e.getattr(en, "as_dict"), [], kw)
    if kind == "bytes":
        want = e.call(entry_dict, [key, SStr(HEXOF(b)), bytlen(b)])
    else:
        want = e.call(entry_dict, [key, data, None])
    if minimize is False:
        e.setitem(want, "parser", "SomeParser")
        e.setitem(want, "compiler", "SomeCompiler")
    Comparer(e, "dict of the entry").value(got, want)
    Comparer(e, "the entry keeps its data").value(e.getattr(en, "data"), data)
    Comparer(e, "the entry keeps its name").value(e.getattr(en, "key"), key)


def p_font(e, decompiled):
    """Vfb.as_dict: header and every one of any number of entries, in their order"""
    import z3
    from props.c03 import fdict, new_vfb, hdict
    from props.c04 import bytes_of, datum_of
    from pyvc.compare import Comparer
    from pyvc.schema import HEXOF
    from pyvc.terms import I, REG, Byt, Str, bytlen
    from pyvc.values import FDict, FList, FObj, HList, Mrg, SStr
    from specs.abstract import SomeCompiler, SomeParser
    from props.c03 import entry_value

    v = new_vfb(e)
    n = z3.Int("entries#n")
    e.assume(n >= 0)
    iv = z3.Const(REG.fresh_name("i"), I)
    key, fb, fd = z3.Function("key", I, Str)(iv), z3.Function("bytes", I, Byt)(iv), z3.Function("structure", I, I)(iv)
    isb = z3.Function("compiled_form", I, z3.BoolSort())(iv)
    data = Mrg(((isb, bytes_of(fb)), (z3.Not(isb), datum_of(fd))))
    o = entry_value(e, v, z3.Function("id", I, I)(iv), data, parser=SomeParser, compiler=SomeCompiler)
    o = FObj(o.cls, tuple((a, SStr(key) if a == "key" else x) for a, x in o.attrs))
    ents = e.alloc(HList((("r", n, iv, (("e", o),)),)))
    e.setattr(v, "entries", ents)
    head = fdict(**hdict(1)) if decompiled else bytes_of(z3.Const("header bytes", Byt))
    e.setattr(e.getattr(v, "header"), "data", head)
    got = e.call(e.getattr(v, "as_dict"), [])
    c = Comparer(e, "header")
    c.value(e.getitem(e.getitem(got, "header"), "decompiled"),
            head if decompiled else SStr(HEXOF(z3.Const("header bytes", Byt))))
    both = lambda k, x: ("e", (k, x))
    want = FList((("r", n, iv, (("c", (
        (isb, (("e", FDict((("e", "key", SStr(key)), ("e", "size", bytlen(fb)), ("e", "decompiled", SStr(HEXOF(fb)))))),)),
        (z3.Not(isb), (("e", FDict((("e", "key", SStr(key)), ("e", "decompiled", datum_of(fd))))),)))),)),))
    Comparer(e, "entries").value(e.getitem(got, "entries"), want)
    Comparer(e, "the font keeps its entries").value(e.getattr(v, "entries"), ents)


def p_save(e, elsewhere, roundtrip, no_decompile):
    """save_vfb_json: what is done to the font, in which order, and what is written where"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.values import FList
    from specs import jsonout
    from vfbLib import json as target
    from vfbLib.vfb.vfb import Vfb

    import orjson

    made, outs, dumps = [], [], []

    def font(e, a, kw):
        made.append(e.instantiate(jsonout.SomeVfb, a, kw))
        return made[-1]

    def open_(e, a, kw):
        outs.append(e.instantiate(jsonout.SomeOutput, a, kw))
        return outs[-1]

    def dump(e, a, kw):
        dumps.append((a[0], kw.get("option", a[2] if len(a) > 2 else None)))
        return b"the text"

    e.contracts[Vfb] = font
    e.contracts[open] = open_
    e.contracts[orjson.dumps] = dump
    flag = lambda n: z3.Const(n, z3.BoolSort())
    kw = dict(only_header=flag("only header"), minimal=flag("minimal"), unicode_strings=flag("unicode strings"))
    src = Path("/fonts/My Font.1.vfb")
    e.call(target.save_vfb_json, [src], dict(kw, roundtrip=roundtrip, no_decompile=no_decompile,
                                             **(dict(out_path=Path("/out")) if elsewhere else {})))
    e.prove("one font, one file, one text", (len(made), len(outs), len(dumps)) == (1, 1, 1))
    ops = [("read", src, kw["minimal"], None, kw["only_header"], kw["unicode_strings"])]
    if roundtrip:
        ops += [("decompile",), ("compile",)]
    if not no_decompile:
        ops += [("decompile",)]
    ops += [("as_dict",)]
    Comparer(e, "what is done to the font").value(e.getattr(made[0], "log"), FList(tuple(("e", x) for x in ops)))
    e.prove("the dict of the font is written", dumps[0][0] == made[0])
    e.prove("keys that are numbers are allowed", bool(dumps[0][1] & orjson.OPT_NON_STR_KEYS))
    f = outs[0]
    path = e.force(e.getattr(f, "path"))
    e.prove("where", str(path) == ("/out" if elsewhere else "/fonts") + "/My Font.1.vfb.json")
    e.prove("how", e.getattr(f, "mode") == "wb")
    Comparer(e, "what is written").value(e.getattr(f, "log"), FList(tuple(
        ("e", x) for x in [("open",), ("write", b"the text"), ("close",)])))


def p_diff(e):
    """vfbdiff: both fonts are read and decompiled; the lines of their data are compared, and what the
    comparison gives is shown or written"""
    import codecs
    import difflib

    import orjson
    from props.c25 import Arguments, Log, bound, is_same
    from pyvc.compare import Comparer
    from pyvc.values import FList
    from specs import commands, jsonout
    from vfbLib import diff
    from vfbLib.vfb.vfb import Vfb

    e.subject = ("diff",)
    paths = ["/fonts/A.vfb", "/other/B.vfb"]
    args = Arguments(e, file1=paths[0], file2=paths[1])
    args.given["--html"] = "/out/d.html"
    log = Log(e)
    texts = ["{\n  \"x\": 1,\n}", "{\n  \"y\": 2\n}"]

    def read(e, a, kw):
        kw = bound(Vfb, a, kw)
        font = e.instantiate(commands.SomeFont, [], {})
        e.setattr(font, "number", paths.index(str(e.force(kw["vfb_path"]))))
        log.append(("open", font, kw))
        return font

    def once(name, result=None):
        def go(e, a, kw):
            log.append((name, a[0]))
            return e.getattr(a[0], "number") if result else None
        return go

    def dump(e, a, kw):
        log.append(("dump", a[0], kw.get("option", a[2] if len(a) > 2 else None)))
        return texts[a[0]].encode()

    def compare(e, a, kw):
        log.append(("compare", bound(difflib.unified_diff, a, kw)))
        return FList((("e", "--- one line"), ("e", "+++ another line")))

    def page(e, a, kw):
        log.append(("page", bound(difflib.HtmlDiff.make_file, a, kw)))
        return "the page"

    def open_(e, a, kw):
        f = e.instantiate(jsonout.SomeOutput, list(a[:2]), {})
        log.append(("file", f))
        return f

    e.contracts[Vfb] = read
    e.contracts[commands.SomeFont.read] = lambda e, a, kw: None
    e.contracts[commands.SomeFont.decompile] = once("decompile")
    e.contracts[commands.SomeFont.as_dict] = once("as_dict", True)
    e.contracts[orjson.dumps] = dump
    e.contracts[difflib.unified_diff] = compare
    e.contracts[difflib.HtmlDiff] = lambda e, a, kw: e.instantiate(commands.SomePage, [], {})
    e.contracts[commands.SomePage.make_file] = page
    e.contracts[codecs.open] = open_
    e.contracts[open] = open_
    e.contracts[print] = lambda e, a, kw: log.append(("print", [e.force(x) for x in a]))
    e.call(diff.diffvfb, [])
    seen = log.all()
    kinds = [x[0] for x in seen]
    for i in (0, 1):
        ops = [x[0] for x in seen if x[0] in ("decompile", "as_dict") and e.getattr(x[1], "number") == i]
        e.prove("both fonts are decompiled before their data are taken", ops == ["decompile", "as_dict"])
        e.prove("keys that are numbers are allowed, in one order", all(
            x[2] & orjson.OPT_NON_STR_KEYS and x[2] & orjson.OPT_SORT_KEYS for x in seen if x[0] == "dump"))
    e.prove("both fonts are opened", kinds.count("open") == 2)
    html = args.of(e, "--html")
    lines = [FList(tuple(("e", x) for x in t.splitlines())) for t in texts]
    if html is None:
        if not e.prove("compared once", kinds.count("compare") == 1):
            return
        c = seen[kinds.index("compare")][1]
        Comparer(e, "lines of the first font").value(c["a"], lines[0])
        Comparer(e, "lines of the second font").value(c["b"], lines[1])
        e.prove("every line is shown, nothing else",
                [x[1] for x in seen if x[0] == "print"] == [["--- one line"], ["+++ another line"]])
    else:
        if not e.prove("compared once", (kinds.count("page"), kinds.count("file"), kinds.count("print")) == (1, 1, 0)):
            return
        c = seen[kinds.index("page")][1]
        Comparer(e, "lines of the first font").value(c["fromlines"], lines[0])
        Comparer(e, "lines of the second font").value(c["tolines"], lines[1])
        f = seen[kinds.index("file")][1]
        is_same(e, "where", e.getattr(f, "path"), Path("/out/d.html"))
        Comparer(e, "what is written").value(e.getattr(f, "log"), FList(tuple(
            ("e", x) for x in [("open",), ("write", "the page"), ("close",)])))


def c_any(d, *args):
    import random

    return dict_contract, (1, gen_cases(random.Random(4), 1, 12))


def c_save(d, elsewhere, roundtrip, no_decompile):
    import random

    return json_contract, (1, gen_cases(random.Random(4), 1, 6), dict(
        elsewhere=elsewhere, roundtrip=roundtrip, no_decompile=no_decompile), [])


def proofs():
    from props.c04 import setup_any
    from props.proofs import Proof

    out = []
    for kind in ("bytes", "structure", "nothing"):
        for m in (None, True, False):
            out.append(Proof(f"VfbEntry.as_dict, {kind}" + f", minimize {m}" * (m is not None), p_entry, (kind, m),
                             setup=setup_any, case=c_any))
    for d in (True, False):
        out.append(Proof("Vfb.as_dict, any number of entries, header as " + ("fields" if d else "bytes"), p_font, (d,),
                         setup=setup_any, case=c_any))
    for a in (False, True):
        for b in (False, True):
            for c in (False, True):
                out.append(Proof("save_vfb_json" + ", elsewhere" * a + ", round trip" * b + ", no decompiling" * c,
                                 p_save, (a, b, c), case=c_save))
    out.append(Proof("diffvfb", p_diff, modular=True))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs
    from vfbLib.constants import parser_classes

    proofs.prove(run, __name__)
    rng = run.rng
    for eid in sorted(parser_classes) + [3, 6, 9999, 0x7FFF]:
        run.case(key_contract, int(eid), rng.randbytes(rng.choice([0, 1, 20])), label="names")
    for i in range(run.n(60, 900)):
        M = rng.choice([1, 1, 2, 4, 16])
        unknown = [(rng.choice([3, 6, 9999]), rng.randbytes(rng.choice([0, 4, 70000])))
                   for _ in range(rng.choice([0, 0, 1]))]
        run.case(json_contract, M, gen_cases(rng, M, rng.choice([1, 4, 20])), OPTIONS[i % len(OPTIONS)], unknown)
    for i in range(run.n(40, 600)):
        M = rng.choice([1, 2, 4, 8])
        run.case(dict_contract, M, gen_cases(rng, M, rng.choice([1, 5, 20])))
    for i in range(run.n(20, 300)):
        M = rng.choice([1, 2])
        a = gen_cases(rng, M, rng.choice([1, 3, 6]))
        b = list(a)
        if i % 3:
            b[rng.randrange(len(b))] = gen_cases(rng, M, 1)[0]
        if i % 3 == 2:
            b.append(gen_cases(rng, M, 1)[0])
        run.case(diff_contract, M, a, b)
    return proofs.finish(run)
