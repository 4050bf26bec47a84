"""C25 the commands"""
import contextlib
import copy
import io
import sys
import tempfile
from pathlib import Path

from pyvc.concrete import same


def run_command(command, args):
    """-> (what it raised, what it printed)"""
    out = io.StringIO()
    argv = sys.argv
    sys.argv = ["command", *map(str, args)]
    err = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            command()
    except (Exception, SystemExit) as x:
        err = x
    finally:
        sys.argv = argv
    return err, out.getvalue()


def folder():
    return tempfile.TemporaryDirectory(prefix="vfb-cmd-")


def listing(tmp):
    """every file of a folder and what is in it"""
    return {str(p.relative_to(tmp)): p.read_bytes() if p.is_file() else None for p in sorted(Path(tmp).rglob("*"))}


def font_file(path, M, upm, glyphs, more=()):
    """glyphs: data of the glyph entries; more: what follows each of them"""
    from specs.fonts import entry
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.num_masters = M
    entry(vfb, 1503, M)
    entry(vfb, "upm", upm)
    for g in copy.deepcopy(glyphs):
        entry(vfb, 2001, g)
        for k, d in more:
            entry(vfb, k, d)
    vfb.header.data = dict(signature=0x464C571A, app_version=0x31, file_version=0x30,
                           version_major=3, version_minor=0)
    vfb.write(path)


def entries_of(path):
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(path, timing=False)
    v.decompile()
    return [(x.id, x.data) for x in v.entries]


def cu2qu_contract(M, upm, glyphs, opts):
    """vfbcu2qu: opts: dict(folder=, force=, exists=, max_err=)"""
    from vfbLib.cu2qu import vfbcu2qu

    fails = []
    with folder() as tmp:
        tmp = Path(tmp)
        src = tmp / "My Font.1.vfb"
        font_file(src, M, upm, glyphs, [(2008, dict(x=[(0, 1)], y=[])), (2010, b"\0\0\0\x20"), (7777, b"unknown")])
        raw = src.read_bytes()
        before = entries_of(src)
        (tmp / "out").mkdir()
        args = [src]
        target = tmp / "My Font.1.qu.vfb"
        if opts.get("folder"):
            args += ["-p", tmp / "out"]
            target = tmp / "out" / "My Font.1.vfb"
        elif opts.get("named"):
            target = tmp / "out" / "New.Name.vfb"
            args.append(target)
        if opts.get("force"):
            args.append(opts["force"])
        if opts.get("max_err"):
            args += ["-m", opts["max_err"]]
        if opts.get("exists"):
            target.write_bytes(b"a file")
        was = listing(tmp)
        err, text = run_command(vfbcu2qu, args)
        now = listing(tmp)
        name = str(target.relative_to(tmp))
        for k in was:
            if k != name and was[k] != now.get(k, 0):
                fails.append(dict(clause="other files stay as they are (frame)", detail=k))
        if set(now) - set(was) - {name}:
            fails.append(dict(clause="one file is written", detail=f"{sorted(now)}"))
        drawn = any(n["type"] == "move" for g in glyphs for n in g["nodes"])
        if opts.get("exists") and not opts.get("force") or not drawn:
            if now != was:
                fails.append(dict(clause="no file is overwritten" if drawn else "nothing to convert", detail=text[-300:]))
            if drawn != (err is not None):
                fails.append(dict(clause="an error if the file exists", detail=repr(err)))
            return fails
        if err is not None:
            return fails + [dict(clause="the font is converted", detail=f"{err!r} {text[-500:]}")]
        if now.get(name) in (None, b"a file"):
            return fails + [dict(clause="the file is written", detail=name)]
        after = entries_of(target)
    before = [x for x in before if x[0] != 2008]
    if [x[0] for x in after] != [x[0] for x in before]:
        return fails + [dict(clause="the same entries but for the links", detail=f"{[x[0] for x in after]}")]
    for (eid, old), (_, new) in zip(before, after):
        if eid != 2001:
            if not same(old, new):
                fails.append(dict(clause="other entries stay as they are (frame)", detail=f"{eid} {old} {new}"))
            continue
        fails += converted(old, new, M, upm * float(opts.get("max_err") or 0.001))
    return fails


JSON_FLAGS = [("no_decompile", "-d", "--no-decompile"), ("only_header", "--header", "--header"),
              ("minimal", "-m", "--minimal"), ("roundtrip", "-r", "--roundtrip"),
              ("unicode_strings", "-u", "--unicode-strings")]


def json_command_contract(M, glyphs, flags, elsewhere):
    """vfb2json: what save_vfb_json writes with these options"""
    from vfbLib.cmdline import vfb2json
    from vfbLib.json import save_vfb_json

    fails = []
    with folder() as tmp:
        tmp = Path(tmp)
        for d in ("a", "a/out", "b"):
            (tmp / d).mkdir()
        for d in "ab":
            font_file(tmp / d / "My Font.1.vfb", M, 1000, glyphs, [(1056, "né")])
        kw = {n: n in flags for n, _, _ in JSON_FLAGS}
        with contextlib.redirect_stdout(io.StringIO()):
            save_vfb_json(tmp / "b" / "My Font.1.vfb", **kw)
        was = listing(tmp)
        args = [tmp / "a" / "My Font.1.vfb"] + [f[1 + i % 2] for i, f in enumerate(JSON_FLAGS) if f[0] in flags]
        err, text = run_command(vfb2json, args + ["-p", tmp / "a" / "out"] * elsewhere)
        now = listing(tmp)
        name = "a/out/My Font.1.vfb.json" if elsewhere else "a/My Font.1.vfb.json"
        if err is not None or now.pop(name, None) != was["b/My Font.1.vfb.json"]:
            fails.append(dict(clause="JSON of the command", detail=f"{err!r} {sorted(now)} {text[-300:]}"))
        if now != was:
            fails.append(dict(clause="one file is written (frame)", detail=f"{sorted(now)}"))
        err, text = run_command(vfb2json, [tmp / "none.vfb"])
        if not isinstance(err, SystemExit) or not err.code or listing(tmp).keys() - now.keys() - {name}:
            fails.append(dict(clause="an error without a file", detail=repr(err)))
    return fails


UFO_FLAGS = [("keep groups", "-g", "--keep-groups"), ("json", "-j", "--json"),
             ("kerning groups", "-k", "--add-kerning-groups"), ("base64", "-64", "--base64"),
             ("silent", "-s", "--silent"), ("raw", "-n", "--no-normalize"),
             ("no hints", "-nops", "--no-postscript-hints"), ("zip", "-z", "--zip"),
             ("minimal", "-m", "--minimal"), ("unicode", "-u", "--unicode-strings")]


def ufo_font(path):
    """a font of one master on whose export every option has an effect"""
    from specs.fonts import entry, glyph_data
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.num_masters = 1
    entry(vfb, 1503, 1)
    entry(vfb, "upm", 1000)
    entry(vfb, 1056, "né")
    for c in ("_A: A' B", ".mtrx1: A C", "OTHER: B C"):
        entry(vfb, "OpenType Class", c)
    ps = dict(font_matrix=[0.001, 0.0, 0.0, 0.001, 0.0, 0.0], force_bold=0, blue_scale=0.04, blue_shift=7, blue_fuzz=1,
              std_hw=20, std_vw=30, bounding_box=dict(xMin=0, yMin=0, xMax=100, yMax=100), adv_width_min=0,
              adv_width_max=0, adv_width_avg=0, ascender=0, descender=0, x_height=0, cap_height=0)
    for k, n in [("blue_values", 14), ("other_blues", 10), ("family_blues", 14), ("family_other_blues", 10),
                 ("stem_snap_h", 12), ("stem_snap_v", 12)]:
        ps[k] = [0] * n
        ps[f"num_{k}"] = 0
    entry(vfb, 1536, ps)
    node = lambda t, x, y: dict(type=t, flags=0, points=[[(x, y)]])
    square = [node("move", 0, 0), node("line", 100, 0), node("line", 100, 100), node("line", 0, 100)]
    for n in "AB":
        entry(vfb, 2001, glyph_data(n, 1, nodes=copy.deepcopy(square), hints=dict(
            h=[[dict(pos=0, width=20)]], v=[[dict(pos=0, width=30)]])))
    vfb.header.data = dict(signature=0x464C571A, app_version=0x31, file_version=0x30,
                           version_major=3, version_minor=0)
    vfb.write(path)


def ufo_command_contract(flags, where, force, exists):
    """vfb3ufo: what the exporter writes with these options"""
    from vfbLib.cmdline import vfb2ufo
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.vfb.vfb import Vfb

    fails = []
    on = lambda n: n in flags
    suffix = ".json" if on("json") else ".ufoz" if on("zip") else ".ufo"
    with folder() as tmp:
        tmp = Path(tmp)
        for d in ("a", "a/out", "b"):
            (tmp / d).mkdir()
        for d in "ab":
            ufo_font(tmp / d / "My Font.1.vfb")
        v = Vfb(tmp / "b" / "My Font.1.vfb", timing=False, minimal=on("minimal"), unicode_strings=on("unicode"),
                drop_keys={1500, 1501})
        v.decompile()
        with contextlib.redirect_stdout(io.StringIO()):
            VfbToUfoBuilder(v, minimal=on("minimal"), base64=on("base64"), pshints=not on("no hints"),
                            add_kerning_groups=on("kerning groups"), move_groups=not on("keep groups"),
                            normalize=not on("raw")).write(
                (tmp / "b" / "My Font.1.vfb").with_suffix(".ufoz" if on("zip") and not on("json") else ".ufo"),
                overwrite=False, silent=True, ufoz=on("zip"), json=on("json"))
        want = {k[2:]: x for k, x in listing(tmp).items() if k.startswith("b/") and not k.endswith(".vfb")}
        args = [tmp / "a" / "My Font.1.vfb"] + [f[1 + i % 2] for i, f in enumerate(UFO_FLAGS) if f[0] in flags]
        base = "a/"
        stem = "My Font.1"
        if where == "folder":
            args += ["-p", tmp / "a" / "out"]
            base = "a/out/"
        elif where == "named":
            stem = "New.Name"
            args.insert(1, tmp / "a" / "out" / (stem + suffix))
            base = "a/out/"
        if force:
            args.append(force)
        goal = tmp / (base + stem + suffix)
        if exists and not on("json"):
            goal.mkdir() if suffix == ".ufo" else goal.write_bytes(b"a file")
            if suffix == ".ufo":
                (goal / "a file").write_bytes(b"")
        was = listing(tmp)
        err, text = run_command(vfb2ufo, args)
        now = listing(tmp)
        if exists and not force and not on("json"):
            if now != was:
                fails.append(dict(clause="nothing is overwritten unless that was asked for", detail=repr(err)))
            return fails
        if err is not None:
            return fails + [dict(clause="the font is exported", detail=f"{err!r} {text[-300:]}")]
        got = {k[len(base):].replace(stem, "My Font.1"): x for k, x in now.items() if k.startswith(base + stem)
               and not k.endswith(".vfb")}
        if on("zip") and not on("json"):
            got, want = [unzipped(next(iter(x.values()), b"")) for x in (got, want)]
        if got != want:
            fails.append(dict(clause="UFO of the command", detail=f"{str(got)[:500]} {str(want)[:500]}"))
        if {k: x for k, x in now.items() if not k.startswith(base + stem + suffix)} != {
                k: x for k, x in was.items() if not k.startswith(base + stem + suffix)}:
            fails.append(dict(clause="one font is written (frame)", detail=f"{sorted(now)}"))
        if on("silent") and text:
            fails.append(dict(clause="silent", detail=text))
    return fails


def unzipped(data):
    import zipfile

    if not data or not zipfile.is_zipfile(io.BytesIO(data)):
        return data
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return {n.partition("/")[2]: z.read(n) for n in z.namelist()}


def converted(old, new, M, tolerance):
    from specs.quadratic import area, contours, cubic_points, distance, quadratic_points

    nm = old.get("name")
    fails = []
    if not any(n["type"] == "move" for n in old.get("nodes", [])):
        if not same(old, new):
            fails.append(dict(clause="a glyph without contours stays as it is (frame)", detail=f"{old} {new}"))
        return fails
    for k in set(old) | set(new):
        if k not in ("nodes", "hints") and not same(old.get(k), new.get(k)):
            fails.append(dict(clause=f"{k} of the glyph stays (frame)", detail=f"{nm} {old.get(k)} {new.get(k)}"))
    if "hints" in new and (new["hints"].get("h") or new["hints"].get("v")):
        fails.append(dict(clause="hints of the old outline are gone", detail=f"{nm} {new['hints']}"))
    for m in range(M):
        a, b = contours(old["nodes"], m), contours(new["nodes"], m)
        if [c[0] for c in a] != [c[0] for c in b]:
            return fails + [dict(clause="the same contours, open or closed", detail=f"{nm} {new['nodes']}")]
        for x, y in zip(a, b):
            if not {t for t, _ in y[1]} <= {"move", "line", "qcurve"}:
                fails.append(dict(clause="no cubic curves", detail=f"{nm} {y}"))
                continue
            p, q = cubic_points(x), quadratic_points(y)
            far = max([distance(u, q, not y[0]) for u in p] + [distance(u, p, not x[0]) for u in q])
            if far > tolerance + 2:
                fails.append(dict(clause="within the tolerance", detail=f"{nm} master {m}: {far} {x} {y}"))
            length = sum(((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2) ** 0.5 for u, v in zip(p, p[1:] + p[:1]))
            if not x[0] and area(p) * area(q) > 0 and abs(area(p)) > length * (tolerance + 2):
                fails.append(dict(clause="closed contours run the other way", detail=f"{nm} {x} {y}"))
            if x[0] and (y[1][0][1][0] != x[1][-1][1][0] or q[-1] != x[1][0][1][0]):
                fails.append(dict(clause="open contours run the other way", detail=f"{nm} {x} {y}"))
    return fails


def some_glyph(rng, name, M, n):
    from specs.fonts import glyph_data

    nodes = []
    pt = lambda: (rng.randint(-300, 1200), rng.randint(-300, 1200))
    wobble = lambda p: [tuple(c + rng.randint(-40, 40) * (m > 0) for c in p) for m in range(M)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.randint(2, 5)
        is_open = rng.random() < 0.25
        first = wobble(pt())
        nodes.append(dict(type="move", flags=8 if is_open else 0, points=[[p] for p in first]))
        for i in range(k):
            last = i == k - 1 and not is_open and rng.random() < 0.5
            end = first if last else wobble(pt())
            if rng.random() < 0.6:
                c1, c2 = wobble(pt()), wobble(pt())
                nodes.append(dict(type="curve", flags=rng.choice([0, 1, 3]),
                                  points=[[end[m], c1[m], c2[m]] for m in range(M)]))
            else:
                nodes.append(dict(type="line", flags=0, points=[[end[m]] for m in range(M)]))
    d = glyph_data(name, M, nodes=nodes, metrics=[(rng.randint(0, 1000), 0) for _ in range(M)])
    if rng.random() < 0.4 and nodes:
        d["hints"] = dict(h=[[dict(pos=0, width=20)] * M], v=[])
    if n and rng.random() < 0.3:
        d["components"] = [dict(gid=rng.randrange(n), offsetX=[10 * m for m in range(M)], offsetY=[0] * M,
                                scaleX=[1.0] * M, scaleY=[1.0] * M)]
    return d


def gen_cu2qu(rng):
    M = rng.choice([1, 1, 2, 4])
    glyphs = [some_glyph(rng, f"g{i}", M, i) for i in range(rng.randint(0, 3))]
    return M, rng.choice([1000, 2048, 200]), glyphs, dict(
        folder=rng.random() < 0.4, named=rng.random() < 0.4, force=rng.choice([None, None, "-fo", "--force-overwrite"]),
        exists=rng.random() < 0.3, max_err=rng.choice([None, None, "0.01", "0.0005"]))


# ------------------------------------------------------------------ proofs
class Arguments:
    """arbitrary values for the arguments that a command declares"""

    def __init__(self, e, **given):
        from argparse import ArgumentParser

        from pyvc.values import Unsupported
        from specs import commands

        self.values = {}
        self.given = given

        def parser(e, a, kw):
            return e.instantiate(commands.SomeArgumentParser, a, kw)

        def declare(e, a, kw):
            self.declare(e, [e.force(x) for x in a[1:]], {k: e.force(v) for k, v in kw.items()})

        def values(e, a, kw):
            from pyvc.values import HInst

            if len(a) > 1 or kw:
                raise Unsupported("other arguments")
            args = e.alloc(HInst(commands.SomeArguments))
            for dest, v in self.values.values():
                e.setattr(args, dest, v)
            return args

        e.contracts[ArgumentParser] = parser
        e.contracts[commands.SomeArgumentParser.add_argument] = declare
        e.contracts[commands.SomeArgumentParser.parse_args] = values

    def declare(self, e, flags, how):
        import z3
        from pyvc.values import FList, Unsupported

        dest = how.pop("dest", None)
        if dest is None:
            long = [f for f in flags if f.startswith("--")] or flags
            dest = long[0].lstrip("-").replace("-", "_")
        how.pop("help", None)
        kind = how.pop("type", str)
        nargs, action, default = how.pop("nargs", None), how.pop("action", None), how.pop("default", None)
        if how:
            raise Unsupported(f"argument {flags} with {sorted(how)}")
        if action == "store_true" and default in (None, False):
            v = z3.Const(f"option {flags[0]}", z3.BoolSort())
        elif action is None and nargs in (1, "?", None) and default is None and kind in (str, float):
            x = 0.0123 if kind is float else self.given.get(flags[0], "/out")
            x = FList((("e", x),)) if nargs == 1 else x
            v = x if not flags[0].startswith("-") and nargs != "?" or e.choose_free(2) else None
        else:
            raise Unsupported(f"argument {flags}")
        for f in flags:
            self.values[f] = (dest, v)

    def of(self, e, flag):
        e.prove(f"there is an argument {flag}", flag in self.values)
        return self.values[flag][1]


class Log:
    """what is done, in the state of the proof (which may try both ways at a condition)"""

    def __init__(self, e):
        from pyvc.values import HList

        self.e, self.seen = e, []
        self.ref = e.alloc(HList())

    def append(self, what):
        self.seen.append(what)
        self.e.call(self.e.getattr(self.ref, "append"), [len(self.seen) - 1])

    def all(self):
        from pyvc.aids import settled

        return [self.seen[x[1]] for x in settled(self.e, self.ref)]


def run_it(e, command):
    """-> the type of what it raised"""
    from pyvc.engine import Raise

    try:
        e.call(command, [])
    except Raise as x:
        return x.exc.type


def bound(func, a, kw):
    """the arguments of a call by their names"""
    import inspect

    b = inspect.signature(func).bind(*a, **kw)
    b.apply_defaults()
    return dict(b.arguments)


def is_same(e, what, got, want):
    """the values are equal (truth values by their meaning)"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.terms import zb

    got, want = e.force(got), e.force(want)
    if isinstance(want, bool) or isinstance(want, z3.BoolRef):
        e.prove(what, zb(e.truth(got)) == zb(want))
    elif isinstance(want, Path):
        e.prove(what, isinstance(got, (str, Path)) and Path(got) == want)
    else:
        Comparer(e, what).value(got, want)


SOURCE = "/fonts/My Font.1.vfb"


def there_are(e, **files):
    """which files exist is unknown"""
    import z3

    known = {}

    def exists(e, a, kw):
        p = str(a[0])
        if p not in known:
            known[p] = z3.Const(f"{p} exists", z3.BoolSort())
        return known[p]

    def leave(e, a, kw):
        from pyvc.engine import Raise
        from pyvc.values import PyExc

        raise Raise(PyExc(SystemExit, tuple(a)))

    e.contracts[sys.exit] = leave
    e.contracts[Path.exists] = exists
    e.contracts[Path.is_file] = exists
    return known


def p_json(e):
    """vfb2json: the file is exported once, with the options as given; nothing is done without a file"""
    from vfbLib import cmdline
    from vfbLib.json import save_vfb_json

    e.subject = ("options",)
    args = Arguments(e, inputpath=SOURCE)
    files = there_are(e)
    log = Log(e)
    e.contracts[save_vfb_json] = lambda e, a, kw: log.append(bound(save_vfb_json, a, kw))
    raised = run_it(e, cmdline.vfb2json)
    calls = log.all()
    if raised is not None:
        e.prove("stops if there is no such file", raised is SystemExit and SOURCE in files)
        e.prove("there is none", not e.branch(files[SOURCE]))
        e.prove("nothing is exported then", calls == [])
        return
    if not e.prove("exported once", len(calls) == 1):
        return
    c = calls[0]
    is_same(e, "the file", c["vfb_path"], Path(SOURCE))
    p = args.of(e, "-p")
    if p is None:
        e.prove("beside the font", e.force(c["out_path"]) is None)
    else:
        is_same(e, "the folder", c["out_path"], Path("/out"))
    for name, flag in [("only_header", "--header"), ("minimal", "-m"), ("unicode_strings", "-u"),
                       ("no_decompile", "-d"), ("roundtrip", "-r")]:
        is_same(e, name, c[name], args.of(e, flag))


def p_ufo(e):
    """vfb3ufo: the font is read, decompiled, and written once, with the options as given"""
    import logging

    import z3
    from pyvc.terms import zb
    from specs import commands
    from vfbLib import cmdline
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.vfb.vfb import Vfb

    target = "/other/New.Name.ufo"
    e.subject = ("options",)
    args = Arguments(e, inputpath=SOURCE, outputpath=target)
    files = there_are(e)
    log = Log(e)

    def read(e, a, kw):
        log.append(("read", bound(Vfb, a, kw)))
        return e.instantiate(commands.SomeFont, [], {})

    def exporter(e, a, kw):
        log.append(("export", bound(VfbToUfoBuilder, a, kw)))
        return e.instantiate(commands.SomeExporter, [None], {})

    e.contracts[Vfb] = read
    e.contracts[VfbToUfoBuilder] = exporter
    e.contracts[commands.SomeFont.decompile] = lambda e, a, kw: log.append(("decompile", a[0]))
    e.contracts[commands.SomeExporter.write] = lambda e, a, kw: log.append(
        ("write", bound(VfbToUfoBuilder.write, a, kw)))
    e.contracts[logging.basicConfig] = lambda e, a, kw: None
    shown = Log(e)
    e.contracts[print] = lambda e, a, kw: shown.append(a)
    raised = run_it(e, cmdline.vfb2ufo)
    log = log.all()
    if raised is not None:
        e.prove("stops if there is no such file", raised is SystemExit and SOURCE in files)
        e.prove("there is none", not e.branch(files[SOURCE]))
        e.prove("nothing is exported then", log == [])
        return
    if not e.prove("read, decompiled, exported", sorted(x[0] for x in log) == ["decompile", "export", "read", "write"]
                   and [x[0] for x in log if x[0] != "export"] == ["read", "decompile", "write"]):
        return
    c = {k: v for k, v in log}
    flag = lambda f: args.of(e, f)
    if e.branch(flag("-s")):
        e.prove("nothing is shown if silent", shown.all() == [])
    r, x, w = c["read"], c["export"], c["write"]
    is_same(e, "the file", r["vfb_path"], Path(SOURCE))
    is_same(e, "read: minimal", r["minimal"], flag("-m"))
    is_same(e, "read: unicode strings", r["unicode_strings"], flag("-u"))
    is_same(e, "read: all of it", r["only_header"], False)
    is_same(e, "read: no display if silent", z3.Implies(flag("-s"), z3.Not(zb(e.truth(r["timing"])))), True)
    e.prove("export: the font", x["vfb"] == c["decompile"])
    for name, f, sign in [("minimal", "-m", 1), ("base64", "-64", 1), ("pshints", "-nops", 0),
                          ("add_kerning_groups", "-k", 1), ("move_groups", "-g", 0), ("normalize", "-n", 0)]:
        is_same(e, f"export: {name}", x[name], flag(f) if sign else z3.Not(flag(f)))
    for name, f in [("overwrite", "-fo"), ("silent", "-s"), ("ufoz", "-z"), ("json", "-j")]:
        is_same(e, f"write: {name}", w[name], flag(f))
    suffix = ".ufoz" if e.branch(flag("-z")) and not e.branch(flag("-j")) else ".ufo"
    path = Path(SOURCE).with_suffix(suffix)
    if flag("-p") is not None:
        path = Path("/out") / path.name
    elif flag("outputpath") is not None:
        path = Path(target)
    is_same(e, "write: where", w["out_path"], path)


def p_quadratic(e):
    """vfbcu2qu: all masters are converted at once; the font is written if it was changed, and never over a
    file unless that was asked for"""
    import z3
    from fontTools.cu2qu import ufo
    from pyvc.compare import Comparer
    from pyvc.values import FList
    from specs import commands
    from vfbLib import cu2qu
    from vfbLib.vfb.vfb import Vfb

    target = "/other/New.Name.vfb"
    e.subject = ("options",)
    args = Arguments(e, inputpath=SOURCE, outputpath=target)
    files = there_are(e)
    log = Log(e)
    masters = z3.Int("masters")
    e.assume(z3.And(masters >= 0, masters <= 16))

    def read(e, a, kw):
        log.append(("read", bound(Vfb, a, kw)))
        font = e.instantiate(commands.SomeFont, [], {})
        e.setattr(font, "num_masters", masters)
        return font

    def convert(one):
        def go(e, a, kw):
            f = ufo.font_to_quadratic if one else ufo.fonts_to_quadratic
            if one:
                kw = bound(ufo.fonts_to_quadratic, [FList((("e", a[0]),))], kw)
            else:
                kw = bound(f, a, kw)
            log.append(("convert", kw))
            return z3.Const("changed", z3.BoolSort())
        return go

    e.contracts[Vfb] = read
    e.contracts[commands.SomeFont.decompile] = lambda e, a, kw: log.append(("decompile", a[0]))
    e.contracts[commands.SomeFont.write] = lambda e, a, kw: log.append(("write", bound(Vfb.write, a, kw)))
    e.contracts[ufo.font_to_quadratic] = convert(True)
    e.contracts[ufo.fonts_to_quadratic] = convert(False)
    raised = run_it(e, cu2qu.vfbcu2qu)
    log = log.all()
    names = [x[0] for x in log]
    if not e.prove("read and decompiled once", names[:2] == ["read", "decompile"]):
        return
    is_same(e, "the file", log[0][1]["vfb_path"], Path(SOURCE))
    drop = e.force(log[0][1]["drop_keys"])
    e.prove("links are dropped", {int(x) for x in drop} == {2008} if isinstance(drop, (set, frozenset)) else
            [int(e.force(x[1])) for x in settled_set(e, drop)] == [2008])
    if e.branch(masters == 0):
        e.prove("nothing to convert without masters", names == ["read", "decompile"] and raised is None)
        return
    if not e.prove("converted once", names[2:3] == ["convert"] and "convert" not in names[3:]):
        return
    c = log[2][1]
    one = e.branch(masters == 1)
    Comparer(e, "what is converted").value(
        c["fonts"], FList((("e", log[1][1]),)) if one else FList((("e", "a master"), ("e", "another master"))))
    m = args.of(e, "-m")
    e.prove("no absolute error", e.force(c["max_err"]) is None)
    if m is None:
        e.prove("tolerance: the default", e.force(c["max_err_em"]) in (None, 0.001))
    else:
        e.prove("tolerance", e.force(c["max_err_em"]) == 0.0123)
    is_same(e, "the direction is reversed", c["reverse_direction"], True)
    is_same(e, "all curves are quadratic", c["all_quadratic"], True)
    is_same(e, "the curve type is not remembered", c["remember_curve_type"], False)
    path = Path("/fonts/My Font.1.qu.vfb")
    if args.of(e, "-p") is not None:
        path = Path("/out/My Font.1.vfb")
    elif args.of(e, "outputpath") is not None:
        path = Path(target)
    write = False
    if e.branch(z3.Const("changed", z3.BoolSort())):
        write = e.branch(args.of(e, "-fo")) or not e.branch(
            files.get(str(path), z3.Const(f"{path} exists", z3.BoolSort())))
        e.prove("an error if the file exists", raised is (None if write else FileExistsError))
    else:
        e.prove("no error", raised is None)
    if e.prove("written if that was asked for and possible", names[3:] == ["write"] * write) and write:
        is_same(e, "where", log[3][1]["out_path"], path)


def settled_set(e, ref):
    from pyvc.values import HSet, Ref

    x = e.get(ref)
    return x.elts if isinstance(ref, Ref) and isinstance(x, HSet) else e.seq_of(ref)


def each_option(command):
    """every option alone, in every place, over existing files or not"""
    import random

    rng = random.Random(1)
    fails = []
    if command == "vfb2json":
        for f in [[], *[[f[0]] for f in JSON_FLAGS]]:
            for p in (False, True):
                fails += json_command_contract(1, [some_glyph(rng, "A", 1, 0)], f, p)
    elif command == "vfb2ufo":
        for f in [[], ["zip", "json"], *[[f[0]] for f in UFO_FLAGS]]:
            fails += ufo_command_contract(f, "beside", None, False)
        for where in ("beside", "folder", "named"):
            for force in (None, "-fo"):
                for exists in (False, True):
                    for f in ([], ["zip"]):
                        fails += ufo_command_contract(f, where, force, exists)
    else:
        for M in (1, 2):
            glyphs = [g for g in (some_glyph(rng, f"g{i}", M, 0) for i in range(12)) if g["nodes"]][:3]
            for where in ("", "folder", "named"):
                for force in (None, "-fo"):
                    for exists in (False, True):
                        for m in (None, "0.01", "0.0002"):
                            fails += cu2qu_contract(M, 1000, glyphs, {where: True, "force": force, "exists": exists,
                                                                      "max_err": m})
    return fails


def proofs():
    from props.proofs import Proof

    out = []
    for name, thunk in ("vfb2json", p_json), ("vfb2ufo", p_ufo), ("vfbcu2qu", p_quadratic):
        out.append(Proof(name, thunk, case=lambda d, name=name: (each_option, (name,))))
    return out


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(25, 6000)):
        run.case(cu2qu_contract, *gen_cu2qu(rng))
    some = lambda flags: [f[0] for f in flags if rng.random() < 0.3]
    for _ in range(run.n(6, 1000)):
        M, _, glyphs, _ = gen_cu2qu(rng)
        run.case(json_command_contract, M, glyphs, some(JSON_FLAGS), rng.random() < 0.5)
    for _ in range(run.n(10, 1500)):
        run.case(ufo_command_contract, some(UFO_FLAGS), rng.choice(["beside", "folder", "named"]),
                 rng.choice([None, "-fo", "--force-overwrite"]), rng.random() < 0.3)
    return proofs.finish(run)
