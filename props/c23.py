"""C23 masters and designspace"""
import contextlib
import io
import tempfile
from pathlib import Path

TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF"}


def make(axes, names, locations, instances, mappings, family, order):
    """a font with these axes: (name, [(user, design)])"""
    from specs.fonts import entry, glyph_data
    from vfbLib.vfb.vfb import Vfb

    M = len(locations)
    vfb = Vfb(timing=False)
    vfb.num_masters = M
    entry(vfb, 1503, M)
    entry(vfb, 1024, family)
    if axes:
        entry(vfb, 1513, len(axes))
    for n, _ in axes:
        entry(vfb, 1514, n)
    if mappings:
        counts, table = [], []
        for a in range(4):
            m = axes[a][1] if a < len(axes) else []
            counts.append(len(m))
            # what is left of the ten places is to be ignored
            table += list(m) + [(-5.0 - a, 7.0)] * (10 - len(m))
        entry(vfb, 1515, counts)
        entry(vfb, 1516, table)
    if instances is not None:
        entry(vfb, 1254, [dict(name=n, values=tuple(v)) for n, v in instances])
    for i in order:
        if i < len(names):
            entry(vfb, 1504, names[len([k for k in order[:order.index(i)] if k < len(names)])])
        entry(vfb, 1505, (i + 1, tuple(locations[i])))
    for i in range(M):
        entry(vfb, 1536, dict(ascender=100 + i))
    entry(vfb, 2001, glyph_data("A", M, metrics=[(500 + i, 0) for i in range(M)]))
    return vfb


def space_contract(axes, names, locations, instances, mappings, family, order, fmt):
    """the UFOs and the designspace document that are written"""
    from fontTools.designspaceLib import DesignSpaceDocument
    from ufoLib2.objects.font import Font
    from vfbLib.ufo.builder import VfbToUfoBuilder

    M = len(locations)
    fails = []
    vfb = make(axes, names, locations, instances, mappings, family, order)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        b = VfbToUfoBuilder(vfb, normalize=False)
        b.write(Path(tmp) / f"font.{fmt}", silent=True, ufoz=fmt == "ufoz", json=fmt == "json")
        files = sorted(p.name for p in Path(tmp).iterdir())
        ufos = [f"font.{fmt}"] + [f"font-{i}.{fmt}" for i in range(1, M)]
        want = ufos + (["font.designspace"] if axes else [])
        if files != sorted(want):
            return [dict(clause="one font for each master, one designspace for several", detail=f"{files}")]
        for i, n in enumerate(ufos):
            p = Path(tmp) / n
            f = Font.json_load(p) if fmt == "json" else Font.open(p)
            if f["A"].width != 500 + i or f.info.ascender != 100 + i:
                fails.append(dict(clause="each font has the data of its master", detail=f"{n}: {f['A'].width}"))
        if axes:
            ds = DesignSpaceDocument.fromfile(Path(tmp) / "font.designspace")
            sources = [Path(s.filename).name for s in ds.sources]
            fails += check_space(ds, axes, names, locations, instances or [], mappings, family)
            if sources != ufos:
                fails.append(dict(clause="the sources are the fonts that are written", detail=str(sources)))
    return fails


def kept_contract(axes, locations, fmt, overwrite, missing):
    """files that exist are only overwritten on request. missing: numbers of the fonts that were
    deleted since"""
    from ufoLib2.objects.font import Font
    from vfbLib.ufo.builder import VfbToUfoBuilder
    import shutil

    fails = []
    M = len(locations)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        base = Path(tmp)

        def contents():
            return {str(p.relative_to(tmp)): p.read_bytes() for p in base.rglob("*") if p.is_file()}

        def write(family, overwrite):
            vfb = make(axes, [], locations, [], False, family, [])
            for i, x in enumerate(locations):
                from specs.fonts import entry
                entry(vfb, 1505, (i + 1, tuple(x)))
            VfbToUfoBuilder(vfb, normalize=False).write(
                base / f"font.{fmt}", silent=True, overwrite=overwrite, ufoz=fmt == "ufoz")

        write("First", False)
        for i in missing:
            p = base / (f"font-{i}.{fmt}" if i else f"font.{fmt}")
            shutil.rmtree(p) if p.is_dir() else p.unlink()
        before = contents()
        refused = False
        try:
            write("Second", overwrite)
        except (FileExistsError, OSError):
            refused = True
        except Exception as x:
            if type(x).__name__ != "UFOLibError":
                raise
            refused = True
        after = contents()
        if not overwrite:
            if before and not refused:
                fails.append(dict(clause="refuses to overwrite", detail=f"{sorted(before)[:4]}"))
            for k, v in before.items():
                if after.get(k) != v:
                    fails.append(dict(clause="existing files stay as they are", detail=k))
        elif refused:
            fails.append(dict(clause="overwrites on request", detail="refused"))
        else:
            for i in range(M):
                f = Font.open(base / (f"font-{i}.{fmt}" if i else f"font.{fmt}"))
                if f.info.familyName != "Second":
                    fails.append(dict(clause="overwrites on request", detail=f"font {i}: {f.info.familyName}"))
            ds = base / "font.designspace"
            if axes and "Second" not in ds.read_text():
                fails.append(dict(clause="overwrites on request", detail="designspace"))
    return fails


def check_space(ds, axes, names, locations, instances, mappings, family):
    fails = []

    def same(clause, got, want):
        if got != want:
            fails.append(dict(clause=clause, detail=f"{got} is not {want}"))

    same("names of the axes", [a.name for a in ds.axes], [n for n, _ in axes])
    same("tags of the axes", [a.tag for a in ds.axes], [TAGS.get(n, n.upper()[:4]) for n, _ in axes])
    if len(ds.axes) != len(axes):
        return fails
    for a, (n, m) in zip(ds.axes, axes):
        m = m if mappings else []
        us = [u for u, _ in m] or [0, 1000]
        same(f"range of axis {n}", (a.minimum, a.default, a.maximum), (min(us), min(us), max(us)))
        same(f"mapping of axis {n}", [tuple(x) for x in a.map], [(u, round(1000 * d)) for u, d in m])
    labels = [(x.name, x.userValue) for x in ds.axes[0].axisLabels]
    same("labels", labels, [(n, v[0]) for n, v in instances] if len(axes) == 1 else [])
    for i, (s, loc) in enumerate(zip(ds.sources, locations)):
        same(f"location of master {i}", s.location, {n: 1000 * loc[k] for k, (n, _) in enumerate(axes)})
        same("family of a master", s.familyName, family)
        if i < len(names):
            same("name of a master", s.name, names[i].strip())
    same("masters have different names", len({s.name for s in ds.sources}), len(locations))
    same("number of instances", len(ds.instances), len(instances))
    for x, (n, v) in zip(ds.instances, instances):
        same("name of an instance", (x.familyName, x.styleName), (family, n))
        same(f"location of instance {n}", x.userLocation, {a: v[k] for k, (a, _) in enumerate(axes)})
    return fails


def gen(rng):
    A = rng.choice([0, 1, 1, 2, 2, 3, 4])
    pool = ["Weight", "Width", "Optical Size", "Serif", "Contrast", "Slant"]
    M = 2 ** A
    axes = []
    for n in rng.sample(pool, A):
        k = rng.choice([0, 2, 2, 3, 10])
        us = sorted(rng.sample(range(0, 1000), k))
        if rng.random() < 0.2:
            rng.shuffle(us)
        fine = rng.random() < 0.3
        axes.append((n, [(float(u), rng.uniform(0, 1) if fine else round(j / max(1, k - 1), 3))
                         for j, u in enumerate(us)]))
    locations = [[rng.choice([0.0, 1.0, 0.5, 0.25]) if rng.random() < 0.2 else float(i >> a & 1) for a in range(4)]
                 for i in range(M)]
    names = [f" m{i}" if rng.random() < 0.3 else f"Master {i}x" for i in range(
        rng.choice([M, M, M, 0, rng.randint(0, M)]))]
    inst = None if rng.random() < 0.2 else [
        (f"Inst{i}", [float(rng.choice([0, 100, 250, 1000])) for _ in range(4)]) for i in range(rng.choice([0, 1, 3]))]
    order = list(range(M))
    return axes, names, locations, inst, rng.random() < 0.8, rng.choice(["Fam", "A B"]), order, rng.choice(
        ["ufo", "ufo", "ufoz", "json"])


# ------------------------------------------------------------------ proofs
def of(e, items):
    from pyvc.values import FList

    return FList(tuple(("e", x) for x in items))


def doubles(names):
    from pyvc.schema import Float

    return [Float().sym(n) for n in names]


def times(e, a, b):
    import ast

    return e.binop(ast.Mult(), a, b)


def some_axes(e, A):
    """axis descriptors with different names"""
    from fontTools.designspaceLib import AxisDescriptor
    from pyvc.values import HInst, HList

    out = []
    for a in range(A):
        x = e.alloc(HInst(AxisDescriptor))
        for k, v in dict(name=["Weight", "Width", "Slant", "Contrast"][a], minimum=0, default=0, maximum=1000).items():
            e.setattr(x, k, v)
        e.setattr(x, "map", e.alloc(HList(())))
        e.setattr(x, "axisLabels", e.alloc(HList(())))
        out.append(x)
    return out


NAMES = ["Weight", "Width", "Slant", "Contrast"]


def p_location(e, A, factor):
    """get_ds_location: each axis has its own coordinate"""
    from pyvc.compare import Comparer
    from pyvc.values import FDict
    from vfbLib.ufo.designspace import get_ds_location

    loc = doubles([f"coordinate {a}" for a in range(4)])
    e.subject = loc
    args = [of(e, some_axes(e, A)), of(e, loc)]
    got = e.call(get_ds_location, args if factor is None else args + [factor])
    want = [times(e, 1000 if factor is None else factor, x) for x in loc[:A]]
    Comparer(e, "location").value(got, FDict(tuple(("e", n, w) for n, w in zip(NAMES, want))))


def p_mappings(e, A):
    """VfbToUfoBuilder.add_axis_mappings: ten places per axis, of which the first are in use"""
    from pyvc.compare import Comparer
    from props.c22 import some_builder
    from pyvc.engine import synt_eq
    from pyvc.schema import S32
    import z3

    counts = [(0, 1, 2, 3, 10)[e.choose_free(5)] if a < 2 else (2, 0)[a - 2] for a in range(A)]
    counts += [3] * (4 - A)
    # user coordinates are compared: whole numbers, as FontLab has them
    table = [(S32.sym(f"user {i}"), doubles([f"design {i}"])[0]) for i in range(40)]
    e.subject = (A, counts, table)
    b = some_builder(e, [])
    axes = some_axes(e, A)
    e.setattr(b, "axes", of(e, axes))
    e.setattr(b, "axis_count", A)
    e.setattr(b, "axis_mappings_count", of(e, counts))
    e.call(e.getattr(b, "add_axis_mappings"), [of(e, table)])
    for a, x in enumerate(axes):
        rows = table[10 * a:10 * a + counts[a]]
        got = e.getattr(x, "map")
        Comparer(e, f"mapping of axis {a}").value(
            got, of(e, [(u, e.call(round, [times(e, d, 1000)])) for u, d in rows]))
        us = [u for u, _ in rows]
        lo, hi = e.getattr(x, "minimum"), e.getattr(x, "maximum")
        if not us:
            e.prove("range of an axis without mappings", synt_eq(lo, 0) and synt_eq(hi, 1000))
        else:
            e.prove("least value of an axis", z3.And(z3.And([lo <= u for u in us]), z3.Or([lo == u for u in us])))
            e.prove("greatest value of an axis", z3.And(z3.And([hi >= u for u in us]), z3.Or([hi == u for u in us])))
        e.prove("default of an axis", e.getattr(x, "default") == lo if us else synt_eq(e.getattr(x, "default"), 0))
        e.prove("name of an axis", synt_eq(e.getattr(x, "name"), NAMES[a]))


def p_count(e, A, given):
    """VfbToUfoBuilder.fix_masters_count: two masters per axis, the names that are there first"""
    from pyvc.compare import Comparer
    from props.c22 import anything, some_builder
    from pyvc.values import FList, HList

    b = some_builder(e, [])
    names = [anything("name") for _ in range(given)]
    e.setattr(b, "axis_count", A)
    e.setattr(b, "masters", e.alloc(HList(of(e, names).seq)))
    e.call(e.getattr(b, "fix_masters_count"), [])
    got = [x[1] for x in e.get(e.getattr(b, "masters")).seq]
    e.prove("number of masters", len(got) == max(given, 2 ** A))
    Comparer(e, "names that are there").value(of(e, got[:given]), of(e, names))
    new = got[given:]
    e.prove("names that are added", all(isinstance(x, str) for x in new) and len(set(new)) == len(new))


def p_space_entry(e, k):
    """one entry, whatever came before it"""
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.schema import ListOf, S32, U8
    from pyvc.values import FList, HDict, HList
    from props.c21 import frozen
    from props.c22 import a_dict, an_entry, anything, check_info, some_builder, state
    from fontTools.designspaceLib import AxisDescriptor
    from pyvc.values import HInst

    d = anything("data")
    want = {}
    earlier = [anything("earlier") for _ in range(2)]
    if k == 1514:
        d = list(TAGS)[e.choose_free(4)] if e.choose_free(2) else ["Contrast", "Slant", "opt"][e.choose_free(3)]
    if k == 1505:
        d = (U8.sym("master"), anything("location"))
    e.subject = (k, d)
    b = some_builder(e, [an_entry(k, d)])
    for n in ("axes", "masters"):
        e.setattr(b, n, e.alloc(HList(of(e, earlier).seq)))
    e.setattr(b, "master_locations", e.alloc(HDict(())))
    info = e.getattr(b, "info")
    before, mine = state(e, info), dict(e.get(b).attrs)
    mine = {n: frozen(e, v) if n in ("axes", "masters", "master_locations") else v for n, v in mine.items()}
    if k == 1503:
        want["num_masters"] = d
    elif k == 1504:
        want["masters"] = of(e, earlier + [d])
    elif k == 1513:
        want["axis_count"] = d
    elif k == 1515:
        want["axis_mappings_count"] = d
    elif k == 1254:
        want["primary_instances"] = d
    elif k == 1505:
        from pyvc.values import FDict
        want["master_locations"] = FDict((("e", d[0], d[1]),))
    e.call(e.getattr(b, "build"), [])
    check_info(e, info, before, {})
    now = dict(e.get(b).attrs)
    if k == 1514:
        axes = [x[1] for x in e.get(now["axes"]).seq]
        e.prove("one more axis", len(axes) == 3 and all(synt_eq(x, y) for x, y in zip(axes, earlier)))
        x = e.get(axes[2])
        e.prove("an axis", x.cls is AxisDescriptor)
        for n, v in dict(name=d, tag=TAGS.get(d, d.upper()[:4]), minimum=0, default=0, maximum=1000).items():
            e.prove(f"{n} of the axis", n in x.attrs and synt_eq(e.force(x.attrs[n]), v))
        mine.pop("axes")
    for n in set(mine) | set(want):
        Comparer(e, f"{n} of the conversion").value(now[n], want[n]) if n in want else e.prove(
            f"{n} of the conversion stays as it was", synt_eq(frozen(e, e.force(now[n])), frozen(e, e.force(mine[n])))
            if not isinstance(mine[n], FList) else same_items(e, now[n], mine[n]))


def same_items(e, now, then):
    from props.c21 import frozen
    from pyvc.engine import synt_eq

    a = frozen(e, now)
    return len(a.seq) == len(then.seq) and all(synt_eq(x[1], y[1]) for x, y in zip(a.seq, then.seq))


def setup_axes(e):
    from fontTools.designspaceLib import AxisDescriptor, AxisLabelDescriptor, DesignSpaceDocument
    from props.c22 import setup_build
    from pyvc.values import HInst
    from specs import ufofont
    from vfbLib.ufo.builder import VfbToUfoBuilder

    setup_build(e)

    def record(cls):
        def f(e, a, kw):
            x = e.alloc(HInst(cls))
            for k, v in kw.items():
                e.setattr(x, k, v)
            return x

        return f

    e.contracts[AxisDescriptor] = record(AxisDescriptor)
    e.contracts[AxisLabelDescriptor] = record(AxisLabelDescriptor)
    e.contracts[DesignSpaceDocument] = lambda e, a, kw: e.instantiate(ufofont.SomeSpace, a, kw)
    e.contracts[VfbToUfoBuilder.get_master_path.__func__] = lambda e, a, kw: f"path {a[-1]}"


def p_space(e, A, M, N):
    """VfbToUfoBuilder.get_designspace: M masters, N instances"""
    from pyvc.compare import Comparer
    from pyvc.engine import synt_eq
    from pyvc.values import FDict
    from props.c22 import some_builder

    b = some_builder(e, [])
    axes = some_axes(e, A)
    family = "Some Family"
    e.setattr(e.getattr(b, "info"), "ds_family_name", family)
    locs = [doubles([f"location {i} {a}" for a in range(4)]) for i in range(M)]
    vals = [tuple(doubles([f"instance {i} {a}" for a in range(4)])) for i in range(N)]
    names = ["Bold", "Condensed Light", ""][:N]
    for k, v in dict(
            axes=of(e, axes), axis_count=A, num_masters=M,
            masters=of(e, [f" m{i} " for i in range(M)]),
            master_locations=FDict(tuple(("e", i + 1, of(e, x)) for i, x in reversed(list(enumerate(locs))))),
            primary_instances=of(e, [FDict((("e", "name", n), ("e", "values", v))) for n, v in zip(names, vals)])).items():
        e.setattr(b, k, v)
    e.subject = (A, locs, vals)
    ds = e.call(e.getattr(b, "get_designspace"), ["out"])
    Comparer(e, "axes").value(e.getattr(ds, "axes"), of(e, axes))
    for a, x in enumerate(axes):
        labels = [y[1] for y in e.get(e.getattr(x, "axisLabels")).seq]
        want = list(zip(names, vals)) if A == 1 else []
        e.prove("number of labels", len(labels) == len(want))
        for y, (n, v) in zip(labels, want):
            Comparer(e, "label").value((e.getattr(y, "name"), e.getattr(y, "userValue")), (n, v[0]))

    def location(x, f):
        return FDict(tuple(("e", n, times(e, f, y)) for n, y in zip(NAMES, x[:A])))

    sources = [x[1] for x in e.get(e.getattr(ds, "sources")).seq]
    e.prove("one source for each master", len(sources) == M)
    for i, s in enumerate(sources):
        Comparer(e, f"source {i}").value(s, FDict((
            ("e", "familyName", family), ("e", "filename", f"path {i}"), ("e", "location", location(locs[i], 1000)),
            ("e", "name", f"m{i}"), ("e", "styleName", f"Master {i}"))))
    inst = [x[1] for x in e.get(e.getattr(ds, "instances")).seq]
    e.prove("number of instances", len(inst) == N)
    for i, x in enumerate(inst):
        Comparer(e, f"family of instance {i}").value(e.getitem(x, "familyName"), family)
        Comparer(e, f"style of instance {i}").value(e.getitem(x, "styleName"), names[i])
        Comparer(e, f"location of instance {i}").value(e.getitem(x, "userLocation"), location(vals[i], 1))


def p_masters(e, M):
    """VfbToUfoBuilder.get_ufo_masters: the fonts of all masters, in order"""
    from props.c22 import a_dict, anything, some_builder
    from pyvc.engine import synt_eq
    from pyvc.values import FDict, FList
    from vfbLib.ufo.builder import VfbToUfoBuilder

    b = some_builder(e, [])
    e.setattr(b, "masters", of(e, [anything("name") for _ in range(M)]))
    e.setattr(b, "features_code", "")
    log = []

    def one(e, a, kw):
        log.append((a[1:], dict(kw), anything("font")))
        return log[-1][2]

    e.contracts[VfbToUfoBuilder.get_ufo_master] = one
    got = [x for x in e.elems(e.call(e.getattr(b, "get_ufo_masters"), [True]))]
    e.prove("one font for each master", len(got) == len(log) == M)
    for i, (x, (a, kw, f)) in enumerate(zip(got, log)):
        index = a[0] if a else kw.get("index")
        e.prove("fonts in the order of the masters", synt_eq(e.force(x), f) and synt_eq(e.force(index), i))


def setup_masters(e):
    from fontTools.designspaceLib import DesignSpaceDocument
    from props.c22 import a_dict, setup_build
    from pyvc.values import FDict, FList, HInst
    from ufoLib2.objects.features import Features
    from specs import ufofont
    from vfbLib.ufo.groups import transform_groups
    from vfbLib.ufo.kerning import UfoKerning

    setup_build(e)
    e.contracts[transform_groups] = lambda e, a, kw: (a_dict(e, {}), FList(()), FDict(()))

    def kerning(e, a, kw):
        x = e.alloc(HInst(UfoKerning))
        e.setattr(x, "groups", a_dict(e, {}))
        return x

    e.contracts[UfoKerning] = kerning
    e.contracts[Features] = lambda e, a, kw: e.alloc(HInst(ufofont.SomeFeatures, dict(text="")))


def p_write(e, M, fmt, has_ds):
    """VfbToUfoBuilder.write: every font goes to its own file; whether files may be overwritten
    is passed on, and an existing designspace is not overwritten without that"""
    from props.c22 import anything, some_builder
    from pyvc.engine import Raise, synt_eq
    from pyvc.values import HList
    from specs import ufofont
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from ufonormalizer import normalizeUFO

    b = some_builder(e, [])
    norm = bool(e.choose_free(2))
    over = bool(e.choose_free(2))
    exists = bool(e.choose_free(2))
    e.setattr(b, "normalize_ufos", norm)
    e.setattr(b, "info", e.instantiate(ufofont.SomeFeatures, [], {}))
    fonts = [e.instantiate(ufofont.SomeFile, [False], {}) for _ in range(M)]
    ds = e.instantiate(ufofont.SomeFile, [exists], {}) if has_ds else None
    e.contracts[VfbToUfoBuilder.get_ufos_designspace] = lambda e, a, kw: (of(e, fonts), ds)
    e.contracts[VfbToUfoBuilder.get_master_path.__func__] = lambda e, a, kw: (a[-2], a[-1])
    normalized = []
    e.contracts[normalizeUFO] = lambda e, a, kw: normalized.append(a[0] if a else kw["ufoPath"])
    path = e.instantiate(ufofont.SomePath, ["", exists], {})
    kw = dict(overwrite=over, silent=True)
    if fmt != "ufo":
        kw["ufoz" if fmt == "ufoz" else "json"] = True
    raised = None
    try:
        e.call(e.getattr(b, "write"), [path], kw)
    except Raise as x:
        raised = x
    for i, f in enumerate(fonts):
        log = [x[1] for x in e.get(e.getattr(f, "log")).seq]
        e.prove("every font is written once", len(log) == 1)
        kind, target, o, zipped = log[0]
        base, index = e.call(tuple, [target])
        e.prove("own file of a font", synt_eq(e.force(index), i))
        e.prove("format", kind == ("json" if fmt == "json" else "ufo"))
        if kind == "ufo":
            e.prove("overwriting as requested", synt_eq(e.force(o), over))
            e.prove("compressed, if requested", (e.force(zipped) is not None) == (fmt == "ufoz"))
    e.prove("normalizing, if requested", len(normalized) == (M if norm and fmt == "ufo" else 0))
    if has_ds:
        log = e.get(e.getattr(ds, "log")).seq
        keep = exists and not over
        e.prove("an existing designspace stays", (len(log) == 0) == keep and (raised is not None) == keep)
        if keep and raised is not None:
            e.prove("exception", getattr(raised.exc, "cls", type(raised.exc)) is FileExistsError)
    else:
        e.prove("no exception", raised is None)


def proofs():
    from props.proofs import Proof
    from props.c22 import setup_build

    out = []
    for A in (1, 2, 3, 4):
        for f in (None, 1):
            out.append(Proof(f"get_ds_location, {A} axes, factor {f or 1000}", p_location, (A, f)))
    for A in (1, 2, 4):
        out.append(Proof(f"VfbToUfoBuilder.add_axis_mappings, {A} axes", p_mappings, (A,), modular=True))
    for A in range(5):
        for given in {0, 1, 2 ** A, 16}:
            out.append(Proof(f"VfbToUfoBuilder.fix_masters_count, {A} axes, {given} names", p_count, (A, given),
                             setup=setup_count, modular=True))
    for k in (1503, 1504, 1505, 1513, 1514, 1515, 1254):
        out.append(Proof(f"entry {k} in VfbToUfoBuilder.build", p_space_entry, (k,), setup=setup_axes, modular=True))
    for A, M, N in ((1, 2, 0), (1, 2, 3), (2, 4, 1), (3, 8, 2), (4, 16, 1)):
        out.append(Proof(f"VfbToUfoBuilder.get_designspace, {A} axes, {N} instances", p_space, (A, M, N),
                         setup=setup_axes, modular=True))
    for M in (1, 2, 16):
        out.append(Proof(f"VfbToUfoBuilder.get_ufo_masters, {M} masters", p_masters, (M,), setup=setup_masters, modular=True))
        for fmt in ("ufo", "ufoz", "json"):
            out.append(Proof(f"VfbToUfoBuilder.write, {M} masters, {fmt}", p_write, (M, fmt, M > 1), setup=setup_build, modular=True))
    return out


def setup_count(e):
    pass


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for _ in range(run.n(60, 1200)):
        run.case(space_contract, *gen(rng))
    for A in (0, 1, 2):
        axes = [(n, []) for n in ("Weight", "Width")[:A]]
        loc = [[float(i >> a & 1) for a in range(4)] for i in range(2 ** A)]
        for fmt in ("ufo", "ufoz"):
            for over in (False, True):
                for missing in {(), (2 ** A - 1,), tuple(range(2 ** A))}:
                    run.case(kept_contract, axes, loc, fmt, over, missing)
    return proofs.finish(run)
