"""C19 feature code"""
import re
from io import BytesIO

from pyvc.concrete import call, lookup, make_vfb, short
from specs.wire import Ctx

WORDS = ["pos", "enum", "enum pos", "@_A_left", "@_A", "@A", "A", "T", "<0 0 10 0>", "10;", "-5;", "'", "lookup x {",
         "feature kern {", "} kern;", "sub a by b;", "@_X = [A B];", "language DEU;", "äöü", "#", "# c", "include(a.fea);"]


def random_line(rng):
    r = rng.random()
    ind = rng.choice(["", "", "  ", "\t", "\t  "])
    if r < 0.12:
        return rng.choice(["", "", " ", "\t"])
    if r < 0.65:
        L = rng.choice(["@_A", "@_left_1", "@B", "T", "A", "_x", "a_b@_c", "@public.kern1._A"])
        R = rng.choice(["@_O", "@_A", "@x", "o", "V", "_y"])
        val = rng.choice(["-10;", "5;", "<1 2 3 4>;", "10 ;", "-20; ", "@_Z;", "0;\t"])
        e = rng.choice(["", "", "enum ", "enum  "])
        c = rng.choice(["", "", " # pos @_A @_B 1;", "#", "# x # y", " #"])
        sp = [rng.choice([" ", " ", " ", "  ", "   "]) for _ in range(3)]
        return f"{ind}{e}pos{sp[0]}{L}{sp[1]}{R}{sp[2]}{val}{c}"
    return ind + " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3])))


def random_text(rng):
    n = rng.choice([0, 1, 2, 3, 6, 12])
    lines = []
    for _ in range(n):
        if rng.random() < 0.2:
            lines += [rng.choice(["", "", " "])] * rng.choice([1, 2, 3, 4])
        lines.append(random_line(rng))
    if rng.random() < 0.5:
        lines += [""] * rng.choice([1, 2, 3])
    return rng.choice(["\n", "\n", "\r\n", "\r"]).join(lines)


STMT = re.compile(r"^([ \t]*)(enum +)?pos +([^ \t]+) +([^ \t]+) +([^ \t].*)$")


def ref_line(line):
    code, sep, comment = line.partition("#")
    m = STMT.match(code)
    if not m:
        return line
    ind, en, L, R, val = m.groups()
    if L.startswith("@_"):
        L = "@public.kern1." + L[1:]
    if R.startswith("@_"):
        R = "@public.kern2." + R[1:]
    return f"{ind}{en or ''}pos {L} {R} {val}{sep}{comment}"


def renamed_ok(a, b):
    """b is the line a with renamed classes; the number of spaces in a statement is free"""
    want = ref_line(a)
    if b == want:
        return True
    code, _, comment = want.partition("#")
    got, _, got_comment = b.partition("#")
    one = lambda x: re.sub(" +", " ", x)
    return bool(STMT.match(a.partition("#")[0])) and one(got) == one(code) and comment == got_comment


def rename(lines):
    from vfbLib.ufo.features import rename_kern_classes_in_feature_code as f

    arg = list(lines)
    st, r = call(lambda: f(arg))
    if st == "raise":
        return [dict(clause="rename: no exception", detail=repr(r))]
    fails = []
    if len(r) != len(lines):
        return [dict(clause="rename: one output line per input line", detail=f"{len(lines)} {len(r)}")]
    for a, b in zip(lines, r):
        if not renamed_ok(a, b):
            fails.append(dict(clause="rename: only class names change", detail=f"{a!r} -> {b!r} expected {ref_line(a)!r}"))
    if arg != lines:
        fails.append(dict(clause="rename: argument unchanged", detail=""))
    again = f(list(r))
    if list(again) != list(r):
        fails.append(dict(clause="rename: applying it again changes nothing", detail=short(r)))
    return fails


def read(text):
    b = text.encode("cp1252")
    key, parser, compiler = lookup(1276)
    p = lambda x: parser().parse(BytesIO(x), len(x), make_vfb(Ctx()))
    st, r = call(lambda: p(b))
    if st == "raise":
        return [dict(clause="read: no exception", detail=f"{type(r).__name__}: {r}")]
    fails = []
    src = text.splitlines()
    nb = [x for x in src if x.strip()]
    if [x for x in r if x.strip()] != nb:
        fails.append(dict(clause="read: every non-blank line in order", detail=f"{short(src)} {short(r)}"))
    if not r or r[-1] != "":
        fails.append(dict(clause="read: ends with an empty line", detail=short(r)))
    # up to two blank lines in front of a non-blank line stay
    exp, c = [], 0
    for x in src:
        c = 0 if x.strip() else c + 1
        if c <= 2:
            exp.append(x)

    def trim(z):
        z = list(z)
        while z and not z[-1].strip():
            z.pop()
        return z

    if trim(exp) != trim(r):
        fails.append(dict(clause="read: only surplus blank lines are dropped", detail=f"{short(src)} {short(r)}"))
    st, b2 = call(lambda: compiler().compile(list(r), make_vfb(Ctx())))
    if st == "raise":
        return fails + [dict(clause="write: no exception", detail=f"{type(b2).__name__}: {b2}")]
    if b2 != "\n".join(r).encode("cp1252"):
        fails.append(dict(clause="write: lines joined by line ends", detail=short(b2)))
    r2 = p(b2)
    b3 = compiler().compile(list(r2), make_vfb(Ctx()))
    if r2 != r or b3 != b2:
        fails.append(dict(clause="a second write and read cycle changes nothing", detail=f"{short(r)} {short(r2)}"))
    return fails


def split(lines):
    from vfbLib.parsers.text import OpenTypeStringParser

    st, d = call(lambda: OpenTypeStringParser.build_fea_dict(list(lines)))
    if st == "raise":
        return [dict(clause="split: no exception", detail=repr(d))]
    fails = []
    back = list(d["prefix"]) + [x for f in d["features"] for x in f["code"]]
    if back != lines:
        fails.append(dict(clause="split: no line is lost", detail=f"{short(lines)} {short(d)}"))
    heads = [x for x in lines if re.search(r"feature\s*[a-z0-9]{4}\s*\{", x.split("#", 1)[0])]
    if [f["code"][:1] for f in d["features"]] != [[x] for x in heads]:
        fails.append(dict(clause="split: one part per feature", detail=f"{short(lines)} {short(d)}"))
    for f in d["features"]:
        m = re.search(r"\s*feature\s*([a-z0-9]{4})\s*\{", f["code"][0].split("#", 1)[0]) if f["code"] else None
        if f["code"] and (not m or m.group(1) != f["tag"]):
            fails.append(dict(clause="split: each feature starts with its own line", detail=short(f)))
    return fails


# ------------------------------------------------------------------ proofs
def p_rename(e):
    from pyvc.compare import Comparer
    from pyvc.schema import ListOf, Text
    from specs.features import renamed
    from vfbLib.ufo.features import rename_kern_classes_in_feature_code as f

    lines = ListOf(Text()).sym("lines")
    got = e.call(f, [lines])
    Comparer(e, "only the class names change").value(got, e.call(renamed, [lines]))


def unknown_items(e, what, kind=None):
    """a list of which nothing is known"""
    import z3
    from pyvc.terms import I, REG, Str
    from pyvc.values import SStr

    i = z3.Const(REG.fresh_name("i"), I)
    size = z3.Const(REG.fresh_name(f"number of {what}"), I)
    e.assume(size >= 0)
    name = REG.fresh_name(what)
    x = SStr(z3.Function(name, I, Str)(i)) if kind is None else z3.Function(name, I, I)(i)
    return (("r", size, i, (("e", x),)),)


def p_split(e):
    """OpenTypeStringParser.build_fea_dict: any number of lines. Invariant: the lines so far are
    those of the prefix, of the complete features and of the current one, in this order"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import ListOf, Text
    from pyvc.terms import REG, zi
    from pyvc.values import FList, HList, SStr
    from specs.features import split_on, split_result
    from vfbLib.parsers.text import OpenTypeStringParser

    lines = ListOf(Text()).sym("lines")
    n = lines.seq[0][1]

    def nothing():
        return e.alloc(HList()), e.alloc(HList()), "", None

    def state_of(e, fr):
        first = e.branch(e.truth(fr.locals["in_prefix"]))
        fea = fr.locals["fea"]
        prefix, done = e.getitem(fea, "prefix"), e.getitem(fea, "features")
        if first:
            Comparer(e, "no feature before the first").value(fea, e.call(split_result, [nothing()]))
            return (fr.locals["prefix"], *nothing()[1:])
        return prefix, done, fr.locals["tag"], fr.locals["feature"]

    def compare(e, name, got, want):
        want = e.force(want)
        e.prove(f"{name}: inside of a feature", (got[3] is None) == (want[3] is None))
        c = Comparer(e, name)
        c.value(got[0], want[0])
        c.value(got[1], want[1])
        if got[3] is not None and want[3] is not None:
            c.value(got[2], want[2])
            c.value(got[3], want[3])

    def initially(e, fr):
        compare(e, "before the first line", state_of(e, fr), nothing())

    def arbitrary(e, fr, k):
        new = lambda seq: e.alloc(HList(seq))
        prefix = new(unknown_items(e, "lines of the prefix"))
        first = e.choose_free(2) == 0
        fr.locals["in_prefix"] = first
        fr.locals["prefix"] = prefix
        fea = e.call(split_result, [nothing()])
        fr.locals["fea"] = fea
        objs = {prefix.id, fea.id}
        if first:
            done, tag, code = (), "", None
            fr.locals["feature"] = new(())
            fr.locals["tag"] = ""
            objs.add(e.getitem(fea, "features").id)
        else:
            done, code = unknown_items(e, "features", int), unknown_items(e, "lines of the feature")
            tag = Text().sym(REG.fresh_name("tag"))
            e.setitem(fea, "prefix", prefix)
            e.setitem(fea, "features", new(done))
            fr.locals["tag"], fr.locals["feature"] = tag, new(code)
            objs |= {e.getitem(fea, "features").id}
            code = FList(code)
        objs.add(fr.locals["feature"].id)
        return (FList(e.get(prefix).seq), FList(done), tag, code), objs, set()

    def step(e, fr, k, state):
        compare(e, "lines so far", state_of(e, fr), e.call(split_on, [state, e.getitem(lines, k)]))

    inv = Invariant(n, ("fea", "prefix", "feature", "tag", "in_prefix"), initially, arbitrary, step)
    e.invariants = [inv]
    got = e.call(OpenTypeStringParser.build_fea_dict, [lines])
    Comparer(e, "every line in its part").value(got, e.call(split_result, [inv.final]))


def p_read(e):
    """OpenTypeStringParser._parse: a text of any number of lines. Invariants: the lines kept so
    far are those of the specification; of those only empty ones are taken from the end"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.invariants import Invariant
    from pyvc.schema import Text
    from pyvc.terms import EMPTY, I, REG, zb, zi
    from pyvc.values import FList, HList, Ref, vsubst
    from specs.features import kept_line
    from vfbLib.parsers.base import BaseParser
    from vfbLib.parsers.text import OpenTypeStringParser

    text = Text().sym("text")
    e.contracts[BaseParser.read_str_all] = lambda e, a, kw: text
    source = e.nat.call_method(e, text, "splitlines", [], {})
    n = source.seq[0][1]

    # ---- the loop over the lines
    def compare(e, name, fr, state):
        lines, empty = e.force(state)
        c = Comparer(e, name)
        c.value(fr.locals["lines"], lines)
        c.value(fr.locals["c"], empty)

    def initially(e, fr):
        compare(e, "before the first line", fr, (FList(()), 0))

    def arbitrary(e, fr, k):
        lines = unknown_items(e, "lines")
        c = z3.Const(REG.fresh_name("empty lines"), I)
        e.assume(c >= 0)
        fr.locals["lines"], fr.locals["c"] = e.alloc(HList(lines)), c
        return (e.alloc(HList(lines)), c), {fr.locals["lines"].id}, set()

    def step(e, fr, k, state):
        compare(e, "lines so far", fr, e.call(kept_line, [state, e.getitem(source, k)]))

    kept = Invariant(n, ("lines", "c"), initially, arbitrary, step)

    # ---- the loop that takes empty lines from the end
    def empty_from(j):
        _, n, iv, sub = e.seq_of(kept.final[0])[0]
        i = z3.Const("i", I)
        x = vsubst(sub, [(iv, i)])[0][1]
        return z3.ForAll([i], z3.Implies(z3.And(i >= j, i < zi(n)), x.t == EMPTY))

    def cut(j):
        _, n, iv, sub = e.seq_of(kept.final[0])[0]
        return FList((("r", j, iv, sub),))

    def related(e, name, fr):
        j = e.length(fr.locals["lines"])
        e.prove(f"{name}: no longer than before", zi(j) <= zi(e.length(kept.final[0])))
        Comparer(e, name).value(fr.locals["lines"], cut(j))
        e.prove(f"{name}: only empty lines are taken", empty_from(zi(j)))

    def some_end(e, fr, k):
        j = z3.Const(REG.fresh_name("number of lines"), I)
        e.assume(z3.And(j >= 0, j <= zi(e.length(kept.final[0]))))
        e.assume(empty_from(j))
        fr.locals["lines"] = e.alloc(HList(cut(j).seq))
        return j, {fr.locals["lines"].id}, set()

    ends = Invariant("while", ("lines",), lambda e, fr: related(e, "before the last line", fr), some_end,
                     lambda e, fr, k, j: related(e, "lines from the end", fr))
    e.invariants = [kept, ends]
    p = e.call(OpenTypeStringParser, [])
    got = e.force(e.call(e.getattr(p, "_parse"), []))
    size = e.length(kept.final[0])
    j = zi(e.length(got)) - 1
    e.prove("no line is added in front of the last", z3.And(j >= 0, j <= zi(size)))
    if e.branch(zi(size) > 1):
        e.prove("only empty lines at the end are taken", empty_from(j))
        if e.branch(j > 0):
            e.prove("all empty lines at the end are taken", e.getitem(cut(j), j - 1).t != EMPTY)
    else:
        e.prove("a single line stays", j == zi(size))
    Comparer(e, "the lines and an empty one").value(got, FList(cut(j).seq + (("e", ""),)))


def proofs():
    from props.proofs import Proof
    from pyvc.texts import setup

    return [Proof("rename_kern_classes_in_feature_code", p_rename, setup=setup, modular=True),
            Proof("OpenTypeStringParser.build_fea_dict", p_split, setup=setup, modular=True),
            Proof("OpenTypeStringParser._parse", p_read, setup=setup, modular=True)]


PROOFS = proofs()


def check(run):
    from props import proofs

    proofs.prove(run, __name__)
    rng = run.rng
    for i in range(run.n(500, 8000)):
        run.case(rename, [random_line(rng) for _ in range(rng.choice([0, 1, 2, 5]))])
        run.case(read, random_text(rng))
        run.case(split, [random_line(rng) if rng.random() < 0.7 else rng.choice(["feature kern {", "  feature liga{ # x", "#feature abcd {", "feature ss01 { sub a by b;"])
                         for _ in range(rng.choice([0, 1, 3, 8]))])
    return proofs.finish(run)
