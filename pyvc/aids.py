"""Aids of the proofs: arbitrary texts and lists, dicts seen through the names they have, and
what is proved of an entry that a step adds."""
import re


def unknown_text(e):
    import z3
    from pyvc.terms import REG, Str
    from pyvc.values import SStr

    return SStr(z3.Const(REG.fresh_name("text"), Str))


def spot_is(e, what, s, present, value):
    """the entry of the dict that is looked at"""
    import z3
    from pyvc.compare import Comparer
    from pyvc.terms import zb

    got = e.getattr(s, "present")
    e.prove(f"{what}: is there an entry", zb(e.truth(got)) == zb(e.truth(present)))
    c = Comparer(e, what)
    c.under([zb(present)], lambda: c.value(e.getattr(s, "value"), value))


def unknown_list(e, what):
    import z3
    from pyvc.terms import I, REG, Str
    from pyvc.values import SStr

    i = z3.Const(REG.fresh_name("i"), I)
    size = z3.Const(REG.fresh_name(f"number of {what}"), I)
    e.assume(size >= 0)
    return (("r", size, i, (("e", SStr(z3.Function(REG.fresh_name(what), I, Str)(i))),)),)


def text_key(key):
    """a text as a term: built texts are functions of their parts"""
    import z3
    from pyvc.expr import text_term
    from pyvc.terms import I, Str, is_int, zb, zi
    from pyvc.values import FmtStr, Mrg, SStr, Unsupported

    if isinstance(key, Mrg):
        t = text_key(key.opts[-1][1])
        for c, x in reversed(key.opts[:-1]):
            t = z3.If(zb(c), text_key(x), t)
        return t
    if not isinstance(key, FmtStr):
        return text_term(key)
    join = z3.Function("joined", Str, Str, Str)
    number = z3.Function("as text", I, Str)
    t = None
    for p in key.parts:
        if isinstance(p, (str, SStr)):
            x = text_term(p)
        elif isinstance(p, tuple) and p[0] == "%":
            x = formatted(p[1], p[2])
        elif isinstance(p, tuple) and p[0] == "v" and is_int(p[1]) and tuple(p[2:]) == (-1, ""):
            x = number(zi(p[1]))
        else:
            raise Unsupported(f"part {p} of a text")
        t = x if t is None else join(t, x)
    return t


def formatted(form, args):
    """a function of the values, that differs from form to form"""
    import z3
    from pyvc.terms import is_int, zi

    ts = [zi(x) if is_int(x) else text_key(x) for x in args]
    return z3.Function(f"formatted {form}", *[t.sort() for t in ts], SStr_sort())(*ts)


def SStr_sort():
    from pyvc.terms import Str

    return Str


def has(e, names, key):
    import z3
    from pyvc.terms import Str

    return z3.Function(e.getattr(names, "what"), Str, z3.BoolSort())(text_key(key))


def setup_names(e):
    from pyvc.engine import synt_eq
    from pyvc.values import HSet, Ref, Unsupported
    from specs.abstract import Names, NameSet, SomeEntry

    def known(e, a, kw):
        if e.seq_of(e.getattr(a[0], "log")):
            raise Unsupported("names after an assignment")
        return has(e, a[0], e.force(a[1]))

    def item(e, a, kw):
        log = e.seq_of(e.getattr(a[0], "log"))
        if not log and synt_eq(e.force(a[1]), e.getattr(a[0], "last_key")):
            return e.getattr(a[0], "last")
        raise Unsupported("value of a name")

    def size(e, a, kw):
        n = e.getattr(a[0], "size")
        if n is None or e.seq_of(e.getattr(a[0], "log")):
            raise Unsupported("number of names")
        return n

    def update(e, a, kw):
        x = e.force(a[1])
        elts = e.get(x).elts if isinstance(x, Ref) and isinstance(e.get(x), HSet) else e.seq_of(x)
        if len(elts) != 1 or elts[0][0] != "e":
            raise Unsupported("several names are added")
        e.call(e.getattr(a[0], "add"), [elts[0][1]])

    e.contracts[NameSet.update] = update
    e.contracts[Names.known] = known
    e.contracts[Names.__len__] = size
    e.contracts[Names.__getitem__] = item
    e.contracts[SomeEntry.decompile] = lambda e, a, kw: None


def some_names(e, last_key=None, last=None, cls=None, size=None):
    from pyvc.terms import REG
    from pyvc.values import HInst, HList
    from specs.abstract import Names

    names = e.alloc(HInst(cls or Names))
    e.setattr(names, "size", size)
    e.setattr(names, "log", e.alloc(HList()))
    e.setattr(names, "what", REG.fresh_name("is a name"))
    e.setattr(names, "last_key", last_key)
    e.setattr(names, "last", last)
    return names


def settled(e, ref):
    """the items of a list, by cases"""
    def go(seq):
        out = ()
        for x in seq:
            if x[0] == "c":
                x = x[1][e.choose([c for c, _ in x[1]])][1]
                out += go(x)
            else:
                out += (x,)
        return out

    return go(e.seq_of(ref))


def added(e, names, what):
    """one entry has been added, under a name that was free -> (name, value)"""
    import z3

    log = settled(e, e.getattr(names, "log"))
    if not e.prove(f"{what}: one entry is added", len(log) == 1 and log[0][0] == "e"):
        return None
    key, value = e.force(log[0][1])
    key = e.force(key)
    e.prove(f"{what}: the name was free", z3.Not(has(e, names, key)))
    return key, value


def last_is(e, order, before, key, what):
    """the list is longer by the name"""
    seq = settled(e, order)
    if e.prove(f"{what}: the name is the last of the order",
               len(seq) == len(before) + 1 and tuple(seq[:-1]) == tuple(before) and seq[-1][0] == "e"):
        e.prove(f"{what}: the name in the order", text_key(e.force(seq[-1][1])) == text_key(key))


def own_name(e, names, key, name, what):
    """the name itself, or the name and a number if it was not free"""
    from pyvc.terms import zb
    from pyvc.values import FmtStr

    parts = list(key.parts) if isinstance(key, FmtStr) else [key]
    if isinstance(parts[0], str) and parts[0].startswith("#") and name == "":
        parts.insert(0, "")
    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][0] == "%" and parts[0][1] in (
            "%s#%i", "%s#%d", "%s#%02i", "%s#%02d", "%s#%s"):
        parts = [parts[0][2][0], "#", ("v",)]
    rest = parts[1:]
    numbered = (len(rest) == 1 and isinstance(rest[0], str) and re.fullmatch(r"#\d+", rest[0]) is not None
                or len(rest) == 2 and rest[0] == "#" and rest[1][0] == "v")
    e.prove(f"{what}: its own name", (not rest or numbered) and (
        parts[0] == name if "" in (parts[0], name) else text_key(parts[0]) == text_key(name)))
    if rest:
        e.prove(f"{what}: a number is added only if the name is not free", zb(has(e, names, name)))


def one_new_name(e, names, order, before, name, what):
    """one entry has been added, under a name that was free, at the end of the order
    -> (name, value)"""
    got = added(e, names, what)
    if got is not None:
        last_is(e, order, before, got[0], what)
        own_name(e, names, got[0], name, what)
    return got
