"""Texts about which nothing is known: the text methods as uninterpreted functions of the text,
one function per method and constant argument. The theorems hold whatever the functions are;
what is known of them: a text that starts with "ab" starts with "a", and not with "ac".

A proof that uses them compares what the code does with a text to what its contract says in the
same words. Code that takes texts apart in other words is not refuted by that (e.texts marks the
result as internal)."""
import re

import z3

from .terms import EMPTY, I, REG, Str, zb, zi
from .values import FList, FObj, FmtStr, SStr, Unsupported

def known(what, x, t):
    return z3.Function(f"{what} {x!r}", Str, z3.BoolSort())(t)


def part(what, x, t):
    return SStr(z3.Function(f"{what} {x!r}", Str, Str)(t))


def on(e):
    return getattr(e, "texts", None) is not None


def test(e, what, s, x):
    """does the text s start with, end with, contain the constant x"""
    if x == "":
        return True
    t = s.t
    p = known(what, x, t)
    if what == "starts with":
        for y in e.texts.setdefault("starts", []):
            q = known(what, y, t)
            if y == x:
                continue
            if x.startswith(y):
                e.assume(z3.Implies(p, q))
            elif y.startswith(x):
                e.assume(z3.Implies(q, p))
            else:
                e.assume(z3.Not(z3.And(p, q)))
        if x not in e.texts["starts"]:
            e.texts["starts"].append(x)
    return p


def start_of(e, s, x):
    """FmtStr.startswith"""
    p = s.parts[0]
    if isinstance(p, str):
        if len(p) >= len(x) or not x.startswith(p):
            return p.startswith(x)
    raise Unsupported("start of a built text")


def method(e, s, name, args, kwargs):
    if kwargs:
        return NotImplemented
    if name == "startswith" and len(args) == 1 and isinstance(args[0], str):
        return test(e, "starts with", s, args[0]) if isinstance(s, SStr) else start_of(e, s, args[0])
    if not isinstance(s, SStr):
        return NotImplemented
    if name == "endswith" and len(args) == 1 and isinstance(args[0], str):
        return test(e, "ends with", s, args[0])
    if name in ("strip", "lstrip", "rstrip", "lower", "upper") and all(isinstance(a, str) for a in args):
        if args == ["\0"]:
            return NotImplemented
        return part(name, args, s.t)
    if name == "splitlines" and not args:
        n = z3.Function("number of lines", Str, I)(s.t)
        e.assume(n >= 0)
        i = z3.Const(REG.fresh_name("line number"), I)
        line = z3.Function("line", Str, I, Str)
        return FList((("r", n, i, (("e", SStr(line(s.t, i))),)),))
    if name == "partition" and len(args) == 1 and isinstance(args[0], str):
        if e.branch(test(e, "contains", s, args[0])):
            return (part("before", args[0], s.t), args[0], part("after", args[0], s.t))
        return (s, "", "")
    if name == "split" and len(args) == 2 and isinstance(args[0], str) and args[1] == 1:
        from .values import HList

        if e.branch(test(e, "contains", s, args[0])):
            return e.alloc(HList((("e", part("before", args[0], s.t)), ("e", part("after", args[0], s.t)))))
        return e.alloc(HList((("e", s),)))
    return NotImplemented


def cut(e, s, lo, hi, st):
    return part("slice", (lo, hi, st), s.t)


def optional_groups(pattern):
    """the groups that may not take part in a match; the least length of each"""
    import re._parser as parser

    p = parser.parse(pattern)
    out, width = set(), {}

    def go(items, opt):
        for op, av in items:
            op = str(op)
            if op == "SUBPATTERN":
                if av[0] is not None:
                    width[av[0]] = av[3].getwidth()[0]
                    if opt:
                        out.add(av[0])
                go(av[3], opt)
            elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                go(av[2], opt or av[0] == 0)
            elif op == "BRANCH":
                for b in av[1]:
                    go(b, True)
            elif op in ("ASSERT", "ASSERT_NOT"):
                go(av[1], True)

    go(p, False)
    return out, [width[i] for i in range(1, p.state.groups)]


def search(kind):
    def f(e, args, kwargs):
        pattern, s, *flags = args
        if isinstance(pattern, re.Pattern):
            flags = flags or ([pattern.flags] if pattern.flags != re.UNICODE else [])
            pattern = pattern.pattern
        from specs.abstract import Match

        s = e.force(s)
        if kwargs or not isinstance(pattern, str) or not all(isinstance(x, int) for x in flags):
            raise Unsupported("regular expression")
        what = (kind, pattern, *flags)
        if isinstance(s, str):
            m = getattr(re, kind)(pattern, s, *flags)
            return None if m is None else FObj(Match, (("parts", m.groups()),))
        if not isinstance(s, SStr):
            raise Unsupported("regular expression on a built text")
        if not e.branch(known("matches", what, s.t)):
            return None
        opt, widths = optional_groups(pattern)
        parts = []
        for i, width in enumerate(widths, 1):
            if i in opt and not e.branch(known("has a group", (i, *what), s.t)):
                parts.append(None)
                continue
            parts.append(part("group", (i, *what), s.t))
            if width:
                e.assume(parts[-1].t != EMPTY)
        return FObj(Match, (("parts", tuple(parts)),))

    return f


def setup(e):
    e.texts = {}
    for kind in ("search", "match", "fullmatch"):
        e.contracts[getattr(re, kind)] = search(kind)
    e.assumptions.add("str methods and regular expressions are functions of the text (uninterpreted)")


# ---- sets of texts of unknown size: membership and emptiness
def text_set(e, seq):
    from specs.abstract import TextSet

    e.assumptions.add("sets of texts are used by membership and emptiness only")
    return FObj(TextSet, (("items", FList(seq)),))


def is_set(v):
    from specs.abstract import TextSet

    return isinstance(v, FObj) and v.cls is TextSet


def items(v):
    return dict(v.attrs)["items"].seq


def without(e, seq, other):
    out = []
    for x in seq:
        if x[0] == "e":
            gone = zb(e.seq_has(other, x[1]))
            out.append(("c", ((z3.Not(gone), (x,)), (gone, ()))))
        elif x[0] == "r":
            out.append((*x[:3], without(e, x[3], other)))
        elif x[0] == "c":
            out.append(("c", tuple((c, without(e, s, other)) for c, s in x[1])))
        else:
            raise Unsupported("difference of sets")
    return tuple(out)


def has(e, x, item):
    """is item among the elements of a repetition"""
    _, n, iv, sub = x
    t = z3.Const(REG.fresh_name("i"), I)
    from .values import vsubst

    c = e.seq_has(vsubst(sub, [(iv, t)]), item)
    if isinstance(c, bool):
        return c and zi(n) > 0
    return z3.Exists([t], z3.And(t >= 0, t < zi(n), c))
