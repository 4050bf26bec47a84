"""Dicts of any size, seen at one key (specs.abstract.Spot). What is proved of the entry at an
arbitrary key is proved of the dict. For the other keys the dict may have any entry: an access to
one of them that fails is found where that key is the one that is looked at."""
import z3

from .terms import REG, zb


def setup(e):
    from specs.abstract import Spot

    def here(s, k):
        same = e.getattr(s, "same")
        return zb(same(e, k) if same else e.eq(e.getattr(s, "key"), e.force(k)))

    def other(s):
        return e.getattr(s, "other")()

    def contains(e, a, kw):
        unknown = e.getattr(a[0], "others")
        if unknown is None:
            unknown = z3.Const(REG.fresh_name("has another key"), z3.BoolSort())
        return z3.If(here(a[0], a[1]), zb(e.getattr(a[0], "present")), zb(unknown))

    def getitem(e, a, kw):
        from .expr import raise_

        if not e.branch(here(a[0], a[1])):
            return other(a[0])
        if not e.branch(e.getattr(a[0], "present")):
            raise_(KeyError, a[1])
        return e.getattr(a[0], "value")

    def setitem(e, a, kw):
        if e.branch(here(a[0], a[1])):
            e.setattr(a[0], "present", True)
            e.setattr(a[0], "value", a[2])

    def get(e, a, kw):
        default = a[2] if len(a) > 2 else kw.get("default")
        if e.branch(contains(e, a, kw)):
            return e.getattr(a[0], "value") if e.branch(here(a[0], a[1])) else other(a[0])
        return default

    def setdefault(e, a, kw):
        default = a[2] if len(a) > 2 else None
        if e.branch(contains(e, a, kw)):
            return e.getattr(a[0], "value") if e.branch(here(a[0], a[1])) else other(a[0])
        setitem(e, [a[0], a[1], default], {})
        return default

    def size(e, a, kw):
        present = e.getattr(a[0], "present")
        n = z3.Const(REG.fresh_name("size"), z3.IntSort())
        e.assume(z3.And(n >= 0, z3.Implies(zb(present), n > 0)))
        return n

    for name, f in dict(__len__=size, __contains__=contains, __getitem__=getitem, __setitem__=setitem, get=get,
                        setdefault=setdefault).items():
        e.contracts[getattr(Spot, name)] = f


def spot(e, key, other, present=False, value=None, same=None, others=None):
    """other: -> a value that the dict may have for another key; same(e, k): is it the key;
    others: are there entries for other keys (None: not known)"""
    from .values import HInst
    from specs.abstract import Spot

    s = e.alloc(HInst(Spot))
    for a, v in dict(key=key, other=other, present=present, value=value, same=same,
                     others=others).items():
        e.setattr(s, a, v)
    return s
