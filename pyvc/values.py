"""Program values of the symbolic interpreter."""
import z3
from .terms import simp, zi, is_sym


class Unsupported(Exception):
    """the engine cannot decide: never a verdict about the code"""


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return f"<ref {self.id}>"


class SStr:
    """symbolic text"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SStr({self.t})"


class SFl:
    """symbolic double"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SFl({self.t})"


class FBytes:
    """symbolic bytes: a sequence of tokens"""

    __slots__ = ("toks",)

    def __init__(self, toks):
        self.toks = tuple(toks)

    def __repr__(self):
        return f"FBytes{self.toks}"


class FList:
    """immutable list value (input data, loop results)"""

    __slots__ = ("seq", "src")

    def __init__(self, seq, src=None):
        self.seq = tuple(seq)
        self.src = src  # (list, index) it has been taken from

    def __repr__(self):
        return f"FList{self.seq}"


class FDict:
    """immutable dict value; entries ('e',k,v) ('o',cond,k,v) ('r',n,iv,ents)"""

    __slots__ = ("ents", "src", "log")

    def __init__(self, ents, src=None, log=False):
        self.ents = tuple(ents)
        self.src = src
        self.log = log  # keys may coincide, the last entry counts

    def __repr__(self):
        return f"FDict{self.ents}"


class FObj:
    """immutable object value"""

    __slots__ = ("cls", "attrs", "src")

    def __init__(self, cls, attrs, src=None):
        self.cls = cls
        self.attrs = tuple(attrs)
        self.src = src

    def __repr__(self):
        return f"FObj({self.cls.__name__},{self.attrs})"


class Alt:
    """one of several values, selected by an integer term"""

    __slots__ = ("tag", "options")

    def __init__(self, tag, options):
        self.tag = tag
        self.options = tuple(options)

    def __repr__(self):
        return f"Alt({self.tag},{self.options})"


class Mrg:
    """merged value: ((cond, value), ...) with exclusive, exhaustive conditions"""

    __slots__ = ("opts",)

    def __init__(self, opts):
        self.opts = tuple(opts)

    def __repr__(self):
        return f"Mrg{self.opts}"


class FmtStr:
    """text built from parts, some of them symbolic"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"FmtStr{self.parts}"


class Poison:
    """value of a variable that no invariant describes"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class PyExc:
    """exception instance"""

    def __init__(self, type_, args=()):
        self.type = type_
        self.args = args

    def __repr__(self):
        return f"PyExc({self.type.__name__}, {self.args})"


# ---- heap payloads ----------------------------------------------------------


class HList:
    __slots__ = ("seq", "ro")
    kind = "list"

    def __init__(self, seq=(), ro=False):
        self.seq = tuple(seq)
        self.ro = ro

    def copy(self):
        return HList(self.seq, self.ro)


class HDict:
    __slots__ = ("ents", "ro")

    def __init__(self, ents=(), ro=False):
        self.ents = tuple(ents)
        self.ro = ro

    def copy(self):
        return HDict(self.ents, self.ro)


class HSet:
    __slots__ = ("elts",)

    def __init__(self, elts=()):
        # tuple of ('e', v) or ('o', cond, v); members pairwise different
        self.elts = tuple(elts)

    def copy(self):
        return HSet(self.elts)


class HInst:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})

    def copy(self):
        return HInst(self.cls, self.attrs)


class HStream:
    __slots__ = ("data", "rest")

    def __init__(self, data=(), rest=()):
        self.data = tuple(data)
        self.rest = tuple(rest)

    def copy(self):
        return HStream(self.data, self.rest)


class HCell:
    """iterator state"""

    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = tuple(seq)

    def copy(self):
        return HCell(self.seq)


BARRIER = ("barrier",)


def vsubst(v, pairs):
    """substitute integer constants in a value / token / sequence"""
    if is_sym(v):
        return simp(z3.substitute(v, *[(a, zi(b)) for a, b in pairs]))
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.t, *[(a, zi(b)) for a, b in pairs]))
    if isinstance(v, SFl):
        return SFl(z3.substitute(v.t, *[(a, zi(b)) for a, b in pairs]))
    if isinstance(v, FBytes):
        return FBytes(vsubst(v.toks, pairs))
    if isinstance(v, FList):
        return FList(vsubst(v.seq, pairs), vsubst(v.src, pairs))
    if isinstance(v, FDict):
        return FDict(vsubst(v.ents, pairs), vsubst(v.src, pairs), v.log)
    if isinstance(v, FObj):
        return FObj(v.cls, vsubst(v.attrs, pairs), vsubst(v.src, pairs))
    if isinstance(v, Alt):
        return Alt(vsubst(v.tag, pairs), vsubst(v.options, pairs))
    if isinstance(v, Mrg):
        return Mrg(vsubst(v.opts, pairs))
    if isinstance(v, FmtStr):
        return FmtStr(vsubst(v.parts, pairs))
    return v


def vmap_terms(v, f):
    """apply f to every z3 term in a value"""
    if is_sym(v):
        return f(v)
    if isinstance(v, tuple):
        return tuple(vmap_terms(x, f) for x in v)
    if isinstance(v, SStr):
        return SStr(f(v.t))
    if isinstance(v, SFl):
        return SFl(f(v.t))
    if isinstance(v, FBytes):
        return FBytes(vmap_terms(v.toks, f))
    if isinstance(v, FList):
        return FList(vmap_terms(v.seq, f))
    if isinstance(v, FDict):
        return FDict(vmap_terms(v.ents, f), log=v.log)
    if isinstance(v, FObj):
        return FObj(v.cls, vmap_terms(v.attrs, f))
    if isinstance(v, Alt):
        return Alt(vmap_terms(v.tag, f), vmap_terms(v.options, f))
    if isinstance(v, Mrg):
        return Mrg(vmap_terms(v.opts, f))
    if isinstance(v, FmtStr):
        return FmtStr(vmap_terms(v.parts, f))
    return v


def with_src(v, src):
    """the immutable value as an element of a list of the program"""
    if isinstance(v, FList):
        return FList(v.seq, src)
    if isinstance(v, FDict):
        return FDict(v.ents, src, v.log)
    if isinstance(v, FObj):
        return FObj(v.cls, v.attrs, src)
    return v


def applied(v):
    """names of the functions that occur in a value"""
    names = set()

    def f(t):
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            stack.extend(x.children())
        return t

    vmap_terms(v, f)
    return names


def containers(v, out):
    """the mutable values that occur in a value"""
    if isinstance(v, tuple):
        for x in v:
            containers(x, out)
    elif isinstance(v, (FList, FDict, FObj)):
        out.append(v)
        containers(getattr(v, "seq", None) or getattr(v, "ents", None) or getattr(v, "attrs", ()), out)
    elif isinstance(v, Alt):
        containers(v.options, out)
    elif isinstance(v, Mrg):
        containers(v.opts, out)
    return out


def thawable(v):
    """part of an element that becomes an object of its own when a loop changes elements"""
    items = v.seq if isinstance(v, FList) else v.ents if isinstance(v, FDict) else v.attrs \
        if isinstance(v, FObj) else None
    if items is None or not items or not applied(v):
        return False
    return isinstance(v, FObj) or all(x[0] == "e" for x in items)


def thawed(v):
    """the element and its parts that become objects of their own"""
    out = [v]
    parts = [x[1] for x in v.seq if x[0] == "e"] if isinstance(v, FList) else \
        [x[2] for x in v.ents if x[0] == "e"] if isinstance(v, FDict) else \
        [x for _, x in v.attrs] if isinstance(v, FObj) else []
    for x in parts:
        if thawable(x):
            out += thawed(x)
    return out


def vocc(v, ids):
    """does a value mention one of the constants"""
    found = []

    def f(t):
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                found.append(1)
                return t
            stack.extend(x.children())
        return t

    vmap_terms(v, f)
    return bool(found)


def freeze_const(v):
    """a host constant as an immutable program value"""
    if isinstance(v, list):
        return FList(tuple(("e", freeze_const(x)) for x in v))
    if isinstance(v, tuple):
        return tuple(freeze_const(x) for x in v)
    if isinstance(v, dict):
        return FDict(tuple(("e", k, freeze_const(x)) for k, x in v.items()))
    return v
