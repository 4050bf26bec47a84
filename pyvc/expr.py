"""Expression evaluation of PyVC (mixed into Engine)."""
import ast
from pathlib import PurePath
import builtins
import enum
import functools
import inspect
import types

import z3

from .terms import (
    EMPTY, FIX, I, POW2, bits_of, of_bits, REG, Flt, Str, fconst, is_int, is_sym, lit, simp, zb, zi,
)
from . import texts
from .values import (
    Alt, FBytes, FDict, FList, FmtStr, FObj, HCell, HDict, HInst, HList, HSet, Mrg,
    Poison, PyExc, Ref, SFl, SStr, Unsupported, thawable, vsubst, with_src,
)

FADD = z3.Function("fadd", Flt, Flt, Flt)
FSUB = z3.Function("fsub", Flt, Flt, Flt)
FMUL = z3.Function("fmul", Flt, Flt, Flt)
FDIVF = z3.Function("fdivf", Flt, Flt, Flt)
FLT = z3.Function("flt", Flt, Flt, z3.BoolSort())

def is_type(x):
    """a type, or an alias as used in annotations"""
    return x is None or isinstance(x, (type, types.GenericAlias, types.UnionType))


_ARITH = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&",
          ast.BitOr: "|", ast.BitXor: "^", ast.Div: "/"}


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_num(v):
    return is_int(v) or is_bool(v)


def is_text(v):

    return isinstance(v, (str, SStr, FmtStr))


def is_flt(v):
    return isinstance(v, (float, SFl))


def text_term(v):
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, str):
        return lit(v)
    raise Unsupported(f"text operation {v}")


def flt_term(v):
    if isinstance(v, SFl):
        return v.t
    if isinstance(v, float):
        return fconst(v)
    if isinstance(v, bool):
        v = int(v)
    if is_int(v):
        return FIX(zi(v)) if is_sym(v) else fconst(float(v))
    raise Unsupported("float operation")


def raise_(ty, *args):
    from .engine import Raise

    raise Raise(PyExc(ty, args))


class ExprMixin:
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {fr.name}:{e.lineno}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def load_name(self, name, fr):
        f = fr
        while True:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    if v.why == "unbound":
                        raise_(UnboundLocalError, name)
                    raise Unsupported(f"variable {name}: {v.why}")
                return v
            c = f.closure
            if c is None:
                break
            if isinstance(c, dict):
                if name in c:
                    return c[name]
                break
            f = c
        if name in f.globals:
            return f.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise_(NameError, name)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=()):
        if any(isinstance(x, ast.Starred) for x in elts):
            vals = self.elems(v)
            j = next(i for i, x in enumerate(elts) if isinstance(x, ast.Starred))
            after = n - j - 1
            if len(vals) < n - 1:
                raise_(ValueError, "unpack")
            mid = vals[j:len(vals) - after]
            return (vals[:j] + [self.alloc(HList(tuple(("e", x) for x in mid)))]
                    + (vals[len(vals) - after:] if after else []))
        if isinstance(v, tuple):
            vals = list(v)
        else:
            vals = self.elems(v)
        if len(vals) != n:
            raise_(ValueError, "unpack")
        return vals

    def elems(self, v):
        """list of elements of a sequence of known length"""
        v = self.force_iterable(v)
        if isinstance(v, tuple):
            return list(v)
        out = []
        for x in self.seq_of(v):
            self._elems(x, out)
        return out

    def _elems(self, x, out):
        if x[0] == "e":
            out.append(x[1])
        elif x[0] == "c":
            i = self.choose([c for c, _ in x[1]])
            for y in x[1][i][1]:
                self._elems(y, out)
        elif x[0] == "r" and isinstance(x[1], int) and x[1] <= 64:
            for j in range(x[1]):
                for y in vsubst(x[3], [(x[2], j)]):
                    self._elems(y, out)
        else:
            raise Unsupported("sequence of unknown length")

    # ------------------------------------------------------------------ forcing
    def force(self, v):
        while isinstance(v, (Alt, Mrg)):
            if isinstance(v, Alt):
                i = self.choose([zi(v.tag) == j for j in range(len(v.options))])
                v = v.options[i]
            else:
                i = self.choose([c for c, _ in v.opts])
                v = v.opts[i][1]
        if isinstance(v, Poison):
            if v.why == "unbound":
                raise_(UnboundLocalError)
            raise Unsupported(f"use of {v}")
        return v

    def options(self, v):
        """[(cond, value)] without forking"""
        if isinstance(v, Alt):
            r = []
            for j, o in enumerate(v.options):
                for c, x in self.options(o):
                    r.append((simp(z3.And(zi(v.tag) == j, zb(c))), x))
            return r
        if isinstance(v, Mrg):
            r = []
            for c0, o in v.opts:
                for c, x in self.options(o):
                    r.append((simp(z3.And(zb(c0), zb(c))), x))
            return r
        return [(True, v)]

    def force_iterable(self, v):
        return self.force(v)

    # ------------------------------------------------------------------ truth / equality
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if is_sym(v):
            return simp(v != 0)
        if isinstance(v, (Alt, Mrg)):
            r = []
            for c, x in self.options(v):
                if isinstance(x, Poison) and self.valid(z3.Not(zb(c))):
                    continue
                t = self.truth(x)
                r.append(z3.And(zb(c), zb(t)))
            return simp(z3.Or(r))
        if isinstance(v, SStr):
            return simp(v.t != EMPTY)
        if isinstance(v, (str, bytes, float, tuple, list, dict, set, frozenset)):
            return bool(v)
        if isinstance(v, FList):
            return self.nonempty(v.seq)
        if isinstance(v, FDict):
            return self.nonempty(v.ents)
        if isinstance(v, FBytes):
            return simp(z3.Not(zb(self.toks_empty(v.toks))))
        if isinstance(v, FObj) and v.cls.__name__ == "AsmLines":
            return self.truth(dict(v.attrs)["code"])
        if texts.is_set(v):
            return self.nonempty(texts.items(v))
        if isinstance(v, FObj) and inspect.getattr_static(v.cls, "__len__", None) in self.contracts:
            return self.truth(self.length(v))
        if isinstance(v, Ref):
            p = self.get(v)
            if isinstance(p, HList):
                return self.nonempty(p.seq)
            if isinstance(p, HDict):
                return self.nonempty(p.ents)
            if isinstance(p, HSet):
                return self.nonempty(p.elts)
            if isinstance(p, HInst):
                ln = inspect.getattr_static(p.cls, "__len__", None)
                if ln in self.contracts:
                    return self.truth(self.length(v))
                if ln is not None or inspect.getattr_static(p.cls, "__bool__", None):
                    raise Unsupported("truth of object")
                return True
            return True
        if isinstance(v, (Poison,)):
            self.force(v)
        if isinstance(v, SFl):
            raise Unsupported("truth of a double")

        if isinstance(v, FmtStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            raise Unsupported("truth of text")
        return bool(v)

    def nonempty(self, seq):
        cs = []
        for x in seq:
            k = x[0]
            if k == "e":
                return True
            if k == "o":
                cs.append(zb(x[1]))
            elif k == "r":
                sub = self.nonempty(x[3])
                if sub is True:
                    cs.append(zi(x[1]) > 0)
                elif sub is False:
                    continue
                elif isinstance(x[1], int):
                    cs += [zb(vsubst(sub, [(x[2], j)])) for j in range(x[1])]
                else:
                    cs.append(z3.Exists([x[2]], z3.And(x[2] >= 0, x[2] < x[1], sub)))
            elif k == "c":
                subs = [(c, self.nonempty(s)) for c, s in x[1]]
                if all(s is True for _, s in subs):
                    return True
                for c, s in subs:
                    cs.append(z3.And(zb(c), zb(s)))
            else:
                raise Unsupported("emptiness of a list that the loop is building")
        if not cs:
            return False
        return simp(z3.Or(cs))

    def seq_len(self, seq):
        total = 0
        for x in seq:
            k = x[0]
            if k == "e":
                total = simp(zi(total) + 1) if is_sym(total) else total + 1
            elif k == "o":
                total = simp(zi(total) + z3.If(zb(x[1]), 1, 0))
            elif k == "r":
                sub = self.seq_len(x[3])
                if isinstance(sub, int):
                    total = simp(zi(total) + zi(x[1]) * sub)
                else:
                    from .terms import occurs

                    if occurs(sub, {x[2].get_id()}):
                        k0 = z3.Const(REG.fresh_name("k"), I)
                        g = z3.substitute(zi(sub), (x[2], k0))
                        f = self.prefix_sum(g, k0)
                        total = simp(zi(total) + z3.substitute(f, (k0, zi(x[1]))))
                    else:
                        total = simp(zi(total) + zi(x[1]) * sub)
            elif k == "c":
                r = zi(self.seq_len(x[1][-1][1]))
                for c, s in reversed(x[1][:-1]):
                    r = z3.If(zb(c), zi(self.seq_len(s)), r)
                total = simp(zi(total) + r)
            else:
                raise Unsupported("length of a list that the loop is building")
        return total

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (str, bytes, tuple, list, dict, set, frozenset, range)):
            return len(v)
        if isinstance(v, FList):
            return self.seq_len(v.seq)
        if isinstance(v, FDict):
            self.check_log(v)
            return self.seq_len(v.ents)
        if isinstance(v, SStr):
            from .terms import strlen

            return 1 if self.nat.single(v) is not None else strlen(v.t)
        if isinstance(v, FmtStr) and all(self.nat.single(p) is not None for p in v.parts):
            return len(v.parts)
        if isinstance(v, FBytes):
            return self.toks_size(v.toks)
        if isinstance(v, Ref):
            p = self.get(v)
            if isinstance(p, HList):
                return self.seq_len(p.seq)
            if isinstance(p, HDict):
                self.distinct_keys(p.ents)
                return self.seq_len(p.ents)
            if isinstance(p, HSet):
                return self.seq_len(p.elts)
            if isinstance(p, HInst):
                f = inspect.getattr_static(p.cls, "__len__", None)
                if f is not None:
                    return self.call(f, [v])
        if isinstance(v, FObj):
            f = inspect.getattr_static(v.cls, "__len__", None)
            if f is not None:
                return self.call(f, [v])
        if v is None or is_num(v):
            raise_(TypeError, "len")
        raise Unsupported(f"len of {type(v).__name__}")

    def check_log(self, v):
        if v.log:
            self.distinct_keys(v.ents)

    def distinct_keys(self, ents):
        """the entries of a dict log are known to have different keys"""
        fams = []

        def walk(ents, guards, ivs):
            for en in ents:
                if en[0] == "e":
                    fams.append((en[1], guards, ivs))
                elif en[0] == "o":
                    fams.append((en[2], guards + (en[1],), ivs))
                elif en[0] == "c":
                    for c, sub in en[1]:
                        walk(sub, guards + (c,), ivs)
                elif en[0] == "r":
                    walk(en[3], guards + (en[2] >= 0, en[2] < en[1]), ivs + (en[2],))
                else:
                    raise Unsupported("entries of a dict that the loop is building")

        walk(ents, (), ())
        plain = [k for k, g, ivs in fams if not ivs and not _symbolic(k) and _hashable(k)]
        if len(plain) == len(fams) == len(set(plain)):
            return
        if len(fams) > 12:
            raise Unsupported("dict entries may coincide")
        for i, (ka, ga, va) in enumerate(fams):
            for j, (kb, gb, vb) in enumerate(fams[i:], i):
                if i == j and not va:
                    continue
                pairs = [(x, z3.Const(REG.fresh_name("i"), I)) for x in vb]
                if pairs:
                    kb, gb = vsubst(kb, pairs), vsubst(gb, pairs)
                c = [zb(x) for x in ga + gb]
                if i == j:
                    c.append(z3.Or([x != y for x, y in pairs]))
                c.append(zb(self.eq(ka, kb)))
                if not self.valid(z3.Not(z3.And(c))):
                    raise Unsupported("dict entries may coincide")

    def undecided(self, what):
        """a comparison the engine does not follow: where the contract says so (e.loose),
        either answer (both are followed), else out of reach"""
        if not getattr(self, "loose", False):
            raise Unsupported(what)
        return z3.Bool(REG.fresh_name("compared"))

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Alt, Mrg)):
            r = [z3.And(zb(c), zb(self.eq(x, b))) for c, x in self.options(a)]
            return simp(z3.Or(r))
        if isinstance(b, (Alt, Mrg)):
            return self.eq(b, a)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("comparison of an unknown value")
        if is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b):
                return a == b
            if is_bool(a) and is_bool(b):
                return simp(zb(a) == zb(b))
            return simp(self.toint(a) == self.toint(b))
        if is_text(a) and is_text(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            from .engine import synt_eq

            if isinstance(a, FmtStr) or isinstance(b, FmtStr):
                return self.built_eq(a, b)
            return simp(text_term(a) == text_term(b))
        if is_flt(a) and is_flt(b):
            if isinstance(a, float) and isinstance(b, float):
                return a == b
            if a.t.eq(b.t) if isinstance(a, SFl) and isinstance(b, SFl) else False:
                return True
            if is_real(a) or is_real(b):
                return simp(self.real(a) == self.real(b))
            raise Unsupported("comparison of doubles")
        if (is_flt(a) and is_num(b)) or (is_num(a) and is_flt(b)):
            if not is_sym(a) and not is_sym(b) and not isinstance(a, SFl) and not isinstance(
                    b, SFl):
                return a == b
            if is_real(a) or is_real(b):
                return simp(self.real(a) == self.real(b))
            raise Unsupported("comparison of a double and an integer")
        if isinstance(a, (bytes, FBytes)) and isinstance(b, (bytes, FBytes)):
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a == b
            return self.bytes_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = [self.eq(x, y) for x, y in zip(a, b)]
            if all(isinstance(c, bool) for c in r):
                return all(r)
            return simp(z3.And([zb(c) for c in r]))
        la, lb = self.listy(a), self.listy(b)
        if la is not None and lb is not None:
            if not la:
                return simp(z3.Not(zb(self.nonempty(lb))))
            if not lb:
                return simp(z3.Not(zb(self.nonempty(la))))
            if all(x[0] == "e" for x in la) and all(x[0] == "e" for x in lb):
                return self.eq(tuple(x[1] for x in la), tuple(x[1] for x in lb))
            return self.undecided("comparison of lists")
        da, db = self.plain_dict(a), self.plain_dict(b)
        if da is not None and db is not None:
            if da.keys() != db.keys():
                return False
            return simp(z3.And([zb(self.eq(v, db[k])) for k, v in da.items()]))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            pa, pb = self.get(a), self.get(b)
            if isinstance(pa, HInst) and isinstance(pb, HInst):
                if inspect.getattr_static(pa.cls, "__eq__", None) is object.__eq__:
                    return False
            return self.undecided("comparison of objects")
        if a is None or b is None:
            return False
        if type(a) is not type(b) and (is_num(a) or is_text(a) or is_num(b) or is_text(b)):
            if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
                x, y = (a, b) if isinstance(a, enum.Enum) else (b, a)
                if isinstance(x, int) and is_num(y):
                    return self.eq(int(x), y)
            return False
        if isinstance(a, (Ref, FList, FDict, FObj)) or isinstance(b, (Ref, FList, FDict, FObj)):
            if isinstance(a, (FDict, FList, tuple)) and isinstance(b, (FDict, FList, tuple)) \
                    and type(a) is not type(b):
                return False
            raise Unsupported("comparison")
        return bool(a == b)

    def plain_dict(self, v):
        """{key: value} of a dict whose keys are known, else None"""
        if isinstance(v, dict):
            return v
        ents = v.ents if isinstance(v, FDict) else None
        if isinstance(v, Ref) and isinstance(self.get(v), HDict):
            ents = self.get(v).ents
        if ents is None or not all(en[0] == "e" and not _symbolic(en[1]) and _hashable(en[1]) for en in ents):
            return None
        d = {en[1]: en[2] for en in ents}
        return d if len(d) == len(ents) else None

    def listy(self, v):
        if isinstance(v, FList):
            return v.seq
        if isinstance(v, list):
            return tuple(("e", x) for x in v)
        if isinstance(v, Ref) and isinstance(self.get(v), HList):
            return self.get(v).seq
        return None

    def num(self, v):
        """integer value; concrete ones stay concrete"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        return v

    def toint(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, int):
            return z3.IntVal(v)
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if not is_bool(c):
                c = self.truth(c)
            if c is False:
                return False
            if c is not True:
                acc.append(c)
            left = right
        if not acc:
            return True
        return simp(z3.And([zb(c) for c in acc]))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            c = self.eq(a, b)
            return (not c) if isinstance(c, bool) else simp(z3.Not(c))
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                c = (not c) if isinstance(c, bool) else simp(z3.Not(c))
            return c
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                c = (not c) if isinstance(c, bool) else simp(z3.Not(c))
            return c
        a, b = self.force(a), self.force(b)
        if is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            a, b = self.toint(a), self.toint(b)
            return simp({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                         ast.GtE: a >= b}[type(op)])
        if (is_flt(a) or is_num(a)) and (is_flt(b) or is_num(b)):
            if not isinstance(a, SFl) and not isinstance(b, SFl) and not is_sym(a) and not is_sym(b):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            if is_real(a) or is_real(b):
                a, b = self.real(a), self.real(b)
                return simp({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                             ast.GtE: a >= b}[type(op)])
            raise Unsupported("ordering of doubles")
        if isinstance(a, (str, bytes)) and type(a) is type(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, a, b)
        if a is None or b is None:
            raise_(TypeError, "ordering")
        raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")

    def lex(self, op, a, b):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        lt = isinstance(op, (ast.Lt, ast.LtE))

        def rec(i):
            if i == len(a) or i == len(b):
                if len(a) == len(b):
                    return not strict
                return (len(a) < len(b)) == lt
            first = self.compare(ast.Lt() if lt else ast.Gt(), a[i], b[i])
            same = self.eq(a[i], b[i])
            return simp(z3.Or(zb(first), z3.And(zb(same), zb(rec(i + 1)))))

        return rec(0)

    def is_(self, a, b):
        if isinstance(a, (Alt, Mrg)):
            return simp(z3.Or([z3.And(zb(c), zb(self.is_(x, b))) for c, x in self.options(a)]))
        if isinstance(b, (Alt, Mrg)):
            return self.is_(b, a)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
                return simp(zb(a) == zb(b))
            return a is b
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a == b
        if is_sym(a) or is_sym(b):
            raise Unsupported("identity")
        return a is b

    def contains(self, cont, x):
        cont = self.force(cont)
        if isinstance(cont, Ref):
            p = self.get(cont)
            if isinstance(p, HInst):
                f = inspect.getattr_static(p.cls, "__contains__", None)
                if isinstance(f, types.FunctionType):
                    return self.truth(self.call(f, [cont, x]))
                raise Unsupported("in object")
            if isinstance(p, HDict):
                return self.dict_has(p.ents, x)
            seq = p.elts if isinstance(p, HSet) else p.seq
            return self.seq_has(seq, x)
        if isinstance(cont, FDict):
            return self.dict_has(cont.ents, x)
        if isinstance(cont, FList):
            return self.seq_has(cont.seq, x)
        if isinstance(cont, (dict, list, tuple, set, frozenset)) or (
                isinstance(cont, types.MappingProxyType)):
            if not _symbolic(x):
                if isinstance(cont, (list, tuple)) and any(_symbolic(y) for y in cont):
                    return self.seq_has(tuple(("e", y) for y in cont), x)
                try:
                    return x in cont
                except TypeError:
                    raise_(TypeError, "unhashable")
            return self.seq_has(tuple(("e", y) for y in cont), x)
        if isinstance(cont, type) and issubclass(cont, enum.Enum):
            raise Unsupported("in enum")
        if isinstance(cont, type({}.values())) or isinstance(cont, type({}.keys())):
            return self.seq_has(tuple(("e", y) for y in cont), x)
        if isinstance(cont, range):
            if not is_sym(x):
                return x in cont
            if cont.step == 1:
                return simp(z3.And(x >= cont.start, x < cont.stop))
            raise Unsupported("in range")
        if is_text(cont) and is_text(x):
            if isinstance(cont, str) and isinstance(x, str):
                return x in cont
            if isinstance(cont, str) and isinstance(x, SStr):
                raise Unsupported("text search")
            if texts.on(self) and isinstance(cont, SStr) and isinstance(x, str):
                return texts.test(self, "contains", cont, x)
            return SEARCH(self, cont, x)
        if texts.is_set(cont):
            return self.seq_has(texts.items(cont), x)
        if isinstance(cont, FObj):
            f = inspect.getattr_static(cont.cls, "__contains__", None)
            if isinstance(f, types.FunctionType):
                return self.truth(self.call(f, [cont, x]))
        raise Unsupported(f"in {type(cont).__name__}")

    def seq_has(self, seq, x):
        cs = []
        for it in seq:
            k = it[0]
            if k == "e":
                c = self.eq(it[1], x)
                if c is True:
                    return True
                cs.append(c)
            elif k == "o":
                cs.append(z3.And(zb(it[1]), zb(self.eq(it[2], x))))
            elif k == "c":
                for c, s in it[1]:
                    cs.append(z3.And(zb(c), zb(self.seq_has(s, x))))
            elif k == "r" and isinstance(it[1], int) and it[1] <= 40:
                for j in range(it[1]):
                    cs.append(self.seq_has(vsubst(it[3], [(it[2], j)]), x))
            else:
                sub = self.seq_has(it[3], x) if k == "r" else None
                if sub is False:
                    continue
                if texts.on(self) and k == "r":
                    cs.append(zb(texts.has(self, it, x)))
                    continue
                raise Unsupported("membership in a sequence of unknown length")
        cs = [c for c in cs if c is not False]
        if not cs:
            return False
        if any(c is True for c in cs):
            return True
        return simp(z3.Or([zb(c) for c in cs]))

    def dict_has(self, ents, k):
        cs = []
        for it in ents:
            t = it[0]
            if t == "e":
                c = self.eq(it[1], k)
            elif t == "o":
                c = simp(z3.And(zb(it[1]), zb(self.eq(it[2], k))))
            elif t == "c":
                c = simp(z3.Or([z3.And(zb(cc), zb(self.dict_has(s, k))) for cc, s in it[1]]))
            elif t == "r":
                sub = self.dict_has(it[3], k)
                if sub is False:
                    c = False
                else:
                    raise Unsupported("key lookup in a dict of unknown size")
            else:
                raise Unsupported("key lookup in a dict that the loop is building")
            if c is True:
                return True
            if c is not False:
                cs.append(zb(c))
        if not cs:
            return False
        return simp(z3.Or(cs))

    # ------------------------------------------------------------------ operators
    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if not isinstance(t, bool):
                if is_bool(v) and all(_pure(y) for y in e.values[i + 1:]):
                    rest = []
                    try:
                        rest = [self.ev(y, fr) for y in e.values[i + 1:]]
                    except Exception:
                        rest = None
                    if rest is not None and all(is_bool(r) for r in rest):
                        f = z3.And if is_and else z3.Or
                        return simp(f([zb(v)] + [zb(r) for r in rest]))
                t = self.branch(t)
            if t != is_and:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        v = self.force(v)
        if is_num(v):
            if not is_sym(v):
                return {ast.USub: lambda: -v, ast.UAdd: lambda: +v,
                        ast.Invert: lambda: ~v}[type(e.op)]()
            v = self.toint(v)
            if isinstance(e.op, ast.USub):
                return simp(-v)
            if isinstance(e.op, ast.UAdd):
                return v
            return simp(-v - 1)
        if isinstance(v, float):
            return -v if isinstance(e.op, ast.USub) else v
        if isinstance(v, SFl) and isinstance(e.op, ast.USub):
            return SFl(z3.Function("fneg", Flt, Flt)(v.t))
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):

        o = _ARITH.get(type(op))
        if o is None:
            raise Unsupported("operator")
        if isinstance(a, Mrg) and is_num_mrg(a) or isinstance(b, Mrg) and is_num_mrg(b):
            pass
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.BitOr) and is_type(a) and is_type(b) and not (a is None and b is None):
            return a | b
        if is_num(a) and is_num(b):
            return self.int_op(o, a, b)
        if (is_flt(a) or is_num(a)) and (is_flt(b) or is_num(b)):
            return self.flt_op(o, a, b)
        if o == "%" and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if not any(_symbolic(x) for x in args):
                return a % b
            if a in ("%06x", "%06X") and is_int(args[0]) and self.valid(
                    z3.And(zi(args[0]) >= 0, zi(args[0]) < 2**24)):
                n = zi(args[0])
                return FmtStr(tuple(("v", simp(v), -1, "02" + a[-1]) for v in (
                    n / 65536, n / 256 % 256, n % 256)))
            return FmtStr((("%", a, tuple(args)),))
        if o == "+":
            if is_text(a) and is_text(b):
                return self.concat(a, b)
            if isinstance(a, (bytes, FBytes)) and isinstance(b, (bytes, FBytes)):
                if isinstance(a, bytes) and isinstance(b, bytes):
                    return a + b
                return FBytes(self.toks(a) + self.toks(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la, lb = self.listy(a), self.listy(b)
            if la is not None and lb is not None:
                return self.alloc(HList(la + lb))
        if o == "*":
            if is_num(a):
                a, b = b, a
            if is_num(b):
                if isinstance(a, (str, bytes, tuple)) and not is_sym(b):
                    return a * b
                if isinstance(a, str) and is_sym(b):
                    return FmtStr((("times", b, a),))
                if isinstance(a, bytes) and is_sym(b):
                    n = simp(z3.If(b > 0, b, 0))
                    return FBytes((("r", n, z3.Const(REG.fresh_name("i"), I),
                                    tuple(("O", x) for x in a)),))
                la = self.listy(a)
                if la is not None:
                    if not is_sym(b):
                        return self.alloc(HList(la * b))
                    n = simp(z3.If(b > 0, b, 0))
                    return self.alloc(HList((("r", n, z3.Const(REG.fresh_name("i"), I), la),)))
        if o == "-" and texts.is_set(a) and texts.is_set(b):
            return texts.text_set(self, texts.without(self, texts.items(a), texts.items(b)))
        if o in "|-&" and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"|": a | b, "-": a - b, "&": a & b}[o]
        if isinstance(a, Ref) and isinstance(self.get(a), HSet) or isinstance(b, Ref) and \
                isinstance(self.get(b), HSet):
            return self.nat.set_op(self, o, a, b)
        if a is None or b is None:
            raise_(TypeError, "operand")
        if (is_text(a) and is_num(b)) or (is_num(a) and is_text(b)):
            raise_(TypeError, "operand")
        if o == "/" and isinstance(a, PurePath) and isinstance(b, (str, PurePath)):
            return a / b
        raise Unsupported(f"{o} on {type(a).__name__} and {type(b).__name__}")

    def built_eq(self, a, b):
        """equality of texts that are built from parts (common ends cancel out)"""
        from .engine import synt_eq

        a, b = (list(x.parts) if isinstance(x, FmtStr) else [x] if x != "" else [] for x in (a, b))
        for end in (0, -1):
            while a and b:
                x, y = a[end], b[end]
                if synt_eq(x, y):
                    del a[end], b[end]
                elif isinstance(x, str) and isinstance(y, str):
                    if x[end] != y[end]:
                        return False
                    a[end], b[end] = (x[1:], y[1:]) if end == 0 else (x[:-1], y[:-1])
                    for q in (a, b):
                        if q[end] == "":
                            del q[end]
                else:
                    break
        plain = lambda x: isinstance(x, tuple) and x[0] == "v" and x[2:] == (-1, "") and is_num(x[1]) \
            and not is_bool(x[1])
        if not a and not b:
            return True
        if not a or not b:
            rest = a or b
            if any(isinstance(x, str) or plain(x) for x in rest):
                return False
            if all(isinstance(x, SStr) for x in rest):
                return simp(z3.And([zb(self.eq(x, "")) for x in rest]))
        if len(a) == 1 and len(b) == 1:
            x, y = a[0], b[0]
            if plain(x) and plain(y):
                return self.eq(x[1], y[1])
            if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
                return self.eq(x, y)
            if plain(y):
                x, y = y, x
            if plain(x) and isinstance(y, str):
                return self.eq(x[1], int(y)) if y.lstrip("-").isdecimal() and str(int(y)) == y else False
        return self.undecided("comparison of built texts")

    def concat(self, a, b):

        pa = a.parts if isinstance(a, FmtStr) else ((a,) if a != "" else ())
        pb = b.parts if isinstance(b, FmtStr) else ((b,) if b != "" else ())
        parts = list(pa)
        for p in pb:
            if parts and isinstance(parts[-1], str) and isinstance(p, str):
                parts[-1] += p
            else:
                parts.append(p)
        return self.fmt(parts)

    def fmt(self, parts):

        parts = [p for p in parts if not (isinstance(p, str) and p == "")]
        if not parts:
            return ""
        if len(parts) == 1 and isinstance(parts[0], (str, SStr)):
            return parts[0]
        return FmtStr(parts)

    def int_op(self, o, a, b):
        if not is_sym(a) and not is_sym(b):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                        "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b,
                        "<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b,
                        "|": lambda: a | b, "^": lambda: a ^ b, "/": lambda: a / b}[o]()
            except (ZeroDivisionError, ValueError, OverflowError) as ex:
                raise_(type(ex), str(ex))
        if is_bool(a) and is_bool(b) and o in "&|":
            return simp((z3.And if o == "&" else z3.Or)(zb(a), zb(b)))
        x, y = self.toint(a), self.toint(b)
        if o == "+":
            return simp(x + y)
        if o == "-":
            return simp(x - y)
        if o == "*":
            return simp(x * y)
        cb = b if not is_sym(b) else None
        if o in ("//", "%"):
            if cb is None:
                if self.valid(y > 0):
                    return simp(x / y if o == "//" else x % y)
                raise Unsupported("division by a symbolic value")
            if cb == 0:
                raise_(ZeroDivisionError)
            if cb > 0 and cb & (cb - 1) == 0:
                bits = bits_of(x)
                if bits is not None:
                    sh = cb.bit_length() - 1
                    if o == "//":
                        return of_bits({b - sh: c for b, c in bits.items() if b >= sh})
                    return of_bits({b: c for b, c in bits.items() if b < sh})
            if cb < 0:
                q = simp((-x) / z3.IntVal(-cb))
                return q if o == "//" else simp(x - q * cb)
            return simp(x / y if o == "//" else x % y)
        if o == "/":
            from .terms import FDIV

            if cb == 0:
                raise_(ZeroDivisionError)
            if cb is None:
                if self.branch(y == 0):
                    raise_(ZeroDivisionError)
            return SFl(FDIV(x, y))
        if o == "**":
            if not is_sym(a) and a == 2:
                if self.branch(y < 0):
                    raise Unsupported("negative exponent")
                return POW2(y)
            if cb is not None and 0 <= cb <= 3:
                r = z3.IntVal(1)
                for _ in range(cb):
                    r = r * x
                return simp(r)
            raise Unsupported("power")
        if o in ("<<", ">>"):
            if cb is None:
                if self.branch(y < 0):
                    raise_(ValueError, "negative shift count")
                return simp(x * POW2(y)) if o == "<<" else simp(x / POW2(y))
            if cb < 0:
                raise_(ValueError, "negative shift count")
            bits = bits_of(x)
            if bits is not None:
                sh = cb if o == "<<" else -cb
                return of_bits({b + sh: c for b, c in bits.items() if b + sh >= 0})
            return simp(x * 2**cb) if o == "<<" else simp(x / z3.IntVal(2**cb))
        # bit operations with a constant
        if is_sym(b) and not is_sym(a):
            x, y, cb = y, x, int(a)
        if cb is None or is_sym(a) and is_sym(b):
            r = self.bits_of_both(o, x, y)
            if r is None:
                raise Unsupported("bit operation on two symbolic values")
            return r
        cb = int(cb)
        an = self.and_const(x, cb)
        if o == "&":
            return an
        if o == "|":
            return simp(x + cb - zi(an))
        return simp(x + cb - 2 * zi(an))

    def bits_of_both(self, o, x, y):
        """x & y, or x & ~z, where the bits are known"""
        if o != "&":
            return None
        for u, v in ((x, y), (y, x)):
            a = bits_of(u)
            if a is None:
                continue
            b = bits_of(v)
            if b is not None:
                return of_bits({k: simp(z3.And(zb(c), zb(b[k]))) for k, c in a.items() if k in b})
            b = bits_of(simp(-1 - zi(v)))
            if b is not None:
                return of_bits({k: simp(z3.And(zb(c), z3.Not(zb(b[k])))) if k in b else c
                                for k, c in a.items()})
        return None

    def and_const(self, x, m):
        if m < 0:
            # x & m == x - (x & ~m)
            return simp(x - zi(self.and_const(x, ~m)))
        bits = bits_of(x)
        if bits is not None:
            return of_bits({b: c for b, c in bits.items() if m >> b & 1})
        r = z3.IntVal(0)
        lo = 0
        while m >> lo:
            if not (m >> lo) & 1:
                lo += 1
                continue
            hi = lo
            while (m >> hi) & 1:
                hi += 1
            q = x / z3.IntVal(2**lo) if lo else x
            r = r + (q % z3.IntVal(2 ** (hi - lo))) * 2**lo
            lo = hi
        return simp(r)

    def real(self, v):
        """double as a real number"""
        self.assumptions.add("doubles are taken as real numbers: rounding errors of arithmetic "
                             "are not modelled")
        v = self.force(v)
        if is_real(v):
            return v.t
        if isinstance(v, float) and v == v and abs(v) != float("inf"):
            from fractions import Fraction

            f = Fraction(v)
            return z3.Q(f.numerator, f.denominator)
        if is_num(v):
            return z3.ToReal(zi(self.num(v)))
        raise Unsupported("double as a real number")

    def flt_op(self, o, a, b):
        if not _symbolic(a) and not _symbolic(b):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                        "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b,
                        "**": lambda: a ** b}[o]()
            except (ZeroDivisionError, OverflowError) as ex:
                raise_(type(ex), str(ex))
        from .terms import FDIVI, FMULI

        if is_real(a) or is_real(b):
            x, y = self.real(a), self.real(b)
            f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}.get(o)
            if f is not None:
                return SFl(f())
        if o == "*":
            if is_num(a):
                a, b = b, a
            if isinstance(b, float) and b == int(b) and abs(b) < 2**53:
                b = int(b)
            if is_num(b) and isinstance(a, SFl):
                return SFl(FMULI(a.t, self.toint(b)))
        if o == "/" and is_num(b) and isinstance(a, SFl):
            if not is_sym(b):
                if b == 0:
                    raise_(ZeroDivisionError)
                return SFl(FDIVI(a.t, self.toint(b)))
        if o == "/" and isinstance(a, float) is False and is_num(a) and isinstance(b, float):
            if b == int(b) and abs(b) < 2**53 and b != 0:
                from .terms import FDIV

                return SFl(FDIV(self.toint(a), z3.IntVal(int(b))))
        f = {"+": FADD, "-": FSUB, "*": FMUL, "/": FDIVF}.get(o)
        if f is None:
            raise Unsupported("float operation")
        if o == "/":
            raise Unsupported("float division")
        return SFl(f(flt_term(a), flt_term(b)))

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)
        if _pure(e.body) and _pure(e.orelse):
            pc = list(self.pc)
            try:
                a = self.ev(e.body, fr)
                b = self.ev(e.orelse, fr)
                from .engine import mrg

                if len(pc) == len(self.pc):
                    return mrg([(c, a), (simp(z3.Not(c)), b)])
            except Exception:
                self.pc = pc
        return self.ev(e.body if self.branch(c) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.locals[e.target.id] = v
        return v

    def e_Lambda(self, e, fr):
        from .engine import Closure

        return Closure(e, fr, tuple(self.ev(d, fr) for d in e.args.defaults))

    def e_Tuple(self, e, fr):
        return tuple(self.ev_items(e.elts, fr))

    def ev_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.elems(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_args(self, f, elts, fr):
        """a contract that takes sequences (spread) gets the arguments as one list"""
        from .engine import BoundMethod

        if not isinstance(f, BoundMethod) or not getattr(self.contracts.get(f.fn), "spread", False):
            return self.ev_items(elts, fr)
        seq = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq.extend(self.seq_of(self.force(self.ev(x.value, fr))))
            else:
                seq.append(("e", self.ev(x, fr)))
        return [FList(seq)]

    def e_List(self, e, fr):
        seq = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                seq.extend(self.seq_of(self.force(self.ev(x.value, fr))))
            else:
                seq.append(("e", self.ev(x, fr)))
        return self.alloc(HList(seq))

    def e_Set(self, e, fr):
        r = self.alloc(HSet())
        for x in self.ev_items(e.elts, fr):
            self.nat.set_add(self, r, x)
        return r

    def e_Dict(self, e, fr):
        r = self.alloc(HDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                for ent in self.dict_entries(self.ev(v, fr)):
                    self.get(r).ents += (ent,)
            else:
                kk = self.ev(k, fr)
                self.setitem(r, kk, self.ev(v, fr))
        return r

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
                continue
            v = self.ev(x.value, fr)
            if texts.on(self) and isinstance(v, (Mrg, Alt)):
                v = self.force(v)
            spec = ""
            if x.format_spec is not None:
                spec = self.e_JoinedStr(x.format_spec, fr)
            if isinstance(v, (str, int, float, bytes, type(None))) and not _symbolic(v) \
                    and isinstance(spec, str):
                if x.conversion == 114:
                    v = repr(v)
                elif x.conversion == 115:
                    v = str(v)
                parts.append(format(v, spec))
            elif isinstance(v, (SStr,)) and x.conversion == -1 and spec == "":
                parts.append(v)
            else:

                if isinstance(v, FmtStr) and x.conversion == -1 and spec == "":
                    parts.extend(v.parts)
                else:
                    parts.append(("v", v, x.conversion, spec))
        out = []
        for p in parts:
            if out and isinstance(out[-1], str) and isinstance(p, str):
                out[-1] += p
            else:
                out.append(p)
        return self.fmt(out)

    # ------------------------------------------------------------------ comprehension
    def comp(self, e, fr, emit):
        from .engine import Frame

        child = Frame(fr.name, fr.globals, fr, fr.cls)
        self.frames.append(child)
        try:
            return self.comp_in(e, fr, emit, child)
        finally:
            self.frames.pop()

    def comp_in(self, e, fr, emit, child):

        def level(i):
            g = e.generators[i]
            it = self.ev(g.iter, fr if i == 0 else child)

            def elem(v):
                self.assign(g.target, v, child)

                def body():
                    if i + 1 < len(e.generators):
                        level(i + 1)
                    else:
                        emit(child)

                conds = list(g.ifs)

                def guarded(conds=conds):
                    if not conds:
                        body()
                        return
                    for c in conds:
                        if not self.branch(self.truth(self.ev(c, child))):
                            return
                    body()

                if conds:
                    self.merge_paths(guarded, child)
                else:
                    body()

            self.for_each(it, elem, child)

        level(0)

    def e_ListComp(self, e, fr):
        r = self.alloc(HList())

        def emit(ch):
            v = self.ev(e.elt, ch)
            self.get(r).seq += (("e", v),)

        self.comp(e, fr, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        r = self.alloc(HSet())
        self.comp(e, fr, lambda ch: self.nat.set_add(self, r, self.ev(e.elt, ch)))
        return r

    def e_DictComp(self, e, fr):
        r = self.alloc(HDict())

        def emit(ch):
            k = self.ev(e.key, ch)
            self.setitem(r, k, self.ev(e.value, ch))

        self.comp(e, fr, emit)
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        from .engine import SuperObj

        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.cls is None and f.closure is not None and not isinstance(f.closure, dict):
                f = f.closure
            slf = next(iter(f.locals.values()))
            return SuperObj(f.cls, slf)
        f = self.ev(e.func, fr)
        if _is_logger_call(f) and not (f is print and print in self.contracts):
            return None
        args = self.ev_args(f, e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, fr))
                for ent in self.dict_entries(d):
                    if ent[0] != "e" or not isinstance(ent[1], str):
                        raise Unsupported("** of a symbolic dict")
                    kwargs[ent[1]] = ent[2]
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def class_attr(self, cls, name, self_, bound=True):
        from .engine import BoundMethod

        if name in self.class_writes:
            raise Unsupported(f"class attribute {name} that is assigned")
        for c in cls.__mro__:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, types.FunctionType):
                    return BoundMethod(a, self_)
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return BoundMethod(a.__func__, cls)
                if isinstance(a, property):
                    return self.call(a.fget, [self_])
                if isinstance(a, functools.cached_property):
                    v = self.call(a.func, [self_])
                    self.setattr(self_, name, v)
                    return v
                if hasattr(type(a), "__get__") and not isinstance(
                        a, (type, types.BuiltinFunctionType, types.MethodDescriptorType,
                            types.WrapperDescriptorType, types.ClassMethodDescriptorType,
                            types.GetSetDescriptorType)):
                    raise Unsupported(f"descriptor {name}")
                return a
        self.no_attr(cls, name)

    def no_attr(self, cls, name):
        if cls.__module__.split(".")[0] in ("specs", "props", "pyvc"):
            # stands for an object of which only a part is described
            raise Unsupported(f"attribute {name} of {cls.__name__}")
        raise_(AttributeError, name)

    def getattr(self, o, name):
        from .engine import BoundMethod, BoundNative, SuperObj

        if isinstance(o, (Alt, Mrg)):
            o = self.force(o)
        if isinstance(o, Poison):
            self.force(o)
        if isinstance(o, Ref):
            p = self.get(o)
            if isinstance(p, HInst):
                if name in p.attrs:
                    v = p.attrs[name]
                    if isinstance(v, Poison) and v.why != "no attribute":
                        raise Unsupported(f"attribute {name}: {v.why}")
                    if not isinstance(v, Poison):
                        return v
                if name == "__class__":
                    return p.cls
                return self.class_attr(p.cls, name, o)
            return BoundNative(o, name)
        if isinstance(o, FObj):
            for a, v in o.attrs:
                if a == name:
                    return with_src(v, o.src[:2] + ("part",)) if o.src else v
            return self.class_attr(o.cls, name, o)
        if isinstance(o, SuperObj):
            mro = (self.get(o.self_).cls if isinstance(o.self_, Ref) else type(o.self_)).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, types.FunctionType):
                        return BoundMethod(a, o.self_)
                    if c is object and name == "__init__":
                        return lambda *a: None
                    return BoundMethod(a, o.self_)
            raise_(AttributeError, name)
        if isinstance(o, PyExc):
            if name == "args":
                return tuple(o.args)
            return BoundNative(o, name)
        if o is None:
            raise_(AttributeError, name)
        if is_num(o) and not isinstance(o, enum.Enum) or is_text(o) or is_flt(o) or isinstance(
                o, (FList, FDict, FBytes, tuple, bytes, list, dict, set, frozenset)) and not \
                hasattr(type(o), "_fields"):
            return BoundNative(o, name)
        h = self.hostattr.get((id(o), name))
        if h is not None:
            return h
        if isinstance(o, type) and name in self.class_writes:
            raise Unsupported(f"class attribute {name} that is assigned")
        try:
            return getattr(o, name)
        except AttributeError:
            self.no_attr(type(o), name)

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Ref):
            p = self.get(o)
            if isinstance(p, HInst):
                a = inspect.getattr_static(p.cls, name, None)
                if isinstance(a, property):
                    if a.fset is None:
                        raise_(AttributeError, name)
                    self.call(a.fset, [o, v])
                    return
                p.attrs[name] = v
                return
        if isinstance(o, FObj):
            a = inspect.getattr_static(o.cls, name, None)
            if isinstance(a, property) and a.fset is not None:
                self.call(a.fset, [o, v])
                return
            self.frozen(o, f" ({name})")
        if isinstance(o, type) and o.__module__.startswith("vfbLib."):
            # nothing that reads the attribute from the class afterwards is decided
            self.class_writes.add(name)
            return
        raise Unsupported(f"attribute assignment to {type(o).__name__}")

    # ------------------------------------------------------------------ items
    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else None
            st = self.ev(e.slice.step, fr) if e.slice.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev(e.slice, fr))

    def cut_parts(self, o, lo, hi):
        """slice of a built text whose parts before the end have a known width"""
        out, at = [], 0
        for p in o.parts:
            if hi is not None and at >= hi:
                break
            if isinstance(p, str):
                out.append(p[max(0, lo - at): None if hi is None else hi - at])
                at += len(p)
                continue
            if not (isinstance(p, tuple) and p[0] == "v" and p[2] == -1 and p[3] in ("02x", "02X")
                    and is_int(p[1]) and self.valid(z3.And(zi(p[1]) >= 0, zi(p[1]) < 256))):
                if at >= lo and hi is None:
                    out.append(p)
                    at = lo
                    continue
                raise Unsupported("slice of a built text")
            if lo <= at and (hi is None or at + 2 <= hi):
                out.append(p)
            elif not (at + 2 <= lo):
                raise Unsupported("slice of a built text")
            at += 2
        return self.fmt([p for p in out if p != ""])

    def getslice(self, o, lo, hi, st):
        o = self.force(o)
        lo, hi, st = (self.force(x) if x is not None else None for x in (lo, hi, st))
        if any(is_sym(x) for x in (lo, hi, st)):
            return self.symbolic_slice(o, lo, hi, st)
        sl = slice(lo, hi, st)
        if isinstance(o, (str, bytes, tuple)):
            return o[sl]
        if isinstance(o, list):
            return self.alloc(HList(tuple(("e", x) for x in o[sl])))
        ls = self.listy(o)
        if ls is not None:
            if lo is None and hi is None and st is None:
                return self.alloc(HList(ls))
            if all(x[0] == "e" for x in ls):
                return self.alloc(HList(tuple(ls)[sl]))
            if st is None and (lo is None or lo >= 0) and hi is None and all(
                    x[0] == "e" for x in ls[: lo or 0]) and len(ls) >= (lo or 0):
                return self.alloc(HList(tuple(ls)[lo or 0:]))
            if st is None and (lo or 0) >= 0 and hi is not None and hi < 0 and \
                    len(ls) >= (lo or 0) - hi and all(
                        x[0] == "e" for x in tuple(ls[: lo or 0]) + tuple(ls[hi:])):
                return self.alloc(HList(tuple(ls)[lo or 0: hi]))
        if isinstance(o, SStr) and texts.on(self):
            return texts.cut(self, o, lo, hi, st)
        if isinstance(o, FmtStr) and st is None and (lo or 0) >= 0 and (hi is None or hi >= 0):
            return self.cut_parts(o, lo or 0, hi)
        raise Unsupported(f"slice of {type(o).__name__}")

    def symbolic_slice(self, o, lo, hi, st):
        """part of a list whose elements are all given by one expression"""
        ls = self.listy(o)
        if st is not None or ls is None or len(ls) != 1 or ls[0][0] != "r" or len(ls[0][3]) != 1 \
                or ls[0][3][0][0] != "e":
            raise Unsupported("symbolic slice")
        _, n, iv, sub = ls[0]
        n, lo = zi(n), zi(0 if lo is None else self.num(lo))
        hi = n if hi is None else zi(self.num(hi))
        if not self.valid(z3.And(lo >= 0, hi >= lo)):
            raise Unsupported("slice with a negative index")
        whole = z3.simplify(hi - lo, som=True)
        if self.valid(hi <= n):
            size = whole
        elif self.valid(lo <= n):
            size = z3.If(hi <= n, whole, n - lo)
        else:
            size = z3.If(hi <= n, whole, z3.If(lo <= n, n - lo, 0))
        return self.alloc(HList((("r", simp(size), iv, vsubst(sub, [(iv, simp(lo + iv))])),)))

    def getitem(self, o, k):
        if isinstance(o, (Alt, Mrg)):
            o = self.force(o)
        if isinstance(k, (Alt, Mrg)):
            opts = self.options(k)
            if isinstance(o, (dict, list, tuple)) and len(opts) > 1:
                k = self.force(k)
            else:
                k = self.force(k)
        if isinstance(o, Ref):
            p = self.get(o)
            if isinstance(p, HList):
                if len(p.seq) == 1 and p.seq[0][0] == "rows":
                    return self.row(o, k)
                v = self.list_get(p.seq, k, o)
                if is_sym(k) and not p.ro:
                    return with_src(v, (o.id, k))
                return v
            if isinstance(p, HDict):
                return self.dict_get(p.ents, k, missing=KeyError)
            if isinstance(p, HInst):
                f = self.class_attr(p.cls, "__getitem__", o)
                return self.call(f, [k])
            raise Unsupported("subscript")
        if isinstance(o, (FList, FDict)):
            v = self.list_get(o.seq, k, None) if isinstance(o, FList) else \
                self.dict_get(o.ents, k, missing=KeyError)
            # a part of an element
            return with_src(v, o.src[:2] + ("part",)) if o.src else v
        if isinstance(o, tuple) or isinstance(o, list):
            if not is_num(k):
                raise_(TypeError, "index")
            if not is_sym(k):
                try:
                    return o[k]
                except IndexError:
                    raise_(IndexError)
            return self.list_get(tuple(("e", x) for x in o), k, None)
        if isinstance(o, (str, bytes)):
            if not is_sym(k):
                try:
                    return o[k]
                except IndexError:
                    raise_(IndexError)
            raise Unsupported("symbolic index into text")
        if isinstance(o, dict):
            if not _symbolic(k):
                try:
                    return o[k]
                except KeyError:
                    raise_(KeyError, k)
                except TypeError:
                    raise_(TypeError, "unhashable")
            keys = list(o)
            conds = [self.eq(k, x) for x in keys]
            none = simp(z3.And([z3.Not(zb(c)) for c in conds]))
            i = self.choose(conds + [none])
            if i == len(keys):
                raise_(KeyError, k)
            return o[keys[i]]
        if isinstance(o, type) and issubclass(o, enum.Enum):
            if isinstance(k, str):
                try:
                    return o[k]
                except KeyError:
                    raise_(KeyError, k)
            ms = list(o)
            conds = [self.eq(k, m.name) for m in ms]
            i = self.choose(conds + [simp(z3.And([z3.Not(zb(c)) for c in conds]))])
            if i == len(ms):
                raise_(KeyError, k)
            return ms[i]
        if isinstance(o, type) and o in (list, dict, tuple, set, frozenset, type):
            if is_type(k) or isinstance(k, tuple) and all(is_type(x) for x in k):
                return o[k]
        if o is None or is_num(o):
            raise_(TypeError, "not subscriptable")
        if isinstance(o, FObj):
            f = inspect.getattr_static(o.cls, "__getitem__", None)
            if f is not None:
                return self.call(f, [o, k])
        if isinstance(o, FBytes) and type(k) is int:
            toks = self.drop_empty(o.toks)
            if all(t[0] == "O" for t in toks):
                if not -len(toks) <= k < len(toks):
                    raise_(IndexError, "index out of range")
                return toks[k][1]
        raise Unsupported(f"subscript of {type(o).__name__}")

    def row(self, o, k):
        """own element of an iteration that changes the elements of a list"""
        _, n, iv, sub, idx, r = self.get(o).seq[0]
        if not (is_sym(k) and z3.simplify(k - idx).eq(z3.IntVal(0))):
            raise Unsupported("another element of a list that the loop changes")
        if not self.valid(z3.And(idx >= 0, idx < zi(n))):
            raise Unsupported("index into a list that the loop changes")
        if r is None:
            v = vsubst(sub, [(iv, idx)])[0][1]
            r = self.thaw(v)
            self.get(o).seq = (("rows", n, iv, sub, idx, r),)
        return r

    def thaw(self, v):
        deep = lambda x: self.thaw(x) if thawable(x) else x
        if isinstance(v, FList):
            return self.alloc(HList(tuple(("e", deep(x[1])) if x[0] == "e" else x for x in v.seq)))
        if isinstance(v, FDict):
            return self.alloc(HDict(tuple(("e", x[1], deep(x[2])) if x[0] == "e" else x for x in v.ents)))
        if isinstance(v, FObj):
            return self.alloc(HInst(v.cls, {a: deep(x) for a, x in v.attrs}))
        raise Unsupported("element of a list that the loop changes")

    def frozen(self, v, what):
        """somebody wants to change an immutable value"""
        from .engine import NeedRows

        if getattr(v, "src", None):
            raise NeedRows(*v.src[:2])
        raise Unsupported(f"input data is changed{what}")

    def list_get(self, seq, k, ref):
        k = self.force(k)
        if not is_num(k):
            raise_(TypeError, "index")
        if not is_sym(k):
            k = int(k)
            if k < 0:
                if all(x[0] == "e" for x in seq):
                    if -k > len(seq):
                        raise_(IndexError)
                    return seq[k][1]
                if all(x[0] == "e" for x in seq[k:]) and len(seq) >= -k:
                    return seq[k][1]
                n = self.seq_len(seq)
                return self.list_get(seq, simp(zi(n) + k), ref) if is_sym(n) else \
                    self.list_get(seq, n + k, ref)
            pos = 0
            for j, x in enumerate(seq):
                if x[0] == "e":
                    if pos == k:
                        return x[1]
                    pos += 1
                else:
                    return self.list_get_sym(seq[j:], k - pos)
            raise_(IndexError)
        return self.list_get_sym(seq, k)

    def list_get_sym(self, seq, k):
        """element at a symbolic non-negative index"""
        if is_sym(k) and self.feasible(k < 0):
            n = self.seq_len(seq)
            if self.branch(k < 0):
                k = simp(k + zi(n))
                if self.branch(zi(k) < 0):
                    raise_(IndexError)
        off = zi(k)
        for x in seq:
            if x[0] == "e":
                if self.branch(off == 0):
                    return x[1]
                off = simp(off - 1)
            elif x[0] == "r":
                ln = self.seq_len(x[3])
                if ln != 1:
                    raise Unsupported("index into a grouped sequence")
                if self.branch(zi(off) < zi(x[1])):
                    el = vsubst(x[3], [(x[2], off)])
                    if el[0][0] == "e":
                        return el[0][1]
                    if el[0][0] == "c":
                        from .engine import mrg

                        opts = []
                        for c, s in el[0][1]:
                            if len(s) != 1 or s[0][0] != "e":
                                raise Unsupported("index into a grouped sequence")
                            opts.append((c, s[0][1]))
                        return mrg(opts)
                    raise Unsupported("index into a grouped sequence")
                off = simp(zi(off) - zi(x[1]))
            elif x[0] == "c":
                i = self.choose([c for c, _ in x[1]])
                j = list(seq).index(x)
                return self.list_get_sym(tuple(x[1][i][1]) + tuple(seq[j + 1:]), off)
            else:
                raise Unsupported("index into a list that the loop is building")
            off = zi(off)
        raise_(IndexError)

    _MISSING = object()

    def dict_get(self, ents, k, missing=None, default=None):
        v = self.dict_find(tuple(ents), k)
        if v is not ExprMixin._MISSING:
            return v
        if missing is not None:
            raise_(missing, k)
        return default

    def dict_find(self, ents, k):
        for j in range(len(ents) - 1, -1, -1):
            it = ents[j]
            t = it[0]
            if t == "e":
                c = self.eq(it[1], k)
                if self.branch(c):
                    return it[2]
            elif t == "o":
                c = self.eq(it[2], k)
                c = simp(z3.And(zb(it[1]), zb(c)))
                if self.branch(c):
                    return it[3]
            elif t == "c":
                if all(self.dict_has(s, k) is False for _, s in it[1]):
                    continue
                i = self.choose([c for c, _ in it[1]])
                v = self.dict_find(tuple(it[1][i][1]), k)
                if v is not ExprMixin._MISSING:
                    return v
            elif t == "r":
                if self.dict_has(it[3], k) is False:
                    continue
                # an entry of the same dict: key term equal up to the index
                ent = it[3]
                if len(ent) == 1 and ent[0][0] == "e":
                    idx = self.match_index(ent[0][1], k, it[2])
                    if idx is not None and self.valid(z3.And(zi(idx) >= 0, zi(idx) < zi(it[1]))):
                        return vsubst(ent[0][2], [(it[2], idx)])
                raise Unsupported("key lookup in a dict of unknown size")
            else:
                raise Unsupported("key lookup in a dict that the loop is building")
        return ExprMixin._MISSING

    def match_index(self, key, k, iv):
        """index i such that key(i) is syntactically k"""
        ka = key.t if isinstance(key, SStr) else key
        kb = k.t if isinstance(k, SStr) else k
        if not (is_sym(ka) and is_sym(kb)):
            return None
        if ka.decl().eq(kb.decl()) and ka.num_args() == kb.num_args() and ka.num_args():
            for j in range(ka.num_args()):
                if ka.arg(j).eq(iv):
                    idx = kb.arg(j)
                    if z3.simplify(z3.substitute(ka, (iv, idx))).eq(z3.simplify(kb)):
                        return idx
        return None

    def setitem(self, o, k, v):
        o = self.force(o)
        k = self.force(k)
        if isinstance(o, (FList, FDict)):
            self.frozen(o, "")
        if isinstance(o, FObj):
            f = inspect.getattr_static(o.cls, "__setitem__", None)
            if f is not None and f in self.contracts:
                self.contracts[f](self, [o, k, v], {})
                return
        if isinstance(o, Ref):
            p = self.get(o)
            if isinstance(p, HDict):
                if p.ro:
                    raise Unsupported("input data is changed")
                ents = p.ents
                for j in range(len(ents) - 1, -1, -1):
                    it = ents[j]
                    if it[0] != "e":
                        break
                    c = self.eq(it[1], k)
                    if c is True or c is not False and self.valid(c):
                        p.ents = ents[:j] + (("e", it[1], v),) + ents[j + 1:]
                        return
                    if c is not False and not self.valid(z3.Not(c)):
                        break
                p.ents = ents + (("e", k, v),)
                return
            if isinstance(p, HList):
                if p.ro:
                    raise Unsupported("input data is changed")
                if is_sym(k):
                    self.list_set_sym(p, k, v)
                    return
                n = len(p.seq)
                if k < 0 and all(x[0] == "e" for x in p.seq):
                    k += n
                if k < 0 or not all(x[0] == "e" for x in p.seq[: k + 1]):
                    raise Unsupported("index assignment")
                if k >= n:
                    raise_(IndexError)
                p.seq = p.seq[:k] + (("e", v),) + p.seq[k + 1:]
                return
            if isinstance(p, HInst):
                self.call(self.class_attr(p.cls, "__setitem__", o), [k, v])
                return
        raise Unsupported(f"item assignment to {type(o).__name__}")

    def list_set_sym(self, p, k, v):
        if all(x[0] == "e" for x in p.seq) and len(p.seq) <= 16:
            n = len(p.seq)
            i = self.choose([zi(k) == j for j in range(n)] + [z3.Or(zi(k) < 0, zi(k) >= n)])
            if i == n:
                raise Unsupported("index out of range")
            p = p
            p.seq = p.seq[:i] + (("e", v),) + p.seq[i + 1:]
            return
        raise Unsupported("assignment at a symbolic index")

    def delitem(self, o, k):
        o = self.force(o)
        k = self.force(k)
        if isinstance(o, Ref):
            p = self.get(o)
            if isinstance(p, HDict):
                for j, it in enumerate(p.ents):
                    if it[0] == "e":
                        c = self.eq(it[1], k)
                        if c is True:
                            p.ents = p.ents[:j] + p.ents[j + 1:]
                            return
                        if c is False:
                            continue
                    if it[0] == "o":
                        c = self.eq(it[2], k)
                        if c is False or self.branch(simp(z3.Not(zb(it[1])))):
                            continue
                        if c is True:
                            p.ents = p.ents[:j] + p.ents[j + 1:]
                            return
                    raise Unsupported("del of a symbolic key")
                raise_(KeyError, k)
            if isinstance(p, HList) and not is_sym(k) and all(x[0] == "e" for x in p.seq):
                l = list(p.seq)
                try:
                    del l[k]
                except IndexError:
                    raise_(IndexError)
                p.seq = tuple(l)
                return
            if isinstance(p, HInst) and inspect.getattr_static(p.cls, "__delitem__", None):
                self.call(self.class_attr(p.cls, "__delitem__", o), [k])
                return
        raise Unsupported("del")

    # ------------------------------------------------------------------ sequences
    def seq_of(self, v):
        v = self.force(v)
        if isinstance(v, FList):
            return v.seq
        if isinstance(v, FDict):
            self.check_log(v)
            return self.keys_seq(v.ents)
        if isinstance(v, (tuple, list, set, frozenset, dict, range, str)) or isinstance(
                v, (type({}.keys()), type({}.values()), type({}.items()))):
            if isinstance(v, range) and len(v) > 300:
                iv = z3.Const(REG.fresh_name("i"), I)
                return (("r", len(v), iv, (("e", simp(v.start + iv * v.step)),)),)
            return tuple(("e", x) for x in v)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return tuple(("e", x) for x in v)
        if isinstance(v, bytes):
            return tuple(("e", x) for x in v)
        if isinstance(v, FBytes):
            return self.bytes_seq(v.toks)
        if isinstance(v, (SStr, FmtStr)):
            ps = v.parts if isinstance(v, FmtStr) else (v,)
            if all(self.nat.single(p) is not None for p in ps):
                return tuple(("e", p) for p in ps)
        if isinstance(v, Ref):
            p = self.get(v)
            if isinstance(p, HList):
                s = p.seq
                if len(s) == 1 and s[0][0] == "r" and not p.ro and len(s[0][3]) == 1 and \
                        s[0][3][0][0] == "e" and isinstance(s[0][3][0][1], (FList, FDict, FObj)):
                    # objects: a loop may change them
                    _, n, iv, sub = s[0]
                    return (("r", n, iv, (("e", with_src(sub[0][1], (v.id, iv))),)),)
                return s
            if isinstance(p, HCell):
                s = p.seq
                p.seq = ()
                return s
            if isinstance(p, HDict):
                self.distinct_keys(p.ents)
                return self.keys_seq(p.ents)
            if isinstance(p, HSet):
                if not p.elts:
                    return ()
                raise Unsupported("iteration over a set")
            if isinstance(p, HInst):
                f = inspect.getattr_static(p.cls, "__iter__", None)
                if isinstance(f, types.FunctionType):
                    return self.seq_of(self.call(f, [v]))
        if v is None or is_num(v):
            raise_(TypeError, "not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def bytes_seq(self, toks):
        out = []
        for t in toks:
            if t[0] == "O":
                out.append(("e", t[1]))
            elif t[0] == "LE":
                for x in self.le_bytes(t):
                    out.append(("e", x[1]))
            elif t[0] == "r":
                out.append(("r", t[1], t[2], self.bytes_seq(t[3])))
            elif t[0] == "c":
                out.append(("c", tuple((c, self.bytes_seq(s)) for c, s in t[1])))
            else:
                raise Unsupported("iteration over bytes")
        return tuple(out)

    def keys_seq(self, ents):
        return self.map_ents(ents, lambda k, v: k)

    def map_ents(self, ents, f):
        out = []
        for it in ents:
            if it[0] == "e":
                out.append(("e", f(it[1], it[2])))
            elif it[0] == "o":
                out.append(("c", ((it[1], (("e", f(it[2], it[3])),)),
                                  (simp(z3.Not(zb(it[1]))), ()))))
            elif it[0] == "r":
                out.append(("r", it[1], it[2], self.map_ents(it[3], f)))
            elif it[0] == "c":
                out.append(("c", tuple((c, self.map_ents(s, f)) for c, s in it[1])))
            else:
                raise Unsupported("iteration over a dict that the loop is building")
        return tuple(out)

    def dict_entries(self, v):
        v = self.force(v)
        if isinstance(v, FDict):
            return v.ents
        if isinstance(v, dict):
            return tuple(("e", k, x) for k, x in v.items())
        if isinstance(v, Ref) and isinstance(self.get(v), HDict):
            return self.get(v).ents
        ls = None
        try:
            ls = self.seq_of(v)
        except Unsupported:
            pass
        if ls is not None:
            return self.pairs_to_ents(ls)
        raise Unsupported("not a dict")

    def pairs_to_ents(self, seq):
        out = []
        for x in seq:
            if x[0] == "e":
                a, b = self.unpack(x[1], 2)
                out.append(("e", a, b))
            elif x[0] == "r":
                out.append(("r", x[1], x[2], self.pairs_to_ents(x[3])))
            elif x[0] == "c":
                out.append(("c", tuple((c, self.pairs_to_ents(s)) for c, s in x[1])))
            else:
                raise Unsupported("dict of pairs")
        return tuple(out)

    def list_extend(self, ref, v):
        p = self.get(ref)
        if p.ro:
            raise Unsupported("input data is changed")
        s = self.seq_of(v)
        p = self.get(ref)
        p.seq = p.seq + tuple(s)


def is_real(v):
    return isinstance(v, SFl) and z3.is_real(v.t)


def is_num_mrg(v):
    return False


SEARCH_FN = z3.Function("text_contains", Str, Str, z3.BoolSort())


def SEARCH(engine, cont, x):
    return SEARCH_FN(text_term(cont), text_term(x))


def _hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def _symbolic(v):

    if is_sym(v) or isinstance(v, (SStr, SFl, FBytes, FList, FDict, FObj, Alt, Mrg, Poison, Ref,
                                   FmtStr)):
        return True
    if isinstance(v, tuple):
        return any(_symbolic(x) for x in v)
    return False


def _pure(e):
    """expression without calls or assignments (cannot change the state)"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.NamedExpr, ast.Subscript, ast.Await, ast.Yield,
                          ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.List,
                          ast.Dict, ast.Set, ast.BinOp)):
            return False
    return True


def _is_logger_call(f):
    import logging
    import types as t

    return isinstance(f, t.MethodType) and isinstance(f.__self__, logging.Logger) or f is print

