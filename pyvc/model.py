"""Counterexample models of z3 -> concrete inputs (candidates for a replay)."""
import z3

from .terms import (
    EMPTY, ENCODINGS, LIT, LITS, axioms_for, bytlen, collect_apps, enclen, is_sym, simp, zb, zi,
)
from .values import Alt, FBytes, FDict, FList, Mrg, SFl, SStr, Unsupported, vsubst

CAP = 60


def small_model(fmls, lens=(), limits=(2, 5, 14, 45), timeout=4000):
    """a model whose sequences and texts are short, if there is one"""
    fmls = [zb(f) for f in fmls]
    ax = axioms_for(fmls)
    apps = {}
    for f in fmls + ax:
        _len_apps(f, apps)
    for L in limits + (None,):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("random_seed", 1)
        s.add(*fmls)
        s.add(*ax)
        if L is not None:
            s.add(*[zi(a) <= L for a in apps.values()])
        if s.check() == z3.sat:
            return s.model()
    return None


def _len_apps(f, out):
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            n = x.decl().name()
            if n.endswith("#n") or n in ("enclen", "bytlen", "strlen"):
                if not _has_bound(x):
                    out[i] = x
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())


def _has_bound(x):
    stack = [x]
    while stack:
        y = stack.pop()
        if z3.is_var(y):
            return True
        stack.extend(y.children())
    return False


class Concrete:
    def __init__(self, model):
        self.m = model
        self.texts = {}
        self.bytes = {}
        self.floats = {}

    def int(self, t):
        if not is_sym(t):
            return t
        v = self.m.eval(t, model_completion=True)
        if not z3.is_int_value(v):
            v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("no value in the model")

    def bool(self, t):
        if isinstance(t, bool):
            return t
        v = self.m.eval(t, model_completion=True)
        return z3.is_true(z3.simplify(v))

    def text(self, t):
        if z3.is_app(t) and t.decl().name() == "hexof":
            return self.bytes_(t.arg(0)).hex()
        if z3.is_app(t) and t.decl().name() == "chr":
            c = t.arg(0)
            if z3.is_app(c) and c.decl().name() == "mac_roman":
                return bytes([self.int(c.arg(0)) % 256]).decode("mac_roman")
            return chr(self.int(c))
        v = self.m.eval(t, model_completion=True)
        if self.bool(t == EMPTY):
            return ""
        for i in range(1, len(LITS)):
            if self.bool(t == LIT(z3.IntVal(i))):
                return LITS[i]
        key = str(v)
        if key not in self.texts:
            n8 = self.int(enclen(t, ENCODINGS.index("utf-8")))
            n1 = self.int(enclen(t, 0))
            n = max(1, min(n1 if n1 > 0 else n8, 3000))
            tag = chr(ord("a") + len(self.texts) % 26)
            extra = max(0, min(n8 - n, n)) if n8 > n else 0
            s = "é" * extra + tag * (n - extra)
            self.texts[key] = s
        return self.texts[key]

    def bytes_(self, t):
        v = str(self.m.eval(t, model_completion=True))
        if v not in self.bytes:
            n = max(0, min(self.int(bytlen(t)), 3000))
            k = len(self.bytes) + 1
            self.bytes[v] = bytes((k * 17 + j * 3) % 256 for j in range(n))
        return self.bytes[v]

    def float(self, t):
        from math import atan2, degrees

        d = t.decl().name()
        if d == "fdiv":
            return self.int(t.arg(0)) / self.int(t.arg(1))
        if d == "fdegrees" and t.arg(0).decl().name() == "fatan2":
            a = t.arg(0)
            return degrees(atan2(self.int(a.arg(0)), self.int(a.arg(1))))
        if d == "float_of_int":
            return float(self.int(t.arg(0)))
        if d.startswith("fc_"):
            return float(d[3:])
        v = str(self.m.eval(t, model_completion=True))
        if v not in self.floats:
            self.floats[v] = [0.5, -1.25, 3.75, 1e10, -0.0, 2.5e-5][len(self.floats) % 6] + len(
                self.floats)
        return self.floats[v]

    def seq(self, items, one):
        out = []
        for it in items:
            k = it[0]
            if k == "e":
                out.append(one(it))
            elif k == "o":
                if self.bool(it[1]):
                    out.append(one(("e",) + tuple(it[2:])))
            elif k == "c":
                for c, s in it[1]:
                    if self.bool(c):
                        out.extend(self.seq(s, one))
                        break
            elif k == "r":
                n = self.int(it[1])
                if n > CAP:
                    n = 3 if n > 4000 else n
                for j in range(max(0, n)):
                    out.extend(self.seq(vsubst(it[3], [(it[2], j)]), one))
            else:
                raise Unsupported("item")
        return out

    def value(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, z3.BoolRef):
            return self.bool(v)
        if isinstance(v, z3.ArithRef):
            return self.int(v)
        if isinstance(v, SStr):
            return self.text(v.t)
        if isinstance(v, SFl):
            return self.float(v.t)
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if isinstance(v, FList):
            return self.seq(v.seq, lambda it: self.value(it[1]))
        if isinstance(v, FDict):
            return dict(self.seq(v.ents, lambda it: (self.value(it[1]), self.value(it[2]))))
        if isinstance(v, Alt):
            return self.value(v.options[self.int(v.tag)])
        if isinstance(v, Mrg):
            for c, x in v.opts:
                if self.bool(c):
                    return self.value(x)
        if type(v).__name__ == "FObj" and v.cls.__name__ == "AsmLines":
            from fontTools.ttLib.tables.ttProgram import Program

            n = len(self.bytes_(dict(v.attrs)["code"].toks[0][1]))
            p = Program()
            p.fromBytecode(bytes((0x00, 0x2F, 0x30, 0x60)[j % 4] for j in range(n)))
            return p.getAssembly()
        if isinstance(v, FBytes):
            raise Unsupported("bytes")
        if isinstance(v, (list, dict)):
            return v
        raise Unsupported(f"concrete value of {type(v).__name__}")
