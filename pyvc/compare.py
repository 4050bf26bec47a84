"""Equality of symbolic values and byte sequences, as proof obligations."""
import z3
import z3.z3util

from .terms import I, REG, check, fold, fconst, is_int, is_sym, lit, simp, zb, zi
from .tokens import canon, v_forms
from .values import (
    Alt, FBytes, FDict, FList, FmtStr, FObj, HDict, HInst, HList, HSet, HCell, Mrg, Poison, Ref,
    SFl, SStr, Unsupported, vsubst,
)


class Differ(Exception):
    """the structures differ under the current path condition"""


def nested(x):
    return len(x[3]) == 1 and x[3][0][0] == "r"


def fold_ids(t):
    """ids of the constants in t"""
    return {x.get_id() for x in z3.z3util.get_vars(t)} if z3.is_expr(t) else set()


def run_of(x):
    """(number, item) of a part that consists of one and the same number"""
    if x[0] == "e" and is_int(x[1]):
        return 1, x[1]
    if x[0] == "r" and x[3]:
        total, v = 0, None
        for y in x[3]:
            n, u = run_of(y)
            if n is None or v is not None and not zi(u).eq(zi(v)):
                return None, None
            total, v = simp(zi(total) + zi(n)), u
        if any(is_sym(t) and x[2].get_id() in fold_ids(t) for t in (total, v)):
            return None, None
        return simp(z3.If(zi(x[1]) > 0, zi(x[1]), 0) * zi(total)), v
    return None, None


class Comparer:
    def __init__(self, engine, name=None):
        self.e = engine
        self.name = name  # None: only answer, do not record obligations
        self.budget = 4000
        self.lemmas = {}

    # ------------------------------------------------------------------ goals
    def goal(self, what, c):
        c = simp(c) if not isinstance(c, bool) else c
        if c is not True and is_sym(c):
            self.size_lemmas(c)
        if self.name is None:
            if not (c is True or self.e.valid(c)):
                raise Differ(what)
            return
        if not self.e.prove(f"{self.name}: {what}", c):
            self.failed = True

    def size_lemmas(self, c):
        """lengths of equal byte sequences are equal"""
        if not self.e.sizes:
            return
        key = len(self.e.sizes)
        if REG.sizecache.get(None) != key:
            REG.sizecache.clear()
            REG.sizecache[None] = key
        apps = {i: REG.sizecache[i][0] for i in sorted(fold(
            zb(c), REG.sizecache, lambda x: z3.is_app(x) and x.decl().name() in self.e.sizes))}
        apps = list(apps.values())
        for i, a in enumerate(apps):
            for b in apps[i + 1:]:
                if a.decl().eq(b.decl()):
                    continue
                key = (a.get_id(), b.get_id())
                if key not in self.lemmas:
                    sub = Comparer(self.e)
                    sub.budget = self.budget // 2
                    self.lemmas[key] = (a, b, sub.tokens_equal(
                        self.e.size_tokens(a), self.e.size_tokens(b)))
                if self.lemmas[key][2]:
                    self.e.pc.append(a == b)

    def under(self, conds, f):
        """f() under additional path conditions (skipped when infeasible)"""
        n = len(self.e.pc)
        add = [zb(simp(c) if is_sym(c) else c) for c in conds]
        if any(z3.is_false(c) for c in add):
            return
        nt = [c for c in add if not z3.is_true(c)]
        if nt:
            r, _ = check(self.e.pc + nt, timeout=4000)
            if r == "unsat":
                return
        self.e.pc.extend(nt)
        try:
            f()
        finally:
            del self.e.pc[n:]

    def mismatch(self, what):
        """the two sides differ: an obligation that the situation cannot arise"""
        if self.name is None:
            raise Differ(what)
        self.goal(what, z3.BoolVal(False))

    def spend(self):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported("comparison too large")

    # ------------------------------------------------------------------ interface
    def tokens_equal(self, a, b):
        try:
            self.seqs(tuple(a), tuple(b), self.token, "bytes", bytes_=True)
            return True
        except (Differ, Unsupported):
            return False

    def tokens(self, a, b):
        self.seqs(tuple(a), tuple(b), self.token, "bytes", bytes_=True)
        self.goal("bytes: same end", True)

    # ------------------------------------------------------------------ sequences
    def seqs(self, a, b, item, what, bytes_=False):
        from .engine import synt_eq

        a, b = list(a), list(b)
        while a or b:
            self.spend()
            if len(a) == len(b) and synt_eq(tuple(canon(x) for x in a),
                                            tuple(canon(x) for x in b)):
                self.goal(what, True)
                return
            x = a[0] if a else None
            y = b[0] if b else None
            kx = x[0] if x else None
            ky = y[0] if y else None
            if x is not None and (kx in ("barrier", "mark")) or y is not None and ky in (
                    "barrier", "mark"):
                raise Unsupported("unfinished sequence")
            if kx == "r" and isinstance(x[1], int) and (x[1] <= 0 or x[1] <= 40 and ky != "r"):
                a = [z for j in range(x[1]) for z in vsubst(x[3], [(x[2], j)])] + a[1:]
                continue
            if ky == "r" and isinstance(y[1], int) and (y[1] <= 0 or y[1] <= 40 and kx != "r"):
                b = [z for j in range(y[1]) for z in vsubst(y[3], [(y[2], j)])] + b[1:]
                continue
            if not bytes_:
                st = self.runs(a, b, item, what)
                if st == "done":
                    return
                if st:
                    a, b = st
                    continue
            if kx == "r" and ky == "r":
                if not bytes_ and nested(x) != nested(y) and self.cut(*((x, y) if nested(x) else (y, x)), what):
                    self.cut_elements(x, y, item, what)
                    a, b = a[1:], b[1:]
                    continue
                if self.rep(x, y, item, what, bytes_, a[1:], b[1:]):
                    a, b = a[1:], b[1:]
                    continue
                return
            if kx == "c" and ky == "c":
                if self.local_alts(x, y, item, what, bytes_):
                    a, b = a[1:], b[1:]
                    continue
            if kx == "c":
                for c, s in x[1]:
                    self.under([c], lambda s=s: self.seqs(tuple(s) + tuple(a[1:]), b, item,
                                                          what, bytes_))
                return
            if ky == "c":
                for c, s in y[1]:
                    self.under([c], lambda s=s: self.seqs(a, tuple(s) + tuple(b[1:]), item,
                                                          what, bytes_))
                return
            if x is None or y is None or "r" in (kx, ky):
                # one side has ended or is single while the other repeats
                rest, r = (a, x) if (kx == "r" or y is None) else (b, y)
                if r is None:
                    r = rest[0]
                if r[0] == "r":
                    n = zi(r[1])
                    if self.e.valid(n <= 0):
                        del rest[0]
                        continue
                    a2, b2 = list(a), list(b)
                    sub = tuple(vsubst(r[3], [(r[2], 0)])) + (
                        ("r", simp(n - 1), r[2], vsubst(r[3], [(r[2], r[2] + 1)])),)

                    def none():
                        aa = a2[1:] if rest is a else a2
                        bb = b2[1:] if rest is b else b2
                        self.seqs(aa, bb, item, what, bytes_)

                    def some():
                        aa = list(sub) + a2[1:] if rest is a else a2
                        bb = list(sub) + b2[1:] if rest is b else b2
                        self.seqs(aa, bb, item, what, bytes_)

                    if not self.e.valid(n >= 1):
                        self.under([n <= 0], none)
                        if (x is None or y is None):
                            # the other side has ended: the repetition must be empty
                            self.under([n >= 1], lambda: self.ended(r, what, bytes_))
                            return
                    elif x is None or y is None:
                        self.ended(r, what, bytes_)
                        return
                    self.under([n >= 1], some)
                    return
                if bytes_ and r[0] in ("S", "X"):
                    self.goal(f"{what}: nothing more follows", self.e.toks_empty((r,)))
                    del rest[0]
                    continue
                if r[0] == "o":
                    self.goal(f"{what}: nothing more follows", z3.Not(zb(r[1])))
                    del rest[0]
                    continue
                self.mismatch(f"{what}: same number of items")
                return
            if bytes_:
                st = self.align_tokens(a, b)
                if st:
                    continue
            item(a[0], b[0], what)
            a, b = a[1:], b[1:]

    def runs(self, a, b, item, what):
        """lists that start with the same element many times: the totals count"""
        if a[:1] and b[:1] and a[0][0] == b[0][0] == "e":
            return None
        if not a or not b:
            return None
        (na, ra), (nb, rb) = (run_of(x) for x in (a[0], b[0]))
        if na is None or nb is None or not self.same(ra, rb):
            return None
        totals, used = [], []
        for s in (a, b):
            n, j = z3.IntVal(0), 0
            while j < len(s):
                if s[j][0] == "c":
                    for c, alt in s[j][1]:
                        t = tuple(s[:j]) + tuple(alt) + tuple(s[j + 1:])
                        self.under([c], lambda t=t: self.seqs(
                            *((t, b) if s is a else (a, t)), item, what))
                    return "done"
                m, v = run_of(s[j])
                if m is None or not self.same(v, ra):
                    break
                n, j = n + zi(m), j + 1
            totals.append(n)
            used.append(j)
        plain = all(x[0] == "r" and x[3] == (("e", x[3][0][1]),) for x in (a[0], b[0]))
        if plain and used == [1, 1] or not self.e.valid(totals[0] == totals[1]):
            return None
        self.goal(f"{what}: number of equal items", totals[0] == totals[1])
        return a[used[0]:], b[used[1]:]

    def same(self, x, y):
        x, y = z3.IntVal(x) if isinstance(x, int) else x, z3.IntVal(y) if isinstance(y, int) else y
        return x.eq(y) or self.e.valid(x == y)

    def cut(self, x, y, what):
        """do the parts of x, one behind the other, have as many items as y: step of the parts"""
        _, n, i, ((_, m, _, _),) = x
        total, n, m = zi(y[1]), zi(n), zi(m)
        steps = []

        def leaves(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                leaves(t.arg(1))
                leaves(t.arg(2))
            elif i.get_id() not in fold_ids(t):
                steps.append(t)

        leaves(m)
        for c in steps:
            k = z3.Const(REG.fresh_name("i"), I)
            mk = z3.substitute(m, (i, k))
            if self.e.valid(z3.And(c > 0, c * n >= total)) and self.e.valid(z3.Implies(
                    z3.And(k >= 0, k < n), z3.And(
                        total - c * k > 0, mk == z3.If(total - c * k < c, total - c * k, c)))):
                self.step = c
                if self.name is not None:
                    self.goal(f"{what}: the parts cover the list", c * n >= total)
                return True
        return False

    def cut_elements(self, x, y, item, what):
        swap = not nested(x)
        if swap:
            x, y = y, x
        _, n, i, ((_, m, j, sub),) = x
        k, l = (z3.Const(REG.fresh_name("i"), I) for _ in range(2))
        s1 = vsubst(sub, [(i, k), (j, l)])
        s2 = vsubst(y[3], [(y[2], simp(self.step * k + l))])
        if swap:
            s1, s2 = s2, s1
        self.under([k >= 0, k < zi(n), l >= 0, l < z3.substitute(zi(m), (i, k))],
                   lambda: self.seqs(s1, s2, item, what + "[k]"))

    def ended(self, r, what, bytes_):
        if bytes_:
            self.goal(f"{what}: nothing more follows", self.e.toks_empty((r,)))
        else:
            self.goal(f"{what}: nothing more follows",
                      z3.Not(zb(self.e.nonempty((r,)))))

    def rep(self, x, y, item, what, bytes_, ra, rb):
        """both sides start with a repetition -> True: go on with the rests"""
        n, m = zi(x[1]), zi(y[1])
        if not (simp(n == m) is True or self.e.valid(n == m)):
            self.size_lemmas(n == m)
        if not self.e.valid(n == m):
            # perhaps one of them is empty
            if self.e.valid(n <= 0):
                self.seqs(ra, (y,) + tuple(rb), item, what, bytes_)
                return False
            if self.e.valid(m <= 0):
                self.seqs((x,) + tuple(ra), rb, item, what, bytes_)
                return False
            # the same elements in total, cut differently: peel the shorter
            d = simp(n - m)
            if isinstance(d, int) and 0 < abs(d) <= 8:
                if d > 0:
                    return self._peel_cmp(x, y, d, item, what, bytes_, ra, rb, False)
                return self._peel_cmp(y, x, -d, item, what, bytes_, rb, ra, True)
            self.goal(f"{what}: same number of items", n == m)
            return True
        if self.name is not None:
            self.goal(f"{what}: same number of items", n == m)
        k = z3.Const(REG.fresh_name("i"), I)
        self.under([k >= 0, k < n], lambda: self.seqs(
            vsubst(x[3], [(x[2], k)]), vsubst(y[3], [(y[2], k)]), item, what + "[k]", bytes_))
        return True

    def _peel_cmp(self, x, y, d, item, what, bytes_, rx, ry, swap):
        """x has d more repetitions than y: compare y's with the first ones of x"""
        k = z3.Const(REG.fresh_name("i"), I)
        m = zi(y[1])
        sx, sy = vsubst(x[3], [(x[2], k)]), vsubst(y[3], [(y[2], k)])
        self.under([k >= 0, k < m], lambda: self.seqs(
            *((sy, sx) if swap else (sx, sy)), item, what + "[k]", bytes_))
        more = tuple(z for j in range(d) for z in vsubst(x[3], [(x[2], simp(m + j))]))
        A, B = more + tuple(rx), tuple(ry)
        self.seqs(*((B, A) if swap else (A, B)), item, what, bytes_)
        return False

    def local_alts(self, x, y, item, what, bytes_):
        """alternatives that correspond to each other one by one"""
        probe = Comparer(self.e)
        probe.budget = 300

        def go(cmp):
            for c, s in x[1]:
                for c2, s2 in y[1]:
                    cmp.under([c, c2], lambda s=s, s2=s2: cmp.seqs(
                        s, s2, cmp.token if bytes_ else getattr(cmp, item.__name__), what,
                        bytes_))

        try:
            go(probe)
        except (Differ, Unsupported):
            return False
        if self.name is not None:
            go(self)
        return True

    # ------------------------------------------------------------------ tokens
    def align_tokens(self, a, b):
        """split tokens so that the heads have the same kind; True if changed"""
        x, y = a[0], b[0]
        kx, ky = x[0], y[0]
        if kx == ky and kx != "LE":
            return False
        if kx == ky == "LE":
            if x[1] == y[1]:
                return False
            big = a if x[1] > y[1] else b
            big[0:1] = list(self.e.le_bytes(big[0]))
            other = b if big is a else a
            other[0:1] = list(self.e.le_bytes(other[0]))
            return True
        if {kx, ky} == {"V", "VL"}:
            return False
        for l, o in ((a, ky), (b, kx)):
            t = l[0]
            if t[0] == "LE" and o == "O":
                l[0:1] = list(self.e.le_bytes(t))
                return True
            if t[0] in ("V", "VL") and o in ("O", "LE"):
                l[0:1] = [("c", tuple((c, tuple(("O", simp(z)) for z in bs))
                                      for c, bs in v_forms(t[1], t[2], t[0] == "VL")))]
                return True
            if t[0] in ("S", "X"):
                c = self.e.toks_empty((t,))
                if c is True or (is_sym(c) and self.e.valid(c)):
                    del l[0]
                    return True
        return False

    def token(self, x, y, what):
        kx, ky = x[0], y[0]
        if {kx, ky} <= {"V", "VL"}:
            self.goal(f"{what}: encoded number", zi(x[1]) == zi(y[1]))
            v = zi(x[1])
            if x[2] != y[2]:
                self.goal(f"{what}: signedness of the encoded number",
                          z3.And(v >= -1131, v < 2**31))
            if kx != ky:
                self.goal(f"{what}: long form", z3.Or(v > 1131, v < -1131))
            return
        if kx == ky == "LE":
            self.goal(f"{what}: {8 * x[1]}-bit number", zi(x[2]) == zi(y[2]))
            return
        if kx == ky == "O":
            self.goal(f"{what}: byte", zi(x[1]) == zi(y[1]))
            return
        if kx == ky == "D":
            self.value(x[1], y[1], f"{what}: double")
            return
        if kx == ky == "S":
            if x[2] != y[2]:
                self.mismatch(f"{what}: encoding of a text")
                return
            self.goal(f"{what}: text", x[1] == y[1])
            return
        if kx == ky == "X":
            self.goal(f"{what}: bytes", x[1] == y[1])
            return
        self.mismatch(f"{what}: {kx} where {ky} is expected")

    # ------------------------------------------------------------------ values
    def elem(self, x, y, what):
        if x[0] != "e" or y[0] != "e":
            raise Unsupported(f"sequence item {x[0]}/{y[0]}")
        self.value(x[1], y[1], what)

    def entry(self, x, y, what):
        if x[0] != "e" or y[0] != "e":
            raise Unsupported("dict entry")
        self.value(x[1], y[1], what + " key")
        self.value(x[2], y[2], what + " value")

    def listy(self, v):
        if isinstance(v, FList):
            return v.seq
        if isinstance(v, (list, tuple)):
            return tuple(("e", x) for x in v)
        if isinstance(v, Ref):
            p = self.e.get(v)
            if isinstance(p, HList):
                return p.seq
            if isinstance(p, HCell):
                return p.seq
        return None

    def dicty(self, v):
        if isinstance(v, FDict):
            return v.ents
        if isinstance(v, dict):
            return tuple(("e", k, x) for k, x in v.items())
        if isinstance(v, Ref) and isinstance(self.e.get(v), HDict):
            return self.e.get(v).ents
        return None

    def value(self, a, b, what="result"):
        self.spend()
        if isinstance(a, (Alt, Mrg)):
            for c, x in self.e.options(a):
                self.under([c], lambda x=x: self.value(x, b, what))
            return
        if isinstance(b, (Alt, Mrg)):
            for c, x in self.e.options(b):
                self.under([c], lambda x=x: self.value(a, x, what))
            return
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported(f"{what}: {a} {b}")
        na, nb = self.isnum(a), self.isnum(b)
        if na and nb:
            self.goal(f"{what}: number", zi(self.e.num(a)) == zi(self.e.num(b)))
            return
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                if a == b:
                    self.goal(f"{what}: text", True)
                else:
                    self.mismatch(f"{what}: text {a!r} where {b!r} is expected")
                return
            ta = a.t if isinstance(a, SStr) else lit(a)
            tb = b.t if isinstance(b, SStr) else lit(b)
            self.goal(f"{what}: text", ta == tb)
            return
        if isinstance(a, FmtStr) or isinstance(b, FmtStr):
            from .engine import synt_eq

            if synt_eq(a, b):
                self.goal(f"{what}: text", True)
                return
            if isinstance(a, FmtStr) and isinstance(b, FmtStr) and len(a.parts) == len(
                    b.parts):
                for x, y in zip(a.parts, b.parts):
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        if x[0] == y[0] == "v" and x[2:] == y[2:]:
                            self.value(x[1], y[1], what)
                            continue
                        raise Unsupported(f"{what}: built text")
                    self.value(x, y, what)
                return
            raise Unsupported(f"{what}: built text")
        from .expr import is_num, is_real

        if is_real(a) and is_num(b) or is_real(b) and is_num(a):
            self.goal(f"{what}: number", self.e.real(a) == self.e.real(b))
            return
        if isinstance(a, (float, SFl)) and isinstance(b, (float, SFl)):
            if isinstance(a, float) and isinstance(b, float):
                self.goal(what, repr(a) == repr(b))
                return
            ta = a.t if isinstance(a, SFl) else fconst(a)
            tb = b.t if isinstance(b, SFl) else fconst(b)
            self.goal(f"{what}: double", ta == tb)
            return
        if isinstance(a, (bytes, FBytes)) and isinstance(b, (bytes, FBytes)):
            self.seqs(self.e.toks(a), self.e.toks(b), self.token, what, bytes_=True)
            return
        la, lb = self.listy(a), self.listy(b)
        if la is not None and lb is not None:
            self.seqs(la, lb, self.elem, what)
            return
        da, db = self.dicty(a), self.dicty(b)
        if da is not None and db is not None:
            self.dicts(da, db, what)
            return
        if isinstance(a, (FObj,)) or isinstance(b, FObj) or (
                isinstance(a, Ref) and isinstance(self.e.get(a), HInst)):
            self.objects(a, b, what)
            return
        if isinstance(a, (Ref, SStr, SFl, FList, FDict, FBytes)) or isinstance(
                b, (Ref, SStr, SFl, FList, FDict, FBytes)) or is_sym(a) or is_sym(b):
            self.mismatch(f"{what}: {self.kind(a)} where {self.kind(b)} is expected")
            return
        if a is b or (type(a) is type(b) and a == b):
            self.goal(what, True)
            return
        self.mismatch(f"{what}: {a!r} where {b!r} is expected")

    def kind(self, v):
        if isinstance(v, Ref):
            return type(self.e.get(v)).__name__
        if is_sym(v):
            return "a number"
        return {SStr: "a text", SFl: "a double", FList: "a list", FDict: "a dict",
                FBytes: "bytes"}.get(type(v)) or repr(v)

    def isnum(self, v):
        return is_int(v) or isinstance(v, (bool, z3.BoolRef))

    def objects(self, a, b, what):
        def attrs(v):
            if isinstance(v, FObj):
                return v.cls, dict(v.attrs)
            if isinstance(v, Ref) and isinstance(self.e.get(v), HInst):
                p = self.e.get(v)
                return p.cls, p.attrs
            return None, {}

        ca, xa = attrs(a)
        cb, xb = attrs(b)
        if ca is not cb or set(xa) != set(xb):
            self.mismatch(f"{what}: object")
            return
        for k in xa:
            self.value(xa[k], xb[k], f"{what}.{k}")

    def conc(self, ents):
        """concrete keys -> [(presence condition, value)] (exclusive); the other entries"""
        keys = {}
        rest = []

        def put(k, c, v):
            old = keys.get(k, [])
            keys[k] = [(simp(z3.And(zb(c0), z3.Not(zb(c)))), v0) for c0, v0 in old] + [(c, v)]
            keys[k] = [(c0, v0) for c0, v0 in keys[k] if c0 is not False]

        def walk(ents, cond):
            for it in ents:
                if it[0] == "e" and isinstance(it[1], (str, int)) and not is_sym(it[1]):
                    put(it[1], cond, it[2])
                elif it[0] == "o" and isinstance(it[2], (str, int)) and not is_sym(it[2]):
                    put(it[2], simp(z3.And(zb(cond), zb(it[1]))), it[3])
                elif it[0] == "c" and all(self.simple(s) for _, s in it[1]):
                    for c, s in it[1]:
                        walk(s, simp(z3.And(zb(cond), zb(c))))
                elif cond is True:
                    rest.append(it)
                else:
                    raise Unsupported("dict with conditional symbolic keys")

        walk(ents, True)
        return keys, rest

    def simple(self, ents):
        for it in ents:
            if it[0] == "e" and isinstance(it[1], (str, int)) and not is_sym(it[1]):
                continue
            if it[0] == "o" and isinstance(it[2], (str, int)) and not is_sym(it[2]):
                continue
            if it[0] == "c" and all(self.simple(s) for _, s in it[1]):
                continue
            return False
        return True

    def dicts(self, a, b, what):
        ka, ra = self.conc(a)
        kb, rb = self.conc(b)
        if (ra or rb) and (ka or kb):
            if any(isinstance(k, str) for k in list(ka) + list(kb)):
                raise Unsupported("dict with concrete and symbolic keys")
        for k in list(ka) + [k for k in kb if k not in ka]:
            pa = simp(z3.Or([zb(c) for c, _ in ka.get(k, [])] + [z3.BoolVal(False)]))
            pb = simp(z3.Or([zb(c) for c, _ in kb.get(k, [])] + [z3.BoolVal(False)]))
            if pa is not pb or is_sym(pa):
                self.goal(f"{what}[{k!r}] present", zb(pa) == zb(pb))
            for c, v in ka.get(k, []):
                for c2, v2 in kb.get(k, []):
                    self.under([c, c2], lambda v=v, v2=v2: self.value(v, v2, f"{what}[{k!r}]"))
        if ra or rb:
            self.seqs(ra, rb, self.entry, what)
