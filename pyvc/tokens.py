"""Byte streams as token sequences (mixed into Engine)."""
import z3

from .terms import bits_of, consts_of, of_bits, I, REG, bytlen, enclen, is_sym, simp, zb, zi
from .values import BARRIER, FBytes, Unsupported, vmap_terms, vsubst


SECTION = 2**31 - 4096


def index_consts(v, skip=()):
    """free loop indices (k!, i!, h!) of a value, in a stable order"""
    out = {}

    def f(t):
        for i in consts_of(t):
            x = REG.constcache[i][0]
            nm = x.decl().name()
            if nm[:2] in ("k!", "i!", "h!") and nm not in skip:
                out[nm] = x
        return t

    vmap_terms(v, f)
    return [out[k] for k in sorted(out)]


def canon(v, depth=0):
    """rename the bound indices of repetitions"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "r" and len(v) == 4:
        iv = z3.Const(f"bound{depth}", I)
        return ("r", v[1], iv, tuple(canon(x, depth + 1) for x in vsubst(v[3], [(v[2], iv)])))
    if v and v[0] == "c":
        return ("c", tuple((c, tuple(canon(x, depth) for x in s)) for c, s in v[1]))
    return v


V1 = (-107, 107)


def v_forms(x, signed, long=False):
    """[(condition, byte terms)] of an encoded number (the documented format)"""
    x = zi(x)
    u = simp(z3.If(x < 0, x + 2**32, x)) if signed else x
    five = [z3.IntVal(255)] + [simp((zi(u) / z3.IntVal(256**j)) % 256) for j in (3, 2, 1, 0)]
    if long:
        return [(z3.BoolVal(True), five)]
    return [
        (z3.And(x >= -107, x <= 107), [simp(x + 139)]),
        (z3.And(x >= 108, x <= 1131), [simp((x - 108) / 256 + 247), simp((x - 108) % 256)]),
        (z3.And(x >= -1131, x <= -108), [simp((-x - 108) / 256 + 251), simp((-x - 108) % 256)]),
        (z3.Or(x > 1131, x < -1131), five),
    ]


def size_bounds(toks):
    """(lo, hi) of the length, whatever the values are, or None"""
    lo = hi = 0
    for t in toks:
        k = t[0]
        if k == "c":
            bs = [size_bounds(s) for _, s in t[1]]
            if not bs or None in bs:
                return None
            b = (min(x for x, _ in bs), max(y for _, y in bs))
        elif k == "r" and isinstance(t[1], int):
            b = size_bounds(t[3])
            if b is None:
                return None
            b = (max(0, t[1]) * b[0], max(0, t[1]) * b[1])
        else:
            b = {"O": (1, 1), "D": (8, 8), "VL": (5, 5), "V": (1, 5)}.get(k)
            if k == "LE":
                b = (t[1], t[1])
            if b is None:
                return None
        lo, hi = lo + b[0], hi + b[1]
    return lo, hi


class TokenMixin:
    def toks(self, v):
        if isinstance(v, bytes):
            return tuple(("O", b) for b in v)
        if isinstance(v, FBytes):
            return v.toks
        raise Unsupported(f"bytes expected, not {type(v).__name__}")

    # ------------------------------------------------------------------ sizes
    def toks_size(self, toks):
        total = 0
        for t in toks:
            total = total + self.tok_size(t)
        return simp(total) if is_sym(total) else total

    def tok_size(self, t):
        k = t[0]
        if k == "O":
            return 1
        if k == "LE":
            return t[1]
        if k == "D":
            return 8
        if k == "VL":
            return 5
        if k == "V":
            x = zi(t[1])
            return simp(z3.If(z3.And(x >= -107, x <= 107), 1,
                              z3.If(z3.And(x >= -1131, x <= 1131), 2, 5)))
        if k == "S":
            return enclen(t[1], zi(t[2]))
        if k == "X":
            return bytlen(t[1])
        if k == "r":
            n = t[1]
            try:
                sub = self.toks_size(t[3])
                if not is_sym(sub):
                    return simp(zi(n) * sub) if is_sym(n) else n * sub
            except Unsupported:
                pass
            return self.size_fn((t,))
        if k == "c":
            r = None
            for c, s in reversed(t[1]):
                v = self.toks_size(s)
                r = zi(v) if r is None else z3.If(zb(c), zi(v), r)
            return simp(r)
        raise Unsupported(f"size of {k}")

    def size_fn(self, toks):
        """an opaque length: a function of the loop indices that occur in the tokens"""
        from .engine import synt_eq

        toks = canon(toks)
        toks = tuple(canon(t) for t in toks)
        params = index_consts(toks)
        gen = [z3.Const(f"par{j}", I) for j in range(len(params))]
        key = vsubst(toks, list(zip(params, gen))) if params else toks
        for nm, (g, ky, f) in self.sizes.items():
            if len(g) == len(gen) and synt_eq(ky, key):
                return f(*params) if params else f()
        nm = REG.fresh_name("size")
        f = z3.Function(nm, *([I] * len(gen) + [I]))
        self.sizes[nm] = (gen, key, f)

        def ax(a):
            tk = vsubst(key, [(gen[j], a.arg(j)) for j in range(len(gen))]) if gen else key
            res = [a >= 0, a <= SECTION]
            b = size_bounds(tk[0][3]) if len(tk) == 1 and tk[0][0] == "r" else None
            if b:  # each of the records has a bounded length
                n = zi(tk[0][1])
                res.append(z3.Implies(n >= 0, z3.And(a >= b[0] * n, a <= b[1] * n)))
            try:
                res.append((a == 0) == zb(self.toks_empty(tk)))
            except Unsupported:
                pass
            return res

        REG.on(nm, ax)
        self.assumptions.add("every encoded section is shorter than 2**31 - 4096 bytes")
        return f(*params) if params else f()

    def size_tokens(self, n):
        """the tokens whose length the term denotes"""
        if is_sym(n) and z3.is_app(n):
            h = self.sizes.get(n.decl().name())
            if h is not None:
                gen, key, _ = h
                return vsubst(key, [(gen[j], n.arg(j)) for j in range(len(gen))]) if gen else key
        return None

    def toks_empty(self, toks):
        cs = []
        for t in toks:
            k = t[0]
            if k in ("O", "LE", "D", "V", "VL"):
                return False
            if k == "S":
                cs.append(enclen(t[1], zi(t[2])) == 0)
            elif k == "X":
                cs.append(bytlen(t[1]) == 0)
            elif k == "r":
                b = size_bounds(t[3])
                sub = False if b and b[0] >= 1 else self.toks_empty(t[3])
                if sub is False:
                    c = zi(t[1]) <= 0
                elif sub is True:
                    continue
                else:
                    c = z3.ForAll([t[2]], z3.Implies(z3.And(t[2] >= 0, t[2] < zi(t[1])), sub))
                cs.append(c)
            elif k == "c":
                for c, s in t[1]:
                    cs.append(z3.Implies(zb(c), zb(self.toks_empty(s))))
            else:
                raise Unsupported(f"emptiness of {k}")
        if not cs:
            return True
        return simp(z3.And(cs))

    def drop_empty(self, toks):
        """leave out tokens that are empty under the path condition"""
        out = []
        for t in toks:
            if t[0] == "c":
                alts = [(c, s) for c, s in t[1] if self.feasible(zb(c))]
                if len(alts) == 1:
                    out.extend(self.drop_empty(alts[0][1]))
                    continue
            if t[0] in ("S", "X", "r", "c"):
                try:
                    c = self.toks_empty((t,))
                except Unsupported:
                    c = False
                if c is True or (c is not False and self.valid(c)):
                    continue
            out.append(t)
        return tuple(out)

    # ------------------------------------------------------------------ bytes
    def le_bytes(self, t):
        """byte tokens of a little-endian number"""
        _, n, u = t
        if not is_sym(u):
            return tuple(("O", b) for b in int(u).to_bytes(n, "little"))
        out = []
        bits = bits_of(u)
        if bits is not None and all(b < 8 * n for b in bits):
            return tuple(("O", of_bits({b - 8 * j: c for b, c in bits.items() if b // 8 == j}))
                         for j in range(n))
        for j in range(n):
            b = simp((u / z3.IntVal(256**j)) % 256) if j else simp(u % 256)
            if is_sym(b):
                self.byte_src[b.get_id()] = (b, u, n, j)
            out.append(("O", b))
        return tuple(out)

    def fold_bytes(self, bs, big, u):
        """bytes that spell one number give that number back"""
        n = len(bs)
        src = None
        for j, b in enumerate(bs):
            if not is_sym(b):
                return u
            h = self.byte_src.get(b.get_id())
            if h is None or h[2] != n or h[3] != ((n - 1 - j) if big else j):
                return u
            if src is None:
                src = h[1]
            elif not src.eq(h[1]):
                return u
        return src if src is not None else u

    def byte_list(self, toks):
        """byte terms of tokens of known length"""
        out = []
        for t in toks:
            if t[0] == "O":
                out.append(t[1])
            elif t[0] == "LE":
                out.extend(x[1] for x in self.le_bytes(t))
            elif t[0] in ("V", "VL"):
                out.extend(x[1] for x in self.expand_v(t))
            elif t[0] == "c":
                i = self.choose([c for c, _ in t[1]])
                out.extend(self.byte_list(t[1][i][1]))
            elif t[0] == "r" and not is_sym(t[1]):
                for j in range(t[1]):
                    out.extend(self.byte_list(vsubst(t[3], [(t[2], j)])))
            else:
                raise Unsupported("single bytes of a text or of a long section")
        return out

    def expand_v(self, t):
        forms = v_forms(t[1], t[2], t[0] == "VL")
        i = self.choose([c for c, _ in forms]) if len(forms) > 1 else 0
        bs = forms[i][1]
        if len(bs) == 5:
            u = simp(z3.If(zi(t[1]) < 0, zi(t[1]) + 2**32, zi(t[1]))) if t[2] else zi(t[1])
            for j, b in enumerate(bs[1:]):
                if is_sym(b):
                    self.byte_src[b.get_id()] = (b, zi(u), 4, 3 - j)
        return tuple(("O", simp(b)) for b in bs)

    def bytes_eq(self, a, b):
        ta, tb = self.toks(a), self.toks(b)
        from .engine import synt_eq

        if synt_eq(ta, tb):
            return True
        if not tb:
            return self.toks_empty(ta)
        if not ta:
            return self.toks_empty(tb)
        if len(ta) == len(tb) == 1 and ta[0][0] == tb[0][0] == "S" and ta[0][2] == tb[0][2]:
            return simp(ta[0][1] == tb[0][1])
        if len(ta) == len(tb) == 1 and ta[0][0] == tb[0][0] == "X":
            return simp(ta[0][1] == tb[0][1])
        la, lb = self.byte_list(ta), self.byte_list(tb)
        if len(la) != len(lb):
            return False
        return simp(z3.And([zi(x) == zi(y) for x, y in zip(la, lb)]))

    # ------------------------------------------------------------------ reading
    def tok_reader(self, toks):
        """read(n) -> tokens of exactly n bytes, or None; read(None) -> something left?"""
        rest = [list(toks)]

        def read(n):
            if n is None:
                e = self.toks_empty(rest[0])
                return not self.branch(e) if not isinstance(e, bool) else not e
            out = ()
            while n > 0:
                if not rest[0]:
                    return None
                t = rest[0].pop(0)
                s = {"O": 1, "D": 8}.get(t[0], t[1] if t[0] == "LE" else None)
                if s is None:
                    if t[0] in ("V", "VL"):
                        rest[0] = list(self.expand_v(t)) + rest[0]
                        continue
                    if t[0] == "c":
                        i = self.choose([c for c, _ in t[1]])
                        rest[0] = list(t[1][i][1]) + rest[0]
                        continue
                    if t[0] == "r" and not is_sym(t[1]):
                        rest[0] = [x for j in range(t[1])
                                   for x in vsubst(t[3], [(t[2], j)])] + rest[0]
                        continue
                    if t[0] in ("S", "X") and self.valid(self.tok_size(t) == n):
                        out += (t,)
                        n = 0
                        continue
                    raise Unsupported("number from a section of unknown length")
                if s <= n:
                    out += (t,)
                    n -= s
                elif t[0] == "LE":
                    rest[0] = list(self.le_bytes(t)) + rest[0]
                else:
                    raise Unsupported("part of a double")
            return out

        return read

    def read_all(self, sid):
        st = self.heap[sid]
        if any(t is BARRIER or t[0] in ("barrier", "mark") for t in st.rest):
            raise Unsupported("a loop iteration reads all of the remaining data")
        r = st.rest
        st.rest = ()
        return r

    def read_n(self, sid, n):
        st = self.heap[sid]
        if not is_sym(n):
            if n < 0:
                return self.read_all(sid)
            if n == 0:
                return ()
            return self.read_const(sid, n)
        n = simp(n)
        want = self.size_tokens(n)
        if want is not None:
            from .engine import synt_eq

            m = len(want)
            if synt_eq(tuple(canon(t) for t in st.rest[:m]), tuple(canon(t) for t in want)):
                r = st.rest[:m]
                st.rest = st.rest[m:]
                return r
        j = self.prefix_of_size(st.rest, n)
        if j is not None:
            r = st.rest[:j]
            st.rest = st.rest[j:]
            return r
        if st.rest and st.rest[0][0] == "c":
            self.stream_at_rep(sid)
            return self.read_n(sid, n)
        if all(t is not BARRIER and t[0] in ("O", "X", "S", "LE", "D") for t in st.rest):
            # the data ends before
            total = 0
            for t in st.rest:
                total = total + self.tok_size(t)
            if self.valid(zi(total) <= n):
                return self.read_all(sid)
        # a section that starts with one whose length is n
        raise Unsupported("read of a length that is not the length of a section")

    def prefix_of_size(self, toks, n, cond=None):
        """number of leading tokens whose total length is provably n"""
        total = 0
        cands = []
        for j in range(len(toks) + 1):
            d = simp(zi(total) - zi(n))
            if d is True or (not is_sym(d) and d == 0):
                return j
            if is_sym(d):
                cands.append((j, d))
            if j == len(toks):
                break
            t = toks[j]
            if t is BARRIER or t[0] in ("barrier", "mark"):
                break
            try:
                total = simp(zi(total) + zi(self.tok_size(t)))
            except Unsupported:
                break
        for j, d in cands[:12]:
            if self.valid(d == 0):
                return j
        # the length of an opaque section, spelled differently
        want = self.size_tokens(n)
        if want is not None:
            from .compare import Comparer

            for j in range(1, len(toks) + 1):
                if any(t is BARRIER or t[0] in ("barrier", "mark") for t in toks[:j]):
                    break
                if Comparer(self).tokens_equal(tuple(toks[:j]), tuple(want)):
                    return j
        return None

    def read_const(self, sid, need):
        out = ()
        while need > 0:
            st = self.heap[sid]
            if not st.rest:
                break
            t = st.rest[0]
            if t is BARRIER or t[0] in ("barrier", "mark"):
                raise Unsupported("an iteration reads beyond its record")
            k = t[0]
            s = {"O": 1, "D": 8, "LE": t[1] if k == "LE" else None}.get(k)
            if s is not None:
                if s <= need:
                    st.rest = st.rest[1:]
                    out += (t,)
                    need -= s
                elif k == "LE":
                    st.rest = self.le_bytes(t) + st.rest[1:]
                else:
                    raise Unsupported("part of a double")
                continue
            if k in ("V", "VL"):
                bs = self.expand_v(t)
                st = self.heap[sid]
                st.rest = bs + st.rest[1:]
                continue
            if k in ("S", "X"):
                sz = self.tok_size(t)
                if self.valid(zi(sz) == need):
                    st.rest = st.rest[1:]
                    return out + (t,)
                j = self.prefix_of_size(st.rest, need)
                if j is not None:
                    r = st.rest[:j]
                    st.rest = st.rest[j:]
                    return out + tuple(r)
                if self.valid(zi(sz) == 0):
                    st.rest = st.rest[1:]
                    continue
                raise Unsupported("single bytes of a text")
            # repetition or alternative
            if k == "r" and not is_sym(need):
                j = self.prefix_of_size(st.rest, need) if need > 1 else None
                if j is not None:
                    r = st.rest[:j]
                    st.rest = st.rest[j:]
                    return out + tuple(r)
            if out:
                self.peel(sid)
            else:
                self.stream_at_rep(sid)
        return out
