"""Symbolic terms, on-demand axioms and the solver interface.

Integers are mathematical integers (exact for Python).  Texts and doubles are
values of uninterpreted sorts.  Every uninterpreted function that carries an
assumption (a data range, a length, a prefix sum, a rounding) is registered here,
and the assumption is instantiated for each application that occurs in a query.
"""
import itertools
import time
import z3

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
Str = z3.DeclareSort("PyStr")
Flt = z3.DeclareSort("PyFlt")
Byt = z3.DeclareSort("PyBytes")

EMPTY = z3.Const("str_empty", Str)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        isinstance(v, z3.ArithRef) and v.sort() == I
    )


def is_boolterm(v):
    return isinstance(v, z3.BoolRef)


def simp(t):
    if not is_sym(t):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def zb(c):
    """to z3 Bool"""
    if isinstance(c, bool):
        return z3.BoolVal(c)
    return c


def zi(c):
    if isinstance(c, bool):
        return z3.IntVal(int(c))
    if isinstance(c, int):
        return z3.IntVal(c)
    return c


class Registry:
    """function name -> axiom generator(app) -> list of z3 Bool"""

    def __init__(self):
        self.ax = {}
        self.pair = {}
        self.counter = itertools.count()
        self.ps_table = []
        self.appcache = {}
        self.constcache = {}
        self.axcache = {}
        self.boundcache = {}
        self.sizecache = {}
        self.maskcache = {}

    def fresh_name(self, base):
        return f"{base}!{next(self.counter)}"

    def func(self, name, *sorts):
        return z3.Function(name, *sorts)

    def on(self, name, gen):
        self.ax[name] = gen

    def on_pair(self, name, gen):
        self.pair[name] = gen


REG = Registry()


def reset_registry():
    keep = {k: v for k, v in REG.ax.items() if k in _STATIC}
    REG.ax = keep
    REG.pair = dict(_PAIRS)
    REG.ps_table = []
    REG.appcache = {}
    REG.constcache = {}
    REG.axcache = {}
    REG.boundcache = {}
    REG.sizecache = {}
    REG.maskcache = {}
    _MASKS.clear()


# ---- texts -----------------------------------------------------------------
enclen = z3.Function("enclen", Str, I, I)  # length of text in encoding #
strlen = z3.Function("strlen", Str, I)  # number of characters
ENCODINGS = ["cp1252", "utf-8", "macroman", "ascii"]


def enc_id(name):
    n = name.lower().replace("_", "-")
    alias = {"utf8": "utf-8", "windows-1252": "cp1252", "mac-roman": "macroman"}
    n = alias.get(n, n)
    if n not in ENCODINGS:
        ENCODINGS.append(n)
    return ENCODINGS.index(n)


def _ax_enclen(app):
    s = app.arg(0)
    return [app >= 0, app <= 2**31 - 1, (app == 0) == (s == EMPTY)]


REG.on("enclen", _ax_enclen)
REG.on("strlen", lambda a: [a >= 0, (a == 0) == (a.arg(0) == EMPTY)])

CHR = z3.Function("chr", I, Str)  # text of one character
MACROMAN = z3.Function("mac_roman", I, I)  # character of a byte
LIT = z3.Function("lit", I, Str)  # text constants
LITS = [""]


def lit(s):
    if s == "":
        return EMPTY
    if s not in LITS:
        LITS.append(s)
    return LIT(z3.IntVal(LITS.index(s)))


def _ax_lit(a):
    i = a.arg(0)
    if not z3.is_int_value(i):
        return []
    s = LITS[i.as_long()]
    r = [a != EMPTY, strlen(a) == len(s)]
    for e, n in enumerate(ENCODINGS):
        try:
            r.append(enclen(a, e) == len(s.encode(n)))
        except (UnicodeError, LookupError):
            pass
    return r


def _ax_lit_pair(a, b):
    if z3.is_int_value(a.arg(0)) and z3.is_int_value(b.arg(0)) and not a.eq(b):
        return a != b
    return None


REG.on("lit", _ax_lit)

# ---- doubles ---------------------------------------------------------------
# Model of IEEE double arithmetic: the exact real value plus an error bound.
FDIV = z3.Function("fdiv", I, I, Flt)  # int / int
FMULI = z3.Function("fmuli", Flt, I, Flt)  # float * int
FDIVI = z3.Function("fdivi", Flt, I, Flt)  # float / int
FSLOPE = z3.Function("fslope", I, I, Flt)  # degrees(atan2(k, d))
FTANDEG = z3.Function("ftandeg", Flt, Flt)  # tan(radians(x))
FRAD = z3.Function("fradians", Flt, Flt)
FTAN = z3.Function("ftan", Flt, Flt)
FATAN2 = z3.Function("fatan2", I, I, Flt)
FDEG = z3.Function("fdegrees", Flt, Flt)
FCONST = {}  # python float -> const
RND = z3.Function("fround", Flt, I)
TRUNC = z3.Function("ftrunc", Flt, I)
FIX = z3.Function("float_of_int", I, Flt)


def _ax_ceil(a):
    x, y = a.arg(0), a.arg(1)
    return [z3.Implies(z3.And(y > 0, x > 0), z3.And(a >= 1, (a - 1) * y < x, x <= a * y)),
            z3.Implies(z3.And(y > 0, x <= 0), a <= 0), z3.Implies(z3.And(y > 0, x >= 0), a >= 0)]


CEIL = z3.Function("ceildiv", I, I, I)  # x / y rounded up, y > 0
REG.on("ceildiv", _ax_ceil)


def fconst(x):
    key = repr(float(x))
    if key not in FCONST:
        FCONST[key] = (z3.Const("fc_" + key, Flt), float(x))
    return FCONST[key][0]


EPS = z3.Q(1, 2**52)


def fexact(t):
    """(exact real term, absolute error term, list of guards) or None"""
    d = t.decl().name()
    if d == "fdiv":
        a, b = t.arg(0), t.arg(1)
        if not z3.is_int_value(b) or b.as_long() == 0:
            return None
        ex = z3.ToReal(a) / z3.ToReal(b)
        bl = abs(b.as_long())
        return ex, z3.Q(2**33, bl * 2**52), [a <= 2**33, a >= -(2**33)], z3.Q(2**33, bl)
    if d == "fmuli":
        f = fexact(t.arg(0))
        k = t.arg(1)
        if f is None or not z3.is_int_value(k):
            return None
        ex, err, g, mag = f
        kk = abs(k.as_long())
        nm = z3.simplify(mag * kk)
        return ex * z3.ToReal(k), z3.simplify(err * kk * 2 + nm * EPS), g, nm
    if d == "ftan":
        # trusted lemma: tan(radians(degrees(atan2(k, d)))) == k/d up to an
        # absolute error of 1e-9 for |k/d| <= 10**4
        x = t.arg(0)
        if x.decl().name() == "fradians":
            x = x.arg(0)
            if x.decl().name() == "fdegrees":
                x = x.arg(0)
                if x.decl().name() == "fatan2":
                    k, dd = x.arg(0), x.arg(1)
                    if z3.is_int_value(dd) and dd.as_long() > 0:
                        lim = 10**4 * dd.as_long()
                        return (
                            z3.ToReal(k) / z3.ToReal(dd),
                            z3.Q(1, 10**6),
                            [k <= lim, k >= -lim],
                            z3.Q(10**4, 1),
                        )
        return None
    if d == "fmul":
        # a power of two times a number: exact
        for c, x in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            v = next((v for k, v in FCONST.values() if k.eq(c)), None)
            f = fexact(x) if v in (0.5, 0.25, 0.125) else None
            if f is not None:
                ex, err, g, mag = f
                return ex * z3.Q(1, int(1 / v)), err, g, mag
        return None
    if d == "float_of_int":
        a = t.arg(0)
        return z3.ToReal(a), z3.Q(0, 1), [a <= 2**53, a >= -(2**53)], z3.Q(2**53, 1)
    return None


def _ax_round(app, width):
    f = fexact(app.arg(0))
    if f is None:
        return []
    ex, err, g, _ = f
    bound = z3.simplify(err + z3.Q(width, 2))
    a = z3.ToReal(app)
    if width == 1:
        body = z3.And(a - ex <= bound, ex - a <= bound)
    else:  # truncation towards zero
        body = z3.And(a - ex < bound, ex - a < bound)
    return [z3.Implies(z3.And(*g), body)]


REG.on("fround", lambda a: _ax_round(a, 1))
REG.on("ftrunc", lambda a: _ax_round(a, 2))

# exact binary fractions survive: int/1 etc. are not needed

# ---- bytes -----------------------------------------------------------------
bytlen = z3.Function("bytlen", Byt, I)
REG.on("bytlen", lambda a: [a >= 0, a <= 2**31 - 1])

POW2 = z3.Function("pow2", I, I)


def _ax_pow2(a):
    x = a.arg(0)
    if z3.is_int_value(x):
        return [a == 2 ** x.as_long()] if 0 <= x.as_long() < 2000 else []
    return [z3.Implies(x >= 0, a >= 1)]


def ax_pow2_pair(a, b):
    x, y = a.arg(0), b.arg(0)
    return z3.And(z3.Implies(z3.And(x >= 0, y == x + 1), b == 2 * a),
                  z3.Implies(z3.And(y >= 0, x == y + 1), a == 2 * b))


REG.on("pow2", _ax_pow2)
REG.on("chr", lambda a: [a != EMPTY, strlen(a) == 1])
REG.on("mac_roman", lambda a: [a >= 0, a < 2**16])
REG.on("hexof", lambda a: [(a == EMPTY) == (bytlen(a.arg(0)) == 0)])
_STATIC = set(REG.ax)
_PAIRS = {"lit": _ax_lit_pair, "pow2": ax_pow2_pair}
REG.pair.update(_PAIRS)


def fold(t, cache, leaf):
    """frozenset of the ids of the subterms for which leaf(x) holds, memoized per subterm"""
    hit = cache.get(t.get_id())
    if hit is not None:
        return hit[1]
    stack = [(t, None)]
    while stack:
        x, ch = stack.pop()
        i = x.get_id()
        if ch is None:
            if i in cache:
                continue
            ch = x.children()
            stack.append((x, ch))
            for c in ch:
                if c.get_id() not in cache:
                    stack.append((c, None))
        elif i not in cache:
            sets = {cache[c.get_id()][1] for c in ch}
            u = (_EMPTY if not sets else next(iter(sets)) if len(sets) == 1
                 else _EMPTY.union(*sets))
            if leaf(x):
                u = u | {i}
            cache[i] = (x, u)
    return cache[t.get_id()][1]


_EMPTY = frozenset()


def _registered(x):
    if z3.is_app(x):
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            return n in REG.ax or n in REG.pair
    return False


def collect_apps(t, out):
    """collect applications of registered uninterpreted functions"""
    cache = REG.appcache
    for i in fold(t, cache, _registered):
        out[i] = cache[i][0]


def bound_vars(t):
    """the variables of enclosing quantifiers in t: {index: sort}"""
    hit = REG.boundcache.get(t.get_id())
    if hit is not None:
        return hit[1]
    out, seen, stack = {}, set(), [(t, 0)]
    while stack:
        x, depth = stack.pop()
        if (x.get_id(), depth) in seen:
            continue
        seen.add((x.get_id(), depth))
        if z3.is_var(x):
            i = z3.get_var_index(x)
            if i >= depth:
                out[i - depth] = x.sort()
        elif z3.is_quantifier(x):
            stack.append((x.body(), depth + x.num_vars()))
        else:
            stack.extend((c, depth) for c in x.children())
    REG.boundcache[t.get_id()] = (t, out)
    return out


def general(a, bound, gen):
    """the axioms of an application to variables, for all their values"""
    if not gen:
        return []
    consts = [z3.Const(f"bound {i}", bound.get(i, I)) for i in range(max(bound) + 1)]
    b = z3.substitute_vars(a, *consts)
    used = [consts[i] for i in bound]
    out = []
    for ax in gen(b):
        if ax is not None and z3.is_expr(ax) and not z3.is_true(ax):
            out.append(z3.ForAll(used, ax, patterns=[b]))
    return out


def axioms_for(fmls, depth=2):
    done = {}
    res = []
    frontier = list(fmls)
    for _ in range(depth):
        apps = {}
        for f in frontier:
            collect_apps(f, apps)
        new = []
        for i, a in apps.items():
            if i in done:
                continue
            done[i] = a
            hit = REG.axcache.get(i)
            if hit is None:
                gen = REG.ax.get(a.decl().name())
                bound = bound_vars(a)
                if bound:
                    hit = (a, general(a, bound, gen))
                else:
                    hit = (a, [ax for ax in gen(a) if ax is not None] if gen else [])
                REG.axcache[i] = hit
            new.extend(hit[1])
        if not new:
            break
        res.extend(new)
        frontier = new
    # pairwise axioms
    if REG.pair:
        by = {}
        for a in done.values():
            if a.decl().name() in REG.pair and not bound_vars(a):
                by.setdefault(a.decl().name(), []).append(a)
        for name, lst in by.items():
            gen = REG.pair[name]
            for a, b in itertools.combinations(lst, 2):
                r = gen(a, b)
                if r is not None:
                    res.append(r)
    return res


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


STATS = Stats()
TIMEOUT_MS = 8000


def check(fmls, timeout=None):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    if any(f is False for f in fmls):
        return "unsat", None
    fmls = [f for f in fmls if f is not True]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    s.set("random_seed", 1)
    ctx, sol = s.ctx.ref(), s.solver
    for f in fmls:
        z3.Z3_solver_assert(ctx, sol, f.as_ast())
    for f in axioms_for(fmls):
        z3.Z3_solver_assert(ctx, sol, zb(f).as_ast())
    for f in mask_bounds(fmls):
        z3.Z3_solver_assert(ctx, sol, zb(f).as_ast())
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    STATS.unknown += 1
    return "unknown", None


def subst(t, pairs):
    if not is_sym(t):
        return t
    return simp(z3.substitute(t, *[(a, zi(b)) for a, b in pairs]))


def _const(x):
    return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


def consts_of(t):
    """ids of the uninterpreted constants in t"""
    return fold(t, REG.constcache, _const)


def occurs(t, consts_ids):
    """does expression t contain any constant whose id is in consts_ids"""
    if not is_sym(t):
        return False
    return not consts_of(t).isdisjoint(consts_ids)


def int_subterms(t):
    out = {}
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in out:
            continue
        out[i] = x
        stack.extend(x.children())
    return [x for x in out.values() if z3.is_int(x)]


def bits_of(t):
    """{bit: condition} of a number that is a sum of conditional bit masks, or None"""
    if not is_sym(t):
        if t < 0 or t.bit_length() > 300:
            return None
        return {b: True for b in range(t.bit_length()) if t >> b & 1}
    hit = _BITS.get(t.get_id())
    if hit is not None:
        return hit[1]
    r = _bits(t)
    _BITS[t.get_id()] = (t, r)
    return r


_BITS = {}


def _bits(t):
    args = t.children() if z3.is_add(t) else [t]
    out = {}
    any_if = False
    for a in args:
        k = 1
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
            k, a = a.arg(0).as_long(), a.arg(1)
        if z3.is_int_value(a):
            alts = [(True, a.as_long() * k)]
        elif z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and \
                z3.is_int_value(a.arg(2)):
            any_if = True
            x, y = a.arg(1).as_long() * k, a.arg(2).as_long() * k
            c = a.arg(0)
            if y == 0:
                alts = [(c, x)]
            elif x == 0:
                alts = [(simp(z3.Not(c)), y)]
            else:
                return None
        else:
            return None
        for c, m in alts:
            if m < 0 or m.bit_length() > 300:
                return None
            for b in range(m.bit_length()):
                if m >> b & 1:
                    if b in out:
                        return None
                    out[b] = c
    return out if any_if else None


def of_bits(d):
    """the number with these bits"""
    const = sum(2**b for b, c in d.items() if c is True)
    parts = [z3.If(zb(c), z3.IntVal(2**b), z3.IntVal(0)) for b, c in sorted(d.items())
             if c is not True]
    if not parts:
        return const
    return simp(z3.Sum(parts) + const) if len(parts) > 1 or const else simp(parts[0])


_MASKS = {}


def _mask(x):
    return z3.is_add(x) and x.num_args() >= 6


def mask_bounds(fmls):
    """bounds of sums of many conditional bit masks (helps the solver)"""
    out = []
    done = set()
    for f in fmls:
        for i in fold(f, REG.maskcache, _mask):
            if i in done:
                continue
            done.add(i)
            hit = _MASKS.get(i)
            if hit is None:
                x = REG.maskcache[i][0]
                b = bits_of(x)
                c = None if b is None else z3.And(x >= 0, x <= sum(2**j for j in b))
                hit = _MASKS[i] = (x, c)
            if hit[1] is not None:
                out.append(hit[1])
    return out


def split_eq(c, depth=5):
    """equality of bit masks -> [(assumption, goal)], or None"""
    if not (z3.is_eq(c) and z3.is_int(c.arg(0))):
        return None
    a, b = c.arg(0), c.arg(1)

    def big(t):
        n = 0
        stack = [t]
        while stack and n < 60:
            x = stack.pop()
            n += 1
            if z3.is_add(x) and x.num_args() >= 6:
                return True
            stack.extend(x.children())
        return False

    if not (big(a) or big(b)):
        return None
    x, y = bits_of(a), bits_of(b)
    if x is not None and y is not None:
        out = []
        for j in sorted(set(x) | set(y)):
            p, q = zb(x.get(j, False)), zb(y.get(j, False))
            if not p.eq(q):
                out.append(p == q)
        return [(z3.BoolVal(True), z3.And(out) if out else z3.BoolVal(True))]
    if depth == 0:
        return None
    for t, o in ((a, b), (b, a)):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            res = []
            for cond, br in ((t.arg(0), t.arg(1)), (z3.Not(t.arg(0)), t.arg(2))):
                g = simp(br == o)
                if g is True:
                    continue
                s = split_eq(g, depth - 1) if is_sym(g) else None
                if s is None:
                    res.append((cond, zb(g)))
                else:
                    res.extend((z3.And(cond, p), q) for p, q in s)
            return res
    return None
