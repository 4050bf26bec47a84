"""PyVC: a deductive verifier for the Python code in /repo/src.

The functions are taken from the imported modules; their bodies are read from the same
source files (ast) and executed symbolically, path by path, over *all* inputs of the
contract's domain.  Loops over inputs of unknown length are not unrolled: the body is
executed once for an arbitrary iteration, an invariant (closed form of every changed
variable, the part appended to every list / written to every stream, the part of the
input that one iteration consumes) is inferred and its initiation and preservation are
proved.  What cannot be treated raises Unsupported, which is never a verdict about the
code.
"""
import ast
import enum
import inspect
import types
import typing

import z3

from .terms import (
    I, REG, Str, check, is_int, is_sym,
    lit, occurs, simp, split_eq, zb, zi,
)
from .values import (
    BARRIER, Alt, FBytes, FDict, FList, FObj, HCell, HDict, HInst, HList, HSet, HStream,
    FmtStr, Mrg, Poison, PyExc, Ref, SFl, SStr, Unsupported, applied, containers, thawed,
    vmap_terms, vsubst,
)
from .expr import ExprMixin
from .invariants import inv_rule, inv_while
from .tokens import TokenMixin, index_consts

MAXWHILE = 200
MAXPATHS = 3000


# ------------------------------------------------------------------ control flow
class Raise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


def free_names(t):
    """names of the constants and functions of a term"""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


class Infeasible(Exception):
    pass


class NeedAlign(Exception):
    """a loop body reads from a stream that starts with a repetition"""

    def __init__(self, sid, level):
        self.sid, self.level = sid, level


class NeedRows(Exception):
    """a loop changes the elements of a list, each iteration its own one"""

    def __init__(self, lid, index):
        self.lid, self.index = lid, index


class Trace:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.alts = []


class Frame:
    __slots__ = ("locals", "fn", "globals", "node", "closure", "name", "cls")

    def __init__(self, name, glob, closure=None, cls=None):
        self.locals = {}
        self.globals = glob
        self.closure = closure
        self.name = name
        self.cls = cls


class Closure:
    """function defined or lambda written inside interpreted code"""

    def __init__(self, node, frame, defaults=()):
        self.node, self.frame, self.defaults = node, frame, defaults


class BoundMethod:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class BoundNative:
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperObj:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Iter:
    """an iterator object in the heap is HCell(seq)"""


_SRC = {}


def fn_node(fn):
    code = fn.__code__
    key = code.co_filename
    if key not in _SRC:
        with open(key) as f:
            tree = ast.parse(f.read())
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = n.decorator_list[0].lineno
                nm = n.name if isinstance(n, ast.FunctionDef) else "<lambda>"
                idx.setdefault((ln, nm), n)
        _SRC[key] = idx
    node = _SRC[key].get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f"no source for {fn}")
    return node


def synt_eq(a, b):
    """syntactic identity of two values"""
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        return is_sym(a) and is_sym(b) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(synt_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (SStr, SFl)):
        return a.t.eq(b.t)
    if isinstance(a, FBytes):
        return synt_eq(a.toks, b.toks)
    if isinstance(a, FList):
        return synt_eq(a.seq, b.seq)
    if isinstance(a, FDict):
        return synt_eq(a.ents, b.ents)
    if isinstance(a, FObj):
        return a.cls is b.cls and synt_eq(a.attrs, b.attrs)
    if isinstance(a, Alt):
        return synt_eq(a.tag, b.tag) and synt_eq(a.options, b.options)
    if isinstance(a, Mrg):
        return synt_eq(a.opts, b.opts)
    if isinstance(a, PyExc):
        return a.type is b.type
    if isinstance(a, FmtStr):
        return synt_eq(a.parts, b.parts)
    if isinstance(a, (BoundMethod,)):
        return a.fn is b.fn and synt_eq(a.self_, b.self_)
    if isinstance(a, BoundNative):
        return a.name == b.name and synt_eq(a.recv, b.recv)
    if isinstance(a, float):
        return repr(a) == repr(b)
    try:
        return bool(a == b)
    except Exception:
        return False


def payload_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, HList):
        return synt_eq(a.seq, b.seq)
    if isinstance(a, HDict):
        return synt_eq(a.ents, b.ents)
    if isinstance(a, HSet):
        return synt_eq(a.elts, b.elts)
    if isinstance(a, HStream):
        return synt_eq(a.data, b.data) and synt_eq(a.rest, b.rest)
    if isinstance(a, HCell):
        return synt_eq(a.seq, b.seq)
    if isinstance(a, HInst):
        return a.cls is b.cls and set(a.attrs) == set(b.attrs) and all(
            synt_eq(a.attrs[k], b.attrs[k]) for k in a.attrs)
    return False


def const_bounds(t):
    """(lo, hi) of a term made of If, constants and sums of them"""
    if z3.is_int_value(t):
        return t.as_long(), t.as_long()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = const_bounds(t.arg(1)), const_bounds(t.arg(2))
        return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
    if z3.is_add(t):
        bs = [const_bounds(x) for x in t.children()]
        return (sum(b[0] for b in bs), sum(b[1] for b in bs)) if all(bs) else None
    return None


def intish(v):
    return is_int(v) or isinstance(v, bool) or isinstance(v, z3.BoolRef)


def mrg(opts):
    """merge (cond, value) options; flattens and simplifies"""
    out = []
    for c, v in opts:
        c = simp(zb(c))
        if c is False:
            continue
        out.append((c, v))
    if not out:
        raise Unsupported("empty merge")
    first = out[0][1]
    if all(synt_eq(first, v) for _, v in out[1:]):
        return first
    if all(is_int(v) for _, v in out):
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            d = simp(zi(v) - zi(r))
            if not is_sym(d):
                # base + (c ? d : 0) keeps sums flat
                r = simp(zi(r) + z3.If(zb(c), z3.IntVal(d), z3.IntVal(0)))
                continue
            r = z3.If(zb(c), zi(v), zi(r))
        return simp(r) if is_sym(r) else r
    if all(isinstance(v, (bool, z3.BoolRef)) for _, v in out):
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            r = z3.If(zb(c), zb(v), zb(r))
        return simp(r)
    if all(isinstance(v, (str, SStr)) for _, v in out) and any(
            isinstance(v, SStr) for _, v in out):
        r = None
        for c, v in reversed(out):
            t = v.t if isinstance(v, SStr) else lit(v)
            r = t if r is None else z3.If(zb(c), t, r)
        return SStr(r)
    if all(isinstance(v, tuple) for _, v in out) and len({len(v) for _, v in out}) == 1:
        return tuple(mrg([(c, v[j]) for c, v in out]) for j in range(len(first)))
    flat = []
    for c, v in out:
        if isinstance(v, Mrg):
            for c2, v2 in v.opts:
                flat.append((simp(z3.And(zb(c), zb(c2))), v2))
        else:
            flat.append((c, v))
    return Mrg(flat)


class Engine(ExprMixin, TokenMixin):
    def __init__(self, natives=None, repo_prefixes=()):
        from . import natives as nat

        self.heap = {}
        self.nextid = 1
        self.pc = []
        self.trace = Trace()
        self.nat = nat
        self.prefixes = tuple(repo_prefixes)
        self.obls = []  # (name, status, model)
        self.loops = []  # active loop iterations: {sid: rest object at iteration start}
        self.functions = {}  # function -> times executed
        self.contracts = {}  # host function -> handler(engine, args, kwargs)
        self.assumptions = set()
        self.approx = False
        self.sizes = {}  # name of a length function -> (parameters, tokens, function)
        self.frames = []  # of the functions that are running
        self.byte_src = {}  # id of a byte term -> (term, number, width, position)
        self.class_writes = set()  # names of attributes assigned to classes
        self.total = {}  # id of an input stream -> all its tokens
        self.hostattr = {}
        self.invariants = []  # supplied by the proof
        self.permutations = []  # sequences that have been sorted
        self.proved_invariants = {}
        self.depth_explore = 0
        self.depth = 0
        self.paths = 0
        self.where = None
        self.steps = 0
        self.maxsteps = 400000
        self.shared = False  # an object of a loop iteration is kept in two places
        self.subject = None  # the symbolic input, for counterexamples

    # ------------------------------------------------------------------ heap
    def alloc(self, payload):
        i = self.nextid
        self.nextid += 1
        self.heap[i] = payload
        return Ref(i)

    def get(self, ref):
        return self.heap[ref.id]

    try_depth = 0
    no_raise = False

    def snapshot(self):
        return {i: p.copy() for i, p in self.heap.items()}

    # ------------------------------------------------------------------ path condition
    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise Infeasible
        self.pc.append(c)

    def feasible(self, c):
        c = simp(c)
        if c is True or c is False:
            return c
        r, _ = check(self.pc + [c], timeout=4000)
        return r != "unsat"

    def valid(self, c):
        """is c implied by the path condition?"""
        c = simp(c)
        if c is True or c is False:
            return c
        r, _ = check(self.pc + [z3.Not(c)])
        return r == "unsat"

    def choose(self, conds):
        t = self.trace
        if t.pos < len(t.prefix):
            i = t.prefix[t.pos]
            t.pos += 1
            t.taken.append(i)
            self.assume(zb(conds[i]))
            return i
        conds = [simp(zb(c)) if not isinstance(c, bool) else c for c in conds]
        known = {c.get_id() for c in self.pc if is_sym(c)}
        hit = [i for i, c in enumerate(conds)
               if c is True or (is_sym(c) and c.get_id() in known)]
        if hit:
            feas = hit[:1]
            conds[feas[0]] = True
        else:
            feas = []
            for i, c in enumerate(conds):
                if c is False:
                    continue
                if self.feasible(c):
                    feas.append(i)
        if not feas:
            raise Infeasible
        for j in feas[1:]:
            t.alts.append(t.taken + [j])
        i = feas[0]
        t.taken.append(i)
        t.pos += 1
        t.prefix.append(i)
        if len(feas) > 1 or conds[i] is not True:
            self.assume(conds[i])
        return i

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        return self.choose([c, z3.Not(c)]) == 0

    def prove(self, name, c, info=None):
        """record one proof obligation"""
        c = simp(c) if not isinstance(c, bool) else c
        if c is True:
            self.obls.append((name, "discharged", None))
            return True
        parts = split_eq(zb(c))
        if parts is not None:
            r, m = "unsat", None
            for a, g in parts:
                r, m = check(self.pc + [a, z3.Not(g)], timeout=20000)
                if r != "unsat":
                    break
        else:
            r, m = check(self.pc + [z3.Not(zb(c))], timeout=20000)
        st = {"unsat": "discharged", "sat": "refuted", "unknown": "unknown"}[r]
        self.obls.append((name, st, (m, list(self.pc), info), zb(c)))
        return r == "unsat"

    def require(self, ok, exc, *args):
        """raise exc unless ok; a path that nobody wants to catch becomes an obligation"""
        from .expr import raise_

        if isinstance(ok, bool) or self.try_depth or not self.no_raise:
            if not self.branch(ok):
                raise_(exc, *args)
            return
        self.prove(f"no {exc.__name__} in {self.where[0]}", ok)

    def reprove(self, start, consts, sub):
        """obligations met inside a loop body, now that the loop's invariants are known"""
        heads = {c.get_id() for c, *_ in consts.values()}
        for j in range(start, len(self.obls)):
            o = self.obls[j]
            if o[1] == "discharged":
                continue
            m, pc, info = o[2]
            if not any(occurs(zb(x), heads) for x in list(pc) + [o[3]]):
                continue
            pc = [z3.substitute(zb(x), *sub) if sub else x for x in pc]
            goal = z3.substitute(o[3], *sub) if sub else o[3]
            if any(occurs(zb(x), heads) for x in pc + [goal]):
                self.obls[j] = (o[0], "unknown", (None, pc, info), goal)
                continue
            r, m = check(pc + [z3.Not(goal)], timeout=20000)
            st = {"unsat": "discharged", "sat": "refuted", "unknown": "unknown"}[r]
            self.obls[j] = (o[0], st, None if r == "unsat" else (m, pc, info), goal)

    def explore(self, thunk, frame=None, maxpaths=MAXPATHS):
        """run thunk once for every feasible decision sequence from the current state.
        -> list of (path condition added, outcome, heap, locals, obligations)"""
        base_heap = self.heap
        base_pc = self.pc
        base_locals = frame.locals if frame is not None else None
        outer = self.trace
        base_loops = [dict(d) for d in self.loops]
        res = []
        work = [[]]
        self.depth_explore += 1
        try:
            while work:
                if len(res) > maxpaths:
                    raise Unsupported("too many paths")
                prefix = work.pop()
                self.heap = {i: p.copy() for i, p in base_heap.items()}
                self.pc = list(base_pc)
                if frame is not None:
                    frame.locals = dict(base_locals)
                self.loops = [dict(d) for d in base_loops]
                self.trace = Trace(prefix)
                self.paths += 1
                feasible = True
                try:
                    out = ("normal", thunk())
                except Raise as e:
                    out = ("raise", e.exc)
                except ReturnX as e:
                    out = ("return", e.value)
                except BreakX:
                    out = ("break", None)
                except ContinueX:
                    out = ("continue", None)
                except Infeasible:
                    feasible = False
                work.extend(self.trace.alts)
                if feasible:
                    res.append((self.pc[len(base_pc):], out, self.heap,
                                frame.locals if frame is not None else None))
        finally:
            self.depth_explore -= 1
            self.heap = base_heap
            self.pc = base_pc
            self.trace = outer
            self.loops = base_loops
            if frame is not None:
                frame.locals = base_locals
        return res

    # ------------------------------------------------------------------ merging
    def merge_paths(self, thunk, frame):
        """execute thunk on all its paths and join the ones that end normally"""
        res = self.explore(thunk, frame)
        self.join(res, frame)

    def join(self, res, frame):
        normal = [r for r in res if r[1][0] == "normal"]
        other = [r for r in res if r[1][0] != "normal"]
        if len(res) == 1:
            self._adopt(res[0], frame)
            return
        if not res:
            raise Infeasible
        groups = []
        if normal:
            groups.append(("n", z3.Or([z3.And([zb(c) for c in r[0]] or [z3.BoolVal(True)])
                                       for r in normal])))
        for r in other:
            groups.append((r, z3.And([zb(c) for c in r[0]] or [z3.BoolVal(True)])))
        if len(groups) > 1:
            i = self.choose([g[1] for g in groups])
        else:
            i = 0
        g = groups[i]
        if g[0] != "n":
            self._adopt(g[0], frame)
            return
        try:
            self._merge_normal(normal, frame)
        except Unsupported:
            # cannot be joined: keep the paths apart
            j = self.choose([z3.And([zb(c) for c in r[0]] or [z3.BoolVal(True)])
                             for r in normal])
            self._adopt(normal[j], frame)

    def _adopt(self, r, frame):
        pcs, out, heap, loc = r
        self.heap = heap
        if frame is not None:
            frame.locals = loc
        for c in pcs:
            if not any(c is x or (is_sym(x) and is_sym(c) and x.eq(c)) for x in self.pc):
                self.pc.append(c)
        k, v = out
        if k == "raise":
            raise Raise(v)
        if k == "return":
            raise ReturnX(v)
        if k == "break":
            raise BreakX
        if k == "continue":
            raise ContinueX

    def _merge_normal(self, paths, frame):
        conds = [simp(z3.And([zb(c) for c in p[0]] or [z3.BoolVal(True)])) for p in paths]
        heap, loc = self.merge_states(
            conds, [p[2] for p in paths], [p[3] for p in paths], self.heap,
            frame.locals if frame is not None else {})
        self.heap = heap
        if frame is not None:
            frame.locals = loc

    def merge_states(self, conds, heaps, locs, base_heap, base_loc):
        if len(conds) == 1:
            return heaps[0], (locs[0] if locs[0] is not None else {})
        loc = {}
        if locs[0] is not None:
            names = {}
            for l in locs:
                for k in l:
                    names[k] = 1
            for k in names:
                vals = [l.get(k, Poison("unbound")) for l in locs]
                if all(synt_eq(vals[0], v) for v in vals[1:]):
                    loc[k] = vals[0]
                else:
                    loc[k] = mrg(list(zip(conds, vals)))
        heap = {}
        for h in heaps:
            for i, p in h.items():
                if i not in base_heap:
                    heap[i] = p
        for i, p0 in base_heap.items():
            ps = [h[i] for h in heaps]
            if all(payload_eq(ps[0], p) for p in ps[1:]):
                heap[i] = ps[0]
            else:
                heap[i] = self.merge_payload(conds, ps, p0)
        return heap, loc

    def merge_suffix(self, conds, seqs, base):
        n = len(base)
        for s in seqs:
            if len(s) < n or not synt_eq(tuple(s[:n]), tuple(base)):
                return None
        sufs = [tuple(s[n:]) for s in seqs]
        if all(synt_eq(sufs[0], s) for s in sufs[1:]):
            return tuple(base) + sufs[0]
        # common prefix
        pre = 0
        while all(len(s) > pre for s in sufs) and all(
                synt_eq(sufs[0][pre], s[pre]) for s in sufs[1:]):
            pre += 1
        head = sufs[0][:pre]
        sufs = [s[pre:] for s in sufs]
        post = 0
        while all(len(s) > post for s in sufs) and all(
                synt_eq(sufs[0][-1 - post], s[-1 - post]) for s in sufs[1:]):
            post += 1
        tail = sufs[0][len(sufs[0]) - post:]
        sufs = [s[: len(s) - post] for s in sufs]
        alts = []
        for c, s in zip(conds, sufs):
            for j, (c2, s2) in enumerate(alts):
                if synt_eq(s2, s):
                    alts[j] = (simp(z3.Or(zb(c2), zb(c))), s2)
                    break
            else:
                alts.append((c, s))
        return tuple(base) + head + (("c", tuple(alts)),) + tail

    def merge_payload(self, conds, ps, p0):
        if isinstance(p0, HList):
            s = self.merge_suffix(conds, [p.seq for p in ps], p0.seq)
            if s is not None:
                return HList(s)
            if all(all(x[0] == "e" for x in p.seq) for p in ps) and len(
                    {len(p.seq) for p in ps}) == 1:
                return HList(tuple(("e", mrg([(c, p.seq[j][1]) for c, p in zip(conds, ps)]))
                                   for j in range(len(ps[0].seq))))
            raise Unsupported("lists changed differently on different paths")
        if isinstance(p0, HDict):
            s = self.merge_suffix(conds, [p.ents for p in ps], p0.ents)
            if s is not None:
                return HDict(s)
            if len({len(p.ents) for p in ps}) == 1 and all(
                    all(x[0] == "e" for x in p.ents) for p in ps) and all(
                        synt_eq(ps[0].ents[j][1], p.ents[j][1])
                        for p in ps for j in range(len(p.ents))):
                return HDict(tuple(
                    ("e", ps[0].ents[j][1], mrg([(c, p.ents[j][2]) for c, p in zip(conds, ps)]))
                    for j in range(len(ps[0].ents))))
            raise Unsupported("dicts changed differently on different paths")
        if isinstance(p0, HInst):
            r = HInst(p0.cls)
            names = {}
            for p in ps:
                for k in p.attrs:
                    names[k] = 1
            for k in names:
                vals = [p.attrs.get(k, Poison("no attribute")) for p in ps]
                r.attrs[k] = vals[0] if all(synt_eq(vals[0], v) for v in vals[1:]) else mrg(
                    list(zip(conds, vals)))
            return r
        if isinstance(p0, HStream):
            data = self.merge_suffix(conds, [p.data for p in ps], p0.data)
            if data is None:
                raise Unsupported("streams rewritten")
            rests = [p.rest for p in ps]
            if all(synt_eq(rests[0], r) for r in rests[1:]):
                rest = rests[0]
            else:
                post = 0
                while all(len(r) > post for r in rests) and all(
                        synt_eq(rests[0][-1 - post], r[-1 - post]) for r in rests[1:]):
                    post += 1
                tail = rests[0][len(rests[0]) - post:]
                heads = []
                for c, r in zip(conds, rests):
                    h = r[: len(r) - post]
                    if any(x is BARRIER or x[0] in ("mark", "barrier") for x in h):
                        raise Unsupported("barrier in merged stream")
                    self.pc.append(zb(c))
                    try:
                        heads.append(self.drop_empty(h))
                    finally:
                        self.pc.pop()
                if all(not h for h in heads):
                    rest = tail
                else:
                    rest = (("c", tuple(zip(conds, heads))),) + tail
            s = HStream(data, rest)
            return s
        if isinstance(p0, HSet):
            if all(x[0] in ("e", "o") and not is_sym(x[-1]) for p in ps for x in p.elts):
                # sets of constants
                pres = {}
                for c, p in zip(conds, ps):
                    for x in p.elts:
                        pres.setdefault(x[-1], []).append(
                            z3.And(zb(c), zb(x[1] if x[0] == "o" else True)))
                n = len(ps)
                out = []
                for v, cs in pres.items():
                    cond = True if len(cs) == n and all(
                        any(x == ("e", v) for x in p.elts) for p in ps) else simp(z3.Or(cs))
                    out.append(("e", v) if cond is True else ("o", cond, v))
                return HSet(out)
            if all(synt_eq(ps[0].elts, p.elts) for p in ps[1:]):
                return HSet(ps[0].elts)
        raise Unsupported(f"cannot merge {type(p0).__name__}")

    # ------------------------------------------------------------------ calls
    def interpretable(self, fn):
        f = getattr(fn, "__code__", None)
        return f is not None and f.co_filename.startswith(self.prefixes)

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, (Mrg, Alt)):
            f = self.force(f)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, BoundNative):
            return self.nat.call_method(self, f.recv, f.name, list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Poison):
            raise Unsupported(f"call of {f}")
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.FunctionType) and self.interpretable(f):
            return self.call_function(f, args, kwargs)
        if isinstance(f, type) and not self.nat.has(f):
            return self.instantiate(f, args, kwargs)
        return self.nat.call(self, f, list(args), kwargs)

    def instantiate(self, cls, args, kwargs):
        if typing.is_typeddict(cls):
            d = HDict()
            for a in args:
                d.ents = d.ents + tuple(self.dict_entries(a))
            d.ents = d.ents + tuple(("e", k, v) for k, v in kwargs.items())
            return self.alloc(d)
        if issubclass(cls, BaseException):
            return PyExc(cls, tuple(args))
        if issubclass(cls, enum.Enum):
            return self.enum_member(cls, args[0])
        if self.cls_interpretable(cls):
            ref = self.alloc(HInst(cls))
            init = inspect.getattr_static(cls, "__init__", None)
            if isinstance(init, types.FunctionType):
                self.call(init, [ref] + list(args), kwargs)
            elif args or kwargs:
                raise Unsupported(f"constructor of {cls}")
            return ref
        return self.nat.call(self, cls, list(args), kwargs)

    def cls_interpretable(self, cls):
        m = inspect.getmodule(cls)
        fn = getattr(m, "__file__", None) or ""
        return fn.startswith(self.prefixes)

    def enum_member(self, cls, v):
        v = self.force(v)
        if not is_sym(v):
            try:
                return cls(v)
            except ValueError as e:
                raise Raise(PyExc(ValueError, (str(e),)))
        members = list(cls)
        conds = [v == int(m.value) for m in members]
        i = self.choose(conds + [z3.And([z3.Not(c) for c in conds])])
        if i == len(members):
            raise Raise(PyExc(ValueError, ("enum",)))
        return members[i]

    def call_function(self, fn, args, kwargs):
        node = fn_node(fn)
        name = fn.__qualname__
        mod = fn.__module__
        self.functions[f"{mod}.{name}"] = self.functions.get(f"{mod}.{name}", 0) + 1
        fr = Frame(name, fn.__globals__)
        cl = {}
        if fn.__closure__:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cl[nm] = cell.cell_contents
                except ValueError:
                    pass
        fr.closure = cl
        if "__class__" in cl:
            fr.cls = cl["__class__"]
        self.bind(fr, node.args, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {},
                  name)
        return self.run_body(fr, node)

    def call_closure(self, c, args, kwargs):
        fr = Frame(getattr(c.node, "name", "<lambda>"), c.frame.globals, cls=c.frame.cls)
        fr.closure = c.frame
        self.bind(fr, c.node.args, args, kwargs, c.defaults, {}, fr.name)
        return self.run_body(fr, c.node)

    def run_body(self, fr, node):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                raise Unsupported("generator")
            self.block(node.body, fr)
        except ReturnX as r:
            return r.value
        finally:
            self.depth -= 1
            self.frames.pop()
        return None

    def bind(self, fr, a, args, kwargs, defaults, kwdefaults, name):
        params = [p.arg for p in a.posonlyargs + a.args]
        loc = fr.locals
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                loc[p] = args[i]
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(defaults))
                if j < 0:
                    raise Raise(PyExc(TypeError, (f"missing {p} in {name}",)))
                loc[p] = self.lift(defaults[j])
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            raise Raise(PyExc(TypeError, (f"too many arguments for {name}",)))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = self.lift(kwdefaults[p.arg])
            else:
                raise Raise(PyExc(TypeError, (f"missing {p.arg}",)))
        if a.kwarg:
            loc[a.kwarg.arg] = self.alloc(HDict([("e", k, v) for k, v in kwargs.items()]))
        elif kwargs:
            raise Raise(PyExc(TypeError, (f"unexpected {list(kwargs)} in {name}",)))

    def lift(self, v):
        """host value as program value (host containers are used read-only)"""
        return v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too many steps")
        self.where = (fr.name, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {fr.name}:{s.lineno}")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported("global")

    def s_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            fr.locals[(a.asname or a.name).split(".")[0]] = mod

    def s_ImportFrom(self, s, fr):
        mod = __import__(s.module, fromlist=[a.name for a in s.names])
        for a in s.names:
            fr.locals[a.asname or a.name] = getattr(mod, a.name)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            fr.locals[t.id] = self.augop(s.op, cur, self.ev(s.value, fr))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        a = self.force(a)
        if isinstance(a, Ref) and isinstance(op, ast.Add) and isinstance(self.get(a), HList):
            self.list_extend(a, b)
            return a
        if isinstance(a, Ref) and isinstance(op, ast.BitOr) and isinstance(self.get(a), HSet):
            self.nat.call_method(self, a, "update", [b], {})
            return a
        if isinstance(a, Ref) and isinstance(op, ast.BitOr) and isinstance(self.get(a), HInst) and hasattr(
                self.get(a).cls, "__ior__"):
            return self.call(self.getattr(a, "__ior__"), [b])
        return self.binop(op, a, b)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakX

    def s_Continue(self, s, fr):
        raise ContinueX

    def s_FunctionDef(self, s, fr):
        fr.locals[s.name] = Closure(s, fr, tuple(self.ev(d, fr) for d in s.args.defaults))

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if not self.branch(c):
            raise Raise(PyExc(AssertionError))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.locals.get("%exc")
            raise Raise(cur if cur is not None else PyExc(RuntimeError))
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = PyExc(v)
        raise Raise(v)

    def simple_alternatives(self, s):
        return True

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if not isinstance(c, bool):
            c = simp(c)
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse, fr)
            return

        def run():
            if self.branch(c):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)

        self.merge_paths(run, fr)

    def s_Try(self, s, fr):
        try:
            depth = self.try_depth
            try:
                self.try_depth += 1
                try:
                    self.block(s.body, fr)
                finally:
                    self.try_depth = depth
            except Raise as r:
                exc = r.exc
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, fr)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        ok = isinstance(exc, PyExc) and any(issubclass(exc.type, t) for t in tys)
                    if ok:
                        old = fr.locals.get("%exc")
                        fr.locals["%exc"] = exc
                        if h.name:
                            fr.locals[h.name] = exc
                        self.block(h.body, fr)
                        fr.locals.pop("%exc", None)
                        if old is not None:
                            fr.locals["%exc"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr, i=0):
        """context managers that are stand-ins: they do not suppress exceptions"""
        if i == len(s.items):
            return self.block(s.body, fr)
        item = s.items[i]
        mgr = self.force(self.ev(item.context_expr, fr))
        if not (isinstance(mgr, Ref) and isinstance(self.get(mgr), HInst)
                and hasattr(self.get(mgr).cls, "__enter__")):
            raise Unsupported("with")
        v = self.call(self.getattr(mgr, "__enter__"), [])
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            self.s_With(s, fr, i + 1)
        except (Raise, ReturnX, BreakX, ContinueX):
            self.call(self.getattr(mgr, "__exit__"), [None, None, None])
            raise
        self.call(self.getattr(mgr, "__exit__"), [None, None, None])

    def s_Match(self, s, fr):
        subj = self.force(self.ev(s.subject, fr))

        def run():
            for case in s.cases:
                c = self.pattern(case.pattern, subj, fr)
                if case.guard is not None:
                    g = self.truth(self.ev(case.guard, fr))
                    c = simp(z3.And(zb(c), zb(g)))
                if self.branch(c):
                    self.block(case.body, fr)
                    return

        if is_sym(subj):
            self.merge_paths(run, fr)
        else:
            run()

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(q, v, fr) for q in p.patterns]
            if all(isinstance(c, bool) for c in cs):
                return any(cs)
            return simp(z3.Or([zb(c) for c in cs]))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    fr.locals[p.name] = v
                return True
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def elem(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass

        try:
            self.for_each(it, elem, fr)
        except BreakX:
            return
        self.block(s.orelse, fr)

    def for_each(self, it, elem, fr):
        seq, cell = self.iter_items(it)
        self.iter_seq(seq, elem, fr, cell)

    def iter_items(self, it):
        """-> (sequence, heap iterator to be consumed or None)"""
        it = self.force_iterable(it)
        if isinstance(it, Ref) and isinstance(self.get(it), HCell):
            c = self.get(it)
            seq = c.seq
            c.seq = ()
            return seq, None
        return self.seq_of(it), None

    def iter_seq(self, seq, elem, fr, cell=None):
        for item in seq:
            k = item[0]
            if k == "e":
                elem(self.resolve_rows(item[1]))
            elif k == "c":
                def run(item=item):
                    i = self.choose([c for c, _ in item[1]])
                    self.iter_seq(item[1][i][1], elem, fr)

                self.merge_paths(run, fr)
            elif k == "r":
                _, n, iv, sub = item
                if isinstance(n, int) and n <= 40:
                    for j in range(n):
                        self.iter_seq(vsubst(sub, [(iv, j)]), elem, fr)
                    continue

                def it(kk, sub=sub, iv=iv):
                    self.iter_seq(vsubst(sub, [(iv, kk)]), elem, fr)

                self.rep_rule(n, it, fr)
            elif item is BARRIER or k == "barrier":
                raise Unsupported("iteration over a list that the loop is building")
            else:
                raise Unsupported(f"iteration item {k}")

    def search_loop(self, s, fr):
        """while loop that only assigns local variables: it ends after no iteration, or the
        last iteration starts in some state in which the condition holds. True: done"""
        names = set()
        for b in s.body:
            if isinstance(b, ast.AugAssign):
                targets = [b.target]
            elif isinstance(b, ast.Assign):
                targets = b.targets
            else:
                return False
            if not all(isinstance(t, ast.Name) for t in targets):
                return False
            names |= {t.id for t in targets}
        if s.orelse:
            return False
        for x in ast.walk(s):
            if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name) and x.func.id in ("str", "len", "min", "max")):
                return False
        old = {x: self.force(fr.locals[x]) for x in names if x in fr.locals}
        for v in old.values():
            if not (is_int(v) or self.nat.is_text(v)):
                return False
        heap0 = self.snapshot()
        c = self.truth(self.ev(s.test, fr))
        texts = any(self.nat.is_text(v) for v in old.values())
        if isinstance(c, bool) or self.valid(c) and not texts or self.valid(z3.Not(c)):
            return False
        if any(not payload_eq(p, self.heap.get(i)) for i, p in heap0.items()):
            return False
        if not self.branch(c):
            return True
        where = f"{fr.name}:{s.lineno}"
        for x, v in old.items():
            if is_int(v):
                fr.locals[x] = z3.Const(REG.fresh_name(x), I)
            else:
                fr.locals[x] = SStr(z3.Const(REG.fresh_name(x), Str))
        for x in names - set(old):
            fr.locals[x] = Poison("loop variable")
        self.assume(zb(self.truth(self.ev(s.test, fr))))
        heap0 = self.snapshot()
        self.block(s.body, fr)
        if any(not payload_eq(p, self.heap.get(i)) for i, p in heap0.items()):
            raise Unsupported(f"{where}: while loop with effects")
        for x, v in old.items():
            new = self.force(fr.locals[x])
            if is_int(new) != is_int(v) or not (is_int(new) or self.nat.is_text(new)):
                raise Unsupported(f"{where}: loop variable of several types")
        self.assumptions.add(f"the loop at {where} ends")
        self.assume(z3.Not(zb(self.truth(self.ev(s.test, fr)))))
        return True

    def s_While(self, s, fr):
        if self.invariants and inv_while(self, s, fr):
            return
        if self.search_loop(s, fr):
            return
        count = 0
        while True:
            count += 1
            if count > MAXWHILE:
                raise Unsupported("while loop without a bound")
            saved = (self.snapshot(), dict(fr.locals), list(self.pc), len(self.trace.taken),
                     self.trace.pos, len(self.trace.alts), list(self.trace.prefix))
            level = len(self.loops)
            self.loops.append(self.stream_heads())

            def one():
                c = self.truth(self.ev(s.test, fr))
                if not self.branch(c):
                    raise BreakX
                try:
                    self.block(s.body, fr)
                except ContinueX:
                    pass

            try:
                try:
                    one()
                finally:
                    del self.loops[level:]
            except BreakX:
                return
            except NeedAlign as na:
                if na.level != level:
                    raise
                heap, loc, pc, nt, pos, na_, prefix = saved
                self.heap = heap
                fr.locals = loc
                self.pc = pc
                del self.trace.taken[nt:]
                self.trace.pos = pos
                del self.trace.alts[na_:]
                # decisions of the abandoned attempt are forgotten
                self.trace.prefix = prefix if pos < len(prefix) else prefix[:pos]
                st = self.heap[na.sid]
                item = st.rest[0]
                tail = st.rest[1:]
                if item[0] == "r":
                    self.rep_rule(item[1], lambda k: self.one_iteration(one, fr), fr,
                                  while_stream=na.sid)
                elif any(t[0] == "r" for _, alt in item[1] for t in alt):
                    self.peel(na.sid)
                else:
                    def run(item=item, tail=tail, sid=na.sid):
                        i = self.choose([c for c, _ in item[1]])
                        st = self.heap[sid]
                        alt = item[1][i][1]
                        mark = ("mark", REG.fresh_name("m"))
                        st.rest = tuple(alt) + (mark,) + tail
                        n = 0
                        while self.heap[sid].rest[0] != mark:
                            n += 1
                            if n > 20:
                                raise Unsupported("alternative not consumed")
                            if self.heap[sid].rest[0][0] == "r":
                                raise Unsupported("repetition inside an alternative")
                            self.one_iteration(one, fr)
                        st = self.heap[sid]
                        st.rest = st.rest[1:]

                    self.merge_paths(run, fr)

    def one_iteration(self, one, fr):
        level = len(self.loops)
        self.loops.append({})
        try:
            one()
        finally:
            del self.loops[level:]

    def stream_heads(self):
        r = {}
        for i, p in self.heap.items():
            if isinstance(p, HStream) and p.rest and p.rest[0][0] in ("r", "c"):
                r[i] = p.rest[0]
        return r

    def stream_at_rep(self, sid):
        """a read meets a repetition / alternative at the head of stream sid"""
        st = self.heap[sid]
        item = st.rest[0]
        if item[0] == "r" and self.valid(zi(item[1]) == 0):
            st.rest = st.rest[1:]
            return
        for level in range(len(self.loops) - 1, -1, -1):
            h = self.loops[level].get(sid)
            if h is not None and h is item:
                raise NeedAlign(sid, level)
        # not at the start of an iteration
        self.peel(sid)

    def peel(self, sid):
        st = self.heap[sid]
        item = st.rest[0]
        if item[0] == "c":
            i = self.choose([c for c, _ in item[1]])
            st = self.heap[sid]
            st.rest = tuple(item[1][i][1]) + st.rest[1:]
            return
        _, n, iv, sub = item
        if self.branch(zi(n) == 0):
            self.heap[sid].rest = self.heap[sid].rest[1:]
            return
        st = self.heap[sid]
        st.rest = tuple(vsubst(sub, [(iv, 0)])) + (
            ("r", simp(zi(n) - 1), iv, vsubst(sub, [(iv, iv + 1)])),) + st.rest[1:]

    # -------------------------------------------------------------- the loop rule
    def rep_rule(self, n, iteration, fr, while_stream=None):
        n = simp(zi(n))
        if isinstance(n, int) and n <= 0:
            if while_stream is not None:
                st = self.heap[while_stream]
                st.rest = st.rest[1:]
            return
        if isinstance(n, int) and n == 1 and while_stream is None:
            iteration(0)
            return
        if while_stream is None:
            for inv in self.invariants:
                if inv.fits(self, fr, n):
                    return inv_rule(self, inv, n, iteration, fr)
        k = z3.Const(REG.fresh_name("k"), I)
        base_heap, base_loc, base_pc = self.heap, fr.locals, self.pc
        aligned = {}
        if while_stream is not None:
            aligned[while_stream] = self.heap[while_stream].rest[0]
        W = {}  # location -> head
        name = f"{fr.name}:{self.where[1]}"
        obl0 = len(self.obls)
        serial = int(REG.fresh_name("").split("!")[1])
        for attempt in range(12):
            del self.obls[obl0:]
            heads = {}
            consts = {}
            # --- state at the head of iteration k
            heap = {i: p.copy() for i, p in base_heap.items()}
            loc = dict(base_loc)
            self.heap, fr.locals = heap, loc
            self.pc = list(base_pc) + [k >= 0, k < zi(n)]
            for sid, item in aligned.items():
                st = heap[sid]
                st.rest = tuple(vsubst(item[3], [(item[2], k)])) + (BARRIER,)
            for w, mode in W.items():
                self.havoc(w, mode, heap, loc, heads, consts, base_heap, base_loc, k)
            start = {sid: (st.rest[0] if st.rest and st.rest[0][0] in ("r", "c") else None)
                     for sid, st in ((i, p) for i, p in heap.items() if isinstance(p, HStream))
                     if sid not in aligned}
            start = {s: r for s, r in start.items() if r is not None}
            level = len(self.loops)
            self.loops.append(start)
            head_heap, head_loc = self.heap, fr.locals
            try:
                res = self.explore(lambda: iteration(k), fr)
            except NeedRows as nr:
                if not (is_sym(nr.index) and nr.index.eq(k)):
                    raise
                if nr.lid not in base_heap or self.shared:
                    raise Unsupported("input data is changed")
                self.no_alias(nr.lid, base_heap, base_loc, fr)
                W[("R", nr.lid)] = "rows"
                continue
            except NeedAlign as na:
                if na.level != level:
                    raise
                self.heap, fr.locals, self.pc = base_heap, base_loc, base_pc
                item = base_heap[na.sid].rest[0]
                if item[0] == "c":
                    i = self.choose([c for c, _ in item[1]])
                    st = self.heap[na.sid]
                    st.rest = tuple(item[1][i][1]) + st.rest[1:]
                    return self.rep_rule(n, iteration, fr, while_stream)
                if self.valid(zi(item[1]) == 0):
                    self.heap[na.sid].rest = self.heap[na.sid].rest[1:]
                    return self.rep_rule(n, iteration, fr, while_stream)
                aligned[na.sid] = item
                continue
            finally:
                del self.loops[level:]
                self.heap, fr.locals, self.pc = base_heap, base_loc, base_pc
            # --- what changed?
            new = {}
            self.peel_count = {}
            cnt = 0
            for pcs, out, h, l in res:
                if out[0] in ("return", "break", "raise"):
                    continue
                cnt += 1
                self.changes(head_heap, head_loc, h, l, new, aligned)
            if any(c == cnt for c in self.peel_count.values()):
                del self.obls[obl0:]
                return self.peel_first(n, iteration, fr, aligned, while_stream)
            more = {w: m for w, m in new.items() if w not in W}
            if more:
                W.update(more)
                continue
            break
        else:
            raise Unsupported("loop effects do not stabilise")
        exits = [r for r in res if r[1][0] in ("return", "break")]
        raises = [r for r in res if r[1][0] == "raise"]
        normal = [r for r in res if r[1][0] == "normal"]
        if not normal:
            # every iteration leaves the loop: at most one iteration
            if self.branch(zi(n) == 0):
                return
            return self.unroll_first(n, iteration, fr, aligned)
        if exits:
            exits = [r for r in exits if self._feasible_with(base_pc, r[0], k, n)]
        # --- closed forms
        sub = []
        closed = {}
        posts = {}
        for cid, (c, init, getter, _, _) in consts.items():
            posts[cid] = [getter(h, l) for _, _, h, l in normal]
        conds = [z3.And([zb(x) for x in r[0]] or [z3.BoolVal(True)]) for r in normal]
        pending = {cid: (x[0], x[1]) for cid, x in consts.items()}
        headids = {c.get_id() for c, _ in pending.values()}
        facts = [k >= 0, k < zi(n)]

        def S(t):
            return z3.substitute(t, *sub) if sub else t

        progress = True
        while pending and progress:
            progress = False
            for cid in list(pending):
                c, init = pending[cid]
                ps = posts[cid]
                if any(p is None for p in ps):
                    continue
                ps = [S(zi(p)) for p in ps]
                form = self.closed_form(c, init, ps, conds, k, headids, sub, base_pc + facts,
                                        {i for i in pending if i != cid}, pending)
                if form is None:
                    continue
                sub.append((c, form))
                closed[cid] = form
                del pending[cid]
                progress = True
        self.reprove(obl0, consts, sub)
        if pending:
            # no closed form: fine as long as nothing that is kept depends on it
            badids = {c.get_id() for c, _ in pending.values()}
        else:
            badids = set()

        def fin(v):
            """value of an iteration with the heads replaced by their closed forms"""
            if sub:
                v = vmap_terms(v, lambda t: simp(z3.substitute(t, *sub)))
            if badids:
                bad = []

                def chk(t):
                    if occurs(t, badids):
                        bad.append(1)
                    return t

                vmap_terms(v, chk)
                if bad:
                    raise Unsupported(f"no invariant found for a loop variable in {name}")
            return v

        fconds = []
        for (pcs, _, _, _) in normal:
            try:
                fconds.append(fin(simp(z3.And([zb(x) for x in pcs] or [z3.BoolVal(True)]))))
            except Unsupported:
                raise
        # preservation of the closed forms
        self.pc = list(base_pc) + facts
        for cid, form in closed.items():
            c, init = consts[cid][:2]
            nxt = z3.substitute(zi(form), (k, k + 1))
            for fc, p in zip(fconds, posts[cid]):
                self.pc = list(base_pc) + facts + [zb(fc)]
                if not self.prove(f"{name} loop invariant preserved", fin(zi(p)) == nxt):
                    self.pc = base_pc
                    self.obls.pop()
                    raise Unsupported(f"closed form not inductive in {name}")
            self.pc = list(base_pc) + [zi(n) >= 0]
            if not self.prove(f"{name} loop invariant initially",
                              zi(simp(z3.substitute(zi(form), (k, z3.IntVal(0))))) == zi(init)):
                self.pc = base_pc
                self.obls.pop()
                raise Unsupported(f"closed form not initial in {name}")
        self.pc = base_pc
        # --- streams
        for sid, item in aligned.items():
            for r in normal:
                rest = r[2][sid].rest
                if rest != (BARRIER,):
                    self.pc = list(base_pc) + facts + list(r[0])
                    try:
                        ok = (len(rest) >= 1 and rest[-1] == BARRIER
                              and not self.drop_empty(rest[:-1]))
                    finally:
                        self.pc = base_pc
                    if not ok:
                        raise Unsupported(
                            f"iteration in {name} does not read exactly one record")
            if sid != while_stream:
                if not self.prove(f"{name} loop count equals the number of records",
                                  zi(item[1]) == zi(n)):
                    self.obls.pop()
                    raise Unsupported(f"loop count differs from the number of records in {name}")
        # --- state after the loop
        if raises:
            raises = [(fin(simp(z3.And([zb(x) for x in r[0]] or [z3.BoolVal(True)]))), r)
                      for r in raises]
            raises = [(c, r) for c, r in raises if self._feas(base_pc + facts + [zb(c)])]
        if exits:
            now = [[zb(z3.substitute(zb(x), *sub)) if sub and is_sym(x) else zb(x) for x in r[0]] for r in exits]
            if any(any(occurs(c, badids) for c in cs) or self._feas(base_pc + facts + cs) for cs in now):
                if aligned or any(
                        w[0] != "l" or m != "new" and not isinstance(base_loc.get(w[1]), Poison)
                        for w, m in W.items()) or not z3.is_const(k):
                    raise Unsupported(f"loop in {name} may be left early")
                # the other iterations have no effects: the loop is left in some iteration, and
                # no earlier one leaves it, or all iterations stay in it
                self.search_exit(n, k, [(c, r) for c, r in zip(now, exits)], facts, serial, fr)
        if raises:
            i = self.choose([True] if False else
                            [z3.BoolVal(True)] + [z3.And(*facts, zb(c)) for c, _ in raises]) \
                if False else self.choose_free(len(raises) + 1)
            if i > 0:
                c, r = raises[i - 1]
                self.pc.extend(facts + [zb(c)])
                self.heap = r[2]
                fr.locals = r[3]
                raise Raise(r[1][1])
        self.finish_loop(W, normal, fconds, fin, closed, consts, n, k, fr, aligned, name)

    def search_exit(self, n, k, exits, facts, serial, fr):
        def stays(upto):
            made = set()
            for cs, _ in exits:
                for c in cs:
                    made |= {x for x in free_names(c) if "!" in x and x.rsplit("!", 1)[1].isdigit()
                             and int(x.rsplit("!", 1)[1]) >= serial and x != str(k)}
            if made:
                return  # nothing is known of the other iterations
            j = z3.Const(REG.fresh_name("j"), I)
            leaves = z3.Or([z3.And(cs or [z3.BoolVal(True)]) for cs, _ in exits])
            self.assume(z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < zi(upto)), z3.Not(z3.substitute(leaves, (k, j))))))

        i = self.choose_free(len(exits) + 1)
        if i == 0:
            stays(n)
            return
        cs, r = exits[i - 1]
        self.pc.extend(facts)
        self.pc.extend(cs)
        if not self._feas(self.pc):
            raise Infeasible
        stays(k)
        self._adopt(r, fr)

    def peel_first(self, n, iteration, fr, aligned, while_stream):
        """execute the first iteration separately"""
        if self.branch(zi(n) <= 0):
            for sid in aligned:
                st = self.heap[sid]
                st.rest = st.rest[1:]
            return None
        for sid, item in aligned.items():
            st = self.heap[sid]
            st.rest = tuple(vsubst(item[3], [(item[2], 0)])) + (
                ("r", simp(zi(item[1]) - 1), item[2],
                 vsubst(item[3], [(item[2], item[2] + 1)])),) + st.rest[1:]
        iteration(0)
        if while_stream is not None:
            st = self.heap[while_stream]
            if not (st.rest and st.rest[0][0] == "r"):
                raise Unsupported("first iteration does not read exactly one record")
        return self.rep_rule(simp(zi(n) - 1), lambda k: iteration(simp(k + 1)), fr, while_stream)

    def choose_free(self, n):
        """nondeterministic choice (all alternatives are explored)"""
        t = self.trace
        if t.pos < len(t.prefix):
            i = t.prefix[t.pos]
            t.pos += 1
            t.taken.append(i)
            return i
        for j in range(1, n):
            t.alts.append(t.taken + [j])
        t.taken.append(0)
        t.prefix.append(0)
        t.pos += 1
        return 0

    def _feas(self, fmls):
        r, _ = check(fmls, timeout=4000)
        return r != "unsat"

    def _feasible_with(self, base, pcs, k, n):
        return self._feas(list(base) + [k >= 0, k < zi(n)] + [zb(c) for c in pcs])

    def _empty(self, toks):
        for t in toks:
            if t[0] == "r" and self.valid(zi(t[1]) == 0):
                continue
            if t[0] == "S":
                from .terms import enclen

                if self.valid(enclen(t[1], zi(t[2])) == 0):
                    continue
            return False
        return True

    def unroll_first(self, n, iteration, fr, aligned):
        if aligned:
            raise Unsupported("loop that is left in its first iteration")
        iteration(0)
        raise Unsupported("loop left early")

    # locations:  ('l', name) | ('h', id, kind...) ------------------------------
    def changes(self, h0, l0, h1, l1, out, aligned):
        for nme, v in l1.items():
            if nme not in l0:
                out[("l", nme)] = "new"
            elif not synt_eq(l0[nme], v):
                out[("l", nme)] = "val"
        for i, p0 in h0.items():
            p1 = h1[i]
            if payload_eq(p0, p1) if i not in aligned else synt_eq(p0.data, p1.data):
                continue
            if isinstance(p0, HInst):
                for a in p1.attrs:
                    if a not in p0.attrs or not synt_eq(p0.attrs[a], p1.attrs[a]):
                        out[("a", i, a)] = "val"
            elif isinstance(p0, HList):
                n = len(p0.seq)
                if n == 1 and p0.seq[0][0] == "rows":
                    if len(p1.seq) == 1 and p1.seq[0][0] == "rows":
                        continue
                    raise Unsupported("a list is restructured in a loop")
                if len(p1.seq) >= n and synt_eq(p0.seq, p1.seq[:n]) and len(p1.seq) > n:
                    out[("L", i)] = "append"
                elif len(p1.seq) == n and all(x[0] == "e" for x in p0.seq + p1.seq):
                    out[("L", i)] = "elems"
                elif len(p1.seq) == n - 1 and False:
                    pass
                else:
                    raise Unsupported("a list is restructured in a loop")
            elif isinstance(p0, HDict):
                n = len(p0.ents)
                if len(p1.ents) > n and synt_eq(p0.ents, p1.ents[:n]):
                    if all(x[0] == "e" and isinstance(x[1], (str, int)) for x in p1.ents[n:]) \
                            and not any(x is BARRIER or x[0] == "barrier" for x in p0.ents):
                        self.peel_count[i] = self.peel_count.get(i, 0) + 1
                    out[("D", i)] = "append"
                elif len(p1.ents) == n and all(x[0] == "e" for x in p0.ents + p1.ents) and all(
                        synt_eq(x[1], y[1]) for x, y in zip(p0.ents, p1.ents)):
                    out[("D", i)] = "elems"
                else:
                    # new keys and changed ones
                    raise Unsupported("a dict is restructured in a loop")
            elif isinstance(p0, HStream):
                n = len(p0.data)
                if not synt_eq(p0.data, p1.data):
                    if len(p1.data) >= n and synt_eq(p0.data, p1.data[:n]):
                        out[("O", i)] = "append"
                    else:
                        raise Unsupported("a stream is rewritten in a loop")
                if i not in aligned and not synt_eq(p0.rest, p1.rest):
                    raise Unsupported("a loop consumes input that is not repeated")
            elif isinstance(p0, HSet):
                out[("S", i)] = "append"
            elif isinstance(p0, HCell):
                raise Unsupported("iterator consumed in a loop")

    def shape_havoc(self, v, h, path, heads, heap, base_heap):
        """fresh value of the same shape; h collects (const, init, path)"""
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            c = z3.Bool(REG.fresh_name("h"))  # no closed form: nothing kept may depend on it
            h.append((c, v, path))
            return c
        if is_int(v):
            c = z3.Const(REG.fresh_name("h"), I)
            h.append((c, v, path))
            return c
        if isinstance(v, tuple):
            return tuple(self.shape_havoc(x, h, path + (j,), heads, heap, base_heap)
                         for j, x in enumerate(v))
        if isinstance(v, Ref):
            p = base_heap.get(v.id)
            if isinstance(p, HList) and all(x[0] == "e" for x in p.seq):
                return self.alloc(HList(tuple(
                    ("e", self.shape_havoc(x[1], h, path + (j,), heads, heap, base_heap))
                    for j, x in enumerate(p.seq))))
        return Poison("loop variable")

    def shape_get(self, v, path, heap):
        for j in path:
            if isinstance(v, tuple):
                if j >= len(v):
                    return None
                v = v[j]
            elif isinstance(v, Ref):
                p = heap.get(v.id)
                if not isinstance(p, HList) or j >= len(p.seq) or p.seq[j][0] != "e":
                    return None
                v = p.seq[j][1]
            else:
                return None
        return v if is_int(v) and not isinstance(v, (bool, z3.BoolRef)) else None

    def havoc(self, w, mode, heap, loc, heads, consts, base_heap, base_loc, k):
        kind = w[0]

        def leafs(v0, getter, key=None):
            h = []
            nv = self.shape_havoc(v0, h, (), heads, heap, base_heap)
            for c, init, path in h:
                def g(hp, lc, path=path):
                    return self.shape_get(getter(hp, lc), path, hp)

                consts[c.get_id()] = (c, init, g, (w, key), path)
            return nv

        if kind == "l":
            if mode == "new" or w[1] not in base_loc:
                loc.pop(w[1], None)
                loc[w[1]] = Poison("loop variable")
            else:
                loc[w[1]] = leafs(base_loc[w[1]], lambda hp, lc: lc.get(w[1]))
        elif kind == "a":
            _, i, a = w
            if a in base_heap[i].attrs:
                heap[i].attrs[a] = leafs(base_heap[i].attrs[a], lambda hp, lc: hp[i].attrs.get(a))
            else:
                heap[i].attrs[a] = Poison("loop attribute")
        elif kind == "L":
            i = w[1]
            if mode == "append":
                heap[i].seq = heap[i].seq + (BARRIER,)
            else:
                seq = []
                for j, x in enumerate(base_heap[i].seq):
                    def g(hp, lc, j=j):
                        s = hp[i].seq
                        return s[j][1] if j < len(s) and s[j][0] == "e" else None

                    seq.append(("e", leafs(x[1], g, j)))
                heap[i].seq = tuple(seq)
        elif kind == "D":
            i = w[1]
            if mode == "append":
                heap[i].ents = heap[i].ents + (BARRIER,)
            else:
                ents = []
                for j, x in enumerate(base_heap[i].ents):
                    def g(hp, lc, j=j):
                        s = hp[i].ents
                        return s[j][2] if j < len(s) and s[j][0] == "e" else None

                    ents.append(("e", x[1], leafs(x[2], g, j)))
                heap[i].ents = tuple(ents)
        elif kind == "R":
            seq = base_heap[w[1]].seq
            if not (len(seq) == 1 and seq[0][0] == "r" and len(seq[0][3]) == 1
                    and seq[0][3][0][0] == "e"):
                raise Unsupported("element change in a list that is not uniform")
            heap[w[1]].seq = (("rows", seq[0][1], seq[0][2], seq[0][3], k, None),)
        elif kind == "O":
            heap[w[1]].data = heap[w[1]].data + (BARRIER,)
        elif kind == "S":
            heap[w[1]].elts = heap[w[1]].elts + (BARRIER,)

    def closed_form(self, c, init, ps, conds, k, headids, sub, pc, others, pending):
        """closed form (in k) of the value of c at the head of iteration k"""
        othersids = {pending[o][0].get_id() for o in others}
        ps = [simp(p) for p in ps]
        if any(occurs(zi(p), othersids) for p in ps):
            return None
        conds = [simp(z3.substitute(x, *sub)) if sub else simp(x) for x in conds]
        own = {c.get_id()}
        if len(ps) > 1:
            # conjuncts about loop variables do not help to tell the paths apart
            # (a wrong guess is refuted when the invariant is proved)
            conds = [self.without(x, othersids | own) for x in conds]
        if all(is_sym(p) and p.eq(c) for p in ps):
            return init
        if any(occurs(zb(x), othersids) for x in conds) and len(ps) > 1:
            return None
        condown = any(occurs(zb(x), own) for x in conds) and len(ps) > 1

        def ite(vals):
            r = zi(vals[-1])
            for x, v in reversed(list(zip(conds, vals))[:-1]):
                r = z3.If(zb(x), zi(v), r)
            return simp(r)

        def last(t):
            prev = z3.substitute(zi(t), (k, k - 1))
            return simp(z3.If(k == 0, zi(init), prev))

        if not any(occurs(zi(p), own) for p in ps) and not condown:
            return last(ite(ps))
        gs = [simp(zi(p) - c) for p in ps]
        if any(occurs(zi(g), own) for g in gs):
            gs = [self.delta(zi(p), c, own | othersids) for p in ps]
        if any(occurs(zi(g), own) for g in gs):
            gs = [simp(z3.simplify(zi(p) - c, som=True)) for p in ps]
        if any(occurs(zi(g), own) for g in gs) or condown:
            return None
        g = ite(gs)
        if isinstance(g, int):
            return simp(zi(init) + g * k)
        if not occurs(zi(g), {k.get_id()}):
            return simp(zi(init) + g * k)
        # telescoping: g(k) = T(k) - T(k-1)
        ts = []
        for gp in gs:
            ts.append(self.positive_part(zi(gp)))
        T = ite(ts)
        form = last(T)
        ok = True
        for x, gp in zip(conds, gs):
            r, _ = check(list(pc) + [zb(x), z3.Not(zi(form) + zi(gp) == zi(T))], timeout=5000)
            if r != "unsat":
                ok = False
                break
        if ok:
            return form
        # prefix sum
        if check(list(pc) + [zi(g) > 0], timeout=2000)[0] == "unsat":
            return simp(zi(init) - self.prefix_sum(simp(-zi(g)), k))
        return simp(zi(init) + self.prefix_sum(zi(g), k))

    def delta(self, p, c, ids):
        """p - c; conditions about loop variables are left out (as above)"""
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            a, b = (zi(self.delta(x, c, ids)) for x in (p.arg(1), p.arg(2)))
            return simp(z3.If(zb(self.without(p.arg(0), ids)), a, b))
        return simp(z3.simplify(p - c, som=True))

    def without(self, c, ids):
        """the conjuncts of c in which none of the constants occurs"""
        if not is_sym(c) or not occurs(c, ids):
            return c
        if z3.is_and(c):
            return simp(z3.And([zb(self.without(x, ids)) for x in c.children()]))
        return True

    def positive_part(self, t):
        t = z3.simplify(t, som=True)
        parts = list(t.children()) if z3.is_add(t) else [t]
        pos = []
        for p in parts:
            if z3.is_mul(p) and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() < 0:
                continue
            if z3.is_int_value(p):
                continue
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UMINUS:
                continue
            pos.append(p)
        if not pos:
            return z3.IntVal(0)
        return z3.Sum(pos) if len(pos) > 1 else pos[0]

    def prefix_sum(self, g, k):
        """PS(k) = sum of g over 0..k-1 (a function of the other indices in g, too)"""
        bound = z3.Const("ps!k", I)
        params = index_consts(g, skip=(k.decl().name(),))
        gen = [z3.Const(f"par{j}", I) for j in range(len(params))]
        key = z3.simplify(z3.substitute(g, (k, bound), *zip(params, gen)))
        for g2, f, np in REG.ps_table:
            if np == len(params) and g2.eq(key):
                return f(*params, k)
        for g2, f, np in REG.ps_table:
            if np == len(params):
                r, _ = check([z3.Not(g2 == key), bound >= 0] + [x >= 0 for x in gen],
                             timeout=2000)
                if r == "unsat":
                    return f(*params, k)
        nm = REG.fresh_name("ps")
        f = z3.Function(nm, *([I] * (len(params) + 2)))
        bounds = const_bounds(key)

        def ax(a):
            ps = [a.arg(j) for j in range(len(gen))]
            j = a.arg(len(gen))
            prev = simp(j - 1)
            res = [z3.Implies(j == 0, a == 0)]
            if bounds:  # lo <= g(i) <= hi for all i, by induction
                res.append(z3.Implies(j >= 0, z3.And(a >= bounds[0] * j, a <= bounds[1] * j)))
            if not (isinstance(prev, int) and prev < 0):
                gj = z3.substitute(key, (bound, zi(prev)), *zip(gen, ps))
                res.append(z3.Implies(j >= 1, a == f(*ps, zi(prev)) + gj))
            return res

        REG.on(nm, ax)
        REG.ps_table.append((key, f, len(params)))
        low = next((b for b in (2, 1, 0)
                    if check([bound >= 0, key < b] + [x >= 0 for x in gen], timeout=1000)[0] == "unsat"), None)
        if low is not None:
            m = len(gen)

            def pair(a, b):
                same = [a.arg(j) == b.arg(j) for j in range(m)]

                def less(x, y):
                    i, j = x.arg(m), y.arg(m)
                    gi = z3.substitute(key, (bound, i), *zip(gen, [x.arg(q) for q in range(m)]))
                    return z3.Implies(z3.And(*same, i >= 0, i < j), x + gi + low * (j - i - 1) <= y)

                return z3.And(less(a, b), less(b, a))

            REG.on_pair(nm, pair)
        return f(*params, k)

    def finish_loop(self, W, normal, fconds, fin, closed, consts, n, k, fr, aligned, name):
        """set the state after n iterations"""
        nT = zi(n)
        heap, loc = self.heap, fr.locals
        ivs = z3.Const(REG.fresh_name("i"), I)

        def after(v, h):
            """last value f(k) of an iteration -> value after the loop"""
            v = self.freeze_new(v, h)
            v = fin(v)
            return vsubst(v, [(k, simp(nT - 1))])

        def rep(sufs):
            """append per iteration -> items after the loop"""
            sufs = [fin(s) for s in sufs]
            if all(synt_eq(sufs[0], s) for s in sufs[1:]):
                body = sufs[0]
            else:
                alts = []
                for c, s in zip(fconds, sufs):
                    for j, (c2, s2) in enumerate(alts):
                        if synt_eq(s2, s):
                            alts[j] = (simp(z3.Or(zb(c2), zb(c))), s2)
                            break
                    else:
                        alts.append((c, s))
                body = (("c", tuple(alts)),)
            if not body:
                return ()
            return (("r", n, ivs, vsubst(body, [(k, ivs)])),)

        newheap = dict(heap)
        newloc = dict(loc)
        self.note_shared(W, normal, heap)

        def value_after(init, vals, isnew):
            """vals: [(value, heap)] per path"""
            try:
                vs = [after(v, h) for v, h in vals]
            except Unsupported as e:
                return Poison(f"after loop: {e}")
            v = mrg([(vsubst(c, [(k, simp(nT - 1))]), x) for c, x in zip(fconds, vs)]) \
                if len(vs) > 1 else vs[0]
            if isnew:
                init = Poison("unbound")
            if isinstance(v, Poison):
                return v
            if intish(v) and intish(init):
                return mrg([(nT == 0, init), (nT > 0, v)])
            try:
                return mrg([(nT <= 0, init), (nT > 0, v)])
            except Unsupported:
                return Poison("after loop")

        for w, mode in W.items():
            kind = w[0]
            if kind == "l":
                nme = w[1]
                init = loc.get(nme)
                cf = self.closed_value(init, nme, w, consts, closed, k, nT, normal,
                                       lambda h, l: l.get(nme))
                if mode != "new" and cf is not None:
                    newloc[nme] = cf
                else:
                    newloc[nme] = value_after(
                        init, [(r[3].get(nme, Poison("unbound")), r[2]) for r in normal],
                        mode == "new")
            elif kind == "a":
                _, i, a = w
                p = newheap[i] = newheap[i].copy()
                init = heap[i].attrs.get(a, Poison("unbound"))
                cf = self.closed_value(init, a, w, consts, closed, k, nT, normal,
                                       lambda h, l: h[i].attrs.get(a))
                if cf is not None:
                    p.attrs[a] = cf
                else:
                    p.attrs[a] = value_after(init, [(r[2][i].attrs.get(a), r[2]) for r in normal],
                                             isinstance(init, Poison))
            elif kind == "L":
                i = w[1]
                p = newheap[i] = newheap[i].copy()
                if mode == "append":
                    base = len(heap[i].seq) + 1
                    sufs = [tuple(self.freeze_new(x, r[2]) for x in r[2][i].seq[base:])
                            for r in normal]
                    p.seq = p.seq + rep(sufs)
                else:
                    seq = []
                    for j, x in enumerate(heap[i].seq):
                        cf = self.closed_value(x[1], j, w, consts, closed, k, nT, normal,
                                               lambda h, l, j=j: h[i].seq[j][1])
                        if cf is None:
                            cf = value_after(x[1], [(r[2][i].seq[j][1], r[2]) for r in normal],
                                             False)
                        seq.append(("e", cf))
                    p.seq = tuple(seq)
            elif kind == "R":
                i = w[1]
                _, cnt, iv0, sub0 = heap[i].seq[0]
                self.pc = self.pc + [nT >= 0]
                if not self.valid(zi(cnt) == nT):
                    raise Unsupported("a loop changes only some elements of a list")
                self.pc = self.pc[:-1]
                vals = []
                for r in normal:
                    row = r[2][i].seq[0]
                    vals.append(fin(vsubst(sub0, [(iv0, k)])[0][1] if row[5] is None
                                    else self.freeze_new(row[5], r[2])))
                if all(synt_eq(vals[0], v) for v in vals[1:]):
                    body = (("e", vals[0]),)
                else:
                    body = (("c", tuple((c, (("e", v),)) for c, v in zip(fconds, vals))),)
                p = newheap[i] = newheap[i].copy()
                p.seq = (("r", cnt, ivs, vsubst(body, [(k, ivs)])),)
            elif kind == "D":
                i = w[1]
                p = newheap[i] = newheap[i].copy()
                if mode == "append":
                    base = len(heap[i].ents) + 1
                    sufs = [tuple(self.freeze_new(x, r[2]) for x in r[2][i].ents[base:])
                            for r in normal]
                    p.ents = p.ents + rep(sufs)
                else:
                    ents = []
                    for j, x in enumerate(heap[i].ents):
                        cf = self.closed_value(x[2], j, w, consts, closed, k, nT, normal,
                                               lambda h, l, j=j: h[i].ents[j][2])
                        if cf is None:
                            cf = value_after(x[2], [(r[2][i].ents[j][2], r[2]) for r in normal],
                                             False)
                        ents.append(("e", x[1], cf))
                    p.ents = tuple(ents)
            elif kind == "O":
                i = w[1]
                p = newheap[i] = newheap[i].copy()
                base = len(heap[i].data) + 1
                p.data = p.data + rep([r[2][i].data[base:] for r in normal])
            elif kind == "S":
                raise Unsupported("set built in a loop")
        for sid, item in aligned.items():
            p = newheap[sid] = newheap[sid].copy()
            p.rest = p.rest[1:]
        self.heap = newheap
        fr.locals = newloc
        if not (isinstance(n, int)):
            self.assume(nT >= 0)

    def resolve_rows(self, v):
        """elements of a list that the loop changes are its rows"""
        if isinstance(v, tuple):
            return tuple(self.resolve_rows(x) for x in v) if any(
                isinstance(x, (tuple, FList, FDict, FObj)) for x in v) else v
        if isinstance(v, (FList, FDict, FObj)) and v.src and len(v.src) == 2:
            p = self.heap.get(v.src[0])
            if isinstance(p, HList) and len(p.seq) == 1 and p.seq[0][0] == "rows":
                return self.row(Ref(v.src[0]), v.src[1])
        return v

    def no_alias(self, lid, heap, loc, fr):
        """no other object refers to the elements of the list, which a loop changes"""
        # an alias has the same parts, at another index at most
        names = [applied(heap[lid].seq)] + [applied(x) for it in heap[lid].seq if it[0] == "r"
                                            for x in thawed(it[3][0][1])[1:]]
        hit = lambda v: any(applied(x) in names for x in containers(v, []))
        for nm, x in loc.items():
            if hit(x):
                loc[nm] = Poison("object that a loop may have changed")
        for i, p in heap.items():
            if i == lid:
                continue
            v = getattr(p, "seq", None) or getattr(p, "ents", None) or getattr(p, "elts", None) or \
                tuple(getattr(p, "attrs", {}).values())
            if hit(v):
                raise Unsupported("element of a list that is changed, kept elsewhere")
        for f in self.frames:
            if f is not fr and any(hit(x) for x in f.locals.values()):
                raise Unsupported("element of a list that is changed, kept by a caller")

    def note_shared(self, W, normal, heap):
        """objects of an iteration that end up in two containers"""
        for r in normal:
            seen = {}

            def walk(v, h):
                if isinstance(v, tuple):
                    for x in v:
                        walk(x, h)
                elif isinstance(v, Mrg):
                    for _, x in v.opts:
                        walk(x, h)
                elif isinstance(v, FObj) and v.src:
                    self.shared = True
                elif isinstance(v, Ref) and v.id not in heap:
                    if v.id in seen:
                        self.shared = True
                        return
                    seen[v.id] = 1
                    p = h.get(v.id)
                    walk(getattr(p, "seq", None) or getattr(p, "ents", None)
                         or tuple(getattr(p, "attrs", {}).values()), h)

            for w in W:
                p = r[2].get(w[1]) if w[0] != "l" else None
                if w[0] == "a":
                    walk(p.attrs.get(w[2]), r[2])
                elif w[0] in ("L", "R"):
                    walk(p.seq, r[2])
                elif w[0] == "D":
                    walk(p.ents, r[2])

    def closed_value(self, init, key, w, consts, closed, k, nT, normal, getter):
        """value after the loop when all its integer leaves have closed forms"""
        if w[0] not in ("L", "D"):
            key = None
        forms = {path: closed.get(cid) for cid, (c, i0, g, loc, path) in consts.items()
                 if loc == (w, key)}

        def build(v, path):
            if is_int(v) and not isinstance(v, bool):
                f = forms.get(path)
                if f is None:
                    raise KeyError
                return simp(z3.substitute(zi(f), (k, nT)))
            if isinstance(v, tuple):
                return tuple(build(x, path + (j,)) for j, x in enumerate(v))
            if isinstance(v, Ref) and isinstance(self.heap.get(v.id), HList):
                p = self.heap[v.id]
                if all(x[0] == "e" for x in p.seq):
                    return self.alloc(HList(tuple(("e", build(x[1], path + (j,)))
                                                  for j, x in enumerate(p.seq))))
            raise KeyError

        if not (is_int(init) or isinstance(init, (tuple, Ref))) or isinstance(init, bool):
            return None
        try:
            return build(init, ())
        except KeyError:
            return None

    def freeze_new(self, v, heap):
        """immutable copy of a value (objects created inside a loop iteration)"""
        if isinstance(v, tuple):
            return tuple(self.freeze_new(x, heap) for x in v)
        if isinstance(v, Ref):
            if v.id in self.heap:
                return v  # an object from before the loop
            p = heap[v.id]
            if isinstance(p, HList):
                return FList(tuple(self.freeze_new(x, heap) for x in p.seq))
            if isinstance(p, HDict):
                return FDict(tuple(self.freeze_new(x, heap) for x in p.ents), log=True)
            if isinstance(p, HInst):
                return FObj(p.cls, tuple((a, self.freeze_new(x, heap))
                                         for a, x in p.attrs.items()))
            raise Unsupported(f"{type(p).__name__} kept by a loop")
        if isinstance(v, Mrg):
            return Mrg(tuple((c, self.freeze_new(x, heap)) for c, x in v.opts))
        return v
