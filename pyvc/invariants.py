"""Loop invariants that a proof supplies: the state before iteration k stands in a relation
to a specification state, which advances with every element.

The rule: the relation holds before the first iteration; from an arbitrary state that
satisfies it, one iteration leads to a state that satisfies it again; the code behind the
loop is checked in an arbitrary state that satisfies it.
"""
import z3

from .terms import I, REG, simp, zb, zi
from .values import HInst, Poison, Unsupported


class Invariant:
    """count: number of iterations of the loop that it is for, or "while"
    owned: names of locals of the function that it describes
    initially(e, fr): proves the relation for the state before the loop
    arbitrary(e, fr, k): sets an arbitrary state that satisfies it -> (specification state,
        ids of the objects, (id, attribute) pairs it describes)
    step(e, fr, k, spec): advances spec by element k, proves the relation"""

    def __init__(self, count, owned, initially, arbitrary, step):
        self.count = count
        self.owned = tuple(owned)
        self.initially, self.arbitrary, self.step = initially, arbitrary, step
        self.final = None
        self.busy = False

    def fits(self, e, fr, n):
        if self.busy or isinstance(self.count, str) or not (z3.is_expr(n) or isinstance(n, int)):
            return False
        if not zi(n).eq(zi(self.count)):
            return False
        return all(x in fr.locals for x in self.owned)


def inv_while(e, s, fr):
    """the same for a while loop: any number of iterations, the condition does not hold after
    the last (that it ends is assumed). False: no invariant is for this loop"""
    from .engine import ContinueX, Infeasible

    for inv in e.invariants:
        if not isinstance(inv.count, str) or inv.busy or s.orelse or not all(
                x in fr.locals for x in inv.owned):
            continue

        def iteration(k):
            if not e.branch(e.truth(e.ev(s.test, fr))):
                raise Infeasible
            try:
                e.block(s.body, fr)
            except ContinueX:
                pass

        def last():
            if e.branch(e.truth(e.ev(s.test, fr))):
                raise Infeasible
            e.assumptions.add(f"the loop at {fr.name}:{s.lineno} ends")

        inv_rule(e, inv, None, iteration, fr, last)
        return True
    return False


def inv_rule(e, inv, n, iteration, fr, last=None):
    from .engine import BreakX, payload_eq, synt_eq

    name = f"{fr.name}:{e.where[1]}"
    inv.busy = True
    # the outermost paths are executed again from their start: what has been proved after
    # the same decisions is not proved again
    key = (name, e.invariants.index(inv), tuple(e.trace.taken)) if e.depth_explore == 1 else None
    try:
        if key is not None and key in e.proved_invariants:
            return after(e, inv, n, fr, e.proved_invariants[key], last)
        inv.initially(e, fr)
        k = z3.Const(REG.fresh_name("k"), I) if n is not None else None
        obl0 = len(e.obls)
        poison = set()
        for _ in range(10):
            del e.obls[obl0:]
            more = set()

            def one():
                if n is not None:
                    e.pc.extend([k >= 0, k < zi(n)])
                for x in poison:
                    fr.locals[x] = Poison("loop variable")
                spec, objs, attrs = inv.arbitrary(e, fr, k)
                heap0, loc0 = e.snapshot(), dict(fr.locals)
                e.loops.append({})
                iteration(k)
                e.loops.pop()
                for x in set(loc0) | set(fr.locals):
                    if x in inv.owned or x in poison:
                        continue
                    if x not in loc0 or not synt_eq(loc0[x], fr.locals.get(x)):
                        more.add(x)
                for i, p0 in heap0.items():
                    p1 = e.heap[i]
                    if i in objs or payload_eq(p0, p1):
                        continue
                    if isinstance(p0, HInst) and all(
                            (i, a) in attrs or a in p0.attrs and a in p1.attrs
                            and synt_eq(p0.attrs[a], p1.attrs[a])
                            for a in set(p0.attrs) | set(p1.attrs)):
                        continue
                    raise Unsupported(f"{name}: a change that the invariant does not mention")
                inv.step(e, fr, k, spec)

            heap, loc, pc, loops = e.heap, fr.locals, e.pc, e.loops
            try:
                res = e.explore(one, fr)
            finally:
                e.heap, fr.locals, e.pc, e.loops = heap, loc, pc, loops
            if more:
                poison |= more
                continue
            break
        else:
            raise Unsupported(f"{name}: loop effects do not stabilise")
        if any(r[1][0] in ("return", "break") for r in res):
            raise Unsupported(f"loop in {name} may be left early")
        raises = [r for r in res if r[1][0] == "raise"]
        if raises:
            i = e.choose_free(len(raises) + 1)
            if i > 0:
                e._adopt(raises[i - 1], fr)
        elif key is not None:
            e.proved_invariants[key] = frozenset(poison)
        after(e, inv, n, fr, poison, last)
    finally:
        inv.busy = False


def after(e, inv, n, fr, poison, last=None):
    for x in poison:
        fr.locals[x] = Poison("loop variable")
    if n is not None:
        e.assume(zi(n) >= 0)
    inv.final = inv.arbitrary(e, fr, n)[0]
    if last is not None:
        last()
