"""Concrete runs of contracts on the real code (replay and bounded stand-ins)."""
import copy
import logging
import math
import signal
from io import BytesIO

logging.disable(logging.CRITICAL)


class Timeout(Exception):
    pass


class limit:
    """a run that does not come back counts as a failure, not as a hang of the check"""

    def __init__(self, seconds=5):
        self.seconds = seconds

    def __enter__(self):
        def h(sig, frame):
            raise Timeout(f"no result within {self.seconds} s")

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def same(a, b):
    """equality of values as they are stored as JSON: list == tuple, exact doubles"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and a == b
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return False
        if isinstance(a, float) != isinstance(b, float):
            return False
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) is type(b) and a == b or (isinstance(a, str) and isinstance(b, str) and a == b)


def short(v, n=600):
    s = repr(v)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def make_vfb(ctx):
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    v.num_masters = ctx.M
    v.ttStemsV_count = ctx.ttv
    v.ttStemsH_count = ctx.tth
    v.writer_platform = ctx.platform
    return v


def call(f, seconds=5):
    """-> ('ok', value) | ('raise', exception)"""
    try:
        with limit(seconds):
            return "ok", f()
    except Exception as e:
        return "raise", e


def lookup(eid):
    from vfbLib.constants import parser_classes

    for k in parser_classes:
        if int(k) == eid:
            return parser_classes[k]
    return None


def check_entry(entry, eid, ctx, d, wire=None):
    """run both contracts of an entry type on one datum -> list of failures"""
    from specs.wire import run_wire

    fails = []
    info = lookup(eid)
    if info is None:
        return [dict(clause="registered", detail=f"no entry type {eid}")]
    key, parser, compiler = info
    if key != entry.ids[eid]:
        fails.append(dict(clause="registered", detail=f"entry {eid} is named {key!r}"))
    if parser is None or compiler is None:
        return fails + [dict(clause="registered", detail=f"entry {eid}: {parser} {compiler}")]
    expected = wire if wire is not None else run_wire(entry.layout, copy.deepcopy(d), ctx)
    arg = copy.deepcopy(d)
    vfb = make_vfb(ctx)
    st, out = call(lambda: compiler().compile(arg, vfb))
    if st == "raise":
        fails.append(dict(clause="compile: no exception", detail=f"{type(out).__name__}: {out}"))
    elif out != expected:
        fails.append(dict(clause="compile: bytes == layout(data)",
                          detail=f"got {short(out.hex())} expected {short(expected.hex())}"))
    if not same(arg, d):
        fails.append(dict(clause="compile: data unchanged (frame)", detail=short(arg)))
    exp = entry.expect(copy.deepcopy(d), ctx) if entry.expect else d
    tail = b"\x8b\x00\xff\x01\x8c"
    stream = BytesIO(expected + tail)
    vfb = make_vfb(ctx)
    st, out = call(lambda: parser().parse(stream, len(expected), vfb))
    if st == "raise":
        fails.append(dict(clause="parse: no exception", detail=f"{type(out).__name__}: {out}"))
    else:
        if not same(out, exp):
            fails.append(dict(clause="parse(layout(data)) == expect(data)",
                              detail=f"got {short(out)} expected {short(exp)}"))
        if stream.read() != tail:
            fails.append(dict(clause="parse: consumes exactly the entry", detail=""))
    return fails


def check_refuse(entry, eid, ctx, d):
    key, parser, compiler = lookup(eid)
    vfb = make_vfb(ctx)
    st, out = call(lambda: compiler().compile(copy.deepcopy(d), vfb))
    if st == "ok":
        return [dict(clause="compile: a value outside the field is refused",
                     detail=f"{short(d)} gave {short(out.hex())}")]
    if isinstance(out, Timeout):
        return [dict(clause="compile: terminates", detail=str(out))]
    return []


def entry_cases(entry, rng, n):
    """(eid, ctx, datum) triples"""
    ids = list(entry.ids)
    for i in range(n):
        ctx = entry.ctxs[i % len(entry.ctxs)]
        schema = (entry.concrete or entry.schema)(ctx)
        sz = rng.choice([0, 1, 2, 3, 4]) if ctx.M <= 4 else rng.choice([0, 1, 2])
        d = schema.gen(rng, sz)
        yield ids[i % len(ids)], ctx, d
