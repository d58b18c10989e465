"""Unix timestamps."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 10000, 500000
RULE = ("one case = one moment read out as seconds, millis and nanos and rebuilt in every class, or one raw timestamp (int "
        "or float, boundary-biased, also out of range) handed to every from_timestamp*; distinct = distinct judged calls")
UN = (("from_timestamp", S), ("from_timestamp_millis", 10**6), ("from_timestamp_nanos", 1))


def out(ctx):
    g, m = ctx.g, ctx.g.exact()
    c = NAME[type(m)]
    for n in ("timestamp", "timestamp_millis", "timestamp_nanos"):
        ctx.call(f"{c}.{n}", m)
    t = utc(m) - cal.EPOCH_NS
    if t < 0:
        ctx.feat("before the epoch")
    n, u = g.ch(UN)
    _in(ctx, n, t // u, m)


def _in(ctx, n, i, m=None):
    g = ctx.g
    ctx.call("Instant." + n, i)
    tz = m.tz if type(m) is MZoned else g.tz()
    ctx.call("ZonedDateTime." + n, i, tz=tz)
    off = m.off if m is not None and type(m) is not MInstant else g.off()
    ctx.call("OffsetDateTime." + n, i, offset=g.off_arg(off), ignore_dst=True)
    ctx.call("SystemDateTime." + n, i)


def ints(ctx):
    g = ctx.g
    n, u = g.ch(UN)
    k = g.r.random()
    if k < 0.3:
        i = g.ch((-62135596800, 253402300799, 253402300800, -62135596801, 0, -1, 1, 1 << 31, (1 << 31) - 1, -(1 << 31) - 1,
                  1 << 32, 1 << 62, 1 << 63, -(1 << 63), 1 << 64, 10**15, 10**18, 10**30, -10**30))
        i = i * (S // u) + g.ch((0, 1, -1, g.r.randint(0, S)))
    elif k < 0.6:
        i = g.r.randint(-62135596800 * (S // u), 253402300800 * (S // u))
    else:
        i = g.logint(66)
    _in(ctx, n, i)


def floats(ctx):
    g = ctx.g
    k = g.r.random()
    if k < 0.3:
        f = g.ch((0.0, -0.0, -1e-20, 1e-20, -1e-9, 1e-9, -5e-10, -1e-10, 0.999999999, -0.999999999, 0.9999999999999999, -1e-300, 5e-324,
                  -5e-324, 1.5, -1.5, 0.1, -0.1, 1e-6, 2.0**52, 2.0**53, 1e18, -1e18, 1e300, float("inf"), float("-inf"),
                  float("nan"), 253402300799.0, -62135596800.0, 1e11, -1e10))
    elif k < 0.6:
        f = g.r.randint(-10**10, 10**10) + g.ch((0.5, 0.25, 0.1, 0.999999, 0.000001, 0.123456789, g.r.random()))
    else:
        f = g.r.uniform(-62e9, 253e9) * g.ch((1, 1e-3, 1e-6, 1e-9))
    if g.p(0.1):
        # wrong type for the exact variants
        ctx.call("Instant." + g.ch(UN)[0], f)
        ctx.call("ZonedDateTime.from_timestamp_millis", f, tz="UTC")
        ctx.call("SystemDateTime.from_timestamp_nanos", f)
        ctx.call("OffsetDateTime.from_timestamp_millis", f, offset=1, ignore_dst=True)
        return
    _in(ctx, "from_timestamp", f)


def edges(ctx):
    """offsets pushing a representable moment over the local range ends"""
    g = ctx.g
    n, u = g.ch(UN)
    o = g.off()
    t = g.ch((0, cal.MAX_NS)) + g.ch((0, 1, -1, o * S, -o * S, o * S + 1, -o * S - 1, g.r.randint(-100000, 100000) * S))
    ctx.call("OffsetDateTime." + n, (t - cal.EPOCH_NS) // u, offset=MTD(o * S), ignore_dst=True)
    ctx.call("ZonedDateTime." + n, (t - cal.EPOCH_NS) // u, tz=g.tz())
    ctx.call("Instant." + n, (t - cal.EPOCH_NS) // u)


WORKLOADS = [("read out and rebuild", 4, out), ("integer timestamps", 2, ints), ("float timestamps", 1.5, floats),
             ("range ends", 1, edges)]
