"""TimeDelta algebra."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 24000, 900000
RULE = ("one case = TimeDeltas built from whole and fractional units, combined by every operator and read out by every accessor, "
        "magnitudes log-uniform up to and beyond the range ends; distinct = distinct judged calls")


def build(ctx):
    g = ctx.g
    n = g.dns()
    kw = g.split_exact(n)
    if g.p(0.1):
        kw[g.ch(list(spec.UNITS))] = g.logint(75)
    ctx.call("TimeDelta", **kw)
    u = g.ch(list(spec.UNITS))
    ctx.call("fn." + u, g.ch((n // spec.UNITS[u], g.logint(40), g.r.randint(-100, 100))))
    k = spec.UNITS[u]
    t = cal.MAX_DELTA_NS // k
    ctx.call("TimeDelta", **{u: g.ch((t, -t, t + 1, -t - 1))}, **({"nanoseconds": g.ch((0, 1, -1))} if u != "nanoseconds" else {}))


def fractional(ctx):
    g = ctx.g
    u = g.ch(list(spec.UNITS)[:-1])
    f = g.ch((0.5, 1.5, -0.5, 0.1, -0.1, 2.5, 1e-9, -1e-9, 1e-3, 0.25, 1e6 + 0.5, g.r.uniform(-10, 10), g.r.uniform(-1e6, 1e6),
              1e12, -1e15, 1e20, 1e300, float("inf"), float("nan"), -0.0, 3.0, 1.999999999, 0.000001, g.r.uniform(-1e-3, 1e-3)))
    ctx.call("TimeDelta", **{u: f})
    ctx.call("fn." + u, f)
    ctx.call("TimeDelta", **{u: f}, nanoseconds=g.dns(False))
    d = g.td()
    ctx.call("*", d, f)
    ctx.call("*", f, d)
    ctx.call("/", d, f)
    ctx.call("/", d, g.ch((1, 2, 3, -7, 10, 1000, g.logint(40) or 1, 0, 10**9, 1 << 64)))


def algebra(ctx):
    g, a, b = ctx.g, ctx.g.td(), ctx.g.td()
    if g.p(0.3):
        b = MTD(g.ch((a.ns, -a.ns, cal.MAX_DELTA_NS - a.ns if a.ns > 0 else -cal.MAX_DELTA_NS - a.ns)) + g.ch((0, 1, -1)))
        if abs(b.ns) > cal.MAX_DELTA_NS:
            b = a
    ctx.call("+", a, b)
    ctx.call("-", a, b)
    ctx.call("//", a, b)
    ctx.call("%", a, b)
    ctx.call("/", a, b)
    i = g.ch((0, 1, -1, 2, 3, -7, 10, 1000, g.logint(30), g.logint(70), cal.MAX_DELTA_NS // (a.ns or 1), 1 << 60, 10**12 + 1))
    ctx.call("*", a, i)
    ctx.call("*", i, a)
    for o in ("neg", "abs", "pos", "bool"):
        ctx.call(o, a)
    for o in ("==", "<", "<=", ">", ">=", "!="):
        ctx.call(o, a, b)


def small_divisors(ctx):
    g = ctx.g
    a = g.td()
    b = MTD(g.ch((1, -1, 2, -3, 7, S, -S, 3600 * S, cal.DAY_NS, -cal.DAY_NS, 0, g.r.randint(-1000, 1000))))
    for o in ("//", "%", "/"):
        ctx.call(o, a, b)
    q = g.logint(30) * b.ns
    if abs(q) <= cal.MAX_DELTA_NS and q:
        for o in ("//", "%"):
            ctx.call(o, MTD(q), b)
            ctx.call(o, MTD(max(-cal.MAX_DELTA_NS, min(cal.MAX_DELTA_NS, q + g.ch((1, -1))))), b)


def read(ctx):
    g, a = ctx.g, ctx.g.td()
    for n in ("in_nanoseconds", "in_hrs_mins_secs_nanos", "in_days_of_24h", "in_hours", "in_minutes", "in_seconds",
              "in_milliseconds", "in_microseconds"):
        ctx.call("TimeDelta." + n, a)


WORKLOADS = [("construction", 2, build), ("fractions and floats", 2, fractional), ("algebra", 3, algebra),
             ("small divisors", 1, small_divisors), ("read-outs", 2, read)]
