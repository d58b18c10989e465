"""Conversions between exact types."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 10000, 500000
RULE = ("one case = an exact value converted along a random chain of to_tz/to_fixed_offset/to_system_tz/instant, each step judged "
        "against the tz database reader, with local fields read back; distinct = distinct judged calls")


def chain(ctx):
    g, m = ctx.g, ctx.g.exact()
    cur = m
    for _ in range(g.r.randint(1, 4)):
        c = NAME[type(cur)]
        k = g.r.randint(0, 5)
        if k <= 2:
            tz = g.tz()
            got, _ = ctx.call(c + ".to_tz", cur, tz)
        elif k == 3:
            a = () if g.p(0.3) else (g.off_arg(g.off()),)
            got, _ = ctx.call(c + ".to_fixed_offset", cur, *a)
        elif k == 4:
            got, _ = ctx.call(c + ".to_system_tz", cur)
        elif type(cur) is not MInstant:
            got, _ = ctx.call(c + ".instant", cur)
        else:
            continue
        if type(got) not in EXACT:
            return
        if utc(got) != utc(m):
            return
        if type(got) is not MInstant:
            fields(ctx, got)
        cur = got


def fields(ctx, m):
    c = NAME[type(m)]
    n = ctx.g.ch(("local", "date", "time", "offset", "year", "month", "day", "hour", "minute", "second", "nanosecond", "instant"))
    ctx.call(f"{c}.{n}", m)
    if type(m) is MZoned and ctx.g.p(0.2):
        ctx.call("ZonedDateTime.tz", m)


def around_transitions(ctx):
    """the exact second a zone's offset changes"""
    g = ctx.g
    tz = g.tz()
    t = g.trans(spec._zone(tz), tz)
    if t is None:
        return
    ctx.feat("at a transition")
    for du in (-1, 0, 1, S):
        u = t[0] * S + du
        if 0 <= u <= cal.MAX_NS:
            ctx.call("Instant.to_tz", MInstant(u), tz)
    u = t[0] * S + g.ch((-1, 0, -S, S))
    if 0 <= u <= cal.MAX_NS:
        o = g.same_moment(MInstant(u))
        ctx.call(NAME[type(o)] + ".to_tz", o, tz)


def edges(ctx):
    g = ctx.g
    u = g.r.randint(0, 100000) * S + g.nanos()
    m = MInstant(u if g.p(0.5) else cal.MAX_NS - u)
    if g.p(0.5):
        off = g.off()
        if spec.ok_local(utc(m) + off * S):
            m = MOffset(utc(m) + off * S, off)
    c = NAME[type(m)]
    ctx.call(c + ".to_tz", m, g.tz())
    ctx.call(c + ".to_fixed_offset", m, g.off_arg(g.off()))
    ctx.call(c + ".to_system_tz", m)
    if type(m) is MOffset:
        ctx.call(c + ".instant", m)
        ctx.call(c + ".to_fixed_offset", m)


def bad_args(ctx):
    g, m = ctx.g, ctx.g.exact()
    c = NAME[type(m)]
    ctx.call(c + ".to_fixed_offset", m, g.ch((24, -24, 25, 100, MTD(86400 * S), MTD(-86400 * S), MTD(1), MTD(S + 1), MTD(-500), MTD(cal.MAX_DELTA_NS), 10**6)))
    ctx.call(c + ".to_tz", m, g.ch(("Nowhere/City", "", "Europe", "Europe/amsterdamm", "UTC\x00", "../UTC", "/UTC", "UTC ", " UTC")))


WORKLOADS = [("conversion chains", 5, chain), ("transition seconds", 2, around_transitions), ("range ends", 1, edges),
             ("refused arguments", 0.3, bad_args)]
