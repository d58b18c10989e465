"""Exact-unit arithmetic."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 9000, 400000
RULE = ("one case = one value (biased to transitions, epoch and range ends) shifted by an exact amount in every spelling, "
        "or a difference of two; distinct = distinct calls whose outcome the reference model determines")


def _val(ctx):
    g = ctx.g
    return g.ch((g.instant, g.zoned, g.zoned, g.system, g.offset))()


def _delta_for(ctx, m):
    """amounts that land near transitions, day ends, range ends"""
    g = ctx.g
    k = g.r.random()
    if k < 0.35 and type(m) is MZoned:
        t = g.trans(spec._zone(m.tz), m.tz)
        if t:
            return t[0] * S + g.ch((0, 0, -1, 1, -S, S, g.r.randint(-7200, 7200) * S)) - utc(m)
    if k < 0.45:
        return g.ch((-utc(m), cal.MAX_NS - utc(m), cal.EPOCH_NS - utc(m))) + g.ch((0, 1, -1, S, -S, 3600 * S))
    return g.dns(big=g.p(0.4))


def shift(ctx):
    g, m = ctx.g, _val(ctx)
    c = NAME[type(m)]
    d = max(-cal.MAX_DELTA_NS, min(cal.MAX_DELTA_NS, _delta_for(ctx, m)))
    if type(m) is MZoned:
        a, b = spec._zone(m.tz).offset_at(utc(m) // S), None
        u = utc(m) + d
        if 0 <= u <= cal.MAX_NS:
            b = spec._zone(m.tz).offset_at(u // S)
            ctx.feat("offset differs across the shift" if a != b else "offset equal across the shift")
    if type(m) is MOffset:
        ctx.call(c + ".add", m, MTD(d), ignore_dst=True)
        return
    got, _ = ctx.call("+", m, MTD(d))
    ctx.call("-", m, MTD(-d))
    kw = g.split_exact(d)
    ctx.call(c + ".add", m, **kw)
    ctx.call(c + ".subtract", m, **{k: -v for k, v in kw.items()})
    if type(m) is not MInstant:
        ctx.call(c + ".add", m, MTD(d))
        ctx.call(c + ".subtract", m, MTD(-d))
    if type(got) is type(m):
        ctx.call("-", got, MTD(d))
        ctx.call("-", got, m)


def diff(ctx):
    g, a = ctx.g, _val(ctx)
    b = g.same_moment(a) if g.p(0.4) else _val(ctx)
    got, _ = ctx.call("-", a, b)
    ctx.call(NAME[type(a)] + ".difference", a, b)
    if type(got) is MTD and type(b) is not MOffset:
        ctx.call("+", b, got)


def fractional(ctx):
    g, m = ctx.g, ctx.g.ch((ctx.g.instant, ctx.g.zoned))()
    u = g.ch(list(spec.UNITS)[:-1])
    v = g.ch((0.5, 1.5, 0.25, 2.75, -0.5, 1e-3, g.r.uniform(-1000, 1000), g.r.uniform(-1, 1), 1e9, -1e-9))
    ctx.call(NAME[type(m)] + g.ch((".add", ".subtract")), m, **{u: v})


def chain(ctx):
    """a walk along the timeline with every step checked, back to the start"""
    g = ctx.g
    m = g.zoned() if g.p(0.7) else g.system(stale=0)
    done = 0
    cur = m
    for _ in range(4):
        d = g.dns(big=False)
        got, _ = ctx.call("+", cur, MTD(d))
        if type(got) is not type(m):
            return
        cur, done = got, done + d
    ctx.call("-", cur, MTD(done))


WORKLOADS = [("shift", 5, shift), ("difference", 3, diff), ("fractional units", 0.5, fractional), ("chain", 1, chain)]
