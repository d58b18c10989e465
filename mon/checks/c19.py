"""Rounding to units, increments and modes."""
from ..vals import *
from .. import cal, core, ops, spec, vals
from ..cal import DAY_NS

QUICK, THOROUGH = 26000, 900000
RULE = ("one case = a value at, next to or half way between two multiples of the increment (clock values also next to midnight, to a "
        "DST transition and to the range ends), rounded by the specification and by the code; a slice of every (type, unit, increment, "
        "mode) combination is also enumerated; distinct = distinct judged calls")
CLOCK = (MTime, MInstant, MLocal, MOffset, MZoned, MSystem)


def _args(g, kw):
    """keyword or positional spelling"""
    if g.p(0.25):
        k = [kw.get("unit", "second"), kw.get("increment", 1), kw.get("mode", "half_even")]
        return tuple(k[:g.r.randint(1, 3)]) if g.p(0.3) else tuple(k), {}
    return (), dict(kw)


def _go(ctx, n, m, kw):
    a, k = _args(ctx.g, kw)
    if n == "OffsetDateTime":
        k["ignore_dst"] = True
    got, exp = ctx.call(n + ".round", m, *a, **k)
    if type(got) in NAME and type(exp) in NAME:
        kk = {x: kw[x] for x in kw}
        if a:
            kk = dict(zip(("unit", "increment", "mode"), a))
        ctx.feat(kk.get("mode", "half_even") + " " + kk.get("unit", "second"))
        ctx.feat(n + (" unchanged" if same(got, m) else " moved"))
        # a rounded value is a fixed point of every mode
        if ctx.g.p(0.15) and ctx.last is not None and type(m) not in (MZoned, MSystem):
            k2 = {**kk, "mode": ctx.g.ch(spec.MODES)}
            if n == "OffsetDateTime":
                k2["ignore_dst"] = True
            r2 = ctx.last.round(**k2)
            ctx.event("rounded twice")
            if not same(snap(r2), got):
                ctx.fail("rounding a multiple moves it", {"call": core.show(n + ".round", (got,), k2), "observed": repr(r2)})


def _local_at(g, day, tod):
    return min(max(day * DAY_NS + tod, 0), cal.MAX_NS)


def clock(ctx):
    g = ctx.g
    t = g.ch(CLOCK)
    kw = g.round_args(day=t not in (MTime, MInstant) or g.p(0.1))
    n = NAME[t]
    if kw.get("unit") == "day":
        m = ops.MAKE[t](g)
        if t not in (MTime, MInstant) and g.p(0.6):
            m = _with(g, m, DAY_NS // 2 + g.ch((0, 1, -1, S, -S, 1800 * S, -1800 * S, 3600 * S, -3600 * S)))
    else:
        m = _with(g, ops.MAKE[t](g), g.near_multiple(kw))
    if m is not None:
        _go(ctx, n, m, kw)


def _with(g, m, tod):
    """the value with another time of day (None if it does not exist)"""
    t = type(m)
    if t is MTime:
        return MTime(tod)
    if t is MInstant:
        return MInstant(_local_at(g, m.u // DAY_NS, tod))
    l = _local_at(g, m.l // DAY_NS, tod)
    if t is MLocal:
        return MLocal(l)
    if t is MOffset:
        return MOffset(l, m.off) if 0 <= l - m.off * S <= cal.MAX_NS else None
    z = spec._zone(m.tz) if t is MZoned else spec.Sys.zone
    r = z.resolve(l // S)
    if r[0] not in ("one", "fold"):
        return None
    off = g.ch(r[1:])
    if not 0 <= l - off * S <= cal.MAX_NS:
        return None
    return MZoned(l, off, m.tz) if t is MZoned else MSystem(l, off)


def around_transitions(ctx):
    """zoned values whose neighbouring multiples lie across a transition"""
    g = ctx.g
    if g.p(0.7):
        m = g.zoned()
        z = spec._zone(m.tz)
    else:
        m = g.system(0)
        z = spec.Sys.zone
    kw = g.round_args()
    if g.p(0.5):
        kw["unit"] = g.ch(("hour", "hour", "minute"))
        kw["increment"] = g.ch((1, 2, 3, 4, 6, 12)) if kw["unit"] == "hour" else g.ch((1, 5, 10, 15, 20, 30))
    _go(ctx, NAME[type(m)], m, kw)
    ctx.feat("transition nearby: " + z.resolve(m.l // S)[0])


def delta(ctx):
    g = ctx.g
    kw = g.round_args(day=False, any_hour=True)
    k = g.r.random()
    if k < 0.6:
        m = MTD(g.near_multiple(kw, hi=g.ch((DAY_NS, 1000 * DAY_NS, cal.MAX_DELTA_NS)), lo=-g.ch((DAY_NS, 1000 * DAY_NS, cal.MAX_DELTA_NS))))
    elif k < 0.75:
        m = MTD(g.ch((1, -1)) * (cal.MAX_DELTA_NS - abs(g.dns()) % (DAY_NS * g.ch((1, 50)))))
    else:
        m = g.td()
    _go(ctx, "TimeDelta", m, kw)


def edges(ctx):
    """next to the ends of the range"""
    g = ctx.g
    t = g.ch((MInstant, MLocal, MOffset, MZoned, MSystem))
    kw = g.round_args(day=t is not MInstant)
    d = g.ch((0, 0, 1, cal.MAX_DAY, cal.MAX_DAY, cal.MAX_DAY - 1))
    l = min(max(d * DAY_NS + (g.near_multiple(kw) if g.p(0.6) else g.ch((0, 1, DAY_NS - 1, DAY_NS - S, DAY_NS // 2))), 0), cal.MAX_NS)
    if t in (MInstant, MLocal):
        m = t(l)
    elif t is MOffset:
        m = MOffset(l, g.off())
    else:
        tz = g.tz() if t is MZoned else None
        z = spec._zone(tz) if tz else spec.Sys.zone
        r = z.resolve(l // S)
        m = MZoned(l, r[1], tz) if tz else MSystem(l, r[1])
    if not 0 <= utc(m) <= cal.MAX_NS if t is not MLocal else False:
        return
    _go(ctx, NAME[t], m, kw)
    ctx.feat("edge of range")


def start(ctx):
    """enumerate (type, unit, increment, mode): this worker's slice"""
    g = ctx.g
    units = ("day", "hour", "minute", "second", "millisecond", "microsecond", "nanosecond")
    w = getattr(ctx, "worker", 0)
    i = 0
    for t in (MTime, MInstant, MLocal, MOffset, MZoned, MSystem, MTD):
        for u in units:
            hi = 1002 if u == "hour" and t is MTD else 1002
            for inc in range(-2, hi):
                i += 1
                if i % 8 != w % 8:
                    continue
                for mode in (spec.MODES if u in spec._DIV and 0 < inc and spec._DIV[u][0] % inc == 0 else (g.ch(spec.MODES),)):
                    kw = {"unit": u, "increment": inc, "mode": mode}
                    if t is MTD:
                        m = MTD(g.near_multiple(kw, hi=1000 * DAY_NS, lo=-1000 * DAY_NS))
                    else:
                        m = _with(g, ops.MAKE[t](g), g.near_multiple(kw) if u != "day" else g.tod())
                    if m is None:
                        continue
                    if t is MOffset:
                        kw["ignore_dst"] = True
                    ctx.call(NAME[t] + ".round", m, **kw)
                    ctx.feat("enumerated combinations")


WORKLOADS = [("clock values", 5, clock), ("around transitions", 2, around_transitions), ("TimeDelta", 2.5, delta), ("range ends", 1, edges)]
