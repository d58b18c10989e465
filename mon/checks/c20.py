"""Day boundaries: start_of_day, day_length, round('day'), is_ambiguous."""
from ..vals import *
from .. import cal, core, gen, ops, spec, vals
from ..cal import DAY_NS

QUICK, THOROUGH = 14000, 500000
RULE = ("one case = a zoned or system datetime on a day of its timezone (mostly the days on or next to a transition, with the clock at "
        "midnight, inside the fold or gap, at half the day's length, at its end) on which all the day operations are judged; "
        "distinct = distinct judged calls")
SYS_ZONES = ["America/Sao_Paulo", "Africa/Cairo", "Asia/Beirut", "America/Havana", "Pacific/Apia", "Europe/Amsterdam", "Asia/Tehran",
             "America/Asuncion"]


def _pick(g, z, key):
    """an interesting day of the zone"""
    ts = gen.transitions(z, key)
    if ts and g.p(0.85):
        t = g.ch(ts)
        d = (t[0] + g.ch(t[1:3])) // 86400 + g.ch((0, 0, 0, 1, -1))
        return min(max(d, 0), cal.MAX_DAY), t
    if g.p(0.3):
        return g.ch((0, 1, 2, cal.MAX_DAY, cal.MAX_DAY - 1, cal.MAX_DAY - 2)), None
    return g.day(), None


def _midnight_kind(z, d):
    return z.resolve(d * 86400)[0]


def _value(g, z, d, t, tz):
    k = g.r.random()
    if k < 0.2:
        tod = g.ch((0, 0, 1, DAY_NS - 1, S))
    elif k < 0.5:
        # half the day's length, as the clock shows it
        try:
            ln = spec.resolve(z, (d + 1) * DAY_NS, "compatible") - spec.resolve(z, d * DAY_NS, "compatible")
        except Exception:
            ln = DAY_NS
        tod = ln // 2 + g.ch((0, 1, -1, 0, S, -S, 1800 * S, -1800 * S, 3600 * S, -3600 * S))
    elif k < 0.85 and t is not None:
        l = (t[0] + g.ch(t[1:3])) * S + g.ch((0, 0, -1, 1, S, -S, 1800 * S, -1800 * S, 3600 * S, -3600 * S, g.r.randint(-7200 * S, 7200 * S)))
        d, tod = divmod(l, DAY_NS)
    else:
        tod = g.tod()
    l = min(max(d * DAY_NS + min(max(tod, 0), DAY_NS - 1), 0), cal.MAX_NS)
    r = z.resolve(l // S)
    if r[0] == "gap":
        u = l - g.ch(r[1:]) * S
        off = z.offset_at(u // S)
        l = u + off * S
    else:
        off = g.ch(r[1:])
    if not (0 <= l <= cal.MAX_NS and 0 <= l - off * S <= cal.MAX_NS):
        return None
    return MZoned(l, off, tz) if tz else MSystem(l, off)


def _day_ops(ctx, m, n, z):
    g = ctx.g
    sod, e1 = ctx.call(n + ".start_of_day", m)
    ln, e2 = ctx.call(n + ".day_length", m)
    ctx.call(n + ".is_ambiguous", m)
    ctx.call(n + ".round", m, "day", 1, g.ch(spec.MODES))
    ctx.call(n + ".round", m, "day")
    if e1 is spec.SKIP or e2 is spec.SKIP or type(sod) is not type(m) or type(ln) is not MTD:
        return
    ctx.feat("day length 24 h" if ln.ns == DAY_NS else "day length other, about %+.0f h" % ((ln.ns - DAY_NS) / (3600 * S)))
    # the parts fit together: start <= value < start + length
    if not utc(sod) <= utc(m) < utc(sod) + ln.ns and _simple(z, m, sod):
        ctx.fail("day does not contain its own moment", {"call": n + ".start_of_day", "value": repr(m), "start": repr(sod), "length": ln.ns})
    ctx.event("containment")


def _simple(z, m, sod):
    """no transition changes the date within the day (repeated dates are legitimate exceptions)"""
    d = m.l // DAY_NS
    return z.resolve(d * 86400)[0] == "one" and z.resolve((d + 1) * 86400)[0] == "one" and sod.l // DAY_NS == d


def zoned(ctx):
    g = ctx.g
    tz = g.tz()
    z = spec._zone(tz)
    d, t = _pick(g, z, tz)
    m = _value(g, z, d, t, tz)
    if m is None:
        return
    ctx.feat("midnight " + _midnight_kind(z, m.l // DAY_NS))
    _day_ops(ctx, m, "ZonedDateTime", z)


def system(ctx):
    g = ctx.g
    z = spec.Sys.zone
    if g.p(0.05):
        core.set_tz(g.ch(core.SYS_ZONES + SYS_ZONES))
        z = spec.Sys.zone
    d, t = _pick(g, z, "sys:" + spec.Sys.name)
    m = _value(g, z, d, t, None)
    if m is None:
        return
    ctx.feat("system midnight " + _midnight_kind(z, m.l // DAY_NS))
    _day_ops(ctx, m, "SystemDateTime", z)


_MID = {}


def midnight_zones(ctx):
    """zones and days whose midnight is skipped or repeated (found from the database)"""
    if not _MID:
        for tz in sorted(set(gen.CANON[getattr(ctx, 'worker', 0) % 8::8]) | set(gen.HOT)):
            z = spec._zone(tz)
            for t in gen.transitions(z, tz):
                a, b = sorted((t[0] + t[1], t[0] + t[2]))
                d = -(-a // 86400)
                if d * 86400 < b or (d * 86400 == b and t[2] < t[1]):
                    _MID.setdefault(tz, []).append((d, t))
    g = ctx.g
    tz = g.ch(sorted(_MID))
    z = spec._zone(tz)
    d, t = g.ch(_MID[tz])
    d = min(max(d + g.ch((0, 0, 0, -1, 1)), 0), cal.MAX_DAY)
    m = _value(g, z, d, t, tz)
    if m is not None:
        ctx.feat("transition over midnight")
        _day_ops(ctx, m, "ZonedDateTime", z)


WORKLOADS = [("zoned", 4, zoned), ("system", 2, system), ("transitions over midnight", 3, midnight_zones)]
