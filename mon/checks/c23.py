"""replace* and combining / splitting components."""
from ..vals import *
from .. import cal, core, ops, spec, vals
from ..cal import DAY_NS

QUICK, THOROUGH = 15000, 550000
RULE = ("one case = a value with a subset of its components replaced (values of another interesting value, limits, out of range, unknown "
        "names), or taken apart and put together again by several routes; distinct = distinct judged calls")
ALL = ("year", "month", "day", "hour", "minute", "second", "nanosecond")
FIELDS = {MDate: ALL[:3], MYM: ALL[:2], MMD: ALL[1:3], MTime: ALL[3:], MLocal: ALL, MOffset: ALL, MZoned: ALL, MSystem: ALL}
LIMITS = {"year": (0, 1, 2, 4, 1900, 2000, 2024, 9998, 9999, 10000, -1), "month": (0, 1, 2, 12, 13, -1),
          "day": (0, 1, 28, 29, 30, 31, 32, -1), "hour": (0, 23, 24, -1), "minute": (0, 59, 60, -1), "second": (0, 59, 60, 61, -1),
          "nanosecond": (0, 1, 999, 1000, 999_999, 10**6, 999_999_999, 10**9, -1, 10**9 + 1)}
UNKNOWN = ("tzinfo", "fold", "microsecond", "offset", "tz", "years", "nanoseconds", "millisecond", "week", "tzname", "_nanos", "ignore", "nanos")


def _unchanged(ctx, m, o, call):
    got = snap(o)
    if not same(got, m):
        ctx.fail("the original changes", {"call": call, "before": repr(m), "after": repr(got)})


def replaced(ctx):
    g = ctx.g
    t = g.ch(tuple(FIELDS))
    m = ops.MAKE[t](g)
    other = ops.near(g, m) if t in (MZoned, MSystem) else g.local()
    src = dict(zip(ALL, cal.fields(other)))
    names = FIELDS[t]
    kw = {n: src[n] for n in names if g.p(g.ch((0.15, 0.4, 0.8)))}
    if g.p(0.35):
        n = g.ch(names)
        kw[n] = g.ch(LIMITS[n])
    if t is MMD and kw.get("day") == 29 and g.p(0.5):
        kw["month"] = 2
    if t is MZoned:
        if g.p(0.4):
            kw["disambiguate"] = g.dis()
        if g.p(0.25):
            kw["tz"] = g.tz() if g.p(0.7) else m.tz
    elif t is MSystem:
        if g.p(0.4):
            kw["disambiguate"] = g.dis()
    elif t is MOffset:
        if g.p(0.95):
            kw["ignore_dst"] = True
        if g.p(0.3):
            kw["offset"] = g.off_arg(g.off())
    if g.p(0.04):
        n = g.ch(UNKNOWN)
        if not (n == "tz" and t is MZoned or n == "offset" and t is MOffset):
            kw.setdefault(n, g.ch((0, 1, None, "UTC")))
    items = list(kw.items())
    g.r.shuffle(items)
    n = NAME[t]
    o = ctx.real(m)
    ctx.call(n + ".replace", m, **dict(items))
    _unchanged(ctx, m, o, n + ".replace")
    ctx.feat(f"{n}: {sum(k in ALL for k in kw)} fields")


def date_time(ctx):
    g = ctx.g
    t = g.ch((MLocal, MOffset, MZoned, MSystem, MZoned))
    m = ops.MAKE[t](g)
    n = NAME[t]
    l = ops.near(g, m)
    kw = {}
    if t in (MZoned, MSystem) and g.p(0.4):
        kw["disambiguate"] = g.dis()
    if t is MOffset and g.p(0.95):
        kw["ignore_dst"] = True
    o = ctx.real(m)
    d, tm = MDate(l // DAY_NS), MTime(l % DAY_NS)
    if g.p(0.5):
        ctx.call(n + ".replace_date", m, d, **kw)
    else:
        ctx.call(n + ".replace_time", m, tm, **kw)
    if g.p(0.1):
        # the parts of the value itself put back: nothing changes
        r1, _ = ctx.call(n + ".replace_date", m, MDate(m.l // DAY_NS), **{k: v for k, v in kw.items() if k == "ignore_dst"})
        r2, _ = ctx.call(n + ".replace_time", m, MTime(m.l % DAY_NS), **{k: v for k, v in kw.items() if k == "ignore_dst"})
    if g.p(0.05):
        ctx.call(n + ".replace_date", m, g.ch((tm, MLocal(l), None, 5, "2020-01-01")), **kw)
        ctx.call(n + ".replace_time", m, g.ch((d, MLocal(l), None, 5, "12:00:00")), **kw)
    _unchanged(ctx, m, o, n + ".replace_*")


def split_join(ctx):
    g = ctx.g
    W = ctx.W
    t = g.ch((MLocal, MOffset, MZoned, MSystem, MDate, MTime, MYM, MMD))
    m = ops.MAKE[t](g)
    n = NAME[t]
    o = ctx.real(m)
    bad = []

    def must(what, got, want):
        ctx.event("rejoined")
        if not same(snap(got), want):
            bad.append((what, repr(got), repr(want)))
    if t in FIELDS and FIELDS[t] is ALL:
        d, _ = ctx.call(n + ".date", m)
        tm, _ = ctx.call(n + ".time", m)
        rd, rt = o.date(), o.time()
        must("date().at(time())", rd.at(rt), MLocal(m.l))
        must("time().on(date())", rt.on(rd), MLocal(m.l))
        must("Date(fields)", W.Date(o.year, o.month, o.day), MDate(m.l // DAY_NS))
        must("Time(fields)", W.Time(o.hour, o.minute, o.second, nanosecond=o.nanosecond), MTime(m.l % DAY_NS))
        f = [o.year, o.month, o.day, o.hour, o.minute, o.second]
        must("LocalDateTime(fields)", W.LocalDateTime(*f, nanosecond=o.nanosecond), MLocal(m.l))
        if t is MLocal:
            must("assume_utc", o.assume_utc(), MInstant(m.l))
            off = g.off()
            if 0 <= m.l - off * S <= cal.MAX_NS:
                x = o.assume_fixed_offset(W.TimeDelta(seconds=off))
                must("assume_fixed_offset", x, MOffset(m.l, off))
                must("assume_fixed_offset().local()", x.local(), m)
            tz = g.tz()
            ctx.call("LocalDateTime.assume_tz", m, tz, **({"disambiguate": g.dis()} if g.p(0.5) else {}))
            ctx.call("LocalDateTime.assume_system_tz", m, **({"disambiguate": g.dis()} if g.p(0.5) else {}))
        else:
            x = o.local()
            must("local()", x, MLocal(m.l))
            must("instant()", o.instant(), MInstant(utc(m)))
            must("local().assume_fixed_offset(offset)", x.assume_fixed_offset(o.offset), MOffset(m.l, m.off))
            if t is MOffset:
                must("OffsetDateTime(fields)", W.OffsetDateTime(*f, nanosecond=o.nanosecond, offset=o.offset), m)
            elif t is MZoned:
                z = spec._zone(m.tz).resolve(m.l // S)
                dis = "later" if z[0] == "fold" and m.off == z[2] else "earlier"
                must("local().assume_tz(tz)", x.assume_tz(o.tz, disambiguate=dis), m)
                must("ZonedDateTime(fields)", W.ZonedDateTime(*f, nanosecond=o.nanosecond, tz=o.tz, disambiguate=dis), m)
                must("replace_date(date())", o.replace_date(rd), m)
                must("replace_time(time())", o.replace_time(rt), m)
                must("replace()", o.replace(), m)
                must("replace(fields)", o.replace(**dict(zip(ALL, f + [o.nanosecond]))), m)
                ctx.feat("rejoined " + z[0])
    elif t is MDate:
        must("year_month().on_day()", o.year_month().on_day(o.day), m)
        must("month_day().in_year()", o.month_day().in_year(o.year), m)
        x = g.time()
        ctx.call("Date.at", m, x)
        r = o.at(ctx.real(x))
        must("at().date()", r.date(), m)
        must("at().time()", r.time(), x)
    elif t is MTime:
        x = g.date()
        ctx.call("Time.on", m, x)
        r = m and o.on(ctx.real(x))
        must("on().time()", r.time(), m)
        must("on().date()", r.date(), x)
    elif t is MYM:
        day = g.r.randint(1, cal.dim(m.year, m.month))
        must("on_day().year_month()", o.on_day(day).year_month(), m)
        ctx.call("YearMonth.on_day", m, g.r.randint(-1, 33))
    else:
        y = g.year()
        ctx.call("MonthDay.in_year", m, y)
        if (m.month, m.day) != (2, 29) or cal.dim(y, 2) == 29:
            must("in_year().month_day()", o.in_year(y).month_day(), m)
    ctx.key(("join", m))
    if bad:
        ctx.fail("split and joined: " + bad[0][0], {"call": n + " " + bad[0][0], "value": repr(m), "observed": bad[0][1], "expected": bad[0][2],
                                                   "system_tz": spec.Sys.name})
    _unchanged(ctx, m, o, "splitting")


WORKLOADS = [("replace", 5, replaced), ("replace_date/time", 2.5, date_time), ("split and join", 3, split_join)]
