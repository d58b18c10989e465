"""Explicit disambiguation."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 7000, 350000
RULE = ("one case = a local time inside, at the ends of, or near a gap or fold (or anywhere) resolved under all four settings by "
        "every entry point; distinct = distinct judged calls")


def _pick(ctx):
    g = ctx.g
    for _ in range(10):
        tz = g.tz()
        l = g.near_local(spec._zone(tz), tz) if g.p(0.9) else g.local()
        if l is not None:
            break
    else:
        l = g.local()
    ctx.feat("resolution " + spec._zone(tz).resolve(l // S)[0])
    return tz, l


def _f(l):
    *f, n = cal.fields(l)
    return f, n


def zoned(ctx):
    g = ctx.g
    tz, l = _pick(ctx)
    f, n = _f(l)
    for d in spec.DIS:
        ctx.call("ZonedDateTime", *f, nanosecond=n, tz=tz, disambiguate=d)
        ctx.call("LocalDateTime.assume_tz", MLocal(l), tz, disambiguate=d)
    ctx.call("ZonedDateTime", *f, nanosecond=n, tz=tz)
    ctx.call("LocalDateTime.assume_tz", MLocal(l), tz)
    # from another value of the zone
    z = g.zoned(tz)
    d = g.dis()
    day, t = divmod(l, cal.DAY_NS)
    if z.l % cal.DAY_NS != t or g.p(0.5):
        z = _with(z, l, day=None) or z
    ctx.call("ZonedDateTime.replace", z, **_repl(g, l), disambiguate=d)
    ctx.call("ZonedDateTime.replace_date", _same_time(ctx, tz, z, t) or z, MDate(day), disambiguate=d)
    ctx.call("ZonedDateTime.replace_time", _same_date(ctx, tz, day) or z, MTime(t), disambiguate=d)


def _repl(g, l):
    y, mo, d, h, mi, s, n = cal.fields(l)
    return dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s, nanosecond=n)


def _with(z, l, day):
    return None


def _same_time(ctx, tz, z, t):
    """an existing value with this time of day on some other date"""
    for _ in range(3):
        try:
            return spec.zresolve(tz, ctx.g.day() * cal.DAY_NS + t, "raise")
        except spec.Bad:
            pass


def _same_date(ctx, tz, day):
    try:
        return spec.zresolve(tz, day * cal.DAY_NS + ctx.g.ch((0, 6, 12, 18, 23)) * 3600 * S, ctx.g.ch(("earlier", "later")))
    except spec.Bad:
        return None


def zoned_shift(ctx):
    """calendar arithmetic landing on an ambiguous or skipped time"""
    g = ctx.g
    tz, l = _pick(ctx)
    m, d = g.small_date_delta()
    day, t = divmod(l, cal.DAY_NS)
    src = cal.shift_date(day, -m, -d)
    if src is None:
        return
    try:
        z = spec.zresolve(tz, src * cal.DAY_NS + t, g.ch(("earlier", "later")))
    except spec.Bad:
        return
    kw = g.split_date(m, d) or {"days": 0}
    for dis in spec.DIS:
        ctx.call("ZonedDateTime.add", z, **kw, disambiguate=dis)
    dis = g.dis()
    ctx.call("ZonedDateTime.subtract", z, **{k: -v for k, v in kw.items()}, disambiguate=dis)
    if not (m > 0 > d or m < 0 < d):
        ctx.call("ZonedDateTime.add", z, MDD(m, d), disambiguate=dis)
        ctx.call("ZonedDateTime.subtract", z, MDD(-m, -d), disambiguate=dis)
        n = abs(g.dns(False)) if m > 0 or d > 0 else -abs(g.dns(False))
        ctx.call("ZonedDateTime.add", z, MDTD(m, d, n), disambiguate=dis)
    ctx.call("ZonedDateTime.add", z, **kw, **g.split_exact(g.dns(False)), disambiguate=dis)


def system(ctx):
    g = ctx.g
    z = spec.Sys.zone
    l = g.near_local(z, "sys:" + spec.Sys.name)
    if l is None:
        l = g.local()
    ctx.feat("system resolution " + z.resolve(l // S)[0])
    f, n = _f(l)
    for d in spec.DIS:
        ctx.call("SystemDateTime", *f, nanosecond=n, disambiguate=d)
        ctx.call("LocalDateTime.assume_system_tz", MLocal(l), disambiguate=d)
    ctx.call("SystemDateTime", *f, nanosecond=n)
    ctx.call("LocalDateTime.assume_system_tz", MLocal(l))
    s = g.system()
    d = g.dis()
    ctx.call("SystemDateTime.replace", s, **_repl(g, l), disambiguate=d)
    ctx.call("SystemDateTime.replace_date", MSystem(s.l // cal.DAY_NS * cal.DAY_NS + l % cal.DAY_NS, s.off)
             if spec.ok_local(s.l // cal.DAY_NS * cal.DAY_NS + l % cal.DAY_NS - s.off * S) else s, MDate(l // cal.DAY_NS), disambiguate=d)
    ctx.call("SystemDateTime.replace_time", s, MTime(l % cal.DAY_NS), disambiguate=d)
    m, dd = g.small_date_delta()
    ctx.call("SystemDateTime.add", s, **(g.split_date(m, dd) or {"days": 0}), disambiguate=d)


def invalid(ctx):
    g = ctx.g
    tz, l = _pick(ctx)
    f, n = _f(l)
    bad = g.ch(("Compatible", "COMPATIBLE", "", "first", "reject", "compat", "earlier ", "late", "0", "raise\n", "fold", "previous", "strict"))
    ctx.call("ZonedDateTime", *f, nanosecond=n, tz=tz, disambiguate=bad)
    ctx.call("LocalDateTime.assume_tz", MLocal(l), tz, disambiguate=bad)
    ctx.call("SystemDateTime", *f, nanosecond=n, disambiguate=bad)
    ctx.call("LocalDateTime.assume_system_tz", MLocal(l), disambiguate=bad)
    z = g.zoned(tz)
    ctx.call("ZonedDateTime.replace", z, second=g.r.randint(0, 59), disambiguate=bad)
    ctx.call("ZonedDateTime.replace_date", z, MDate(g.day()), disambiguate=bad)
    ctx.call("ZonedDateTime.replace_time", z, g.time(), disambiguate=bad)
    ctx.call("ZonedDateTime.add", z, days=g.ch((1, -1, 30)), disambiguate=bad)
    s = g.system()
    ctx.call("SystemDateTime.replace_time", s, g.time(), disambiguate=bad)
    ctx.call("SystemDateTime.replace_date", s, g.date(), disambiguate=bad)
    ctx.call("SystemDateTime.replace", s, hour=g.r.randint(0, 23), disambiguate=bad)
    ctx.call("SystemDateTime.add", s, days=1, disambiguate=bad)


WORKLOADS = [("zoned entry points", 4, zoned), ("zoned arithmetic", 3, zoned_shift), ("system entry points", 1.5, system),
             ("invalid settings", 0.3, invalid)]
