"""Calendar arithmetic on ZonedDateTime."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 12000, 500000
RULE = ("one case = a ZonedDateTime shifted by calendar units (mostly onto or out of a gap or fold) in every spelling, or a "
        "field/date/time replaced without disambiguate; distinct = distinct judged calls")


def _aimed(ctx):
    """a value and a calendar delta whose target is near a transition"""
    g = ctx.g
    tz = g.tz()
    z = spec._zone(tz)
    for _ in range(8):
        l = g.near_local(z, tz)
        if l is None:
            break
        m, d = g.small_date_delta()
        if g.p(0.2):
            m, d = g.dmonths(), g.ddays()
        day, t = divmod(l, cal.DAY_NS)
        src = cal.shift_date(day, -m, -d)
        if src is None:
            continue
        try:
            v = spec.zresolve(tz, src * cal.DAY_NS + t, g.ch(("earlier", "later")))
        except spec.Bad:
            continue
        ctx.feat("target " + z.resolve(l // S)[0])
        return v, m, d
    return g.zoned(tz), *g.small_date_delta()


def shift(ctx):
    g = ctx.g
    v, m, d = _aimed(ctx)
    kw = g.split_date(m, d) or {"days": 0}
    got, _ = ctx.call("ZonedDateTime.add", v, **kw)
    ctx.call("ZonedDateTime.subtract", v, **{k: -x for k, x in kw.items()})
    if not (m > 0 > d or m < 0 < d):
        ctx.call("+", v, MDD(m, d))
        ctx.call("-", v, MDD(-m, -d))
        ctx.call("ZonedDateTime.add", v, MDD(m, d))
        ctx.call("ZonedDateTime.subtract", v, MDD(-m, -d))
    if type(got) is MZoned and g.p(0.3):
        # and on from the result
        m2, d2 = g.small_date_delta()
        ctx.call("ZonedDateTime.add", got, months=m2, days=d2)


def mixed(ctx):
    g = ctx.g
    v, m, d = _aimed(ctx)
    n = g.dns(big=g.p(0.2))
    ctx.call("ZonedDateTime.add", v, **g.split_date(m, d), **g.split_exact(n))
    ctx.call("ZonedDateTime.subtract", v, **g.split_date(m, d), **g.split_exact(n))
    if not (m > 0 > d or m < 0 < d):
        sg = 1 if (m or d) > 0 else -1
        n = sg * abs(n)
        x = MDTD(m, d, n)
        ctx.call("+", v, x)
        ctx.call("-", v, x)
        ctx.call("ZonedDateTime.add", v, x)
        ctx.call("ZonedDateTime.subtract", v, MDTD(-m, -d, -n))


def anywhere(ctx):
    g = ctx.g
    v = g.zoned()
    ctx.call("ZonedDateTime.add", v, **g.shift_kw())
    ctx.call("ZonedDateTime.subtract", v, **g.shift_kw())
    x = g.delta()
    ctx.call("+", v, x)
    ctx.call("-", v, x)
    ctx.call("ZonedDateTime.add", v)


def replace(ctx):
    g = ctx.g
    tz = g.tz()
    z = spec._zone(tz)
    l = g.near_local(z, tz)
    if l is None:
        l = g.local()
    day, t = divmod(l, cal.DAY_NS)
    v = g.zoned(tz)
    # same date other time, same time other date, other fields
    for _ in range(4):
        try:
            if g.p(0.5):
                v2 = spec.zresolve(tz, day * cal.DAY_NS + g.tod(), g.ch(("earlier", "later")))
            else:
                v2 = spec.zresolve(tz, g.zlocal(tz) // cal.DAY_NS * cal.DAY_NS + t, g.ch(("earlier", "later")))
            v = v2
            break
        except spec.Bad:
            pass
    ctx.feat("replace onto " + z.resolve(l // S)[0])
    ctx.call("ZonedDateTime.replace_date", v, MDate(day))
    ctx.call("ZonedDateTime.replace_time", v, MTime(t))
    y, mo, d, h, mi, s, n = cal.fields(l)
    kw = dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s, nanosecond=n)
    if g.p(0.6):
        kw = {k: x for k, x in kw.items() if g.p(0.5)}
    ctx.call("ZonedDateTime.replace", v, **kw)
    ctx.call("ZonedDateTime.replace", v, **kw, tz=g.ch((v.tz, g.tz(), g.tz())))


def ambiguous_kept(ctx):
    """operations that keep an ambiguous time on the same wall clock"""
    g = ctx.g
    tz = g.tz()
    z = spec._zone(tz)
    for _ in range(6):
        t = g.trans(z, tz)
        if t is None:
            return
        u, b, a = t
        if a < b:
            l = g.r.randint(u + a, u + b - 1)
            r = z.resolve(l)
            if r[0] == "fold":
                break
    else:
        return
    for off in r[1:]:
        v = MZoned(l * S + g.nanos(), off, tz)
        if not (0 <= utc(v) and 0 <= v.l):
            return
        ctx.feat("ambiguous start")
        ctx.call("ZonedDateTime.replace", v, nanosecond=g.nanos())
        ctx.call("ZonedDateTime.replace", v, second=g.r.randint(0, 59))
        ctx.call("ZonedDateTime.replace", v, minute=g.r.randint(0, 59))
        ctx.call("ZonedDateTime.replace_time", v, MTime(v.l % cal.DAY_NS))
        ctx.call("ZonedDateTime.replace_date", v, MDate(v.l // cal.DAY_NS))
        ctx.call("+", v, MDD(0, 0))
        ctx.call("ZonedDateTime.add", v, days=0)
        ctx.call("ZonedDateTime.add", v, months=1, days=-cal.dim(*cal.civil_from_days(v.l // cal.DAY_NS)[:2]))
        ctx.call("ZonedDateTime.add", v, weeks=1, days=-7)
        ctx.call("ZonedDateTime.add", v, MTD(g.dns(False)))


WORKLOADS = [("calendar units aimed at transitions", 4, shift), ("calendar plus exact units", 2, mixed), ("anywhere", 1, anywhere),
             ("replace without disambiguate", 2.5, replace), ("repeated times kept", 1, ambiguous_kept)]
