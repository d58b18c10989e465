"""Date arithmetic."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 22000, 900000
RULE = ("one case = a date (month ends, leap days, range ends over-represented) shifted by calendar units in every spelling, or a "
        "pair differenced in days; a systematic sweep of consecutive days runs per worker; distinct = distinct judged calls")


def shift(ctx):
    g, m = ctx.g, ctx.g.date()
    mo = g.dmonths() if g.p(0.7) else 0
    d = g.ddays() if g.p(0.7) else 0
    if g.p(0.1):
        mo, d = g.ch(((g.logint(80), d), (mo, g.logint(80)), (10**30, -10**30), (0, 10**18))) 
    kw = g.split_date(mo, d)
    if g.p(0.05):
        kw["years"] = g.ch((9998, -9998, 9999, 10000, -10000, 10**9, 1 << 62))
    got, _ = ctx.call("Date.add", m, **kw)
    ctx.call("Date.subtract", m, **kw)
    ctx.call("Date.subtract", m, **{k: -v for k, v in kw.items()})
    x = g.dd()
    ctx.call("+", m, x)
    ctx.call("-", m, x)
    ctx.call("Date.add", m, x)
    ctx.call("Date.subtract", m, x)
    if type(got) is MDate:
        ctx.call("Date.days_since", got, m)
        ctx.call("Date.days_until", got, m)
        n = got.day - m.day
        ctx.call("Date.add", m, days=n)
        ctx.call("Date.subtract", got, days=n)


def edge(ctx):
    """targets at the ends of the range"""
    g, m = ctx.g, ctx.g.date()
    t = g.ch((0, cal.MAX_DAY)) + g.ch((0, 0, 1, -1))
    ctx.call("Date.add", m, days=t - m.day)
    ctx.call("Date.subtract", m, days=m.day - t)
    y, mo, _ = cal.civil_from_days(m.day)
    n = g.ch((1 * 12, 9999 * 12 + 11)) - (y * 12 + mo - 1) + g.ch((0, 0, 1, -1))
    ctx.call("Date.add", m, months=n)
    ctx.call("Date.subtract", m, months=-n)
    ctx.call("Date.add", m, years=g.ch((9999 - y, 1 - y, 10000 - y, -y)))
    ctx.call("Date.add", m, weeks=(t - m.day) // 7, days=(t - m.day) % 7)


def units(ctx):
    """single units around month ends"""
    g = ctx.g
    y = g.year()
    mo = g.r.randint(1, 12)
    m = MDate(cal.days_from_civil(y, mo, g.ch((1, 28, cal.dim(y, mo), cal.dim(y, mo)))))
    ctx.call("Date.add", m, months=g.r.randint(-30, 30))
    ctx.call("Date.add", m, years=g.ch((1, -1, 4, -4, 3, 100, -100, 400)))
    ctx.call("Date.add", m, months=g.r.randint(-14, 14), days=g.r.randint(-3, 3))
    ctx.call("Date.subtract", m, months=g.r.randint(-30, 30))
    ctx.call("Date.day_of_week", m)
    ctx.call("fn.months", g.dmonths())


def readout(ctx):
    g, a = ctx.g, ctx.g.date()
    b = g.date()
    for n in ("year", "month", "day", "day_of_week", "year_month", "month_day"):
        ctx.call("Date." + n, a)
    ctx.call("Date.days_until", a, b)
    ctx.call("Date.days_since", a, b)


def sweep(ctx):
    """runs of consecutive days: successor, weekday and fields of each"""
    W = ctx.W
    step = 8
    n = 3000 if ctx.tier == "quick" else cal.N_DAYS // step
    lo = ctx.worker * (cal.N_DAYS // step)
    if ctx.tier == "quick":
        lo = ctx.rng.randint(lo, lo + cal.N_DAYS // step - n - 1)
    prev = W.Date(*cal.civil_from_days(lo))
    for day in range(lo + 1, min(lo + n + 400, cal.N_DAYS)):
        cur = prev.add(days=1)
        y, m, d = cal.civil_from_days(day)
        ok = (cur.year, cur.month, cur.day) == (y, m, d) and cur.day_of_week().value == cal.weekday(day) \
            and prev.days_until(cur) == 1 and cur.subtract(days=1) == prev and prev < cur
        ctx.check(ok, "consecutive days", lambda: {"call": f"consecutive {y}-{m}-{d}", "got": str(cur)})
        prev = cur
    ctx.event("consecutive days", n)


WORKLOADS = [("shifts", 4, shift), ("range ends", 1, edge), ("month ends", 2, units), ("read-outs", 1, readout)]
finish = sweep
