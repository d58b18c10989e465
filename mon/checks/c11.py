"""Difference of two dates."""
from ..vals import *
from .. import cal, spec, core

QUICK, THOROUGH = 25000, 600000
RULE = ("one case = an ordered pair of dates (month ends, leap days, near-whole months apart over-represented), both ways round; "
        "distinct = distinct judged calls")


def pair(ctx):
    g, a = ctx.g, ctx.g.date()
    k = g.r.random()
    if k < 0.3:
        b = g.date()
    else:
        # whole months apart, give or take a few days
        x = cal.shift_date(a.day, g.ch((g.r.randint(-30, 30), g.dmonths())), g.ch((0, 0, 1, -1, 2, -2, 3, -3, g.r.randint(-31, 31))))
        b = MDate(x) if x is not None else g.date()
    for x, y in ((a, b), (b, a)):
        got, _ = ctx.call("-", x, y)
        ctx.call("Date.days_until", x, y)
        ctx.call("Date.days_since", x, y)
        if type(got) is MDD:
            back, _ = ctx.call("+", y, got)
            ctx.check(back is None or back == x, "b + (a - b) == a",
                      lambda: {"call": core.show("b+(a-b)", (x, y), {}), "delta": repr(got), "back": repr(back)})
            ctx.check(not (got.months > 0 > got.days or got.months < 0 < got.days) and abs(got.days) < 31, "sign and size",
                      lambda: {"call": core.show("-", (x, y), {}), "delta": repr(got)})
            if got.months and got.days:
                ctx.feat("months and days")


def leap(ctx):
    """pairs around the end of February, all day combinations of two months"""
    g = ctx.g
    y1, y2 = g.year(), g.year()
    if g.p(0.5):
        y2 = min(9999, max(1, y1 + g.ch((0, 1, -1, 4, -4, 3))))
    m1, m2 = g.ch((1, 2, 2, 3, 4)), g.ch((1, 2, 2, 3, 12))
    for d1 in (1, 27, 28, cal.dim(y1, m1), cal.dim(y1, m1) - 1):
        for d2 in (1, 28, cal.dim(y2, m2), cal.dim(y2, m2) - 1):
            ctx.call("-", MDate(cal.days_from_civil(y1, m1, d1)), MDate(cal.days_from_civil(y2, m2, d2)))


WORKLOADS = [("pairs", 5, pair), ("end of February", 1, leap)]
