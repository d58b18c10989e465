"""DateDelta and DateTimeDelta algebra."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 24000, 900000
RULE = ("one case = calendar deltas of both signs (zeros, range ends and sign conflicts over-represented) built, combined in every "
        "operand order and type, and read out; distinct = distinct judged calls")


def build(ctx):
    g = ctx.g
    m, d = g.dmonths(), g.ddays()
    kw = g.split_date(m, d)
    if g.p(0.1):
        kw[g.ch(spec.DUNITS)] = g.ch((g.logint(70), 9999, -9999, 10000, 119988, 119989, -119989, 3659634, 3659635, 522804, 522805, 522806))
    ctx.call("DateDelta", **kw)
    kw2 = dict(kw)
    n = g.dns()
    if (m > 0 or d > 0) != (n > 0) and g.p(0.7):
        n = -n
    kw2.update(g.split_exact(n))
    ctx.call("DateTimeDelta", **kw2)
    u = g.ch(spec.DUNITS)
    ctx.call("fn." + u, g.ch((g.r.randint(-100, 100), g.dmonths(), g.logint(30))))


def _opnd(g):
    return g.ch((g.dd, g.dd, g.dtd, g.dtd, g.td, lambda: g.ch((MDD(0, 0), MTD(0), MDTD(0, 0, 0), MTD(1), MTD(-1), MDD(0, 1), MDD(-1, 0)))))()


def algebra(ctx):
    g = ctx.g
    a, b = _opnd(g), _opnd(g)
    if g.p(0.3) and type(a) in (MDD, MDTD):
        # nearly cancel
        t = list(spec.parts(a))
        i = g.r.randint(0, 2)
        t[i] = t[i] + g.ch((0, 1, -1))
        b = g.ch((MDTD(*t), MDD(t[0], t[1]), MTD(t[2])))
        try:
            spec.mk_dtd(*spec.parts(b))
        except spec.Bad:
            b = a
        if g.p(0.5):
            b = spec.expect("neg", (b,), {})
    ctx.call("+", a, b)
    ctx.call("+", b, a)
    ctx.call("-", a, b)
    ctx.call("-", b, a)
    for x in (a, b):
        if type(x) is MTD:
            continue
        i = g.ch((0, 1, -1, 2, -2, 3, 7, 12, g.logint(20), g.logint(70)))
        ctx.call("*", x, i)
        ctx.call("*", i, x)
        for o in ("neg", "abs", "pos", "bool"):
            ctx.call(o, x)
    ctx.call("==", a, b)
    ctx.call("!=", a, b)


def read(ctx):
    g = ctx.g
    a, b = g.dd(), g.dtd()
    ctx.call("DateDelta.in_months_days", a)
    ctx.call("DateDelta.in_years_months_days", a)
    ctx.call("DateTimeDelta.date_part", b)
    ctx.call("DateTimeDelta.time_part", b)
    ctx.call("DateTimeDelta.in_months_days_secs_nanos", b)
    ctx.call("bool", a)
    ctx.call("bool", b)
    ctx.call("==", a, g.ch((a, MDD(b.months, b.days), MDD(a.days if abs(a.days) < 119988 else 0, 0))))


def recombine(ctx):
    """date part + time part gives the delta back, in both orders"""
    g, b = ctx.g, ctx.g.dtd()
    d, t = MDD(b.months, b.days), MTD(b.ns)
    ctx.call("+", d, t)
    ctx.call("+", t, d)
    ctx.call("-", b, d)
    ctx.call("-", b, t)
    ctx.call("-", d, MTD(-b.ns))
    ctx.call("-", t, MDD(-b.months, -b.days))
    ctx.call("-", d, t)
    ctx.call("-", t, d)
    ctx.call("-", d, b)
    ctx.call("-", t, b)
    from ..core import show
    if b.months or b.days or b.ns:
        ra, rb = ctx.real(b), ctx.real(MDTD(*b))
        ctx.check(hash(ra) == hash(rb) and ra == rb, "equal deltas hash equal", lambda: {"call": show("hash", (b,), {})})


WORKLOADS = [("construction", 2, build), ("algebra", 4, algebra), ("read-outs", 2, read), ("recombination", 2, recombine)]
