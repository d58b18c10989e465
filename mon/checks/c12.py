"""LocalDateTime and OffsetDateTime arithmetic."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 18000, 700000
RULE = ("one case = a local or fixed-offset datetime shifted in every spelling (day carries and range ends over-represented) or two "
        "LocalDateTimes differenced and added back; distinct = distinct judged calls")
IG = {"ignore_dst": True}


def shift(ctx):
    g = ctx.g
    m = g.ch((g.ldt, g.offset))()
    c = NAME[type(m)]
    kw = g.shift_kw()
    ctx.call(c + ".add", m, **kw, **IG)
    ctx.call(c + ".subtract", m, **kw, **IG)
    ctx.call(c + ".subtract", m, **{k: -v for k, v in kw.items()}, **IG)
    d = g.delta()
    ctx.call(c + ".add", m, d, **IG)
    ctx.call(c + ".subtract", m, d, **IG)


def calendar(ctx):
    g, m = ctx.g, ctx.g.ldt()
    d = g.dd()
    ctx.call("+", m, d)
    ctx.call("-", m, d)
    kw = g.split_date(*d) or {"days": 0}
    ctx.call("LocalDateTime.add", m, **kw)
    ctx.call("LocalDateTime.subtract", m, **kw)
    ctx.call("LocalDateTime.add", m, d)
    ctx.call("LocalDateTime.subtract", m, d)
    o = g.offset()
    ctx.call("OffsetDateTime.add", o, **kw, **IG)
    ctx.call("OffsetDateTime.subtract", o, d, **IG)


def carry(ctx):
    """exact amounts that just reach or pass midnight, month and year ends"""
    g = ctx.g
    m = g.ch((g.ldt, g.offset))()
    c = NAME[type(m)]
    t = m.l % cal.DAY_NS
    n = g.ch((-t, cal.DAY_NS - t)) + g.ch((0, 1, -1, S, -S)) + g.ch((0, 0, g.r.randint(-400, 400))) * cal.DAY_NS
    ctx.call(c + ".add", m, **g.split_exact(n), **IG)
    ctx.call(c + ".subtract", m, MTD(-n), **IG)
    ctx.call(c + ".add", m, months=g.dmonths(), **g.split_exact(n), **IG)


def edge(ctx):
    g = ctx.g
    m = g.ch((g.ldt, g.offset, g.offset))()
    c = NAME[type(m)]
    off = getattr(m, "off", 0)
    t = g.ch((0, cal.MAX_NS, off * S, cal.MAX_NS + off * S)) + g.ch((0, 1, -1, S, -S))
    n = t - m.l
    if abs(n) > cal.MAX_DELTA_NS:
        return
    ctx.call(c + ".add", m, MTD(n), **IG)
    ctx.call(c + ".subtract", m, **g.split_exact(-n), **IG)
    d = (t - m.l) // cal.DAY_NS + g.ch((0, 0, 1, -1))
    ctx.call(c + ".add", m, days=d, **IG)
    ctx.call(c + ".add", m, days=d, **g.split_exact(g.dns(False)), **IG)


def difference(ctx):
    g, a = ctx.g, ctx.g.ldt()
    b = g.ldt() if g.p(0.6) else MLocal(min(cal.MAX_NS, max(0, a.l + g.dns(False))))
    got, _ = ctx.call("LocalDateTime.difference", a, b, **IG)
    if type(got) is MTD:
        ctx.call("LocalDateTime.add", b, got, **IG)
        ctx.call("LocalDateTime.subtract", a, got, **IG)


def replaced(ctx):
    g, m = ctx.g, ctx.g.offset()
    ctx.call("OffsetDateTime.replace_date", m, g.date(), **IG)
    ctx.call("OffsetDateTime.replace_time", m, g.time(), **IG)


WORKLOADS = [("shifts", 4, shift), ("calendar units", 2, calendar), ("carries", 2, carry), ("range ends", 2, edge),
             ("differences", 1, difference), ("replaced", 0.5, replaced)]
