"""Gating of DST-ignoring operations."""
from ..vals import *
from .. import cal, spec

QUICK, THOROUGH = 12000, 400000
RULE = ("one case = a DST-unsafe call without consent, with a look-alike consent (1, 'yes', ...) or with ignore_dst=True, on "
        "boundary-biased values, or an exact and a local value mixed; distinct = distinct judged calls")

FALSE = [None, False, 0, 1, "", "True", "yes", 1.0, 2, -1, (True,), "ignore_dst"]


def _consent(g):
    """keyword arguments: none, a look-alike, or real consent"""
    k = g.r.random()
    if k < 0.3:
        return {}
    if k < 0.6:
        return {"ignore_dst": g.ch(FALSE)}
    return {"ignore_dst": True}


def offset_ops(ctx):
    g, m = ctx.g, ctx.g.offset()
    k = _consent(g)
    ctx.feat("with consent" if k.get("ignore_dst") is True else "without consent")
    C = "OffsetDateTime."
    ctx.call(C + "add", m, **g.shift_kw(), **k)
    ctx.call(C + "subtract", m, **g.shift_kw(), **k)
    ctx.call(C + g.ch(("add", "subtract")), m, g.delta(), **k)
    ctx.call(C + g.ch(("add", "subtract")), m, **g.ch(({"hours": 0}, {"days": 0}, {"nanoseconds": 0}, {"years": 0}, {})), **k)
    ctx.call(C + "round", m, **g.round_args(), **k)
    y, mo, d, h, mi, s, n = cal.fields(g.local())
    f = dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s, nanosecond=n)
    f = {a: b for a, b in f.items() if g.p(0.4)}
    if g.p(0.3):
        f["offset"] = g.off_arg(g.off())
    ctx.call(C + "replace", m, **f, **k)
    ctx.call(C + "replace_date", m, g.date(), **k)
    ctx.call(C + "replace_time", m, g.time(), **k)
    n, u = g.ch((("from_timestamp", S), ("from_timestamp_millis", 10**6), ("from_timestamp_nanos", 1)))
    ctx.call(C + n, (utc(m) - cal.EPOCH_NS) // u, offset=g.off_arg(m.off), **k)


def now(ctx):
    g = ctx.g
    k = _consent(g)
    o = g.off_arg(g.off())
    import time as _t
    a = _t.time_ns()
    from ..core import observe, show
    got, r = observe(ctx.W, "OffsetDateTime.now", (ctx.real(o) if type(o) is MTD else o,), k)
    b = _t.time_ns()
    ctx.event("OffsetDateTime.now")
    ctx.key(("now", o, k.get("ignore_dst"), "ignore_dst" in k))
    d = {"call": show("OffsetDateTime.now", (o,), k), "observed": repr(got)}
    if k.get("ignore_dst") is True:
        off = o * 3600 if type(o) is int else o.ns // S
        ctx.check(type(got) is MOffset and got.off == off and a <= utc(got) - cal.EPOCH_NS <= b, "now with consent", d)
    else:
        ctx.check(isinstance(got, spec.Exc) and "ImplicitlyIgnoringDST" in got.names, "now without consent", d)


def local_ops(ctx):
    g, m = ctx.g, ctx.g.ldt()
    k = _consent(g)
    C = "LocalDateTime."
    kw = g.shift_kw()
    ctx.call(C + "add", m, **kw, **k)
    ctx.call(C + "subtract", m, **kw, **k)
    # amounts of exact units that cancel, or are zero, need no consent; any nonzero one does
    ctx.call(C + "add", m, hours=g.ch((0, 1, -1)), minutes=g.ch((0, 60, -60)), **k)
    ctx.call(C + "add", m, nanoseconds=g.ch((0, 1, -1, 1)), days=g.ch((0, 1)), **k)
    ctx.call(C + g.ch(("add", "subtract")), m, g.delta(), **k)
    ctx.call(C + "add", m, g.ch((MTD(0), MTD(1), MDTD(0, 1, 0), MDTD(0, 0, 0), MDTD(0, 0, 1), MDD(0, 0), MDD(1, 1))), **k)
    ctx.call(C + "difference", m, g.ldt() if g.p(0.7) else m, **k)


def operators(ctx):
    g = ctx.g
    m = g.ch((g.ldt, g.offset))()
    d = g.ch((g.td, g.dtd, g.dd))()
    ctx.call("+", m, d)
    ctx.call("-", m, d)
    ctx.call("+", m, g.ch((MTD(0), MTD(1), MDTD(0, 0, 0), MDTD(0, 0, 1), MDTD(1, 1, 0))))
    ctx.call("-", m, g.ch((MTD(0), MTD(1), MDTD(0, 0, 0), MDTD(0, 0, 1), MDTD(1, 1, 0))))
    ctx.call("+", d, m)
    ctx.call("-", m, g.ldt() if type(m) is MLocal else g.exact())


def mixing(ctx):
    g = ctx.g
    e = g.exact()
    l = MLocal(e.u if type(e) is MInstant else e.l) if g.p(0.5) else g.ldt()
    for o in ("<", "<=", ">", ">=", "-", "+", "==", "!="):
        ctx.call(o, e, l)
        ctx.call(o, l, e)
    ctx.call(NAME[type(e)] + ".difference", e, l)
    ctx.call("LocalDateTime.difference", l, e, ignore_dst=True)
    ctx.call(NAME[type(e)] + ".exact_eq", e, l)
    x = g.ch((g.date, g.time, g.td, g.dd, g.dtd))()
    for o in ("<", ">=", "==", "!="):
        ctx.call(o, e, x)
        ctx.call(o, x, l)


WORKLOADS = [("OffsetDateTime", 4, offset_ops), ("LocalDateTime", 3, local_ops), ("operators", 2, operators), ("now", 0.5, now),
             ("mixing exact and local", 2, mixing)]
