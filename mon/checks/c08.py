"""System timezone: histories of timezone changes interleaved with operations on old and new values."""
import time

from ..vals import *
from .. import cal, core, ops, spec, gen

QUICK, THOROUGH = 5000, 200000
RULE = ("one case = a history of 6-16 steps: changes of the system timezone (IANA names, POSIX strings), operations that consult it, "
        "exact arithmetic, and re-examination of every value made so far; distinct = distinct judged (call, timezone) pairs")
ASSUMES = ["timezones for which the C library and the reference reader disagree at probe points are not used"]
POSIX = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "<-03>3", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3",
         "IST-2IDT,M3.4.4/26,M10.5.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "AAA3BBB,J60/2,J300/2",
         "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "XXX-5:30", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", "<-12>12", "<+14>-14",
         "PST8PDT,M4.1.0,M10.5.0", "AAA-1BBB-3,M3.5.0,M10.5.0", "WWW0WST-1,M3.5.0/1,M10.5.0", "<+05>-5<+06>,100/0,200/0",
         "IST-1GMT0,M10.5.0,M3.5.0/1", "QQQ12:34:56"]
_usable = {}


def usable(ctx, name):
    """set the zone if reference and C library agree about it (neither is the code under test)"""
    ok = _usable.get(name)
    core.set_tz(name)
    if ok is None:
        z = spec.Sys.zone
        us = [cal.EPOCH_S + k * 20_000_003 for k in range(-120, 320, 7)]
        for u, _, _ in z.transitions(cal.EPOCH_S - 60 * 366 * 86400, cal.EPOCH_S + 80 * 366 * 86400)[-120:]:
            us += [u - 1, u]
        ok = _usable[name] = all(time.localtime(u - cal.EPOCH_S).tm_gmtoff == z.offset_at(u) for u in us)
        ctx.feat("timezones probed")
        if not ok:
            ctx.feat("timezones not used (C library differs)")
    return ok


def change(ctx):
    g = ctx.g
    for _ in range(5):
        name = g.ch(POSIX) if g.p(0.3) else g.tz()
        if usable(ctx, name):
            ctx.event("system timezone changed")
            return name
    usable(ctx, "UTC0")
    return "UTC0"


class Held:
    def __init__(self, ctx, o, m):
        self.o, self.m, self.h, self.s = o, m, hash(o), str(o)
        self.tz = spec.Sys.name
        self.twin = ctx.W.Instant.from_timestamp_nanos(utc(m) - cal.EPOCH_NS)


def recheck(ctx, held, was):
    for h in held:
        ctx.event("held value re-examined")
        try:
            now = (snap(h.o), hash(h.o), str(h.o), h.o == h.twin, h.o.instant() == h.twin, h.o.timestamp_nanos())
        except Exception as e:
            now = repr(e)
        want = (h.m, h.h, h.s, True, True, utc(h.m) - cal.EPOCH_NS)
        if now != want:
            ctx.fail("existing value changed with the system timezone",
                     {"call": f"value made under {h.tz}", "from": was, "to": spec.Sys.name, "want": repr(want), "now": repr(now)})


def _l(ctx):
    g = ctx.g
    l = g.near_local(spec.Sys.zone, "sys:" + spec.Sys.name) if g.p(0.85) else None
    return g.local() if l is None else l


def consult(ctx):
    """an operation that reads the system timezone without a SystemDateTime receiver"""
    g = ctx.g
    k = g.r.random()
    if k < 0.2:
        a, kw = ops._dtargs(g, _l(ctx))
        kw.update(ops._dis(g))
        return ctx.call("SystemDateTime", *a, **kw)
    if k < 0.4:
        return ctx.call("LocalDateTime.assume_system_tz", MLocal(_l(ctx)), **ops._dis(g))
    l = _l(ctx)
    off = spec.Sys.zone.offset_at(l // S)
    u = l - off * S if g.p(0.7) else l
    if not spec.ok_local(u):
        u = l
    if k < 0.7:
        n, unit = g.ch((("from_timestamp", S), ("from_timestamp_millis", 10**6), ("from_timestamp_nanos", 1)))
        return ctx.call("SystemDateTime." + n, (u - cal.EPOCH_NS) // unit)
    m = g.ch((MInstant(u), g.exact()))
    return ctx.call(NAME[type(m)] + ".to_system_tz", m)


_ARITH = ("add", "subtract", "replace", "replace_date", "replace_time", "round", "day_length", "start_of_day", "is_ambiguous",
          "to_system_tz", "to_tz", "difference", "local", "instant", "offset", "format_common_iso", "to_fixed_offset")
_OPS = [(n, f) for n, f in ops.OPS[MSystem] if n.partition(".")[2] in _ARITH]
_OPS += [(n, f) for n, f in _OPS if n.partition(".")[2] in ("add", "subtract", "replace", "replace_date", "replace_time", "round")]


def operate(ctx, h):
    g = ctx.g
    m = h.m
    k = g.r.random()
    if k < 0.15:
        # exact arithmetic keeps the exact moment, whatever zone is in force
        ns = g.dns(False)
        got, exp = ctx.call(g.ch(("+", "-")), m, MTD(ns))
        return got, exp
    if k < 0.25:
        x = g.ch((g.same_moment(m), g.exact()))
        return ctx.call(g.ch(("==", "<", "<=", ">", ">=", "-", "!=")), m, x)
    name, f = g.ch(_OPS)
    a, kw = f(g, m)
    return ctx.call(name, m, *a, **kw)


def history(ctx):
    g = ctx.g
    held = []
    change(ctx)
    for step in range(g.r.randint(6, 16)):
        k = g.r.random()
        if k < 0.3:
            was = spec.Sys.name
            change(ctx)
            recheck(ctx, held, was)
            continue
        if not held or k < 0.55:
            got, exp = consult(ctx)
        else:
            got, exp = operate(ctx, g.ch(held))
        ctx.key((step, got, spec.Sys.name))
        if type(got) is MSystem and ctx.last is not None:
            held.append(Held(ctx, ctx.last, got))
            # the same object is used again by later calls
            ctx.build.pool.setdefault(got, []).insert(0, ctx.last)
            del ctx.build.pool[got][3:]
    ctx.feat("timezone changes survived by values", len(held))
    recheck(ctx, held, spec.Sys.name)


def twin(ctx):
    """the same operation on a SystemDateTime under TZ=name and on a ZonedDateTime in name"""
    g, W = ctx.g, ctx.W
    tz = g.tz()
    if not usable(ctx, tz):
        return
    z = g.zoned(tz)
    if spec.sys_odd(z.l) or spec.near_edge(z.l, 3):
        return
    s = MSystem(z.l, z.off)
    for _ in range(4):
        name = g.ch(("add", "subtract", "replace", "replace_date", "replace_time", "round", "day_length", "start_of_day", "is_ambiguous"))
        f = dict(ops.OPS[MSystem])["SystemDateTime." + name]
        a, kw = f(g, s)
        ra, rk = [ctx.real(x) for x in a], {k: ctx.real(v) for k, v in kw.items()}
        r1, _ = core.observe(W, "ZonedDateTime." + name, [ctx.real(z)] + ra, rk)
        r2, _ = core.observe(W, "SystemDateTime." + name, [ctx.real(s)] + ra, rk)
        if type(r1) is MZoned:
            if spec.near_edge(r1.l, 3) or spec.sys_odd(r1.l):
                continue
            r1 = MSystem(r1.l, r1.off)
        ctx.event("twin " + name)
        ctx.key((tz, name, s, repr(a), repr(kw)))
        if type(r1) is spec.Exc or type(r2) is spec.Exc:
            continue            # refusals are judged by the specification, not by the twin
        if not same(r1, r2) and spec.expect("ZonedDateTime." + name, (z,) + tuple(a), dict(kw)) is not spec.SKIP:
            ctx.fail("SystemDateTime differs from ZonedDateTime in the same timezone",
                     {"call": core.show("SystemDateTime." + name, (s,) + a, kw), "tz": tz, "zoned": repr(r1), "system": repr(r2)})


def clock(ctx):
    """now() under a zone"""
    W = ctx.W
    change(ctx)
    z = spec.Sys.zone
    for _ in range(2):
        t0 = time.time_ns()
        s = W.SystemDateTime.now()
        t1 = time.time_ns()
        m = snap(s)
        u = utc(m) - cal.EPOCH_NS
        ctx.event("SystemDateTime.now")
        ctx.key(m)
        if not t0 <= u <= t1 or m.off != z.offset_at(utc(m) // S):
            ctx.fail("SystemDateTime.now()", {"call": "now", "tz": spec.Sys.name, "value": repr(m), "clock": [t0, t1]})
        t0 = time.time_ns()
        d = snap(W.Date.today_in_system_tz())
        t1 = time.time_ns()
        days = {(t + cal.EPOCH_NS + z.offset_at((t + cal.EPOCH_NS) // S) * S) // cal.DAY_NS for t in (t0, t1)}
        ctx.event("Date.today_in_system_tz")
        if d.day not in days:
            ctx.fail("Date.today_in_system_tz()", {"call": "today", "tz": spec.Sys.name, "value": repr(d)})
    with W.patch_current_time(ctx.real(MInstant(u := _u(ctx))), keep_ticking=False):
        got = core.observe(W, "SystemDateTime.now", [], {})[0] if "SystemDateTime.now" in core.KIND else snap(W.SystemDateTime.now())
        day = snap(W.Date.today_in_system_tz())
    ctx.event("SystemDateTime.now (pinned)")
    off = z.offset_at(u // S)
    if got != MSystem(u + off * S, off) or day.day != (u + off * S) // cal.DAY_NS:
        ctx.fail("now() with a pinned clock", {"call": "now", "tz": spec.Sys.name, "pin": u, "value": repr(got), "today": repr(day)})


def _u(ctx):
    while True:
        l = _l(ctx)
        u = l - spec.Sys.zone.offset_at(l // S) * S
        if cal.DAY_NS * 3 < u < cal.MAX_NS - 3 * cal.DAY_NS:
            return u


WORKLOADS = [("history", 5, history), ("zoned twin", 3, twin), ("clock", 0.6, clock)]
