"""Closed world: whatever sequence of public calls is made, every value that comes out is well formed."""
import datetime as dt
import pickle
import struct
import zoneinfo

from ..vals import *
from .. import cal, ops, spec, vals
from ..core import invoke, show, _show1

QUICK, THOROUGH = 3500, 110000
RULE = ("one case = a random walk of 8-24 public calls in which results (kept as the real objects they are) become receivers and "
        "arguments of later calls, or a batch of hostile external inputs (texts, pickles, stdlib objects); every value that "
        "appears is examined; distinct = distinct values examined")


def examine(ctx, o, via):
    """the invariant, on one real value; returns its model"""
    try:
        m = snap(o)
    except Exception as e:
        ctx.fail("malformed value", {"call": via, "observed": repr(e), "repr": _repr(o)})
        return None
    t = type(m)
    if t not in NAME or t is MWeekday:
        return m
    ctx.event("examined " + NAME[t])
    ctx.key(m)
    if t in EXACT:
        # readings agree with each other
        n = o.timestamp_nanos()
        if n != utc(m) - cal.EPOCH_NS:
            ctx.fail("local time, offset and moment disagree", {"call": via, "value": repr(m), "timestamp_nanos": n})
    if t is MZoned:
        try:
            z = spec._zone(m.tz)
        except spec.Bad:
            ctx.feat("zone outside the reference")
            return m
        off = z.offset_at(utc(m) // S)
        if off != m.off:
            ctx.fail("zoned value with an offset its zone does not have", {"call": via, "value": repr(m), "zone offset then": off})
        ctx.feat("zoned in " + z.resolve(m.l // S)[0])
    if t in (MLocal, MOffset, MZoned, MSystem):
        d, ti = o.date(), o.time()
        if snap(d) != MDate(m.l // cal.DAY_NS) or snap(ti) != MTime(m.l % cal.DAY_NS):
            ctx.fail("date()/time() disagree with the fields", {"call": via, "value": repr(m)})
    return m


def _repr(o):
    try:
        return repr(o)
    except Exception as e:
        return f"<repr raises {e!r}>"


def walk(ctx):
    g = ctx.g
    W = ctx.W
    pool = []
    by = {}

    def put(o, via):
        for x in (o if type(o) is tuple else (o,)):
            m = examine(ctx, x, via)
            if type(m) in NAME and type(m) is not MWeekday:
                pool.append((m, x, via))
                by.setdefault(type(m), []).append((m, x))
    for _ in range(3):
        m = ops.any_value(g)
        put(ctx.real(m), "start")
    for step in range(g.r.randint(8, 24)):
        if g.p(0.1):
            name, args, kw = ops.make_call(g)
            ra, rk = [ctx.real(a) for a in args], {k: ctx.real(v) for k, v in kw.items()}
        else:
            m, o, _ = pool[-1] if g.p(0.4) else g.ch(pool)
            name, args, kw = ops.on(g, m)
            ra = []
            placed = False
            for a in args:
                if not placed and a is m:
                    ra.append(o)
                    placed = True
                elif type(a) in by and g.p(0.3):
                    ra.append(g.ch(by[type(a)])[1])
                else:
                    ra.append(ctx.real(a))
            rk = {k: ctx.real(v) for k, v in kw.items()}
        ctx.event("call")
        try:
            r = invoke(W, name, ra, rk)
        except Exception as e:
            ctx.feat("refused: " + type(e).__name__)
            continue
        put(r, show(name, tuple(map(_try, ra)), {k: _try(v) for k, v in rk.items()}))


def _try(o):
    try:
        return snap(o)
    except Exception:
        return _repr(o)


def edges(ctx):
    """values within a day and a half of the range ends, pushed around by small amounts"""
    g = ctx.g
    for _ in range(6):
        l = g.r.randint(0, 130000) * S + g.nanos()
        l = l if g.p(0.5) else cal.MAX_NS - l
        off = g.off()
        a, kw = ops._dtargs(g, l)
        tz = g.tz()
        for name, k in (("OffsetDateTime", {"offset": g.off_arg(off)}), ("ZonedDateTime", {"tz": tz, "disambiguate": g.dis()}),
                        ("SystemDateTime", {}), ("LocalDateTime", {}), ("Instant.from_utc", {})):
            _step(ctx, name, a, {**kw, **k})
        loc = MLocal(l)
        r = _step(ctx, "LocalDateTime.assume_fixed_offset", (loc, g.off_arg(off)), {})
        _step(ctx, "LocalDateTime.assume_tz", (loc, tz), {})
        _step(ctx, "LocalDateTime.assume_system_tz", (loc,), {})
        _step(ctx, "OffsetDateTime.parse_common_iso", (vals.fmt_offset(MOffset(l, off)),), {})
        _step(ctx, "SystemDateTime.parse_common_iso", (vals.fmt_offset(MOffset(l, off)),), {})
        _step(ctx, "OffsetDateTime.parse_rfc3339", (vals.fmt_offset(MOffset(l, off // 60 * 60), " "),), {})
        _step(ctx, "OffsetDateTime.parse_rfc2822", (spec.fmt_2822(l, vals.fmt_off(off // 60 * 60, "")),), {})
        _step(ctx, "OffsetDateTime.strptime", (vals.fmt_local(l)[:19] + vals.fmt_off(off), "%Y-%m-%dT%H:%M:%S%z"), {})
        _step(ctx, "ZonedDateTime.parse_common_iso", (vals.fmt_offset(MOffset(l, spec._zone(tz).offset_at(l // S))) + f"[{tz}]",), {})
        for m in (g.ch((MInstant(l), loc)), MOffset(l, off) if spec.ok_local(l - off * S) else MInstant(l)):
            name, args, kw = ops.on(g, m)
            _step(ctx, name, args, kw)
            if type(m) is not MInstant:
                _step(ctx, NAME[type(m)] + ".round", (m,), {"unit": "day", "mode": g.ch(spec.MODES),
                                                          **({"ignore_dst": True} if type(m) is MOffset else {})})
                _step(ctx, NAME[type(m)] + ".add", (m,), {"hours": g.r.randint(-30, 30), "ignore_dst": True})
                _step(ctx, NAME[type(m)] + ".replace_time", (m, g.time()), {"ignore_dst": True} if type(m) is MOffset else {})
            else:
                _step(ctx, "Instant.to_fixed_offset", (m, g.off_arg(g.off())), {})
                _step(ctx, "Instant.to_tz", (m, g.tz()), {})
                _step(ctx, "Instant.to_system_tz", (m,), {})
        _ = r


def _step(ctx, name, args, kw):
    try:
        ra, rk = [ctx.real(a) for a in args], {k: ctx.real(v) for k, v in kw.items()}
        r = invoke(ctx.W, name, ra, rk)
    except ctx_errors:
        raise
    except Exception as e:
        ctx.event("call")
        ctx.feat("refused: " + type(e).__name__)
        return None
    ctx.event("call")
    examine(ctx, r, show(name, args, kw))
    return r


class _Never(Exception):
    pass


ctx_errors = _Never


def external(ctx):
    """texts, stdlib objects and pickled data that do not describe a valid value"""
    g, W = ctx.g, ctx.W
    tz = g.tz()
    z = spec._zone(tz)
    l = g.near_local(z, tz) or g.local()
    r = z.resolve(l // S)
    for off in set(r[1:]) | {g.off(), r[-1] + g.ch((1, -1, 60, 3600)) if type(r[-1]) is int else 0}:
        if not -86400 < off < 86400:
            continue
        _step(ctx, "ZonedDateTime.parse_common_iso", (vals.fmt_offset(MOffset(l, off)) + f"[{tz}]",), {})
        f = cal.fields(l)
        for key, data in (("_unpkl_zoned", (struct.pack("<HBBBBBIl", *f, off), tz)),
                          ("_unpkl_offset", (struct.pack("<HBBBBBIl", *f, off),))):
            _unpickle(ctx, key, data)
        for fold in (0, 1):
            d = dt.datetime(*f[:6], f[6] // 1000, fold=fold)
            tzi = zoneinfo.ZoneInfo(tz)
            _py(ctx, "ZonedDateTime", d.replace(tzinfo=tzi))
            _py(ctx, "OffsetDateTime", d.replace(tzinfo=tzi))
            _py(ctx, "SystemDateTime", d.replace(tzinfo=tzi))
            _py(ctx, "Instant", d.replace(tzinfo=tzi))
            _py(ctx, "LocalDateTime", d)
            o = dt.timezone(dt.timedelta(seconds=off, microseconds=g.ch((0, 0, 1, 500000, 999999))))
            _py(ctx, g.ch(("OffsetDateTime", "SystemDateTime", "Instant")), d.replace(tzinfo=o))
    s = vals.fmt_local(l)[:19]
    o = g.off()
    _step(ctx, "OffsetDateTime.strptime", (s + vals.fmt_off(o) + g.ch(("", ".5", ".000001", ":30.25", ":15")), "%Y-%m-%dT%H:%M:%S%z"), {})
    _step(ctx, "LocalDateTime.strptime", (s + g.ch((".1", ".123456", ".9999999")), "%Y-%m-%dT%H:%M:%S.%f"), {})
    for n in ("LocalDateTime", "Instant.from_utc", "OffsetDateTime", "ZonedDateTime", "SystemDateTime", "Time"):
        kw = {"nanosecond": g.ch((S, -1, S + 1, 10 ** 12, -S, 1 << 31, 1 << 32, 999_999_999))}
        if n == "OffsetDateTime":
            kw["offset"] = g.off_arg(g.off())
        if n == "ZonedDateTime":
            kw["tz"] = tz
        _step(ctx, n, f[:6] if n != "Time" else f[3:6], kw)
        if n not in ("Instant.from_utc",):
            m = ops.MAKE[{v: k for k, v in NAME.items()}[n]](g)
            _step(ctx, n + ".replace", (m,), {"nanosecond": kw["nanosecond"], **({"ignore_dst": True} if n == "OffsetDateTime" else {})})
    for kw in ({"offset": g.ch((24, -24, 25, MTD(86400 * S), MTD(-86400 * S), MTD(1), MTD(S // 2), MTD(3600 * S + 1), MTD(86400 * S - 1)))},):
        _step(ctx, "OffsetDateTime", f[:6], kw)
        _step(ctx, "OffsetDateTime.replace", (g.offset(),), {**kw, "ignore_dst": True})
        _step(ctx, "LocalDateTime.assume_fixed_offset", (MLocal(l), kw["offset"]), {})
        _step(ctx, g.ch(("Instant", "ZonedDateTime")) + ".to_fixed_offset", (MInstant(l), kw["offset"]), {})
    t = g.ch([t for t in NAME if t is not MWeekday])
    for _ in range(4):
        _step(ctx, NAME[t] + ".parse_common_iso", (g.mutate(vals.fmt(ops.MAKE[t](g))),), {})


def _py(ctx, cls, d):
    ctx.event("from_py_datetime")
    try:
        o = getattr(ctx.W, cls).from_py_datetime(d)
    except Exception as e:
        ctx.feat("refused: " + type(e).__name__)
        return
    examine(ctx, o, f"{cls}.from_py_datetime({d!r})")


def _unpickle(ctx, fn, data):
    ctx.event("unpickle")
    try:
        o = getattr(ctx.W, fn)(*data)
    except Exception as e:
        ctx.feat("refused: " + type(e).__name__)
        return
    if fn == "_unpkl_offset" and "_unpkl" in fn:
        # a fixed-offset payload is only data: ranges are the writer's business
        try:
            if not spec.ok_local(utc(snap(o))):
                return
        except Exception:
            return
    examine(ctx, o, f"{fn}{data!r}")


WORKLOADS = [("walk", 5, walk), ("range ends", 2, edges), ("external data", 1.5, external)]
