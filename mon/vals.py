"""Model values and snapshots of the real ones through the public accessors."""
from collections import namedtuple
import datetime as _dt

from . import cal

S = cal.S

def _model(name, fields):
    """namedtuple that is equal only to its own type"""
    base = namedtuple(name, fields)
    tag = hash(name)

    class M(base):
        __slots__ = ()

        def __eq__(self, other):
            return type(other) is M and tuple.__eq__(self, other)

        def __ne__(self, other):
            return not (type(other) is M and tuple.__eq__(self, other))

        def __hash__(self):
            return tuple.__hash__(self) ^ tag
    M.__name__ = M.__qualname__ = name
    M.__module__ = __name__
    M.__repr__ = base.__repr__
    return M


MDate = _model("MDate", "day")
MYM = _model("MYM", "year month")
MMD = _model("MMD", "month day")
MTime = _model("MTime", "ns")
MTD = _model("MTD", "ns")
MDD = _model("MDD", "months days")
MDTD = _model("MDTD", "months days ns")
MInstant = _model("MInstant", "u")
MLocal = _model("MLocal", "l")
MOffset = _model("MOffset", "l off")
MZoned = _model("MZoned", "l off tz")
MSystem = _model("MSystem", "l off")
MWeekday = _model("MWeekday", "n")
EXACT = (MInstant, MOffset, MZoned, MSystem)
MODELS = (MDate, MYM, MMD, MTime, MTD, MDD, MDTD, MInstant, MLocal, MOffset, MZoned, MSystem, MWeekday)
NAME = {MDate: "Date", MYM: "YearMonth", MMD: "MonthDay", MTime: "Time", MTD: "TimeDelta",
        MDD: "DateDelta", MDTD: "DateTimeDelta", MInstant: "Instant", MLocal: "LocalDateTime",
        MOffset: "OffsetDateTime", MZoned: "ZonedDateTime", MSystem: "SystemDateTime",
        MWeekday: "Weekday"}


class Malformed(Exception):
    """A real value's public accessors do not describe a well-formed value."""


def utc(m):
    """moment in ns since 0001-01-01T00:00Z of an exact model value"""
    return m.u if type(m) is MInstant else m.l - m.off * S


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is float and a != a:
        return b != b
    return a == b


def _int(v, what, lo=None, hi=None):
    if type(v) is not int:
        raise Malformed(f"{what} is {v!r}, not an int")
    if lo is not None and not lo <= v <= hi:
        raise Malformed(f"{what}={v} outside {lo}..{hi}")
    return v


def _tod(o):
    return ((_int(o.hour, "hour", 0, 23) * 60 + _int(o.minute, "minute", 0, 59)) * 60
            + _int(o.second, "second", 0, 59)) * S + _int(o.nanosecond, "nanosecond", 0, 999_999_999)


def _day(o):
    y, m = _int(o.year, "year", 1, 9999), _int(o.month, "month", 1, 12)
    return cal.days_from_civil(y, m, _int(o.day, "day", 1, cal.dim(y, m)))


def _off(o):
    ns = _int(o.offset.in_nanoseconds(), "offset")
    if ns % S or not -86400 * S < ns < 86400 * S:
        raise Malformed(f"offset {ns} ns is not whole seconds within 24 h")
    return ns // S


def _lns(o):
    return _day(o) * cal.DAY_NS + _tod(o)


def _snap_local(o):
    return MLocal(_lns(o))


def _range(m):
    if not 0 <= utc(m) <= cal.MAX_NS:
        raise Malformed(f"{m}: UTC moment outside years 1-9999")
    return m


def _snap_dd(o):
    m, d = o.in_months_days()
    _int(m, "months", -cal.MAX_DELTA_MONTHS, cal.MAX_DELTA_MONTHS)
    _int(d, "days", -cal.MAX_DELTA_DAYS, cal.MAX_DELTA_DAYS)
    if (m > 0 > d) or (m < 0 < d):
        raise Malformed(f"DateDelta of mixed sign ({m} months, {d} days)")
    return MDD(m, d)


def _snap_td(o):
    return MTD(_int(o.in_nanoseconds(), "nanoseconds", -cal.MAX_DELTA_NS, cal.MAX_DELTA_NS))


def _snap_dtd(o):
    dd, td = _snap_dd(o.date_part()), _snap_td(o.time_part())
    if (max(dd) > 0 > td.ns) or (min(dd) < 0 < td.ns):
        raise Malformed(f"DateTimeDelta of mixed sign ({dd}, {td})")
    return MDTD(dd.months, dd.days, td.ns)


def _tz(o):
    tz = o.tz
    if type(tz) is not str:
        raise Malformed(f"tz is {tz!r}")
    return tz


SNAP = {}


def setup(W):
    """bind to the module under test"""
    SNAP.clear()
    SNAP.update({
        W.Date: lambda o: MDate(_day(o)),
        W.YearMonth: lambda o: MYM(_int(o.year, "year", 1, 9999), _int(o.month, "month", 1, 12)),
        W.MonthDay: lambda o: MMD(_int(o.month, "month", 1, 12), _int(o.day, "day", 1, cal.dim(4, o.month))),
        W.Time: lambda o: MTime(_tod(o)),
        W.TimeDelta: _snap_td,
        W.DateDelta: _snap_dd,
        W.DateTimeDelta: _snap_dtd,
        W.Instant: lambda o: _range(MInstant(_int(o.timestamp_nanos(), "timestamp_nanos") + cal.EPOCH_NS)),
        W.LocalDateTime: _snap_local,
        W.OffsetDateTime: lambda o: _range(MOffset(_lns(o), _off(o))),
        W.ZonedDateTime: lambda o: _range(MZoned(_lns(o), _off(o), _tz(o))),
        W.SystemDateTime: lambda o: _range(MSystem(_lns(o), _off(o))),
        W.Weekday: lambda o: MWeekday(o.value),
    })


def snap(o):
    """Model of a whenever value; containers recursively; anything else unchanged."""
    f = SNAP.get(type(o))
    if f is not None:
        return f(o)
    if type(o) is tuple:
        return tuple(snap(x) for x in o)
    return o


def make(W, m):
    """Build the real value from a model value by the most direct constructor."""
    t = type(m)
    if t is MDate:
        return W.Date(*cal.civil_from_days(m.day))
    if t is MTime:
        s, n = divmod(m.ns, S)
        return W.Time(s // 3600, s // 60 % 60, s % 60, nanosecond=n)
    if t is MTD:
        return W.TimeDelta(nanoseconds=m.ns)
    if t is MDD:
        return W.DateDelta(months=m.months, days=m.days)
    if t is MDTD:
        return W.DateTimeDelta(months=m.months, days=m.days, nanoseconds=m.ns)
    if t is MYM:
        return W.YearMonth(m.year, m.month)
    if t is MMD:
        return W.MonthDay(m.month, m.day)
    if t is MInstant:
        *f, n = cal.fields(m.u)
        return W.Instant.from_utc(*f, nanosecond=n)
    if t is MLocal:
        *f, n = cal.fields(m.l)
        return W.LocalDateTime(*f, nanosecond=n)
    if t is MOffset:
        *f, n = cal.fields(m.l)
        return W.OffsetDateTime(*f, nanosecond=n, offset=W.TimeDelta(seconds=m.off))
    if t is MZoned:
        u = utc(m)
        *f, n = cal.fields(u)
        return W.Instant.from_utc(*f, nanosecond=n).to_tz(m.tz)
    if t is MSystem:
        # a SystemDateTime value may carry any offset (timezone may have changed since)
        return W.SystemDateTime.parse_common_iso(fmt_offset(m))
    if t is MWeekday:
        return W.Weekday(m.n)
    raise TypeError(t)


# ---- canonical texts -------------------------------------------------------
def fmt_date(day):
    return "%04d-%02d-%02d" % cal.civil_from_days(day)


def fmt_frac(n):
    return (".%09d" % n).rstrip("0") if n else ""


def fmt_tod(ns):
    s, n = divmod(ns, S)
    return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60) + fmt_frac(n)


def fmt_local(l, sep="T"):
    d, t = divmod(l, cal.DAY_NS)
    return fmt_date(d) + sep + fmt_tod(t)


def fmt_off(off, colon=":"):
    a = abs(off)
    s = ("-" if off < 0 else "+") + "%02d%s%02d" % (a // 3600, colon, a // 60 % 60)
    return s + (colon + "%02d" % (a % 60) if a % 60 else "")


def fmt_offset(m, sep="T"):
    return fmt_local(m.l, sep) + fmt_off(m.off)


def fmt_td(ns):
    return ("-" if ns < 0 else "") + "P" + (_fmt_td_body(abs(ns)) or "T0S")


def _fmt_td_body(a):
    s, n = divmod(a, S)
    h, mi, s = s // 3600, s // 60 % 60, s % 60
    b = (f"{h}H" if h else "") + (f"{mi}M" if mi else "") + (f"{s}{fmt_frac(n)}S" if s or n else "")
    return "T" + b if b else ""


def _fmt_dd_body(m, d):
    y, m = divmod(m, 12)
    return (f"{y}Y" if y else "") + (f"{m}M" if m else "") + (f"{d}D" if d else "")


def fmt_dd(m, d):
    neg = m < 0 or d < 0
    return ("-" if neg else "") + "P" + (_fmt_dd_body(abs(m), abs(d)) or "0D")


def fmt_dtd(m, d, ns):
    neg = m < 0 or d < 0 or ns < 0
    return ("-" if neg else "") + "P" + (_fmt_dd_body(abs(m), abs(d)) + _fmt_td_body(abs(ns)) or "0D")


def fmt(m):
    """canonical common ISO text of a model value"""
    t = type(m)
    if t is MDate:
        return fmt_date(m.day)
    if t is MTime:
        return fmt_tod(m.ns)
    if t is MYM:
        return "%04d-%02d" % m
    if t is MMD:
        return "--%02d-%02d" % m
    if t is MTD:
        return fmt_td(m.ns)
    if t is MDD:
        return fmt_dd(*m)
    if t is MDTD:
        return fmt_dtd(*m)
    if t is MInstant:
        return fmt_local(m.u) + "Z"
    if t is MLocal:
        return fmt_local(m.l)
    if t in (MOffset, MSystem):
        return fmt_offset(m)
    if t is MZoned:
        return fmt_offset(m) + f"[{m.tz}]"
    raise TypeError(t)


# ---- (de)serialisation for replay files ------------------------------------
_BY_NAME = {v: k for k, v in NAME.items()}


def enc(x):
    t = type(x)
    if t in NAME:
        return {"$": NAME[t], "v": list(x)}
    if t in (int, str, bool, type(None)):
        return x
    if t is float:
        return {"$": "float", "v": x.hex() if x == x and abs(x) != float("inf") else repr(x)}
    if t in (tuple, list):
        return {"$": t.__name__, "v": [enc(i) for i in x]}
    if t is dict:
        return {"$": "dict", "v": [[enc(k), enc(v)] for k, v in x.items()]}
    if t is bytes:
        return {"$": "bytes", "v": x.hex()}
    return {"$": "repr", "v": repr(x)}


def dec(x):
    if not isinstance(x, dict):
        return x
    k, v = x["$"], x["v"]
    if k in _BY_NAME:
        return _BY_NAME[k](*v)
    if k == "float":
        return float.fromhex(v) if "0x" in v else float(v)
    if k in ("tuple", "list"):
        return (tuple if k == "tuple" else list)(dec(i) for i in v)
    if k == "dict":
        return {dec(a): dec(b) for a, b in v}
    if k == "bytes":
        return bytes.fromhex(v)
    raise ValueError(f"cannot decode {k}: {v}")
