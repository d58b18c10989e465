"""Executable specification of whenever's public operations over model values.

SPEC[op](*args, **kwargs) -> expectation.  Model values stand for whenever values,
anything else is passed through unchanged.  Independent of whenever, datetime's
arithmetic and zoneinfo: calendar and timezone facts come from cal.py and tzdb.py.
"""
import os
import re
import zoneinfo
from fractions import Fraction

from . import cal, tzdb
from .cal import DAY_NS, S
from .vals import *
from .vals import fmt_local, fmt_off, fmt_tod, fmt_frac, fmt_date

H, MI = 3600 * S, 60 * S


# ---------------------------------------------------------------- expectations
class Raises:
    def __init__(self, *types):
        self.types = types

    def __repr__(self):
        return "raises " + "/".join(t if isinstance(t, str) else t.__name__ for t in self.types)


class Near:
    """a model value of the same type whose single ns field differs by <= tol"""

    def __init__(self, m, tol):
        self.m, self.tol = m, tol

    def __repr__(self):
        return f"{self.m} +-{self.tol} ns"


class AnyOf:
    def __init__(self, *alts):
        self.alts = alts

    def __repr__(self):
        return " or ".join(map(repr, self.alts))


class Pred:
    def __init__(self, f, text):
        self.f, self.text = f, text

    def __repr__(self):
        return self.text


class _Skip:
    def __repr__(self):
        return "unspecified"


SKIP = _Skip()
RANGE = Raises(ValueError, OverflowError)
TSRANGE = Raises(ValueError, OverflowError, OSError)
VALUE = Raises(ValueError)
TYPE = Raises(TypeError)
ANYEXC = Raises(Exception)
IGNDST = Raises("ImplicitlyIgnoringDST")
REPEATED = Raises("RepeatedTime")
SKIPPED = Raises("SkippedTime")


class Exc:
    """observed exception"""

    def __init__(self, e):
        self.type = type(e)
        self.msg = str(e)[:200]
        self.names = tuple(t.__name__ for t in type(e).__mro__)

    def __repr__(self):
        return f"{self.type.__name__}({self.msg!r})"


def matches(exp, got):
    """does the observed outcome (model / raw value / Exc) satisfy the expectation?"""
    if exp is SKIP:
        return True
    t = type(exp)
    if t is AnyOf:
        return any(matches(e, got) for e in exp.alts)
    if t is Raises:
        if EXT and isinstance(got, Exc) and got.type is OverflowError and TypeError in exp.types:
            return True     # several faults at once, of which a number too large comes first
        return isinstance(got, Exc) and not issubclass(got.type, Malformed) and any(
            (n in got.names) if isinstance(n, str) else issubclass(got.type, n) for n in exp.types)
    if isinstance(got, Exc):
        return False
    if t is Near:
        if type(got) is not type(exp.m):
            return False
        return abs(got[0] - exp.m[0]) <= exp.tol and got[1:] == exp.m[1:]
    if t is Pred:
        return bool(exp.f(got))
    return same(exp, got)


SPEC = {}


def op(*names):
    def deco(f):
        for n in names:
            SPEC[n] = f
        return f
    return deco


class Bad(Exception):
    """raised inside specs to return an expectation early"""

    def __init__(self, exp):
        self.exp = exp


EXT = False     # the code under test is the native extension (set by core.load)


def _differs(name, args, kw):
    """where the two implementations differ in what is documented nowhere"""
    op = name.rpartition(".")[2]
    if op in ("add", "subtract") and name.startswith("SystemDateTime") and len(args) == 1 and not set(kw) - {"disambiguate"}:
        return True         # nothing to add: itself, or itself resolved anew
    if op in ("add", "subtract") and len(args) == 1 and set(kw) == {"disambiguate"}:
        return True         # likewise: whether the setting is looked at
    if name == "Instant.parse_common_iso" and args and type(args[0]) is str and args[0].endswith("+00:00:00"):
        return True
    if op == "to_fixed_offset" and len(args) == 2 and args[1] is None:
        return True
    if type(kw.get("disambiguate", "")) is not str:
        return True         # refused at once, or only where there is something to disambiguate
    return False


def expect(name, args, kw):
    f = SPEC.get(name)
    if f is None or EXT and _differs(name, args, kw):
        return SKIP
    try:
        return f(*args, **kw)
    except Bad as b:
        return b.exp
    except Exception:
        # the specification has no answer for these arguments: not judged
        if STRICT:
            raise
        errors.append((name, args, kw))
        return SKIP


STRICT = bool(os.environ.get("VERIF_STRICT"))
errors = []


# ---------------------------------------------------------------- system timezone
class Sys:
    name = None
    zone = None
    # SystemDateTime goes through the C library and datetime's fold probing
    # (+-24 h): local times near shifts of that size are left unspecified.


def set_sys(name, zone):
    Sys.name, Sys.zone = name, zone


# ---------------------------------------------------------------- helpers
def ok_local(l):
    return 0 <= l <= cal.MAX_NS


def need(cond, exp=RANGE):
    if not cond:
        raise Bad(exp)


def isint(x):
    return type(x) is int


def near_edge(ns, days=3):
    return ns < days * DAY_NS or ns > cal.MAX_NS - days * DAY_NS


def mk_offset(l, off):
    need(ok_local(l) and ok_local(l - off * S))
    return MOffset(l, off)


def mk_instant(u):
    need(ok_local(u))
    return MInstant(u)


def _zone(tz):
    z = ZONES.get(tz)
    if z is None:
        z = _load(tz)
        ZONES[tz] = z
    if z is _UNKNOWN:
        raise Bad(ANYEXC)
    if z is _UNSURE:
        raise Bad(SKIP)
    return z


_UNKNOWN, _UNSURE = object(), object()
ZONES = {}
KEYS = tzdb.all_keys()
_KEYSET = frozenset(KEYS)


def _load(tz):
    if type(tz) is str and tz in _KEYSET:
        return tzdb.zone(tz)
    try:
        zoneinfo.ZoneInfo(tz)
    except Exception:
        return _UNKNOWN
    return _UNSURE


def zat(tz, u):
    """MZoned at utc ns u"""
    off = _zone(tz).offset_at(u // S)
    need(ok_local(u) and ok_local(u + off * S))
    return MZoned(u + off * S, off, tz)


def sat(u):
    off = Sys.zone.offset_at(u // S)
    need(ok_local(u) and ok_local(u + off * S))
    return MSystem(u + off * S, off)


DIS = ("compatible", "earlier", "later", "raise")


def resolve(zone, l, dis):
    """-> utc ns; dis: one of DIS or a previous offset (int seconds)"""
    if not isint(dis) and dis not in DIS:
        raise Bad(VALUE)
    need(ok_local(l))
    r = zone.resolve(l // S)
    if r[0] == "one":
        off = r[1]
    elif r[0] == "fold":
        if isint(dis):
            off = dis if dis in r[1:] else r[1]
        elif dis == "raise":
            raise Bad(REPEATED)
        else:
            off = r[2] if dis == "later" else r[1]
    elif r[0] == "gap":
        if dis == "raise":
            raise Bad(SKIPPED)
        # a kept offset is the one the result has: counting with the offset before the
        # gap lands after it, and vice versa
        off = r[2] if dis == "earlier" or dis == r[1] else r[1]
    else:
        raise Bad(SKIP)
    u = l - off * S
    need(ok_local(u))
    return u


def zresolve(tz, l, dis):
    return zat(tz, resolve(_zone(tz), l, dis))


def sresolve(l, dis):
    if not isint(dis) and dis not in DIS:
        raise Bad(VALUE)
    if near_edge(l, 2):
        # the stdlib probes a day around the local time
        try:
            return AnyOf(sat(resolve(Sys.zone, l, dis)), RANGE)
        except Bad as b:
            return b.exp
    if sys_odd(l):
        raise Bad(SKIP)
    return sat(resolve(Sys.zone, l, dis))


def sys_odd(l):
    """local time whose neighbourhood has a shift too large/too close for the C library route"""
    ts = Sys.zone.transitions(l // S - 2 * 86400 - 7200, l // S + 2 * 86400 + 7200)
    return len(ts) > 1 or any(abs(a - b) >= 86400 - 3600 for _, b, a in ts)


def off_arg(o):
    """offset argument: int hours or TimeDelta"""
    if isint(o):
        need(-24 < o < 24)
        return o * 3600
    if type(o) is MTD:
        need(o.ns % S == 0 and -DAY_NS < o.ns < DAY_NS)
        return o.ns // S
    raise Bad(TYPE)


UNITS = {"hours": H, "minutes": MI, "seconds": S, "milliseconds": 1_000_000, "microseconds": 1000, "nanoseconds": 1}
DUNITS = ("years", "months", "weeks", "days")


def exact_ns(kw):
    """(ns, tol) of exact-unit keyword arguments"""
    ns, tol = Fraction(0), 0
    for k, v in kw.items():
        if k not in UNITS:
            raise Bad(TYPE)
        if isint(v):
            ns += v * UNITS[k]
        elif type(v) is float:
            if k == "nanoseconds":
                raise Bad(ANYEXC)
            if v != v or v in (float("inf"), float("-inf")):
                raise Bad(RANGE)
            x = Fraction(v) * UNITS[k]
            ns += x
            if x.denominator != 1 or abs(x) >= 1 << 53:
                tol += 1 + abs(x) * Fraction(1, 1 << 52)
        else:
            raise Bad(ANYEXC)
    return ns, tol


def date_kw(kw):
    for k, v in kw.items():
        if k not in DUNITS:
            raise Bad(TYPE)
        if not isint(v):
            raise Bad(SKIP if type(v) is bool else ANYEXC)
    g = kw.get
    return g("years", 0) * 12 + g("months", 0), g("weeks", 0) * 7 + g("days", 0)


def split_kw(kw):
    return {k: v for k, v in kw.items() if k in DUNITS}, {k: v for k, v in kw.items() if k not in DUNITS}


def mk_td(ns, tol=0):
    if tol == 0:
        ns = int(ns)
        need(abs(ns) <= cal.MAX_DELTA_NS)
        return MTD(ns)
    r = Near(MTD(int(ns)), int(tol) + 1)
    if abs(ns) - tol > cal.MAX_DELTA_NS:
        raise Bad(RANGE)
    if abs(ns) + tol >= cal.MAX_DELTA_NS:
        return AnyOf(r, RANGE)
    return r


def mk_dd(m, d):
    need(not (m > 0 > d or m < 0 < d))
    need(abs(m) <= cal.MAX_DELTA_MONTHS and abs(d) <= cal.MAX_DELTA_DAYS)
    return MDD(m, d)


def mk_dtd(m, d, ns):
    mk_dd(m, d)
    mk_td(ns)
    need(not ((m > 0 or d > 0) and ns < 0 or (m < 0 or d < 0) and ns > 0))
    return MDTD(m, d, ns)


def parts(delta):
    t = type(delta)
    if t is MTD:
        return 0, 0, delta.ns
    if t is MDD:
        return delta.months, delta.days, 0
    if t is MDTD:
        return tuple(delta)
    raise Bad(ANYEXC)


def shift_args(sign, a, kw):
    """-> (months, days, ns, tol) for add/subtract of datetimes"""
    if a:
        if kw or len(a) > 1:
            raise Bad(TYPE)
        m, d, ns = parts(a[0])
        tol = 0
    else:
        dk, ek = split_kw(kw)
        m, d = date_kw(dk)
        ns, tol = exact_ns(ek)
        if tol == 0:
            ns = int(ns)
        if abs(ns) > cal.MAX_DELTA_NS:
            raise Bad(RANGE)
    if tol == 0:
        return sign * m, sign * d, sign * ns, 0
    return sign * m, sign * d, sign * int(ns), int(tol) + 1


def sdate(day, m, d):
    """shifted date; raises Bad(RANGE) when even the result is out of range.  Returns
    (day, strict): strict False if only an intermediate was out of range"""
    a = cal.add_months_clip(day, m)
    if a is None:
        raise Bad(RANGE)
    r = a + d
    need(0 <= r <= cal.MAX_DAY)
    return r


def lenient(exp):
    return AnyOf(exp, RANGE)


def with_tol(m, tol, lo=0, hi=cal.MAX_NS):
    return m if not tol else Near(m, tol)


# ---------------------------------------------------------------- calendar / clock values
@op("Date")
def _(*a, **kw):
    f = dict(zip(("year", "month", "day"), a))
    need(len(a) <= 3 and not (set(kw) & set(f)), TYPE)
    f.update(kw)
    need(set(f) == {"year", "month", "day"}, TYPE)
    need(all(map(isint, f.values())), ANYEXC)
    need(cal.valid_date(**{"y": f["year"], "m": f["month"], "d": f["day"]}))
    return MDate(cal.days_from_civil(f["year"], f["month"], f["day"]))


for _i, _n in enumerate(("year", "month", "day")):
    SPEC["Date." + _n] = lambda m, _i=_i: cal.civil_from_days(m.day)[_i]


@op("Date.year_month")
def _(m):
    return MYM(*cal.civil_from_days(m.day)[:2])


@op("Date.month_day")
def _(m):
    return MMD(*cal.civil_from_days(m.day)[1:])


@op("Date.day_of_week")
def _(m):
    return MWeekday(cal.weekday(m.day))


@op("Date.at")
def _(m, t):
    need(type(t) is MTime, ANYEXC)
    return MLocal(m.day * DAY_NS + t.ns)


def _replace_fields(cur, kw, names):
    if any(k not in names for k in kw):
        # several faults at once: which one is reported is not specified
        raise Bad(TYPE if len(kw) == 1 else ANYEXC)
    for k, v in kw.items():
        if not isint(v):
            raise Bad(SKIP if type(v) is bool else ANYEXC)
    return {**cur, **kw}


@op("Date.replace")
def _(m, **kw):
    f = _replace_fields(dict(zip("year month day".split(), cal.civil_from_days(m.day))), kw,
                        ("year", "month", "day"))
    need(cal.valid_date(f["year"], f["month"], f["day"]))
    return MDate(cal.days_from_civil(f["year"], f["month"], f["day"]))


def _date_shift(sign, m, a, kw):
    if a:
        need(not kw and len(a) == 1, TYPE)
        need(type(a[0]) is MDD, ANYEXC)
        mo, d = a[0]
    else:
        mo, d = date_kw(kw)
    return MDate(sdate(m.day, sign * mo, sign * d))


@op("Date.add")
def _(m, *a, **kw):
    return _date_shift(1, m, a, kw)


@op("Date.subtract")
def _(m, *a, **kw):
    return _date_shift(-1, m, a, kw)


@op("Date.days_until")
def _(m, o):
    need(type(o) is MDate, ANYEXC)
    return o.day - m.day


@op("Date.days_since")
def _(m, o):
    need(type(o) is MDate, ANYEXC)
    return m.day - o.day


@op("YearMonth")
def _(*a, **kw):
    f = dict(zip(("year", "month"), a))
    need(len(a) <= 2 and not (set(kw) & set(f)), TYPE)
    f.update(kw)
    need(set(f) == {"year", "month"}, TYPE)
    need(all(map(isint, f.values())), ANYEXC)
    need(cal.valid_date(f["year"], f["month"], 1))
    return MYM(f["year"], f["month"])


SPEC["YearMonth.year"] = lambda m: m.year
SPEC["YearMonth.month"] = lambda m: m.month
SPEC["MonthDay.month"] = lambda m: m.month
SPEC["MonthDay.day"] = lambda m: m.day


@op("YearMonth.replace")
def _(m, **kw):
    f = _replace_fields({"year": m.year, "month": m.month}, kw, ("year", "month"))
    need(cal.valid_date(f["year"], f["month"], 1))
    return MYM(f["year"], f["month"])


@op("YearMonth.on_day")
def _(m, d):
    need(isint(d), ANYEXC)
    need(cal.valid_date(m.year, m.month, d))
    return MDate(cal.days_from_civil(m.year, m.month, d))


@op("MonthDay")
def _(*a, **kw):
    f = dict(zip(("month", "day"), a))
    need(len(a) <= 2 and not (set(kw) & set(f)), TYPE)
    f.update(kw)
    need(set(f) == {"month", "day"}, TYPE)
    need(all(map(isint, f.values())), ANYEXC)
    need(cal.valid_date(4, f["month"], f["day"]))
    return MMD(f["month"], f["day"])


@op("MonthDay.replace")
def _(m, **kw):
    f = _replace_fields({"month": m.month, "day": m.day}, kw, ("month", "day"))
    need(cal.valid_date(4, f["month"], f["day"]))
    return MMD(f["month"], f["day"])


@op("MonthDay.in_year")
def _(m, y):
    need(isint(y), ANYEXC)
    need(cal.valid_date(y, m.month, m.day))
    return MDate(cal.days_from_civil(y, m.month, m.day))


@op("MonthDay.is_leap")
def _(m):
    return m == MMD(2, 29)


_TF = ("hour", "minute", "second")
_TMAX = {"hour": 23, "minute": 59, "second": 59, "nanosecond": 999_999_999}


def _tod_of(f):
    for k in ("hour", "minute", "second", "nanosecond"):
        v = f.get(k, 0)
        if not isint(v):
            raise Bad(SKIP if type(v) is bool else ANYEXC)
    for k, hi in _TMAX.items():
        need(0 <= f.get(k, 0) <= hi)
    return cal.time_ns(f.get("hour", 0), f.get("minute", 0), f.get("second", 0), f.get("nanosecond", 0))


@op("Time")
def _(*a, **kw):
    need(len(a) <= 3, TYPE)
    f = dict(zip(_TF, a))
    need(not (set(kw) & set(f)) and set(kw) <= set(_TMAX), TYPE)
    f.update(kw)
    return MTime(_tod_of(f))


def _tod_fields(ns):
    s, n = divmod(ns, S)
    return {"hour": s // 3600, "minute": s // 60 % 60, "second": s % 60, "nanosecond": n}


for _n in _TMAX:
    SPEC["Time." + _n] = lambda m, _n=_n: _tod_fields(m.ns)[_n]


@op("Time.replace")
def _(m, **kw):
    return MTime(_tod_of(_replace_fields(_tod_fields(m.ns), kw, _TMAX)))


@op("Time.on")
def _(m, d):
    need(type(d) is MDate, ANYEXC)
    return MLocal(d.day * DAY_NS + m.ns)


# ---------------------------------------------------------------- rounding
MODES = ("ceil", "floor", "half_ceil", "half_floor", "half_even")
_DIV = {"hour": (24, H), "minute": (60, MI), "second": (60, S), "millisecond": (1000, 1_000_000),
        "microsecond": (1000, 1000), "nanosecond": (1000, 1)}


def _inc(unit, inc, any_hour=False, day_ok=True):
    need(type(unit) is str, SKIP)
    need(isint(inc), SKIP)
    if unit == "day":
        need(day_ok, VALUE)
        need(inc == 1, VALUE)
        return None
    need(unit in _DIV, VALUE)
    d, ns = _DIV[unit]
    need(1 <= inc <= 1000, VALUE)
    need((any_hour and unit == "hour") or d % inc == 0, VALUE)
    return ns * inc


def round_to(ns, inc, mode):
    need(type(mode) is str, ANYEXC)
    need(mode in MODES, VALUE)
    q, r = divmod(ns, inc)
    if mode == "ceil":
        up = r > 0
    elif mode == "floor":
        up = False
    elif 2 * r != inc:
        up = 2 * r > inc
    elif mode == "half_even":
        up = q % 2 == 1
    else:
        up = mode == "half_ceil"
    return (q + up) * inc


@op("Time.round")
def _(m, unit="second", increment=1, mode="half_even"):
    inc = _inc(unit, increment, day_ok=False)
    return MTime(round_to(m.ns, inc, mode) % DAY_NS)


@op("TimeDelta.round")
def _(m, unit="second", increment=1, mode="half_even"):
    inc = _inc(unit, increment, any_hour=True, day_ok=False)
    return mk_td(round_to(m.ns, inc, mode))


def _round_l(l, unit, increment, mode, day_ok=True):
    inc = _inc(unit, increment, day_ok=day_ok) or DAY_NS
    d, t = divmod(l, DAY_NS)
    l = d * DAY_NS + round_to(t, inc, mode)
    need(ok_local(l))
    return l


@op("Instant.round")
def _(m, unit="second", increment=1, mode="half_even"):
    return mk_instant(_round_l(m.u, unit, increment, mode, day_ok=False))


@op("LocalDateTime.round")
def _(m, unit="second", increment=1, mode="half_even"):
    return MLocal(_round_l(m.l, unit, increment, mode))


@op("OffsetDateTime.round")
def _(m, unit="second", increment=1, mode="half_even", *, ignore_dst=False):
    need(ignore_dst is True, IGNDST)
    return mk_offset(_round_l(m.l, unit, increment, mode), m.off)


def _compat(zone, day, sys=False):
    """utc ns of the resolved midnight starting the day"""
    need(0 <= day <= cal.MAX_DAY)
    if sys and (sys_odd(day * DAY_NS) or near_edge(day * DAY_NS)):
        raise Bad(SKIP)
    r = zone.resolve(day * 86400)
    if r[0] == "gap":
        t = [t for t in zone.transitions(day * 86400 - 2 * 86400, day * 86400 + 2 * 86400)
             if t[0] + t[1] <= day * 86400 < t[0] + t[2]]
        if t and t[0][0] + t[0][1] != day * 86400:
            raise Bad(SKIP)  # midnight strictly inside a gap: see C20 in DESIGN.md
    return resolve(zone, day * DAY_NS, "compatible")


def _day_len(zone, m, sys=False):
    day = m.l // DAY_NS
    return _compat(zone, day + 1, sys) - _compat(zone, day, sys)


def _round_zoned(zone, m, at, resolve_prev, unit, increment, mode, sys=False):
    inc = _inc(unit, increment)
    if inc is not None:
        d, t = divmod(m.l, DAY_NS)
        l = d * DAY_NS + round_to(t, inc, mode)
        need(ok_local(l))
        return resolve_prev(l)
    need(type(mode) is str, ANYEXC)
    edge = m.l // DAY_NS >= cal.MAX_DAY - 1 or m.l < 2 * DAY_NS
    need(mode in MODES, RANGE if edge else VALUE)
    if edge:
        return SKIP if mode not in ("floor",) else AnyOf(at(_compat(zone, m.l // DAY_NS, sys)), RANGE)
    day, t = divmod(m.l, DAY_NS)
    length = _day_len(zone, m, sys)
    if mode == "ceil":
        up = t > 0
    elif mode == "floor":
        up = False
    elif mode == "half_ceil":
        up = 2 * t >= length
    else:
        up = 2 * t > length      # the start of the day is the even (0th) multiple
    d = day + up
    r = zone.resolve(d * 86400)
    exp = at(_compat(zone, d, sys))
    if r[0] == "fold" and m.off in r[1:]:
        # midnight occurs twice: keeping the previous offset is documented too
        return AnyOf(exp, at(d * DAY_NS - m.off * S))
    return exp


def _keep(zone, l, off):
    """rounding keeps the offset for repeated times; it never goes back before a gap"""
    return "compatible" if zone.resolve(l // S)[0] == "gap" else off


@op("ZonedDateTime.round")
def _(m, unit="second", increment=1, mode="half_even"):
    return _round_zoned(_zone(m.tz), m, lambda u: zat(m.tz, u),
                        lambda l: zresolve(m.tz, l, _keep(_zone(m.tz), l, m.off)), unit, increment, mode)


@op("SystemDateTime.round")
def _(m, unit="second", increment=1, mode="half_even"):
    return _round_zoned(Sys.zone, m, sat, lambda l: sresolve(l, _keep(Sys.zone, l, m.off)), unit, increment, mode, sys=True)


# ---------------------------------------------------------------- day boundaries
@op("ZonedDateTime.start_of_day")
def _(m):
    return zat(m.tz, _compat(_zone(m.tz), m.l // DAY_NS))


@op("SystemDateTime.start_of_day")
def _(m):
    return sat(_compat(Sys.zone, m.l // DAY_NS, True))


@op("ZonedDateTime.day_length")
def _(m):
    return MTD(_day_len(_zone(m.tz), m))


@op("SystemDateTime.day_length")
def _(m):
    return MTD(_day_len(Sys.zone, m, True))


@op("ZonedDateTime.is_ambiguous")
def _(m):
    return _zone(m.tz).resolve(m.l // S)[0] == "fold"


@op("SystemDateTime.is_ambiguous")
def _(m):
    need(not near_edge(m.l) and not sys_odd(m.l), SKIP)
    return Sys.zone.resolve(m.l // S)[0] == "fold"


# ---------------------------------------------------------------- TimeDelta
@op("TimeDelta")
def _(*a, **kw):
    need(not a, TYPE)
    return mk_td(*exact_ns(kw))


for _u, _k in (("hours", H), ("minutes", MI), ("seconds", S), ("milliseconds", 10**6), ("microseconds", 1000),
               ("nanoseconds", 1)):
    SPEC["fn." + _u] = lambda i, _u=_u: mk_td(*exact_ns({_u: i}))
for _u in DUNITS:
    SPEC["fn." + _u] = lambda i, _u=_u: mk_dd(*date_kw({_u: i}))

for _n, _k in (("in_days_of_24h", DAY_NS), ("in_hours", H), ("in_minutes", MI), ("in_seconds", S),
               ("in_milliseconds", 10**6), ("in_microseconds", 1000)):
    # correctly rounded quotient, or within an ulp of it
    SPEC["TimeDelta." + _n] = lambda m, _k=_k: close_float(Fraction(m.ns, _k))
SPEC["TimeDelta.in_nanoseconds"] = lambda m: m.ns


def close_float(x):
    f = float(x)
    tol = abs(x) * Fraction(1, 1 << 50)
    return Pred(lambda g: type(g) is float and g == g and abs(g) != float("inf") and abs(Fraction(g) - x) <= tol,
                f"float close to {f!r}")


@op("TimeDelta.in_hrs_mins_secs_nanos")
def _(m):
    a = abs(m.ns)
    sg = -1 if m.ns < 0 else 1
    return tuple(sg * x for x in (a // H, a // MI % 60, a // S % 60, a % S))


# ---------------------------------------------------------------- DateDelta / DateTimeDelta
@op("DateDelta")
def _(*a, **kw):
    need(not a, TYPE)
    return mk_dd(*date_kw(kw))


SPEC["DateDelta.in_months_days"] = lambda m: tuple(m)
SPEC["DateDelta.in_years_months_days"] = lambda m: (
    cal.trunc_div(m.months, 12), m.months - 12 * cal.trunc_div(m.months, 12), m.days)


@op("DateTimeDelta")
def _(*a, **kw):
    need(not a, TYPE)
    dk, ek = split_kw(kw)
    m, d = date_kw(dk)
    mk_dd(m, d)
    ns, tol = exact_ns(ek)
    if tol:
        raise Bad(SKIP)
    return mk_dtd(m, d, int(ns))


SPEC["DateTimeDelta.date_part"] = lambda m: MDD(m.months, m.days)
SPEC["DateTimeDelta.time_part"] = lambda m: MTD(m.ns)
SPEC["DateTimeDelta.in_months_days_secs_nanos"] = lambda m: (
    m.months, m.days, cal.trunc_div(m.ns, S), m.ns - S * cal.trunc_div(m.ns, S))


# ---------------------------------------------------------------- local fields of datetimes
def _lf(m):
    return dict(zip(("year", "month", "day", "hour", "minute", "second", "nanosecond"), cal.fields(m.l)))


_KN = ("LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime")
for _c in _KN:
    for _n in ("year", "month", "day", "hour", "minute", "second", "nanosecond"):
        SPEC[f"{_c}.{_n}"] = lambda m, _n=_n: _lf(m)[_n]
    SPEC[f"{_c}.date"] = lambda m: MDate(m.l // DAY_NS)
    SPEC[f"{_c}.time"] = lambda m: MTime(m.l % DAY_NS)
for _c in _KN[1:]:
    SPEC[f"{_c}.local"] = lambda m: MLocal(m.l)
    SPEC[f"{_c}.instant"] = lambda m: MInstant(utc(m))
    SPEC[f"{_c}.offset"] = lambda m: MTD(m.off * S)
SPEC["ZonedDateTime.tz"] = lambda m: m.tz

EXN = ("Instant",) + _KN[1:]
for _c in EXN:
    SPEC[f"{_c}.timestamp"] = lambda m: (utc(m) - cal.EPOCH_NS) // S
    SPEC[f"{_c}.timestamp_millis"] = lambda m: (utc(m) - cal.EPOCH_NS) // 10**6
    SPEC[f"{_c}.timestamp_nanos"] = lambda m: utc(m) - cal.EPOCH_NS


# ---------------------------------------------------------------- timestamps in
def _ts(i, unit, mk):
    try:
        return _ts1(i, unit, mk)
    except Bad as b:
        if b.exp is RANGE:
            raise Bad(TSRANGE)
        raise


def _ts1(i, unit, mk):
    """mk: utc ns -> model (raising Bad(RANGE))"""
    if unit != S:
        need(type(i) is not bool, SKIP)
        need(isint(i), TYPE)
        return mk(i * unit + cal.EPOCH_NS)
    if isint(i):
        return mk(i * S + cal.EPOCH_NS)
    need(type(i) is float, SKIP if type(i) is bool else ANYEXC)
    need(i == i and abs(i) != float("inf"))
    x = Fraction(i) * S
    tol = 1 + abs(x) / (1 << 52)
    u = int(x) + cal.EPOCH_NS
    if u < -DAY_NS * 3 or u > cal.MAX_NS + DAY_NS * 3:
        raise Bad(RANGE)
    t = int(tol) + 1
    if near_edge(u):
        raise Bad(SKIP)
    lo, hi = mk(u - t), mk(u + t)
    if type(lo) is MInstant:
        return Near(mk(u), t)
    if lo[1:] == hi[1:]:
        return Near(mk(u), t)
    return AnyOf(Near(lo, 2 * t), Near(hi, 2 * t))


def _mk_off_at(o):
    def mk(u):
        need(ok_local(u) and ok_local(u + o * S))
        return MOffset(u + o * S, o)
    return mk


for _n, _u in (("from_timestamp", S), ("from_timestamp_millis", 10**6), ("from_timestamp_nanos", 1)):
    SPEC["Instant." + _n] = lambda i, *, _u=_u: _ts(i, _u, mk_instant)
    SPEC["SystemDateTime." + _n] = lambda i, *, _u=_u: _ts(i, _u, sat)

    def _f(i, *, tz, _u=_u):
        _zone(tz)
        return _ts(i, _u, lambda u: zat(tz, u))
    SPEC["ZonedDateTime." + _n] = _f

    def _f(i, *, offset, ignore_dst=False, _u=_u):
        need(ignore_dst is True, IGNDST)
        if _u != S:
            need(isint(i), TYPE)
        return _ts(i, _u, _mk_off_at(off_arg(offset)))
    SPEC["OffsetDateTime." + _n] = _f


# ---------------------------------------------------------------- constructors of datetimes
_DTF = ("year", "month", "day", "hour", "minute", "second")


def _dt_fields(a, kw):
    f = dict(zip(_DTF, a))
    need(len(a) <= 6 and not (set(kw) & set(f)) and set(kw) <= set(_DTF) | {"nanosecond"}, TYPE)
    f.update(kw)
    need({"year", "month", "day"} <= set(f), TYPE)
    return _l_of(f)


def _l_of(f):
    for v in f.values():
        if not isint(v):
            raise Bad(SKIP if type(v) is bool else ANYEXC)
    need(cal.valid_date(f["year"], f["month"], f["day"]))
    return cal.days_from_civil(f["year"], f["month"], f["day"]) * DAY_NS + _tod_of(f)


@op("Instant")
def _(*a, **kw):
    return TYPE


@op("Instant.from_utc")
def _(*a, **kw):
    return MInstant(_dt_fields(a, kw))


@op("LocalDateTime")
def _(*a, **kw):
    return MLocal(_dt_fields(a, kw))


@op("OffsetDateTime")
def _(*a, offset, **kw):
    l = _dt_fields(a, kw)
    return mk_offset(l, off_arg(offset))


@op("ZonedDateTime")
def _(*a, tz, disambiguate="compatible", **kw):
    l = _dt_fields(a, kw)
    return zresolve(tz, l, _dis(disambiguate))


def _dis(d):
    # (a datetime.timedelta is taken for the internal previous offset: known finding of C27)
    need(type(d).__name__ != "timedelta", SKIP)
    need(type(d) is str, ANYEXC)
    need(d in DIS, VALUE)
    return d


@op("SystemDateTime")
def _(*a, disambiguate="compatible", **kw):
    l = _dt_fields(a, kw)
    return sresolve(l, _dis(disambiguate))


# ---------------------------------------------------------------- conversions
for _c in EXN:
    SPEC[f"{_c}.to_tz"] = lambda m, tz: zat(tz, utc(m)) if _zone(tz) else None
    SPEC[f"{_c}.to_system_tz"] = lambda m: sat(utc(m))

    def _f(m, *a):
        need(len(a) <= 1, TYPE)
        o = (0 if type(m) is MInstant else m.off) if not a or a[0] is None else off_arg(a[0])
        return mk_offset(utc(m) + o * S, o)
    SPEC[f"{_c}.to_fixed_offset"] = _f


@op("LocalDateTime.assume_utc")
def _(m):
    return MInstant(m.l)


@op("LocalDateTime.assume_fixed_offset")
def _(m, o):
    return mk_offset(m.l, off_arg(o))


@op("LocalDateTime.assume_tz")
def _(m, tz, disambiguate="compatible"):
    _zone(tz)
    return zresolve(tz, m.l, _dis(disambiguate))


@op("LocalDateTime.assume_system_tz")
def _(m, disambiguate="compatible"):
    return sresolve(m.l, _dis(disambiguate))


# ---------------------------------------------------------------- comparison
def _cmp_kind(m):
    return "exact" if type(m) in EXACT else type(m)


def _cmp_key(m):
    return utc(m) if type(m) in EXACT else tuple(m)


_ORDERED = (MDate, MYM, MMD, MTime, MTD, MLocal) + EXACT


def _cmp(f):
    def g(a, b):
        if type(a) not in _ORDERED or _cmp_kind(a) != _cmp_kind(b):
            return TYPE
        return f(_cmp_key(a), _cmp_key(b))
    return g


SPEC["<"] = _cmp(lambda a, b: a < b)
SPEC["<="] = _cmp(lambda a, b: a <= b)
SPEC[">"] = _cmp(lambda a, b: a > b)
SPEC[">="] = _cmp(lambda a, b: a >= b)
SPEC["=="] = lambda a, b: _cmp_kind(a) == _cmp_kind(b) and _cmp_key(a) == _cmp_key(b)
SPEC["!="] = lambda a, b: not (_cmp_kind(a) == _cmp_kind(b) and _cmp_key(a) == _cmp_key(b))

for _c in EXN:
    def _f(a, b):
        need(type(a) is type(b), TYPE)
        return a == b
    SPEC[f"{_c}.exact_eq"] = _f


# ---------------------------------------------------------------- differences
@op("Instant.difference", "OffsetDateTime.difference", "ZonedDateTime.difference", "SystemDateTime.difference")
def _(a, b):
    need(type(b) in EXACT, ANYEXC)
    return MTD(utc(a) - utc(b))


@op("LocalDateTime.difference")
def _(a, b, *, ignore_dst=False):
    need(ignore_dst is True, IGNDST)
    need(type(b) is MLocal, ANYEXC)
    return MTD(a.l - b.l)


# ---------------------------------------------------------------- shifting datetimes
def _shift_instant(sign, m, a, kw):
    need(not a, TYPE)
    ns, tol = exact_ns(kw)
    if tol == 0:
        need(abs(ns) <= cal.MAX_DELTA_NS)
        return mk_instant(m.u + sign * int(ns))
    u = m.u + sign * int(ns)
    t = int(tol) + 1
    if not (t <= u <= cal.MAX_NS - t):
        raise Bad(SKIP if -t <= u <= cal.MAX_NS + t else RANGE)
    return Near(MInstant(u), t)


SPEC["Instant.add"] = lambda m, *a, **kw: _shift_instant(1, m, a, kw)
SPEC["Instant.subtract"] = lambda m, *a, **kw: _shift_instant(-1, m, a, kw)


def shift_local(l, mo, d, ns, lo=0, hi=cal.MAX_NS):
    """-> new local ns, and whether an intermediate left the range"""
    day, t = divmod(l, DAY_NS)
    a = cal.add_months_clip(day, mo)
    need(a is not None)
    mid = (a + d) * DAY_NS + t
    r = mid + ns
    need(ok_local(r) and lo <= r <= hi)
    return r, not (ok_local(mid) and lo <= mid <= hi)


def _shift_ldt(sign, m, a, kw):
    ig = kw.pop("ignore_dst", False)
    mo, d, ns, tol = shift_args(sign, a, kw)
    if (ns or tol) and ig is not True:
        # the range error may legitimately come first
        try:
            shift_local(m.l, mo, d, 0)
        except Bad:
            return AnyOf(IGNDST, RANGE)
        return IGNDST
    r, bad = shift_local(m.l, mo, d, ns)
    e = with_tol(MLocal(r), tol)
    if tol and near_edge(r):
        return SKIP
    return lenient(e) if bad else e


SPEC["LocalDateTime.add"] = lambda m, *a, **kw: _shift_ldt(1, m, a, kw)
SPEC["LocalDateTime.subtract"] = lambda m, *a, **kw: _shift_ldt(-1, m, a, kw)


def _shift_odt(sign, m, a, kw):
    ig = kw.pop("ignore_dst", False)
    need(ig is True, IGNDST)
    mo, d, ns, tol = shift_args(sign, a, kw)
    lo, hi = max(0, m.off * S), min(cal.MAX_NS, cal.MAX_NS + m.off * S)
    r, bad = shift_local(m.l, mo, d, ns, lo, hi)
    e = with_tol(MOffset(r, m.off), tol)
    if tol and near_edge(r):
        return SKIP
    return lenient(e) if bad else e


SPEC["OffsetDateTime.add"] = lambda m, *a, **kw: _shift_odt(1, m, a, kw)
SPEC["OffsetDateTime.subtract"] = lambda m, *a, **kw: _shift_odt(-1, m, a, kw)


def _dis_kw(kw):
    """-> None or a checked setting"""
    d = kw.pop("disambiguate", None)
    need(d is None or type(d) is str, SKIP)
    return d


def _shift_zoned(sign, m, a, kw, zone, at, res, force=False, sys=False):
    """force: re-resolve even a zero date shift (operator spelling)"""
    if not a and not (set(kw) - {"disambiguate"}):
        return m
    dis = _dis_kw(kw)
    mo, d, ns, tol = shift_args(sign, a, kw)
    edge = False
    u = utc(m)
    if mo or d or force:
        day, t = divmod(m.l, DAY_NS)
        nd = cal.add_months_clip(day, mo)
        need(nd is not None)
        nd += d
        l = nd * DAY_NS + t
        if not ok_local(l):
            # intermediate out of range: an error, unless exact units lead back
            return RANGE if not ns else SKIP
        x = res(l, m.off if dis is None else dis)
        if type(x) not in (MZoned, MSystem):
            return SKIP if ns or tol else x
        u = utc(x)
    elif dis is not None and dis not in DIS:
        return SKIP
    u += ns
    if tol:
        if near_edge(u):
            return SKIP
        x, y = at(u - tol), at(u + tol)
        return Near(at(u), tol) if x[1:] == y[1:] else SKIP
    if sys and near_edge(u):
        try:
            return lenient(at(u))
        except Bad:
            return RANGE
    return at(u)


def _zshift(sign, m, a, kw):
    z = _zone(m.tz)
    return _shift_zoned(sign, m, a, kw, z, lambda u: zat(m.tz, u), lambda l, p: zresolve(m.tz, l, p))


def _sshift(sign, m, a, kw, force=False):
    return _shift_zoned(sign, m, a, kw, Sys.zone, sat, sresolve, force, sys=True)


SPEC["ZonedDateTime.add"] = lambda m, *a, **kw: _zshift(1, m, a, kw)
SPEC["ZonedDateTime.subtract"] = lambda m, *a, **kw: _zshift(-1, m, a, kw)
SPEC["SystemDateTime.add"] = lambda m, *a, **kw: _sshift(1, m, a, kw)
SPEC["SystemDateTime.subtract"] = lambda m, *a, **kw: _sshift(-1, m, a, kw)


# ---------------------------------------------------------------- replace
def _replace_l(m, kw):
    return _l_of(_replace_fields(_lf(m), kw, _DTF + ("nanosecond",)))


@op("LocalDateTime.replace")
def _(m, **kw):
    return MLocal(_replace_l(m, kw))


@op("OffsetDateTime.replace")
def _(m, **kw):
    ig = kw.pop("ignore_dst", False)
    if ig is not True:
        bad = set(kw) - set(_DTF) - {"nanosecond", "offset"}
        return AnyOf(IGNDST, TYPE) if bad else IGNDST
    o = kw.pop("offset", m)
    off = m.off if o is m else off_arg(o)
    return mk_offset(_replace_l(m, kw), off)


@op("ZonedDateTime.replace")
def _(m, **kw):
    dis = _dis_kw(kw)
    tz = kw.pop("tz", m.tz)
    bad = set(kw) - set(_DTF) - {"nanosecond"}
    need(not bad, ANYEXC if len(kw) > 1 else TYPE)
    _zone(tz)
    l = _replace_l(m, kw)
    if dis is None:
        if tz != m.tz:
            dis = "compatible"
            if _zone(tz).resolve(l // S)[0] == "fold" and "tz" in kw:
                pass
        else:
            dis = m.off
    return zresolve(tz, l, dis)


@op("SystemDateTime.replace")
def _(m, **kw):
    dis = _dis_kw(kw)
    l = _replace_l(m, kw)
    return sresolve(l, m.off if dis is None else dis)


def _rd(m, d):
    need(type(d) is MDate, ANYEXC)
    return d.day * DAY_NS + m.l % DAY_NS


def _rt(m, t):
    need(type(t) is MTime, ANYEXC)
    return m.l // DAY_NS * DAY_NS + t.ns


SPEC["LocalDateTime.replace_date"] = lambda m, d: MLocal(_rd(m, d))
SPEC["LocalDateTime.replace_time"] = lambda m, t: MLocal(_rt(m, t))
for _n, _g in (("replace_date", _rd), ("replace_time", _rt)):
    def _f(m, x, *, ignore_dst=False, _g=_g):
        need(ignore_dst is True, IGNDST)
        return mk_offset(_g(m, x), m.off)
    SPEC["OffsetDateTime." + _n] = _f

    def _f(m, x, _g=_g, **kw):
        dis = _dis_kw(kw)
        need(not kw, TYPE)
        return zresolve(m.tz, _g(m, x), m.off if dis is None else dis)
    SPEC["ZonedDateTime." + _n] = _f

    def _f(m, x, _g=_g, **kw):
        dis = _dis_kw(kw)
        need(not kw, TYPE)
        return sresolve(_g(m, x), m.off if dis is None else dis)
    SPEC["SystemDateTime." + _n] = _f


# ---------------------------------------------------------------- operators
_DELTA = (MTD, MDD, MDTD)


@op("+")
def _(a, b):
    ta, tb = type(a), type(b)
    if ta in _DELTA and tb in _DELTA:
        if ta is MTD and tb is MTD:
            return mk_td(a.ns + b.ns)
        if ta is MDD and tb is MDD:
            return mk_dd(a.months + b.months, a.days + b.days)
        x, y = parts(a), parts(b)
        return mk_dtd(*(p + q for p, q in zip(x, y)))
    return _dt_op(1, a, b)


@op("-")
def _(a, b):
    ta, tb = type(a), type(b)
    if ta in _DELTA and tb in _DELTA:
        if ta is MTD and tb is MTD:
            return mk_td(a.ns - b.ns)
        if ta is MDD and tb is MDD:
            return mk_dd(a.months - b.months, a.days - b.days)
        x, y = parts(a), parts(b)
        return mk_dtd(*(p - q for p, q in zip(x, y)))
    if ta in EXACT and tb in EXACT:
        return MTD(utc(a) - utc(b))
    if ta is MDate and tb is MDate:
        return MDD(*cal.date_diff(a.day, b.day))
    if ta is MLocal and tb is MLocal:
        return IGNDST
    return _dt_op(-1, a, b)


def _dt_op(sign, a, b):
    ta, tb = type(a), type(b)
    if ta is MDate and tb is MDD:
        return _date_shift(sign, a, (b,), {})
    if ta is MInstant and tb is MTD:
        return mk_instant(a.u + sign * b.ns)
    if ta is MLocal and tb is MDD:
        return MLocal(sdate(a.l // DAY_NS, sign * b.months, sign * b.days) * DAY_NS + a.l % DAY_NS)
    if ta is MLocal and tb in (MTD, MDTD):
        return IGNDST
    if ta is MOffset and tb in _DELTA:
        # "+" refuses with a plain TypeError, "-" with ImplicitlyIgnoringDST (a TypeError)
        return TYPE if sign == 1 else IGNDST
    if ta is MZoned and tb in _DELTA:
        z = _zone(a.tz)
        return _zshift(sign, a, (b,), {})
    if ta is MSystem and tb in _DELTA:
        return _sshift(sign, a, (b,), {})
    return TYPE


@op("*")
def _(a, b):
    if type(b) in _DELTA and type(a) not in _DELTA:
        a, b = b, a
    ta = type(a)
    if type(b) is bool:
        return SKIP
    if ta is MTD:
        if isint(b):
            return mk_td(a.ns * b)
        if type(b) is float:
            return _td_scale(a.ns, b, lambda x, f: x * f)
        return TYPE
    if ta is MDD:
        return mk_dd(a.months * b, a.days * b) if isint(b) else TYPE
    if ta is MDTD:
        return mk_dtd(a.months * b, a.days * b, a.ns * b) if isint(b) else TYPE
    return TYPE


def _td_scale(ns, f, g):
    if f != f or abs(f) == float("inf"):
        return SKIP
    x = g(Fraction(ns), Fraction(f))
    tol = 2 + abs(x) / (1 << 50)
    if abs(x) - tol > cal.MAX_DELTA_NS:
        return RANGE
    e = Near(MTD(int(x)), int(tol) + 1)
    return AnyOf(e, RANGE) if abs(x) + tol >= cal.MAX_DELTA_NS else e


@op("/")
def _(a, b):
    if type(a) is not MTD or type(b) is bool:
        return SKIP if type(b) is bool else TYPE
    if type(b) is MTD:
        if b.ns == 0:
            return Raises(ZeroDivisionError)
        return close_float(Fraction(a.ns, b.ns))
    if isint(b) or type(b) is float:
        if b == 0:
            return Raises(ZeroDivisionError)
        if isint(b):
            if abs(b) > 1 << 900:
                return SKIP
            x = Fraction(a.ns, b)
            return Near(MTD(int(x)), 2 + int(abs(x) / (1 << 50)))
        return _td_scale(a.ns, b, lambda x, f: x / f)
    return TYPE


@op("//")
def _(a, b):
    if type(a) is MTD and type(b) is MTD:
        return a.ns // b.ns if b.ns else Raises(ZeroDivisionError)
    return TYPE


@op("%")
def _(a, b):
    if type(a) is MTD and type(b) is MTD:
        return mk_td(a.ns % b.ns) if b.ns else Raises(ZeroDivisionError)
    return TYPE


@op("neg")
def _(a):
    need(type(a) in _DELTA, TYPE)
    return type(a)(*(-x for x in a))


@op("pos")
def _(a):
    need(type(a) in _DELTA, TYPE)
    return a


@op("abs")
def _(a):
    need(type(a) in _DELTA, TYPE)
    return type(a)(*(abs(x) for x in a))


@op("bool")
def _(a):
    return any(a) if type(a) in _DELTA else True


for _n in ("pickle", "copy", "deepcopy"):
    SPEC[_n] = lambda m: m


# ---------------------------------------------------------------- text out
SPEC["str"] = lambda m: SKIP if type(m) is MWeekday else (iso_dur(m) if type(m) in _DELTA else fmt(m))


def iso_dur(m):
    """canonical duration text"""
    return fmt(m)


@op("repr")
def _(m):
    """the type, and the value in full"""
    t = type(m)
    if t is MWeekday:
        return SKIP
    if t is MTD:
        s, n = divmod(abs(m.ns), S)
        text = f"{'-' * (m.ns < 0)}{s // 3600:02}:{s // 60 % 60:02}:{s % 60:02}" + (f".{n:09}".rstrip("0") if n else "")
    else:
        text = iso_dur(m) if t in _DELTA else fmt(m)
        if t in (MInstant, MOffset, MZoned, MSystem, MLocal):
            text = text.replace("T", " ", 1)
    return f"{NAME[t]}({text})"


for _t, _c in NAME.items():
    if _t is not MWeekday:
        SPEC[_c + ".format_common_iso"] = SPEC["str"]


@op("Instant.format_rfc3339")
def _(m):
    return fmt_local(m.u, " ") + "Z"


@op("OffsetDateTime.format_rfc3339")
def _(m):
    need(m.off % 60 == 0, SKIP)
    return fmt_local(m.l, " ") + fmt_off(m.off)


_WD = "Mon Tue Wed Thu Fri Sat Sun".split()
_MN = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def fmt_2822(l, zone):
    y, mo, d, h, mi, s, _ = cal.fields(l)
    return "%s, %02d %s %04d %02d:%02d:%02d %s" % (
        _WD[cal.weekday(l // DAY_NS) - 1], d, _MN[mo - 1], y, h, mi, s, zone)


@op("Instant.format_rfc2822")
def _(m):
    return fmt_2822(m.u, "GMT")


@op("OffsetDateTime.format_rfc2822")
def _(m):
    need(m.off % 60 == 0, SKIP)
    return fmt_2822(m.l, fmt_off(m.off, ""))


# ---------------------------------------------------------------- text in
_D = r"(\d{4})-(\d{2})-(\d{2})"
_T = r"(\d{2}):(\d{2}):(\d{2})(?:\.(\d{1,9}))?"


def _rx(p):
    return re.compile(p, re.ASCII).fullmatch


_rx_date = _rx(_D)
_rx_time = _rx(_T)
_rx_local = _rx(_D + "T" + _T)
_OFFS = r"(Z|([+-])(\d{2}):(\d{2})(?::(\d{2}))?)"
_rx_offset = _rx(_D + "T" + _T + _OFFS)
_rx_zoned = re.compile(_D + "T" + _T + _OFFS + r"\[([^\]]{1,255})\]", re.ASCII | re.DOTALL).fullmatch
_rx_instant = _rx(_D + "T" + _T + r"(?:Z|\+00:00)")
_rx_3339z = _rx(_D + "[ _Tt]" + _T + r"(?:[Zz]|[+-]00:00)")
_rx_3339 = _rx(_D + "[ _Tt]" + _T + r"([Zz]|([+-])(\d{2}):(\d{2}))")


def _need_str(s):
    need(type(s) is str, ANYEXC)


def _p_date(g):
    y, m, d = map(int, g)
    need(cal.valid_date(y, m, d), VALUE)
    return cal.days_from_civil(y, m, d)


def _p_time(g):
    h, mi, s = map(int, g[:3])
    need(h < 24 and mi < 60 and s < 60, VALUE)
    return cal.time_ns(h, mi, s, int(g[3].ljust(9, "0")) if g[3] else 0)


def _p_local(g):
    return _p_date(g[:3]) * DAY_NS + _p_time(g[3:7])


def _p_off(z, sign, h, m, s=None):
    if z in "Zz":
        return 0
    need(int(m) < 60 and int(s or 0) < 60 and int(h) < 24, VALUE)
    o = int(h) * 3600 + int(m) * 60 + int(s or 0)
    return -o if sign == "-" else o


def _m(rx, s):
    _need_str(s)
    m = rx(s)
    need(m is not None, VALUE)
    return m.groups()


SPEC["Date.parse_common_iso"] = lambda s: MDate(_p_date(_m(_rx_date, s)))
SPEC["Time.parse_common_iso"] = lambda s: MTime(_p_time(_m(_rx_time, s)))
SPEC["LocalDateTime.parse_common_iso"] = lambda s: MLocal(_p_local(_m(_rx_local, s)))
SPEC["Instant.parse_common_iso"] = lambda s: MInstant(_p_local(_m(_rx_instant, s)))
SPEC["Instant.parse_rfc3339"] = lambda s: MInstant(_p_local(_m(_rx_3339z, s)))


def _value_range(l, off):
    need(ok_local(l) and ok_local(l - off * S), RANGE)


@op("OffsetDateTime.parse_common_iso")
def _(s):
    g = _m(_rx_offset, s)
    l, off = _p_local(g[:7]), _p_off(*g[7:])
    return mk_offset(l, off)


@op("SystemDateTime.parse_common_iso")
def _(s):
    g = _m(_rx_offset, s)
    l, off = _p_local(g[:7]), _p_off(*g[7:])
    _value_range(l, off)
    return MSystem(l, off)


@op("OffsetDateTime.parse_rfc3339")
def _(s):
    g = _m(_rx_3339, s)
    l, off = _p_local(g[:7]), _p_off(*g[7:])
    return mk_offset(l, off)


@op("ZonedDateTime.parse_common_iso")
def _(s):
    g = _m(_rx_zoned, s)
    l, off = _p_local(g[:7]), _p_off(*g[7:12])
    z = _zone(g[12])
    if not ok_local(l - off * S):
        return RANGE
    if z.offset_at((l - off * S) // S) != off:
        return VALUE
    return MZoned(l, off, g[12])


@op("YearMonth.parse_common_iso")
def _(s):
    _need_str(s)
    m = re.fullmatch(r"(\d{4})-(\d{2})", s, re.ASCII)
    need(m is not None, VALUE)
    y, mo = map(int, m.groups())
    need(1 <= y and 1 <= mo <= 12, VALUE)
    return MYM(y, mo)


@op("MonthDay.parse_common_iso")
def _(s):
    _need_str(s)
    m = re.fullmatch(r"--(\d{2})-(\d{2})", s, re.ASCII)
    need(m is not None, VALUE)
    mo, d = map(int, m.groups())
    need(cal.valid_date(4, mo, d), VALUE)
    return MMD(mo, d)


_TDB = r"(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,9}))?S)?"
_DDB = r"(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"


def _dur_ns(h, m, s, f):
    return int(h or 0) * H + int(m or 0) * MI + int(s or 0) * S + (int(f.ljust(9, "0")) if f else 0)


def _long(*gs):
    """digit strings beyond what implementations cap: accept a refusal"""
    return any(g and len(g) > 8 for g in gs)


def _maybe_long(e, *gs):
    return AnyOf(e, VALUE) if _long(*gs) else e


def _dur(f, long):
    try:
        e = f()
    except Bad as b:
        e = b.exp
    return AnyOf(e, RANGE) if long else e


@op("TimeDelta.parse_common_iso")
def _(s):
    g = _m(_rx(r"([+-]?)PT" + _TDB), s)
    need(not s.endswith("T"), VALUE)
    ns = _dur_ns(*g[1:])
    return _dur(lambda: mk_td(-ns if g[0] == "-" else ns), any(x and len(x) > 30 for x in g[1:]))


@op("DateDelta.parse_common_iso")
def _(s):
    g = _m(_rx(r"([+-]?)P" + _DDB), s)
    need(not s.endswith("P"), VALUE)
    y, m, w, d = (int(x or 0) for x in g[1:])
    sg = -1 if g[0] == "-" else 1
    return _dur(lambda: mk_dd(sg * (12 * y + m), sg * (7 * w + d)), _long(*g[1:]))


@op("DateTimeDelta.parse_common_iso")
def _(s):
    g = _m(_rx(r"([+-]?)P" + _DDB + "(?:T" + _TDB + ")?"), s)
    need(not s.endswith(("P", "T")), VALUE)
    y, m, w, d = (int(x or 0) for x in g[1:5])
    ns = _dur_ns(*g[5:])
    sg = -1 if g[0] == "-" else 1
    return _dur(lambda: mk_dtd(sg * (12 * y + m), sg * (7 * w + d), sg * ns),
                _long(*g[1:5]) or any(x and len(x) > 30 for x in g[5:]))


KIND = {}  # op -> "cls" | "prop" | "inst" | "op" | "fn" | "ctor"
_CLS = ("from_", "parse_", "now", "strptime", "today")
_PROPS = {"year", "month", "day", "hour", "minute", "second", "nanosecond", "offset", "tz"}
for _k in SPEC:
    if _k.startswith("fn."):
        KIND[_k] = "fn"
    elif "." in _k:
        _n = _k.split(".")[1]
        KIND[_k] = "cls" if _n.startswith(_CLS) else "prop" if _n in _PROPS else "inst"
    elif _k[0].isupper():
        KIND[_k] = "ctor"
    else:
        KIND[_k] = "op"
