"""Conversion to and from the standard library."""
import datetime as dt
import pickle
import zoneinfo

from ..vals import *
from .. import cal, core, gen, ops, spec, vals
from ..cal import DAY_NS

QUICK, THOROUGH = 12000, 450000
RULE = ("one case = a value converted to the standard library and back, or a standard-library object (subclasses, fold 0/1, skipped and "
        "ambiguous times, sub-minute offsets, foreign and fixed-offset tzinfo, wrong awareness or type) converted by every class; "
        "distinct = distinct (conversion, object)")
UTC = dt.timezone.utc
EPOCH = dt.datetime(1, 1, 1)


# ---- subclasses and foreign timezones, as other libraries have them
class MyDateTime(dt.datetime):
    def __add__(self, o):
        return type(self)._mk(super().__add__(o))

    @classmethod
    def _mk(cls, d):
        return d

    def __str__(self):
        return "custom"

    def __repr__(self):
        return "Mine" + super().__repr__()

    def isoformat(self, *a):
        return "custom"


class Extra(dt.datetime):
    """carries an attribute of its own"""
    extra = 7

    def __hash__(self):
        return 42

    def __eq__(self, o):
        return NotImplemented


class Lib(dt.datetime):
    """as datetime libraries do: what comes out of it is of its own kind too"""

    def date(self):
        return MyDate(self.year, self.month, self.day)

    def time(self):
        return MyTime(self.hour, self.minute, self.second, self.microsecond, fold=self.fold)

    def timetz(self):
        return MyTime(self.hour, self.minute, self.second, self.microsecond, self.tzinfo, fold=self.fold)

    def utcoffset(self):
        o = super().utcoffset()
        return o if o is None else Duration(o.days, o.seconds, o.microseconds)

    def __sub__(self, o):
        r = super().__sub__(o)
        return Duration(r.days, r.seconds, r.microseconds) if type(r) is dt.timedelta else r

    def strftime(self, *a):
        raise NotImplementedError

    isoformat = timetuple = utctimetuple = isocalendar = ctime = __str__ = __format__ = strftime


class Odd(dt.datetime):
    """formats itself in ways of its own, and is false"""

    def isoformat(self, *a):
        return "noon"

    strftime = ctime = isoformat
    __str__ = __repr__ = lambda self: "odd"
    __bool__ = lambda self: False


class Duration(dt.timedelta):
    def __repr__(self):
        return "Duration"

    def __str__(self):
        return "a while"


class OddDate(dt.date):
    def isoformat(self):
        return "2000-01-01"

    def strftime(self, *a):
        return "x"

    __str__ = isoformat
    __format__ = strftime

    __bool__ = lambda self: False


class OddTime(dt.time):
    def isoformat(self, *a):
        return "00:00"

    __str__ = strftime = __format__ = isoformat
    __bool__ = lambda self: False


class MyDate(dt.date):
    def isoformat(self):
        return "custom"


class MyTime(dt.time):
    def isoformat(self, *a):
        return "custom"


class MyDelta(dt.timedelta):
    def total_seconds(self):
        return 0.0


class Rule(dt.tzinfo):
    """a timezone of another library: two offsets around a switch, honouring fold"""

    def __init__(self, wall, a, b):
        self.wall, self.a, self.b = wall, a, b       # wall: naive datetime of the switch in old time

    def utcoffset(self, d):
        if d is None:
            return self.a
        n = d.replace(tzinfo=None, fold=0)
        n = dt.datetime(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond)
        lo, hi = self.wall, self.wall + (self.b - self.a)
        if lo <= hi:
            if n < lo:
                return self.a
            if n >= hi:
                return self.b
            return self.a if d.fold == 0 else self.b
        if n < hi:
            return self.a
        if n >= lo:
            return self.b
        return self.a if d.fold == 0 else self.b

    def dst(self, d):
        return None

    def tzname(self, d):
        return "rule"

    def fromutc(self, d):
        off = self.a if d.replace(tzinfo=None) < self.wall - self.a else self.b
        return d + off


class Unknown(dt.tzinfo):
    def utcoffset(self, d):
        return None

    def dst(self, d):
        return None

    def tzname(self, d):
        return None


class SubZone(zoneinfo.ZoneInfo):
    pass


def us_of(l):
    return l // 1000 * 1000


def _naive(d):
    """ns since 0001-01-01 of the wall-clock fields"""
    return cal.days_from_civil(d.year, d.month, d.day) * DAY_NS + ((d.hour * 60 + d.minute) * 60 + d.second) * S + d.microsecond * 1000


def _off_us(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def _bad(ctx, mech, call, got, exp):
    ctx.fail(mech, {"call": call, "observed": repr(got), "expected": repr(exp), "system_tz": spec.Sys.name})


# ---- out
def outward(ctx):
    g = ctx.g
    m = ops.MAKE[g.ch((MDate, MTime, MTD, MInstant, MLocal, MOffset, MZoned, MZoned, MSystem))](g)
    o = ctx.real(m)
    t = type(m)
    n = NAME[t]
    ctx.key(m)
    ctx.event("to stdlib " + n)
    if t is MDate:
        p = o.py_date()
        ok = type(p) is dt.date and cal.days_from_civil(p.year, p.month, p.day) == m.day
        back = ctx.W.Date.from_py_date(p)
        want = m
    elif t is MTime:
        p = o.py_time()
        ok = type(p) is dt.time and p.tzinfo is None and _naive(dt.datetime.combine(dt.date(1, 1, 1), p)) == us_of(m.ns)
        back = ctx.W.Time.from_py_time(p)
        want = MTime(us_of(m.ns))
    elif t is MTD:
        p = o.py_timedelta()
        ok = type(p) is dt.timedelta and _off_us(p) == m.ns // 1000
        back, want = None, MTD(us_of(m.ns))
        if abs(want.ns) <= cal.MAX_DELTA_NS:
            back = ctx.W.TimeDelta.from_py_timedelta(p)
        else:
            want = None
    else:
        p = o.py_datetime()
        ok = type(p) is dt.datetime
        if t is MInstant:
            ok = ok and p.tzinfo is UTC and _naive(p) == us_of(m.u)
            want = MInstant(us_of(m.u))
        elif t is MLocal:
            ok = ok and p.tzinfo is None and _naive(p) == us_of(m.l)
            want = MLocal(us_of(m.l))
        else:
            ok = ok and _naive(p) == us_of(m.l) and p.utcoffset() == dt.timedelta(seconds=m.off)
            if t is MZoned:
                ok = ok and isinstance(p.tzinfo, zoneinfo.ZoneInfo) and p.tzinfo.key == m.tz
                want = MZoned(us_of(m.l), m.off, m.tz)
                r = spec._zone(m.tz).resolve(m.l // S)
                ctx.feat("zoned " + r[0])
                # the moment, through the standard library's own arithmetic
                q = p.astimezone(UTC)
                ok = ok and _naive(q) == us_of(utc(m))
            else:
                ok = ok and type(p.tzinfo) is dt.timezone
                want = t(us_of(m.l), m.off)
        back = getattr(ctx.W, n).from_py_datetime(p)
    if not ok:
        _bad(ctx, f"{n} to the standard library", f"{n}.py_*", f"{p!r} fold={getattr(p, 'fold', None)}", m)
    if want is not None:
        if not same(snap(back), want):
            _bad(ctx, f"{n} back from the standard library", f"{n}.from_py_*({p!r})", back, want)
        # the other direction: a second conversion gives the same object
        q = back.py_date() if t is MDate else back.py_time() if t is MTime else back.py_timedelta() if t is MTD else back.py_datetime()
        if q != p or type(q) is not type(p) or getattr(q, "fold", 0) != getattr(p, "fold", 0) and t is MZoned:
            _bad(ctx, f"{n} there and back again", f"{n}.py_*", q, p)


# ---- in
def _expect(cls, d):
    """what from_py_datetime of the class must give (model, or exception classes)"""
    l = _naive(d)
    if cls == "LocalDateTime":
        return MLocal(l) if d.tzinfo is None else ValueError
    if d.tzinfo is None:
        return ValueError
    off = d.utcoffset()
    if cls == "ZonedDateTime":
        if type(d.tzinfo) is not zoneinfo.ZoneInfo or d.tzinfo.key is None:
            return ValueError
        u = l - _off_us(off) * 1000
        if not 0 <= u <= cal.MAX_NS:
            return (ValueError, OverflowError)
        try:
            return spec.zat(d.tzinfo.key, u)
        except spec.Bad:
            return (ValueError, OverflowError)
    if off is None:
        return ValueError
    us = _off_us(off)
    u = l - us * 1000
    if cls == "Instant":
        return MInstant(u) if 0 <= u <= cal.MAX_NS else (ValueError, OverflowError)
    if us % 10**6:
        return ValueError
    if not 0 <= u <= cal.MAX_NS:
        return (ValueError, OverflowError)
    return (MOffset if cls == "OffsetDateTime" else MSystem)(l, us // 10**6)


def _feed(ctx, d, classes=("Instant", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime")):
    g = ctx.g
    text = type(d).__name__ + dt.datetime.__repr__(d)
    before = (text, d.fold)
    for cls in classes:
        call = f"{cls}.from_py_datetime({text})"
        exp = _expect(cls, d)
        got, o = core.observe(ctx.W, cls + ".from_py_datetime", (d,), {})
        ctx.event("from stdlib " + cls)
        ctx.key((call, d.fold))
        if type(exp) in NAME:
            if not same(got, exp):
                _bad(ctx, cls + ".from_py_datetime", call, got, exp)
            # and it behaves like the same value obtained otherwise
            f = ctx.real(exp)
            if not (o == f and hash(o) == hash(f) and str(o) == str(f) and repr(o) == repr(f)
                    and (cls == "LocalDateTime" or o.exact_eq(f))):
                _bad(ctx, cls + ".from_py_datetime gives an odd value", call, o, f)
            p = o.py_datetime()
            if type(p) is not dt.datetime or _naive(p) != (exp.u if cls == "Instant" else exp.l):
                _bad(ctx, cls + ".py_datetime after from_py_datetime", call, p, d)
            if cls == "ZonedDateTime" and p.tzinfo is not d.tzinfo and p.tzinfo.key != d.tzinfo.key:
                _bad(ctx, "timezone after from_py_datetime", call, p, d)
            if g.p(0.15):
                u = pickle.loads(pickle.dumps(o))
                if not same(snap(u), exp):
                    _bad(ctx, "pickle after from_py_datetime", call, u, exp)
            if g.p(0.3):
                # later operations see nothing of where the value came from
                ctx.build.pool[exp] = [o]
                name, a, kw = ops.on(g, exp)
                ctx.call(name, *a, **kw)
                ctx.build.pool.pop(exp, None)
        elif not (type(got) is spec.Exc and issubclass(got.type, exp)):
            _bad(ctx, cls + ".from_py_datetime", call, got, exp)
        else:
            ctx.feat("refused")
    if (type(d).__name__ + dt.datetime.__repr__(d), d.fold) != before:
        _bad(ctx, "conversion changes the datetime", "from_py_datetime", d, before)


def _sub(g, d):
    """sometimes as a subclass instance"""
    if g.p(0.3):
        c = g.ch((MyDateTime, Extra, Lib, Odd))
        return c(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)
    return d


def _dt(g, l, tz, fold=None):
    return _sub(g, core.py_dt(l, g.r.randint(0, 1) if fold is None else fold, tz))


def inward(ctx):
    g = ctx.g
    k = g.r.random()
    if k < 0.4:
        tz = g.tz()
        l = g.zlocal(tz)
        zi = zoneinfo.ZoneInfo(tz)
        if g.p(0.1):
            zi = zoneinfo.ZoneInfo.no_cache(tz)
        elif g.p(0.03):
            zi = SubZone(tz)
        elif g.p(0.06):
            # read from a file: with the key given, or without any
            try:
                with open("/usr/share/zoneinfo/" + tz, "rb") as f:
                    zi = zoneinfo.ZoneInfo.from_file(f, key=tz if g.p(0.3) else None)
                ctx.feat("ZoneInfo of a file" + (" without key" if zi.key is None else ""))
            except OSError:
                pass
        d = _dt(g, l, zi)
        ctx.feat("ZoneInfo " + spec._zone(tz).resolve(l // S)[0])
    elif k < 0.6:
        off = dt.timedelta(seconds=g.off())
        if g.p(0.1):
            off += dt.timedelta(microseconds=g.ch((1, 500000, 999999, -1)))
        try:
            z = dt.timezone(off)
        except ValueError:
            return
        d = _dt(g, g.local(), z)
        ctx.feat("fixed offset")
    elif k < 0.7:
        d = _dt(g, g.local(), UTC)
        ctx.feat("utc")
    elif k < 0.8:
        d = _dt(g, g.local(), None)
        ctx.feat("naive")
    elif k < 0.97:
        l = g.local()
        w = core.py_dt(l)
        a, b = (dt.timedelta(minutes=g.r.randint(-14 * 4, 14 * 4) * 15) for _ in "ab")
        if g.p(0.1):
            a += dt.timedelta(seconds=g.r.randint(0, 59))
        try:
            z = Rule(w, a, b)
            l2 = l + g.r.randint(-6, 6) * 1800 * S + g.ch((0, 0, S, -S, 1000, -1000))
            d = _dt(g, min(max(l2, 0), cal.MAX_NS), z)
            d.utcoffset()
        except OverflowError:
            return
        ctx.feat("foreign tzinfo")
    else:
        d = _dt(g, g.local(), Unknown())
        _feed_unknown(ctx, d)
        return
    _feed(ctx, d)


def _feed_unknown(ctx, d):
    for cls in ("Instant", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
        got, o = core.observe(ctx.W, cls + ".from_py_datetime", (d,), {})
        ctx.event("from stdlib " + cls)
        if not (type(got) is spec.Exc and issubclass(got.type, ValueError)):
            _bad(ctx, cls + ".from_py_datetime with unknown offset", f"{cls}.from_py_datetime({d!r})", got, ValueError)
    ctx.feat("unknown offset")


def simple(ctx):
    """date, time and timedelta"""
    g = ctx.g
    W = ctx.W
    k = g.r.randint(0, 2)
    if k == 0:
        day = g.day()
        c = cal.civil_from_days(day)
        d = g.ch((lambda: dt.date(*c), lambda: g.ch((MyDate, OddDate))(*c), lambda: _dt(g, day * DAY_NS + g.tod(), g.ch((None, UTC, dt.timezone(dt.timedelta(hours=14)))))))()
        name, exp = "Date.from_py_date", MDate(day)
        if isinstance(d, dt.datetime) and d.tzinfo is not None:
            ctx.feat("aware datetime as date")
    elif k == 1:
        l = g.tod()
        x = core.py_dt(l, g.r.randint(0, 1)).timetz()
        d = g.ch((MyTime, OddTime))(x.hour, x.minute, x.second, x.microsecond, fold=x.fold) if g.p(0.3) else x
        name, exp = "Time.from_py_time", MTime(us_of(l))
        if g.p(0.1):
            d = d.replace(tzinfo=g.ch((UTC, dt.timezone(dt.timedelta(hours=1)), zoneinfo.ZoneInfo("Europe/Paris"))))
            exp = ValueError
    else:
        us = g.dns() // 1000 if g.p(0.8) else g.ch((1, -1)) * (cal.MAX_DELTA_NS // 1000 + g.ch((0, 1, -1, 10**6)))
        if g.p(0.05):
            us = g.ch((86400 * 999999999 * 10**6, -86400 * 999999999 * 10**6))
        d = dt.timedelta(days=us // (86400 * 10**6), microseconds=us % (86400 * 10**6))
        if g.p(0.3):
            d = g.ch((MyDelta, Duration))(d.days, d.seconds, d.microseconds)
        us = _off_us(d)
        name, exp = "TimeDelta.from_py_timedelta", MTD(us * 1000) if abs(us * 1000) <= cal.MAX_DELTA_NS else (ValueError, OverflowError)
    got, o = core.observe(W, name, (d,), {})
    ctx.event(name)
    call = f"{name}({d!r})"
    ctx.key(call)
    if type(exp) in NAME:
        if not same(got, exp):
            _bad(ctx, name, call, got, exp)
        f = ctx.real(exp)
        if not (o == f and hash(o) == hash(f) and str(o) == str(f) and repr(o) == repr(f)):
            _bad(ctx, name + " gives an odd value", call, o, f)
        p = o.py_date() if k == 0 else o.py_time() if k == 1 else o.py_timedelta()
        if type(p) is not (dt.date, dt.time, dt.timedelta)[k]:
            _bad(ctx, name + " and back gives another class", call, p, d)
        if not isinstance(d, dt.datetime) and p != (d if k != 1 else d.replace(fold=0)):
            _bad(ctx, name + " and back", call, p, d)
        if g.p(0.3):
            ctx.build.pool[exp] = [o]
            n2, a, kw = ops.on(g, exp)
            ctx.call(n2, *a, **kw)
            ctx.build.pool.pop(exp, None)
    elif not (type(got) is spec.Exc and issubclass(got.type, exp)):
        _bad(ctx, name, call, got, exp)


WRONG = (None, 0, 1.5, "2020-01-01T00:00:00+00:00", "2020-01-01", b"x", (2020, 1, 1), [], {}, object())


def wrong_type(ctx):
    g = ctx.g
    W = ctx.W
    o = ctx.real(ops.any_value(g))
    std = g.ch((dt.date(2020, 1, 1), dt.time(12), dt.timedelta(1), dt.datetime(2020, 1, 1), UTC))
    x = g.ch(WRONG + (o, o, std, std, std))
    for name in ("Date.from_py_date", "Time.from_py_time", "TimeDelta.from_py_timedelta", "Instant.from_py_datetime",
                 "LocalDateTime.from_py_datetime", "OffsetDateTime.from_py_datetime", "ZonedDateTime.from_py_datetime",
                 "SystemDateTime.from_py_datetime"):
        if (name[0] == "D" and isinstance(x, dt.date) or name.startswith("Time.") and isinstance(x, dt.time)
                or name.startswith("TimeD") and isinstance(x, dt.timedelta) or isinstance(x, dt.datetime) and "datetime" in name):
            continue
        got, r = core.observe(W, name, (x,), {})
        ctx.event("wrong type")
        ctx.key((name, repr(type(x))))
        if type(got) is not spec.Exc or got.type is Malformed:
            _bad(ctx, name + " accepts a wrong type", f"{name}({x!r})", got, "an exception")


WORKLOADS = [("to the standard library", 3, outward), ("datetimes", 4, inward), ("dates, times, timedeltas", 2, simple),
             ("wrong types", 0.5, wrong_type)]
