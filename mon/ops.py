"""Random public calls on any value: what the closed-world workloads draw from.

OPS[model type] -> [(operation, f(g, m) -> (args after the receiver, kwargs))]
MAKERS          -> [(operation, f(g) -> (args, kwargs))]
"""
from . import cal, spec, vals
from .cal import DAY_NS, S
from .vals import *


def _no(g, m):
    return (), {}


def _fields(g, l, prob=0.35, names=("year", "month", "day", "hour", "minute", "second", "nanosecond")):
    f = dict(zip(("year", "month", "day", "hour", "minute", "second", "nanosecond"), cal.fields(l)))
    return {k: v for k, v in f.items() if k in names and g.p(prob)}


def _dis(g, p=0.4):
    return {"disambiguate": g.dis()} if g.p(p) else {}


def _ign(g):
    return {"ignore_dst": True} if g.p(0.9) else {}


def near(g, m):
    """a local time that is interesting for the value"""
    if type(m) is MZoned:
        return g.zlocal(m.tz)
    if type(m) is MSystem:
        return g.system(0).l
    return g.local()


def _shift(g, m):
    k = g.r.random()
    if k < 0.3:
        mo, d = g.small_date_delta()
        a, kw = (), g.split_date(mo, d)
        if g.p(0.4) or not kw:
            kw.update(g.split_exact(g.dns(False)))
    elif k < 0.7:
        a, kw = (), g.shift_kw()
    elif k < 0.97:
        a, kw = (g.delta(),), {}
    else:
        a, kw = (), {}
    if type(m) in (MZoned, MSystem):
        kw.update(_dis(g))
    elif type(m) in (MOffset, MLocal):
        kw.update(_ign(g))
    return a, kw


def _ishift(g, m):
    kw = g.split_exact(g.dns(g.p(0.5)))
    return (), kw


def _round(g, m):
    kw = g.round_args(day=type(m) in (MZoned, MSystem, MLocal, MOffset) or g.p(0.05), any_hour=type(m) is MTD)
    if type(m) is MOffset:
        kw.update(_ign(g))
    return (), kw


def _replace(g, m):
    kw = _fields(g, near(g, m))
    if type(m) is MZoned:
        kw.update(_dis(g))
        if g.p(0.15):
            kw["tz"] = g.tz()
    elif type(m) is MSystem:
        kw.update(_dis(g))
    elif type(m) is MOffset:
        kw.update(_ign(g))
        if g.p(0.3):
            kw["offset"] = g.off_arg(g.off())
    return (), kw


def _rd(g, m):
    return (MDate(near(g, m) // DAY_NS),), _dis(g) if type(m) in (MZoned, MSystem) else _ign(g) if type(m) is MOffset else {}


def _rt(g, m):
    return (MTime(near(g, m) % DAY_NS),), _dis(g) if type(m) in (MZoned, MSystem) else _ign(g) if type(m) is MOffset else {}


def _tofix(g, m):
    return ((g.off_arg(g.off()),) if g.p(0.8) else ()), {}


def _exacteq(g, m):
    o = g.same_moment(m)
    return ((m,) if g.p(0.2) else (o,)), {}


_COMMON = [("str", _no), ("hash", _no), ("repr", _no), ("pickle", _no), ("copy", _no), ("deepcopy", _no)]


def _methods(t, spec_):
    n = NAME[t]
    out = list(_COMMON)
    if t is not MWeekday:
        out.append((n + ".format_common_iso", _no))
    for names, f in spec_:
        out += [(n + "." + x, f) for x in names.split()]
    return out


_EX = [("to_tz", lambda g, m: ((g.tz(),), {})), ("to_fixed_offset", _tofix),
       ("to_system_tz timestamp timestamp_millis timestamp_nanos", _no),
       ("difference", lambda g, m: ((g.exact(),), {})), ("exact_eq", _exacteq)]
_KL = [("year month day hour minute second nanosecond date time py_datetime", _no),
       ("replace", _replace), ("replace_date", _rd), ("replace_time", _rt), ("add subtract", _shift), ("round", _round)]
_KIL = _EX + _KL + [("local instant offset", _no)]

OPS = {
    MDate: _methods(MDate, [
        ("year month day year_month month_day day_of_week py_date", _no), ("at", lambda g, m: ((g.time(),), {})),
        ("add subtract", lambda g, m: ((g.dd(),), {}) if g.p(0.3) else ((), g.split_date(g.dmonths(), g.ddays()))),
        ("days_until days_since", lambda g, m: ((g.date(),), {})),
        ("replace", lambda g, m: ((), _fields(g, g.local(), names=("year", "month", "day"))))]),
    MYM: _methods(MYM, [("year month", _no), ("on_day", lambda g, m: ((g.r.randint(0, 32),), {})),
                        ("replace", lambda g, m: ((), _fields(g, g.local(), names=("year", "month"))))]),
    MMD: _methods(MMD, [("month day is_leap", _no), ("in_year", lambda g, m: ((g.year(),), {})),
                        ("replace", lambda g, m: ((), _fields(g, g.local(), names=("month", "day"))))]),
    MTime: _methods(MTime, [("hour minute second nanosecond py_time", _no), ("on", lambda g, m: ((g.date(),), {})),
                            ("round", _round),
                            ("replace", lambda g, m: ((), _fields(g, g.local(), names=("hour", "minute", "second", "nanosecond"))))]),
    MTD: _methods(MTD, [("in_days_of_24h in_hours in_minutes in_seconds in_milliseconds in_microseconds in_nanoseconds "
                         "in_hrs_mins_secs_nanos py_timedelta", _no), ("round", _round)])
         + [(o, _no) for o in ("neg", "abs", "pos", "bool")],
    MDD: _methods(MDD, [("in_months_days in_years_months_days", _no)]) + [(o, _no) for o in ("neg", "abs", "pos", "bool")],
    MDTD: _methods(MDTD, [("in_months_days_secs_nanos date_part time_part", _no)]) + [(o, _no) for o in ("neg", "abs", "pos", "bool")],
    MInstant: _methods(MInstant, _EX + [("add subtract", _ishift), ("round", _round), ("py_datetime format_rfc3339 format_rfc2822", _no)]),
    MLocal: _methods(MLocal, _KL + [
        ("assume_utc", _no), ("assume_fixed_offset", lambda g, m: ((g.off_arg(g.off()),), {})),
        ("assume_tz", lambda g, m: ((g.tz(),), _dis(g))), ("assume_system_tz", lambda g, m: ((), _dis(g))),
        ("difference", lambda g, m: ((g.ldt(),), _ign(g)))]),
    MOffset: _methods(MOffset, _KIL + [("format_rfc3339 format_rfc2822", _no)]),
    MZoned: _methods(MZoned, _KIL + [("tz is_ambiguous day_length start_of_day", _no)]),
    MSystem: _methods(MSystem, _KIL + [("is_ambiguous day_length start_of_day", _no)]),
    MWeekday: [("str", _no), ("hash", _no), ("pickle", _no)],
}


def _partner(g, m):
    """a second operand for a binary operator"""
    t = type(m)
    k = g.r.random()
    if t in EXACT:
        return g.same_moment(m) if k < 0.35 else g.delta() if k < 0.7 else g.exact() if k < 0.9 else any_value(g)
    if t in (MTD, MDD, MDTD):
        return g.delta() if k < 0.6 else g.ch((0, 1, -1, 2, 3, -7, 1.5, 0.1, g.logint(20))) if k < 0.8 else any_value(g)
    if t is MDate:
        return g.date() if k < 0.4 else g.dd() if k < 0.8 else any_value(g)
    if t is MLocal:
        return g.ldt() if k < 0.4 else g.delta() if k < 0.8 else any_value(g)
    return MAKE[t](g) if k < 0.7 else any_value(g)


BINOPS = ("+", "-", "+", "-", "*", "/", "//", "%", "<", "<=", ">", ">=", "==", "!=")

MAKE = {MDate: lambda g: g.date(), MYM: lambda g: g.ym(), MMD: lambda g: g.md(), MTime: lambda g: g.time(),
        MTD: lambda g: g.td(), MDD: lambda g: g.dd(), MDTD: lambda g: g.dtd(), MInstant: lambda g: g.instant(),
        MLocal: lambda g: g.ldt(), MOffset: lambda g: g.offset(), MZoned: lambda g: g.zoned(),
        MSystem: lambda g: g.system(), MWeekday: lambda g: MWeekday(g.r.randint(1, 7))}
_WEIGHTED = (MDate, MYM, MMD, MTime, MTD, MTD, MDD, MDTD, MInstant, MInstant, MLocal, MLocal, MOffset, MOffset, MOffset,
             MZoned, MZoned, MZoned, MZoned, MSystem, MSystem)


def any_value(g):
    return MAKE[g.ch(_WEIGHTED)](g)


def on(g, m):
    """a random call with m as receiver (or as left / right operand)"""
    if g.p(0.3):
        o = g.ch(BINOPS)
        p = _partner(g, m)
        return (o, (m, p), {}) if g.p(0.75) else (o, (p, m), {})
    name, f = g.ch(OPS[type(m)])
    a, kw = f(g, m)
    return name, (m,) + a, kw


# ---- calls without a receiver
def _dtargs(g, l):
    y, mo, d, h, mi, s, n = cal.fields(l)
    a = [y, mo, d, h, mi, s]
    if h == mi == s == 0 and g.p(0.5):
        a = a[:3]
    if g.p(0.06):
        a[g.r.randint(0, len(a) - 1)] = g.ch((0, -1, 13, 24, 29, 30, 31, 32, 60, 10000))
    kw = {"nanosecond": n} if n or g.p(0.3) else {}
    return tuple(a), kw


def _m(f):
    def h(g):
        a, kw = _dtargs(g, g.local())
        return f(g, a, kw)
    return h


def _ts(g, unit):
    u = g.utc() - cal.EPOCH_NS
    if g.p(0.05):
        u = g.logint(75)
    v = u // unit
    if unit == S and g.p(0.3):
        return u / S
    return v


def _zc(g):
    tz = g.tz()
    a, kw = _dtargs(g, g.zlocal(tz))
    kw["tz"] = tz
    kw.update(_dis(g))
    return a, kw


def _sc(g):
    a, kw = _dtargs(g, g.system(0).l)
    kw.update(_dis(g))
    return a, kw


def _text(t):
    def f(g):
        s = vals.fmt(MAKE[t](g))
        if g.p(0.25):
            s = g.mutate(s)
        return (s,), {}
    return f


def _3339(t):
    def f(g):
        m = MAKE[t](g)
        s = vals.fmt_local(m[0], g.ch(" tT_")) + (g.ch("Zz") if t is MInstant else vals.fmt_off(m.off // 60 * 60))
        if g.p(0.25):
            s = g.mutate(s)
        return (s,), {}
    return f


def _exact_kw(g):
    return (), g.split_exact(g.dns())


def _dd_kw(g):
    m = g.dd()
    return (), g.split_date(*m)


MAKERS = [
    ("Date", lambda g: (cal.civil_from_days(g.day()), {})),
    ("YearMonth", lambda g: (tuple(g.ym()), {})), ("MonthDay", lambda g: (tuple(g.md()), {})),
    ("Time", lambda g: (cal.fields(g.tod())[3:6], {"nanosecond": g.nanos()})),
    ("TimeDelta", _exact_kw), ("DateDelta", _dd_kw),
    ("DateTimeDelta", lambda g: ((), {**g.split_date(*g.dd()), **g.split_exact(g.dns())})),
    ("Instant.from_utc", _m(lambda g, a, kw: (a, kw))), ("LocalDateTime", _m(lambda g, a, kw: (a, kw))),
    ("OffsetDateTime", _m(lambda g, a, kw: (a, {**kw, "offset": g.off_arg(g.off())}))),
    ("ZonedDateTime", _zc), ("ZonedDateTime", _zc), ("SystemDateTime", _sc),
]
for _n, _u in (("from_timestamp", S), ("from_timestamp_millis", 10**6), ("from_timestamp_nanos", 1)):
    MAKERS += [("Instant." + _n, lambda g, _u=_u: ((_ts(g, _u),), {})),
               ("ZonedDateTime." + _n, lambda g, _u=_u: ((_ts(g, _u),), {"tz": g.tz()})),
               ("SystemDateTime." + _n, lambda g, _u=_u: ((_ts(g, _u),), {})),
               ("OffsetDateTime." + _n, lambda g, _u=_u: ((_ts(g, _u),), {"offset": g.off_arg(g.off()), **_ign(g)}))]
for _t in MAKE:
    if _t is not MWeekday:
        MAKERS.append((NAME[_t] + ".parse_common_iso", _text(_t)))
MAKERS += [("ZonedDateTime.parse_common_iso", _text(MZoned)), ("Instant.parse_rfc3339", _3339(MInstant)),
           ("OffsetDateTime.parse_rfc3339", _3339(MOffset))]
MAKERS += [("fn." + u, lambda g: ((g.logint(30),), {})) for u in spec.UNITS]
MAKERS += [("fn." + u, lambda g: ((g.logint(12),), {})) for u in spec.DUNITS]


def make_call(g):
    name, f = g.ch(MAKERS)
    a, kw = f(g)
    return name, tuple(a), kw


def any_call(g):
    if g.p(0.3):
        return make_call(g)
    return on(g, any_value(g))


def each():
    """every operation there is"""
    from . import texts
    e = [("on", t, n) for t, l in OPS.items() for n in dict.fromkeys(n for n, _ in l)]
    e += [("make", n) for n in dict.fromkeys(n for n, _ in MAKERS)]
    e += [("text", n) for n in texts.PARSERS + ("strptime",)]
    e += [("operator", t, o) for t in MAKE for o in dict.fromkeys(BINOPS)]
    e += [("operator", t, "*") for t in (MTD, MDD, MDTD)]
    return e


def turns(ctx):
    """every operation there is, in an order in which the workers together soon have all"""
    import random
    e = each()
    random.Random(0).shuffle(e)
    k = len(e) * (ctx.worker % 8) // 8
    return e[k:] + e[:k]


def call_of(g, e):
    """a call of the operation e"""
    from . import texts
    if e[0] == "on":
        m = MAKE[e[1]](g)
        a, kw = g.ch([f for n, f in OPS[e[1]] if n == e[2]])(g, m)
        return e[2], (m,) + tuple(a), kw
    if e[0] == "make":
        a, kw = g.ch([f for n, f in MAKERS if n == e[1]])(g)
        return e[1], tuple(a), kw
    if e[0] == "text":
        return texts.call(g, e[1])
    m = MAKE[e[1]](g)
    number = e[2] in ("*", "/", "//", "%") and e[1] in (MTD, MDD, MDTD) and g.p(0.7)
    a = (m, g.ch((0, 1, -1, 2, 3, -7, 1.5, 0.1, g.logint(20))) if number else _partner(g, m))
    return e[2], a[::-1] if g.p(0.3) else a, {}


SYSTEM_OPS = {"SystemDateTime", "SystemDateTime.from_timestamp", "SystemDateTime.from_timestamp_millis",
              "SystemDateTime.from_timestamp_nanos", "LocalDateTime.assume_system_tz"}


def reads_system_tz(name, args):
    return (name in SYSTEM_OPS or name.endswith(".to_system_tz")
            or any(type(a) is MSystem for a in args)
            or name.startswith("SystemDateTime.parse"))
