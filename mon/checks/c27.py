"""Domains of constructors, kinds of arguments and operands, unknown keywords."""
import datetime as dt
import decimal
import fractions
import operator

from ..vals import *
from .. import cal, core, ops, spec, vals
from ..cal import DAY_NS, S

QUICK, THOROUGH = 14000, 500000
RULE = ("one case = one constructor over a combination of field values inside, at and just outside their domains; or a random call with "
        "one argument replaced by a thing of another kind; or a pair of operands of different kinds under every operator; or a call with "
        "an extra or unknown argument; distinct = distinct judged calls and operand pairs")
ASSUMES = ["Decimal and Fraction are numbers, which may or may not be taken where a float is", "bool counts as int, as everywhere in Python", "texts and sequences are not tried as multiples of TimeDelta units above "
           "milliseconds: Python itself would build gigabytes before refusing"]


class Thing:
    def __repr__(self):
        return "Thing()"


NUMBERS = (decimal.Decimal("1.5"), decimal.Decimal(2), fractions.Fraction(1, 2), fractions.Fraction(3))
PALETTE = (None, "2", "", "2020-01-01", b"x", 1.5, 2.0, float("nan"), 1j, (), (1, 2), frozenset((1,)), dt.date(2020, 1, 2), dt.datetime(2020, 1, 2, 3), dt.time(1, 2),
           dt.timedelta(days=1), dt.timezone.utc, Thing(), Thing, int, range(3), ..., NotImplemented, len)
SEQ = (str, bytes, tuple, range)
ALL = ("year", "month", "day", "hour", "minute", "second")
NS = (0, 1, 999, 10**6, 999_999_999, 10**9, -1, 10**10)
DOM = {"year": (1, 2, 4, 1900, 2000, 2023, 2024, 9999), "month": (1, 2, 2, 12), "day": (1, 28, 29, 30, 31), "hour": (0, 23), "minute": (0, 59),
       "second": (0, 59)}
OUT_ = {"year": (0, -1, 10000, 10**9, 1 << 64), "month": (0, 13, -1, 1 << 70), "day": (0, 32, -1, 1 << 33), "hour": (24, -1, 25, 1 << 32),
        "minute": (60, -1), "second": (60, 61, -1)}


def _fields(g, names):
    return {n: g.ch(DOM[n]) if g.p(0.5) else g.r.randint(DOM[n][0], DOM[n][-1]) for n in names}


OFFS = (0, 1, -1, 59, 60, 3600, 86399, -86399, 86400, -86400, 86340, 90000, 10**7)


def _offset(g):
    k = g.r.random()
    if k < 0.45:
        return MTD(g.ch(OFFS) * S if g.p(0.6) else g.off() * S)
    if k < 0.6:
        return MTD(g.off() * S + g.ch((1, -1, 1000, S // 2, 10**6)))
    if k < 0.9:
        return g.ch((0, 1, -1, 23, -23, 24, -24, 25, 100, -1000, 1 << 40))
    return g.ch((1.5, None, "+02:00", MDTD(0, 0, 3600 * S), MDD(0, 1), dt.timedelta(hours=1), dt.timezone.utc, MTime(3600 * S)))


def start(ctx):
    """probes of a known finding: a timedelta as disambiguate setting"""
    W = ctx.W
    d = dt.timedelta(hours=1)
    z, s, l = W.ZonedDateTime(2020, 1, 1, tz="Europe/Paris"), W.SystemDateTime(2020, 1, 1), W.LocalDateTime(2020, 1, 1)
    for call, f in (("ZonedDateTime(2020, 1, 1, tz='Europe/Paris', disambiguate=timedelta(hours=1))",
                     lambda: W.ZonedDateTime(2020, 1, 1, tz="Europe/Paris", disambiguate=d)),
                    ("SystemDateTime(2020, 1, 1, disambiguate=timedelta(hours=1))", lambda: W.SystemDateTime(2020, 1, 1, disambiguate=d)),
                    ("LocalDateTime(2020, 1, 1).assume_tz('Europe/Paris', disambiguate=timedelta(hours=1))",
                     lambda: l.assume_tz("Europe/Paris", disambiguate=d)),
                    ("LocalDateTime(2020, 1, 1).assume_system_tz(disambiguate=timedelta(hours=1))", lambda: l.assume_system_tz(disambiguate=d)),
                    ("ZonedDateTime(2020, 1, 1, tz='Europe/Paris').replace(day=2, disambiguate=timedelta(hours=1))",
                     lambda: z.replace(day=2, disambiguate=d)),
                    ("SystemDateTime(2020, 1, 1).replace(day=2, disambiguate=timedelta(hours=1))", lambda: s.replace(day=2, disambiguate=d))):
        try:
            r = f()
        except Exception:
            continue
        ctx.fail("disambiguate of the wrong kind", {"call": call, "observed": repr(r), "expected": "an exception"})


CTORS = ("Date", "YearMonth", "MonthDay", "Time", "Instant.from_utc", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime", "Instant")


def fields(ctx):
    g = ctx.g
    name = g.ch(CTORS)
    names = {"Date": ALL[:3], "YearMonth": ALL[:2], "MonthDay": ALL[1:3], "Time": ALL[3:]}.get(name, ALL)
    f = _fields(g, names)
    if name not in ("Date", "YearMonth", "MonthDay"):
        if g.p(0.4):
            k = g.r.randint(3 if len(names) == 6 else 0, len(names))
            f = dict(list(f.items())[:k])
        if g.p(0.5):
            f["nanosecond"] = g.ch(NS[:5]) if g.p(0.8) else g.ch(NS)
    k = g.r.random()
    if k < 0.45:
        n = g.ch(tuple(f) or ("nanosecond",))
        f[n] = g.ch(NS) if n == "nanosecond" else g.ch(OUT_[n])
    elif k < 0.52:
        n = g.ch(tuple(f) or ("nanosecond",))
        f[n] = g.ch(PALETTE)
    if g.p(0.04) and f:
        f.pop(g.ch(tuple(f)))
    faults = k < 0.52
    extra = {}
    if name == "OffsetDateTime":
        extra["offset"] = _offset(g)
    elif name == "ZonedDateTime":
        extra["tz"] = g.tz() if g.p(0.9) else g.ch(("Europe/Amsterdm", "", "../UTC", "+01:00", "America/new_york ", 3, None, dt.timezone.utc, b"UTC"))
    if name in ("ZonedDateTime", "SystemDateTime") and g.p(0.2):
        extra["disambiguate"] = g.ch(spec.DIS) if g.p(0.8) else g.ch(("Later", "", "both", "EARLIER", "raises"))
    # a wrong kind and a value out of range at once: either may be reported
    x = next(iter(extra.values())) if extra else 0
    ctx.lax = k >= 0.45 and faults or "tz" in extra and type(x) is not str or type(x) not in (str, int, MTD) or type(x) is str and x not in spec._KEYSET
    # by position as far as the signature goes, then by name
    a = []
    if g.p(0.6):
        for n in names:
            if n not in f:
                break
            a.append(f.pop(n))
            if g.p(0.1):
                break
    kw = list({**f, **extra}.items())
    g.r.shuffle(kw)
    ctx.call(name, *a, **dict(kw))
    ctx.feat(name)


def timestamps(ctx):
    g = ctx.g
    for n, u in (("from_timestamp", S), ("from_timestamp_millis", 10**6), ("from_timestamp_nanos", 1)):
        k = g.r.random()
        v = (g.utc() - cal.EPOCH_NS) // u if k < 0.4 else (g.ch((-cal.EPOCH_NS, cal.MAX_NS - cal.EPOCH_NS)) // u + g.ch((0, 1, -1, 86400, -86400))) \
            if k < 0.8 else g.logint(90) if k < 0.93 else g.ch(PALETTE)
        if type(v) in SEQ and u == S:
            v = None
        ctx.call("Instant." + n, v)
        ctx.call("ZonedDateTime." + n, v, tz=g.tz())
        ctx.call("SystemDateTime." + n, v)
        o = _offset(g)
        ctx.lax = type(v) is not int or type(o) not in (int, MTD)
        ctx.call("OffsetDateTime." + n, v, offset=o, ignore_dst=True)
        ctx.lax = False


def offsets(ctx):
    g = ctx.g
    o = _offset(g)
    m = g.exact()
    ctx.call(NAME[type(m)] + ".to_fixed_offset", m, o)
    ctx.call("LocalDateTime.assume_fixed_offset", g.ldt(), o)
    if o is not None:
        ctx.call("OffsetDateTime.replace", g.offset(), offset=o, ignore_dst=True)


def deltas(ctx):
    g = ctx.g
    M, D = cal.MAX_DELTA_MONTHS, cal.MAX_DELTA_DAYS
    sgn = lambda v: g.ch((v, -v))
    kw = {}
    for u, lim in (("years", M // 12), ("months", M), ("weeks", D // 7), ("days", D)):
        if g.p(0.4):
            kw[u] = sgn(g.ch((0, 1, 12, 30, lim, lim + 1, lim - 1, 1 << 40))) if g.p(0.5) else g.logint(20)
    if g.p(0.05) and kw:
        kw[g.ch(tuple(kw))] = g.ch(PALETTE)
    ctx.lax = any(type(v) is not int for v in kw.values())
    ctx.call("DateDelta", **kw)
    ex = {}
    for u, k in spec.UNITS.items():
        if g.p(0.25):
            lim = cal.MAX_DELTA_NS // k
            ex[u] = sgn(g.ch((0, 1, lim, lim + 1, lim - 1, 1 << 80))) if g.p(0.4) else g.logint(30)
    if g.p(0.1) and ex:
        u = g.ch(tuple(ex))
        v = g.ch(PALETTE)
        if not (type(v) in SEQ and u in ("hours", "minutes", "seconds", "milliseconds")):
            ex[u] = v
    ctx.lax = any(type(v) is not int for v in ex.values())
    ctx.call("TimeDelta", **ex)
    ctx.lax = False
    if g.p(0.5):
        s = g.ch((1, -1))
        ctx.lax = any(type(v) is not int for v in [*kw.values(), *ex.values()])
        kw = {k: v if type(v) is not int else abs(v) * s for k, v in kw.items()}
        ex = {k: v if type(v) is not int else abs(v) * s for k, v in ex.items()}
        if g.p(0.3) and ex:
            u = g.ch(tuple(ex))
            if type(ex[u]) is int:
                ex[u] = -ex[u]
    ctx.call("DateTimeDelta", **kw, **ex)
    ctx.lax = False
    # mixed signs arising in operations
    a, b = g.delta(), g.delta()
    for o in ("+", "-"):
        ctx.call(o, a, b)
    for u in spec.DUNITS + tuple(spec.UNITS):
        if g.p(0.1):
            v = g.logint(50) if g.p(0.8) else g.ch(PALETTE)
            if not (type(v) in SEQ and u in ("hours", "minutes", "seconds", "milliseconds")):
                ctx.call("fn." + u, v)


HEAVY = ("hours", "minutes", "seconds", "milliseconds")


def wrong_kind(ctx):
    """a call with one argument of another kind"""
    g = ctx.g
    for _ in range(3):
        name, a, kw = ops.any_call(g)
        if name in ops.BINOPS:
            continue
        lo = 0 if name in _NO_RECEIVER else 1
        slots = list(range(lo, len(a))) + list(kw)
        if not slots:
            continue
        s = g.ch(slots)
        v = g.ch(PALETTE) if g.p(0.5) else ops.any_value(g)
        if type(v) in SEQ and (s in HEAVY or name in ("fn." + h for h in HEAVY) or name.endswith(".from_timestamp")):
            continue
        if s in ("ignore_dst",):
            continue
        a = list(a)
        if type(s) is int:
            a[s] = v
        else:
            kw[s] = v
        ctx.lax = True
        ctx.call(name, *a, **kw)
        ctx.lax = False
        ctx.feat("kind " + type(v).__name__)


_NO_RECEIVER = {n for n, _ in ops.MAKERS}

ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
         "**": operator.pow, "@": operator.matmul, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_,
         "^": operator.xor, "divmod": divmod, "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv,
         "//=": operator.ifloordiv, "%=": operator.imod}
ORDER = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
_DT = (MLocal,) + EXACT
_DELTA = (MTD, MDD, MDTD)
_NUM = (int, float, bool, decimal.Decimal, fractions.Fraction)


def _defined(o, a, b):
    """may the operator be defined for operands of these types?"""
    o = o.rstrip("=") if o not in ORDER else o
    if o in ORDER:
        return a is b and a in spec._ORDERED or a in EXACT and b in EXACT
    if o == "+":
        return a in _DELTA and b in _DELTA or a in _DT and b in _DELTA or a is MDate and b in (MDD, MDTD) or a is MDate and b is MTD
    if o == "-":
        return (a in _DELTA and b in _DELTA or a in _DT and b in _DELTA or a is MDate and b in _DELTA + (MDate,)
                or a is b is MLocal or a in EXACT and b in EXACT)
    if o == "*":
        return a in _DELTA and b in _NUM or b in _DELTA and a in _NUM
    if o == "/":
        return a is MTD and b in _NUM + (MTD,)
    if o in ("//", "%", "divmod"):
        return a is b is MTD
    return False


def operands(ctx):
    """every operator over two operands of different kinds"""
    g = ctx.g
    a = ops.any_value(g)
    b = ops.any_value(g) if g.p(0.6) else g.ch(PALETTE + NUMBERS) if g.p(0.7) else g.ch((0, 1, 2, -1, True))
    if g.p(0.5):
        a, b = b, a
    try:
        x, y = ctx.real(a), ctx.real(b)
    except core.BuildError:
        return
    ta, tb = type(a), type(b)
    ctx.key(("operands", ta, tb))
    for o, f in {**ARITH, **ORDER}.items():
        if _defined(o, ta, tb):
            if o in core._OPS:
                ctx.call(o, a, b)
            continue
        if o in ("%", "%=") and ta in (str, bytes) or o in ("*", "*=") and (ta in SEQ and tb is int or tb in SEQ and ta is int):
            continue
        if ta not in NAME and tb not in NAME:
            continue
        ctx.event("operator without meaning")
        try:
            r = f(x, y)
        except TypeError:
            continue
        except Exception as e:
            r = e
        ctx.fail("operator on the wrong kinds", {"call": f"{core._show1(a)} {o} {core._show1(b)}", "observed": repr(r), "expected": "TypeError"})
    if ta is not tb and not (ta in EXACT and tb in EXACT):
        ctx.event("equality of different kinds")
        for r, want in ((x == y, False), (y == x, False), (x != y, True), (y != x, True)):
            if r is not want:
                ctx.fail("equality of different kinds", {"call": f"{core._show1(a)} == {core._show1(b)}", "observed": repr(r)})
    for o, f in (("~", operator.invert), ("int", int), ("float", float), ("index", operator.index), ("len", len), ("iter", iter)):
        for m, v in ((a, x), (b, y)):
            if type(m) in NAME and type(m) is not MWeekday:
                try:
                    r = f(v)
                except TypeError:
                    continue
                except Exception as e:
                    r = e
                ctx.fail("operator on the wrong kind", {"call": f"{o} {core._show1(m)}", "observed": repr(r), "expected": "TypeError"})
    for m, v in ((a, x), (b, y)):
        if type(m) in NAME and type(m) not in _DELTA + (MWeekday,):
            for o, f in (("neg", operator.neg), ("abs", abs), ("pos", operator.pos)):
                try:
                    r = f(v)
                except TypeError:
                    continue
                ctx.fail("operator on the wrong kind", {"call": f"{o} {core._show1(m)}", "observed": repr(r), "expected": "TypeError"})


def rounding(ctx):
    """unit, increment and mode of the wrong kind or value"""
    g = ctx.g
    m = ops.MAKE[g.ch((MTime, MTD, MInstant, MLocal, MOffset, MZoned, MSystem))](g)
    kw = g.round_args(day=True, any_hour=type(m) is MTD)
    k = g.ch(("unit", "increment", "mode"))
    if k == "increment":
        v = g.ch(PALETTE + NUMBERS) if g.p(0.7) else float(g.ch((1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 100))) + g.ch((0, 0, 0.5))
    else:
        v = g.ch(PALETTE) if g.p(0.7) else g.ch(("hours", "Hour", "week", "", "half", "HALF_EVEN", "trunc", "half_even ", "up"))
    kw[k] = v
    if type(m) is MOffset:
        kw["ignore_dst"] = True
    ctx.lax = True
    ctx.call(NAME[type(m)] + ".round", m, **kw)
    ctx.lax = False


BOGUS = ("foo", "Hours", "tzinfo", "fold", "microsecond", "millis", "nanosec", "minutess", "dst", "self", "args", "kwargs", "cls", "date_", "other", "x",
         "centuries", "Year", "timezone", "weekday", "quarters")


def unknown_keyword(ctx):
    """a good call, with a keyword (or a positional argument) too many"""
    g = ctx.g
    name, a, kw = ops.any_call(g)
    k = spec.KIND.get(name)
    if name in core._OPS or name in ("str", "repr") or k == "prop" or k == "op":
        return
    try:
        ra = [ctx.real(x) for x in a]
        rk = {n: ctx.real(v) for n, v in kw.items()}
    except core.BuildError:
        return
    got, _ = core.observe(ctx.W, name, ra, rk)
    if type(got) is spec.Exc:
        return
    if g.p(0.8):
        n = g.ch(BOGUS)
        if n in kw:
            return
        rk2 = list({**rk, n: g.ch((0, 1, None, "UTC", 5))}.items())
        g.r.shuffle(rk2)
        ra2, rk2, what = ra, dict(rk2), f"unknown keyword {n}"
    else:
        ra2, rk2, what = ra + [g.ch((0, 1, None, "raise", 12))] * g.ch((7, 8)), rk, "positional arguments too many"
    ctx.event(what.split()[0])
    ctx.key((name, what))
    got, _ = core.observe(ctx.W, name, ra2, rk2)
    if type(got) is not spec.Exc or not issubclass(got.type, TypeError):
        ctx.fail("unknown argument", {"call": core.show(name, a, kw) + " with " + what, "observed": repr(got), "expected": "TypeError",
                                      "keywords": repr(sorted(rk2))})


WORKLOADS = [("fields", 4, fields), ("timestamps", 1, timestamps), ("offsets", 1, offsets), ("deltas", 2, deltas), ("wrong kind", 3, wrong_kind),
             ("rounding", 1, rounding), ("operands", 3, operands), ("unknown keyword", 2, unknown_keyword)]
