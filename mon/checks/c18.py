"""RFC 3339, RFC 2822 and strptime."""
import datetime as dt

from ..vals import *
from .. import cal, core, ops, spec, vals

QUICK, THOROUGH = 20000, 800000
RULE = ("one case = a moment formatted and parsed back in RFC 3339 / RFC 2822, a text assembled from the documented variants (and its "
        "mutations), or a strptime text assembled from fields and directives; distinct = distinct judged calls")
WD = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
WDL = ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")
MN = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
MNL = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")
# zone names of RFC 2822 section 4.3
NAMED = {"GMT": 0, "UT": 0, "UTC": 0, "EST": -18000, "EDT": -14400, "CST": -21600, "CDT": -18000, "MST": -25200,
         "MDT": -21600, "PST": -28800, "PDT": -25200}


def _fail(ctx, mech, name, arg, got, exp):
    ctx.fail(mech, {"call": core.show(name, arg, {}), "observed": repr(got), "expected": repr(exp), "system_tz": spec.Sys.name})


def _judge(ctx, name, args, exp, mech=None):
    """exp: model value, or None for 'a ValueError'"""
    got, o = core.observe(ctx.W, name, args, {})
    ctx.event(name)
    ctx.key((name, args))
    if exp is None:
        if not (type(got) is spec.Exc and issubclass(got.type, ValueError)):
            _fail(ctx, mech or name, name, args, got, "ValueError")
    elif exp == "range":
        if not (type(got) is spec.Exc and issubclass(got.type, (ValueError, OverflowError))):
            _fail(ctx, mech or name, name, args, got, "ValueError or OverflowError")
    elif not same(got, exp):
        _fail(ctx, mech or name, name, args, got, exp)
    return o


def _minute_offset(g):
    m = g.offset()
    off = cal.trunc_div(m.off, 60) * 60
    m = MOffset(m.l, off)
    return m if 0 <= utc(m) <= cal.MAX_NS else MOffset(m.l, 0)


def rfc3339(ctx):
    g = ctx.g
    if g.p(0.5):
        m = g.instant()
        s, _ = ctx.call("Instant.format_rfc3339", m)
        l, off = m.u, 0
    else:
        m = _minute_offset(g)
        s, _ = ctx.call("OffsetDateTime.format_rfc3339", m)
        l, off = m
    n = NAME[type(m)]
    _judge(ctx, n + ".parse_rfc3339", (s,), m, "RFC 3339 text does not parse back")
    y, mo, d, h, mi, s_, ns = cal.fields(l)
    # documented variants, with exactly the denoted meaning
    frac = ""
    k = g.r.randint(0, 9)
    if k:
        f = ("%09d" % ns)[:k]
        frac = "." + f
        ns = int(f.ljust(9, "0"))
    else:
        ns = 0
    l = l // S * S + ns
    base = "%04d-%02d-%02d%s%02d:%02d:%02d%s" % (y, mo, d, g.ch("Tt _"), h, mi, s_, frac)
    z = fmt_off(off)
    if off == 0:
        z = g.ch(("Z", "z", "+00:00", "-00:00"))
        _judge(ctx, "Instant.parse_rfc3339", (base + z,), MInstant(l))
    else:
        _judge(ctx, "Instant.parse_rfc3339", (base + z,), None, "Instant.parse_rfc3339 accepts a nonzero offset")
    exp = MOffset(l, off)
    _judge(ctx, "OffsetDateTime.parse_rfc3339", (base + z,), exp if 0 <= utc(exp) <= cal.MAX_NS else "range")
    ctx.feat("fraction digits %d" % k)
    if g.p(0.3):
        t = g.mutate(base + z)
        ctx.call("Instant.parse_rfc3339", t)
        ctx.call("OffsetDateTime.parse_rfc3339", t)


def fields_3339(ctx):
    """every field at and beyond its limits"""
    g = ctx.g
    f = list(cal.fields(g.local())[:6])
    f[g.r.randrange(6)] = g.ch((0, 1, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 99, 9999))
    oh, om = g.ch((0, 1, 12, 23, 24, 14, 99)), g.ch((0, 0, 30, 59, 60, 99))
    base = "%04d-%02d-%02d%s%02d:%02d:%02d" % (f[0], f[1], f[2], g.ch("Tt _"), f[3], f[4], f[5])
    z = g.ch(("Z", "%s%02d:%02d" % (g.ch("+-"), oh, om), "+%02d%02d" % (oh, om), "+%02d" % oh, "", "+%02d:%02d:00" % (oh, om)))
    for n in ("Instant", "OffsetDateTime"):
        ctx.call(n + ".parse_rfc3339", base + z)


def rfc2822(ctx):
    g = ctx.g
    if g.p(0.45):
        m = g.instant()
        n, l, off = "Instant", m.u, 0
    else:
        m = _minute_offset(g)
        n, l, off = "OffsetDateTime", m.l, m.off
    s, _ = ctx.call(n + ".format_rfc2822", m)
    if type(s) is not str:
        return
    l0 = l // S * S
    y, mo, d, h, mi, sec, _ = cal.fields(l0)
    if y < 1000:
        ctx.feat("years before 1000 (text only)")
        return
    want = MInstant(l0) if n == "Instant" else MOffset(l0, off)
    o = _judge(ctx, n + ".parse_rfc2822", (s,), want, "RFC 2822 text does not parse back")
    if o is not None and n == "Instant" and m.u % S == 0:
        if not o == ctx.real(m):
            _fail(ctx, "RFC 2822 value unequal", n + ".parse_rfc2822", (s,), o, m)
    # variants
    day = g.ch((str(d), "%02d" % d))
    wd = g.ch((WD[cal.weekday(l0 // cal.DAY_NS) - 1] + ", ", ""))
    sep = g.ch((" ", " ", "  "))
    base = f"{wd}{day}{sep}{MN[mo - 1]} {y:04d} {h:02d}:{mi:02d}" + (":%02d" % sec if sec or g.p(0.7) else "")
    if g.p(0.5) or off == 0:
        off = g.ch((0,) * 4 + tuple(NAMED.values())) if g.p(0.6) else off
        names = [k for k, v in NAMED.items() if v == off]
        z = g.ch(names) if names and g.p(0.7) else fmt_off(off, "")
    else:
        z = fmt_off(off, "")
    exp = MOffset(l0, off)
    inr = 0 <= utc(exp) <= cal.MAX_NS
    ctx.feat("zone " + (z if z.isalpha() else "numeric"))
    _judge(ctx, "OffsetDateTime.parse_rfc2822", (f"{base} {z}",), exp if inr else "range", "OffsetDateTime.parse_rfc2822 variant")
    _judge(ctx, "Instant.parse_rfc2822", (f"{base} {z}",), MInstant(l0) if off == 0 else None, "Instant.parse_rfc2822 variant")
    k = g.r.random()
    if k < 0.3:
        _judge(ctx, "Instant.parse_rfc2822", (base + " -0000",), MInstant(l0), "Instant.parse_rfc2822 of -0000")
        _judge(ctx, "OffsetDateTime.parse_rfc2822", (base + " -0000",), None, "OffsetDateTime.parse_rfc2822 of -0000")
    elif k < 0.5:
        _judge(ctx, "Instant.parse_rfc2822", (base,), None, "Instant.parse_rfc2822 without zone")
        _judge(ctx, "OffsetDateTime.parse_rfc2822", (base,), None, "OffsetDateTime.parse_rfc2822 without zone")
    elif k < 0.7:
        # not validated, but what comes out is a well-formed value or an exception
        t = g.mutate(f"{base} {z}")
        for c in ("Instant", "OffsetDateTime"):
            got, _ = core.observe(ctx.W, c + ".parse_rfc2822", (t,), {})
            ctx.event("mutated RFC 2822 text")
            if type(got) is spec.Exc and got.type is Malformed:
                _fail(ctx, "malformed value", c + ".parse_rfc2822", (t,), got, "a well-formed value or an exception")


def _pieces(g, l):
    """a strptime format and matching text; -> (fmt, text, local denoted)"""
    y, mo, d, h, mi, s, n = cal.fields(l)
    us = n // 1000
    day = l // cal.DAY_NS
    out = [("%Y", "%04d" % y)]
    k = g.r.random()
    if k < 0.6:
        x = g.ch((("%m", "%02d" % mo), ("%m", str(mo)), ("%b", MN[mo - 1]), ("%B", MNL[mo - 1])))
        out += [x, g.ch((("%d", "%02d" % d), ("%d", str(d))))]
        if g.p(0.3):
            w = cal.weekday(day)
            out.append(g.ch((("%a", WD[w - 1]), ("%A", WDL[w - 1]))))
    elif k < 0.85:
        doy = day - cal.days_from_civil(y, 1, 1) + 1
        out.append(("%j", "%03d" % doy))
    else:
        out += [("%m", "%02d" % mo)]
        l -= (d - 1) * cal.DAY_NS
    if g.p(0.85):
        if g.p(0.3):
            out += [("%I", "%02d" % ((h - 1) % 12 + 1)), ("%p", "AM" if h < 12 else "PM")]
        else:
            out.append(("%H", "%02d" % h))
        out.append(("%M", "%02d" % mi))
        if g.p(0.85):
            out.append(("%S", "%02d" % s))
            if g.p(0.6):
                t = "%06d" % us
                t = t.rstrip("0") or "0" if g.p(0.5) else t
                out.append(("%f", t))
                l = l // S * S + us * 1000
            else:
                l = l // S * S
        else:
            l = l // (60 * S) * (60 * S)
    else:
        l = l // cal.DAY_NS * cal.DAY_NS
    return out, l


def strptime(ctx):
    g = ctx.g
    l = g.local()
    if cal.fields(l)[0] < 1000 and g.p(0.5):
        l = (l % (8000 * 365 * cal.DAY_NS)) + cal.days_from_civil(1000, 1, 1) * cal.DAY_NS
    parts, l = _pieces(g, l)
    sep = g.ch((" ", "/", "|", ","))
    fmt, text = sep.join(p[0] for p in parts), sep.join(p[1] for p in parts)
    _judge(ctx, "LocalDateTime.strptime", (text, fmt), MLocal(l), "LocalDateTime.strptime")
    _judge(ctx, "OffsetDateTime.strptime", (text, fmt), None, "OffsetDateTime.strptime without offset")
    k = g.r.random()
    off = g.off() if g.p(0.8) else 0
    if k < 0.15:
        z, off = g.ch(("Z", "+00:00", "+0000", "-0000")), 0
    elif off % 60:
        z = fmt_off(off)
    else:
        z = fmt_off(off, g.ch((":", "")))
    exp = MOffset(l, off)
    ft, tt = fmt + sep + "%z", text + sep + z
    _judge(ctx, "OffsetDateTime.strptime", (tt, ft), exp if 0 <= utc(exp) <= cal.MAX_NS else "range", "OffsetDateTime.strptime")
    _judge(ctx, "LocalDateTime.strptime", (tt, ft), None, "LocalDateTime.strptime with offset")
    if k > 0.85 and abs(off) < 86340:
        t = text + sep + ("-" if off < 0 else "+") + "%02d:%02d:%02d" % (abs(off) // 3600, abs(off) // 60 % 60, abs(off) % 60)
        _judge(ctx, "OffsetDateTime.strptime", (t + "." + g.ch(("5", "000001", "999999")), ft), None, "OffsetDateTime.strptime sub-second offset")
    if g.p(0.3):
        for n in ("LocalDateTime", "OffsetDateTime"):
            _judge(ctx, n + ".strptime", (text + "x", fmt), None, n + ".strptime of non-matching text")
    ctx.feat("directives " + str(len(parts)))


WORKLOADS = [("rfc 3339", 3, rfc3339), ("rfc 3339 field limits", 1.2, fields_3339), ("rfc 2822", 3, rfc2822), ("strptime", 2.5, strptime)]
