"""Random calls of the parsers, valid and not: what C26 and C29 draw from."""
from . import cal, ops, vals
from .cal import S
from .vals import *

WD = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
WDL = ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")
MN = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
ZN = ("GMT", "UT", "UTC", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT", "Z", "A", "-0000", "+0000", "CET", "")
DUR = ("TimeDelta.parse_common_iso", "DateDelta.parse_common_iso", "DateTimeDelta.parse_common_iso")
ISO = tuple(NAME[t] + ".parse_common_iso" for t in NAME if t is not MWeekday)


def duration(g):
    """designators in any order and number, mostly small values: valid, refused early, refused late"""
    d = [u for u in "YMWD" if g.p(0.35)]
    t = [u for u in "HMS" if g.p(0.55)]
    if g.p(0.25):
        g.r.shuffle(d)
        g.r.shuffle(t)
    if g.p(0.15):
        (t if g.p(0.7) else d).append(g.ch("HMSYMWDX"))
    n = lambda u: str(g.ch((0, 1, 2, 5, 7, 12, 30, 59, 60, 90, 1000))) + (g.ch((".5", ".25", ".000000001", ".1234567891", ".")) if u == "S" and g.p(0.4) else "")
    s = g.ch(("", "", "", "-", "+")) + "P" + "".join(n(u) + u for u in d)
    if t or g.p(0.1):
        s += "T" + "".join(n(u) + u for u in t)
    return s + ("" if g.p(0.95) else g.ch(("1", "S", "x", "T")))


def rfc2822(g):
    l = g.local()
    y, mo, d, h, mi, s, _ = cal.fields(l)
    w = WD[cal.weekday(l // cal.DAY_NS) - 1]
    z = vals.fmt_off(g.off() // 60 * 60, "") if g.p(0.5) else g.ch(ZN)
    return g.ch((w + ", ", w + ", ", "", "Mon, ")) + f"{g.ch((d, '%02d' % d))} {MN[mo - 1]} {y:04d} {h:02d}:{mi:02d}" + g.ch((f":{s:02d}", f":{s:02d}", "")) + " " + z


def rfc3339(g):
    m = g.offset()
    return vals.fmt_local(m.l, g.ch("Tt _")) + (g.ch("Zz") if g.p(0.5) else vals.fmt_off(m.off // 60 * 60))


def strptime(g):
    y, mo, d, h, mi, s, n = cal.fields(g.local())
    f = [("%Y", f"{y:04d}"), g.ch((("%m", f"{mo:02d}"), ("%m", str(mo)), ("%b", MN[mo - 1]))), ("%d", f"{d:02d}")]
    if g.p(0.8):
        f += [("%H", f"{h:02d}"), ("%M", f"{mi:02d}")]
        if g.p(0.7):
            f.append(("%S", f"{s:02d}"))
            if g.p(0.5):
                f.append(("%f", f"{n // 1000:06d}"))
    c = "LocalDateTime"
    if g.p(0.5):
        c = "OffsetDateTime"
        f.append(("%z", vals.fmt_off(g.off() // 60 * 60, g.ch((":", "")))))
    if g.p(0.1):
        c = g.ch(("LocalDateTime", "OffsetDateTime"))
    sep = g.ch((" ", "/", ","))
    t = sep.join(x[1] for x in f)
    return c + ".strptime", (g.mutate(t) if g.p(0.2) else t, sep.join(x[0] for x in f)), {}


def text(g, name):
    """a text for the parser, mostly of its kind"""
    m = name.partition(".")[2]
    if m == "parse_rfc2822":
        s = rfc2822(g)
    elif m == "parse_rfc3339":
        s = rfc3339(g)
    elif name in DUR and g.p(0.6):
        s = duration(g)
    else:
        t = next(t for t in NAME if NAME[t] == name.partition(".")[0])
        s = vals.fmt(ops.MAKE[t](g))
    k = g.r.random()
    return g.mutate(s) if k < 0.3 else s[:g.r.randint(0, len(s))] if k < 0.36 else s


PARSERS = ISO + DUR * 2 + ("Instant.parse_rfc3339", "OffsetDateTime.parse_rfc3339", "Instant.parse_rfc2822", "OffsetDateTime.parse_rfc2822")


def call(g, name=None):
    if name is None and g.p(0.1) or name is not None and name.endswith("strptime"):
        return strptime(g)
    name = name or g.ch(PARSERS)
    return name, (text(g, name),), {}
