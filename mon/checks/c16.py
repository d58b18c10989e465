"""Parsers under mutated and hostile text."""
import zoneinfo

from ..vals import *
from .. import cal, core, ops, spec, vals

QUICK, THOROUGH = 16000, 700000
RULE = ("one case = a text derived from a valid one by field substitution, edits, grammar variants of other formats, or made of raw "
        "characters, given to the parsers of several types; acceptance and value are judged by an independent grammar; "
        "distinct = distinct judged (parser, text)")
TYPES = [t for t in NAME if t is not MWeekday]
PARSERS = [NAME[t] + ".parse_common_iso" for t in TYPES] + ["Instant.parse_rfc3339", "OffsetDateTime.parse_rfc3339"]
_FRACTION = ("", ".1", ".10", ".000000001", ".123456789", ".1234567890", ".", ",5", ".123456", ".999999999", ".5Z", ". 5")


def _judge(ctx, p, s):
    got, exp = ctx.call(p, s)
    if type(got) is spec.Exc:
        ctx.feat("refused")
        ok = (ValueError, OverflowError)
        if p.startswith("Zoned"):
            ok += (zoneinfo.ZoneInfoNotFoundError, OSError)  # what zoneinfo raises for a key that is no timezone
        if not issubclass(got.type, ok):
            ctx.fail("parser fails in another way than refusing", {"call": f"{p}({s!r})", "observed": repr(got)})
    else:
        ctx.feat("accepted")
    return got


def _valid(ctx, t):
    g = ctx.g
    return vals.fmt(ops.MAKE[t](g))


def mutated(ctx):
    g = ctx.g
    t = g.ch(TYPES)
    s = g.mutate(_valid(ctx, t))
    _judge(ctx, NAME[t] + ".parse_common_iso", s)
    if g.p(0.4):
        _judge(ctx, g.ch(PARSERS), s)
    m = g.ch((MInstant, MOffset))
    s = _3339(g, m)
    _judge(ctx, NAME[m] + ".parse_rfc3339", g.mutate(s) if g.p(0.8) else s)


def _3339(g, t):
    m = ops.MAKE[t](g)
    z = g.ch("Zz") if g.p(0.6) else g.ch(("+00:00", "-00:00", "+0000", "+00", "-00:01")) if t is MInstant else vals.fmt_off(m.off // 60 * 60)
    return vals.fmt_local(m[0], g.ch(" tT_tT /")) + z


def fields(ctx):
    """assembled from fields inside and outside their domains, separators and signs varied"""
    g = ctx.g
    y = g.ch(("2020", "0001", "9999", "0000", "10000", "999", "2021", "1900", "2000", "-2020", "+2020", "2024"))
    mo = g.ch(("01", "02", "12", "00", "13", "1", "02", "06"))
    d = g.ch(("01", "28", "29", "30", "31", "00", "32", "1"))
    h = g.ch(("00", "23", "24", "12", "1", "02", "60"))
    mi = g.ch(("00", "59", "60", "30", "5"))
    s = g.ch(("00", "59", "60", "30", "61", "5"))
    ok = g.p(0.5)
    if ok:
        h, mi, s, y, mo = g.ch(("00", "23", "12", "02")), g.ch(("00", "59", "30")), g.ch(("00", "59")), g.ch(("2020", "2023", "0001", "9999")), g.ch(("01", "02", "10", "12"))
        d = g.ch(("01", "28", "29", "15"))
    ds = g.ch(("-", "-", "-", "-", "", "/", ".", "\u2212", "_"))
    ts = g.ch((":", ":", ":", ":", "", ".", "-"))
    fr = g.ch(_FRACTION)
    sep = g.ch(("T", "T", "T", "T", " ", "t", "_", "", "  "))
    off = g.ch(("Z", "z", "+00:00", "-00:00", "+01:00", "-05:30", "+23:59", "+24:00", "-23:59:59", "+01:60", "+01:00:60", "+1:00", "+0100",
                "+01", "", "+01:00:30", "+00:00:00", "\u221201:00", "+01:00:30.5", "-12:34:56", "Z+00:00", "+ 1:00", "+99:00"))
    tz = g.ch(("Europe/Amsterdam", "UTC", g.tz(), g.tz(), "Nope/Zone", "", "../UTC", "/etc/localtime", "europe/amsterdam", "Europe/Amsterdam ",
               "U T C", "UTC]", "[UTC", "\u00e9", "Etc/GMT+5", "posixrules", ".", "..", "Europe", "Europe/", "a" * 300, "UTC\x00"))
    date = f"{y}{ds}{mo}{ds}{d}"
    time = g.ch((f"{h}{ts}{mi}{ts}{s}{fr}", f"{h}{ts}{mi}{ts}{s}{fr}", f"{h}{ts}{mi}", f"{h}{ts}{mi}{ts}{s}", h))
    for p, x in (("Date.parse_common_iso", date), ("Time.parse_common_iso", time), ("LocalDateTime.parse_common_iso", date + sep + time),
                 ("OffsetDateTime.parse_common_iso", date + sep + time + off), ("SystemDateTime.parse_common_iso", date + sep + time + off),
                 ("Instant.parse_common_iso", date + sep + time + g.ch((off, "Z", "Z"))), ("ZonedDateTime.parse_common_iso", date + sep + time + off + f"[{tz}]"),
                 ("OffsetDateTime.parse_rfc3339", date + sep + time + off), ("Instant.parse_rfc3339", date + sep + time + g.ch((off, "Z", "z"))),
                 ("YearMonth.parse_common_iso", f"{y}{ds}{mo}"), ("MonthDay.parse_common_iso", g.ch(("--", "--", "--", "-", "")) + f"{mo}{ds}{d}")):
        if g.p(0.6):
            _judge(ctx, p, x)


def zoned(ctx):
    """right text but offset wrong for the zone, or local time skipped"""
    g = ctx.g
    tz = g.tz()
    z = spec._zone(tz)
    l = g.near_local(z, tz) or g.local()
    r = z.resolve(l // S)
    offs = [o for o in r[1:] if type(o) is int]
    ctx.feat("zoned text in " + r[0])
    cand = offs + [o + g.ch((1, -1, 60, -60, 3600, -3600, 1800, 30)) for o in offs] + [-o for o in offs] + [0]
    tr = g.trans(z, tz)
    if tr:
        cand += [tr[1], tr[2]]
    for off in set(cand):
        if -86400 < off < 86400:
            _judge(ctx, "ZonedDateTime.parse_common_iso", vals.fmt_local(l) + vals.fmt_off(off) + f"[{tz}]")
    o = g.ch(offs) if offs else 0
    s = vals.fmt_local(l)
    _judge(ctx, "ZonedDateTime.parse_common_iso", s + g.ch(("Z", "z", "+00:00", "-00:00", "")) + f"[{tz}]")
    _judge(ctx, "ZonedDateTime.parse_common_iso", s + vals.fmt_off(o) + g.ch((f"[{tz}][u-ca=iso8601]", f"[!{tz}]", f"[{tz.lower()}]", f"[{tz}", f"{tz}]", f"[{tz}] ",
                                                                    f" [{tz}]", f"[{tz}]\n", f"[{tz}/]", f"[./{tz}]", "[]", "[+01:00]")))
    off2 = g.ch(offs + [0, 3600, -3600, 5400]) if offs else 0
    _judge(ctx, "OffsetDateTime.parse_common_iso", s + vals.fmt_off(off2 if -86400 < off2 < 86400 else 0))


def raw(ctx):
    g = ctx.g
    from ..gen import ALPHA
    al = g.ch((ALPHA, "0123456789", "0123456789-:T.Z+", "PTYMWDHS0123456789.+-", "".join(map(chr, (0, 9, 10, 13, 32, 0x130, 0x131, 0xd800, 0x10ffff, 0x661)))))
    s = "".join(g.ch(al) for _ in range(g.ch((0, 1, 2, 3, 5, 8, 10, 15, 19, 20, 25, 60))))
    for _ in range(3):
        _judge(ctx, g.ch(PARSERS), s)


def iso_variants(ctx):
    """other ISO 8601 forms the standard library would take"""
    g = ctx.g
    import datetime as dt
    y, mo, d, h, mi, s, n = cal.fields(g.local())
    c = dt.date(y, mo, d).isocalendar()
    forms = [f"{y:04}{mo:02}{d:02}", f"{c[0]:04}-W{c[1]:02}-{c[2]}", f"{c[0]:04}W{c[1]:02}{c[2]}", f"{c[0]:04}-W{c[1]:02}", f"{y:04}-{mo:02}",
             f"{y:04}-{(dt.date(y, mo, d) - dt.date(y, 1, 1)).days + 1:03}", f"{y:04}"]
    times = [f"{h:02}{mi:02}{s:02}", f"{h:02}:{mi:02}", f"{h:02}", f"{h:02}{mi:02}", f"{h:02}:{mi:02}:{s:02},5", f"{h:02}:{mi:02}:{s:02}.5",
             f"T{h:02}:{mi:02}:{s:02}", "24:00:00", f"{h:02}:{mi:02}:{s:02}.", f"{h:02}:{mi:02}.5", f"{h:02}.5"]
    full = f"{y:04}-{mo:02}-{d:02}"
    ft = f"{h:02}:{mi:02}:{s:02}"
    for f in forms:
        _judge(ctx, "Date.parse_common_iso", f)
        _judge(ctx, "LocalDateTime.parse_common_iso", f + "T" + ft)
        _judge(ctx, "OffsetDateTime.parse_common_iso", f + "T" + ft + "+01:00")
        _judge(ctx, g.ch(("Instant.parse_common_iso", "Instant.parse_rfc3339")), f + "T" + ft + "Z")
        _judge(ctx, "ZonedDateTime.parse_common_iso", f + "T" + ft + "+00:00[UTC]")
        _judge(ctx, "YearMonth.parse_common_iso", f)
    for f in times:
        _judge(ctx, "Time.parse_common_iso", f)
        _judge(ctx, "LocalDateTime.parse_common_iso", full + "T" + f)
        _judge(ctx, g.ch(("OffsetDateTime.parse_common_iso", "OffsetDateTime.parse_rfc3339")), full + "T" + f + g.ch(("Z", "+01:00")))
        _judge(ctx, g.ch(("Instant.parse_common_iso", "Instant.parse_rfc3339")), full + "T" + f + "Z")
        _judge(ctx, "ZonedDateTime.parse_common_iso", full + "T" + f + "+00:00[UTC]")


def wrong_kind(ctx):
    """other types' text"""
    g = ctx.g
    t = g.ch(TYPES)
    s = _valid(ctx, t)
    for p in PARSERS:
        if g.p(0.5):
            _judge(ctx, p, s)


WORKLOADS = [("mutated", 6, mutated), ("assembled fields", 2, fields), ("zoned offsets", 2, zoned), ("raw", 0.7, raw),
             ("other ISO forms", 0.3, iso_variants), ("other types", 0.6, wrong_kind)]
