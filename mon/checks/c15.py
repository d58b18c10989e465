"""Common ISO text of every value."""
from ..vals import *
from .. import cal, core, ops, spec, vals

QUICK, THOROUGH = 16000, 600000
RULE = ("one case = a value (all types in turn; ambiguous times, historic offsets, every fraction shape, early years): its text is "
        "compared with the canonical text of the specification and with str(), parsed back, and compared with other values' text; "
        "distinct = distinct values")
TYPES = [t for t in NAME if t is not MWeekday]


def _text(ctx, m):
    n = NAME[type(m)]
    got, _ = ctx.call(n + ".format_common_iso", m)
    s2, _ = ctx.call("str", m)
    ctx.call("repr", m)
    if s2 != got:
        ctx.fail("str() differs from format_common_iso()", {"call": n, "value": repr(m), "str": repr(s2), "format": repr(got)})
    return got


def round_trip(ctx):
    g = ctx.g
    seen = ctx.state.__dict__.setdefault("seen", {})
    t = g.ch((MZoned, MZoned, MOffset, MSystem)) if g.p(0.4) else g.ch(TYPES)
    m = ops.MAKE[t](g)
    n = NAME[t]
    s = _text(ctx, m)
    if type(s) is not str:
        return
    ctx.key(m)
    fresh = core.make(ctx.W, m) if g.p(0.5) else ctx.real(m)
    r, o = core.observe(ctx.W, n + ".parse_common_iso", [s], {})
    ctx.event("parsed back")
    if not same(r, m):
        ctx.fail("text does not parse back", {"call": f"{n}.parse_common_iso({s!r})", "value": repr(m), "parsed": repr(r)})
    elif o is not None:
        # the parsed value is indistinguishable from the original
        if not (o == fresh and hash(o) == hash(fresh) and str(o) == s and (t not in EXACT or o.exact_eq(fresh))):
            ctx.fail("parsed value differs", {"call": f"{n}.parse_common_iso({s!r})", "value": repr(m)})
    if len(seen) > 30000:
        seen.clear()
    k = (t, s)
    if k in seen and not same(seen[k], m):
        ctx.fail("two values have the same text", {"call": n, "text": s, "values": [repr(seen[k]), repr(m)]})
    seen[k] = m
    if t is MZoned:
        ctx.feat("zoned in " + spec._zone(m.tz).resolve(m.l // S)[0])
    if t is MSystem:
        ctx.feat("offset of system value " + ("whole minute" if m.off % 60 == 0 else "with seconds"))
    f = vals.fmt(m)
    ctx.feat(f"{n} fraction digits {len(f.partition('.')[2].rstrip('Z').split('+')[0].split('-')[0].split('[')[0].rstrip('S'))}")


def twins(ctx):
    """values that differ by little must have different text"""
    g = ctx.g
    tz = g.tz()
    z = spec._zone(tz)
    l = g.near_local(z, tz)
    if l is None:
        return
    r = z.resolve(l // S)
    if r[0] == "fold":
        a, b = MZoned(l, r[1], tz), MZoned(l, r[2], tz)
        if not all(spec.ok_local(utc(x)) for x in (a, b)):
            return
        ta, tb = _text(ctx, a), _text(ctx, b)
        if ta == tb:
            ctx.fail("both occurrences have the same text", {"call": "ZonedDateTime", "values": [repr(a), repr(b)], "text": ta})
        ctx.call("ZonedDateTime.parse_common_iso", ta)
        ctx.call("ZonedDateTime.parse_common_iso", tb)
        ctx.call("OffsetDateTime.format_common_iso", MOffset(l, r[2]))
        ctx.call("SystemDateTime.format_common_iso", MSystem(l, r[2]))
        ctx.feat("fold pairs")
    else:
        t = g.ch((MOffset, MTime, MLocal, MInstant, MTD, MDTD, MDD, MYM, MMD, MDate))
        m = ops.MAKE[t](g)
        s = list(m)
        i = g.r.randrange(len(s))
        s[i] += g.ch((1, -1, 10, 60, 1000, 3600))
        try:
            m2 = t(*s)
            ctx.real(m2)
        except Exception:
            return
        if _text(ctx, m) == _text(ctx, m2):
            ctx.fail("two values have the same text", {"call": NAME[t], "values": [repr(m), repr(m2)]})


def chains(ctx):
    """text of results of other operations, not only of freshly built values"""
    g = ctx.g
    name, args, kw = ops.any_call(g)
    got, _ = ctx.call(name, *args, **kw)
    if type(got) in TYPES and ctx.last is not None:
        o = ctx.last
        s = o.format_common_iso()
        ctx.event("result formatted")
        if s != vals.fmt(got) or str(o) != s:
            ctx.fail("text of a result", {"call": core.show(name, args, kw), "text": s, "expected": vals.fmt(got)})
        r, _ = core.observe(ctx.W, NAME[type(got)] + ".parse_common_iso", [s], {})
        if not same(r, got):
            ctx.fail("text of a result does not parse back", {"call": core.show(name, args, kw), "text": s, "parsed": repr(r)})


WORKLOADS = [("round trip", 4, round_trip), ("near twins", 1.5, twins), ("results", 2, chains)]
