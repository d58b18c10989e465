"""ISO 8601 durations."""
from fractions import Fraction

from ..vals import *
from .. import cal, core, ops, spec, vals

QUICK, THOROUGH = 26000, 900000
RULE = ("one case = a delta formatted and parsed back (range ends, sub-nanosecond-float-unsafe magnitudes, mixed parts), or a duration "
        "text assembled from designators, orders, signs, fractions and edits; distinct = distinct judged (parser, text) or deltas")
P = ("TimeDelta.parse_common_iso", "DateDelta.parse_common_iso", "DateTimeDelta.parse_common_iso")


def _delta(g):
    k = g.r.random()
    if k < 0.4:
        return g.td()
    if k < 0.6:
        return g.dd()
    return g.dtd()


def _meaning(s):
    """independent reading of a canonical duration: (months, days, ns)"""
    sg = -1 if s[0] == "-" else 1
    date, _, time = s.lstrip("-")[1:].partition("T")
    tot = {"Y": 0, "Mo": 0, "W": 0, "D": 0, "H": 0, "M": 0, "S": Fraction(0)}
    num = ""
    for c in date:
        if c.isdigit():
            num += c
        else:
            tot["Mo" if c == "M" else c] = int(num)
            num = ""
    for c in time:
        if c.isdigit() or c == ".":
            num += c
        else:
            tot[c] = Fraction(num) if c == "S" else int(num)
            num = ""
    ns = tot["H"] * 3600 * S + tot["M"] * 60 * S + tot["S"] * S
    assert ns.denominator == 1 if isinstance(ns, Fraction) else True
    return sg * (12 * tot["Y"] + tot["Mo"]), sg * (7 * tot["W"] + tot["D"]), sg * int(ns)


def round_trip(ctx):
    g = ctx.g
    m = _delta(g)
    n = NAME[type(m)]
    s, _ = ctx.call(n + ".format_common_iso", m)
    ctx.call("str", m)
    ctx.key(m)
    if type(s) is not str:
        return
    want = {MTD: lambda: (0, 0, m.ns), MDD: lambda: (m.months, m.days, 0), MDTD: lambda: tuple(m)}[type(m)]()
    ctx.event("text read independently")
    try:
        got = _meaning(s)
    except Exception as e:
        got = repr(e)
    if got != want:
        ctx.fail("text does not denote the delta", {"call": f"{n}.format_common_iso", "value": repr(m), "text": s, "denotes": repr(got)})
    r, o = core.observe(ctx.W, n + ".parse_common_iso", [s], {})
    ctx.event("parsed back")
    if not same(r, m):
        ctx.fail("does not parse back", {"call": f"{n}.parse_common_iso({s!r})", "value": repr(m), "parsed": repr(r)})
    # every other sign spelling and the more general class
    t = s[1:] if s[0] == "-" else s
    for x in ("+" + t, "-" + t, t):
        ctx.call(n + ".parse_common_iso", x)
        ctx.call("DateTimeDelta.parse_common_iso", x)


def _num(g, frac=False):
    k = g.r.random()
    if k < 0.5:
        s = str(g.ch((0, 1, 2, 9, 10, 11, 12, 13, 23, 24, 25, 59, 60, 61, 99, 100, 365, 366, 999, 1000)))
    elif k < 0.8:
        s = str(abs(g.logint(40)))
    else:
        s = str(g.ch((9999, 119988, 521775, 3652425, 3652424, 3652059, 87831216, 87824160, 87840000, 316192377600, 316168876800, 316192377599,
                      10**8, 10**12, 10**18)) + g.ch((0, 0, 1, -1)))
    if g.p(0.1):
        s = "0" * g.r.randint(1, 4) + s
    if frac and g.p(0.6):
        f = str(abs(g.logint(30))).zfill(g.r.randint(1, 9))
        s += g.ch((".", ".", ".", ".", ",")) + (f[:9] if g.p(0.9) else f + "0" * g.r.randint(1, 8))
    return s


def assembled(ctx):
    g = ctx.g
    d = [u for u in "YMWD" if g.p(0.4)]
    t = [u for u in "HMS" if g.p(0.5)]
    if g.p(0.06):
        g.r.shuffle(d)
        g.r.shuffle(t)
    if g.p(0.04) and t:
        t.append(g.ch(t))
    s = g.ch(("", "", "", "-", "-", "+", "--", "+-", "\u2212"[:int(g.p(0.2))])) + g.ch(("P",) * 20 + ("p", "", "PP"))
    s += "".join(_num(g, g.p(0.02)) + u for u in d)
    if t or g.p(0.1):
        s += g.ch(("T",) * 20 + ("t", "", "TT"))
        s += "".join(_num(g, u == "S" or g.p(0.02)) + u for u in t)
    if g.p(0.05):
        s = s.lower()
    for p in P:
        ctx.call(p, s)


def signs_inside(ctx):
    g = ctx.g
    m = _delta(g)
    s = vals.fmt(m)
    i = [k for k, c in enumerate(s) if c.isdigit() and (k == 0 or not s[k - 1].isdigit())]
    if i:
        k = g.ch(i)
        s = s[:k] + g.ch("+- ") + s[k:]
    for p in P:
        ctx.call(p, s)


def mutated(ctx):
    g = ctx.g
    s = g.mutate(vals.fmt(_delta(g)))
    for p in P:
        ctx.call(p, s)


def results(ctx):
    """text of deltas that come out of arithmetic"""
    g = ctx.g
    a, b = _delta(g), _delta(g)
    got, _ = ctx.call(g.ch("+-"), a, b) if g.p(0.7) else ctx.call("*", a, g.ch((-1, 2, 3, 7, 0)))
    if type(got) in (MTD, MDD, MDTD) and ctx.last is not None:
        s = ctx.last.format_common_iso()
        ctx.event("result formatted")
        if s != vals.fmt(got):
            ctx.fail("text of a result", {"call": repr((a, b)), "value": repr(got), "text": s, "expected": vals.fmt(got)})
        r, _ = core.observe(ctx.W, NAME[type(got)] + ".parse_common_iso", [s], {})
        if not same(r, got):
            ctx.fail("text of a result does not parse back", {"call": repr((a, b)), "text": s, "parsed": repr(r)})


WORKLOADS = [("round trip", 4, round_trip), ("assembled", 4, assembled), ("inner signs", 0.4, signs_inside), ("mutated", 2, mutated),
             ("results", 1, results)]
