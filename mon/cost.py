"""Part of C31: processor time and executed lines of calls on repetitive texts and large numbers."""
import time

from .vals import *
from . import cal, core, fault, ops, spec, texts, vals

LIMIT, RETRY, LINES, PER_CHAR = 0.25, 3, 30_000, 3
UNITS = ("0", "1", "9", "00", " ", "\t", "\n", "-", "+", ":", ".", ",", "/", "T", "Z", "P", "PT", "1Y", "1M", "1D", "1W", "1H", "1S", "0.", "0.1", "[", "]", "[]", "a", "aA", "A/", "(", ")", "()", "(a",
         "Mon", "Mon, ", "Jan", " GMT", "GMT", "é", "\u0661", "\ud800", "\0", "_", "%", "%%", "+0", "-0", "+01:00", ":00", "Europe/Amsterdam", ".5", "\\", "(\\", "\"", "''")
TAIL = ("", "", "x", "\n", " ", "Z", "]", "S", "\0", "!", "D", "+", "é")
SIZES = (25, 40, 300, 3000, 20000)


def start(ctx):
    st = ctx.state
    st.fault = fault.get()
    st.each2 = ops.turns(ctx)
    st.pos2 = 0
    st.slowest, st.most = 0.0, 0


def timed(f):
    t = time.thread_time()
    try:
        f()
    except Exception:
        pass
    return time.thread_time() - t


def prompt(ctx, what, f, size=0, lines=False):
    st = ctx.state
    t = timed(f)
    n = 0
    while t > LIMIT and n < RETRY:
        n += 1
        t = min(t, timed(f))
    ctx.specified += 1
    if t > LIMIT:
        ctx.fail("a call takes long", {"call": what()[:500], "seconds of processor time": round(t, 2), "length of the text": size})
    st.slowest = max(st.slowest, t)
    if lines:
        n = st.fault.run(f)[1]
        ctx.feat("calls whose lines were counted")
        st.most = max(st.most, n)
        if n > LINES + PER_CHAR * size:
            ctx.fail("a call executes too many lines", {"call": what()[:500], "lines": n, "length of the text": size})
    ctx.feat("over 1 ms" if t > 1e-3 else "over 0.1 ms" if t > 1e-4 else "under 0.1 ms")


def pumped(g, name, sizes=SIZES):
    s = texts.text(g, name) if not name.endswith("strptime") else texts.strptime(g)[1][0]
    n = g.ch(sizes)
    k = g.r.random()
    i = g.r.randint(0, len(s))
    d = [j for j in range(len(s)) if s[j].isdigit()]
    if d and g.p(0.2):      # the digits of a number
        i = g.ch(d)
        return s[:i] + g.ch(("0", "0", "1", "9", "01")) * n + s[i:] + g.ch(("", "", "", "x"))
    if k < 0.35 and s:
        j = g.r.randint(i, min(len(s), i + 6))
        p = s[i:j] or s[-1]
        return s[:i] + p * (n // len(p)) + (s[j:] if g.p(0.6) else "") + g.ch(TAIL)
    u = g.ch(UNITS)
    if g.p(0.3):
        u += g.ch(UNITS)
    mid = u * (n // len(u))
    if k < 0.8:
        return s[:i] + mid + (s[i:] if g.p(0.6) else "") + g.ch(TAIL)
    return g.ch(("", "P", "PT", "-", "+", "2020-01-01T00:00:00", "2020-01-01T00:00:00.", "2020-01-01T00:00:00+02:00[", "Mon, 1 Jan 2020 00:00:00 ", "Mon, ", "2020-", "--", "12:00:00.", "PT0.")) + mid + g.ch(TAIL)


def parsing(ctx):
    g, W = ctx.g, ctx.W
    for _ in range(12):
        name = g.ch(texts.PARSERS + ("strptime",) * 2)
        if name == "strptime":
            name, a, kw = texts.strptime(g)
            a = (pumped(g, name), a[1]) if g.p(0.8) else (a[0], a[1] + g.ch(("%%", " ", "%d", "x", "%Z")) * g.ch((30, 3000)))
            size = max(len(a[0]), len(a[1]))
        else:
            a, kw = (pumped(g, name),), {}
            size = len(a[0])
        ctx.event(name)
        ctx.key((name, a))
        ctx.feat("texts of over 10,000 characters" if size > 10000 else "shorter texts")
        prompt(ctx, lambda: f"{name}({a[0][:60]!r}... ({len(a[0])} characters, ends in {a[0][-12:]!r}))" + (f", format {a[1][:50]!r}" if a[1:] else ""),
               lambda: core.invoke(W, name, a, kw), size, lines=g.p(0.2))


def names(ctx):
    """long timezone names, units, modes and ISO texts in arguments"""
    g, W = ctx.g, ctx.W
    for _ in range(6):
        s = pumped(g, "ZonedDateTime.parse_common_iso") if g.p(0.3) else g.ch(UNITS) * g.ch(SIZES[:4]) + g.ch(TAIL)
        m = ops.any_value(g)
        c = ops.on(g, m)
        a, kw = list(c[1]), dict(c[2])
        slots = [i for i in range(1, len(a)) if type(a[i]) is str] + [k for k in kw if type(kw[k]) is str]
        if not slots:
            c = "Instant.to_tz", (g.instant(), s), {}
            a, kw = list(c[1]), {}
        else:
            x = g.ch(slots)
            if type(x) is int:
                a[x] = s
            else:
                kw[x] = s
        ctx.event("long name " + c[0])
        _one(ctx, (c[0], tuple(a), kw), len(s))


BIG = (10**9, 10**12, 10**15, 10**18, 1 << 62, 1 << 63, (1 << 63) - 1, 1 << 64, 1 << 100, 10**30, 10**300, 10**4000, 1 << 20000, 1e9, 1e15, 1e18, 1e300, 1.7976931348623157e308, float("inf"),
       float("nan"), 5e-324, 1e-9, 999_999_999, 3_652_058, 119_987, 87_649_415, 315_537_897_598, 86_400, 9999, 1_000_000)


def numbers(ctx):
    g, st, W = ctx.g, ctx.state, ctx.W
    for _ in range(20):
        c = ops.call_of(g, st.each2[st.pos2 % len(st.each2)])
        st.pos2 += 1
        a, kw = list(c[1]), dict(c[2])
        slots = [i for i in range(len(a)) if type(a[i]) in (int, float)] + [k for k in kw if type(kw[k]) in (int, float)]
        for x in slots:
            if g.p(0.6):
                v = g.ch(BIG) * g.ch((1, -1)) + g.ch((0, 0, 1, -1))
                if type(x) is int:
                    a[x] = v
                else:
                    kw[x] = v
        ctx.event("number " + c[0])
        _one(ctx, (c[0], tuple(a), kw), 0)


EXT = (MDate(0), MDate(cal.MAX_DAY), MInstant(0), MInstant(cal.MAX_NS), MLocal(0), MLocal(cal.MAX_NS), MTD(cal.MAX_DELTA_NS), MTD(-cal.MAX_DELTA_NS),
       MDD(cal.MAX_DELTA_MONTHS, 0), MDD(-cal.MAX_DELTA_MONTHS, 0), MDD(0, cal.MAX_DELTA_DAYS), MDD(0, -cal.MAX_DELTA_DAYS), MDTD(cal.MAX_DELTA_MONTHS, 0, 0),
       MDTD(0, cal.MAX_DELTA_DAYS, 0), MDTD(0, 0, cal.MAX_DELTA_NS), MYM(1, 1), MYM(9999, 12), MTime(0), MTime(cal.DAY_NS - 1))


def extremes(ctx):
    """the largest values there are, as receivers and as arguments"""
    g, W = ctx.g, ctx.W
    for _ in range(20):
        m = g.ch(EXT)
        c = ops.on(g, m)
        a = list(c[1])
        for i in range(1, len(a)):
            if type(a[i]) in NAME and g.p(0.7):
                a[i] = g.ch([x for x in EXT if type(x) is type(a[i])] or [a[i]])
        kw = {k: (g.ch([x for x in EXT if type(x) is type(v)] or [v]) if type(v) in NAME else v) for k, v in c[2].items()}
        if g.p(0.35):
            c, a = (g.ch(("+", "-", "*", "//", "%", "==", "<")), 0), [m, g.ch(EXT + (2, -1, 10**18, 0.5))]
            if g.p(0.3):
                a.reverse()
            kw = {}
        ctx.event("extreme " + c[0])
        _one(ctx, (c[0], tuple(a), kw), 0)


def _one(ctx, c, size):
    W = ctx.W
    try:
        ra = [vals.make(W, x) if type(x) in NAME else x for x in c[1]]
        rk = {k: vals.make(W, v) if type(v) in NAME else v for k, v in c[2].items()}
    except Exception:
        return
    ctx.key((c[0], repr(c[1])[:3000] if size else _k(c) if not any(type(x) is int and abs(x) > 10**4000 for x in [*c[1], *c[2].values()]) else c[0]))
    prompt(ctx, lambda: _show(c), lambda: core.invoke(W, c[0], ra, rk), size, lines=ctx.g.p(0.35))


def _k(c):
    from .checks import c29
    return c29._k(c)


def _show(c):
    f = lambda x: "<a number of %d bits>" % x.bit_length() if type(x) is int and abs(x) > 10**60 else core._show1(x)[:80]
    return f"{c[0]}({', '.join([f(x) for x in c[1]] + [f'{k}={f(v)}' for k, v in c[2].items()])})"


def finish(ctx):
    ctx.feat("slowest call, microseconds (sum over workers)", int(ctx.state.slowest * 1e6))
    ctx.feat("most lines executed by a call (sum over workers)", ctx.state.most)
