"""YearMonth and MonthDay."""
import pickle

from ..vals import *
from .. import cal, core, ops, spec

QUICK, THOROUGH = 4000, 150000
CHUNK = 5
RULE = ("every year-month, every month-day and every date of years 1-9999 is built, read, formatted, parsed, hashed, combined and taken apart "
        "once (years shared between the workers, in the cases of workload 'sweep'), next to random calls with bad fields, texts, "
        "replacements and comparisons; distinct = distinct judged calls and swept objects")


def start(ctx):
    st = ctx.state
    st.years = list(range(1 + ctx.worker, 10000, 8))
    ctx.rng.shuffle(st.years)
    st.pos = 0
    _mds(ctx)


def finish(ctx):
    # whatever part of the sweep the cases did not reach
    while ctx.state.pos < len(ctx.state.years):
        sweep(ctx)


def _bad(ctx, what, call, got, want):
    if got != want or type(got) is not type(want):
        ctx.fail(what, {"call": call, "observed": repr(got), "expected": repr(want)})


def _raises(ctx, what, call, f):
    try:
        r = f()
    except (ValueError, OverflowError):
        return
    except Exception as e:
        ctx.fail(what, {"call": call, "observed": repr(e), "expected": "ValueError"})
    else:
        ctx.fail(what, {"call": call, "observed": repr(r), "expected": "ValueError"})


def _mds(ctx):
    W = ctx.W
    prev = None
    all_ = []
    for mo in range(1, 13):
        for d in range(1, cal.dim(4, mo) + 1):
            m = W.MonthDay(mo, d)
            call = f"MonthDay({mo}, {d})"
            ctx.event("month-day swept")
            ctx.key(("md", mo, d))
            t = f"--{mo:02}-{d:02}"
            _bad(ctx, "MonthDay fields", call, (m.month, m.day), (mo, d))
            _bad(ctx, "MonthDay text", call, (str(m), m.format_common_iso(), repr(m)), (t, t, f"MonthDay({t})"))
            _bad(ctx, "MonthDay parsing", call, W.MonthDay.parse_common_iso(t) == m, True)
            _bad(ctx, "MonthDay.is_leap", call, m.is_leap(), (mo, d) == (2, 29))
            q = pickle.loads(pickle.dumps(m))
            _bad(ctx, "MonthDay pickle", call, (q == m, hash(q) == hash(m), q.month, q.day), (True, True, mo, d))
            if prev is not None:
                _bad(ctx, "MonthDay order", call, (prev < m, prev <= m, m > prev, m >= prev, m == prev, m < prev, m <= prev, m != prev),
                     (True, True, True, True, False, False, False, True))
            _bad(ctx, "MonthDay bounds", call, (W.MonthDay.MIN <= m <= W.MonthDay.MAX), True)
            prev = m
            all_.append(m)
        for d in (0, -1, cal.dim(4, mo) + 1, 32, 99):
            _raises(ctx, "MonthDay out of range", f"MonthDay({mo}, {d})", lambda: W.MonthDay(mo, d))
    for mo in (0, 13, -1, 99):
        _raises(ctx, "MonthDay out of range", f"MonthDay({mo}, 1)", lambda: W.MonthDay(mo, 1))
    _bad(ctx, "MonthDay distinct", "all month-days", len(set(all_)), 366)
    if len({hash(x) for x in all_}) < 300:
        ctx.feat("month-day hashes collide")
    ctx.state.mds = all_


def sweep(ctx):
    st = ctx.state
    W = ctx.W
    D, YM = W.Date, W.YearMonth
    ys = st.years[st.pos:st.pos + CHUNK]
    if not ys:
        return calls(ctx)
    st.pos += CHUNK
    lo, hi = YM.MIN, YM.MAX
    for y in ys:
        leap = cal.dim(y, 2) == 29
        for m in st.mds:
            mo, d = m.month, m.day
            if mo == 2 and d == 29 and not leap:
                _raises(ctx, "MonthDay.in_year", f"{m}.in_year({y})", lambda: m.in_year(y))
                continue
            x = m.in_year(y)
            if (x.year, x.month, x.day) != (y, mo, d) or x.month_day() != m:
                ctx.fail("MonthDay.in_year / Date.month_day", {"call": f"{m}.in_year({y})", "observed": repr(x), "back": repr(x.month_day())})
            b = x.year_month()
            if (b.year, b.month) != (y, mo) or type(x) is not D or x != D(y, mo, d):
                ctx.fail("Date.year_month", {"call": f"{x}.year_month()", "observed": repr(b)})
        ctx.event("date swept", 366)
        for mo in range(1, 13):
            call = f"YearMonth({y}, {mo})"
            v = YM(y, mo)
            ctx.event("year-month swept")
            ctx.key(("ym", y, mo))
            t = f"{y:04}-{mo:02}"
            _bad(ctx, "YearMonth fields", call, (v.year, v.month), (y, mo))
            _bad(ctx, "YearMonth text", call, (str(v), v.format_common_iso(), repr(v)), (t, t, f"YearMonth({t})"))
            p = YM.parse_common_iso(t)
            _bad(ctx, "YearMonth parsing", call, (p == v, p.year, p.month, hash(p) == hash(v)), (True, y, mo, True))
            q = pickle.loads(pickle.dumps(v))
            _bad(ctx, "YearMonth pickle", call, (q == v, q.year, q.month), (True, y, mo))
            n = cal.dim(y, mo)
            for d in (1, n, ctx.rng.randint(1, n)):
                x = v.on_day(d)
                _bad(ctx, "YearMonth.on_day", f"{v}.on_day({d})", (type(x), x.year, x.month, x.day), (D, y, mo, d))
                if x.year_month() != v:
                    ctx.fail("Date.year_month", {"call": f"{x}.year_month()"})
            for d in (0, n + 1):
                _raises(ctx, "YearMonth.on_day", f"{v}.on_day({d})", lambda: v.on_day(d))
            w = YM(y + (mo == 12), mo % 12 + 1) if (y, mo) != (9999, 12) else None
            if w is not None:
                _bad(ctx, "YearMonth order", call, (v < w, v <= w, w > v, w >= v, v == w, w < v, w <= v, v != w),
                     (True, True, True, True, False, False, False, True))
            _bad(ctx, "YearMonth bounds", call, lo <= v <= hi, True)
        _raises(ctx, "YearMonth out of range", f"YearMonth({y}, 0)", lambda: YM(y, 0))
        _raises(ctx, "YearMonth out of range", f"YearMonth({y}, 13)", lambda: YM(y, 13))


YS = (0, 1, 2, 4, 100, 400, 1900, 2000, 2023, 2024, 9998, 9999, 10000, -1, 10**6, 1 << 40)
MS = (0, 1, 2, 2, 2, 11, 12, 13, -1, 100)
DS = (0, 1, 28, 29, 29, 29, 30, 31, 32, -1)
WRONG = (None, "2", 1.5, 2.0, b"1", (1,), 1j)


def calls(ctx):
    g = ctx.g
    # constructors, by position and by name, good and bad
    y, mo, d = g.ch(YS) if g.p(0.5) else g.year(), g.ch(MS) if g.p(0.5) else g.r.randint(1, 12), g.ch(DS) if g.p(0.5) else g.r.randint(1, 31)
    for name, a in (("YearMonth", {"year": y, "month": mo}), ("MonthDay", {"month": mo, "day": d})):
        if g.p(0.05):
            a[g.ch(list(a))] = g.ch(WRONG)
        if g.p(0.05):
            a[g.ch(("year", "day", "hour", "foo"))] = 1
        if g.p(0.03):
            a.pop(g.ch(list(a)))
        k = g.r.randint(0, len(a))
        if g.p(0.5):
            ctx.call(name, **a)
        elif list(a) == (["year", "month"] if name == "YearMonth" else ["month", "day"]):
            ctx.call(name, *list(a.values())[:k], **dict(list(a.items())[k:]))
    m, n = g.ym(), g.md()
    if g.p(0.3):
        n = MMD(2, g.ch((28, 29, 29)))
    ctx.call("YearMonth.on_day", m, g.ch(DS) if g.p(0.8) else g.ch(WRONG))
    ctx.call("MonthDay.in_year", n, g.ch(YS) if g.p(0.8) else g.year() if g.p(0.8) else g.ch(WRONG))
    ctx.call("MonthDay.is_leap", n)
    for v, names, t in ((m, {"year": YS, "month": MS}, "YearMonth"), (n, {"month": MS, "day": DS}, "MonthDay")):
        kw = {k: g.ch(x) for k, x in names.items() if g.p(0.6)}
        if g.p(0.1):
            kw[g.ch(("day", "year", "hour", "foo", "tzinfo"))] = g.ch((1, 2, 4, None))
        if g.p(0.05) and kw:
            kw[g.ch(list(kw))] = g.ch(WRONG)
        ctx.call(t + ".replace", v, **kw)
        ctx.call("str", v)
        s = fmt(v)
        ctx.call(t + ".parse_common_iso", s)
        ctx.call(t + ".parse_common_iso", g.mutate(s))
        ctx.call("pickle", v)
        ctx.call("hash", v)
        o = ops.MAKE[type(v)](g) if g.p(0.5) else type(v)(*g.ch(((v[0], v[1]), (v[0], max(1, v[1] - 1)), (v[0], min(12, v[1] + 1)), (max(1, v[0] - 1), v[1]))))
        if t == "MonthDay" and not cal.valid_date(4, *o):
            o = MMD(o[0], 1)
        for op in ("<", "<=", ">", ">=", "==", "!="):
            ctx.call(op, v, o)
        a, b = ctx.real(v), ctx.real(o)
        if a == b and hash(a) != hash(b):
            ctx.fail("hash of equal values", {"call": f"hash({v}), hash({o})"})
        if g.p(0.2):
            x = ops.any_value(g)
            for op in ("<", "==", "!="):
                ctx.call(op, v, x)
                ctx.call(op, x, v)
    x = g.date()
    ctx.call("Date.year_month", x)
    ctx.call("Date.month_day", x)


WORKLOADS = [("sweep", 1, sweep), ("calls", 9, calls)]
