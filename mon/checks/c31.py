"""Calls are cheap and leave nothing behind."""
import _strptime
import gc
import re
import struct
import sys
import time
import zoneinfo

from ..vals import *
from .. import cal, core, cost, ops, retain, spec, texts, vals
from . import c29, c34

QUICK, THOROUGH = 210, 17000
QUICK_CAP = 90
RULE = ("one case = either a run of thousands of distinct calls of one operation (or a mix, or a chain in which each result is the next receiver), "
        "or of calls that fail, are cut short by an interrupt, use new subclasses, unknown timezones, "
        "pickles or patched clocks, with the interpreter's live memory blocks counted between batches; or a set of calls on hostile arguments (texts of up to 10^5-10^6 "
        "characters made by repeating parts of valid texts, numbers of thousands of digits, ends of the calendar), with the CPU time of each, and the lines executed by some, measured; "
        "distinct = distinct (operation, kind of argument) measured")
ASSUMES = ["sys.getallocatedblocks() counts what stays alive (caches of zoneinfo, re and _strptime are emptied before each count)",
           "a call of at most 0.4 s CPU on the hostile arguments used counts as cheap; stdlib costs (strptime's own compilation, email.utils) are part of it"]
BATCH = 1200


def start(ctx):
    # this monitor's own lazily loaded tables first
    for k in spec.KEYS:
        spec._zone(k)
        zoneinfo.ZoneInfo(k)        # (fills the standard library's own table of offsets)
    for t in ops.MAKE:
        for _ in range(300):
            ops.MAKE[t](ctx.g)
    ctx.state.links = _links(ctx)
    c34.warmup(ctx.W)
    retain.start(ctx)
    cost.start(ctx)
    gc.collect()
    gc.freeze()
    ctx.state.slow = 0.0
    ctx.state.order = []
    ctx.state.chains = []
    ctx.state.parsers = []


# ------------------------------------------------------------------ what stays
def _blocks():
    zoneinfo.ZoneInfo.clear_cache()
    re.purge()
    _strptime._regex_cache.clear()
    struct._clearcache()        # (formats of the tz database files)
    gc.collect()
    return sys.getallocatedblocks()


def _patched(g):
    return "patch", (g.instant(), g.p(0.5), g.r.randint(1, 10**6)), {}


def _sources():
    """(title, generator of calls)"""
    out = []
    for t, entries in ops.OPS.items():
        for name, f in entries:
            out.append((f"{name} on {NAME[t]}" if "." not in name else name, lambda g, t=t, n=name, f=f: _meth(g, t, n, f)))
        for o in sorted(set(ops.BINOPS)):
            out.append((f"{NAME[t]} {o}", lambda g, t=t, o=o: (o, (m := ops.MAKE[t](g), ops._partner(g, m)), {})))
    for name, f in ops.MAKERS:
        out.append((name, lambda g, n=name, f=f: (n, tuple((r := f(g))[0]), r[1])))
    for n in sorted(set(texts.PARSERS)) + ["LocalDateTime.strptime"]:
        out.append((n + " of texts", lambda g, n=n: texts.call(g, n)))
    out.append(("patch_current_time", _patched))
    return out


def _meth(g, t, n, f):
    m = ops.MAKE[t](g)
    a, kw = f(g, m)
    return n, (m,) + tuple(a), kw


SRC_ = _sources()


def _fresh(W, v):
    """the argument, as an object of its own: were it kept, it would show"""
    t = type(v)
    if t in NAME:
        return vals.make(W, v)
    if t is str:
        return v.encode("utf8", "surrogatepass").decode("utf8", "surrogatepass")
    if t is int:
        return (v ^ 1) ^ 1
    if t is float:
        return v * 1.0
    return v


def _run(W, calls):
    """make the calls, keep nothing; -> (returned, raised)"""
    ok = bad = 0
    for name, a, kw in calls:
        try:
            ra = [_fresh(W, x) for x in a]
            rk = {k: _fresh(W, x) for k, x in kw.items()}
            if name == "patch":
                with W.patch_current_time(ra[0], keep_ticking=ra[1]) as p:
                    p.shift(seconds=ra[2])
                    W.Instant.now()
            else:
                core.invoke(W, name, ra, rk)
            ok += 1
        except Exception:
            bad += 1
    ra = rk = None
    return ok, bad


def _calls(g, gens, n):
    out = []
    while len(out) < n:
        c = g.ch(gens)(g)
        if g.p(0.1):
            c = c29._break_call(g, c) if c[0] != "patch" else c
        out.append(c)
    return out


def _measure(ctx, title, gen, run):
    """gen() -> the calls of a batch, all with new arguments; run(calls) makes them: nothing of it may stay, batch after batch"""
    run(gen())
    grown = []
    for i in range(30):
        calls = gen()
        before = _blocks()
        run(calls)
        grown.append(_blocks() - before)
        ctx.event("memory compared around a batch")
        if i >= 1 and min(grown) <= 40:
            break
    else:
        ctx.fail("memory grows with the number of calls", {"call": title, "blocks retained per batch": grown, "calls per batch": BATCH})
    ctx.feat("growth by a batch (blocks) up to " + str(1 << max(0, grown[-1] - 1).bit_length() if grown[-1] > 0 else 0))


def retained(ctx):
    g = ctx.g
    st = ctx.state
    if not st.order:
        st.order = list(range(ctx.worker, len(SRC_), 8))
        g.r.shuffle(st.order)
    srcs = [SRC_[st.order.pop()]]
    if st.order:
        srcs.append(SRC_[st.order.pop()])
    if g.p(0.1):
        srcs += g.r.sample(SRC_, g.r.randint(1, 30))
    title = ", ".join(s[0] for s in srcs[:8])
    gens = [s[1] for s in srcs]
    ctx.key(("retained", title))

    def run(calls):
        ok, bad = _run(ctx.W, calls)
        ctx.event("call that returned", ok)
        ctx.event("call that raised", bad)
    _measure(ctx, title, lambda: _calls(g, gens, BATCH), run)


def _links(ctx):
    """(type, operation, generator of arguments) of which the result can be the next receiver"""
    out = []
    W, g = ctx.W, ctx.g
    for t in ops.OPS:
        c = [(name, f) for name, f in ops.OPS[t]] + [(o, lambda g, m: ((ops._partner(g, m),), {})) for o in sorted(set(ops.BINOPS))]
        for name, f in c:
            for _ in range(25):
                m = ops.MAKE[t](g)
                try:
                    a, kw = f(g, m)
                    o = vals.make(W, m)
                    if type(core.invoke(W, name, [o] + [_fresh(W, x) for x in a], {k: _fresh(W, x) for k, x in kw.items()})) is type(o):
                        out.append((t, name, f))
                        break
                except Exception:
                    pass
    return out


def chain(ctx):
    """each result is the receiver of the next call, batch after batch"""
    g = ctx.g
    W = ctx.W
    st = ctx.state
    if not st.chains:
        st.chains = list(range(ctx.worker % 8, len(st.links), 8))
        g.r.shuffle(st.chains)
    t, name, f = st.links[st.chains.pop()]
    pick = [(name, f)]
    if g.p(0.25):
        same = [(n, h) for u, n, h in st.links if u is t]
        pick += [g.ch(same) for _ in range(g.r.randint(1, 8))]
    title = "chain of " + ", ".join(NAME[t] + " " + p[0] for p in pick)
    ctx.key(("chain", title))
    state = [None, 0]

    def gen():
        m = ops.MAKE[t](g)
        return m, [(name, *f(g, m)) for name, f in (g.ch(pick) for _ in range(BATCH))]

    def run(x):
        m, calls = x
        linked = 0
        for name, a, kw in calls:
            if state[0] is None:
                state[0], state[1] = vals.make(W, m), 0
            try:
                r = core.invoke(W, name, [state[0]] + [_fresh(W, x) for x in a], {k: _fresh(W, x) for k, x in kw.items()})
                if type(r) is type(state[0]):
                    state[0] = r
                    state[1] = 0
                    linked += 1
            except Exception:
                state[1] += 1
                if state[1] > 200:
                    state[0] = None
        r = None
        ctx.event("link of a chain", linked)
        ctx.event("call in a chain", BATCH)
    _measure(ctx, title, gen, run)


# ------------------------------------------------------------------ what it costs
LIMIT = 0.4




def _cost(W, name, a, kw):
    t0 = time.thread_time()
    try:
        core.invoke(W, name, a, kw)
        r = "returned"
    except Exception as e:
        r = type(e).__name__
    return time.thread_time() - t0, r


def _judge(ctx, kind, name, a, kw, call):
    ctx.last = call
    c, r = _cost(ctx.W, name, a, kw)
    if c > LIMIT:
        c = min(c, *(_cost(ctx.W, name, a, kw)[0] for _ in range(2)))
    ctx.event(f"{kind}: " + ("returned" if r == "returned" else "refused"))
    ctx.key((kind, name, r))
    if c > ctx.state.slow:
        ctx.state.slow = c
    ctx.feat(f"{kind}: CPU time up to {10.0 ** (len(str(int(c * 1e6))) - 6):g} s")
    if c > LIMIT:
        ctx.fail("expensive call: " + name, {"call": call, "CPU seconds": round(c, 2), "outcome": r})


def _long(g, s):
    """a long text from a valid one: a part of it repeated, or something long inside"""
    n = 10 ** g.ch((3, 4, 4, 5))
    if not s:
        s = "0"
    i = g.r.randrange(len(s))
    j = min(len(s), i + g.ch((1, 1, 1, 2, 3, 8, 100)))
    k = g.r.random()
    if k < 0.4:     # the digits of a number
        d = [x for x in range(len(s)) if s[x].isdigit()]
        if d:
            i = g.ch(d)
            j = i + g.ch((0, 0, 1))
        mid = g.ch(("0", "0", "1", "9", "01", "10")) * n
    elif k < 0.7:
        mid = s[i:j] * (n // (j - i) + 1)
    elif k < 0.85:
        mid = g.ch(("0", "9", "1", " ", "\t", "\n", "(", ")", ",", "-", "+", ":", ".", "T", "Z", "[", "]", "\\", '"', "é", "٣", "a", "a/", "%", "P1", "1.", "1,", "()", "Mon,")) * n
    else:
        mid = "".join(g.ch("0123456789-+:.TZ[]/ PYMWDHS,()") for _ in range(min(n, 3000))) * (n // 3000 + 1)
    return g.ch((s[:i] + mid + s[j:], mid + s, s + mid, mid, s[:i] + mid, s[:i] + mid + g.ch(("!", "\n", "x", "")) + s[j:]))


def long_texts(ctx):
    g = ctx.g
    st = ctx.state
    for _ in range(40):
        if not st.parsers:
            st.parsers = sorted(set(texts.PARSERS)) + ["LocalDateTime.strptime"]
            g.r.shuffle(st.parsers)
        n = st.parsers.pop()
        name, a, kw = texts.call(g, n)
        s = _long(g, a[0])
        if name.endswith("parse_rfc2822"):
            s = s[:20000]
        _judge(ctx, "long text", name, [s, *a[1:]], kw, f"{name}(<{len(s)} characters: {s[:60]!r}..{s[-40:]!r}>)")
    # names of timezones
    s = _long(g, g.tz())
    z = vals.make(ctx.W, g.exact())
    _judge(ctx, "long text", type(z).__name__ + ".to_tz", [z, s], {}, f"to_tz(<{len(s)} characters: {s[:60]!r}..>)")


def _huge(g):
    n = 10 ** g.ch((19, 30, 100, 308, 309, 1000, 4299, 4300, 4301, 10000)) + g.r.randint(-10**6, 10**6)
    k = g.r.random()
    return g.ch((-1, 1)) * n if k < 0.7 else g.ch((1e300, -1e300, float("inf"), float("-inf"), float("nan"), 5e-324)) if k < 0.85 else g.ch((-1, 1)) * g.r.randint(1, 10**g.r.randint(1, 30))


def numbers(ctx):
    """any call with its numbers replaced by huge ones, extreme receivers"""
    g = ctx.g
    W = ctx.W
    for _ in range(60):
        name, a, kw = ops.any_call(g)
        a, kw = list(a), dict(kw)
        slots = [i for i, v in enumerate(a) if type(v) in (int, float)] + [k for k, v in kw.items() if type(v) in (int, float)]
        kind = "extreme dates"
        for s in slots:
            if g.p(0.6):
                (a if type(s) is int else kw)[s] = _huge(g)
                kind = "huge number"
        if a and type(a[0]) in _EXTREME and g.p(0.5):
            a[0] = g.ch(_EXTREME[type(a[0])])
        if len(a) > 1 and type(a[1]) in _EXTREME and g.p(0.5):
            a[1] = g.ch(_EXTREME[type(a[1])])
        if name.endswith(("add", "subtract")) and name[:4] != "Time" and g.p(0.4):
            u = g.ch(("years", "months", "weeks", "days") + (() if name[:5] == "Date." else ("hours", "seconds", "nanoseconds")))
            a, kw = a[:1], {k: v for k, v in kw.items() if k == "ignore_dst"}
            kw[u] = _huge(g) if g.p(0.5) else g.ch((-1, 1)) * {"years": 9990, "months": 119000, "weeks": 521000, "days": 3650000, "hours": 87600000, "seconds": 315000000000,
                                                             "nanoseconds": 315 * 10**18}[u]
        try:
            ra = [vals.make(W, x) if type(x) in NAME else x for x in a]
            rk = {k: vals.make(W, x) if type(x) in NAME else x for k, x in kw.items()}
        except Exception:
            continue
        _judge(ctx, kind, name, ra, rk, f"{name}({', '.join([_short(x) for x in a] + [f'{k}={_short(v)}' for k, v in kw.items()])})")


def _short(v):
    if type(v) is int and abs(v) > 10**40:
        return f"<integer of {v.bit_length()} bits>"
    return core._show1(v)


_EXTREME = {MDate: [MDate(cal.days_from_civil(1, 1, 1)), MDate(cal.days_from_civil(9999, 12, 31))],
            MTD: [MTD(cal.MAX_DELTA_NS), MTD(-cal.MAX_DELTA_NS), MTD(1)],
            MInstant: [MInstant(0), MInstant(cal.MAX_NS)], MLocal: [MLocal(0), MLocal(cal.MAX_NS)],
            MOffset: [MOffset(0, 0), MOffset(cal.MAX_NS, 0)],
            MDD: [MDD(119988, 0), MDD(0, 3650000), MDD(-119988, 0), MDD(0, -3650000)]}



def finish(ctx):
    cost.finish(ctx)


WORKLOADS = [("retained", 0.45, retained), ("chain", 0.2, chain), ("long texts", 0.2, long_texts), ("huge numbers", 0.15, numbers),
             ("failing, interrupted, subclasses", 0.35, retain.operation), ("other histories", 0.12, retain.other), ("repetitive texts", 0.2, cost.parsing),
             ("long names", 0.05, cost.names), ("large numbers", 0.1, cost.numbers), ("extremes", 0.1, cost.extremes)]
