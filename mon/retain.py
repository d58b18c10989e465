"""Part of C31: what interrupts, subclasses, unknown zones, pickles leave behind."""
import gc
import re
import struct
import sys
import zoneinfo

from .vals import *
from . import core, fault, ops, spec, texts, vals

WARM, BATCH, BATCHES, TOLERATED = 150, 900, 9, 0.12     # (a cache of more than 8,000 entries counts as unbounded)


def _c29():
    from .checks import c29
    return c29


def start(ctx):
    st = ctx.state
    st.each = ops.each()
    core.case_rng(0, "C31", 0, "order").shuffle(st.each)
    st.fault = fault.get()
    st.pos = 0
    # (the standard library's loading of timezones leaves some strings behind, fewer each time around)
    for _ in range(4):
        for k in spec.KEYS:
            for f in (lambda: zoneinfo.ZoneInfo(k), lambda: ctx.W.Instant.from_timestamp(0).to_tz(k), lambda: ctx.W.ZonedDateTime.now(k)):
                try:
                    f()
                except Exception:
                    pass
        zoneinfo.ZoneInfo.clear_cache()


def blocks():
    zoneinfo.ZoneInfo.clear_cache()      # (its eight latest zones differ in size)
    re.purge()
    struct._clearcache()
    gc.collect()
    return sys.getallocatedblocks()


def _all(W, calls, run):
    """-> lookups of unknown timezones: zoneinfo itself interns (for good, in CPython 3.12) a string for each of them"""
    n = 0
    for c in calls:
        try:
            run(c)
        except Exception as e:
            n += isinstance(e, (LookupError, W.TimeZoneNotFoundError if hasattr(W, "TimeZoneNotFoundError") else LookupError))
    return n


def grow(ctx, what, gen, run):
    """gen() -> a call; run(call) makes it"""
    seen = set()

    def batch(n):
        cs = []
        for _ in range(n):
            c = gen()
            seen.add(hash(_c29()._k(c)))
            cs.append(c)
        return cs
    W = ctx.W
    _all(W, batch(WARM), run)
    hist = []
    for _ in range(BATCHES):
        n0 = len(seen)
        cs = batch(BATCH)
        new = len(seen) - n0
        ctx.event(what, len(cs))
        b0 = blocks()
        unknown = _all(W, cs, run)
        b1 = blocks()
        hist.append((new, unknown, b1 - b0))
        # (with few new calls this late it is not the values that are kept)
        if b1 - b0 <= (15 if new > 150 else 50) + TOLERATED * new + 1.02 * unknown:
            break
    else:
        ctx.fail("memory grows with use", {"call": what, "example": core.show(*cs[-1]), "(distinct calls, unknown timezones, allocated blocks left)": hist})
    ctx.distinct.update(seen)
    ctx.specified += 1
    ctx.feat("stopped growing after %d batch(es)" % len(hist))
    ctx.feat("batches")


def _name(e):
    return " ".join(x if type(x) is str else NAME[x] for x in e)


def operation(ctx):
    g, st, W = ctx.g, ctx.state, ctx.W
    e = st.each[(st.pos * 8 + ctx.worker) % len(st.each)]
    st.pos += 1
    mode = g.ch(("failing", "interrupted", "interrupted", "subclass"))
    make = vals.make
    ctx.feat(mode)

    def args(c):
        return [make(W, a) if type(a) in NAME else a for a in c[1]], {k: make(W, v) if type(v) in NAME else v for k, v in c[2].items()}

    def gen():
        c = ops.call_of(g, e)
        return _c29()._break_call(g, c) if mode == "failing" and g.p(0.85) else c

    def run(c):
        a, k = args(c)
        if mode == "interrupted":
            st.fault.run(lambda: core.invoke(W, c[0], a, k), hash(_c29()._k(c)) % 40)
        else:
            core.invoke(W, c[0], a, k)
    if mode == "subclass":
        def run(c):
            a, k = args(c)

            class T(str):
                pass
            a = [T(x) if type(x) is str else x for x in a]
            k = {n: T(x) if type(x) is str else x for n, x in k.items()}
            core.invoke(W, c[0], a, k)
    grow(ctx, _name(e) + " (" + mode + ")", gen, run)


def other(ctx):
    """what is not a single operation"""
    g, st, W = ctx.g, ctx.state, ctx.W
    k = g.ch(("zone names", "unknown zones", "patches", "mixed", "texts", "pickles", "datetimes", "foreign operands", "system timezones", "now"))
    b = core.Builder(W, cap=1, direct=True)

    def gen():
        return ops.any_call(g) if g.p(0.8) else texts.call(g)

    def run(c):
        b.pool.clear()
        a = [b(x, g.r) for x in c[1]]
        kw = {n: b(x, g.r) for n, x in c[2].items()}
        core.invoke(W, c[0], a, kw)
    if k == "zone names":
        def gen():
            return "Instant.to_tz", (g.instant(), g.ch(spec.KEYS)), {}
    elif k == "unknown zones":
        n = [0]

        def gen():
            n[0] += 1
            z = g.ch(("Europe/X%d", "%d", "No/Such/%d", "../%d", "UTC%d", "America/New_York%d")) % (n[0] + g.r.randint(0, 10**9) * 1000)
            return g.ch((("Instant.to_tz", (g.instant(), z), {}), ("ZonedDateTime", (2020, 1, 1), {"tz": z}), ("ZonedDateTime.now", (z,), {}),
                         ("ZonedDateTime.parse_common_iso", (f"2020-01-01T00:00:00Z[{z}]",), {})))
    elif k == "patches":
        run0 = run

        def run(c):
            with W.patch_current_time(W.Instant.from_timestamp_nanos(hash(_c29()._k(c)) % 10**18), keep_ticking=g.p(0.5)) as p:
                run0(c)
                p.shift(seconds=g.r.randint(0, 10**6))
                W.Instant.now()
    elif k == "texts":
        def gen():
            return texts.call(g)
    elif k == "pickles":
        import pickle

        def gen():
            return "repr", (ops.any_value(g),), {}

        def run(c):
            pickle.loads(pickle.dumps(vals.make(W, c[1][0]), g.r.randint(0, 5)))
    elif k == "datetimes":
        def gen():
            return g.ch((("Instant.py_datetime", (g.instant(),), {}), ("OffsetDateTime.py_datetime", (g.offset(),), {}), ("ZonedDateTime.py_datetime", (g.zoned(),), {}),
                         ("SystemDateTime.py_datetime", (g.system(),), {})))

        def run(c):
            m = vals.make(W, c[1][0])
            type(m).from_py_datetime(m.py_datetime())
    elif k == "foreign operands":
        ns = g.ch(("==", "<", "+", "-"))

        def gen():
            return ns, (ops.any_value(g), g.r.random()), {}

        def run(c):
            class Foreign:
                pass
            core.invoke(W, c[0], [vals.make(W, c[1][0]), Foreign()], {})
    elif k == "now":
        def gen():
            return g.ch((("Instant.now", (), {}), ("ZonedDateTime.now", (g.tz(),), {}), ("SystemDateTime.now", (), {}), ("OffsetDateTime.now", (g.off() // 3600,), {"ignore_dst": True})))
    elif k == "system timezones":
        def gen():
            return g.ch((("Instant.to_system_tz", (g.instant(),), {}), ("LocalDateTime.assume_system_tz", (MLocal(g.local()),), {"disambiguate": "compatible"}), ("SystemDateTime.now", (), {})))
    grow(ctx, k, gen, run)
