"""patch_current_time and the real clock."""
import datetime as dt
import sys
import time

from ..vals import *
from .. import fault, cal, core, ops, spec, vals

QUICK, THOROUGH = 1500, 60000
RULE = ("one case = one use of patch_current_time (or none) with a sequence of shift() calls, clock advances, now() readings of every "
        "class, failing shifts, exceptions and repeated scopes; half of the workers run a copy of the package on a scripted clock "
        "(exact judgement of ticking), half on the real one (bracketed by readings of it); distinct = distinct judged readings")
ASSUMES = ["the scripted clock replaces time.time_ns, time.time, time.clock_gettime(_ns) before the package is imported"]
SLACK = 3_000_000      # ns, real clock with keep_ticking


class Clock:
    def __init__(self):
        self.t = 1_700_000_000_123_456_789
        self.read = 0


def start(ctx):
    st = ctx.state
    st.fake = ctx.worker % 2 == 0
    st.clock = Clock()
    st.sub_us = st.readings = 0
    if st.fake:
        c = st.clock

        def time_ns():
            c.read += 1
            return c.t
        real_get, real_get_ns = time.clock_gettime, time.clock_gettime_ns

        def clock_gettime_ns(k):
            return time_ns() if k == time.CLOCK_REALTIME else real_get_ns(k)

        def clock_gettime(k):
            return time_ns() / 1e9 if k == time.CLOCK_REALTIME else real_get(k)
        st.mono = time.monotonic_ns
        time.time_ns, time.time = time_ns, lambda: time_ns() / 1e9
        time.clock_gettime, time.clock_gettime_ns = clock_gettime, clock_gettime_ns
        for k in [k for k in sys.modules if k == "whenever" or k.startswith("whenever.")]:
            del sys.modules[k]
        import whenever
        vals.setup(whenever)
        ctx.W = core._W = whenever
        ctx.build = core.Builder(whenever)
        # does this package read the scripted clock at all?
        n = c.read
        whenever.Instant.now()
        st.fake_works = c.read > n
    else:
        st.fake_works = False


def finish(ctx):
    st = ctx.state
    if not st.fake and st.readings > 300 and st.clock_has_sub_us and not st.sub_us:
        ctx.fail("now() has no sub-microsecond digits", {"call": "now()", "readings": st.readings})


# ---- reading every 'now'
READERS = ("Instant.now", "ZonedDateTime.now", "OffsetDateTime.now", "SystemDateTime.now", "Date.today_in_system_tz", "Instant.now (kept)")


def _read(ctx, which, tz, off):
    W = ctx.W
    if which == "Instant.now":
        return W.Instant.now()
    if which == "Instant.now (kept)":
        return ctx.state.kept()
    if which == "ZonedDateTime.now":
        return W.ZonedDateTime.now(tz)
    if which == "OffsetDateTime.now":
        return W.OffsetDateTime.now(W.TimeDelta(seconds=off) if off % 3600 else off // 3600, ignore_dst=True)
    if which == "SystemDateTime.now":
        return W.SystemDateTime.now()
    return W.Date.today_in_system_tz()


def _want(which, u, tz, off):
    """expected reading at moment u (None if it has no such local time)"""
    try:
        if which.startswith("Instant"):
            return spec.mk_instant(u)
        if which == "ZonedDateTime.now":
            return spec.zat(tz, u)
        if which == "OffsetDateTime.now":
            return spec.mk_offset(u + off * S, off)
        r = spec.sat(u)
        return r if which == "SystemDateTime.now" else MDate(r.l // cal.DAY_NS)
    except spec.Bad as e:
        return e.exp


def _expect_at(ctx, u, why):
    """every reading must be exactly the moment u"""
    g = ctx.g
    for which in g.r.sample(READERS, g.r.randint(1, 3)):
        tz, off = g.tz(), g.off()
        want = _want(which, u, tz, off)
        if want is spec.SKIP:
            continue
        try:
            got = snap(_read(ctx, which, tz, off))
        except Malformed as e:
            got = spec.Exc(e)
        except Exception as e:
            got = spec.Exc(e)
        ctx.event(which)
        ctx.key((which, u, tz, off))
        if not spec.matches(want, got):
            ctx.fail(which, {"call": which, "why": why, "tz": tz, "off": off, "observed": repr(got), "expected": repr(want),
                             "system_tz": spec.Sys.name})


def _clock_sane(t0, t1, m0, m1):
    """the real clock was not stepped meanwhile"""
    return abs((t1 - t0) - (m1 - m0)) < 1_000_000


def _expect_real(ctx, why):
    """every reading lies between two readings of the clock"""
    st = ctx.state
    g = ctx.g
    if st.fake:
        if st.fake_works:
            _expect_at(ctx, st.clock.t + cal.EPOCH_NS, why)
        return
    for which in g.r.sample(READERS, g.r.randint(1, 4)):
        tz, off = g.tz(), g.off()
        bad = None
        for attempt in range(3):
            m0, t0 = time.monotonic_ns(), time.time_ns()
            o = _read(ctx, which, tz, off)
            t1, m1 = time.time_ns(), time.monotonic_ns()
            got = snap(o)
            ctx.event(which + " on the real clock")
            lo, hi = t0 + cal.EPOCH_NS, t1 + cal.EPOCH_NS
            if type(got) is MDate:
                ok = got in (_want(which, lo, tz, off), _want(which, hi, tz, off))
            else:
                u = utc(got)
                ok = lo <= u <= hi and same(got, _want(which, u, tz, off))
                st.readings += 1
                st.sub_us += u % 1000 != 0
                st.clock_has_sub_us = getattr(st, "clock_has_sub_us", False) or t0 % 1000 != 0
            ctx.key((which, tz, off))
            if ok:
                bad = None
                break
            bad = {"call": which, "why": why, "tz": tz, "off": off, "clock": [t0, t1], "observed": repr(got),
                   "moment": None if type(got) is MDate else utc(got) - cal.EPOCH_NS}
            if not _clock_sane(t0, t1, m0, m1):
                bad = None
        if bad:
            ctx.fail(which + " on the real clock", bad)


def _stdlib_unaffected(ctx):
    st = ctx.state
    ctx.event("standard library clock")
    if st.fake:
        ok = time.time_ns() == st.clock.t
    else:
        m0, t0 = time.monotonic_ns(), time.time_ns()
        d = dt.datetime.now(dt.timezone.utc)
        t1, m1 = time.time_ns(), time.monotonic_ns()
        us = (d - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)) // dt.timedelta(microseconds=1)
        ok = t0 // 1000 - 1 <= us <= t1 // 1000 + 1 or not _clock_sane(t0, t1, m0, m1)
        ok = ok and t0 > 1_600_000_000 * S and time.time() * 1e9 > t0 - 1e9
    if not ok:
        ctx.fail("the standard library's clock is affected", {"call": "patch_current_time"})


def _advance(ctx, small=True):
    """let time pass"""
    g = ctx.g
    st = ctx.state
    if st.fake:
        st.clock.t += g.ch((1, 999, 1000, 10**6, S, 61 * S, 3600 * S, 86400 * S, abs(g.logint(45))))
    elif g.p(0.1):
        time.sleep(g.ch((0, 0.0001, 0.001)))


class Pin:
    """the model of a patch in force"""

    def __init__(self, ctx, m, ticking):
        self.ctx, self.m, self.ticking = ctx, m, ticking
        st = ctx.state
        self.at = st.clock.t if st.fake else None    # exact
        self.lost = 0     # time spent in shift() on the real clock

    def current(self):
        """(model value now, exact) or None when it leaves the range"""
        if not self.ticking:
            return self.m
        d = self.ctx.state.clock.t - self.at
        return self.advanced(d)

    def advanced(self, d):
        u = utc(self.m) + d
        t = type(self.m)
        if t is MInstant:
            return spec.mk_instant(u)
        if t is MOffset:
            return spec.mk_offset(u + self.m.off * S, self.m.off)
        if t is MZoned:
            return spec.zat(self.m.tz, u)
        return spec.sat(u)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def _shift_args(g, m):
    t = type(m)
    if g.p(0.03):
        kw = {g.ch(("years", "hours", "days", "bogus")): g.ch((10**6, "x", None, 10**12))}
        a = ()
    elif t is MInstant or g.p(0.5):
        a, kw = (), g.split_exact(g.dns(False))
    else:
        a, kw = ops._shift(g, m)
        kw = dict(kw)
        kw.pop("ignore_dst", None)
        if kw.get("disambiguate") == "raise" and g.p(0.5):
            kw.pop("disambiguate")
    if t is MOffset and g.p(0.93):
        kw["ignore_dst"] = True
    return a, kw


def _body(ctx, p, pin, exact):
    """inside the scope; exact: the current moment is known exactly"""
    g = ctx.g
    st = ctx.state
    n = g.r.randint(1, 6) if g.p(0.97) else g.r.randint(200, 1300)
    ctx.feat("long shift sequences", int(n > 100))
    long = n > 100
    for i in range(n):
        if not long or i % 100 == 0:
            _observe_pin(ctx, pin)
            _stdlib_unaffected(ctx)
        _advance(ctx)
        if not long or i % 100 == 0:
            _observe_pin(ctx, pin)
        if g.p(0.8) or long:
            _shift(ctx, p, pin, long)
    _observe_pin(ctx, pin)


def _shift(ctx, p, pin, long=False):
    g = ctx.g
    st = ctx.state
    a, kw = _shift_args(g, pin.m)
    if long:
        a, kw = (), {"nanoseconds": g.ch((1, -1, 7))}
        if type(pin.m) is MOffset:
            kw["ignore_dst"] = True
    ra, rk = [ctx.real(x) for x in a], {k: ctx.real(v) for k, v in kw.items()}
    name = NAME[type(pin.m)] + ".add"
    ctx.event("shift")
    ctx.key((name, a, tuple(sorted(kw.items(), key=lambda x: x[0]))))
    if not pin.ticking or st.fake:
        try:
            cur = pin.current()
        except spec.Bad:
            cur = None
        exp = spec.expect(name, (cur,) + tuple(a), dict(kw)) if cur is not None else spec.ANYEXC
        if exp is spec.SKIP or exp is not None and type(exp) in (spec.AnyOf, spec.Pred, spec.Near) or (not st.fake_works and pin.ticking):
            ctx.feat("shift not judged")
            return
        if spec.EXT and type(exp) is spec.Raises:
            exp = spec.ANYEXC       # several faults at once
        try:
            p.shift(*ra, **rk)
            err = None
        except Exception as e:
            err = spec.Exc(e)
        d = {"call": core.show("shift", a, kw), "pin": repr(pin.m), "ticking": pin.ticking, "expected": repr(exp), "observed": repr(err)}
        if type(exp) is spec.Raises:
            if err is None or not spec.matches(exp, err):
                ctx.fail("shift", d)
            ctx.feat("failing shift")
            return          # a failed shift leaves the patch as it was
        if err is not None:
            ctx.fail("shift", d)
        pin.m, pin.at = exp, st.clock.t
        return
    # ticking on the real clock: exact shifts of the moment, judged within the bracket
    kw = g.split_exact(g.dns(False))
    try:
        ns = spec.exact_ns(kw)
    except spec.Bad:
        return
    ns = ns[0] if type(ns) is tuple else ns
    margin = 86400 * S * 3
    if type(ns) is not int or not margin < utc(pin.m) + ns < cal.MAX_NS - margin or not margin < utc(pin.m) < cal.MAX_NS - margin:
        return
    if type(pin.m) is MOffset:
        kw["ignore_dst"] = True
    t0 = time.time_ns()
    p.shift(**kw)
    pin.lost += time.time_ns() - t0     # the shift itself takes time, which may or may not count
    pin.m = pin.advanced(ns)


def _observe_pin(ctx, pin):
    st = ctx.state
    if not pin.ticking:
        _expect_at(ctx, utc(pin.m), f"frozen at {pin.m}")
    elif st.fake:
        if st.fake_works:
            _expect_at(ctx, utc(pin.m) + st.clock.t - pin.at, f"ticking from {pin.m}")
    else:
        if not 10**15 < utc(pin.m) < cal.MAX_NS - 10**15:
            return
        t0 = time.time_ns()
        u = utc(snap(ctx.W.Instant.now()))
        t1 = time.time_ns()
        m1 = time.monotonic_ns()
        el_lo, el_hi = t0 - pin.lo_t1, t1 - pin.lo_t0
        ctx.event("ticking on the real clock")
        ctx.key(("tick", pin.m))
        got = u - utc(pin.m)
        sane = abs((t1 - pin.lo_t0) - (m1 - pin.mono0)) < 1_000_000
        if not el_lo - SLACK - pin.lost <= got <= el_hi + SLACK and sane:
            ctx.fail("ticking", {"call": "Instant.now", "elapsed by the clock": [el_lo, el_hi], "elapsed by now()": got, "pin": repr(pin.m)})
        if got < pin.last - SLACK - pin.lost and sane:
            ctx.fail("ticking goes backwards", {"call": "Instant.now", "pin": repr(pin.m)})
        pin.last = got


def _pin_value(g):
    m = g.exact()
    while type(m) is MSystem and not (spec.sat(utc(m)) == m if 2 * cal.DAY_NS < utc(m) < cal.MAX_NS - 2 * cal.DAY_NS else False):
        m = g.system(0) if g.p(0.8) else g.zoned()
    return m


def scope(ctx):
    g = ctx.g
    st = ctx.state
    W = ctx.W
    st.kept = W.Instant.now
    m = _pin_value(g)
    # the extension ticks by the operating system's clock, which can't be scripted
    ticking = g.p(0.5) and not (spec.EXT and st.fake)
    o = ctx.real(m)
    how = g.ch(("with", "with", "with", "decorator", "manual", "error", "base error"))
    ctx.feat(f"{how}, {'ticking' if ticking else 'frozen'}, {NAME[type(m)]}")
    _expect_real(ctx, "before the scope")
    _advance(ctx)

    def enter():
        pin = Pin(ctx, m, ticking)
        pin.last = -1 << 70
        return pin

    def before():
        before.m0, before.t0 = time.monotonic_ns(), time.time_ns()

    def run(p):
        pin = enter()
        pin.lo_t0, pin.lo_t1, pin.mono0 = before.t0, time.time_ns(), before.m0
        _body(ctx, p, pin, True)
    if how == "with":
        before()
        with W.patch_current_time(o, keep_ticking=ticking) as p:
            run(p)
    elif how == "manual":
        cm = W.patch_current_time(o, keep_ticking=ticking)
        before()
        p = cm.__enter__()
        try:
            run(p)
        finally:
            cm.__exit__(None, None, None)
    elif how == "decorator":
        calls = []

        @W.patch_current_time(o, keep_ticking=ticking)
        def f(x, k=0):
            pin = enter()
            pin.lo_t0, pin.lo_t1, pin.mono0 = before.t0, time.time_ns(), before.m0
            _observe_pin(ctx, pin)
            _advance(ctx)
            _observe_pin(ctx, pin)
            calls.append((x, k))
            if x == 13:
                raise Boom
            return x + k
        for x in (1, 13, 2):
            before()
            try:
                r = f(x, k=5)
                if r != x + 5:
                    ctx.fail("decorated function's result", {"call": "decorator", "observed": repr(r)})
            except Boom:
                if x != 13:
                    ctx.fail("decorated function raises", {"call": "decorator"})
            _expect_real(ctx, "between calls of a decorated function")
            _advance(ctx)
        if calls != [(1, 5), (13, 5), (2, 5)]:
            ctx.fail("decorated function's calls", {"call": "decorator", "observed": repr(calls)})
    else:
        E = Boom if how == "error" else BaseBoom
        try:
            before()
            with W.patch_current_time(o, keep_ticking=ticking) as p:
                run(p)
                if g.p(0.5):
                    # cut short inside the scope: the scope ends like any other
                    for _ in range(g.ch((1, 3, 12))):
                        f = g.ch((lambda: p.shift(hours=1), lambda: p.shift(hours=-1), W.Instant.now, W.SystemDateTime.now, lambda: W.ZonedDateTime.now("Europe/Paris")))
                        if fault.get().run(f, g.r.randrange(g.ch((4, 12, 40))))[0] == "interrupted":
                            ctx.event("interrupted inside a scope")
                raise E
        except E:
            ctx.event("left by an exception")
        else:
            ctx.fail("the exception is swallowed", {"call": "with patch_current_time(...)"})
    _expect_real(ctx, "after the scope")
    _stdlib_unaffected(ctx)
    _advance(ctx)
    _expect_real(ctx, "later after the scope")


def no_patch(ctx):
    g = ctx.g
    ctx.state.kept = ctx.W.Instant.now
    if ctx.state.fake:
        # any moment the clock may show, sub-microseconds included
        t = ctx.state.clock.t
        ctx.state.clock.t = g.utc() - cal.EPOCH_NS if g.p(0.8) else g.ch((0, -1, 999, 1, -999, S - 1, -S, 2**31 * S, 2**32 * S - 1))
        ctx.feat("scripted clock before 1970", int(ctx.state.clock.t < 0))
        _expect_real(ctx, "unpatched, scripted clock")
        ctx.state.clock.t = t
    else:
        _expect_real(ctx, "unpatched")


def wrong_arguments(ctx):
    g = ctx.g
    W = ctx.W
    ctx.state.kept = W.Instant.now
    bad = g.ch((lambda: W.patch_current_time(ctx.real(g.ldt()), keep_ticking=False),
                lambda: W.patch_current_time(ctx.real(g.date()), keep_ticking=True),
                lambda: W.patch_current_time(g.ch((None, 0, 1.5, "2020-01-01T00:00:00Z", dt.datetime.now())), keep_ticking=False)))
    ctx.event("wrong argument")
    try:
        cm = bad()
        cm.__enter__()
    except Exception:
        pass
    else:
        cm.__exit__(None, None, None)
        ctx.fail("a wrong argument is accepted", {"call": "patch_current_time"})
    _expect_real(ctx, "after a refused patch")


WORKLOADS = [("scopes", 5, scope), ("no patch", 3, no_patch), ("wrong arguments", 0.3, wrong_arguments)]
