"""The native extension and the pure-Python implementation are interchangeable.

Two oracles: the workloads (and specification) of the other checks on the compiled extension and, fewer, on the Python
implementation; and calls made on both implementations side by side (this file's WORKLOADS), whose outcomes must agree.
"""
import copy
import pickle
import sys
import time
import types

from ..vals import *
from .. import cal, core, ext, ops, spec, texts, vals
from . import c29

QUICK, THOROUGH = 5000, 150000
RULE = ("one case = one case of another check's workload, run on the compiled extension (some on the Python implementation) and judged by the same "
        "specification; or one call, or a chain of calls, made on both implementations in one process, whose outcomes (fields, text, repr, kind of "
        "error, pickled form) must agree; distinct = distinct judged calls")
ASSUMES = ["the extension is compiled by rustc against /verif/rust (a stand-in for the pyo3-ffi crate, which can't be had here), not by cargo",
           "the reference calendar, tz database reader and specification in /verif/mon are right",
           "the observed executions are representative: exploration, not proof"]
MODS = [f"c{i:02d}" for i in range(1, 32)] + ["c34"]
# modules of which every case is costly get less
SHARE = {"c24": 0.5, "c26": 0.4, "c29": 0.5, "c31": 0.25, "c25": 0.7}
W_IDS = 8


# ------------------------------------------------------------------ side by side
def start(ctx):
    W = ctx.W
    if not spec.EXT:
        raise core.SetupError("the extension is not what is imported")
    from whenever import _pywhenever as P
    mine = dict(vals.SNAP)
    vals.setup(P)
    vals.SNAP.update(mine)
    st = ctx.state
    st.P = P
    st.bw, st.bp = core.Builder(W, direct=True), core.Builder(P, direct=True)
    st.home = spec.Sys.name
    # the public surface
    for n in P.__all__:
        ctx.event("public name")
        if not hasattr(W, n):
            ctx.fail("a public name is missing", {"call": "whenever." + n})
        a, b = getattr(W, n), getattr(P, n)
        if isinstance(b, type):
            pub = [sorted(x for x in dir(c) if not x.startswith("_")) for c in (a, b)]
            if n not in ("RepeatedTime", "SkippedTime", "InvalidOffset", "ImplicitlyIgnoringDST", "Weekday") and pub[0] != pub[1]:
                ctx.fail("public attributes differ", {"call": "whenever." + n, "extension only": sorted(set(pub[0]) - set(pub[1])),
                                                      "python only": sorted(set(pub[1]) - set(pub[0]))})
            if issubclass(b, Exception) and [x.__name__ for x in a.__mro__] != [x.__name__ for x in b.__mro__]:
                ctx.fail("an exception's bases differ", {"call": "whenever." + n})
            if a.__name__ != b.__name__ or a.__module__ != "whenever" and not issubclass(b, Exception):
                ctx.fail("a class's name differs", {"call": "whenever." + n, "extension": f"{a.__module__}.{a.__name__}"})
            for x in pub[1]:
                u, v = getattr(a, x), getattr(b, x)
                if type(v) in vals.SNAP:
                    ctx.event("constant")
                    if not same(snap(u), snap(v)):
                        ctx.fail("a constant differs", {"call": f"whenever.{n}.{x}", "extension": repr(u), "python": repr(v)})
        elif type(b) in vals.SNAP and not same(snap(a), snap(b)):
            ctx.fail("a constant differs", {"call": "whenever." + n, "extension": repr(a), "python": repr(b)})


NO = ("hash", "pickle")         # judged otherwise
KINDS = (("RepeatedTime", "SkippedTime", "InvalidOffset", "ImplicitlyIgnoringDST"),)


def _outcome(got, obj):
    if type(got) is spec.Exc:
        if issubclass(got.type, Malformed) or issubclass(got.type, SystemError):
            return ("malformed", repr(got))
        return ("raises", got.type.__name__ if got.type.__name__ in KINDS[0] else "an exception")
    if type(got) in NAME:
        return ("value", vals.enc(got), str(obj), repr(obj))
    import datetime as dt
    if isinstance(got, (dt.datetime, dt.time)) and got.tzinfo is None and got.fold:
        got = got.replace(fold=0)
    return ("value", repr(got), type(got).__name__)


def _both(ctx, c, broken=False):
    """-> the observed model value, or None"""
    st = ctx.state
    name, a, kw = c
    if name in NO or spec._differs(name, a, kw):
        return None
    try:
        rw = [st.bw(x, ctx.rng) for x in a], {k: st.bw(v, ctx.rng) for k, v in kw.items()}
        rp = [st.bp(x, ctx.rng) for x in a], {k: st.bp(v, ctx.rng) for k, v in kw.items()}
    except core.BuildError:
        ctx.builds_failed += 1
        return None
    g1, o1 = core.observe(ctx.W, name, *rw)
    g2, o2 = core.observe(st.P, name, *rp)
    ctx.event(name)
    ctx.specified += 1
    ctx.key((name, repr(a), repr(kw)))
    r1, r2 = _outcome(g1, o1), _outcome(g2, o2)
    if r1 != r2:
        if r1[0] == r2[0] == "raises":
            e = spec.expect(name, a, dict(kw))
            several = broken or type(e) is not spec.Raises or e is spec.ANYEXC
            if several or spec.matches(e, g1) and spec.matches(e, g2):
                ctx.feat("different errors, either of which will do")
                return None
        if type(g1) is type(g2) is float and abs(g1 - g2) <= 4e-16 * max(abs(g1), abs(g2)):
            ctx.feat("floats equal but for the last bit")
            return None
        if _tolerated(name, a, kw, g1, g2):
            ctx.feat("not specified exactly")
            return None
        ctx.fail("the implementations differ: " + name, {"call": core.show(name, a, kw), "extension": repr(r1), "python": repr(r2),
                                                         "system_tz": spec.Sys.name})
    ctx.feat("both refuse" if r1[0] == "raises" else "both give the same")
    return g1 if type(g1) in NAME else None


def _tolerated(name, a, kw, g1, g2):
    if kw.get("disambiguate", "raise") not in spec.DIS:
        return True         # refused at once, or only where there is something to disambiguate
    xs = [*a, *kw.values()]
    if (type(g1) is spec.Exc) != (type(g2) is spec.Exc):
        # the standard library can't tell the system timezone in the first and last two days of its range
        if any(type(v) is MSystem and not 2 * cal.DAY_NS < v.l < cal.MAX_NS - 2 * cal.DAY_NS for v in xs):
            return True
        # numbers too big for the extension to work with, even if they cancel out
        if type(g1) is spec.Exc and (any(type(v) is int and abs(v) >= 1 << 126 for v in xs) or
                                     sum(k in spec.DUNITS and type(v) is int and abs(v) >= 1 << 31 for k, v in kw.items()) > 1):
            return True
        # the end of the last day is not in range
        if name.endswith(".round") and "day" in xs and type(a[0]) in (MOffset, MZoned, MSystem, MLocal) and a[0].l >= cal.MAX_NS - cal.DAY_NS:
            return True
    e = spec.expect(name, a, dict(kw))
    if type(e) in (spec.Near, spec.AnyOf, spec.Pred) and spec.matches(e, g1) and spec.matches(e, g2):
        return True
    # scaling by floats: accurate to float precision, in either
    fl = any(type(v) is float for v in [*a, *kw.values()])
    if fl and type(g1) is type(g2) is MTD:
        return abs(g1.ns - g2.ns) <= 2 + abs(g1.ns) >> 50
    return e is spec.SKIP and (type(g1) is spec.Exc) != (type(g2) is spec.Exc) and fl


def calls(ctx):
    g = ctx.g
    for _ in range(6):
        k = g.r.random()
        if k < 0.92:
            _both(ctx, ops.any_call(g) if k < 0.7 else texts.call(g))
        else:
            _both(ctx, c29._break_call(g, ops.any_call(g)), True)


def chains(ctx):
    """each step on the result of the one before, on both sides"""
    g = ctx.g
    m = ops.any_value(g)
    for _ in range(g.r.randint(2, 12)):
        r = _both(ctx, ops.on(g, m))
        if r is not None:
            m = r


def pickles(ctx):
    """what one pickles the other understands"""
    g = ctx.g
    st = ctx.state
    m = ops.any_value(g)
    if type(m) is MWeekday:
        return
    try:
        a, b = st.bw(m, ctx.rng), st.bp(m, ctx.rng)
    except core.BuildError:
        return
    ctx.event("pickled form")
    ctx.key(("pickled", m))
    f1, a1 = a.__reduce__()[:2]
    f2, a2 = b.__reduce__()[:2]
    if (f1.__name__, a1) != (f2.__name__, a2):
        # not the same bytes, but is it understood?
        ctx.feat("pickled forms differ")
    try:
        x, y = getattr(ctx.W, f2.__name__)(*a2), getattr(st.P, f1.__name__)(*a1)
    except Exception as e:
        ctx.fail("a pickle is not understood", {"call": f"pickle of {core._show1(m)}", "observed": repr(e), "extension": repr((f1.__name__, a1)), "python": repr((f2.__name__, a2))})
    for z in (x, y):
        if not same(snap(z), m):
            ctx.fail("a pickle is misread", {"call": f"pickle of {core._show1(m)}", "observed": repr(z), "extension": repr((f1.__name__, a1)), "python": repr((f2.__name__, a2))})
    p = g.r.randint(0, pickle.HIGHEST_PROTOCOL)
    if not same(snap(pickle.loads(pickle.dumps(a, p))), m):
        ctx.fail("a pickle is misread", {"call": f"pickle of {core._show1(m)}, protocol {p}"})


def equality(ctx):
    """the same pairs are equal, ordered and of equal hash"""
    g = ctx.g
    st = ctx.state
    a = ops.any_value(g)
    b = c29.vary(g, a) if g.p(0.7) else ops._partner(g, a)
    for o in ("==", "!=", "<", "<=", ">", ">="):
        _both(ctx, (o, (a, b), {}))
    if type(b) in NAME:
        try:
            x, y, u, v = st.bw(a, ctx.rng), st.bw(b, ctx.rng), st.bp(a, ctx.rng), st.bp(b, ctx.rng)
        except core.BuildError:
            return
        ctx.event("hashes")
        if x == y and hash(x) != hash(y) or u == v and hash(u) != hash(v):
            ctx.fail("equal values of different hash", {"call": f"hash({core._show1(a)}) / hash({core._show1(b)})"})


def system(ctx):
    """under other system timezones"""
    g = ctx.g
    core.set_tz(g.tz() if g.p(0.8) else g.ch(("EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "<-03>3", "NZST-12NZDT,M9.5.0,M4.1.0/3")))
    try:
        for _ in range(10):
            m = g.system() if g.p(0.6) else g.ldt() if g.p(0.5) else g.exact()
            c = ops.on(g, m)
            if g.p(0.3):
                c = g.ch((("SystemDateTime", *ops._sc(g)), (NAME[MLocal] + ".assume_system_tz", (g.ldt(),), ops._dis(g)), ("SystemDateTime.from_timestamp", (ops._ts(g, S),), {})))
            _both(ctx, c)
    finally:
        core.set_tz(ctx.state.home)


def wide(ctx):
    """numbers at and beyond the widths of machine integers, scaled or not"""
    g = ctx.g
    for _ in range(4):
        for _ in range(20):
            c = ops.any_call(g) if g.p(0.7) else g.ch(_DELTAS)(g)
            slots = [i for i, x in enumerate(c[1]) if type(x) in (int, float)] + [k for k, x in c[2].items() if type(x) in (int, float)]
            if slots:
                break
        else:
            continue
        name, a, kw = c[0], list(c[1]), dict(c[2])
        for _ in range(g.ch((1, 1, 1, 2))):
            s = g.ch(slots)
            (a if type(s) is int else kw)[s] = g.wrapint()
        _both(ctx, (name, tuple(a), kw), True)


def _add(g, ts, units):
    t = g.ch(ts)
    kw = {u: g.r.randint(0, 3) for u in g.r.sample(units, g.r.randint(1, 2))}
    if t in (MOffset, MLocal) and g.p(0.7):
        kw["ignore_dst"] = True
    return NAME[t] + g.ch((".add", ".subtract")), (ops.MAKE[t](g),), kw


_UN = tuple(spec.UNITS)
_DELTAS = [lambda g: ("fn." + g.ch(_UN + spec.DUNITS), (1,), {}),
           lambda g: ("TimeDelta", (), {u: g.logint(20) for u in g.r.sample(_UN, g.r.randint(1, 3))}),
           lambda g: ("DateDelta", (), {u: g.r.randint(0, 3) for u in g.r.sample(spec.DUNITS, g.r.randint(1, 3))}),
           lambda g: ("DateTimeDelta", (), {u: g.r.randint(0, 3) for u in g.r.sample(spec.DUNITS + _UN, g.r.randint(1, 3))}),
           lambda g: ("*", (g.delta(), 1), {}),
           lambda g: _add(g, (MInstant, MZoned, MOffset, MLocal, MSystem), _UN),
           lambda g: _add(g, (MDate, MLocal, MZoned, MOffset, MSystem), spec.DUNITS),
           lambda g: ("Instant.from_timestamp" + g.ch(("", "_millis", "_nanos")), (1,), {})]


WORKLOADS = [("calls", 5, calls), ("wide integers", 1, wide), ("chains", 3, chains), ("pickles", 1, pickles), ("equality", 1.5, equality), ("system timezones", 1, system)]


# ------------------------------------------------------------------ running
def _job(m, w, seed, tier, frac):
    mod = sys.modules.get("mon.checks." + m) or __import__("mon.checks." + m, fromlist=["x"])
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    return {"mod": m, "w": w, "seed": seed, "n": max(20, int(n * frac * SHARE.get(m, 1)))}


def run(tier, seed):
    t = ext.Tally("C32", tier, seed)
    quick = tier == "quick"
    end = time.monotonic() + (240 if quick else 760)
    extra = {}
    srcs = []
    for v in ("release",) if quick else ("release", "checked"):
        try:
            srcs.append((v, ext.build(v)))
        except ext.NoBuild as e:
            extra["the extension could not be built"] = str(e)[-1500:]
            print("the extension could not be built, so nothing of it is observed:", str(e)[-600:], file=sys.stderr)
    if srcs:
        # the side by side calls first, then the costliest workloads
        jobs = [dict(_job("c32", w, seed, tier, 1), cap=end - time.monotonic()) for w in range(W_IDS)]
        if quick:
            jobs += [_job(m, (seed + i + j * 3) % W_IDS, seed, tier, 0.8) for j in range(2) for i, m in enumerate(MODS)]
        else:
            jobs = [dict(j, cap=90) for j in jobs]
            jobs += [dict(_job(m, (seed + i) % W_IDS, seed, tier, 1), cap=60) for i, m in enumerate(MODS)]
        for k, (v, src) in enumerate(srcs):
            part = end if k == len(srcs) - 1 else time.monotonic() + (end - time.monotonic()) * 0.5
            t.add("extension, " + v, ext.stage(src, jobs, part, tier=tier, prop="C32"), rerun(src, tier))
    # the other half
    part = time.monotonic() + (60 if quick else 120)
    jobs = [dict(_job(m, (seed + 5 + i) % W_IDS, seed + 1000, tier, 0.5 if quick else 1), cap=60, **{"as": m.upper()}) for i, m in enumerate(MODS)]
    t.add("python", ext.stage(ext.REPO + "/pysrc", jobs, part, tier=tier, prop="C32"))
    return t.finish(RULE, ASSUMES, extra)


def rerun(src, tier, prop="C32", env=()):
    def f(job):
        return ext.stage(src, [job], time.monotonic() + 200, env, 1, prop, tier)[0]
    return f


def replay(v):
    src = ext.REPO + "/pysrc" if v["build"] == "python" else ext.build(v["build"].split(", ")[1].split()[0])
    c = v["case"]
    job = dict(v["job"], trace=True)
    if type(c) is int and c >= 0:
        job["n"] = c + 1
    from . import c33
    d = rerun(src, v["tier"], v["property"], c33.env_of(v["build"]))(job)
    if d["result"] is None:
        print(f"reproduced: the process ended with {d['status']} in case {d['case']}, last call {d['call']}")
        print(d["stderr"][-2000:])
        return 1
    for x in d["result"]["violations"]:
        print(f"reproduced (case {x['case']}): {x['mech']}")
        print(x["detail"])
        return 1
    print("not reproduced")
    return 0
