"""Execution monitor and runner.

The monitor builds real values, makes the call on the real code, snapshots the outcome
through public accessors and lets the specification judge it.  The runner spreads
seeded workloads over forked workers and writes the evidence.
"""
import copy
import hashlib
import importlib
import json
import operator
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
import types

from . import cal, gen, spec, tzdb, vals
from .spec import Exc, KIND, SKIP
from .vals import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_SRC", "/repo/pysrc")     # the override is for trying the checks on planted bugs
OUT = os.path.join(ROOT, "out")
N_WORKERS = 8
HANG_S = 60


class SetupError(Exception):
    pass


_W = None


def load():
    """import the code under test from /repo's working tree"""
    global _W
    if _W is None:
        sys.dont_write_bytecode = True
        sys.path.insert(0, SRC)
        import whenever
        f = os.path.realpath(whenever.__file__)
        if not f.startswith(SRC):
            raise SetupError(f"whenever imported from {f}")
        import faulthandler
        faulthandler.enable()
        vals.setup(whenever)
        spec.EXT = getattr(whenever, "_EXTENSION_LOADED", False)
        _W = whenever
    return _W


# ------------------------------------------------------------------ system timezone
def set_tz(name):
    """set the process's system timezone; name: zone key or POSIX TZ string"""
    if spec.Sys.name == name:
        return
    os.environ["TZ"] = name
    time.tzset()
    z = tzdb.zone(name) if name in spec._KEYSET else tzdb.posix_zone(name)
    spec.set_sys(name, z)


# ------------------------------------------------------------------ building real values
class BuildError(Exception):
    pass


def py_dt(l, fold=0, tz=None):
    import datetime as dt
    y, mo, d, h, mi, s, n = cal.fields(l)
    return dt.datetime(y, mo, d, h, mi, s, n // 1000, tzinfo=tz, fold=fold)


_OTHER_ZI = {}


def other_zoneinfo(key):
    """a second ZoneInfo object of the same timezone (as after ZoneInfo.clear_cache())"""
    z = _OTHER_ZI.get(key)
    if z is None:
        import zoneinfo
        if len(_OTHER_ZI) > 500:
            _OTHER_ZI.clear()
        z = _OTHER_ZI[key] = zoneinfo.ZoneInfo.no_cache(key)
    return z


def _routes(W):
    """alternative public ways of obtaining a given value"""
    import datetime as dt
    import zoneinfo

    def rt_pickle(m):
        return pickle.loads(pickle.dumps(make(W, m)))

    def parse(m):
        return getattr(W, NAME[type(m)]).parse_common_iso(vals.fmt(m))

    def us(ns):
        return ns % 1000 == 0

    R = {
        MDate: [parse, rt_pickle, lambda m: W.LocalDateTime(*cal.civil_from_days(m.day), 12, 30).date(),
                lambda m: W.Date.from_py_date(dt.date(*cal.civil_from_days(m.day))),
                lambda m: W.Date.from_py_date(py_dt(m.day * cal.DAY_NS, fold=1)),
                lambda m: W.Date(2000, 2, 29).replace(**dict(zip(("year", "month", "day"), cal.civil_from_days(m.day)))),
                lambda m: W.YearMonth(*cal.civil_from_days(m.day)[:2]).on_day(cal.civil_from_days(m.day)[2])],
        MTime: [parse, rt_pickle, lambda m: make(W, MLocal(cal.EPOCH_NS + m.ns)).time(),
                lambda m: W.Time.from_py_time(py_dt(m.ns, fold=1).timetz()) if us(m.ns) else None,
                lambda m: make(W, MOffset(cal.EPOCH_NS + m.ns, 3600)).time()],
        MTD: [parse, rt_pickle, lambda m: W.nanoseconds(m.ns), lambda m: -W.TimeDelta(nanoseconds=-m.ns),
              lambda m: W.TimeDelta(seconds=m.ns // S, nanoseconds=m.ns % S)],
        MDD: [parse, rt_pickle, lambda m: W.DateDelta(years=cal.trunc_div(m.months, 12),
                                                      months=m.months - 12 * cal.trunc_div(m.months, 12), days=m.days),
              lambda m: -W.DateDelta(months=-m.months, days=-m.days)],
        MDTD: [parse, rt_pickle, lambda m: -W.DateTimeDelta(months=-m.months, days=-m.days, nanoseconds=-m.ns)],
        MYM: [parse, rt_pickle, lambda m: W.Date(m.year, m.month, 17).year_month()],
        MMD: [parse, rt_pickle, lambda m: W.Date(2000, m.month, m.day).month_day()],
        MInstant: [parse, rt_pickle, lambda m: W.Instant.from_timestamp_nanos(m.u - cal.EPOCH_NS),
                   lambda m: make(W, MLocal(m.u)).assume_utc(), lambda m: make(W, MOffset(m.u, 0)).instant(),
                   lambda m: W.Instant.from_py_datetime(py_dt(m.u, 1, dt.timezone.utc)) if us(m.u) else None],
        MLocal: [parse, rt_pickle, lambda m: make(W, MDate(m.l // cal.DAY_NS)).at(make(W, MTime(m.l % cal.DAY_NS))),
                 lambda m: make(W, MOffset(m.l, 0)).local(),
                 lambda m: W.LocalDateTime.from_py_datetime(py_dt(m.l, fold=1)) if us(m.l) else None],
        MOffset: [parse, rt_pickle, lambda m: make(W, MInstant(utc(m))).to_fixed_offset(W.TimeDelta(seconds=m.off)),
                  lambda m: make(W, MLocal(m.l)).assume_fixed_offset(W.seconds(m.off)),
                  lambda m: W.OffsetDateTime.from_py_datetime(
                      py_dt(m.l, 1, dt.timezone(dt.timedelta(seconds=m.off)))) if us(m.l) else None],
        MZoned: [parse, rt_pickle, lambda m: W.ZonedDateTime.from_timestamp_nanos(utc(m) - cal.EPOCH_NS, tz=m.tz),
                 lambda m: make(W, MOffset(m.l, m.off)).to_tz(m.tz),
                 lambda m: _zoned_dis(W, m), lambda m: make(W, MLocal(m.l)).assume_tz(m.tz, _dis_for(m)),
                 lambda m: W.ZonedDateTime.from_py_datetime(
                     py_dt(m.l, int(_dis_for(m) == "later"), zoneinfo.ZoneInfo(m.tz))) if us(m.l) else None,
                 lambda m: W.ZonedDateTime.from_py_datetime(
                     py_dt(m.l, int(_dis_for(m) == "later"), other_zoneinfo(m.tz))) if us(m.l) else None],
        MSystem: [rt_pickle, lambda m: make(W, MInstant(utc(m))).to_system_tz(),
                  lambda m: W.SystemDateTime.from_timestamp_nanos(utc(m) - cal.EPOCH_NS),
                  lambda m: W.SystemDateTime.from_py_datetime(
                      py_dt(m.l, 1, dt.timezone(dt.timedelta(seconds=m.off)))) if us(m.l) else None],
    }
    return R


def _dis_for(m):
    r = spec._zone(m.tz).resolve(m.l // S)
    return "later" if r[0] == "fold" and m.off == r[2] else "earlier"


def _zoned_dis(W, m):
    *f, n = cal.fields(m.l)
    return W.ZonedDateTime(*f, nanosecond=n, tz=m.tz, disambiguate=_dis_for(m))


class Builder:
    """real values for model values, by varied routes, sharing objects between calls"""

    def __init__(self, W, cap=3000, direct=False):
        self.W, self.pool, self.cap, self.direct = W, {}, cap, direct
        self.routes = _routes(W)
        self.failed = 0

    def __call__(self, m, rng):
        t = type(m)
        if t not in NAME:
            return m
        got = self.pool.get(m)
        if got and (self.direct or rng.random() < 0.7):
            return got[int(rng.random() * len(got))] if len(got) > 1 else got[0]
        o = None
        if not self.direct and t in self.routes and rng.random() < 0.5:
            rs = self.routes[t]
            try:
                o = rs[int(rng.random() * len(rs))](m)
                if o is not None and not same(snap(o), m):
                    o = None
                    self.failed += 1
            except Exception:
                o = None
                self.failed += 1
        if o is None:
            try:
                o = make(self.W, m)
                if not same(snap(o), m):
                    raise BuildError(f"{m} came out as {snap(o)}")
            except BuildError:
                raise
            except Exception as e:
                raise BuildError(f"{m}: {e!r}")
        if len(self.pool) >= self.cap:
            self.pool.clear()
        self.pool.setdefault(m, []).append(o)
        return o


# ------------------------------------------------------------------ executing operations
_OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
        "%": operator.mod, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
        "==": operator.eq, "!=": operator.ne, "neg": operator.neg, "pos": operator.pos, "abs": operator.abs,
        "bool": bool, "str": str, "hash": hash, "repr": repr, "copy": copy.copy, "deepcopy": copy.deepcopy,
        "pickle": lambda x: pickle.loads(pickle.dumps(x))}


_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv, "%": operator.imod}
_turn = [0]


class Hang(BaseException):
    pass


TRACE = None        # while looking into a crash: remembers the last call outside the process


def invoke(W, name, args, kw):
    """call the real operation"""
    if TRACE is not None:
        TRACE(f"{name}({', '.join([_brief(a) for a in args] + [f'{k}={_brief(v)}' for k, v in kw.items()])})")
    k = KIND.get(name)
    if k is None:
        k = "op" if name in _OPS else "cls" if name.partition(".")[2].startswith(spec._CLS) else "inst"
    if k == "op":
        if name in _IOPS:
            # a value's augmented assignment must do what the plain operator does
            _turn[0] += 1
            if _turn[0] % 4 == 0:
                return _IOPS[name](*args, **kw)
        return _OPS[name](*args, **kw)
    if k == "fn":
        return getattr(W, name[3:])(*args, **kw)
    if k == "ctor":
        return getattr(W, name)(*args, **kw)
    c, n = name.split(".")
    if k == "cls":
        return getattr(getattr(W, c), n)(*args, **kw)
    if k == "prop":
        return getattr(args[0], n)
    return getattr(args[0], n)(*args[1:], **kw)


def _brief(x):
    try:
        return repr(x)[:200]
    except Exception:
        return f"<{type(x).__name__}>"


def observe(W, name, args, kw):
    """-> (outcome, real result or None)"""
    try:
        r = invoke(W, name, args, kw)
    except Exception as e:
        return Exc(e), None
    try:
        return snap(r), r
    except Malformed as e:
        return Exc(e), r
    except Exception as e:
        return Exc(Malformed(f"accessors raise {e!r}")), r


def show(name, args, kw):
    a = ", ".join([_show1(x) for x in args] + [f"{k}={_show1(v)}" for k, v in kw.items()])
    return f"{name}({a})"


def _show1(m):
    t = type(m)
    if t in NAME and t is not MWeekday:
        try:
            return f"<{NAME[t]} {vals.fmt(m)}>"
        except Exception:
            return repr(m)
    return repr(m)


class Violation(Exception):
    def __init__(self, mech, detail):
        self.mech, self.detail = mech, detail


class Ctx:
    """what a workload case gets: rng, generators, monitored calls, statistics"""

    def __init__(self, W, prop, tier):
        self.W, self.prop, self.tier = W, prop, tier
        self.build = Builder(W)
        self.events = {}
        self.feats = {}
        self.distinct = set()
        self.n_distinct_over = 0
        self.samples = []
        self.skipped = self.specified = self.builds_failed = 0
        self.known = load_known(prop)
        self.known_hits = {}
        self.lax = False
        self.state = types.SimpleNamespace()

    def start(self, rng):
        self.rng = rng
        self.lax = False
        self.g = gen.G(rng)

    def feat(self, name, n=1):
        self.feats[name] = self.feats.get(name, 0) + n

    def key(self, k):
        """count a distinct case"""
        if len(self.distinct) < 300_000:
            self.distinct.add(hash(k))
        else:
            self.n_distinct_over += 1

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def fail(self, mech, detail):
        for k in self.known:
            if known_match(k, mech, detail):
                self.known_hits[k["id"]] = self.known_hits.get(k["id"], 0) + 1
                return
        raise Violation(mech, detail)

    def check(self, cond, mech, detail):
        if not cond:
            self.fail(mech, detail() if callable(detail) else detail)

    def real(self, m):
        try:
            return self.build(m, self.rng)
        except BuildError:
            self.builds_failed += 1
            raise

    def call(self, name, *args, **kw):
        """monitored call over model arguments, judged by the specification;
        returns (observed outcome, expectation)"""
        exp = spec.expect(name, args, dict(kw))
        if self.lax and type(exp) is spec.Raises:
            # several faults at once: which of them is reported is not specified
            exp = spec.ANYEXC
        b = self.build
        rng = self.rng
        try:
            ra = [b(a, rng) for a in args]
            rk = {k: b(v, rng) for k, v in kw.items()}
        except BuildError:
            self.builds_failed += 1
            return None, SKIP
        got, obj = observe(self.W, name, ra, rk)
        self.events[name] = self.events.get(name, 0) + 1
        self.last = obj
        if exp is SKIP:
            self.skipped += 1
        else:
            self.specified += 1
            if len(self.distinct) < 300_000:
                try:
                    self.distinct.add(hash((name, args, tuple(sorted(kw.items(), key=_k0)))))
                except TypeError:
                    pass
            else:
                self.n_distinct_over += 1
            if type(exp) is spec.Raises:
                self.feats["expected refusal"] = self.feats.get("expected refusal", 0) + 1
            if not spec.matches(exp, got):
                self.fail(name, {"call": show(name, args, kw), "args": [enc(a) for a in args],
                                 "kwargs": {k: enc(v) for k, v in kw.items()},
                                 "expected": _show_exp(exp), "observed": _show_exp(got),
                                 "system_tz": spec.Sys.name})
            if obj is not None and type(got) in NAME and rng.random() < 0.2:
                # results of operations become inputs of later ones
                have = b.pool.setdefault(got, [])
                if len(have) < 4:
                    have.append(obj)
            if len(self.samples) < 6 and rng.random() < 0.02:
                self.samples.append(f"{show(name, args, kw)} -> {_show_exp(got)}"[:400])
        return got, exp


def _k0(kv):
    return kv[0]


def _show_exp(e):
    if type(e) in NAME:
        return _show1(e)
    return repr(e)


# ------------------------------------------------------------------ known findings
def known_file():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def load_known(prop):
    return [k for k in known_file() if type(k) is dict and k.get("property") == prop and k.get("status") == "known"]


def known_match(k, mech, detail):
    """a listed finding matches by its exact call (or history), nothing wider"""
    return k.get("mech") == mech and isinstance(detail, dict) and detail.get("call") in k.get("calls", ())


# ------------------------------------------------------------------ line reach
class Reach:
    """lines of the code under test executed (first hit only, so it costs nothing after)"""

    def __init__(self):
        self.lines = {}
        self.on = False

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(3, "verif")

            def hit(code, line):
                if code.co_filename.startswith(SRC):
                    self.lines.setdefault(os.path.basename(code.co_filename), set()).add(line)
                return m.DISABLE
            m.register_callback(3, m.events.LINE, hit)
            m.set_events(3, m.events.LINE)
            self.on = True
        except Exception:
            pass

    def counts(self):
        return {k: sorted(v) for k, v in self.lines.items()}


# ------------------------------------------------------------------ workers
SYS_ZONES = ["Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "America/Sao_Paulo", "UTC",
             "Asia/Kolkata", "Europe/Dublin", "Africa/Casablanca"]


def case_rng(seed, prop, w, i):
    return random.Random(int.from_bytes(hashlib.blake2b(f"{seed}/{prop}/{w}/{i}".encode(), digest_size=8).digest(), "little"))


def run_case(ctx, mod, plan, seed, w, i):
    """one case, fully determined by (seed, property, worker, index) and earlier cases' pooled objects"""
    rng = case_rng(seed, ctx.prop, w, i)
    if i % 1000 == 700:
        # legitimate at any time; later lookups give other ZoneInfo objects than the pooled values hold
        import zoneinfo
        zoneinfo.ZoneInfo.clear_cache()
    ctx.start(rng)
    x = rng.random() * plan[-1][0]
    for acc, name, f in plan:
        if x < acc:
            break
    ctx.feat("workload " + name)
    f(ctx)


def _in_subject(e):
    if isinstance(e, Malformed):    # (a value of the subject, whose accessors disagree or leave their range)
        return True
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


def _phase_violation(e, seed, w, phase, tier, prop):
    """a violation, or an exception of the code under test, in a check's start or finish"""
    if type(e) is not Violation:
        if not _in_subject(e):
            raise e
        e = Violation("unexpected exception from the code under test", {"call": phase, "traceback": "".join(traceback.format_exception(e))[-2000:]})
    return {"mech": e.mech, "detail": e.detail, "seed": seed, "worker": w, "case": phase, "tier": tier, "property": prop}


def plan_of(mod):
    acc, plan = 0.0, []
    for name, weight, f in mod.WORKLOADS:
        acc += weight
        plan.append((acc, name, f))
    return plan


def worker(prop, mod, seed, tier, w, n, deadline, fd, note=None):
    """note: told the number of every case before it is run"""
    W = load()
    reach = Reach()
    reach.start()
    ctx = Ctx(W, prop, tier)
    ctx.worker = w
    plan = plan_of(mod)
    zones = getattr(mod, "SYS_ZONES", SYS_ZONES)
    set_tz(zones[w % len(zones)])
    res = {"violations": [], "cases": 0, "error": None}
    cur = [-1, 0.0]

    def tick(*_):
        if cur[1] and time.monotonic() - cur[1] > HANG_S:
            raise Hang()
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    try:
        if hasattr(mod, "start"):
            ctx.start(case_rng(seed, prop, w, "start"))
            try:
                mod.start(ctx)
            except Exception as e:
                res["violations"].append(_phase_violation(e, seed, w, "start", tier, prop))
                n = 0
        for i in range(n):
            if i % 64 == 0 and time.monotonic() > deadline:
                break
            cur[:] = i, time.monotonic()
            if note is not None:
                note(i)
            try:
                run_case(ctx, mod, plan, seed, w, i)
            except BuildError:
                pass
            except Violation as v:
                res["violations"].append({"mech": v.mech, "detail": v.detail, "seed": seed, "worker": w, "case": i,
                                          "tier": tier, "property": prop})
                if len(res["violations"]) >= 3:
                    res["cases"] += 1
                    break
            except Hang:
                res["violations"].append({"mech": "hang", "detail": f"a call did not return within {HANG_S} s",
                                          "seed": seed, "worker": w, "case": i, "tier": tier, "property": prop})
                break
            except Exception as e:
                # a public call made directly by the workload failed inside the code under test
                if not _in_subject(e):
                    raise
                res["violations"].append({"mech": "unexpected exception from the code under test",
                                          "detail": {"call": "workload", "traceback": traceback.format_exc()[-2000:]},
                                          "seed": seed, "worker": w, "case": i, "tier": tier, "property": prop})
                break
            res["cases"] += 1
        if hasattr(mod, "finish") and not res["violations"]:
            cur[:] = -2, time.monotonic() + 600
            ctx.start(case_rng(seed, prop, w, "finish"))
            try:
                mod.finish(ctx)
            except Exception as e:
                res["violations"].append(_phase_violation(e, seed, w, "finish", tier, prop))
    except BaseException:
        res["error"] = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(events=ctx.events, feats=ctx.feats, distinct=ctx.distinct, over=ctx.n_distinct_over,
               samples=ctx.samples, skipped=ctx.skipped, specified=ctx.specified, builds_failed=ctx.builds_failed, spec_errors=[repr(e)[:300] for e in spec.errors[:5]],
               n_spec_errors=len(spec.errors), routes_failed=ctx.build.failed, known_hits=ctx.known_hits, reach=reach.counts())
    data = pickle.dumps(res)
    while data:
        k = os.write(fd, data[:1 << 20])
        data = data[k:]
    os.close(fd)


def fork_workers(jobs, timeout):
    """jobs: list of callables(fd); -> list of unpickled results (None if lost)"""
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for j in jobs:
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for _, q, _ in procs:
                    try:
                        os.close(q)
                    except OSError:
                        pass
                j(wfd)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r, bytearray()))
    end = time.monotonic() + timeout
    live = {r: (pid, buf) for pid, r, buf in procs}
    while live:
        left = end - time.monotonic()
        if left <= 0:
            break
        rd, _, _ = select.select(list(live), [], [], min(left, 5))
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if chunk:
                live[r][1].extend(chunk)
            else:
                live.pop(r)
    out = []
    for pid, r, buf in procs:
        if r in live:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        try:
            out.append(pickle.loads(bytes(buf)))
        except Exception:
            out.append(None)
    return out


# ------------------------------------------------------------------ a whole check
def run_check(prop, tier, seed):
    t0 = time.time()
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    mod = importlib.import_module(f"mon.checks.{prop.lower()}")
    if hasattr(mod, "run"):
        return mod.run(tier, seed)
    try:
        load()
    except SetupError:
        raise
    except BaseException:
        # the code under test cannot even be imported: no verdict
        traceback.print_exc()
        return 2
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    cap = getattr(mod, "QUICK_CAP", 60) if tier == "quick" else getattr(mod, "THOROUGH_CAP", 660)
    nw = getattr(mod, "N_WORKERS", N_WORKERS)
    deadline = time.monotonic() + cap
    jobs = [lambda fd, w=w: worker(prop, mod, seed, tier, w, n, deadline, fd) for w in range(nw)]
    res = fork_workers(jobs, cap + 120)
    bad = [r for r in res if r is None or r["error"]]
    ok = [r for r in res if r is not None]
    viol = [v for r in ok for v in r["violations"]]
    for e in {r["error"] for r in ok if r["error"]}:
        print(e, file=sys.stderr)
    events, feats, reach, kh = {}, {}, {}, {}
    distinct = set()
    for r in ok:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["feats"].items():
            feats[k] = feats.get(k, 0) + v
        for k, v in r["reach"].items():
            reach.setdefault(k, set()).update(v)
        for k, v in r["known_hits"].items():
            kh[k] = kh.get(k, 0) + v
        distinct |= r["distinct"]
    cases = sum(r["cases"] for r in ok)
    samples = [s for r in ok for s in r["samples"]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples,
            "observed_events": dict(sorted(events.items())),
            "events_total": sum(events.values()),
            "features": dict(sorted(feats.items())),
            "judged_by_specification": sum(r["specified"] for r in ok),
            "outside_specification": sum(r["skipped"] for r in ok),
            "specification_gave_no_answer": sum(r["n_spec_errors"] for r in ok),
            "unbuildable_inputs": sum(r["builds_failed"] for r in ok),
            "distinct_counter_saturated_by": sum(r["over"] for r in ok),
            "lines_of_subject_reached": {k: len(v) for k, v in reach.items()},
            "new_literals_in_subject": len(gen.NEW_INTS) + len(gen.NEW_STRS),
            "workers": nw,
        },
        "assumptions": getattr(mod, "ASSUMES", []) + [
            "the reference calendar, tz database reader and specification in /verif/mon are right",
            "the observed executions are representative: exploration, not proof"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if hasattr(mod, "evidence"):
        mod.evidence(ev, ok)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=repr)
    for k in load_known(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        seen = set()
        for v in viol:
            if v["mech"] in seen:
                continue
            seen.add(v["mech"])
            h = hashlib.blake2b(json.dumps(v, sort_keys=True, default=repr).encode(), digest_size=6).hexdigest()
            p = os.path.join(OUT, "replay", f"{prop}-{h}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print(json.dumps(v, default=repr)[:1500])
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if bad:
        print(f"{len(bad)} worker(s) gave no answer", file=sys.stderr)
        return 2
    if not cases or not distinct:
        print("no case was judged", file=sys.stderr)
        return 2
    print(f"{prop} {tier} seed={seed}: held on {cases} cases, {sum(events.values())} observed events, "
          f"{len(distinct)} distinct, {ev['wall_s']} s")
    return 0


def replay(path):
    """re-run a recorded violation: the single case first, then its worker's stream up to it"""
    v = json.load(open(path))
    prop = v["property"]
    mod = importlib.import_module(f"mon.checks.{prop.lower()}")
    if hasattr(mod, "replay"):
        return mod.replay(v)
    W = load()
    zones = getattr(mod, "SYS_ZONES", SYS_ZONES)
    for whole in (False, True):
        ctx = Ctx(W, prop, v["tier"])
        ctx.worker = v["worker"]
        plan = plan_of(mod)
        set_tz(zones[v["worker"] % len(zones)])
        if hasattr(mod, "start"):
            ctx.start(case_rng(v["seed"], prop, v["worker"], "start"))
            try:
                mod.start(ctx)
            except Exception as e:
                print("reproduced in start:", e if type(e) is not Violation else e.mech, json.dumps(getattr(e, "detail", None), default=repr))
                return 1
        if v["case"] == "start":
            continue
        if v["case"] == "finish":
            idx = []
            if not whole:
                continue
        else:
            idx = range(v["case"] + 1) if whole else [v["case"]]
        for i in idx:
            try:
                run_case(ctx, mod, plan, v["seed"], v["worker"], i)
            except BuildError:
                pass
            except Exception as e:
                if type(e) is not Violation:
                    if not _in_subject(e):
                        raise
                    e = Violation("unexpected exception from the code under test", traceback.format_exc())
                print(f"reproduced ({'stream' if whole else 'single case'}, case {i}): {e.mech}")
                print(json.dumps(e.detail, indent=1, default=repr))
                return 1
        if v["case"] == "finish" and hasattr(mod, "finish"):
            try:
                ctx.start(case_rng(v["seed"], prop, v["worker"], "finish"))
                mod.finish(ctx)
            except Exception as e:
                print("reproduced in finish:", e if type(e) is not Violation else e.mech, json.dumps(getattr(e, "detail", None), default=repr))
                return 1
    print("not reproduced")
    return 0
