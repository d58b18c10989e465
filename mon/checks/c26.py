"""Values and functions shared between threads."""
import os
import pickle
import random
import select
import signal
import sys
import threading
import time

from ..vals import *
from .. import alone, cal, core, gen, ops, sched, spec, texts, vals
from ..cal import S
from . import c29

QUICK, THOROUGH = 480, 5200
QUICK_CAP, THOROUGH_CAP = 100, 660
RULE = ("one case = a forked process that has made no call yet, in which 2 to 4 threads make public calls at once (the same calls, other "
        "calls on the same objects, the same operations with other arguments, or unrelated ones; caches cold or warm) under a controlled scheduler "
        "that switches threads at lines or bytecode instructions of the code under test (lockstep, random, at few chosen points, at one site, one thread ahead by every distance in turn) or "
        "under the interpreter's own switching sped up; every outcome, during and after, is compared with the outcome of the same call in "
        "another pristine process running single-threaded; distinct = distinct calls judged")
ASSUMES = ["thread switches inside the standard library's C code are not controlled (the interpreter lock covers it)"]
HANG = 40


def start(ctx):
    ctx.state.interleavings = set()
    ctx.state.pairs = set()
    # every operation in turn, each worker from another one on
    ctx.state.each = ops.turns(ctx)
    ctx.state.turn = 0


# ------------------------------------------------------------------ a job in a forked child
def forked(f):
    """f() in a fresh fork of this process: (result, None) or (None, how it died)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            alone._send(w, f())
        except BaseException:
            import traceback
            try:
                alone._send(w, ("error", traceback.format_exc()))
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    end = time.monotonic() + HANG
    buf = bytearray()
    while True:
        rd, _, _ = select.select([r], [], [], max(0, end - time.monotonic()))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return None, f"no answer within {HANG} s"
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) < 8:
        return None, f"died with status {st}"
    x = pickle.loads(bytes(buf[8:]))
    if type(x) is tuple and x[0] == "error":
        return None, x[1]
    return x, None


# ------------------------------------------------------------------ one thread's work
NOWS = ("Instant.now", "ZonedDateTime.now", "SystemDateTime.now", "Date.today_in_system_tz")


def _now(g):
    n = g.ch(NOWS)
    return n, (g.tz(),) if n == "ZonedDateTime.now" else (), {}


def _run(W, builder, c):
    """outcome with the objects of the builder"""
    rng = random.Random(0)
    try:
        ra, rk = [builder(a, rng) for a in c[1]], {k: builder(v, rng) for k, v in c[2].items()}
    except core.BuildError as e:
        return ("unbuildable", str(e))
    got, obj = core.observe(W, c[0], ra, rk)
    return alone.outcome(got, obj)


def _patch(W, at):
    p = W.patch_current_time(W.Instant.from_timestamp(at), keep_ticking=False)
    p.__enter__()
    return p


def sequential(W, calls, tz, at):
    def f():
        core.set_tz(tz)
        p = _patch(W, at) if at is not None else None
        n = [0]

        def line(code, pos):
            if not code.co_filename.startswith(core.SRC):
                return sys.monitoring.DISABLE
            n[0] += 1
        m = sys.monitoring
        m.use_tool_id(sched.TOOL, "verif-sched")
        m.register_callback(sched.TOOL, m.events.LINE, line)
        m.set_events(sched.TOOL, m.events.LINE)
        r = []
        # fresh objects for each call: nothing is shared
        for c in calls:
            r.append(_run(W, core.Builder(W, direct=True), c))
        m.set_events(sched.TOOL, 0)
        p and p.__exit__(None, None, None)
        return r, n[0], p is not None
    return forked(f)


def _threads(W, calls, plan, builders, strategy, instr, seed):
    """the threads' outcomes under the strategy, and the scheduler"""
    n = len(plan)
    out = [[] for _ in range(n)]
    s = sched.Sched(core.SRC, random.Random(seed), n, strategy, instr)
    gate = threading.Barrier(n)

    def work(t):
        try:
            gate.wait()
            s.enter(t)
            for i in plan[t]:
                out[t].append((i, _run(W, builders[t], calls[i])))
        except BaseException as e:
            out[t].append((-1, repr(e)))
        finally:
            s.leave(t)
    old = sys.getswitchinterval()
    if strategy[0] == "free":
        sys.setswitchinterval(2e-6)
    else:
        sys.setswitchinterval(5)
    s.start()
    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    for x in ths:
        x.start()
    for x in ths:
        x.join()
    s.stop()
    sys.setswitchinterval(old)
    return out, s


def sweep(W, calls, plan, want, tz, mode, strategies, seed):
    """one process, one schedule after the other; only outcomes that differ are sent back"""
    def f():
        core.set_tz(tz)
        n = len(plan)
        builders = [core.Builder(W, direct=True)] * n if mode == "shared" else [core.Builder(W, direct=True) for _ in range(n)]
        bad, steps, switches, stalls, traces, pairs = [], 0, 0, 0, set(), set()
        for k, st in enumerate(strategies):
            out, s = _threads(W, calls, plan, builders, st, False, seed + k)
            for t, rs in enumerate(out):
                if len(rs) != len(plan[t]) or rs[-1][0] == -1:
                    bad.append((st, t, -1, rs[-1:]))
                bad += [(st, t, i, o) for i, o in rs if i >= 0 and o != want[i]]
            steps += s.steps
            switches += s.switches
            stalls += s.stalls
            traces.add(s.trace)
            pairs.update(map(hash, s.pairs))
            if bad:
                break
        return bad[:3], steps, switches, stalls, traces, pairs
    return forked(f)


def concurrent(W, calls, plan, tz, at, mode, warm, strategy, instr, seed):
    """plan: per thread the indexes of its calls"""
    def f():
        core.set_tz(tz)
        p = _patch(W, at) if at is not None else None
        n = len(plan)
        if mode == "shared":
            b = core.Builder(W, direct=True)
            builders = [b] * n
        else:
            builders = [core.Builder(W, direct=True) for _ in range(n)]
        if mode != "inside":
            for t, ix in enumerate(plan):
                for i in ix:
                    for a in [*calls[i][1], *calls[i][2].values()]:
                        try:
                            builders[t](a, random.Random(0))
                        except core.BuildError:
                            pass
        if warm:
            for i in {i for ix in plan for i in ix}:
                _run(W, builders[0], calls[i])
        out, s = _threads(W, calls, plan, builders, strategy, instr, seed)
        after = [(i, _run(W, builders[t], calls[i])) for t in (0, n - 1) for i in plan[t]]
        p and p.__exit__(None, None, None)
        return out, after, (s.steps, s.switches, s.stalls, s.trace, list(s.pairs))
    return forked(f)


# ------------------------------------------------------------------ what the threads do
def _usable(c):
    return c29.c_plain(c) and c[0] not in ("copy", "deepcopy")


def _same_op(g, c):
    """the same operation with other arguments"""
    name = c[0]
    mk = [f for n, f in ops.MAKERS if n == name]
    if mk:
        a, kw = g.ch(mk)(g)
        return name, tuple(a), kw
    if c[1] and type(c[1][0]) in NAME:
        m = ops.MAKE[type(c[1][0])](g)
        for n, f in ops.OPS[type(m)]:
            if n == name:
                a, kw = f(g, m)
                return name, (m,) + a, kw
        if name in core._OPS and len(c[1]) == 2:
            return name, (m, ops._partner(g, m)), {}
    return c29._vary_call(g, c)


def _each(ctx, n, alike=0.4):
    """calls of the operation whose turn it is"""
    g, st = ctx.g, ctx.state
    e = st.each[st.turn % len(st.each)]
    st.turn += 1
    out = []
    one_slot = g.p(alike)
    for _ in range(40):
        if len(out) >= n:
            break
        c = ops.call_of(g, e)
        if out and one_slot:
            c = _mix(g, out[0], c)
        if _usable(c):
            out.append(c)
    return out


def _mix(g, c, d):
    """c with one of d's arguments"""
    if c[0] != d[0] or len(c[1]) != len(d[1]) or not c[1]:
        return d
    i = 0 if g.p(0.6) else g.r.randrange(len(c[1]))
    if type(c[1][i]) is not type(d[1][i]):
        return d
    return c[0], c[1][:i] + (d[1][i],) + c[1][i + 1:], c[2]


ZONE_OPS = ("to_tz", "assume_tz", "ctor", "from_timestamp", "from_timestamp_nanos", "parse", "replace", "pickle", "add", "round", "start_of_day")


def _zone_call(g, op, tz):
    if op == "to_tz":
        m = g.exact()
        return NAME[type(m)] + ".to_tz", (m, tz), {}
    if op == "assume_tz":
        return "LocalDateTime.assume_tz", (MLocal(g.zlocal(tz)), tz), {"disambiguate": g.ch(spec.DIS)} if g.p(0.5) else {}
    if op == "ctor":
        return "ZonedDateTime", cal.fields(g.zlocal(tz))[:6], {"tz": tz}
    if op.startswith("from_"):
        return "ZonedDateTime." + op, (g.utc() - cal.EPOCH_NS if op.endswith("nanos") else (g.utc() - cal.EPOCH_NS) // S,), {"tz": tz}
    z = g.zoned(tz)
    if op == "parse":
        return "ZonedDateTime.parse_common_iso", (vals.fmt(z),), {}
    if op == "replace":
        return "ZonedDateTime.replace", (g.zoned(),), {"tz": tz}
    if op == "pickle":
        return "pickle", (z,), {}
    if op == "add":
        return "ZonedDateTime.add", (z,), g.shift_kw()
    if op == "round":
        return "ZonedDateTime.round", (z,), g.round_args(day=True)
    return "ZonedDateTime." + op, (z,), {}


def _deal(g, calls, n):
    """every call in one or more threads"""
    if not calls:
        return []
    plan = [[i for i in range(len(calls)) if i % n == t] * g.r.randint(1, 3) for t in range(n)]
    if g.p(0.5):
        for x in plan:
            x += [g.r.randrange(len(calls)) for _ in range(g.r.randint(0, 2 * len(x)))]
            g.r.shuffle(x)
    return plan


def case(ctx):
    g = ctx.g
    W = ctx.W
    n = g.ch((2, 2, 3, 3, 4))
    at = g.r.randint(-10**9, 10**10) if g.p(0.15) else None
    kind = "each op" if g.p(0.4) else g.ch(("thunder", "thunder", "cluster", "cluster", "same op", "same op", "zones", "texts", "unrelated"))
    if kind == "thunder":
        calls = [c for c in c29.cluster(g, g.r.randint(1, 6)) if _usable(c)][:8]
        plan = [list(range(len(calls))) for _ in range(n)]
        if g.p(0.3):
            for x in plan:
                g.r.shuffle(x)
    elif kind == "cluster":
        calls = [c for c in c29.cluster(g, g.r.randint(6, 14)) if _usable(c)]
        plan = [[g.r.randrange(len(calls)) for _ in range(g.r.randint(3, 10))] for _ in range(n)] if calls else []
    elif kind == "same op":
        base = ops.any_call(g)
        calls = [c for c in [base] + [_same_op(g, base) for _ in range(n * g.ch((1, 2, 2, 4, 8)))] if _usable(c)]
        plan = _deal(g, calls, n)
    elif kind == "each op":
        n = g.ch((2, 2, 3))
        calls = _each(ctx, n * g.ch((1, 1, 2)))
        plan = _deal(g, calls, n) if len(calls) >= n else []
    elif kind == "texts":
        names = [g.ch(texts.PARSERS + ("strptime",)) for _ in range(g.ch((1, 1, 2, 3)))]
        calls = [texts.call(g, g.ch(names)) for _ in range(n * g.ch((1, 2, 3)))]
        plan = _deal(g, calls, n)
    elif kind == "zones":
        tzs = [g.tz() for _ in range(g.ch((2, 3, 6, 12, 24)))]
        base = g.ch(ZONE_OPS) if g.p(0.6) else None
        calls = [_zone_call(g, base or g.ch(ZONE_OPS), tz) for tz in tzs for _ in range(g.ch((1, 1, 2)))]
        plan = _deal(g, calls, n)
    else:
        calls = [c for c in [ops.any_call(g) for _ in range(4 * n)] if _usable(c)]
        plan = [[i for i in range(len(calls)) if i % n == t] for t in range(n)]
    if at is not None:
        for t in range(min(n, len(plan))):
            calls.append(_now(g))
            plan[t].insert(g.r.randint(0, len(plan[t])), len(calls) - 1)
    if not calls or not all(plan):
        return
    tz = spec.Sys.name
    solo, err = sequential(W, calls, tz, at)
    if err:
        ctx.fail("single-threaded: " + err[-300:], {"call": "; ".join(core.show(*c) for c in calls), "error": err})
    want, lines, _ = solo
    for rep in range(g.ch((1, 1, 2, 3))):
        mode = g.ch(("shared", "shared", "shared", "own", "inside", "inside"))
        warm = g.p(0.25)
        instr = g.p(0.25)
        total = max(20, lines * n * (8 if instr else 1))
        k = g.r.random()
        if k < 0.3:
            strategy = ("points", [g.r.randint(1, total) for _ in range(g.ch((1, 1, 2, 3, 5)))])
        elif k < 0.5:
            strategy = ("random", g.ch((0.01, 0.05, 0.2)) / (4 if instr else 1))
        elif k < 0.65:
            q = g.ch((7, 13, 29))
            strategy = ("site", q, g.r.randrange(q))
        elif k < 0.82:
            strategy = ("lockstep", g.ch((1, 1, 2, 3)) * (g.ch((1, 4)) if instr else 1))
        else:
            strategy = ("free", g.ch((0, 0.005)))
        if kind == "same op" and k < 0.5 and g.p(0.5) or kind == "each op" and g.p(0.8):
            strategy = ("lockstep", 1)
        seed = g.r.getrandbits(32)
        got, err = concurrent(W, calls, plan, tz, at, mode, warm, strategy, instr, seed)
        info = {"threads": n, "mode": mode, "warm": warm, "strategy": strategy, "instructions": instr, "schedule_seed": seed, "system_tz": tz,
                "plan": plan, "calls": [core.show(*c) for c in calls], "patched_at": at}
        if err:
            ctx.fail("the process with threads: " + err[-300:], {"call": kind, "error": err, **info})
        out, after, (steps, switches, stalls, trace, pairs) = got
        ctx.event("interleaved runs")
        ctx.event("scheduling points", steps)
        ctx.event("thread switches inside the code under test", switches)
        ctx.event("waits given up (a thread blocked)", stalls)
        ctx.feat("strategy " + strategy[0] + (" (instructions)" if instr else ""))
        ctx.feat("work " + kind)
        ctx.feat("objects " + mode + (", warm" if warm else ", cold"))
        if switches:
            ctx.state.interleavings.add(trace)
            if len(ctx.state.pairs) < 400000:
                ctx.state.pairs.update(map(hash, pairs))
        for t, rs in enumerate(out):
            if rs and rs[-1][0] == -1 or len(rs) != len(plan[t]):
                ctx.fail("a thread did not finish", {"call": kind, "thread": t, "got": repr(rs[-1:]), **info})
            for i, o in rs:
                _judge(ctx, "concurrently, another result", calls[i], want[i], o, t, info)
        for i, o in after:
            _judge(ctx, "after concurrent use, another result", calls[i], want[i], o, None, info)
    for c in calls:
        ctx.key(c29._k(c))


def sweeps(ctx):
    """two threads in one operation, one of them ahead of the other by every distance"""
    g, W = ctx.g, ctx.W
    calls = _each(ctx, 2, 0.7)
    if len(calls) < 2:
        return
    tz = spec.Sys.name
    solo, err = sequential(W, calls, tz, None)
    if err:
        ctx.fail("single-threaded: " + err[-300:], {"call": "; ".join(core.show(*c) for c in calls), "error": err})
    want, lines, _ = solo
    plan = g.ch(([[0], [1]], [[0], [1]], [[0, 1], [1, 0]], [[0, 0], [1, 1]]))
    per = max(2, lines // 2)
    ks = list(range(1, per + 1))
    g.r.shuffle(ks)
    strategies = [("stagger", k, g.ch((1, 1, 1, 2))) for k in ks[:64]]
    strategies += [("points", [k := g.r.randint(1, per), k + g.ch((1, 2, 3, 4, 5, g.r.randint(1, per)))]) for _ in range(15)]
    mode = g.ch(("shared", "own"))
    seed = g.r.getrandbits(32)
    got, err = sweep(W, calls, plan, want, tz, mode, strategies, seed)
    info = {"mode": mode, "plan": plan, "calls": [core.show(*c) for c in calls], "schedule_seed": seed, "system_tz": tz}
    if err:
        ctx.fail("the process with threads: " + err[-300:], {"call": "sweep", "error": err, **info})
    bad, steps, switches, stalls, traces, pairs = got
    ctx.event("interleaved runs", len(strategies))
    ctx.event("scheduling points", steps)
    ctx.event("thread switches inside the code under test", switches)
    ctx.event("waits given up (a thread blocked)", stalls)
    ctx.feat("work sweep")
    ctx.specified += len(strategies) * sum(map(len, plan))
    ctx.state.interleavings |= traces
    if len(ctx.state.pairs) < 400000:
        ctx.state.pairs |= pairs
    for c in calls:
        ctx.event(c[0], len(strategies))
        ctx.key(c29._k(c))
    for st, t, i, o in bad:
        if i == -1:
            ctx.fail("a thread did not finish", {"call": "sweep", "thread": t, "got": repr(o), "strategy": st, **info})
        ctx.fail("concurrently, another result", {"call": core.show(*calls[i]), "alone": repr(want[i])[:400], "observed": repr(o)[:400], "thread": t, "strategy": st, **info})


def _judge(ctx, mech, c, want, o, t, info):
    ctx.event(c[0])
    ctx.specified += 1
    if o != want:
        ctx.fail(mech, {"call": core.show(*c), "alone": repr(want)[:400], "observed": repr(o)[:400], "thread": t, **info})


def finish(ctx):
    st = ctx.state
    ctx.feats["distinct interleavings"] = len(st.interleavings)
    ctx.feats["distinct (line, line) switches"] = len(st.pairs)


WORKLOADS = [("threads", 0.75, case), ("sweep", 0.25, sweeps)]
