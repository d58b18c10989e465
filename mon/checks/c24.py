"""Immutability and hash stability."""
import copy
import pickle

from ..vals import *
from .. import cal, core, fault, ops, spec, vals

QUICK, THOROUGH = 900, 36000
RULE = ("one case = a population of values put in a dict and a set, then some 40 random calls (successful, failing, and cut short by an interrupt) with them as "
        "receivers and arguments, whose fingerprints (fields, text, hash, pickle, standard-library form) are taken again after each "
        "call and all together at the end; distinct = distinct calls observed")
ASSUMES = ["private attributes and re-running __init__ are not public operations"]
CONST = [("Date", "MIN"), ("Date", "MAX"), ("YearMonth", "MIN"), ("YearMonth", "MAX"), ("MonthDay", "MIN"), ("MonthDay", "MAX"),
         ("Time", "MIDNIGHT"), ("Time", "NOON"), ("Time", "MAX"), ("TimeDelta", "ZERO"), ("TimeDelta", "MIN"), ("TimeDelta", "MAX"),
         ("DateDelta", "ZERO"), ("DateTimeDelta", "ZERO"), ("Instant", "MIN"), ("Instant", "MAX"), ("LocalDateTime", "MIN"),
         ("LocalDateTime", "MAX")]
CONST_IS = {"Date.MIN": MDate(0), "Date.MAX": MDate(cal.MAX_DAY), "YearMonth.MIN": MYM(1, 1), "YearMonth.MAX": MYM(9999, 12),
            "MonthDay.MIN": MMD(1, 1), "MonthDay.MAX": MMD(12, 31), "Time.MIDNIGHT": MTime(0), "Time.NOON": MTime(12 * 3600 * S),
            "Time.MAX": MTime(cal.DAY_NS - 1), "TimeDelta.ZERO": MTD(0), "TimeDelta.MIN": MTD(-cal.MAX_DELTA_NS),
            "TimeDelta.MAX": MTD(cal.MAX_DELTA_NS), "DateDelta.ZERO": MDD(0, 0), "DateTimeDelta.ZERO": MDTD(0, 0, 0),
            "Instant.MIN": MInstant(0), "Instant.MAX": MInstant(cal.MAX_NS), "LocalDateTime.MIN": MLocal(0),
            "LocalDateTime.MAX": MLocal(cal.MAX_NS)}


def fingerprint(o):
    """everything observable about a value"""
    t = type(o)
    n = t.__name__
    f = [snap(o), str(o), repr(o), hash(o), pickle.dumps(o)]
    if n in ("Instant", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
        p = o.py_datetime()
        f += [p, p.fold, repr(p.tzinfo), p.utcoffset()]
        if n == "ZonedDateTime":
            f.append(o.is_ambiguous())
    elif n == "Date":
        f.append(o.py_date())
    elif n == "Time":
        f += [o.py_time(), o.py_time().fold]
    elif n == "TimeDelta":
        f.append(o.py_timedelta() if abs(o.in_nanoseconds()) < 10**21 else None)
    return f


def _constants(ctx):
    out = {}
    for c, n in CONST:
        out[c + "." + n] = getattr(getattr(ctx.W, c), n)
    return out


def start(ctx):
    ctx.state.fault = fault.get()
    ctx.state.const = _constants(ctx)
    ctx.state.const_fp = {k: fingerprint(v) for k, v in ctx.state.const.items()}
    for k, v in ctx.state.const.items():
        if not same(snap(v), CONST_IS[k]):
            ctx.fail("class constant", {"call": k, "observed": repr(v), "expected": repr(CONST_IS[k])})


def _check_constants(ctx, call):
    for k, v in _constants(ctx).items():
        if v is not ctx.state.const[k] and v != ctx.state.const[k] or fingerprint(v) != ctx.state.const_fp[k]:
            ctx.fail("class constant changes", {"call": call, "constant": k, "observed": repr(v)})
        ctx.event("constant checked")


def finish(ctx):
    _check_constants(ctx, "the whole run")


def history(ctx):
    g = ctx.g
    W = ctx.W
    direct = g.p(0.3)
    ctx.build = core.Builder(W, direct=direct)
    pop = []
    for _ in range(g.r.randint(6, 12)):
        m = ops.any_value(g)
        try:
            pop.append((m, ctx.real(m)))
        except core.BuildError:
            pass
    if g.p(0.3):
        pop += [(snap(v), v) for v in g.r.sample(list(ctx.state.const.values()), 3)]
    if g.p(0.4):
        m = g.zoned()
        r = spec._zone(m.tz).resolve(m.l // S)
        if r[0] == "fold":
            pop += [(x, ctx.real(x)) for x in (MZoned(m.l, r[1], m.tz), MZoned(m.l, r[2], m.tz)) if 0 <= utc(x) <= cal.MAX_NS]
    by_model = {}
    for m, o in pop:
        by_model.setdefault(m, []).append(o)
        ctx.build.pool.setdefault(m, []).append(o)
    fps = [(m, o, fingerprint(o)) for m, o in pop]
    fp_of = {id(o): f for _, o, f in fps}
    table = {}
    for i, (m, o, _) in enumerate(fps):
        table.setdefault(o, []).append(i)
    members = set(table)
    call = "building"
    derived = []
    for _ in range(g.r.randint(20, 60)):
        m, o = g.ch(pop)
        name, a, kw = ops.on(g, m)
        if g.p(0.25) and len(a) > 1:
            # another member of the population as the argument, whatever its kind
            x = g.ch(pop)[0]
            a = (a[0], x) if a[0] is m else (x, a[1])
        elif g.p(0.06):
            kw = {**kw, g.ch(("hour", "foo", "nanosecond", "years", "disambiguate")): g.ch((99, -1, None, "x"))}
        real = lambda x: g.ch(by_model[x]) if x in by_model and type(x) in NAME else ctx.real(x)
        try:
            ra = [real(x) for x in a]
            rk = {k: real(v) for k, v in kw.items()}
        except core.BuildError:
            continue
        kept = dict(rk)
        cut = ""
        if g.p(0.2):
            # the same call, cut short by an interrupt
            how, _ = ctx.state.fault.run(lambda: core.invoke(W, name, ra, dict(rk)), g.r.randrange(g.ch((5, 15, 60))))
            if how == "interrupted":
                ctx.event("interrupted in " + name)
                cut = f" (before, interrupted at {ctx.state.fault.at})"
        got, r = core.observe(W, name, ra, rk)
        call = core.show(name, a, kw) + cut
        ctx.event(name)
        ctx.key((name, a, tuple(sorted(kw.items(), key=lambda x: x[0]))))
        ctx.feat("raised" if type(got) is spec.Exc else "returned")
        for x in list(ra) + list(rk.values()):
            f = fp_of.get(id(x))
            if f is not None:
                ctx.event("fingerprint compared")
                if fingerprint(x) != f:
                    ctx.fail("a call changes its operand", {"call": call, "before": repr(f), "after": repr(fingerprint(x))})
        if rk != kept:
            ctx.fail("a call changes the caller's keyword arguments", {"call": call})
        if type(got) in NAME and r is not None and len(pop) < 40 and type(got) is not MWeekday:
            # results join the population: values derived from others must not disturb them
            f = fingerprint(r)
            if id(r) not in fp_of:
                pop.append((got, r))
                by_model.setdefault(got, []).append(r)
                fps.append((got, r, f))
                fp_of[id(r)] = f
                table.setdefault(r, []).append(len(fps) - 1)
                members.add(r)
                ctx.feat("derived values followed")
    for i, (m, o, f) in enumerate(fps):
        ctx.event("fingerprint compared at the end")
        f2 = fingerprint(o)
        if f2 != f:
            ctx.fail("a value changes", {"call": call, "before": repr(f), "after": repr(f2)})
        if o not in members or i not in table.get(o, ()):
            ctx.fail("a value is not found again", {"call": call, "value": repr(f[0])})
        if o != copy.copy(o) or hash(o) != f[3]:
            ctx.fail("hash or equality changes", {"call": call, "value": repr(f[0])})
    if g.p(0.1):
        _check_constants(ctx, call)


def attributes(ctx):
    """public names cannot be assigned or deleted"""
    g = ctx.g
    m = ops.MAKE[g.ch([t for t in NAME if t is not MWeekday])](g)
    o = core.make(ctx.W, m)
    f = fingerprint(o)
    names = [n for n in dir(type(o)) if not n.startswith("_")]
    for n in g.r.sample(names, min(10, len(names))):
        v = g.ch((1, None, o, "x"))
        for what, do in (("assigned", lambda: setattr(o, n, v)), ("deleted", lambda: delattr(o, n))):
            ctx.event("attribute " + what)
            ctx.key((NAME[type(m)], n, what))
            try:
                do()
            except (AttributeError, TypeError):
                continue
            ctx.fail("a public attribute can be " + what, {"call": f"{NAME[type(m)]}.{n}", "value": repr(m)})
    if fingerprint(o) != f:
        ctx.fail("failed assignment changes the value", {"call": NAME[type(m)], "value": repr(m), "after": repr(o)})


def subclassing(ctx):
    g = ctx.g
    for n in list(NAME.values()):
        base = getattr(ctx.W, n)
        ctx.event("subclass attempted")
        ctx.key(("subclass", n))
        try:
            k = g.r.randint(0, 2)
            if k == 0:
                type("Sub", (base,), {})
            elif k == 1:
                type(base)("Sub", (base,), {"__slots__": ()})
            else:
                class Sub(base):
                    pass
        except Exception:
            continue
        ctx.fail("a class can be subclassed", {"call": n})


WORKLOADS = [("histories", 5, history), ("attributes", 1, attributes), ("subclassing", 0.1, subclassing)]
