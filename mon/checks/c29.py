"""Results depend only on the arguments."""
import os

from ..vals import *
from .. import alone, cal, core, fault, ops, peer, spec, texts, tzdb, vals
from ..cal import S

QUICK, THOROUGH = 540, 9000
RULE = ("one case = a cluster of related calls (equal but not identical arguments: the same moment in other types and zones, ambiguous pairs, "
        "True/1/1.0, hash-equal numbers, timezone aliases; failing variants; calls cut short by an interrupt at any line), made in random orders and repeatedly, with fresh and shared "
        "objects, under other system timezones and a patched clock; every outcome (type, fields, text, hash, exception type) is compared "
        "with the other outcomes of that call, with the specification, with a second process (other hash seed, timezone, order, locale, decimal context, python -O, -OO, -W error, -X dev) "
        "and, for some, with a process in which it is the only call ever made; distinct = distinct calls")
ASSUMES = ["a forked copy of a process that has imported the package and made no call stands for a fresh process"]
SYSZ = core.SYS_ZONES + ["Asia/Tokyo", "Pacific/Apia", "America/St_Johns", "Africa/Monrovia"]
PEERS = (((), "de_DE"), (("-O",), None), ((), None), (("-W", "error"), None),
         (("-O",), "fa_IR"), (("-OO", "-W", "error"), None), (("-X", "dev"), None), (("-O",), "tr_TR"))
M61 = (1 << 61) - 1


def start(ctx):
    st = ctx.state
    st.alone = alone.Alone(ctx.W)
    flags, loc = PEERS[ctx.worker % len(PEERS)]
    st.peer = peer.Peer("Pacific/Auckland", str(1000 + ctx.worker), flags, loc, settings=ctx.worker % 2 == 0)
    ctx.feat("peer: " + " ".join([*flags, st.peer.locale or ""]))
    st.memo = {}
    st.home = spec.Sys.name
    st.zones = list(spec.KEYS)
    ctx.rng.shuffle(st.zones)
    st.zpos = 0
    st.seen_zones = []


def finish(ctx):
    ctx.state.peer.close()


# ------------------------------------------------------------------ equal but not identical
def _alias(g, tz):
    z = spec._zone(tz)
    k = _BY_DATA.get(tz)
    if k is None:
        k = _BY_DATA[tz] = _aliases(tz)
    return g.ch(k) if k else tz


_BY_DATA, _GROUPS = {}, {}


def _aliases(tz):
    """other keys of the same timezone data"""
    if not _GROUPS:
        for k in spec.KEYS:
            with open(os.path.join(tzdb.TZDIR, k), "rb") as f:
                _GROUPS.setdefault(f.read(), []).append(k)
    for ks in _GROUPS.values():
        if tz in ks:
            return [k for k in ks if k != tz]
    return []


def vary(g, x):
    """something equal to x (or of equal hash) that is not the same"""
    t = type(x)
    if t in EXACT:
        k = g.r.random()
        if k < 0.2 and t in (MZoned, MSystem):
            z = spec._zone(x.tz) if t is MZoned else spec.Sys.zone
            r = z.resolve(x.l // S)
            if r[0] == "fold":
                off = r[1] if x.off == r[2] else r[2]
                y = MZoned(x.l, off, x.tz) if t is MZoned else MSystem(x.l, off)
                return y if 0 <= utc(y) <= cal.MAX_NS else x
        if k < 0.35 and t is MZoned:
            tz = _alias(g, x.tz)
            try:
                y = spec.zat(tz, utc(x))
                return y
            except spec.Bad:
                return x
        return g.same_moment(x)
    if t is MTD:
        return g.ch((MDTD(0, 0, x.ns), MTD(x.ns), MTD(_collide(g, x.ns))))
    if t is MDD:
        return g.ch((MDTD(x.months, x.days, 0), MDD(x.days, x.months) if abs(x.months) <= cal.MAX_DELTA_DAYS and abs(x.days) <= cal.MAX_DELTA_MONTHS else x))
    if t is MDTD:
        return g.ch((MDD(x.months, x.days), MTD(x.ns), x))
    if t is MDate:
        return g.ch((MLocal(x.day * cal.DAY_NS), MDate(x.day), MYM(*cal.civil_from_days(x.day)[:2]), MMD(*cal.civil_from_days(x.day)[1:])))
    if t is MTime:
        return g.ch((MTime(x.ns), MTD(x.ns)))
    if t is MLocal:
        return g.ch((MInstant(x.l), MOffset(x.l, 0), MLocal(x.l)))
    if t is int:
        return g.ch((float(x) if abs(x) < 1 << 53 else x, bool(x) if x in (0, 1) else x, _collide(g, x), -x))
    if t is float:
        return int(x) if x == x and abs(x) < 1e18 and x == int(x) else x
    if t is str:
        if x in spec._KEYSET:
            return g.ch((_alias(g, x), x.lower()))
        return g.ch((Str(x), x))
    return x


def _collide(g, n):
    """another number of the same hash"""
    if n in (-1, -2):
        return -3 - n
    m = n - M61 if n > 0 else n + M61
    return m if abs(m) <= cal.MAX_DELTA_NS else n


class Str(str):
    """a str, equal and hash-equal to the plain one"""


def _vary_call(g, c):
    name, a, kw = c
    slots = list(range(len(a))) + list(kw)
    if not slots:
        return c
    a, kw = list(a), dict(kw)
    for s in g.r.sample(slots, min(len(slots), g.ch((1, 1, 2)))):
        if type(s) is int:
            y = vary(g, a[s])
            if s == 0 and type(a[s]) in NAME and "." in name and type(y) is not type(a[s]):
                # the receiver changes its type: the same operation of that type, if it has one
                n2 = NAME[type(y)] + "." + name.partition(".")[2]
                if n2 not in spec.SPEC:
                    continue
                name = n2
            a[s] = y
        else:
            kw[s] = vary(g, kw[s])
    return name, tuple(a), kw


def _break_call(g, c):
    """a variant that probably fails"""
    name, a, kw = c
    a, kw = list(a), dict(kw)
    slots = list(range(1, len(a))) + list(kw)
    if not slots or g.p(0.2):
        kw["bogus"] = 1
    else:
        s = g.ch(slots)
        v = g.ch((None, "x", 1 << 70, object, -1, 99))
        if s in ("hours", "minutes", "seconds", "milliseconds") and type(v) is str:
            v = None
        if type(s) is int:
            if not (name.startswith("fn.") or name in core._OPS):
                a[s] = v
        else:
            kw[s] = v
    return name, tuple(a), kw


def _k(c):
    return (c[0], repr(c[1]), repr([type(x).__name__ for x in c[1]]), repr(sorted(c[2].items())), repr(sorted((k, type(v).__name__) for k, v in c[2].items())))


def cluster(g, n):
    calls = []
    while len(calls) < n:
        c = ops.any_call(g) if g.p(0.9) else texts.call(g)
        if c[0] in ("pickle", "copy", "deepcopy"):
            continue
        calls.append(c)
        for _ in range(g.r.randint(1, 5)):
            base = g.ch(calls[-4:])
            calls.append(_vary_call(g, base) if g.p(0.8) else _break_call(g, base))
        if g.p(0.4) and type(c[1][0] if c[1] else None) in NAME:
            # other operations on the same receiver
            for _ in range(g.r.randint(1, 4)):
                calls.append(ops.on(g, c[1][0]))
    return calls


def _describe(o):
    return repr(o)[:400]


def orders(ctx):
    g = ctx.g
    st = ctx.state
    W = ctx.W
    calls = cluster(g, g.r.randint(8, 30))
    n = len(calls)
    sysread = [ops.reads_system_tz(c[0], list(c[1]) + list(c[2].values())) for c in calls]
    exps = []
    for c in calls:
        try:
            e = spec.expect(*c)
            # (several faults at once: which one is reported is not specified)
            exps.append(spec.ANYEXC if type(e) is spec.Raises else e)
        except Exception:
            exps.append(spec.SKIP)      # arguments the specification does not know: only consistency is judged
    seq = list(range(n)) * 2
    seq += [g.r.randrange(n) for _ in range(n // 2)]
    g.r.shuffle(seq)
    first = {}
    builder = core.Builder(W, direct=True)
    mode = 0
    patch = None
    try:
        for pos, i in enumerate(seq):
            c = calls[i]
            k = g.r.random()
            if k < 0.12:
                builder = core.Builder(W, direct=g.p(0.5))
            if k > 0.9 and patch is None:
                patch = W.patch_current_time(W.Instant.from_timestamp(g.r.randint(-10**9, 10**10)), keep_ticking=False)
                patch.__enter__()
                ctx.feat("patched clock")
            elif k > 0.85 and patch is not None:
                patch.__exit__(None, None, None)
                patch = None
            if sysread[i]:
                core.set_tz(st.home)
            elif g.p(0.15):
                core.set_tz(g.ch(SYSZ))
            rng = g.r
            try:
                ra = [builder(a, rng) for a in c[1]]
                rk = {kk: builder(v, rng) for kk, v in c[2].items()}
            except core.BuildError:
                continue
            got, obj = core.observe(W, c[0], ra, rk)
            ctx.event(c[0])
            o = alone.outcome(got, obj)
            if i not in first:
                first[i] = o
                ctx.key(_k(c))
                if exps[i] is not spec.SKIP:
                    ctx.specified += 1
                    if not spec.matches(exps[i], got) and not any(type(v) in (Str, bool) for v in [*c[1], *c[2].values()]):
                        ctx.fail("specification: " + c[0], {"call": core.show(*c), "expected": core._show_exp(exps[i]), "observed": core._show_exp(got),
                                                            "earlier": [core.show(*calls[j]) for j in seq[max(0, pos - 8):pos]], "system_tz": spec.Sys.name})
            elif o != first[i]:
                ctx.fail("the same call, another result", {"call": core.show(*c), "first": _describe(first[i]), "now": _describe(o),
                                                           "between": [core.show(*calls[j]) for j in seq[max(0, pos - 8):pos]], "system_tz": spec.Sys.name})
            else:
                ctx.event("outcome equal to an earlier one")
    finally:
        if patch is not None:
            patch.__exit__(None, None, None)
        core.set_tz(st.home)
    # another process, in the reverse order
    idx = [i for i in reversed(seq) if i in first and not sysread[i] and c_plain(calls[i]) and not (st.peer.locale and _by_locale(calls[i]))]
    if g.p(0.6):
        if g.p(0.2):
            st.peer.ask("tz", g.ch(SYSZ))
        for i, o in zip(idx, st.peer.ask("calls", [calls[i] for i in idx])):
            if o is None:
                continue
            ctx.event("outcome equal to another process's")
            if o != first[i][:-1] + (None,) and not (calls[i][0] == "hash") and o[:1] + (o[1:4],) != first[i][:1] + (first[i][1:4],):
                ctx.fail("another process, another result", {"call": core.show(*calls[i]), "here": _describe(first[i]), "there": _describe(o)})
    # alone
    idx = [i for i in g.r.sample(range(n), min(n, 4)) if i in first and c_plain(calls[i])]
    for i, o in zip(idx, st.alone.ask([calls[i] for i in idx], st.home)):
        if o is None:
            continue
        ctx.event("outcome equal to the call alone")
        if o != first[i]:
            ctx.fail("alone, another result", {"call": core.show(*calls[i]), "here": _describe(first[i]), "alone": _describe(o), "system_tz": st.home,
                                               "history": [core.show(*calls[j]) for j in seq[:12]]})


def _by_locale(c):
    """strptime's names are those of the locale"""
    return c[0].endswith("strptime")


def c_plain(c):
    """can it be sent to another process"""
    return all(type(v) in NAME or type(v) in (int, float, str, bool, type(None), Str, type) for v in [*c[1], *c[2].values()])


# ------------------------------------------------------------------ numbers
NUM = [("fn." + u, None) for u in spec.UNITS] + [("fn." + u, None) for u in spec.DUNITS] + \
      [("TimeDelta", u) for u in spec.UNITS] + [("DateDelta", u) for u in spec.DUNITS] + [("DateTimeDelta", "hours"), ("DateTimeDelta", "days")] + \
      [(c + ".from_timestamp" + x, None) for c in ("Instant", "SystemDateTime") for x in ("", "_millis", "_nanos")]


def numbers(ctx):
    """numerically equal arguments of different kinds, in random order"""
    g = ctx.g
    st = ctx.state
    name, kwn = g.ch(NUM)
    base = g.ch((0, 1, -1, 2, 24, 60, 1000, g.r.randint(-50, 50), g.logint(20)))
    vs = [base, float(base), base + 0.5, -base, _collide(g, base), Str(base), None]
    if base in (0, 1):
        vs += [bool(base), -0.0]
    calls = []
    for v in vs:
        if type(v) in (str, Str):
            v = None
        calls.append((name, (), {kwn: v}) if kwn else (name, (v,), {}))
    calls = calls * 2
    g.r.shuffle(calls)
    outs = []
    b = core.Builder(ctx.W, direct=True)
    for c in calls:
        outs.append(alone.run(ctx.W, b, c))
        ctx.event("number " + c[0])
    missing = [c for c in calls if _k(c) not in st.memo]
    if len(st.memo) > 20000:
        st.memo.clear()
        missing = calls
    for c, o in zip(missing, st.alone.ask(missing, st.home)):
        st.memo[_k(c)] = o
    for c, o in zip(calls, outs):
        ctx.key(_k(c))
        if o != st.memo[_k(c)]:
            ctx.fail("alone, another result", {"call": core.show(*c), "here": _describe(o), "alone": _describe(st.memo[_k(c)]),
                                               "history": [core.show(*x) for x in calls]})


# ------------------------------------------------------------------ texts
def parsing(ctx):
    """texts for few parsers, accepted and refused in turn, again and again"""
    g = ctx.g
    st = ctx.state
    names = [g.ch(texts.PARSERS + ("strptime",)) for _ in range(g.ch((1, 1, 2, 3)))]
    calls = [texts.call(g, g.ch(names)) for _ in range(g.r.randint(6, 20))]
    for n, a, kw in list(calls):
        if g.p(0.4):
            calls.append((n, (g.mutate(a[0]) if g.p(0.7) else Str(a[0]),) + a[1:], kw))
    seq = calls * 2 + [g.ch(calls) for _ in range(len(calls))]
    g.r.shuffle(seq)
    if g.p(0.4):
        seq = calls + seq       # (as generated: alike texts next to each other)
    b = core.Builder(ctx.W, direct=True)
    seen = {}
    for pos, c in enumerate(seq):
        o = alone.run(ctx.W, b, c)
        ctx.event("text " + c[0])
        ctx.key(_k(c))
        k = _k(c)
        if k not in seen:
            seen[k] = o, c
            try:
                e = spec.expect(*c)
            except Exception:
                e = spec.SKIP
            if type(c[1][0]) is str and e is not spec.SKIP and not spec.matches(spec.ANYEXC if type(e) is spec.Raises else e, core.observe(ctx.W, c[0], list(c[1]), {})[0]):
                ctx.fail("specification: " + c[0], {"call": core.show(*c), "observed": _describe(o), "expected": core._show_exp(e),
                                                    "earlier": [core.show(*x) for x in seq[max(0, pos - 8):pos]]})
        elif o != seen[k][0]:
            ctx.fail("the same text, another result", {"call": core.show(*c), "first": _describe(seen[k][0]), "now": _describe(o),
                                                       "between": [core.show(*x) for x in seq[max(0, pos - 8):pos]]})
        ctx.feat("refused" if o[0] == "raises" else "accepted")
    some = g.r.sample(list(seen.values()), min(len(seen), 10))
    for (o, c), w in zip(some, st.alone.ask([c for _, c in some], st.home)):
        ctx.event("outcome equal to the call alone")
        if o != w:
            ctx.fail("alone, another result", {"call": core.show(*c), "here": _describe(o), "alone": _describe(w),
                                               "history": [core.show(*x) for x in seq[:20]]})
    if g.p(0.5):
        some = [(o, c) for o, c in some if not ops.reads_system_tz(c[0], c[1]) and not (st.peer.locale and _by_locale(c))]
        for (o, c), w in zip(some, st.peer.ask("calls", [c for _, c in some])):
            if w is None:
                continue
            ctx.event("outcome equal to another process's")
            if o[:4] != w[:4]:
                ctx.fail("another process, another result", {"call": core.show(*c), "here": _describe(o), "there": _describe(w)})


# ------------------------------------------------------------------ many zones
def zones(ctx):
    """timezone lookups stay right however many zones are used, failing lookups in between included"""
    g = ctx.g
    st = ctx.state
    n = g.r.randint(10, 60)
    batch = [st.zones[(st.zpos + i) % len(st.zones)] for i in range(n)]
    st.zpos += n
    for tz in batch + g.r.sample(st.seen_zones, min(len(st.seen_zones), n)) + batch[:5]:
        z = spec._zone(tz)
        l = g.zlocal(tz)
        u = min(max(l - 3600 * S, 2 * cal.DAY_NS), cal.MAX_NS - 2 * cal.DAY_NS)
        ctx.call("Instant.to_tz", MInstant(u), tz)
        ctx.call("LocalDateTime.assume_tz", MLocal(l), tz, disambiguate=g.ch(spec.DIS))
        ctx.call("ZonedDateTime.from_timestamp_nanos", u - cal.EPOCH_NS, tz=tz)
        if g.p(0.1):
            ctx.call("Instant.to_tz", MInstant(u), tz + g.ch(("x", "/", " ", "\0")))
        ctx.feat("zones visited")
    for tz in batch:
        if len(st.seen_zones) < 700:
            st.seen_zones.append(tz)


# ------------------------------------------------------------------ one operation, equal and nearly equal receivers
def _twin(g, x):
    """equal to x, of the same type, and yet another value; or as near to it as can be"""
    t = type(x)
    if t in (MOffset, MZoned, MSystem) and g.p(0.8):
        u = utc(x)
        for _ in range(4):
            if t is MZoned:
                tz = g.tz()
                y = MZoned(u + spec._zone(tz).offset_at(u // S) * S, spec._zone(tz).offset_at(u // S), tz)
            elif t is MOffset:
                o = g.off()
                y = MOffset(u + o * S, o)
            else:
                z = spec._zone(g.tz())
                y = MSystem(u + z.offset_at(u // S) * S, z.offset_at(u // S))
            if 0 <= y.l <= cal.MAX_NS and y != x:
                return y
    d = g.ch((1, -1, 1000, S, 60 * S, 3600 * S, cal.DAY_NS, -cal.DAY_NS))
    if t is MInstant:
        return MInstant(min(max(utc(x) + d, 0), cal.MAX_NS))
    if t is MLocal:
        return MLocal(min(max(x.l + d, 0), cal.MAX_NS))
    if t is MTD:
        return MTD(g.ch((-x.ns, x.ns + d if abs(x.ns + d) <= cal.MAX_DELTA_NS else x.ns, _collide(g, x.ns))))
    if t is MTime:
        return MTime((x.ns + d) % cal.DAY_NS)
    if t in NAME:
        return ops.MAKE[t](g)
    if t in (int, float, str):
        return vary(g, x)
    return x


def _twin_call(g, c):
    name, a, kw = c
    a, kw = list(a), dict(kw)
    k = g.r.random()
    if a and k < 0.75:
        a[0] = _twin(g, a[0]) if type(a[0]) in NAME else vary(g, a[0])
    rest = [i for i in range(1, len(a))] + list(kw)
    if rest and k > 0.55:
        s = g.ch(rest)
        if type(s) is int:
            a[s] = _twin(g, a[s])
        else:
            kw[s] = _twin(g, kw[s])
    return name, tuple(a), kw


def _in_place(ctx, c, gone):
    """the arguments, in the memory of those of the call before if that can be had"""
    def new(m):
        if type(m) not in NAME:
            return m
        others = []
        for _ in range(20):
            try:
                o = core.make(ctx.W, m)
            except Exception as e:
                raise core.BuildError(repr(e))
            if not gone:
                if not same(snap(o), m):
                    raise core.BuildError(repr(m))
                break
            if id(o) in gone:
                ctx.event("object in the place of another")
                break
            others.append(o)
        return o
    return [new(a) for a in c[1]], {k: new(v) for k, v in c[2].items()}


def twins(ctx):
    """each operation in turn: on equal values that differ, directly after each other, with objects that take each other's place"""
    g = ctx.g
    st = ctx.state
    if not hasattr(st, "each"):
        st.each = ops.turns(ctx)
        st.turn = 0
    b = core.Builder(ctx.W, direct=True)
    for _ in range(24):
        e = st.each[st.turn % len(st.each)]
        st.turn += 1
        c = ops.call_of(g, e)
        if c is None or c[0] in ("pickle", "copy", "deepcopy"):
            continue
        calls = [c] + [_twin_call(g, c) for _ in range(g.ch((1, 2, 3)))]
        first = {}
        fresh = g.p(0.5)
        gone = ()
        seq = [0, 1, 0] + [g.r.randrange(len(calls)) for _ in range((6 if fresh else 2) * len(calls))]
        for pos, i in enumerate(seq):
            c = calls[i]
            try:
                if fresh:       # (and the objects of the call before are gone)
                    ra, rk = _in_place(ctx, c, gone)
                else:
                    ra, rk = [b(a, g.r) for a in c[1]], {k: b(v, g.r) for k, v in c[2].items()}
            except core.BuildError:
                continue
            got, obj = core.observe(ctx.W, c[0], ra, rk)
            o = alone.outcome(got, obj)
            gone = {id(x) for x in [*ra, *rk.values()]}
            del ra, rk, obj
            ctx.event("twin " + c[0])
            if i not in first:
                first[i] = o
                ctx.key(_k(c))
                try:
                    x = spec.expect(*c)
                except Exception:
                    x = spec.SKIP
                if x is not spec.SKIP:
                    ctx.specified += 1
                    if not spec.matches(spec.ANYEXC if type(x) is spec.Raises else x, got) and not any(type(v) in (Str, bool) for v in [*c[1], *c[2].values()]):
                        ctx.fail("specification: " + c[0], {"call": core.show(*c), "expected": core._show_exp(x), "observed": core._show_exp(got),
                                                            "earlier": [core.show(*calls[j]) for j in seq[:pos]], "system_tz": spec.Sys.name})
            elif o != first[i]:
                ctx.fail("the same call, another result", {"call": core.show(*c), "first": _describe(first[i]), "now": _describe(o),
                                                           "between": [core.show(*calls[j]) for j in seq[:pos]], "system_tz": spec.Sys.name})


def interrupted(ctx):
    """a call made again after others (equal arguments, other arguments) were cut short anywhere"""
    g = ctx.g
    st = ctx.state
    if not hasattr(st, "fault"):
        st.fault = fault.get()
        st.each2 = ops.turns(ctx)
        st.turn2 = 0
    for _ in range(16):
        e = st.each2[st.turn2 % len(st.each2)]
        st.turn2 += 1
        c = ops.call_of(g, e)
        if c is None or c[0] in ("pickle", "copy", "deepcopy"):
            continue
        calls = [c] + [_twin_call(g, c) for _ in range(g.ch((1, 2)))]
        objs, n = [], {}
        b = core.Builder(ctx.W, direct=True)
        for x in calls:
            try:
                objs.append(([b(a, g.r) for a in x[1]], {k: b(v, g.r) for k, v in x[2].items()}))
            except core.BuildError:
                objs.append(None)
        if objs[0] is None:
            continue
        first, cut = None, []
        for turn in range(g.ch((4, 8, 16))):
            i = g.r.randrange(len(calls))
            if objs[i] is None:
                continue
            f = lambda: core.invoke(ctx.W, calls[i][0], *objs[i])
            if i not in n:
                n[i] = st.fault.run(f)[1] if g.p(0.5) else 12
            how, _ = st.fault.run(f, g.r.randrange(max(1, n[i])))
            if how == "interrupted":
                ctx.event("interrupted in " + c[0])
                cut.append((i, st.fault.at))
            elif how == "swallowed":
                ctx.fail("an interrupt is swallowed", {"call": core.show(*calls[i]), "at": st.fault.at})
            if g.p(0.5) and turn:
                continue
            got, obj = core.observe(ctx.W, c[0], *objs[0])
            o = alone.outcome(got, obj)
            if first is None:
                first = o
                ctx.key(_k(c))
                try:
                    x = spec.expect(*c)
                except Exception:
                    x = spec.SKIP
                if x is not spec.SKIP:
                    ctx.specified += 1
                    if not spec.matches(spec.ANYEXC if type(x) is spec.Raises else x, got) and not any(type(v) in (Str, bool) for v in [*c[1], *c[2].values()]):
                        ctx.fail("after interrupts: specification: " + c[0], {"call": core.show(*c), "expected": core._show_exp(x), "observed": core._show_exp(got),
                                 "interrupted": [(core.show(*calls[j]), at) for j, at in cut], "system_tz": spec.Sys.name})
            elif o != first:
                ctx.fail("after interrupts: the same call, another result", {"call": core.show(*c), "first": _describe(first), "now": _describe(o),
                         "interrupted": [(core.show(*calls[j]), at) for j, at in cut], "system_tz": spec.Sys.name})
            ctx.event("repeated after interrupts")


WORKLOADS = [("interrupted", 2, interrupted), ("twins", 4, twins), ("orders", 6, orders), ("numbers", 2, numbers), ("parsing", 2, parsing), ("zones", 1, zones)]
