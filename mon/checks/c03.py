"""Comparison, equality, hashing."""
from ..vals import *
from .. import cal, spec, vals, core

QUICK, THOROUGH = 9000, 400000
RULE = ("one case = two values (same moment in other types/zones, a nanosecond apart, equal or nearly equal plain values, or of "
        "unrelated kinds) compared by all six operators, hash and exact_eq, or a list sorted and looked up; distinct = distinct judged calls")
OPS = ("==", "!=", "<", "<=", ">", ">=")


def _hash(ctx, a, b):
    try:
        ra, rb = ctx.real(a), ctx.real(b)
    except core.BuildError:
        return
    if spec.SPEC["=="](a, b):
        ctx.event("hash")
        ctx.feat("equal pair hashed")
        ha, hb = hash(ra), hash(rb)
        ctx.check(ha == hb, "hash of equal values", lambda: {"call": core.show("hash", (a, b), {}), "hashes": [ha, hb],
                  "a": repr(ra), "b": repr(rb)})
        ctx.check({ra: 1}.get(rb) == 1 and rb in {ra}, "dict lookup of equal value",
                  lambda: {"call": core.show("lookup", (a, b), {})})


def all_ops(ctx, a, b):
    for o in OPS:
        ctx.call(o, a, b)
    ctx.call(ctx.g.ch(OPS), b, a)
    _hash(ctx, a, b)


def exact(ctx):
    a = ctx.g.exact()
    b = ctx.g.same_moment(a) if ctx.g.p(0.8) else ctx.g.exact()
    if utc(a) == utc(b):
        ctx.feat("same moment")
    all_ops(ctx, a, b)
    if type(a) is type(b) or ctx.g.p(0.2):
        ctx.call(NAME[type(a)] + ".exact_eq", a, b)


def exact_equal(ctx):
    """exact_eq: same type and moment, differing only in offset, zone name or occurrence"""
    g = ctx.g
    a = g.ch((g.zoned, g.zoned, g.offset, g.system, g.instant))()
    k = g.r.random()
    if k < 0.3:
        b = a
    elif type(a) is MZoned:
        # other keys with the same rules, links, or the other occurrence
        r = spec._zone(a.tz).resolve(a.l // S)
        if k < 0.5 and r[0] == "fold":
            off = r[1] if a.off == r[2] else r[2]
            b = MZoned(a.l, off, a.tz)
        else:
            try:
                b = spec.zat(g.ch(_links(a.tz)), utc(a))
            except spec.Bad:
                return
    elif type(a) is MInstant:
        b = MInstant(min(cal.MAX_NS, a.u + g.ch((0, 1, 1000))))
    else:
        b = g.same_moment(a)
        if type(b) not in (MOffset, MSystem, MZoned):
            return
        b = type(a)(b.l, b.off)
    ctx.call(NAME[type(a)] + ".exact_eq", a, b)
    ctx.call("==", a, b)
    _hash(ctx, a, b)


_LINKS = {}


def _links(tz):
    if not _LINKS:
        by = {}
        from .. import tzdb
        import os
        for k in spec.KEYS:
            by.setdefault(open(os.path.join(tzdb.TZDIR, k), "rb").read(), []).append(k)
        for v in by.values():
            for k in v:
                _LINKS[k] = v if len(v) > 1 else spec.KEYS
    return _LINKS[tz]


def plain(ctx):
    g = ctx.g
    mk = g.ch((g.date, g.time, g.time, g.ldt, g.ldt, g.td, g.dd, g.dtd, g.ym, g.md))
    a, b = mk(), mk()
    if g.p(0.6):
        # change one component a little
        i = g.r.randint(0, len(a) - 1)
        t = list(a)
        t[i] += g.ch((0, 0, 1, -1, 1000, -1000, S, -S))
        b = type(a)(*t)
        try:
            if type(b) is MTime:
                spec.need(0 <= b.ns < cal.DAY_NS)
            elif type(b) is MLocal:
                spec.need(spec.ok_local(b.l))
            elif type(b) is MDate:
                spec.need(0 <= b.day <= cal.MAX_DAY)
            elif type(b) is MTD:
                spec.mk_td(b.ns)
            elif type(b) is MDD:
                spec.mk_dd(*b)
            elif type(b) is MDTD:
                spec.mk_dtd(*b)
            elif type(b) is MYM:
                spec.need(cal.valid_date(*b, 1))
            elif type(b) is MMD:
                spec.need(cal.valid_date(4, *b))
        except spec.Bad:
            b = a
    all_ops(ctx, a, b)


def mixed(ctx):
    g = ctx.g
    mk = (g.date, g.time, g.ldt, g.td, g.dd, g.dtd, g.ym, g.md, g.instant, g.offset, g.zoned, g.system)
    a = g.ch(mk)()
    k = g.r.random()
    if k < 0.5:
        b = g.ch(mk)()
    elif k < 0.7:
        # same numbers, different kind
        b = g.ch([MDate(0), MTime(0), MTD(0), MDD(0, 0), MDTD(0, 0, 0), MLocal(0), MInstant(0), MOffset(0, 0)])
        a = g.ch([MDate(0), MTime(0), MTD(0), MDD(0, 0), MDTD(0, 0, 0), MLocal(0), MInstant(0), MOffset(0, 0)])
    elif type(a) in EXACT:
        b = MLocal(a.u if type(a) is MInstant else a.l)
    else:
        b = g.ch((None, 0, 1, "x", 1.5, (), object, True))
    for o in OPS:
        ctx.call(o, a, b)
    if type(b) in NAME:
        for o in OPS[:2]:
            ctx.call(o, b, a)
        _hash(ctx, a, b)


def ordering(ctx):
    """sort and look up a whole list"""
    g = ctx.g
    if g.p(0.6):
        base = g.exact()
        ms = [base] + [g.same_moment(base) for _ in range(6)]
    else:
        mk = g.ch((g.date, g.time, g.ldt, g.td, g.ym, g.md))
        ms = [mk() for _ in range(7)]
    rs = [ctx.real(m) for m in ms]
    order = [i for i in sorted(range(len(ms)), key=lambda i: (spec._cmp_key(ms[i])))]
    got = sorted(rs)
    ctx.event("sorted")
    ctx.key(tuple(ms))
    want = [spec._cmp_key(ms[i]) for i in order]
    seen = [spec._cmp_key(snap(o)) for o in got]
    ctx.check(want == seen, "sorted order", lambda: {"call": "sorted", "values": [core._show1(m) for m in ms], "got": [str(o) for o in got]})
    ctx.check(spec._cmp_key(snap(min(rs))) == want[0] and spec._cmp_key(snap(max(rs))) == want[-1], "min/max",
              lambda: {"call": "min/max", "values": [core._show1(m) for m in ms]})
    ctx.check(len(set(rs)) == len(set(want)), "set size",
              lambda: {"call": "set", "values": [core._show1(m) for m in ms], "size": len(set(rs))})


WORKLOADS = [("exact times", 4, exact), ("exact_eq", 2, exact_equal), ("plain values", 3, plain), ("unrelated kinds", 1, mixed),
             ("sorting and sets", 1, ordering)]
