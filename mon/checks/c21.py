"""Pickling and copying."""
import copy
import io
import pickle
import struct

from ..vals import *
from .. import cal, core, ops, peer, spec, vals

QUICK, THOROUGH = 20000, 700000
RULE = ("one case = a value (all types; range ends, ambiguous times, historic offsets, results of operations) pickled with a protocol "
        "and loaded here or in a separate process of another hash seed and timezone, copied, put in containers, or loaded from the "
        "released byte layout; distinct = distinct (value, protocol or route)")
TYPES = [t for t in NAME]
UNKNOWN = cal.EPOCH_NS // S


def start(ctx):
    tzs = ("Asia/Tokyo", "America/St_Johns", "UTC", "Europe/London")
    ctx.state.peer = peer.Peer(tz=tzs[ctx.worker % 4] if hasattr(ctx, "worker") else tzs[0], hashseed=str(1 + getattr(ctx, "worker", 0) * 7))
    ctx.state.batch = []


def finish(ctx):
    _flush(ctx)
    ctx.state.peer.close()


def _check(ctx, m, o, u, how):
    """u (loaded, copied ...) is indistinguishable from o"""
    t = type(m)
    d = {"call": how, "value": repr(m)}
    try:
        got = snap(u)
    except Malformed as e:
        got = e
    ctx.event(how.split(" ")[0])
    if type(u) is not type(o) or not same(got, m):
        ctx.fail(how.split(" ")[0] + " changes the value", {**d, "observed": repr(got)})
    elif not (u == o and not (u != o) and hash(u) == hash(o) and str(u) == str(o) and repr(u) == repr(o)):
        ctx.fail(how.split(" ")[0] + " gives a value unequal to the original", d)
    elif t in EXACT and not (u.exact_eq(o) and o.exact_eq(u) and u.timestamp_nanos() == o.timestamp_nanos()):
        ctx.fail(how.split(" ")[0] + " gives a value not exactly equal", d)
    elif t is MZoned and (u.tz != o.tz or u.is_ambiguous() != o.is_ambiguous()):
        ctx.fail(how.split(" ")[0] + " changes the timezone", d)
    ctx.key((m, how))
    ctx.feat(NAME[t])


def _any(ctx):
    g = ctx.g
    m = ops.MAKE[g.ch(TYPES)](g)
    k = g.r.random()
    if k < 0.15 and type(m) in (MInstant, MLocal):
        m = type(m)(g.ch((0, cal.MAX_NS, 1, cal.MAX_NS - 1, S, cal.EPOCH_NS, cal.EPOCH_NS - 1, cal.EPOCH_NS + S - 1)))
    elif k < 0.15 and type(m) is MTD:
        m = MTD(g.ch((1, -1)) * (cal.MAX_DELTA_NS - g.ch((0, 1, S))))
    elif k < 0.15 and type(m) is MOffset:
        l = g.ch((0, cal.MAX_NS, 1, cal.MAX_NS - 1))
        off = g.ch((86399, 1, 3600, 86340))
        m = MOffset(l, off if l > S else -off)
    o = None
    if g.p(0.3):
        # results of operations rather than freshly built values
        name, a, kw = ops.on(g, m)
        try:
            ra = [ctx.real(x) for x in a]
            rk = {k2: ctx.real(v) for k2, v in kw.items()}
        except core.BuildError:
            return None, None
        got, r = core.observe(ctx.W, name, ra, rk)
        if type(got) in NAME and r is not None:
            m, o = got, r
            ctx.feat("results of operations")
    return m, (ctx.real(m) if o is None else o)


class _PurePython:
    """the pure-Python pickler and unpickler"""
    @staticmethod
    def dumps(o, p):
        return pickle._dumps(o, p)

    loads = staticmethod(pickle._loads)


def here(ctx):
    g = ctx.g
    m, o = _any(ctx)
    if o is None:
        return
    p = g.r.randint(0, pickle.HIGHEST_PROTOCOL)
    impl = _PurePython if g.p(0.1) else pickle
    data = impl.dumps(o, p)
    u = impl.loads(data)
    _check(ctx, m, o, u, f"pickle protocol {p}")
    if not same(snap(o), m):
        ctx.fail("pickling changes the original", {"call": "pickle", "value": repr(m), "after": repr(snap(o))})
    # a value that went through a pickle works like any other
    if g.p(0.3):
        ctx.build.pool[m] = [u]
        name, a, kw = ops.on(g, m)
        ctx.call(name, *a, **kw)
    if g.p(0.1):
        # the text of a pickle of an equal value in another process would be the same
        if pickle.dumps(u, p) != pickle.dumps(o, p) and type(m) is not MZoned and p:
            ctx.feat("pickles differ in bytes")


def copies(ctx):
    g = ctx.g
    m, o = _any(ctx)
    if o is None:
        return
    f = g.ch((copy.copy, copy.deepcopy))
    _check(ctx, m, o, f(o), f.__name__)


def containers(ctx):
    g = ctx.g
    vs = [v for v in (_any(ctx) for _ in range(g.r.randint(2, 6))) if v[1] is not None]
    if not vs:
        return
    ms, os_ = [v[0] for v in vs], [v[1] for v in vs]
    shared = os_[0]
    box = {"list": list(os_) + [shared], "tuple": tuple(os_), "set": set(os_), "keys": {o: i for i, o in enumerate(os_)},
           "nested": [[shared, {"x": shared}], (shared,)]}
    how = g.r.randint(0, 3)
    if how == 0:
        p = g.r.randint(0, pickle.HIGHEST_PROTOCOL)
        b = pickle.loads(pickle.dumps(box, p))
    elif how == 1:
        b = copy.deepcopy(box)
    elif how == 2:
        f = io.BytesIO()
        pk = pickle.Pickler(f, g.r.randint(0, pickle.HIGHEST_PROTOCOL))
        pk.dump(box)
        pk.dump(os_)     # the memo refers to objects of the first pickle
        f.seek(0)
        up = pickle.Unpickler(f)
        b = up.load()
        l2 = up.load()
        if [snap(x) for x in l2] != ms:
            ctx.fail("containers", {"call": "Pickler with memo", "values": repr(ms), "observed": repr(l2)})
    else:
        b = copy.copy(box)
    ctx.event("containers")
    ctx.key(("box", how, tuple(ms)))
    ok = ([snap(x) for x in b["list"]] == ms + [ms[0]] and [snap(x) for x in b["tuple"]] == ms
          and b["set"] == box["set"] and len(b["set"]) == len(box["set"]) and all(o in b["set"] for o in os_)
          and b["keys"] == box["keys"] and all(b["keys"][o] == box["keys"][o] for o in os_)
          and same(snap(b["nested"][0][0]), ms[0]) and same(snap(b["nested"][0][1]["x"]), ms[0]) and b == box)
    if not ok:
        ctx.fail("containers do not survive", {"call": f"containers route {how}", "values": repr(ms), "observed": repr(b)})


def other_process(ctx):
    m, o = _any(ctx)
    if o is None:
        return
    g = ctx.g
    p, q = g.r.randint(0, pickle.HIGHEST_PROTOCOL), g.r.randint(0, pickle.HIGHEST_PROTOCOL)
    ctx.state.batch.append((m, o, pickle.dumps(o, p), p, q))
    if len(ctx.state.batch) >= 200:
        _flush(ctx)


def _flush(ctx):
    b, ctx.state.batch = ctx.state.batch, []
    if not b:
        return
    r = ctx.state.peer.ask("unpickle", [(x[2], x[4]) for x in b])
    for (m, o, data, p, q), (s, txt, mod, back, err) in zip(b, r):
        ctx.event("loaded in another process")
        how = f"pickle protocol {p}, loaded in another process"
        if err is not None or not same(s, m) or txt != str(o):
            ctx.fail("another process loads another value", {"call": how, "value": repr(m), "observed": repr((s, txt, err))})
        else:
            _check(ctx, m, o, pickle.loads(back), f"round_trip through another process (protocols {p}, {q})")


# ---- the layout of the released versions, written out by hand
def _dt7(l):
    y, mo, d, h, mi, s, n = cal.fields(l)
    return struct.pack("<HBBBBBI", y, mo, d, h, mi, s, n)


def _layout(m):
    t = type(m)
    if t is MDate:
        return "_unpkl_date", (struct.pack("<HBB", *cal.civil_from_days(m.day)),)
    if t is MYM:
        return "_unpkl_ym", (struct.pack("<HB", *m),)
    if t is MMD:
        return "_unpkl_md", (struct.pack("<BB", *m),)
    if t is MTime:
        s, n = divmod(m.ns, S)
        return "_unpkl_time", (struct.pack("<BBBI", s // 3600, s // 60 % 60, s % 60, n),)
    if t is MTD:
        return "_unpkl_tdelta", (struct.pack("<qI", *divmod(m.ns, S)),)
    if t is MDD:
        return "_unpkl_ddelta", tuple(m)
    if t is MDTD:
        return "_unpkl_dtdelta", (m.months, m.days) + divmod(m.ns, S)
    if t is MInstant:
        s, n = divmod(m.u - cal.EPOCH_NS, S)
        return "_unpkl_utc", (struct.pack("<qI", s + 62135596800 + 86400, n),)
    if t is MLocal:
        return "_unpkl_local", (_dt7(m.l),)
    if t is MOffset:
        return "_unpkl_offset", (_dt7(m.l) + struct.pack("<i", m.off),)
    if t is MSystem:
        return "_unpkl_system", (_dt7(m.l) + struct.pack("<i", m.off),)
    if t is MZoned:
        return "_unpkl_zoned", (_dt7(m.l) + struct.pack("<i", m.off), m.tz)


def _op(x):
    if type(x) is bytes:
        return b"C" + bytes([len(x)]) + x
    if type(x) is str:
        b = x.encode()
        return b"X" + struct.pack("<I", len(b)) + b
    b = x.to_bytes(10, "little", signed=True)
    return b"\x8a" + bytes([len(b)]) + b


def released_layout(ctx):
    g = ctx.g
    m = ops.MAKE[g.ch([t for t in TYPES if t is not MWeekday])](g)
    f, args = _layout(m)
    mod = b"whenever"
    data = b"\x80\x03c" + mod + b"\n" + f.encode() + b"\n" + b"(" + b"".join(_op(a) for a in args) + b"tR."
    o = ctx.real(m)
    try:
        u = pickle.loads(data)
    except Exception as e:
        ctx.fail("released layout does not load", {"call": f"pickle.loads({data!r})", "value": repr(m), "observed": repr(e)})
        return
    _check(ctx, m, o, u, "released layout")


def twins(ctx):
    """both occurrences of an ambiguous time; the same moment in two zones"""
    g = ctx.g
    m = g.zoned()
    z = spec._zone(m.tz)
    r = z.resolve(m.l // S)
    if r[0] == "fold":
        ms = [MZoned(m.l, off, m.tz) for off in r[1:]]
        ctx.feat("ambiguous pairs")
    else:
        x = g.same_moment(m)
        ms = [m, x]
    if not all(0 <= utc(x) <= cal.MAX_NS for x in ms):
        return
    os_ = [ctx.real(x) for x in ms]
    p = g.r.randint(0, pickle.HIGHEST_PROTOCOL)
    us = pickle.loads(pickle.dumps(os_, p)) if g.p(0.5) else copy.deepcopy(os_)
    for x, o, u in zip(ms, os_, us):
        _check(ctx, x, o, u, "together with its twin")


WORKLOADS = [("pickle", 4, here), ("copy", 1.5, copies), ("containers", 1, containers), ("another process", 3, other_process),
             ("released layout", 2.5, released_layout), ("twins", 1, twins)]
