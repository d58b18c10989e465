"""The native extension never crashes, overflows, corrupts or leaks memory.

Oracles: the process survives (overflow checks, debug assertions and unsafe preconditions abort in the "checked" build, memory
errors in the "asan" build, a corrupted allocator in either), every outcome is well-formed and no SystemError, the reference
counts of everything handed in or shared, and the live memory, are the same after a call as before.
"""
import array
import copy
import ctypes
import datetime as dt
import gc
import importlib
import io
import os
import pickle
import re
import signal
import struct
import subprocess
import sys
import time
import types
import zoneinfo

from ..vals import *
from .. import cal, core, ext, ops, spec, texts, vals
from . import c29, c32

QUICK, THOROUGH = 4000, 60000
RULE = ("one case = one call (of any class, member or function of the extension, on ordinary or hostile receivers and arguments) repeated until its "
        "effect on reference counts and live memory is clear; or a history of calls on hostile objects; or one case of another check's workload run on "
        "an instrumented build; distinct = distinct calls")
ASSUMES = ["the extension is compiled by rustc against /verif/rust (a stand-in for the pyo3-ffi crate, which can't be had here), not by cargo",
           "AddressSanitizer watches the extension's own accesses and all heap objects, not the accesses of the (uninstrumented) interpreter, but for its allocator",
           "references to immortal objects (None, True, small ints) can't be counted in CPython 3.12",
           "the observed executions are representative: exploration, not proof"]
REP = 24
_KEYISH = re.compile(r"[A-Z][A-Za-z]+(/[A-Za-z_+\-0-9]+)*")
CLASSES = tuple(NAME.values())
ASAN_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"


def env_of(build):
    if "asan" in build:
        return {"LD_PRELOAD": ASAN_RT, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", "PYTHONMALLOC": "malloc"}
    if "debug allocator" in build:
        return {"PYTHONMALLOC": "debug"}
    return {}


# ------------------------------------------------------------------ hostile objects
class Custom(Exception):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class StrSub(str):
    pass


class EvilStr(str):
    """compares and hashes with side effects"""
    def __eq__(self, o):
        if _vocab(o):
            _churn()
        return str.__eq__(self, o)

    def __hash__(self):
        return str.__hash__(self)


class RaisingStr(str):
    def __eq__(self, o):
        if _vocab(o):
            raise Custom("eq")
        return str.__eq__(self, o)

    def __hash__(self):
        return str.__hash__(self)


class BytesSub(bytes):
    pass


class DateSub(dt.date):
    pass


class DateTimeSub(dt.datetime):
    @property
    def tzinfo(self):
        raise Custom("tzinfo")


class DateTimeSub2(dt.datetime):
    def replace(self, *a, **k):
        return None

    def utcoffset(self):
        return "x"

    def astimezone(self, *a):
        return 3


class TimeSub(dt.time):
    pass


class DeltaSub(dt.timedelta):
    pass


class Index:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return _answer(self.v)

    __int__ = __float__ = __index__


class Cmp:
    """answers every comparison and operator"""
    def __init__(self, v):
        self.v = v

    def _a(self, *a, **k):
        if a and isinstance(a[0], str) and not _vocab(a[0]):
            return NotImplemented
        _churn()
        return _answer(self.v)

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = _a
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _a
    __hash__ = None


class EvilTz(dt.tzinfo):
    def __init__(self, off=None, key=None):
        self.off = off
        if key is not None:
            self.key = key

    def utcoffset(self, d):
        _churn()
        return _answer(self.off)

    dst = utcoffset

    def tzname(self, d):
        return self.off

    def fromutc(self, d):
        return self.off


class EvilZone(zoneinfo.ZoneInfo):
    mode = None

    def utcoffset(self, d):
        _churn()
        m = type(self).mode
        if m is None:
            return zoneinfo.ZoneInfo.utcoffset(self, d)
        return _answer(m)

    def fromutc(self, d):
        return 3 if type(self).mode == 3 else zoneinfo.ZoneInfo.fromutc(self, d)


class KeyZone(zoneinfo.ZoneInfo):
    @property
    def key(self):
        raise Custom("key")


EVILZONES = [type(f"EvilZone{i}", (EvilZone,), {"mode": m}) for i, m in enumerate((
    None, 3, "x", Custom("utcoffset"), dt.timedelta(hours=30), dt.timedelta(microseconds=1), dt.timedelta(hours=-23), dt.timedelta.max))] + [KeyZone]


def _vocab(o):
    """may a comparison with o misbehave? Not with keys of timezones: the cache of the zoneinfo module (not under test) breaks"""
    return type(o) is str and o in KW or o in WORDS[:17]


def _churn():
    zoneinfo.ZoneInfo.clear_cache()
    [object() for _ in range(50)]


def _file(name="Europe/Amsterdam", key=None):
    with open(os.path.join("/usr/share/zoneinfo", name), "rb") as f:
        return zoneinfo.ZoneInfo.from_file(io.BytesIO(f.read()), key=key)


BITS = (7, 8, 15, 16, 31, 32, 33, 53, 62, 63, 64, 95, 96, 127, 128, 200, 1000)
WORDS = ("compatible", "raise", "earlier", "later", "hour", "minute", "second", "millisecond", "microsecond", "nanosecond", "day", "week", "floor", "ceil",
         "half_even", "half_floor", "half_ceil", "Europe/Amsterdam", "UTC", "America/New_York", "Etc/GMT+5", "Foo/Bar", "", "\0", "UTC\0", "\ud800", "é" * 40,
         "٣", "x" * 300, "x" * 5000, "%Y-%m-%d", "%z", "%H:%M:%S.%f", "%", "%Q\0", "..", "/etc", "Europe", "tzdata.zoneinfo")
KW = ("years", "months", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds", "year", "month", "day", "hour",
      "minute", "second", "nanosecond", "millisecond", "microsecond", "tz", "disambiguate", "offset", "ignore_dst", "unit", "increment", "mode", "fold", "format", "fmt", "nanos")
STD = (dt.datetime.min, dt.datetime.max, dt.datetime.max.replace(tzinfo=dt.timezone.utc), dt.datetime.min.replace(tzinfo=dt.timezone(dt.timedelta(hours=23, minutes=59))),
       dt.datetime.max.replace(tzinfo=dt.timezone(dt.timedelta(hours=-23))), dt.date.min, dt.date.max, dt.time.max, dt.time.min, dt.timedelta.min, dt.timedelta.max, dt.timedelta(-1),
       dt.timedelta(microseconds=-1), dt.timezone.utc, dt.timezone(dt.timedelta(seconds=-1)))


def _int(g):
    k = g.r.random()
    if k < 0.2:
        return g.wrapint()
    if k < 0.35:
        return g.r.choice((1, -1)) * ((1 << g.ch(BITS)) + g.r.randint(-2, 2))
    if k < 0.6:
        return g.r.randint(-3, 70)
    if k < 0.8:
        b = g.ch((cal.MAX_NS, cal.EPOCH_NS, cal.MAX_DELTA_NS, cal.MAX_DELTA_DAYS, cal.MAX_DELTA_MONTHS, 9999, 10**9, 86400, 86400 * S, 10**18, 10**19, cal.MAX_NS // S))
        return (b + g.r.randint(-2, 2)) * g.ch((1, -1))
    return g.logint(g.ch((10, 40, 70, 130, 300)))


def _float(g):
    k = g.r.random()
    if k < 0.3:
        return g.ch((float("nan"), float("inf"), float("-inf"), -0.0, 1e308, 5e-324, 0.5, -0.5, 1e-9, 1e18, 9.3e18, -9.3e18, 1.8e19, 1e38, 1.8e38, -1.8e38, 3.5e38))
    return float(_int(g) % (1 << 900)) * g.ch((1.0, 0.5, 1.1))


def _bytes(g):
    k = g.r.random()
    if k < 0.3:
        return bytes(g.r.randrange(256) for _ in range(g.r.randint(0, 24)))
    if k < 0.5:
        return g.ch((b"\xff", b"\0", b"\x7f", b"\x80")) * g.r.randint(0, 20)
    b = bytearray(g.ch((b"\xe4\x07\x01\x01", b"\xe4\x07\x01\x01\x0c\0\0\0\0\0\0", b"\xe4\x07\x01\x01\x0c\0\0\0\0\0\0\x10\x0e\0\0", b"\x80)\x9f\xd5\x0e\0\0\0\0\0\0\0", b"\1\1\1\0\0\0\0", b"\xe4\7\1", b"\1\1")))
    for _ in range(g.r.randint(0, 3)):
        b[g.r.randrange(len(b))] = g.ch((0, 1, 2, 12, 13, 31, 32, 59, 60, 127, 128, 255))
    return bytes(b)


def _text(g):
    k = g.r.random()
    if k < 0.35:
        return g.ch(WORDS)
    if k < 0.8:
        c = texts.call(g)
        t = [x for x in c[1] if type(x) is str]
        t = t[0] if t else ""
    else:
        t = vals.fmt(ops.MAKE[g.ch(ops._WEIGHTED)](g))
    if g.p(0.4):
        t = g.mutate(t)
    if g.p(0.1):
        t = t[:g.r.randint(0, len(t))] + g.ch(("\0", "\ud800", "é", "٣", "９", " ", "x" * 200, "9" * 40, "\U0001d7da")) + t[g.r.randint(0, len(t)):]
    return t.encode("utf8", "surrogatepass").decode("utf8", "surrogatepass")


def _std(g):
    k = g.r.random()
    if k < 0.3:
        return g.ch(STD)
    z = _tzinfo(g)
    c = g.ch((dt.datetime, dt.datetime, dt.datetime, DateTimeSub, DateTimeSub2))
    if k < 0.75:
        return c(g.ch((1, 2, 1969, 2023, 9999)), g.ch((1, 3, 10, 12)), g.ch((1, 26, 29, 31)) if g.p(0.7) else 5, g.r.randint(0, 23), 30, 59, 999999, z, fold=g.r.randint(0, 1))
    if k < 0.85:
        return dt.time(23, 59, 59, 999999, g.ch((None, z)), fold=g.r.randint(0, 1))
    return g.ch((DateSub(2020, 1, 1), TimeSub(1), DeltaSub(5), DeltaSub(days=10**8), dt.timedelta(g.r.randint(-999999999, 999999999), 1, 1)))


def _tzinfo(g):
    k = g.r.random()
    if k < 0.2:
        return None
    if k < 0.4:
        return zoneinfo.ZoneInfo(g.ch(("Europe/Amsterdam", "America/New_York", "UTC", "Africa/Monrovia", "Asia/Amman")))
    if k < 0.55:
        return g.ch((dt.timezone.utc, dt.timezone(dt.timedelta(hours=1)), dt.timezone(dt.timedelta(seconds=1)), dt.timezone(dt.timedelta(microseconds=-1)), dt.timezone(-dt.timedelta(hours=23, minutes=59, seconds=59))))
    if k < 0.75:
        return EvilTz(g.ch((None, 3, "x", Custom("off"), dt.timedelta(hours=25), dt.timedelta(hours=24), dt.timedelta(hours=-24), dt.timedelta(hours=-24, seconds=1), dt.timedelta(hours=24, microseconds=-1), dt.timedelta(microseconds=5), dt.timedelta(hours=2), DeltaSub(hours=2), dt.timedelta.max)),
                      g.ch((None, "Europe/Amsterdam", 3, StrSub("UTC"))))
    if k < 0.9:
        return g.ch(EVILZONES)("Europe/Amsterdam")
    return _file(g.ch(("Europe/Amsterdam", "America/New_York")), g.ch((None, "Foo/Bar", StrSub("UTC"), 3, "x\0y", "\ud800", EvilStr("UTC"), "")))


def _weird(g):
    k = g.r.randrange(18)
    if k < 2:
        return Index(g.ch((1, 3, 1 << 70, "x", 1.5, Custom("index"), None)))
    if k < 4:
        return Cmp(g.ch((True, False, None, NotImplemented, Custom("cmp"), 3, "x")))
    if k < 6:
        return g.ch((IntSub, FloatSub))(g.r.randint(-5, 70))
    if k < 9:
        return g.ch((StrSub, EvilStr, RaisingStr))(_text(g))
    return g.ch((lambda: object(), lambda: type("X", (), {})(), list, dict, lambda: bytearray(b"\1\2\3\4"), lambda: memoryview(b"\1\2\3\4"), lambda: BytesSub(b"\xe4\7\1\1"), lambda: (1, 2, 3),
                 lambda: [1], lambda: 1j, lambda: range(3), lambda: iter(()), lambda: (lambda *a: None), lambda: NotImplemented, lambda: Ellipsis, lambda: Custom("x")))()


def junk(ctx):
    g = ctx.g
    g = ctx.g
    k = g.r.random()
    if k < 0.2:
        return _int(g)
    if k < 0.28:
        return _float(g)
    if k < 0.45:
        return _text(g)
    if k < 0.52:
        return _bytes(g)
    if k < 0.6:
        return g.ch((None, None, True, False))
    if k < 0.8:
        return _value(ctx)
    if k < 0.87:
        return _std(g)
    if k < 0.9:
        return _tzinfo(g)
    if k < 0.92:
        return g.ch(ctx.state.types)
    return _weird(g)


def _value(ctx):
    m = ops.any_value(ctx.g)
    if ctx.g.p(0.05):
        m = MWeekday(ctx.g.r.randint(1, 7))
    if ctx.g.p(0.06) and ctx.state.zoned:
        return ctx.g.ch(ctx.state.zoned)
    return ctx.state.b(m, ctx.rng)


# ------------------------------------------------------------------ monitors
class _Mall(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def start(ctx):
    W = ctx.W
    st = ctx.state
    c32.start(ctx)
    st.mod = sys.modules["whenever._whenever"]
    st.b = core.Builder(W, direct=True, cap=400)
    st.types = [getattr(W, n) for n in CLASSES] + [int, str, object, type, dt.datetime, zoneinfo.ZoneInfo, EvilTz, Custom]
    libc = ctypes.CDLL(None)
    st.asan = "libclang_rt.asan" in os.environ.get("LD_PRELOAD", "")
    if st.asan:
        f = libc.__sanitizer_get_current_allocated_bytes
        f.restype = ctypes.c_size_t
        st.bytes = f
    else:
        m = libc.mallinfo2
        m.restype = _Mall
        st.bytes = lambda: m().uordblks
    # everything of the module state that can be watched
    st.at = array.array("q", [0] * 4)       # (readings taken here allocate nothing)
    st.shared = {}
    for n in sorted(vars(st.mod)):
        o = getattr(st.mod, n)
        st.shared["module." + n] = o
        if isinstance(o, type) and issubclass(o, tuple(vals.SNAP)):
            for c in vars(o):
                v = getattr(o, c)
                if type(v) in vals.SNAP:
                    st.shared[f"{n}.{c}"] = v
    import email.utils
    st.shared.update({"ZoneInfo": zoneinfo.ZoneInfo, "timezone": dt.timezone, "timezone.utc": dt.timezone.utc, "datetime": dt.datetime, "timedelta": dt.timedelta, "date": dt.date,
                      "time": dt.time, "format_datetime": email.utils.format_datetime, "parsedate_to_datetime": email.utils.parsedate_to_datetime, "time_ns": time.time_ns, "the module": st.mod})
    st.names = list(st.shared)
    st.objs = list(st.shared.values())
    st.zoned = []
    for z in EVILZONES[:-1] + ["file"]:
        for d in (dt.datetime(2023, 7, 1, 3), dt.datetime(2023, 10, 29, 2, 30, fold=1), dt.datetime(2023, 3, 26, 1, 59)):
            for key in ("Foo/Bar", StrSub("UTC"), None) if z == "file" else (0,):
                try:
                    st.zoned.append(W.ZonedDateTime.from_py_datetime(d.replace(tzinfo=_file(key=key) if z == "file" else z("Europe/Amsterdam"))))
                except Exception as e:
                    _bad(ctx, e, "ZonedDateTime.from_py_datetime", [d, z])
    st.members = []
    skip = {"__class__", "__init_subclass__", "__subclasshook__", "__doc__", "__module__", "__setattr__", "__delattr__", "__dict__", "__weakref__", "__basicsize__"}
    for n in CLASSES[:-1]:
        c = getattr(W, n)
        st.members += [(n, x) for x in dir(c) if x not in skip and callable(getattr(c, x))]
    st.members += [(n, "()") for n in CLASSES[:-1]] * 12
    st.members += [("", x) for x in vars(st.mod) if not x.startswith("__") and isinstance(getattr(st.mod, x), types.BuiltinFunctionType)] * 2
    st.gets = [(n, x) for n in CLASSES[:-1] for x in dir(getattr(W, n)) if x not in skip and isinstance(vars(getattr(W, n)).get(x), types.GetSetDescriptorType)]
    ctx.event("members of the extension", len(st.members))
    gc.collect()
    gc.freeze()


def _label(name, a, kw):
    return f"{name}({', '.join([core._brief(x) for x in a] + [f'{k}={core._brief(v)}' for k, v in kw.items()])})"


def _bad(ctx, e, name, a, kw={}):
    if isinstance(e, (SystemError, MemoryError)):
        ctx.fail("a call of the extension fails as " + type(e).__name__, {"call": _label(name, a, kw), "observed": repr(e)})


def _answer(v):
    if isinstance(v, BaseException):
        raise type(v)(*v.args)      # (a new one: a traceback keeps what it passed through)
    return v


def _counts(objs, rc=sys.getrefcount):
    return [rc(o) for o in objs]


def _pending(ctx, label, check=ctypes.pythonapi.PyErr_Occurred):
    try:
        check()     # (ctypes raises what is pending)
    except Exception as e:
        ctx.fail("an exception is left pending by a call that returned", {"call": label(), "exception": ascii(e)})


def _whole(ctx, r, label):
    try:
        snap(r)
    except Malformed as e:
        if not str(e).startswith("tz is"):      # (what's kept is the key of the ZoneInfo, a string or not)
            ctx.fail("a malformed value", {"call": label(), "observed": str(e)})
    except (Custom, UnicodeError):
        pass
    except Exception as e:
        ctx.fail("a malformed value", {"call": label(), "observed": "accessors raise " + repr(e)})


def _zones(args):
    """the timezones that are not arguments themselves, but named by one or part of one; their keys and offsets"""
    out = {}
    more = []
    for x in args:
        try:
            if isinstance(x, str):
                t = str.__str__(x)
                if len(t) < 120:
                    for k in (t, t[t.find("[") + 1:-1]):
                        if _KEYISH.fullmatch(k):
                            out[k] = zoneinfo.ZoneInfo(k)
            elif type(x).__name__ == "ZonedDateTime":
                z = x.py_datetime().tzinfo
                out[id(z)] = z
            elif isinstance(x, (dt.datetime, dt.time)):
                z = x.tzinfo
                if type(z) in (zoneinfo.ZoneInfo, dt.timezone):     # (these hand out the same objects every time)
                    out[id(z)] = z
                    more.append(z.utcoffset(x if isinstance(x, dt.datetime) else None))
        except Exception:
            pass
    more += [z.key for z in out.values() if type(z) is zoneinfo.ZoneInfo]
    return list(out.values()) + [x for x in more if x is not None]


def steady(ctx, name, f, a, kw, reps=REP):
    """f(*a, **kw), again and again: what it touches keeps its references, what it makes does not pile up"""
    st = ctx.state
    label = lambda: _label(name, a, kw)
    if core.TRACE is not None:
        core.TRACE(label())
    out = None
    try:
        r = f(*a, **kw)
        _pending(ctx, label)
        out = "returned"
        _whole(ctx, r, label)
        r = None
    except core.Violation:
        raise
    except Exception as e:
        _bad(ctx, e, name, a, kw)
        out = type(e).__name__
        e.__traceback__ = None
    ctx.event(name)
    ctx.feat("outcome: " + (out if out in ("returned", "ValueError", "TypeError", "OverflowError", "AttributeError", "KeyError", "Custom") else "another exception"))
    ctx.specified += 1

    def run(n):
        for _ in range(n):
            try:
                f(*a, **kw)
            except Exception:
                pass
    run(1)
    args = [*a, *kw.values(), *kw]
    spare = [x for x in args for _ in range(2 * reps)]      # an argument released too often is noticed before it's gone
    spare += [x for x in st.objs for _ in range(2 * reps)] if ctx.rng.random() < 0.02 else []
    zones = _zones(args)
    watch = args + zones + st.objs
    at = st.at
    for attempt in range(5):
        if attempt == 2:
            reps = 250          # more calls stand out from the noise
        c0 = _counts(watch)
        run(reps)
        c1 = _counts(watch)
        off = [i for i, (x, y) in enumerate(zip(c0, c1)) if abs(y - x) >= reps - reps // 8]
        if attempt:
            gc.collect()        # (empties the free lists, too)
        at[0], at[1] = sys.getallocatedblocks(), st.bytes()
        run(reps)
        if attempt:
            gc.collect()
        at[2], at[3] = sys.getallocatedblocks(), st.bytes()
        b0, m0, b1, m1 = at
        if not off and b1 - b0 < reps - reps // 4 and (m1 - m0 < reps * 8 or st.asan):
            break
    else:
        for i in off:
            k = i - len(args)
            n = f"argument {i}" if k < 0 else repr(zones[k]) if k < len(zones) else st.names[k - len(zones)]
            ctx.fail("a reference is " + ("leaked" if c1[i] > c0[i] else "released too often"), {
                "call": label(), "object": n, "by": f"{c1[i] - c0[i]} in {reps} calls", "outcome": out})
        ctx.fail("memory is leaked", {"call": label(), "blocks": f"{b1 - b0} in {reps} calls", "bytes": f"{m1 - m0} in {reps} calls", "outcome": out})
    ctx.event("references and memory compared")
    spare.clear()


# ------------------------------------------------------------------ workloads
def ordinary(ctx):
    """calls like those of the other checks, valid and not"""
    g = ctx.g
    k = g.r.random()
    c = ops.any_call(g) if k < 0.55 else texts.call(g) if k < 0.75 else c29._break_call(g, ops.any_call(g))
    name, a, kw = c
    st = ctx.state
    ra = [st.b(x, ctx.rng) for x in a]
    rk = {k: st.b(v, ctx.rng) for k, v in kw.items()}
    ctx.key((name, repr(a), repr(kw)))
    steady(ctx, name, lambda *x, **y: core.invoke(ctx.W, name, x, y), ra, rk)


def _hostile(ctx):
    g = ctx.g
    st = ctx.state
    n, x = g.ch(st.members)
    a = [junk(ctx) for _ in range(g.ch((0, 1, 1, 1, 2, 2, 3, 4, 7)))]
    kw = {}
    for _ in range(g.ch((0, 0, 0, 1, 1, 2, 3))):
        k = g.ch(KW)
        t = g.r.random()
        if t >= 0.96:
            k = g.ch(WORDS)
        if any(str.__eq__(x, k) for x in kw):
            continue
        kw[k if t < 0.8 else StrSub(k) if t < 0.86 else EvilStr(k) if t < 0.92 else RaisingStr(k) if t < 0.96 else k] = junk(ctx)
    if g.p(0.3) and kw:
        a = []
    if n == "":
        return x, getattr(st.mod, x), a, kw
    c = getattr(ctx.W, n)
    if x == "()":
        return n, c, a, kw
    if x in ("__reduce_ex__", "__format__") and g.p(0.5):
        a = a[:1]
    d = getattr(c, x)
    if g.p(0.75) and x not in ("__new__", "__init__"):
        o = _of(ctx, n) if g.p(0.97) else junk(ctx)
        if g.p(0.3):
            return f"{n}.{x}", d, [o] + a, kw           # unbound
        f = getattr(o, x, None)
        if f is not None and callable(f):
            return f"<{core._brief(o)}>.{x}", f, a, kw
    return f"{n}.{x}", d, a, kw


_T = {v: k for k, v in NAME.items()}


def _of(ctx, n):
    if n == "ZonedDateTime" and ctx.g.p(0.2) and ctx.state.zoned:
        return ctx.g.ch(ctx.state.zoned)
    return ctx.state.b(ops.MAKE[_T[n]](ctx.g), ctx.rng)


def hostile(ctx):
    name, f, a, kw = _hostile(ctx)
    ctx.key((ascii(name), ascii([type(x).__qualname__ for x in a]), ascii(a)[:200] if all(type(x) in (int, float, str, bytes) for x in a) else "", ascii(sorted(map(str.__str__, kw)))))
    try:
        steady(ctx, name if name[0] != "<" else name.rpartition(".")[2], f, a, kw, REP if ctx.g.p(0.4) else 3)
    finally:
        if "patch" in name:
            ctx.state.mod._unpatch_time()


def operators(ctx):
    g = ctx.g
    o = g.ch(("+", "-", "*", "/", "//", "%", "<", "<=", ">", ">=", "==", "!="))
    x, y = _value(ctx), junk(ctx)
    if g.p(0.4):
        x, y = y, x
    ctx.key((o, type(x).__name__, type(y).__name__, core._brief(y)[:60]))
    steady(ctx, o, core._OPS[o], [x, y], {}, REP if g.p(0.6) else 3)
    # three-way pow, in place, divmod, round, int(), ... : slots that aren't there
    f = g.ch((divmod, pow, lambda a, b: pow(a, b, a), lambda a, b: a @ b, lambda a, b: a[b], lambda a, b: b in a, lambda a, b: round(a, b), lambda a, b: format(a, b),
              lambda a, b: a(b), lambda a, b: setattr(a, "x", b), lambda a, b: int(a), lambda a, b: float(a), lambda a, b: len(a), lambda a, b: iter(a), lambda a, b: bytes(a),
              lambda a, b: a << b, lambda a, b: ~a, lambda a, b: isinstance(a, type(b)), lambda a, b: {a: b}[a], lambda a, b: sys.getsizeof(a)))
    steady(ctx, "other operator", f, [_value(ctx), junk(ctx)], {}, 3)


def getters(ctx):
    g = ctx.g
    n, x = g.ch(ctx.state.gets)
    d = vars(getattr(ctx.W, n))[x]
    o = _of(ctx, n) if g.p(0.8) else junk(ctx)
    ctx.key((n, x, core._brief(o)))
    steady(ctx, f"{n}.{x}", lambda o: d.__get__(o), [o], {})


EXTREMES = {
    "Date": ("Date.MIN", "Date.MAX"), "YearMonth": ("YearMonth.MIN", "YearMonth.MAX"), "MonthDay": ("MonthDay.MIN", "MonthDay.MAX"),
    "Time": ("Time()", "Time.MIDNIGHT", "Time.MAX"), "DateDelta": ("DateDelta()", "DateDelta.ZERO", "DateDelta(years=9998, months=11)", "DateDelta(days=3000000)", "-DateDelta(months=7000, days=400)"),
    "TimeDelta": ("TimeDelta()", "TimeDelta.ZERO", "TimeDelta.MIN", "TimeDelta.MAX", "TimeDelta(nanoseconds=1 << 62)"),
    "DateTimeDelta": ("DateTimeDelta()", "DateTimeDelta.ZERO", "DateTimeDelta(years=9998, hours=80000)", "-DateTimeDelta(days=3000000, nanoseconds=1 << 60)", "DateTimeDelta(days=1)", "DateTimeDelta(seconds=99999)"),
    "Instant": ("Instant.MIN", "Instant.MAX", "Instant.from_timestamp(0)"), "LocalDateTime": ("LocalDateTime.MIN", "LocalDateTime.MAX", "LocalDateTime(1970, 1, 1)"),
    "OffsetDateTime": ("OffsetDateTime(9999, 12, 31, 23, 59, 59, nanosecond=999999999, offset=0)", "OffsetDateTime(1, 1, 1, offset=0)", "OffsetDateTime(2020, 2, 29, offset=TimeDelta(hours=23, seconds=3599))"),
    "ZonedDateTime": ("ZonedDateTime(9999, 12, 31, 23, tz='UTC')", "ZonedDateTime(1, 1, 2, tz='Asia/Tokyo')", "ZonedDateTime(2023, 10, 29, 2, 30, tz='Europe/Amsterdam', disambiguate='later')"),
    "SystemDateTime": ("SystemDateTime(1970, 1, 2)", "SystemDateTime(9999, 12, 30)", "SystemDateTime(2, 1, 1)")}
ZEROS = ("TimeDelta()", "DateDelta()", "DateTimeDelta()", "DateDelta(days=1000)", "DateDelta(years=400)", "TimeDelta(seconds=1 << 34)", "DateTimeDelta(years=30, seconds=1 << 33)", "0", "1", "-1", "1.0", "0.0", "2", "1 << 40")


def plain(ctx):
    """each member without arguments, and each operator with what changes nothing: of values at the ends, zeros and whatever else"""
    g = ctx.g
    W = ctx.W
    st = ctx.state
    n = g.ch(CLASSES[:-1])
    c = getattr(W, n)
    if not hasattr(st, "plain"):
        st.plain = {}
    if n not in st.plain:
        ok = []
        for x in sorted(dir(c)):
            if x in ("__class__", "__init_subclass__", "__subclasshook__", "__doc__", "__init__") or not callable(getattr(c, x)):
                continue
            try:
                getattr(_of(ctx, n), x)()
            except TypeError:
                continue
            except Exception:
                pass
            ok.append(x)
        st.plain[n] = ok
        ctx.event("members without arguments", len(ok))

    def value(e):
        try:
            return eval(e, vars(W) if isinstance(W, types.ModuleType) else {k: getattr(W, k) for k in CLASSES})
        except (ValueError, OverflowError):     # (the system's timezone decides)
            return W.Instant.MIN
    x = value(g.ch(EXTREMES[n])) if g.p(0.6) and n in EXTREMES else _of(ctx, n)
    k = g.r.random()
    if k < 0.4:
        m = g.ch(st.plain[n])
        ctx.key((n, m, core._brief(x)))
        if m == "now":
            return
        return steady(ctx, f"{n}.{m}()", lambda o: getattr(o, m)(), [x], {})
    if k < 0.5:
        m = g.ch(("pickle", "copy", "format", "hash", "bool", "bytes"))
        f = {"pickle": lambda o: pickle.loads(pickle.dumps(o)), "copy": lambda o: (copy.copy(o), copy.deepcopy(o)), "format": lambda o: f"{o} {o!r}",
             "hash": lambda o: {o: 1}, "bool": bool, "bytes": lambda o: pickle.dumps(o)}[m]
        ctx.key((n, m, core._brief(x)))
        return steady(ctx, f"{m} of {n}", f, [x], {})
    if k < 0.7 and hasattr(x, "to_tz"):
        z = zoneinfo.ZoneInfo(g.ch(("Europe/Amsterdam", "Asia/Tokyo", "UTC", "America/New_York", "Pacific/Apia")))
        m = g.ch([m for m in ("to_tz", "to_tz", "assume_tz", "replace", "now") if hasattr(x, m)])
        ctx.key((n, m, core._brief(x), z.key))
        if m == "replace" or m == "now":
            return steady(ctx, f"{n}.{m}", lambda o, key: getattr(o, m)(tz=key), [x, z.key], {})
        return steady(ctx, f"{n}.{m}", lambda o, key: getattr(o, m)(key), [x, z.key], {})
    o = g.ch(("*", "/", "*", "+", "-") if "Delta" in n and g.p(0.7) else ("+", "-", "*", "/", "//", "%", "==", "<"))
    y = value(g.ch(ZEROS[-7:] if o in ("*", "/") and g.p(0.8) else ZEROS)) if g.p(0.75) else x if g.p(0.5) else _of(ctx, n)
    if g.p(0.35):
        x, y = y, x
    ctx.key((o, n, core._brief(x), core._brief(y)))
    steady(ctx, o, core._OPS[o], [x, y], {})


def stdlib(ctx):
    """objects of the standard library, ordinary and hostile, in and out"""
    g = ctx.g
    W = ctx.W
    n = g.ch(("Instant", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime", "Date", "Time", "TimeDelta"))
    c = getattr(W, n)
    f = getattr(c, "from_py_" + {"Date": "date", "Time": "time", "TimeDelta": "timedelta"}.get(n, "datetime"))
    a = [_std(g) if g.p(0.95) else junk(ctx)]
    ctx.key(("stdlib", n, core._brief(a[0])))
    steady(ctx, f"{n}.{f.__name__}", f, a, {})
    try:
        o = f(*a)
    except Exception:
        return
    if n == "ZonedDateTime" and len(ctx.state.zoned) < 60:
        ctx.state.zoned.append(o)
    for _ in range(3):
        x = g.ch([y for y in dir(c) if not y.startswith("_") and not isinstance(getattr(c, y), c)])
        h = lambda o: v() if callable(v := getattr(o, x)) else v
        steady(ctx, f"{n}.{x}", h, [o], {}, 6)
    p = _value(ctx)
    steady(ctx, "operator", g.ch([core._OPS[k] for k in ("-", "==", "<", "+")]), [o, p], {}, 6)


def resolving(ctx):
    """repeated and skipped times, resolved or refused on all ways; wrong offsets; results out of range"""
    g = ctx.g
    st = ctx.state
    for _ in range(30):
        tz = g.tz()
        z = spec._zone(tz)
        l = g.zlocal(tz)
        if z.resolve(l // S)[0] != "unique":
            break
    dis = g.ch(("raise", "raise", "raise", "compatible", "earlier", "later", "foo", None, 3))
    kw = {"disambiguate": dis} if g.p(0.9) else {}
    m = MLocal(l)
    day, tod = MDate(l // cal.DAY_NS), MTime(l % cal.DAY_NS)
    k = g.r.randrange(11)
    if k < 2:
        c = ("LocalDateTime.assume_tz", (m, tz), kw)
    elif k == 2:
        c = ("LocalDateTime.assume_system_tz", (m,), kw)
    elif k < 5:
        f = cal.fields(l)
        c = ("ZonedDateTime", f[:6], {"nanosecond": f[6], "tz": tz, **kw}) if k == 3 else ("SystemDateTime", f[:6], {"nanosecond": f[6], **kw})
    elif k < 8:
        r = g.zoned(tz)
        if k == 5:
            c = g.ch((("ZonedDateTime.replace_date", (r, day), kw), ("ZonedDateTime.replace_time", (r, tod), kw)))
        elif k == 6:
            f = cal.fields(l)
            c = ("ZonedDateTime.replace", (g.zoned(),), {"tz": tz, **dict(zip(("year", "month", "day", "hour", "minute", "second"), f)), **kw})
        else:
            c = ("ZonedDateTime.add", (MZoned(l - cal.DAY_NS, g.off(), tz) if g.p(0.1) else r,), {"days": day[0] - r.l // cal.DAY_NS, **kw})
    elif k == 8:
        c = ("ZonedDateTime.parse_common_iso", (vals.fmt_offset(MOffset(l, g.off())) + f"[{tz if g.p(0.9) else g.ch(WORDS)}]",), {})
    elif k == 9:
        c = ("ZonedDateTime.from_timestamp" + g.ch(("", "_millis", "_nanos")), (g.ch((_int(g), l // S - 62135596800, None, 1.5, _float(g))),), {"tz": tz})
    else:
        i = g.ch((MInstant(g.r.randint(0, 130000) * S), MInstant(cal.MAX_NS - g.r.randint(0, 130000) * S), g.instant()))
        c = g.ch((("Instant.to_tz", (i, tz), {}), ("Instant.to_system_tz", (i,), {}), ("Instant.to_fixed_offset", (i, g.r.randint(-23, 23)), {})))
    name, a, kw = c
    try:
        ra = [st.b(x, ctx.rng) for x in a]
    except core.BuildError:
        return
    ctx.key((name, repr(a), repr(kw)))
    steady(ctx, name, lambda *x, **y: core.invoke(ctx.W, name, x, y), ra, kw)


def wide(ctx):
    """the Python implementation can't overflow: does the extension give the same?"""
    c32.wide(ctx)


def pickles(ctx):
    """corrupted pickles"""
    g = ctx.g
    st = ctx.state
    v = _value(ctx)
    try:
        f, a = v.__reduce_ex__(2)[:2]
    except Exception as e:
        return
    if f.__module__ != "whenever":
        return
    if g.p(0.4):
        f = getattr(st.mod, g.ch([x for x in vars(st.mod) if x.startswith("_unpkl")]))
    a = list(a)
    for i, x in enumerate(a):
        if type(x) is bytes:
            b = bytearray(x)
            if g.p(0.35):       # a field at the end of what is allowed, or of what it can hold
                fmt, e = g.ch((("<I", (999_999_999, 10**9, 10**9 + 1, 1 << 31, (1 << 32) - 1)), ("<i", (86400, -86400, 86399, -86399, 86401, 1 << 30, -(1 << 31), (1 << 31) - 1, 119987, 3652088)),
                             ("<H", (0, 1, 9999, 10000, 65535)), ("<q", ((1 << 63) - 1, -(1 << 63), cal.EPOCH_NS // S, -(cal.EPOCH_NS // S), cal.MAX_NS // S, cal.MAX_DELTA_NS // S, -(cal.MAX_DELTA_NS // S), 1 << 62))))
                w = struct.pack(fmt, min(max(g.ch(e) + g.ch((0, 0, 0, 1, -1)), -(1 << 63) if fmt == "<q" else -(1 << 31) if fmt == "<i" else 0), (1 << 63) - 1 if fmt == "<q" else (1 << 31) - 1 if fmt == "<i" else (1 << 32) - 1 if fmt == "<I" else 65535))
                at = g.r.randrange(len(b)) if g.p(0.3) else max(0, len(b) - len(w)) if g.p(0.5) else g.ch((0, 4, 5, 7, 8))
                if at + len(w) <= len(b):
                    b[at:at + len(w)] = w
            for _ in range(g.ch((0, 0, 0, 1, 1, 2, 4))):
                b[g.r.randrange(len(b))] = g.ch((0, 1, 12, 13, 31, 59, 60, 127, 128, 254, 255, g.r.randrange(256)))
            k = g.r.random()
            a[i] = bytes(b) if k < 0.75 else bytes(b[:g.r.randint(0, len(b))]) if k < 0.85 else bytes(b) + b"\0" * g.r.randint(1, 9) if k < 0.95 else BytesSub(b)
        elif type(x) is int and g.p(0.5):
            a[i] = _int(g)
        elif g.p(0.3):
            a[i] = junk(ctx)
    if g.p(0.1):
        a = a[:-1] if g.p(0.5) else a + [junk(ctx)]
    ctx.key((f.__name__, repr(a)[:200]))
    steady(ctx, f.__name__, f, a, {})


def _load():
    """another instance of the extension module"""
    old = {k: v for k, v in sys.modules.items() if k.partition(".")[0] == "whenever"}
    for k in old:
        del sys.modules[k]
    try:
        return importlib.import_module("whenever")
    finally:
        for k in [k for k in sys.modules if k.partition(".")[0] == "whenever"]:
            del sys.modules[k]
        sys.modules.update(old)


def instances(ctx):
    """values of one instance of the module handed to another; the other dropped"""
    g = ctx.g
    st = ctx.state
    if getattr(st, "loads", 0) < 12 and (g.p(0.1) or not hasattr(st, "other")):
        st.loads = getattr(st, "loads", 0) + 1
        st.other = _load()
        st.ob = core.Builder(st.other, direct=True, cap=200)
        ctx.event("module loaded again")
        gc.collect()
    V = st.other
    if V.Date is ctx.W.Date:
        raise core.SetupError("the same module again")
    n = g.ch(CLASSES[:-1])
    m = ops.MAKE[_T[n]](g)
    mine = dict(vals.SNAP)
    try:
        vals.setup(V)
        try:
            o = st.ob(m, ctx.rng)
        except core.BuildError:
            return
    finally:
        vals.SNAP.clear()
        vals.SNAP.update(mine)
    me = _of(ctx, n)
    ctx.key(("instances", n, repr(m)))
    for k in ("==", "!=", "<", "+", "-"):
        for x, y in ((me, o), (o, me)):
            steady(ctx, "of two module instances " + k, core._OPS[k], [x, y], {}, 3)
    c = g.ch([x for x in st.members if x[0] == n and x[1][0] != "_"] or [(n, "__repr__")])
    d = getattr(getattr(ctx.W, n), c[1]) if c[1] != "()" else getattr(ctx.W, n)
    steady(ctx, "of two module instances " + c[1], d, [o] + ([me] if g.p(0.5) else []), {}, 3)
    steady(ctx, "of two module instances " + c[1], d, [me, o], {}, 3)
    if g.p(0.2):
        st.ob.pool.clear()
        gc.collect()


def together(ctx):
    """histories of hostile calls whose results feed later ones, the allocator churned in between"""
    g = ctx.g
    pool = []
    for _ in range(g.r.randint(10, 40)):
        name, f, a, kw = _hostile(ctx)
        if pool and g.p(0.6):
            a = [g.ch(pool) if g.p(0.6) else x for x in a]
        if core.TRACE is not None:
            core.TRACE(_label(name, a, kw))
        try:
            r = f(*a, **kw)
            _pending(ctx, lambda: _label(name, a, kw))
            if type(r) in vals.SNAP:
                _whole(ctx, r, lambda: _label(name, a, kw))
                pool.append(r)
        except core.Violation:
            raise
        except Exception as e:
            _bad(ctx, e, name, a, kw)
        finally:
            if "patch" in name:
                ctx.state.mod._unpatch_time()
        ctx.event("hostile call in a history")
        if g.p(0.1):
            _churn()
        if len(pool) > 12:
            del pool[:6]
    ctx.key(("together", len(pool), repr(pool)[:200]))


def clock(ctx):
    """the patched clock at the ends of time"""
    g = ctx.g
    W = ctx.W
    st = ctx.state
    i = st.b(g.instant(), ctx.rng)
    ctx.key(("clock", str(i)))
    keep = g.p(0.5)
    (st.mod._patch_time_keep_ticking if keep else st.mod._patch_time_frozen)
    try:
        try:
            (st.mod._patch_time_keep_ticking if keep else st.mod._patch_time_frozen)(i)
        except (ValueError, TypeError, OverflowError):
            ctx.feat("refused as a time to patch")
        for f, a in ((W.Instant.now, ()), (W.Date.today_in_system_tz, ()), (W.ZonedDateTime.now, (g.tz(),)), (W.OffsetDateTime.now, (g.r.randint(-23, 23),)), (W.SystemDateTime.now, ())):
            steady(ctx, "patched " + f.__qualname__, f, list(a), {"ignore_dst": True} if f.__qualname__ == "OffsetDateTime.now" else {}, 6)
        for _ in range(2):
            steady(ctx, "patch", lambda x: (st.mod._patch_time_frozen(x), W.Instant.now(), st.mod._unpatch_time()), [i], {}, 6)
    finally:
        st.mod._unpatch_time()


# the end of the interpreter, with values still in use
EXIT = """
import sys, copy, builtins, pickle
sys.path.insert(0, {src!r})
import whenever as w
VALUES = [{values}]
class K:
    def __init__(self, vs):
        self.v, self.names, self.x = vs, {names!r}, {extra!r}
        self.g, self.ty, self.ca, self.E = getattr, type, callable, Exception
    def __del__(self):
        for v in self.v:
            for n in self.names:
                try:
                    f = self.g(v, n)
                    if self.ca(f):
                        try:
                            f()
                        except self.E:
                            f(v)
                except self.E:
                    pass
                try:
                    v == v, v < v, v - v
                except self.E:
                    pass
        self.x
k = K(VALUES)
{where}
"""


def at_exit(ctx):
    g = ctx.g
    vs = []
    W = ctx.W
    for n in CLASSES[:-1]:
        t = vals.fmt(ops.MAKE[_T[n]](g)) if g.p(0.5) else None
        vs.append(f"w.{n}.parse_common_iso({t!r})" if t else {"Date": "w.Date.MAX", "Time": "w.Time.MAX", "Instant": "w.Instant.MIN", "LocalDateTime": "w.LocalDateTime.MAX",
                                                              "TimeDelta": "w.TimeDelta.MAX", "YearMonth": "w.YearMonth.MIN", "MonthDay": "w.MonthDay.MAX",
                                                              "SystemDateTime": "w.SystemDateTime.now()", "ZonedDateTime": "w.ZonedDateTime.now('Asia/Tokyo')"}.get(n, "w.Instant.now()"))
    names = sorted({x for n in CLASSES[:-1] for x in dir(getattr(W, n)) if x not in ("__class__", "__init_subclass__", "__subclasshook__")})
    g.r.shuffle(names)
    where = g.ch(("", "sys.kept = k", "builtins.kept = k", "k.me = k", "K.kept = k", "w.kept = k", "del k.v\nsys.modules['whenever'].kept = k", "import threading; threading.kept = k",
                  "sys.modules.clear()", "sys.modules.pop('whenever'); sys.modules.pop('whenever._whenever')", "sys.stdout.kept = k", "w._whenever_kept = k; del w",
                  "import atexit; atexit.register(k.__del__)", "K.f = w.Date; vars(sys.modules['whenever._whenever']).clear()"))
    code = EXIT.format(src=core.SRC, values=", ".join(vs), names=names, extra=0, where=where)
    env = dict(os.environ, TZ=spec.Sys.name)
    p = subprocess.run([sys.executable, "-B", "-c", code], env=env, capture_output=True, text=True, timeout=100)
    ctx.event("interpreter ended with values in use")
    ctx.key(("exit", where, repr(vs)))
    if p.returncode < 0 or p.returncode > 2 or "AddressSanitizer" in p.stderr or "Fatal Python error" in p.stderr:
        ctx.fail("the interpreter crashes at its end", {"call": f"exit after: {where or 'k, a global'}", "status": p.returncode, "stderr": p.stderr[-2500:], "values": vs})


WORKLOADS = [("ordinary", 4, ordinary), ("hostile", 6, hostile), ("operators", 1.5, operators), ("getters", 0.7, getters), ("plain", 2.5, plain), ("standard library", 1.5, stdlib), ("corrupted pickles", 1.2, pickles), ("resolving", 2.5, resolving), ("wide integers", 0.5, wide),
             ("two module instances", 0.4, instances), ("histories", 1, together), ("clock", 0.3, clock), ("end of the interpreter", 0.02, at_exit)]


# ------------------------------------------------------------------ running
STAGES = (("checked", "extension, checked, debug allocator"), ("asan", "extension, asan"), ("release", "extension, release"))


def run(tier, seed):
    t = ext.Tally("C33", tier, seed)
    quick = tier == "quick"
    t0 = time.monotonic()
    extra = {}
    srcs = []
    for v, label in STAGES:
        try:
            srcs.append((v, label, ext.build(v)))
        except ext.NoBuild as e:
            extra["could not be built: " + v] = str(e)[-1500:]
            print(f"the extension could not be built ({v}), so nothing of it is observed:", str(e)[-600:], file=sys.stderr)
    if not srcs:
        t.finish(RULE, ASSUMES, extra)      # (the evidence says that nothing was observed)
        return 2
    for v, label, src in srcs:
        env = env_of(label)
        k = {"checked": 1, "asan": 0.5, "release": 0.4}[v]
        part = time.monotonic() + (120 if quick else 250) * k
        n = QUICK if quick else THOROUGH
        jobs = [{"mod": "c33", "w": w, "seed": seed, "n": int(n * k), "cap": 45 * k if quick else 90 * k} for w in range(8)]
        if v != "release":
            jobs += [dict(c32._job(m, (seed + i) % 8, seed + 2000, tier, (0.35 if quick else 1) * k), cap=60) for i, m in enumerate(c32.MODS)
                     if m not in ("c31", "c34") and not (v == "asan" and m in ("c26", "c25", "c30"))]
        t.add(label, ext.stage(src, jobs, part, env, tier=tier, prop="C33"), c32.rerun(src, tier, "C33", env))
    return t.finish(RULE, ASSUMES, extra)


def replay(v):
    return c32.replay(v)
