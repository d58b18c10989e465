"""A call does nothing but give its result."""
import atexit
import builtins
import copyreg
import decimal
import gc
import io
import json
import locale
import os
import random
import signal
import site
import subprocess
import sys
import threading
import time
import warnings
import zoneinfo

from ..vals import *
from .. import core, cost, fault, ops, spec, texts, vals
from . import c29

QUICK, THOROUGH = 700, 25000
RULE = ("one case = some twenty calls (of every operation in turn, valid, failing, hostile timezone names, cut short by an interrupt at any line, inside and "
        "outside patch_current_time), each between two readings of the process-wide settings, with an audit hook on everything the interpreter "
        "reports meanwhile (files, directories, sockets, processes, environment, signals, sleeping) and recorders in place of standard output, "
        "standard error, warnings and locale.setlocale; and imports of the package in fresh processes; distinct = distinct calls")
ASSUMES = ["the interpreter's audit events report every file, socket, process and environment operation made from Python"]
SYS_ZONES = core.SYS_ZONES

# ------------------------------------------------------------------ the audit hook
_BAD = ("os.", "socket.", "subprocess.", "shutil.", "tempfile.", "signal.", "time.sleep", "ctypes.", "fcntl.", "mmap.", "syslog.", "pty.",
        "resource.", "sqlite3.", "urllib.", "http.", "ftplib.", "smtplib.", "webbrowser.", "builtins.input", "builtins.breakpoint", "sys.set",
        "sys.addaudithook", "sys.unraisablehook", "_thread.start_new_thread", "_thread.start_joinable_thread", "setopencodehook", "msvcrt.", "winreg.",
        "logging.", "faulthandler.")
_READ = {"os.listdir", "os.scandir", "os.fwalk", "os.walk"}


class Audit:
    def __init__(self):
        self.on = False
        self.seen = []
        self.count = 0
        roots = {sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), core.SRC, "/etc/localtime", "/etc/timezone", "/usr/share/zoneinfo",
                 *zoneinfo.TZPATH, *site.getsitepackages(), *[p for p in sys.path if p]}
        self.roots = tuple({q.rstrip("/") for p in roots for q in (os.path.abspath(p), os.path.realpath(p)) if q not in ("/", "/usr", "/etc")}
                           | {os.path.dirname(os.path.realpath(os.__file__))})
        sys.addaudithook(self.hook)

    def allowed(self, path):
        if isinstance(path, int):
            return True
        try:
            p = os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(path)))
        except (TypeError, ValueError):
            return True
        return any(p == r or p.startswith(r + "/") for r in self.roots)

    def hook(self, event, args):
        if not self.on:
            return
        self.count += 1
        if event == "open":
            path, mode, flags = args
            if (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or not self.allowed(path):
                self.seen.append(f"open({path!r}, {mode!r}, {flags!r})")
        elif event in _READ:
            if args and args[0] is not None and not self.allowed(args[0]):
                self.seen.append(f"{event}({args[0]!r})")
        elif event.startswith(_BAD):
            self.seen.append(f"{event}{args!r}"[:300])


class Sink(io.StringIO):
    pass


# ------------------------------------------------------------------ process-wide settings
_SIG = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE]


def settings():
    c = decimal.getcontext()
    return {
        "os.environ": dict(getattr(os.environ, "_data", os.environ)), "time.tzname": time.tzname, "time.timezone": (time.timezone, time.altzone, time.daylight),
        "local time": tuple(time.localtime(1_000_000_000))[:6] + tuple(time.localtime(1_010_000_000))[:6],
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": (id(c), c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(c.traps.values()), tuple(c.flags.values())),
        "warnings.filters": tuple(map(repr, warnings.filters)), "warnings functions": (id(warnings.showwarning), id(warnings.warn)),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "int digits": sys.get_int_max_str_digits(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook)),
        "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace()), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "sys.path": tuple(sys.path), "import hooks": (len(sys.meta_path), len(sys.path_hooks)), "signals": tuple(map(str, map(signal.getsignal, _SIG))),
        "threads": threading.active_count(), "atexit": atexit._ncallbacks(), "cwd": os.getcwd(), "zoneinfo.TZPATH": zoneinfo.TZPATH,
        "copyreg": (len(copyreg.dispatch_table), len(copyreg._extension_registry)),
        "calendar.firstweekday": sys.modules["calendar"].firstweekday(),
    }


_MODS = ("builtins", "datetime", "time", "zoneinfo", "calendar", "email.utils", "re", "math", "struct", "copyreg", "pickle", "copy", "functools", "decimal",
         "operator", "os", "sys", "enum", "abc", "warnings", "locale", "random", "threading", "contextlib", "dataclasses", "typing", "_strptime")
_SKIP = {("sys", n) for n in ("last_exc", "last_type", "last_value", "last_traceback", "stdout", "stderr", "modules", "path_importer_cache")} | {
    ("builtins", "_"), ("zoneinfo", "TZPATH"), ("time", "tzname"), ("time", "timezone"), ("time", "altzone"), ("time", "daylight"),
    ("_strptime", "_TimeRE_cache"), ("_strptime", "_regex_cache"), ("warnings", "_filters_version"), ("warnings", "filters"), ("os", "environ")}


def namespaces():
    """what the standard library's names stand for"""
    return {m: dict(zip(list(d), map(id, list(d.values())))) for m, d in ((m, vars(sys.modules[m])) for m in _MODS if m in sys.modules)}


def renamed(a, b):
    """names that stand for something else in b"""
    out = []
    for m in a:
        if a[m] != b.get(m):
            for n in {*a[m], *b[m]}:
                if (m, n) in _SKIP or n.startswith("__") or a[m].get(n) == b[m].get(n):
                    continue
                if n in a[m] or m in ("builtins", "datetime", "time", "zoneinfo", "sys"):
                    out.append(m + "." + n)
    return out


def public(W):
    """what the package's public names stand for"""
    out = {}
    for n in dir(W):
        if not n.startswith("_"):
            v = getattr(W, n)
            out[n] = id(v)
            if isinstance(v, type):
                for k, x in list(vars(v).items()):
                    if not k.startswith("_"):
                        out[n + "." + k] = id(x)
    return out


def start(ctx):
    st = ctx.state
    warmup(ctx.W)
    st.fault = fault.get()
    st.audit = Audit()
    st.each = ops.turns(ctx)
    st.pos = 0
    st.rand = random.Random(ctx.rng.random())
    st.calls = []               # what the recorders saw

    def recorder(name, f, query):
        def rec(*a, **k):
            if st.audit.on and not query(a, k):
                st.calls.append(f"{name}{a!r}")
            return f(*a, **k)
        return rec
    st.real_setlocale = locale.setlocale
    locale.setlocale = recorder("locale.setlocale", locale.setlocale, lambda a, k: len(a) < 2 and not k.get("locale"))
    if ctx.worker % 4 == 1:
        decimal.getcontext().prec = 5
        decimal.getcontext().rounding = decimal.ROUND_UP
    if ctx.worker % 4 == 2:
        sys.set_int_max_str_digits(0)


def warmup(W):
    """what the standard library imports when it is first used"""
    for f in (lambda: W.LocalDateTime.strptime("2020", "%Y"), lambda: W.Instant.parse_rfc2822("x"), lambda: W.Instant.now().to_tz("No/Such")):
        try:
            f()
        except Exception:
            pass


# ------------------------------------------------------------------ the monitor
def watched(ctx, what, f):
    """run f between two readings"""
    st = ctx.state
    out, err = Sink(), Sink()
    so, se = sys.stdout, sys.stderr
    a = st.audit
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        sys.stdout, sys.stderr = out, err
        try:
            before = settings()
            a.seen.clear()
            st.calls.clear()
            a.on = True
            try:
                how = f()
            finally:
                a.on = False
            after = settings()
        finally:
            sys.stdout, sys.stderr = so, se
    ctx.event(how)
    if after != before:
        ctx.fail("a setting of the process changed", {"call": what(), "how": how, "changed": {k: [_short(before[k], after[k]), _short(after[k], before[k])] for k in before if before[k] != after[k]}})
    if a.seen or st.calls:
        ctx.fail("the call did more than compute", {"call": what(), "how": how, "done": (a.seen + st.calls)[:10]})
    if out.getvalue() or err.getvalue():
        ctx.fail("the call wrote output", {"call": what(), "how": how, "stdout": out.getvalue()[:300], "stderr": err.getvalue()[:300]})
    if log:
        ctx.fail("the call emitted a warning", {"call": what(), "how": how, "warnings": [f"{w.category.__name__}: {w.message}" for w in log][:5]})


def _short(a, b):
    if type(a) is dict:
        return repr({k: v for k, v in a.items() if b.get(k) != v})[:300]
    return repr(a)[:300]


def _outcome(f):
    try:
        f()
    except Exception:
        return "failed"
    return "succeeded"


HOSTILE = ("../../../etc/passwd", "/etc/passwd", "/etc/hostname", "Europe/../../../../etc/hostname", "..", ".", "./UTC", "/", "//etc/passwd", "Europe/Amsterdam/../../../../../etc/passwd",
           "\0", "UTC\0", "a" * 3000, "~/x", "$HOME", "|ls", "http://localhost/x", "C:\\x", "Europe", "posix/../../../../etc/group", "/proc/self/environ", "/dev/null",
           "/usr/share/zoneinfo/UTC", "éu", "UTC ", " UTC", "\ud800", "zone.tab", "tzdata.zi", "leapseconds", "etc/passwd", "", "localtime", "posixrules")


def _hostile(g):
    tz = g.ch(HOSTILE)
    k = g.r.random()
    if k < 0.3:
        return "Instant.to_tz", (g.instant(), tz), {}
    if k < 0.45:
        return "LocalDateTime.assume_tz", (g.localdt() if hasattr(g, "localdt") else MLocal(g.local()), tz), {"disambiguate": g.dis()}
    if k < 0.6:
        return "ZonedDateTime.now", (tz,), {}
    if k < 0.75:
        return "ZonedDateTime", (2020, 1, 1), {"tz": tz}
    if k < 0.9:
        return "ZonedDateTime.parse_common_iso", (f"2020-01-01T00:00:00+00:00[{tz}]",), {}
    return "ZonedDateTime.from_timestamp", (0,), {"tz": tz}


NOW = (lambda g: ("Instant.now", (), {}), lambda g: ("ZonedDateTime.now", (g.tz(),), {}), lambda g: ("SystemDateTime.now", (), {}), lambda g: ("Date.today_in_system_tz", (), {}),
       lambda g: ("OffsetDateTime.now", (g.off() // 3600,), {"ignore_dst": True}))


def calls(ctx):
    g, st, W = ctx.g, ctx.state, ctx.W
    b = core.Builder(W, direct=g.p(0.7))
    ns, pub = namespaces(), public(W)
    fds = sorted(os.listdir("/proc/self/fd"))
    rnd, umask = random.getstate(), _umask()
    patch = None
    done = []
    try:
        for _ in range(g.r.randint(8, 30)):
            k = g.r.random()
            if k < 0.55:
                c = ops.call_of(g, st.each[st.pos % len(st.each)])
                st.pos += 1
            elif k < 0.75:
                c = ops.any_call(g)
            elif k < 0.88:
                c = texts.call(g)
                if g.p(0.4) and c[1]:
                    c = c[0], (cost.pumped(g, c[0], (25, 40, 300)),) + c[1][1:], c[2]
                    ctx.feat("long repetitive text")
            elif k < 0.92:
                c = g.ch(NOW)(g)
                if patch is not None and tp and g.p(0.5):
                    kw = g.shift_kw() if g.p(0.6) else {g.ch(("years", "months", "weeks", "days")): g.r.randint(-3, 3), **g.split_exact(g.dns(False))}
                    watched(ctx, lambda: f"shift(**{kw}) of the patched clock", lambda: _outcome(lambda: tp[0].shift(**kw)))
                    ctx.event("shift of the patched clock")
                    ctx.event("a shift with years, months, weeks or days", bool({"years", "months", "weeks", "days"} & set(kw)))
            else:
                c = _hostile(g)
                ctx.feat("hostile timezone name")
            if k < 0.75 and g.p(0.3):
                c = c29._break_call(g, c)
            if g.p(0.06):
                if g.p(0.4):
                    os.environ.pop("TZ", None)
                    time.tzset()
                    ctx.feat("TZ not set")
                else:
                    core.set_tz(g.ch(c29.SYSZ))
            if g.p(0.05):
                if patch is None:
                    pin = vals.make(W, g.exact())
                    p = W.patch_current_time(pin, keep_ticking=g.p(0.5))
                    tp = []
                    watched(ctx, lambda: f"entering patch_current_time({pin!r})", lambda: _outcome(lambda: tp.append(p.__enter__())))
                    patch = p
                    if renamed(ns, namespaces()) or public(W) != pub:
                        ctx.fail("a name stands for something else", {"call": "entering patch_current_time"})
                else:
                    p, patch = patch, None
                    watched(ctx, lambda: "leaving patch_current_time", lambda: _outcome(lambda: p.__exit__(None, None, None)))
            try:
                ra = [b(a, g.r) for a in c[1]]
                rk = {kk: b(v, g.r) for kk, v in c[2].items()}
            except core.BuildError:
                continue
            done.append(core.show(*c))
            ctx.key(c29._k(c))
            ctx.specified += 1

            def call():
                return core.invoke(W, c[0], ra, rk)
            if g.p(0.2):
                def run():
                    return st.fault.run(call, g.r.randint(0, 150) if g.p(0.5) else g.r.randint(0, 12))[0]
            else:
                def run():
                    return _outcome(call)
            watched(ctx, lambda: core.show(*c), run)
            ctx.event(c[0])
    finally:
        if patch is not None:
            patch.__exit__(None, None, None)
    core.set_tz(spec.Sys.name)
    n2, p2 = namespaces(), public(W)
    diff = renamed(ns, n2)
    if diff or p2 != pub:
        ctx.fail("a name stands for something else", {"call": done[-1] if done else "", "calls": done, "names": diff + [k for k in p2 if p2[k] != pub.get(k)]})
    if sorted(os.listdir("/proc/self/fd")) != fds:
        ctx.fail("open files changed", {"call": done[-1], "calls": done, "before": fds, "after": sorted(os.listdir("/proc/self/fd"))})
    if random.getstate() != rnd:
        ctx.fail("the random generator was used", {"call": done[-1], "calls": done})
    if _umask() != umask:
        ctx.fail("umask changed", {"call": done[-1], "calls": done})
    ctx.feat("audit events looked at", st.audit.count)
    st.audit.count = 0


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


# ------------------------------------------------------------------ importing
IMPORT = r"""
import sys, os, json
sys.path[:0] = json.loads(sys.argv[1])
import time, datetime, zoneinfo, calendar, email.utils, decimal, locale, gc, signal, threading, atexit, copyreg, random, warnings, io, site, fcntl
from mon.checks import c34
from mon import core
a = c34.Audit()
{extra}
rnd = random.getstate()
out, err = io.StringIO(), io.StringIO()
sys.stdout, sys.stderr = out, err
before = c34.settings()
with warnings.catch_warnings(record=True) as log:
    warnings.simplefilter("always")
    before["warnings.filters"] = tuple(map(repr, warnings.filters))
    before["warnings functions"] = id(warnings.showwarning), id(warnings.warn)
    ns = c34.namespaces()
    a.on = True
    import whenever
    a.on = False
    after, n2 = c34.settings(), c34.namespaces()
sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
bad = dict()
ch = [k for k in before if before[k] != after[k] and k not in ("copyreg",)]
if ch: bad["settings"] = [(k, repr(before[k])[:200], repr(after[k])[:200]) for k in ch]
if a.seen: bad["done"] = a.seen[:10]
if out.getvalue() or err.getvalue(): bad["output"] = out.getvalue()[:200] + err.getvalue()[:200]
if log: bad["warnings"] = [str(w.message) for w in log]
if random.getstate() != rnd: bad["random"] = "used"
d = c34.renamed(ns, n2)
if d: bad["names"] = d
print(json.dumps(dict(bad=bad, file=whenever.__file__, audited=a.count)))
"""
EXTRA = ("", "decimal.getcontext().prec = 7", "os.environ.pop('TZ', None); time.tzset()", "os.environ['TZ'] = 'America/New_York'; time.tzset()",
         "sys.setrecursionlimit(400)", "locale.setlocale(locale.LC_ALL, 'C')", "os.environ.pop('HOME', None)")


def importing(ctx):
    """the package imported in a fresh process"""
    g = ctx.g
    extra = g.ch(EXTRA)
    flags = g.ch(((), ("-O",), ("-OO",), ("-W", "error"), ("-X", "dev"), ("-I",), ("-b",)))
    cmd = [sys.executable, "-B", *flags, "-c", IMPORT.replace("{extra}", extra), json.dumps([core.SRC, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))])]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL)
    ctx.event("import")
    ctx.feat("import " + " ".join(flags))
    ctx.key(("import", extra, flags))
    try:
        res = json.loads(r.stdout)
    except ValueError:
        ctx.fail("importing", {"call": "import whenever", "flags": flags, "setup": extra, "exit": r.returncode, "stdout": r.stdout[-300:], "stderr": r.stderr[-1500:]})
        return
    if res["bad"] or r.stderr.strip():
        ctx.fail("importing does more than define names", {"call": "import whenever", "flags": flags, "setup": extra, "observed": res["bad"], "stderr": r.stderr[-500:]})
    ctx.specified += 1


WORKLOADS = [("calls", 69, calls), ("importing", 1, importing)]
