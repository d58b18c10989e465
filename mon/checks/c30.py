"""The published types (`__init__.pyi`) are honoured at run time."""
import ast
import datetime as dt
import inspect
import operator
import os
import re
from zoneinfo import ZoneInfo, ZoneInfoNotFoundError

from ..vals import *
from .. import core, ops, spec, texts

QUICK, THOROUGH = 40000, 3000000
RULE = ("one case = one call generated from a signature of the stub as published in the tree (function, method, operator, property, constant; "
        "arguments of the annotated types, ordinary and hostile, optional ones given or not), made on the real code: the outcome must be a "
        "value of the annotated type or a documented error; distinct = distinct (signature, arguments given, outcome kind)")
ASSUMES = ["bool for int is not exercised (bool arguments are refused in places although type checkers let them pass)"]

WCLS = {n: t for t, n in NAME.items()}
BIN = {"__add__": operator.add, "__sub__": operator.sub, "__mul__": operator.mul, "__truediv__": operator.truediv, "__floordiv__": operator.floordiv,
       "__mod__": operator.mod, "__lt__": operator.lt, "__le__": operator.le, "__gt__": operator.gt, "__ge__": operator.ge, "__eq__": operator.eq, "__ne__": operator.ne}
REF = {"__radd__": operator.add, "__rsub__": operator.sub, "__rmul__": operator.mul}
UNA = {"__neg__": operator.neg, "__pos__": operator.pos, "__abs__": abs, "__bool__": bool, "__hash__": hash}
STD = {"_date": dt.date, "_datetime": dt.datetime, "_time": dt.time, "_timedelta": dt.timedelta}
PLAIN = {"int": int, "float": float, "str": str, "bool": bool, "None": type(None)}
GROUPS = {"_KnowsInstant": ("Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"),
          "_KnowsInstantAndLocal": ("OffsetDateTime", "ZonedDateTime", "SystemDateTime"),
          "_KnowsLocal": ("OffsetDateTime", "ZonedDateTime", "SystemDateTime", "LocalDateTime")}


class Unknown(Exception):
    """an annotation this monitor has no generator for"""


class Sig:
    __slots__ = ("cls", "owner", "name", "kind", "params", "ret")

    def __repr__(self):
        return f"{self.owner + '.' if self.owner else ''}{self.name}"


def _types(a, alias):
    """annotation -> list of alternatives: a name, ('lit', value) or ('tuple', [..])"""
    if isinstance(a, ast.Constant) and a.value is None:
        return ["None"]
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return _types(ast.parse(a.value, mode="eval").body, alias)
    if isinstance(a, ast.Name):
        if a.id in alias:
            return alias[a.id]
        if a.id in GROUPS:
            return list(GROUPS[a.id])
        if a.id in WCLS or a.id in STD or a.id in PLAIN or a.id in ("object", "Weekday"):
            return [a.id]
        raise Unknown(a.id)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return _types(a.left, alias) + _types(a.right, alias)
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name):
        el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        k = a.value.id
        if k == "Literal":
            return [("lit", ast.literal_eval(e)) for e in el]
        if k in ("Union", "ClassVar", "Final"):
            return [t for e in el for t in _types(e, alias)]
        if k == "Optional":
            return _types(el[0], alias) + ["None"]
        if k in ("tuple", "Tuple"):
            return [("tuple", [_types(e, alias) for e in el])]
    raise Unknown(ast.dump(a))


def _func(n, owner, alias):
    deco = {d.id for d in n.decorator_list if isinstance(d, ast.Name)}
    s = Sig()
    s.owner, s.name = owner, n.name
    s.kind = ("property" if "property" in deco else "class" if deco & {"classmethod", "staticmethod"} else "init" if n.name == "__init__"
              else "method" if owner else "function")
    a = n.args
    if a.vararg or a.kwarg or deco - {"property", "classmethod", "staticmethod", "overload"}:
        raise Unknown("*args")
    pos = [(x, "pos") for x in a.posonlyargs] + [(x, "any") for x in a.args]
    d = [None] * (len(pos) - len(a.defaults)) + a.defaults
    if owner and "staticmethod" not in deco:
        pos, d = pos[1:], d[1:]
    s.params = [(x.arg, k, _types(x.annotation, alias), dd is not None) for (x, k), dd in zip(pos, d)]
    s.params += [(x.arg, "kw", _types(x.annotation, alias), dd is not None) for x, dd in zip(a.kwonlyargs, a.kw_defaults)]
    s.ret = ["None"] if s.kind == "init" else _types(n.returns, alias)
    return s


def read(path):
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    alias, sigs, consts, names, unknown, classes = {}, [], [], set(), 0, {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                alias[n.targets[0].id] = _types(n.value, alias)
            except Unknown:
                pass
    exported = None
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == "__all__":
                exported = set(ast.literal_eval(n.value))
            elif n.targets[0].id not in alias:
                names.add(n.targets[0].id)
        elif isinstance(n, ast.FunctionDef):
            names.add(n.name)
            try:
                sigs.append(_func(n, None, alias))
            except Unknown:
                unknown += 1
        elif isinstance(n, ast.ClassDef):
            names.add(n.name)
            members = classes[n.name] = ({b.id for b in n.bases if isinstance(b, ast.Name)}, set())
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    members[1].add(m.name)
                    for c in ([n.name] if n.name in WCLS else GROUPS.get(n.name, ())):
                        try:
                            s = _func(m, c, alias)
                            s.cls = n.name
                            sigs.append(s)
                        except Unknown:
                            unknown += 1
                elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                    members[1].add(m.target.id)
                    if n.name in WCLS:
                        try:
                            consts.append((n.name, m.target.id, _types(m.annotation, alias)))
                        except Unknown:
                            unknown += 1
                elif isinstance(m, ast.Assign):
                    members[1].update(t.id for t in m.targets if isinstance(t, ast.Name))
    return sigs, consts, names, exported, classes, unknown


def _members(classes, name, seen=()):
    if name not in classes:
        return set()
    bases, own = classes[name]
    return own.union(*(_members(classes, b) for b in bases))


def start(ctx):
    st, W = ctx.state, ctx.W
    sigs, consts, names, exported, classes, unknown = read(os.path.join(core.SRC, "whenever", "__init__.pyi"))
    st.sigs = sigs
    ctx.event("signature in the stub", len(sigs))
    ctx.event("signature without generator", unknown)
    # names
    for n in sorted(names):
        ctx.event("name of the stub looked up")
        if not n.startswith("_") and not hasattr(W, n):
            ctx.fail("name of the stub does not exist", {"call": f"whenever.{n}"})
    run = set(getattr(W, "__all__", None) or [])
    if exported is not None and run:
        for n in sorted(exported ^ run):
            ctx.fail("stub and code export different names", {"call": f"from whenever import {n}", "in the stub": n in exported})
        for n in sorted(run - names):
            ctx.fail("exported name without type", {"call": f"whenever.{n}"})
    for c in WCLS:
        if c not in classes:
            continue
        k = getattr(W, c)
        mem = _members(classes, c)
        for m in sorted(mem):
            ctx.event("member of the stub looked up")
            if not hasattr(k, m):
                ctx.fail("member of the stub does not exist", {"call": f"{c}.{m}"})
        for m in dir(k):
            if not m.startswith("_") and m not in mem:
                ctx.fail("public member without type", {"call": f"{c}.{m}"})
    for c, m, t in consts:
        ctx.event("constant")
        v = getattr(getattr(W, c), m)
        if not _is(W, v, t):
            ctx.fail("type of a constant", {"call": f"{c}.{m}", "observed": repr(v)})


def _is(W, v, alts):
    for t in alts:
        if type(t) is tuple:
            if t[0] == "lit":
                if type(v) is type(t[1]) and v == t[1]:
                    return True
            elif type(v) is tuple and len(v) == len(t[1]) and all(_is(W, x, y) for x, y in zip(v, t[1])):
                return True
        elif t == "object":
            return True
        elif t == "Weekday" or t in WCLS:
            if type(v) is getattr(W, t):
                return True
        elif type(v) is (STD.get(t) or PLAIN[t]):
            return True
    return False


# ------------------------------------------------------------------ arguments
RANGE = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "nanosecond": (0, 999_999_999),
         "increment": (1, 60)}


def _int(g, name):
    k = g.r.random()
    if name in RANGE and k < 0.85:
        lo, hi = RANGE[name]
        return g.ch((lo, hi, g.r.randint(lo, hi), g.r.randint(lo, hi)))
    if name == "i" and k < 0.6:
        return g.r.randint(-62135596800, 253402300799) * g.ch((1, 1, 1000, 10**9))
    if name == "offset" and k < 0.9:
        return g.r.randint(-23, 23)
    if k < 0.7:
        return g.ch((0, 1, -1, 2, 7, 12, 24, 28, 29, 31, 60, 400, 1000, g.r.randint(-1000, 1000)))
    if k < 0.93:
        return g.logint(g.ch((8, 16, 22, 40, 64)))
    return g.ch((1, -1)) * 10 ** g.ch((9, 12, 15, 18, 19, 20, 25, 40, 308, 309, 400, 4000, 5000))


def _float(g, name):
    k = g.r.random()
    if k < 0.4:
        return _int(g, name)
    if k < 0.7:
        return g.r.uniform(-100, 100)
    if k < 0.85:
        return g.r.uniform(-1, 1) * 10.0 ** g.r.randint(-20, 40)
    return g.ch((0.0, -0.0, 0.1, 0.5, 1e-9, 5e-324, 1e308, float("inf"), float("-inf"), float("nan"), 1.5, -2.5, 2.0**53, 9e15, 253402300799.999999999))


def _str(g, name, sig):
    if name == "tz":
        return g.tz() if g.p(0.85) else g.ch(("", "UTC", "utc", "Nope/Nope", "../etc/passwd", "/etc/localtime", "Europe", "x" * 300, "Europe/Ämsterdam", "\0", "posix/UTC",
                                              "Europe/Amsterdam ", g.mutate(g.tz())))
    n = repr(sig)
    if sig.name.startswith("parse_"):
        try:
            s = texts.text(g, n)
        except StopIteration:
            s = ""
    else:
        s = g.ch(("%Y-%m-%d", "%H:%M %z", "2020-01-01", "%", "%%", "", "%Q"))
    k = g.r.random()
    if k < 0.06:
        s = g.ch(("", " ", "\0", "\ud800", "P", "T", "-", "::", "--", "PT", "-P", "9" * 100, "٣" * 10, "20", "Mon,", "Mon, 1 Jan", "1 Jan 2020 1:1:1 EST", "()", '"', s + s, s[::-1]))
    return s


def _std(g, t, sig):
    l = g.r.randint(0, 3652058 * 86400 * 10**6)
    d = dt.datetime.min + dt.timedelta(microseconds=l)
    d = g.ch((d, d, d, dt.datetime.min, dt.datetime.max))
    if t is dt.datetime:
        if g.p(0.75) and not (sig.owner == "LocalDateTime" and g.p(0.7)):
            k = g.r.random()
            if sig.owner == "ZonedDateTime" and k < 0.7 or k < 0.2:
                try:
                    z = ZoneInfo(g.tz())
                    if g.p(0.1):
                        with open("/usr/share/zoneinfo/" + z.key, "rb") as f:
                            z = ZoneInfo.from_file(f)
                    d = d.replace(tzinfo=z)
                except Exception:
                    pass
            elif sig.owner == "Instant" and k < 0.7:
                d = d.replace(tzinfo=dt.timezone.utc)
            else:
                d = d.replace(tzinfo=dt.timezone(dt.timedelta(seconds=g.off())))
        return d.replace(fold=g.ch((0, 0, 1)))
    if t is dt.date:
        return d.date()
    if t is dt.time:
        t = d.time().replace(fold=g.ch((0, 0, 1)))
        return t if g.p(0.8) else t.replace(tzinfo=dt.timezone.utc)
    if t is dt.timedelta:
        return g.ch((dt.timedelta(), dt.timedelta.min, dt.timedelta.max, dt.timedelta(seconds=g.r.randint(-10**12, 10**12), microseconds=g.r.randint(0, 10**6)),
                     dt.timedelta(microseconds=g.r.randint(-10**9, 10**9)), dt.timedelta(days=g.r.randint(-4_000_000, 4_000_000))))
    raise Unknown(t)


def _arg(ctx, alts, name, sig):
    """(argument, its text)"""
    g = ctx.g
    t = g.ch(alts)
    if type(t) is tuple:
        v = t[1]
        return v, repr(v)
    if t in WCLS:
        m = ops.MAKE[WCLS[t]](g)
        if t == "TimeDelta" and name == "offset" and g.p(0.8):
            m = MTD(g.off() * 10**9)
        return ctx.real(m), core._show1(m)
    v = (_int(g, name) if t == "int" else _float(g, name) if t == "float" else _str(g, name, sig) if t == "str" else g.p(0.5) if t == "bool"
         else None if t == "None" else _std(g, STD[t], sig) if t in STD else g.ch((None, 1, "x", object)))
    return v, _show(v)


def _show(v):
    try:
        return repr(v)[:300]
    except ValueError:      # more digits than Python prints
        return f"{'-' * (v < 0)}10**{len(hex(v)) * 12041 // 10000 - 3}.."


OK_ERRORS = (ValueError, OverflowError)


def _allowed(W, e, sig, args):
    if isinstance(e, OK_ERRORS):
        return True
    if isinstance(e, (W.RepeatedTime, W.SkippedTime)):
        return "raise" in args
    if isinstance(e, OSError) and sig.name.startswith("from_timestamp"):
        return True         # (documented for the standard library's, on values out of the platform's range)
    if isinstance(e, re.error):
        return sig.name == "strptime"       # (the standard library's strptime, for a repeated directive)
    if isinstance(e, ZeroDivisionError):
        return sig.name in ("__truediv__", "__floordiv__", "__mod__")
    if isinstance(e, (ZoneInfoNotFoundError, OSError)):
        # a name that is no timezone
        return any(p[0] == "tz" for p in sig.params) or (sig.owner == "ZonedDateTime" and sig.name == "parse_common_iso")
    return False


def typed(ctx):
    g, W, st = ctx.g, ctx.W, ctx.state
    sig = g.ch(st.sigs)
    if sig.owner is None and sig.name == "patch_current_time":
        sig = st.sigs[0]
    recv, rs = None, sig.owner
    if sig.owner and sig.kind in ("method", "property"):
        m = ops.MAKE[WCLS[sig.owner]](g)
        recv, rs = ctx.real(m), core._show1(m)
    a, kw, sa, names = [], {}, [], []
    strp = texts.strptime(g) if sig.name == "strptime" and g.p(0.7) else None
    skipping = False
    for name, kind, alts, opt in sig.params:
        if opt and g.p(0.5):
            skipping = True
            continue
        v, s = _arg(ctx, alts, name, sig)
        if strp and name in ("s", "fmt"):
            v = strp[1][name == "fmt"]
            s = repr(v)
        if kind == "pos":
            if skipping:
                continue
            a.append(v)
        elif kind == "kw" or skipping or g.p(0.4):
            kw[name] = v
            s = f"{name}={s}"
            skipping = True
        else:
            a.append(v)
        sa.append(s)
        names.append(name)
    n = sig.name
    if sig.kind == "property":
        f, call = (lambda: getattr(recv, n)), f"{rs}.{n}"
    elif sig.kind == "init":
        f, call = (lambda: getattr(W, sig.owner)(*a, **kw)), f"{sig.owner}({', '.join(sa)})"
    elif sig.owner and n in BIN and len(a) == 1:
        f, call = (lambda: BIN[n](recv, a[0])), f"{n}({rs}, {sa[0]})"
    elif sig.owner and n in REF and len(a) == 1:
        f, call = (lambda: REF[n](a[0], recv)), f"{n}({rs}, {sa[0]})"
    elif sig.owner and n in UNA and not a:
        f, call = (lambda: UNA[n](recv)), f"{n}({rs})"
    elif sig.owner and n.startswith("__"):
        return
    elif sig.owner:
        x = recv if sig.kind == "method" or g.p(0.1) and recv is not None else getattr(W, sig.owner)
        f, call = (lambda: getattr(x, n)(*a, **kw)), f"{rs}.{n}({', '.join(sa)})"
    else:
        f, call = (lambda: getattr(W, n)(*a, **kw)), f"{n}({', '.join(sa)})"
    ctx.last = call
    ctx.event(repr(sig))
    try:
        r = f()
    except Exception as e:
        ctx.key((repr(sig), tuple(names), type(e).__name__))
        ctx.feat("documented error")
        if not _allowed(W, e, sig, [x for x in (*a, *kw.values()) if type(x) is str]):
            ctx.fail(f"well-typed call: {sig!r}: {type(e).__name__}", {"call": call, "observed": repr(e), "expected": f"{_txt(sig.ret)} or a documented error"})
        return
    ctx.feat("value")
    ctx.key((repr(sig), tuple(names), type(r).__name__))
    ret = [sig.owner] if sig.kind == "init" else sig.ret
    if not _is(W, r, ret):
        ctx.fail(f"type of a result: {sig!r}", {"call": call, "observed": f"{type(r).__name__} {r!r}"[:300], "expected": _txt(ret)})


def _txt(alts):
    return " | ".join(t if type(t) is str else repr(t[1]) for t in alts)


WORKLOADS = [("typed", 1, typed)]
