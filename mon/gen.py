"""Seeded, boundary-biased generators of model values and arguments."""
import ast
import glob
import json
import os
import random
import re

from . import cal, tzdb, spec
from .cal import DAY_NS, S
from .vals import *

HOT = ["Europe/Amsterdam", "America/New_York", "America/Sao_Paulo", "Australia/Lord_Howe", "Asia/Kolkata",
       "Asia/Kathmandu", "Africa/Monrovia", "Pacific/Apia", "America/St_Johns", "Asia/Beirut", "Africa/Cairo",
       "Europe/Dublin", "Antarctica/Troll", "Africa/Casablanca", "Asia/Gaza", "America/Havana", "Europe/London",
       "Asia/Pyongyang", "America/Caracas", "Atlantic/Azores", "Asia/Tehran", "America/Asuncion", "Asia/Amman",
       "Europe/Lisbon", "Pacific/Kiritimati", "Pacific/Chatham", "UTC", "Asia/Tokyo", "America/Nuuk", "Etc/GMT+12",
       "Etc/GMT-14", "America/Scoresbysund", "Pacific/Easter", "Asia/Manila", "America/Juneau", "Africa/Juba",
       "Europe/Warsaw", "America/Toronto", "Asia/Hebron", "EST5EDT", "Pacific/Norfolk", "Asia/Ho_Chi_Minh"]
CANON = tzdb.canonical_groups(spec.KEYS)
HOT = [k for k in HOT if k in spec._KEYSET]
YEARS = [1, 2, 3, 4, 5, 8, 99, 100, 101, 400, 999, 1000, 1582, 1600, 1700, 1752, 1800, 1899, 1900, 1901, 1902, 1938,
         1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2011, 2016, 2019, 2020, 2021, 2022, 2023, 2024, 2025, 2026,
         2037, 2038, 2039, 2096, 2099, 2100, 2104, 2199, 2200, 2400, 4000, 9995, 9996, 9997, 9998, 9999]
FRACS = [0, 0, 0, 1, 9, 10, 99, 100, 999, 1000, 1001, 499, 500, 501, 999_999, 1_000_000, 1_001_000, 10_000_000,
         100_000_000, 499_999_999, 500_000_000, 500_000_001, 999_000_000, 999_999_000, 999_999_499, 999_999_500,
         999_999_501, 999_999_998, 999_999_999, 123_456_789, 900_000_000, 120_000_000, 3, 12, 25, 125, 62, 63]
SPECIAL_NS = [0, 1, 2, 999, 1000, 10**6, S - 1, S, S + 1, 60 * S, 3599 * S, 3600 * S, 3601 * S, 1800 * S, 5400 * S,
              DAY_NS - S, DAY_NS - 1, DAY_NS, DAY_NS + 1, 23 * 3600 * S, 25 * 3600 * S, 7 * DAY_NS, 30 * DAY_NS,
              365 * DAY_NS, 366 * DAY_NS, 146097 * DAY_NS, (1 << 31) * S, (1 << 32) * S, (1 << 53), (1 << 62),
              (1 << 63) - 1, 1 << 63, 1 << 64, cal.MAX_NS, cal.MAX_DELTA_NS - 1, cal.MAX_DELTA_NS]


def literals(root=os.environ.get("VERIF_SRC", "/repo/pysrc")):
    """int and str literals occurring in the code under test: extra input bias only"""
    ints, strs = set(), set()
    for p in sorted(glob.glob(os.path.join(root, "**/*.py"), recursive=True)):
        try:
            with open(p, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if type(n.value) is int and abs(n.value) < 1 << 70:
                    ints.add(n.value)
                elif type(n.value) is float and n.value == n.value and abs(n.value) < 1e18:
                    ints.add(int(n.value))
                elif type(n.value) is str and 0 < len(n.value) <= 40 and "\n" not in n.value:
                    strs.add(n.value)
    return ints, strs


def rust_literals(root):
    """the same for the extension's sources"""
    ints, strs = set(), set()
    for p in sorted(glob.glob(os.path.join(root, "**/*.rs"), recursive=True)):
        try:
            with open(p, encoding="utf-8") as f:
                t = re.sub(r"//[^\n]*", "", f.read())
        except OSError:
            continue
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b", t):
            v = int(m[1].replace("_", "").rstrip("x") or "0", 16 if m[1].startswith("0x") else 10)
            if v < 1 << 70:
                ints.add(v)
        strs |= {m[1] for m in re.finditer(r'b?c?"([^"\\\n]{1,40})"', t)}
    return ints, strs


_BASE = os.path.join(os.path.dirname(__file__), "baseline_literals.json")
INTS, STRS = literals()
try:
    with open(_BASE) as _f:
        _b = json.load(_f)
    NEW_INTS = sorted(INTS - set(_b["ints"]))
    NEW_STRS = sorted(STRS - set(_b["strs"]))
except OSError:
    NEW_INTS, NEW_STRS = [], []
if os.environ.get("VERIF_RUST"):
    _ri, _rs = rust_literals(os.environ["VERIF_RUST"])
    NEW_INTS = sorted({*NEW_INTS, *(_ri - set(_b.get("rust_ints", _ri)))})
    NEW_STRS = sorted({*NEW_STRS, *(_rs - set(_b.get("rust_strs", _rs)))})
    INTS |= _ri
LIT_INTS = sorted(INTS)
NEW_TZ = [s for s in NEW_STRS if s in spec._KEYSET]
if NEW_TZ:
    HOT = HOT + NEW_TZ * 4

_TR = {}


def transitions(zone, key):
    """transitions of a zone used for sampling: all explicit ones plus rule years"""
    t = _TR.get(key)
    if t is None:
        lo, hi = 0, (cal.MAX_DAY + 1) * 86400
        if zone.posix is not None and zone.posix.dst is not None:
            t = zone.transitions(lo, cal.days_from_civil(2045, 1, 1) * 86400)
            for y in (2060, 2096, 2100, 2104, 2199, 2400, 3000, 5000, 9996, 9998):
                t += zone.transitions(cal.days_from_civil(y, 1, 1) * 86400, cal.days_from_civil(y + 1, 1, 1) * 86400)
        else:
            t = zone.transitions(lo, hi)
        _TR[key] = t
    return t


ALPHA = "0123456789+-:.,TtZzPpWwDdHhMmSsYyVv_ []/()\\\x00\n\t\u00b2\u0663\uff10\u2212\u00e9\u0131\U0001d7d8"


class G:
    def __init__(self, rng):
        self.r = rng
        self.notes = None

    # -- basics
    def ch(self, seq):
        return seq[int(self.r.random() * len(seq))]

    def p(self, x):
        return self.r.random() < x

    def logint(self, bits):
        n = self.r.getrandbits(1 + int(self.r.random() * bits))
        return -n if self.p(0.5) else n

    def wrapint(self):
        """a number that, scaled to another unit, comes out just beyond the width of a machine integer"""
        w = self.ch((31, 32, 62, 63, 63, 64, 64, 95, 127, 128))
        k = self.ch((1, 1, 3, 7, 12, 24, 60, 365, 366, 1000, 3600, 86400, 10**6, 10**9, 60 * 10**9, 3600 * 10**9, 86400 * 10**9))
        v = -((-self.r.randint(1, 3) << w) // k) + self.ch((0, 0, 0, 1, -1, 2, self.logint(8), self.logint(20)))
        if self.p(0.25):
            v -= self.ch((62135683200, 62135596800))
        return v if self.p(0.7) else -v

    def lit(self):
        if NEW_INTS and self.p(0.6):
            v = self.ch(NEW_INTS)
        else:
            v = self.ch(LIT_INTS)
        return v + self.ch((0, 0, 0, 1, -1))

    def new_lit(self, lo, hi):
        """a literal newly present in the code, when it fits the range"""
        if NEW_INTS and self.p(0.08):
            v = self.ch(NEW_INTS) + self.ch((0, 0, 0, 1, -1))
            if self.p(0.3):
                v = -v
            if lo <= v <= hi:
                return v
        return None

    # -- calendar
    def year(self):
        x = self.new_lit(1, 9999)
        if x is not None:
            return x
        k = self.r.random()
        if k < 0.35:
            return self.ch(YEARS)
        if k < 0.6:
            return self.r.randint(1950, 2050)
        return self.r.randint(1, 9999)

    def day(self):
        """a date as a day number"""
        k = self.r.random()
        if k < 0.05:
            return self.ch((0, 1, 2, 30, 31, 58, 59, 60, cal.MAX_DAY, cal.MAX_DAY - 1, cal.MAX_DAY - 30,
                            cal.MAX_DAY - 31, cal.EPOCH_DAY, cal.EPOCH_DAY - 1, cal.EPOCH_DAY + 1))
        y = self.year()
        if k < 0.35:
            m = self.r.randint(1, 12)
            n = cal.dim(y, m)
            d = self.ch((1, 2, n, n, n - 1, 28, 15))
            return cal.days_from_civil(y, m, d)
        if k < 0.45:
            return cal.days_from_civil(y, 2, self.ch((27, 28, cal.dim(y, 2))))
        if k < 0.52:
            return cal.days_from_civil(y, *self.ch(((12, 31), (1, 1), (12, 30), (3, 1), (1, 31), (8, 31), (10, 31))))
        if k < 0.75:
            m = self.r.randint(1, 12)
            return cal.days_from_civil(y, m, self.r.randint(1, cal.dim(y, m)))
        return self.r.randint(0, cal.MAX_DAY)

    def nanos(self):
        x = self.new_lit(0, S - 1)
        if x is not None:
            return x
        k = self.r.random()
        if k < 0.55:
            return self.ch(FRACS)
        if k < 0.7:
            return self.r.randint(0, 999) * self.ch((1, 1000, 10**6))
        return self.r.randint(0, S - 1)

    def tod(self):
        k = self.r.random()
        if k < 0.12:
            return self.ch((0, 0, 1, DAY_NS - 1, DAY_NS - S, 12 * 3600 * S, 12 * 3600 * S - 1, 12 * 3600 * S + 1,
                            23 * 3600 * S, 3600 * S, 1800 * S, 2 * 3600 * S + 1800 * S, 11 * 3600 * S + 1800 * S,
                            12 * 3600 * S + 1800 * S, DAY_NS - 500_000_000, DAY_NS - 500, DAY_NS - 1800 * S))
        if k < 0.3:
            return self.r.randint(0, 23) * 3600 * S + self.ch((0, 1800, 900, 2700, 1799, 1801, 3599, 59, 30)) * S + self.nanos()
        if k < 0.45:
            return self.r.randint(0, 1439) * 60 * S + self.ch((0, 0, 30, 29, 31, 59)) * S + self.nanos()
        return self.r.randint(0, 86399) * S + self.nanos()

    def local(self):
        k = self.r.random()
        if k < 0.03:
            return self.ch((0, 1, cal.MAX_NS, cal.MAX_NS - 1, cal.MAX_NS - S))
        if k < 0.06:
            x = self.r.randint(0, 172800) * S + self.nanos()
            return x if self.p(0.5) else cal.MAX_NS - x
        return self.day() * DAY_NS + self.tod()

    def utc(self):
        k = self.r.random()
        if k < 0.15:
            # around the epoch and powers of two of seconds
            b = self.ch((0, 0, 0, 1 << 31, -(1 << 31), 1 << 32, 1 << 33, -(1 << 33), 10**9, 10**10, -1, 86400, -86400, 1 << 24))
            return min(max(cal.EPOCH_NS + b * S + self.ch((0, -1, 1, -S, S, -DAY_NS)) + self.ch((0, self.nanos())), 0), cal.MAX_NS)
        return self.local()

    def date(self):
        return MDate(self.day())

    def time(self):
        return MTime(self.tod())

    def ym(self):
        return MYM(*cal.civil_from_days(self.day())[:2])

    def md(self):
        return MMD(*cal.civil_from_days(self.day())[1:])

    # -- offsets and zones
    def off(self):
        x = self.new_lit(-86399, 86399)
        if x is not None:
            return x
        k = self.r.random()
        if k < 0.15:
            return 0
        if k < 0.5:
            return self.r.randint(-14, 14) * 3600
        if k < 0.7:
            return self.r.randint(-14 * 4, 14 * 4) * 900
        if k < 0.8:
            return self.ch((86399, -86399, 86340, -86340, 1, -1, 59, -59, 60, -60, 61, -61, 3599, -3599, 82800, -82800,
                            -1800, 1800, -2700, 20700, -2670, 1172, -18000, 34200))
        if k < 0.9:
            return self.r.randint(-1439, 1439) * 60
        if k < 0.93:
            return min(max(self.r.randint(-23, 23) * 3600 + self.r.randint(-3, 3), -86399), 86399)
        return self.r.randint(-86399, 86399)

    def off_arg(self, off):
        return off // 3600 if off % 3600 == 0 and self.p(0.5) else MTD(off * S)

    def tz(self):
        if NEW_TZ and self.p(0.25):
            return self.ch(NEW_TZ)
        k = self.r.random()
        if k < 0.6:
            return self.ch(HOT)
        if k < 0.9:
            return self.ch(CANON)
        return self.ch(spec.KEYS)

    def trans(self, zone, key):
        t = transitions(zone, key)
        if not t:
            return None
        if self.p(0.5):
            t = t[-40:]
        return self.ch(t)

    def near_local(self, zone, key):
        """local ns near one of the zone's transitions (in either reading), or None"""
        t = self.trans(zone, key)
        if t is None:
            return None
        u, b, a = t
        k = self.r.random()
        lo, hi = u + min(a, b), u + max(a, b)
        if k < 0.45:
            l = self.r.randint(lo, hi)          # inside the gap / fold
            if self.p(0.3):
                l = (lo + hi) // 2
        elif k < 0.75:
            l = self.ch((lo, hi)) + self.ch((0, -1, 1, -1800, 1800, -3600, 3600, -60, 60))
        elif k < 0.88:
            l = self.ch((lo, hi)) + self.r.randint(-2 * 86400, 2 * 86400)
        else:
            # same wall clock some days off, or midnights around
            if self.p(0.5):
                l = self.r.randint(lo, hi) + self.ch((-1, 1, -7, 7, 30, -30, 365, -365)) * 86400
            else:
                l = (lo // 86400 + self.ch((-1, 0, 1, 1, 2))) * 86400 + self.ch((0, 0, -1, 1, 1800, 3600))
        l = l * S + (self.nanos() if self.p(0.6) else 0)
        return l if 0 <= l <= cal.MAX_NS else None

    def zlocal(self, tz):
        z = spec._zone(tz)
        if self.p(0.7):
            l = self.near_local(z, tz)
            if l is not None:
                return l
        return self.local()

    def zoned(self, tz=None):
        tz = tz or self.tz()
        z = spec._zone(tz)
        for _ in range(20):
            l = self.zlocal(tz)
            r = z.resolve(l // S)
            if r[0] == "one":
                off = r[1]
            elif r[0] == "fold":
                off = self.ch(r[1:])
            elif r[0] == "gap":
                off = self.ch(r[1:])
                l = l - off * S
                off = z.offset_at(l // S)
                l += off * S
            else:
                continue
            if 0 <= l <= cal.MAX_NS and 0 <= l - off * S <= cal.MAX_NS:
                return MZoned(l, off, tz)
        off = z.offset_at(cal.EPOCH_S)
        return MZoned(cal.EPOCH_NS + off * S, off, tz)

    def system(self, stale=0.12):
        if self.p(stale):
            o = self.offset()
            return MSystem(o.l, o.off)
        z = spec.Sys.zone
        for _ in range(20):
            l = self.near_local(z, "sys:" + spec.Sys.name) if self.p(0.7) else None
            if l is None:
                l = self.local()
            r = z.resolve(l // S)
            if r[0] == "one":
                off = r[1]
            elif r[0] == "fold":
                off = self.ch(r[1:])
            elif r[0] == "gap":
                u = l - self.ch(r[1:]) * S
                off = z.offset_at(u // S)
                l = u + off * S
            else:
                continue
            if 0 <= l <= cal.MAX_NS and 0 <= l - off * S <= cal.MAX_NS:
                return MSystem(l, off)
        off = z.offset_at(cal.EPOCH_S)
        return MSystem(cal.EPOCH_NS + off * S, off)

    def offset(self):
        while True:
            if self.p(0.15):
                z = self.zoned()
                return MOffset(z.l, z.off)
            l, off = self.local(), self.off()
            if 0 <= l - off * S <= cal.MAX_NS:
                return MOffset(l, off)

    def instant(self):
        if self.p(0.25):
            return MInstant(utc(self.zoned()))
        return MInstant(self.utc())

    def ldt(self):
        return MLocal(self.local())

    def exact(self):
        return self.ch((self.instant, self.offset, self.zoned, self.system))()

    def datetime(self):
        return self.ch((self.instant, self.offset, self.zoned, self.system, self.ldt))()

    def same_moment(self, m):
        """another exact value denoting (nearly) the same moment"""
        u = utc(m) + self.ch((0, 0, 0, 0, 1, -1, S, -S, 1000, 3600 * S, -3600 * S))
        u = min(max(u, 0), cal.MAX_NS)
        for _ in range(5):
            t = self.ch((MInstant, MOffset, MZoned, MSystem))
            if t is MInstant:
                return MInstant(u)
            tz = None
            if t is MZoned:
                tz = m.tz if type(m) is MZoned and self.p(0.4) else self.tz()
                off = spec._zone(tz).offset_at(u // S)
            elif t is MSystem:
                off = spec.Sys.zone.offset_at(u // S)
            else:
                off = m.off if type(m) is not MInstant and self.p(0.4) else self.off()
            if 0 <= u + off * S <= cal.MAX_NS:
                return t(u + off * S, off, tz) if tz else t(u + off * S, off)
        return MInstant(u)

    # -- deltas
    def dns(self, big=True):
        k = self.r.random()
        if k < 0.35:
            n = self.ch(SPECIAL_NS) + self.ch((0, 0, 0, 1, -1))
            n = n if self.p(0.5) else -n
        elif k < 0.55:
            n = self.r.randint(-100, 100) * self.ch((3600 * S, 60 * S, S, 1800 * S, DAY_NS, 10**6, 1000))
        elif k < 0.7:
            n = self.r.randint(-200000, 200000) * S + self.ch((0, self.nanos()))
        elif k < 0.95:
            n = self.logint(68)
        else:
            n = self.lit() * self.ch((1, 1000, 10**6, S, 60 * S, 3600 * S))
        if NEW_INTS and self.p(0.1):
            n = self.ch(NEW_INTS) * self.ch((1, 1, 1000, 10**6, S, 60 * S, 3600 * S)) * self.ch((1, -1)) + self.ch((0, 0, 1, -1))
        if abs(n) > cal.MAX_DELTA_NS:
            n %= cal.MAX_DELTA_NS
        if not big and abs(n) > 400 * DAY_NS:
            n %= 40 * DAY_NS
        return n

    def td(self, big=True):
        return MTD(self.dns(big))

    def dmonths(self):
        x = self.new_lit(-cal.MAX_DELTA_MONTHS, cal.MAX_DELTA_MONTHS)
        if x is not None:
            return x
        k = self.r.random()
        if k < 0.4:
            return self.r.randint(-25, 25)
        if k < 0.55:
            return 12 * self.logint(8)
        if k < 0.65:
            return self.ch((0, 1, -1, 11, 12, 13, -11, -12, -13, 1200, 4800, -4800, 1199, cal.MAX_DELTA_MONTHS, -cal.MAX_DELTA_MONTHS))
        return max(-cal.MAX_DELTA_MONTHS, min(cal.MAX_DELTA_MONTHS, self.logint(17)))

    def ddays(self):
        x = self.new_lit(-cal.MAX_DELTA_DAYS, cal.MAX_DELTA_DAYS)
        if x is not None:
            return x
        k = self.r.random()
        if k < 0.5:
            return self.r.randint(-40, 40)
        if k < 0.65:
            return self.ch((0, 1, -1, 7, -7, 28, 29, 30, 31, -28, -29, -31, 365, 366, -365, -366, 1461, 36524, 146097, -146097,
                            cal.MAX_DELTA_DAYS, -cal.MAX_DELTA_DAYS, cal.MAX_DAY, -cal.MAX_DAY))
        return max(-cal.MAX_DELTA_DAYS, min(cal.MAX_DELTA_DAYS, self.logint(22)))

    def dd(self):
        m, d = self.dmonths(), self.ddays()
        if self.p(0.2):
            m = 0
        elif self.p(0.2):
            d = 0
        if m > 0 > d or m < 0 < d:
            d = -d
        return MDD(m, d)

    def dtd(self):
        m, d = self.dd()
        n = self.dns()
        if self.p(0.15):
            n = 0
        if self.p(0.1):
            m = d = 0
        s = m or d
        if s and n and (s > 0) != (n > 0):
            n = -n
        return MDTD(m, d, n)

    def delta(self):
        return self.ch((self.td, self.dd, self.dtd))()

    def split_exact(self, ns):
        """random keyword spelling of an exact amount"""
        kw = {}
        units = [u for u in spec.UNITS if self.p(0.35)]
        rest = ns
        for u in units:
            if u == "nanoseconds":
                continue
            k = spec.UNITS[u]
            q = rest // k if self.p(0.7) else self.r.randint(-100, 100)
            if self.p(0.1):
                q += self.ch((1, -1))
            kw[u] = q
            rest -= q * k
        if rest or not kw:
            kw["nanoseconds"] = rest
        return kw

    def split_date(self, m, d):
        kw = {}
        if self.p(0.5):
            y = cal.trunc_div(m, 12) if self.p(0.7) else self.r.randint(-3, 3)
            kw["years"] = y
            m -= 12 * y
        if m or self.p(0.2):
            kw["months"] = m
        if self.p(0.4):
            w = cal.trunc_div(d, 7) if self.p(0.7) else self.r.randint(-3, 3)
            kw["weeks"] = w
            d -= 7 * w
        if d or self.p(0.2):
            kw["days"] = d
        return kw

    def shift_kw(self, date=0.5, exact=0.7):
        """keyword arguments of a datetime shift, freely mixed signs"""
        kw = {}
        if self.p(date):
            kw.update(self.split_date(self.dmonths() if self.p(0.6) else 0, self.ddays() if self.p(0.7) else 0))
        if self.p(exact) or not kw:
            kw.update(self.split_exact(self.dns(big=self.p(0.3))))
        return kw

    def small_date_delta(self):
        """short calendar deltas, which keep near a transition"""
        m = self.ch((0, 0, 0, 0, 1, -1, 12, -12, 6, -6))
        d = self.ch((0, 1, -1, 1, -1, 2, -2, 7, -7, 3, 14, -30))
        return m, d

    def dis(self):
        return self.ch(spec.DIS)

    # -- rounding arguments
    def round_args(self, day=True, any_hour=False):
        unit = self.ch(("hour", "minute", "second", "millisecond", "microsecond", "nanosecond") + (("day",) if day else ()))
        if unit == "day":
            inc = 1
        elif unit == "hour" and any_hour and self.p(0.5):
            inc = self.r.randint(1, 1000)
        else:
            n = spec._DIV[unit][0]
            inc = self.ch([i for i in range(1, n + 1) if n % i == 0])
        if self.p(0.04):
            inc = self.ch((0, -1, 7, 9, 11, 13, 16, 48, 61, 120, 999, 1000, 1001, 24, 25, 60))
        mode = self.ch(spec.MODES)
        if self.p(0.01):
            mode = self.ch(("", "half_odd", "CEIL", "trunc", "half", "up"))
        if self.p(0.01):
            unit = self.ch(("", "hours", "week", "HOUR", "day", "month", "days", "nanoseconds"))
        kw = {}
        if unit != "second" or self.p(0.7):
            kw["unit"] = unit
        if inc != 1 or self.p(0.3):
            kw["increment"] = inc
        if mode != "half_even" or self.p(0.3):
            kw["mode"] = mode
        return kw

    def near_multiple(self, kw, hi=DAY_NS - 1, lo=0):
        """a clock value at, near, or half way between multiples of the increment"""
        try:
            inc = spec._inc(kw.get("unit", "second"), kw.get("increment", 1), any_hour=True) or DAY_NS
        except spec.Bad:
            return self.tod()
        q = self.r.randint(lo // inc, max(hi // inc, lo // inc))
        if self.p(0.2):
            q = self.ch((lo // inc, hi // inc, 0, 1))
        n = q * inc + self.ch((0, 1, -1, inc // 2, inc // 2, inc // 2 + 1, inc // 2 - 1, (inc + 1) // 2, self.r.randint(0, inc), inc - 1))
        return min(max(n, lo), hi)

    # -- text
    def mutate(self, s):
        for _ in range(1 if self.p(0.75) else 2):
            s = self._mutate1(s)
        return s

    def _mutate1(self, s):
        k = self.r.randint(0, 19)
        n = len(s)
        i = self.r.randint(0, max(n - 1, 0))
        c = self.ch(ALPHA)
        if NEW_STRS and self.p(0.05):
            c = self.ch(NEW_STRS)
        if k <= 2:
            return s[:i] + s[i + 1:]
        if k <= 4:
            return s[:i] + c + s[i:]
        if k <= 8:
            return s[:i] + c + s[i + 1:]
        if k == 9 and n > 1:
            j = min(i + 1, n - 1)
            return s[:i] + s[j] + s[i] + s[j + 1:]
        if k == 10:
            return s[:i]
        if k == 11:
            return s + self.ch((c, "Z", "\n", " ", "0", "+00:00", "[UTC]", "S"))
        if k == 12:
            return self.ch((" ", "+", "-", c)) + s
        if k == 13:
            return s.replace(self.ch("-:.TZ["), self.ch(("", "", "-", ":", ",", " ", "t", "/")), self.ch((1, -1)))
        if k == 14:
            # another value in a two digit field
            ds = [x for x in range(n - 1) if s[x:x + 2].isdigit() and s[x:x + 2].isascii()]
            if ds:
                x = self.ch(ds)
                return s[:x] + self.ch(("00", "01", "12", "13", "19", "23", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99")) + s[x + 2:]
            return s
        if k == 15:
            return s.swapcase()
        if k == 16:
            # non-ASCII digit twins
            ds = [x for x in range(n) if s[x].isdigit() and s[x].isascii()]
            if ds:
                x = self.ch(ds)
                return s[:x] + chr(self.ch((0x0660, 0xff10, 0x0966, 0x1d7ce)) + int(s[x])) + s[x + 1:]
            return s
        if k == 17:
            # longer fraction or digit run
            x = s.find(".")
            return s + self.ch(("0", "1", "00000")) if x < 0 else s[:x + 1] + self.ch(("0", "000", "123456789", "1234567890", "", "5")) + s[x + 1:]
        if k == 18:
            return s[:i] + s[i:] * 2 if n < 60 else s[:i]
        j = self.r.randint(0, max(n - 1, 0))
        return s[:min(i, j)] + s[max(i, j):]
