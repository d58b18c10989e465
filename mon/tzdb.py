"""Reference timezone database reader: own TZif (RFC 8536) + POSIX TZ parser.

All seconds are counted from 0001-01-01T00:00 (UTC or local), plain integers.
Shares no code with zoneinfo, datetime or the library under test.
"""
import os
import re
import struct
from bisect import bisect_right

from . import cal

EPOCH_S = cal.EPOCH_S
TZDIR = None
for _d in ("/usr/share/zoneinfo", "/usr/lib/zoneinfo", "/usr/share/lib/zoneinfo", "/etc/zoneinfo"):
    if os.path.isdir(_d):
        TZDIR = _d
        break


def _parse_hms(s, i):
    m = re.compile(r"([+-]?)(\d{1,3})(?::(\d{2}))?(?::(\d{2}))?").match(s, i)
    v = int(m[2]) * 3600 + int(m[3] or 0) * 60 + int(m[4] or 0)
    return (-v if m[1] == "-" else v), m.end()


def _parse_rule(s):
    m = re.fullmatch(r"(M(\d+)\.(\d+)\.(\d+)|J(\d+)|(\d+))(?:/(.*))?", s)
    t = _parse_hms(m[7], 0)[0] if m[7] else 7200
    if m[2]:
        return ("M", int(m[2]), int(m[3]), int(m[4]), t)
    if m[5]:
        return ("J", int(m[5]), t)
    return ("D", int(m[6]), t)


def _rule_day(rule, year):
    """day number of the rule in the year"""
    if rule[0] == "M":
        _, mo, w, wd, _ = rule
        first = cal.days_from_civil(year, mo, 1)
        dow = cal.weekday(first) % 7  # Sunday=0
        d = first + (wd - dow) % 7 + (w - 1) * 7
        while d >= first + cal.dim(year, mo):
            d -= 7
        return d
    jan1 = cal.days_from_civil(year, 1, 1)
    if rule[0] == "J":
        n = rule[1] - 1
        if cal.is_leap(year) and rule[1] >= 60:
            n += 1
        return jan1 + n
    return jan1 + rule[1]


class Posix:
    """A POSIX TZ string."""

    def __init__(self, s):
        name = r"(?:<[^>]+>|[A-Za-z]{3,})"
        m = re.match(name, s)
        i = m.end()
        off, i = _parse_hms(s, i)
        self.std = -off
        self.dst = None
        if i < len(s):
            m = re.compile(name).match(s, i)
            i = m.end()
            if i < len(s) and s[i] != ",":
                off, i = _parse_hms(s, i)
                self.dst = -off
            else:
                self.dst = self.std + 3600
            if i < len(s):
                a, b = s[i + 1:].split(",")
            else:
                a, b = "M3.2.0", "M11.1.0"
            self.start, self.end = _parse_rule(a), _parse_rule(b)
        self._year = {}

    def transitions_of_year(self, year):
        """[(utc_s, offset_before, offset_after)] by wall-clock rule of that year"""
        if self.dst is None:
            return []
        r = self._year.get(year)
        if r is None:
            a = _rule_day(self.start, year) * 86400 + self.start[-1] - self.std
            b = _rule_day(self.end, year) * 86400 + self.end[-1] - self.dst
            r = sorted([(a, self.std, self.dst), (b, self.dst, self.std)])
            self._year[year] = r
        return r

    def transitions_between(self, lo, hi):
        if self.dst is None:
            return []
        y0 = cal.civil_from_days(lo // 86400)[0] - 1
        y1 = cal.civil_from_days(hi // 86400)[0] + 1
        out = []
        for y in range(y0, y1 + 1):
            out += [t for t in self.transitions_of_year(y) if lo <= t[0] < hi]
        out.sort()
        # drop null transitions (e.g. permanent DST written as a rule)
        res = []
        for i, t in enumerate(out):
            if i + 1 < len(out) and out[i + 1][0] == t[0]:
                continue
            res.append(t)
        return res

    def offset_at(self, u):
        if self.dst is None:
            return self.std
        y = cal.civil_from_days(u // 86400)[0]
        cand = []
        for yy in (y - 1, y, y + 1):
            cand += self.transitions_of_year(yy)
        cand.sort()
        off = None
        for t in cand:
            if t[0] <= u:
                off = t[2]
        return cand[0][1] if off is None else off


class Zone:
    """trans: utc seconds (from year 1), offs[i] in force from trans[i]."""

    def __init__(self, first, trans, offs, posix):
        self.first, self.trans, self.offs, self.posix = first, trans, offs, posix
        self._cand = {}

    def offset_at(self, u):
        tr = self.trans
        if not tr or u < tr[0]:
            if not tr and self.posix is not None:
                return self.posix.offset_at(u)
            return self.first
        if u >= tr[-1] and self.posix is not None:
            return self.posix.offset_at(u)
        return self.offs[bisect_right(tr, u) - 1]

    def transitions(self, lo, hi):
        """[(utc_s, before, after)] with lo <= utc_s < hi and before != after"""
        tr, offs = self.trans, self.offs
        out = []
        i = bisect_right(tr, lo - 1)
        while i < len(tr) and tr[i] < hi:
            b = offs[i - 1] if i else self.first
            if b != offs[i]:
                out.append((tr[i], b, offs[i]))
            i += 1
        if self.posix is not None and self.posix.dst is not None:
            last = tr[-1] if tr else -(1 << 60)
            if hi > last:
                for t in self.posix.transitions_between(max(lo, last + 1), hi):
                    if t[1] != t[2]:
                        out.append(t)
        return out

    W = 2 * 86400 + 7200

    def resolve(self, l):
        """l: local seconds.  ->
        ('one', off) | ('fold', off_first, off_second) |
        ('gap', off_before, off_after) | ('odd',)  (more than one transition involved)
        """
        r = self._cand.get(l)
        if r is None:
            r = self._resolve(l)
            if len(self._cand) > 20000:
                self._cand.clear()
            self._cand[l] = r
        return r

    def _resolve(self, l):
        W = self.W
        base = self.offset_at(l - W)
        ts = self.transitions(l - W, l + W)
        if not ts:
            return ("one", base)
        offs = {base}
        for t in ts:
            offs.add(t[2])
        ok = sorted((o for o in offs if self.offset_at(l - o) == o), reverse=True)
        if len(ok) == 1:
            return ("one", ok[0])
        if len(ok) == 2:
            return ("fold", ok[0], ok[1])
        if not ok:
            g = [(b, a) for (t, b, a) in ts if t + b <= l < t + a]
            if len(g) == 1:
                return ("gap", g[0][0], g[0][1])
        return ("odd",)


_zones = {}


def parse_tzif(data):
    def block(off, v):
        magic, ver, isutc, isstd, leap, timecnt, typecnt, charcnt = struct.unpack(
            ">4sc15x6l", data[off:off + 44])
        assert magic == b"TZif"
        p = off + 44
        w, f = (8, "q") if v == 2 else (4, "l")
        trans = list(struct.unpack(f">{timecnt}{f}", data[p:p + w * timecnt]))
        p += w * timecnt
        idx = list(data[p:p + timecnt])
        p += timecnt
        types = [struct.unpack(">lbB", data[p + 6 * i:p + 6 * i + 6]) for i in range(typecnt)]
        p += 6 * typecnt + charcnt + leap * (w + 4) + isstd + isutc
        return ver, trans, idx, types, p
    ver, trans, idx, types, p = block(0, 1)
    posix = None
    if ver >= b"2":
        ver, trans, idx, types, p = block(p, 2)
        foot = data[p + 1:data.index(b"\n", p + 1)].decode()
        if foot:
            posix = Posix(foot)
    lim = 1 << 58
    pairs = [(t + EPOCH_S, types[i][0]) for t, i in zip(trans, idx) if -lim < t < lim]
    return Zone(types[0][0] if types else 0, [t for t, _ in pairs], [o for _, o in pairs], posix)


def zone(key):
    z = _zones.get(key)
    if z is None:
        with open(os.path.join(TZDIR, key), "rb") as f:
            z = _zones[key] = parse_tzif(f.read())
    return z


def posix_zone(s):
    z = _zones.get("=" + s)
    if z is None:
        z = _zones["=" + s] = Zone(0, [], [], Posix(s))
    return z


_SKIP = ("posix/", "right/", "posixrules", "localtime", "Factory")


def all_keys():
    out = []
    for root, dirs, files in os.walk(TZDIR):
        for fn in files:
            p = os.path.join(root, fn)
            k = os.path.relpath(p, TZDIR)
            if k.startswith(_SKIP):
                continue
            try:
                with open(p, "rb") as f:
                    if f.read(4) != b"TZif":
                        continue
            except OSError:
                continue
            out.append(k)
    return sorted(out)


def canonical_groups(keys):
    """One key per distinct file content (keeps workloads from repeating links)."""
    seen = {}
    for k in keys:
        with open(os.path.join(TZDIR, k), "rb") as f:
            seen.setdefault(f.read(), []).append(k)
    return sorted(v[0] for v in seen.values())
