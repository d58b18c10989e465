"""Reference calendar: proleptic Gregorian, pure integers, no datetime module.

Day numbers: 0 = 0001-01-01.  Nanosecond clocks count from 0001-01-01T00:00.
"""
MIN_DAY = 0
DAY_NS = 86_400_000_000_000
S = 1_000_000_000
MDAYS = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    return 29 if m == 2 and is_leap(y) else MDAYS[m]


def days_from_civil(y, m, d):
    # (algorithm of H. Hinnant, shifted so that 0001-01-01 is 0)
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 306


def civil_from_days(z):
    z += 306
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


MAX_DAY = days_from_civil(9999, 12, 31)
N_DAYS = MAX_DAY + 1
MAX_NS = N_DAYS * DAY_NS - 1
EPOCH_DAY = days_from_civil(1970, 1, 1)
EPOCH_S = EPOCH_DAY * 86400
EPOCH_NS = EPOCH_S * S
MAX_DELTA_MONTHS = 9999 * 12
MAX_DELTA_DAYS = 9999 * 366
MAX_DELTA_NS = MAX_DELTA_DAYS * DAY_NS


def weekday(day):
    """ISO weekday, Monday=1 (0001-01-01 was a Monday)."""
    return day % 7 + 1


def valid_date(y, m, d):
    return 1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= dim(y, m)


def add_months_clip(day, months):
    """None if out of range."""
    y, m, d = civil_from_days(day)
    t = y * 12 + (m - 1) + months
    y, m = t // 12, t % 12 + 1
    if not 1 <= y <= 9999:
        return None
    return days_from_civil(y, m, min(d, dim(y, m)))


def shift_date(day, months, days):
    r = add_months_clip(day, months)
    if r is None:
        return None
    r += days
    return r if 0 <= r <= MAX_DAY else None


def date_diff(a, b):
    """(months, days) with b + months + days == a, months maximal towards a."""
    ya, ma, _ = civil_from_days(a)
    yb, mb, _ = civil_from_days(b)
    m = (ya * 12 + ma) - (yb * 12 + mb)
    if a >= b:
        while m > 0 and add_months_clip(b, m) > a:
            m -= 1
    else:
        while m < 0 and add_months_clip(b, m) < a:
            m += 1
    return m, a - add_months_clip(b, m)


def split_ns(ns):
    """ns-of-clock -> (day, ns_of_day)"""
    return divmod(ns, DAY_NS)


def fields(ns):
    day, t = divmod(ns, DAY_NS)
    y, mo, d = civil_from_days(day)
    s, n = divmod(t, S)
    return y, mo, d, s // 3600, s // 60 % 60, s % 60, n


def to_ns(y, mo, d, h=0, mi=0, s=0, n=0):
    return days_from_civil(y, mo, d) * DAY_NS + (h * 3600 + mi * 60 + s) * S + n


def time_ns(h=0, mi=0, s=0, n=0):
    return (h * 3600 + mi * 60 + s) * S + n


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
