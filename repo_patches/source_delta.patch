From fc86768d36dc7a8e7223c170886a18561cdd11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 01/89] fix: compare nanoseconds of both operands in
 Time.__lt__

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..d9cd4c0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1173,7 +1173,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 130f6eb3f022588d63644206f0b93f46be5ca5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 02/89] fix: round to the nearest multiple also for odd
 nanosecond increments

---
 pysrc/whenever/_pywhenever.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d9cd4c0..ee9a059 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,9 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1) // 2 + (
+                quotient % 2 == 0 and increment_ns % 2 == 0
+            )
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1132,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1555,9 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1) // 2 + (
+                quotient % 2 == 0 and increment_ns % 2 == 0
+            )
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1565,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From b77244fd4fb795ca11465596c4e055b7293c1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 03/89] fix: keep round('day') within the same or next day when
 the day is short

---
 pysrc/whenever/_pywhenever.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ee9a059..d8db528 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1118,7 +1118,9 @@ class Time(_ImmutableBase):
     ) -> tuple[Time, int]:  # the time, and whether the result is "next day"
 
         quotient, remainder_ns = divmod(
-            self._to_ns_since_midnight(), increment_ns
+            # on days shorter than 24 hours, the clock may run past their length
+            min(self._to_ns_since_midnight(), day_in_ns - 1),
+            increment_ns,
         )
 
         if mode == "half_even":  # check the default mode first
-- 
2.43.0


From a0b8040c9d28441e23440625ca3e738812ff97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 04/89] fix: accept tiny negative float timestamps

---
 pysrc/whenever/_pywhenever.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d8db528..a20f908 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3262,10 +3262,8 @@ class Instant(_KnowsInstant):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
-        return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
-        )
+        secs, nanos = _split_timestamp(i)
+        return cls._from_py_unchecked(_fromtimestamp(secs, _UTC), nanos)
 
     @classmethod
     def from_timestamp_millis(cls, i: int, /) -> Instant:
@@ -3764,10 +3762,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _load_offset(offset)),
-            int(fract * 1_000_000_000),
+            _fromtimestamp(secs, _load_offset(offset)), nanos
         )
 
     @classmethod
@@ -4375,9 +4372,9 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, ZoneInfo(tz)), nanos
         )
 
     @classmethod
@@ -4882,9 +4879,9 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC).astimezone(), nanos
         )
 
     @classmethod
@@ -5995,6 +5992,13 @@ _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
 
+def _split_timestamp(i: int | float) -> tuple[int | float, int]:
+    secs, fract = divmod(i, 1)
+    nanos = int(fract * 1_000_000_000)
+    # The fraction of a tiny negative value is rounded up to exactly 1.0
+    return (secs, nanos) if nanos < 1_000_000_000 else (secs + 1, 0)
+
+
 def _check_utc_bounds(dt: _datetime) -> _datetime:
     try:
         dt.astimezone(_UTC)
-- 
2.43.0


From fe421fe2f58eb797728d756d6acb9cbb986816f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 05/89] fix: parse fractional seconds of durations exactly

---
 pysrc/whenever/_pywhenever.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index a20f908..2b0c55c 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1787,12 +1787,17 @@ def _unpkl_tdelta(data: bytes) -> TimeDelta:
     return TimeDelta(seconds=s, nanoseconds=ns)
 
 
+def _parse_seconds_to_nanos(s: str) -> int:
+    whole, _, fraction = s.partition(".")
+    return int(whole) * 1_000_000_000 + int(fraction.ljust(9, "0"))
+
+
 def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     if (match := _match_next_timedelta_component(s)) is None:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_seconds_to_nanos(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -2303,7 +2308,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_seconds_to_nanos(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From 663b4c08461dbd2b52adc9ca43edd7eda078c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 06/89] fix: require digits before S in
 DateTimeDelta.parse_common_iso()

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2b0c55c..8d6b125 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5981,7 +5981,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From 1de43c26a1ea8a7b8e8f7e9f0eb55619389a4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 07/89] fix: split DateTimeDelta into seconds and nanoseconds
 exactly

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 8d6b125..d890936 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2227,8 +2227,10 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        total_ns = self._time_part._total_ns
+        whole_seconds, subsec_nanos = divmod(abs(total_ns), 1_000_000_000)
+        if total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 784b0e3383707d8c24d3b29c86971a306e9154d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 08/89] fix: raise on mixed-sign results of adding and
 subtracting deltas

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d890936..e12084b 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2005,19 +2005,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2323,19 +2317,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2367,16 +2360,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From 7a42f4ef5fca0ddb9ad944ec781ddea58c84a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 09/89] fix: only accept YYYY-MM-DD in Date.parse_common_iso()

---
 pysrc/whenever/_pywhenever.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index e12084b..6f676b7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,8 +308,8 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
-            # prevent isoformat from parsing week dates
+        if not _match_date(s):
+            # prevent fromisoformat from parsing other ISO 8601 formats
             raise ValueError(f"Invalid format: {s!r}")
         try:
             return cls._from_py_unchecked(_date.fromisoformat(s))
@@ -5987,6 +5987,7 @@ _match_next_timedelta_component = re.compile(
 _match_next_datedelta_component = re.compile(
     r"^(\d{1,8})([YMWD])", re.ASCII
 ).match
+_match_date = re.compile(r"\d{4}-\d{2}-\d{2}", re.ASCII).fullmatch
 _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
-- 
2.43.0


From eae707f7177716d5acbb4b6abcb268b563321131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 10/89] fix: reject invalid nanosecond arguments in all
 constructors

---
 pysrc/whenever/_pywhenever.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6f676b7..4792d0e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -162,6 +162,13 @@ else:
         return cls
 
 
+def _check_nanos(nanos: int) -> None:
+    if type(nanos) is not int:
+        raise TypeError("nanosecond must be an int")
+    elif not 0 <= nanos < 1_000_000_000:
+        raise ValueError(f"nanosecond out of range: {nanos}")
+
+
 @final
 class Date(_ImmutableBase):
     """A date without a time component
@@ -943,8 +950,7 @@ class Time(_ImmutableBase):
         nanosecond: int = 0,
     ) -> None:
         self._py_time = _time(hour, minute, second)
-        if nanosecond < 0 or nanosecond >= 1_000_000_000:
-            raise ValueError("Nanosecond out of range")
+        _check_nanos(nanosecond)
         self._nanos = nanosecond
 
     @property
@@ -3236,8 +3242,7 @@ class Instant(_KnowsInstant):
         nanosecond: int = 0,
     ) -> Instant:
         """Create an Instant defined by a UTC date and time."""
-        if nanosecond < 0 or nanosecond >= 1_000_000_000:
-            raise ValueError(f"nanosecond out of range: {nanosecond}")
+        _check_nanos(nanosecond)
         return cls._from_py_unchecked(
             _datetime(year, month, day, hour, minute, second, 0, _UTC),
             nanosecond,
@@ -3667,8 +3672,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 _load_offset(offset),
             )
         )
-        if nanosecond < 0 or nanosecond >= 1_000_000_000:
-            raise ValueError(f"nanosecond out of range: {nanosecond}")
+        _check_nanos(nanosecond)
         self._nanos = nanosecond
 
     @classmethod
@@ -4285,8 +4289,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             zone,
             disambiguate,
         )
-        if nanosecond < 0 or nanosecond >= 1_000_000_000:
-            raise ValueError(f"nanosecond out of range: {nanosecond}")
+        _check_nanos(nanosecond)
         self._nanos = nanosecond
 
     @classmethod
@@ -4837,8 +4840,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
             ),
             disambiguate,
         )
-        if nanosecond < 0 or nanosecond >= 1_000_000_000:
-            raise ValueError("nanosecond out of range")
+        _check_nanos(nanosecond)
         self._nanos = nanosecond
 
     @classmethod
@@ -5286,6 +5288,7 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        _check_nanos(nanosecond)
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From c176ae03795c06b2324f781acd0f31feec5b8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 11/89] fix: check that OffsetDateTime results are within range
 in UTC

---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 4792d0e..1591b33 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3995,7 +3995,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
@@ -4161,7 +4161,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5613,7 +5615,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From f76093b6ddec6ff210b2873d5b15ea677e78a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 12/89] fix: keep the previous offset for skipped times in
 ZonedDateTime

---
 pysrc/whenever/_pywhenever.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1591b33..8dcdea7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5879,16 +5879,14 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
-
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # The UTC roundtrip ensures skipped times are shifted.
+    # Setting fold=0 adopts the 'compatible' strategy
+    norm = dt.replace(fold=0).astimezone(_UTC).astimezone(dt.tzinfo)
+    if norm.utcoffset() != prev_offset:
+        other = dt.replace(fold=1).astimezone(_UTC).astimezone(dt.tzinfo)
+        if other.utcoffset() == prev_offset:
+            return other
+    return norm
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From 5dec200679cd0ed5bb00a33f6b9820d3153fae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 13/89] fix: refuse skipped local times when parsing or
 unpickling ZonedDateTime

---
 pysrc/whenever/_pywhenever.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 8dcdea7..c3c8f5a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6088,6 +6088,9 @@ def _adjust_fold_to_offset(dt: _datetime, offset: _timedelta) -> _datetime:
         dt = dt.replace(fold=1)
         if dt.utcoffset() != offset:
             raise InvalidOffset()
+    # Non-existent times: they don't survive a UTC roundtrip
+    if dt.astimezone(_UTC).astimezone(dt.tzinfo) != dt:
+        raise InvalidOffset()
     return dt
 
 
-- 
2.43.0


From c983f908dbb6b95b14b791c6230f957909bb3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 14/89] fix: compare timezone IDs in ZonedDateTime.exact_eq()

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c3c8f5a..7b1ae6c 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2998,12 +2998,12 @@ class _KnowsInstant(_BasicConversions):
             self._py_dt,  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
-            type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(self._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         ) == (
             other._py_dt,  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
-            type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(other._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         )
 
     def difference(
-- 
2.43.0


From 319b7fd146305ed11ff357d9b4d870ba97e2d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 15/89] fix: reject empty disambiguate values instead of
 ignoring them

---
 pysrc/whenever/_pywhenever.py | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7b1ae6c..ad565c1 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4445,7 +4445,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 # mypy doesn't know that tzinfo is always a ZoneInfo here
                 self._py_dt.tzinfo,  # type: ignore[arg-type]
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             self._nanos,
         )
@@ -4465,7 +4469,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 # mypy doesn't know that tzinfo is always a ZoneInfo here
                 self._py_dt.tzinfo,  # type: ignore[arg-type]
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             time._nanos,
         )
@@ -4496,7 +4504,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         else:
             kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
             if zoneinfo_new is not self._py_dt.tzinfo:
-                disambiguate = disambiguate or "compatible"
+                if disambiguate is None:
+                    disambiguate = "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
 
         return self._from_py_unchecked(
@@ -4504,7 +4513,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 self._py_dt.replace(**kwargs),
                 kwargs.get("tzinfo", self._py_dt.tzinfo),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             nanos,
         )
@@ -4939,7 +4952,11 @@ class SystemDateTime(_KnowsInstantAndLocal):
             _resolve_system_ambiguity(
                 _datetime.combine(date._py_date, self._py_dt.time()),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             self._nanos,
         )
@@ -4955,7 +4972,11 @@ class SystemDateTime(_KnowsInstantAndLocal):
             _resolve_system_ambiguity(
                 _datetime.combine(self._py_dt, time._py_time),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             time._nanos,
         )
@@ -4980,7 +5001,11 @@ class SystemDateTime(_KnowsInstantAndLocal):
             _resolve_system_ambiguity(
                 self._py_dt.replace(tzinfo=None, **kwargs),
                 # mypy doesn't know that offset is never None here
-                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]
+                (
+                    self._py_dt.utcoffset()  # type: ignore[arg-type]
+                    if disambiguate is None
+                    else disambiguate
+                ),
             ),
             nanos,
         )
-- 
2.43.0


From 00df63e52d2ff4a998ed371f51eda10c6654aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 16/89] fix: reject aware subclasses in Time.from_py_time()

---
 pysrc/whenever/_pywhenever.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ad565c1..bf47009 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1002,9 +1002,10 @@ class Time(_ImmutableBase):
 
         `fold` value is ignored.
         """
+        if isinstance(t, _time) and t.tzinfo is not None:
+            raise ValueError("Time must be naive")
         if type(t) is _time:
-            if t.tzinfo is not None:
-                raise ValueError("Time must be naive")
+            pass
         elif isinstance(t, _time):
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
-- 
2.43.0


From 92c3498969ff22e4e4d35932d11aa516bdfc2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 17/89] fix: reject sub-second offsets in
 OffsetDateTime.strptime()

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index bf47009..f836a18 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3949,6 +3949,8 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
+        elif parsed.utcoffset().microseconds:  # type: ignore[union-attr]
+            raise ValueError("Sub-second offsets are not supported")
         return cls._from_py_unchecked(
             _check_utc_bounds(parsed.replace(microsecond=0)),
             parsed.microsecond * 1_000,
-- 
2.43.0


From b3eddbf96410967a76d79661293b99c82e7cf276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 18/89] fix: SystemDateTime.is_ambiguous() is only for repeated
 times

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f836a18..fe049e2 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5167,7 +5167,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         This method may give a different result after a change to the system timezone.
         """
         naive = self._py_dt.replace(tzinfo=None)
-        return naive.astimezone(_UTC) != naive.replace(fold=1).astimezone(_UTC)
+        return naive.astimezone(_UTC) < naive.replace(fold=1).astimezone(_UTC)
 
     def day_length(self) -> TimeDelta:
         """The duration between the start of the current day and the next.
-- 
2.43.0


From 212dac54ff9be028c848dfb361806a628e5b9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 19/89] fix: raise TypeError for non-integer nanoseconds in
 TimeDelta

---
 pysrc/whenever/_pywhenever.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index fe049e2..73f78eb 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1298,7 +1298,8 @@ class TimeDelta(_ImmutableBase):
         microseconds: float = 0,
         nanoseconds: int = 0,
     ) -> None:
-        assert type(nanoseconds) is int  # catch this common mistake
+        if type(nanoseconds) is not int:  # catch this common mistake
+            raise TypeError("nanoseconds must be an integer")
         ns = self._total_ns = (
             # Cast individual components to int to avoid floating point errors
             int(hours * 3_600_000_000_000)
-- 
2.43.0


From dc17c6a924988b57e5889f0d53f5d78a07852499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 20/89] fix: require a ZoneInfo with a key in
 ZonedDateTime.from_py_datetime()

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 73f78eb..5c64c54 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4429,6 +4429,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 "Can only create ZonedDateTime from tzinfo=ZoneInfo (exactly), "
                 f"got datetime with tzinfo={d.tzinfo!r}"
             )
+        if d.tzinfo.key is None:
+            raise ValueError("Cannot create ZonedDateTime: ZoneInfo has no key")
 
         # This ensures skipped times are disambiguated according to the fold.
         d = d.astimezone(_UTC).astimezone(d.tzinfo)
-- 
2.43.0


From 895719344e12b52c1e9f1db21132f6f286e984a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 21/89] fix: keep-ticking time patches no longer stack up when
 shifted

---
 pysrc/whenever/_pywhenever.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5c64c54..524dbe1 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6256,8 +6256,11 @@ def _patch_time_keep_ticking(inst: Instant) -> None:
     global _time_patch
     global time_ns
 
-    _patched_at = time_ns()
-    _time_ns = time_ns
+    # Not the current (possibly already patched) `time_ns`: repeated patches
+    # shouldn't be stacked on top of each other.
+    from time import time_ns as _time_ns
+
+    _patched_at = _time_ns()
 
     def time_ns() -> int:
         return inst.timestamp_nanos() + _time_ns() - _patched_at
-- 
2.43.0


From c3d1c866da22ccf7d4141f67adbc6738fa26c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 22/89] fix: shifting a ticking time patch pinned to an
 OffsetDateTime

---
 pysrc/whenever/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..f4d170f 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,13 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
+            elapsed = Instant.now() - self._pin
+            current = (
+                self._pin.add(elapsed, ignore_dst=True)
+                if isinstance(self._pin, OffsetDateTime)
+                else self._pin + elapsed
             )
+            self._pin = new = current.add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From a07830b207e642dcda5ebc9bdf7344ee2cfccfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 23/89] fix: shift forward when rounding ends up in a skipped
 time

---
 pysrc/whenever/_pywhenever.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 524dbe1..74f75d6 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4766,13 +4766,15 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         rounded_local = self.local()._round_unchecked(
             increment_ns, mode, day_ns
         )
-        return self._from_py_unchecked(
-            _resolve_ambiguity_using_prev_offset(
-                rounded_local._py_dt.replace(tzinfo=self._py_dt.tzinfo),
-                self._py_dt.utcoffset(),  # type: ignore[arg-type]
-            ),
-            rounded_local._nanos,
+        rounded = rounded_local._py_dt.replace(tzinfo=self._py_dt.tzinfo)
+        resolved = _resolve_ambiguity_using_prev_offset(
+            rounded, self._py_dt.utcoffset()  # type: ignore[arg-type]
         )
+        if resolved != rounded:  # skipped: don't round up to an earlier time
+            resolved = _resolve_ambiguity(
+                rounded, self._py_dt.tzinfo, "compatible"  # type: ignore[arg-type]
+            )
+        return self._from_py_unchecked(resolved, rounded_local._nanos)
 
     def __repr__(self) -> str:
         return f"ZonedDateTime({str(self).replace('T', ' ', 1)})"
@@ -5257,13 +5259,14 @@ class SystemDateTime(_KnowsInstantAndLocal):
         rounded_local = self.local()._round_unchecked(
             increment_ns, mode, day_ns
         )
-        return self._from_py_unchecked(
-            _resolve_system_ambiguity_using_prev_offset(
-                rounded_local._py_dt,
-                self._py_dt.utcoffset(),  # type: ignore[arg-type]
-            ),
-            rounded_local._nanos,
+        rounded = rounded_local._py_dt
+        resolved = _resolve_system_ambiguity_using_prev_offset(
+            rounded, self._py_dt.utcoffset()  # type: ignore[arg-type]
         )
+        # If skipped: don't round up to an earlier time
+        if resolved.replace(tzinfo=None) != rounded:
+            resolved = _resolve_system_ambiguity(rounded, "compatible")
+        return self._from_py_unchecked(resolved, rounded_local._nanos)
 
     # a custom pickle implementation with a smaller payload
     def __reduce__(self) -> tuple[object, ...]:
-- 
2.43.0


From 8603c89a1ef43fdbc8abb136401fe45cabc30b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 24/89] fix: ignore the fold of fixed-offset datetimes in
 SystemDateTime.from_py_datetime()

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 74f75d6..ca84a4d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4942,7 +4942,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         The inverse of the ``py_datetime()`` method.
         """
         odt = OffsetDateTime.from_py_datetime(d)
-        return cls._from_py_unchecked(odt._py_dt, odt._nanos)
+        return cls._from_py_unchecked(odt._py_dt.replace(fold=0), odt._nanos)
 
     def __repr__(self) -> str:
         return f"SystemDateTime({str(self).replace('T', ' ')})"
-- 
2.43.0


From dccea85f3f842f7dcb606f5a75b5437611b48e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 25/89] fix: exact_eq() of ambiguous times with distinct
 ZoneInfo objects of one timezone

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ca84a4d..1acfebd 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2997,12 +2997,12 @@ class _KnowsInstant(_BasicConversions):
         if type(self) is not type(other):
             raise TypeError("Cannot compare different types")
         return (
-            self._py_dt,  # type: ignore[attr-defined]
+            self._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
             getattr(self._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         ) == (
-            other._py_dt,  # type: ignore[attr-defined]
+            other._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
             getattr(other._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
-- 
2.43.0


From 76f58cbe7bade411fbf18b573fd802c29b3d8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 26/89] fix: replace(tz=...) keeps the offset if the timezone
 ID remains the same

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1acfebd..71d4ced 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4509,7 +4509,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             pass
         else:
             kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
-            if zoneinfo_new is not self._py_dt.tzinfo:
+            if zoneinfo_new.key != self._py_dt.tzinfo.key:  # type: ignore[union-attr]
                 if disambiguate is None:
                     disambiguate = "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
-- 
2.43.0


From 61e30a6965d19b1a1e98e5d49cda002e2a20da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 27/89] fix: LocalDateTime had an instance dict, so its methods
 could be reassigned

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 71d4ced..5e00737 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5312,6 +5312,8 @@ class LocalDateTime(_KnowsLocal):
       time in a simulation game.
     """
 
+    __slots__ = ()
+
     def __init__(
         self,
         year: int,
-- 
2.43.0


From 272bcf3febe3b340a324eadce90da8a338c51274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 28/89] fix: date units must be integers; fractional ones were
 silently truncated

---
 pysrc/whenever/_pywhenever.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5e00737..6342c73 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -48,6 +48,7 @@ from datetime import (
 )
 from email.utils import format_datetime, parsedate_to_datetime
 from math import fmod
+from operator import index as _index
 from struct import pack, unpack
 from time import time_ns
 from typing import (
@@ -387,7 +388,7 @@ class Date(_ImmutableBase):
     def _shift_kwargs(self, sign, years=0, months=0, weeks=0, days=0) -> Date:
         return Date._from_py_unchecked(
             self._add_months(sign * (years * 12 + months))._py_date
-            + _timedelta(weeks * 7 + days) * sign
+            + _timedelta(_index(weeks * 7 + days)) * sign
         )
 
     def days_until(self, other: Date, /) -> int:
@@ -423,7 +424,7 @@ class Date(_ImmutableBase):
         return (self._py_date - other._py_date).days
 
     def _add_months(self, mos: int) -> Date:
-        year_overflow, month_new = divmod(self.month - 1 + mos, 12)
+        year_overflow, month_new = divmod(self.month - 1 + _index(mos), 12)
         month_new += 1
         year_new = self.year + year_overflow
         return Date(
@@ -433,7 +434,9 @@ class Date(_ImmutableBase):
         )
 
     def _add_days(self, days: int) -> Date:
-        return Date._from_py_unchecked(self._py_date + _timedelta(days))
+        return Date._from_py_unchecked(
+            self._py_date + _timedelta(_index(days))
+        )
 
     def __add__(self, p: DateDelta) -> Date:
         """Add a delta to a date.
@@ -1830,15 +1833,17 @@ class DateDelta(_ImmutableBase):
     def __init__(
         self, *, years: int = 0, months: int = 0, weeks: int = 0, days: int = 0
     ) -> None:
-        months = self._months = months + 12 * years
-        days = self._days = days + 7 * weeks
+        months = months + 12 * years
+        days = days + 7 * weeks
         if (months > 0 and days < 0) or (months < 0 and days > 0):
             raise ValueError("Mixed sign in date delta")
         elif (
-            abs(self._months) > _MAX_DELTA_MONTHS
-            or abs(self._days) > _MAX_DELTA_DAYS
+            abs(months) > _MAX_DELTA_MONTHS
+            or abs(days) > _MAX_DELTA_DAYS
         ):
             raise ValueError("Date delta months out of range")
+        self._months = _index(months)
+        self._days = _index(days)
 
     ZERO: ClassVar[DateDelta]
     """A delta of zero"""
-- 
2.43.0


From bbcc1a754ad27b521df1acebce67cffe679a0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 29/89] fix: YearMonth and MonthDay were taken for dates by
 replace_date, Time.on, days_until and days_since

---
 pysrc/whenever/_pywhenever.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6342c73..bd9078a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -405,6 +405,8 @@ class Date(_ImmutableBase):
         If you're interested in calculating the difference
         in terms of days **and** months, use the subtraction operator instead.
         """
+        if not isinstance(other, Date):
+            raise TypeError("date must be a whenever.Date")
         return (other._py_date - self._py_date).days
 
     def days_since(self, other: Date, /) -> int:
@@ -421,6 +423,8 @@ class Date(_ImmutableBase):
         If you're interested in calculating the difference
         in terms of days **and** months, use the subtraction operator instead.
         """
+        if not isinstance(other, Date):
+            raise TypeError("date must be a whenever.Date")
         return (self._py_date - other._py_date).days
 
     def _add_months(self, mos: int) -> Date:
@@ -985,6 +989,8 @@ class Time(_ImmutableBase):
         or :meth:`~LocalDateTime.assume_tz`
         to make the result aware.
         """
+        if not isinstance(d, Date):
+            raise TypeError("date must be a whenever.Date")
         return LocalDateTime._from_py_unchecked(
             _datetime.combine(d._py_date, self._py_time),
             self._nanos,
@@ -3896,6 +3902,8 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(ADJUST_OFFSET_DATETIME_MSG)
+        if not isinstance(date, Date):
+            raise TypeError("date must be a whenever.Date")
         return self._from_py_unchecked(
             _check_utc_bounds(
                 _datetime.combine(date._py_date, self._py_dt.timetz())
@@ -4450,6 +4458,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         See the ``replace()`` method for more information.
         """
+        if not isinstance(date, Date):
+            raise TypeError("date must be a whenever.Date")
         return self._from_py_unchecked(
             _resolve_ambiguity(
                 _datetime.combine(date._py_date, self._py_dt.timetz()),
@@ -4961,6 +4971,8 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         See the ``replace()`` method for more information.
         """
+        if not isinstance(date, Date):
+            raise TypeError("date must be a whenever.Date")
         return self._from_py_unchecked(
             _resolve_system_ambiguity(
                 _datetime.combine(date._py_date, self._py_dt.time()),
@@ -5387,6 +5399,8 @@ class LocalDateTime(_KnowsLocal):
 
     def replace_date(self, d: Date, /) -> LocalDateTime:
         """Construct a new instance with the date replaced."""
+        if not isinstance(d, Date):
+            raise TypeError("date must be a whenever.Date")
         return self._from_py_unchecked(
             _datetime.combine(d._py_date, self._py_dt.time()), self._nanos
         )
-- 
2.43.0


From bb0579837af7a06c54ec01ff381e856df1e4180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 30/89] fix: difference() shifted the datetime if given a
 delta, instead of refusing it

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index bd9078a..63e5352 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3030,6 +3030,8 @@ class _KnowsInstant(_BasicConversions):
 
         See :ref:`the docs on arithmetic <arithmetic>` for more information.
         """
+        if not isinstance(other, _KnowsInstant):
+            raise TypeError("argument must be an exact datetime")
         return self - other  # type: ignore[operator, no-any-return]
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From d3bc0cde15d5d4d361f96070f48e290701178ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 31/89] fix: round() with a whole float increment gave a
 TimeDelta with float components

---
 pysrc/whenever/_pywhenever.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 63e5352..6145d74 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1238,6 +1238,7 @@ _NS_PER_UNIT = {
 def increment_to_ns(unit: str, increment: int, any_hour_ok: bool) -> int:
     if increment < 1 or increment > 1_000 or increment != int(increment):
         raise ValueError("Invalid increment")
+    increment = _index(increment)
     if unit == "day":
         if increment == 1:
             return 86_400_000_000_000
-- 
2.43.0


From cd558abc9e0a59bc098ba528bdbee397db9032f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 32/89] fix: type stub: day_length() is missing, and
 hours_in_day() does not exist

---
 pysrc/whenever/__init__.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 7023537..0b52b8d 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -714,7 +714,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         disambiguate: Literal["compatible", "raise", "earlier", "later"] = ...,
     ) -> ZonedDateTime: ...
     def is_ambiguous(self) -> bool: ...
-    def hours_in_day(self) -> float: ...
+    def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> ZonedDateTime: ...
     def round(
         self,
@@ -871,7 +871,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         disambiguate: Literal["compatible", "raise", "earlier", "later"] = ...,
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
-    def hours_in_day(self) -> float: ...
+    def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> ZonedDateTime: ...
     def round(
         self,
-- 
2.43.0


From b8b405b6c63d83588d53c2ae3adaf6860914159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 33/89] fix: type stub: SystemDateTime.start_of_day() returns a
 SystemDateTime

---
 pysrc/whenever/__init__.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 0b52b8d..1ec1695 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -872,7 +872,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
     def day_length(self) -> TimeDelta: ...
-    def start_of_day(self) -> ZonedDateTime: ...
+    def start_of_day(self) -> SystemDateTime: ...
     def round(
         self,
         unit: Literal[
-- 
2.43.0


From f374b1e5671fdea09c1d60da9148e122cf54297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 34/89] fix: type stub: ignore_dst of
 OffsetDateTime.add()/subtract() is keyword-only

---
 pysrc/whenever/__init__.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 1ec1695..5d5c0a7 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -534,7 +534,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
     ) -> OffsetDateTime: ...
     @overload
     def add(
-        self, d: Delta, /, ignore_dst: Literal[True]
+        self, d: Delta, /, *, ignore_dst: Literal[True]
     ) -> OffsetDateTime: ...
     @overload
     def subtract(
@@ -554,7 +554,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
     ) -> OffsetDateTime: ...
     @overload
     def subtract(
-        self, d: Delta, /, ignore_dst: Literal[True]
+        self, d: Delta, /, *, ignore_dst: Literal[True]
     ) -> OffsetDateTime: ...
     def round(
         self,
-- 
2.43.0


From 39f25779df634daa40647d7b921a5ea918f4b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 35/89] fix: type stub: __all__ lacks names that are exported

---
 pysrc/whenever/__init__.pyi | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 5d5c0a7..9fbf68b 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -11,6 +11,8 @@ from typing import Any, ClassVar, Iterator, Literal, TypeVar, final, overload
 
 __all__ = [
     "Date",
+    "YearMonth",
+    "MonthDay",
     "Time",
     "Instant",
     "OffsetDateTime",
@@ -27,10 +29,13 @@ __all__ = [
     "hours",
     "minutes",
     "seconds",
+    "milliseconds",
     "microseconds",
+    "nanoseconds",
     "SkippedTime",
     "RepeatedTime",
     "InvalidOffset",
+    "ImplicitlyIgnoringDST",
     "MONDAY",
     "TUESDAY",
     "WEDNESDAY",
@@ -38,6 +43,7 @@ __all__ = [
     "FRIDAY",
     "SATURDAY",
     "SUNDAY",
+    "Weekday",
 ]
 
 _EXTENSION_LOADED: bool
-- 
2.43.0


From 20c2b2fe2abcc0388108d7220a27e0c31f42a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 36/89] fix: extension: a reference is made from a null pointer
 in methods without arguments

---
 src/common.rs         | 2 +-
 src/instant.rs        | 2 +-
 src/zoned_datetime.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index f85ca97..8bd9bcc 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -118,7 +118,7 @@ macro_rules! method(
             ml_meth: PyMethodDefPointer {
                 PyCFunction: {
                     unsafe extern "C" fn _wrap(slf: *mut PyObject, arg: *mut PyObject) -> *mut PyObject {
-                        match $meth(&mut *slf, &mut *arg) {
+                        match $meth(slf, arg) {
                             Ok(x) => x,
                             Err(PyErrOccurred()) => core::ptr::null_mut(),
                         }
diff --git a/src/instant.rs b/src/instant.rs
index e5fae4a..cc2677b 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -719,7 +719,7 @@ unsafe fn difference(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     inst_a.diff(inst_b).to_obj(state.time_delta_type)
 }
 
-unsafe fn to_tz(slf: &mut PyObject, tz: &mut PyObject) -> PyReturn {
+unsafe fn to_tz(slf: *mut PyObject, tz: *mut PyObject) -> PyReturn {
     let &State {
         zoned_datetime_type,
         zoneinfo_type,
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index b175a32..8c33cdf 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -569,7 +569,7 @@ unsafe fn exact_eq(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     }
 }
 
-unsafe fn to_tz(slf: &mut PyObject, tz: &mut PyObject) -> PyReturn {
+unsafe fn to_tz(slf: *mut PyObject, tz: *mut PyObject) -> PyReturn {
     let cls = Py_TYPE(slf);
     let &State {
         zoneinfo_type,
@@ -617,7 +617,7 @@ pub(crate) unsafe fn unpickle(module: &mut PyObject, args: &[*mut PyObject]) ->
     .to_obj(zoned_datetime_type)
 }
 
-unsafe fn py_datetime(slf: &mut PyObject, _: &mut PyObject) -> PyReturn {
+unsafe fn py_datetime(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
     let zdt = ZonedDateTime::extract(slf);
     let DateTime {
         date: Date { year, month, day },
@@ -655,7 +655,7 @@ unsafe fn py_datetime(slf: &mut PyObject, _: &mut PyObject) -> PyReturn {
     )
 }
 
-unsafe fn instant(slf: &mut PyObject, _: &mut PyObject) -> PyReturn {
+unsafe fn instant(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
     ZonedDateTime::extract(slf)
         .instant()
         .to_obj(State::for_obj(slf).instant_type)
-- 
2.43.0


From d04907dcee39e323caa89c1a0f3360084b9a0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 37/89] fix: extension: every raised error leaks its message

---
 src/common.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 8bd9bcc..2a2b31d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -28,14 +28,15 @@ macro_rules! py_err(
     };
     ($exc:expr, $msg:expr) => {{
         match $msg.to_py() {
-            Ok(msg) => PyErr_SetObject($exc, msg),
+            // PyErr_SetObject() doesn't steal the reference
+            Ok(msg) => PyErr_SetObject($exc, $crate::common::DecrefOnDrop(msg).0),
             Err(_) => {},
         }
         PyErrOccurred()
     }};
     ($exc:expr, $msg:literal, $($args:tt)*) => {{
         match format!($msg, $($args)*).to_py() {
-            Ok(msg) => PyErr_SetObject($exc, msg),
+            Ok(msg) => PyErr_SetObject($exc, $crate::common::DecrefOnDrop(msg).0),
             Err(_) => {},
         }
         PyErrOccurred()
@@ -555,7 +556,7 @@ impl<T> OptionExt<T> for Option<T> {
             // If conversion to a Python object fails (MemoryError likely),
             // a message is already set for us.
             if let Ok(msg) = msg.to_py() {
-                PyErr_SetObject(exc, msg)
+                PyErr_SetObject(exc, steal!(msg))
             };
             PyErrOccurred()
         })
-- 
2.43.0


From 463e0880ada2e446ba72cf42a7d94997595edc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 38/89] fix: extension: every lookup of the system timezone
 offset leaks a datetime

---
 src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 2a2b31d..9a0e094 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -776,8 +776,8 @@ unsafe fn system_offset(
         return Err(PyErrOccurred());
     }
     let shifted_naive = PyObject_Call(
-        PyObject_GetAttrString(aware, c"replace".as_ptr()).as_result()?,
-        PyTuple_New(0),
+        steal!(PyObject_GetAttrString(aware, c"replace".as_ptr()).as_result()?),
+        steal!(PyTuple_New(0).as_result()?),
         kwargs,
     )
     .as_result()?;
-- 
2.43.0


From aa9435aca6c627b7f4da72f2608de761eb321e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 39/89] fix: extension: parsing a text that ends early aborts
 the interpreter

---
 src/common.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9a0e094..4dbe729 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -63,16 +63,16 @@ macro_rules! type_err(
 
 #[inline]
 pub(crate) fn parse_digit(s: &[u8], index: usize) -> Option<u8> {
-    match s[index] {
-        c if c.is_ascii_digit() => Some(c - b'0'),
+    match s.get(index) {
+        Some(c) if c.is_ascii_digit() => Some(c - b'0'),
         _ => None,
     }
 }
 
 #[inline]
 pub(crate) fn parse_digit_max(s: &[u8], index: usize, max: u8) -> Option<u8> {
-    match s[index] {
-        c if c >= b'0' && c <= max => Some(c - b'0'),
+    match s.get(index) {
+        Some(&c) if c >= b'0' && c <= max => Some(c - b'0'),
         _ => None,
     }
 }
-- 
2.43.0


From 06dc0389972121fb8f9c113f17a8f299f913389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 40/89] fix: extension: round() with a half_* mode rounds ties
 and odd increments the wrong way

---
 src/system_datetime.rs |  6 +++---
 src/time.rs            |  5 +++--
 src/time_delta.rs      | 11 +++++++----
 src/zoned_datetime.rs  |  6 +++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index f940fd1..0d6fd8f 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -1026,9 +1026,9 @@ unsafe fn _round_day(
             let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
             debug_assert!(day_ns > 1);
             let threshold = match mode {
-                round::Mode::HalfEven => day_ns / 2 + (time_ns % 2 == 0) as u64,
-                round::Mode::HalfFloor => day_ns / 2 + 1,
-                round::Mode::HalfCeil => day_ns / 2,
+                // The number of whole days is always zero, thus even
+                round::Mode::HalfEven | round::Mode::HalfFloor => day_ns / 2 + 1,
+                round::Mode::HalfCeil => day_ns.div_ceil(2),
                 _ => unreachable!(),
             };
             if time_ns >= threshold {
diff --git a/src/time.rs b/src/time.rs
index 19c8844..bad4871 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -179,11 +179,12 @@ impl Time {
         let remainder = total_nanos % increment;
 
         let threshold = match mode {
-            round::Mode::HalfEven => std::cmp::max(increment / 2 + (quotient % 2 == 0) as u64, 1),
+            round::Mode::HalfEven if quotient % 2 == 0 => increment / 2 + 1,
+            round::Mode::HalfEven => increment.div_ceil(2),
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment + 1,
             round::Mode::HalfFloor => increment / 2 + 1,
-            round::Mode::HalfCeil => std::cmp::max(increment / 2, 1),
+            round::Mode::HalfCeil => increment.div_ceil(2),
         };
         let round_up = remainder >= threshold;
         let ns_since_midnight = (quotient + round_up as u64) * increment;
diff --git a/src/time_delta.rs b/src/time_delta.rs
index a2641d9..9f807a3 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -93,7 +93,7 @@ impl TimeDelta {
         } = self;
 
         if increment < 1_000_000_000 {
-            nanos = Self::round_subsec(nanos, increment as u32, mode);
+            nanos = Self::round_subsec(secs, nanos, increment as u32, mode);
             secs += (nanos / 1_000_000_000) as i64;
             nanos %= 1_000_000_000;
         } else {
@@ -108,17 +108,20 @@ impl TimeDelta {
         Some(Self { secs, nanos })
     }
 
-    fn round_subsec(nanos: u32, increment: u32, mode: round::Mode) -> u32 {
+    fn round_subsec(secs: i64, nanos: u32, increment: u32, mode: round::Mode) -> u32 {
         debug_assert!(increment < 1_000_000_000);
         debug_assert!(1_000_000_000 % increment == 0);
         let quotient = nanos / increment;
         let remainder = nanos % increment;
+        // Whether the number of whole increments is even (including those in `secs`)
+        let is_even = (secs % 2 * (1_000_000_000 / increment as i64) + quotient as i64) % 2 == 0;
         let threshold = match mode {
-            round::Mode::HalfEven => std::cmp::max(increment / 2 + (quotient % 2 == 0) as u32, 1),
+            round::Mode::HalfEven if is_even => increment / 2 + 1,
+            round::Mode::HalfEven => increment.div_ceil(2),
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment + 1,
             round::Mode::HalfFloor => increment / 2 + 1,
-            round::Mode::HalfCeil => std::cmp::max(increment / 2, 1),
+            round::Mode::HalfCeil => increment.div_ceil(2),
         };
         let round_up = remainder >= threshold;
         (quotient + u32::from(round_up)) * increment
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 8c33cdf..50c89b7 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1480,9 +1480,9 @@ unsafe fn _round_day(
             let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
             debug_assert!(day_ns > 1);
             let threshold = match mode {
-                round::Mode::HalfEven => day_ns / 2 + (time_ns % 2 == 0) as u64,
-                round::Mode::HalfFloor => day_ns / 2 + 1,
-                round::Mode::HalfCeil => day_ns / 2,
+                // The number of whole days is always zero, thus even
+                round::Mode::HalfEven | round::Mode::HalfFloor => day_ns / 2 + 1,
+                round::Mode::HalfCeil => day_ns.div_ceil(2),
                 _ => unreachable!(),
             };
             if time_ns >= threshold {
-- 
2.43.0


From 5bad7aac095ef890e4c554ff8a9be2e9be8f1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 41/89] fix: extension: round() refuses an increment of 1000

---
 src/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/round.rs b/src/round.rs
index f6fcde2..f6fa21b 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -89,7 +89,7 @@ impl Unit {
         hours_increment_always_ok: bool,
     ) -> PyResult<i64> {
         let inc = v.to_i64()?.ok_or_type_err("increment must be an integer")?;
-        if inc <= 0 || inc >= 1000 {
+        if inc <= 0 || inc > 1000 {
             Err(value_err!("increment must be between 0 and 1000"))?;
         }
         match self {
-- 
2.43.0


From 58a7cc601a423c640852f8cbc27143033429231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 42/89] fix: extension: rounding up to a day moves the start of
 a day to the next

---
 src/system_datetime.rs | 3 ++-
 src/zoned_datetime.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 0d6fd8f..6e913e1 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -1017,7 +1017,8 @@ unsafe fn _round_day(
         )
     };
     match mode {
-        round::Mode::Ceil => get_ceil(),
+        round::Mode::Ceil if time != MIDNIGHT => get_ceil(),
+        round::Mode::Ceil => get_floor(),
         round::Mode::Floor => get_floor(),
         _ => {
             let time_ns = time.total_nanos();
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 50c89b7..e7108bf 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1471,7 +1471,8 @@ unsafe fn _round_day(
         )
     };
     match mode {
-        round::Mode::Ceil => get_ceil(),
+        round::Mode::Ceil if time != MIDNIGHT => get_ceil(),
+        round::Mode::Ceil => get_floor(),
         round::Mode::Floor => get_floor(),
         _ => {
             let time_ns = time.total_nanos();
-- 
2.43.0


From fc477ea9c676d5ad174b971d6caab0c9b602baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 43/89] fix: extension: rounding up into a gap gives an earlier
 time

---
 src/system_datetime.rs | 17 +++++++++++++++--
 src/zoned_datetime.rs  | 18 ++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 6e913e1..3733df2 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -973,12 +973,25 @@ unsafe fn round(
                     Err(value_err!("Resulting datetime out of range"))?
                 }
             };
-            OffsetDateTime::resolve_system_tz_using_offset(
+            let resolved = OffsetDateTime::resolve_system_tz_using_offset(
                 state.py_api,
                 date,
                 time_rounded,
                 offset_secs,
-            )
+            )?;
+            if resolved.date == date && resolved.time == time_rounded {
+                Ok(resolved)
+            } else {
+                // skipped: don't round up to an earlier time
+                OffsetDateTime::resolve_system_tz_using_disambiguate(
+                    state.py_api,
+                    date,
+                    time_rounded,
+                    Disambiguate::Compatible,
+                    state.exc_repeated,
+                    state.exc_skipped,
+                )
+            }
         }
     }?
     .to_obj(cls)
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index e7108bf..0052b14 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1419,13 +1419,27 @@ unsafe fn round(
                     Err(value_err!("Resulting datetime out of range"))?
                 }
             };
-            ZonedDateTime::resolve_using_offset(
+            let resolved = ZonedDateTime::resolve_using_offset(
                 state.py_api,
                 date,
                 time_rounded,
                 zoneinfo,
                 offset_secs,
-            )
+            )?;
+            if resolved.date == date && resolved.time == time_rounded {
+                Ok(resolved)
+            } else {
+                // skipped: don't round up to an earlier time
+                ZonedDateTime::resolve_using_disambiguate(
+                    state.py_api,
+                    date,
+                    time_rounded,
+                    zoneinfo,
+                    Disambiguate::Compatible,
+                    state.exc_repeated,
+                    state.exc_skipped,
+                )
+            }
         }
     }?
     .to_obj(cls)
-- 
2.43.0


From 9a340e730413285f35e5aae5156a15937325cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 44/89] fix: extension: half_even of Instant.round() depends on
 the parity of the day

---
 src/instant.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index cc2677b..1d96289 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -842,10 +842,17 @@ unsafe fn round(
     if unit == round::Unit::Day {
         Err(value_err!(doc::CANNOT_ROUND_DAY_MSG))?;
     }
-    let TimeDelta { secs, nanos } = Instant::extract(slf)
-        .to_delta()
-        .round(increment, mode)
-        .unwrap(); // safe unwrap: delta has higher range than instant
+    let inst = Instant::extract(slf);
+    // Increments are counted from the start of the day (UTC), as they are for
+    // the other datetime types.
+    let midnight = inst.secs - inst.secs % S_PER_DAY as i64;
+    let TimeDelta { secs, nanos } = TimeDelta {
+        secs: inst.secs - midnight,
+        nanos: inst.nanos,
+    }
+    .round(increment, mode)
+    .unwrap(); // safe unwrap: delta has higher range than a day
+    let secs = midnight + secs;
 
     if secs > MAX_INSTANT {
         Err(value_err!("Resulting Instant out of range"))?;
-- 
2.43.0


From a731140496e3b15363ef749e28dae3c5230389b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 45/89] fix: extension: py_datetime() with a negative offset
 has a malformed timezone, and leaks it

---
 src/offset_datetime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index bd875e3..b2d717f 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -96,7 +96,12 @@ impl OffsetDateTime {
             offset_secs,
             ..
         } = self;
-        let tz = TimeZone_FromTimeZone(Delta_FromDelta(0, offset_secs, 0, 0, DeltaType), NULL());
+        let tz = {
+            // normalization is needed for negative offsets
+            let delta = Delta_FromDelta(0, offset_secs, 0, 1, DeltaType).as_result()?;
+            defer_decref!(delta);
+            TimeZone_FromTimeZone(delta, NULL()).as_result()?
+        };
         defer_decref!(tz);
         DateTime_FromDateAndTime(
             year.into(),
-- 
2.43.0


From 5392352e434985c95d9b830db08acb35fcf97214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 46/89] fix: extension: OffsetDateTime.format_rfc2822() leaks a
 datetime

---
 src/offset_datetime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index b2d717f..78940f5 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -1054,7 +1054,10 @@ unsafe fn format_rfc2822(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
         py_api,
         ..
     } = State::for_obj(slf);
-    call1(format_rfc2822, OffsetDateTime::extract(slf).to_py(py_api)?)
+    call1(
+        format_rfc2822,
+        steal!(OffsetDateTime::extract(slf).to_py(py_api)?),
+    )
 }
 
 #[cfg(Py_3_10)]
-- 
2.43.0


From e3a97970caa54b18d349cd7b6846ae26a5395afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 47/89] fix: extension: an offset of 24 hours is accepted

---
 src/offset_datetime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 78940f5..9859cda 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -252,13 +252,13 @@ pub(crate) unsafe fn extract_offset(
             // We've checked before that it's a py int
             .unwrap();
         Ok(
-            clamp(given_int, 24i32).ok_or_value_err("offset must be between -24 and 24 hours")?
+            clamp(given_int, 23i32).ok_or_value_err("offset must be between -24 and 24 hours")?
                 * 3600,
         )
     } else if Py_TYPE(obj) == tdelta_cls {
         let TimeDelta { secs, nanos } = TimeDelta::extract(obj);
         if nanos == 0 {
-            clamp(secs, 24i32 * 3600).ok_or_value_err("offset must be between -24 and 24 hours")
+            clamp(secs, 24i32 * 3600 - 1).ok_or_value_err("offset must be between -24 and 24 hours")
         } else {
             Err(value_err!("offset must be a whole number of seconds"))
         }
-- 
2.43.0


From bcd00bdbea83afd22878a52366711bf1f7ac2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 48/89] fix: extension: OffsetDateTime.from_timestamp(), now()
 and round() go beyond the range

---
 src/offset_datetime.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 9859cda..4c8cfc5 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -642,13 +642,11 @@ unsafe fn now(
 
     let offset_secs = extract_offset(offset, state.time_delta_type)?;
     // FUTURE: Conversion to Instant can be done a bit more efficiently
-    let DateTime { date, time } =
-        Instant::from_timestamp_nanos(secs as i128 * 1_000_000_000 + i128::from(subsec_nanos))
-            .ok_or_value_err("SystemTime out of range")?
-            .shift_secs_unchecked(offset_secs.into())
-            .to_datetime();
-    // Technically this can fail if the system time is set beyond year 9999
-    OffsetDateTime::new_unchecked(date, time, offset_secs).to_obj(cls.cast())
+    Instant::from_timestamp_nanos(secs as i128 * 1_000_000_000 + i128::from(subsec_nanos))
+        // This can fail if the system time is set beyond year 9999
+        .and_then(|i| i.to_offset(offset_secs))
+        .ok_or_value_err("SystemTime out of range")?
+        .to_obj(cls.cast())
 }
 
 unsafe fn from_py_datetime(cls: *mut PyObject, dt: *mut PyObject) -> PyReturn {
@@ -891,10 +889,8 @@ unsafe fn from_timestamp(
                 .ok_or_type_err("Timestamp must be an integer or float")?,
         ),
     }
+    .and_then(|i| i.to_offset(offset_secs))
     .ok_or_value_err("Timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -912,10 +908,8 @@ unsafe fn from_timestamp_millis(
             .to_i64()?
             .ok_or_type_err("timestamp must be an integer")?,
     )
+    .and_then(|i| i.to_offset(offset_secs))
     .ok_or_value_err("timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -933,10 +927,8 @@ unsafe fn from_timestamp_nanos(
             .to_i128()?
             .ok_or_type_err("timestamp must be an integer")?,
     )
+    .and_then(|i| i.to_offset(offset_secs))
     .ok_or_value_err("timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -1134,12 +1126,9 @@ unsafe fn round(
             Err(value_err!("Resulting datetime out of range"))?
         }
     }
-    OffsetDateTime {
-        date,
-        time: time_rounded,
-        offset_secs,
-    }
-    .to_obj(cls)
+    OffsetDateTime::new(date, time_rounded, offset_secs)
+        .ok_or_value_err("Resulting datetime out of range")?
+        .to_obj(cls)
 }
 
 static mut METHODS: &[PyMethodDef] = &[
-- 
2.43.0


From 0f96d052722f5439aa31e2d2738aa3538144a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 49/89] fix: extension: ignore_dst=False is reported as an
 unknown argument

---
 src/offset_datetime.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 4c8cfc5..0206eb0 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -499,10 +499,12 @@ pub(crate) unsafe fn check_ignore_dst_kwarg(
     msg: &str,
 ) -> PyResult<()> {
     match kwargs.next() {
-        Some((key, value))
-            if kwargs.len() == 1 && key.kwarg_eq(state.str_ignore_dst) && value == Py_True() =>
-        {
-            Ok(())
+        Some((key, value)) if kwargs.len() == 1 && key.kwarg_eq(state.str_ignore_dst) => {
+            if value == Py_True() {
+                Ok(())
+            } else {
+                Err(py_err!(state.exc_implicitly_ignoring_dst, msg))
+            }
         }
         Some((key, _)) => Err(type_err!("Unknown keyword argument: {}", key.repr())),
         _ => Err(py_err!(state.exc_implicitly_ignoring_dst, msg)),
-- 
2.43.0


From 5a2d20e7f66e90f17f3816372ab0a4a6cf98b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 50/89] fix: extension: an operator with an unrelated type
 gives a SystemError

---
 src/common.rs          | 11 +++++++++++
 src/date.rs            |  8 ++++----
 src/date_delta.rs      |  4 ++--
 src/datetime_delta.rs  |  4 ++--
 src/instant.rs         | 10 +++++-----
 src/local_datetime.rs  |  4 ++--
 src/offset_datetime.rs |  4 ++--
 src/system_datetime.rs | 10 +++++-----
 src/time_delta.rs      |  4 ++--
 src/zoned_datetime.rs  | 10 +++++-----
 10 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 4dbe729..c071936 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -988,6 +988,17 @@ pub(crate) const fn hashmask(hash: Py_hash_t) -> Py_hash_t {
     }
 }
 
+/// The module a type belongs to (borrowed), or NULL if it isn't defined by an extension.
+/// In contrast to PyType_GetModule(), it doesn't set an exception.
+#[inline]
+pub(crate) unsafe fn module_of_type(tp: *mut PyTypeObject) -> *mut PyObject {
+    let module = PyType_GetModule(tp);
+    if module.is_null() {
+        PyErr_Clear();
+    }
+    module
+}
+
 #[inline]
 pub(crate) unsafe fn call1(func: *mut PyObject, arg: *mut PyObject) -> PyReturn {
     PyObject_CallOneArg(func, arg).as_result()
diff --git a/src/date.rs b/src/date.rs
index 0e15e63..efc7c33 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -498,8 +498,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b && type_b == State::for_type(type_a).date_delta_type {
             let DateDelta { months, days } = DateDelta::extract(obj_b);
             Date::extract(obj_a)
@@ -522,8 +522,8 @@ unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // We need to be careful since this method can be called reflexively
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
-    let mod_a = PyType_GetModule(type_a);
-    let mod_b = PyType_GetModule(type_b);
+    let mod_a = module_of_type(type_a);
+    let mod_b = module_of_type(type_b);
     if mod_a == mod_b && type_b == State::for_mod(mod_a).date_delta_type {
         let DateDelta { months, days } = DateDelta::extract(obj_b);
         Date::extract(obj_a)
diff --git a/src/date_delta.rs b/src/date_delta.rs
index 4a0cde0..3ec2483 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -347,8 +347,8 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
             })?
             .to_obj(type_a)
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             if type_b == state.time_delta_type {
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 21ba63d..a1caa38 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -316,8 +316,8 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             let delta_b = if type_b == state.date_delta_type {
diff --git a/src/instant.rs b/src/instant.rs
index 1d96289..95a0bf7 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -405,8 +405,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).zoned_datetime_type {
                 ZonedDateTime::extract(obj_b).instant()
@@ -428,7 +428,7 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
 }
 
 unsafe fn __add__(dt: *mut PyObject, delta_obj: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(dt)) == PyType_GetModule(Py_TYPE(delta_obj)) {
+    if module_of_type(Py_TYPE(dt)) == module_of_type(Py_TYPE(delta_obj)) {
         _shift(dt, delta_obj, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -438,8 +438,8 @@ unsafe fn __add__(dt: *mut PyObject, delta_obj: *mut PyObject) -> PyReturn {
 #[inline]
 unsafe fn _shift(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
     debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
+        module_of_type(Py_TYPE(obj_a)),
+        module_of_type(Py_TYPE(obj_b))
     );
     let type_a = Py_TYPE(obj_a);
     let mut delta = if Py_TYPE(obj_b) == State::for_type(type_a).time_delta_type {
diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index fb355e0..b18ddd2 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -242,8 +242,8 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     let type_b = Py_TYPE(obj_b);
     let type_a = Py_TYPE(obj_a);
 
-    let mod_a = PyType_GetModule(type_a);
-    let mod_b = PyType_GetModule(type_b);
+    let mod_a = module_of_type(type_a);
+    let mod_b = module_of_type(type_b);
 
     if mod_a == mod_b {
         let state = State::for_mod(mod_a);
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 0206eb0..e34f01e 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -332,8 +332,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             let inst_b = if type_b == state.instant_type {
diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 3733df2..7cc477b 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -302,8 +302,8 @@ unsafe fn __richcmp__(a_obj: *mut PyObject, b_obj: *mut PyObject, op: c_int) ->
 #[inline]
 unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
     debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
+        module_of_type(Py_TYPE(obj_a)),
+        module_of_type(Py_TYPE(obj_b))
     );
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
@@ -355,7 +355,7 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
 }
 
 unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(obj_a)) == PyType_GetModule(Py_TYPE(obj_b)) {
+    if module_of_type(Py_TYPE(obj_a)) == module_of_type(Py_TYPE(obj_b)) {
         _shift_operator(obj_a, obj_b, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -376,8 +376,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).instant_type {
                 Instant::extract(obj_b)
diff --git a/src/time_delta.rs b/src/time_delta.rs
index 9f807a3..14deb95 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -524,8 +524,8 @@ unsafe fn _add_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool
             .to_obj(type_a)
     // Careful argument handling since the method may be called with args reversed
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             if type_b == state.date_delta_type {
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 0052b14..597c663 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -428,8 +428,8 @@ unsafe extern "C" fn __hash__(slf: *mut PyObject) -> Py_hash_t {
 #[inline]
 unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
     debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
+        module_of_type(Py_TYPE(obj_a)),
+        module_of_type(Py_TYPE(obj_b))
     );
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
@@ -481,7 +481,7 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
 }
 
 unsafe fn __add__(slf: *mut PyObject, arg: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(slf)) == PyType_GetModule(Py_TYPE(arg)) {
+    if module_of_type(Py_TYPE(slf)) == module_of_type(Py_TYPE(arg)) {
         _shift_operator(slf, arg, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -502,8 +502,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = module_of_type(type_a);
+        let mod_b = module_of_type(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).instant_type {
                 Instant::extract(obj_b)
-- 
2.43.0


From 485bd213bf7f70938c648021097b5ea40c06b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 51/89] fix: extension: parsing a duration with an unfinished
 fraction aborts the interpreter

---
 src/time_delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 14deb95..3fd9299 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -796,7 +796,7 @@ fn parse_nano_fractions(s: &[u8]) -> Option<i128> {
     }
     // at this point we've parsed 9 fractional digits successfully.
     // Only encountering `S` is valid. Nothing more, nothing less.
-    match s[9..] {
+    match s.get(9..)? {
         [b'S'] => Some(tally),
         _ => None,
     }
-- 
2.43.0


From 4de71c4706a40f1d932e83b0cbb35a643d8c9165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 52/89] fix: extension: parsing a duration with many digits
 overflows

---
 src/time_delta.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 3fd9299..7527508 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -808,10 +808,13 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
         return None;
     }
     let mut tally: i128 = 0;
-    // We limit parsing to 35 characters to prevent overflow of i128
-    for i in 0..min(s.len(), 35) {
+    // We limit parsing to 35 digits, like the Python implementation
+    for i in 0..min(s.len(), 36) {
         match s[i] {
-            c if c.is_ascii_digit() => tally = tally * 10 + i128::from(c - b'0'),
+            c if c.is_ascii_digit() && i < 35 => {
+                // Anything above the maximum is too large, whatever the unit is
+                tally = min(tally * 10 + i128::from(c - b'0'), MAX_SECS as i128 + 1)
+            }
             b'H' => {
                 *s = &s[i + 1..];
                 return Some((tally, Unit::Hours));
-- 
2.43.0


From 56d4d9f507a939fcc3e60b10a071f38617fe4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 53/89] fix: extension: parsing durations: seven digit
 components are refused, out of range or malformed ones accepted

---
 src/date_delta.rs     | 4 ++--
 src/datetime_delta.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/date_delta.rs b/src/date_delta.rs
index 3ec2483..d335a91 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -474,9 +474,9 @@ pub(crate) enum Unit {
 
 fn finish_parsing_component(s: &mut &[u8], mut value: i32) -> Option<(i32, Unit)> {
     // We limit parsing to a number of digits to prevent overflow
-    for i in 1..min(s.len(), 7) {
+    for i in 1..min(s.len(), 9) {
         match s[i] {
-            c if c.is_ascii_digit() => value = value * 10 + i32::from(c - b'0'),
+            c if c.is_ascii_digit() && i < 8 => value = value * 10 + i32::from(c - b'0'),
             b'D' => {
                 *s = &s[i + 1..];
                 return Some((value, Unit::Days));
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index a1caa38..a5363e9 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -446,9 +446,14 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
         // catch 'empty' cases
         Err(raise())?
     }
-    let mut ddelta = parse_date_components(s).ok_or_else(raise)?;
+    let ddelta = parse_date_components(s).ok_or_else(raise)?;
+    let mut ddelta = DateDelta::from_same_sign(ddelta.months, ddelta.days)
+        .ok_or_value_err("DateDelta out of range")?;
     let mut tdelta = if s.is_empty() {
         TimeDelta::ZERO
+    } else if s[0] != b'T' {
+        // i.e. there's something else after the days component
+        Err(raise())?
     } else {
         *s = &s[1..];
         let (nanos, _) = time_delta::parse_all_components(s).ok_or_else(raise)?;
-- 
2.43.0


From e8abeaeae4e64db8c6d8c430846c957ad035ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 54/89] fix: extension: a DateTimeDelta below a second may have
 mixed signs; wrong error for unsupported operands

---
 src/datetime_delta.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index a5363e9..3d80266 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -26,15 +26,19 @@ impl DateTimeDelta {
     }
 
     pub(crate) fn new(ddelta: DateDelta, tdelta: TimeDelta) -> Option<Self> {
-        if ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
-            || ddelta.months <= 0 && ddelta.days <= 0 && tdelta.secs <= 0
-        {
+        if Self::same_sign(ddelta, tdelta) {
             Some(Self { ddelta, tdelta })
         } else {
             None
         }
     }
 
+    fn same_sign(ddelta: DateDelta, tdelta: TimeDelta) -> bool {
+        ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
+            // NOTE: nanos are always positive, so zero seconds may be a positive duration
+            || ddelta.months <= 0 && ddelta.days <= 0 && (tdelta.secs < 0 || tdelta.is_zero())
+    }
+
     pub(crate) fn checked_mul(self, factor: i32) -> Option<Self> {
         let Self { ddelta, tdelta } = self;
         ddelta
@@ -50,9 +54,7 @@ impl DateTimeDelta {
             .checked_add(other.tdelta)
             .ok_or(InitError::TooBig)?;
         // Confirm the signs of date- and timedelta didn't get out of sync
-        if ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
-            || ddelta.months <= 0 && ddelta.days <= 0 && tdelta.secs <= 0
-        {
+        if Self::same_sign(ddelta, tdelta) {
             Ok(Self { ddelta, tdelta })
         } else {
             Err(InitError::MixedSign)
@@ -332,7 +334,7 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
                 }
             } else {
                 // We can safely discount other types within our module
-                return Err(value_err!(
+                return Err(type_err!(
                     "unsupported operand type(s) for +/-: {} and {}",
                     (type_a as *mut PyObject).repr(),
                     (type_b as *mut PyObject).repr()
-- 
2.43.0


From 6e78f085776392e76f08d36226e0311025bed02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 55/89] fix: extension: zero durations can't be multiplied by
 large numbers

---
 src/date_delta.rs     | 11 +++++++----
 src/datetime_delta.rs | 13 +++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/date_delta.rs b/src/date_delta.rs
index d335a91..db659a5 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -301,18 +301,21 @@ unsafe fn __str__(slf: *mut PyObject) -> PyReturn {
 
 unsafe fn __mul__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // These checks are needed because the args could be reversed!
-    let (delta_obj, factor) = if obj_a.is_int() {
-        (obj_b, obj_a.to_long()?.unwrap())
+    let (delta_obj, factor_obj) = if obj_a.is_int() {
+        (obj_b, obj_a)
     } else if obj_b.is_int() {
-        (obj_a, obj_b.to_long()?.unwrap())
+        (obj_a, obj_b)
     } else {
         return Ok(newref(Py_NotImplemented()));
     };
+    if DateDelta::extract(delta_obj).is_zero() {
+        return Ok(newref(delta_obj));
+    }
+    let factor = factor_obj.to_long()?.unwrap();
     if factor == 1 {
         return Ok(newref(delta_obj));
     };
     let delta = DateDelta::extract(delta_obj);
-    // FUTURE: optimize zero delta case
     i32::try_from(factor)
         .ok()
         .and_then(|f| delta.checked_mul(f))
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 3d80266..f1e1e8a 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -279,18 +279,23 @@ unsafe fn __str__(slf: *mut PyObject) -> PyReturn {
 
 unsafe fn __mul__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // This circus is because this method can also be called as __rmul__.
-    let (delta_obj, factor) = if obj_a.is_int() {
-        (obj_b, obj_a.to_long()?.unwrap())
+    let (delta_obj, factor_obj) = if obj_a.is_int() {
+        (obj_b, obj_a)
     } else if obj_b.is_int() {
-        (obj_a, obj_b.to_long()?.unwrap())
+        (obj_a, obj_b)
     } else {
         return Ok(newref(Py_NotImplemented()));
     };
+    let DateTimeDelta { ddelta, tdelta } = DateTimeDelta::extract(delta_obj);
+    if ddelta.is_zero() && tdelta.is_zero() {
+        return Ok(newref(delta_obj));
+    }
+    let factor = factor_obj.to_long()?.unwrap();
     if factor == 1 {
         return Ok(newref(delta_obj));
     };
     let delta = DateTimeDelta::extract(delta_obj);
-    // FUTURE: optimize zero delta case, zero factor case
+    // FUTURE: optimize zero factor case
     i32::try_from(factor)
         .ok()
         .and_then(|f| delta.checked_mul(f))
-- 
2.43.0


From dd94ad2b48f313523b0b69e2871713216df3a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 56/89] fix: extension: huge numbers of nanoseconds overflow;
 wrong error for positional arguments and texts of a wrong type

---
 src/datetime_delta.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index f1e1e8a..74a72b5 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -162,6 +162,8 @@ pub(crate) unsafe fn set_units_from_kwargs(
             .to_i128()?
             .ok_or_value_err("nanoseconds must be an integer")?
             .checked_add(*nanos)
+            // Leave room for adding other units, and for changing the sign
+            .filter(|n| n.unsigned_abs() < 1 << 120)
             .ok_or_value_err("total nanoseconds out of range")?;
     } else {
         return Ok(false);
@@ -237,7 +239,7 @@ unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyOb
                 Err(value_err!("Mixed sign in DateTimeDelta"))?
             }
         }
-        _ => Err(value_err!("TimeDelta() takes no positional arguments"))?,
+        _ => Err(type_err!("DateTimeDelta() takes no positional arguments"))?,
     }
     .to_obj(cls)
 }
@@ -441,7 +443,7 @@ pub(crate) fn parse_date_components(s: &mut &[u8]) -> Option<DateDelta> {
 }
 
 unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn {
-    let s = &mut s_obj.to_utf8()?.ok_or_value_err("argument must be str")?;
+    let s = &mut s_obj.to_utf8()?.ok_or_type_err("argument must be str")?;
     let raise = || value_err!("Invalid format: {}", s_obj.repr());
     if s.len() < 3 {
         // at least `P0D`
-- 
2.43.0


From cebc94a86e33f9dcb8f1234b65c18a1618ef18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 57/89] fix: extension: in_seconds() and the like are
 inaccurate for small negative durations

---
 src/time_delta.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 7527508..85345dd 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -638,33 +638,27 @@ unsafe fn in_nanoseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
 }
 
 unsafe fn in_microseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 * 1e6 + nanos as f64 * 1e-3).to_py()
+    (TimeDelta::extract(slf).total_nanos() as f64 / 1e3).to_py()
 }
 
 unsafe fn in_milliseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 * 1e3 + nanos as f64 * 1e-6).to_py()
+    (TimeDelta::extract(slf).total_nanos() as f64 / 1e6).to_py()
 }
 
 unsafe fn in_seconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 + nanos as f64 * 1e-9).to_py()
+    (TimeDelta::extract(slf).total_nanos() as f64 / 1e9).to_py()
 }
 
 unsafe fn in_minutes(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 60.0 + nanos as f64 * 1e-9 / 60.0).to_py()
+    (TimeDelta::extract(slf).total_nanos() as f64 / 60e9).to_py()
 }
 
 unsafe fn in_hours(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 3600.0 + nanos as f64 * 1e-9 / 3600.0).to_py()
+    (TimeDelta::extract(slf).total_nanos() as f64 / 3_600e9).to_py()
 }
 
 unsafe fn in_days_of_24h(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 86_400.0 + nanos as f64 * 1e-9 / 86_400.0).to_py()
+    (TimeDelta::extract(slf).total_nanos() as f64 / 86_400e9).to_py()
 }
 
 unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
-- 
2.43.0


From e2c32925a0be92b31dc923f571f7ac2e186ccd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 58/89] fix: extension: TimeDelta.from_py_timedelta() goes
 beyond the range

---
 src/time_delta.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 85345dd..a3505d6 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -667,14 +667,10 @@ unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
     }
     let secs = i64::from(PyDateTime_DELTA_GET_DAYS(d)) * SECS_PER_DAY
         + i64::from(PyDateTime_DELTA_GET_SECONDS(d));
-    if !(-MAX_SECS..=MAX_SECS).contains(&secs) {
-        Err(value_err!("TimeDelta out of range"))?;
-    }
-    TimeDelta {
-        secs,
-        nanos: PyDateTime_DELTA_GET_MICROSECONDS(d) as u32 * 1_000,
-    }
-    .to_obj(cls.cast())
+    let micros = PyDateTime_DELTA_GET_MICROSECONDS(d);
+    TimeDelta::from_nanos(secs as i128 * 1_000_000_000 + micros as i128 * 1_000)
+        .ok_or_value_err("TimeDelta out of range")?
+        .to_obj(cls.cast())
 }
 
 unsafe fn py_timedelta(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-- 
2.43.0


From 553f0d6b42a54852447cf0fe81967397fbfbae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 59/89] fix: extension: Instant.from_timestamp_nanos()
 overflows

---
 src/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instant.rs b/src/instant.rs
index 95a0bf7..759b1fa 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -126,6 +126,7 @@ impl Instant {
     }
 
     pub(crate) fn from_timestamp_millis(timestamp: i64) -> Option<Self> {
+        // NOTE: this can't overflow because of the division
         let secs = timestamp.div_euclid(1_000) + UNIX_EPOCH_INSTANT;
         ((MIN_INSTANT..=MAX_INSTANT).contains(&secs)).then(|| Instant {
             secs,
@@ -136,7 +137,7 @@ impl Instant {
     pub(crate) fn from_timestamp_nanos(timestamp: i128) -> Option<Self> {
         i64::try_from(timestamp.div_euclid(1_000_000_000))
             .ok()
-            .map(|s| s + UNIX_EPOCH_INSTANT)
+            .and_then(|s| s.checked_add(UNIX_EPOCH_INSTANT))
             .filter(|s| (MIN_INSTANT..=MAX_INSTANT).contains(s))
             .map(|secs| Instant {
                 secs,
-- 
2.43.0


From 3382fea5aac9d38eeced31c75a706a8cd903fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 60/89] fix: extension: from_timestamp() of a float may be a
 second off

---
 src/instant.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index 759b1fa..b401157 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -119,9 +119,14 @@ impl Instant {
     pub(crate) fn from_timestamp_f64(timestamp: f64) -> Option<Self> {
         (MIN_EPOCH as f64..MAX_EPOCH as f64)
             .contains(&timestamp)
-            .then(|| Instant {
-                secs: (timestamp.floor() as i64 + UNIX_EPOCH_INSTANT),
-                nanos: (timestamp * 1_000_000_000_f64).rem_euclid(1_000_000_000_f64) as u32,
+            .then(|| {
+                let floor = timestamp.floor();
+                // NOTE: the fraction of a tiny negative value is rounded up to exactly 1.0
+                let nanos = ((timestamp - floor) * 1_000_000_000_f64) as u32;
+                Instant {
+                    secs: floor as i64 + UNIX_EPOCH_INSTANT + i64::from(nanos / 1_000_000_000),
+                    nanos: nanos % 1_000_000_000,
+                }
             })
     }
 
-- 
2.43.0


From cdd582cb7bcc51be4607511d2a66b4f1fc1a7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 61/89] fix: extension: LocalDateTime() with an invalid time
 raises a TypeError

---
 src/local_datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index b18ddd2..4a6308c 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -178,7 +178,7 @@ unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyOb
 
     DateTime {
         date: Date::from_longs(year, month, day).ok_or_type_err("Invalid date")?,
-        time: Time::from_longs(hour, minute, second, nanos).ok_or_type_err("Invalid time")?,
+        time: Time::from_longs(hour, minute, second, nanos).ok_or_value_err("Invalid time")?,
     }
     .to_obj(cls)
 }
-- 
2.43.0


From 49ee4eedb4f114ff1dd2547369e94864e9ca6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 62/89] fix: extension: a duration within range is refused if
 one of its components isn't

---
 src/datetime_delta.rs | 16 ++++++++--------
 src/instant.rs        | 11 +++++------
 src/time_delta.rs     | 18 +++++++++++-------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 74a72b5..62e6711 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -8,9 +8,7 @@ use std::ptr::null_mut as NULL;
 use crate::common::*;
 use crate::date_delta::{self, parse_prefix, DateDelta, InitError, Unit as DateUnit};
 use crate::docstrings as doc;
-use crate::time_delta::{
-    self, TimeDelta, MAX_HOURS, MAX_MICROSECONDS, MAX_MILLISECONDS, MAX_MINUTES, MAX_SECS,
-};
+use crate::time_delta::{self, TimeDelta};
 use crate::State;
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone)]
@@ -75,6 +73,8 @@ impl Neg for DateTimeDelta {
     }
 }
 
+// NOTE: if the value is part of a total, only that needs to be within bounds.
+// The `max` can then be i64::MAX: the result doesn't overflow.
 #[inline]
 pub(crate) unsafe fn handle_exact_unit(
     value: *mut PyObject,
@@ -148,15 +148,15 @@ pub(crate) unsafe fn set_units_from_kwargs(
             .and_then(|d| days.checked_add(d))
             .ok_or_value_err("total days out of range")?;
     } else if eq(key, state.str_hours) {
-        *nanos += handle_exact_unit(value, MAX_HOURS, "hours", 3_600_000_000_000_i128)?;
+        *nanos += handle_exact_unit(value, i64::MAX, "hours", 3_600_000_000_000_i128)?;
     } else if eq(key, state.str_minutes) {
-        *nanos += handle_exact_unit(value, MAX_MINUTES, "minutes", 60_000_000_000_i128)?;
+        *nanos += handle_exact_unit(value, i64::MAX, "minutes", 60_000_000_000_i128)?;
     } else if eq(key, state.str_seconds) {
-        *nanos += handle_exact_unit(value, MAX_SECS, "seconds", 1_000_000_000_i128)?;
+        *nanos += handle_exact_unit(value, i64::MAX, "seconds", 1_000_000_000_i128)?;
     } else if eq(key, state.str_milliseconds) {
-        *nanos += handle_exact_unit(value, MAX_MILLISECONDS, "milliseconds", 1_000_000_i128)?;
+        *nanos += handle_exact_unit(value, i64::MAX, "milliseconds", 1_000_000_i128)?;
     } else if eq(key, state.str_microseconds) {
-        *nanos += handle_exact_unit(value, MAX_MICROSECONDS, "microseconds", 1_000_i128)?;
+        *nanos += handle_exact_unit(value, i64::MAX, "microseconds", 1_000_i128)?;
     } else if eq(key, state.str_nanoseconds) {
         *nanos = value
             .to_i128()?
diff --git a/src/instant.rs b/src/instant.rs
index b401157..574aba5 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -5,7 +5,6 @@ use pyo3_ffi::*;
 use crate::common::*;
 use crate::datetime_delta::handle_exact_unit;
 use crate::docstrings as doc;
-use crate::time_delta::{MAX_HOURS, MAX_MICROSECONDS, MAX_MILLISECONDS, MAX_MINUTES, MAX_SECS};
 use crate::{
     date::Date,
     local_datetime::DateTime,
@@ -675,15 +674,15 @@ unsafe fn _shift_method(
     }
     handle_kwargs(fname, kwargs, |key, value, eq| {
         if eq(key, str_hours) {
-            nanos += handle_exact_unit(value, MAX_HOURS, "hours", 3_600_000_000_000_i128)?;
+            nanos += handle_exact_unit(value, i64::MAX, "hours", 3_600_000_000_000_i128)?;
         } else if eq(key, str_minutes) {
-            nanos += handle_exact_unit(value, MAX_MINUTES, "minutes", 60_000_000_000_i128)?;
+            nanos += handle_exact_unit(value, i64::MAX, "minutes", 60_000_000_000_i128)?;
         } else if eq(key, str_seconds) {
-            nanos += handle_exact_unit(value, MAX_SECS, "seconds", 1_000_000_000_i128)?;
+            nanos += handle_exact_unit(value, i64::MAX, "seconds", 1_000_000_000_i128)?;
         } else if eq(key, str_milliseconds) {
-            nanos += handle_exact_unit(value, MAX_MILLISECONDS, "milliseconds", 1_000_000_i128)?;
+            nanos += handle_exact_unit(value, i64::MAX, "milliseconds", 1_000_000_i128)?;
         } else if eq(key, str_microseconds) {
-            nanos += handle_exact_unit(value, MAX_MICROSECONDS, "microseconds", 1_000_i128)?;
+            nanos += handle_exact_unit(value, i64::MAX, "microseconds", 1_000_i128)?;
         } else if eq(key, str_nanoseconds) {
             nanos = value
                 .to_i128()?
diff --git a/src/time_delta.rs b/src/time_delta.rs
index a3505d6..fc194e6 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -241,26 +241,30 @@ unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyOb
                 |key, value, eq| {
                     if eq(key, str_hours) {
                         nanos +=
-                            handle_exact_unit(value, MAX_HOURS, "hours", 3_600_000_000_000_i128)?;
+                            handle_exact_unit(value, i64::MAX, "hours", 3_600_000_000_000_i128)?;
                     } else if eq(key, str_minutes) {
                         nanos +=
-                            handle_exact_unit(value, MAX_MINUTES, "minutes", 60_000_000_000_i128)?;
+                            handle_exact_unit(value, i64::MAX, "minutes", 60_000_000_000_i128)?;
                     } else if eq(key, str_seconds) {
-                        nanos += handle_exact_unit(value, MAX_SECS, "seconds", 1_000_000_000_i128)?;
+                        nanos += handle_exact_unit(value, i64::MAX, "seconds", 1_000_000_000_i128)?;
                     } else if eq(key, str_milliseconds) {
                         nanos += handle_exact_unit(
                             value,
-                            MAX_MILLISECONDS,
+                            i64::MAX,
                             "milliseconds",
                             1_000_000_i128,
                         )?;
                     } else if eq(key, str_microseconds) {
                         nanos +=
-                            handle_exact_unit(value, MAX_MICROSECONDS, "microseconds", 1_000_i128)?;
+                            handle_exact_unit(value, i64::MAX, "microseconds", 1_000_i128)?;
                     } else if eq(key, str_nanoseconds) {
-                        nanos += value
+                        nanos = value
                             .to_i128()?
-                            .ok_or_value_err("nanoseconds must be an integer")?;
+                            .ok_or_value_err("nanoseconds must be an integer")?
+                            .checked_add(nanos)
+                            // Leave room for adding other units
+                            .filter(|n| n.unsigned_abs() < 1 << 120)
+                            .ok_or_value_err("total nanoseconds out of range")?;
                     } else {
                         return Ok(false);
                     }
-- 
2.43.0


From b4cb6f782fbbb12f7f3d5b7029aafa02863b5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 63/89] fix: extension: a DateTimeDelta without date part can't
 be multiplied by large numbers

---
 src/datetime_delta.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 62e6711..efb95f5 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -37,11 +37,16 @@ impl DateTimeDelta {
             || ddelta.months <= 0 && ddelta.days <= 0 && (tdelta.secs < 0 || tdelta.is_zero())
     }
 
-    pub(crate) fn checked_mul(self, factor: i32) -> Option<Self> {
+    pub(crate) fn checked_mul(self, factor: i128) -> Option<Self> {
         let Self { ddelta, tdelta } = self;
-        ddelta
-            .checked_mul(factor)
-            .zip(tdelta.checked_mul(factor.into()))
+        if ddelta.is_zero() {
+            Some(ddelta)
+        } else {
+            i32::try_from(factor)
+                .ok()
+                .and_then(|f| ddelta.checked_mul(f))
+        }
+        .zip(tdelta.checked_mul(factor))
             .map(|(ddelta, tdelta)| Self { ddelta, tdelta })
     }
 
@@ -292,15 +297,14 @@ unsafe fn __mul__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     if ddelta.is_zero() && tdelta.is_zero() {
         return Ok(newref(delta_obj));
     }
-    let factor = factor_obj.to_long()?.unwrap();
+    let factor = factor_obj.to_i128()?.unwrap();
     if factor == 1 {
         return Ok(newref(delta_obj));
     };
     let delta = DateTimeDelta::extract(delta_obj);
     // FUTURE: optimize zero factor case
-    i32::try_from(factor)
-        .ok()
-        .and_then(|f| delta.checked_mul(f))
+    delta
+        .checked_mul(factor)
         .ok_or_value_err("Multiplication factor or result out of bounds")?
         .to_obj(Py_TYPE(delta_obj))
 }
-- 
2.43.0


From 1291d6625cb37aba657d7bd49f985082daf4d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 64/89] fix: extension: calling a method without arguments may
 make a slice from a null pointer

---
 src/common.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index c071936..6f40e55 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -156,7 +156,7 @@ macro_rules! method_vararg(
                         args: *mut *mut PyObject,
                         nargs: Py_ssize_t,
                     ) -> *mut PyObject {
-                        match $meth(&mut *slf, std::slice::from_raw_parts(args, nargs as usize)) {
+                        match $meth(&mut *slf, $crate::common::arg_slice(args, nargs as usize)) {
                             Ok(x) => x,
                             Err(PyErrOccurred()) => core::ptr::null_mut(),
                         }
@@ -214,6 +214,16 @@ impl Iterator for KwargIter {
     }
 }
 
+/// The positional arguments of a call. CPython may pass NULL if there are none.
+#[inline]
+pub(crate) unsafe fn arg_slice<'a>(args: *const *mut PyObject, nargs: usize) -> &'a [*mut PyObject] {
+    if nargs == 0 {
+        &[]
+    } else {
+        std::slice::from_raw_parts(args, nargs)
+    }
+}
+
 // FUTURE: the method macros could probably become plain functions
 macro_rules! method_kwargs(
     ($meth:ident, $doc:expr) => {
@@ -241,8 +251,8 @@ macro_rules! method_kwargs(
                         kwnames: *mut PyObject,
                     ) -> *mut PyObject {
                         let nargs = PyVectorcall_NARGS(nargsf as usize);
-                        let args = std::slice::from_raw_parts(args_raw, nargs as usize);
-                        let mut kwargs = KwargIter::new(kwnames, args_raw.offset(nargs as isize));
+                        let args = $crate::common::arg_slice(args_raw, nargs as usize);
+                        let mut kwargs = KwargIter::new(kwnames, args_raw.wrapping_offset(nargs as isize));
                         match $meth(slf, cls, args, &mut kwargs) {
                             Ok(x) => x as *mut PyObject,
                             Err(PyErrOccurred()) => core::ptr::null_mut(),
-- 
2.43.0


From c450e3c3ed6ded88b728329f5e76cbca8377a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 65/89] fix: extension: ZonedDateTime.replace(tz=...) uses the
 timezone after freeing it

---
 src/zoned_datetime.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 597c663..0f7b342 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -813,9 +813,11 @@ unsafe fn replace(
     let ZonedDateTime {
         date,
         time,
-        mut zoneinfo,
+        zoneinfo,
         offset_secs,
     } = ZonedDateTime::extract(slf);
+    // Owns a reference, because it's needed beyond the handling of the arguments
+    let mut zoneinfo = DecrefOnDrop(newref(zoneinfo));
     let mut year = date.year.into();
     let mut month = date.month.into();
     let mut day = date.day.into();
@@ -828,11 +830,10 @@ unsafe fn replace(
     handle_kwargs("replace", kwargs, |key, value, eq| {
         if eq(key, state.str_tz) {
             let zoneinfo_new = call1(state.zoneinfo_type, value)?;
-            if (zoneinfo_new as *mut _) != zoneinfo {
+            if (zoneinfo_new as *mut _) != zoneinfo.0 {
                 dis.get_or_insert(Disambiguate::Compatible);
             };
-            defer_decref!(zoneinfo_new);
-            zoneinfo = zoneinfo_new;
+            zoneinfo = DecrefOnDrop(zoneinfo_new);
         } else if eq(key, state.str_disambiguate) {
             dis = Some(Disambiguate::from_py(value)?);
         } else {
@@ -859,7 +860,7 @@ unsafe fn replace(
         state.py_api,
         date,
         time,
-        zoneinfo,
+        zoneinfo.0,
         dis,
         offset_secs,
         state.exc_repeated,
-- 
2.43.0


From 665d371f5cae2bce8b621787cc974b24745c14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 66/89] fix: extension: exact_eq() and replace(tz=...) take
 distinct ZoneInfo objects of one timezone for different timezones

---
 src/zoned_datetime.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 0f7b342..94a112b 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -20,7 +20,7 @@ use crate::{
     State,
 };
 
-#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone)]
+#[derive(Debug, Copy, Clone)]
 pub(crate) struct ZonedDateTime {
     date: Date,
     time: Time,
@@ -297,6 +297,22 @@ unsafe fn zoneinfo_key(zoneinfo: *mut PyObject) -> String {
     .to_string()
 }
 
+// The same timezone may be represented by several ZoneInfo objects,
+// for example if the ZoneInfo cache is cleared.
+unsafe fn same_zone(a: *mut PyObject, b: *mut PyObject) -> PyResult<bool> {
+    if a == b {
+        return Ok(true);
+    }
+    let key_a = PyObject_GetAttrString(a, c"key".as_ptr()).as_result()?;
+    defer_decref!(key_a);
+    let key_b = PyObject_GetAttrString(b, c"key".as_ptr()).as_result()?;
+    defer_decref!(key_b);
+    match PyObject_RichCompareBool(key_a, key_b, Py_EQ) {
+        -1 => Err(PyErrOccurred()),
+        x => Ok(x == 1),
+    }
+}
+
 unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyObject) -> PyReturn {
     let &State {
         zoneinfo_type,
@@ -560,7 +576,13 @@ static mut SLOTS: &[PyType_Slot] = &[
 
 unsafe fn exact_eq(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     if Py_TYPE(obj_a) == Py_TYPE(obj_b) {
-        (ZonedDateTime::extract(obj_a) == ZonedDateTime::extract(obj_b)).to_py()
+        let a = ZonedDateTime::extract(obj_a);
+        let b = ZonedDateTime::extract(obj_b);
+        (a.date == b.date
+            && a.time == b.time
+            && a.offset_secs == b.offset_secs
+            && same_zone(a.zoneinfo, b.zoneinfo)?)
+        .to_py()
     } else {
         Err(type_err!(
             "Argument must be ZonedDateTime, got {}",
@@ -830,7 +852,7 @@ unsafe fn replace(
     handle_kwargs("replace", kwargs, |key, value, eq| {
         if eq(key, state.str_tz) {
             let zoneinfo_new = call1(state.zoneinfo_type, value)?;
-            if (zoneinfo_new as *mut _) != zoneinfo.0 {
+            if !same_zone(zoneinfo_new, zoneinfo.0)? {
                 dis.get_or_insert(Disambiguate::Compatible);
             };
             zoneinfo = DecrefOnDrop(zoneinfo_new);
-- 
2.43.0


From e4db4a62edd480d098c1ee61d79c2d4886d63342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 67/89] fix: extension: ZonedDateTime.from_py_datetime()
 accepts a ZoneInfo without key, which has no ID

---
 src/zoned_datetime.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 94a112b..4cb008e 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -954,6 +954,12 @@ unsafe fn from_py_datetime(cls: *mut PyObject, dt: *mut PyObject) -> PyReturn {
         ))?;
     }
 
+    let key = PyObject_GetAttrString(tzinfo, c"key".as_ptr()).as_result()?;
+    defer_decref!(key);
+    if is_none(key) {
+        Err(value_err!("ZoneInfo must have a key"))?;
+    }
+
     let fold = PyDateTime_DATE_GET_FOLD(dt);
     let date = Date {
         year: PyDateTime_GET_YEAR(dt) as _,
-- 
2.43.0


From e324f5eb4b71a6c572de6d3a75cb684a89f3def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 68/89] fix: extension: ZonedDateTime.parse_common_iso()
 accepts skipped times, and refuses long timezone IDs

---
 src/zoned_datetime.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 4cb008e..5bca806 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1220,7 +1220,12 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
         return Err(raise());
     }
     let offset_secs = parse_offset_partial(s).ok_or_else(raise)?;
-    if s.len() < 3 || s.len() > 255 || s[0] != b'[' || s[s.len() - 1] != b']' || !s.is_ascii() {
+    if s.len() < 3
+        || s.len() > 257
+        || s[0] != b'['
+        || s.iter().position(|&c| c == b']') != Some(s.len() - 1)
+        || !s.is_ascii()
+    {
         return Err(raise());
     }
     let &State {
@@ -1236,9 +1241,9 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
     defer_decref!(zoneinfo);
     let offset_is_valid = match OffsetResult::for_tz(py_api, date, time, zoneinfo)? {
         OffsetResult::Unambiguous(o) => o == offset_secs,
-        OffsetResult::Gap(o1, o2) | OffsetResult::Fold(o1, o2) => {
-            o1 == offset_secs || o2 == offset_secs
-        }
+        OffsetResult::Fold(o1, o2) => o1 == offset_secs || o2 == offset_secs,
+        // Skipped times don't exist, thus no offset is valid
+        OffsetResult::Gap(_, _) => false,
     };
     if offset_is_valid {
         ZonedDateTime::new(date, time, offset_secs, zoneinfo)
-- 
2.43.0


From e2aed117d2f78ad2fae57bc024c5b0afcd1edf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 69/89] fix: extension: a decimal point without digits is
 accepted in times with an offset

---
 src/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/time.rs b/src/time.rs
index bad4871..c965722 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -162,6 +162,9 @@ impl Time {
                 end_index = i + 1;
                 nanos += ((s[i] - b'0') as u32) * factor;
             }
+            if end_index < 10 {
+                return None; // no digits after the decimal point
+            }
         }
         let result = Time::new(hour, minute, second, nanos);
         *s = &s[end_index..]; // advance the slice
-- 
2.43.0


From b7355332d568d7a1e0283b1ca21e050665c51f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 70/89] fix: extension: shifting by huge amounts overflows

---
 src/date.rs           | 5 +++--
 src/datetime_delta.rs | 4 ++++
 src/local_datetime.rs | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index efc7c33..409331d 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -96,8 +96,9 @@ impl Date {
     }
 
     pub(crate) fn shift_months(self, months: i32) -> Option<Date> {
-        let month = ((self.month as i32 + months - 1).rem_euclid(12)) as u8 + 1;
-        let year = self.year as i32 + (self.month as i32 + months - 1).div_euclid(12);
+        let month0 = (self.month as i32 - 1).checked_add(months)?;
+        let month = (month0.rem_euclid(12)) as u8 + 1;
+        let year = self.year as i32 + month0.div_euclid(12);
         (MIN_YEAR as i32..=MAX_YEAR as i32)
             .contains(&year)
             .then(|| {
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index efb95f5..0d457f6 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -127,6 +127,7 @@ pub(crate) unsafe fn set_units_from_kwargs(
             .checked_mul(12)
             .and_then(|y| y.try_into().ok())
             .and_then(|y| months.checked_add(y))
+            .filter(|&m| m > i32::MIN) // so its sign can be changed
             .ok_or_value_err("total years out of range")?;
     } else if eq(key, state.str_months) {
         *months = value
@@ -135,6 +136,7 @@ pub(crate) unsafe fn set_units_from_kwargs(
             .try_into()
             .ok()
             .and_then(|m| months.checked_add(m))
+            .filter(|&m| m > i32::MIN)
             .ok_or_value_err("total months out of range")?;
     } else if eq(key, state.str_weeks) {
         *days = value
@@ -143,6 +145,7 @@ pub(crate) unsafe fn set_units_from_kwargs(
             .checked_mul(7)
             .and_then(|d| d.try_into().ok())
             .and_then(|d| days.checked_add(d))
+            .filter(|&d| d > i32::MIN)
             .ok_or_value_err("total days out of range")?;
     } else if eq(key, state.str_days) {
         *days = value
@@ -151,6 +154,7 @@ pub(crate) unsafe fn set_units_from_kwargs(
             .try_into()
             .ok()
             .and_then(|d| days.checked_add(d))
+            .filter(|&d| d > i32::MIN)
             .ok_or_value_err("total days out of range")?;
     } else if eq(key, state.str_hours) {
         *nanos += handle_exact_unit(value, i64::MAX, "hours", 3_600_000_000_000_i128)?;
diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index 4a6308c..5522609 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -95,8 +95,8 @@ impl DateTime {
 
     pub(crate) fn shift_nanos(self, nanos: i128) -> Option<Self> {
         let DateTime { mut date, time } = self;
-        let new_time = i128::from(time.total_nanos()) + nanos;
-        let days_delta = new_time.div_euclid(NS_PER_DAY) as i32;
+        let new_time = i128::from(time.total_nanos()).checked_add(nanos)?;
+        let days_delta = i32::try_from(new_time.div_euclid(NS_PER_DAY)).ok()?;
         let nano_delta = new_time.rem_euclid(NS_PER_DAY) as u64;
         if days_delta != 0 {
             date = date.shift_days(days_delta)?
-- 
2.43.0


From 96cc0c615e315f91117a7db70b0dc439cce5ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 71/89] fix: extension: Instant.add() of huge numbers of
 nanoseconds overflows

---
 src/instant.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instant.rs b/src/instant.rs
index 574aba5..c9dba03 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -688,6 +688,8 @@ unsafe fn _shift_method(
                 .to_i128()?
                 .ok_or_value_err("nanoseconds must be an integer")?
                 .checked_add(nanos)
+                // Leave room for adding other units, and for changing the sign
+                .filter(|n| n.unsigned_abs() < 1 << 120)
                 .ok_or_value_err("total nanoseconds out of range")?;
         } else {
             return Ok(false);
-- 
2.43.0


From 247b4a30a7de77672d38f80f757324ff95903e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 72/89] fix: extension: ticking from a time before 1970 aborts
 the interpreter

---
 src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5e384d..c2d07b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,7 @@ unsafe fn _patch_time(module: *mut PyObject, arg: *mut PyObject, freeze: bool) -
         TimePatch::Frozen(pin)
     } else {
         TimePatch::KeepTicking {
-            pin: std::time::Duration::new(pin.0 as _, pin.1),
+            pin,
             at: SystemTime::now()
                 .duration_since(SystemTime::UNIX_EPOCH)
                 .ok()
@@ -736,7 +736,8 @@ enum TimePatch {
     Unset,
     Frozen((i64, u32)),
     KeepTicking {
-        pin: std::time::Duration,
+        // NOTE: not a Duration, since it may be before 1970
+        pin: (i64, u32),
         at: std::time::Duration,
     },
 }
@@ -768,13 +769,17 @@ impl State {
             }
             TimePatch::Frozen(e) => Ok(e),
             TimePatch::KeepTicking { pin, at } => {
-                let dur = pin
-                    + SystemTime::now()
-                        .duration_since(SystemTime::UNIX_EPOCH)
-                        .ok()
-                        .ok_or_py_err(PyExc_OSError, "System time out of range")?
-                    - at;
-                Ok((dur.as_secs() as i64, dur.subsec_nanos()))
+                let now = SystemTime::now()
+                    .duration_since(SystemTime::UNIX_EPOCH)
+                    .ok()
+                    .ok_or_py_err(PyExc_OSError, "System time out of range")?;
+                let nanos = i128::from(pin.0) * 1_000_000_000
+                    + i128::from(pin.1)
+                    + (now.as_nanos() as i128 - at.as_nanos() as i128);
+                Ok((
+                    nanos.div_euclid(1_000_000_000) as i64,
+                    nanos.rem_euclid(1_000_000_000) as u32,
+                ))
             }
         }
     }
-- 
2.43.0


From d1e5c577bf11732f2191aadbfe7b0b15e67bad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 73/89] fix: extension: the current time has invalid
 nanoseconds if time_machine travels to before 1970

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2d07b3..bf5d07c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -790,7 +790,10 @@ impl State {
         let ns = (ts as *mut PyObject)
             .to_i64()?
             .ok_or_py_err(PyExc_RuntimeError, "time_ns() returned a non-integer")?;
-        Ok((ns / 1_000_000_000, (ns % 1_000_000_000) as u32))
+        Ok((
+            ns.div_euclid(1_000_000_000),
+            ns.rem_euclid(1_000_000_000) as u32,
+        ))
     }
 
     unsafe fn time_ns_rust(&self) -> PyResult<(i64, u32)> {
-- 
2.43.0


From e5e11d613e38f531b2577278b46beb4c1588404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 74/89] fix: extension: Instant.now() goes beyond the range

---
 src/instant.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index c9dba03..ed33da1 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -577,11 +577,11 @@ unsafe fn from_py_datetime(cls: *mut PyObject, dt: *mut PyObject) -> PyReturn {
 
 unsafe fn now(cls: *mut PyObject, _: *mut PyObject) -> PyReturn {
     let (secs, nanos) = State::for_type(cls.cast()).time_ns()?;
-    Instant {
-        secs: secs + UNIX_EPOCH_INSTANT,
-        nanos,
-    }
-    .to_obj(cls.cast())
+    Instant::from_timestamp(secs)
+        .map(|i| Instant { nanos, ..i })
+        // This can fail if the system time is set beyond year 9999
+        .ok_or_value_err("SystemTime out of range")?
+        .to_obj(cls.cast())
 }
 
 unsafe fn parse_rfc3339(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn {
-- 
2.43.0


From ef9ea3bf741cfafe2671795cbbc1a657a9858145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 75/89] fix: extension: unpickling corrupted data makes invalid
 objects, which may abort the interpreter

---
 src/date.rs            | 11 ++++----
 src/date_delta.rs      | 18 ++++++++----
 src/datetime_delta.rs  | 23 ++++++++-------
 src/instant.rs         | 11 ++++----
 src/local_datetime.rs  | 24 ++++++++--------
 src/monthday.rs        |  9 +++---
 src/offset_datetime.rs | 34 +++++++++++++---------
 src/system_datetime.rs | 34 +++++++++++++---------
 src/time.rs            | 13 +++++----
 src/time_delta.rs      | 12 ++++----
 src/yearmonth.rs       |  9 +++---
 src/zoned_datetime.rs  | 64 +++++++++++++++++++++++++++---------------
 12 files changed, 157 insertions(+), 105 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 409331d..93a8358 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -725,11 +725,12 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if packed.len() != 4 {
         Err(value_err!("Invalid pickle data"))?
     }
-    Date {
-        year: unpack_one!(packed, u16),
-        month: unpack_one!(packed, u8),
-        day: unpack_one!(packed, u8),
-    }
+    Date::from_longs(
+        unpack_one!(packed, u16).into(),
+        unpack_one!(packed, u8).into(),
+        unpack_one!(packed, u8).into(),
+    )
+    .ok_or_value_err("Invalid pickle data")?
     .to_obj(State::for_mod(module).date_type)
 }
 
diff --git a/src/date_delta.rs b/src/date_delta.rs
index db659a5..9f83534 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -595,13 +595,21 @@ unsafe fn __reduce__(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
         .to_py()
 }
 
+pub(crate) unsafe fn unpickle_parts(
+    months: *mut PyObject,
+    days: *mut PyObject,
+) -> PyResult<DateDelta> {
+    let months = months.to_long()?.ok_or_type_err("Invalid pickle data")?;
+    let days = days.to_long()?.ok_or_type_err("Invalid pickle data")?;
+    clamp(months, MAX_MONTHS)
+        .zip(clamp(days, MAX_DAYS))
+        .and_then(|(months, days)| DateDelta::new(months, days).ok())
+        .ok_or_value_err("Invalid pickle data")
+}
+
 pub(crate) unsafe fn unpickle(module: *mut PyObject, args: &[*mut PyObject]) -> PyReturn {
     if args.len() == 2 {
-        DateDelta {
-            months: args[0].to_long()?.ok_or_type_err("Invalid pickle data")? as _,
-            days: args[1].to_long()?.ok_or_type_err("Invalid pickle data")? as _,
-        }
-        .to_obj(State::for_mod(module).date_delta_type)
+        unpickle_parts(args[0], args[1])?.to_obj(State::for_mod(module).date_delta_type)
     } else {
         Err(type_err!("Invalid pickle data"))
     }
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 0d457f6..52ae11e 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -537,17 +537,20 @@ unsafe fn __reduce__(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
 
 pub(crate) unsafe fn unpickle(module: *mut PyObject, args: &[*mut PyObject]) -> PyReturn {
     match args {
-        &[months, days, secs, nanos] => DateTimeDelta {
-            ddelta: DateDelta {
-                months: months.to_long()?.ok_or_type_err("Invalid pickle data")? as _,
-                days: days.to_long()?.ok_or_type_err("Invalid pickle data")? as _,
-            },
-            tdelta: TimeDelta {
-                secs: secs.to_long()?.ok_or_type_err("Invalid pickle data")? as _,
-                nanos: nanos.to_long()?.ok_or_type_err("Invalid pickle data")? as _,
-            },
+        &[months, days, secs, nanos] => {
+            let ddelta = date_delta::unpickle_parts(months, days)?;
+            let secs = secs.to_i64()?.ok_or_type_err("Invalid pickle data")?;
+            let nanos = nanos.to_i64()?.ok_or_type_err("Invalid pickle data")?;
+            (0..1_000_000_000)
+                .contains(&nanos)
+                .then(|| {
+                    TimeDelta::from_nanos(i128::from(secs) * 1_000_000_000 + i128::from(nanos))
+                })
+                .flatten()
+                .and_then(|tdelta| DateTimeDelta::new(ddelta, tdelta))
+                .ok_or_value_err("Invalid pickle data")?
+                .to_obj(State::for_mod(module).datetime_delta_type)
         }
-        .to_obj(State::for_mod(module).datetime_delta_type),
         _ => Err(type_err!("Invalid pickle data"))?,
     }
 }
diff --git a/src/instant.rs b/src/instant.rs
index ed33da1..59ac108 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -513,11 +513,12 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if packed.len() != 12 {
         Err(value_err!("Invalid pickle data"))?;
     }
-    Instant {
-        secs: unpack_one!(packed, i64),
-        nanos: unpack_one!(packed, u32),
-    }
-    .to_obj(State::for_mod(module).instant_type)
+    let secs = unpack_one!(packed, i64);
+    let nanos = unpack_one!(packed, u32);
+    ((MIN_INSTANT..=MAX_INSTANT).contains(&secs) && nanos < 1_000_000_000)
+        .then_some(Instant { secs, nanos })
+        .ok_or_value_err("Invalid pickle data")?
+        .to_obj(State::for_mod(module).instant_type)
 }
 
 unsafe fn timestamp(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index 5522609..934de61 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -537,17 +537,19 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
         Err(type_err!("Invalid pickle data"))?
     }
     DateTime {
-        date: Date {
-            year: unpack_one!(packed, u16),
-            month: unpack_one!(packed, u8),
-            day: unpack_one!(packed, u8),
-        },
-        time: Time {
-            hour: unpack_one!(packed, u8),
-            minute: unpack_one!(packed, u8),
-            second: unpack_one!(packed, u8),
-            nanos: unpack_one!(packed, u32),
-        },
+        date: Date::from_longs(
+            unpack_one!(packed, u16).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+        )
+        .ok_or_value_err("Invalid pickle data")?,
+        time: Time::from_longs(
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u32).into(),
+        )
+        .ok_or_value_err("Invalid pickle data")?,
     }
     .to_obj(State::for_mod(module).local_datetime_type)
 }
diff --git a/src/monthday.rs b/src/monthday.rs
index 45ea1b9..a5492e3 100644
--- a/src/monthday.rs
+++ b/src/monthday.rs
@@ -251,10 +251,11 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if packed.len() != 2 {
         Err(value_err!("Invalid pickle data"))?
     }
-    MonthDay {
-        month: unpack_one!(packed, u8),
-        day: unpack_one!(packed, u8),
-    }
+    MonthDay::from_longs(
+        unpack_one!(packed, u8).into(),
+        unpack_one!(packed, u8).into(),
+    )
+    .ok_or_value_err("Invalid pickle data")?
     .to_obj(State::for_mod(module).monthday_type)
 }
 
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index e34f01e..b299724 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -459,21 +459,27 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if packed.len() != 15 {
         Err(value_err!("Invalid pickle data"))?;
     }
-    OffsetDateTime::new_unchecked(
-        Date {
-            year: unpack_one!(packed, u16),
-            month: unpack_one!(packed, u8),
-            day: unpack_one!(packed, u8),
-        },
-        Time {
-            hour: unpack_one!(packed, u8),
-            minute: unpack_one!(packed, u8),
-            second: unpack_one!(packed, u8),
-            nanos: unpack_one!(packed, u32),
-        },
+    let (date, time, offset_secs) = (
+        Date::from_longs(
+            unpack_one!(packed, u16).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+        )
+        .ok_or_value_err("Invalid pickle data")?,
+        Time::from_longs(
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u32).into(),
+        )
+        .ok_or_value_err("Invalid pickle data")?,
         unpack_one!(packed, i32),
-    )
-    .to_obj(State::for_mod(module).offset_datetime_type)
+    );
+    (offset_secs.unsigned_abs() < S_PER_DAY as u32)
+        .then(|| OffsetDateTime::new(date, time, offset_secs))
+        .flatten()
+        .ok_or_value_err("Invalid pickle data")?
+        .to_obj(State::for_mod(module).offset_datetime_type)
 }
 
 unsafe fn py_datetime(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 7cc477b..4a323ae 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -450,21 +450,27 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if packed.len() != 15 {
         Err(value_err!("Invalid pickle data"))?
     }
-    OffsetDateTime::new_unchecked(
-        Date {
-            year: unpack_one!(packed, u16),
-            month: unpack_one!(packed, u8),
-            day: unpack_one!(packed, u8),
-        },
-        Time {
-            hour: unpack_one!(packed, u8),
-            minute: unpack_one!(packed, u8),
-            second: unpack_one!(packed, u8),
-            nanos: unpack_one!(packed, u32),
-        },
+    let (date, time, offset_secs) = (
+        Date::from_longs(
+            unpack_one!(packed, u16).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+        )
+        .ok_or_value_err("Invalid pickle data")?,
+        Time::from_longs(
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u8).into(),
+            unpack_one!(packed, u32).into(),
+        )
+        .ok_or_value_err("Invalid pickle data")?,
         unpack_one!(packed, i32),
-    )
-    .to_obj(State::for_mod(module).system_datetime_type)
+    );
+    (offset_secs.unsigned_abs() < S_PER_DAY as u32)
+        .then(|| OffsetDateTime::new(date, time, offset_secs))
+        .flatten()
+        .ok_or_value_err("Invalid pickle data")?
+        .to_obj(State::for_mod(module).system_datetime_type)
 }
 
 unsafe fn py_datetime(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
diff --git a/src/time.rs b/src/time.rs
index c965722..38f6cf5 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -513,12 +513,13 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if data.len() != 7 {
         Err(type_err!("Invalid pickle data"))?
     }
-    Time {
-        hour: unpack_one!(data, u8),
-        minute: unpack_one!(data, u8),
-        second: unpack_one!(data, u8),
-        nanos: unpack_one!(data, u32),
-    }
+    Time::from_longs(
+        unpack_one!(data, u8).into(),
+        unpack_one!(data, u8).into(),
+        unpack_one!(data, u8).into(),
+        unpack_one!(data, u32).into(),
+    )
+    .ok_or_value_err("Invalid pickle data")?
     .to_obj(State::for_mod(module).time_type)
 }
 
diff --git a/src/time_delta.rs b/src/time_delta.rs
index fc194e6..6c3be1e 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -630,11 +630,13 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if data.len() != 12 {
         Err(value_err!("Invalid pickle data"))?;
     }
-    TimeDelta {
-        secs: unpack_one!(data, i64),
-        nanos: unpack_one!(data, u32),
-    }
-    .to_obj(State::for_mod(module).time_delta_type)
+    let secs = unpack_one!(data, i64);
+    let nanos = unpack_one!(data, u32);
+    (nanos < 1_000_000_000)
+        .then(|| TimeDelta::from_nanos(i128::from(secs) * 1_000_000_000 + i128::from(nanos)))
+        .flatten()
+        .ok_or_value_err("Invalid pickle data")?
+        .to_obj(State::for_mod(module).time_delta_type)
 }
 
 unsafe fn in_nanoseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
diff --git a/src/yearmonth.rs b/src/yearmonth.rs
index 327f53d..c32b80c 100644
--- a/src/yearmonth.rs
+++ b/src/yearmonth.rs
@@ -248,10 +248,11 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     if packed.len() != 3 {
         Err(value_err!("Invalid pickle data"))?
     }
-    YearMonth {
-        year: unpack_one!(packed, u16),
-        month: unpack_one!(packed, u8),
-    }
+    YearMonth::from_longs(
+        unpack_one!(packed, u16).into(),
+        unpack_one!(packed, u8).into(),
+    )
+    .ok_or_value_err("Invalid pickle data")?
     .to_obj(State::for_mod(module).yearmonth_type)
 }
 
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 5bca806..378e6ef 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -606,6 +606,21 @@ unsafe fn to_tz(slf: *mut PyObject, tz: *mut PyObject) -> PyReturn {
         .to_obj(cls)
 }
 
+unsafe fn offset_is_valid(
+    py_api: &PyDateTime_CAPI,
+    date: Date,
+    time: Time,
+    zoneinfo: *mut PyObject,
+    offset_secs: i32,
+) -> PyResult<bool> {
+    Ok(match OffsetResult::for_tz(py_api, date, time, zoneinfo)? {
+        OffsetResult::Unambiguous(o) => o == offset_secs,
+        OffsetResult::Fold(o1, o2) => o1 == offset_secs || o2 == offset_secs,
+        // Skipped times don't exist, thus no offset is valid
+        OffsetResult::Gap(_, _) => false,
+    })
+}
+
 pub(crate) unsafe fn unpickle(module: &mut PyObject, args: &[*mut PyObject]) -> PyReturn {
     let &[data, tz] = args else {
         Err(type_err!("Invalid pickle data"))?
@@ -613,6 +628,8 @@ pub(crate) unsafe fn unpickle(module: &mut PyObject, args: &[*mut PyObject]) ->
     let &State {
         zoneinfo_type,
         zoned_datetime_type,
+        py_api,
+        exc_invalid_offset,
         ..
     } = State::for_mod(module);
     let mut packed = data.to_bytes()?.ok_or_type_err("Invalid pickle data")?;
@@ -621,22 +638,31 @@ pub(crate) unsafe fn unpickle(module: &mut PyObject, args: &[*mut PyObject]) ->
     if packed.len() != 15 {
         Err(type_err!("Invalid pickle data"))?;
     }
-    ZonedDateTime {
-        date: Date {
-            year: unpack_one!(packed, u16),
-            month: unpack_one!(packed, u8),
-            day: unpack_one!(packed, u8),
-        },
-        time: Time {
-            hour: unpack_one!(packed, u8),
-            minute: unpack_one!(packed, u8),
-            second: unpack_one!(packed, u8),
-            nanos: unpack_one!(packed, u32),
-        },
-        offset_secs: unpack_one!(packed, i32),
-        zoneinfo,
+    let date = Date::from_longs(
+        unpack_one!(packed, u16).into(),
+        unpack_one!(packed, u8).into(),
+        unpack_one!(packed, u8).into(),
+    )
+    .ok_or_value_err("Invalid pickle data")?;
+    let time = Time::from_longs(
+        unpack_one!(packed, u8).into(),
+        unpack_one!(packed, u8).into(),
+        unpack_one!(packed, u8).into(),
+        unpack_one!(packed, u32).into(),
+    )
+    .ok_or_value_err("Invalid pickle data")?;
+    let offset_secs = unpack_one!(packed, i32);
+    if !offset_is_valid(py_api, date, time, zoneinfo, offset_secs)? {
+        // e.g. the timezone database has changed since
+        Err(py_err!(
+            exc_invalid_offset,
+            "Invalid offset for timezone {}",
+            zoneinfo_key(zoneinfo)
+        ))?
     }
-    .to_obj(zoned_datetime_type)
+    ZonedDateTime::new(date, time, offset_secs, zoneinfo)
+        .ok_or_value_err("Invalid pickle data")?
+        .to_obj(zoned_datetime_type)
 }
 
 unsafe fn py_datetime(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
@@ -1239,13 +1265,7 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
         steal!(std::str::from_utf8_unchecked(&s[1..s.len() - 1]).to_py()?),
     )?;
     defer_decref!(zoneinfo);
-    let offset_is_valid = match OffsetResult::for_tz(py_api, date, time, zoneinfo)? {
-        OffsetResult::Unambiguous(o) => o == offset_secs,
-        OffsetResult::Fold(o1, o2) => o1 == offset_secs || o2 == offset_secs,
-        // Skipped times don't exist, thus no offset is valid
-        OffsetResult::Gap(_, _) => false,
-    };
-    if offset_is_valid {
+    if offset_is_valid(py_api, date, time, zoneinfo, offset_secs)? {
         ZonedDateTime::new(date, time, offset_secs, zoneinfo)
             .ok_or_value_err("Datetime out of range")?
             .to_obj(cls.cast())
-- 
2.43.0


From 5725b40c5acf16bc68011bdce3e94db36b7901e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 76/89] fix: extension: patching the time drops a reference to
 None

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf5d07c..5e808d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -115,13 +115,13 @@ unsafe fn _patch_time(module: *mut PyObject, arg: *mut PyObject, freeze: bool) -
                 .ok_or_type_err("System time before 1970")?,
         }
     };
-    Py_None().as_result()
+    Ok(newref(Py_None()))
 }
 
 unsafe fn _unpatch_time(module: *mut PyObject, _: *mut PyObject) -> PyReturn {
     let state: &mut State = PyModule_GetState(module).cast::<State>().as_mut().unwrap();
     state.time_patch = TimePatch::Unset;
-    Py_None().as_result()
+    Ok(newref(Py_None()))
 }
 
 #[allow(non_upper_case_globals)]
-- 
2.43.0


From 9a1d23b00abe3b8af28583d014c56d00bece526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 77/89] fix: extension: an argument with a failing __eq__ gives
 a SystemError

---
 src/common.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 6f40e55..dca3861 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -550,7 +550,7 @@ impl PyObjectExt for *mut PyObject {
     // A faster comparison for keyword arguments that leverages
     // the fact that keyword arguments are almost always interned
     unsafe fn kwarg_eq(self, other: *mut PyObject) -> bool {
-        self == other || PyObject_RichCompareBool(self, other, Py_EQ) == 1
+        self == other || value_eq(self, other)
     }
 }
 
@@ -1032,7 +1032,14 @@ fn ptr_eq(a: *mut PyObject, b: *mut PyObject) -> bool {
 
 #[inline]
 fn value_eq(a: *mut PyObject, b: *mut PyObject) -> bool {
-    unsafe { PyObject_RichCompareBool(a, b, Py_EQ) == 1 }
+    match unsafe { PyObject_RichCompareBool(a, b, Py_EQ) } {
+        -1 => {
+            // Don't leave an exception set. The argument will be refused anyway
+            unsafe { PyErr_Clear() };
+            false
+        }
+        x => x == 1,
+    }
 }
 
 pub(crate) struct DictItems {
-- 
2.43.0


From 60d758ff125da16d137c75b4b4bc48216a882452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 78/89] fix: extension: the current time is refused if
 time_machine travels beyond 2262

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5e808d8..88f514c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -788,10 +788,12 @@ impl State {
         let ts = PyObject_CallNoArgs(self.time_ns).as_result()?;
         defer_decref!(ts);
         let ns = (ts as *mut PyObject)
-            .to_i64()?
+            .to_i128()?
             .ok_or_py_err(PyExc_RuntimeError, "time_ns() returned a non-integer")?;
         Ok((
-            ns.div_euclid(1_000_000_000),
+            i64::try_from(ns.div_euclid(1_000_000_000))
+                .ok()
+                .ok_or_value_err("System time out of range")?,
             ns.rem_euclid(1_000_000_000) as u32,
         ))
     }
-- 
2.43.0


From 94e6c1ef8a2fad6a12f1f7d4a3e037795dd78e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 79/89] fix: extension: LocalDateTime() with an invalid date
 raises a TypeError

---
 src/local_datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index 934de61..7e6e5c0 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -177,7 +177,7 @@ unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyOb
     }
 
     DateTime {
-        date: Date::from_longs(year, month, day).ok_or_type_err("Invalid date")?,
+        date: Date::from_longs(year, month, day).ok_or_value_err("Invalid date")?,
         time: Time::from_longs(hour, minute, second, nanos).ok_or_value_err("Invalid time")?,
     }
     .to_obj(cls)
-- 
2.43.0


From 9c968395b7be3bda478b1344322789923e7b2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 80/89] fix: extension: durations with a unit without digits
 are accepted

---
 src/time_delta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 6c3be1e..e3105d3 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -811,15 +811,15 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
                 // Anything above the maximum is too large, whatever the unit is
                 tally = min(tally * 10 + i128::from(c - b'0'), MAX_SECS as i128 + 1)
             }
-            b'H' => {
+            b'H' if i > 0 => {
                 *s = &s[i + 1..];
                 return Some((tally, Unit::Hours));
             }
-            b'M' => {
+            b'M' if i > 0 => {
                 *s = &s[i + 1..];
                 return Some((tally, Unit::Minutes));
             }
-            b'S' => {
+            b'S' if i > 0 => {
                 *s = &s[i + 1..];
                 return Some((tally * 1_000_000_000, Unit::Nanoseconds));
             }
-- 
2.43.0


From 06c65407570bc6803ecf4a062f4bedcd8e262e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 81/89] fix: extension: Weekday cannot be pickled

---
 src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88f514c..4ca7d6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -162,14 +162,26 @@ unsafe fn create_enum(name: &CStr, members: &[(&CStr, i32)]) -> PyReturn {
     }
     let enum_module = PyImport_ImportModule(c"enum".as_ptr()).as_result()?;
     defer_decref!(enum_module);
-    PyObject_CallMethod(
+    let enum_type = PyObject_CallMethod(
         enum_module,
         c"Enum".as_ptr(),
         c"sO".as_ptr(),
         name.as_ptr(),
         members_dict,
     )
-    .as_result()
+    .as_result()?;
+    // The module is needed for pickling. By default, it'd be the module of the
+    // Python code that happens to be importing us.
+    if PyObject_SetAttrString(
+        enum_type,
+        c"__module__".as_ptr(),
+        steal!("whenever".to_py()?),
+    ) == -1
+    {
+        Py_DECREF(enum_type);
+        return Err(py_err!());
+    }
+    Ok(enum_type)
 }
 
 unsafe fn new_exc(
-- 
2.43.0


From 3b9631a60f1ebeb88b9756d5aacfec4797acad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 82/89] fix: extension: the constants MONDAY to SUNDAY are
 missing

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4ca7d6b..f291808 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,6 +406,23 @@ unsafe extern "C" fn module_exec(module: *mut PyObject) -> c_int {
         PyObject_GetAttrString(weekday_enum, c"SUNDAY".as_ptr()),
     ];
 
+    for (&name, &member) in [
+        c"MONDAY",
+        c"TUESDAY",
+        c"WEDNESDAY",
+        c"THURSDAY",
+        c"FRIDAY",
+        c"SATURDAY",
+        c"SUNDAY",
+    ]
+    .iter()
+    .zip(state.weekday_enum_members.iter())
+    {
+        if PyObject_SetAttrString(module, name.as_ptr(), member) != 0 {
+            return -1;
+        }
+    }
+
     state.str_years = PyUnicode_InternFromString(c"years".as_ptr());
     state.str_months = PyUnicode_InternFromString(c"months".as_ptr());
     state.str_weeks = PyUnicode_InternFromString(c"weeks".as_ptr());
-- 
2.43.0


From c06d594b0e6293a2fce589873a71443c1e87e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 83/89] fix: adding a duration without calendar units to a
 SystemDateTime may change the moment after a timezone change

---
 pysrc/whenever/_pywhenever.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6145d74..ad43c5b 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5055,13 +5055,8 @@ class SystemDateTime(_KnowsInstantAndLocal):
             return self._from_py_unchecked(
                 (py_dt + _timedelta(seconds=delta_secs)).astimezone(), nanos
             )
-        elif isinstance(delta, DateDelta):
-            return self.replace_date(self.date() + delta)
-        elif isinstance(delta, DateTimeDelta):
-            return (
-                self.replace_date(self.date() + delta._date_part)
-                + delta._time_part
-            )
+        elif isinstance(delta, (DateDelta, DateTimeDelta)):
+            return self.add(delta)
         return NotImplemented
 
     @overload
-- 
2.43.0


From f5230ee1bde7881a8fd659182643316a4d1eb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 84/89] fix: extension: crash when a value is pickled at
 interpreter shutdown

---
 src/lib.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f291808..395c4f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -212,8 +212,10 @@ unsafe fn new_type<T: PyWrapped>(
         return false;
     }
 
+    // The state keeps this reference: the module's attribute may be gone
+    // before the last instance is, for example at interpreter shutdown.
     let unpickler = PyObject_GetAttrString(module, unpickle_name.as_ptr());
-    defer_decref!(unpickler);
+    (*unpickle_ptr) = unpickler;
     if PyObject_SetAttrString(unpickler, c"__module__".as_ptr(), module_nameobj) != 0 {
         return false;
     }
@@ -228,7 +230,6 @@ unsafe fn new_type<T: PyWrapped>(
         }
     }
     (*type_ptr) = cls;
-    (*unpickle_ptr) = unpickler;
     true
 }
 
@@ -587,6 +588,20 @@ unsafe extern "C" fn module_traverse(
     traverse(state.exc_invalid_offset, visit, arg);
     traverse(state.exc_implicitly_ignoring_dst, visit, arg);
 
+    // unpickling functions
+    traverse(state.unpickle_date, visit, arg);
+    traverse(state.unpickle_yearmonth, visit, arg);
+    traverse(state.unpickle_monthday, visit, arg);
+    traverse(state.unpickle_time, visit, arg);
+    traverse(state.unpickle_date_delta, visit, arg);
+    traverse(state.unpickle_time_delta, visit, arg);
+    traverse(state.unpickle_datetime_delta, visit, arg);
+    traverse(state.unpickle_local_datetime, visit, arg);
+    traverse(state.unpickle_instant, visit, arg);
+    traverse(state.unpickle_offset_datetime, visit, arg);
+    traverse(state.unpickle_zoned_datetime, visit, arg);
+    traverse(state.unpickle_system_datetime, visit, arg);
+
     // Imported modules
     traverse(state.zoneinfo_type, visit, arg);
     traverse(state.timezone_type, visit, arg);
@@ -664,6 +679,20 @@ unsafe extern "C" fn module_clear(module: *mut PyObject) -> c_int {
     Py_CLEAR(ptr::addr_of_mut!(state.exc_invalid_offset));
     Py_CLEAR(ptr::addr_of_mut!(state.exc_implicitly_ignoring_dst));
 
+    // unpickling functions
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_date));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_yearmonth));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_monthday));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_time));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_date_delta));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_time_delta));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_datetime_delta));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_local_datetime));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_instant));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_offset_datetime));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_zoned_datetime));
+    Py_CLEAR(ptr::addr_of_mut!(state.unpickle_system_datetime));
+
     // imported stuff
     Py_CLEAR(ptr::addr_of_mut!(state.zoneinfo_type));
     Py_CLEAR(ptr::addr_of_mut!(state.timezone_type));
-- 
2.43.0


From 040172b609d6518999e28dd747cb992985987eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 85/89] fix: extension: invalid memory read if utcoffset()
 returns something else than a timedelta

---
 src/common.rs  | 31 +++++++++++++++++++++++++------
 src/instant.rs | 12 +++++-------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index dca3861..b89bd02 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -709,16 +709,35 @@ pub(crate) unsafe fn is_none(x: *mut PyObject) -> bool {
 }
 
 // NOTE: assumes it's an "aware" datetime object
+/// The whole seconds and remaining microseconds of what utcoffset() returned.
+/// User-defined code may return anything.
+pub(crate) unsafe fn utcoffset_parts(delta: *mut PyObject) -> PyResult<(i32, i32)> {
+    if is_none(delta) {
+        // This case is rare, but possible even with aware datetimes
+        Err(value_err!("utcoffset() returned None"))?
+    } else if PyDelta_Check(delta) == 0 {
+        Err(type_err!("utcoffset() must return a timedelta or None"))?
+    }
+    let days = PyDateTime_DELTA_GET_DAYS(delta);
+    let micros = PyDateTime_DELTA_GET_MICROSECONDS(delta);
+    if !(-1..=0).contains(&days) {
+        Err(value_err!("utcoffset() must be less than 24 hours"))?
+    }
+    let secs = days * 86_400 + PyDateTime_DELTA_GET_SECONDS(delta);
+    if secs == -86_400 && micros == 0 {
+        Err(value_err!("utcoffset() must be less than 24 hours"))?
+    }
+    Ok((secs, micros))
+}
+
 pub(crate) unsafe fn offset_from_py_dt(dt: *mut PyObject) -> PyResult<i32> {
     let delta = methcall0(dt, "utcoffset")?;
     defer_decref!(delta);
-    if is_none(delta) {
-        // This case is rare, but possible even with aware datetimes
-        Err(value_err!("utcoffset() returned None"))
-    } else if PyDateTime_DELTA_GET_MICROSECONDS(delta) != 0 {
-        Err(value_err!("Sub-second offsets are not supported",))
+    let (secs, micros) = utcoffset_parts(delta)?;
+    if micros != 0 {
+        Err(value_err!("Sub-second offsets are not supported"))
     } else {
-        Ok(PyDateTime_DELTA_GET_DAYS(delta) * 86_400 + PyDateTime_DELTA_GET_SECONDS(delta))
+        Ok(secs)
     }
 }
 
diff --git a/src/instant.rs b/src/instant.rs
index 59ac108..ec95d93 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -269,14 +269,12 @@ impl Instant {
         } else {
             let delta = methcall1(tzinfo, "utcoffset", dt)?;
             defer_decref!(delta);
-            if is_none(delta) {
-                Err(value_err!("datetime utcoffset() is None"))?;
-            }
-            let secs = i64::from(PyDateTime_DELTA_GET_DAYS(delta)) * 86400
-                + i64::from(PyDateTime_DELTA_GET_SECONDS(delta));
-            let nanos = PyDateTime_DELTA_GET_MICROSECONDS(delta) as u32 * 1_000;
+            let (secs, micros) = utcoffset_parts(delta)?;
             // No bounds check on TimeDelta needed, as it's < 24 hours in size
-            inst.shift(-TimeDelta { secs, nanos })
+            inst.shift(-TimeDelta {
+                secs: secs.into(),
+                nanos: micros as u32 * 1_000,
+            })
         })
     }
 
-- 
2.43.0


From 5383c7af0a9c7b70b870e301109e48b802db11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 86/89] fix: extension: out of bounds read in operations with a
 ZonedDateTime or SystemDateTime on the right

---
 src/system_datetime.rs | 4 +++-
 src/zoned_datetime.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 4a323ae..ebf9be8 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -317,7 +317,6 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
         ..
     } = State::for_type(type_a);
 
-    let odt = OffsetDateTime::extract(obj_a);
     let mut months = 0;
     let mut days = 0;
     let mut tdelta = TimeDelta::ZERO;
@@ -336,6 +335,9 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     } else {
         return Ok(newref(Py_NotImplemented()));
     };
+    // Only now can we be sure about the type of the first operand,
+    // since this may be a reflexive operation.
+    let odt = OffsetDateTime::extract(obj_a);
     if negate {
         months = -months;
         days = -days;
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 378e6ef..b13cde9 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -459,7 +459,6 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
         ..
     } = State::for_type(type_a);
 
-    let zdt = ZonedDateTime::extract(obj_a);
     let mut months = 0;
     let mut days = 0;
     let mut tdelta = TimeDelta::ZERO;
@@ -478,6 +477,9 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     } else {
         return Ok(newref(Py_NotImplemented()));
     };
+    // Only now can we be sure about the type of the first operand,
+    // since this may be a reflexive operation.
+    let zdt = ZonedDateTime::extract(obj_a);
     if negate {
         months = -months;
         days = -days;
-- 
2.43.0


From 0967835e8d2370113719593bebe8503797a3f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 87/89] fix: extension: crash when a value is converted to the
 standard library at interpreter shutdown

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 395c4f4..ab27733 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -361,6 +361,9 @@ unsafe extern "C" fn module_exec(module: *mut PyObject) -> c_int {
 
     let datetime_module = PyImport_ImportModule(c"datetime".as_ptr());
     defer_decref!(datetime_module);
+    // The API above lives as long as this capsule, which the datetime module
+    // may lose before the last value is gone (e.g. at interpreter shutdown)
+    state.py_api_capsule = PyObject_GetAttrString(datetime_module, c"datetime_CAPI".as_ptr());
     state.strptime = PyObject_GetAttrString(
         steal!(PyObject_GetAttrString(
             datetime_module,
@@ -609,6 +612,7 @@ unsafe extern "C" fn module_traverse(
     traverse(state.format_rfc2822, visit, arg);
     traverse(state.parse_rfc2822, visit, arg);
     traverse(state.time_ns, visit, arg);
+    traverse(state.py_api_capsule, visit, arg);
 
     0
 }
@@ -700,6 +704,7 @@ unsafe extern "C" fn module_clear(module: *mut PyObject) -> c_int {
     Py_CLEAR(ptr::addr_of_mut!(state.format_rfc2822));
     Py_CLEAR(ptr::addr_of_mut!(state.parse_rfc2822));
     Py_CLEAR(ptr::addr_of_mut!(state.time_ns));
+    Py_CLEAR(ptr::addr_of_mut!(state.py_api_capsule));
     0
 }
 
@@ -743,6 +748,7 @@ struct State {
     unpickle_system_datetime: *mut PyObject,
 
     py_api: &'static PyDateTime_CAPI,
+    py_api_capsule: *mut PyObject, // keeps `py_api` alive
 
     // imported stuff
     zoneinfo_type: *mut PyObject,
-- 
2.43.0


From fac9faa201c4ae082ebbcb328a38611ea1fdfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 88/89] fix: extension: formatting a ZonedDateTime leaves an
 exception pending if its timezone key cannot be encoded

---
 src/zoned_datetime.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index b13cde9..f21d53e 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -289,10 +289,18 @@ impl Display for ZonedDateTime {
 
 unsafe fn zoneinfo_key(zoneinfo: *mut PyObject) -> String {
     let key_obj = PyObject_GetAttrString(zoneinfo, c"key".as_ptr());
+    if key_obj.is_null() {
+        PyErr_Clear();
+        return "???".to_string();
+    }
     defer_decref!(key_obj);
     match key_obj.to_str() {
         Ok(Some(s)) => s,
-        _ => "???",
+        _ => {
+            // e.g. it can't be encoded
+            PyErr_Clear();
+            "???"
+        }
     }
     .to_string()
 }
-- 
2.43.0


From 45fe2fd16ccf4eaa41ff85cc99ed61c034153901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:31 +0000
Subject: [PATCH 89/89] fix: zero float date units were accepted by
 ZonedDateTime and SystemDateTime

---
 pysrc/whenever/_pywhenever.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ad43c5b..0af7a5d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4676,8 +4676,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         nanoseconds: int = 0,
         disambiguate: Disambiguate | None,
     ) -> ZonedDateTime:
-        months_total = sign * (years * 12 + months)
-        days_total = sign * (weeks * 7 + days)
+        months_total = sign * _index(years * 12 + months)
+        days_total = sign * _index(weeks * 7 + days)
         if months_total or days_total:
             self = self.replace_date(
                 self.date()._add_months(months_total)._add_days(days_total),
@@ -5155,8 +5155,8 @@ class SystemDateTime(_KnowsInstantAndLocal):
         nanoseconds: int = 0,
         disambiguate: Disambiguate | None,
     ) -> SystemDateTime:
-        months_total = sign * (years * 12 + months)
-        days_total = sign * (weeks * 7 + days)
+        months_total = sign * _index(years * 12 + months)
+        days_total = sign * _index(weeks * 7 + days)
         if months_total or days_total:
             self = self.replace_date(
                 self.date()._add_months(months_total)._add_days(days_total),
-- 
2.43.0

