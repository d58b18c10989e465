"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
F = "pysrc/whenever/_pywhenever.py"
I = "pysrc/whenever/__init__.py"
P = []
def prop(id, title, statement, over, qtext, why, mech, files=(F,), state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe) or ["public API call boundary"],
            "hook_needed": None,
        },
    })

prop("C01", "Exact-unit arithmetic moves along the timeline by exactly that amount",
 "For every Instant, ZonedDateTime and SystemDateTime and every duration in exact units (hours down to nanoseconds), adding or subtracting it gives the moment exactly that many nanoseconds later or earlier, whatever DST or offset changes lie in between, expressed in the same timezone. The difference between any two exact-time values, of the same or of different types, is exactly the number of nanoseconds between the two moments, so a + (b - a) == b and (a + d) - d == a. A result outside the years 1-9999 raises ValueError or OverflowError; it is never wrapped or clipped.",
 ["inputs", "programs"], "all exact-time values, all TimeDeltas (both signs, up to the documented maximum), all timezones, all ways to spell the operation (operator, add/subtract with units or a delta, difference)",
 "The tests pin a few dozen sums near two or three DST transitions; nanosecond carries, borrows below 1970 and the far ends of the range over ~600 zones are sampled a handful of times at most.",
 [("timeline shift with nanosecond carry", F+" Instant.__add__ / ZonedDateTime.__add__ / SystemDateTime.__add__"), ("difference", F+" _KnowsInstant.__sub__")])

prop("C02", "Unix timestamps are exact, floor correctly, and round-trip",
 "For every exact-time value, timestamp(), timestamp_millis() and timestamp_nanos() equal the time since the Unix epoch rounded down to the unit (also before 1970), and from_timestamp, from_timestamp_millis and from_timestamp_nanos of every class return exactly the moment denoted, in the requested offset or timezone. Nanosecond timestamps therefore round-trip exactly, and float timestamps are correct to within the float's own precision and never crash on a representable moment. Timestamps outside the supported range raise an error (ValueError, OverflowError or the platform's OSError) and never give a wrong moment.",
 ["inputs"], "all integer and float timestamps, negative and positive, all four exact-time classes",
 "Tests use a few round timestamps; negative sub-second values, values next to the range limits and floats just below an integer are not sampled.",
 [("timestamp conversions", F+" _KnowsInstant.timestamp*, *.from_timestamp*")])

prop("C03", "Comparison, equality and hashing of exact times follow the moment denoted",
 "All exact-time values (Instant, OffsetDateTime, ZonedDateTime, SystemDateTime) compare with each other purely by the moment they denote: ==, <, <=, >, >= agree with the order of the nanosecond timestamps (a strict total order on moments), and equal values have equal hashes whatever their type or timezone. exact_eq additionally requires the same local time, offset and (for ZonedDateTime) the same timezone, and rejects a different type. Dates, times, local datetimes and deltas are likewise ordered and hashed by their value, and values of unrelated kinds are never equal and never ordered.",
 ["inputs"], "all pairs and triples of values of all types, including ambiguous times, sub-second differences and equal moments in different zones",
 "Order laws are over pairs and triples of all values and types; tests compare a few hand-picked pairs (an ordering that ignores sub-second digits of Time passes the whole suite).",
 [("comparison operators", F+" __eq__/__lt__/__le__/__gt__/__ge__/__hash__ of every class"), ("exact_eq", F+" _KnowsInstant.exact_eq")])

prop("C04", "Conversions keep the moment and use the timezone database's offset",
 "Converting any exact-time value with to_tz, to_fixed_offset, to_system_tz or instant() keeps the moment exactly, to the nanosecond, and expresses it with the offset the IANA timezone database (or the requested fixed offset) prescribes for that moment. Therefore local time equals moment plus offset on every result, chains of conversions commute and are reversible, and local()/date()/time() read out exactly those local fields. A conversion whose local time would fall outside years 1-9999 raises instead of giving a wrong value.",
 ["inputs", "programs"], "all moments x all timezones in the database x all fixed offsets, all chains of conversions",
 "The suite converts among three or four zones at a few moments; the guarantee is over every moment (including both sides of every transition, historic LMT offsets with seconds, and far-future rules) of every zone.",
 [("conversions", F+" _KnowsInstant.to_tz/to_fixed_offset/to_system_tz, _KnowsInstantAndLocal.instant/local")])

prop("C05", "Disambiguation resolves repeated and skipped local times as documented",
 "Whenever a local time is resolved in a timezone with an explicit disambiguate setting (ZonedDateTime and SystemDateTime constructors, assume_tz, assume_system_tz, replace, replace_date, replace_time, and calendar arithmetic), an unambiguous time gets its only offset under every setting. A repeated time gives the earlier occurrence for 'compatible' and 'earlier', the later for 'later', and RepeatedTime for 'raise'; a skipped time is shifted by the length of the gap, forward for 'compatible' and 'later', backward for 'earlier', and gives SkippedTime for 'raise'. Any other setting raises ValueError.",
 ["inputs", "configurations"], "all local times (in particular every instant around every transition of every zone), all settings, all entry points, any system timezone",
 "Tests exercise one gap and one fold of Europe/Amsterdam and Paris; unusual gaps (30 min, 24 h, second-resolution, negative DST, year boundaries) and every entry point are not covered.",
 [("ambiguity resolution", F+" _resolve_ambiguity, _resolve_system_ambiguity")])

prop("C06", "No sequence of calls yields a non-existent or out-of-range value",
 "Every value obtained through any sequence of public calls is well formed: all fields are within their calendar ranges, nanoseconds are 0-999999999, both the local time and the UTC moment lie within years 1-9999, and offsets are whole seconds strictly within 24 hours. In addition every ZonedDateTime's local time really exists in its timezone with exactly the offset it reports, whether it came from a constructor, arithmetic, rounding, replacing, parsing, unpickling or conversion. A call that cannot satisfy this raises an exception instead.",
 ["programs", "inputs"], "all finite sequences of public operations on all types, starting from any constructible values",
 "A closed-world invariant over operation sequences; unit tests check single calls at a handful of boundaries.",
 [("range and existence checks", F+" _check_utc_bounds, _adjust_fold_to_offset, _resolve_ambiguity*, constructors")])

prop("C07", "Zoned calendar arithmetic keeps the wall clock, then applies exact units",
 "Adding or subtracting years, months, weeks and days to a ZonedDateTime changes the local date by calendar rules (months first with clipping to the month's last day, then days) and keeps the local time of day, while any exact units are applied afterwards along the timeline. Where the resulting local time is repeated or skipped, the previous UTC offset is kept if one of the two possible results (earlier or later) has it, and the 'compatible' choice is made if not, unless an explicit disambiguate setting says otherwise. The operator, unit-keyword and delta-argument spellings agree, and replace, replace_date and replace_time without disambiguate follow the same rule.",
 ["inputs", "programs"], "all ZonedDateTimes, all combinations of units and signs, all deltas, all timezones",
 "The tests add a few deltas around one fold; combinations of sign, clipping, weeks/days, sub-day units and rare transitions multiply beyond samples.",
 [("shift", F+" ZonedDateTime._shift/_shift_kwargs/__add__/__sub__"), ("offset keeping", F+" _resolve_ambiguity_using_prev_offset")])

prop("C08", "SystemDateTime follows the current system timezone, and existing values stay put",
 "Every SystemDateTime operation that consults a timezone (constructor, now, from_timestamp*, to_system_tz, assume_system_tz, arithmetic, replace, rounding, day_length, start_of_day, is_ambiguous) uses the system timezone in force at the time of the call and gives the same local time, offset and moment as the corresponding operation in that timezone. After the system timezone changes, values created earlier keep their local time, offset, moment, equality and hash. Exact arithmetic keeps the exact moment before and after such changes.",
 ["histories", "configurations", "inputs"], "all histories interleaving timezone changes (IANA names and POSIX TZ strings) with operations on old and new values",
 "Tests set one timezone per test; histories in which values cross timezone changes, and most zones, are not exercised.",
 [("system timezone resolution", F+" SystemDateTime, _resolve_system_ambiguity*")])

prop("C09", "DST-unsafe operations are refused unless explicitly allowed",
 "Every operation that would implicitly ignore DST raises ImplicitlyIgnoringDST unless ignore_dst=True is passed: shifting, replacing or rounding an OffsetDateTime, creating one from the current time or a timestamp, and adding exact units to, or taking the difference of, LocalDateTimes; the corresponding operators always refuse. With ignore_dst=True the operation goes ahead with its documented result, and no other value is accepted as consent. Exact and local types never mix silently: comparing for order, subtracting or differencing across them raises TypeError, and equality is False.",
 ["inputs", "programs"], "all guarded operations x all argument shapes (units, deltas, zero and non-zero, positional and keyword) x all values of ignore_dst",
 "Tests check each guard with one argument shape; the guard must hold for every combination, e.g. zero-valued units, mixed date and time units, or truthy non-True flags.",
 [("ignore_dst guards", F+" OffsetDateTime and LocalDateTime methods raising ImplicitlyIgnoringDST")])

prop("C10", "Date arithmetic follows the proleptic Gregorian calendar",
 "For every Date, adding or subtracting years and months moves the month count exactly and clips the day to the last day of the resulting month, and weeks and days, applied after that, move by exactly that many days; operator, keyword and delta spellings agree. days_since and days_until give the exact signed day count, day_of_week the correct weekday, and adding n days then subtracting n days restores the date. Any result outside years 1-9999, and any argument however large that leads there, raises ValueError or OverflowError.",
 ["inputs"], "all dates (including leap days, century years and both ends of the range) and all unit amounts of either sign",
 "A few dozen dates are tested; the calendar has 3.6 million dates and arbitrary deltas.",
 [("date shifting", F+" Date._shift_kwargs, Date._add_months, Date._add_days")])

prop("C11", "The difference of two dates is a delta that leads back exactly",
 "For all dates a and b, a - b is a DateDelta such that b + (a - b) == a, with months and days never of opposite sign and both pointing from b towards a. The months part is the largest whole number of months (towards a) that does not overshoot a, so the days part is always shorter than a month. days_until and days_since agree with the same pair of dates.",
 ["inputs"], "all pairs of dates",
 "Pairs of dates with month-end clipping in either direction are a quadratic space; the suite fixes a table of a few dozen.",
 [("date difference", F+" Date.__sub__")])

prop("C12", "Local and fixed-offset arithmetic is plain calendar-and-clock arithmetic",
 "For every LocalDateTime and OffsetDateTime, shifting by calendar units changes the date as for Date and keeps the time of day, then exact units shift the local clock exactly (carrying over days), keeping the offset for OffsetDateTime; operator, keyword and delta spellings agree. The difference of two LocalDateTimes is the exact number of nanoseconds between their clock readings, and adding it back (with consent to ignore DST) restores the value. Results outside years 1-9999 (locally or, for OffsetDateTime, in UTC) raise ValueError or OverflowError.",
 ["inputs"], "all local/offset datetimes, all unit combinations, signs and deltas",
 "Tests sample a few shifts; order of application, nanosecond carry and range ends are not sampled in combination.",
 [("shift", F+" LocalDateTime._shift_kwargs, OffsetDateTime._shift_kwargs, LocalDateTime.difference")])

prop("C13", "TimeDelta is exact integer-nanosecond arithmetic",
 "A TimeDelta built from whole units is exactly the sum of those units, and +, -, unary -, abs, multiplication by an integer, //, %, comparison, bool, in_nanoseconds and in_hrs_mins_secs_nanos are exact over the whole range (floor semantics for // and %), with in_hours and the other in_* floats correct to float precision. Fractional unit arguments, float factors and division are accurate to float precision, and TimeDelta / TimeDelta is the float ratio. Anything beyond +-9999 years (of 366 days) raises an exception instead of giving a wrong delta.",
 ["inputs"], "all TimeDeltas and all scalar operands of either sign",
 "Exactness over a range of ~6e20 nanoseconds; tests use small and round deltas where float shortcuts are still exact.",
 [("TimeDelta", F+" TimeDelta")])

prop("C14", "Calendar deltas: exact components, one sign, exact algebra",
 "DateDelta and DateTimeDelta keep exact months, days (and nanoseconds): construction, +, -, negation, abs, multiplication by an integer, equality, hash, bool and the in_* accessors act on the components exactly, with years = 12 months and weeks = 7 days, and date_part and time_part recover the parts. No operation yields components of opposite sign or outside +-9999 years; it raises ValueError (or OverflowError) instead, for every order and type of operands (DateDelta with TimeDelta in either order included). Accessors split values truncating towards zero so that the parts carry the delta's sign and sum back to it exactly.",
 ["inputs", "programs"], "all deltas, operand orders, signs and integer factors",
 "The tests check a few sums; mixed signs arising from sums of deltas of different types and large sub-second values are not covered.",
 [("delta algebra", F+" DateDelta, DateTimeDelta")])

prop("C15", "Common ISO text round-trips every value exactly",
 "For every value of every type, parse_common_iso(format_common_iso()) (with system timezone unchanged for SystemDateTime) gives back the identical value: same fields to the nanosecond, same offset, same timezone. The text has the documented canonical form (fixed-width fields, fraction without trailing zeros and absent when zero, offset with seconds only when needed, zone name in brackets), equals str(), and distinct values have distinct text. Ambiguous local times are distinguished by their offset and survive the round trip.",
 ["inputs"], "all values of all types, including sub-second digits, historic offsets with seconds, ambiguous times and years below 1000",
 "Round trip is for all values; tests format and parse a fixed list.",
 [("formatting/parsing", F+" *.format_common_iso / *.parse_common_iso")])

prop("C16", "Parsers accept exactly the documented formats and never misread",
 "parse_common_iso of every type (and parse_rfc3339) either raises ValueError (including InvalidOffset; for a name that is no timezone, whatever zoneinfo raises) or returns exactly the value the text denotes under the documented grammar; text outside the grammar (wrong separators, widths, digits beyond ASCII, trailing characters, extra fractional digits, out-of-range fields, other ISO variants) is always refused. A zoned text is accepted only when its offset is right for that local time in that timezone. No str input makes them fail in another way or return a different value.",
 ["inputs"], "all strings, in particular strings within a few edits of a valid one",
 "The input space is all strings; tests list a few invalid examples per class.",
 [("regular expressions and field checks", F+" _match_*, *.parse_common_iso, *.parse_rfc3339")])

prop("C17", "ISO 8601 durations: canonical text, exact parse, exact round trip",
 "For every TimeDelta, DateDelta and DateTimeDelta, format_common_iso gives a valid ISO 8601 duration that parse_common_iso turns back into an equal delta, exact to the nanosecond. Parsing any valid duration (designators in order, optional sign, fraction of up to nine digits on seconds only) gives exactly the denoted amount, and any other string raises ValueError. The sign prefix applies to the whole duration.",
 ["inputs"], "all deltas and all strings",
 "Fractions such as 1.001 s and large component counts are not sampled; binary floating point gets most decimals slightly wrong.",
 [("duration text", F+" TimeDelta/DateDelta/DateTimeDelta format_common_iso, parse_common_iso")])

prop("C18", "RFC 3339, RFC 2822 and strptime conversions denote the right moment",
 "For every Instant and OffsetDateTime, format_rfc3339 denotes that moment exactly and parse_rfc3339 of it restores the value; format_rfc2822 gives the right weekday, date, time and offset, dropping only sub-seconds, and parse_rfc2822 restores that value (years from 1000 on; offsets of whole minutes, as these formats require). parse_rfc3339 accepts the documented variants (T, t, space or underscore; Z, z or numeric offset; up to nine fractional digits) with exactly the denoted meaning. strptime of LocalDateTime and OffsetDateTime agrees with the fields, fraction and offset denoted by text and format, and requires, respectively refuses, an offset.",
 ["inputs"], "all moments, offsets, and textual variants",
 "Tests list a few dozen strings; month/weekday names, negative offsets and fractions combine freely.",
 [("rfc formats", F+" format_rfc3339, parse_rfc3339, format_rfc2822, parse_rfc2822, strptime")])

prop("C19", "Rounding returns the correct multiple for every unit, increment and mode",
 "round(unit, increment, mode) on Time, Instant, LocalDateTime, OffsetDateTime, ZonedDateTime, SystemDateTime and TimeDelta returns the adjacent multiple of the increment that the mode selects: floor the one below (or equal), ceil the one above (or equal), the half modes the nearest, with exact ties going down, up, or to the even multiple. Multiples are counted from midnight of the local day for clock values (rolling into the next day, or to 00:00 for Time) and from zero for TimeDelta, values already on a multiple are unchanged, and the default is half_even to the second. Exactly the documented increments (divisors of 24, 60 or 1000; any hour count for TimeDelta) and modes are accepted; others raise ValueError.",
 ["inputs"], "all values x all legal (unit, increment, mode) and all illegal ones",
 "Seven types x seven units x dozens of increments x five modes; ties and odd increments at nanosecond scale are not in the tables.",
 [("rounding", F+" Time._round_unchecked, TimeDelta.round, increment_to_ns, *.round")])

prop("C20", "Day boundaries of zoned and system datetimes respect transitions",
 "For every ZonedDateTime (and SystemDateTime), start_of_day is the local midnight of its own date resolved as 'compatible' (shifted forward by the gap when midnight is skipped, the first occurrence when repeated), and day_length is the exact time between the starts of this day and the next. round('day') compares the clock time with half the day's length and gives the start of the same or of the next day, never any other. is_ambiguous is True exactly when the local time occurs twice in that timezone.",
 ["inputs", "configurations"], "all days in all timezones, in particular days with transitions, and transitions at midnight",
 "Tests use a 23, a 25 and a 24-hour day of one zone; late hours of short days, zones that skip midnight or a whole day are combinations they miss.",
 [("day boundaries", F+" ZonedDateTime.day_length/start_of_day/round/is_ambiguous and SystemDateTime's")])

prop("C21", "Pickling and copying preserve every value exactly, also across processes",
 "For every value of every type, unpickling its pickle (any protocol, in the same or another process) gives an identical value: same type, fields, nanoseconds, offset, timezone, hash and equality, including ambiguous times and range ends; copy and deepcopy do as well. Pickles written in the byte layout of the released versions keep loading to the same values. Containers of values survive as well.",
 ["inputs", "histories"], "all values of all types x all pickle protocols x processes",
 "One value per class is pickled in the tests; packed integer widths and signs fail only at extreme values.",
 [("reduce/unpickle", F+" __reduce__ and _unpkl_* functions")])

prop("C22", "Conversion to and from the standard library loses nothing but sub-microseconds",
 "py_datetime, py_date, py_time and py_timedelta return the standard object denoting the same value rounded down to the microsecond (same local fields, same offset, ZoneInfo of the same key, correct occurrence for ambiguous times), and from_py_* of any valid standard object, including subclasses and fold=1, gives exactly the same date, time, offset and moment. Thus from_py_x(x.py_x()) equals x up to sub-microsecond digits, and py_x(from_py_x(y)) equals y. A datetime of the wrong awareness raises ValueError, and an object of the wrong type is refused with an exception.",
 ["inputs"], "all values and all standard-library date/time objects, including subclasses, fold, sub-minute offsets and foreign tzinfo",
 "Tests convert a few values per class; fold, pre-epoch microseconds and exotic tzinfo multiply.",
 [("conversions", F+" py_* and from_py_*")])

prop("C23", "Replacing and combining components changes exactly those components",
 "replace, replace_date and replace_time return a value equal to the original in every component except the named ones (for zoned and system values: then resolved in the timezone), and raise for values out of range or unknown fields. Splitting and recombining is lossless: date() and time(), Date.at and Time.on, year_month, month_day, on_day, in_year, local() and assume_* recover the same fields to the nanosecond. The original value is never affected.",
 ["inputs"], "all values, all subsets of components and replacement values",
 "All subsets of eight fields with boundary values; tests replace one field at a time.",
 [("replace", F+" replace/replace_date/replace_time of all classes, _pop_nanos_kwarg")])

prop("C24", "Values are immutable and hash-stable under every operation",
 "No public operation, successful or failing, changes any observable property of its receiver or of any argument: fields, offset, timezone, text, equality and hash of a value are the same before and after any sequence of calls on it or on values derived from it. Values used as dictionary keys or set members can therefore always be found again. Attributes cannot be assigned or deleted through the public properties, and classes cannot be subclassed.",
 ["programs", "histories"], "all values and all sequences of operations, including ones that raise",
 "Aliasing effects appear only across sequences of calls on shared objects; tests build fresh objects per assertion.",
 [("immutability", F+" _ImmutableBase, properties; sharing of parts between values")])

prop("C25", "patch_current_time pins exactly whenever's clock, and only for its scope",
 "Inside patch_current_time every whenever 'now' (Instant.now, ZonedDateTime.now, OffsetDateTime.now, SystemDateTime.now, Date.today_in_system_tz) reports the pinned moment exactly, plus the sum of all shift() calls, plus elapsed real time when keep_ticking=True; the standard library's clock is unaffected. When the scope ends, normally or by an exception, real time is back, for use as a context manager or decorator and however often it is repeated one after the other. Without a patch, now() of every class agrees with the real clock to the nanosecond reading.",
 ["histories", "fault_sequences"], "all sequences of patches (sequential, repeated, failing bodies), shifts by any units, all pin types",
 "Tests do one patch and one or two shifts; sequences, exceptions, and every class's now under ticking are not explored.",
 [("time patching", F+" _patch_time_frozen/_patch_time_keep_ticking/_unpatch_time"), ("context manager", I+" patch_current_time, _TimePatch")], files=(F, I))

prop("C26", "Values can be shared freely between threads",
 "Any number of threads may run any operations concurrently on the same values, first uses and cold caches included: every call returns exactly what it would return alone, and never raises for reasons of concurrency. No thread observes a partially built or changing value. Construction, arithmetic, conversion, parsing, formatting, comparing, hashing and pickling are all included; changing the system timezone or patching the clock is not.",
 ["schedules"], "all interleavings of operations of several threads on shared values",
 "The test suite is single-threaded.",
 [("immutable values, no shared mutable state", F)])

prop("C27", "Constructors and operators accept exactly the valid domain and reject the rest",
 "Constructors and from_utc accept every combination of fields that denotes a real date, time, offset or delta and reproduce it exactly through the accessors, and raise ValueError (or OverflowError) for any out-of-range field, sub-second or 24-hour offset, or mixed-sign delta. Arguments of the wrong kind are refused with an exception, operators with operands of the wrong kind raise TypeError (equality is False), and no wrong-kind operand is silently coerced into a result. Unknown keyword arguments raise TypeError.",
 ["inputs"], "all combinations of field values inside and just outside their domains, and all pairs of operand types for every operator",
 "The full type x operator matrix and field-boundary products are not enumerated by the tests.",
 [("validation", F+" constructors, operator type checks, _load_offset")])

prop("C28", "YearMonth and MonthDay behave as the calendar says",
 "A YearMonth (year 1-9999, month 1-12) and a MonthDay (any day valid in a leap year) hold exactly their components, order and hash by them, and round-trip through text and replace. on_day and in_year give exactly the denoted Date, or raise ValueError when it does not exist (such as 29 February in a common year); is_leap is True only for 29 February. Date.year_month() and Date.month_day() are their inverses for every date, and MIN and MAX bound all values.",
 ["inputs"], "all year-months, month-days and years",
 "Small finite domains that tests only spot-check (e.g. 29 February against every year).",
 [("YearMonth/MonthDay", F+" YearMonth, MonthDay")])

prop("C29", "Results depend only on the arguments, never on earlier calls",
 "Except for the operations that read the clock or the system timezone, every operation is a pure function: the same call on equal arguments gives the same result (same type, fields, text and hash, or same exception type) at any time, in any order relative to other calls, after errors, repeated, under any system timezone and current time, and in any process. In particular arguments that are equal but not identical in kind (the same moment in different timezones, ambiguous pairs, True and 1, 1 and 1.0) never influence each other's results. Timezone lookups stay correct however many zones are used.",
 ["histories", "configurations"], "all orders and interleavings of calls; all ambient settings (TZ, clock, hash seed, process)",
 "Every unit test starts from nearly fresh state; caches keyed by equality or order-dependent state are invisible to isolated assertions.",
 [("absence of hidden state", F+" module globals, ZoneInfo cache use")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80 and p["statement"].count(". ")<=2, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
