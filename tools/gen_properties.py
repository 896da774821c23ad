#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the human-edited source of the property list)."""
import json, os
P = []
DT='src/iso8601/date_time.rs'; B='src/iso8601/date_time_builder.rs'; G='src/gregorian_normalized_date.rs'
Z='src/zoneinfo.rs'; I='src/instant.rs'; D='src/duration.rs'; C='src/iso8601/chronology.rs'; R='src/div_rem.rs'
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Exactly the real calendar dates of years 0000-9999 can be built and read back',
  'A date-time can be built from year, month and day if and only if that day exists in the proleptic Gregorian calendar between 0000-01-01 and 9999-12-31; every other combination of field values, including month 0 and day 0, is answered with an error and never with a crash or a different date. The year, month and day read back from a built date-time are the ones it was built from.',
  ['inputs'],'every (year, month, day) triple a caller can pass (year any u16, month and day any u8)',
  'The tests build about twenty hand-picked dates; the leap-year, century and month-length arithmetic is only pinned by checking all 3.65 million days and the invalid combinations around them.',
  [B,G],[('date normalisation from year/month/day','%s: from_date'%G),('year/month/day recovery','%s: unnormalized_*'%G)],
  observe=['DateTimeBuilder::checked_build','DateTime::year/month/day'])
p('C02','Exactly the times of day that exist on that UTC day can be built and read back',
  'For a given day, hour/minute/second/sub-second fields are accepted if and only if that second exists on that day: 23:59:60 exists exactly on days that end with an inserted leap second, 23:59:59 does not exist on days that end with a removed one, and every other minute has 60 seconds. Hour, minute and second read back from the built date-time are the ones it was built from.',
  ['inputs','configurations'],'every hour/minute/second/sub-second value, on every kind of day, for every leap-second table',
  'The tests try one leap second and a few invalid values; the rule must hold for each second of each day, for each leap second in the table and for tables with removed seconds, which no test loads.',
  [B,DT,Z],[('length of the last minute','%s: checked_build'%B),('hour/minute/second recovery','%s: hour, minute, second'%DT)],
  state=[('second of day','0..86400+leap, counted from midnight','%s: packed word'%DT)],
  observe=['DateTimeBuilder::checked_build','DateTime::hour/minute/second'])
p('C03','Two date-times compare equal exactly when all their components are equal',
  'Date-times of the same chronology that were built from different dates, times, sub-second parts (down to one nanosecond) or precisions are never equal, and date-times built from the same components are always equal. No component is lost or disturbed by the value of another one.',
  ['inputs'],'every pair of date-times sharing a chronology',
  'The packed representation mixes eight bit fields; no test reads a sub-second part back or compares two date-times, and an overlap only shows for particular bit patterns of two fields at once.',
  [DT],[('bit packing of all components','%s: pack, pack0, unpack, unpack0'%DT)],
  state=[('packed words','precision, date, second and nanosecond bit fields','%s: DateTime'%DT)],
  observe=['DateTime == DateTime'])
p('C04','Arithmetic never alters the components it is not about',
  'Adding years, months, days, hours, minutes or seconds to a date-time, and applying a carry, leaves its sub-second part, its precision and its chronology exactly as they were. Adding zero of any unit to a date-time gives back an equal date-time with no carry.',
  ['inputs','histories'],'every date-time, every unit and amount, every sequence of operations',
  'No test sets a sub-second part or a precision other than seconds, so nothing the tests do can notice one being changed.',
  [DT],[('re-packing after arithmetic','%s: checked_add_*'%DT)],observe=['DateTime == DateTime'])
p('C05','Adding years lands on the same month, day and time of the target year',
  'Adding n years keeps month, day and time of day and changes the year by n; the only exceptions are February 29 in a target year without one, which becomes February 28 with a carry of one day, and a leap second that does not exist on the target day (see the carry rule). The result is refused exactly when the target year is outside 0000-9999, whatever n is.',
  ['inputs'],'every date-time and every year count an i16 can hold',
  'The tests add a handful of year counts to a handful of dates; narrowing conversions and century rules only misbehave for particular combinations of start year, day and count.',
  [DT,G],[('year arithmetic in cycles/centuries/quadrennia','%s: add_years_no_carry'%G),('range check','%s: is_in_range'%DT)],
  observe=['DateTime::add_years','DateTime::checked_add_years'])
p('C06','Adding months lands on the same day of the target month, or its last day',
  'Adding n months moves the month index by n and keeps day and time of day; if the target month is too short the result is its last day and the day carry is the number of days cut off. The result is refused exactly when the target month is outside 0000-01..9999-12, whatever n is.',
  ['inputs'],'every date-time and every month count an i32 can hold',
  'The tests sample about ten month additions; month lengths, February in leap and century years and the March-based internal year interact for every (month, count) pair.',
  [DT,G],[('month arithmetic and end-of-month clamp','%s: add_months'%G)],
  observe=['DateTime::add_months','DateTime::checked_add_months'])
p('C07','Adding days moves exactly that many calendar days',
  'Adding n days moves to the calendar day n days later (earlier if negative) and keeps the time of day; the result is refused exactly when that day is outside 0000-01-01..9999-12-31, whatever n is. Going n days and then back n days returns to the start.',
  ['inputs'],'every date-time and every day count an i32 can hold',
  'The tests step over a few boundaries; the shortcut for staying inside one internal year, the 4/100/400-year decomposition and the narrowing of the cycle count each need particular day/count combinations.',
  [DT,G],[('day arithmetic','%s: add_days, decompose_day_of_cycle'%G)],
  observe=['DateTime::add_days','DateTime::checked_add_days'])
p('C08','Adding hours or minutes counts wall-clock minutes, 1440 to every day',
  'Adding n minutes moves the wall-clock minute by n, counting every day as exactly 1440 minutes whatever leap seconds it has, and keeps the second of the minute unless the target minute is too short for it (see the carry rule); adding n hours equals adding 60n minutes. The result is refused exactly when the target minute falls outside 0000-01-01..9999-12-31, whatever n is.',
  ['inputs'],'every date-time and every hour (i32) or minute (i64) count',
  'The tests add about fifteen counts; overflow for large counts, floor division for negative ones and the special last minute of leap-second days need specific inputs the tests do not contain.',
  [DT],[('minute arithmetic','%s: checked_add_minutes, checked_add_hours'%DT)],
  observe=['DateTime::add_minutes','DateTime::add_hours','DateTime::checked_add_minutes','DateTime::checked_add_hours'])
p('C09','Adding seconds measures elapsed time exactly, leap seconds included',
  'Adding n seconds moves exactly n elapsed seconds along the UTC timeline on which each inserted leap second is a second of its own and each removed one does not exist; so adding a then b equals adding a+b, adding n and then -n returns to the start, and stepping by one second visits every existing second once, in order. The result is refused exactly when it falls outside 0000-01-01..9999-12-31, whatever n is.',
  ['inputs','configurations','histories'],'every date-time, every i64 number of seconds, every leap-second table',
  'The tests cross three leap seconds with small steps; segment lookup and before/inside/after-table arithmetic must agree for every pair of instants around all 27 leap seconds, before 1970 and after the last one.',
  [DT,Z],[('date-time to second timeline','%s: to_second_instant'%DT),('timeline to date-time','%s: from_second_instant'%DT),('leap-second segment lookup','%s: lookup_leap_second_segment_by_*'%Z)],
  state=[('leap-second segments','contiguous runs of days ending with a leap adjustment','%s: ContinuousTimeSegment'%Z)],
  observe=['DateTime::add_seconds','DateTime::checked_add_seconds'])
p('C10','A carry is exactly the part of the time that does not exist on the target day',
  'When calendar or clock arithmetic lands on a day or minute that is too short, the result is the last existing day and/or second, and the reported carry is exactly the days and seconds by which it was shortened; otherwise there is no carry. Applying the carry moves on by that many days and then that many elapsed seconds; dropping it leaves the shortened value; unwrapping succeeds exactly when there is no carry.',
  ['inputs','configurations'],'every date-time (leap seconds included), every operation and amount, every leap-second table',
  'The tests see a seconds carry only for adding one hour or one minute from one leap second; carries from years, months, days or full-day amounts, onto ordinary or leap-second days, inside and outside the table, are not exercised.',
  [DT,G],[('end-of-day spill','%s: spill_eod_second_overflow'%DT),('carry application','%s: checked_apply_carry'%DT)],
  state=[('carry','days and seconds cut off','%s: Carry'%DT)],
  observe=['DateTimeWithCarry::days_carry/seconds_carry/has_carry','apply_carry/checked_apply_carry/drop_carry/unwrap'])
p('C11','Every date-time reachable by any sequence of operations is a valid one',
  'Starting from any buildable date-time, every date-time that a sequence of additions, carry applications and carry drops produces is one that could have been built directly from its own components, with the same results for every further operation. No sequence of operations reaches a date or a second that does not exist.',
  ['histories','configurations'],'every finite sequence of operations from every start, for every leap-second table',
  'Tests run single operations and two-step round trips; an invalid intermediate value (say second 60 on an ordinary day) only does damage when a later operation uses it.',
  [DT,G],[('closure of all arithmetic','%s: checked_add_*, checked_apply_carry'%DT)],observe=['DateTime == DateTimeBuilder::build of its own fields'])
p('C12','Checked operations answer every amount; unchecked ones fail exactly when they do',
  'Every checked operation (adding any unit by any amount the argument type can hold, applying a carry, building from a complete set of fields) returns normally, reporting out-of-range results as such, and never crashes or wraps around to a wrong in-range answer. The unchecked counterpart gives the same result when the checked one succeeds and panics exactly when it reports failure.',
  ['inputs'],'every date-time and every argument value, in particular those near the ends of and beyond the intermediate integer ranges',
  'Tests pass i32::MAX days once and a few just-out-of-range amounts; wrap-around shows only for amounts that are multiples of internal moduli, and the panicking variants are never compared with the checked ones.',
  [DT,G],[('overflow handling of each addition','%s: checked_add_*'%DT),('narrowing of cycle and year counts','%s: add_days, add_years_no_carry, add_months'%G)],
  observe=['DateTime::checked_add_*','DateTime::add_*','DateTimeWithCarry::checked_apply_carry/apply_carry'])
p('C13','The loaded time-zone data alone decides which days have leap seconds',
  'For any leap-second table in the time-zone data (including an empty one, adjacent leap days, and removed as well as inserted seconds), a chronology loaded from it gives each day exactly the length the table says, and all arithmetic follows that table: nothing before the first entry, inside, or after the last entry deviates. The standard table yields the 27 leap seconds published through 2016.',
  ['configurations'],'every well-formed leap-second table',
  'Every test runs on the one table installed on the machine; table shape (first entry early, adjacent entries, negative running total, no entries) is never varied.',
  [Z,C],[('segment construction','%s: load_leap_segments'%Z),('segment lookup','%s: lookup_leap_second_segment_by_day, _by_instant'%Z)],
  state=[('leap-second segments','start instant, start day, length, adjustment, running total','%s: ContinuousTimeSegment'%Z)],
  observe=['load_chronology','DateTimeBuilder::checked_build','DateTime::checked_add_*'])
p('C14','A date-time keeps the leap-second rules of the chronology it was built with',
  'A chronology is a snapshot: loading others, changing the time-zone data on disk or the environment afterwards does not change results for date-times built with it, and all date-times derived by arithmetic stay on it. Loading again sees the data as it is at that moment, and cloning a chronology keeps its identity.',
  ['histories','configurations'],'every interleaving of loading, changing the data, building and operating',
  'The tests use a single unchanging table, so caching, sharing or re-reading mistakes cannot show.',
  [C,Z,DT],[('shared immutable chronology','%s: Chronology'%C),('chronology propagation','%s: checked_add_*'%DT)],
  observe=['load_chronology','Chronology ==','DateTime arithmetic results'])
p('C15','The builder depends only on the last value set per field, in any order',
  'What a builder builds is determined by the last value given to each field, not by the order of the calls, by repeated or interleaved builds, or by earlier values; it always agrees with a fresh builder given the same fields. The finest field set fixes the precision, fields finer than that stand for the start of the period, and a missing coarser field is refused rather than invented.',
  ['histories','inputs'],'every sequence of builder calls',
  'The tests use one call order with all fields from year to second; subsets, orders, overwrites and rebuilding are unexplored.',
  [B],[('precision tracking and defaults','%s: setters, checked_build'%B)],
  state=[('optional fields and precision','fields given so far','%s: DateTimeBuilder'%B)],observe=['DateTimeBuilder setters, build, checked_build'])
p('C16','System times convert to the exact elapsed time since 1970, leap seconds counted',
  'Converting a system time to an instant gives the Unix time plus the number of leap seconds inserted (minus those removed) up to that moment according to the time-zone data, with the sub-second part rounded down to the target scale; this holds before 1970, between, at and after all leap seconds. The conversion is therefore strictly monotone in whole seconds across days with inserted leap seconds, and two system times a given distance apart within one leap-free stretch convert to instants the same distance apart.',
  ['inputs','configurations'],'every system time whose instant fits the tick type, every tick type and scale, every leap-second table',
  'The only test converts the current time twice and checks that the order is kept.',
  [I,Z],[('system time conversion','%s: TryFrom<SystemTime>, system_time_to_time_t'%I),('leap-second count for a Unix timestamp','%s: get_leap_second_adjustment_for_unix_timestamp'%Z)],
  observe=['Instant::try_from(SystemTime) / TryInto'])
p('C17','Whether the system clock counts leap seconds is recognised at any date',
  'On a machine whose clock runs on Unix time (no leap seconds) the conversion from system time adds the leap seconds, and on a machine whose clock includes them it adds none, whatever the current date and time of day is (at any date after the first leap second, before which the two kinds of clock agree). The date the conversion happens to run on never influences its result.',
  ['inputs','configurations'],'every current date and time the clock can show (1970 to 9999; for clocks that include leap seconds, after the first one)',
  'The tests run at today\'s date on an ordinary machine; the detection goes through a Julian-day formula that must be right for every month, leap year and century.',
  [I],[('clock classification','%s: system_time_includes_leap_seconds, utc_to_unix_time, julian_day'%I)],
  observe=['Instant::try_from(SystemTime) under a controlled clock'])
p('C18','Instants compare by the moment they denote, across tick types and scales',
  'Comparing and testing equality of two instants of any tick types and scales agrees with comparing the exact rational moments they denote, for every tick value including the extremes of its type; so comparisons are total, antisymmetric and transitive and never overflow. (One scale is a multiple of the other and the ratio fits the finer tick type.)',
  ['inputs'],'every pair of instants over all pairs of integer tick types and scales',
  'The only test compares two instants of the same type and scale.',
  [I],[('cross-scale comparison','%s: PartialEq, PartialOrd for Instant'%I)],observe=['Instant == < <= > >= partial_cmp'])
p('C19','Changing an instant\'s scale is exact: floor, split and extend',
  'Flooring an instant to a coarser scale gives the latest coarse instant not after it, also before the epoch; splitting gives that instant and the non-negative rest, which together make up the original. Extending to a finer scale or other tick type denotes exactly the same moment, and is refused exactly when the target type cannot hold it.',
  ['inputs'],'every instant, every pair of scales that fit the tick types, one a multiple of the other, every tick type',
  'No test calls these operations.',
  [I],[('rescaling','%s: floor, split, extend'%I)],observe=['Instant::floor/split/extend'])
p('C20','Instant plus and minus duration is exact or refused, never wrapped',
  'Adding a duration to an instant and subtracting two instants give the mathematically exact result when the tick type can hold it; otherwise checked addition reports it and the operators panic. Hence (a-b) added to b gives a, and minimum, maximum and epoch are the true extremes and zero of the tick type.',
  ['inputs'],'every pair of operands over every integer tick type',
  'No test performs instant arithmetic.',
  [I,D],[('checked tick arithmetic','%s: checked_add, Sub, Add'%I)],observe=['Instant + - checked_add, min_value, max_value, epoch, duration_since_epoch'])
p('C21','Changing the tick type keeps the value or is refused',
  'Converting an instant or a duration to another tick type (widening, lossless conversion, or fallible conversion in either direction) keeps the number of ticks exactly, or is refused exactly when the target type cannot represent it. Widening yields the wider of the two types.',
  ['inputs'],'every value and every supported pair of integer tick types',
  'No test converts tick types; each of the dozens of type pairs is a separate instantiation.',
  [I,D,'src/widen.rs'],[('conversions','%s: try_from, try_into, into, widen'%I),('widening table','src/widen.rs')],
  observe=['Instant::widen/into/try_into/try_from','Duration::widen/into/try_into/try_from'])
p('C22','Duration rescaling and division are exact',
  'Flooring a duration to a coarser scale rounds towards the past (so it agrees with flooring the instant that far from the epoch), and extending to a finer one is exact or refused. Dividing a duration by another with floor or ceiling gives the exactly rounded quotient and, where it is a whole number of the ticks of the dividend, a remainder such that quotient times divisor plus (floor) or minus (ceiling) the remainder is the dividend; sums, differences and multiples are exact or refused.',
  ['inputs'],'every dividend and non-zero divisor, positive or negative, divisor scale dividing the dividend scale, as far as the exact intermediate values fit the tick type',
  'No test touches durations.',
  [D],[('rescaling and division','%s: floor, extend, div_rem_floor, div_rem_ceil'%D)],observe=['Duration::floor/extend/div_rem_floor/div_rem_ceil, + - *'])
p('C23','The internal calendar maps day numbers and dates one to one over its whole range',
  'Over the internal calendar\'s full range of about 102,000 years, day numbers and calendar dates correspond one to one, consecutive day numbers are consecutive dates, chronological order is date order, and leap years follow the Gregorian rule. Day numbers and years outside the range are refused.',
  ['inputs'],'every day number (i32) and every year (i32) with any month and day',
  'The tests check fewer than ten dates, all between 1899 and 2004 or at the ends of 0000-9999.',
  [G],[('day number <-> date','%s: from_day, to_day, from_date, to_date, unnormalized_*'%G),('ordering','%s: Ord'%G)],
  state=[('normalised date','400-year cycle, century, quadrennium, year, day of March-based year','%s: GregorianNormalizedDate'%G)],
  observe=['normalised date functions through the guarded hook'],hook='cfg momentous_verif: wrapper around the crate-private calendar type')
p('C24','The slice cursor is at one well-defined place after any sequence of moves',
  'After any sequence of single and multi-step moves in both directions and position changes, the cursor is before the first element, on one element, or after the last, and current, peek, at-start, at-end and position queries all describe that same place. A multi-step move of n goes over as many elements as there are in that direction, reports exactly the shortfall, and never fails or leaves the slice, also when already at the end it moves towards. A position outside the slice is refused, leaving the cursor where it was.',
  ['histories'],'every slice length and every sequence of cursor calls',
  'The tests follow a few fixed walks on slices of length 0 and 3, and never call a multi-step move from the far end.',
  ['src/slice_cursor.rs','src/cursor.rs'],[('cursor state machine','src/slice_cursor.rs')],
  state=[('pos','0 = start, 1..=len = element, len+1 = end','src/slice_cursor.rs')],
  observe=['cursor functions through the guarded hook'],hook='cfg momentous_verif: wrapper around the crate-private cursor')
p('C25','Integer division helpers return the exact quotient and remainder they promise',
  'The floor, ceiling, clamped and multiply-then-divide helpers return quotient and remainder with dividend = quotient x divisor + remainder, rounded in the promised direction for all sign combinations (clamped: quotient capped at the limit with the excess left in the remainder). If an intermediate value does not fit they refuse rather than return a wrong number.',
  ['inputs'],'every combination of operands for which the result fits the type',
  'The helpers carry "TODO test this" comments; no test calls them.',
  [R],[('division helpers','src/div_rem.rs')],
  observe=['helpers through the guarded hook'],hook='cfg momentous_verif: monomorphic wrappers around the crate-private helpers')
p('C26','Durations order by their length, and equal values hash alike',
  'Every way of comparing two durations of the same type (the comparison operators, total and partial ordering, minimum and maximum) agrees with the order of their lengths, negative ones and the extremes of the tick type included, and never overflows. Durations or instants of one type that are equal have equal hashes, so they find each other as keys.',
  ['inputs'],'every pair of durations, and every pair of equal instants, of every tick type and scale',
  'No test compares or hashes durations.',
  [D,I],[('ordering and hashing of durations','%s: Duration'%D),('hashing of instants','%s: Instant'%I)],observe=['Duration comparison operators, Ord, PartialOrd, Hash; Instant Hash'])
p('C27','Damaged or missing zone data is refused, never read as other leap seconds',
  'Loading a chronology, by name or as the builder\'s default, either gives exactly the leap seconds that the complete zone data under the directory named by TZDIR describes, or is refused. It is refused when the zone file or the leap-second data is missing, empty, not a zone file, cut off at any byte within the data that is needed, or has leap-second records that are blank or not in order of time; it never falls back to another table, to other data or to none. Everything else in a zone file (transitions, time types, flags, abbreviations, a 64-bit block that repeats the data, an expiry record) has no influence on the leap seconds, and good data loads again after any failure. When a call into the system that a load or a conversion makes fails, it is refused or still gives exactly that; interrupted calls and reads that deliver their data in pieces change nothing.',
  ['histories','crash_points'],'every point at which a zone file can be cut off, every layout of its other sections, every order of its leap-second records, every combination of missing pieces, and every failure of the calls a load makes',
  'The tests only load the zone data installed on the machine, which is whole.',
  [Z,'src/iso8601/chronology.rs'],[('zone data location, parsing and reading into segments','%s: tzdir, load_zoneinfo, load_leap_segments'%Z),('loading','src/iso8601/chronology.rs: load_chronology')],observe=['load_chronology','DateTimeBuilder with the default chronology','which last seconds of a day exist','elapsed seconds'])
p('C28','Concurrent use from several threads gives the results of separate use',
  'Chronologies, date-times, builders, instants and durations can be sent to and shared with other threads. An operation that one thread executes (building, reading, adding, applying carries, comparing, cloning, converting system times, loading chronologies) gives the result it has alone, whatever operations on the same or on other chronologies other threads execute at the same time and however their steps interleave: no result is mixed from two operations, nothing is refused or panics because another thread is at work, every operation returns, and afterwards everything behaves as before. A chronology loaded while its data on disk is being replaced (by renaming) has exactly the leap seconds of the old or of the new data.',
  ['schedules','histories'],'every interleaving of the operations of several threads, and every moment at which zone data can be replaced during a load',
  'The tests use one thread, and even a test with threads only meets the few interleavings the machine happens to produce.',
  [DT,C,Z,I],[('operations on date-times','%s: checked_add_*, apply_carry, getters'%DT),('shared leap-second table','%s: Chronology'%C),('loading and system-time conversion','%s: load_zoneinfo, load_leap_segments; %s: TryFrom<SystemTime>'%(Z,I))],
  state=[('shared chronology','leap-second table that date-times refer to, shared by reference count','%s: Chronology'%C)],observe=['all operations on DateTime, Chronology and Instant'])
p('C29','Operations leave nothing behind, and what is dropped is given back',
  'Executing an operation any number of times, whether it succeeds or is refused, and whatever fails while it runs, does not accumulate anything: once what it returned has been dropped the memory in use and the number of open files are those after earlier executions, also when every execution has new data. It does not change the environment, the working directory, any file or the panic hook of the process. Chronologies, builders, date-times and carries can be dropped in any order: those that remain work as before, and after the last one nothing they shared is kept.',
  ['histories','crash_points','inputs'],'every operation, every point at which a call that it makes can fail or its data can end, and every order in which values that share a chronology are dropped',
  'A test ends after a few operations; what is left behind by each shows only in a process that runs for long, and what is left behind by a failure in the middle only when that failure happens.',
  [Z,'src/iso8601/chronology.rs',DT],[('shared chronology and its lifetime','src/iso8601/chronology.rs: Chronology, SharedChronology, load_chronology'),('reading zone data','%s: load_zoneinfo, load_leap_segments'%Z)],observe=['allocated memory and open files around each operation','environment, working directory, files and panic hook afterwards','results of values that outlive others'])
p('C30','A refused build says whether the value is impossible or out of range',
  'When the builder refuses, its error is of one of two kinds: a month, day, hour, minute, second or fraction that does not exist (on that day, under that chronology), or a date and time that are possible as such but lie beyond the year 9999. All errors of one kind are equal and none equals one of the other, and build panics exactly when checked_build returns an error.',
  ['inputs','configurations'],'every combination of builder values with one cause of refusal',
  'The tests compare the error kind of about a dozen refusals, one value each, and none at the places where both kinds meet.',
  [B,G],[('validation and error kinds','%s: checked_build, Error'%B),('date validation','%s: from_date'%G)],observe=['the error of DateTimeBuilder::checked_build compared with other errors','DateTimeBuilder::build'])
p('C31','Debug output tells apart exactly what differs',
  'Formatting a date-time, a result with its carry, an instant, a duration or an error for debugging returns for every value there can be. Equal values show the same text; two date-times of one chronology, two results with carries on one chronology, or two instants or two durations of one type that differ show different texts, and so do the error for an impossible value and the one for a date out of range.',
  ['inputs','configurations'],'every date-time of every precision, however it was reached, every carry, every tick value',
  'The tests format values only when they fail.',
  [DT,B,I,'src/duration.rs'],[('formatting','%s: Debug for DateTime, DateTimeWithCarry, Carry; %s: Debug for Error; %s: Instant; src/duration.rs: Duration'%(DT,B,I))],observe=['format!("{:?}", value) compared between values'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
