EX = 'explicit-state model checking: exhaustive enumeration of '
CMP = ' every step is executed on the compiled library and compared with a reference model.'
UNI = ' The same around every adjustment of all small leap-second tables (about 1400; thorough: all with up to 4 adjustments), also with a second table in alternation;'
TWO = ' Explored twice: built with overflow and debug checks, and without them as a release build is.'
TRUST = ' Assumes the reference model (calendar by successor, day length from the leap table) and the harness.'
CLAIMED = {
 'C01': (EX + 'all builder date inputs', 'All 655 million year/month/day triples of years 0-9999, all larger years by class, and all 3.65 million days read back;' + CMP + TRUST),
 'C02': (EX + 'time-of-day inputs under several leap-second tables', 'All hour/minute/second byte triples on days of every kind, the end of all 3.65 million days, all u16 sub-second values;' + UNI + CMP + TRUST),
 'C03': (EX + 'component pairs at every storage-bit boundary', 'Equality is only observable pairwise: full pairwise products of class values, every day and second against neighbours at all bit distances, nanosecond sweep (every value in the thorough tier).' + TRUST),
 'C04': (EX + 'operations from states with every sub-second bit and precision', 'Sub-second, precision and chronology have no getters, so they are compared through equality with freshly built date-times and by going there and back.' + TRUST),
 'C05': (EX + 'date x year-amount transitions', 'Every day x key amounts, special days x every i16; thorough: every year x every amount for key days;' + UNI + CMP + TRUST),
 'C06': (EX + 'date x month-amount transitions', 'Every day x key amounts, special days x every amount over twice the range;' + UNI + CMP + TRUST),
 'C07': (EX + 'date x day-amount transitions', 'Every day x key amounts there and back, special days x every target day;' + UNI + CMP + TRUST),
 'C08': (EX + 'date-time x minute/hour-amount transitions', 'Every day x key amounts, special days x dense amounts and every day multiple;' + UNI + CMP + TRUST),
 'C09': (EX + 'UTC timeline transitions in seconds', 'Every day x key amounts, all pairs of special points, second-by-second walks over every adjustment, composition of amounts;' + UNI + CMP + TRUST),
 'C10': (EX + 'landings on shortened days and minutes under many leap-second tables', 'Carry, has/drop/unwrap/apply/checked apply of every landing compared with the model.' + UNI[:-1] + '.' + TRUST),
 'C11': (EX + 'operation sequences (breadth-first, de-duplicated)', 'Breadth-first search on the real values over 26 operations with carry applied and dropped, to a bounded depth (quick 5-6, thorough 6-7) from states at every adjustment and range end.' + UNI[:-1] + '.' + TRUST),
 'C12': (EX + 'extreme amounts and field values, checked and unchecked', 'Lattice of all amounts at which an intermediate of any natural width could wrap or meet a range end, from states at the ends, epoch and adjustments under several tables (also an empty one).' + UNI[:-1] + '.' + TWO + TRUST),
 'C13': (EX + 'leap-second tables (written as TZif files), each loaded and walked', 'Every table of up to 3 (thorough 4) adjustments of either sign over 5 gaps, the empty one, every prefix of the published one, calendar-awkward ones, maximal ones (also pairs of tables in alternation) and the installed file; day lengths, jumps in seconds/days/minutes and carries around every adjustment;' + CMP + TRUST + ' The published list of 27 dates is independent of the installed file.'),
 'C14': (EX + 'interleavings of load / change data / remove data / move TZDIR / clone / derive', 'After each step every chronology and date-time obtained so far is probed against the table current when it was loaded; depth 4 (thorough 5).' + TRUST),
 'C15': (EX + 'builder call sequences', 'All orders of all subsets of the nine fields and all short sequences over valid, other valid and impossible values with a build after every call, compared with a fresh builder and the model.' + TRUST + ' A missing coarser field is refused by a panic in this API.'),
 'C16': (EX + 'system times under several leap-second tables', 'Every day of two centuries, windows of seconds around every adjustment, the epoch and the ends, times sub-second classes, into every tick type and scale;' + CMP + TWO + TRUST + ' Clock interposed (Unix time).'),
 'C17': (EX + 'current clock readings x kinds of clock, one process per TZ', 'Every day of centuries to millennia at several times of day (interposed clock_gettime), clocks with and without leap seconds, several tables; conversions on either side of leap seconds compared with the model.' + TRUST + ' A leap-counting clock is only distinguishable while the running leap total is not 0.'),
 'C18': (EX + 'pairs of instants over all 100 tick-type pairs', 'All pairs of 8-bit ticks, 16-bit ticks against every other type around the same moment, boundary lattices of the wider types, all scale pairs; oracle: exact 256-bit rational comparison.' + TWO + TRUST),
 'C19': (EX + 'ticks x scale pairs x target types', 'All 8- and 16-bit ticks (thorough: all 32-bit), boundary lattices of the wider types; floor, split, extend compared with exact integers, refusals included.' + TWO + TRUST),
 'C20': (EX + 'operand pairs of instant/duration arithmetic', 'All 8-bit pairs, 16-bit x boundary values (thorough: all pairs), lattices of wider types; exact or refused, extremes of every type.' + TWO + TRUST),
 'C21': (EX + 'ticks x all 100 tick-type pairs', 'All 8- and 16-bit ticks (thorough: all 32-bit), boundary lattices; fallible, lossless and widening conversions of instants and durations.' + TWO + TRUST),
 'C22': (EX + 'durations x scales and dividend x divisor pairs', 'All 8-bit pairs, dense ranges and lattices of wider types; floor/ceiling division, flooring, extension, sums and multiples against exact integers. The remainder is required only where it is a whole number of the dividend\'s ticks.' + TWO + TRUST),
 'C23': (EX + 'the complete day-number space of the internal calendar', 'All 37.4 million day numbers walked by successor and compared with a calendar counted day by day, all year x month x day byte triples of boundary years (thorough: of every year), moves, refusals (through the guarded hook).' + TWO + TRUST),
 'C24': (EX + 'the complete cursor state graph and all call sequences of bounded length', 'For every slice length up to a bound: every state x every call, and all call sequences up to length 5 (thorough 6), every observer after each step (through the guarded hook).' + TWO + TRUST),
 'C25': (EX + 'operands of the division helpers', 'All 8-bit pairs and triples, 16-bit dividends (thorough: all 16-bit pairs), boundary lattices up to 128 bits against exact arithmetic; exact or refused (through the guarded hook).' + TWO + TRUST),
 'C26': (EX + 'pairs of durations', 'All 8-bit pairs, every 16-bit duration against boundary values (thorough: all 16-bit pairs), lattices of wider types, several scales; every comparison operator, ordering, extremes and the hashes of equal durations and instants.' + TWO + TRUST),
 'C27': (EX + 'damage to zone files (truncation points, record orders, missing pieces) and faults of the system calls of a load', 'Every truncation point of files of several layouts, of the zone itself and of its leap-second data, every order, repetition and blanking of the records of all tables of up to 4 adjustments, every combination of missing pieces, every layout of the other sections; every fault of each call that a load, default build or system-time conversion makes (open, stat, seek, read: error codes, interruptions, early end, partial reads), every two of them, and all reads limited to 1-64 bytes; each load must be refused or give exactly the complete table.' + TWO + TRUST),
 'C28': ('stateless model checking of the compiled library: systematic exploration of thread schedules with a bounded number of preemptions at single machine instructions', 'Pairs of operations (build, read, nine additions, carries, comparison, clone and drop, conversion of system times, instants, loading) in two threads on the same and on different chronologies: every schedule with one preemption at each machine instruction the first executes, warm and as the first use in a fresh process; loads during which the data is replaced; thorough: two preemptions. Not covered: three threads, weaker memory orders than sequential consistency, preemption inside the C library.'),
 'C29': (EX + 'operations, faults of their calls, cut-off data and drop orders', 'Every operation of the alphabet on the special moments of several tables, refused builds, every fault of every call of loads, default builds and conversions (thorough: every two), zone data cut off at every byte, all 40320 orders of dropping eight values that share a chronology, under four tables; a counting allocator and interposed open/close show what each leaves behind after warming up; environment, directory, files and panic hook are compared.' + TRUST),
 'C30': (EX + 'builder inputs by cause of refusal', 'Every year above 9999 with the first and last day of every month (thorough: every day), every month and day byte of years of every kind (thorough: of all years), every hour/minute/second byte on long, short and ordinary days, every fraction value; each error is compared with a known error of either kind.' + TRUST),
 'C31': (EX + 'values and their texts', 'Every day, every second of days of every length, special moments at every precision with finer fields set, fractions of every precision, results with carries, all 8- and 16-bit instants and durations and boundary values of wider ones, builder errors: within each group every two texts are compared (through a table of all texts).' + TRUST),
}
NOT_CLAIMED = {}
