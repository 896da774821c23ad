//! C01..C12: date-times.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_prec::*;
use crate::p_tables::*;
use momentous::iso8601::{load_chronology, DateTime, DateTimeBuilder};

/// A phase run with one leap-second table active; every worker loads its own chronology.
pub fn par_env(e: &Engine, phase: &str, l: &Leaps, n: u64, f: impl Fn(&mut W, &Env, u64) + Sync) {
    if !e.wants(phase) {
        return;
    }
    let d = with_table("t", l);
    e.par(phase, n, || Env::load(l), |w, env, c| f(w, env, c));
    drop(d);
}

/// Splits the 3.65 million days into chunks.
pub const DAY_CHUNK: i32 = 2048;
pub fn day_chunks() -> u64 {
    (DAYS as u64).div_ceil(DAY_CHUNK as u64)
}
pub fn chunk_days(c: u64) -> std::ops::RangeInclusive<i32> {
    let lo = MIN_DAY + c as i32 * DAY_CHUNK;
    lo..=(lo + DAY_CHUNK - 1).min(MAX_DAY)
}

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C01" => c01(e),
        "C02" => c02(e),
        "C03" => c03(e),
        "C04" => c04(e),
        "C05" => c05(e),
        "C06" => c06(e),
        "C07" => c07(e),
        "C08" => c08(e),
        "C09" => c09(e),
        "C10" => c10(e),
        "C11" => c11(e),
        "C12" => c12(e),
        _ => return false,
    }
    true
}

fn raw(env: &Env, f: impl FnOnce(&mut DateTimeBuilder)) -> Result<Result<DateTime, ()>, String> {
    guard(|| {
        let mut b = DateTimeBuilder::new();
        b.chronology(&env.chron);
        f(&mut b);
        b.checked_build().map_err(|_| ())
    })
    .map_err(|_| last_panic())
}

fn verdict(r: &Result<Result<DateTime, ()>, String>) -> String {
    match r {
        Ok(Ok(d)) => format!("accepted as {}", show(d)),
        Ok(Err(())) => "refused".into(),
        Err(p) => p.clone(),
    }
}

/// The first day, 00:00:00.000000000, as far as the precision goes.
fn fill_zeros(b: &mut DateTimeBuilder, prec: u8) {
    if prec >= P_DAY {
        b.day(1);
    }
    if prec >= P_HOUR {
        b.hour(0);
    }
    if prec >= P_MINUTE {
        b.minute(0);
    }
    if prec >= P_SECOND {
        b.second(0);
    }
    if prec >= P_MS {
        b.millisecond(0);
    }
    if prec >= P_US {
        b.microsecond(0);
    }
    if prec >= P_NS {
        b.nanosecond(0);
    }
}

// ---------------------------------------------------------------------------------------------
fn c01(e: &Engine) {
    e.rule("every (year 0..=9999, month 0..=255, day 0..=255) and every year above 9999 with month/day classes is offered to the builder; every calendar day is read back with several times of day and precisions");
    let l = iers();
    par_env(e, "all year-month-day triples", &l, 10000, |w, env, c| {
        let y = c as u16;
        for m in 0..=255u8 {
            for d in 0..=255u8 {
                w.transitions += 1;
                let ok = cal().valid(y as i64, m as u32, d as u32);
                let r = raw(env, |b| {
                    b.year(y).month(m).day(d);
                });
                let good = match &r {
                    Ok(Ok(dt)) => ok && getters(dt) == Ok((y, m, d, 0, 0, 0)),
                    Ok(Err(())) => !ok,
                    Err(_) => false,
                };
                if ok {
                    w.states += 1;
                }
                if !good {
                    w.fail(
                        format!("builder year={} month={} day={}", y, m, d),
                        if ok { "accepted, reading back the same fields at 00:00:00" } else { "refused with an error" },
                        verdict(&r),
                    );
                }
            }
        }
        w.traces += 1;
        w.sample(|| format!("year {}: 65536 month/day combinations", y));
    });
    par_env(e, "years above 9999", &l, 56, |w, env, c| {
        for y in (9999 + 1 + c * 1000)..(9999 + 1 + (c + 1) * 1000).min(65536) {
            for m in [0u8, 1, 2, 3, 6, 12, 13, 255] {
                for d in [0u8, 1, 28, 29, 30, 31, 32, 255] {
                    w.transitions += 1;
                    w.hit("year above 9999");
                    let r = raw(env, |b| {
                        b.year(y as u16).month(m).day(d);
                    });
                    if !matches!(r, Ok(Err(()))) {
                        w.fail(format!("builder year={} month={} day={}", y, m, d), "refused with an error", verdict(&r));
                    }
                }
                // To every finer precision, and to the month.
                for prec in [P_MONTH, P_HOUR, P_MINUTE, P_SECOND, P_MS, P_US, P_NS] {
                    w.transitions += 1;
                    let r = raw(env, |b| {
                        b.year(y as u16).month(m);
                        fill_zeros(b, prec);
                    });
                    if !matches!(r, Ok(Err(()))) {
                        w.fail(format!("builder year={} month={} to precision {}", y, m, prec), "refused with an error", verdict(&r));
                    }
                }
            }
            w.transitions += 1;
            let r = raw(env, |b| {
                b.year(y as u16);
            });
            if !matches!(r, Ok(Err(()))) {
                w.fail(format!("builder year={} only", y), "refused with an error", verdict(&r));
            }
        }
        w.traces += 1;
    });
    let years: Vec<u16> = vec![0, 4, 1900, 1970, 2000, 2023, 2024, 9996, 9999];
    par_env(e, "all month-day pairs with times of day", &l, years.len() as u64 * 256, |w, env, c| {
        let (y, m) = (years[(c / 256) as usize], (c % 256) as u8);
        for d in 0..=255u8 {
            let ok = cal().valid(y as i64, m as u32, d as u32);
            for prec in P_HOUR..=P_NS {
                w.transitions += 1;
                let r = raw(env, |b| {
                    b.year(y).month(m);
                    fill_zeros(b, prec);
                    b.day(d);
                });
                let good = match &r {
                    Ok(Ok(dt)) => ok && getters(dt) == Ok((y, m, d, 0, 0, 0)),
                    Ok(Err(())) => !ok,
                    Err(_) => false,
                };
                if !good {
                    w.fail(format!("builder year={} month={} day={} to precision {}", y, m, d, prec), if ok { "accepted" } else { "refused with an error" }, verdict(&r));
                }
            }
        }
        w.traces += 1;
    });
    par_env(e, "whole years and months", &l, 100, |w, env, c| {
        for y in c * 100..(c + 1) * 100 {
            let y = y as u16;
            w.transitions += 1;
            let r = raw(env, |b| {
                b.year(y);
            });
            if !matches!(&r, Ok(Ok(dt)) if getters(dt) == Ok((y, 1, 1, 0, 0, 0))) {
                w.fail(format!("builder year={} only", y), "the year, starting at 01-01T00:00:00", verdict(&r));
            }
            for m in 0..=255u8 {
                w.transitions += 1;
                let r = raw(env, |b| {
                    b.year(y).month(m);
                });
                let ok = (1..=12).contains(&m);
                let good = match &r {
                    Ok(Ok(dt)) => ok && getters(dt) == Ok((y, m, 1, 0, 0, 0)),
                    Ok(Err(())) => !ok,
                    Err(_) => false,
                };
                if !good {
                    w.fail(format!("builder year={} month={}", y, m), if ok { "the month, starting at day 1" } else { "refused with an error" }, verdict(&r));
                }
            }
        }
        w.traces += 1;
    });
    par_env(e, "every day read back", &l, day_chunks(), |w, env, c| {
        for day in chunk_days(c) {
            let last = env.leaps.day_len(day) - 1;
            for m in [
                M::new(day, 0),
                M::new(day, 43199),
                M::new(day, last),
                M::ns(day, 65536, 999_999_999),
                M::ns(day, last, 536_870_912),
                M { day, sec: 0, ns: 0, prec: P_DAY },
            ] {
                let _ = start(w, env, &m);
                w.sample(|| m.show());
            }
            w.traces += 1;
        }
    });
}

// ---------------------------------------------------------------------------------------------
fn days_of_interest(l: &Leaps, all: bool) -> Vec<i32> {
    let mut v = vec![MIN_DAY, MIN_DAY + 59, -1, 0, 1, 11016, 11017, MAX_DAY];
    let n = l.ends.len();
    for (i, (end, _)) in l.ends.iter().enumerate() {
        if all || i < 2 || i + 2 >= n {
            v.extend([end - 2, end - 1, *end]);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn c02(e: &Engine) {
    e.rule("every (hour, minute, second) in 0..=255^3 on days of every kind under several leap-second tables; every calendar day with the last seconds of the day; every u16 of each sub-second field; every existing second read back; after every other operation on moments alike and after other data was dropped");
    let tabs = [iers(), odd_table()];
    for l in &tabs {
        let days = days_of_interest(l, e.thorough());
        let n = days.len() as u64 * 256;
        par_env(e, &format!("hour-minute-second cube, table {}", l.name), l, n, |w, env, c| {
            let day = days[(c / 256) as usize];
            let h = (c % 256) as u8;
            let (y, mo, d) = cal().date(day);
            let len = env.leaps.day_len(day);
            for mi in 0..=255u8 {
                let mlen = if h < 24 && mi < 60 {
                    if h == 23 && mi == 59 { len - 86340 } else { 60 }
                } else {
                    0
                };
                for s in 0..=255u8 {
                    w.transitions += 1;
                    let ok = (s as u32) < mlen;
                    let r = raw(env, |b| {
                        b.year(y as u16).month(mo as u8).day(d as u8).hour(h).minute(mi).second(s);
                    });
                    let good = match &r {
                        Ok(Ok(dt)) => ok && getters(dt) == Ok((y as u16, mo as u8, d as u8, h, mi, s)),
                        Ok(Err(())) => !ok,
                        Err(_) => false,
                    };
                    if ok {
                        w.states += 1;
                        if s == 60 {
                            w.hit("inserted leap second accepted");
                        }
                    } else if mlen == 59 && s == 59 {
                        w.hit("removed second refused");
                    }
                    if !good {
                        w.fail(
                            format!("table={} builder {:04}-{:02}-{:02} hour={} minute={} second={}", env.leaps.name, y, mo, d, h, mi, s),
                            if ok { "accepted" } else { "refused with an error" },
                            verdict(&r),
                        );
                    }
                }
                // Minute and hour precision.
                let r = raw(env, |b| {
                    b.year(y as u16).month(mo as u8).day(d as u8).hour(h).minute(mi);
                });
                w.transitions += 1;
                let good = match &r {
                    Ok(Ok(dt)) => mlen > 0 && getters(dt) == Ok((y as u16, mo as u8, d as u8, h, mi, 0)),
                    Ok(Err(())) => mlen == 0,
                    Err(_) => false,
                };
                if !good {
                    w.fail(format!("builder {:04}-{:02}-{:02} hour={} minute={}", y, mo, d, h, mi), if mlen > 0 { "accepted" } else { "refused" }, verdict(&r));
                }
            }
            let r = raw(env, |b| {
                b.year(y as u16).month(mo as u8).day(d as u8).hour(h);
            });
            w.transitions += 1;
            let good = match &r {
                Ok(Ok(dt)) => h < 24 && getters(dt) == Ok((y as u16, mo as u8, d as u8, h, 0, 0)),
                Ok(Err(())) => h >= 24,
                Err(_) => false,
            };
            if !good {
                w.fail(format!("builder {:04}-{:02}-{:02} hour={}", y, mo, d, h), if h < 24 { "accepted" } else { "refused" }, verdict(&r));
            }
            w.traces += 1;
            w.sample(|| format!("day {:04}-{:02}-{:02} hour {}", y, mo, d, h));
        });
        par_env(e, &format!("end of every day, table {}", l.name), l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                let (y, mo, d) = cal().date(day);
                let len = env.leaps.day_len(day);
                for s in 57..=62u8 {
                    w.transitions += 1;
                    let ok = 86340 + (s as u32) < len;
                    let r = raw(env, |b| {
                        b.year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s);
                    });
                    let good = match &r {
                        Ok(Ok(dt)) => ok && getters(dt) == Ok((y as u16, mo as u8, d as u8, 23, 59, s)),
                        Ok(Err(())) => !ok,
                        Err(_) => false,
                    };
                    if ok {
                        w.states += 1;
                    }
                    if !good {
                        w.fail(
                            format!("table={} builder {:04}-{:02}-{:02}T23:59:{}", env.leaps.name, y, mo, d, s),
                            if ok { "accepted" } else { "refused with an error" },
                            verdict(&r),
                        );
                    }
                }
                w.traces += 1;
            }
        });
        let days = if e.thorough() { (-400..=l.ends.last().unwrap().0 + 400).collect() } else { days_of_interest(l, true) };
        par_env(e, &format!("every second read back, table {}", l.name), l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            for sec in 0..env.leaps.day_len(day) {
                start(w, env, &M::new(day, sec));
            }
            w.traces += 1;
        });
        // Sub-second fields: every value of each, times classes of the others, on an ordinary and a leap second.
        let leap_end = l.ends.iter().find(|x| x.1 == 1).unwrap().0;
        let cls: [u16; 8] = [0, 1, 255, 256, 999, 1000, 1001, 65535];
        par_env(e, &format!("sub-second fields, table {}", l.name), l, 2 * 3 * 64, |w, env, c| {
            let (day, sec) = if c % 2 == 0 { (0, 0) } else { (leap_end - 1, 86400) };
            let which = (c / 2) % 3;
            let (a, b2) = (cls[((c / 6) % 8) as usize], cls[((c / 6) / 8) as usize]);
            let m = M::new(day, sec);
            for v in 0..=65535u16 {
                let f = match which {
                    0 => [v, a, b2],
                    1 => [a, v, b2],
                    _ => [a, b2, v],
                };
                for depth in 1..=3usize {
                    w.transitions += 1;
                    let ok = f[..depth].iter().all(|x| *x < 1000);
                    let r = raw(env, |b| {
                        fill(b, &m);
                        b.millisecond(f[0]);
                        if depth > 1 {
                            b.microsecond(f[1]);
                        }
                        if depth > 2 {
                            b.nanosecond(f[2]);
                        }
                    });
                    let good = match &r {
                        Ok(Ok(dt)) => ok && getters_match(dt, &m),
                        Ok(Err(())) => !ok,
                        Err(_) => false,
                    };
                    if ok {
                        w.states += 1;
                        w.hit("sub-second accepted");
                    }
                    if !good {
                        w.fail(format!("{} sub-second fields {:?}", m.show(), &f[..depth]), if ok { "accepted" } else { "refused with an error" }, verdict(&r));
                    }
                }
            }
            w.traces += 1;
        });
    }
    // Every small table: the end of every day around its adjustments.
    let ts = tables(2, &[1, 2, 31]);
    for l in &ts {
        let last = l.ends.last().unwrap().0;
        par_env(e, &format!("ends of days, table {}", l.name), l, 1, |w, env, _| {
            for day in -3..=last + 3 {
                for sec in [0, 86339, 86340, 86397, 86398] {
                    start(w, env, &M::new(day, sec));
                }
                let (y, mo, d) = cal().date(day);
                for s in 58..=62u8 {
                    w.transitions += 1;
                    let ok = 86340 + (s as u32) < env.leaps.day_len(day);
                    let r = raw(env, |b| {
                        b.year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s);
                    });
                    if ok != matches!(r, Ok(Ok(_))) || r.is_err() {
                        w.fail(
                            format!("table={} builder {:04}-{:02}-{:02}T23:59:{}", env.leaps.name, y, mo, d, s),
                            if ok { "accepted" } else { "refused with an error" },
                            verdict(&r),
                        );
                    }
                }
            }
            w.traces += 1;
        });
    }
    over_tables(e, times_of_day);
    crate::p_hist::one_after_another(e, &[None]);
}

// ---------------------------------------------------------------------------------------------
fn ns_bits() -> Vec<u32> {
    let mut v = vec![0, 999, 1000, 65535, 65537, 999_999, 1_000_000, 123_456_789, 536_870_911, 999_934_463, 999_999_999];
    for k in 0..30 {
        v.push(1 << k);
    }
    v.sort();
    v.dedup();
    v
}

fn c03(e: &Engine) {
    e.rule("pairs of built date-times: full pairwise comparison of products of component classes (every storage-bit boundary), every day and every second against neighbours at +-2^k, nanosecond sweeps; equal exactly when the components are equal; fractions of every precision pairwise");
    let l = iers();
    let leap_day = l.ends[0].0 - 1;

    // Full pairwise over a product of classes.
    let days: Vec<i32> = vec![MIN_DAY, MIN_DAY + 1, -1, 0, 1, leap_day, 11016, 11017, 11017 + 256, 11017 + 146097, 11017 + 36524, 11017 + 1461, 11017 + 365, MAX_DAY];
    let secs: Vec<u32> = vec![0, 1, 32768, 65535, 65536, 65537, 86399];
    let nss: Vec<u32> = vec![0, 1, 1000, 65535, 65536, 131072, 1 << 20, 1 << 28, 1 << 29, 999_999_999];
    let mut all = vec![];
    for &day in &days {
        for &sec in &secs {
            for &ns in &nss {
                all.push(M::ns(day, sec, ns));
            }
        }
        for prec in 0..=P_NS {
            let (y, mo, _) = cal().date(day);
            let d0 = match prec {
                P_YEAR => cal().day(y, 1, 1),
                P_MONTH => cal().day(y, mo, 1),
                _ => day,
            };
            all.push(M { day: d0, sec: 0, ns: 0, prec });
            if prec >= P_SECOND {
                all.push(M { day, sec: 65536, ns: 0, prec });
                all.push(M { day, sec: 86399, ns: 0, prec });
            }
            if prec >= P_MS {
                all.push(M { day, sec: 65536, ns: 999_000_000, prec });
            }
            if prec >= P_US {
                all.push(M { day, sec: 65536, ns: 999_999_000, prec });
            }
        }
    }
    all.push(M::ns(leap_day, 86400, 0));
    all.push(M::ns(leap_day, 86400, 999_999_999));
    all.sort();
    all.dedup();
    par_env(e, "product pairwise", &l, all.len() as u64, |w, env, c| {
        let a = all[c as usize];
        let Some(da) = start(w, env, &a) else { return };
        let again = build(env, &a).ok();
        if again.as_ref() != Some(&da) || da.clone() != da {
            w.fail(format!("{} built twice / cloned", a.show()), "equal", "not equal");
        }
        for b in &all {
            w.transitions += 1;
            match build(env, b) {
                Ok(db) => {
                    let eq = da == db;
                    if eq {
                        w.hit("equal");
                    } else {
                        w.hit("different");
                    }
                    if eq != (a == *b) || (db == da) != eq || (da != db) == eq {
                        w.fail(format!("{} == {}", a.show(), b.show()), format!("{}", a == *b), format!("{}", eq));
                    }
                }
                Err(x) => w.fail(format!("build {}", b.show()), "accepted", x),
            }
        }
        w.traces += 1;
        w.sample(|| format!("{} against {} others", a.show(), all.len()));
    });

    let cmp = |w: &mut W, env: &Env, a: &M, da: &DateTime, b: &M| {
        w.transitions += 1;
        match build(env, b) {
            Ok(db) => {
                if (*da == db) != (a == b) {
                    w.fail(format!("{} == {}", a.show(), b.show()), format!("{}", a == b), format!("{}", *da == db));
                }
            }
            Err(x) => w.fail(format!("build {}", b.show()), "accepted", x),
        }
    };

    par_env(e, "every day against days 2^k away", &l, day_chunks(), |w, env, c| {
        for day in chunk_days(c) {
            let a = M::ns(day, 65536 + 1, 999_999_999);
            let Some(da) = start(w, env, &a) else { return };
            if build(env, &a).ok().as_ref() != Some(&da) {
                w.fail(format!("{} built twice", a.show()), "equal", "not equal");
            }
            for k in 0..22 {
                for s in [1, -1] {
                    let d2 = day + s * (1 << k);
                    if (MIN_DAY..=MAX_DAY).contains(&d2) {
                        cmp(w, env, &a, &da, &M { day: d2, ..a });
                    }
                }
            }
            for d2 in [day + 146097, day + 36524, day + 1461, day + 365, day + 366] {
                if d2 <= MAX_DAY {
                    cmp(w, env, &a, &da, &M { day: d2, ..a });
                }
            }
            w.traces += 1;
        }
    });
    let base_days = [MIN_DAY, 0, leap_day, 11017, MAX_DAY];
    par_env(e, "every second against seconds one bit and 2^k away", &l, 87 * 5, |w, env, c| {
        let day = base_days[(c % 5) as usize];
        let len = env.leaps.day_len(day);
        for sec in (c / 5) as u32 * 1000..((c / 5) as u32 * 1000 + 1000).min(len) {
            let a = M::ns(day, sec, 65535);
            let Some(da) = start(w, env, &a) else { return };
            for k in 0..17 {
                for s2 in [sec ^ (1 << k), sec.wrapping_add(1 << k), sec.wrapping_sub(1 << k)] {
                    if s2 < len {
                        cmp(w, env, &a, &da, &M { sec: s2, ..a });
                    }
                }
            }
            w.traces += 1;
        }
    });
    let nsb = ns_bits();
    par_env(e, "nanosecond bit pairs", &l, nsb.len() as u64 * 5, |w, env, c| {
        let day = base_days[(c % 5) as usize];
        let x = nsb[(c / 5) as usize];
        for sec in [0, 65535, 65536, 86399] {
            let a = M::ns(day, sec, x);
            let Some(da) = start(w, env, &a) else { return };
            for y in &nsb {
                for y in [*y, y ^ x, y.wrapping_add(x), x ^ 0x2aaa_aaaa, x ^ 0x1555_5555] {
                    if y < 1_000_000_000 {
                        cmp(w, env, &a, &da, &M { ns: y, ..a });
                    }
                }
            }
            w.traces += 1;
        }
    });
    // Every precision with a fraction: values of that precision whose storage differs in few, low or high, bits.
    let mut subs: Vec<M> = vec![];
    for (prec, unit) in [(P_MS, 1_000_000u32), (P_US, 1000), (P_NS, 1)] {
        let top = 1_000_000_000 / unit;
        for base in [0u32, 1, 513, top - 1] {
            for k in 0..30 {
                for x in [base ^ (1 << k), base + (1 << k), base.wrapping_sub(1 << k), (1u32 << k) - 1] {
                    if x < top {
                        subs.push(M { day: leap_day, sec: 86_400, ns: x * unit, prec });
                    }
                }
            }
        }
    }
    subs.sort();
    subs.dedup();
    par_env(e, "fractions of every precision, pairwise", &l, subs.len() as u64, |w, env, c| {
        let a = subs[c as usize];
        let Some(da) = start(w, env, &a) else { return };
        for b in &subs {
            cmp(w, env, &a, &da, b);
        }
        w.traces += 1;
    });
    // Nanosecond sweep: each value against its neighbours in the low and the high half-word.
    let step = e.pick(97u32, 1);
    par_env(e, "nanosecond sweep", &l, 1000, |w, env, c| {
        let lo = c as u32 * 1_000_000;
        let mut ns = lo + (lo % step);
        while ns < lo + 1_000_000 {
            let a = M::ns(leap_day, 86400, ns);
            w.states += 1;
            match build(env, &a) {
                Ok(da) => {
                    for y in [ns, ns.wrapping_add(1), ns.wrapping_add(65536), ns.wrapping_sub(1 << 24)] {
                        if y < 1_000_000_000 {
                            cmp(w, env, &a, &da, &M { ns: y, ..a });
                        }
                    }
                }
                Err(x) => w.fail(format!("build {}", a.show()), "accepted", x),
            }
            ns += step;
        }
        w.traces += 1;
    });
    if e.thorough() {
        par_env(e, "all pairs of seconds of a leap day", &l, 87, |w, env, c| {
            let len = env.leaps.day_len(leap_day);
            let all: Vec<DateTime> = (0..len).map(|s| build(env, &M::ns(leap_day, s, 65536)).expect("build")).collect();
            for i in (c as usize * 1000)..((c as usize + 1) * 1000).min(len as usize) {
                w.states += 1;
                for j in 0..len as usize {
                    w.transitions += 1;
                    if (all[i] == all[j]) != (i == j) {
                        w.fail(format!("second {} == second {}", i, j), format!("{}", i == j), "the opposite");
                    }
                }
                w.traces += 1;
            }
        });
    }
    // Chronology is part of the identity as far as it can be observed: the same one compares equal, clones included.
    par_env(e, "chronology clones", &l, 1, |w, env, _| {
        let e2 = Env { leaps: env.leaps.clone(), chron: env.chron.clone(), shadow: None };
        for m in &all {
            w.transitions += 1;
            if build(env, m).ok() != build(&e2, m).ok() {
                w.fail(format!("{} on a chronology and on its clone", m.show()), "equal", "not equal");
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
fn key_ops(day: i32) -> Vec<Op> {
    let (y, mo, _) = cal().date(day);
    let up = 9999 - y;
    let k = y * 12 + mo as i32 - 1;
    let mut v = vec![];
    for n in [0i32, 1, -1, 3, 4, -4, 100, -100, 400, -400, up, up + 1, -y, -y - 1] {
        v.push(Op::Years(n as i16));
    }
    for n in [0, 1, -1, 2, 6, 11, 12, -12, 13, 1200, -4800, 9999 * 12 + 11 - k, 9999 * 12 + 12 - k, -k, -k - 1] {
        v.push(Op::Months(n));
    }
    for n in [0, 1, -1, 28, 31, -31, 365, -366, 1461, -36524, 146097, -146097, MAX_DAY - day, MAX_DAY - day + 1, MIN_DAY - day, MIN_DAY - day - 1] {
        v.push(Op::Days(n));
    }
    for n in [0, 1, -1, 23, 24, -24, 25, 8760, -350_640] {
        v.push(Op::Hours(n));
    }
    for n in [0i64, 1, -1, 59, 60, -60, 1439, 1440, -1440, 525_600, -5_259_487] {
        v.push(Op::Minutes(n));
    }
    for n in [0i64, 1, -1, 59, 60, -60, 86_399, 86_400, -86_400, 86_401, 1_000_000_000, -2_000_000_000, 100_000_000_000] {
        v.push(Op::Seconds(n));
    }
    v
}

fn inverse(op: Op) -> Option<Op> {
    Some(match op {
        Op::Years(n) => Op::Years(n.checked_neg()?),
        Op::Months(n) => Op::Months(n.checked_neg()?),
        Op::Days(n) => Op::Days(n.checked_neg()?),
        Op::Hours(n) => Op::Hours(n.checked_neg()?),
        Op::Minutes(n) => Op::Minutes(n.checked_neg()?),
        Op::Seconds(n) => Op::Seconds(n.checked_neg()?),
    })
}

fn got_dt(g: Got) -> DateTime {
    match g {
        Got::Plain(d) => d,
        Got::Carry(c) => c.drop_carry(),
    }
}

fn c04(e: &Engine) {
    e.rule("start states with every sub-second storage bit, every precision and two chronologies, times every operation with key amounts; the result must equal a freshly built date-time with the same sub-second part, precision and chronology, or return exactly to the start; zero added to every day");
    let l = iers();
    let l2 = odd_table();
    let nsb = ns_bits();
    for l in [&l, &l2] {
        let days: Vec<i32> = {
            let s = special_days(l);
            let k = e.pick(5, 1);
            s.iter().enumerate().filter(|(i, d)| i % k == 0 || l.ends.iter().any(|x| x.0 - 1 == **d)).map(|x| *x.1).collect()
        };
        par_env(e, &format!("sub-second kept, table {}", l.name), l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            let ops = key_ops(day);
            let last = env.leaps.day_len(day) - 1;
            for sec in [0, 65536, last] {
                for &ns in &nsb {
                    for prec in [P_MS, P_US, P_NS] {
                        let m = M { day, sec, ns, prec };
                        if !valid_for_prec(&m) {
                            continue;
                        }
                        let Some(dt) = start(w, env, &m) else { return };
                        for op in &ops {
                            w.traces += 1;
                            if let Some((_, _, Got::Carry(r))) = check_op(w, env, &m, &dt, *op) {
                                if r.has_carry() {
                                    check_carry(w, env, &m, *op, &r);
                                }
                            }
                        }
                        w.sample(|| format!("{} with {} operations", m.show(), ops.len()));
                    }
                }
            }
        });
        // Other precisions. The result can only be built afresh when its finer fields are zero; otherwise
        // the way back must lead to the start.
        let days = special_days(l);
        par_env(e, &format!("precision kept, table {}", l.name), l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            let (y, mo, _) = cal().date(day);
            for prec in 0..=P_NS {
                for sec in [0, 3600, 43260] {
                    let d0 = match prec {
                        P_YEAR => cal().day(y, 1, 1),
                        P_MONTH => cal().day(y, mo, 1),
                        _ => day,
                    };
                    let m = M { day: d0, sec, ns: 0, prec };
                    if !valid_for_prec(&m) {
                        continue;
                    }
                    let Some(dt) = start(w, env, &m) else { return };
                    for op in key_ops(d0) {
                        w.traces += 1;
                        let Some((m2, carry, g)) = check_op(w, env, &m, &dt, op) else { continue };
                        let d2 = got_dt(g);
                        // Same components at any other precision must differ.
                        for p2 in 0..=P_NS {
                            let other = M { prec: p2, ..m2 };
                            if p2 != prec && valid_for_prec(&other) {
                                w.transitions += 1;
                                if build(env, &other).ok().as_ref() == Some(&d2) {
                                    w.fail(case(env, &m, &op_call(op)), "precision unchanged", format!("equal to {}", other.show()));
                                }
                            }
                        }
                        let back = inverse(op).and_then(|b| Some((b, m2.step(&env.leaps, b)?)));
                        if let Some((b, (m3, _))) = back {
                            if carry == Carry::default() && m3 == m {
                                if let Some((_, _, g3)) = check_op(w, env, &m2, &d2, b) {
                                    let d3 = got_dt(g3);
                                    if d3 != dt {
                                        w.fail(case(env, &m, &format!("{} then {}", op_call(op), op_call(b))), "equal to the start", show(&d3));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        });
        par_env(e, &format!("zero added to every day, table {}", l.name), l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                let last = env.leaps.day_len(day) - 1;
                for m in [M::ns(day, 0, 999_999_999), M::ns(day, last, 65536), M::new(day, 65536)] {
                    let Some(dt) = start(w, env, &m) else { return };
                    for op in [Op::Years(0), Op::Months(0), Op::Days(0), Op::Hours(0), Op::Minutes(0), Op::Seconds(0)] {
                        w.transitions += 1;
                        w.traces += 1;
                        let ok = match run(&dt, op) {
                            Ok(Some(Got::Carry(r))) => !r.has_carry() && r.days_carry() == 0 && r.seconds_carry() == 0 && r.drop_carry() == dt,
                            Ok(Some(Got::Plain(d))) => d == dt,
                            _ => false,
                        };
                        if !ok {
                            w.fail(case(env, &m, &op_call(op)), "the same date-time, no carry", "something else");
                        }
                    }
                }
            }
        });
    }
    // Chronology: results of arithmetic belong to the chronology of the operand and to no other.
    let d = with_table("t", &l);
    let days = special_days(&l);
    e.par("chronology kept", days.len() as u64, || (Env::load(&l), Env::load(&l)), |w, (e1, e2), c| {
        let day = days[c as usize];
        for sec in [0, e1.leaps.day_len(day) - 1] {
            let m = M::ns(day, sec, 7);
            let (Some(a), Some(b)) = (start(w, e1, &m), start(w, e2, &m)) else { return };
            for op in key_ops(day) {
                w.traces += 1;
                let (x, y) = (check_op(w, e1, &m, &a, op), check_op(w, e2, &m, &b, op));
                if let (Some((_, _, x)), Some((_, _, y))) = (x, y) {
                    let (x, y) = (got_dt(x), got_dt(y));
                    if (a == b) != (x == y) {
                        w.fail(case(e1, &m, &op_call(op)), "results relate like their operands, which differ in chronology only", "they do not");
                    }
                }
            }
        }
    });
    drop(d);
}

// ---------------------------------------------------------------------------------------------
/// Second classes used for the all-days sweeps.
fn three_secs(env: &Env, day: i32) -> [u32; 3] {
    [0, (day as u32) % 86340, env.leaps.day_len(day) - 1]
}

fn c05(e: &Engine) {
    e.rule("every calendar day times key year amounts (single, quadrennium, century, cycle, to and one past both range ends, extremes); special days times every i16; thorough: every year times every i16 for the key days of the year; far and aliasing amounts (a + k*u*2^w for every unit u of the decomposition and width w); every year and month at that precision, days at day, hour and minute precision, special days at every precision with finer fields set, every amount from a few states of every precision; after every other operation on moments alike and after other data was dropped");
    for l in [iers(), odd_table()] {
        par_env(e, &format!("every day, table {}", l.name), &l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                let (y, _, _) = cal().date(day);
                for sec in three_secs(env, day) {
                    let m = M::new(day, sec);
                    let Some(dt) = start(w, env, &m) else { return };
                    for n in [1, -1, 2, 3, -3, 4, -4, 5, 96, 100, -100, 104, -296, 400, -400, 1000, 9999 - y, 10000 - y, -y, -y - 1, 32767, -32768] {
                        w.traces += 1;
                        check_op(w, env, &m, &dt, Op::Years(n as i16));
                    }
                }
            }
        });
        let days = special_days(&l);
        par_env(e, &format!("special days, every amount, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            for m in [M::new(day, env.leaps.day_len(day) - 1), M::ns(day, 0, 1)] {
                let Some(dt) = start(w, env, &m) else { return };
                for n in i16::MIN..=i16::MAX {
                    w.traces += 1;
                    check_op(w, env, &m, &dt, Op::Years(n));
                }
                w.sample(|| format!("{} plus every i16 of years", m.show()));
            }
        });
    }
    if e.thorough() {
        let l = iers();
        par_env(e, "every year, every amount", &l, 10000, |w, env, c| {
            let y = c as i32;
            for (mo, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31)] {
                if !cal().valid(y as i64, mo, d) {
                    continue;
                }
                let m = M::new(cal().day(y, mo, d), 65536);
                let Some(dt) = start(w, env, &m) else { return };
                for n in -10100..=10100i16 {
                    w.traces += 1;
                    check_op(w, env, &m, &dt, Op::Years(n));
                }
            }
        });
    }
    far_amounts(e, Unit::Years);
    precisions(e, Unit::Years);
    crate::p_hist::one_after_another(e, &[Some(Op::Years(1)), Some(Op::Years(-1)), Some(Op::Years(400))]);
    over_tables(e, |w, env| unit_pairs(w, env, Unit::Years));
}

fn c06(e: &Engine) {
    e.rule("every calendar day times key month amounts; special days times every amount from one whole range below to one whole range above; extremes of i32; thorough: every pair of months for the last day of the month; far and aliasing amounts (a + k*u*2^w for every unit u of the decomposition and width w); every year and month at that precision, days at day, hour and minute precision, special days at every precision with finer fields set, every amount from a few states of every precision; after every other operation on moments alike and after other data was dropped");
    for l in [iers(), odd_table()] {
        par_env(e, &format!("every day, table {}", l.name), &l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                let (y, mo, _) = cal().date(day);
                let k = y * 12 + mo as i32 - 1;
                let top = 9999 * 12 + 11;
                for sec in three_secs(env, day) {
                    let m = M::new(day, sec);
                    let Some(dt) = start(w, env, &m) else { return };
                    for n in [1, -1, 2, -2, 3, 5, 6, -7, 11, -11, 12, -12, 13, 24, 48, -48, 1200, -1200, 4800, -4800, top - k, top - k + 1, -k, -k - 1, i32::MAX, i32::MIN] {
                        w.traces += 1;
                        check_op(w, env, &m, &dt, Op::Months(n));
                    }
                }
            }
        });
        let days = special_days(&l);
        let pick = e.pick(5, 1);
        let days: Vec<i32> = days.iter().enumerate().filter(|(i, _)| i % pick == 0).map(|x| *x.1).collect();
        par_env(e, &format!("special days, every amount, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            let m = M::new(day, env.leaps.day_len(day) - 1);
            let Some(dt) = start(w, env, &m) else { return };
            for n in -120_100..=120_100 {
                w.traces += 1;
                check_op(w, env, &m, &dt, Op::Months(n));
            }
            w.sample(|| format!("{} plus -120100..=120100 months", m.show()));
        });
    }
    // Every day of a 4-year and of a century-end stretch times every amount within some years.
    let l = iers();
    par_env(e, "dense stretches", &l, 8 * 366, |w, env, c| {
        let base = [cal().day(1896, 1, 1), cal().day(2000, 1, 1)][(c % 2) as usize] + (c / 2) as i32;
        let m = M::new(base, 1);
        let Some(dt) = start(w, env, &m) else { return };
        for n in -1300..=1300 {
            w.traces += 1;
            check_op(w, env, &m, &dt, Op::Months(n));
        }
    });
    if e.thorough() {
        par_env(e, "every pair of months", &l, 10000, |w, env, c| {
            for mo in 1..=12 {
                let m = M::new(cal().day(c as i32, mo, mlen(c as i32, mo)), 65536);
                let Some(dt) = start(w, env, &m) else { return };
                let k = c as i32 * 12 + mo as i32 - 1;
                let mut n = -k - 2;
                while n <= 120_001 - k {
                    check_op(w, env, &m, &dt, Op::Months(n));
                    w.traces += 1;
                    n += 5; // 5 is coprime to 12 and to the cycles: every source meets every target month and every year class
                }
            }
        });
    }
    far_amounts(e, Unit::Months);
    precisions(e, Unit::Months);
    crate::p_hist::one_after_another(e, &[Some(Op::Months(1)), Some(Op::Months(-1)), Some(Op::Months(12))]);
    over_tables(e, |w, env| unit_pairs(w, env, Unit::Months));
}

fn c07(e: &Engine) {
    e.rule("every calendar day times key day amounts, there and back; special days times every calendar day as target and beyond both ends; extremes of i32; far and aliasing amounts (a + k*u*2^w for every unit u of the decomposition and width w); every year and month at that precision, days at day, hour and minute precision, special days at every precision with finer fields set, every amount from a few states of every precision; after every other operation on moments alike and after other data was dropped");
    for l in [iers(), odd_table()] {
        par_env(e, &format!("every day, table {}", l.name), &l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                for sec in three_secs(env, day) {
                    let m = M::new(day, sec);
                    let Some(dt) = start(w, env, &m) else { return };
                    for n in [
                        1, -1, 2, -2, 27, 28, 29, 30, 31, -28, -29, -30, -31, 59, 60, 305, 306, -306, 364, 365, 366, -364, -365, -366, 1460, 1461, -1461, 36524,
                        36525, -36524, -36525, 146_096, 146_097, -146_097, -146_098, 292_194, -292_194, 2_045_358, -2_045_358, 73_048, -73_049, 1_000_000, MAX_DAY - day, MAX_DAY - day + 1, MIN_DAY - day,
                        MIN_DAY - day - 1, i32::MAX, i32::MIN,
                    ] {
                        w.traces += 1;
                        if let Some((m2, carry, g)) = check_op(w, env, &m, &dt, Op::Days(n)) {
                            // There and back again.
                            if carry == Carry::default() {
                                let d2 = got_dt(g);
                                w.transitions += 1;
                                match run(&d2, Op::Days(-n)) {
                                    Ok(Some(Got::Carry(r))) if r.seconds_carry() == 0 && r.clone().drop_carry() == dt => {}
                                    _ => w.fail(case(env, &m, &format!("add_days({}) reaches {}, then add_days({})", n, m2.show(), -n)), "back at the start", "not back"),
                                }
                            }
                        }
                    }
                }
            }
        });
        let s = special_days(&l);
        let k = e.pick(24, 2);
        let days: Vec<i32> = s.iter().enumerate().filter(|(i, d)| i % k == 0 || **d == MAX_DAY).map(|x| *x.1).collect();
        let per = 16;
        par_env(e, &format!("special days, every target, table {}", l.name), &l, days.len() as u64 * per, |w, env, c| {
            let day = days[(c / per) as usize];
            let m = M::new(day, env.leaps.day_len(day) - 1);
            let Some(dt) = start(w, env, &m) else { return };
            let span = (DAYS as u64).div_ceil(per) as i32 + 1;
            let lo = MIN_DAY - 5 + (c % per) as i32 * span;
            for t in lo..(lo + span).min(MAX_DAY + 500) {
                w.traces += 1;
                check_op(w, env, &m, &dt, Op::Days(t - day));
            }
            w.sample(|| format!("{} to every day {}..+{}", m.show(), lo, span));
        });
    }
    far_amounts(e, Unit::Days);
    precisions(e, Unit::Days);
    crate::p_hist::one_after_another(e, &[Some(Op::Days(1)), Some(Op::Days(-1)), Some(Op::Days(146_097))]);
    over_tables(e, |w, env| unit_pairs(w, env, Unit::Days));
}

fn c08(e: &Engine) {
    e.rule("every calendar day, several minutes and seconds, times key minute and hour amounts incl. to and past both range ends; special days times every amount in +-3000 minutes and every day multiple; hours compared with 60-fold minutes; far and aliasing amounts (a + k*u*2^w for every unit u of the decomposition and width w); every year and month at that precision, days at day, hour and minute precision, special days at every precision with finer fields set, every amount from a few states of every precision; after every other operation on moments alike and after other data was dropped");
    for l in [iers(), odd_table()] {
        par_env(e, &format!("every day, table {}", l.name), &l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                let len = env.leaps.day_len(day);
                for (i, sec) in [0, 59, 43_230, 86_339, len - 1].into_iter().enumerate() {
                    let m = M::new(day, sec);
                    let Some(dt) = start(w, env, &m) else { return };
                    let minute = (sec / 60).min(1439) as i64;
                    let up = (MAX_DAY - day) as i64 * 1440 + 1439 - minute;
                    let down = (MIN_DAY - day) as i64 * 1440 - minute;
                    for n in [1, -1, 59, 60, -61, 1439, 1440, -1440, -1441, 1441, 44_640, 525_600, -2_103_840, up, up + 1, down, down - 1] {
                        w.traces += 1;
                        check_op(w, env, &m, &dt, Op::Minutes(n));
                    }
                    if i % 2 == 0 {
                        for n in [1, -1, 23, 24, -24, -25, 8760, (up / 60) as i32, (up / 60 + 1) as i32, (down / 60) as i32, (down / 60 - 1) as i32] {
                            w.traces += 1;
                            check_op(w, env, &m, &dt, Op::Hours(n));
                        }
                    }
                }
            }
        });
        let days = special_days(&l);
        let span = e.pick(3000, 12_000);
        par_env(e, &format!("special days, near amounts, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            for sec in sec_classes(env, day) {
                let m = M::new(day, sec);
                let Some(dt) = start(w, env, &m) else { return };
                let t = if sec == 0 || sec >= 86_398 { span } else { 200 };
                for n in -t..=t {
                    w.traces += 1;
                    check_op(w, env, &m, &dt, Op::Minutes(n));
                }
                for n in -100..=100 {
                    w.traces += 1;
                    let a = check_op(w, env, &m, &dt, Op::Hours(n));
                    let b = check_op(w, env, &m, &dt, Op::Minutes(n as i64 * 60));
                    if let (Some((_, _, a)), Some((_, _, b))) = (a, b) {
                        if got_dt(a) != got_dt(b) {
                            w.fail(case(env, &m, &format!("add_hours({}) == add_minutes({})", n, n * 60)), "equal", "not equal");
                        }
                    }
                }
                w.sample(|| format!("{} plus +-{} minutes", m.show(), t));
            }
        });
        let s = special_days(&l);
        let k = e.pick(24, 4);
        let days: Vec<i32> = s.iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| *x.1).collect();
        par_env(e, &format!("special days, every day multiple, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            let m = M::new(day, env.leaps.day_len(day) - 1);
            let Some(dt) = start(w, env, &m) else { return };
            let mut t = MIN_DAY - 2;
            while t <= MAX_DAY + 2 {
                w.traces += 1;
                let n = (t - day) as i64 * 1440;
                check_op(w, env, &m, &dt, Op::Minutes(n));
                check_op(w, env, &m, &dt, Op::Hours((t - day) * 24));
                check_op(w, env, &m, &dt, Op::Minutes(n - 1 - (t & 1023) as i64));
                t += 1 + (t & 3);
            }
        });
    }
    far_amounts(e, Unit::Clock);
    precisions(e, Unit::Clock);
    crate::p_hist::one_after_another(e, &[Some(Op::Minutes(1440)), Some(Op::Minutes(-1)), Some(Op::Hours(24))]);
    over_tables(e, |w, env| unit_pairs(w, env, Unit::Clock));
}

fn c09(e: &Engine) {
    e.rule("every day times key second amounts; all pairs of special points; every second walked around every adjustment in both directions; composition over triples of amounts; range ends exactly; far and aliasing amounts (a + k*u*2^w for every unit u of the decomposition and width w); every year and month at that precision, days at day, hour and minute precision, special days at every precision with finer fields set, every amount from a few states of every precision; after every other operation on moments alike and after other data was dropped");
    let lo_hi = |l: &Leaps| (l.at(MIN_DAY, 0), l.at(MAX_DAY, l.day_len(MAX_DAY) - 1));
    for l in [iers(), odd_table(), Leaps::new("[+1,-2,-3,+4]", vec![(1, 1), (2, -1), (3, -1), (4, 1)])] {
        let (lo, hi) = lo_hi(&l);
        par_env(e, &format!("every day, table {}", l.name), &l, day_chunks(), |w, env, c| {
            for day in chunk_days(c) {
                let len = env.leaps.day_len(day);
                for sec in [0, len - 1] {
                    let m = M::new(day, sec);
                    let Some(dt) = start(w, env, &m) else { return };
                    let t = env.leaps.at(day, sec);
                    for n in [
                        1, -1, 60, 86_399, 86_400, 86_401, -86_399, -86_400, -86_401, -t, -t - 1, 1_483_228_826 - t, 1_483_228_827 - t, hi - t, hi - t + 1,
                        lo - t, lo - t - 1,
                    ] {
                        w.traces += 1;
                        check_op(w, env, &m, &dt, Op::Seconds(n));
                    }
                }
            }
        });
        let days = special_days(&l);
        let mut pts: Vec<(i32, u32)> = vec![];
        for &d in &days {
            let len = l.day_len(d);
            let near = l.ends.iter().any(|x| (x.0 - d).abs() <= 2);
            if near || e.thorough() {
                pts.extend([(d, 0), (d, 1), (d, 43_200), (d, len - 3), (d, len - 2), (d, len - 1)]);
            } else {
                pts.extend([(d, 0), (d, len - 1)]);
            }
        }
        par_env(e, &format!("special points pairwise, table {}", l.name), &l, pts.len() as u64, |w, env, c| {
            let p = pts[c as usize];
            let m = M::ns(p.0, p.1, 5);
            let Some(dt) = start(w, env, &m) else { return };
            let t = env.leaps.at(p.0, p.1);
            for q in &pts {
                w.traces += 1;
                let n = env.leaps.at(q.0, q.1) - t;
                if let Some((m2, _, Got::Plain(r))) = check_op(w, env, &m, &dt, Op::Seconds(n)) {
                    if (m2.day, m2.sec) != *q {
                        panic!("model is not a bijection");
                    }
                    w.transitions += 1;
                    match run(&r, Op::Seconds(-n)) {
                        Ok(Some(Got::Plain(b))) if b == dt => {}
                        _ => w.fail(case(env, &m, &format!("add_seconds({}) then add_seconds({})", n, -n)), "back at the start", "not back"),
                    }
                }
            }
            w.sample(|| format!("{} to {} other points and back", m.show(), pts.len()));
        });
        // Walk second by second, using actual results only.
        let ends = l.ends.clone();
        par_env(e, &format!("second by second walk, table {}", l.name), &l, ends.len() as u64 * 2, |w, env, c| {
            let end = ends[(c / 2) as usize].0;
            let (from, to, step) = if c % 2 == 0 { (end - 2, end + 1, 1i64) } else { (end + 1, end - 2, -1) };
            walk(w, env, from, to, step);
        });
        // Composition a then b equals a + b, on actual results.
        let days: Vec<i32> = l.ends.iter().flat_map(|x| [x.0 - 1, x.0]).chain([MIN_DAY, -1, 0, MAX_DAY]).collect();
        par_env(e, &format!("composition, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            let amounts: Vec<i64> =
                vec![0, 1, -1, 2, -2, 59, -60, 86_398, 86_399, 86_400, 86_401, -86_399, -86_400, -86_401, 2_678_400, -31_536_001, 1_000_000_000, -1_000_000_000];
            for sec in [0, 1, 86_397, env.leaps.day_len(day) - 1] {
                let m = M::new(day, sec);
                let Some(dt) = start(w, env, &m) else { return };
                for &a in &amounts {
                    let Some((m1, _, Got::Plain(d1))) = check_op(w, env, &m, &dt, Op::Seconds(a)) else { continue };
                    for &b in &amounts {
                        w.traces += 1;
                        if let Some((_, _, Got::Plain(d2))) = check_op(w, env, &m1, &d1, Op::Seconds(b)) {
                            w.transitions += 1;
                            match run(&dt, Op::Seconds(a + b)) {
                                Ok(Some(Got::Plain(r))) if r == d2 => {}
                                _ => w.fail(case(env, &m, &format!("add_seconds({}) then ({}) == add_seconds({})", a, b, a + b)), "equal", "not equal"),
                            }
                        }
                    }
                }
            }
        });
    }
    if e.thorough() {
        let l = iers();
        par_env(e, "second by second 1969-2018", &l, 18_000, |w, env, c| {
            let d = -366 + c as i32;
            walk(w, env, d, d + 1, 1);
            walk(w, env, d + 1, d, -1);
        });
    }
    far_amounts(e, Unit::Seconds);
    precisions(e, Unit::Seconds);
    crate::p_hist::one_after_another(e, &[Some(Op::Seconds(1)), Some(Op::Seconds(-1)), Some(Op::Seconds(86_400))]);
    over_tables(e, |w, env| {
        unit_pairs(w, env, Unit::Seconds);
        second_walks(w, env);
    });
}

fn walk(w: &mut W, env: &Env, from: i32, to: i32, step: i64) {
    let mut m = M::new(from, 0);
    let Some(mut dt) = start(w, env, &m) else { return };
    let end = M::new(to, 0);
    while m != end {
        // The successor by definition: next second of the same day, else first of the next day.
        let next = if step > 0 {
            if m.sec + 1 < env.leaps.day_len(m.day) { M { sec: m.sec + 1, ..m } } else { M { day: m.day + 1, sec: 0, ..m } }
        } else if m.sec > 0 {
            M { sec: m.sec - 1, ..m }
        } else {
            M { day: m.day - 1, sec: env.leaps.day_len(m.day - 1) - 1, ..m }
        };
        w.transitions += 1;
        w.states += 1;
        match run(&dt, Op::Seconds(step)) {
            Ok(Some(Got::Plain(d))) if matches(env, &d, &next) => dt = d,
            Ok(Some(Got::Plain(d))) => return w.fail(case(env, &m, &format!("add_seconds({})", step)), next.show(), show(&d)),
            Ok(_) => return w.fail(case(env, &m, &format!("add_seconds({})", step)), next.show(), "refused"),
            Err(p) => return w.fail(case(env, &m, &format!("add_seconds({})", step)), next.show(), p),
        }
        m = next;
    }
    w.traces += 1;
    w.sample(|| format!("walked day {} to {} by {} s", from, to, step));
}

// ---------------------------------------------------------------------------------------------
/// Everything a date-time with carry offers, against the model.
pub fn check_carry(w: &mut W, env: &Env, m: &M, op: Op, r: &momentous::iso8601::DateTimeWithCarry) -> Option<(M, DateTime)> {
    let Some((em, ec)) = m.step(&env.leaps, op) else { return None };
    let has = ec != Carry::default();
    w.transitions += 1;
    if let Some(sh) = &env.shadow {
        if let Ok(other) = build(sh, m) {
            if let Ok(Some(Got::Carry(r))) = run(&other, op) {
                let _ = guard(|| r.checked_apply_carry());
            }
        }
    }
    let what = |s: &str| case(env, m, &format!("{}.{}", op_call(op), s));
    if r.has_carry() != has {
        w.fail(what("has_carry()"), format!("{}", has), format!("{}", r.has_carry()));
    }
    match guard(|| r.clone().unwrap()) {
        Ok(d) if !has && matches(env, &d, &em) => {}
        Err(()) if has => w.hit("unwrap refused"),
        Ok(d) => w.fail(what("unwrap()"), if has { "panic".into() } else { em.show() }, show(&d)),
        Err(()) => w.fail(what("unwrap()"), em.show(), last_panic()),
    }
    let d = r.clone().drop_carry();
    if !matches(env, &d, &em) {
        w.fail(what("drop_carry()"), em.show(), show(&d));
    }
    let exp = em.apply_carry(&env.leaps, ec);
    let a = guard(|| r.checked_apply_carry());
    let b = guard(|| r.apply_carry());
    match (&exp, a, b) {
        (Some(x), Ok(Some(a)), Ok(b)) => {
            if !matches(env, &a, x) || a != b {
                w.fail_snip(what("checked_apply_carry()"), x.show(), format!("{} / apply_carry {}", show(&a), show(&b)), snippet(m, &op_call(op), "see expected"));
                return None;
            }
            w.hit("carry applied");
            Some((*x, a))
        }
        (None, Ok(None), Err(())) => None,
        (_, a, b) => {
            w.fail(
                what("checked_apply_carry() / apply_carry()"),
                exp.map(|x| x.show()).unwrap_or("out of range / panic".into()),
                format!(
                    "{} / {}",
                    match &a {
                        Ok(Some(d)) => show(d),
                        Ok(None) => "None".into(),
                        Err(()) => "panic".into(),
                    },
                    match &b {
                        Ok(d) => show(d),
                        Err(()) => "panic".into(),
                    }
                ),
            );
            None
        }
    }
}

fn op_carry(w: &mut W, env: &Env, m: &M, dt: &DateTime, op: Op) {
    w.traces += 1;
    if let Some((_, _, Got::Carry(r))) = check_op(w, env, m, dt, op) {
        check_carry(w, env, m, op, &r);
    }
}

fn c10(e: &Engine) {
    e.rule("sources at the last seconds of days of every length times every operation landing on every day of 1968-2040 (days), every month of 1960-2040 (months), every year (years), and every minute around every adjustment (minutes); has/drop/unwrap/apply/checked apply compared for every result; after every other operation on moments alike and after other data was dropped");
    let mut tabs = vec![iers(), odd_table()];
    tabs.extend(tables(e.pick(2, 3), &[1, 2, 31, 59]));
    // adjustments on Feb 29 with year/month targets
    for l in &tabs {
        let mut src: Vec<(i32, u32)> = vec![];
        let firsts: Vec<i32> = if l.ends.len() > 6 && !e.thorough() { l.ends.iter().step_by(if l.name == "odd" { 1 } else { 4 }).map(|x| x.0).collect() } else { l.ends.iter().map(|x| x.0).collect() };
        for end in firsts {
            for d in [end - 2, end - 1, end, end + 1] {
                let len = l.day_len(d);
                src.extend([(d, len - 1), (d, len - 2), (d, 86_339), (d, 0)]);
            }
        }
        let c = cal();
        for (y, mo, d) in [(1969, 12, 31), (1970, 5, 31), (1972, 2, 29), (1976, 2, 29), (2000, 2, 29), (1896, 2, 29), (9996, 2, 29), (0, 2, 29), (2017, 1, 31)] {
            let day = c.day(y, mo, d);
            src.extend([(day, l.day_len(day) - 1), (day, 86_398)]);
        }
        src.sort();
        src.dedup();
        src.retain(|p| p.1 < l.day_len(p.0));
        let small = l.ends.len() <= 3;
        let last = l.ends.last().unwrap().0;
        par_env(e, &format!("carry sources, table {}", l.name), l, src.len() as u64, |w, env, k| {
            let p = src[k as usize];
            let m = M::ns(p.0, p.1, 65536);
            let Some(dt) = start(w, env, &m) else { return };
            // days
            let (a, b) = if small { (-3, last + 3) } else { (c.day(1968, 1, 1), c.day(2040, 1, 1)) };
            for t in a..b {
                op_carry(w, env, &m, &dt, Op::Days(t - p.0));
            }
            // months, years
            let (y, mo, _) = c.date(p.0);
            let (ya, yb) = if small { (1968, 1974) } else { (1960, 2041) };
            for t in ya * 12..yb * 12 {
                op_carry(w, env, &m, &dt, Op::Months(t - (y * 12 + mo as i32 - 1)));
            }
            let (ya, yb) = if small { (1966, 1976) } else { (0, 10000) };
            for t in ya..yb {
                op_carry(w, env, &m, &dt, Op::Years((t - y) as i16));
            }
            // minutes and hours: land on the last minutes of days around adjustments
            for (end, _) in &env.leaps.ends {
                for td in [end - 2, end - 1, *end] {
                    for tm in [0, 1, 1437, 1438, 1439] {
                        let n = (td - p.0) as i64 * 1440 + tm as i64 - (p.1 / 60).min(1439) as i64;
                        op_carry(w, env, &m, &dt, Op::Minutes(n));
                    }
                    op_carry(w, env, &m, &dt, Op::Hours((td - p.0) * 24));
                    op_carry(w, env, &m, &dt, Op::Hours((td - p.0) * 24 + 23 - (p.1 / 3600).min(23) as i32));
                }
            }
            for n in -130..=130 {
                op_carry(w, env, &m, &dt, Op::Minutes(n));
                op_carry(w, env, &m, &dt, Op::Hours(n as i32));
            }
            w.sample(|| format!("{} with every landing", m.show()));
        });
    }
    // The month-end carry of every day of a leap and of a common year in every calendar cycle position.
    let l = iers();
    par_env(e, "month-end carries", &l, 400, |w, env, k| {
        let y = 1600 + k as i32;
        for mo in 1..=12 {
            for d in 28..=mlen(y, mo) {
                let m = M::new(cal().day(y, mo, d), 43_200);
                let Some(dt) = start(w, env, &m) else { return };
                for n in (-25..=25).chain([-4800, -1199, 1201, 4799]) {
                    op_carry(w, env, &m, &dt, Op::Months(n));
                }
                for n in [-401, -400, -100, -4, -1, 1, 3, 4, 100, 400, 401] {
                    op_carry(w, env, &m, &dt, Op::Years(n));
                }
            }
        }
    });
    for u in [Unit::Years, Unit::Months, Unit::Days, Unit::Clock] {
        precisions_of_carry(e, u);
    }
    crate::p_hist::one_after_another(e, &[Some(Op::Days(1)), Some(Op::Minutes(1440)), Some(Op::Months(1)), Some(Op::Years(1))]);
    over_tables(e, |w, env| {
        for u in [Unit::Years, Unit::Months, Unit::Days, Unit::Clock] {
            unit_pairs(w, env, u);
        }
    });
}

// ---------------------------------------------------------------------------------------------
fn c11(e: &Engine) {
    e.rule("breadth-first search over sequences of operations from sets of start states, continuing from the actual result (carry dropped and carry applied), de-duplicated by model state; every result compared in full, and re-reached states must be equal to the first one reached");
    let c = cal();
    let alphabet: Vec<Op> = vec![
        Op::Years(1), Op::Years(-1), Op::Years(4), Op::Years(-30),
        Op::Months(1), Op::Months(-1), Op::Months(6), Op::Months(-13),
        Op::Days(1), Op::Days(-1), Op::Days(30), Op::Days(-365), Op::Days(184),
        Op::Hours(1), Op::Hours(-1), Op::Hours(24),
        Op::Minutes(1), Op::Minutes(-1), Op::Minutes(1440), Op::Minutes(-1439),
        Op::Seconds(1), Op::Seconds(-1), Op::Seconds(2), Op::Seconds(60), Op::Seconds(86_400), Op::Seconds(-86_401),
    ];
    let mut tabs = vec![iers(), odd_table()];
    tabs.extend(tables(2, &[1, 31]));
    for l in &tabs {
        let mut starts: Vec<M> = vec![];
        let nl = l.ends.len();
        for (i, (end, _)) in l.ends.iter().enumerate() {
            if nl > 8 && l.name == "iers" && i % 4 != 2 && !e.thorough() {
                continue;
            }
            let d = end - 1;
            starts.push(M::new(d, l.day_len(d) - 1));
            starts.push(M::ns(d, 86_398.min(l.day_len(d) - 1), 999_999_999));
            starts.push(M::ns(d + 1, 0, 65_536));
        }
        for (y, mo, d) in [(0, 1, 1), (0, 2, 29), (9999, 12, 31), (9996, 2, 29), (1970, 1, 1), (1969, 12, 31), (2000, 2, 29), (2000, 3, 1), (1900, 2, 28), (1972, 1, 31)] {
            let day = c.day(y, mo, d);
            starts.push(M::new(day, l.day_len(day) - 1));
            starts.push(M { day, sec: 0, ns: 0, prec: P_DAY });
        }
        starts.push(M { day: 0, sec: 0, ns: 0, prec: P_YEAR });
        starts.push(M { day: c.day(1972, 6, 1), sec: 0, ns: 0, prec: P_MONTH });
        // Every precision, with all finer fields at their ends.
        for prec in 0..=P_NS {
            let d = l.ends[l.ends.len() / 2].0 - 1;
            starts.push(M { day: d, sec: l.day_len(d) - 1, ns: 0, prec });
            starts.push(floor(&M { day: c.day(1972, 2, 29), sec: 86_399, ns: 999_999_999, prec }));
        }
        starts.sort();
        starts.dedup();
        let depth = match (l.name.as_str(), e.thorough()) {
            ("iers", false) | ("odd", false) => 6,
            (_, false) => 5,
            ("iers", true) | ("odd", true) => 7,
            (_, true) => 6,
        };
        par_env(e, &format!("sequences to depth {}, table {}", depth, l.name), l, starts.len() as u64, |w, env, k| {
            let s = starts[k as usize];
            let n = bfs(w, env, s, &alphabet, depth);
            w.sample(|| format!("from {}: {} states within {} steps", s.show(), n, depth));
        });
    }
    over_tables(e, |w, env| sequences(w, env, e.pick(3, 4)));
}

// ---------------------------------------------------------------------------------------------
fn pow2_lattice(bits: u32) -> Vec<i128> {
    let mut v: Vec<i128> = vec![];
    for k in 0..bits {
        let p = 1i128 << k;
        for j in [-2, -1, 0, 1, 2] {
            v.push(p + j);
            v.push(-p + j);
        }
    }
    let top = 1i128 << (bits - 1);
    for j in 0..5 {
        v.push(top - 1 - j);
        v.push(-top + j);
    }
    v
}

fn clip(v: Vec<i128>, lo: i128, hi: i128) -> Vec<i128> {
    let mut v: Vec<i128> = v.into_iter().filter(|x| *x >= lo && *x <= hi).collect();
    v.sort();
    v.dedup();
    v
}

/// Amounts at which some intermediate quantity of any of the natural widths wraps or meets a boundary.
pub fn extreme_amounts(env: &Env, m: &M) -> Vec<Op> {
    let (y, mo, _) = cal().date(m.day);
    let mut ops = vec![];
    // years: all boundaries
    let mut v = pow2_lattice(16);
    for k in -10..=10i128 {
        for j in -3..=3 {
            v.push(k * 400 + j);
            v.push(k * 12800 + j);
            v.push(k * 3200 + j);
            v.push(9999 - y as i128 + j);
            v.push(-(y as i128) + j);
        }
    }
    for x in clip(v, i16::MIN as i128, i16::MAX as i128) {
        ops.push(Op::Years(x as i16));
    }
    // months
    let mut v = pow2_lattice(32);
    let k0 = y as i128 * 12 + mo as i128 - 1;
    for j in -3..=3i128 {
        v.push(-k0 + j);
        v.push(119_999 - k0 + j);
        for k in [-3i128, -2, -1, 1, 2, 3, 100, -100, 2730, -2730, 2731, -2731] {
            v.push(k * 786_432 + j); // 12 * 2^16
            v.push(k * 393_216 + j); // 12 * 2^15
            v.push(k * 307_200 + j); // 256 cycles of months... (2^8 * 100 * 12)
            v.push(k * 1_228_800 + j); // 256 cycles
            v.push(k * 120_000 + j);
        }
    }
    for x in clip(v, i32::MIN as i128, i32::MAX as i128) {
        ops.push(Op::Months(x as i32));
    }
    // days
    let mut v = pow2_lattice(32);
    for j in -3..=3i128 {
        v.push(MAX_DAY as i128 - m.day as i128 + j);
        v.push(MIN_DAY as i128 - m.day as i128 + j);
        for k in -60..=60i128 {
            v.push(k * 146_097 * 256 + j);
            v.push(k * 146_097 * 64 + j + 1000 * j);
        }
        for t in [-500, 0, 1_000_000] {
            v.push((1i128 << 31) - 1 - m.day as i128 + j + t);
            v.push(-(1i128 << 31) - m.day as i128 + j + t);
        }
    }
    let days = clip(v, i32::MIN as i128, i32::MAX as i128);
    for x in &days {
        ops.push(Op::Days(*x as i32));
    }
    // hours
    let mut v = pow2_lattice(32);
    for j in -3..=3i128 {
        v.push((MAX_DAY as i128 - m.day as i128) * 24 + 23 - (m.sec as i128 / 3600).min(23) + j);
        v.push((MIN_DAY as i128 - m.day as i128) * 24 - (m.sec as i128 / 3600).min(23) + j);
    }
    for x in clip(v, i32::MIN as i128, i32::MAX as i128) {
        ops.push(Op::Hours(x as i32));
    }
    // minutes: everything a day count of any width could wrap to
    let mut v = pow2_lattice(64);
    let minute = (m.sec as i128 / 60).min(1439);
    for j in -3..=3i128 {
        v.push((MAX_DAY as i128 - m.day as i128) * 1440 + 1439 - minute + j);
        v.push((MIN_DAY as i128 - m.day as i128) * 1440 - minute + j);
        v.push(i64::MAX as i128 - minute + j);
        for d in &days {
            v.push(d * 1440 + j);
        }
        for k in [-1_490_000i128, -1000, -3, -2, -1, 1, 2, 3, 1000, 1_490_000] {
            for t in [0, 1, -1, 365, 146_097] {
                v.push(((k << 32) + t) * 1440 + j);
                v.push((((k << 31) | 1) + t) * 1440 + j);
            }
        }
    }
    for x in clip(v, i64::MIN as i128, i64::MAX as i128) {
        ops.push(Op::Minutes(x as i64));
    }
    // seconds
    let mut v = pow2_lattice(64);
    let t = env.leaps.at(m.day, m.sec) as i128;
    for j in -3..=3i128 {
        v.push(env.leaps.at(MAX_DAY, 86_399) as i128 - t + j);
        v.push(env.leaps.at(MIN_DAY, 0) as i128 - t + j);
        v.push(-t + j);
        v.push(i64::MAX as i128 - t + j);
        v.push(i64::MIN as i128 - t + j);
        for k in [31, 32, 33, 47, 48, 62] {
            v.push((1i128 << k) - t + j);
            v.push(-(1i128 << k) - t + j);
            v.push((1i128 << k) * 86_400 - t + j);
            v.push(-(1i128 << k) * 86_400 - t + j);
            v.push((1i128 << k) * 86_400 + j);
            v.push(-(1i128 << k) * 86_400 + j);
        }
        for d in &days {
            v.push(d * 86_400 + j);
        }
        for (end, _) in &env.leaps.ends {
            v.push(env.leaps.at(*end, 0) as i128 - t + j);
        }
    }
    for x in clip(v, i64::MIN as i128, i64::MAX as i128) {
        ops.push(Op::Seconds(x as i64));
    }
    ops
}

/// Amounts that look like a small one to arithmetic that drops high bits somewhere: a + k * u * 2^w for every unit u the operation
/// could decompose its amount into and every width w.
pub fn alias_amounts(unit: Unit) -> Vec<Op> {
    let widths = [7u32, 8, 15, 16, 24, 31, 32, 40, 48, 56, 63];
    let units: &[i128] = match unit {
        Unit::Years => &[1, 4, 100, 400],
        Unit::Months => &[1, 12, 48, 1200, 4800],
        Unit::Days => &[1, 365, 1461, 36_524, 146_097],
        Unit::Clock => &[1, 60, 1440, 1440 * 1461, 1440 * 36_524, 1440 * 146_097],
        Unit::Seconds => &[1, 60, 3600, 86_400, 86_400 * 1461, 86_400 * 36_524, 86_400 * 146_097],
    };
    let (lo, hi) = match unit {
        Unit::Years => (i16::MIN as i128, i16::MAX as i128),
        Unit::Months | Unit::Days => (i32::MIN as i128, i32::MAX as i128),
        _ => (i64::MIN as i128, i64::MAX as i128),
    };
    let mut v = vec![];
    for u in units {
        for w in widths {
            for k in (-8..=8i128).filter(|k| *k != 0) {
                for a in [0i128, 1, -1, 2, -2, 7, -7] {
                    for u2 in units {
                        v.push(a * u2 + k * u * (1i128 << w));
                    }
                }
            }
        }
    }
    let mut ops = vec![];
    for x in clip(v, lo, hi) {
        match unit {
            Unit::Years => ops.push(Op::Years(x as i16)),
            Unit::Months => ops.push(Op::Months(x as i32)),
            Unit::Days => ops.push(Op::Days(x as i32)),
            Unit::Clock => {
                ops.push(Op::Minutes(x as i64));
                if let Ok(h) = i32::try_from(x) {
                    ops.push(Op::Hours(h));
                }
            }
            Unit::Seconds => ops.push(Op::Seconds(x as i64)),
        }
    }
    ops
}

fn far_amounts(e: &Engine, unit: Unit) {
    let alias = alias_amounts(unit);
    for l in [iers(), odd_table()] {
        let s = special_days(&l);
        let k = e.pick(16, 2);
        let days: Vec<i32> = s.iter().enumerate().filter(|(i, d)| i % k == 0 || **d == MAX_DAY || **d == MIN_DAY).map(|x| *x.1).collect();
        par_env(e, &format!("special days, far and aliasing amounts, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            for sec in [0, env.leaps.day_len(day) - 1] {
                let m = M::new(day, sec);
                let Some(dt) = start(w, env, &m) else { return };
                let extreme: Vec<Op> = extreme_amounts(env, &m)
                    .into_iter()
                    .filter(|op| match op {
                        Op::Years(_) => unit == Unit::Years,
                        Op::Months(_) => unit == Unit::Months,
                        Op::Days(_) => unit == Unit::Days,
                        Op::Hours(_) | Op::Minutes(_) => unit == Unit::Clock,
                        Op::Seconds(_) => unit == Unit::Seconds,
                    })
                    .collect();
                for op in extreme.iter().chain(&alias) {
                    w.traces += 1;
                    check_op(w, env, &m, &dt, *op);
                    if w.violated() {
                        return;
                    }
                }
                w.sample(|| format!("{} with {} far amounts", m.show(), extreme.len() + alias.len()));
            }
        });
    }
}

fn c12(e: &Engine) {
    e.rule("start states at the ends, epoch, adjustments and others times the lattice of extreme amounts (powers of two +-2, every multiple at which a narrower intermediate could wrap, range ends +-3, type extremes), checked and unchecked; the builder with every combination of extreme field values");
    let mut tabs = vec![iers(), odd_table(), Leaps::new("[+1]", vec![(1, 1)]), Leaps::new("[-1]", vec![(1, -1)]), Leaps::new("[]", vec![])];
    if e.thorough() {
        tabs.extend(tables(2, &[2, 12_000]));
    }
    for l in &tabs {
        let s = special_days(l);
        let k = e.pick(10, 1);
        let mut days: Vec<i32> = s.iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| *x.1).collect();
        days.extend([MIN_DAY, MIN_DAY + 59, -1, 0, 11016, 11017, MAX_DAY - 306, MAX_DAY]);
        days.sort();
        days.dedup();
        par_env(e, &format!("extreme amounts, table {}", l.name), l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            for (i, sec) in [0, 43_200, env.leaps.day_len(day) - 1].into_iter().enumerate() {
                // Every precision in turn; the coarse ones with finer fields set.
                let m = if i == 2 { M { day, sec, ns: 0, prec: (c % 9) as u8 } } else { M::ns(day, sec, 999_999_999) };
                let Some(dt) = start(w, env, &m) else { return };
                let ops = extreme_amounts(env, &m);
                for op in &ops {
                    w.traces += 1;
                    let checked = check_op(w, env, &m, &dt, *op);
                    if w.violated() {
                        return;
                    }
                    // The unchecked counterpart. (Panicking is slow: of the long runs of refused amounts take a share.)
                    let n = match *op {
                        Op::Years(n) => n as i64,
                        Op::Months(n) | Op::Days(n) | Op::Hours(n) => n as i64,
                        Op::Minutes(n) | Op::Seconds(n) => n,
                    };
                    if checked.is_none() && n.unsigned_abs() % 8 != (c + sec as u64) % 8 && !env.leaps.ends.is_empty() {
                        continue;
                    }
                    w.transitions += 1;
                    let un = run_unchecked(&dt, *op);
                    let good = match (&checked, &un) {
                        (None, Err(_)) => {
                            w.hit("unchecked panics as it must");
                            true
                        }
                        (Some((_, _, Got::Plain(a))), Ok(Got::Plain(b))) => a == b,
                        (Some((_, _, Got::Carry(a))), Ok(Got::Carry(b))) => {
                            a.days_carry() == b.days_carry() && a.seconds_carry() == b.seconds_carry() && a.clone().drop_carry() == b.clone().drop_carry()
                        }
                        _ => false,
                    };
                    if !good {
                        w.fail(
                            case(env, &m, &op_call(*op).replace("checked_", "")),
                            if checked.is_some() { "the same as the checked operation" } else { "panic" },
                            match un {
                                Ok(_) => "another result".to_string(),
                                Err(p) => p,
                            },
                        );
                    }
                    // Applying a carry never crashes either.
                    if let Some((_, cr, Got::Carry(r))) = &checked {
                        if *cr != Carry::default() {
                            check_carry(w, env, &m, *op, r);
                        }
                    }
                }
                w.sample(|| format!("{} with {} extreme amounts", m.show(), ops.len()));
            }
        });
    }
    // The builder: every combination of extreme values for a complete set of fields is answered, not crashed on.
    let l = iers();
    let ys: [u16; 9] = [0, 1, 1972, 2000, 9999, 10000, 32768, 51200, 65535];
    let bs: [u8; 12] = [0, 1, 2, 12, 13, 23, 24, 28, 31, 59, 60, 255];
    let us: [u16; 6] = [0, 999, 1000, 4095, 32768, 65535];
    par_env(e, "builder extremes", &l, (ys.len() * bs.len() * bs.len()) as u64, |w, env, c| {
        let c = c as usize;
        let (y, mo, d) = (ys[c / 144], bs[c / 12 % 12], bs[c % 12]);
        for h in bs {
            for mi in bs {
                for s in bs {
                    for u in us {
                        w.transitions += 1;
                        w.states += 1;
                        let ok = cal().valid(y as i64, mo as u32, d as u32) && h < 24 && mi < 60 && u < 1000 && {
                            let day = cal().day(y as i32, mo as u32, d as u32);
                            let len = if h == 23 && mi == 59 { env.leaps.day_len(day) - 86_340 } else { 60 };
                            (s as u32) < len
                        };
                        let r = raw(env, |b| {
                            b.year(y).month(mo).day(d).hour(h).minute(mi).second(s).millisecond(u).microsecond(0).nanosecond(u / 3);
                        });
                        let good = match &r {
                            Ok(Ok(_)) => ok,
                            Ok(Err(())) => !ok,
                            Err(_) => false,
                        };
                        if ok {
                            w.hit("builder accepted");
                        }
                        // The unchecked build: same outcome, as a panic.
                        if !good {
                            w.fail(format!("builder {}-{}-{}T{}:{}:{} ms={}", y, mo, d, h, mi, s, u), if ok { "accepted" } else { "refused with an error" }, verdict(&r));
                        } else if ok || (h == 0 && mi == 0) {
                            w.transitions += 1;
                            let un = guard(|| {
                                let mut b = DateTimeBuilder::new();
                                b.chronology(&env.chron).year(y).month(mo).day(d).hour(h).minute(mi).second(s).millisecond(u).microsecond(0).nanosecond(u / 3);
                                b.build()
                            });
                            let same = match (&r, &un) {
                                (Ok(Ok(a)), Ok(b)) => a == b,
                                (Ok(Err(())), Err(())) => true,
                                _ => false,
                            };
                            if !same {
                                w.fail(format!("builder {}-{}-{}T{}:{}:{} ms={} build()", y, mo, d, h, mi, s, u), "as checked_build()", "differs");
                            }
                        }
                    }
                }
            }
        }
        w.traces += 1;
    });
    // Without an explicit chronology the default one is loaded: same verdicts.
    let d = with_table("t", &l);
    e.par("default chronology", 1, || Env { leaps: l.clone(), chron: load_chronology("UTC"), shadow: None }, |w, env, _| {
        for day in days_of_interest(&env.leaps, true) {
            for s in 57..62u8 {
                w.transitions += 1;
                w.states += 1;
                let (y, mo, dd) = cal().date(day);
                let ok = 86_340 + (s as u32) < env.leaps.day_len(day);
                let r = guard(|| {
                    DateTime::builder().year(y as u16).month(mo as u8).day(dd as u8).hour(23).minute(59).second(s).checked_build().map_err(|_| ())
                });
                if !matches!((&r, ok), (Ok(Ok(_)), true) | (Ok(Err(())), false)) {
                    w.fail(format!("default chronology {:04}-{:02}-{:02}T23:59:{}", y, mo, dd, s), if ok { "accepted" } else { "refused" }, "the opposite");
                }
            }
        }
        w.traces += 1;
    });
    drop(d);
    over_tables(e, unchecked_agrees);
}
