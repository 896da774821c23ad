//! Binding of the model's date-time states and operations to the real library.
use crate::engine::{guard, last_panic, W};
use crate::model::*;
use crate::tz::TzDir;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};

pub struct Env {
    pub leaps: Leaps,
    pub chron: Chronology,
    /// Another chronology with a different table on which everything is done first, with the same
    /// arguments and with its results ignored: nothing of it may show.
    pub shadow: Option<Box<Env>>,
}

impl Env {
    /// Loads the chronology from the currently active zone data; every worker has its own.
    pub fn load(leaps: &Leaps) -> Env {
        Env { leaps: leaps.clone(), chron: load_chronology("UTC"), shadow: None }
    }
}

/// The first second that exists in the period the state's precision denotes; fields finer than the
/// precision are zero / one.
pub fn valid_for_prec(m: &M) -> bool {
    let (_, mo, d) = cal().date(m.day);
    let (h, mi, s) = m.hms();
    let (ms, us, ns) = (m.ns / 1_000_000, m.ns / 1000 % 1000, m.ns % 1000);
    (m.prec >= P_MONTH || mo == 1)
        && (m.prec >= P_DAY || d == 1)
        && (m.prec >= P_HOUR || h == 0)
        && (m.prec >= P_MINUTE || mi == 0)
        && (m.prec >= P_SECOND || s == 0)
        && (m.prec >= P_MS || ms == 0)
        && (m.prec >= P_US || us == 0)
        && (m.prec >= P_NS || ns == 0)
}

pub fn fill(b: &mut DateTimeBuilder, m: &M) {
    let (y, mo, d) = cal().date(m.day);
    let (h, mi, s) = m.hms();
    b.year(y as u16);
    if m.prec >= P_MONTH {
        b.month(mo as u8);
    }
    if m.prec >= P_DAY {
        b.day(d as u8);
    }
    if m.prec >= P_HOUR {
        b.hour(h as u8);
    }
    if m.prec >= P_MINUTE {
        b.minute(mi as u8);
    }
    if m.prec >= P_SECOND {
        b.second(s as u8);
    }
    if m.prec >= P_MS {
        b.millisecond((m.ns / 1_000_000) as u16);
    }
    if m.prec >= P_US {
        b.microsecond((m.ns / 1000 % 1000) as u16);
    }
    if m.prec >= P_NS {
        b.nanosecond((m.ns % 1000) as u16);
    }
}

/// The state with the fields finer than its precision cleared: what the builder makes of the others.
pub fn floor(m: &M) -> M {
    let (y, mo, d) = cal().date(m.day);
    let day = match m.prec {
        P_YEAR => cal().day(y, 1, 1),
        P_MONTH => cal().day(y, mo, 1),
        _ => cal().day(y, mo, d),
    };
    let (h, mi, _) = m.hms();
    let sec = match m.prec {
        P_HOUR => h * 3600,
        P_MINUTE => (h * 60 + mi) * 60,
        p if p < P_HOUR => 0,
        _ => m.sec,
    };
    let unit = match m.prec {
        P_NS => 1,
        P_US => 1000,
        P_MS => 1_000_000,
        _ => 1_000_000_000,
    };
    M { day, sec, ns: m.ns / unit * unit, prec: m.prec }
}

/// Build the real date-time for a model state. A state with fields finer than its precision cannot be
/// built directly: it is reached by adding seconds to the start of its period.
pub fn build(env: &Env, m: &M) -> Result<DateTime, String> {
    if let Some(sh) = &env.shadow {
        let _ = build(sh, m);
    }
    let f = if valid_for_prec(m) { *m } else { floor(m) };
    match guard(|| {
        let mut b = DateTimeBuilder::new();
        b.chronology(&env.chron);
        fill(&mut b, &f);
        b.checked_build()
    }) {
        Ok(Ok(dt)) if f == *m => Ok(dt),
        Ok(Ok(dt)) => {
            let n = env.leaps.at(m.day, m.sec) - env.leaps.at(f.day, f.sec);
            match guard(|| dt.checked_add_seconds(n)) {
                Ok(Some(r)) => Ok(r),
                Ok(None) => Err(format!("{} plus {} seconds refused", f.show(), n)),
                Err(()) => Err(format!("{} plus {} seconds {}", f.show(), n, last_panic())),
            }
        }
        Ok(Err(e)) => Err(format!("build refused: {:?}", e)),
        Err(()) => Err(format!("build {}", last_panic())),
    }
}

#[inline]
pub fn getters(dt: &DateTime) -> Result<(u16, u8, u8, u8, u8, u8), String> {
    guard(|| (dt.year(), dt.month(), dt.day(), dt.hour(), dt.minute(), dt.second())).map_err(|_| last_panic())
}

pub fn show(dt: &DateTime) -> String {
    match getters(dt) {
        Ok((y, m, d, h, mi, s)) => format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02} ({:?})", y, m, d, h, mi, s, dt),
        Err(e) => e,
    }
}

#[inline]
pub fn getters_match(dt: &DateTime, m: &M) -> bool {
    let (y, mo, d) = cal().date(m.day);
    let (h, mi, s) = m.hms();
    match getters(dt) {
        Ok(g) => g == (y as u16, mo as u8, d as u8, h as u8, mi as u8, s as u8),
        Err(_) => false,
    }
}

/// Full comparison of a real date-time with a model state: all readable fields, and equality with a
/// freshly made date-time (which covers sub-second, precision and chronology).
#[inline]
pub fn matches(env: &Env, dt: &DateTime, m: &M) -> bool {
    getters_match(dt, m) && matches!(build(env, m), Ok(ref b) if b == dt)
}

pub enum Got {
    Carry(DateTimeWithCarry),
    Plain(DateTime),
}

#[inline]
pub fn run(dt: &DateTime, op: Op) -> Result<Option<Got>, String> {
    guard(|| match op {
        Op::Years(n) => dt.checked_add_years(n).map(Got::Carry),
        Op::Months(n) => dt.checked_add_months(n).map(Got::Carry),
        Op::Days(n) => dt.checked_add_days(n).map(Got::Carry),
        Op::Hours(n) => dt.checked_add_hours(n).map(Got::Carry),
        Op::Minutes(n) => dt.checked_add_minutes(n).map(Got::Carry),
        Op::Seconds(n) => dt.checked_add_seconds(n).map(Got::Plain),
    })
    .map_err(|_| last_panic())
}

pub fn run_unchecked(dt: &DateTime, op: Op) -> Result<Got, String> {
    guard(|| match op {
        Op::Years(n) => Got::Carry(dt.add_years(n)),
        Op::Months(n) => Got::Carry(dt.add_months(n)),
        Op::Days(n) => Got::Carry(dt.add_days(n)),
        Op::Hours(n) => Got::Carry(dt.add_hours(n)),
        Op::Minutes(n) => Got::Carry(dt.add_minutes(n)),
        Op::Seconds(n) => Got::Plain(dt.add_seconds(n)),
    })
    .map_err(|_| last_panic())
}

pub fn case(env: &Env, m: &M, ops: &str) -> String {
    format!("table={} start={} {}", env.leaps.name, m.show(), ops)
}

pub fn show_exp(e: &Option<(M, Carry)>) -> String {
    match e {
        None => "out of range".into(),
        Some((m, c)) => format!("{} carry {}d {}s", m.show(), c.days, c.secs),
    }
}

pub fn snippet(m: &M, op: &str, exp: &str) -> String {
    let full = *m;
    let m = &floor(m);
    let reach = if full == *m { String::new() } else { format!("\n  let dt = dt.add_seconds(..); // to {}", full.show()) };
    let (y, mo, d) = cal().date(m.day);
    let (h, mi, s) = m.hms();
    let fields = [
        format!(".year({})", y),
        format!(".month({})", mo),
        format!(".day({})", d),
        format!(".hour({})", h),
        format!(".minute({})", mi),
        format!(".second({})", s),
        format!(".millisecond({})", m.ns / 1_000_000),
        format!(".microsecond({})", m.ns / 1000 % 1000),
        format!(".nanosecond({})", m.ns % 1000),
    ];
    format!(
        "  let dt = momentous::iso8601::DateTime::builder(){}.build();{}\n  let r = dt.{};\n  // expected: {}",
        fields[..=m.prec as usize].concat(),
        reach,
        op,
        exp
    )
}

pub fn op_call(op: Op) -> String {
    match op {
        Op::Years(n) => format!("checked_add_years({})", n),
        Op::Months(n) => format!("checked_add_months({})", n),
        Op::Days(n) => format!("checked_add_days({})", n),
        Op::Hours(n) => format!("checked_add_hours({})", n),
        Op::Minutes(n) => format!("checked_add_minutes({})", n),
        Op::Seconds(n) => format!("checked_add_seconds({})", n),
    }
}

/// One transition: run the operation on the real date-time and on the model and compare refusal,
/// carry, all fields and equality with a freshly built value. Returns the successor.
#[inline]
pub fn check_op(w: &mut W, env: &Env, m: &M, dt: &DateTime, op: Op) -> Option<(M, Carry, Got)> {
    w.transitions += 1;
    if let Some(sh) = &env.shadow {
        if let Ok(other) = build(sh, m) {
            let _ = run(&other, op);
        }
    }
    let exp = m.step(&env.leaps, op);
    let got = run(dt, op);
    let actual: String;
    match (got, &exp) {
        (Ok(None), None) => {
            w.hit("refused: out of range");
            return None;
        }
        (Ok(Some(Got::Plain(r))), Some((em, _))) => {
            if matches(env, &r, em) {
                w.hit("moved");
                return Some((*em, Carry::default(), Got::Plain(r)));
            }
            actual = show(&r);
        }
        (Ok(Some(Got::Carry(r))), Some((em, ec))) => {
            let c = (r.days_carry(), r.seconds_carry());
            let d = r.clone().drop_carry();
            if c == (ec.days, ec.secs) && matches(env, &d, em) {
                if c == (0, 0) {
                    w.hit("moved");
                } else if c.0 > 0 && c.1 > 0 {
                    w.hit("day and second carry");
                } else if c.0 > 0 {
                    w.hit("day carry");
                } else {
                    w.hit("second carry");
                }
                return Some((*em, *ec, Got::Carry(r)));
            }
            actual = format!("{} carry {}d {}s", show(&d), c.0, c.1);
        }
        (Ok(None), Some(_)) => actual = "refused".into(),
        (Ok(Some(Got::Plain(r))), None) => actual = show(&r),
        (Ok(Some(Got::Carry(r))), None) => actual = show(&r.drop_carry()),
        (Err(p), _) => actual = p,
    }
    let e = show_exp(&exp);
    w.fail_snip(case(env, m, &op_call(op)), e.clone(), actual, snippet(m, &op_call(op), &e));
    None
}

/// Build a start state; failing to build a valid one is a violation.
#[inline]
pub fn start(w: &mut W, env: &Env, m: &M) -> Option<DateTime> {
    w.states += 1;
    w.transitions += 1;
    match build(env, m) {
        Ok(dt) => {
            if getters_match(&dt, m) {
                Some(dt)
            } else {
                w.fail(case(env, m, "build"), m.show(), show(&dt));
                None
            }
        }
        Err(e) => {
            w.fail(case(env, m, "build"), m.show(), e);
            None
        }
    }
}

/// Seconds of the day at which some rule changes.
pub fn sec_classes(env: &Env, day: i32) -> Vec<u32> {
    let len = env.leaps.day_len(day);
    let mut v = vec![0, 1, 59, 60, 3599, 3600, 43200, 65535, 65536, 82799, 82800, 86339, 86340, 86341, 86397, 86398, 86399, 86400, 86401];
    v.retain(|s| *s < len);
    v
}

/// Days at which some rule changes: range ends, epoch, neighbourhood of leap adjustments, Feb/Mar and
/// year ends of leap/century/400-year years, every month boundary of selected years.
pub fn special_days(l: &Leaps) -> Vec<i32> {
    let c = cal();
    let mut v = vec![];
    let mut around = |d: i32, k: i32| {
        for x in d - k..=d + k {
            if (MIN_DAY..=MAX_DAY).contains(&x) {
                v.push(x);
            }
        }
    };
    around(MIN_DAY, 3);
    around(MAX_DAY, 3);
    around(0, 2);
    around(11017, 2);
    for (e, _) in &l.ends {
        around(*e, 2);
    }
    for y in [
        0, 1, 3, 4, 5, 8, 96, 99, 100, 101, 104, 196, 200, 204, 300, 396, 399, 400, 401, 404, 800, 1200, 1582, 1599, 1600, 1601, 1700,
        1800, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1971, 1972, 1996, 1999, 2000, 2001, 2003, 2004, 2015, 2016, 2017, 2024,
        2037, 2038, 2096, 2099, 2100, 2104, 2399, 2400, 2401, 3200, 3600, 4000, 5000, 6000, 7999, 8000, 8400, 9596, 9599, 9600, 9601, 9604,
        9696, 9700, 9800, 9896, 9899, 9900, 9904, 9995, 9996, 9999,
    ] {
        around(c.day(y, 2, 28), 0);
        around(c.day(y, 3, 1), 1);
        around(c.day(y, 1, 1), 1);
        around(c.day(y, 12, 31), 0);
    }
    for y in [0, 1900, 1999, 2000, 2001, 2016, 9999] {
        for m in 1..=12 {
            around(c.day(y, m, 1), 0);
            around(c.day(y, m, mlen(y, m)), 0);
            around(c.day(y, m, 15), 0);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Activates a scratch zone directory holding this table as "UTC".
pub fn with_table(tag: &str, l: &Leaps) -> TzDir {
    let d = TzDir::new(tag);
    d.put("UTC", l);
    d.activate();
    d
}

pub const LEAP_DELTAS: [i32; 2] = [1, -1];

/// All tables with up to `n` adjustments whose gaps (days from the previous adjustment, or from day 0
/// for the first) are in `gaps`.
pub fn tables(n: usize, gaps: &[i32]) -> Vec<Leaps> {
    let mut out = vec![];
    fn rec(out: &mut Vec<Leaps>, cur: &mut Vec<(i32, i32)>, left: usize, gaps: &[i32]) {
        if !cur.is_empty() {
            let name = cur.iter().map(|(e, d)| format!("{}{}", if *d > 0 { "+" } else { "-" }, e)).collect::<Vec<_>>().join(",");
            out.push(Leaps::new(&format!("[{}]", name), cur.clone()));
        }
        if left == 0 {
            return;
        }
        let base = cur.last().map(|x| x.0).unwrap_or(0);
        for g in gaps {
            for d in LEAP_DELTAS {
                cur.push((base + g, d));
                rec(out, cur, left - 1, gaps);
                cur.pop();
            }
        }
    }
    rec(&mut out, &mut vec![], n, gaps);
    out
}

/// Synthetic table with adjustments at calendar-awkward days: Jan 31, Feb 28/29, adjacent days, both signs.
pub fn odd_table() -> Leaps {
    let c = cal();
    let mut v = vec![];
    for (y, m, d, s) in [
        (1970, 1, 31, -1),
        (1970, 2, 28, 1),
        (1970, 3, 30, 1),
        (1970, 3, 31, -1),
        (1971, 12, 31, 1),
        (1972, 2, 28, -1),
        (1972, 2, 29, 1),
        (1976, 2, 29, -1),
        (1980, 2, 29, 1),
        (1980, 3, 31, 1),
        (1981, 1, 31, 1),
        (1990, 6, 30, -1),
        (2000, 2, 29, 1),
        (2000, 12, 31, -1),
        (2001, 1, 1, 1),
        (2004, 2, 29, -1),
        (2036, 12, 31, 1),
    ] {
        v.push((c.day(y, m, d) + 1, s));
    }
    Leaps::new("odd", v)
}
