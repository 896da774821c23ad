//! C30: the error of a refused build tells an impossible value from a date out of range.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_dt::par_env;
use momentous::iso8601::DateTimeBuilder;

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C30" => c30(e),
        _ => return false,
    }
    true
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Built,
    Impossible,
    OutOfRange,
    Other,
    Panicked,
}

/// What a builder says. The errors are only told apart by comparing them with errors known.
fn kind(env: &Env, b: &DateTimeBuilder) -> Kind {
    let known = |y: u16, mo: u8| DateTimeBuilder::new().chronology(&env.chron).year(y).month(mo).checked_build().err();
    match guard(|| match b.checked_build() {
        Ok(_) => Kind::Built,
        Err(e) => {
            let e = Some(e);
            // (An error equals itself; both known ones must not be equal to it.)
            match (e == known(2001, 13), known(12_345, 1) == e) {
                (true, false) => Kind::Impossible,
                (false, true) => Kind::OutOfRange,
                _ => Kind::Other,
            }
        }
    }) {
        Ok(k) => k,
        Err(()) => Kind::Panicked,
    }
}

fn expect(w: &mut W, env: &Env, b: &DateTimeBuilder, want: Kind, what: &dyn Fn() -> String) {
    expect_checked(w, env, b, want, what);
    // build panics exactly when there is an error.
    if want != Kind::Built && guard(|| b.build()).is_ok() {
        w.fail(what(), "build() panics", "a date-time");
    }
}

fn expect_checked(w: &mut W, env: &Env, b: &DateTimeBuilder, want: Kind, what: &dyn Fn() -> String) {
    w.states += 1;
    w.transitions += 1;
    w.traces += 1;
    let got = kind(env, b);
    w.hit(match want {
        Kind::Built => "built",
        Kind::Impossible => "impossible",
        _ => "out of range",
    });
    if got != want {
        w.fail(what(), format!("{:?}", want), format!("{:?}", got));
    }
}

fn days_in(y: i32, mo: u8) -> u8 {
    match mo {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}

fn c30(e: &Engine) {
    e.rule("every year above 9999 x every month and day that exists (alone and with a time); every month and day byte of years of every kind; every hour, minute and second byte; every millisecond, microsecond and nanosecond value; each refusal is compared with a known impossible date and a known date out of range");
    let l = iers();
    // Dates out of range. Each chunk: 256 years.
    par_env(e, "years above 9999", &l, 256, |w, env, c| {
        for y in (c as u32 * 256..c as u32 * 256 + 256).filter(|y| *y > 9999).map(|y| y as u16) {
            let mut b = DateTimeBuilder::new();
            b.chronology(&env.chron).year(y);
            expect(w, env, &b, Kind::OutOfRange, &|| format!("year {}", y));
            for mo in 1..=12u8 {
                let mut b = DateTimeBuilder::new();
                b.chronology(&env.chron).year(y).month(mo);
                expect(w, env, &b, Kind::OutOfRange, &|| format!("year {} month {}", y, mo));
                let n = days_in(y as i32, mo);
                let step = if e.thorough() || y < 10_010 || y % 100 == 0 || y > 65_500 { 1 } else { n as usize - 1 };
                for d in (1..=n).step_by(step) {
                    b.day(d);
                    expect(w, env, &b, Kind::OutOfRange, &|| format!("{}-{}-{}", y, mo, d));
                    if d == n {
                        let mut b = DateTimeBuilder::new();
                        b.chronology(&env.chron).year(y).month(mo).day(d).hour(23).minute(59).second(59).millisecond(999).microsecond(999).nanosecond(999);
                        expect(w, env, &b, Kind::OutOfRange, &|| format!("{}-{}-{} 23:59:59.999999999", y, mo, d));
                    }
                }
            }
        }
        w.sample(|| format!("years {} and following", c * 256));
    });
    // Dates within the range: every byte.
    let years: Vec<u16> = if e.thorough() { (0..10_000).collect() } else { [0, 1, 3, 4, 99, 100, 200, 300, 399, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9996, 9998, 9999].to_vec() };
    par_env(e, "months and days", &l, years.len() as u64, |w, env, c| {
        let y = years[c as usize];
        for mo in 0..=255u8 {
            for d in 0..=255u8 {
                let mut b = DateTimeBuilder::new();
                b.chronology(&env.chron).year(y).month(mo).day(d);
                let want = if d >= 1 && d <= days_in(y as i32, mo) { Kind::Built } else { Kind::Impossible };
                expect(w, env, &b, want, &|| format!("{:04}-{}-{}", y, mo, d));
            }
            let mut b = DateTimeBuilder::new();
            b.chronology(&env.chron).year(y).month(mo);
            expect(w, env, &b, if (1..=12).contains(&mo) { Kind::Built } else { Kind::Impossible }, &|| format!("{:04}-{}", y, mo));
        }
        w.sample(|| format!("year {}: all months and days", y));
    });
    // Times of day: every byte, on days with 86,399, 86,400 and 86,401 seconds, the first and the last.
    let removed = Leaps::new("removed", iers().ends.iter().map(|x| (x.0, -x.1)).collect());
    for (name, l) in [("times", &l), ("times without some seconds", &removed)] {
        let days = [(2016u16, 12u8, 31u8), (2015, 12, 31), (0, 1, 1), (9999, 12, 31)];
        par_env(e, name, l, 256, |w, env, c| {
            let h = c as u8;
            for (y, mo, d) in days {
                let len = l.day_len(cal().day(y as i32, mo as u32, d as u32));
                for mi in 0..=255u8 {
                    let mut b = DateTimeBuilder::new();
                    b.chronology(&env.chron).year(y).month(mo).day(d).hour(h).minute(mi);
                    expect(w, env, &b, if h < 24 && mi < 60 { Kind::Built } else { Kind::Impossible }, &|| format!("{}-{}-{} {}:{}", y, mo, d, h, mi));
                    for s in 0..=255u8 {
                        // Impossible hours and minutes need not be crossed with all seconds.
                        if (h >= 26 || mi >= 62) && s > 61 && s != 255 {
                            continue;
                        }
                        b.second(s);
                        let in_minute = if h == 23 && mi == 59 { len - 86_340 } else { 60 };
                        let want = if h < 24 && mi < 60 && (s as u32) < in_minute { Kind::Built } else { Kind::Impossible };
                        let what = || format!("{}-{}-{} {}:{}:{} table {}", y, mo, d, h, mi, s, l.name);
                        if (62..255).contains(&s) {
                            expect_checked(w, env, &b, want, &what);
                        } else {
                            expect(w, env, &b, want, &what);
                        }
                    }
                }
            }
            w.sample(|| format!("hour {}: all minutes and seconds", h));
        });
    }
    par_env(e, "fractions", &l, 256, |w, env, c| {
        for v in c as u32 * 256..c as u32 * 256 + 256 {
            let v = v as u16;
            for other in [0u16, 999, 1000, 65_535] {
                let base = || {
                    let mut b = DateTimeBuilder::new();
                    b.chronology(&env.chron).year(2016).month(12).day(31).hour(23).minute(59).second(60);
                    b
                };
                for k in 0..3 {
                    let mut f = [other; 3];
                    f[k] = v;
                    let mut b = base();
                    b.millisecond(f[0]).microsecond(f[1]).nanosecond(f[2]);
                    expect(w, env, &b, if f.iter().all(|x| *x < 1000) { Kind::Built } else { Kind::Impossible }, &|| format!("fractions {:?}", f));
                    let mut b = base();
                    b.millisecond(f[0]);
                    if k > 0 {
                        b.microsecond(f[1]);
                    }
                    expect(w, env, &b, if f[0] < 1000 && (k == 0 || f[1] < 1000) { Kind::Built } else { Kind::Impossible }, &|| format!("fractions {:?}, the first {}", f, 1 + (k > 0) as u8));
                }
            }
        }
        w.sample(|| format!("fractions {} and following", c * 256));
    });
}
