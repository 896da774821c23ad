//! Every precision crossed with the operations: the other phases of C05..C12 work at one or two precisions.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_dt::*;
use crate::p_tables::*;

/// Amounts of the unit worth trying from any state: small, one of each natural period, to both ends of
/// the range and one past them, and onto and just past nearby adjustments.
pub fn prec_ops(env: &Env, unit: Unit, m: &M) -> Vec<Op> {
    let (y, mo, _) = cal().date(m.day);
    let k = y * 12 + mo as i32 - 1;
    let minute = (m.sec / 60).min(1439) as i64;
    let up = (MAX_DAY - m.day) as i64 * 1440 + 1439 - minute;
    let down = (MIN_DAY - m.day) as i64 * 1440 - minute;
    let t = env.leaps.at(m.day, m.sec);
    let near: Vec<i32> = {
        let mut v: Vec<i32> = env.leaps.ends.iter().map(|x| x.0).collect();
        v.sort_by_key(|e| ((e - m.day) as i64).abs());
        v.truncate(3);
        v
    };
    let mut v = vec![];
    match unit {
        Unit::Years => {
            for n in [1, -1, 2, 3, -3, 4, -4, 5, 96, 100, -100, -296, 400, -400, -401, -500, -1000, 1000, 2400, 9999 - y, 10000 - y, -y, -y - 1, 32767, -32768] {
                v.push(Op::Years(n as i16));
            }
        }
        Unit::Months => {
            for n in [
                1, -1, 2, -2, 3, 5, 6, -7, 11, -11, 12, -12, 13, -13, 24, 48, -48, 1200, -1200, 4800, -4800, 4801, -5000, -12_000, 119_999 - k, 120_000 - k, -k, -k - 1,
                i32::MAX, i32::MIN,
            ] {
                v.push(Op::Months(n));
            }
        }
        Unit::Days => {
            for n in [
                1, -1, 2, -2, 7, 27, 28, 29, 30, 31, -28, -29, -30, -31, 59, 60, 305, 306, -306, 364, 365, 366, -364, -365, -366, 1460, 1461, -1461, 36524, 36525, -36524,
                -36525, 146_096, 146_097, -146_097, -146_098, MAX_DAY - m.day, MAX_DAY - m.day + 1, MIN_DAY - m.day, MIN_DAY - m.day - 1, i32::MAX, i32::MIN,
            ] {
                v.push(Op::Days(n));
            }
            for e in near {
                v.extend([Op::Days(e - 2 - m.day), Op::Days(e - 1 - m.day), Op::Days(e - m.day)]);
            }
        }
        Unit::Clock => {
            for n in [1, -1, 2, 29, 30, 31, 58, 59, 60, 61, -59, -60, -61, 119, 120, 1439, 1440, 1441, -1439, -1440, -1441, 44_640, 525_600, -2_103_840, up, up + 1, down, down - 1] {
                v.push(Op::Minutes(n));
            }
            for n in [1, -1, 11, 12, 23, 24, 25, -23, -24, -25, 168, 8760, -350_640, (up / 60) as i32, (up / 60 + 1) as i32, (down / 60) as i32, (down / 60 - 1) as i32] {
                v.push(Op::Hours(n));
            }
            for e in near {
                let d = (e - m.day) as i64 * 1440 - minute;
                v.extend([Op::Minutes(d - 2), Op::Minutes(d - 1), Op::Minutes(d)]);
                v.extend([Op::Hours((e - m.day) * 24), Op::Hours((e - m.day) * 24 - 1), Op::Hours((e - m.day) * 24 - 24)]);
            }
        }
        Unit::Seconds => {
            let (lo, hi) = (env.leaps.at(MIN_DAY, 0), env.leaps.at(MAX_DAY, env.leaps.day_len(MAX_DAY) - 1));
            for n in [
                1, -1, 2, -2, 59, 60, 61, -60, 3599, 3600, 3601, -3600, 43_200, 86_399, 86_400, 86_401, -86_399, -86_400, -86_401, 172_800, 604_800, 2_592_000, -2_592_000, 31_536_000,
                -31_536_000, 31_622_400, 126_230_400, -t, -t - 1, hi - t, hi - t + 1, lo - t, lo - t - 1,
            ] {
                v.push(Op::Seconds(n));
            }
            for e in near {
                let d = env.leaps.at(e, 0) - t;
                v.extend([Op::Seconds(d - 2), Op::Seconds(d - 1), Op::Seconds(d)]);
                // Whole days, hours and minutes across the adjustment.
                for u in [86_400, 3600, 60] {
                    v.extend([Op::Seconds(d.div_euclid(u) * u), Op::Seconds((d.div_euclid(u) + 1) * u)]);
                }
            }
        }
    }
    v
}

fn unit_of(op: &Op) -> Unit {
    match op {
        Op::Years(_) => Unit::Years,
        Op::Months(_) => Unit::Months,
        Op::Days(_) => Unit::Days,
        Op::Hours(_) | Op::Minutes(_) => Unit::Clock,
        Op::Seconds(_) => Unit::Seconds,
    }
}

/// One operation; its carry, if any, in full (with `all`: also when there is none).
fn one(w: &mut W, env: &Env, m: &M, dt: &momentous::iso8601::DateTime, op: Op, all: bool) {
    w.traces += 1;
    if let Some((_, c, Got::Carry(r))) = check_op(w, env, m, dt, op) {
        if all || c != Carry::default() {
            check_carry(w, env, m, op, &r);
        }
    }
}

/// A sub-second part the precision can hold, different from state to state.
fn some_ns(prec: u8, i: u64) -> u32 {
    let pick = [0u32, 1, 500, 999, 512, 65][(i % 6) as usize];
    match prec {
        P_MS => pick * 1_000_000,
        P_US => pick * 1_000_000 + (999 - pick) * 1000,
        P_NS => pick * 1_000_000 + (i as u32 * 7 % 1000) * 1000 + (999 - pick),
        _ => 0,
    }
}

fn clock_secs(env: &Env, day: i32) -> Vec<u32> {
    let len = env.leaps.day_len(day);
    let mut v = vec![0, 1, 59, 60, 3540, 3599, 3600, 43_199, 43_200, 65_536, 82_800, 86_339, 86_340, 86_398.min(len - 1), len - 2, len - 1];
    v.sort();
    v.dedup();
    v
}

/// States of one precision at which amounts are tried exhaustively.
fn deep_states(env: &Env, prec: u8, more: bool) -> Vec<M> {
    let mut days: Vec<i32> = vec![cal().day(2000, 2, 29), cal().day(1970, 1, 1), cal().day(1599, 12, 31)];
    days.extend(env.leaps.ends.iter().step_by(if more { 1 } else { 13 }).map(|x| x.0 - 1));
    if more {
        days.extend([MIN_DAY, MAX_DAY, cal().day(1900, 3, 1), cal().day(2004, 1, 1)]);
    }
    let mut v = vec![];
    for (i, d) in days.into_iter().enumerate() {
        let (y, mo, _) = cal().date(d);
        let nat = match prec {
            P_YEAR => cal().day(y, 1, 1),
            P_MONTH => cal().day(y, mo, 1),
            _ => d,
        };
        v.push(floor(&M { day: nat, sec: 43_200, ns: some_ns(prec, i as u64 + 1), prec }));
        v.push(M { day: d, sec: env.leaps.day_len(d) - 1, ns: some_ns(prec, i as u64 + 2), prec });
    }
    v.sort();
    v.dedup();
    v
}

/// Special days at every precision, with and without finer fields set.
fn prec_special(e: &Engine, unit: Unit, l: &Leaps, all: bool) {
    let s = special_days(l);
    let k = e.pick(4, 1);
    let days: Vec<i32> = s.iter().enumerate().filter(|(i, d)| i % k == 0 || l.ends.iter().any(|x| x.0 - 1 == **d)).map(|x| *x.1).collect();
    par_env(e, &format!("special days at every precision, finer fields set, table {}, {:?}", l.name, unit), l, days.len() as u64 * 9, |w, env, c| {
        let (day, prec) = (days[(c / 9) as usize], (c % 9) as u8);
        for (i, sec) in clock_secs(env, day).into_iter().enumerate() {
            // Without a fraction as well where the day has another length.
            for ns in [some_ns(prec, c / 9 + i as u64), 0] {
                if ns == 0 && i > 0 && env.leaps.day_len(day) == 86_400 {
                    continue;
                }
                let m = M { day, sec, ns, prec };
                let Some(dt) = start(w, env, &m) else { return };
                for op in prec_ops(env, unit, &m) {
                    one(w, env, &m, &dt, op, all);
                }
            }
            if w.violated() {
                return;
            }
        }
        w.sample(|| format!("every precision on day {}", day));
    });
}

/// For C10: everything a date-time with carry offers, at every precision.
pub fn precisions_of_carry(e: &Engine, unit: Unit) {
    for l in [iers(), odd_table()] {
        prec_special(e, unit, &l, true);
    }
}

/// Every precision with the operations of one unit.
pub fn precisions(e: &Engine, unit: Unit) {
    for l in [iers(), odd_table()] {
        par_env(e, &format!("every year and every month, at that precision, table {}", l.name), &l, 10_000, |w, env, c| {
            for mo in 0..=12u32 {
                let prec = if mo == 0 { P_YEAR } else { P_MONTH };
                let m = M { day: cal().day(c as i32, mo.max(1), 1), sec: 0, ns: 0, prec };
                let Some(dt) = start(w, env, &m) else { return };
                for op in prec_ops(env, unit, &m) {
                    one(w, env, &m, &dt, op, false);
                }
                if w.violated() {
                    return;
                }
            }
        });
        let stride = e.pick(23, 3);
        par_env(e, &format!("days at day, hour and minute precision, table {}", l.name), &l, day_chunks(), |w, env, c| {
            for day in chunk_days(c).filter(|d| d.rem_euclid(stride) == 0) {
                let s = (day.rem_euclid(1439) * 60) as u32;
                for m in [M { day, sec: 0, ns: 0, prec: P_DAY }, M { day, sec: s / 3600 * 3600, ns: 0, prec: P_HOUR }, M { day, sec: s, ns: 0, prec: P_MINUTE }] {
                    let Some(dt) = start(w, env, &m) else { return };
                    for op in prec_ops(env, unit, &m) {
                        one(w, env, &m, &dt, op, false);
                    }
                }
                if w.violated() {
                    return;
                }
            }
        });
        prec_special(e, unit, &l, false);
        // Every amount within reach, from a few states of every precision.
        let deep: Vec<M> = match load_locked(&l) {
            Ok((env, _d)) => (0..=P_NS).flat_map(|p| deep_states(&env, p, e.thorough())).collect(),
            Err(_) => vec![],
        };
        let parts = 8u64;
        par_env(e, &format!("every amount at every precision, table {}", l.name), &l, deep.len() as u64 * parts, |w, env, c| {
            let m = deep[(c / parts) as usize];
            let part = (c % parts) as i64;
            let Some(dt) = start(w, env, &m) else { return };
            let stripe = |lo: i64, hi: i64, f: &mut dyn FnMut(i64)| {
                let mut n = lo + part;
                while n <= hi {
                    f(n);
                    n += parts as i64;
                }
            };
            let mut go = |op: Op| {
                if !w.violated() {
                    one(w, env, &m, &dt, op, false);
                }
            };
            match unit {
                Unit::Years => stripe(i16::MIN as i64, i16::MAX as i64, &mut |n| go(Op::Years(n as i16))),
                Unit::Months => stripe(-120_100, 120_100, &mut |n| go(Op::Months(n as i32))),
                Unit::Days => {
                    stripe(-150_000, 150_000, &mut |n| go(Op::Days(n as i32)));
                    stripe((MIN_DAY - m.day) as i64 / 30 - 3, (MAX_DAY - m.day) as i64 / 30 + 3, &mut |n| go(Op::Days(n as i32 * 30 + (n % 7) as i32)));
                }
                Unit::Clock => {
                    stripe(-45_000, 45_000, &mut |n| go(Op::Minutes(n)));
                    stripe(-10_000, 10_000, &mut |n| go(Op::Hours(n as i32)));
                    stripe(-20_000, 20_000, &mut |n| go(Op::Minutes(n * 1440 + n % 61)));
                    stripe(-20_000, 20_000, &mut |n| go(Op::Hours((n * 24 * 31 + n % 25) as i32)));
                }
                Unit::Seconds => {
                    stripe(-90_000, 90_000, &mut |n| go(Op::Seconds(n)));
                    stripe(-40_000, 40_000, &mut |n| go(Op::Seconds(n * 60)));
                    stripe(-20_000, 20_000, &mut |n| go(Op::Seconds(n * 3600)));
                    stripe(-20_000, 20_000, &mut |n| go(Op::Seconds(n * 86_400)));
                    stripe(-20_000, 20_000, &mut |n| go(Op::Seconds(n * 86_400 + n % 28)));
                    stripe(MIN_DAY as i64, MAX_DAY as i64, &mut |n| go(Op::Seconds((n - m.day as i64) * 86_400)));
                }
            }
            w.sample(|| format!("{} with every amount", m.show()));
        });
        par_env(e, &format!("far amounts at every precision, table {}", l.name), &l, deep.len() as u64, |w, env, c| {
            let m = deep[c as usize];
            let Some(dt) = start(w, env, &m) else { return };
            for op in extreme_amounts(env, &m).into_iter().chain(alias_amounts(unit)) {
                if unit_of(&op) == unit {
                    one(w, env, &m, &dt, op, false);
                }
                if w.violated() {
                    return;
                }
            }
        });
    }
}
