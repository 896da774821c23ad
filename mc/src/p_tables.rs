//! The universe of leap-second tables, explored by every property whose subject depends on the table.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_dt::check_carry;
use crate::tz::TzDir;
use momentous::iso8601::{DateTime, DateTimeBuilder};
use std::collections::HashMap;
use std::sync::Mutex;

static ACTIVE: Mutex<()> = Mutex::new(());

/// Write the table, make it the active one, load, all under a lock, so that workers can use
/// different tables.
pub fn load_locked(l: &Leaps) -> Result<(Env, TzDir), String> {
    let _g = ACTIVE.lock().unwrap_or_else(|e| e.into_inner());
    let d = with_table("t", l);
    match guard(|| Env::load(l)) {
        Ok(env) => Ok((env, d)),
        Err(()) => Err(last_panic()),
    }
}

/// Tables with one or two adjustments of either sign at the ends of calendar-awkward days.
pub fn calendar_tables() -> Vec<Leaps> {
    let c = cal();
    let days: Vec<i32> = [
        (1970, 1, 31), (1970, 2, 28), (1970, 3, 1), (1970, 3, 3), (1970, 3, 31), (1970, 4, 30), (1971, 12, 31), (1972, 1, 1), (1972, 2, 28), (1972, 2, 29), (1972, 3, 1),
    ]
    .iter()
    .map(|&(y, m, d)| c.day(y, m, d))
    .collect();
    let mut v = vec![];
    let sign = |d: i32| if d > 0 { '+' } else { '-' };
    let name = |day: i32| {
        let (y, m, d) = c.date(day);
        format!("{:04}-{:02}-{:02}", y, m, d)
    };
    for (i, &a) in days.iter().enumerate() {
        for da in LEAP_DELTAS {
            v.push(Leaps::new(&format!("[{}{}]", sign(da), name(a)), vec![(a + 1, da)]));
            for &b in &days[i + 1..] {
                for db in LEAP_DELTAS {
                    v.push(Leaps::new(&format!("[{}{},{}{}]", sign(da), name(a), sign(db), name(b)), vec![(a + 1, da), (b + 1, db)]));
                }
            }
        }
    }
    v
}

pub fn table_list(e: &Engine) -> Vec<Leaps> {
    let mut ts = vec![Leaps::new("[]", vec![])];
    ts.extend(tables(e.pick(3, 4), &[1, 2, 3, 30, 10_957]));
    ts.retain(|t| t.ends.last().map(|x| x.0).unwrap_or(0) < 24_800);
    ts.extend(calendar_tables());
    // Prefixes of the published table, and many adjustments in a row.
    let full = iers();
    for k in 1..=27 {
        ts.push(Leaps::new(&format!("first {} published", k), full.ends[..k].to_vec()));
    }
    ts.push(odd_table());
    let odd = odd_table();
    for k in 1..odd.ends.len() {
        ts.push(Leaps::new(&format!("first {} odd", k), odd.ends[..k].to_vec()));
    }
    // Long tables: as many adjustments as a file can have (the library's parser takes 50), spread over all the time its 32-bit
    // time stamps can express, at its end, and at both ends.
    let last = 24_855;
    for n in [3, 5, 8, 16, 24, 32, 48, 49, 50] {
        for (pattern, sign) in [("insertions", [1, 1, 1, 1]), ("removals", [-1, -1, -1, -1]), ("alternating", [1, -1, 1, -1]), ("three in four removed", [-1, -1, 1, -1])] {
            let place: [(&str, &dyn Fn(i32) -> i32); 4] = [
                ("spread", &|k| (k + 1) * last / n),
                ("at the end", &|k| last - (n - 1 - k)),
                ("months at the end", &|k| last - 30 * (n - 1 - k)),
                ("at both ends", &|k| if k < n / 2 { 1 + k } else { last - (n - 1 - k) }),
            ];
            for (where_, f) in place {
                ts.push(Leaps::new(&format!("{} {} {}", n, pattern, where_), (0..n).map(|k| (f(k), sign[(k % 4) as usize])).collect()));
            }
        }
    }
    ts.push(Leaps::new("40 insertions in a row", (1..=40).map(|d| (d, 1)).collect()));
    ts.push(Leaps::new("40 removals in a row", (1..=40).map(|d| (d, -1)).collect()));
    ts.push(Leaps::new("alternating", (1..=40).map(|d| (d, if d % 2 == 0 { 1 } else { -1 })).collect()));
    ts
}

/// Runs `f` once with each table, tables spread over the workers.
pub fn over_tables(e: &Engine, f: impl Fn(&mut W, &Env) + Sync) {
    let ts = table_list(e);
    e.par("all tables", ts.len() as u64, || (), |w, _, c| {
        let l = &ts[c as usize];
        match load_locked(l) {
            Ok((env, _d)) => {
                f(w, &env);
                w.sample(|| format!("table {}", l.name));
                w.hit("table loaded");
            }
            Err(p) => w.fail(format!("load_chronology with table {}", l.name), "loaded", p),
        }
    });
    over_alternating(e, f);
}

/// Runs `f` with a table while everything it does is first done with another table, which differs in
/// the sign of every adjustment: tables must not influence each other.
fn over_alternating(e: &Engine, f: impl Fn(&mut W, &Env) + Sync) {
    let mut ts = tables(2, &[1, 2, 3, 30, 10_957]);
    ts.retain(|t| t.ends.last().map(|x| x.0).unwrap_or(0) < 24_800);
    ts.extend(calendar_tables());
    ts.extend([iers(), odd_table(), Leaps::new("[]", vec![])]);
    e.par("two tables in alternation", ts.len() as u64, || (), |w, _, c| {
        let l = &ts[c as usize];
        let other = match l.ends.len() {
            0 => Leaps::new("first days", (1..=40).map(|d| (d, if d % 3 == 0 { -1 } else { 1 })).collect()),
            _ => Leaps::new(&format!("{} negated", l.name), l.ends.iter().map(|x| (x.0, -x.1)).collect()),
        };
        match (load_locked(l), load_locked(&other)) {
            (Ok((mut env, _d)), Ok((sh, _e))) => {
                env.leaps.name = format!("{} in alternation with {}", l.name, other.name);
                env.shadow = Some(Box::new(sh));
                f(w, &env);
                w.sample(|| format!("table {}", env.leaps.name));
                w.hit("table loaded");
            }
            (Err(p), _) | (_, Err(p)) => w.fail(format!("load_chronology with tables {} and {}", l.name, other.name), "loaded", p),
        }
    });
}

/// Days around all adjustments (for long tables: around a few) and around the epoch.
pub fn universe_days(l: &Leaps) -> Vec<i32> {
    let mut v: Vec<i32> = (-2..=2).collect();
    let n = l.ends.len();
    for (k, (e, _)) in l.ends.iter().enumerate() {
        if n <= 8 || k < 3 || k + 3 >= n || k % 5 == 0 {
            v.extend(e - 2..=e + 1);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Points of the day at which the length of the day matters.
fn points(env: &Env, day: i32) -> Vec<(i32, u32)> {
    let len = env.leaps.day_len(day);
    vec![(day, 0), (day, 43_200), (day, len - 2), (day, len - 1)]
}

/// Every second of the last minute of the day, accepted and read back, and :60 of the other hours.
pub fn times_of_day(w: &mut W, env: &Env) {
    for day in universe_days(&env.leaps) {
        let (y, mo, d) = cal().date(day);
        for h in 0..24u8 {
            for mi in [0u8, 58, 59] {
                for s in [57u8, 58, 59, 60, 61, 62] {
                    if h < 22 && s != 59 && s != 60 {
                        continue;
                    }
                    w.states += 1;
                    w.transitions += 1;
                    let ok = (s as u32) < if h == 23 && mi == 59 { env.leaps.day_len(day) - 86_340 } else { 60 };
                    if let Some(sh) = &env.shadow {
                        let _ = guard(|| {
                            let mut b = DateTimeBuilder::new();
                            b.chronology(&sh.chron).year(y as u16).month(mo as u8).day(d as u8).hour(h).minute(mi).second(s);
                            b.checked_build().is_ok()
                        });
                    }
                    let r = guard(|| {
                        let mut b = DateTimeBuilder::new();
                        b.chronology(&env.chron).year(y as u16).month(mo as u8).day(d as u8).hour(h).minute(mi).second(s);
                        b.checked_build().ok().map(|t| (t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second()))
                    });
                    let exp = if ok { Some((y as u16, mo as u8, d as u8, h, mi, s)) } else { None };
                    if r != Ok(exp) {
                        let got = match r {
                            Ok(v) => format!("{:?}", v),
                            Err(()) => last_panic(),
                        };
                        w.fail(format!("table={} builder {:04}-{:02}-{:02}T{:02}:{:02}:{:02}", env.leaps.name, y, mo, d, h, mi, s), format!("{:?}", exp), got);
                        return;
                    }
                }
            }
        }
        w.traces += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Unit {
    Years,
    Months,
    Days,
    Clock,
    Seconds,
}

/// Operations of the unit that lead from p to the day and minute or second of q.
fn ops_between(env: &Env, unit: Unit, p: (i32, u32), q: (i32, u32)) -> Vec<Op> {
    let ((y1, m1, _), (y2, m2, _)) = (cal().date(p.0), cal().date(q.0));
    let minute = |s: u32| (s as i64 / 60).min(1439);
    match unit {
        Unit::Years => vec![Op::Years((y2 - y1) as i16)],
        Unit::Months => vec![Op::Months((y2 - y1) * 12 + m2 as i32 - m1 as i32)],
        Unit::Days => vec![Op::Days(q.0 - p.0)],
        Unit::Clock => {
            let n = (q.0 - p.0) as i64 * 1440 + minute(q.1) - minute(p.1);
            let mut v = vec![Op::Minutes(n)];
            if n % 60 == 0 {
                v.push(Op::Hours((n / 60) as i32));
            }
            v
        }
        Unit::Seconds => vec![Op::Seconds(env.leaps.at(q.0, q.1) - env.leaps.at(p.0, p.1))],
    }
}

/// Source and target days for operations by the unit: around the adjustments, and (for calendar units)
/// the month ends and same days of other months and years that lead there.
fn unit_days(l: &Leaps, unit: Unit) -> Vec<i32> {
    let mut v = universe_days(l);
    if (unit == Unit::Months || unit == Unit::Years) && l.ends.len() <= 2 {
        let c = cal();
        for (e, _) in &l.ends {
            let (y, m, d) = c.date(e - 1);
            let months: &[i32] = if unit == Unit::Months { &[-49, -13, -12, -2, -1, 1, 2, 11, 12, 25] } else { &[-48, -12, 12, 24, 48, 1200] };
            for k in months {
                let t = y * 12 + m as i32 - 1 + k;
                let (y, m) = (t / 12, (t % 12) as u32 + 1);
                let last = mlen(y, m);
                for x in [d.min(last), (d + 1).min(last), last.min(28), last - 1, last] {
                    v.push(c.day(y, m, x));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Every operation of the unit between any two points, with its carry applied.
pub fn unit_pairs(w: &mut W, env: &Env, unit: Unit) {
    let days = unit_days(&env.leaps, unit);
    let mut pts: Vec<(i32, u32)> = days.iter().flat_map(|d| points(env, *d)).collect();
    if unit == Unit::Seconds || unit == Unit::Clock || unit == Unit::Days {
        pts.extend([(MIN_DAY, 0), (MAX_DAY, 86_399), (-20_000, 5), (40_000, 86_399)]);
    }
    for &p in &pts {
        let m = M::ns(p.0, p.1, 3);
        let Some(dt) = start(w, env, &m) else { return };
        let mut done: Vec<Op> = vec![];
        for &q in &pts {
            for op in ops_between(env, unit, p, q) {
                if unit != Unit::Seconds && unit != Unit::Clock && done.contains(&op) {
                    continue;
                }
                done.push(op);
                w.traces += 1;
                if let Some((_, c, Got::Carry(r))) = check_op(w, env, &m, &dt, op) {
                    if c != Carry::default() {
                        check_carry(w, env, &m, op, &r);
                    }
                }
            }
            if w.violated() {
                return;
            }
        }
    }
}

/// Second by second over every adjustment, in both directions, and there and back by larger steps.
pub fn second_walks(w: &mut W, env: &Env) {
    let ends: Vec<i32> = env.leaps.ends.iter().map(|x| x.0).collect();
    for end in ends {
        for dir in [1i64, -1] {
            let t0 = env.leaps.at(end, 0) as i128;
            let (from, to) = if dir > 0 { (t0 - 5, t0 + 4) } else { (t0 + 4, t0 - 5) };
            let (day, sec) = env.leaps.from(from).unwrap();
            let mut m = M::ns(day, sec, 7);
            let Some(mut dt) = start(w, env, &m) else { return };
            let mut t = from;
            while t != to {
                match check_op(w, env, &m, &dt, Op::Seconds(dir)) {
                    Some((m2, _, Got::Plain(d2))) => {
                        m = m2;
                        dt = d2;
                    }
                    _ => return,
                }
                t += dir as i128;
            }
            w.traces += 1;
        }
    }
}

/// Breadth-first search over operation sequences on the real values. Returns the number of states.
pub fn bfs(w: &mut W, env: &Env, s: M, alphabet: &[Op], depth: u32) -> usize {
    let Some(dt) = start(w, env, &s) else { return 0 };
    let mut seen: HashMap<M, DateTime> = HashMap::new();
    seen.insert(s, dt.clone());
    let mut frontier = vec![(s, dt)];
    for level in 0..depth {
        let mut next = vec![];
        for (m, dt) in &frontier {
            for op in alphabet {
                let Some((m2, carry, g)) = check_op(w, env, m, dt, *op) else { continue };
                let mut succ: Vec<(M, DateTime)> = vec![];
                match g {
                    Got::Plain(d) => succ.push((m2, d)),
                    Got::Carry(r) => {
                        if carry != Carry::default() {
                            if let Some(x) = check_carry(w, env, m, *op, &r) {
                                succ.push(x);
                            }
                        }
                        succ.push((m2, r.drop_carry()));
                    }
                }
                for (m2, d2) in succ {
                    w.traces += (level + 1 == depth) as u64;
                    if w.violated() {
                        return 0;
                    }
                    match seen.get(&m2) {
                        Some(d) => {
                            if *d != d2 {
                                w.fail(case(env, m, &op_call(*op)), format!("equal to the date-time that reached {} first", m2.show()), show(&d2));
                            }
                        }
                        None => {
                            w.states += 1;
                            seen.insert(m2, d2.clone());
                            next.push((m2, d2));
                        }
                    }
                }
            }
        }
        frontier = next;
    }
    seen.len()
}

/// Short operation sequences from the last second of every adjusted day.
pub fn sequences(w: &mut W, env: &Env, depth: u32) {
    let alphabet = [
        Op::Years(1), Op::Years(-1), Op::Years(-4), Op::Months(1), Op::Months(-1), Op::Months(12), Op::Days(1), Op::Days(-1), Op::Hours(1), Op::Hours(-24), Op::Minutes(1),
        Op::Minutes(-1), Op::Minutes(1440), Op::Seconds(1), Op::Seconds(-1), Op::Seconds(86_400),
    ];
    let n = env.leaps.ends.len();
    let ends: Vec<i32> = env.leaps.ends.iter().map(|x| x.0).enumerate().filter(|(k, _)| n <= 8 || *k < 2 || *k + 2 >= n).map(|x| x.1).collect();
    for end in ends {
        let day = end - 1;
        let s = M::ns(day, env.leaps.day_len(day) - 1, 5);
        bfs(w, env, s, &alphabet, depth);
        if w.violated() {
            return;
        }
    }
}

/// Every unchecked operation agrees with its checked counterpart around the adjustments, and every
/// amount is answered.
pub fn unchecked_agrees(w: &mut W, env: &Env) {
    let days = universe_days(&env.leaps);
    for &day in &days {
        for p in points(env, day) {
            let m = M::ns(p.0, p.1, 3);
            let Some(dt) = start(w, env, &m) else { return };
            let t = env.leaps.at(p.0, p.1);
            let mut ops = vec![
                Op::Years(1), Op::Years(-1), Op::Months(1), Op::Months(-1), Op::Days(1), Op::Days(-1), Op::Hours(24), Op::Hours(-1), Op::Minutes(1), Op::Minutes(-1439),
                Op::Seconds(1), Op::Seconds(-1), Op::Seconds(86_400), Op::Seconds(-t), Op::Years(i16::MAX), Op::Months(i32::MIN), Op::Days(i32::MAX), Op::Hours(i32::MIN),
                Op::Minutes(i64::MAX), Op::Minutes(i64::MIN), Op::Seconds(i64::MAX), Op::Seconds(i64::MIN),
            ];
            for (e, _) in env.leaps.ends.iter().take(3) {
                ops.push(Op::Days(e - 1 - day));
                ops.push(Op::Minutes((*e - day) as i64 * 1440 - 1));
                ops.push(Op::Seconds(env.leaps.at(*e, 0) - t - 1));
            }
            for op in ops {
                w.traces += 1;
                let checked = check_op(w, env, &m, &dt, op);
                if w.violated() {
                    return;
                }
                w.transitions += 1;
                let un = run_unchecked(&dt, op);
                let good = match (&checked, &un) {
                    (None, Err(_)) => true,
                    (Some((_, _, Got::Plain(a))), Ok(Got::Plain(b))) => a == b,
                    (Some((_, _, Got::Carry(a))), Ok(Got::Carry(b))) => {
                        a.days_carry() == b.days_carry() && a.seconds_carry() == b.seconds_carry() && a.clone().drop_carry() == b.clone().drop_carry()
                    }
                    _ => false,
                };
                if !good {
                    let exp = if checked.is_some() { "the same as the checked operation" } else { "panic" };
                    let got = match un {
                        Ok(_) => "another result".to_string(),
                        Err(p) => p,
                    };
                    w.fail(case(env, &m, &op_call(op).replace("checked_", "")), exp, got);
                    return;
                }
            }
        }
    }
}
