//! C13..C15: leap-second tables, chronologies as snapshots, the builder as a state machine.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_dt::{check_carry, par_env};
use crate::p_tables::*;
use crate::tz::TzDir;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder};

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C13" => c13(e),
        "C14" => c14(e),
        "C15" => c15(e),
        _ => return false,
    }
    true
}

/// Does second `s` of the last minute of the day exist? Ask the builder.
pub fn last_minute(w: &mut W, env: &Env, day: i32) {
    let (y, mo, d) = cal().date(day);
    for s in 57..=62u8 {
        w.transitions += 1;
        let ok = 86_340 + (s as u32) < env.leaps.day_len(day);
        if let Some(sh) = &env.shadow {
            let _ = guard(|| {
                let mut b = DateTimeBuilder::new();
                b.chronology(&sh.chron).year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s);
                b.checked_build().is_ok()
            });
        }
        let r = guard(|| {
            let mut b = DateTimeBuilder::new();
            b.chronology(&env.chron).year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s);
            b.checked_build().is_ok()
        });
        if r != Ok(ok) {
            w.fail(
                format!("table={} builder {:04}-{:02}-{:02}T23:59:{}", env.leaps.name, y, mo, d, s),
                if ok { "accepted" } else { "refused" },
                match r {
                    Ok(_) => "the opposite".to_string(),
                    Err(()) => last_panic(),
                },
            );
        }
    }
}

fn universe(w: &mut W, env: &Env) {
    let days = universe_days(&env.leaps);
    let mut pts = vec![];
    for &d in &days {
        last_minute(w, env, d);
        let len = env.leaps.day_len(d);
        pts.extend([(d, 0), (d, 43_200), (d, len - 2), (d, len - 1)]);
    }
    pts.extend([(MIN_DAY, 0), (MAX_DAY, 86_399), (-20_000, 5), (40_000, 86_399)]);
    for &p in &pts {
        let m = M::ns(p.0, p.1, 3);
        let Some(dt) = start(w, env, &m) else { return };
        let t = env.leaps.at(p.0, p.1);
        for &q in &pts {
            w.traces += 1;
            check_op(w, env, &m, &dt, Op::Seconds(env.leaps.at(q.0, q.1) - t));
            if q.1 == 0 {
                for op in [Op::Days(q.0 - p.0), Op::Minutes((q.0 - p.0) as i64 * 1440), Op::Minutes((q.0 - p.0) as i64 * 1440 + 1439 - (p.1 as i64 / 60).min(1439))] {
                    if let Some((_, c, Got::Carry(r))) = check_op(w, env, &m, &dt, op) {
                        if c != Carry::default() {
                            w.traces += 1;
                            check_carry(w, env, &m, op, &r);
                        }
                    }
                }
            }
            if w.violated() {
                return;
            }
        }
        for op in [Op::Seconds(1), Op::Seconds(-1), Op::Seconds(2), Op::Seconds(86_400), Op::Seconds(-86_400), Op::Minutes(1), Op::Minutes(-1), Op::Months(1), Op::Months(-1), Op::Years(1)] {
            check_op(w, env, &m, &dt, op);
        }
    }
}

fn c13(e: &Engine) {
    e.rule("every leap-second table with up to 3 (thorough: 4) adjustments of either sign with gaps in days from {1,2,3,30,10957}, the empty table, prefixes of the published one, maximal tables and the installed system data: day lengths asked from the builder, all pairs of points around the adjustments by seconds, days and minutes, carries applied; every two operations one after another on moments alike; data replaced");
    e.assume("tables as the TZif format allows them: every adjustment is one second, at the end of a UTC day, none before 1970, time stamps below 2^31");
    let full = iers();
    over_tables(e, universe);
    crate::p_hist::pairs_of_operations(e, &crate::p_hist::OPS);
    crate::p_hist::successors(e, &crate::p_hist::OPS);
    crate::p_hist::replaced_data(e, None);
    // Day lengths and elapsed time over every day from 1960 to 2060, and all of time for the empty table.
    for l in [full.clone(), odd_table(), Leaps::new("[]", vec![]), Leaps::new("[-1]", vec![(1, -1)])] {
        par_env(e, &format!("all days, table {}", l.name), &l, 360, |w, env, c| {
            for day in -3653 + c as i32 * 102..-3653 + (c as i32 + 1) * 102 {
                last_minute(w, env, day);
                let m = M::new(day, env.leaps.day_len(day) - 1);
                let Some(dt) = start(w, env, &m) else { return };
                w.traces += 1;
                check_op(w, env, &m, &dt, Op::Seconds(1));
                check_op(w, env, &m, &dt, Op::Seconds(-env.leaps.at(day, m.sec)));
            }
        });
    }
    // The data installed on the system.
    let sys = "/usr/share/zoneinfo/right/UTC";
    if std::path::Path::new(sys).exists() {
        for set in [false, true] {
            if set {
                std::env::set_var("TZDIR", "/usr/share/zoneinfo");
            } else {
                std::env::remove_var("TZDIR");
            }
            e.par(&format!("installed data, TZDIR {}", if set { "set" } else { "not set" }), 180, || Env::load(&full), |w, env, c| {
                for day in -366 + c as i32 * 102..-366 + (c as i32 + 1) * 102 {
                    last_minute(w, env, day);
                }
                w.traces += 1;
                if c == 0 {
                    universe(w, env);
                }
            });
        }
    } else {
        e.assume("no right/UTC installed: the published table was only checked through the harness's own file");
    }
    // Every installed zone name: the same leap seconds.
    let root = "/usr/share/zoneinfo/right";
    let mut names: Vec<String> = vec![];
    let mut dirs = vec![std::path::PathBuf::from(root)];
    while let Some(d) = dirs.pop() {
        for f in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = f.path();
            if p.is_dir() {
                dirs.push(p);
            } else if std::fs::read(&p).is_ok_and(|b| b.starts_with(b"TZif")) {
                names.push(p.strip_prefix(root).unwrap().to_str().unwrap().to_string());
            }
        }
    }
    names.sort();
    if !names.is_empty() && names.iter().any(|n| n == "UTC") {
        std::env::remove_var("TZDIR");
        e.par("installed zones", names.len() as u64, || (), |w, _, c| {
            let n = &names[c as usize];
            w.states += 1;
            w.traces += 1;
            match guard(|| load_chronology(n)) {
                Ok(chron) => {
                    let env = Env { leaps: full.clone(), chron, shadow: None };
                    for day in universe_days(&full) {
                        last_minute(w, &env, day);
                    }
                    w.sample(|| format!("zone {}", n));
                }
                Err(()) => w.fail(format!("load_chronology({:?})", n), "the installed zone", last_panic()),
            }
        });
    }
    // Other zone names: same leap seconds.
    let d = TzDir::new("z");
    for n in ["UTC", "Europe/Stockholm", "Asia/Kolkata"] {
        d.put(n, &full);
    }
    d.activate();
    for n in ["UTC", "Europe/Stockholm", "Asia/Kolkata"] {
        e.par(&format!("zone {}", n), 1, || Env { leaps: full.clone(), chron: load_chronology(n), shadow: None }, |w, env, _| {
            universe(w, env);
        });
    }
    drop(d);
}

// ---------------------------------------------------------------------------------------------
/// Days on which the tables of C14 differ.
fn c14_tables() -> Vec<Leaps> {
    vec![
        Leaps::new("T0[+100]", vec![(100, 1)]),
        Leaps::new("T1[+100,-200]", vec![(100, 1), (200, -1)]),
        Leaps::new("T2[-100]", vec![(100, -1)]),
        Leaps::new("T3[]", vec![]),
    ]
}

struct Held {
    env: Env,
    dts: Vec<(M, DateTime)>,
}

fn probe(w: &mut W, h: &Held, trail: &str) {
    for day in [98, 99, 100, 199, 200] {
        let n = w.violated();
        last_minute(w, &h.env, day);
        if w.violated() && !n {
            w.fail(format!("history {}", trail), "", "as above");
            return;
        }
    }
    for (m, dt) in &h.dts {
        for op in [Op::Seconds(1), Op::Seconds(200 * 86_400), Op::Days(1), Op::Minutes(1440)] {
            let n = w.violated();
            check_op(w, &h.env, m, dt, op);
            if w.violated() && !n {
                w.fail(format!("history {}", trail), "", "as above");
                return;
            }
        }
    }
}

fn hold(w: &mut W, leaps: &Leaps, chron: Chronology) -> Held {
    let env = Env { leaps: leaps.clone(), chron, shadow: None };
    let mut dts = vec![];
    for m in [M::ns(99, leaps.day_len(99) - 1, 9), M::ns(199, leaps.day_len(199) - 1, 0)] {
        if let Some(d) = start(w, &env, &m) {
            dts.push((m, d));
        }
    }
    Held { env, dts }
}

fn c14(e: &Engine) {
    e.rule("every sequence, up to a length, of: replace the zone data by one of three tables, remove it, point TZDIR at another directory, load a chronology, clone one, derive date-times; after every step every chronology and date-time held so far is probed against the table that was current when it was loaded; every two operations on any two moments that agree in some bits or cycle, one after the other; the same after other data was loaded, used and dropped; data replaced in every way a system does it with any time stamps; many chronologies held, 65,576 loads and clones");
    let ts = c14_tables();
    // 0..3 write table k to the first directory; 3 remove its file; 4 second directory; 5 first directory;
    // 6 load; 7 clone the oldest; 8 derive; 9 default chronology of the builder
    const ACTIONS: u64 = 10;
    let len = e.pick(4u32, 5);
    let total = ACTIONS.pow(len);
    let chunk = 250;
    e.seq("histories", total / chunk, || (TzDir::new("a"), TzDir::new("b")), |w, (a, b), c| {
        b.put("UTC", &ts[3]);
        for i in c * chunk..(c + 1) * chunk {
            let mut acts = vec![];
            let mut x = i;
            for _ in 0..len {
                acts.push(x % ACTIONS);
                x /= ACTIONS;
            }
            // Start: table 0 in the first directory, which is active, one chronology loaded.
            a.put("UTC", &ts[0]);
            a.activate();
            let mut disk: [Option<usize>; 2] = [Some(0), Some(3)];
            let mut dir = 0;
            let mut held = vec![hold(w, &ts[0], load_chronology("UTC"))];
            let mut trail = String::from("load T0");
            for act in acts {
                w.transitions += 1;
                match act {
                    0..=2 => {
                        a.put("UTC", &ts[act as usize]);
                        disk[0] = Some(act as usize);
                        trail += &format!("; write T{}", act);
                    }
                    3 => {
                        let _ = std::fs::remove_file(format!("{}/right/UTC", a.path));
                        disk[0] = None;
                        trail += "; remove file";
                    }
                    4 => {
                        b.activate();
                        dir = 1;
                        trail += "; TZDIR=b";
                    }
                    5 => {
                        a.activate();
                        dir = 0;
                        trail += "; TZDIR=a";
                    }
                    6 => {
                        let Some(t) = disk[dir] else { continue };
                        trail += "; load";
                        match guard(|| load_chronology("UTC")) {
                            Ok(ch) => {
                                let h = hold(w, &ts[t], ch);
                                // Its date-times are not those of another chronology that was loaded separately.
                                held.push(h);
                            }
                            Err(()) => w.fail(format!("history {}", trail), "loaded", last_panic()),
                        }
                    }
                    7 => {
                        trail += "; clone";
                        let (l, ch) = (held[0].env.leaps.clone(), held[0].env.chron.clone());
                        if ch != held[0].env.chron {
                            w.fail(format!("history {}", trail), "clone equal to the original", "not equal");
                        }
                        let h = hold(w, &l, ch);
                        for (x, y) in h.dts.iter().zip(&held[0].dts) {
                            if x.0 == y.0 && x.1 != y.1 {
                                w.fail(format!("history {}", trail), "date-times on the clone equal to those on the original", "not equal");
                            }
                        }
                        held.push(h);
                    }
                    8 => {
                        trail += "; derive";
                        let h = held.last_mut().unwrap();
                        let old = std::mem::take(&mut h.dts);
                        for (m, d) in old {
                            if let Some((m2, _, g)) = check_op(w, &h.env, &m, &d, Op::Days(-1)) {
                                let d2 = match g {
                                    Got::Carry(r) => r.drop_carry(),
                                    Got::Plain(r) => r,
                                };
                                h.dts.push((m2, d2));
                            }
                            h.dts.push((m, d));
                        }
                    }
                    _ => {
                        // A builder without a chronology uses the data of this moment.
                        let Some(t) = disk[dir] else { continue };
                        trail += "; default build";
                        for (day, s) in [(99, 59u8), (99, 60), (199, 59), (199, 60)] {
                            let (y, mo, d) = cal().date(day);
                            let ok = 86_340 + (s as u32) < ts[t].day_len(day);
                            let r = guard(|| DateTime::builder().year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s).checked_build().is_ok());
                            w.transitions += 1;
                            if r != Ok(ok) {
                                w.fail(format!("history {}: day {} 23:59:{}", trail, day, s), if ok { "accepted" } else { "refused" }, format!("{:?}", r));
                            }
                        }
                    }
                }
                for h in &held {
                    probe(w, h, &trail);
                }
                if w.violated() {
                    return;
                }
            }
            w.traces += 1;
            w.states += 1;
            w.sample(|| trail);
        }
    });
    crate::p_hist::successors(e, &crate::p_hist::OPS);
    crate::p_hist::replaced_data(e, None);
    crate::p_hist::many_chronologies(e);
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Default)]
struct BM {
    f: [Option<u32>; 9],
}

impl BM {
    fn prec(&self) -> Option<u8> {
        (0..9).rev().find(|i| self.f[*i as usize].is_some())
    }
    /// What must come out: None = refused (a missing or an impossible field).
    fn expect(&self, l: &Leaps) -> Option<M> {
        let p = self.prec()? as usize;
        if self.f[..=p].iter().any(|x| x.is_none()) {
            return None;
        }
        let g = |i: usize, d: u32| if i <= p { self.f[i].unwrap() } else { d };
        let (y, mo, d) = (g(0, 0), g(1, 1), g(2, 1));
        if !cal().valid(y as i64, mo, d) {
            return None;
        }
        let day = cal().day(y as i32, mo, d);
        let (h, mi, s) = (g(3, 0), g(4, 0), g(5, 0));
        if h >= 24 || mi >= 60 {
            return None;
        }
        let len = if h == 23 && mi == 59 { l.day_len(day) - 86_340 } else { 60 };
        let (ms, us, ns) = (g(6, 0), g(7, 0), g(8, 0));
        if s >= len || ms >= 1000 || us >= 1000 || ns >= 1000 {
            return None;
        }
        Some(M { day, sec: h * 3600 + mi * 60 + s, ns: ms * 1_000_000 + us * 1000 + ns, prec: p as u8 })
    }
}

fn set(b: &mut DateTimeBuilder, i: usize, v: u32) {
    match i {
        0 => b.year(v as u16),
        1 => b.month(v as u8),
        2 => b.day(v as u8),
        3 => b.hour(v as u8),
        4 => b.minute(v as u8),
        5 => b.second(v as u8),
        6 => b.millisecond(v as u16),
        7 => b.microsecond(v as u16),
        _ => b.nanosecond(v as u16),
    };
}

const NAMES: [&str; 9] = ["year", "month", "day", "hour", "minute", "second", "millisecond", "microsecond", "nanosecond"];

fn check_builder(w: &mut W, env: &Env, b: &DateTimeBuilder, m: &BM, trail: impl Fn() -> String) {
    w.transitions += 1;
    let exp = m.expect(&env.leaps);
    let got = guard(|| b.checked_build());
    let missing = match m.prec() {
        None => true,
        Some(p) => m.f[..p as usize].iter().any(|x| x.is_none()),
    };
    let ok = match (&exp, &got) {
        (Some(x), Ok(Ok(d))) => {
            w.hit("built");
            matches(env, d, x)
        }
        (None, Ok(Err(_))) => {
            w.hit("refused");
            true
        }
        // A missing field may be refused by a panic; an impossible value may not.
        (None, Err(())) => {
            w.hit("missing field refused");
            missing
        }
        _ => false,
    };
    if !ok {
        let a = match &got {
            Ok(Ok(d)) => show(d),
            Ok(Err(_)) => "refused".into(),
            Err(()) => last_panic(),
        };
        w.fail(format!("table={} builder {}", env.leaps.name, trail()), exp.map(|x| x.show()).unwrap_or("refused".into()), a);
    }
}

fn c15(e: &Engine) {
    e.rule("every ordered arrangement of every subset of the nine builder fields, with several value sets; every sequence of a bounded number of field settings (valid, other valid, impossible values) with a build after each, from empty and partly filled builders; results compared with a fresh builder given the last values");
    let l = iers();
    // Value sets: distinct fields, period starts, a leap second, an impossible date.
    let sets: Vec<[u32; 9]> = vec![
        [2015, 11, 27, 13, 47, 21, 345, 678, 912],
        [1972, 6, 30, 23, 59, 60, 999, 999, 999],
        [0, 1, 1, 0, 0, 0, 0, 0, 0],
        [9999, 12, 31, 23, 59, 59, 1, 0, 999],
        [2001, 2, 29, 1, 1, 1, 1, 1, 1],
    ];
    for (si, vals) in sets.iter().enumerate() {
        par_env(e, &format!("all arrangements, values {}", si), &l, 512, |w, env, mask| {
            let fields: Vec<usize> = (0..9).filter(|i| mask >> i & 1 == 1).collect();
            let mut m = BM::default();
            for &i in &fields {
                m.f[i] = Some(vals[i]);
            }
            // Orders beyond 8 fields are cut to the rotations and swaps unless thorough (9! each).
            permute(&fields, &mut |ord| {
                w.states += 1;
                w.traces += 1;
                let mut b = DateTimeBuilder::new();
                b.chronology(&env.chron);
                for &i in ord {
                    w.transitions += 1;
                    set(&mut b, i, vals[i]);
                }
                check_builder(w, env, &b, &m, || ord.iter().map(|i| format!("{}={}", NAMES[*i], vals[*i])).collect::<Vec<_>>().join(" "));
                !w.violated()
            });
            w.sample(|| format!("{} fields in every order", fields.len()));
        });
    }
    // Overwriting, with builds in between. The action set: for every field two possible and one impossible value.
    let cand: [[u32; 3]; 9] = [
        [1972, 2000, 10_000],
        [6, 2, 13],
        [30, 29, 0],
        [23, 0, 24],
        [59, 7, 60],
        [60, 59, 61],
        [0, 999, 1000],
        [0, 65, 1000],
        [0, 999, 1000],
    ];
    let depth = e.pick(3u32, 4);
    let n = 27u64.pow(depth - 1);
    for filled in [0usize, 1, 3, 5, 6, 9] {
        par_env(e, &format!("sequences of {} settings from {} fields", depth, filled), &l, n, |w, env, c| {
            for last in 0..27u64 {
                let mut b = DateTimeBuilder::new();
                b.chronology(&env.chron);
                let mut m = BM::default();
                for i in 0..filled {
                    set(&mut b, i, cand[i][0]);
                    m.f[i] = Some(cand[i][0]);
                }
                let mut acts = vec![];
                let mut x = c;
                for _ in 0..depth - 1 {
                    acts.push(x % 27);
                    x /= 27;
                }
                acts.push(last);
                w.states += 1;
                w.traces += 1;
                for k in 0..acts.len() {
                    let (i, v) = ((acts[k] / 3) as usize, cand[(acts[k] / 3) as usize][(acts[k] % 3) as usize]);
                    w.transitions += 1;
                    set(&mut b, i, v);
                    m.f[i] = Some(v);
                    // Build after every step; the earlier ones are shared by many sequences, so only some of them again.
                    if k + 1 == acts.len() || last % 9 == 0 {
                        check_builder(w, env, &b, &m, || {
                            format!(
                                "first {} fields set, then {}",
                                filled,
                                acts[..=k].iter().map(|a| format!("{}={} build", NAMES[(a / 3) as usize], cand[(a / 3) as usize][(a % 3) as usize])).collect::<Vec<_>>().join(" ")
                            )
                        });
                    }
                    if w.violated() {
                        return;
                    }
                }
                // Building again gives the same.
                let (x, y) = (guard(|| b.checked_build().ok()), guard(|| b.checked_build().ok()));
                w.transitions += 1;
                if x != y {
                    w.fail(format!("builder after {:?} built twice", acts), "equal results", "different");
                }
            }
        });
    }
    // The last chronology given is the one used, whenever it is given.
    let d = with_table("t", &l);
    e.par("chronology given twice", 1, || (Env::load(&l), Env::load(&l)), |w, (a, b), _| {
        let m = M::ns(l.ends[3].0 - 1, 86_400, 5);
        let (da, db) = (build(a, &m).expect("build"), build(b, &m).expect("build"));
        for order in 0..6 {
            w.transitions += 1;
            w.states += 1;
            w.traces += 1;
            let mut x = DateTimeBuilder::new();
            let (first, second) = if order % 2 == 0 { (&*a, &*b) } else { (&*b, &*a) };
            match order / 2 {
                0 => {
                    x.chronology(&first.chron).chronology(&second.chron);
                    fill(&mut x, &m);
                }
                1 => {
                    x.chronology(&first.chron);
                    fill(&mut x, &m);
                    x.chronology(&second.chron);
                }
                _ => {
                    x.chronology(&first.chron);
                    fill(&mut x, &m);
                    let _ = x.checked_build();
                    x.chronology(&second.chron);
                }
            }
            let r = guard(|| x.build());
            let want = if order % 2 == 0 { &db } else { &da };
            if r.as_ref() != Ok(want) {
                w.fail(format!("chronology given twice, order {}", order), "the last one used", "not so");
            }
        }
    });
    drop(d);
}

fn permute(f: &[usize], k: &mut impl FnMut(&[usize]) -> bool) {
    fn rec(a: &mut Vec<usize>, i: usize, k: &mut impl FnMut(&[usize]) -> bool) -> bool {
        if i == a.len() {
            return k(a);
        }
        for j in i..a.len() {
            a.swap(i, j);
            let go = rec(a, i + 1, k);
            a.swap(i, j);
            if !go {
                return false;
            }
        }
        true
    }
    rec(&mut f.to_vec(), 0, k);
}
