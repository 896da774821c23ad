//! C29: nothing is left behind. After each operation, refused or not, and after dropping what it
//! returned, the memory in use, the open files, the environment, the working directory, the zone data
//! and the panic hook are as before.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_data::{calls_of, faults_of, faulty, Fault};
use crate::p_sched::{date_time_actions, instant_actions, load_action, Job};
use crate::tz::TzDir;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};
use std::cell::Cell;

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C29" => c29(e),
        _ => return false,
    }
    true
}

thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static OPEN: Cell<i64> = const { Cell::new(0) };
}

/// Counts the memory that this thread has allocated and not given back.
pub struct Counting;
fn count(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let (a, b) = l.get();
        l.set((a + bytes, b + blocks));
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64, 1);
        std::alloc::System.alloc(l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64, 1);
        std::alloc::System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64), -1);
        std::alloc::System.dealloc(p, l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64, 0);
        std::alloc::System.realloc(p, l, n)
    }
}

/// Told by the interposed open and close.
pub fn opened(n: i64) {
    let _ = OPEN.try_with(|o| o.set(o.get() + n));
}

#[derive(PartialEq, Clone, Copy, Debug)]
struct Held {
    bytes: i64,
    blocks: i64,
    files: i64,
}
fn held() -> Held {
    let (bytes, blocks) = LIVE.with(|l| l.get());
    Held { bytes, blocks, files: OPEN.with(|o| o.get()) }
}

/// As often as it takes for anything that is done only once, or kept up to some bound.
const WARM: usize = 40;
const AGAIN: usize = 24;

/// Executes f repeatedly: what is held must stay the same.
fn steady(w: &mut W, what: &dyn Fn() -> String, mut f: impl FnMut()) {
    for _ in 0..WARM {
        f();
    }
    let before = held();
    for _ in 0..AGAIN {
        f();
    }
    let after = held();
    w.states += 1;
    w.traces += 1;
    w.transitions += (WARM + AGAIN) as u64;
    if before != after {
        w.fail(
            what(),
            "after everything is dropped nothing more is held than before",
            format!("{} bytes in {} blocks and {} open files more after {} times", after.bytes - before.bytes, after.blocks - before.blocks, after.files - before.files, AGAIN),
        );
    }
}

/// The process and the files it can see.
#[derive(PartialEq, Debug)]
struct World {
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    cwd: Option<std::path::PathBuf>,
    files: Vec<(String, Vec<u8>, Option<std::time::SystemTime>)>,
}

fn list(dir: &std::path::Path, out: &mut Vec<(String, Vec<u8>, Option<std::time::SystemTime>)>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for x in d.flatten() {
        let p = x.path();
        let modified = x.metadata().ok().and_then(|m| m.modified().ok());
        if p.is_dir() {
            out.push((p.display().to_string(), vec![], modified));
            list(&p, out);
        } else {
            out.push((p.display().to_string(), std::fs::read(&p).unwrap_or_default(), modified));
        }
    }
    out.sort();
}

fn world() -> World {
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    let mut files = vec![];
    // Everything this process may write to.
    list(&std::env::temp_dir(), &mut files);
    World { env, cwd: std::env::current_dir().ok(), files }
}

/// The panic hook is still that of the program.
fn hook_works() -> bool {
    let _ = guard(|| std::panic::panic_any("marker"));
    last_panic().ends_with("marker")
}

fn unchanged(w: &mut W, before: &World, what: &dyn Fn() -> String) {
    let after = world();
    if *before != after {
        let how = if before.env != after.env {
            "the environment has changed".to_string()
        } else if before.cwd != after.cwd {
            format!("the working directory is {:?}", after.cwd)
        } else {
            let b: Vec<_> = before.files.iter().map(|x| &x.0).collect();
            let a: Vec<_> = after.files.iter().map(|x| &x.0).collect();
            format!("files have changed: before {:?}, after {:?}", b, a)
        };
        w.fail(what(), "environment, working directory and files as before", how);
    }
    if !hook_works() {
        w.fail(what(), "the panic hook as before", "another one");
    }
}

/// The same for things of which there are many: once more, and if that leaves something, more often.
fn steady_at_once(w: &mut W, what: &dyn Fn() -> String, mut f: impl FnMut()) {
    f();
    f();
    let before = held();
    f();
    if held() == before {
        w.states += 1;
        w.traces += 1;
        w.transitions += 3;
    } else {
        steady(w, what, f);
    }
}

/// All that can be done with a result.
fn use_up(dt: &DateTime, r: Option<Got>) {
    let look = |d: &DateTime| drop((getters(d), d == dt, format!("{:?}", d)));
    match r {
        None => (),
        Some(Got::Plain(d)) => look(&d),
        Some(Got::Carry(c)) => {
            look(&c.clone().drop_carry());
            drop(guard(|| c.checked_apply_carry().map(|d| look(&d))));
            drop(guard(|| look(&c.apply_carry())));
            drop(format!("{:?} {} {} {}", c, c.has_carry(), c.days_carry(), c.seconds_carry()));
            drop(guard(|| c.unwrap()));
        }
    }
}

fn amounts(day: i32) -> Vec<Op> {
    let mut v = vec![];
    let to_end = (MAX_DAY - day) as i64;
    for n in [0, 1, -1, 4, -4, 400, 9999, -9999, i16::MIN, i16::MAX] {
        v.push(Op::Years(n));
    }
    for n in [1, -1, 2, -2, 12, 13, 119_999, -119_999, 120_000, i32::MIN, i32::MAX] {
        v.push(Op::Months(n));
    }
    for n in [1, -1, 2, 59, -400, to_end as i32, to_end as i32 + 1, 3_652_425, i32::MIN, i32::MAX] {
        v.push(Op::Days(n));
    }
    for n in [1, -24, i32::MIN, i32::MAX] {
        v.push(Op::Hours(n));
    }
    for n in [1, -1, 1440, -1440, to_end * 1440 + 1440, 1 << 41, -(1 << 41), 1 << 45, i64::MIN, i64::MAX] {
        v.push(Op::Minutes(n));
    }
    for n in [1, -1, 86_400, -86_401, to_end * 86_400 + 86_400 * 2, 1 << 45, -(1 << 45), 1 << 50, i64::MIN, i64::MAX] {
        v.push(Op::Seconds(n));
    }
    v
}

fn lives(e: &Engine, tabs: &[Leaps]) {
    for l in tabs {
        // Each in the life of a chronology of its own, as what is held on to may be shared.
        let mut days = special_days(l);
        if e.thorough() {
            days.extend((MIN_DAY..=MAX_DAY).step_by(997));
        }
        let days = &days;
        crate::p_dt::par_env(e, &format!("lives of a chronology, table {}", l.name), l, days.len() as u64, |w, _, c| {
            let day = days[c as usize];
            for m in [M::ns(day, l.day_len(day) - 1, 1), M { day, sec: 43_210, ns: 0, prec: P_DAY }] {
                for op in amounts(day) {
                    for checked in [true, false] {
                        steady_at_once(w, &|| format!("table {}: load, build {}, add {:?} ({}), use the result, drop all", l.name, m.show(), op, if checked { "checked" } else { "unchecked" }), || {
                            let env = Env::load(l);
                            if let Ok(dt) = build(&env, &m) {
                                let r = if checked { run(&dt, op).ok().flatten() } else { run_unchecked(&dt, op).ok() };
                                use_up(&dt, r);
                            }
                        });
                    }
                }
                if w.violated() {
                    return;
                }
            }
            let (y, mo, d) = cal().date(day);
            for (y, mo, d) in [(y as u16, mo as u8, d as u8), (y as u16, mo as u8, 32), (y as u16, mo as u8, 31), (y as u16 + 10_000, mo as u8, d as u8)] {
                for (h, mi, s) in [(0u8, 0u8, 0u8), (23, 59, 58), (23, 59, 59), (23, 59, 60), (23, 59, 61), (23, 59, 62), (23, 60, 0), (24, 0, 0), (12, 0, 60), (255, 255, 255)] {
                    for fraction in [0u16, 999, 1000, 65_535] {
                        for how in 0..4 {
                            let what = || format!("table {}: {} {}-{}-{} {}:{}:{} fractions {}{}", l.name, if how < 2 { "checked_build" } else { "build" }, y, mo, d, h, mi, s, fraction, if how % 2 == 1 { ", default chronology" } else { "" });
                            steady_at_once(w, &what, || {
                                let mut b = DateTimeBuilder::new();
                                if how % 2 == 0 {
                                    b.chronology(&load_chronology("UTC"));
                                }
                                b.year(y).month(mo).day(d).hour(h).minute(mi).second(s);
                                if fraction > 0 {
                                    b.millisecond(fraction).microsecond(fraction).nanosecond(fraction);
                                }
                                if how < 2 {
                                    drop(guard(|| b.checked_build()));
                                } else {
                                    drop(guard(|| b.build()));
                                }
                            });
                        }
                    }
                }
                if w.violated() {
                    return;
                }
            }
            w.sample(|| format!("table {}: {} operations and builds on {}-{}-{}", l.name, amounts(day).len(), y, mo, d));
        });
        // Conversions of every era.
        let mut times: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -(1 << 40), -2_208_988_800, -86_401, -86_400, -1, 0, 1, 78_796_800, 1_483_228_800, 1_700_000_000, 253_402_300_800, 1 << 31, 1 << 40, i64::MAX];
        times.extend(l.ends.iter().flat_map(|x| (-2..=2).map(|k| x.0 as i64 * 86_400 + k)));
        let times = &times;
        crate::p_dt::par_env(e, &format!("conversions, table {}", l.name), l, times.len() as u64, |w, _, c| {
            let sec = times[c as usize];
            for ns in [0, 1, 999_999_999] {
                macro_rules! conv {
                    ($($t:ty: $s:ident),*) => { $(
                        let t = crate::p_sys::sys(sec, ns);
                        steady_at_once(w, &|| format!("table {}: system time {}.{:09} to {} with {}", l.name, sec, ns, stringify!($t), stringify!($s)), || {
                            drop(guard(|| <momentous::Instant<$t, crate::p_sys::$s> as TryFrom<std::time::SystemTime>>::try_from(t).is_ok()));
                        });
                    )* };
                }
                conv!(i8: P1, i32: P1, u32: P1, i64: P1, i64: P1e9, u64: P1e9, i128: P1e9, i128: P1000);
            }
        });
    }
}

fn act_once(j: &Job) {
    drop(j.0.perform_quietly());
}

fn c29(e: &Engine) {
    e.rule("every operation of an alphabet (build, read, nine additions, carries, compare, clone, instants, system times, load, default build) on the special moments of several tables; every fault of every call a load or conversion makes (thorough: every two); every order of dropping eight related values; refused builds; in the life of a chronology of its own each of 55 amounts, checked and unchecked, every use of its result, and 160 builds on special days of each table; conversions to eight types around every entry and at the ends of what there is; acceptable and unacceptable tables: each is executed until anything bounded or done once is done, then again, with memory, open files, environment, working directory, files and panic hook compared. States: operations so examined.");
    e.assume("memory is what goes through the global allocator on the executing thread; open files are those opened through open64 and closed through close");
    let tabs = vec![iers(), odd_table(), Leaps::new("[]", vec![]), Leaps::new("[+1000,+1400]", vec![(1000, 1), (1400, 1)])];

    let what = ["load_chronology(\"UTC\")", "load_chronology(\"A/B\")", "conversion of a system time", "the builder's default chronology"];
    let run_of = |k: usize| -> bool {
        use crate::p_sys::{sys, P1e9};
        match k {
            0 => guard(|| load_chronology("UTC")).is_ok(),
            1 => guard(|| load_chronology("A/B")).is_ok(),
            2 => guard(|| <momentous::Instant<i128, P1e9> as TryFrom<std::time::SystemTime>>::try_from(sys(1_700_000_000, 3)).is_ok()) == Ok(true),
            _ => guard(|| DateTime::builder().year(2000).month(1).checked_build().is_ok()) == Ok(true),
        }
    };

    // Is the measuring alive?
    e.seq("measuring", 1, || (), |w, _, _| {
        let h = held();
        let b = std::hint::black_box(vec![1u8; 100]);
        let f = std::fs::File::open("/dev/null").expect("open /dev/null");
        let k = held();
        assert!(k.bytes - h.bytes >= 100 && k.blocks > h.blocks && k.files == h.files + 1, "nothing is measured");
        drop((b, f));
        assert!(held() == h, "nothing is measured");
        w.states += 1;
    });

    e.seq("operations", tabs.len() as u64, || (), |w, _, c| {
        let l = &tabs[c as usize];
        let d = with_table("d", l);
        d.activate();
        let env = std::sync::Arc::new(crate::p_sched::Any(Env::load(l)));
        let before = world();
        let mut days: Vec<i32> = vec![cal().day(2000, 2, 29), cal().day(1969, 12, 31), cal().day(0, 1, 3), cal().day(9995, 12, 30)];
        days.extend(l.ends.iter().rev().take(e.pick(6, 60)).flat_map(|x| [x.0 - 1, x.0]));
        for day in days {
            for sec in [0, 43_200, l.day_len(day) - 1] {
                let m = M::ns(day, sec, 123_456_789);
                for j in date_time_actions(&env, m) {
                    steady(w, &|| j.0.name.clone(), || act_once(&j));
                    if w.violated() {
                        return;
                    }
                }
                w.sample(|| format!("all operations on {} table {}", m.show(), l.name));
                // The same in the life of a chronology, as what an operation holds on to may be shared.
                if sec != 43_200 {
                    let n = date_time_actions(&env, m).len();
                    for k in 0..n {
                        let name = || format!("load, {}, drop all", date_time_actions(&env, m)[k].0.name);
                        steady(w, &name, || {
                            let env = std::sync::Arc::new(crate::p_sched::Any(Env::load(l)));
                            act_once(&date_time_actions(&env, m)[k]);
                        });
                    }
                    if w.violated() {
                        return;
                    }
                }
            }
        }
        for j in instant_actions(l).into_iter().chain([load_action(&[l])]) {
            steady(w, &|| format!("{}, table {}", j.0.name, l.name), || act_once(&j));
        }
        // Builds that are refused, and missing fields, with this and with the default chronology.
        for (y, mo, dd, h, mi, s) in [(10_000u16, 1u8, 1u8, 0u8, 0u8, 0u8), (2001, 2, 29, 0, 0, 0), (2001, 13, 1, 0, 0, 0), (2001, 1, 1, 24, 0, 0), (2001, 1, 1, 0, 60, 0), (2001, 1, 1, 0, 0, 60), (2001, 1, 1, 0, 0, 0)] {
            for default in [false, true] {
                for skip in [false, true] {
                    let mut b = DateTimeBuilder::new();
                    if !default {
                        b.chronology(&env.0.chron);
                    }
                    b.year(y).month(mo).hour(h).minute(mi).second(s);
                    if !skip {
                        b.day(dd);
                    }
                    let b = &b;
                    let what = move || format!("build {:?}{}{}", (y, mo, dd, h, mi, s), if skip { " without a day" } else { "" }, if default { ", default chronology" } else { "" });
                    steady(w, &what, || drop(guard(|| b.checked_build())));
                    steady(w, &what, || drop(guard(|| b.build())));
                }
            }
        }
        unchanged(w, &before, &|| format!("all operations under table {}", l.name));
    });

    lives(e, &tabs);

    // Data that is well-formed but not acceptable, or only just.
    let mut odd: Vec<Leaps> = vec![];
    for ends in [vec![(1000, 1), (900, 1)], vec![(1000, 1), (1000, 1)], vec![(1000, 127)], vec![(1000, 128)], vec![(1000, -128)], vec![(1000, -129)], vec![(1000, 100), (2000, -100)], vec![(0, 1)], vec![(-5, 1)], vec![(1, 1)], vec![(24_000, 1)]] {
        odd.push(Leaps::new(&format!("{:?}", ends), ends));
    }
    for n in [26, 27, 49, 50, 51, 60] {
        odd.push(Leaps::new(&format!("{} records", n), (1..=n).map(|k| (k * 300, 1)).collect()));
    }
    e.seq("odd data", 4 * odd.len() as u64, || TzDir::new("d"), |w, d, c| {
        let (k, l) = (c as usize % 4, &odd[c as usize / 4]);
        d.put("A/B", l);
        d.put("UTC", l);
        d.activate();
        let before = world();
        steady(w, &|| format!("{}, table {}", what[k], l.name), || {
            run_of(k);
        });
        unchanged(w, &before, &|| format!("{}, table {}", what[k], l.name));
        w.sample(|| format!("{}, table {}", what[k], l.name));
    });

    // Eight values that share a chronology, dropped in every order: what remains works, and nothing is left
    // in the end.
    let first: Vec<usize> = (0..8).collect();
    e.seq("drop orders", 8 * tabs.len() as u64, || (), |w, _, c| {
        let l = &tabs[(c / 8) as usize];
        let d = with_table("d", l);
        d.activate();
        let day = l.ends.last().map_or(700, |x| x.0 - 1);
        let m = M::new(day, l.day_len(day) - 1);
        let mut rest = first.clone();
        let head = rest.remove(c as usize % 8);
        let mut orders = vec![];
        crate::p_data::permutations(&mut rest, 0, &mut orders);
        let mut n = 0u64;
        let mut base: Option<Held> = None;
        for o in &orders {
            let h = held();
            {
                let env = Env::load(l);
                let (Ok(dt), Ok(dt2)) = (build(&env, &m), build(&env, &m)) else {
                    w.fail(m.show(), "built", "refused");
                    return;
                };
                let mut b = DateTimeBuilder::new();
                b.chronology(&env.chron);
                fill(&mut b, &m);
                let (expect2, carry) = m.step(&env.leaps, Op::Days(1)).expect("a day later");
                let minus = m.step(&env.leaps, Op::Seconds(-1)).expect("a second earlier").0;
                let mut chron: Vec<Option<Chronology>> = vec![Some(env.chron.clone()), Some(env.chron.clone())];
                drop(env);
                let mut dts: Vec<Option<(DateTime, M)>> = vec![Some((dt.clone(), m)), dt.checked_add_seconds(-1).map(|x| (x, minus)), Some((dt2, m))];
                let mut carried: Vec<Option<DateTimeWithCarry>> = vec![dt.checked_add_days(1), Some(dt.add_days(1))];
                drop(dt);
                let mut b = Some(b);
                for x in [head].iter().chain(o.iter()) {
                    n += 1;
                    match x {
                        0 | 1 => chron[*x] = None,
                        2..=4 => dts[*x - 2] = None,
                        5 | 6 => carried[*x - 5] = None,
                        _ => b = None,
                    }
                    // What remains.
                    let alive = guard(|| {
                        dts.iter().flatten().all(|(d, m)| getters_match(d, m) && d.checked_add_seconds(0).as_ref() == Some(d))
                            && carried.iter().flatten().all(|c| {
                                c.has_carry() == (carry != Carry::default()) && c.clone().checked_apply_carry().map(|d| (d.day(), d.second())) == expect2.apply_carry(l, carry).map(|x| (cal().date(x.day).2 as u8, x.hms().2 as u8))
                            })
                            && b.as_ref().map_or(true, |b| matches!(b.checked_build(), Ok(d) if getters_match(&d, &m)))
                            && chron.iter().flatten().all(|c| DateTime::builder().chronology(c).year(2000).checked_build().is_ok())
                    });
                    if alive != Ok(true) {
                        w.fail(format!("table {}: of 8 values that share a chronology, dropping in the order {} {:?}", l.name, head, o), "those that remain work", if alive.is_err() { last_panic() } else { "wrong results".into() });
                        return;
                    }
                }
            }
            let now = held();
            // (The first rounds may do things once.)
            if n > 8 * WARM as u64 {
                if let Some(b) = base {
                    if b != now {
                        w.fail(format!("table {}: 8 values that share a chronology, dropped in the order {} {:?}", l.name, head, o), "nothing is held", format!("{:?}, before {:?}", now, h));
                        return;
                    }
                }
                base = Some(now);
            }
            w.traces += 1;
        }
        w.states += orders.len() as u64;
        w.transitions += n;
        w.sample(|| format!("table {}: {} orders that begin with value {}", l.name, orders.len(), head));
    });

    // Ever new data and ever new days: what is kept is bounded.
    e.seq("ever new values", 3, || TzDir::new("d"), |w, d, c| {
        d.put("UTC", &tabs[0]);
        d.activate();
        let env = Env::load(&tabs[0]);
        let half = if c == 0 { 400 } else { 4000 };
        let mut at_half = None;
        for n in 0..2 * half {
            if n == half {
                at_half = Some(held());
            }
            if c == 0 {
                // The same size, another content.
                let l = Leaps::new("t", vec![(1000 + n, 1), (3000 + n / 2, 1)]);
                d.put("UTC", &l);
                drop(guard(|| load_chronology("UTC")));
                drop(guard(|| DateTime::builder().year(2000).checked_build()));
            } else if c == 1 {
                let m = M::ns(n * 7 - 20_000, (n as u32 * 11) % 86_400, n as u32);
                for op in [Op::Years(1), Op::Months(1), Op::Days(n), Op::Hours(n), Op::Minutes(n as i64), Op::Seconds(n as i64 * 86_400)] {
                    if let Ok(dt) = build(&env, &m) {
                        drop(run(&dt, op));
                    }
                }
            } else {
                let t = n as i64 * 400_000 - 900_000_000;
                drop(guard(|| <momentous::Instant<i128, crate::p_sys::P1e9> as TryFrom<std::time::SystemTime>>::try_from(crate::p_sys::sys(t, 3)).is_ok()));
            }
            w.transitions += 1;
        }
        let now = held();
        w.states += 2 * half as u64;
        w.traces += 1;
        if at_half != Some(now) {
            w.fail(["loading ever new data", "operations on ever new date-times", "converting ever new system times"][c as usize], format!("what is kept after {} of them is not exceeded later", half), format!("{:?}, then {:?}", at_half, now));
        }
    });

    // Loads, conversions and default builds of which a call fails, or the data is bad.
    e.seq("failing calls", 4, || TzDir::new("d"), |w, d, c| {
        let l = &tabs[0];
        d.put("UTC", l);
        d.put("A/B", &tabs[2]);
        d.activate();
        let before = world();
        let k = c as usize;
        let (_, calls) = faulty(vec![], None, || run_of(k));
        for n in 0..calls.len() {
            for f in faults_of(calls[n]) {
                let (_, next) = faulty(vec![(n, f)], None, || run_of(k));
                let mut plans: Vec<Vec<(usize, Fault)>> = vec![vec![(n, f)]];
                if e.thorough() {
                    for (j, cj) in next.iter().enumerate().skip(n + 1) {
                        plans.extend(faults_of(*cj).into_iter().map(|g| vec![(n, f), (j, g)]));
                    }
                }
                for p in plans {
                    steady(w, &|| format!("{} with {:?}", what[k], p), || {
                        faulty(p.clone(), None, || run_of(k));
                    });
                    if w.violated() {
                        return;
                    }
                }
            }
        }
        unchanged(w, &before, &|| format!("{} with failing calls", what[k]));
        w.sample(|| format!("{}: calls {:?}", what[k], calls_of(&calls)));
    });
    // Bad data: cut off at every byte.
    e.seq("bad data", 4 * 3, || TzDir::new("d"), |w, d, c| {
        let (k, l) = (c as usize % 4, [&tabs[0], &tabs[2], &tabs[3]][c as usize / 4]);
        d.put("A/B", l);
        d.activate();
        let b = crate::tz::tzif(l);
        for cut in 0..b.len() {
            std::fs::write(format!("{}/right/UTC", d.path), &b[..cut]).unwrap();
            let before = if cut % 16 == 0 { Some(world()) } else { None };
            steady(w, &|| format!("{}, table {} cut off after {} bytes", what[k], l.name, cut), || {
                run_of(k);
            });
            if let Some(before) = before {
                unchanged(w, &before, &|| format!("{}, table {} cut off after {} bytes", what[k], l.name, cut));
            }
            if w.violated() {
                return;
            }
        }
        w.sample(|| format!("{}, table {} cut off at each of {} bytes", what[k], l.name, b.len()));
    });
    // Whatever the environment looks like.
    e.seq("environments", 4 * 5, || TzDir::new("d"), |w, d, c| {
        let (k, v) = (c as usize % 4, c as usize / 4);
        d.put("UTC", &tabs[0]);
        d.put("A/B", &tabs[0]);
        d.activate();
        let here = std::env::current_dir().expect("a working directory");
        match v {
            // The installed data.
            0 => std::env::remove_var("TZDIR"),
            1 => std::env::set_var("TZDIR", format!("{}/none", d.path)),
            2 => {
                std::env::set_current_dir(&d.path).expect("the scratch directory");
                std::env::set_var("TZDIR", ".");
            }
            3 => {
                std::env::set_var("TZ", "Europe/Stockholm");
                std::env::set_var("ZONEINFO", "/nowhere");
            }
            _ => {
                std::fs::remove_dir_all(format!("{}/right", d.path)).expect("to remove it");
            }
        }
        let before = world();
        let what = || format!("{} {}", what[k], ["without TZDIR", "with TZDIR naming nothing", "with TZDIR=.", "with other variables", "without the directory right"][v]);
        steady(w, &what, || {
            run_of(k);
        });
        unchanged(w, &before, &what);
        w.sample(what);
        std::env::set_current_dir(&here).expect("to go back");
        std::env::remove_var("TZ");
        std::env::remove_var("ZONEINFO");
    });
}
