//! C16, C17: system times.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_tables::table_list;
use crate::tz::TzDir;
use momentous::{Instant, Scale};
use std::cell::Cell;
use std::time::{Duration as StdDuration, SystemTime, UNIX_EPOCH};

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C16" => c16(e),
        "C17" => c17(e),
        _ => return false,
    }
    true
}

// --- The clock ---------------------------------------------------------------------------------
thread_local! {
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
/// What this thread's real-time clock shows; None is the system's.
pub fn set_now(t: Option<(i64, i64)>) {
    NOW.with(|n| n.set(t));
}
pub fn fake_now() -> Option<(i64, i64)> {
    NOW.try_with(|n| n.get()).ok().flatten()
}

/// A system time from whole seconds since 1970 (rounded down) and nanoseconds.
pub fn sys(sec: i64, ns: u32) -> SystemTime {
    if sec >= 0 {
        UNIX_EPOCH + StdDuration::new(sec as u64, ns)
    } else {
        UNIX_EPOCH - StdDuration::new(sec.unsigned_abs(), 0) + StdDuration::new(0, ns)
    }
}

macro_rules! scales {
    ($($n:ident = $v:expr),*) => {
        $(
            #[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
            pub struct $n;
            impl Scale for $n {
                const TICKS_PER_SECOND: u32 = $v;
            }
        )*
    };
}
scales!(P1 = 1, P2 = 2, P5 = 5, P10 = 10, P100 = 100, P1000 = 1000, P1e6 = 1_000_000, P5e8 = 500_000_000, P1e9 = 1_000_000_000);

/// One conversion to a given type; expected None: the type cannot hold it.
macro_rules! conv {
    ($w:expr, $name:expr, $sec:expr, $ns:expr, $total:expr, $T:ty, $S:ty) => {{
        $w.transitions += 1;
        let s = <$S as Scale>::TICKS_PER_SECOND as i128;
        let exp: Option<$T> = <$T>::try_from(($sec as i128 + $total as i128) * s + $ns as i128 / (1_000_000_000 / s)).ok();
        let t = sys($sec, $ns);
        let got = guard(|| <Instant<$T, $S> as TryFrom<SystemTime>>::try_from(t).ok().map(|i| i.ticks_since_epoch()));
        // In the last second of the type's range only the whole second may already not fit.
        let whole = <$T>::try_from(($sec as i128 + $total as i128) * s).is_ok();
        let ok = match (&got, &exp) {
            (Ok(None), Some(_)) | (Err(()), Some(_)) => !whole,
            (Ok(g), e) => g == e,
            (Err(()), None) => true,
        };
        if ok {
            $w.hit(if exp.is_some() { "converted" } else { "does not fit, refused" });
        } else {
            $w.fail_snip(
                format!("table={} system time {}.{:09} s after 1970 to ticks of 1/{} s in {}", $name, $sec, $ns, s, stringify!($T)),
                match exp {
                    Some(x) => x.to_string(),
                    None => "refused".to_string(),
                },
                match got {
                    Ok(Some(x)) => x.to_string(),
                    Ok(None) => "refused".to_string(),
                    Err(()) => last_panic(),
                },
                format!("  // convert {}.{:09} s since the Unix epoch (floor seconds, ns) to Instant<{}, {}>", $sec, $ns, stringify!($T), s),
            );
        }
    }};
}

fn all_types(w: &mut W, l: &Leaps, sec: i64, ns: u32) {
    let total = total_at(l, sec);
    macro_rules! each {
        ($($T:ty: $($S:ty),*);*) => { $($( conv!(w, l.name, sec, ns, total, $T, $S); )*)* };
    }
    each!(i32: P1, P2; u32: P1; i64: P1, P2, P5, P10, P100, P1000, P1e6, P5e8, P1e9; u64: P1, P1000, P1e9; i128: P1, P1000, P1e9; u128: P1, P1e9);
}
fn few_types(w: &mut W, l: &Leaps, sec: i64, ns: u32) {
    let total = total_at(l, sec);
    conv!(w, l.name, sec, ns, total, i64, P1);
    conv!(w, l.name, sec, ns, total, i128, P1e9);
}
pub fn total_at(l: &Leaps, unix: i64) -> i64 {
    let day = unix.div_euclid(86_400);
    l.total_before(day.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
}

const NS: [u32; 9] = [0, 1, 999, 1_000, 999_999, 1_000_000, 500_000_000, 999_000_000, 999_999_999];

fn windows(l: &Leaps, r: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (-r..=r).collect();
    for (d, _) in &l.ends {
        for k in -r..=r {
            v.push(*d as i64 * 86_400 + k);
        }
        // Where a mix-up of the two time lines would put the adjustment.
        let t = l.total_before(*d);
        v.extend([*d as i64 * 86_400 + t, *d as i64 * 86_400 + t - 1, (*d as i64 - 1) * 86_400]);
    }
    v.sort();
    v.dedup();
    v
}

fn c16(e: &Engine) {
    e.rule("conversions of system times: every day 1900-2100 under several leap-second tables at its first, middle and last second, windows of seconds around every adjustment, the epoch and far values, times every sub-second class, into every tick type and scale; thorough: every second of the days around adjustments and every day of 9999 years; every two conversions one after another of times that agree in some bits; data replaced between conversions");
    e.assume("the machine's clock does not count leap seconds (TZ=UTC0; C17 covers the others); scales divide 1e9 and fit the tick type together with 1e9");
    std::env::set_var("TZ", "UTC0");
    let mut main = vec![iers(), odd_table(), Leaps::new("[]", vec![]), Leaps::new("[-1]", vec![(1, -1)]), Leaps::new("alternating", (1..=40).map(|d| (d, if d % 2 == 0 { 1 } else { -1 })).collect())];
    main.push(Leaps::new("40 in a row", (1..=40).map(|d| (d, 1)).collect()));
    for l in &main {
        let _d = with_table("t", l);
        // Every day.
        let (lo, hi) = if e.thorough() && l.name == "iers" { (MIN_DAY as i64, MAX_DAY as i64) } else { (-25_567, 47_482) };
        let per = 512;
        e.par(&format!("every day, table {}", l.name), ((hi - lo + 1 + per - 1) / per) as u64, || (), |w, _, c| {
            for day in lo + c as i64 * per..(lo + (c as i64 + 1) * per).min(hi + 1) {
                for (s, ns) in [(0, 0), (43_200, 500_000_000), (86_399, 999_999_999)] {
                    w.states += 1;
                    w.traces += 1;
                    conv!(w, l.name, day * 86_400 + s, ns, l.total_before(day as i32), i64, P1000);
                }
            }
        });
        // Windows, all types.
        let win = windows(l, e.pick(3, 40));
        e.par(&format!("windows, table {}", l.name), win.len() as u64, || (), |w, _, c| {
            let s = win[c as usize];
            for ns in NS {
                w.states += 1;
                w.traces += 1;
                all_types(w, l, s, ns);
            }
            w.sample(|| format!("table {} unix {} -> {}", l.name, s, s + total_at(l, s)));
        });
        // Far away.
        let mut far: Vec<i64> = vec![];
        for b in [1i64 << 31, 1 << 32, 1 << 33, 100_000_000_000, 253_402_300_799, -62_167_219_200, 1 << 40, i32::MAX as i64 * 86_400, i64::MAX / 1_000_000_000] {
            for k in -30..=30 {
                far.push(b + k);
                far.push(-b + k);
            }
        }
        // Days counted in fewer bits than the seconds, and the ends of what a system time can express.
        for k in 15..=46 {
            for d in [(1i64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 3_000, (1 << k) + 17_000, (1 << k) + 30_000] {
                far.extend([d * 86_400, d * 86_400 - 1, -d * 86_400, -d * 86_400 - 1]);
            }
        }
        for k in 31..63 {
            far.extend([1i64 << k, (1 << k) - 1, (1 << k) + 1_483_228_827, -(1i64 << k), -(1i64 << k) - 1]);
        }
        for k in 0..100 {
            far.extend([i64::MAX - k, i64::MIN + k]);
        }
        far.sort();
        far.dedup();
        e.par(&format!("far, table {}", l.name), far.len() as u64, || (), |w, _, c| {
            for ns in [0, 1, 999_999_999] {
                w.states += 1;
                w.traces += 1;
                all_types(w, l, far[c as usize], ns);
            }
        });
        if e.thorough() {
            // Every second of the days on either side of every adjustment.
            let n = l.ends.len() as u64;
            e.par(&format!("every second around adjustments, table {}", l.name), n * 240, || (), |w, _, c| {
                let d = l.ends[(c / 240) as usize].0 as i64;
                let from = (d - 1) * 86_400 + (c % 240) as i64 * 720;
                for s in from..from + 720 {
                    w.states += 1;
                    w.traces += 1;
                    few_types(w, l, s, 999_999_999);
                }
            });
        }
    }
    // Before 1970: every second of the last days, and a sweep of the sub-second part.
    let l = iers();
    let _d = with_table("t", &l);
    e.par("seconds around 1970", 200, || (), |w, _, c| {
        let per = e.pick(200, 2000);
        for s in -100 * per + c as i64 * per..-100 * per + (c as i64 + 1) * per {
            w.states += 1;
            w.traces += 1;
            few_types(w, &l, s, (s.unsigned_abs() * 7919 % 1_000_000_000) as u32);
        }
    });
    e.par("sub-second sweep", 1000, || (), |w, _, c| {
        for k in 0..e.pick(10u32, 100) {
            let ns = c as u32 * 1_000_000 + k * e.pick(100_000, 10_000) + k;
            for s in [-1i64, 0, 1_483_228_799, 1_483_228_800, -86_401] {
                w.states += 1;
                w.traces += 1;
                conv!(w, l.name, s, ns, total_at(&l, s), i64, P1e9);
                conv!(w, l.name, s, ns, total_at(&l, s), i64, P1e6);
                conv!(w, l.name, s, ns, total_at(&l, s), i128, P1000);
            }
        }
    });
    // Every two conversions one after another, of times that agree in some of their bits.
    for l in [Leaps::new("[+100,-200]", vec![(100, 1), (200, -1)]), iers()] {
        let _d = with_table("t", &l);
        let mut times: Vec<i64> = l.ends.iter().take(e.pick(2, 4)).flat_map(|x| crate::p_hist::like(x.0)).map(|d| d as i64 * 86_400).collect();
        for t in [l.ends[0].0 as i64 * 86_400, l.ends[1].0 as i64 * 86_400 - 1] {
            times.extend((8..40).flat_map(|w| [t - (1 << w), t + (1 << w)]));
            times.extend([t, t - 1]);
        }
        times.sort();
        times.dedup();
        e.par(&format!("conversions one after another, table {}", l.name), times.len() as u64, || (), |w, _, c| {
            for &s in &times {
                w.states += 1;
                w.traces += 1;
                let _ = guard(|| <Instant<i64, P1> as TryFrom<SystemTime>>::try_from(sys(times[c as usize], 999_999_999)).is_ok());
                conv!(w, l.name, s, 0, total_at(&l, s), i64, P1);
                if w.violated() {
                    return w.fail(format!("after the conversion of {}.999999999", times[c as usize]), "", "as above");
                }
            }
        });
    }
    // Data replaced in place between two conversions.
    let ts: Vec<Leaps> = [vec![], vec![(100, 1)], vec![(100, -1)], vec![(200, 1)], vec![(100, 1), (200, -1)], vec![(100, -1), (200, 1)], vec![(100, 1), (101, 1), (200, 1)]]
        .into_iter()
        .map(|v| Leaps::new(&format!("{:?}", v), v))
        .collect();
    e.seq("conversions under changing data", (ts.len() * ts.len()) as u64, || with_table("c", &ts[0]), |w, d, c| {
        let (a, b) = (&ts[c as usize / ts.len()], &ts[c as usize % ts.len()]);
        let times: Vec<i64> = [0, 99, 100, 101, 200, 201].iter().flat_map(|d| [d * 86_400 - 1, d * 86_400]).collect();
        for &s1 in &times {
            for &s2 in &times {
                d.put("UTC", a);
                conv!(w, a.name, s1, 0, total_at(a, s1), i64, P1);
                d.put("UTC", b);
                conv!(w, b.name, s2, 0, total_at(b, s2), i64, P1);
                w.states += 1;
                w.traces += 1;
                if w.violated() {
                    return w.fail(format!("data {} replaced by {}", a.name, b.name), "", "as above");
                }
            }
        }
    });
    crate::p_hist::replaced_data(e, Some(|w, l| {
        for s in [0, 100, 101, 200, 201].iter().flat_map(|d| [d * 86_400 - 1, d * 86_400]) {
            conv!(w, l.name, s, 0, total_at(l, s), i64, P1);
        }
    }));
    // All tables; the conversion reads the data anew each time, so there is one process-wide at a time.
    for l in table_list(e) {
        let _d = with_table("t", &l);
        let mut win = windows(&l, 2);
        if win.len() > 120 {
            let k = win.len() / 60;
            win = win.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
        }
        e.par(&format!("table {}", l.name), 1, || (), |w, _, _| {
            for &s in &win {
                w.states += 1;
                w.traces += 1;
                for ns in [0, 999_999_999] {
                    few_types(w, &l, s, ns);
                }
            }
        });
    }
}

// --- C17 -----------------------------------------------------------------------------------------
/// What one process explores; glibc reads TZ once per process, so every TZ has its own process.
#[derive(Clone)]
struct Machine {
    tz: Option<String>,
    counts: bool,
    leaps: Leaps,
    lo: i64,
    hi: i64,
    /// Days per step.
    step: i64,
    dense: bool,
}

fn machines(e: &Engine) -> Vec<Machine> {
    let l = iers();
    let mut v = vec![];
    let m = |tz: Option<&str>, lo: i64, hi: i64, step: i64, dense: bool| Machine { tz: tz.map(|s| s.to_string()), counts: false, leaps: l.clone(), lo, hi, step, dense };
    v.push(m(None, e.pick(-25_567, MIN_DAY as i64), MAX_DAY as i64, 1, true));
    v.push(m(Some("UTC0"), 0, 60_000, 1, true));
    for z in ["XXX5YYY,M3.2.0,M11.1.0", "AAA-14", "BBB12", "CET-1CEST,M3.5.0/2,M10.5.0/3", "<+0530>-5:30"] {
        v.push(m(Some(z), -8000, e.pick(60_000, MAX_DAY as i64), 1, false));
    }
    // The zone data itself without leap seconds ("posix" files): no such file in the scratch TZDIR, so glibc
    // falls back to UTC, which does not count them either.
    v.push(m(Some(":no/such"), 0, 60_000, 1, false));
    for t in [iers(), odd_table(), Leaps::new("[+1]", vec![(1, 1)]), Leaps::new("[-1]", vec![(1, -1)])] {
        v.push(Machine { tz: Some(":right/UTC".into()), counts: true, leaps: t, lo: 0, hi: e.pick(60_000, MAX_DAY as i64 - 10), step: 1, dense: true });
    }
    v
}

fn c17(e: &Engine) {
    e.rule("the current time of the machine, as shown by an interposed clock, on every day of centuries to millennia at several times of day, under clocks that count leap seconds (TZ=right/UTC with several tables) and that do not (several TZ values), one process per TZ; each converting system times on either side of leap seconds");
    e.assume("the C library's gmtime_r honours TZ as glibc does; a leap-counting clock is recognisable only while the running total of leap seconds is not zero (before the first leap second both clocks show the same)");
    let ms = machines(e);
    if let Ok(k) = std::env::var("MC_MACHINE") {
        let k: usize = k.parse().unwrap();
        child(e, k, &ms[k]);
        return;
    }
    // Parent: one process per machine.
    let exe = std::env::current_exe().expect("own path");
    let only = e.only.clone();
    for (k, m) in ms.iter().enumerate() {
        if e.stopped() {
            break;
        }
        if let Some((p, _)) = &only {
            if !p.starts_with(&format!("machine {} ", k)) {
                continue;
            }
        }
        let d = TzDir::new("m");
        d.put("UTC", &m.leaps);
        let out = format!("{}/result", d.path);
        let mut c = std::process::Command::new(&exe);
        c.arg("C17").env("MC_MACHINE", k.to_string()).env("MC_RESULT", &out).env("TZDIR", &d.path).env_remove("TZ");
        if let Some(tz) = &m.tz {
            c.env("TZ", tz);
        }
        if let Some((p, n)) = &only {
            c.args(["--only", p, &n.to_string()]);
        }
        let st = c.status().expect("run the child process");
        if !st.success() && !std::path::Path::new(&out).exists() {
            eprintln!("ENGINE ERROR: child process {} ended with {}", k, st);
            std::process::exit(3);
        }
        e.absorb(&std::fs::read_to_string(&out).expect("result of the child process"));
    }
}

fn child(e: &Engine, k: usize, m: &Machine) {
    let name = format!("machine {} TZ={} {}", k, m.tz.as_deref().unwrap_or("(none)"), if m.counts { format!("counting {}", m.leaps.name) } else { "not counting".into() });
    // System times to convert: after all leap seconds, between, before 1970.
    let xs: [(i64, u32); 4] = [(1_700_000_000, 0), (300_000_000, 999_999_999), (-1, 0), (63_072_000, 1)];
    let check = |w: &mut W, now: (i64, i64), n: usize| {
        w.states += 1;
        w.traces += 1;
        for &(x, ns) in &xs[..n] {
            w.transitions += 1;
            let extra = if m.counts { 0 } else { total_at(&m.leaps, x) };
            let exp = (x + extra) as i128 * 1_000_000_000 + ns as i128;
            set_now(Some(now));
            let got = guard(|| <Instant<i128, P1e9> as TryFrom<SystemTime>>::try_from(sys(x, ns)).ok().map(|i| i.ticks_since_epoch()));
            set_now(None);
            if got == Ok(Some(exp)) {
                w.hit(if m.counts { "nothing added" } else { "leap seconds added" });
            } else {
                w.fail(
                    format!("{}: clock shows {}.{:09}, converting {}.{:09}", name, now.0, now.1, x, ns),
                    exp.to_string(),
                    match got {
                        Ok(g) => format!("{:?}", g),
                        Err(()) => last_panic(),
                    },
                );
            }
        }
    };
    // What the clock shows at a UTC day and second of day.
    let shows = |day: i64, sec: i64| -> Option<i64> {
        if m.counts {
            let t = m.leaps.total_before(day as i32);
            if t == 0 || sec >= m.leaps.day_len(day as i32) as i64 {
                None
            } else {
                Some(day * 86_400 + sec + t)
            }
        } else {
            Some(day * 86_400 + sec)
        }
    };
    if m.counts {
        // While the running total is 0 both kinds of clock show the same, and whatever is found out then
        // must not be held on to. (What is answered then is not judged.)
        if let Some(day) = (0..m.leaps.ends[0].0 as i64).find(|d| m.leaps.total_before(*d as i32) == 0) {
            set_now(Some((day * 86_400, 0)));
            let _ = guard(|| <Instant<i128, P1e9> as TryFrom<SystemTime>>::try_from(sys(1_700_000_000, 0)).ok());
            set_now(None);
        }
    }
    let per = 512 * m.step;
    e.par(&name, ((m.hi - m.lo + per) / per) as u64, || (), |w, _, c| {
        let from = m.lo + c as i64 * per;
        for day in (from..(from + per).min(m.hi + 1)).step_by(m.step as usize) {
            for s in [0, 86_399] {
                if let Some(t) = shows(day, s) {
                    check(w, (t, 0), 1);
                }
            }
            // The middle of the month with everything else.
            if (day - m.lo) % 97 == 0 {
                for (s, ns) in [(43_200, 500_000_000), (1, 1), (3_599, 999_999_999)] {
                    if let Some(t) = shows(day, s) {
                        check(w, (t, ns), 4);
                    }
                }
            }
        }
        w.sample(|| format!("clock on day {}", from));
    });
    if m.dense {
        // Every second of a few days, among them days with adjustments.
        let mut days: Vec<i64> = vec![17_167, 11_016, 19_782];
        if !m.counts {
            days.extend([-1, 0, 10_956]);
        }
        if m.counts {
            days.extend(m.leaps.ends.iter().rev().take(3).map(|x| x.0 as i64 - 1));
        }
        e.par(&format!("{} every second", name), days.len() as u64 * 96, || (), |w, _, c| {
            let day = days[(c / 96) as usize];
            let from = (c % 96) as i64 * 900;
            for s in from..from + 900 + if c % 96 == 95 { 1 } else { 0 } {
                if let Some(t) = shows(day, s) {
                    check(w, (t, 7), 1);
                }
            }
        });
    }
}
