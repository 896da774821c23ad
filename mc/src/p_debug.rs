//! C31: formatting for debugging never fails and tells apart exactly what differs.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_dt::par_env;
use momentous::iso8601::{DateTimeBuilder, DateTimeWithCarry};
use momentous::{Instant, Scale};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C31" => c31(e),
        _ => return false,
    }
    true
}

/// The texts seen so far (by two hashes) and what each was the text of.
struct Texts<K>(Vec<Mutex<HashMap<(u64, u64), K>>>);

impl<K: Clone + PartialEq + Debug> Texts<K> {
    fn new() -> Self {
        Texts((0..256).map(|_| Mutex::new(HashMap::new())).collect())
    }
    /// Formats the value and compares with everything formatted before.
    fn look(&self, w: &mut W, v: &dyn Debug, k: K) {
        w.states += 1;
        w.transitions += 1;
        w.traces += 1;
        let text = match guard(|| format!("{:?}", v)) {
            Ok(t) => t,
            Err(()) => return w.fail(format!("{:?} formatted for debugging", k), "a text", last_panic()),
        };
        let h = |salt: u64| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            salt.hash(&mut h);
            text.hash(&mut h);
            h.finish()
        };
        let key = (h(1), h(2));
        let mut m = self.0[(key.0 % 256) as usize].lock().unwrap_or_else(|e| e.into_inner());
        match m.get(&key) {
            None => {
                m.insert(key, k);
                w.hit("text not seen before");
            }
            Some(x) if *x == k => w.hit("the same value again"),
            Some(x) => {
                let x = x.clone();
                drop(m);
                w.fail(format!("{:?} formatted for debugging", k), "a text of its own", format!("that of {:?}: {}", x, text));
            }
        }
    }
}

fn c31(e: &Engine) {
    e.rule("the text of every day, of every second of days of every length, of special moments at every precision with finer fields set, of fractions of every precision, of the results of every kind of addition with their carries, of all 8- and 16-bit instants and durations and boundary values of wider ones, and of builder errors: formatting returns, equal values have equal texts and different ones different texts (every two within each group)");
    let l = iers();
    let t: Texts<M> = Texts::new();
    let days = MAX_DAY - MIN_DAY + 1;
    let per = 4096;
    par_env(e, "every day", &l, (days as u64).div_ceil(per), |w, env, c| {
        for day in MIN_DAY + (c * per) as i32..=(MIN_DAY + ((c + 1) * per) as i32 - 1).min(MAX_DAY) {
            for m in [M { day, sec: 0, ns: 0, prec: P_DAY }, M { day, sec: (day as u32).wrapping_mul(7919) % 86_340, ns: 0, prec: P_DAY + 3 }] {
                let Some(dt) = start(w, env, &m) else { return };
                t.look(w, &dt, m);
            }
        }
        w.sample(|| format!("day {}", MIN_DAY + (c * per) as i32));
    });
    // Seconds.
    let special: Vec<i32> = [MIN_DAY, MAX_DAY, 0, -1, 11_016].into_iter().chain(l.ends.iter().take(e.pick(3, 27)).flat_map(|x| [x.0 - 1, x.0])).collect();
    for l in [iers(), odd_table()] {
        // Another chronology may show in the text, or not.
        let t: Texts<M> = Texts::new();
        par_env(e, &format!("every second of some days, table {}", l.name), &l, special.len() as u64 * 24, |w, env, c| {
            let (day, h) = (special[(c / 24) as usize], (c % 24) as u32);
            let end = if h == 23 { env.leaps.day_len(day) } else { (h + 1) * 3600 };
            for sec in h * 3600..end {
                let m = M { day, sec, ns: 0, prec: P_DAY + 3 };
                let Some(dt) = start(w, env, &m) else { return };
                t.look(w, &dt, m);
            }
        });
    }
    // Fractions.
    let t: Texts<M> = Texts::new();
    let n = e.pick(200u32, 2000);
    par_env(e, "fractions", &l, 1000, |w, env, c| {
        let c = c as u32;
        let mut v = vec![(P_MS, c * 1_000_000)];
        v.extend((0..n).map(|k| (P_US, c * 1_000_000 + (k * 1000 / n) * 1000)));
        v.extend((0..n).map(|k| (P_NS, c * 1_000_000 + k * (1_000_000 / n) + k % 1000)));
        v.extend((0..30).filter(|b| 1 << b < 1_000_000).map(|b| (P_NS, c * 1_000_000 + (1 << b))));
        v.sort();
        v.dedup();
        for (prec, ns) in v {
            let m = M { day: 99, sec: 86_399, ns: ns.min(999_999_999), prec };
            let Some(dt) = start(w, env, &m) else { return };
            t.look(w, &dt, m);
        }
        w.sample(|| format!("{} ms and finer", c));
    });
    // Every precision, finer fields set, reached in two ways.
    let t: Texts<M> = Texts::new();
    let all: Vec<i32> = special_days(&l);
    par_env(e, "every precision", &l, all.len() as u64, |w, env, c| {
        let day = all[c as usize];
        for prec in 0..9u8 {
            for sec in [0, 1, 3600, 43_261, 86_398, env.leaps.day_len(day) - 1] {
                for ns in [0, 1, 999, 65_536, 999_999_999] {
                    let unit = [1_000_000_000, 1_000_000, 1000, 1][(prec.max(5) - 5) as usize];
                    let m = M { day, sec, ns: ns / unit * unit, prec };
                    let Some(dt) = start(w, env, &m) else { return };
                    t.look(w, &dt, m);
                    // There and back is the same value: the same text.
                    let back = match guard(|| dt.checked_add_seconds(-1).and_then(|d| d.checked_add_seconds(1))) {
                        Ok(Some(b)) => b,
                        _ => continue,
                    };
                    t.again_of(w, &back, &dt, m);
                    t.again_of(w, &dt.clone(), &dt, m);
                }
            }
        }
    });
    // Results with carries: date-time, days and seconds.
    for l in [iers(), odd_table()] {
        let days: Vec<i32> = special_days(&l);
        let t: Texts<(M, u32, u64)> = Texts::new();
        par_env(e, &format!("carries, table {}", l.name), &l, days.len() as u64, |w, env, c| {
            let day = days[c as usize];
            for m in [M::ns(day, env.leaps.day_len(day) - 1, 5), M::ns(day, 43_200, 0)] {
                let Some(dt) = start(w, env, &m) else { return };
                let ops = [0, 1, -1, 12, 400, 30].into_iter().flat_map(|n| [Op::Years(n as i16), Op::Months(n), Op::Days(n), Op::Minutes(n as i64 * 1440)]);
                for op in ops {
                    if let Some((m2, carry, Got::Carry(r))) = check_op(w, env, &m, &dt, op) {
                        let r: DateTimeWithCarry = r;
                        t.look(w, &r, (m2, carry.days as u32, carry.secs as u64));
                    }
                }
            }
        });
    }
    // Instants and durations.
    macro_rules! ticks {
        ($($t:ty: $values:expr);* $(;)?) => { $(
            let (a, b): (Texts<$t>, Texts<$t>) = (Texts::new(), Texts::new());
            e.par(concat!("instants and durations of ", stringify!($t)), 1, || (), |w, _, _| {
                for x in $values {
                    a.look(w, &Instant::<$t, One>::from_ticks_since_epoch(x), x);
                    b.look(w, &Instant::<$t, One>::from_ticks_since_epoch(x).duration_since_epoch(), x);
                }
            });
        )* };
    }
    ticks!(
        i8: i8::MIN..=i8::MAX; u8: u8::MIN..=u8::MAX; i16: i16::MIN..=i16::MAX; u16: u16::MIN..=u16::MAX;
        i32: wide().into_iter().filter_map(|x| i32::try_from(x).ok()); u32: wide().into_iter().filter_map(|x| u32::try_from(x).ok());
        i64: wide().into_iter().filter_map(|x| i64::try_from(x).ok()); u64: wide().into_iter().filter_map(|x| u64::try_from(x).ok());
        i128: wide(); u128: wide().into_iter().filter_map(|x| u128::try_from(x).ok()).chain([u128::MAX, u128::MAX - 1, 1 << 127]);
    );
    // The errors there are.
    par_env(e, "errors", &l, 1, |w, env, _| {
        let t: Texts<u8> = Texts::new();
        let err = |y: u16, mo: u8, d: u8| guard(|| DateTimeBuilder::new().chronology(&env.chron).year(y).month(mo).day(d).checked_build().err()).ok().flatten();
        for (y, mo, d, k) in [(2001, 13, 1, 0u8), (2001, 2, 29, 0), (2001, 0, 1, 0), (2001, 1, 0, 0), (10_000, 1, 1, 1), (65_535, 12, 31, 1)] {
            match err(y, mo, d) {
                Some(x) => t.look(w, &x, k),
                None => w.fail(format!("{}-{}-{}", y, mo, d), "an error", "none"),
            }
        }
        let r = guard(|| Instant::<i8, One>::try_from(Instant::<i32, One>::from_ticks_since_epoch(1000)));
        match r {
            Ok(Err(x)) => {
                w.states += 1;
                w.transitions += 1;
                if guard(|| format!("{:?} {}", x, x)).is_err() {
                    w.fail("an instant out of range formatted", "a text", last_panic());
                }
            }
            _ => w.fail("1000 as 8 bits", "refused", "something else"),
        }
    });
}

impl<K: Clone + PartialEq + Debug> Texts<K> {
    fn again_of(&self, w: &mut W, v: &dyn Debug, same: &dyn Debug, k: K) {
        w.transitions += 1;
        let r = guard(|| format!("{:?}", v) == format!("{:?}", same));
        if r != Ok(true) {
            w.fail(format!("{:?} reached in two ways, formatted for debugging", k), "the same text", "different texts");
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct One;
impl Scale for One {
    const TICKS_PER_SECOND: u32 = 1;
}

fn wide() -> Vec<i128> {
    let mut v = vec![0i128, i128::MIN, i128::MAX];
    for b in 0..127 {
        for d in -2..=2i128 {
            v.extend([(1i128 << b) + d, -(1i128 << b) + d]);
        }
    }
    for p in 0..38u32 {
        for d in -1..=1 {
            v.extend([10i128.pow(p) + d, -(10i128.pow(p)) + d]);
        }
    }
    v.sort();
    v.dedup();
    v
}
