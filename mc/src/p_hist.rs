//! What an earlier call may leave behind: every two operations one after another on moments that agree
//! in some of their bits or in their place in the calendar's cycles, and many chronologies at once.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_dt::check_carry;
use crate::p_tables::load_locked;
use crate::tz::TzDir;
use momentous::iso8601::{load_chronology, Chronology, DateTime};

/// What is executed before; None builds.
pub const OPS: [Option<Op>; 7] =
    [None, Some(Op::Seconds(1)), Some(Op::Seconds(-86_401)), Some(Op::Days(1)), Some(Op::Minutes(1440)), Some(Op::Months(1)), Some(Op::Years(1))];

/// The operation and, when it has one, its carry.
fn op_and_carry(w: &mut W, env: &Env, m: &M, dt: &DateTime, op: Op) -> bool {
    let Some((_, c, g)) = check_op(w, env, m, dt, op) else { return false };
    if let (Got::Carry(r), true) = (&g, c != Carry::default()) {
        check_carry(w, env, m, op, r);
    }
    true
}

/// Days that an index, a key or a tag made from part of a day number confuses with `day`.
pub fn like(day: i32) -> Vec<i32> {
    let mut v = vec![day];
    for w in 7..22 {
        v.extend([day - (1 << w), day + (1 << w), day ^ (1 << w)]);
    }
    for c in [365, 366, 1461, 36_524, 36_525, 146_097, 146_097 * 2, 146_097 * 8] {
        v.extend([day - c, day + c]);
    }
    v.extend([day - 1, day + 1, -day, !day, day - 7, day + 7]);
    v.retain(|d| (MIN_DAY + 366..=MAX_DAY - 366).contains(d));
    v.sort();
    v.dedup();
    v
}

/// Operations after others: on one chronology, and on one whose predecessor has been dropped.
pub fn one_after_another(e: &Engine, then: &[Option<Op>]) {
    pairs_of_operations(e, then);
    successors(e, then);
}

/// Every two operations on any two of the moments, one after the other, on one chronology.
pub fn pairs_of_operations(e: &Engine, then: &[Option<Op>]) {
    let t = |v: &[(i32, i32)]| Leaps::new(&format!("{:?}", v), v.to_vec());
    let mut ts = vec![t(&[(100, 1), (200, -1)]), t(&[(100, -1), (11_000, 1)])];
    if e.thorough() {
        ts.extend([t(&[(790, 1), (791, -1), (19_000, 1)]), t(&[(1, 1), (36_524, 1)]), iers()]);
        ts.retain(|t| t.ends.iter().all(|x| x.0 < 24_800));
    }
    for l in ts {
        let mut days: Vec<i32> = l.ends.iter().take(4).flat_map(|x| like(x.0 - 1)).collect();
        days.sort();
        days.dedup();
        let env = match load_locked(&l) {
            Ok((env, _d)) => env,
            Err(_) => {
                e.par(&format!("operations one after another, table {}", l.name), 1, || (), |w, _, _| w.fail(format!("load of {}", l.name), "loaded", last_panic()));
                return;
            }
        };
        let moments: Vec<M> = days
            .iter()
            .flat_map(|d| {
                let len = env.leaps.day_len(*d);
                [len - 1, 43_200, 0].map(|s| M::ns(*d, s, 11))
            })
            .collect();
        // The date-time has been built long before the operation that is looked at.
        let dts: Vec<_> = moments.iter().map(|m| build(&env, m).ok()).collect();
        e.par(&format!("operations one after another, table {}", l.name), moments.len() as u64, || (), |w, _, c| {
            let p = c as usize;
            let exec = |i: usize, f: Option<Op>| {
                let _ = guard(|| match f {
                    None => build(&env, &moments[i]).is_ok(),
                    Some(op) => dts[i].as_ref().is_some_and(|d| run(d, op).is_ok()),
                });
            };
            for f in OPS {
                for (q, m) in moments.iter().enumerate() {
                    for &g in then {
                        exec(p, f);
                        w.traces += 1;
                        match (g, &dts[q]) {
                            (Some(op), Some(dt)) => {
                                op_and_carry(w, &env, m, dt, op);
                            }
                            (Some(_), None) => w.fail(m.show(), "built", "refused"),
                            (None, _) => {
                                start(w, &env, m);
                                if m.sec + 1 == env.leaps.day_len(m.day) {
                                    exec(p, f);
                                    let m = M::ns(m.day, m.sec + 1, 11);
                                    if build(&env, &m).is_ok() {
                                        w.fail(format!("table={} second {} of day {}", env.leaps.name, m.sec, m.day), "refused", "built");
                                    }
                                }
                            }
                        }
                        if w.violated() {
                            return w.fail(format!("after {:?} on {} under {}", f, moments[p].show(), env.leaps.name), "", "as above");
                        }
                    }
                }
                w.sample(|| format!("{:?} on {} before everything else", f, moments[p].show()));
            }
        });
    }
}

/// A chronology is loaded, one operation is executed, everything is dropped; then other data is loaded
/// (where the memory of the first may be used again) and another operation executed: it must be that of
/// the new data. Every two tables, and any two operations at any of the moments around the adjustments.
pub fn successors(e: &Engine, then: &[Option<Op>]) {
    let t = |v: &[(i32, i32)]| Leaps::new(&format!("{:?}", v), v.to_vec());
    let ts = vec![
        t(&[]),
        t(&[(100, 1)]),
        t(&[(100, -1)]),
        t(&[(200, 1)]),
        t(&[(99, -1)]),
        t(&[(100, 1), (200, -1)]),
        t(&[(100, -1), (200, 1)]),
        t(&[(100, 1), (101, 1)]),
        t(&[(200, 1), (201, -1)]),
        t(&[(50, 1), (100, -1), (200, 1)]),
        t(&[(99, 1), (100, 1), (300, -1)]),
    ];
    let moments: Vec<(i32, u32)> = e.pick(vec![98, 99, 199], vec![49, 98, 99, 100, 199, 200, 299]).iter().flat_map(|d| [(*d, 0), (*d, 86_399)]).collect();
    let n = ts.len() as u64;
    let dirs = || ts.iter().map(|l| { let d = TzDir::new("s"); d.put("UTC", l); d }).collect::<Vec<_>>();
    e.seq("data loaded after other data was dropped", n * n, dirs, |w, dirs, c| {
        let (a, b) = ((c / n) as usize, (c % n) as usize);
        for &p in &moments {
            for f in OPS {
                for &q in &moments {
                    for &g in then {
                        dirs[a].activate();
                        let done = guard(|| {
                            let env = Env::load(&ts[a]);
                            let m = M::ns(p.0, p.1, 9);
                            if let (Ok(dt), Some(op)) = (build(&env, &m), f) {
                                let _ = run(&dt, op);
                            }
                        });
                        if done.is_err() {
                            return w.fail(format!("load of {}", ts[a].name), "loaded", last_panic());
                        }
                        dirs[b].activate();
                        let Ok(env) = guard(|| Env::load(&ts[b])) else {
                            return w.fail(format!("load of {} after that of {}", ts[b].name, ts[a].name), "loaded", last_panic());
                        };
                        // The last second of the day that only the new data may have.
                        let m = M::ns(q.0, if q.1 == 0 { 0 } else { env.leaps.day_len(q.0) - 1 }, 9);
                        let trail = || format!("after {:?} at {} under {}, dropped", f, M::ns(p.0, p.1, 9).show(), ts[a].name);
                        let r = match (g, build(&env, &m)) {
                            (None, r) => r.is_ok_and(|dt| getters_match(&dt, &m)),
                            (Some(op), Ok(dt)) => op_and_carry(w, &env, &m, &dt, op) || m.step(&env.leaps, op).is_none(),
                            (Some(_), Err(_)) => false,
                        };
                        w.states += 1;
                        w.transitions += 1;
                        w.traces += 1;
                        if !r || w.violated() {
                            return w.fail(trail(), format!("{:?} on {} under {}", g, m.show(), ts[b].name), "something else");
                        }
                        // A second more than that does not exist.
                        if q.1 != 0 && g.is_none() {
                            let m = M::ns(q.0, env.leaps.day_len(q.0), 9);
                            if build(&env, &m).is_ok() {
                                return w.fail(trail(), format!("no {} under {}", m.show(), ts[b].name), "built");
                            }
                        }
                        w.sample(|| format!("{}: {:?} on {} under {}", trail(), g, m.show(), ts[b].name));
                    }
                }
            }
        }
    });
}

/// Many chronologies held, loaded, cloned.
pub fn many_chronologies(e: &Engine) {
    let table = |k: i32| {
        let sign = if k % 3 == 0 { -1 } else { 1 };
        let mut v = vec![(100 + k % 7, sign)];
        if k % 2 == 1 {
            v.push((200 + k, -sign));
        }
        Leaps::new(&format!("#{} {:?}", k, v), v)
    };
    let n = e.pick(40, 300);
    e.seq("many chronologies held", 1, || TzDir::new("m"), |w, d, _| {
        let mut envs: Vec<Env> = vec![];
        let mut dts: Vec<Vec<(M, DateTime)>> = vec![];
        for k in 0..n {
            let l = table(k);
            d.put("UTC", &l);
            d.activate();
            match guard(|| Env::load(&l)) {
                Ok(env) => {
                    let mut v = vec![];
                    for day in [l.ends[0].0 - 1, 103, 200 + k - 1] {
                        let m = M::ns(day, l.day_len(day) - 1, 4);
                        if let Some(dt) = start(w, &env, &m) {
                            v.push((m, dt));
                        }
                    }
                    envs.push(env);
                    dts.push(v);
                }
                Err(()) => return w.fail(format!("load of {}", l.name), "loaded", last_panic()),
            }
        }
        // Every ordered pair: an operation on one, the same on the other.
        for i in 0..envs.len() {
            for j in 0..envs.len() {
                for op in [Op::Seconds(1), Op::Days(1), Op::Minutes(-1440)] {
                    for (m, dt) in &dts[j] {
                        for (_, other) in &dts[i] {
                            let _ = guard(|| run(other, op).is_ok());
                        }
                        check_op(w, &envs[j], m, dt, op);
                        if w.violated() {
                            return;
                        }
                    }
                }
                if envs[i].leaps.ends != envs[j].leaps.ends && envs[i].chron == envs[j].chron {
                    return w.fail(format!("chronologies of {} and {}", envs[i].leaps.name, envs[j].leaps.name), "different", "equal");
                }
                w.traces += 1;
            }
        }
        w.sample(|| format!("{} chronologies, every two", n));
    });
    // More loads, clones and date-times than a byte or two can count.
    let many = 65_536 + 40;
    let (a, b) = (Leaps::new("[+100]", vec![(100, 1)]), Leaps::new("[-100]", vec![(100, -1)]));
    let look = |w: &mut W, env: &Env, dts: &[(M, DateTime)]| {
        for (m, dt) in dts {
            check_op(w, env, m, dt, Op::Seconds(1));
        }
        start(w, env, &M::ns(99, env.leaps.day_len(99) - 1, 5));
    };
    let hold = |env: &Env| -> Vec<(M, DateTime)> {
        [M::ns(99, env.leaps.day_len(99) - 1, 5), M::ns(98, 86_399, 5)].iter().filter_map(|m| build(env, m).ok().map(|d| (*m, d))).collect()
    };
    e.seq("many loads", 1, || TzDir::new("l"), |w, d, _| {
        d.put("UTC", &a);
        d.activate();
        let Ok(first) = guard(|| Env::load(&a)) else { return w.fail(format!("load of {}", a.name), "loaded", last_panic()) };
        let dts = hold(&first);
        d.put("UTC", &b);
        for i in 1..=many {
            let Ok(env) = guard(|| Env::load(&b)) else { return w.fail(format!("load {} of {}", i, b.name), "loaded", last_panic()) };
            let new = hold(&env);
            look(w, &env, &new);
            look(w, &first, &dts);
            if new.iter().any(|x| x.1 == dts[1].1) {
                w.fail(format!("load {}", i), "date-times of another chronology", "equal to those of the first");
            }
            w.traces += 1;
            if w.violated() {
                return w.fail(format!("{} was loaded, then {} {} times", a.name, b.name, i), "", "as above");
            }
        }
        w.sample(|| format!("{} loads", many));
    });
    e.seq("many clones", 1, || TzDir::new("k"), |w, d, _| {
        d.put("UTC", &a);
        d.activate();
        let Ok(env) = guard(|| Env::load(&a)) else { return w.fail(format!("load of {}", a.name), "loaded", last_panic()) };
        d.put("UTC", &b);
        let dts = hold(&env);
        // Hold many, then give all but the last back, with another chronology loaded in between.
        for give in [1u64, 255, 256, 257, 65_535, 65_536, many as u64] {
            let chrons: Vec<Chronology> = (0..give).map(|_| env.chron.clone()).collect();
            let copies: Vec<DateTime> = (0..give).map(|_| dts[0].1.clone()).collect();
            look(w, &env, &dts);
            drop(chrons);
            let other = guard(|| load_chronology("UTC"));
            look(w, &env, &dts);
            drop(copies);
            let other2 = guard(|| load_chronology("UTC"));
            look(w, &env, &dts);
            let kept = env.chron.clone();
            if other.is_err() || other2.is_err() || other == Ok(kept.clone()) || other2 == Ok(kept.clone()) || kept != env.chron || dts[0].1 != dts[0].1.clone() {
                w.fail(format!("{} clones", give), "equal to the original and different from others", "not so");
            }
            w.traces += 1;
            if w.violated() {
                return w.fail(format!("{} clones of the chronology and of a date-time made and dropped", give), "", "as above");
            }
        }
        w.sample(|| format!("up to {} clones", many));
    });
}

/// Zone data is replaced in every way a system does it, whatever time stamps, size and file it then has:
/// what is loaded afterwards is the new data.
/// With `convert`, that converts system times under the table, its conversions instead.
pub fn replaced_data(e: &Engine, convert: Option<fn(&mut W, &Leaps)>) {
    let ts: Vec<Leaps> = [vec![], vec![(100, 1)], vec![(100, -1)], vec![(200, 1)], vec![(100, 1), (200, -1)], vec![(100, -1), (200, 1)], vec![(100, 1), (101, 1), (200, 1)]]
        .into_iter()
        .map(|v| Leaps::new(&format!("{:?}", v), v))
        .collect();
    const WAYS: [&str; 6] = ["written in place", "renamed over it", "removed and created", "symbolic link to it changed", "TZDIR a symbolic link that is changed", "directories exchanged"];
    const STAMPS: [(&str, Option<i64>); 6] = [("as they come", None), ("the same", Some(0)), ("a second older", Some(-1)), ("a second newer", Some(1)), ("ten years older", Some(-315_576_000)), ("1970", Some(-1_600_000_000))];
    let all = WAYS.len() * STAMPS.len();
    e.seq("data replaced", (all * ts.len() * ts.len()) as u64, || TzDir::new("r"), |w, d, c| {
        let c = c as usize;
        let (way, stamp, a, b) = (c % all / STAMPS.len(), c % STAMPS.len(), &ts[c / all / ts.len()], &ts[c / all % ts.len()]);
        let root = format!("{}/{}", d.path, c);
        let two = ["a", "b"].map(|n| format!("{}/{}/right", root, n));
        for x in &two {
            std::fs::create_dir_all(x).unwrap();
        }
        let write = |path: &str, l: &Leaps, offset: Option<i64>| {
            std::fs::write(path, crate::tz::tzif(l)).expect("write tz file");
            if let Some(o) = offset {
                let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs((1_600_000_000 + o) as u64);
                let f = std::fs::File::options().write(true).open(path).unwrap();
                f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(t)).expect("time stamps");
            }
        };
        let (first, second) = (STAMPS[stamp].1.map(|_| 0), STAMPS[stamp].1);
        let utc = format!("{}/UTC", two[0]);
        let link = |to: &str, at: &str| {
            let _ = std::fs::remove_file(at);
            std::os::unix::fs::symlink(to, at).expect("symbolic link");
        };
        let active = if way == 4 { format!("{}/current", root) } else { format!("{}/a", root) };
        match way {
            3 => {
                write(&format!("{}/one", two[0]), a, first);
                link("one", &utc);
            }
            4 => {
                write(&utc, a, first);
                link("a", &active);
            }
            _ => write(&utc, a, first),
        }
        // SAFETY: no other thread runs.
        #[allow(unused_unsafe)]
        unsafe {
            std::env::set_var("TZDIR", &active)
        };
        let what = || format!("{} loaded, then {} ({}, time stamps {})", a.name, b.name, WAYS[way], STAMPS[stamp].0);
        let is = |w: &mut W, l: &Leaps, chron: Chronology, what: &str| {
            let env = Env { leaps: l.clone(), chron, shadow: None };
            for day in [98, 99, 100, 199] {
                w.transitions += 1;
                let ok = (86_398..86_402).all(|s| build(&env, &M::ns(day, s, 0)).is_ok() == (s < l.day_len(day)));
                if !ok {
                    w.fail(what.to_string(), format!("{} seconds on day {}", l.day_len(day), day), "another length");
                }
            }
            env
        };
        let mut held = None;
        if let Some(f) = convert {
            f(w, a);
        } else {
            let Ok(old) = guard(|| load_chronology("UTC")) else { return w.fail(what(), "loaded", last_panic()) };
            held = Some(is(w, a, old, &what()));
        }
        match way {
            0 => write(&utc, b, second),
            1 => {
                write(&format!("{}/new", two[0]), b, second);
                std::fs::rename(format!("{}/new", two[0]), &utc).unwrap();
            }
            2 => {
                std::fs::remove_file(&utc).unwrap();
                write(&utc, b, second);
            }
            3 => {
                write(&format!("{}/other", two[0]), b, second);
                link("other", &utc);
            }
            4 => {
                write(&format!("{}/UTC", two[1]), b, second);
                link("b", &active);
            }
            _ => {
                write(&format!("{}/UTC", two[1]), b, second);
                std::fs::rename(format!("{}/a", root), format!("{}/c", root)).unwrap();
                std::fs::rename(format!("{}/b", root), format!("{}/a", root)).unwrap();
            }
        }
        w.states += 2;
        w.traces += 1;
        w.sample(what);
        if let Some(f) = convert {
            f(w, b);
            if w.violated() {
                w.fail(what(), "", "as above");
            }
            let _ = std::fs::remove_dir_all(&root);
            return;
        }
        match guard(|| load_chronology("UTC")) {
            Ok(new) => {
                is(w, b, new, &what());
                is(w, a, held.take().unwrap().chron, &format!("the chronology held, {}", what()));
            }
            Err(()) => w.fail(what(), "loaded", last_panic()),
        }
        // A builder without a chronology.
        for (day, s) in [(99, 59u8), (99, 60), (199, 59), (199, 60)] {
            w.transitions += 1;
            let (y, mo, dd) = cal().date(day);
            let r = guard(|| DateTime::builder().year(y as u16).month(mo as u8).day(dd as u8).hour(23).minute(59).second(s).checked_build().is_ok());
            if r != Ok(86_340 + (s as u32) < b.day_len(day)) {
                w.fail(format!("{}, default builder", what()), format!("{} seconds on day {}", b.day_len(day), day), format!("{:?}", r));
            }
        }
        let _ = std::fs::remove_dir_all(&root);
    });
}
