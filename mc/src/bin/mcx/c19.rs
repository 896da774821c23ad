use crate::common::*;
use crate::for_types;
use crate::num::*;
use mc::engine::*;

/// Floor and split compared with the expected quotient and rest; None if all agree.
fn floor_fn<T: Num, S: Sc, S2: Sc>(t: T, q: T, r: T) -> Option<String> {
    let x = inst::<T, S>(t);
    let f = x.floor::<S2>().ticks_since_epoch();
    let (a, d) = x.split::<S2>();
    let a = a.ticks_since_epoch();
    if f == q && a == q && d == dur::<T, S>(r) {
        None
    } else {
        Some(report3(&f, &a, shown(d)))
    }
}
#[cold]
fn report3(f: &dyn std::fmt::Display, a: &dyn std::fmt::Display, d: String) -> String {
    format!("floor {}, split {} and {}", f, a, d)
}

#[inline]
fn floor_one<T: Num>(w: &mut W, f: fn(T, T, T) -> Option<String>, s: u32, s2: u32, t: T) {
    let (q, r) = t.sm().floor_pos((s / s2) as u128);
    let (q, r) = (T::of(q).unwrap(), T::of(r).unwrap());
    w.states += 1;
    w.transitions += 2;
    match guard(|| f(t, q, r)) {
        Ok(None) => w.hit("floored and split"),
        g => w.fail(
            format!("{} {} ticks of 1/{} s to 1/{} s", T::NAME, t, s, s2),
            format!("floor {}, split {} and {}", q, q, r),
            match g {
                Ok(s) => s.unwrap(),
                Err(()) => last_panic(),
            },
        ),
    }
}

#[inline(never)]
fn floor_jobs<T: Num, S: Sc, S2: Sc>(out: &mut Vec<Job>) {
    let (s, s2) = (S::TICKS_PER_SECOND, S2::TICKS_PER_SECOND);
    if T::fits(s) && T::fits(s2) {
        floor_loop(floor_fn::<T, S, S2>, s, s2, out);
    }
}

#[inline(never)]
fn floor_loop<T: Num>(f: fn(T, T, T) -> Option<String>, s: u32, s2: u32, out: &mut Vec<Job>) {
    for p in T::values(&[s / s2, s], true).chunks(8192) {
        let p = p.to_vec();
        out.push(Box::new(move |w| {
            for &t in &p {
                floor_one(w, f, s, s2, t);
            }
            w.sample(|| format!("floor/split {} 1/{} s to 1/{} s", T::NAME, s, s2));
        }));
    }
}

fn extend_fn<T: Num, S: Sc, T2: Num, S2: Sc>(t: T) -> Option<T2> {
    inst::<T, S>(t).extend::<T2, S2>().map(|x| x.ticks_since_epoch())
}

#[inline(never)]
fn extend_jobs<T: Num, S: Sc, T2: Num, S2: Sc>(out: &mut Vec<Job>) {
    let (s, s2) = (S::TICKS_PER_SECOND, S2::TICKS_PER_SECOND);
    if T2::fits(s) && T2::fits(s2) {
        extend_loop(extend_fn::<T, S, T2, S2>, s, s2, out);
    }
}

#[inline(never)]
fn extend_loop<T: Num, T2: Num>(f: fn(T) -> Option<T2>, s: u32, s2: u32, out: &mut Vec<Job>) {
    let r = s2 / s;
    for p in T::values(&[r], true).chunks(8192) {
        let p = p.to_vec();
        out.push(Box::new(move |w| {
            for &t in &p {
                w.states += 1;
                w.transitions += 1;
                let exp = T2::of_opt(t.sm().mul(SM::new(false, r as u128)));
                match guard(|| f(t)) {
                    Ok(g) if g == exp => w.hit(if exp.is_some() { "extended" } else { "extend refused" }),
                    g => w.fail(format!("extend {} {} ticks of 1/{} s to {} ticks of 1/{} s", T::NAME, t, s, T2::NAME, s2), format!("{:?}", exp), outcome(g)),
                }
            }
        }));
    }
}

pub fn c19(e: &Engine) {
    e.rule("floor, split and extend of every 8- and 16-bit tick and of boundary lattices of the wider types, for all scale pairs that fit; extend to all 100 pairs of tick types; thorough: every 32-bit tick");
    let mut jobs = vec![];
    macro_rules! fl {
        ($($s:literal $s2:literal),*; $t:ty) => { $( floor_jobs::<$t, R<$s>, R<$s2>>(&mut jobs); )* };
    }
    for_types!(fl!(1 1, 2 1, 3 1, 7 1, 10 1, 10 2, 100 1, 100 10, 100 50, 127 1, 128 1, 255 1, 250 125, 1000 1, 1000 10, 32767 1, 65535 1, 1000000 1, 1000000 1000, 1000000000 1, 1000000000 1000, 1000000000 1000000, 1000000000 1000000000, 4294967295 1;));
    run_jobs(e, "floor and split", jobs);
    let mut jobs = vec![];
    macro_rules! ex2 {
        ($s:literal $s2:literal; $a:ty, $b:ty) => { extend_jobs::<$a, R<$s>, $b, R<$s2>>(&mut jobs); };
    }
    macro_rules! ex {
        ($s:literal $s2:literal; $a:ty) => { for_types!(ex2!($s $s2; $a,)); };
    }
    for_types!(ex!(1 1;));
    for_types!(ex!(1 2;));
    for_types!(ex!(1 100;));
    for_types!(ex!(50 100;));
    for_types!(ex!(1 1000;));
    for_types!(ex!(1 1000000000;));
    for_types!(ex!(1000 1000000000;));
    for_types!(ex!(1 4294967295;));
    run_jobs(e, "extend", jobs);
    if e.thorough() {
        sweep32::<i32>(e, "floor and split, every i32, 1/1000", |w, t| floor_one(w, floor_fn::<i32, R<1000>, R<1>>, 1000, 1, t));
        sweep32::<i32>(e, "floor and split, every i32, 1/1e9", |w, t| floor_one(w, floor_fn::<i32, R<1000000000>, R<1000>>, 1000000000, 1000, t));
        sweep32::<u32>(e, "floor and split, every u32, 1/4294967295", |w, t| floor_one(w, floor_fn::<u32, R<4294967295>, R<1>>, 4294967295, 1, t));
    }
}
