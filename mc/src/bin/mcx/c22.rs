use crate::common::*;
use crate::for_types;
use crate::num::*;
use mc::engine::*;

/// Floor from the finer scale S, extension from the coarser S2, compared with what is expected.
fn dur_scale_fn<T: Num, S: Sc, S2: Sc>(t: T, q: T, ext: Option<T>) -> Option<String> {
    let f = dur::<T, S>(t).floor::<S2>();
    let x = dur::<T, S2>(t).extend::<S>();
    if f == dur::<T, S2>(q) && x == ext.map(dur::<T, S>) {
        None
    } else {
        Some(format!("floor {}, extended {:?}", shown(f), x.map(shown)))
    }
}

#[inline(never)]
fn dur_scale<T: Num, S: Sc, S2: Sc>(out: &mut Vec<Job>) {
    let (s, s2) = (S::TICKS_PER_SECOND, S2::TICKS_PER_SECOND);
    if T::fits(s) && T::fits(s2) {
        dur_scale_loop(dur_scale_fn::<T, S, S2>, s, s2, out);
    }
}

#[inline(never)]
fn dur_scale_loop<T: Num>(f: fn(T, T, Option<T>) -> Option<String>, s: u32, s2: u32, out: &mut Vec<Job>) {
    let r = (s / s2) as u128;
    for p in T::values(&[s / s2, s], true).chunks(8192) {
        let p = p.to_vec();
        out.push(Box::new(move |w| {
            for &t in &p {
                w.states += 1;
                w.transitions += 2;
                let q = T::of(t.sm().floor_pos(r).0).unwrap();
                let ext = T::of_opt(t.sm().mul(SM::new(false, r)));
                match guard(|| f(t, q, ext)) {
                    Ok(None) => w.hit(if ext.is_some() { "floored, extended" } else { "floored, extension refused" }),
                    g => w.fail(
                        format!("Duration {} {} between 1/{} s and 1/{} s", T::NAME, t, s, s2),
                        format!("floor {}, extended {:?}", q, ext),
                        match g {
                            Ok(s) => s.unwrap(),
                            Err(()) => last_panic(),
                        },
                    ),
                }
            }
            w.sample(|| format!("floor/extend {} 1/{} s and 1/{} s", T::NAME, s, s2));
        }));
    }
}

/// Division of a ticks of 1/s1 s by b ticks of 1/s2 s. `must`: refusal is not acceptable.
#[inline]
fn div_one<T: Num, S: Sc, S2: Sc>(w: &mut W, a: T, b: T, must: bool) {
    div_check(w, [div_fn::<T, S, S2, false>, div_fn::<T, S, S2, true>], S::TICKS_PER_SECOND, S2::TICKS_PER_SECOND, a, b, must)
}

/// Quotient, whether the remainder is the expected one, and the remainder if not.
fn div_fn<T: Num, S: Sc, S2: Sc, const CEIL: bool>(a: T, b: T, r: Option<T>) -> (T, bool, String) {
    let (x, y) = (dur::<T, S>(a), dur::<T, S2>(b));
    let (q, rem) = if CEIL { x.div_rem_ceil(y) } else { x.div_rem_floor(y) };
    let ok = r.map(|r| dur::<T, S>(r) == rem).unwrap_or(false);
    (q, ok, if ok { String::new() } else { shown(rem) })
}

type DivFn<T> = fn(T, T, Option<T>) -> (T, bool, String);

#[inline(never)]
fn div_check<T: Num>(w: &mut W, f: [DivFn<T>; 2], s1: u32, s2: u32, a: T, b: T, must: bool) {
    w.states += 1;
    let (p, q) = (SM::new(false, s1 as u128), SM::new(false, s2 as u128));
    // a/s1 : b/s2 = n : d
    let (n, d) = (a.sm().mul(q), b.sm().mul(p));
    for ceil in [false, true] {
        w.transitions += 1;
        let mut want: Option<T> = None; // quotient
        let mut rest: Option<Option<T>> = None; // remainder, if a whole number of ticks
        if let (Some(n), Some(d), false) = (n, d, b.sm().is_zero()) {
            let eq = if ceil { n.div_ceil(d) } else { n.div_floor(d) };
            want = T::of(eq);
            if let Some(left) = eq.mul(d).and_then(|x| if ceil { x.sub(n) } else { n.sub(x) }) {
                if left.mag % q.mag == 0 {
                    rest = Some(T::of(SM::new(left.neg, left.mag / q.mag)));
                }
            }
        }
        let case = || format!("{} of {} {}/{} s by {}/{} s", if ceil { "div_rem_ceil" } else { "div_rem_floor" }, T::NAME, a, s1, b, s2);
        let exp = || match (&want, &rest) {
            (None, _) | (_, Some(None)) => "refused".to_string(),
            (Some(q), None) => format!("quotient {}", q),
            (Some(q), Some(Some(r))) => format!("quotient {}, remainder {}", q, r),
        };
        match guard(|| f[ceil as usize](a, b, rest.flatten())) {
            Err(()) => {
                w.hit("division refused");
                if must {
                    w.fail(case(), exp(), last_panic());
                }
            }
            Ok((g, ok, r)) => {
                if n.is_none() || d.is_none() {
                    continue; // beyond the oracle (only 128-bit values near the limits)
                }
                if Some(g) != want || matches!(rest, Some(None)) || (rest.is_some() && !ok) {
                    w.fail(case(), exp(), format!("quotient {}, remainder {}", g, if ok { "as expected" } else { &r }));
                } else {
                    w.hit(match (rest.is_some(), ceil) {
                        (true, false) => "floor division",
                        (true, true) => "ceiling division",
                        _ => "division, remainder not a whole tick",
                    });
                }
            }
        }
    }
}

/// Sums, differences and multiples; exact or refused.
#[inline]
fn dur_arith<T: Num, S: Sc>(w: &mut W, a: T, b: T, quiet: bool) {
    w.states += 1;
    let (x, y) = (dur::<T, S>(a), dur::<T, S>(b));
    macro_rules! one {
        ($what:literal, $exp:expr, $call:expr) => {{
            let exp: Option<T> = $exp;
            if exp.is_some() || !quiet {
                w.transitions += 1;
                match (exp, guard(|| $call)) {
                    (Some(s), Ok(g)) if g == dur::<T, S>(s) => w.hit("exact"),
                    (None, Err(())) => w.hit("refused"),
                    (s, g) => w.fail(format!("durations of {}: {} {} {}", T::NAME, a, $what, b), format!("{:?}", s), outcome(g)),
                }
            }
        }};
    }
    one!("+", T::of_opt(a.sm().add(b.sm())), x + y);
    one!("-", T::of_opt(a.sm().sub(b.sm())), x - y);
    one!("*", T::of_opt(a.sm().mul(b.sm())), x * b);
    if x.cmp(&y) != a.cmp(&b) || (x == y) != (a == b) {
        w.fail(format!("durations of {}: {} compared with {}", T::NAME, a, b), format!("{:?}", a.cmp(&b)), format!("{:?}", x.cmp(&y)));
    }
}

pub fn c22(e: &Engine) {
    e.rule("flooring and extending every 8- and 16-bit duration and boundary lattices of the wider types; division of every pair of 8-bit durations, of dense ranges and lattices of the wider types in coarser, finer and equal scales; sums, differences and multiples of every 8-bit pair and of lattice pairs");
    e.assume("the remainder of a division is only specified where a whole number of ticks of the dividend's scale is left");
    let mut jobs = vec![];
    macro_rules! sc {
        ($($s:literal $s2:literal),*; $t:ty) => { $( dur_scale::<$t, R<$s>, R<$s2>>(&mut jobs); )* };
    }
    for_types!(sc!(1 1, 2 1, 3 1, 10 1, 10 2, 100 1, 100 10, 100 50, 127 1, 128 1, 255 1, 1000 1, 1000 10, 32767 1, 65535 1, 1000000 1000, 1000000000 1, 1000000000 1000, 1000000000 1000000, 4294967295 1;));
    run_jobs(e, "floor and extend", jobs);

    // Division: everything in 8 bits; a result is required while all products stay below 100.
    let mut jobs: Vec<Job> = vec![];
    macro_rules! div8 {
        ($($s1:literal $s2:literal),*; $t:ty) => { $(
            split_jobs(<$t>::all(), 16, |w, p| for &a in p { for b in <$t>::all() {
                let small = |x: $t, s: u32| (x.sm().mag as u32) * s < 40 ;
                let must = !b.sm().is_zero() && small(a, $s1 * $s2) && small(b, $s1 * $s2) && (!ceil_negative(a, b));
                div_one::<$t, R<$s1>, R<$s2>>(w, a, b, must);
            } }, &mut jobs);
        )* };
    }
    /// Unsigned values cannot hold every intermediate of a ceiling division.
    fn ceil_negative<T: Num>(_a: T, _b: T) -> bool {
        T::min_value().sm().is_zero()
    }
    div8!(1 1, 10 1, 1 10, 100 10, 7 7, 60 12, 3 6; i8);
    div8!(1 1, 10 1, 1 10, 100 10, 7 7, 60 12, 3 6; u8);
    run_jobs(e, "division, 8 bits", jobs);

    // Division: dense ranges in i64 and i128, with a result required.
    let mut jobs: Vec<Job> = vec![];
    macro_rules! dense {
        ($n:expr; $($s1:literal $s2:literal),*; $t:ty) => { $(
            {
                let n: $t = $n;
                split_jobs((-n..=n).collect::<Vec<$t>>(), 8, move |w, p| for &a in p { for b in -n..=n {
                    div_one::<$t, R<$s1>, R<$s2>>(w, a, b, b != 0);
                } }, &mut jobs);
            }
        )* };
    }
    let n = e.pick(220i64, 1100);
    dense!(n; 1 1, 1000 1, 1 1000, 1000 10, 6 3, 3 6; i64);
    dense!(n as i32; 1000 1, 10 10; i32);
    dense!(n as i128; 1000000000 1, 1 1000000000, 1000000000 1000; i128);
    run_jobs(e, "division, dense", jobs);

    // Division: lattices; required to succeed while everything stays far from the type's limits.
    let mut jobs: Vec<Job> = vec![];
    macro_rules! lat {
        ($lim:expr; $($s1:literal $s2:literal),*; $t:ty) => { $(
            if <$t>::fits($s1) && <$t>::fits($s2) {
                let v = <$t>::lattice(&[$s1, $s2], e.thorough());
                let v2 = v.clone();
                split_jobs(v, 8, move |w, p| for &a in p { for &b in &v2 {
                    let must = b != 0 && <$t>::MIN != 0 && a.sm().mag <= $lim && b.sm().mag <= $lim;
                    div_one::<$t, R<$s1>, R<$s2>>(w, a, b, must);
                } }, &mut jobs);
            }
        )* };
    }
    lat!(150; 1 1, 10 1, 1 10, 10 10; i16);
    lat!(150; 1 1, 10 1, 1 10, 10 10; u16);
    lat!(30_000; 1 1, 100 1, 1 100, 100 10; i32);
    lat!(30_000; 1 1, 100 1, 1 100, 100 10; u32);
    lat!(1_000_000; 1 1, 1000 1, 1 1000, 1000 10; i64);
    lat!(1_000_000; 1 1, 1000 1, 1 1000, 1000 10; u64);
    lat!(1_000_000_000_000; 1 1, 1000000000 1, 1 1000000000, 1000000000 1000; i128);
    lat!(1_000_000_000_000; 1 1, 1000000000 1, 1 1000000000, 1000000000 1000; u128);
    run_jobs(e, "division, lattices", jobs);

    let mut jobs: Vec<Job> = vec![];
    macro_rules! pairs {
        ($t:ty) => {{
            let v = if <$t>::BITS == 8 { <$t>::all() } else { <$t>::lattice(&[1000], e.thorough()) };
            let v2 = v.clone();
            split_jobs(v, 16, move |w, p| for &a in p { for &b in &v2 { dur_arith::<$t, R<1000>>(w, a, b, false); } }, &mut jobs);
        }};
    }
    for_types!(pairs!());
    run_jobs(e, "sums, differences, multiples", jobs);
    let mut jobs: Vec<Job> = vec![];
    macro_rules! sixteen {
        ($t:ty) => {{
            let v2 = if e.thorough() { <$t>::all() } else { <$t>::lattice(&[60], true) };
            split_jobs(<$t>::all(), 128, move |w, p| for &a in p { for &b in &v2 { dur_arith::<$t, R<1>>(w, a, b, true); } }, &mut jobs);
        }};
    }
    sixteen!(i16);
    sixteen!(u16);
    run_jobs(e, "every 16-bit duration", jobs);
}
