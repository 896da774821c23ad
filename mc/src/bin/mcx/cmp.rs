//! Comparisons; one copy per tick type of the left side (see by.rs), so that they compile in parallel.
use crate::common::*;
use crate::num::*;
use mc::engine::*;
use numcmp::NumCmp;
use std::cmp::Ordering;

/// The results of all comparisons of two instants, one bit group each.
fn cmp_mask<T1, S1, T2, S2>(a: T1, b: T2) -> u32
where
    T1: Num + NumCmp<T2>,
    T2: Num + NumCmp<T1>,
    S1: Sc,
    S2: Sc,
{
    let x = inst::<T1, S1>(a);
    let y = inst::<T2, S2>(b);
    let o = |c: Option<Ordering>| match c {
        None => 0u32,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    };
    o(x.partial_cmp(&y))
        | o(y.partial_cmp(&x)) << 2
        | ((x == y) as u32) << 4
        | ((y == x) as u32) << 5
        | ((x != y) as u32) << 6
        | ((y != x) as u32) << 7
        | ((x < y) as u32) << 8
        | ((x <= y) as u32) << 9
        | ((x > y) as u32) << 10
        | ((x >= y) as u32) << 11
        | ((y < x) as u32) << 12
        | ((y <= x) as u32) << 13
        | ((y > x) as u32) << 14
        | ((y >= x) as u32) << 15
}

/// What `cmp_mask` has to be.
#[inline]
fn want_mask(exp: Ordering) -> u32 {
    use Ordering::*;
    match exp {
        Less => 1 | 3 << 2 | 0b1100_0000 | 0b1100_0011_0000_0000,
        Equal => 2 | 2 << 2 | 0b0011_0000 | 0b1010_1010_0000_0000,
        Greater => 3 | 1 << 2 | 0b1100_0000 | 0b0011_1100_0000_0000,
    }
}

#[inline]
fn cmp_pair<T1: Num, T2: Num>(w: &mut W, f: fn(T1, T2) -> u32, s1: u32, s2: u32, a: T1, b: T2) {
    w.states += 1;
    w.transitions += 14;
    let exp = cmp_ratio(a.sm(), s1, b.sm(), s2);
    let got = guard(|| f(a, b));
    if got == Ok(want_mask(exp)) {
        w.hit(match exp {
            Ordering::Less => "less",
            Ordering::Equal => "equal",
            Ordering::Greater => "greater",
        });
    } else {
        cmp_failed(w, format!("{} {}/{} s compared with {} {}/{} s", T1::NAME, a, s1, T2::NAME, b, s2), exp, got);
    }
}

#[cold]
fn cmp_failed(w: &mut W, case: String, exp: Ordering, got: Result<u32, ()>) {
    let show = |m: u32| {
        let o = ["None", "Less", "Equal", "Greater"];
        let b = |k: u32| m >> k & 1 == 1;
        format!(
            "cmp {} reversed {}, == {} {}, != {} {}, < {}, <= {}, > {}, >= {}, reversed < {}, <= {}, > {}, >= {}",
            o[(m & 3) as usize], o[(m >> 2 & 3) as usize], b(4), b(5), b(6), b(7), b(8), b(9), b(10), b(11), b(12), b(13), b(14), b(15)
        )
    };
    w.fail(
        case,
        show(want_mask(exp)),
        match got {
            Ok(m) => show(m),
            Err(()) => last_panic(),
        },
    );
}

fn cmp_ok<T1: Num, S1: Sc, T2: Num, S2: Sc>() -> bool {
    let (s1, s2) = (S1::TICKS_PER_SECOND, S2::TICKS_PER_SECOND);
    if s1 >= s2 {
        T1::fits(s1 / s2)
    } else {
        T2::fits(s2 / s1)
    }
}

#[inline(never)]
pub fn cmp_jobs<T1, S1, T2, S2>(v1: &[T1], v2: &[T2], out: &mut Vec<Job>)
where
    T1: Num + NumCmp<T2>,
    T2: Num + NumCmp<T1>,
    S1: Sc,
    S2: Sc,
{
    if cmp_ok::<T1, S1, T2, S2>() && !v1.is_empty() && !v2.is_empty() {
        cmp_loop(v1, v2, cmp_mask::<T1, S1, T2, S2>, S1::TICKS_PER_SECOND, S2::TICKS_PER_SECOND, out);
    }
}

#[inline(never)]
fn cmp_loop<T1: Num, T2: Num>(v1: &[T1], v2: &[T2], f: fn(T1, T2) -> u32, s1: u32, s2: u32, out: &mut Vec<Job>) {
    let v2 = v2.to_vec();
    let per = (1 << 20) / v2.len().max(1) + 1;
    for part in v1.chunks(per) {
        let (part, v2) = (part.to_vec(), v2.clone());
        out.push(Box::new(move |w| {
            for &a in &part {
                for &b in &v2 {
                    cmp_pair(w, f, s1, s2, a, b);
                }
                if w.violated() {
                    return;
                }
            }
            w.sample(|| format!("{} x {} at 1/{} and 1/{} s", T1::NAME, T2::NAME, s1, s2));
        }));
    }
}

/// All values of the 16-bit type T2 against those values of T1 (and neighbours) at which the order flips.
#[inline(never)]
pub fn frontier<T1, S1, T2, S2>(out: &mut Vec<Job>)
where
    T1: Num + NumCmp<T2>,
    T2: Num + NumCmp<T1>,
    S1: Sc,
    S2: Sc,
{
    if cmp_ok::<T1, S1, T2, S2>() {
        frontier_loop(cmp_mask::<T1, S1, T2, S2>, S1::TICKS_PER_SECOND, S2::TICKS_PER_SECOND, out);
    }
}

#[inline(never)]
fn frontier_loop<T1: Num, T2: Num>(f: fn(T1, T2) -> u32, s1: u32, s2: u32, out: &mut Vec<Job>) {
    for part in T2::all().chunks(8192) {
        let part = part.to_vec();
        out.push(Box::new(move |w| {
            for &b in &part {
                // a/s1 = b/s2  =>  a = b*s1/s2
                let q = b.sm().mul(SM::new(false, s1 as u128)).unwrap().floor_pos(s2 as u128).0;
                for k in -2..=2 {
                    if let Some(a) = T1::of(q.add(SM::small(k)).unwrap()) {
                        cmp_pair(w, f, s1, s2, a, b);
                    }
                }
            }
        }));
    }
}
