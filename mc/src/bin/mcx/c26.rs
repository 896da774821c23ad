use crate::common::*;
use crate::for_types;
use crate::num::*;
use mc::engine::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[inline]
fn order<T: Num, S: Sc>(w: &mut W, a: T, b: T) {
    w.states += 1;
    w.transitions += 8;
    let (x, y) = (dur::<T, S>(a), dur::<T, S>(b));
    let o = cmp_ratio(a.sm(), 1, b.sm(), 1);
    let exp = (o == Ordering::Equal, o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less, Some(o), o);
    let case = |what: &str| format!("durations of {} and {} {} ticks of 1/{} s: {}", a, b, T::NAME, S::TICKS_PER_SECOND, what);
    match guard(|| (x == y, x < y, x <= y, x > y, x >= y, x.partial_cmp(&y), x.cmp(&y))) {
        Ok(g) if g == exp => w.hit(match o {
            Ordering::Less => "shorter",
            Ordering::Equal => "equal",
            Ordering::Greater => "longer",
        }),
        g => w.fail(case("(==, <, <=, >, >=, partial_cmp, cmp)"), format!("{:?}", exp), outcome(g)),
    }
    let (lo, hi) = if o == Ordering::Greater { (b, a) } else { (a, b) };
    match guard(|| (x.min(y) == dur::<T, S>(lo), x.max(y) == dur::<T, S>(hi), x != y)) {
        Ok((true, true, ne)) if ne == (o != Ordering::Equal) => {}
        g => w.fail(case("the shorter, the longer, !="), format!("({}, {}, {})", lo, hi, o != Ordering::Equal), outcome(g)),
    }
    if o == Ordering::Equal {
        // The same value, by another way.
        w.transitions += 2;
        let z = match guard(|| inst::<T, S>(a) - inst::<T, S>(T::zero())) {
            Ok(z) => z,
            Err(()) => return w.fail(case("instant minus epoch"), a.to_string(), last_panic()),
        };
        match guard(|| (hash(&x) == hash(&y), hash(&x) == hash(&z), x == z, hash(&inst::<T, S>(a)) == hash(&inst::<T, S>(b)))) {
            Ok((true, true, true, true)) => w.hit("hashed"),
            g => w.fail(case("hashes of equal values"), "equal", outcome(g)),
        }
    }
}

pub fn c26(e: &Engine) {
    e.rule("every pair of 8-bit durations, every 16-bit duration against every boundary value (thorough: every pair), all pairs from lattices of the wider types, in several scales: all comparison operators, minimum and maximum, and the hashes of equal durations and instants");
    let mut jobs: Vec<Job> = vec![];
    macro_rules! pairs {
        ($s:literal, $t:ty) => {{
            let v = if <$t>::BITS == 8 { <$t>::all() } else { <$t>::lattice(&[$s, 1000], e.thorough()) };
            let v2 = v.clone();
            split_jobs(
                v,
                16,
                move |w, p| {
                    for &a in p {
                        for &b in &v2 {
                            order::<$t, R<$s>>(w, a, b);
                        }
                    }
                    w.traces += 1;
                    w.sample(|| format!("{} durations of {}.. ticks against {} values", <$t>::NAME, p[0], v2.len()));
                },
                &mut jobs,
            );
        }};
    }
    for_types!(pairs!(1,));
    for_types!(pairs!(1000000000,));
    run_jobs(e, "pairs", jobs);
    let mut jobs: Vec<Job> = vec![];
    macro_rules! sixteen {
        ($t:ty) => {{
            let v2 = if e.thorough() { <$t>::all() } else { <$t>::lattice(&[1000, 60], true) };
            split_jobs(
                <$t>::all(),
                128,
                move |w, p| {
                    for &a in p {
                        order::<$t, R<1000>>(w, a, a);
                        for &b in &v2 {
                            order::<$t, R<1000>>(w, a, b);
                        }
                    }
                    w.traces += 1;
                },
                &mut jobs,
            );
        }};
    }
    sixteen!(i16);
    sixteen!(u16);
    run_jobs(e, "every 16-bit duration", jobs);
}
