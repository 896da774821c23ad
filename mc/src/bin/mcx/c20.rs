use crate::common::*;
use crate::for_types;
use crate::num::*;
use mc::engine::*;
use momentous::Instant;

#[inline]
fn arith<T: Num, S: Sc>(w: &mut W, a: T, b: T) {
    w.states += 1;
    w.transitions += 4;
    let (x, y) = (inst::<T, S>(a), inst::<T, S>(b));
    let d = dur::<T, S>(b);
    let sum = T::of_opt(a.sm().add(b.sm()));
    let diff = T::of_opt(a.sm().sub(b.sm()));
    let case = |what: &str| format!("{} ticks of 1/{} s: {} {} {}", T::NAME, S::TICKS_PER_SECOND, a, what, b);
    match guard(|| x.checked_add(d).map(|r| r.ticks_since_epoch())) {
        Ok(g) if g == sum => {}
        g => w.fail(case("checked_add"), format!("{:?}", sum), outcome(g)),
    }
    // Panics cost much more than results, so a refusal is probed where it could turn into a result.
    match (&sum, guard(|| (x + d).ticks_since_epoch())) {
        (Some(s), Ok(g)) if g == *s => w.hit("sum"),
        (None, Err(())) => w.hit("sum refused"),
        (s, g) => w.fail(case("+"), format!("{:?}", s), outcome(g)),
    }
    match (&diff, guard(|| x - y)) {
        (Some(s), Ok(g)) if g == dur::<T, S>(*s) => {
            w.hit("difference");
            match guard(|| y.checked_add(g).map(|r| r.ticks_since_epoch())) {
                Ok(Some(z)) if z == a => {}
                z => w.fail(case("(a-b)+b with"), a.to_string(), outcome(z)),
            }
        }
        (None, Err(())) => w.hit("difference refused"),
        (s, g) => w.fail(case("-"), format!("{:?}", s), outcome(g)),
    }
}

/// As `arith`, without the operators that panic on refusal (for sweeps).
#[inline]
fn arith_quiet<T: Num, S: Sc>(w: &mut W, a: T, b: T) {
    w.states += 1;
    w.transitions += 1;
    let sum = T::of_opt(a.sm().add(b.sm()));
    let x = inst::<T, S>(a);
    match guard(|| x.checked_add(dur::<T, S>(b)).map(|r| r.ticks_since_epoch())) {
        Ok(g) if g == sum => {}
        g => w.fail(format!("{} ticks: {} checked_add {}", T::NAME, a, b), format!("{:?}", sum), outcome(g)),
    }
    if sum.is_some() {
        w.transitions += 1;
        match guard(|| (x + dur::<T, S>(b)).ticks_since_epoch()) {
            Ok(g) if Some(g) == sum => {}
            g => w.fail(format!("{} ticks: {} + {}", T::NAME, a, b), format!("{:?}", sum), outcome(g)),
        }
    }
    let diff = T::of_opt(a.sm().sub(b.sm()));
    if let Some(d) = diff {
        w.transitions += 1;
        match guard(|| x - inst::<T, S>(b)) {
            Ok(g) if g == dur::<T, S>(d) => {}
            g => w.fail(format!("{} ticks: {} - {}", T::NAME, a, b), d.to_string(), outcome(g)),
        }
    }
}

pub fn c20(e: &Engine) {
    e.rule("sums and differences of every pair of 8-bit ticks, every 16-bit tick with every boundary value (thorough: every pair), all pairs from lattices of the wider types, in several scales; minimum, maximum and epoch of every type");
    let mut jobs: Vec<Job> = vec![];
    macro_rules! ends {
        ($t:ty) => {
            jobs.push(Box::new(|w| {
                w.states += 3;
                w.transitions += 3;
                w.hit("extreme");
                type I = Instant<$t, R<1000>>;
                for (what, got, exp) in [
                    ("min_value", guard(|| I::min_value().ticks_since_epoch()), <$t>::MIN),
                    ("max_value", guard(|| I::max_value().ticks_since_epoch()), <$t>::MAX),
                    ("epoch", guard(|| I::epoch().ticks_since_epoch()), 0),
                ] {
                    if got != Ok(exp) {
                        w.fail(format!("{} {}", <$t>::NAME, what), exp.to_string(), outcome(got));
                    }
                }
            }));
        };
    }
    for_types!(ends!());
    macro_rules! pairs {
        ($s:literal, $t:ty) => {{
            let v = if <$t>::BITS == 8 { <$t>::all() } else { <$t>::lattice(&[$s], e.thorough()) };
            let v2 = v.clone();
            split_jobs(
                v,
                16,
                move |w, p| {
                    for &a in p {
                        for &b in &v2 {
                            arith::<$t, R<$s>>(w, a, b);
                        }
                    }
                    w.sample(|| format!("{} sums and differences of {}.. with {} values", <$t>::NAME, p[0], v2.len()));
                },
                &mut jobs,
            );
        }};
    }
    for_types!(pairs!(1,));
    for_types!(pairs!(1000000000,));
    run_jobs(e, "pairs", jobs);
    let mut jobs: Vec<Job> = vec![];
    macro_rules! sixteen {
        ($t:ty) => {{
            let v2 = if e.thorough() { <$t>::all() } else { <$t>::lattice(&[1000, 60], true) };
            split_jobs(
                <$t>::all(),
                128,
                move |w, p| {
                    for &a in p {
                        for &b in &v2 {
                            arith_quiet::<$t, R<1000>>(w, a, b);
                            if v2.len() < 65536 {
                                arith_quiet::<$t, R<1000>>(w, b, a);
                            }
                        }
                    }
                },
                &mut jobs,
            );
        }};
    }
    sixteen!(i16);
    sixteen!(u16);
    run_jobs(e, "every 16-bit tick", jobs);
}
