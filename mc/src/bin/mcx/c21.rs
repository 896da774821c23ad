use crate::common::*;
use crate::for_types;
use crate::num::*;
use mc::engine::*;
use momentous::{Duration, Instant};

#[inline(never)]
fn conv_jobs<T: Num, T2: Num>(out: &mut Vec<Job>)
where
    T: TryInto<T2> + TryFrom<T2>,
    T2: TryInto<T>,
{
    type S = R<1000>;
    split_jobs(
        T::values(&[1000], true),
        8192,
        |w, p| {
            for &t in p {
                w.states += 1;
                w.transitions += 4;
                let exp = T2::of(t.sm());
                let case = |what: &str| format!("{} of {} {} to {}", what, T::NAME, t, T2::NAME);
                let a = guard(|| Instant::<T2, S>::try_from(inst::<T, S>(t)).ok().map(|x| x.ticks_since_epoch()));
                let b = guard(|| inst::<T, S>(t).try_into::<T2>().ok().map(|x| x.ticks_since_epoch()));
                let want = exp.map(dur::<T2, S>);
                let c = guard(|| Duration::<T2, S>::try_from(inst::<T, S>(t)).ok());
                let d = guard(|| dur::<T, S>(t).try_into::<T2>().ok());
                for (what, g) in [("Instant::try_from", a), ("Instant::try_into", b)] {
                    if g != Ok(exp) {
                        w.fail(case(what), format!("{:?}", exp), outcome(g));
                    }
                }
                for (what, g) in [("Duration::try_from", c), ("Duration::try_into", d)] {
                    if g != Ok(want) {
                        w.fail(case(what), format!("{:?}", exp), outcome(g));
                    }
                }
                w.hit(if exp.is_some() { "kept" } else { "refused" });
            }
            w.sample(|| format!("{} from {} to {}", p[0], T::NAME, T2::NAME));
        },
        out,
    );
}

fn same_type<A: 'static, B: 'static>(_: &B) -> bool {
    std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>()
}

pub fn c21(e: &Engine) {
    e.rule("conversions of every 8- and 16-bit tick and boundary lattices of the wider types between all 100 pairs of tick types, of instants and of durations, fallible, lossless and widening; type of the widened value; thorough: every 32-bit tick");
    type S = R<1000>;
    let mut jobs = vec![];
    macro_rules! tr2 {
        ($a:ty, $b:ty) => { conv_jobs::<$a, $b>(&mut jobs); };
    }
    macro_rules! tr {
        ($a:ty) => { for_types!(tr2!($a,)); };
    }
    for_types!(tr!());
    run_jobs(e, "fallible conversions", jobs);
    let mut jobs: Vec<Job> = vec![];
    // Lossless ones.
    macro_rules! into {
        ($($a:ty => $($b:ty)*;)*) => { $($(
            split_jobs(<$a>::values(&[1000], true), 8192, |w, p| for &t in p {
                w.states += 1;
                w.transitions += 2;
                let exp = <$b>::of(t.sm()).unwrap();
                let g = guard(|| inst::<$a, S>(t).into::<$b>().ticks_since_epoch());
                if g != Ok(exp) {
                    w.fail(format!("Instant::into of {} {} to {}", <$a>::NAME, t, <$b>::NAME), exp.to_string(), outcome(g));
                }
                let g = guard(|| dur::<$a, S>(t).into::<$b>());
                if g != Ok(dur::<$b, S>(exp)) {
                    w.fail(format!("Duration::into of {} {} to {}", <$a>::NAME, t, <$b>::NAME), exp.to_string(), outcome(g));
                }
                w.hit("lossless");
            }, &mut jobs);
        )*)* };
    }
    into!(
        i8 => i8 i16 i32 i64 i128; i16 => i16 i32 i64 i128; i32 => i32 i64 i128; i64 => i64 i128; i128 => i128;
        u8 => u8 u16 u32 u64 u128 i16 i32 i64 i128; u16 => u16 u32 u64 u128 i32 i64 i128; u32 => u32 u64 u128 i64 i128;
        u64 => u64 u128 i128; u128 => u128;
    );
    // Widening: $a widened with $b is $o.
    macro_rules! widen {
        ($($a:ty => $($b:ty : $o:ty),*;)*) => { $($(
            split_jobs(<$a>::values(&[1000], true), 8192, |w, p| for &t in p {
                w.states += 1;
                w.transitions += 2;
                let case = |what: &str| format!("{} of {} {} with {}", what, <$a>::NAME, t, <$b>::NAME);
                match guard(|| inst::<$a, S>(t).widen::<$b>()) {
                    Ok(x) => {
                        let got = x.ticks_since_epoch();
                        if !same_type::<$o, _>(&got) || got.sm() != t.sm() {
                            w.fail(case("Instant::widen"), format!("{} {}", <$o>::NAME, t), format!("{} ({} bytes)", got, std::mem::size_of_val(&got)));
                        }
                    }
                    Err(()) => w.fail(case("Instant::widen"), t.to_string(), last_panic()),
                }
                match guard(|| dur::<$a, S>(t).widen::<$b>()) {
                    Ok(x) => {
                        // Compare through the instant that far from the epoch.
                        let got = (Instant::epoch() + x).ticks_since_epoch();
                        if !same_type::<$o, _>(&got) || got.sm() != t.sm() {
                            w.fail(case("Duration::widen"), format!("{} {}", <$o>::NAME, t), format!("{} ({} bytes)", got, std::mem::size_of_val(&got)));
                        }
                    }
                    Err(()) => w.fail(case("Duration::widen"), t.to_string(), last_panic()),
                }
                w.hit("widened");
            }, &mut jobs);
        )*)* };
    }
    widen!(
        u8 => u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, i16: i16, i32: i32, i64: i64, i128: i128;
        u16 => u8: u16, u16: u16, u32: u32, u64: u64, u128: u128, i32: i32, i64: i64, i128: i128;
        u32 => u8: u32, u16: u32, u32: u32, u64: u64, u128: u128, i64: i64, i128: i128;
        u64 => u8: u64, u16: u64, u32: u64, u64: u64, u128: u128, i128: i128;
        u128 => u8: u128, u16: u128, u32: u128, u64: u128, u128: u128;
        i8 => i8: i8, i16: i16, i32: i32, i64: i64, i128: i128;
        i16 => i8: i16, i16: i16, i32: i32, i64: i64, i128: i128;
        i32 => i8: i32, i16: i32, i32: i32, i64: i64, i128: i128;
        i64 => i8: i64, i16: i64, i32: i64, i64: i64, i128: i128;
        i128 => i8: i128, i16: i128, i32: i128, i64: i128, i128: i128;
    );
    run_jobs(e, "lossless conversions and widening", jobs);
    if e.thorough() {
        fn three<T: Num + TryInto<u8> + TryInto<i16> + TryInto<u16>>(w: &mut W, t: T)
        where
            T: TryInto<i8> + TryInto<i64> + TryInto<u32> + TryInto<i32>,
        {
            w.states += 1;
            macro_rules! one { ($($b:ty)*) => { $(
                w.transitions += 1;
                let g = guard(|| inst::<T, S>(t).try_into::<$b>().ok().map(|x| x.ticks_since_epoch()));
                if g != Ok(<$b>::of(t.sm())) {
                    w.fail(format!("try_into of {} {} to {}", T::NAME, t, <$b>::NAME), format!("{:?}", <$b>::of(t.sm())), outcome(g));
                }
            )* } }
            one!(i8 u8 i16 u16 i32 u32 i64);
        }
        sweep32::<i32>(e, "every i32", three::<i32>);
        sweep32::<u32>(e, "every u32", three::<u32>);
    }
}
