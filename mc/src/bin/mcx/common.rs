//! Shared by C18..C22.
use mc::engine::*;
use crate::num::*;
use momentous::{Duration, Instant, Scale};

#[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct R<const N: u32>;
impl<const N: u32> Scale for R<N> {
    const TICKS_PER_SECOND: u32 = N;
}

pub trait Sc: Scale + std::fmt::Debug + 'static {}
impl<S: Scale + std::fmt::Debug + 'static> Sc for S {}

pub type Job = Box<dyn Fn(&mut W) + Send + Sync>;

pub fn run_jobs(e: &Engine, phase: &str, jobs: Vec<Job>) {
    e.par(phase, jobs.len() as u64, || (), |w, _, c| jobs[c as usize](w));
}

pub fn inst<T: Num, S: Sc>(t: T) -> Instant<T, S> {
    Instant::from_ticks_since_epoch(t)
}
pub fn dur<T: Num, S: Sc>(t: T) -> Duration<T, S> {
    inst::<T, S>(t).duration_since_epoch()
}
pub fn outcome<R: std::fmt::Debug>(r: Result<R, ()>) -> String {
    match r {
        Ok(x) => format!("{:?}", x),
        Err(()) => last_panic(),
    }
}
#[inline(never)]
pub fn split_jobs<A: Send + Sync + Clone + 'static>(v: Vec<A>, per: usize, f: impl Fn(&mut W, &[A]) + Send + Sync + Clone + 'static, out: &mut Vec<Job>) {
    for part in v.chunks(per.max(1)) {
        let part = part.to_vec();
        let f = f.clone();
        out.push(Box::new(move |w| f(w, &part)));
    }
}

/// Call $m!(args..., T) for every tick type.
#[macro_export]
macro_rules! for_types {
    ($m:ident!($($a:tt)*)) => {
        $m!($($a)* i8); $m!($($a)* u8); $m!($($a)* i16); $m!($($a)* u16); $m!($($a)* i32);
        $m!($($a)* u32); $m!($($a)* i64); $m!($($a)* u64); $m!($($a)* i128); $m!($($a)* u128);
    };
}

/// Ticks of a duration, for reports.
pub fn shown<T: Num, S: Sc>(d: Duration<T, S>) -> String {
    match guard(|| (Instant::epoch() + d).ticks_since_epoch()) {
        Ok(t) => t.to_string(),
        Err(()) => last_panic(),
    }
}

/// All values of a 32-bit type, by position.
pub fn sweep32<T: Num>(e: &Engine, phase: &str, f: impl Fn(&mut W, T) + Sync) {
    let lo = T::min_value().sm();
    e.par(phase, 4096, || (), |w, _, c| {
        for k in 0..1u128 << 20 {
            let t = T::of(lo.add(SM::new(false, ((c as u128) << 20) + k)).unwrap()).unwrap();
            f(w, t);
        }
    });
}
