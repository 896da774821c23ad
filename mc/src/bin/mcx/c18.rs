use crate::by;
use crate::common::*;
use crate::for_types;
use crate::num::*;
use mc::engine::*;

pub fn c18(e: &Engine) {
    e.rule("comparisons of every pair of 8-bit ticks under every scale pair, every 16-bit with every 8-bit tick, every 16-bit tick with the ticks of every other type around the moment it denotes, and all pairs from lattices of boundary values for all 100 pairs of tick types (thorough: all pairs of 16-bit ticks); each by all operators in both directions");
    // 8 bits: everything.
    let mut jobs = vec![];
    macro_rules! eight {
        ($($s1:literal $s2:literal),*) => { $( eight!(@ $s1 $s2 i8 i8); eight!(@ $s1 $s2 i8 u8); eight!(@ $s1 $s2 u8 i8); eight!(@ $s1 $s2 u8 u8); )* };
        (@ $s1:literal $s2:literal $a:ident $b:ident) => { by::$a::cmp_jobs::<$a, R<$s1>, $b, R<$s2>>(&<$a>::all(), &<$b>::all(), &mut jobs); };
    }
    eight!(1 1, 1 2, 2 1, 1 3, 1 7, 7 1, 1 10, 10 1, 2 10, 10 2, 10 100, 100 10, 1 100, 100 1, 1 127, 127 1, 1 128, 128 1, 1 255, 255 1, 1000 100000, 100000 1000);
    run_jobs(e, "8 x 8 bits", jobs);
    let mut jobs = vec![];
    macro_rules! sixteen {
        ($($s1:literal $s2:literal),*) => { $( sixteen!(@ $s1 $s2 i16 i8); sixteen!(@ $s1 $s2 u16 i8); sixteen!(@ $s1 $s2 i16 u8); sixteen!(@ $s1 $s2 u16 u8); )* };
        (@ $s1:literal $s2:literal $a:ident $b:ident) => { by::$a::cmp_jobs::<$a, R<$s1>, $b, R<$s2>>(&<$a>::all(), &<$b>::all(), &mut jobs); };
    }
    sixteen!(1 1, 1000 1, 1 100, 256 1, 32767 1);
    run_jobs(e, "16 x 8 bits", jobs);
    let mut jobs = vec![];
    macro_rules! front {
        ($s1:literal $s2:literal; $t:ident) => {
            by::$t::frontier::<$t, R<$s1>, i16, R<$s2>>(&mut jobs);
            by::$t::frontier::<$t, R<$s1>, u16, R<$s2>>(&mut jobs);
        };
    }
    for_types!(front!(1 1;));
    for_types!(front!(1000 1;));
    for_types!(front!(1 1000;));
    for_types!(front!(1000000000 1;));
    for_types!(front!(1000000000 1000;));
    for_types!(front!(60 12;));
    run_jobs(e, "16 bits against the moment in every type", jobs);
    // Wide: lattices.
    let mut jobs = vec![];
    let ratios = [1000, 1_000_000, 1_000_000_000, 7];
    macro_rules! wide2 {
        ($s1:literal $s2:literal; $a:ident, $b:ident) => {
            by::$a::cmp_jobs::<$a, R<$s1>, $b, R<$s2>>(&<$a>::lattice(&ratios, e.thorough()), &<$b>::lattice(&ratios, e.thorough()), &mut jobs);
        };
    }
    macro_rules! wide {
        ($s1:literal $s2:literal; $a:ident) => { for_types!(wide2!($s1 $s2; $a,)); };
    }
    for_types!(wide!(1 1;));
    for_types!(wide!(1 1000;));
    for_types!(wide!(1000000000 1;));
    for_types!(wide!(1000 1000000000;));
    for_types!(wide!(7 1;));
    for_types!(wide!(1 4294967295;));
    run_jobs(e, "lattices of all types", jobs);
    if e.thorough() {
        let mut jobs = vec![];
        macro_rules! full {
            ($($s1:literal $s2:literal),*) => { $( full!(@ $s1 $s2 i16 i16); full!(@ $s1 $s2 u16 i16); full!(@ $s1 $s2 i16 u16); full!(@ $s1 $s2 u16 u16); )* };
            (@ $s1:literal $s2:literal $a:ident $b:ident) => { by::$a::cmp_jobs::<$a, R<$s1>, $b, R<$s2>>(&<$a>::all(), &<$b>::all(), &mut jobs); };
        }
        full!(1 1, 1 1000, 100 1);
        run_jobs(e, "16 x 16 bits", jobs);
    }
}
