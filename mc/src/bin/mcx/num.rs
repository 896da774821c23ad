//! Exact integers for the oracle of C18..C22: sign and 128-bit magnitude, and tick types as such.
use num_integer::Integer;
use num_traits::PrimInt;
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SM {
    pub neg: bool,
    pub mag: u128,
}

impl SM {
    pub fn new(neg: bool, mag: u128) -> SM {
        SM { neg: neg && mag != 0, mag }
    }
    pub fn small(x: i64) -> SM {
        SM::new(x < 0, x.unsigned_abs() as u128)
    }
    pub fn add(self, o: SM) -> Option<SM> {
        if self.neg == o.neg {
            Some(SM::new(self.neg, self.mag.checked_add(o.mag)?))
        } else if self.mag >= o.mag {
            Some(SM::new(self.neg, self.mag - o.mag))
        } else {
            Some(SM::new(o.neg, o.mag - self.mag))
        }
    }
    pub fn negate(self) -> SM {
        SM::new(!self.neg, self.mag)
    }
    pub fn sub(self, o: SM) -> Option<SM> {
        self.add(o.negate())
    }
    pub fn mul(self, o: SM) -> Option<SM> {
        Some(SM::new(self.neg != o.neg, self.mag.checked_mul(o.mag)?))
    }
    /// Quotient rounded down and the non-negative-divisor remainder, divisor positive.
    pub fn floor_pos(self, d: u128) -> (SM, SM) {
        if self.neg {
            let q = self.mag / d + (self.mag % d != 0) as u128;
            let r = (d - self.mag % d) % d;
            (SM::new(true, q), SM::new(false, r))
        } else {
            (SM::new(false, self.mag / d), SM::new(false, self.mag % d))
        }
    }
    /// Quotient rounded down; divisor not zero.
    pub fn div_floor(self, d: SM) -> SM {
        let s = SM::new(self.neg != d.neg, self.mag);
        s.floor_pos(d.mag).0
    }
    pub fn div_ceil(self, d: SM) -> SM {
        SM::new(self.neg == d.neg, self.mag).floor_pos(d.mag).0.negate()
    }
    pub fn is_zero(self) -> bool {
        self.mag == 0
    }
}

/// Compare a/p with b/q by cross-multiplication in 160 bits.
pub fn cmp_ratio(a: SM, p: u32, b: SM, q: u32) -> Ordering {
    fn wide(m: u128, f: u32) -> (u128, u64) {
        let lo = (m & u64::MAX as u128) * f as u128;
        let hi = (m >> 64) * f as u128 + (lo >> 64);
        (hi, lo as u64)
    }
    match (a.neg, b.neg) {
        (false, true) => Ordering::Greater,
        (true, false) => Ordering::Less,
        (false, false) => wide(a.mag, q).cmp(&wide(b.mag, p)),
        (true, true) => wide(b.mag, p).cmp(&wide(a.mag, q)),
    }
}

pub trait Num: PrimInt + Integer + Hash + Debug + Display + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: u32;
    fn sm(self) -> SM;
    fn of(s: SM) -> Option<Self>;
    fn fits(x: u32) -> bool {
        Self::of(SM::new(false, x as u128)).is_some()
    }
    fn of_opt(s: Option<SM>) -> Option<Self> {
        s.and_then(Self::of)
    }
    /// Every value.
    #[inline(never)]
    fn all() -> Vec<Self> {
        assert!(Self::BITS <= 16);
        let lo = Self::min_value().sm();
        (0..1u128 << Self::BITS).map(|k| Self::of(lo.add(SM::new(false, k)).unwrap()).unwrap()).collect()
    }
    /// Values around everything at which a result can change its form: the extremes, zero, powers of two and
    /// ten, and multiples of the given ratios nearest to the extremes of every type.
    #[inline(never)]
    fn lattice(ratios: &[u32], rich: bool) -> Vec<Self> {
        let mut v: Vec<SM> = vec![];
        let mut around = |s: SM, k: i64| {
            for d in -k..=k {
                if let Some(x) = s.add(SM::small(d)) {
                    v.push(x);
                }
            }
        };
        around(Self::min_value().sm(), 3);
        around(Self::max_value().sm(), 3);
        around(SM::small(0), if rich { 12 } else { 4 });
        for k in 3..Self::BITS {
            if !rich && k > 8 && k % 8 > 1 && k % 8 < 6 {
                continue;
            }
            for neg in [false, true] {
                around(SM::new(neg, 1 << k), 1);
            }
        }
        for k in 1..38u32 {
            if !rich && k > 4 && k % 3 != 0 {
                continue;
            }
            for neg in [false, true] {
                around(SM::new(neg, 10u128.pow(k)), if rich { 1 } else { 0 });
            }
        }
        for &r in ratios {
            let exts = [
                i8::MAX as u128, u8::MAX as u128, i16::MAX as u128, u16::MAX as u128, i32::MAX as u128, u32::MAX as u128, i64::MAX as u128,
                u64::MAX as u128, i128::MAX as u128, u128::MAX,
            ];
            for neg in [false, true] {
                around(SM::new(neg, r as u128), 1);
                for x in exts {
                    // The last multiple within the extreme, and the extreme's quotient.
                    around(SM::new(neg, x / r as u128 * r as u128), 1);
                    around(SM::new(neg, x / r as u128), 1);
                    if let Some(y) = x.checked_mul(r as u128) {
                        around(SM::new(neg, y), 1);
                    }
                }
            }
        }
        let mut v: Vec<Self> = v.into_iter().filter_map(Self::of).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Every value for the narrow types, the lattice for the others.
    #[inline(never)]
    fn values(ratios: &[u32], rich: bool) -> Vec<Self> {
        if Self::BITS <= 16 {
            Self::all()
        } else {
            Self::lattice(ratios, rich)
        }
    }
}

macro_rules! num {
    ($($T:ident)*) => { $(
        impl Num for $T {
            const NAME: &'static str = stringify!($T);
            const BITS: u32 = $T::BITS;
            #[inline]
            #[allow(unused_comparisons)]
            fn sm(self) -> SM {
                if self < 0 {
                    SM::new(true, (self as i128).unsigned_abs())
                } else {
                    SM::new(false, self as u128)
                }
            }
            #[inline]
            fn of(s: SM) -> Option<Self> {
                if s.neg {
                    if s.mag <= 1u128 << 127 {
                        <$T>::try_from((s.mag as i128).wrapping_neg()).ok()
                    } else {
                        None
                    }
                } else {
                    <$T>::try_from(s.mag).ok()
                }
            }
        }
    )* };
}
num!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128);
