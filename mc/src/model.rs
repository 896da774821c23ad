//! The reference model. Deliberately boring: the calendar is walked day by day with the Gregorian
//! leap-year rule; the UTC timeline is "every day has 86400 seconds plus that day's leap adjustment".
use std::sync::OnceLock;

pub const MIN_DAY: i32 = -719528; // 0000-01-01
pub const MAX_DAY: i32 = 2932896; // 9999-12-31
pub const DAYS: u32 = (MAX_DAY - MIN_DAY + 1) as u32;

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn mlen(y: i32, m: u32) -> u32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        _ => 31,
    }
}

pub struct Cal {
    ymd: Vec<u32>,          // indexed by day - MIN_DAY: y<<16 | m<<8 | d
    year_start: Vec<i32>,   // day number of y-01-01
}

/// Successor of a date: the definition of the calendar.
pub fn next_date(y: i32, m: u32, d: u32) -> (i32, u32, u32) {
    if d < mlen(y, m) {
        (y, m, d + 1)
    } else if m < 12 {
        (y, m + 1, 1)
    } else {
        (y + 1, 1, 1)
    }
}

pub fn cal() -> &'static Cal {
    static C: OnceLock<Cal> = OnceLock::new();
    C.get_or_init(|| {
        let mut ymd = Vec::with_capacity(DAYS as usize);
        let mut year_start = Vec::with_capacity(10001);
        let (mut y, mut m, mut d) = (0i32, 1u32, 1u32);
        let mut day = MIN_DAY;
        while y <= 9999 {
            if m == 1 && d == 1 {
                year_start.push(day);
            }
            ymd.push((y as u32) << 16 | m << 8 | d);
            (y, m, d) = next_date(y, m, d);
            day += 1;
        }
        assert_eq!(day - 1, MAX_DAY);
        assert_eq!(ymd.len(), DAYS as usize);
        let c = Cal { ymd, year_start };
        assert_eq!(c.date(0), (1970, 1, 1)); // the anchor of the day numbers
        c
    })
}

impl Cal {
    #[inline]
    pub fn date(&self, day: i32) -> (i32, u32, u32) {
        let v = self.ymd[(day - MIN_DAY) as usize];
        ((v >> 16) as i32, (v >> 8) & 0xff, v & 0xff)
    }
    /// Day number of an existing date.
    #[inline]
    pub fn day(&self, y: i32, m: u32, d: u32) -> i32 {
        let mut n = self.year_start[y as usize];
        for k in 1..m {
            n += mlen(y, k) as i32;
        }
        n + d as i32 - 1
    }
    pub fn valid(&self, y: i64, m: u32, d: u32) -> bool {
        (0..=9999).contains(&y) && (1..=12).contains(&m) && d >= 1 && d <= mlen(y as i32, m)
    }
}

/// A leap-second table: (first day after the adjusted day, +1 or -1), ascending.
#[derive(Clone, Debug, PartialEq)]
pub struct Leaps {
    pub name: String,
    pub ends: Vec<(i32, i32)>,
}

impl Leaps {
    pub fn new(name: &str, ends: Vec<(i32, i32)>) -> Self {
        Leaps { name: name.into(), ends }
    }
    #[inline]
    pub fn total_before(&self, day: i32) -> i64 {
        let mut t = 0;
        for (e, d) in &self.ends {
            if *e <= day {
                t += *d as i64;
            }
        }
        t
    }
    #[inline]
    pub fn day_len(&self, day: i32) -> u32 {
        for (e, d) in &self.ends {
            if *e == day + 1 {
                return (86400 + d) as u32;
            }
        }
        86400
    }
    /// Elapsed seconds since 1970-01-01T00:00:00.
    #[inline]
    pub fn at(&self, day: i32, sec: u32) -> i64 {
        day as i64 * 86400 + self.total_before(day) + sec as i64
    }
    /// The inverse; None outside 0000-01-01..9999-12-31.
    #[inline]
    pub fn from(&self, t: i128) -> Option<(i32, u32)> {
        let g = t.div_euclid(86400);
        if g < MIN_DAY as i128 - 10 || g > MAX_DAY as i128 + 10 {
            return None;
        }
        let t = t as i64;
        let mut day = g as i32;
        while self.at(day, 0) > t {
            day -= 1;
        }
        while t - self.at(day, 0) >= self.day_len(day) as i64 {
            day += 1;
        }
        if !(MIN_DAY..=MAX_DAY).contains(&day) {
            return None;
        }
        Some((day, (t - self.at(day, 0)) as u32))
    }
}

/// Days (first day after) of the leap seconds published by the IERS, 1972..2016.
pub fn iers() -> Leaps {
    let mut ends = vec![];
    for (y, m) in [
        (1972, 6), (1972, 12), (1973, 12), (1974, 12), (1975, 12), (1976, 12), (1977, 12), (1978, 12), (1979, 12),
        (1981, 6), (1982, 6), (1983, 6), (1985, 6), (1987, 12), (1989, 12), (1990, 12), (1992, 6), (1993, 6),
        (1994, 6), (1995, 12), (1997, 6), (1998, 12), (2005, 12), (2008, 12), (2012, 6), (2015, 6), (2016, 12),
    ] {
        let d = if m == 6 { 30 } else { 31 };
        ends.push((cal().day(y, m, d) + 1, 1));
    }
    assert_eq!(ends.len(), 27);
    Leaps::new("iers", ends)
}

/// Precision levels in builder order.
pub const P_YEAR: u8 = 0;
pub const P_MONTH: u8 = 1;
pub const P_DAY: u8 = 2;
pub const P_HOUR: u8 = 3;
pub const P_MINUTE: u8 = 4;
pub const P_SECOND: u8 = 5;
pub const P_MS: u8 = 6;
pub const P_US: u8 = 7;
pub const P_NS: u8 = 8;

/// Model state of a date-time.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct M {
    pub day: i32,
    pub sec: u32,
    pub ns: u32,
    pub prec: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Carry {
    pub days: u32,
    pub secs: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Years(i16),
    Months(i32),
    Days(i32),
    Hours(i32),
    Minutes(i64),
    Seconds(i64),
}

impl M {
    pub fn new(day: i32, sec: u32) -> M {
        M { day, sec, ns: 0, prec: P_SECOND }
    }
    pub fn ns(day: i32, sec: u32, ns: u32) -> M {
        M { day, sec, ns, prec: P_NS }
    }
    pub fn hms(&self) -> (u32, u32, u32) {
        let mi = (self.sec / 60).min(1439);
        (mi / 60, mi % 60, self.sec - mi * 60)
    }
    pub fn show(&self) -> String {
        let (y, m, d) = cal().date(self.day);
        let (h, mi, s) = self.hms();
        let p = ["Y", "M", "D", "h", "m", "s", "ms", "us", "ns"][self.prec as usize];
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}/{}", y, m, d, h, mi, s, self.ns, p)
    }

    fn place(l: &Leaps, day: i32, sec: u32) -> (u32, u64) {
        let len = l.day_len(day);
        if sec >= len {
            (len - 1, (sec - (len - 1)) as u64)
        } else {
            (sec, 0)
        }
    }

    fn on(&self, l: &Leaps, day: i64, cut: u32) -> Option<(M, Carry)> {
        if day < MIN_DAY as i64 || day > MAX_DAY as i64 {
            return None;
        }
        let (sec, secs) = Self::place(l, day as i32, self.sec);
        Some((M { day: day as i32, sec, ..*self }, Carry { days: cut, secs }))
    }

    pub fn step(&self, l: &Leaps, op: Op) -> Option<(M, Carry)> {
        let c = cal();
        match op {
            Op::Years(n) => {
                let (y, m, d) = c.date(self.day);
                let y2 = y as i64 + n as i64;
                if !(0..=9999).contains(&y2) {
                    return None;
                }
                let d2 = d.min(mlen(y2 as i32, m));
                self.on(l, c.day(y2 as i32, m, d2) as i64, d - d2)
            }
            Op::Months(n) => {
                let (y, m, d) = c.date(self.day);
                let k = y as i64 * 12 + m as i64 - 1 + n as i64;
                if !(0..=9999 * 12 + 11).contains(&k) {
                    return None;
                }
                let (y2, m2) = ((k / 12) as i32, (k % 12) as u32 + 1);
                let d2 = d.min(mlen(y2, m2));
                self.on(l, c.day(y2, m2, d2) as i64, d - d2)
            }
            Op::Days(n) => self.on(l, self.day as i64 + n as i64, 0),
            Op::Hours(n) => self.minutes(l, n as i128 * 60),
            Op::Minutes(n) => self.minutes(l, n as i128),
            Op::Seconds(n) => {
                let (day, sec) = l.from(l.at(self.day, self.sec) as i128 + n as i128)?;
                Some((M { day, sec, ..*self }, Carry::default()))
            }
        }
    }

    fn minutes(&self, l: &Leaps, n: i128) -> Option<(M, Carry)> {
        let (h, mi, s) = self.hms();
        let t = self.day as i128 * 1440 + (h * 60 + mi) as i128 + n;
        let (day, minute) = (t.div_euclid(1440), t.rem_euclid(1440) as u32);
        if day < MIN_DAY as i128 || day > MAX_DAY as i128 {
            return None;
        }
        let day = day as i32;
        let len = if minute == 1439 { l.day_len(day) - 1439 * 60 } else { 60 };
        let s2 = s.min(len - 1);
        Some((M { day, sec: minute * 60 + s2, ..*self }, Carry { days: 0, secs: (s - s2) as u64 }))
    }

    pub fn apply_carry(&self, l: &Leaps, c: Carry) -> Option<M> {
        let (m, c2) = self.step(l, Op::Days(c.days as i32))?;
        let (m, _) = m.step(l, Op::Seconds((c.secs + c2.secs) as i64))?;
        Some(m)
    }
}
