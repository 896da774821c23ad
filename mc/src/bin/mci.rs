//! Explorer of the crate-private parts: C23 (calendar), C24 (slice cursor), C25 (division helpers).
//! Only meaningful with `--cfg momentous_verif`.
#[cfg(not(momentous_verif))]
fn main() {
    eprintln!("mci must be built with --cfg momentous_verif");
    std::process::exit(3);
}

#[cfg(momentous_verif)]
fn main() {
    let e = mc::engine::Engine::from_args();
    e.top(|| match e.id.as_str() {
        "C23" => imp::c23(&e),
        "C24" => imp::c24(&e),
        "C25" => imp::c25(&e),
        _ => {
            eprintln!("unknown property {}", e.id);
            std::process::exit(3);
        }
    });
    e.finish();
}

#[cfg(momentous_verif)]
mod imp {
    use mc::engine::*;
    use mc::model::{leap, mlen};
    use momentous::verif::*;

    fn got<R: std::fmt::Debug>(r: Result<R, ()>) -> String {
        match r {
            Ok(x) => format!("{:?}", x),
            Err(()) => last_panic(),
        }
    }

    // --- C23 -------------------------------------------------------------------------------------
    /// Day number of January 1st, for the start of a chunk: counted from 1970 by the leap-year rule.
    fn year_start(y: i32) -> i64 {
        // Leap years among the years 1..n of the proleptic calendar, for any n.
        let leaps = |n: i64| n.div_euclid(4) - n.div_euclid(100) + n.div_euclid(400);
        (y as i64 - 1970) * 365 + leaps(y as i64 - 1) - leaps(1969)
    }
    fn mlen32(y: i32, m: u32) -> u32 {
        if m == 2 && y < 0 {
            28 + leap(y.rem_euclid(400)) as u32
        } else {
            mlen(y.rem_euclid(400), m)
        }
    }

    fn one_day(w: &mut W, day: i64, y: i32, m: u32, d: u32, prev: &mut Option<Date>) {
        w.states += 1;
        w.transitions += 8;
        let case = |what: &str| format!("{} of day {} = {}-{:02}-{:02}", what, day, y, m, d);
        let r = guard(|| Date::from_day(day as i32));
        let date = match r {
            Ok(Some(x)) => x,
            o => return w.fail(case("from_day"), "a date", got(o)),
        };
        let ymd = guard(|| (date.year(), date.month(), date.day()));
        if ymd != Ok((y, m as u8, d as u8)) {
            w.fail(case("year, month, day"), format!("{:?}", (y, m, d)), got(ymd));
        }
        let back = guard(|| date.to_day());
        if back != Ok(day as i32) {
            w.fail(case("to_day"), day.to_string(), got(back));
        }
        let l = guard(|| date.is_leap_year());
        if l != Ok(leap(y.rem_euclid(400))) {
            w.fail(case("is_leap_year"), leap(y.rem_euclid(400)).to_string(), got(l));
        }
        if (0..=u16::MAX as i32).contains(&y) {
            let t = guard(|| date.to_date());
            if t != Ok((y as u16, m as u8, d as u8)) {
                w.fail(case("to_date"), format!("{:?}", (y, m, d)), got(t));
            }
        }
        if (Date::MIN_YEAR..=Date::MAX_YEAR).contains(&y) {
            let f = guard(|| Date::from_date(y, m as u8, d as u8));
            if f != Ok(Some(date.clone())) {
                w.fail(case("from_date"), format!("{:?}", date), got(f));
            }
        }
        if let Some(p) = prev {
            let p: &Date = p;
            let o = guard(|| (*p < date, date > *p, *p == date, p.cmp(&date)));
            if o != Ok((true, true, false, std::cmp::Ordering::Less)) {
                w.fail(case("order with the day before"), "less", got(o));
            }
        }
        *prev = Some(date);
    }

    pub fn c23(e: &Engine) {
        e.rule("every day number of the calendar's range (37.4 million) with its successor date, leap year, order and conversion back; every year x month x day byte triple of years around century and cycle boundaries and the range ends (thorough: of every year); every refused day and year by class; moves by days between classes of days");
        e.assume("to_date is specified for years 0 to 65535, which is what its result can express; the last 59 days of the range belong to a year whose dates cannot be built from a date");
        let (lo, hi) = (Date::MIN_FIXED_DAY as i64, Date::MAX_FIXED_DAY as i64);
        // Its documented size: 256 cycles of 400 years from March.
        if hi - lo + 1 != 256 * 146_097 || (Date::MIN_YEAR, Date::MAX_YEAR) != (2000 - 128 * 400 + 1, 2000 + 128 * 400 - 1) {
            e.par("range", 1, || (), |w, _, _| w.fail("range of the calendar", "256 cycles of 400 years around 2000-03-01", format!("days {}..={}, years {}..={}", lo, hi, Date::MIN_YEAR, Date::MAX_YEAR)));
            return;
        }
        // The first day of the range is March 1st of the year before MIN_YEAR.
        let first = Date::MIN_YEAR - 1;
        let last = Date::MAX_YEAR + 1;
        let per = 64;
        e.par("every day", ((last - first + 1) as u64).div_ceil(per), || (), |w, _, c| {
            let y0 = first + (c * per) as i32;
            let mut prev = None;
            for y in y0..(y0 + per as i32).min(last + 1) {
                let mut day = year_start(y);
                for m in 1..=12 {
                    for d in 1..=mlen32(y, m) {
                        if (lo..=hi).contains(&day) {
                            w.traces += 1;
                            one_day(w, day, y, m, d, &mut prev);
                        }
                        day += 1;
                    }
                }
                if day != year_start(y + 1) {
                    panic!("the model's years do not join");
                }
                if w.violated() {
                    return;
                }
            }
            w.sample(|| format!("years {}.. checked day by day", y0));
        });
        // Dates: all month and day bytes.
        let mut years: Vec<i32> = vec![];
        if e.thorough() {
            years.extend(Date::MIN_YEAR..=Date::MAX_YEAR);
        } else {
            for c in (Date::MIN_YEAR - 1..=Date::MAX_YEAR + 1).step_by(100) {
                years.extend(c - 4..=c + 4);
            }
            years.extend(1960..=2040);
            years.extend(-5..=10);
            years.extend(9990..=10_010);
            years.retain(|y| (Date::MIN_YEAR..=Date::MAX_YEAR).contains(y));
        }
        e.par("month and day bytes", years.len() as u64, || (), |w, _, c| {
            let y = years[c as usize];
            for m in 0..=255u8 {
                for d in 0..=255u8 {
                    w.states += 1;
                    w.transitions += 1;
                    let ok = (1..=12).contains(&m) && d >= 1 && d as u32 <= mlen32(y, m as u32);
                    let r = guard(|| Date::from_date(y, m, d).map(|x| (x.year(), x.month(), x.day())));
                    if r != Ok(if ok { Some((y, m, d)) } else { None }) {
                        w.fail(format!("from_date {}-{}-{}", y, m, d), if ok { "that date" } else { "refused" }, got(r));
                        return;
                    }
                    w.hit(if ok { "date built" } else { "no such date, refused" });
                }
            }
        });
        // Outside.
        let mut bad_days: Vec<i64> = vec![];
        let mut bad_years: Vec<i64> = vec![];
        for k in 0..=70_000 {
            bad_days.extend([lo - 1 - k, hi + 1 + k]);
            bad_years.extend([Date::MIN_YEAR as i64 - 1 - k, Date::MAX_YEAR as i64 + 1 + k]);
        }
        for k in 0..32 {
            for x in [-2i64, -1, 0, 1, 2] {
                for s in [-1i64, 1] {
                    bad_days.push(s * (1i64 << k) + x);
                    bad_years.push(s * (1i64 << k) + x);
                    bad_days.push(s * (1i64 << k) * 146_097 + x);
                    bad_years.push(s * (1i64 << k) * 400 + x);
                    bad_years.push(s * (1i64 << k) * 256 * 400 + 2000 + x);
                    bad_days.push(s * (1i64 << k) * 256 * 146_097 + x);
                }
            }
        }
        bad_days.retain(|d| !(lo..=hi).contains(d) && i32::try_from(*d).is_ok());
        bad_years.retain(|y| !(Date::MIN_YEAR as i64..=Date::MAX_YEAR as i64).contains(y) && i32::try_from(*y).is_ok());
        e.par("outside the range", 2, || (), |w, _, c| {
            if c == 0 {
                for &d in &bad_days {
                    w.states += 1;
                    w.transitions += 1;
                    let r = guard(|| Date::from_day(d as i32));
                    if r != Ok(None) {
                        w.fail(format!("from_day {}", d), "refused", got(r));
                    }
                    w.hit("day refused");
                }
            } else {
                for &y in &bad_years {
                    for (m, d) in [(1, 1), (2, 29), (3, 1), (6, 15), (12, 31)] {
                        w.states += 1;
                        w.transitions += 1;
                        let r = guard(|| Date::from_date(y as i32, m, d));
                        if r != Ok(None) {
                            w.fail(format!("from_date {}-{}-{}", y, m, d), "refused", got(r));
                        }
                        w.hit("year refused");
                    }
                }
            }
        });
        // Moves and order between classes of days.
        let mut ds: Vec<i64> = vec![lo, lo + 1, hi - 1, hi, -719_528, 2_932_896, -1, 0, 1, 11_016, 11_017, 11_015];
        for c in -128i64..=127 {
            let s = 11_017 + c * 146_097;
            if c % e.pick(16, 2) == 0 || (-8..=22).contains(&c) {
                for k in [0, 365, 366, 1460, 1461, 36_524, 36_525, 73_048, 109_572, 146_096] {
                    ds.extend([s + k - 1, s + k, s + k + 1]);
                }
            }
        }
        ds.retain(|d| (lo..=hi).contains(d));
        ds.sort();
        ds.dedup();
        let all: Vec<Date> = ds.iter().map(|d| Date::from_day(*d as i32).expect("a date")).collect();
        // The span of years 0 to 9999: what the rest of the library moves within.
        let span = 2_932_896 + 719_528;
        e.par("pairs of days", ds.len() as u64, || (), |w, _, c| {
            let i = c as usize;
            for j in 0..ds.len() {
                w.states += 1;
                w.transitions += 2;
                let o = guard(|| (all[i].cmp(&all[j]), all[i] == all[j]));
                if o != Ok((ds[i].cmp(&ds[j]), i == j)) {
                    w.fail(format!("order of days {} and {}", ds[i], ds[j]), format!("{:?}", ds[i].cmp(&ds[j])), got(o));
                }
                let n = ds[j] - ds[i];
                let r = guard(|| {
                    let mut x = all[i].clone();
                    x.add_days(n as i32).then_some(x)
                });
                match r {
                    Ok(Some(x)) if x == all[j] => w.hit("moved"),
                    Ok(None) if n.abs() > span => w.hit("long move refused"),
                    r => w.fail(format!("day {} moved by {}", ds[i], n), format!("day {}", ds[j]), got(r)),
                }
            }
            let mut far = vec![lo - 1 - ds[i], hi + 1 - ds[i], i32::MIN as i64, i32::MAX as i64];
            // Amounts that look small, or harmless, to arithmetic that drops high bits.
            if i % e.pick(16, 2) == 0 {
                for u in [1i64, 365, 1461, 36_524, 146_097] {
                    for k in 7..32 {
                        for s in [-3i64, -2, -1, 1, 2, 3] {
                            for a in [-146_097i64, -36_524, -1, 0, 1, 36_524, 146_097] {
                                far.push(a + s * u * (1i64 << k));
                            }
                        }
                    }
                }
            }
            for n in far {
                if (lo..=hi).contains(&(ds[i] + n)) || i32::try_from(n).is_err() {
                    continue;
                }
                w.states += 1;
                w.transitions += 1;
                let r = guard(|| {
                    let mut x = all[i].clone();
                    x.add_days(n as i32)
                });
                if r != Ok(false) {
                    w.fail(format!("day {} moved by {} out of the range", ds[i], n), "refused", got(r));
                }
                w.hit("move refused");
            }
        });
    }

    // --- C24 -------------------------------------------------------------------------------------
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Act {
        Next,
        Prev,
        Adv(usize),
        Rev(usize),
        Set(Place),
    }

    /// Model of the cursor: 0 before the first of `len` elements, len + 1 after the last.
    fn place(len: usize, p: usize) -> Place {
        if p == 0 {
            Place::Start
        } else if p == len + 1 {
            Place::End
        } else {
            Place::At(p - 1)
        }
    }
    fn el(data: &[u8], p: i64) -> Option<u8> {
        if p >= 1 && p <= data.len() as i64 {
            Some(data[p as usize - 1])
        } else {
            None
        }
    }
    fn look(data: &[u8], c: &SliceWalker, p: usize) -> Option<String> {
        let len = data.len();
        let p = p as i64;
        let at_first_stop = p == 0;
        let at_last_stop = p == len as i64 + 1;
        let exp = (el(data, p), el(data, p + 1), el(data, p - 1), at_first_stop, at_last_stop, place(len, p as usize));
        let act = guard(|| (c.current(), c.peek_next(), c.peek_prev(), c.at_start(), c.at_end(), c.pos()));
        if act == Ok(exp) {
            None
        } else {
            Some(format!("expected (current, next, previous, at start, at end, position) {:?}, got {}", exp, got(act)))
        }
    }
    /// Run one action on both; Err describes a difference.
    fn act(data: &[u8], c: &mut SliceWalker, p: &mut usize, a: Act) -> Result<(), String> {
        let len = data.len();
        let differs = |exp: String, r: String| Err(format!("expected {}, got {}", exp, r));
        match a {
            Act::Next => {
                *p = (*p + 1).min(len + 1);
                let (r, exp) = (guard(|| c.next()), el(data, *p as i64));
                if r != Ok(exp) {
                    return differs(format!("{:?}", exp), got(r));
                }
            }
            Act::Prev => {
                *p = p.saturating_sub(1);
                let (r, exp) = (guard(|| c.prev()), el(data, *p as i64));
                if r != Ok(exp) {
                    return differs(format!("{:?}", exp), got(r));
                }
            }
            Act::Adv(n) => {
                let there = len.saturating_sub(*p); // elements after this place
                let k = n.min(there);
                *p += k;
                let r = guard(|| c.advance_by(n).map_err(|x| x.get()));
                let exp = if n > k { Err(n - k) } else { Ok(()) };
                if r != Ok(exp) {
                    return differs(format!("{:?}", exp), got(r));
                }
            }
            Act::Rev(n) => {
                let there = p.saturating_sub(1); // elements before this place
                let k = n.min(there);
                *p -= k;
                let r = guard(|| c.revert_by(n).map_err(|x| x.get()));
                let exp = if n > k { Err(n - k) } else { Ok(()) };
                if r != Ok(exp) {
                    return differs(format!("{:?}", exp), got(r));
                }
            }
            Act::Set(to) => {
                *p = match to {
                    Place::Start => 0,
                    Place::At(i) => i + 1,
                    Place::End => len + 1,
                };
                if guard(|| c.set_pos(to)).is_err() {
                    return differs("the new position".into(), last_panic());
                }
            }
        }
        match look(data, c, *p) {
            None => Ok(()),
            Some(s) => Err(s),
        }
    }
    fn acts(len: usize, amounts: &[usize]) -> Vec<Act> {
        let mut v = vec![Act::Next, Act::Prev];
        for &n in amounts {
            v.extend([Act::Adv(n), Act::Rev(n)]);
        }
        v.extend([Act::Set(Place::Start), Act::Set(Place::End)]);
        v.extend((0..len).map(|i| Act::Set(Place::At(i))));
        v
    }
    fn data(len: usize, kind: usize) -> Vec<u8> {
        (0..len).map(|i| if kind == 0 { i as u8 } else { (i % 2) as u8 }).collect()
    }

    pub fn c24(e: &Engine) {
        e.rule("the full state graph of the cursor: for every slice length up to a bound, from every place reached in every way (constructor, position change, steps), every action with every amount up to beyond the length and extreme amounts, all queries after each; and every action sequence up to a length on short slices");
        let max = e.pick(48, 200);
        e.par("state graph", max as u64 + 1, || (), |w, _, c| {
            let len = c as usize;
            let mut amounts: Vec<usize> = (0..=len + 3).collect();
            amounts.extend([255, 256, 257, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - len, usize::MAX - 2, usize::MAX - 1, usize::MAX]);
            for kind in 0..2 {
                let d = data(len, kind);
                for p0 in 0..=len + 1 {
                    for a in acts(len, &amounts) {
                        // Arrive at p0 in each of four ways.
                        for way in 0..4 {
                            let mut p = p0;
                            let r = guard(|| match way {
                                0 => {
                                    let mut c = SliceWalker::start(&d);
                                    c.set_pos(place(len, p0));
                                    c
                                }
                                1 => {
                                    let mut c = SliceWalker::start(&d);
                                    for _ in 0..p0 {
                                        let _ = c.next();
                                    }
                                    c
                                }
                                2 => {
                                    let mut c = SliceWalker::end(&d);
                                    for _ in 0..len + 1 - p0 {
                                        let _ = c.prev();
                                    }
                                    c
                                }
                                _ => {
                                    if p0 == 0 {
                                        SliceWalker::start(&d)
                                    } else if p0 == len + 1 {
                                        SliceWalker::end(&d)
                                    } else {
                                        SliceWalker::with_pos(&d, p0 - 1)
                                    }
                                }
                            });
                            w.states += 1;
                            w.transitions += 1;
                            let case = || format!("{} elements, cursor at {:?} (reached way {}), {:?}", len, place(len, p0), way, a);
                            let Ok(mut cur) = r else {
                                w.fail(case(), "cursor", last_panic());
                                continue;
                            };
                            if let Some(s) = look(&d, &cur, p0) {
                                w.fail(case(), "queries that agree before the action", s);
                                continue;
                            }
                            if let Err(s) = act(&d, &mut cur, &mut p, a) {
                                w.fail(case(), "as the model", s);
                            }
                            w.hit(match a {
                                Act::Adv(_) | Act::Rev(_) => "multi-step",
                                Act::Set(_) => "position set",
                                _ => "step",
                            });
                        }
                        if w.violated() {
                            return;
                        }
                    }
                }
                // Positions outside the slice are refused at construction.
                for bad in [len, len + 1, len + 2, usize::MAX - 1, usize::MAX] {
                    w.states += 1;
                    w.transitions += 1;
                    if let Ok(p) = guard(|| SliceWalker::with_pos(&d, bad).pos()) {
                        w.fail(format!("{} elements, with_pos({})", len, bad), "refused", format!("{:?}", p));
                    }
                    // Nor can a cursor be moved there; it stays where it is.
                    for p0 in 0..=len + 1 {
                        w.states += 1;
                        w.transitions += 1;
                        let mut c = SliceWalker::start(&d);
                        c.set_pos(place(len, p0));
                        let case = || format!("{} elements, cursor at {:?}, set_pos({:?})", len, place(len, p0), Place::At(bad));
                        if guard(|| c.set_pos(Place::At(bad))).is_ok() {
                            w.fail(case(), "refused", "accepted");
                        } else if let Some(s) = look(&d, &c, p0) {
                            w.fail(case(), "refused, and the cursor where it was", s);
                        } else {
                            w.hit("position outside refused");
                        }
                    }
                }
            }
            w.sample(|| format!("{} elements, {} places", len, len + 2));
        });
        let depth = e.pick(5u32, 6);
        for len in 0..=4usize {
            let amounts: Vec<usize> = if len < 3 { (0..=len + 2).chain([usize::MAX]).collect() } else { vec![1, 2, 3, len + 1, usize::MAX] };
            let av = acts(len, &amounts);
            let n = av.len() as u64;
            e.par(&format!("sequences of {} actions, {} elements", depth, len), n * n, || (), |w, _, c| {
                let d = data(len, 0);
                let rest = n.pow(depth - 2);
                for i in 0..rest {
                    let mut x = i * n * n + c;
                    let mut cur = if i % 2 == 0 { SliceWalker::start(&d) } else { SliceWalker::end(&d) };
                    let mut p = if i % 2 == 0 { 0 } else { len + 1 };
                    for k in 0..depth {
                        let a = av[(x % n) as usize];
                        x /= n;
                        w.transitions += 1;
                        w.states += 1;
                        if let Err(s) = act(&d, &mut cur, &mut p, a) {
                            let mut y = i * n * n + c;
                            let seq: Vec<Act> = (0..=k).map(|_| { let a = av[(y % n) as usize]; y /= n; a }).collect();
                            w.fail(format!("{} elements, from the {}, {:?}", len, if i % 2 == 0 { "start" } else { "end" }, seq), "as the model", s);
                            return;
                        }
                    }
                    w.traces += 1;
                }
            });
        }
    }

    // --- C25 -------------------------------------------------------------------------------------
    fn floor_div(a: i128, b: i128) -> i128 {
        let q = a / b;
        if a % b != 0 && (a < 0) != (b < 0) {
            q - 1
        } else {
            q
        }
    }
    fn ceil_div(a: i128, b: i128) -> i128 {
        let q = a / b;
        if a % b != 0 && (a < 0) == (b < 0) {
            q + 1
        } else {
            q
        }
    }

    /// Division of a by b in a type whose values fit i128. `lo..=hi` is the type's range.
    macro_rules! two {
        ($w:ident, $m:ident, $T:ty, $a:expr, $b:expr) => {{
            let (a, b): ($T, $T) = ($a, $b);
            $w.states += 1;
            $w.transitions += 2;
            let (x, y) = (a as i128, b as i128);
            let fits = |v: i128| <$T>::try_from(v).is_ok();
            let signed = <$T>::MIN != 0;
            // The quotient MIN / -1 does not exist.
            let edge = b == 0 || (signed && a == <$T>::MIN && y == -1);
            let r = guard(|| $m::rem_floor(a, b));
            match r {
                Ok(r) => {
                    if b == 0 || r as i128 != x - floor_div(x, y) * y {
                        $w.fail(format!("{}::rem_floor({}, {})", stringify!($m), a, b), if b == 0 { "refused".into() } else { (x - floor_div(x, y) * y).to_string() }, r.to_string());
                    }
                    $w.hit("remainder");
                }
                Err(()) => {
                    if !edge {
                        $w.fail(format!("{}::rem_floor({}, {})", stringify!($m), a, b), (x - floor_div(x, y) * y).to_string(), last_panic());
                    }
                    $w.hit("remainder refused");
                }
            }
            let r = guard(|| $m::div_rem_ceil(a, b));
            let exp = if b == 0 { None } else { let q = ceil_div(x, y); Some((q, x - q * y)) };
            match r {
                Ok((q, r)) => {
                    if Some((q as i128, r as i128)) != exp {
                        $w.fail(format!("{}::div_rem_ceil({}, {})", stringify!($m), a, b), format!("{:?}", exp), format!("{:?}", (q, r)));
                    }
                    $w.hit("ceiling");
                }
                Err(()) => {
                    let e = exp.unwrap_or((0, 0));
                    if !edge && fits(e.0) && fits(e.1) {
                        $w.fail(format!("{}::div_rem_ceil({}, {})", stringify!($m), a, b), format!("{:?}", exp), last_panic());
                    }
                    $w.hit("ceiling refused");
                }
            }
        }};
    }

    /// a * b / c; exact or refused, and not refused while all are within `lim`.
    macro_rules! three {
        ($w:ident, $m:ident, $T:ty, $lim:expr, $a:expr, $b:expr, $c:expr) => {{
            let (a, b, c): ($T, $T, $T) = ($a, $b, $c);
            let (x, y, z) = (a as i128, b as i128, c as i128);
            if let Some(prod) = x.checked_mul(y) {
                $w.states += 1;
                let small = [x, y, z].iter().all(|v| v.unsigned_abs() <= $lim) && z != 0;
                for ceil in [false, true] {
                    $w.transitions += 1;
                    let r = guard(|| if ceil { $m::mul_div_rem_ceil(a, b, c) } else { $m::mul_div_rem_floor(a, b, c) });
                    let exp = if z == 0 || (prod == i128::MIN && z == -1) { None } else {
                        let q = if ceil { ceil_div(prod, z) } else { floor_div(prod, z) };
                        let r = prod % z;
                        let off = r != 0 && ((r < 0) == (z < 0)) == ceil;
                        Some((q, if !off { r } else if ceil { r - z } else { r + z }))
                    };
                    let name = if ceil { "mul_div_rem_ceil" } else { "mul_div_rem_floor" };
                    match r {
                        Ok((q, r)) => {
                            if Some((q as i128, r as i128)) != exp {
                                $w.fail(format!("{}::{}({}, {}, {})", stringify!($m), name, a, b, c), format!("{:?}", exp), format!("{:?}", (q, r)));
                            }
                            $w.hit("product divided");
                        }
                        Err(()) => {
                            if small && (<$T>::MIN != 0 || !ceil) {
                                $w.fail(format!("{}::{}({}, {}, {})", stringify!($m), name, a, b, c), format!("{:?}", exp), last_panic());
                            }
                            $w.hit("product refused");
                        }
                    }
                }
            }
        }};
    }

    macro_rules! lattice {
        ($T:ty, $rich:expr) => {{
            let mut v: Vec<i128> = vec![];
            let (lo, hi) = (<$T>::MIN as i128, <$T>::MAX as i128);
            for k in 0..=3i128 {
                v.extend([lo + k, hi - k, lo / 2 + k, hi / 2 - k, lo / 3 + k, hi / 3 - k, lo / 10 + k, hi / 10 - k]);
            }
            v.extend(-20..=20);
            for k in 3..<$T>::BITS {
                if $rich || k % 7 == 0 {
                    for s in [-1i128, 1] {
                        for d in -1..=1 {
                            v.push(s.wrapping_mul(1i128.wrapping_shl(k)).wrapping_add(d));
                        }
                    }
                }
            }
            v.extend([60, 61, 86_400, 86_401, 146_097, 36_524, 1461, 365, 1000, 1_000_000, 1_000_000_000, -60, -86_400, -146_097, -365, -1000]);
            let mut v: Vec<$T> = v.into_iter().filter_map(|x| <$T>::try_from(x).ok()).collect();
            v.sort();
            v.dedup();
            v
        }};
    }

    pub fn c25(e: &Engine) {
        e.rule("every pair and triple of 8-bit integers, every clamped 8-bit division, 16-bit dividends by all boundary divisors (thorough: every pair of 16-bit integers), lattices of boundary values of the wider types, for each helper; exact results, and no refusal while every intermediate of a direct computation fits");
        e.assume("built with overflow checks, as in the project's test profile: there an intermediate that does not fit is refused by a panic");
        e.par("8-bit pairs", 256, || (), |w, _, c| {
            for b in 0..=255u8 {
                two!(w, i8s, i8, c as u8 as i8, b as i8);
                two!(w, u8s, u8, c as u8, b);
            }
        });
        e.par("8-bit triples", 65_536, || (), |w, _, c| {
            let (a, b) = ((c >> 8) as u8, c as u8);
            for d in 0..=255u8 {
                three!(w, i8s, i8, 11, a as i8, b as i8, d as i8);
                three!(w, u8s, u8, 15, a, b, d);
            }
        });
        e.par("clamped 8-bit divisions", 65_536, || (), |w, _, c| {
            let (a, b) = ((c >> 8) as u8, c as u8);
            for max in 0..=255u8 {
                w.states += 1;
                w.transitions += 1;
                let r = guard(|| clamped_u8(a, b, max));
                let exp = if b == 0 { Err(()) } else { let q = (a / b).min(max); Ok((q, a - q * b)) };
                if r != exp {
                    w.fail(format!("clamped_div_rem({}, {}, {})", a, b, max), format!("{:?}", exp), got(r));
                }
                w.hit(if b == 0 { "clamped refused" } else if a / b > max { "clamped" } else { "not clamped" });
            }
        });
        let l16 = lattice!(u16, true);
        e.par("clamped 16- and 32-bit divisions", 256, || (), |w, _, c| {
            for &b in &l16 {
                for max in [0u8, 1, 2, 3, 4, 23, 24, 25, 59, 99, 100, 127, 128, 254, 255] {
                    for a in (c as u16) * 256..=(c as u16) * 256 + 255 {
                        w.states += 1;
                        w.transitions += 1;
                        let r = guard(|| clamped_u16(a, b, max));
                        let exp = if b == 0 { Err(()) } else { let q = (a / b).min(max as u16); Ok((q as u8, a - q * b)) };
                        if r != exp {
                            w.fail(format!("clamped_div_rem({}, {}, {})", a, b, max), format!("{:?}", exp), got(r));
                        }
                    }
                }
            }
            let l32 = lattice!(u32, true);
            for (i, &a) in l32.iter().enumerate() {
                if i % 256 != c as usize {
                    continue;
                }
                for &b in &l32 {
                    for &max in &l16 {
                        w.states += 1;
                        w.transitions += 1;
                        let r = guard(|| clamped_u32(a, b, max));
                        let exp = if b == 0 { Err(()) } else { let q = (a / b).min(max as u32); Ok((q as u16, a - q * b)) };
                        if r != exp {
                            w.fail(format!("clamped_div_rem({}, {}, {})", a, b, max), format!("{:?}", exp), got(r));
                        }
                    }
                }
            }
        });
        let s16 = lattice!(i16, true);
        e.par("16-bit dividends", 256, || (), |w, _, c| {
            for a in (c as u16) * 256..=(c as u16) * 256 + 255 {
                if e.thorough() {
                    for b in i16::MIN..=i16::MAX {
                        two!(w, i16s, i16, a as i16, b);
                    }
                } else {
                    for &b in &s16 {
                        two!(w, i16s, i16, a as i16, b);
                        two!(w, i16s, i16, b, a as i16);
                    }
                }
            }
        });
        macro_rules! wide {
            ($name:literal, $m:ident, $T:ty, $lim:expr) => {{
                let v = lattice!($T, true);
                e.par(&format!("{} pairs", $name), v.len() as u64, || (), |w, _, c| {
                    for &b in &v {
                        two!(w, $m, $T, v[c as usize], b);
                    }
                });
                let v = lattice!($T, e.thorough());
                e.par(&format!("{} triples", $name), v.len() as u64, || (), |w, _, c| {
                    for &b in &v {
                        for &d in &v {
                            three!(w, $m, $T, $lim, v[c as usize], b, d);
                        }
                    }
                });
            }};
        }
        wide!("i16", i16s, i16, 150);
        wide!("i32", i32s, i32, 30_000);
        wide!("i64", i64s, i64, 2_000_000_000);
        // In i128 the oracle itself works in i128: values up to 2^126 for pairs, products that fit for triples.
        let v: Vec<i128> = lattice!(i128, true).into_iter().filter(|x| x.unsigned_abs() <= 1 << 126).collect();
        e.par("i128 pairs", v.len() as u64, || (), |w, _, c| {
            for &b in &v {
                two!(w, i128s, i128, v[c as usize], b);
            }
        });
        let v = lattice!(i128, e.thorough());
        let v: Vec<i128> = v.into_iter().filter(|x| x.unsigned_abs() <= 1 << 126).collect();
        e.par("i128 triples", v.len() as u64, || (), |w, _, c| {
            for &b in &v {
                for &d in &v {
                    three!(w, i128s, i128, 1 << 62, v[c as usize], b, d);
                }
            }
        });
    }
}
