//! C27: every way in which the zone data on disk can be missing, cut off or out of order.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::p_chron::last_minute;
use crate::p_tables::universe_days;
use crate::tz::{records, TzDir};
use momentous::iso8601::{load_chronology, Chronology, DateTime};

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C27" => c27(e),
        _ => return false,
    }
    true
}

/// A zone file in parts, so that it can be laid out in every way the format allows.
#[derive(Clone)]
pub struct ZoneFile {
    pub version: u8,
    pub transitions: Vec<(i32, u8)>,
    pub types: Vec<(i32, u8, u8)>,
    pub chars: Vec<u8>,
    pub flags: bool,
    pub leaps: Vec<(i32, i32)>,
    /// Second block with 64-bit time stamps and a footer (version 2 and later).
    pub second: bool,
    /// Leave the first block empty, as in "slim" files.
    pub slim: bool,
}

impl ZoneFile {
    pub fn plain(l: &Leaps) -> ZoneFile {
        ZoneFile { version: 0, transitions: vec![], types: vec![(0, 0, 0)], chars: b"UTC\0".to_vec(), flags: false, leaps: records(l), second: false, slim: false }
    }

    fn block(&self, wide: bool, slim: bool) -> Vec<u8> {
        let none = ZoneFile { version: self.version, transitions: vec![], types: vec![(0, 0, 0)], chars: vec![0], flags: false, leaps: vec![], second: false, slim: false };
        let z = if slim { &none } else { self };
        let t = |b: &mut Vec<u8>, x: i32| {
            if wide {
                b.extend_from_slice(&(x as i64).to_be_bytes());
            } else {
                b.extend_from_slice(&x.to_be_bytes());
            }
        };
        let mut b = b"TZif".to_vec();
        b.push(self.version);
        b.extend_from_slice(&[0; 15]);
        let nf = if z.flags { z.types.len() } else { 0 };
        for n in [nf, nf, z.leaps.len(), z.transitions.len(), z.types.len(), z.chars.len()] {
            b.extend_from_slice(&(n as u32).to_be_bytes());
        }
        for x in &z.transitions {
            t(&mut b, x.0);
        }
        for x in &z.transitions {
            b.push(x.1);
        }
        for x in &z.types {
            b.extend_from_slice(&x.0.to_be_bytes());
            b.push(x.1);
            b.push(x.2);
        }
        b.extend_from_slice(&z.chars);
        for x in &z.leaps {
            t(&mut b, x.0);
            b.extend_from_slice(&x.1.to_be_bytes());
        }
        for _ in 0..2 * nf {
            b.push(0);
        }
        b
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.block(false, self.slim);
        if self.second {
            b.extend(self.block(true, false));
            b.extend_from_slice(b"\nUTC0\n");
        }
        b
    }

    pub fn show(&self) -> String {
        format!(
            "version {} transitions {} types {} flags {} abbreviations {} leap records {}{}{}",
            if self.version == 0 { '1' } else { self.version as char },
            self.transitions.len(),
            self.types.len(),
            self.flags,
            self.chars.len(),
            self.leaps.len(),
            if self.second { " 64-bit block" } else { "" },
            if self.slim { " first block empty" } else { "" }
        )
    }
}

/// Every combination of the other sections' contents.
fn layouts(l: &Leaps) -> Vec<ZoneFile> {
    let mut v = vec![];
    for second in [false, true] {
        for version in if second { vec![b'2', b'3', b'4'] } else { vec![0] } {
            for flags in [false, true] {
                for types in 1..=3u8 {
                    for nt in 0..=3 {
                        let abbr: Vec<u8> = b"UTC\0AB\0-03\0".to_vec();
                        v.push(ZoneFile {
                            version,
                            transitions: (0..nt).map(|k| (-1_000_000 + k * 40_000_000, k as u8 % types)).collect(),
                            types: (0..types).map(|k| (k as i32 * 3600, k & 1, [0, 4, 7][k as usize])).collect(),
                            chars: abbr,
                            flags,
                            leaps: records(l),
                            second,
                            slim: false,
                        });
                    }
                }
            }
        }
    }
    v
}

fn put(d: &TzDir, name: &str, b: &[u8]) {
    let f = format!("{}/right/{}", d.path, name);
    let _ = std::fs::remove_dir_all(&f);
    let _ = std::fs::remove_file(&f);
    std::fs::create_dir_all(std::path::Path::new(&f).parent().unwrap()).unwrap();
    std::fs::write(&f, b).expect("write zone file");
}

fn remove(d: &TzDir, name: &str) {
    let f = format!("{}/right/{}", d.path, name);
    let _ = std::fs::remove_dir_all(&f);
    let _ = std::fs::remove_file(&f);
}

/// Is this exactly the table?
fn same_table(w: &mut W, l: &Leaps, chron: Chronology, what: &dyn Fn() -> String) {
    let env = Env { leaps: l.clone(), chron, shadow: None };
    let before = w.violated();
    for day in universe_days(l).into_iter().chain([-365, 30, 59, 776, 912, 11016, 24_000]) {
        last_minute(w, &env, day);
    }
    let m = M::new(-1, 0);
    if let Some(dt) = start(w, &env, &m) {
        for day in universe_days(l).into_iter().chain([24_800, 60_000]) {
            check_op(w, &env, &m, &dt, Op::Seconds(l.at(day, l.day_len(day) - 1) - l.at(-1, 0)));
        }
    }
    if w.violated() && !before {
        w.fail(what(), "the complete table or a refusal", "another table, as above");
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Want {
    Table,
    Refusal,
    Either,
}

/// Load under the present environment, through the function and through the builder's default.
fn attempt(w: &mut W, l: &Leaps, zone: &str, want: Want, what: &dyn Fn() -> String) {
    w.states += 1;
    w.transitions += 1;
    w.traces += 1;
    match guard(|| load_chronology(zone)) {
        Ok(c) => {
            if want == Want::Refusal {
                w.fail(what(), format!("load_chronology({:?}) refused", zone), "a chronology");
            } else {
                w.hit("accepted");
                same_table(w, l, c, what);
            }
        }
        Err(()) => {
            if want == Want::Table {
                w.fail(what(), format!("load_chronology({:?}) gives the table", zone), last_panic());
            } else {
                w.hit("refused");
            }
        }
    }
    // The builder's default chronology: a time that exists in the table is built or refused, one that does not is never built.
    for day in l.ends.iter().map(|x| x.0 - 1).chain([700]).take(3) {
        let (y, mo, d) = cal().date(day);
        for s in [58u8, 59, 60] {
            w.transitions += 1;
            let ok = 86_340 + (s as u32) < l.day_len(day);
            let r = guard(|| DateTime::builder().year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s).checked_build().is_ok());
            let good = match (want, r) {
                (_, Ok(x)) => (x == ok) && (want != Want::Refusal || !x),
                (w, Err(())) => w != Want::Table,
            };
            // A refusal may also be an error instead of a panic.
            let good = good || (want != Want::Table && r == Ok(false));
            if !good {
                w.fail(format!("{}; default chronology, {:04}-{:02}-{:02}T23:59:{}", what(), y, mo, d, s), format!("{} {}", if want == Want::Refusal { "refused" } else { "built only if it exists:" }, ok), format!("{:?}", r));
            }
        }
    }
}

fn c27(e: &Engine) {
    e.rule("every truncation point of zone files of every layout, of the named zone and of the leap-second table it needs; every one-byte change of the magic number; every missing/directory/empty combination; every permutation, repetition, omission-by-zeroes of the leap records; then good data again: each load is refused or gives exactly the complete table");
    e.assume("a change of bytes that leaves a well-formed file with another table cannot be told from that table: corruption inside records is explored only where the format forbids the result");
    let tabs = [iers(), odd_table(), Leaps::new("[+1]", vec![(1, 1)]), Leaps::new("[-400]", vec![(400, -1)]), Leaps::new("[]", vec![])];
    let mut full50 = vec![];
    for k in 0..50 {
        full50.push((100 + 40 * k, if k % 7 == 3 { -1 } else { 1 }));
    }
    let full50 = Leaps::new("50 records", full50);

    // Layouts: everything else in the file is irrelevant to the leap seconds.
    let lays: Vec<(usize, ZoneFile)> = (0..tabs.len()).flat_map(|t| layouts(&tabs[t]).into_iter().map(move |z| (t, z))).collect();
    e.seq("layouts", lays.len() as u64, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let (t, z) = &lays[c as usize];
        let l = &tabs[*t];
        put(d, "UTC", &z.bytes());
        attempt(w, l, "UTC", Want::Table, &|| format!("table {} {}", l.name, z.show()));
        // The named zone has another layout.
        let other = &lays[(c as usize * 7 + 3) % lays.len()].1;
        put(d, "A/B", &other.bytes());
        attempt(w, l, "A/B", Want::Table, &|| format!("table {}: UTC {}; A/B {}", l.name, z.show(), other.show()));
        w.sample(|| format!("table {} {}", l.name, z.show()));
    });
    // An expiry record (version 4): the last record repeats the total.
    e.seq("expiry record", tabs.len() as u64, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let l = &tabs[c as usize];
        let Some((end, _)) = l.ends.last() else { return };
        for k in [1, 2, 180, 400] {
            let mut z = ZoneFile::plain(l);
            z.version = b'4';
            let total = z.leaps.last().unwrap().1;
            let Ok(at) = i32::try_from((*end as i64 + k) * 86_400 + total as i64) else { continue };
            z.leaps.push((at, total));
            put(d, "UTC", &z.bytes());
            attempt(w, l, "UTC", Want::Table, &|| format!("table {} with an expiry record {} days later", l.name, k));
        }
    });

    // "Slim" files of version 2 and later leave the 32-bit block empty; the data is in the 64-bit block.
    e.seq("empty 32-bit block", tabs.len() as u64, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let l = &tabs[c as usize];
        let none = Leaps::new("[]", vec![]);
        for version in [b'2', b'3', b'4'] {
            let z = ZoneFile { version, second: true, slim: true, ..ZoneFile::plain(l) };
            put(d, "UTC", &z.bytes());
            w.states += 1;
            w.transitions += 1;
            w.traces += 1;
            let Ok(chron) = guard(|| load_chronology("UTC")) else { continue };
            // Which table is it: the right one, none, or something else?
            let mut probe = W::scratch();
            same_table(&mut probe, &none, chron.clone(), &|| String::new());
            if !l.ends.is_empty() && !probe.violated() {
                w.fail_unless_known("C27", &format!("version {} file with an empty 32-bit block, table {}: read as a table without leap seconds", version as char, l.name), "the table or a refusal", "no leap seconds");
            } else {
                same_table(w, l, chron, &|| format!("version {} file with an empty 32-bit block, table {}", version as char, l.name));
            }
        }
    });

    // Truncation at every byte.
    let mut cuts: Vec<(Leaps, ZoneFile)> = vec![];
    for l in tabs.iter().chain([&full50]) {
        cuts.push((l.clone(), ZoneFile::plain(l)));
        let ls = layouts(l);
        for k in [23, 47, ls.len() - 1] {
            cuts.push((l.clone(), ls[k].clone()));
        }
    }
    e.seq("cut off at every byte", cuts.len() as u64, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let (l, z) = &cuts[c as usize];
        let whole = z.bytes();
        let mut first = z.clone();
        first.second = false;
        let need = first.bytes().len();
        for cut in 0..whole.len() {
            // Without its first block the file is of no use; the second only repeats it.
            let want = if cut < need { Want::Either } else { Want::Table };
            let want = if cut < 44 { Want::Refusal } else { want };
            put(d, "UTC", &whole[..cut]);
            attempt(w, l, "UTC", want, &|| format!("table {} {} cut off after {} of {} bytes", l.name, z.show(), cut, whole.len()));
            // The named zone whole, its leap seconds cut off, and the other way around.
            put(d, "A/B", &whole);
            attempt(w, l, "A/B", want, &|| format!("table {} {}: UTC cut off after {} of {} bytes, A/B whole", l.name, z.show(), cut, whole.len()));
            put(d, "UTC", &whole);
            put(d, "A/B", &whole[..cut]);
            attempt(w, l, "A/B", Want::Either, &|| format!("table {} {}: A/B cut off after {} of {} bytes, UTC whole", l.name, z.show(), cut, whole.len()));
            // Filled with zeroes instead.
            let mut zeroed = whole.clone();
            zeroed[cut..].fill(0);
            if cut < 4 {
                put(d, "UTC", &zeroed);
                attempt(w, l, "UTC", Want::Refusal, &|| format!("table {} {} zeroes from byte {}", l.name, z.show(), cut));
            }
            put(d, "UTC", &whole);
            attempt(w, l, "UTC", Want::Table, &|| format!("table {} {} whole again after a cut at {}", l.name, z.show(), cut));
            if w.violated() {
                return;
            }
        }
        w.sample(|| format!("table {} {} cut at each of {} bytes", l.name, z.show(), whole.len()));
    });
    e.seq("magic number", 4, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let l = &tabs[2];
        for x in 1..=255u8 {
            let mut b = ZoneFile::plain(l).bytes();
            b[c as usize] ^= x;
            put(d, "UTC", &b);
            attempt(w, l, "UTC", Want::Refusal, &|| format!("byte {} of the magic number is {}", c, b[c as usize]));
        }
    });

    // Missing pieces: 0 good, 1 missing, 2 a directory, 3 empty, 4 of an unrelated format.
    e.seq("missing pieces", 25 * 2 * 2, || TzDir::new("d"), |w, d, c| {
        let (decoys, c) = (c / 50 == 1, c % 50);
        d.activate();
        // Files that a search for a replacement could find, with other leap seconds.
        for n in [
            "right/Etc/UTC", "right/UCT", "right/Etc/UCT", "right/Zulu", "right/GMT", "right/Etc/GMT", "right/Universal", "right/utc", "right/Utc", "right/posixrules", "right/localtime",
            "right/UTC.bak", "right/UTC~", "right/UTC.tmp", "right/Factory", "right/Europe/London", "UTC", "Etc/UTC", "posix/UTC", "posix/Etc/UTC", "localtime", "A/B", "posix/A/B", "right/A/b",
            "right/B.bak", "UTC/UTC", "Right/UTC", "zoneinfo/right/UTC", "right/right/UTC", "leapseconds", "leap-seconds.list",
        ] {
            let path = format!("{}/{}", d.path, n);
            let _ = std::fs::remove_file(&path);
            if decoys && std::fs::metadata(std::path::Path::new(&path).parent().unwrap()).map_or(true, |m| m.is_dir()) {
                std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).unwrap();
                std::fs::write(&path, ZoneFile::plain(&tabs[1]).bytes()).unwrap();
            }
        }
        let l = &tabs[0];
        let (u, a) = ((c / 2 % 5) as usize, (c / 10) as usize);
        let fill = |d: &TzDir, n: &str, k: usize| match k {
            0 => put(d, n, &ZoneFile::plain(l).bytes()),
            1 => remove(d, n),
            2 => {
                remove(d, n);
                std::fs::create_dir_all(format!("{}/right/{}", d.path, n)).unwrap();
            }
            3 => put(d, n, b""),
            _ => put(d, n, b"# comment\nLeap 1972 Jun 30 23:59:60 + S\n# and some more text after it\n"),
        };
        let show = |k: usize| ["good", "missing", "a directory", "empty", "text"][k];
        fill(d, "UTC", u);
        fill(d, "A/B", a);
        let want = |bad: bool| if bad { Want::Refusal } else { Want::Table };
        if c % 2 == 1 {
            // After something good has been loaded.
            let good = TzDir::new("g");
            put(&good, "UTC", &ZoneFile::plain(l).bytes());
            good.activate();
            attempt(w, l, "UTC", Want::Table, &|| "good data elsewhere".to_string());
            d.activate();
        }
        let what = || format!("UTC {}, A/B {}{}", show(u), show(a), if c % 2 == 1 { ", after loading good data elsewhere" } else { "" }) + if decoys { ", other data under similar names" } else { "" };
        attempt(w, l, "UTC", want(u != 0), &what);
        // (The default chronology of the builder is UTC, so only the zone itself is asked for here.)
        w.transitions += 1;
        let r = guard(|| load_chronology("A/B"));
        if r.is_ok() != (u == 0 && a == 0) {
            w.fail(format!("load_chronology(\"A/B\"); {}", what()), if u == 0 && a == 0 { "the table" } else { "refused" }, "the opposite");
        }
        for n in ["A", "A/B/C", "B", "../UTC2", " UTC", "UTC ", "UTC\n", "UTC/", "uTC", "UTC.", "A/B ", "A B", "A_B", "a/b", ""] {
            w.transitions += 1;
            if guard(|| load_chronology(n)).is_ok() {
                w.fail(format!("load_chronology({:?}); {}", n, what()), "refused", "a chronology");
            }
        }
        w.sample(|| what());
    });
    e.seq("TZDIR", 4, || TzDir::new("d"), |w, d, c| {
        let l = &tabs[2];
        put(d, "UTC", &ZoneFile::plain(l).bytes());
        use std::os::unix::ffi::OsStrExt;
        let (name, want): (Vec<u8>, Want) = match c {
            0 => (format!("{}/none", d.path).into_bytes(), Want::Refusal),
            1 => (format!("{}/right", d.path).into_bytes(), Want::Refusal),
            // A path is bytes.
            2 => {
                let p = [d.path.as_bytes(), b"/\xff\xfe"].concat();
                let os = std::ffi::OsStr::from_bytes(&p);
                std::fs::create_dir_all(std::path::Path::new(os).join("right")).unwrap();
                std::fs::write(std::path::Path::new(os).join("right/UTC"), ZoneFile::plain(l).bytes()).unwrap();
                (p, Want::Table)
            }
            _ => ([d.path.as_bytes(), b"/\xff\xfd"].concat(), Want::Refusal),
        };
        // SAFETY: nothing else runs.
        #[allow(unused_unsafe)]
        unsafe {
            std::env::set_var("TZDIR", std::ffi::OsStr::from_bytes(&name))
        };
        attempt(w, l, "UTC", want, &|| format!("TZDIR={}", String::from_utf8_lossy(&name)));
    });

    failing_calls(e, &tabs);

    // Records in every order, repeated, blanked.
    let small: Vec<Leaps> = crate::dt::tables(4, &[1, 2, 400]).into_iter().filter(|l| !l.ends.is_empty()).chain([iers(), odd_table()]).collect();
    e.seq("records out of order", small.len() as u64, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let l = &small[c as usize];
        let recs = records(l);
        let n = recs.len();
        let mut try_it = |w: &mut W, leaps: Vec<(i32, i32)>, want: Want, how: String| {
            let mut z = ZoneFile::plain(l);
            z.leaps = leaps;
            put(d, "UTC", &z.bytes());
            attempt(w, l, "UTC", want, &|| format!("table {} {}", l.name, how));
        };
        // All orders (of the long tables: all exchanges of two).
        let mut orders: Vec<Vec<usize>> = vec![];
        if n <= 4 {
            let mut idx: Vec<usize> = (0..n).collect();
            permutations(&mut idx, 0, &mut orders);
        } else {
            for i in 0..n {
                for j in i + 1..n {
                    let mut idx: Vec<usize> = (0..n).collect();
                    idx.swap(i, j);
                    orders.push(idx);
                }
            }
        }
        for o in &orders {
            let sorted = o.windows(2).all(|x| x[0] < x[1]);
            try_it(w, o.iter().map(|i| recs[*i]).collect(), if sorted { Want::Table } else { Want::Either }, format!("records in the order {:?}", o));
            if w.violated() {
                return;
            }
        }
        for k in 0..n {
            let mut r = recs.clone();
            r.insert(k, recs[k]);
            try_it(w, r, Want::Either, format!("record {} twice", k));
            // Zeroes from here on, and only here.
            let mut r = recs.clone();
            r[k..].fill((0, 0));
            try_it(w, r, Want::Refusal, format!("records from {} on are zeroes", k));
            let mut r = recs.clone();
            r[k] = (0, 0);
            try_it(w, r, Want::Refusal, format!("record {} is zeroes", k));
            if w.violated() {
                return;
            }
        }
        w.sample(|| format!("table {} in {} orders, {} records repeated and blanked", l.name, orders.len(), n));
    });
}

// ---------------------------------------------------------------------------------------------
// Calls into the system that fail.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    Open,
    Read,
    Seek,
    Stat,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    Errno(i32),
    /// A read that delivers at most this much (0: the end of the file).
    Short(usize),
    /// The file seems to have this size.
    Size(u64),
}

struct Plan {
    /// The calls made so far.
    calls: Vec<Call>,
    /// What happens to the n-th.
    at: Vec<(usize, Fault)>,
    /// What happens to all reads.
    all: Option<usize>,
}

thread_local! {
    static PLAN: std::cell::RefCell<Option<Plan>> = const { std::cell::RefCell::new(None) };
}

/// What the interposed functions ask: None: as usual. Negative: failed.
pub fn fault(c: Call, len: usize) -> Option<i64> {
    PLAN.try_with(|p| {
        let mut p = p.try_borrow_mut().ok()?;
        let p = p.as_mut()?;
        p.calls.push(c);
        let n = p.calls.len() - 1;
        match p.at.iter().find(|x| x.0 == n).map(|x| x.1).or(p.all.map(Fault::Short)) {
            Some(Fault::Errno(e)) => {
                unsafe { *libc::__errno_location() = e };
                Some(-1)
            }
            Some(Fault::Short(k)) if c == Call::Read => Some(k.min(len) as i64),
            Some(Fault::Size(s)) if c == Call::Stat => Some(s as i64),
            _ => None,
        }
    })
    .ok()
    .flatten()
}

/// Runs f with these faults. The calls it made.
pub fn faulty<R>(at: Vec<(usize, Fault)>, all: Option<usize>, f: impl FnOnce() -> R) -> (R, Vec<Call>) {
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { calls: vec![], at, all }));
    let r = f();
    let plan = PLAN.with(|p| p.borrow_mut().take()).unwrap();
    (r, plan.calls)
}

pub fn calls_of(v: &[Call]) -> String {
    v.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>().join(" ")
}

pub fn faults_of(c: Call) -> Vec<Fault> {
    let errno = |v: &[i32]| v.iter().map(|e| Fault::Errno(*e)).collect::<Vec<_>>();
    match c {
        Call::Open => errno(&[libc::EINTR, libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EIO, libc::ELOOP]),
        Call::Read => [errno(&[libc::EINTR, libc::EIO, libc::EAGAIN, libc::EISDIR, libc::ENOMEM]), [0, 1, 2, 43, 44, 45, 60].map(Fault::Short).to_vec()].concat(),
        Call::Seek => errno(&[libc::ESPIPE, libc::EINVAL]),
        Call::Stat => [errno(&[libc::EACCES, libc::EIO, libc::ENOMEM]), [0, 1, 44, 1 << 20].map(Fault::Size).to_vec()].concat(),
    }
}

/// May the load be refused because of it? Interrupted calls are repeated, and a read need
/// not deliver everything at once.
fn excuses(f: Fault) -> bool {
    !matches!(f, Fault::Errno(libc::EINTR) | Fault::Short(1..))
}

fn failing_calls(e: &Engine, tabs: &[Leaps]) {
    use crate::p_sys::{sys, P1e9};
    use momentous::Instant;
    use std::time::SystemTime;
    // 0: the zone that has the leap seconds; 1: another zone; 2: a conversion of a system time; 3: the
    // default chronology.
    let name = |k: u64| ["load_chronology(\"UTC\")", "load_chronology(\"A/B\")", "conversion of a system time", "the builder's default chronology"][k as usize];
    let run = move |k: u64, l: &Leaps, at: Vec<(usize, Fault)>, all: Option<usize>| -> (Result<Option<Chronology>, ()>, bool, Vec<Call>) {
        match k {
            0 | 1 => {
                let (r, calls) = faulty(at, all, || guard(|| load_chronology(if k == 0 { "UTC" } else { "A/B" })));
                (r.map(Some), true, calls)
            }
            2 => {
                let sec = 24_850i64 * 86_400;
                let total: i64 = l.ends.iter().map(|x| x.1 as i64).sum();
                let (r, calls) = faulty(at, all, || guard(|| <Instant<i128, P1e9> as TryFrom<SystemTime>>::try_from(sys(sec, 3)).ok().map(|i| i.ticks_since_epoch())));
                let right = r != Ok(None) && !matches!(r, Ok(Some(t)) if t != (sec + total) as i128 * 1_000_000_000 + 3);
                (r.and_then(|x| x.map(|_| None).ok_or(())), right, calls)
            }
            _ => {
                let day = l.ends.first().map_or(700, |x| x.0 - 1);
                let (y, mo, d) = cal().date(day);
                let sec = l.day_len(day) - 1 - 86_340;
                let build = |s: u32| DateTime::builder().year(y as u16).month(mo as u8).day(d as u8).hour(23).minute(59).second(s as u8).checked_build().is_ok();
                let (r, calls) = faulty(at, all, || guard(|| (build(sec), build(sec + 1))));
                // Refused by an error or by a panic; a time that does not exist is never built.
                let right = !matches!(r, Ok((_, true)));
                (if r == Ok((true, false)) { Ok(None) } else { Err(()) }, right, calls)
            }
        }
    };
    // Other data, which is loaded before each of them.
    let other = TzDir::new("g");
    put(&other, "UTC", &ZoneFile::plain(&Leaps::new("other", vec![(900, 1), (901, 1), (902, 1)])).bytes());
    let other = &other;
    let check = move |w: &mut W, d: &TzDir, k: u64, l: &Leaps, at: Vec<(usize, Fault)>, all: Option<usize>| -> Vec<Call> {
        other.activate();
        let _ = guard(|| load_chronology("UTC"));
        d.activate();
        w.states += 1;
        w.traces += 1;
        w.transitions += 1;
        let what = || format!("{}, table {}, with {:?}{}", name(k), l.name, at, all.map_or(String::new(), |n| format!(", all reads of at most {} bytes", n)));
        let excused = at.iter().any(|x| excuses(x.1));
        let (r, right, calls) = run(k, l, at.clone(), all);
        // Only those that happened count.
        let met = at.iter().any(|x| x.0 < calls.len() && excuses(x.1));
        match r {
            Ok(c) => {
                if let Some(c) = c {
                    let mut probe = W::scratch();
                    same_table(&mut probe, l, c, &|| String::new());
                    if probe.violated() {
                        w.fail(what(), "the complete table or a refusal", "another table");
                    }
                }
                if !right {
                    w.fail(what(), "the right result or a refusal", "another result");
                }
                w.hit(if met { "right in spite of a failed call" } else { "right" });
            }
            Err(()) => {
                if !(excused && met) {
                    w.fail(what(), "the right result: nothing failed for good", "refused");
                } else if !right {
                    w.fail(what(), "the right result or a refusal", "another result");
                }
                w.hit("refused because of a failed call");
            }
        }
        calls
    };
    let v: Vec<usize> = (0..tabs.len()).collect();
    e.seq("failing calls", 4 * v.len() as u64, || TzDir::new("d"), |w, d, c| {
        d.activate();
        let (k, l) = (c % 4, &tabs[v[(c / 4) as usize]]);
        put(d, "UTC", &ZoneFile::plain(l).bytes());
        put(d, "A/B", &ZoneFile::plain(&Leaps::new("[]", vec![])).bytes());
        let calls = check(w, d, k, l, vec![], None);
        if w.violated() {
            return;
        }
        for n in 1..=64 {
            check(w, d, k, l, vec![], Some(n));
        }
        for (i, ci) in calls.iter().enumerate() {
            for f in faults_of(*ci) {
                // What it does then.
                let calls = check(w, d, k, l, vec![(i, f)], None);
                check(w, d, k, l, vec![], None);
                if w.violated() {
                    return;
                }
                for (j, cj) in calls.iter().enumerate().skip(i + 1) {
                    for g in faults_of(*cj) {
                        check(w, d, k, l, vec![(i, f), (j, g)], None);
                        if w.violated() {
                            return;
                        }
                    }
                }
                check(w, d, k, l, vec![], None);
            }
        }
        w.sample(|| format!("{}, table {}: calls {:?}, each with every fault, and every two", name(k), l.name, calls));
    });
}

pub fn permutations(a: &mut Vec<usize>, i: usize, out: &mut Vec<Vec<usize>>) {
    if i == a.len() {
        out.push(a.clone());
        return;
    }
    for j in i..a.len() {
        a.swap(i, j);
        permutations(a, i + 1, out);
        a.swap(i, j);
    }
}
