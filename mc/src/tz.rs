//! Time-zone data owned by the harness: writes TZif files with a given leap-second table into a
//! scratch directory.
use crate::model::Leaps;

/// Records (leap-second-counting time stamp, running total), as the TZif format defines them: an
/// inserted second is listed at its own moment (23:59:60), a removed one at the moment it would have
/// started (23:59:59).
pub fn records(l: &Leaps) -> Vec<(i32, i32)> {
    let mut v = vec![];
    let mut total = 0i64;
    for (end, d) in &l.ends {
        let t = *end as i64 * 86400 + total - if *d < 0 { 1 } else { 0 };
        total += *d as i64;
        v.push((i32::try_from(t).expect("leap second before 2038"), total as i32));
    }
    v
}

pub fn tzif(l: &Leaps) -> Vec<u8> {
    let recs = records(l);
    let mut b = vec![];
    b.extend_from_slice(b"TZif");
    b.extend_from_slice(&[0u8; 16]);
    for n in [0u32, 0, recs.len() as u32, 0, 1, 4] {
        b.extend_from_slice(&n.to_be_bytes());
    }
    b.extend_from_slice(&0i32.to_be_bytes());
    b.extend_from_slice(&[0, 0]);
    b.extend_from_slice(b"UTC\0");
    for (t, c) in recs {
        b.extend_from_slice(&t.to_be_bytes());
        b.extend_from_slice(&c.to_be_bytes());
    }
    b
}

pub struct TzDir {
    pub path: String,
}

impl TzDir {
    pub fn new(tag: &str) -> TzDir {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = std::env::temp_dir();
        let path = format!("{}/mc-tz-{}-{}-{}", base.display(), std::process::id(), tag, n);
        std::fs::create_dir_all(format!("{}/right", path)).expect("scratch tz dir");
        TzDir { path }
    }
    pub fn put(&self, name: &str, l: &Leaps) {
        let b = tzif(l);
        let f = format!("{}/right/{}", self.path, name);
        if let Some(d) = std::path::Path::new(&f).parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&f, &b).expect("write tz file");
    }
    /// Make the library (and libc) read its zone data from here.
    pub fn activate(&self) {
        // SAFETY: called only while no other thread runs code that reads the environment.
        #[allow(unused_unsafe)]
        unsafe {
            std::env::set_var("TZDIR", &self.path)
        };
    }
}

impl Drop for TzDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}
