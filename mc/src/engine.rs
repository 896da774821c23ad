//! Exploration engine: parallel exhaustive loops over numbered chunks, counters, violation
//! recording, replay of one chunk, evidence output.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A chunk (normally well below a second) that makes no progress for this long is reported as
/// a non-terminating operation.
const HANG: Duration = Duration::from_secs(240);

/// Prefix of the phases explored in the build without overflow checks and debug assertions.
pub const UNCHECKED: &str = "[unchecked build] ";
pub const fn unchecked_build() -> bool {
    !cfg!(debug_assertions)
}
/// A phase's name in reports.
fn label(phase: &str) -> String {
    format!("{}{}", if unchecked_build() { UNCHECKED } else { "" }, phase)
}

thread_local! {
    static LAST_PANIC: RefCell<(String, u32, String)> = const { RefCell::new((String::new(), 0, String::new())) };
}

pub fn install_panic_hook() {
    // Refusals by panic are explored by the million: no allocation, no formatting here.
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| {
            let (file, line, msg) = &mut *p.borrow_mut();
            file.clear();
            *line = 0;
            if let Some(l) = info.location() {
                file.push_str(l.file());
                *line = l.line();
            }
            msg.clear();
            if let Some(s) = info.payload().downcast_ref::<&str>() {
                msg.push_str(s);
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                msg.push_str(s);
            } else {
                msg.push_str("panic");
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| {
        let p = p.borrow();
        format!("panicked at {}:{}: {}", p.0, p.1, p.2)
    })
}

/// Run a call into the code under test; a panic becomes Err.
#[inline(always)]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub phase: String,
    pub chunk: u64,
    pub case: String,
    pub expected: String,
    pub actual: String,
    pub snippet: String,
}

struct Shared {
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    outcomes: Mutex<BTreeMap<&'static str, u64>>,
    samples: Mutex<Vec<String>>,
    viol: Mutex<Vec<Violation>>,
    nviol: AtomicU64,
    stop: AtomicBool,
}

pub struct Engine {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: String,
    pub only: Option<(String, u64)>,
    threads: usize,
    t0: Instant,
    sh: Arc<Shared>,
    phases: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub rule: Mutex<String>,
}

/// Open findings met in this run.
static KNOWN: Mutex<std::collections::BTreeSet<String>> = Mutex::new(std::collections::BTreeSet::new());

/// Worker-local counters.
pub struct W {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    phase: String,
    chunk: u64,
    outcomes: Vec<(&'static str, u64)>,
    samples: Vec<String>,
    viol: Vec<Violation>,
}

impl W {
    /// One whose counters and violations nobody sees.
    pub fn scratch() -> Self {
        W::new("")
    }
    fn new(phase: &str) -> Self {
        W { states: 0, transitions: 0, traces: 0, phase: label(phase), chunk: 0, outcomes: vec![], samples: vec![], viol: vec![] }
    }
    #[inline]
    pub fn hit(&mut self, name: &'static str) {
        for o in self.outcomes.iter_mut() {
            if std::ptr::eq(o.0.as_ptr(), name.as_ptr()) && o.0.len() == name.len() {
                o.1 += 1;
                return;
            }
        }
        self.outcomes.push((name, 1));
    }
    /// Record an actual case; keeps only the first few per worker.
    #[inline]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// A violation, unless known_findings.txt lists exactly this one as open.
    pub fn fail_unless_known(&mut self, property: &str, what: &str, expected: &str, actual: &str) {
        let line = format!("open: property={} {}", property, what);
        let listed = {
            let root = std::env::var("MC_ROOT").unwrap_or_else(|_| ".".into());
            std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default().lines().any(|l| l == line)
        };
        if listed {
            KNOWN.lock().unwrap().insert(format!("property={} {}", property, what));
        } else {
            self.fail(what, expected, actual);
        }
    }
    /// An empty one for the same chunk, and its content as text for another process.
    pub fn same(&self) -> W {
        let mut w = W::new("");
        w.phase = self.phase.clone();
        w.chunk = self.chunk;
        w
    }
    pub fn to_text(&self) -> String {
        let c = |s: &str| s.replace(['\n', '\u{1f}'], " ");
        let mut s = format!("n\u{1f}{}\u{1f}{}\u{1f}{}\n", self.states, self.transitions, self.traces);
        for (k, n) in &self.outcomes {
            s += &format!("o\u{1f}{}\u{1f}{}\n", k, n);
        }
        for x in &self.samples {
            s += &format!("s\u{1f}{}\n", c(x));
        }
        for v in &self.viol {
            s += &format!("v\u{1f}{}\u{1f}{}\u{1f}{}\n", c(&v.case), c(&v.expected), c(&v.actual));
        }
        s
    }
    pub fn add_text(&mut self, s: &str) {
        for line in s.lines() {
            let f: Vec<&str> = line.split('\u{1f}').collect();
            match f[0] {
                "n" => {
                    self.states += f[1].parse::<u64>().unwrap();
                    self.transitions += f[2].parse::<u64>().unwrap();
                    self.traces += f[3].parse::<u64>().unwrap();
                }
                "o" => {
                    let n = f[2].parse::<u64>().unwrap();
                    match self.outcomes.iter_mut().find(|o| o.0 == f[1]) {
                        Some(o) => o.1 += n,
                        None => self.outcomes.push((Box::leak(f[1].to_string().into_boxed_str()), n)),
                    }
                }
                "s" => self.samples.push(f[1].into()),
                "v" => self.fail(f[1], f[2], f[3]),
                _ => {}
            }
        }
    }
    pub fn violated(&self) -> bool {
        !self.viol.is_empty()
    }
    #[cold]
    #[inline(never)]
    pub fn fail(&mut self, case: impl Into<String>, expected: impl Into<String>, actual: impl Into<String>) {
        self.fail_snip(case, expected, actual, String::new())
    }
    #[cold]
    #[inline(never)]
    pub fn fail_snip(&mut self, case: impl Into<String>, expected: impl Into<String>, actual: impl Into<String>, snippet: String) {
        if self.viol.len() < 16 {
            self.viol.push(Violation {
                phase: self.phase.clone(),
                chunk: self.chunk,
                case: case.into(),
                expected: expected.into(),
                actual: actual.into(),
                snippet,
            });
        }
    }
}

impl Engine {
    pub fn from_args() -> Engine {
        install_panic_hook();
        let args: Vec<String> = std::env::args().collect();
        let id = args.get(1).cloned().unwrap_or_default();
        let mut only = None;
        let mut i = 2;
        while i < args.len() {
            if args[i] == "--only" && i + 2 < args.len() {
                only = Some((args[i + 1].trim_start_matches(UNCHECKED).to_string(), args[i + 2].parse().expect("chunk number")));
                i += 3;
            } else {
                panic!("unknown argument {}", args[i]);
            }
        }
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        let e = Engine {
            id,
            tier,
            seed,
            root,
            only,
            threads,
            t0: Instant::now(),
            sh: Arc::new(Shared {
                states: AtomicU64::new(0),
                transitions: AtomicU64::new(0),
                traces: AtomicU64::new(0),
                outcomes: Mutex::new(BTreeMap::new()),
                samples: Mutex::new(vec![]),
                viol: Mutex::new(vec![]),
                nviol: AtomicU64::new(0),
                stop: AtomicBool::new(false),
            }),
            phases: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            rule: Mutex::new(String::new()),
        };
        // What the same exploration of the unchecked build has found.
        if let Ok(prior) = std::env::var("MC_PRIOR") {
            e.absorb(&std::fs::read_to_string(prior).expect("result of the unchecked build"));
        }
        e
    }

    pub fn threads(&self) -> usize {
        self.threads
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// q in the quick tier, t in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
    /// False when only another phase is to be rerun.
    pub fn wants(&self, phase: &str) -> bool {
        match &self.only {
            Some((p, _)) => p == phase,
            None => !self.stopped(),
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    /// Explore chunks 0..n of a phase completely, in parallel. `init` makes per-worker state.
    pub fn par<S>(&self, phase: &str, n: u64, init: impl Fn() -> S + Sync, f: impl Fn(&mut W, &mut S, u64) + Sync) {
        self.par_n(phase, n, self.threads, init, f)
    }

    /// As `par`, with one worker (for phases that change process-wide settings).
    pub fn seq<S>(&self, phase: &str, n: u64, init: impl Fn() -> S + Sync, f: impl Fn(&mut W, &mut S, u64) + Sync) {
        self.par_n(phase, n, 1, init, f)
    }

    fn par_n<S>(&self, phase: &str, n: u64, threads: usize, init: impl Fn() -> S + Sync, f: impl Fn(&mut W, &mut S, u64) + Sync) {
        let (lo, hi) = match &self.only {
            Some((p, c)) if p == phase => (*c, (*c + 1).min(n)),
            Some(_) => return,
            None => (0, n),
        };
        if self.sh.stop.load(Relaxed) {
            return;
        }
        let t = Instant::now();
        let (s0, tr0) = (self.sh.states.load(Relaxed), self.sh.transitions.load(Relaxed));
        let next = AtomicU64::new(lo);
        let live = AtomicUsize::new(threads);
        let epoch = Instant::now();
        let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
        let at: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let harness_error: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for k in 0..threads {
                let (next, live, beat, at, init, f, sh, herr) = (&next, &live, &beat, &at, &init, &f, &self.sh, &harness_error);
                let phase = phase.to_string();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut w = W::new(&phase);
                        let body = catch_unwind(AssertUnwindSafe(|| {
                            let mut st = init();
                            loop {
                                if sh.stop.load(Relaxed) {
                                    break;
                                }
                                let c = next.fetch_add(1, Relaxed);
                                if c >= hi {
                                    break;
                                }
                                beat[k].store(epoch.elapsed().as_millis() as u64, Relaxed);
                                at[k].store(c, Relaxed);
                                w.chunk = c;
                                f(&mut w, &mut st, c);
                                at[k].store(u64::MAX, Relaxed);
                                if w.violated() {
                                    sh.stop.store(true, Relaxed);
                                    break;
                                }
                            }
                        }));
                        if body.is_err() {
                            // A panic that no guard caught: from the code under test it is a
                            // violation (something that must not panic did), otherwise our own error.
                            let loc = LAST_PANIC.with(|p| p.borrow().0.clone());
                            if loc.starts_with("/repo/") || loc.contains("/registry/src/") {
                                let c = w.chunk;
                                w.fail(format!("phase {} chunk {}", phase, c), "no panic", last_panic());
                            } else {
                                *herr.lock().unwrap() = Some(last_panic());
                            }
                            sh.stop.store(true, Relaxed);
                        }
                        sh.states.fetch_add(w.states, Relaxed);
                        sh.transitions.fetch_add(w.transitions, Relaxed);
                        sh.traces.fetch_add(w.traces, Relaxed);
                        let mut o = sh.outcomes.lock().unwrap();
                        for (n, c) in &w.outcomes {
                            *o.entry(n).or_insert(0) += c;
                        }
                        drop(o);
                        let mut s = sh.samples.lock().unwrap();
                        if s.len() < 12 {
                            for x in w.samples.into_iter().take(1) {
                                s.push(format!("[{}] {}", label(&phase), x));
                            }
                        }
                        drop(s);
                        sh.nviol.fetch_add(w.viol.len() as u64, Relaxed);
                        sh.viol.lock().unwrap().extend(w.viol);
                        at[k].store(u64::MAX, Relaxed);
                        live.fetch_sub(1, Relaxed);
                    })
                    .unwrap();
            }
            // Watchdog.
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(if epoch.elapsed().as_millis() < 200 { 2 } else { 20 }));
                for k in 0..threads {
                    let c = at[k].load(Relaxed);
                    if c != u64::MAX {
                        let el = epoch.elapsed().as_millis() as u64;
                        let b = beat[k].load(Relaxed);
                        if at[k].load(Relaxed) == c && el > b && el - b > HANG.as_millis() as u64 {
                            let v = Violation {
                                phase: label(phase),
                                chunk: c,
                                case: format!("phase {} chunk {}", phase, c),
                                expected: "every operation terminates".into(),
                                actual: format!("no progress for {} s", HANG.as_secs()),
                                snippet: String::new(),
                            };
                            self.sh.viol.lock().unwrap().push(v);
                            self.finish();
                        }
                    }
                }
            }
        });
        if let Some(e) = harness_error.into_inner().unwrap() {
            eprintln!("ENGINE ERROR in phase {}: {}", phase, e);
            std::process::exit(3);
        }
        let line = format!(
            "{}: {} chunks, states {}, transitions {}, {:.2} s",
            label(phase),
            hi - lo,
            self.sh.states.load(Relaxed) - s0,
            self.sh.transitions.load(Relaxed) - tr0,
            t.elapsed().as_secs_f64()
        );
        println!("  {}", line);
        self.phases.lock().unwrap().push(line);
    }

    /// Add counters gathered outside `par` (child processes).
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.sh.states.fetch_add(states, Relaxed);
        self.sh.transitions.fetch_add(transitions, Relaxed);
        self.sh.traces.fetch_add(traces, Relaxed);
    }
    /// Take over the counters and violations of a child process (see `report_to_parent`).
    pub fn absorb(&self, s: &str) {
        for line in s.lines() {
            let f: Vec<&str> = line.split('\u{1f}').collect();
            match f[0] {
                "n" => self.add(f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()),
                "p" => self.phases.lock().unwrap().push(f[1].into()),
                "s" => {
                    let mut v = self.sh.samples.lock().unwrap();
                    if v.len() < 12 {
                        v.push(f[1].into());
                    }
                }
                "o" => {
                    let name: &'static str = Box::leak(f[1].to_string().into_boxed_str());
                    *self.sh.outcomes.lock().unwrap().entry(name).or_insert(0) += f[2].parse::<u64>().unwrap();
                }
                "k" => {
                    KNOWN.lock().unwrap().insert(f[1].into());
                }
                "v" => {
                    self.sh.viol.lock().unwrap().push(Violation {
                        phase: f[1].into(),
                        chunk: f[2].parse().unwrap(),
                        case: f[3].into(),
                        expected: f[4].into(),
                        actual: f[5].into(),
                        snippet: String::new(),
                    });
                    self.sh.stop.store(true, Relaxed);
                }
                _ => {}
            }
        }
    }
    /// Runs everything on the main thread; what panics there is told apart here.
    pub fn top(&self, f: impl FnOnce()) {
        if guard(f).is_err() {
            let p = last_panic();
            if !p.contains("/repo/") {
                eprintln!("ENGINE ERROR: {}", p);
                std::process::exit(3);
            }
            let v = Violation { phase: "preparation".into(), chunk: 0, case: "between phases".into(), expected: "no panic".into(), actual: p, snippet: String::new() };
            self.sh.viol.lock().unwrap().push(v);
        }
    }
    fn report_to_parent(&self, path: &str) -> ! {
        let c = |s: &str| s.replace(['\n', '\u{1f}'], " ");
        let sh = &self.sh;
        let mut s = format!("n\u{1f}{}\u{1f}{}\u{1f}{}\n", sh.states.load(Relaxed), sh.transitions.load(Relaxed), sh.traces.load(Relaxed));
        for p in self.phases.lock().unwrap().iter() {
            s += &format!("p\u{1f}{}\n", c(p));
        }
        for p in sh.samples.lock().unwrap().iter().take(2) {
            s += &format!("s\u{1f}{}\n", c(p));
        }
        for (k, v) in sh.outcomes.lock().unwrap().iter() {
            s += &format!("o\u{1f}{}\u{1f}{}\n", k, v);
        }
        for k in KNOWN.lock().unwrap().iter() {
            s += &format!("k\u{1f}{}\n", c(k));
        }
        for v in sh.viol.lock().unwrap().iter() {
            s += &format!("v\u{1f}{}\u{1f}{}\u{1f}{}\u{1f}{}\u{1f}{}\n", c(&v.phase), v.chunk, c(&v.case), c(&v.expected), c(&v.actual));
        }
        std::fs::write(path, s).expect("write result");
        std::process::exit(0);
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }

    /// Write evidence, print the verdict, exit.
    pub fn finish(&self) -> ! {
        if let Ok(path) = std::env::var("MC_RESULT") {
            self.report_to_parent(&path);
        }
        let mut viol = self.sh.viol.lock().unwrap().clone();
        viol.sort_by_key(|v| (v.case.len(), v.case.clone()));
        let states = self.sh.states.load(Relaxed);
        let transitions = self.sh.transitions.load(Relaxed);
        // Where nothing else is counted, every explored state was an execution of the implementation.
        let traces = match self.sh.traces.load(Relaxed) {
            0 => states,
            n => n,
        };
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let outcomes = self.sh.outcomes.lock().unwrap();
        let samples = self.sh.samples.lock().unwrap();
        if self.only.is_none() {
            let mut phases = self.phases.lock().unwrap().clone();
            if phases.len() > 100 {
                let more = phases.len() - 100;
                phases.truncate(100);
                phases.push(format!("and {} more", more));
            }
            let mut s = String::new();
            s.push_str("{\n");
            s.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(&self.id), js(tier), self.seed));
            s.push_str(" \"coverage\": {\n");
            s.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", states, transitions, traces));
            s.push_str(&format!("  \"exhaustive\": {},\n", viol.is_empty()));
            s.push_str(&format!("  \"rule\": {},\n", js(&self.rule.lock().unwrap())));
            s.push_str(&format!("  \"phases\": [{}],\n", phases.iter().map(|p| js(p)).collect::<Vec<_>>().join(", ")));
            s.push_str(&format!("  \"outcomes\": {{{}}},\n", outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
            s.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|p| js(p)).collect::<Vec<_>>().join(", ")));
            s.push_str(&format!(" \"assumptions\": [{}],\n", self.assumptions.lock().unwrap().iter().map(|p| js(p)).collect::<Vec<_>>().join(", ")));
            s.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.t0.elapsed().as_secs_f64(), viol.len()));
            let dir = format!("{}/evidence", self.root);
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(format!("{}/{}.json", dir, self.id), s).expect("write evidence");
        }
        println!("{}: {} states, {} transitions, {} traces, {:.1} s", self.id, states, transitions, traces, self.t0.elapsed().as_secs_f64());
        for (k, v) in outcomes.iter() {
            println!("  outcome {}: {}", k, v);
        }
        for k in KNOWN.lock().unwrap().iter() {
            println!("KNOWN-FINDING: {}", k);
        }
        if viol.is_empty() {
            println!("OK property={} held on everything explored", self.id);
            std::process::exit(0);
        }
        let dir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.txt", dir, self.id);
        let v = &viol[0];
        let mut s = String::new();
        s.push_str(&format!("property: {}\ncase: {}\nexpected: {}\nactual: {}\n", self.id, v.case, v.expected, v.actual));
        s.push_str(&format!("rerun: VERIF_TIER={} /verif/check.sh {} --only '{}' {}\n", tier, self.id, v.phase, v.chunk));
        if !v.snippet.is_empty() {
            s.push_str(&format!("\nas a plain test:\n{}\n", v.snippet));
        }
        if viol.len() > 1 {
            s.push_str("\nfurther cases:\n");
            for v in viol.iter().skip(1).take(20) {
                s.push_str(&format!("  {} | expected {} | actual {}\n", v.case, v.expected, v.actual));
            }
        }
        let _ = std::fs::write(&path, &s);
        print!("{}", s);
        println!("VIOLATION property={} replay={}", self.id, path);
        std::process::exit(1);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
