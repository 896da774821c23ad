//! C28: schedules. Two threads execute operations of the library; the first is single-stepped (trap
//! flag) and preempted after each of its machine instructions in turn, the other one then runs its
//! operation (in the two-preemption phases only up to each of its instructions), and so on. Every
//! schedule with that many preemptions is executed, on the machine code that was compiled from the
//! real sources.
use crate::dt::*;
use crate::engine::*;
use crate::model::*;
use crate::tz::TzDir;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};
use std::cell::Cell;
use std::marker::PhantomData;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

pub fn run_prop(e: &Engine) -> bool {
    match e.id.as_str() {
        "C28" => c28(e),
        _ => return false,
    }
    true
}

// ---------------------------------------------------------------------------------------------
// The scheduler.

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

const NEVER: u64 = u64::MAX;

/// Preemption only at calls into the C library.
static CALLS: AtomicBool = AtomicBool::new(false);
static OUTSIDE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
/// The functions of the C library that have no effect on other threads.
static LOCAL: [AtomicU64; 12] = [const { AtomicU64::new(0) }; 12];
fn only_calls(on: bool) {
    for (l, name) in LOCAL.iter().zip([c"malloc", c"free", c"calloc", c"realloc", c"memcpy", c"memmove", c"memset", c"memcmp", c"bcmp", c"strlen", c"posix_memalign", c"memchr"]) {
        l.store(unsafe { libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr()) } as u64, Relaxed);
    }
    CALLS.store(on, Relaxed);
}

struct Role {
    /// Instructions executed so far and the one to be preempted after.
    count: AtomicU64,
    target: AtomicU64,
    /// All that were stepped, also in the C library.
    steps: AtomicU64,
    stepping: AtomicBool,
    /// Generation at which it may run / has handed over / has finished.
    go: AtomicU32,
    handed: AtomicU32,
    done: AtomicU32,
}

impl Role {
    const fn new() -> Role {
        Role { count: AtomicU64::new(0), target: AtomicU64::new(NEVER), steps: AtomicU64::new(0), stepping: AtomicBool::new(false), go: AtomicU32::new(0), handed: AtomicU32::new(0), done: AtomicU32::new(0) }
    }
}

static ROLES: [Role; 2] = [Role::new(), Role::new()];
static GENERATION: AtomicU32 = AtomicU32::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
/// How long a thread that was switched to may take before it is assumed to wait for the preempted one.
static PATIENCE_US: AtomicU64 = AtomicU64::new(3000);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn wake(a: &AtomicU32, v: u32) {
    a.store(v, SeqCst);
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const AtomicU32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX);
    }
}

/// False when the time is up.
fn wait(a: &AtomicU32, v: u32, us: u64) -> bool {
    let mut left = us as i64;
    loop {
        let cur = a.load(SeqCst);
        if cur == v {
            return true;
        }
        if left <= 0 {
            return false;
        }
        let slice = left.min(1_000_000);
        let ts = libc::timespec { tv_sec: slice / 1_000_000, tv_nsec: slice % 1_000_000 * 1000 };
        let r = unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, cur, &ts as *const libc::timespec) };
        if r != 0 && unsafe { *libc::__errno_location() } == libc::ETIMEDOUT {
            left -= slice;
        }
    }
}

unsafe extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let errno = *libc::__errno_location();
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let regs = &mut uc.uc_mcontext.gregs;
    let me = ME.with(|m| m.get());
    let go_on = if me > 1 || !ROLES[me].stepping.load(Relaxed) {
        false
    } else {
        let r = &ROLES[me];
        r.steps.store(r.steps.load(Relaxed) + 1, Relaxed);
        let ip = regs[libc::REG_RIP as usize] as usize;
        let inside = ip >= &__executable_start as *const u8 as usize && ip < &etext as *const u8 as usize;
        let point = match CALLS.load(Relaxed) {
            false => inside,
            // Where control leaves the program for another function than those that only touch their
            // own memory.
            true => {
                let was = OUTSIDE[me].swap(!inside, Relaxed);
                !inside && !was && !LOCAL.iter().any(|f| f.load(Relaxed) as usize == ip)
            }
        };
        if point {
            let n = r.count.load(Relaxed) + 1;
            r.count.store(n, Relaxed);
            if n == r.target.load(Relaxed) {
                r.stepping.store(false, Relaxed);
                hand_over(me);
            }
            if me == 0 && FORKS.load(Relaxed) != 0 && n % FORKS.load(Relaxed) == FORK_AT.load(Relaxed) {
                branch();
            }
        }
        r.stepping.load(Relaxed)
    };
    if go_on {
        regs[libc::REG_EFL as usize] |= 0x100;
    } else {
        regs[libc::REG_EFL as usize] &= !0x100;
    }
    *libc::__errno_location() = errno;
}

fn hand_over(me: usize) {
    let g = GENERATION.load(SeqCst);
    let (r, other) = (&ROLES[me], &ROLES[1 - me]);
    let until = if me == 0 {
        wake(&other.go, g);
        &other.handed
    } else {
        wake(&r.handed, g);
        &other.done
    };
    // While the other one is stepped it makes progress slowly.
    let mut steps = NEVER;
    let ok = loop {
        if wait(until, g, PATIENCE_US.load(Relaxed)) {
            break true;
        }
        let now = other.steps.load(Relaxed);
        if now == steps || !other.stepping.load(Relaxed) {
            break false;
        }
        steps = now;
    };
    if !ok {
        BLOCKED.fetch_add(1, Relaxed);
    }
}

// Branching: for operations of many instructions. Instead of running the first thread's operation again
// for every preemption point, the process is duplicated at each of them; the copy runs the schedule.
static FORKS: AtomicU64 = AtomicU64::new(0);
static FORK_AT: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
/// 0: not in a copy, else the number of the preemption point.
static COPY: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicBool = AtomicBool::new(false);
static FAILURE: Mutex<String> = Mutex::new(String::new());
static REPORT: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
static SECOND: Mutex<Option<Job>> = Mutex::new(None);
static SECOND_OUT: Mutex<Option<Any<Res>>> = Mutex::new(None);

/// At a preemption point of the first thread.
fn branch() {
    POINTS.fetch_add(1, Relaxed);
    // The copy shares the positions in open files.
    let mut at = [-1i64; 128];
    for (fd, a) in at.iter_mut().enumerate() {
        *a = unsafe { libc::lseek(fd as i32, 0, libc::SEEK_CUR) };
    }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        // The copy: the second thread runs now, then the first one to its end.
        unsafe { libc::alarm(30) };
        COPY.store(ROLES[0].count.load(Relaxed), Relaxed);
        ROLES[0].stepping.store(false, Relaxed);
        second_thread();
        if !wait(&ROLES[1].done, 1, PATIENCE_US.load(Relaxed)) {
            BLOCKED.fetch_add(1, Relaxed);
        }
        return;
    }
    let mut st = 0;
    unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} }
    for (fd, a) in at.iter().enumerate() {
        if *a >= 0 {
            unsafe { libc::lseek(fd as i32, *a, libc::SEEK_SET) };
        }
    }
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 };
    match code {
        0 => {}
        3 => {
            if BLOCKED.fetch_add(1, Relaxed) > 32 {
                PATIENCE_US.store(500, Relaxed);
            }
        }
        _ => {
            let mut msg = format!("the first preempted after instruction {}: ", ROLES[0].count.load(Relaxed));
            if code == 1 {
                let mut buf = [0u8; 2048];
                let n = unsafe { libc::read(REPORT[0].load(Relaxed) as i32, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
                msg += &String::from_utf8_lossy(&buf[..n.max(0) as usize]);
            } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                msg += "does not return";
            } else {
                msg += &format!("the process is ended (status {:#x})", st);
            }
            *FAILURE.lock().unwrap() = msg;
            FAILED.store(true, Relaxed);
            // No more copies.
            FORKS.store(0, Relaxed);
            ROLES[0].stepping.store(false, Relaxed);
        }
    }
}

fn second_thread() {
    let job = SECOND.lock().unwrap().clone().unwrap();
    std::thread::Builder::new()
        .spawn(move || {
            ME.with(|m| m.set(1));
            ROLES[1].target.store(NEVER, Relaxed);
            let r = perform(1, &job.0);
            *SECOND_OUT.lock().unwrap() = Some(Any(r));
            drop(job);
            wake(&ROLES[1].done, 1);
        })
        .unwrap();
}

/// All schedules with one preemption of a, of which every forks-th one starting at k.
fn explore_copies(w: &mut W, a: &Action, b: &Job, forks: u64, k: u64) {
    install_trap();
    ME.with(|m| m.set(0));
    PATIENCE_US.store(20_000, Relaxed);
    let mut fd = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fd.as_mut_ptr()) }, 0);
    REPORT[0].store(fd[0] as u32, Relaxed);
    REPORT[1].store(fd[1] as u32, Relaxed);
    *SECOND.lock().unwrap() = Some(b.clone());
    ROLES[1].done.store(0, Relaxed);
    POINTS.store(0, Relaxed);
    BLOCKED.store(0, Relaxed);
    FAILED.store(false, Relaxed);
    FORK_AT.store(k, Relaxed);
    FORKS.store(forks, Relaxed);
    ROLES[0].target.store(NEVER - 1, Relaxed);
    let ra = perform(0, a);
    FORKS.store(0, Relaxed);
    if COPY.load(Relaxed) != 0 {
        // A copy ends here.
        let returned = wait(&ROLES[1].done, 1, 20_000_000);
        let rb = SECOND_OUT.lock().unwrap().take();
        let wrong = match (returned, rb) {
            (true, Some(rb)) => [(a, &ra), (&b.0, &rb.0)].iter().find_map(|(x, r)| (x.wrong)(r).map(|p| format!("{}: {}", x.name, p))).or_else(|| aftermath(a, &b.0)),
            _ => Some("the other thread does not return".into()),
        };
        let code = match wrong {
            Some(p) => {
                unsafe { libc::write(fd[1], p.as_ptr() as *const libc::c_void, p.len().min(2000)) };
                1
            }
            None if BLOCKED.load(Relaxed) > 0 => 3,
            None => 0,
        };
        unsafe { libc::_exit(code) };
    }
    unsafe {
        libc::close(fd[0]);
        libc::close(fd[1]);
    }
    let points = POINTS.load(Relaxed);
    w.states += points;
    w.traces += points;
    w.transitions += 4 * points;
    if FAILED.load(Relaxed) {
        w.fail(format!("{} in one thread, {} in another", a.name, b.0.name), "each as when it runs alone", FAILURE.lock().unwrap().clone());
        return;
    }
    w.sample(|| format!("{} against {}: {} instructions", a.name, b.0.name, ROLES[0].count.load(Relaxed)));
    if BLOCKED.load(Relaxed) > 0 {
        w.hit("pair in which one waits for the other");
    }
    // The first operation alone.
    if let Some(p) = (a.wrong)(&ra) {
        w.fail(format!("{} alone, step by step", a.name), "its result", p);
    }
}

fn install_trap() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()), 0);
    }
}

/// Runs f; when it has a target, instruction by instruction.
#[inline(never)]
fn stepped<R>(me: usize, f: impl FnOnce() -> R) -> R {
    let r = &ROLES[me];
    r.count.store(0, Relaxed);
    if r.target.load(Relaxed) != NEVER {
        OUTSIDE[me].store(false, Relaxed);
        r.stepping.store(true, SeqCst);
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    }
    let x = f();
    r.stepping.store(false, SeqCst);
    x
}

/// Carries values between the threads whatever the compiler thinks of it (whether it thinks well of
/// it is checked separately).
pub struct Any<T>(pub T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

pub enum Res {
    Dt(DateTime),
    Carry(DateTimeWithCarry),
    Chron(Chronology),
    Nums([i128; 8]),
    Refused,
    Panicked(String),
}

/// An operation, and what is wrong with a result of it, if anything.
pub struct Action {
    pub name: String,
    run: Box<dyn Fn() -> Res>,
    wrong: Box<dyn Fn(&Res) -> Option<String>>,
}

pub type Job = Arc<Any<Action>>;

impl Action {
    /// As it is, no questions asked.
    pub fn perform_quietly(&self) -> Result<Res, ()> {
        guard(|| (self.run)())
    }
}

fn perform(me: usize, a: &Action) -> Res {
    match guard(|| stepped(me, || (a.run)())) {
        Ok(r) => r,
        Err(()) => {
            ROLES[me].stepping.store(false, SeqCst);
            Res::Panicked(last_panic())
        }
    }
}

/// The second thread.
struct Other {
    thread: Option<std::thread::JoinHandle<()>>,
    job: Arc<Mutex<Option<Job>>>,
    out: Arc<Mutex<Option<Any<Res>>>>,
}

impl Other {
    fn start() -> Other {
        install_trap();
        ME.with(|m| m.set(0));
        let mut o = Other { thread: None, job: Default::default(), out: Default::default() };
        let (job, out) = (o.job.clone(), o.out.clone());
        let mut last = GENERATION.load(SeqCst);
        let thread = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                ME.with(|m| m.set(1));
                let me = &ROLES[1];
                loop {
                    while !wait(&me.go, last.wrapping_add(1), 1_000_000) {}
                    last = last.wrapping_add(1);
                    // No job: it is no longer needed.
                    let Some(j) = job.lock().unwrap().clone() else { return };
                    let r = perform(1, &j.0);
                    *out.lock().unwrap() = Some(Any(r));
                    drop(j);
                    wake(&me.done, last);
                    wake(&me.handed, last);
                }
            })
            .unwrap();
        o.thread = Some(thread);
        o
    }

    /// One schedule: a is preempted after its i-th instruction, b after its j-th. None: a or b
    /// never returns.
    fn schedule(&self, a: &Action, b: &Job, i: u64, j: u64) -> Option<(Res, Res, u64, u64)> {
        let g = GENERATION.load(SeqCst).wrapping_add(1);
        GENERATION.store(g, SeqCst);
        *self.job.lock().unwrap() = Some(b.clone());
        // Nothing that an earlier schedule left behind.
        unsafe { libc::chdir(c"/".as_ptr()) };
        ROLES[0].target.store(i, SeqCst);
        ROLES[1].target.store(j, SeqCst);
        ROLES[1].count.store(0, SeqCst);
        let ra = perform(0, a);
        wake(&ROLES[0].done, g);
        // In case a finished before its i-th instruction.
        wake(&ROLES[1].go, g);
        if !wait(&ROLES[1].done, g, 20_000_000) {
            return None;
        }
        let rb = self.out.lock().unwrap().take().unwrap().0;
        Some((ra, rb, ROLES[0].count.load(SeqCst), ROLES[1].count.load(SeqCst)))
    }
}

impl Drop for Other {
    fn drop(&mut self) {
        let g = GENERATION.load(SeqCst).wrapping_add(1);
        GENERATION.store(g, SeqCst);
        *self.job.lock().unwrap() = None;
        wake(&ROLES[1].go, g);
        // One that never returned from its last job is left behind.
        if ROLES[1].done.load(SeqCst) == g.wrapping_sub(1) || g == 1 {
            let _ = self.thread.take().unwrap().join();
        }
    }
}

fn judge(w: &mut W, a: &Action, b: &Action, how: &str, r: Option<(Res, Res, u64, u64)>) -> Option<(u64, u64)> {
    let Some((ra, rb, na, nb)) = r else {
        w.fail(format!("{} in one thread, {} in another, {}", a.name, b.name, how), "both return", "the other thread does not return");
        return None;
    };
    w.transitions += 2;
    for (x, r) in [(a, &ra), (b, &rb)] {
        if let Some(p) = (x.wrong)(r) {
            w.fail(format!("{} in one thread, {} in another, {}", a.name, b.name, how), format!("{} as when it runs alone", x.name), p);
            return None;
        }
    }
    if let Some(p) = aftermath(a, b) {
        w.fail(format!("{} in one thread, {} in another, {}", a.name, b.name, how), "operations afterwards are as when they run alone", p);
        return None;
    }
    w.transitions += 2;
    Some((na, nb))
}

/// What is wrong with the same operations when they are executed again, one after the other.
fn aftermath(a: &Action, b: &Action) -> Option<String> {
    ROLES[0].target.store(NEVER, SeqCst);
    [a, b].iter().find_map(|x| (x.wrong)(&perform(0, x)).map(|p| format!("{} afterwards: {}", x.name, p)))
}

/// All schedules of a pair with one preemption (of a), or two (of a, then of b); of the points of a every
/// stride-th one starting at `from`.
fn explore(w: &mut W, o: &Other, a: &Action, b: &Job, two: bool, from: u64, stride: u64) {
    PATIENCE_US.store(3000, Relaxed);
    let before = BLOCKED.load(Relaxed);
    let mut i = from;
    loop {
        let mut j = if two { 1 } else { NEVER };
        loop {
            let how = if two { format!("preempted after instruction {} and {}", i, j) } else { format!("the first preempted after instruction {}", i) };
            let r = o.schedule(a, b, i, j);
            w.traces += 1;
            let Some((na, nb)) = judge(w, a, &b.0, &how, r) else { return };
            if BLOCKED.load(Relaxed) - before > 32 {
                PATIENCE_US.store(200, Relaxed);
            }
            assert!(na > 0, "single-stepping does not work here");
            if na < i {
                if BLOCKED.load(Relaxed) > before {
                    w.hit("pair in which one waits for the other");
                }
                w.hit("pair");
                w.sample(|| format!("{} against {}: {} points", a.name, b.0.name, na));
                return;
            }
            w.states += 1;
            if nb < j {
                break;
            }
            j += 1;
        }
        i += stride;
    }
}

// ---------------------------------------------------------------------------------------------
// The operations.

fn dt_wrong(env: &Arc<Any<Env>>, exp: Option<M>) -> impl Fn(&Res) -> Option<String> {
    let env = env.clone();
    move |r| {
        let got = match r {
            Res::Dt(d) => Some(d.clone()),
            Res::Carry(c) => Some(c.clone().drop_carry()),
            Res::Refused => None,
            Res::Panicked(p) => return Some(p.clone()),
            _ => return Some("something else".into()),
        };
        match (&got, &exp) {
            (Some(d), Some(m)) if matches(&env.0, d, m) => None,
            (None, None) => None,
            (Some(d), _) => Some(show(d)),
            (None, _) => Some("refused".into()),
        }
    }
}

fn nums_wrong(exp: [i128; 8]) -> impl Fn(&Res) -> Option<String> {
    move |r| match r {
        Res::Nums(n) if *n == exp => None,
        Res::Nums(n) => Some(format!("{:?}", n)),
        Res::Panicked(p) => Some(p.clone()),
        _ => Some("refused".into()),
    }
}

fn builder(env: &Env, m: &M) -> Any<DateTimeBuilder> {
    let mut b = DateTimeBuilder::new();
    b.chronology(&env.chron);
    fill(&mut b, m);
    Any(b)
}

fn act(name: String, run: impl Fn() -> Res + 'static, wrong: impl Fn(&Res) -> Option<String> + 'static) -> Job {
    Arc::new(Any(Action { name, run: Box::new(run), wrong: Box::new(wrong) }))
}

const OPS: [Op; 9] = [Op::Years(4), Op::Years(1), Op::Months(1), Op::Days(1), Op::Hours(1), Op::Minutes(1), Op::Minutes(-1441), Op::Seconds(1), Op::Seconds(-50_000_000)];

fn getters_of(m: &M) -> [i128; 8] {
    let (y, mo, d) = cal().date(m.day);
    let (h, mi, s) = m.hms();
    [y as i128, mo as i128, d as i128, h as i128, mi as i128, s as i128, 0, 0]
}
fn read(d: &DateTime) -> Res {
    Res::Nums([d.year() as i128, d.month() as i128, d.day() as i128, d.hour() as i128, d.minute() as i128, d.second() as i128, 0, 0])
}

/// Everything that can be done to a date-time in one call.
pub fn date_time_actions(env: &Arc<Any<Env>>, m: M) -> Vec<Job> {
    let tag = format!("{} table {}", m.show(), env.0.leaps.name);
    let dt = build(&env.0, &m).expect("a date-time to work on");
    let mut v = vec![];
    let b = builder(&env.0, &m);
    v.push(act(format!("build {}", tag), move || b.0.checked_build().map_or(Res::Refused, Res::Dt), dt_wrong(env, Some(m))));
    let d = Any(dt.clone());
    v.push(act(format!("read {}", tag), move || read(&d.0), nums_wrong(getters_of(&m))));
    for op in OPS {
        let d = Any(dt.clone());
        v.push(act(
            format!("{} {}", op_call(op), tag),
            move || match run_plain(&d.0, op) {
                Some(Got::Carry(c)) => Res::Carry(c),
                Some(Got::Plain(x)) => Res::Dt(x),
                None => Res::Refused,
            },
            dt_wrong(env, m.step(&env.0.leaps, op).map(|x| x.0)),
        ));
    }
    // Carries.
    if let Some((m2, c)) = m.step(&env.0.leaps, Op::Days(1)) {
        let d = Any(dt.checked_add_days(1).expect("a day later"));
        v.push(act(format!("add_days(1) and apply_carry {}", tag), move || d.0.checked_apply_carry().map_or(Res::Refused, Res::Dt), dt_wrong(env, m2.apply_carry(&env.0.leaps, c))));
    }
    let (d1, d2, d3) = (Any(dt.clone()), Any(build(&env.0, &m).unwrap()), Any(dt.checked_add_seconds(-1).expect("a second earlier")));
    v.push(act(
        format!("compare {}", tag),
        move || Res::Nums([(d1.0 == d2.0) as i128, (d1.0 == d3.0) as i128, 0, 0, 0, 0, 0, 0]),
        nums_wrong([1, 0, 0, 0, 0, 0, 0, 0]),
    ));
    let d = Any(dt.clone());
    v.push(act(
        format!("clone and drop {}", tag),
        move || {
            let x = d.0.clone();
            let y = x.clone();
            drop(x);
            Res::Dt(y)
        },
        dt_wrong(env, Some(m)),
    ));
    v
}

fn run_plain(dt: &DateTime, op: Op) -> Option<Got> {
    match op {
        Op::Years(n) => dt.checked_add_years(n).map(Got::Carry),
        Op::Months(n) => dt.checked_add_months(n).map(Got::Carry),
        Op::Days(n) => dt.checked_add_days(n).map(Got::Carry),
        Op::Hours(n) => dt.checked_add_hours(n).map(Got::Carry),
        Op::Minutes(n) => dt.checked_add_minutes(n).map(Got::Carry),
        Op::Seconds(n) => dt.checked_add_seconds(n).map(Got::Plain),
    }
}

/// System times and instants.
pub fn instant_actions(leaps: &Leaps) -> Vec<Job> {
    use crate::p_sys::{sys, P1e9, P1};
    use momentous::Instant;
    use std::time::SystemTime;
    let mut v = vec![];
    for (sec, ns) in [(1_700_000_000i64, 5u32), (100_000_000, 0)] {
        let total: i64 = leaps.ends.iter().filter(|x| x.0 as i64 * 86_400 <= sec).map(|x| x.1 as i64).sum();
        v.push(act(
            format!("convert system time {}.{:09}", sec, ns),
            move || <Instant<i128, P1e9> as TryFrom<SystemTime>>::try_from(sys(sec, ns)).map_or(Res::Refused, |i| Res::Nums([i.ticks_since_epoch(), 0, 0, 0, 0, 0, 0, 0])),
            nums_wrong([(sec + total) as i128 * 1_000_000_000 + ns as i128, 0, 0, 0, 0, 0, 0, 0]),
        ));
    }
    for t in [-1i64, 7_000_000_001] {
        v.push(act(
            format!("instant {}: floor, extend, compare, order", t),
            move || {
                let x = Instant::<i64, P1e9>::from_ticks_since_epoch(t);
                let y: Instant<i64, P1> = x.floor();
                let z: Option<Instant<i128, P1e9>> = y.extend();
                let z = z.unwrap();
                Res::Nums([y.ticks_since_epoch() as i128, z.ticks_since_epoch(), (z == x) as i128, (z < x) as i128, (y <= x) as i128, 0, 0, 0])
            },
            nums_wrong([t.div_euclid(1_000_000_000) as i128, (t.div_euclid(1_000_000_000) * 1_000_000_000) as i128, 0, 1, 1, 0, 0, 0]),
        ));
    }
    v
}

/// What a chronology is wrong about; told by the last seconds of each day with an adjustment.
fn wrong_about(l: &Leaps, c: &Chronology) -> Option<String> {
    let env = Env { leaps: l.clone(), chron: c.clone(), shadow: None };
    for (end, _) in &l.ends {
        for sec in [86_398, 86_399, 86_400] {
            let fits = sec < l.day_len(*end - 1);
            let m = M::new(*end - 1, sec);
            match (build(&env, &m), fits) {
                (Ok(d), true) if getters_match(&d, &m) => {}
                (Err(_), false) => {}
                _ => return Some(format!("a chronology that is not {} at {}", l.name, m.show())),
            }
        }
    }
    None
}

/// Loading, when the data is one of these tables.
pub fn load_action(tables: &[&Leaps]) -> Job {
    let ls: Vec<Leaps> = tables.iter().map(|l| (*l).clone()).collect();
    act(
        format!("load table {}", ls.iter().map(|l| l.name.clone()).collect::<Vec<_>>().join(" or ")),
        || Res::Chron(load_chronology("UTC")),
        move |r| match r {
            Res::Chron(c) => {
                let p: Vec<Option<String>> = ls.iter().map(|l| wrong_about(l, c)).collect();
                if p.iter().any(|x| x.is_none()) {
                    None
                } else {
                    p.into_iter().next().unwrap()
                }
            }
            Res::Panicked(p) => Some(p.clone()),
            _ => Some("something else".into()),
        },
    )
}

/// Operations from scratch: the date-time is built, changed and read.
fn whole_actions(env: &Arc<Any<Env>>, m: M) -> Vec<Job> {
    let mut v = vec![];
    for op in OPS {
        let Some((m2, _)) = m.step(&env.0.leaps, op) else { continue };
        let b = builder(&env.0, &m);
        v.push(act(
            format!("build {}, {}, read, table {}", m.show(), op_call(op), env.0.leaps.name),
            move || {
                let Ok(d) = b.0.checked_build() else { return Res::Refused };
                match run_plain(&d, op) {
                    Some(Got::Carry(c)) => read(&c.drop_carry()),
                    Some(Got::Plain(x)) => read(&x),
                    None => Res::Refused,
                }
            },
            nums_wrong(getters_of(&m2)),
        ));
    }
    v
}

// ---------------------------------------------------------------------------------------------

struct Probe<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Probe<T> {}
struct ProbeSend<T>(PhantomData<T>);
impl<T> No for ProbeSend<T> {}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
macro_rules! probe {
    ($w:expr, $($t:ty),*) => {$(
        $w.states += 1;
        if !ProbeSend::<$t>::SEND || !Probe::<$t>::SYNC {
            $w.fail(stringify!($t), "can be sent to and shared with other threads", "cannot");
        }
    )*};
}

/// The second table: what the first inserts, it removes.
fn opposite() -> Leaps {
    Leaps::new("removed", iers().ends.iter().map(|x| (x.0, -x.1)).collect())
}

fn c28(e: &Engine) {
    e.rule("pairs of operations in two threads, on shared and on separate chronologies: the first thread is preempted after each machine instruction it executes in the compiled library in turn, and the other one runs its whole operation there (one preemption; thorough also: the other is preempted after each of its instructions in turn). Both results are compared with the model. States: preemption points, traces: schedules executed.");
    e.assume("schedules with one preemption (thorough: two) of two threads, at instructions of the program, not within functions of the C library; sequentially consistent memory; when the second thread waits for the preempted one, the first goes on, and from then on both run freely");
    let share = std::env::var("MC_SHARE").ok().map(|s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse::<u64>().unwrap(), b.parse::<u64>().unwrap())
    });
    if share.is_none() && e.only.is_none() {
        e.seq("threads", 1, || (), |w, _, _| {
            probe!(w, DateTime, DateTimeWithCarry, Chronology, DateTimeBuilder, momentous::Instant<i64, momentous::Nanoseconds>, momentous::Duration<i64, momentous::Nanoseconds>);
        });
        // The schedules of a process concern all its threads: one process per worker.
        let d = TzDir::new("sched");
        d.put("UTC", &iers());
        let n = e.threads();
        let exe = std::env::current_exe().expect("own path");
        let children: Vec<_> = (0..n)
            .map(|k| {
                let out = format!("{}/result-{}", d.path, k);
                let c = std::process::Command::new(&exe).arg("C28").env("MC_SHARE", format!("{}/{}", k, n)).env("MC_RESULT", &out).env("TZDIR", &d.path).env_remove("MC_PRIOR").stdout(std::process::Stdio::null()).spawn().expect("run a child process");
                (k, c, out)
            })
            .collect();
        for (k, mut c, out) in children {
            let st = c.wait().expect("child process");
            match std::fs::read_to_string(&out) {
                Ok(s) => e.absorb(&s),
                Err(_) if st.signal().is_some() => {
                    e.absorb(&format!("v\u{1f}one preemption\u{1f}{}\u{1f}operations in two threads, worker {}\u{1f}the process goes on\u{1f}ended with {}\n", k, k, st));
                }
                Err(_) => {
                    eprintln!("ENGINE ERROR: child process {} ended with {}", k, st);
                    std::process::exit(3);
                }
            }
        }
        return;
    }
    if let Some((k, _)) = share {
        // The threads of a process take turns: one processor will do.
        unsafe {
            let mut all: libc::cpu_set_t = std::mem::zeroed();
            let size = std::mem::size_of::<libc::cpu_set_t>();
            if libc::sched_getaffinity(0, size, &mut all) == 0 {
                let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &all)).collect();
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[k as usize % cpus.len()], &mut one);
                libc::sched_setaffinity(0, size, &one);
            }
        }
    }
    let mine = |c: u64| match share {
        Some((k, n)) => c % n == k,
        None => true,
    };
    let (l1, l2) = (iers(), opposite());
    let day = cal().day(2016, 12, 31);
    let day2 = cal().day(2012, 6, 30);
    let (m1, m2, m3) = (M::ns(day, 86_400, 999_999_999), M::new(day2, 86_400), M::new(day, 86_398));
    // Gets to the day that m1 is on while m1 leaves it.
    let m4 = M::new(day - 1, 86_399);
    let (t1, t2) = (TzDir::new("s1"), TzDir::new("s2"));
    t1.put("UTC", &l1);
    t2.put("UTC", &l2);
    t1.activate();

    // Operations that are the first the process does (of their kind), each pair in a process of its own.
    // Nothing of the library may be called here before.
    const N: u64 = 8;
    let small = Leaps::new("[+1000,+1400]", vec![(1000, 1), (1400, 1)]);
    let t0 = with_table("s0", &small);
    let convert = |l: &Leaps| instant_actions(l).into_iter().next().unwrap();
    e.seq("first loads and conversions", 4 * N, || (), |w, _, c| {
        if mine(c) {
            alone(w, |w| {
                let v = [load_action(&[&small]), convert(&small)];
                let p = (c / N) as usize;
                explore_copies(w, &v[p / 2].0, &v[p % 2], N, c % N);
            });
        }
    });
    e.seq("first operations", 4 * OPS.len() as u64 * N, || (), |w, _, c| {
        if mine(c) {
            let (op, v, k) = ((c / N) as usize / 4, (c / N) % 4, c % N);
            alone(w, |w| {
                t1.activate();
                let env1 = Arc::new(Any(Env::load(&l1)));
                let b = match v {
                    0 => whole_actions(&env1, m1),
                    1 => whole_actions(&env1, m2),
                    2 => whole_actions(&env1, m4),
                    _ => {
                        t2.activate();
                        whole_actions(&Arc::new(Any(Env::load(&l2))), m3)
                    }
                };
                explore_copies(w, &whole_actions(&env1, m1)[op].0, &b[op], N, k);
            });
        }
    });

    // The data is replaced (by renaming) while it is read.
    let other = Leaps::new("[-1000,+1401]", vec![(1000, -1), (1401, 1)]);
    let dir = t0.path.clone();
    e.seq("data replaced", 2 * N, || (), |w, _, c| {
        if mine(c) {
            alone(w, |w| {
                // The files are this process' own.
                let d = with_table("r", &small);
                let dir = d.path.clone();
                let put = move |l: &Leaps| {
                    let f = format!("{}/right/new", dir);
                    std::fs::write(&f, crate::tz::tzif(l)).unwrap();
                    std::fs::rename(&f, format!("{}/right/UTC", dir)).unwrap();
                };
                put(&small);
                let (old, new) = (small.clone(), other.clone());
                let either: Job = if c / N == 0 {
                    load_action(&[&old, &new])
                } else {
                    let (x, y) = (convert(&old), convert(&new));
                    act(
                        x.0.name.clone(),
                        {
                            let x = x.clone();
                            move || (x.0.run)()
                        },
                        move |r| if (y.0.wrong)(r).is_none() { None } else { (x.0.wrong)(r) },
                    )
                };
                let (put2, new2, old2) = (put.clone(), new.clone(), old.clone());
                let e2 = either.clone();
                // Judging puts the old data back.
                let first = act(either.0.name.clone(), move || (e2.0.run)(), move |r| {
                    put(&old2);
                    (either.0.wrong)(r)
                });
                let l = load_action(&[&new]);
                let second = act(
                    "replace the data and load".into(),
                    {
                        let l = l.clone();
                        move || {
                            put2(&new2);
                            (l.0.run)()
                        }
                    },
                    move |r| (l.0.wrong)(r),
                );
                explore_copies(w, &first.0, &second, N, c % N);
            });
        }
    });
    drop(dir);
    t1.activate();

    let env1 = Arc::new(Any(Env::load(&l1)));
    t2.activate();
    let env2 = Arc::new(Any(Env::load(&l2)));
    t1.activate();
    let first: Vec<Job> = date_time_actions(&env1, m1).into_iter().chain(instant_actions(&l1).split_off(2)).collect();
    let second: Vec<Vec<Job>> = vec![
        date_time_actions(&env1, m2).into_iter().chain(instant_actions(&l1)).chain([load_action(&[&l1])]).collect(),
        date_time_actions(&env2, m3),
        date_time_actions(&env1, m4),
    ];
    let pairs: Vec<(usize, usize, usize)> = (0..first.len()).flat_map(|a| second.iter().enumerate().flat_map(move |(v, s)| (0..s.len()).map(move |b| (a, v, b)))).collect();
    let (first, second) = (Any(first), Any(second));
    e.seq("one preemption", pairs.len() as u64, Other::start, |w, o, c| {
        if mine(c) {
            let (f, s) = (&first, &second);
            let (a, v, b) = pairs[c as usize];
            explore(w, o, &f.0[a].0, &s.0[v][b], false, 1, 1);
        }
    });
    // Two preemptions of long operations, at their calls into the C library.
    const F: u64 = 4;
    let mut long = vec![load_action(&[&l1]), convert(&l1)];
    let mut b = DateTimeBuilder::new();
    fill(&mut b, &m1);
    let b = Any(b);
    long.push(act("build with the default chronology".into(), move || b.0.checked_build().map_or(Res::Refused, |d| read(&d)), nums_wrong(getters_of(&m1))));
    let long = Any(long);
    e.seq("two preemptions at calls", 9 * F, Other::start, |w, o, c| {
        if mine(c) {
            let l = &long;
            let (p, k) = ((c / F) as usize, c % F);
            only_calls(true);
            explore(w, o, &l.0[p / 3].0, &l.0[p % 3], true, k + 1, F);
            only_calls(false);
        }
    });
    if e.thorough() {
        // Two preemptions, of operations of the same kind.
        const K: u64 = 16;
        let n = first.0.len() - 2;
        e.seq("two preemptions", 3 * n as u64 * K, Other::start, |w, o, c| {
            if mine(c) {
                let (f, s) = (&first, &second);
                let (a, v, k) = ((c / K) as usize / 3, (c / K) as usize % 3, c % K);
                let (a, b) = (&f.0[a].0, &s.0[v][a]);
                let (_, _, na, nb) = o.schedule(a, b, NEVER - 1, NEVER - 1).expect("both return");
                assert!(na > 0, "single-stepping does not work here");
                if na * nb > 40_000 {
                    w.hit("pair of too many schedules");
                } else {
                    explore(w, o, a, b, true, k + 1, K);
                }
            }
        });
        let all: Vec<(usize, usize)> = (0..3).flat_map(|v| (0..second.0[v].len()).map(move |b| (v, b))).collect();
        e.seq("one preemption of loads and conversions", 2 * all.len() as u64 * N, || (), |w, _, c| {
            if mine(c) {
                let (l, s) = (&long, &second);
                let (p, k) = ((c / N) as usize, c % N);
                let (v, b) = all[p / 2];
                alone(w, |w| explore_copies(w, &l.0[p % 2].0, &s.0[v][b], N, k));
            }
        });
    }
    drop(t2);
}

/// In a process of its own.
fn alone(w: &mut W, f: impl FnOnce(&mut W)) {
    let path = format!("{}/alone-{}", std::env::temp_dir().display(), std::process::id());
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let mut w2 = w.same();
        let ok = guard(|| f(&mut w2)).is_ok();
        let s = if ok { w2.to_text() } else { format!("panic {}", last_panic()) };
        let _ = std::fs::write(&path, s);
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} }
    let s = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    if let Some(p) = s.strip_prefix("panic ") {
        if p.contains("/repo/") {
            w.fail("an operation in a process of its own", "no panic", p);
        } else {
            panic!("{}", p);
        }
    } else if s.is_empty() {
        w.fail("an operation in a process of its own", "it ends", format!("status {:#x}", st));
    } else {
        w.add_text(&s);
    }
}
