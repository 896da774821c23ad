//! Explorer of the public API: C01..C17, C27-C31.
use mc::engine::Engine;

// The real-time clock as this process sees it: what the exploring thread has set (p_sys::set_now), else
// the system's.
#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if matches!(clock, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI) {
        if let Some((s, ns)) = mc::p_sys::fake_now() {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = ns;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
}

#[no_mangle]
unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> libc::c_int {
    if let (Some((s, ns)), false) = (mc::p_sys::fake_now(), tv.is_null()) {
        (*tv).tv_sec = s;
        (*tv).tv_usec = ns / 1000;
        return 0;
    }
    libc::syscall(libc::SYS_gettimeofday, tv, tz) as libc::c_int
}

#[no_mangle]
unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let v = match mc::p_sys::fake_now() {
        Some((s, _)) => s,
        None => libc::syscall(libc::SYS_time, std::ptr::null_mut::<libc::time_t>()) as libc::time_t,
    };
    if !t.is_null() {
        *t = v;
    }
    v
}

// Reading files: the calls of a thread that has faults planned (p_data::faulty) can fail.
#[no_mangle]
unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if let Some(r) = mc::p_data::fault(mc::p_data::Call::Open, 0) {
        return r as libc::c_int;
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int;
    if fd >= 0 {
        mc::p_trace::opened(1);
    }
    fd
}

#[no_mangle]
unsafe extern "C" fn close(fd: libc::c_int) -> libc::c_int {
    mc::p_trace::opened(-1);
    libc::syscall(libc::SYS_close, fd) as libc::c_int
}

#[no_mangle]
unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let n = match mc::p_data::fault(mc::p_data::Call::Read, n) {
        Some(r) if r <= 0 => return r as libc::ssize_t,
        Some(r) => r as libc::size_t,
        None => n,
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}

#[no_mangle]
unsafe extern "C" fn lseek64(fd: libc::c_int, at: libc::off64_t, whence: libc::c_int) -> libc::off64_t {
    if let Some(r) = mc::p_data::fault(mc::p_data::Call::Seek, 0) {
        return r as libc::off64_t;
    }
    libc::syscall(libc::SYS_lseek, fd, at, whence) as libc::off64_t
}

#[no_mangle]
unsafe extern "C" fn statx(fd: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mask: libc::c_uint, out: *mut libc::statx) -> libc::c_int {
    let f = mc::p_data::fault(mc::p_data::Call::Stat, 0);
    if let Some(r) = f {
        if r < 0 {
            return r as libc::c_int;
        }
    }
    let r = libc::syscall(libc::SYS_statx, fd, path, flags, mask, out) as libc::c_int;
    if let (Some(size), 0) = (f, r) {
        (*out).stx_size = size as u64;
    }
    r
}

#[global_allocator]
static MEMORY: mc::p_trace::Counting = mc::p_trace::Counting;

fn main() {
    let e = Engine::from_args();
    e.top(|| {
        if !(mc::p_dt::run_prop(&e) || mc::p_chron::run_prop(&e) || mc::p_data::run_prop(&e) || mc::p_sys::run_prop(&e) || mc::p_sched::run_prop(&e) || mc::p_trace::run_prop(&e) || mc::p_kind::run_prop(&e) || mc::p_debug::run_prop(&e)) {
            eprintln!("unknown property {}", e.id);
            std::process::exit(3);
        }
    });
    e.finish();
}
