//! C library entry points the library under test (through std) can reach.
//! Outside simulated processes every one of them is the plain system call.
use crate::rng::Rng;
use crate::sched;
use crate::shm;
use crate::sys;
use core::ffi::{c_char, c_int, c_long, c_void};
use core::sync::atomic::{AtomicUsize, Ordering::*};
use libc::{size_t, ssize_t, timespec};

// ---- environment of one simulated process ------------------------------------------------

pub struct Env {
    pub on: bool,
    pub rng: Rng,
    pub epoch: u64,
    pub mono0: u64,
    pub step: u64,
    pub jump_p: u32,
    pub jump_max: u64,
    pub off_real: i64,
    pub off_mono: u64,
    pub env_mode: u8,
    pub env_seed: u64,
    pub pid: i32,
}
pub static mut ENV: Env = Env {
    on: false,
    rng: Rng::zero(),
    epoch: 1_700_000_000_000_000_000,
    mono0: 1_000_000_000_000,
    step: 1000,
    jump_p: 0,
    jump_max: 0,
    off_real: 0,
    off_mono: 0,
    env_mode: 0,
    env_seed: 0,
    pid: 4242,
};

pub fn env_init(seed: u64) {
    unsafe {
        ENV.rng = Rng::new(seed);
        let r = &mut ENV.rng;
        ENV.epoch = [0u64, 1, 951_782_400, 1_700_000_000, 2_147_483_647, 4_102_444_800][r.below(6) as usize] * 1_000_000_000
            + r.below(86_400_000_000_000);
        ENV.mono0 = r.below(1 << 50);
        ENV.step = r.log(1, 10_000_000);
        ENV.jump_p = [0, 2000, 20000][r.below(3) as usize];
        ENV.jump_max = r.log(1_000_000, 400_000_000_000_000_000);
        ENV.env_mode = r.below(5).min(3) as u8;
        ENV.env_seed = r.next();
        ENV.pid = r.range(2, 4_000_000) as i32;
        ENV.off_real = 0;
        ENV.off_mono = 0;
        ENV.on = true;
        fake_environ();
    }
}

// ---- simulated disk ----------------------------------------------------------------------

pub const C_OPEN: u8 = 0;
pub const C_READ: u8 = 1;
pub const C_STAT: u8 = 2;
pub const C_SEEK: u8 = 3;
pub const C_CLOSE: u8 = 4;
pub const C_WRITE: u8 = 5;

#[derive(Clone, Copy)]
pub struct Fault {
    pub call: u8,
    pub nth: u64,
    /// >0 errno, 0 end of file, <0 short transfer of -kind bytes
    pub kind: i64,
}
#[derive(Clone, Copy)]
pub struct Arm {
    pub n: [u64; 6],
    pub faults: [Fault; 8],
    pub nf: usize,
    /// 0 = full reads, else at most this many bytes, drawn per call
    pub chunk: u64,
    pub eintr_p: u32,
    pub rng: u64,
    pub opened: u64,
    pub closed: u64,
    /// bytes read since the last open
    pub bytes: u64,
    /// calls failed so far per kind of call, and the bytes read before the first failed read
    pub fired: [u64; 6],
    pub first_read_fault: u64,
    /// the file has ended for good
    pub eof: bool,
}
const ARM0: Arm = Arm {
    n: [0; 6],
    faults: [Fault { call: 255, nth: 0, kind: 0 }; 8],
    nf: 0,
    chunk: 0,
    eintr_p: 0,
    rng: 0,
    opened: 0,
    closed: 0,
    bytes: 0,
    fired: [0; 6],
    first_read_fault: u64::MAX,
    eof: false,
};
pub struct Fs {
    pub on: bool,
    pub prefix: [u8; 200],
    pub plen: usize,
    pub tracked: [bool; 4096],
    pub arm: [Arm; sched::MAXT],
}
pub static mut FS: Fs = Fs { on: false, prefix: [0; 200], plen: 0, tracked: [false; 4096], arm: [ARM0; sched::MAXT] };
/// Files whose name starts with `prefix` are on the simulated disk.
pub fn fs_start(prefix: &str) {
    unsafe {
        let f = &mut FS;
        f.plen = prefix.len().min(200);
        f.prefix[..f.plen].copy_from_slice(&prefix.as_bytes()[..f.plen]);
        f.on = true;
    }
}
/// What the disk does to the calling simulated thread from now on.
pub fn fs_arm(seed: u64, faults: &[Fault], chunk: u64, eintr_p: u32) {
    unsafe {
        let a = &mut FS.arm[sched::tid()];
        *a = ARM0;
        a.nf = faults.len().min(8);
        a.faults[..a.nf].copy_from_slice(&faults[..a.nf]);
        a.chunk = chunk;
        a.eintr_p = eintr_p;
        a.rng = crate::rng::mix2(seed, 77);
    }
}
pub fn fs_report() -> Arm {
    unsafe {
        let a = FS.arm[sched::tid()];
        FS.arm[sched::tid()] = ARM0;
        a
    }
}
unsafe fn fs_fault(call: u8) -> Option<i64> {
    let f = &mut FS.arm[sched::tid()];
    let n = f.n[call as usize];
    f.n[call as usize] += 1;
    for i in 0..f.nf {
        if f.faults[i].call == call && f.faults[i].nth == n {
            f.fired[call as usize] += 1;
            return Some(f.faults[i].kind);
        }
    }
    None
}
unsafe fn arm_rng() -> u64 {
    let a = &mut FS.arm[sched::tid()];
    a.rng = crate::rng::mix(a.rng.wrapping_add(0x9e37_79b9_7f4a_7c15));
    a.rng
}
unsafe fn fs_path(p: *const c_char) -> bool {
    if !FS.on || p.is_null() {
        return false;
    }
    for i in 0..FS.plen {
        if *p.add(i) as u8 != FS.prefix[i] {
            return false;
        }
    }
    true
}
unsafe fn tracked(fd: c_int) -> bool {
    FS.on && fd >= 0 && (fd as usize) < FS.tracked.len() && FS.tracked[fd as usize]
}
unsafe fn errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let mine = fs_path(p);
    if mine {
        sched::sys_event();
        if let Some(k) = fs_fault(C_OPEN) {
            if k > 0 {
                shm::count(16, 1);
                errno(k as i32);
                return -1;
            }
        }
    }
    let r = sys::ret(sys::syscall6(libc::SYS_openat, dirfd as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    if mine && r >= 0 && (r as usize) < FS.tracked.len() {
        FS.tracked[r as usize] = true;
        FS.arm[sched::tid()].opened += 1;
        FS.arm[sched::tid()].bytes = 0;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, p, flags, mode)
}
unsafe fn read_fault(n: usize) -> Result<usize, ssize_t> {
    sched::sys_event();
    if FS.arm[sched::tid()].eof {
        return Err(0);
    }
    if let Some(k) = fs_fault(C_READ) {
        let a = &mut FS.arm[sched::tid()];
        if k >= 0 && k as i32 != libc::EINTR && a.first_read_fault == u64::MAX {
            a.first_read_fault = a.bytes;
        }
        if k > 0 {
            shm::count(if k as i32 == libc::EINTR { 12 } else { 13 }, 1);
            errno(k as i32);
            return Err(-1);
        }
        if k == 0 {
            shm::count(15, 1);
            FS.arm[sched::tid()].eof = true;
            return Err(0);
        }
        shm::count(14, 1);
        return Ok(n.min((-k) as usize));
    }
    let (e, c) = (FS.arm[sched::tid()].eintr_p, FS.arm[sched::tid()].chunk);
    if e > 0 && (arm_rng() & 0xffff) < e as u64 {
        shm::count(12, 1);
        errno(libc::EINTR);
        return Err(-1);
    }
    if c > 0 {
        let m = (arm_rng() >> 20) as usize % c as usize + 1;
        if m < n {
            shm::count(14, 1);
        }
        return Ok(n.min(m));
    }
    Ok(n)
}
unsafe fn got(fd: c_int, r: ssize_t) -> ssize_t {
    if r > 0 && tracked(fd) {
        FS.arm[sched::tid()].bytes += r as u64;
    }
    r
}
/// What Rust prints when an allocation failed ends the simulated process; the
/// stack trace that would follow takes long and tells nothing.
unsafe fn told_off(fd: c_int, b: *const c_void, n: size_t) {
    const M: &[u8] = b"memory allocation of";
    if fd == 2 && n >= M.len() && crate::alloc::scarce() && core::slice::from_raw_parts(b as *const u8, M.len()) == M {
        let me = crate::sys::syscall3(libc::SYS_getpid, 0, 0, 0);
        let it = crate::sys::syscall3(libc::SYS_gettid, 0, 0, 0);
        crate::sys::syscall3(libc::SYS_tgkill, me as usize, it as usize, libc::SIGABRT as usize);
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    told_off(fd, b, n);
    sys::ret(crate::sys::syscall3(libc::SYS_write, fd as usize, b as usize, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if n > 0 {
        told_off(fd, (*v).iov_base, (*v).iov_len);
    }
    sys::ret(crate::sys::syscall3(libc::SYS_writev, fd as usize, v as usize, n as usize)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if tracked(fd) && n > 0 {
        match read_fault(n) {
            Ok(m) => n = m,
            Err(r) => return r,
        }
    }
    got(fd, sys::ret(sys::syscall3(libc::SYS_read, fd as usize, b as usize, n)))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    let mut n = n;
    if tracked(fd) && n > 0 {
        match read_fault(n) {
            Ok(m) => n = m,
            Err(r) => return r,
        }
    }
    got(fd, sys::ret(sys::syscall6(libc::SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if tracked(fd) && n > 0 {
        // serve the first non-empty buffer only: a short read
        for i in 0..n as usize {
            let io = &*v.add(i);
            if io.iov_len > 0 {
                return read(fd, io.iov_base, io.iov_len);
            }
        }
        return 0;
    }
    sys::ret(sys::syscall3(libc::SYS_readv, fd as usize, v as usize, n as usize))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if tracked(fd) {
        FS.tracked[fd as usize] = false;
        FS.arm[sched::tid()].closed += 1;
        sched::sys_event();
        let k = fs_fault(C_CLOSE);
        let r = sys::ret(sys::syscall3(libc::SYS_close, fd as usize, 0, 0)) as c_int;
        if let Some(k) = k {
            if k > 0 {
                shm::count(36, 1);
                errno(k as i32);
                return -1;
            }
        }
        return r;
    }
    sys::ret(sys::syscall3(libc::SYS_close, fd as usize, 0, 0)) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let mine = tracked(fd);
    let r = sys::ret(sys::syscall3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int;
    if mine && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) {
        duplicated(r);
    }
    r
}
/// A second descriptor of a file on the simulated disk.
unsafe fn duplicated(r: c_int) {
    if r >= 0 && (r as usize) < FS.tracked.len() {
        FS.tracked[r as usize] = true;
        FS.arm[sched::tid()].opened += 1;
        sched::sys_event();
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let mine = tracked(fd);
    let r = sys::ret(sys::syscall3(libc::SYS_dup, fd as usize, 0, 0)) as c_int;
    if mine {
        duplicated(r);
    }
    r
}
unsafe fn stat_fault(fd: c_int, call: u8) -> bool {
    if tracked(fd) {
        if let Some(k) = fs_fault(call) {
            if k > 0 {
                shm::count(37, 1);
                errno(k as i32);
                return true;
            }
        }
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int {
    if stat_fault(fd, C_STAT) {
        return -1;
    }
    sys::ret(sys::syscall3(libc::SYS_fstat, fd as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut c_void) -> c_int {
    if !p.is_null() && *p == 0 && stat_fault(fd, C_STAT) {
        return -1;
    }
    sys::ret(sys::syscall6(libc::SYS_statx, fd as usize, p as usize, flags as usize, mask as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, w: c_int) -> i64 {
    if stat_fault(fd, C_SEEK) {
        return -1;
    }
    sys::ret(sys::syscall3(libc::SYS_lseek, fd as usize, off as usize, w as usize)) as i64
}

// ---- time ----------------------------------------------------------------------------------

unsafe fn clock(id: c_int) -> u64 {
    let e = &mut ENV;
    shm::count(8, 1);
    sched::sys_event();
    sched::advance(e.step);
    if e.jump_p > 0 && (e.rng.next() & 0xffff) < e.jump_p as u64 {
        let j = e.rng.below(e.jump_max) as i64;
        shm::count(5, 1);
        if e.rng.chance(1, 2) {
            e.off_real = e.off_real.wrapping_add(if e.rng.chance(1, 2) { j } else { -j });
        } else {
            e.off_mono = e.off_mono.wrapping_add(j as u64 >> 10);
        }
    }
    let now = sched::now();
    match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => (e.epoch as i64).wrapping_add(e.off_real).wrapping_add(now as i64).max(0) as u64,
        _ => e.mono0 + e.off_mono + now,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut timespec) -> c_int {
    if !ENV.on || ts.is_null() {
        return sys::ret(sys::syscall3(libc::SYS_clock_gettime, id as usize, ts as usize, 0)) as c_int;
    }
    let t = clock(id);
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !ENV.on || tv.is_null() {
        return sys::ret(sys::syscall3(libc::SYS_gettimeofday, tv as usize, tz as usize, 0)) as c_int;
    }
    let t = clock(libc::CLOCK_REALTIME);
    (*tv).tv_sec = (t / 1_000_000_000) as i64;
    (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, m: *mut timespec) -> c_int {
    if sched::in_sim() {
        let ns = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
        sched::sleep_until(sched::now() + ns);
        return 0;
    }
    if ENV.on {
        sched::advance((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64);
        return 0;
    }
    sys::ret(sys::syscall3(libc::SYS_nanosleep, r as usize, m as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, r: *const timespec, m: *mut timespec) -> c_int {
    if sched::in_sim() || ENV.on {
        let mut ns = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            let t = clock(id);
            ns = ns.saturating_sub(t);
        }
        if sched::in_sim() {
            sched::sleep_until(sched::now() + ns);
        } else {
            sched::advance(ns);
        }
        return 0;
    }
    let r = sys::syscall6(libc::SYS_clock_nanosleep, id as usize, flags as usize, r as usize, m as usize, 0, 0);
    -r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::in_sim() {
        sched::yield_now();
        return 0;
    }
    sys::ret(sys::syscall3(libc::SYS_sched_yield, 0, 0, 0)) as c_int
}

// ---- entropy, environment, identity -----------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if !ENV.on {
        return sys::ret(sys::syscall3(libc::SYS_getrandom, b as usize, n, flags as usize));
    }
    shm::count(6, 1);
    sched::sys_event();
    for i in 0..n {
        *(b as *mut u8).add(i) = ENV.rng.next() as u8;
    }
    n as ssize_t
}
extern "C" {
    static mut environ: *const *const c_char;
}
static mut FAKE: [[u8; 48]; 8] = [[0; 48]; 8];
static FAKE_N: AtomicUsize = AtomicUsize::new(0);
/// What the simulated environment holds under a name.
unsafe fn fake_value(nm: &[u8]) -> Option<&'static [u8]> {
    let m = ENV.env_mode;
    if m == 0 {
        return None;
    }
    // a value that depends on the seed and the name; in mode 3 it also changes
    let mut h = ENV.env_seed;
    for c in nm {
        h = (h ^ *c as u64).wrapping_mul(0x0100_0000_01b3);
    }
    let mut vr = Rng::new(h);
    if m == 3 && ENV.rng.below(4) == 0 {
        vr = Rng::new(ENV.rng.next());
    }
    let loc: [&'static [u8]; 12] = [b"en_US.UTF-8\0", b"fr_FR.UTF-8\0", b"de_DE@euro\0", b"ru_RU.KOI8-R\0", b"ja_JP.UTF-8\0", b"pt_BR.UTF-8\0", b"en_AU.UTF-8\0", b"it_IT\0", b"C\0", b"ko_KR.UTF-8\0", b"es_AR.UTF-8\0", b"en_GB:en\0"];
    let reg: [&'static [u8]; 8] = [b"US\0", b"FR\0", b"GB\0", b"IT\0", b"ru\0", b"BR\0", b"001\0", b"ZZ\0"];
    let vals: [&'static [u8]; 10] = [b"1\0", b"0\0", b"de_DE.UTF-8\0", b"US\0", b"true\0", b"/nonexistent\0", b"\0", b"65536\0", b"off\0", b"2\0"];
    let has = |w: &[u8]| nm.windows(w.len()).any(|x| x == w);
    if m == 1 {
        Some(b"1\0")
    } else if vr.below(8) == 0 {
        return None;
    } else if (has(b"LC_") || has(b"LANG") || has(b"LOCALE")) && vr.below(8) > 0 {
        Some(loc[vr.below(12) as usize])
    } else if (has(b"COUNTRY") || has(b"REGION") || has(b"TERR")) && vr.below(4) > 0 {
        Some(reg[vr.below(8) as usize])
    } else {
        Some(vals[vr.below(10) as usize])
    }
}

/// The list of variables, for those who walk it.
unsafe fn fake_environ() {
    static mut LIST: [*mut c_char; 40] = [core::ptr::null_mut(); 40];
    static mut TEXT: [[u8; 80]; 8] = [[0; 80]; 8];
    let mut n = 0;
    let mut e = environ as *mut *mut c_char;
    if !e.is_null() {
        while !(*e).is_null() && n < 28 {
            let s = core::ffi::CStr::from_ptr(*e).to_bytes();
            if s.starts_with(b"RUST_") || s.starts_with(b"MALLOC_") || s.starts_with(b"LD_") || s.starts_with(b"SIM_") {
                LIST[n] = *e;
                n += 1;
            }
            e = e.add(1);
        }
    }
    for (i, nm) in [&b"LANG"[..], b"LC_ALL", b"TZ", b"HOME", b"COUNTRY", b"DEBUG"].iter().enumerate() {
        if let Some(v) = fake_value(nm) {
            TEXT[i][..nm.len()].copy_from_slice(nm);
            TEXT[i][nm.len()] = b'=';
            TEXT[i][nm.len() + 1..nm.len() + 1 + v.len()].copy_from_slice(v);
            LIST[n] = &raw mut TEXT[i] as *mut c_char;
            n += 1;
        }
    }
    LIST[n] = core::ptr::null_mut();
    environ = &raw mut LIST as *mut *mut c_char as _;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let n = libc::strlen(name);
    let nm = core::slice::from_raw_parts(name as *const u8, n);
    if ENV.on && !nm.starts_with(b"RUST_") && !nm.starts_with(b"MALLOC_") && !nm.starts_with(b"LD_") {
        shm::count(7, 1);
        sched::sys_event();
        return match fake_value(nm) {
            None => core::ptr::null_mut(),
            Some(val) => {
                let i = FAKE_N.fetch_add(1, Relaxed) % 8;
                FAKE[i][..val.len()].copy_from_slice(val);
                FAKE[i].as_mut_ptr() as *mut c_char
            }
        };
    }
    let mut e = environ;
    if e.is_null() {
        return core::ptr::null_mut();
    }
    while !(*e).is_null() {
        let s = *e;
        if libc::strncmp(s, name, n) == 0 && *s.add(n) as u8 == b'=' {
            return s.add(n + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    core::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if ENV.on {
        shm::count(7, 1);
        return ENV.pid;
    }
    sys::syscall3(libc::SYS_getpid, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if sched::in_sim() {
        return ENV.pid + sched::tid() as c_int;
    }
    sys::syscall3(libc::SYS_gettid, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> c_int {
    if ENV.on {
        sched::sys_event();
        return ENV.rng.below(16) as c_int;
    }
    let mut cpu: u32 = 0;
    sys::syscall3(libc::SYS_getcpu, &mut cpu as *mut _ as usize, 0, 0);
    cpu as c_int
}

// ---- threads, locks ------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && sched::in_sim() {
        let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        let r = match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let ts = d as *const timespec;
                let deadline = if ts.is_null() {
                    u64::MAX
                } else {
                    let v = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                    if op == libc::FUTEX_WAIT {
                        sched::now() + v
                    } else {
                        let base = if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 {
                            (ENV.epoch as i64 + ENV.off_real) as u64
                        } else {
                            ENV.mono0 + ENV.off_mono
                        };
                        v.saturating_sub(base)
                    }
                };
                let bits = if op == libc::FUTEX_WAIT { u32::MAX } else { f as u32 };
                sched::futex_wait(a as *const u32, c as u32, bits, deadline)
            }
            libc::FUTEX_WAKE => sched::futex_wake(a as *const u32, c as u32, u32::MAX),
            libc::FUTEX_WAKE_BITSET => sched::futex_wake(a as *const u32, c as u32, f as u32),
            _ => sys::syscall6(n, a, b, c, d, e, f),
        };
        return sys::ret(r) as c_long;
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as u32) as c_long;
    }
    if n == libc::SYS_gettid {
        return gettid() as c_long;
    }
    sys::ret(sys::syscall6(n, a, b, c, d, e, f)) as c_long
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
unsafe fn next(name: &[u8]) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    p as usize
}
pub unsafe fn real_pthread_create(h: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, a: *mut c_void) -> c_int {
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut p = P.load(Relaxed);
    if p == 0 {
        p = next(b"pthread_create\0");
        P.store(p, Relaxed);
    }
    let g: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int = core::mem::transmute(p);
    g(h, at, f, a)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(h: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, a: *mut c_void) -> c_int {
    if sched::in_sim() {
        return sched::spawn_c(h, f, a);
    }
    real_pthread_create(h, at, f, a)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if sched::in_sim() {
        sched::join_c(h);
    }
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut p = P.load(Relaxed);
    if p == 0 {
        p = next(b"pthread_join\0");
        P.store(p, Relaxed);
    }
    let g: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = core::mem::transmute(p);
    g(h, r)
}

// ---- facts about the machine, which differ from run to run ---------------------------------

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if ENV.on {
        sched::sys_event();
        let dirs: [&[u8]; 4] = [b"/\0", b"/home/fr\0", b"/srv/phonenumber\0", b"/tmp/+44\0"];
        let d = dirs[(ENV.env_seed % 4) as usize];
        if buf.is_null() || n < d.len() {
            *libc::__errno_location() = if buf.is_null() { libc::ENOMEM } else { libc::ERANGE };
            return core::ptr::null_mut();
        }
        core::ptr::copy_nonoverlapping(d.as_ptr() as *const c_char, buf, d.len());
        return buf;
    }
    let r = sys::syscall3(libc::SYS_getcwd, buf as usize, n, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return core::ptr::null_mut();
    }
    buf
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if ENV.on {
        sched::sys_event();
        core::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..[1usize, 2, 7, 64][(ENV.env_seed / 4 % 4) as usize].min(n * 8) {
            *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = sys::syscall3(libc::SYS_sched_getaffinity, pid as usize, n, set as usize);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    if (r as usize) < n {
        core::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
    }
    0
}
