//! The shared page through which a simulated process reports, so that its log
//! survives its own crash.
use core::sync::atomic::{AtomicU64, Ordering::*};

pub const NACT: usize = 1 << 18;
pub const NSTAT: usize = 64;
pub const TEXT: usize = 24 << 20;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Act {
    /// local event number of `tid` at which the action was taken
    pub at: u64,
    pub tid: u16,
    pub next: u16,
    pub kind: u32,
}

#[repr(C)]
pub struct Shm {
    pub text_len: AtomicU64,
    pub done: AtomicU64,
    pub n_act: AtomicU64,
    pub hash: AtomicU64,
    pub events: AtomicU64,
    pub switches: AtomicU64,
    pub sched_end: AtomicU64,
    pub phase: AtomicU64,
    pub stat: [AtomicU64; NSTAT],
    pub act: [Act; NACT],
    pub text: [u8; TEXT],
}

/// Names of the fault and probe counters.
pub const STATS: [&str; 42] = [
    "preemption", "futex_block", "spurious_wake", "stall_forever", "stall_resume", "clock_jump",
    "entropy_read", "env_read", "clock_read", "sleep", "yield", "thread_created",
    "read_eintr", "read_error", "read_short", "read_eof", "open_error", "write_error",
    "write_short", "write_eintr", "sink_error", "callback_panic", "callback_reentry", "chunk_split",
    "source_error", "source_eof", "corruption", "torn_record", "crash_restart", "drop_database",
    "address_reuse", "kill", "flip", "unwind_context", "tls_teardown", "futex_timeout",
    "close_error", "stat_error", "spin_yield", "sink_panic", "alloc_failure", "reformatted",
];

pub static mut SHM: *mut Shm = core::ptr::null_mut();

pub fn create() {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            core::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM = p as *mut Shm;
    }
}
pub fn get() -> &'static Shm {
    unsafe { &*SHM }
}
pub fn reset() {
    let s = get();
    s.text_len.store(0, Relaxed);
    s.done.store(0, Relaxed);
    s.n_act.store(0, Relaxed);
    s.hash.store(0, Relaxed);
    s.events.store(0, Relaxed);
    s.switches.store(0, Relaxed);
    s.sched_end.store(0, Relaxed);
    s.phase.store(0, Relaxed);
    for x in s.stat.iter() {
        x.store(0, Relaxed);
    }
}
pub fn stat(name: &str) {
    stat_n(name, 1)
}
pub fn stat_n(name: &str, n: u64) {
    let i = STATS.iter().position(|x| *x == name).expect("stat name");
    count(i, n);
}
/// What the last simulated process counted.
pub fn stat_of(name: &str) -> u64 {
    get().stat[STATS.iter().position(|x| *x == name).expect("stat name")].load(Relaxed)
}
#[inline]
pub fn count(i: usize, n: u64) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).stat[i].fetch_add(n, Relaxed);
        }
    }
}
pub fn put_text(t: &[u8]) {
    unsafe {
        let n = t.len().min(TEXT);
        core::ptr::copy_nonoverlapping(t.as_ptr(), (*SHM).text.as_mut_ptr(), n);
        (*SHM).text_len.store(n as u64, Release);
    }
}
pub fn get_text() -> &'static [u8] {
    unsafe {
        let n = (*SHM).text_len.load(Acquire) as usize;
        core::slice::from_raw_parts((*SHM).text.as_ptr(), n)
    }
}
