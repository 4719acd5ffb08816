//! One simulated process per run: forked from a pristine zygote, reporting
//! through shared memory, bounded in CPU and wall time.
use simrt::shm;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq)]
pub enum ChildEnd {
    Ok(String),
    /// killed by a signal: crash, CPU limit, alarm
    Signal(i32),
    /// harness error
    Harness(String),
}

pub fn child<F: FnOnce() -> String>(limit_s: u64, f: F) -> ChildEnd {
    shm::reset();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            simrt::alloc::enter(2);
            let l = libc::rlimit { rlim_cur: limit_s, rlim_max: limit_s + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::alarm((limit_s * 4) as u32);
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(s) => {
                    shm::put_text(s.as_bytes());
                    shm::get().done.store(1, std::sync::atomic::Ordering::SeqCst);
                    libc::_exit(0)
                }
                Err(p) => {
                    shm::put_text(format!("{} at {}", ops::panic_text(p), last_panic()).as_bytes());
                    libc::_exit(99)
                }
            }
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                panic!("waitpid");
            }
        }
        let text = || String::from_utf8_lossy(shm::get_text()).into_owned();
        if libc::WIFSIGNALED(st) {
            return ChildEnd::Signal(libc::WTERMSIG(st));
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && shm::get().done.load(std::sync::atomic::Ordering::SeqCst) == 1 {
            return ChildEnd::Ok(text());
        }
        ChildEnd::Harness(format!("status {st:#x}: {}", text()))
    }
}

pub fn signal_class(s: i32) -> (&'static str, String) {
    match s {
        libc::SIGXCPU | libc::SIGKILL => ("hang", format!("endless loop (CPU limit, signal {s})")),
        libc::SIGALRM => ("hang", "blocked for ever (alarm)".into()),
        libc::SIGABRT => ("crash", "process aborted (SIGABRT)".into()),
        libc::SIGSEGV | libc::SIGBUS => ("crash", format!("process crashed (signal {s})")),
        _ => ("crash", format!("process killed by signal {s}")),
    }
}

static mut LAST: [u8; 400] = [0; 400];
static mut LASTN: usize = 0;

/// Panics in simulated processes are results, not console output.
pub fn install_hook() {
    let me = unsafe { simrt::sys::syscall3(libc::SYS_getpid, 0, 0, 0) };
    std::panic::set_hook(Box::new(move |info| {
        let _q = simrt::sched::quiet();
        if me == unsafe { simrt::sys::syscall3(libc::SYS_getpid, 0, 0, 0) } {
            // not in a simulated process: the machinery's own
            eprintln!("worker panic: {info}");
        }
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            LASTN = l.len().min(400);
            let p = std::ptr::addr_of_mut!(LAST) as *mut u8;
            std::ptr::copy_nonoverlapping(l.as_ptr(), p, LASTN);
        }
    }));
}
pub fn last_panic() -> String {
    unsafe {
        let p = std::ptr::addr_of!(LAST) as *const u8;
        String::from_utf8_lossy(std::slice::from_raw_parts(p, LASTN)).into_owned()
    }
}
