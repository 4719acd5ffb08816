//! Raw system calls, bypassing the interposed C library.
use core::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
pub unsafe fn syscall3(n: i64, a: usize, b: usize, c: usize) -> isize {
    syscall6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    syscall6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
/// Convert a raw result to the C convention.
pub unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
/// Real monotonic time in nanoseconds (harness use only: budgets, never decisions inside a run).
pub fn real_now() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        syscall3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
