//! The callbacks the compiler inserts (`-Zsanitizer=thread` with an external
//! runtime): here they are scheduling points, not a race detector. Atomics are
//! executed sequentially consistent.
use crate::sched::*;
use core::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

macro_rules! rw {
    ($($n:ident $k:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(a: usize) { event($k, a) })* };
}
rw! {
    __tsan_read1 K_READ; __tsan_read2 K_READ; __tsan_read4 K_READ; __tsan_read8 K_READ; __tsan_read16 K_READ;
    __tsan_write1 K_WRITE; __tsan_write2 K_WRITE; __tsan_write4 K_WRITE; __tsan_write8 K_WRITE; __tsan_write16 K_WRITE;
    __tsan_unaligned_read1 K_READ; __tsan_unaligned_read2 K_READ; __tsan_unaligned_read4 K_READ; __tsan_unaligned_read8 K_READ; __tsan_unaligned_read16 K_READ;
    __tsan_unaligned_write1 K_WRITE; __tsan_unaligned_write2 K_WRITE; __tsan_unaligned_write4 K_WRITE; __tsan_unaligned_write8 K_WRITE; __tsan_unaligned_write16 K_WRITE;
    __tsan_volatile_read1 K_READ; __tsan_volatile_read2 K_READ; __tsan_volatile_read4 K_READ; __tsan_volatile_read8 K_READ; __tsan_volatile_read16 K_READ;
    __tsan_volatile_write1 K_WRITE; __tsan_volatile_write2 K_WRITE; __tsan_volatile_write4 K_WRITE; __tsan_volatile_write8 K_WRITE; __tsan_volatile_write16 K_WRITE;
    __tsan_unaligned_volatile_read1 K_READ; __tsan_unaligned_volatile_read2 K_READ; __tsan_unaligned_volatile_read4 K_READ; __tsan_unaligned_volatile_read8 K_READ; __tsan_unaligned_volatile_read16 K_READ;
    __tsan_unaligned_volatile_write1 K_WRITE; __tsan_unaligned_volatile_write2 K_WRITE; __tsan_unaligned_volatile_write4 K_WRITE; __tsan_unaligned_volatile_write8 K_WRITE; __tsan_unaligned_volatile_write16 K_WRITE;
    __tsan_read_write1 K_WRITE; __tsan_read_write2 K_WRITE; __tsan_read_write4 K_WRITE; __tsan_read_write8 K_WRITE; __tsan_read_write16 K_WRITE;
    __tsan_unaligned_read_write1 K_WRITE; __tsan_unaligned_read_write2 K_WRITE; __tsan_unaligned_read_write4 K_WRITE; __tsan_unaligned_read_write8 K_WRITE; __tsan_unaligned_read_write16 K_WRITE;
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(a: usize) {
    event(K_READ, a)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    event(K_WRITE, a)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, _n: usize) {
    event(K_READ, a)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, _n: usize) {
    event(K_WRITE, a)
}
// Range operations are split, so that torn copies of shared data are possible.
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    event(K_READ, s as usize);
    event(K_WRITE, d as usize);
    if n > 16 && in_sim() {
        let h = (n / 2) & !7;
        core::ptr::copy_nonoverlapping(s, d, h);
        event(K_READ, s as usize + h);
        event(K_WRITE, d as usize + h);
        core::ptr::copy_nonoverlapping(s.add(h), d.add(h), n - h);
    } else {
        core::ptr::copy_nonoverlapping(s, d, n);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    event(K_READ, s as usize);
    event(K_WRITE, d as usize);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    event(K_WRITE, d as usize);
    core::ptr::write_bytes(d, v as u8, n);
    d
}

macro_rules! atomics {
    ($t:ty, $at:ty; $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $strong:ident $weak:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, _m: i32) -> $t {
            event(K_LOAD, a as usize);
            (*(a as *const $at)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _m: i32) {
            event(K_STORE, a as usize);
            (*(a as *const $at)).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _m: i32) -> $t {
            event(K_RMW, a as usize);
            (*(a as *const $at)).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _m: i32, _f: i32) -> $t {
            event(K_RMW, a as usize);
            match (*(a as *const $at)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(a: *mut $t, c: *mut $t, v: $t, _m: i32, _f: i32) -> i32 {
            event(K_RMW, a as usize);
            match (*(a as *const $at)).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $weak(a: *mut $t, c: *mut $t, v: $t, m: i32, f: i32) -> i32 {
            $strong(a, c, v, m, f)
        }
    };
}
atomics!(u8, AtomicU8; __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16; __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32; __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64; __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_m: i32) {
    event(K_FENCE, 0);
    core::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_m: i32) {}
