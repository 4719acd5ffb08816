//! Deterministic global allocator: a fixed-address arena, size classes and
//! LIFO free lists, so that heap addresses (and their reuse) are a function of
//! the run alone, and live memory can be counted exactly.
use core::alloc::{GlobalAlloc, Layout};
use core::ptr;
use core::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering::*};

pub const BASE: usize = 0x1000_0000_0000;
pub const SIZE: usize = 48 << 30;

pub struct SimAlloc;

static LOCK: AtomicBool = AtomicBool::new(false);
/// Three regions: the harness, the pristine library state of a zygote, and the
/// simulated process. What the harness did before never moves the others' blocks.
pub const REGIONS: usize = 3;
pub const RSIZE: usize = SIZE / REGIONS;
static mut INIT: bool = false;
static mut CUR: usize = 0;
static mut NEXT: [usize; REGIONS] = [BASE, BASE + RSIZE, BASE + 2 * RSIZE];
static mut FREE: [[*mut u8; NCLASS]; REGIONS] = [[ptr::null_mut(); NCLASS]; REGIONS];
const EXACT: usize = 208;
const NCLASS: usize = 64 + 4 * 40;

pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);

// ---- memory held by search caches ----------------------------------------------------------
//
// A compiled regular expression keeps scratch space that grows, within bounds,
// with the variety of the text it has been shown. When told which code fills
// such caches, the allocator counts what that code allocates separately.

pub static CACHED: AtomicU64 = AtomicU64::new(0);
pub static CACHED_BLOCKS: AtomicU64 = AtomicU64::new(0);
static mut RANGES: &[(usize, usize)] = &[];
static mut MARKS: *mut u8 = ptr::null_mut();
static TRACE: AtomicBool = AtomicBool::new(false);

/// Address ranges (sorted, disjoint) of the functions that fill caches.
pub fn set_cache_code(r: &'static [(usize, usize)]) {
    unsafe {
        RANGES = r;
        let n = SIZE / 16 / 8;
        let p = crate::sys::syscall6(
            libc::SYS_mmap,
            0,
            n,
            (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize,
            usize::MAX,
            0,
        );
        assert!(p > 0);
        MARKS = p as *mut u8;
        TRACE.store(true, Relaxed);
    }
}
#[inline(never)]
unsafe fn in_cache_code() -> bool {
    let mut fp: usize;
    core::arch::asm!("mov {}, rbp", out(reg) fp, options(nomem, nostack, preserves_flags));
    let low = &fp as *const usize as usize;
    let r = RANGES;
    let mut prev = low;
    for _ in 0..40 {
        if fp <= prev || fp & 7 != 0 || fp > low + (8 << 20) {
            return false;
        }
        let ip = *((fp + 8) as *const usize);
        let i = r.partition_point(|x| x.0 <= ip);
        if i > 0 && ip < r[i - 1].1 {
            return true;
        }
        prev = fp;
        fp = *(fp as *const usize);
    }
    false
}
unsafe fn mark(p: *mut u8, bytes: usize) {
    if TRACE.load(Relaxed) && !p.is_null() && in_cache_code() {
        let k = (p as usize - BASE) / 16;
        *MARKS.add(k / 8) |= 1 << (k % 8);
        CACHED.fetch_add(bytes as u64, Relaxed);
        CACHED_BLOCKS.fetch_add(1, Relaxed);
    }
}
unsafe fn unmark(p: *mut u8, bytes: usize) {
    if TRACE.load(Relaxed) {
        let k = (p as usize - BASE) / 16;
        let b = &mut *MARKS.add(k / 8);
        if *b & (1 << (k % 8)) != 0 {
            *b &= !(1 << (k % 8));
            CACHED.fetch_sub(bytes as u64, Relaxed);
            CACHED_BLOCKS.fetch_sub(1, Relaxed);
        }
    }
}

/// Behaviour of the simulated heap, chosen per run.
/// bit 0: poison freed memory; bit 1: do not reuse freed blocks; bit 2: a larger
/// block goes where one of exactly its size was before, the lowest first, so that
/// the same sequence of allocations gets the same addresses again.
pub static MODE: AtomicU8 = AtomicU8::new(0);

// ---- failing allocations ------------------------------------------------------------------

/// What is to happen to the requests of one simulated thread.
#[derive(Clone, Copy)]
pub struct Scarcity {
    /// 0 nothing; 1 one request fails; 2 it and all later ones fail; 3 all of at least `size` bytes fail
    pub mode: u8,
    /// requests still to be granted
    pub left: u64,
    pub size: usize,
    /// requests refused so far
    pub refused: u64,
}
const PLENTY: Scarcity = Scarcity { mode: 0, left: 0, size: 0, refused: 0 };
static mut SCARCE: [Scarcity; crate::sched::MAXT] = [PLENTY; crate::sched::MAXT];
static SCARCITY: AtomicBool = AtomicBool::new(false);

/// From here on, requests of the calling simulated thread are subject to this
/// (those made by the harness excepted).
pub fn scarcity(mode: u8, left: u64, size: usize) {
    unsafe { SCARCE[crate::sched::current()] = Scarcity { mode, left, size, refused: 0 } }
    if mode != 0 {
        SCARCITY.store(true, Relaxed);
    }
}
/// Has a request of this thread just been refused?
pub fn scarce() -> bool {
    SCARCITY.load(Relaxed) && unsafe { SCARCE[crate::sched::current()].refused > 0 }
}
/// Back to plenty; how many requests were refused?
pub fn plenty() -> u64 {
    unsafe {
        let s = &mut SCARCE[crate::sched::current()];
        let n = s.refused;
        *s = PLENTY;
        n
    }
}
#[inline]
fn refuse(size: usize) -> bool {
    SCARCITY.load(Relaxed) && refuse_slow(size)
}
#[cold]
fn refuse_slow(size: usize) -> bool {
    if !crate::sched::observed() {
        return false;
    }
    let s = unsafe { &mut SCARCE[crate::sched::current()] };
    let no = match s.mode {
        0 => false,
        RECORD => {
            s.refused += 1;
            unsafe { record(site()) };
            return false;
        }
        3 => size >= s.size,
        _ if s.left > 0 => {
            s.left -= 1;
            false
        }
        1 => {
            s.mode = 0;
            true
        }
        _ => true,
    };
    if no {
        s.refused += 1;
        crate::shm::stat("alloc_failure");
    }
    no
}

/// Mode: refuse nothing, note where each request comes from.
pub const RECORD: u8 = 9;
const SITES: usize = 1 << 20;
static mut LOG: *mut u32 = ptr::null_mut();
static mut LOGN: usize = 0;

static mut OWN: &[(usize, usize)] = &[];
/// Address ranges (sorted, disjoint) of the functions of the library itself.
pub fn set_own_code(r: &'static [(usize, usize)]) {
    unsafe { OWN = r }
}
/// Which code asks for memory: a hash of the innermost return addresses, with
/// the top bit set if the library itself is not far.
#[inline(never)]
unsafe fn site() -> u32 {
    let mut fp: usize;
    core::arch::asm!("mov {}, rbp", out(reg) fp, options(nomem, nostack, preserves_flags));
    let low = &fp as *const usize as usize;
    let mut prev = low;
    let mut h = 0u64;
    let top = low / crate::sched::STACK_STRIDE * crate::sched::STACK_STRIDE + crate::sched::STACK_SIZE;
    let mut own = false;
    for i in 0..7 {
        if fp <= prev || fp & 7 != 0 || fp > low + (64 << 10) || fp + 16 > top {
            break;
        }
        let ip = *((fp + 8) as *const usize);
        if i < 5 {
            let k = OWN.partition_point(|x| x.0 <= ip);
            own |= k > 0 && ip < OWN[k - 1].1;
        }
        h = crate::rng::mix2(h, ip as u64);
        prev = fp;
        fp = *(fp as *const usize);
    }
    (h as u32) >> 1 | (own as u32) << 31
}
unsafe fn record(h: u32) {
    if LOG.is_null() {
        let p = crate::sys::syscall6(
            libc::SYS_mmap,
            0,
            SITES * 4,
            (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize,
            usize::MAX,
            0,
        );
        assert!(p > 0);
        LOG = p as *mut u32;
    }
    if LOGN < SITES {
        *LOG.add(LOGN) = h;
        LOGN += 1;
    }
}
/// The requests recorded since the last call.
pub fn recorded() -> &'static [u32] {
    unsafe {
        let n = LOGN;
        LOGN = 0;
        if n == 0 {
            return &[];
        }
        core::slice::from_raw_parts(LOG, n)
    }
}

fn class(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = (size.max(1) + 15) / 16;
        (c - 1, c * 16)
    } else {
        // four steps per power of two
        let s = size - 1;
        let k = 63 - s.leading_zeros() as usize; // 2^k <= s
        let q = (s >> (k - 2)) & 3;
        let bytes = (1usize << k) + ((q + 1) << (k - 2));
        (64 + (k - 10) * 4 + q, bytes)
    }
}

struct Guard;
fn lock() -> Guard {
    while LOCK.swap(true, Acquire) {
        core::hint::spin_loop();
    }
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Release);
    }
}

unsafe fn init() {
    let p = crate::sys::syscall6(
        libc::SYS_mmap,
        BASE,
        SIZE,
        (libc::PROT_READ | libc::PROT_WRITE) as usize,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as usize,
        usize::MAX,
        0,
    );
    if p as usize != BASE {
        let m = b"simrt: cannot map the arena\n";
        crate::sys::syscall3(libc::SYS_write, 2, m.as_ptr() as usize, m.len());
        crate::sys::syscall3(libc::SYS_exit_group, 97, 0, 0);
    }
    // cheap forks: few page table entries for the state of a zygote (a hint; errors do not matter)
    for (r, _) in [(1, 0), (2, 0)] {
        if r == 1 || HUGE_CHILD {
            crate::sys::syscall3(libc::SYS_madvise, BASE + r * RSIZE, RSIZE, libc::MADV_HUGEPAGE as usize);
        }
    }
    INIT = true;
}
const HUGE_CHILD: bool = false;

/// Direct allocations to region `r`; returns the previous one.
pub fn enter(r: usize) -> usize {
    let _g = lock();
    unsafe {
        let o = CUR;
        CUR = r;
        o
    }
}

unsafe fn take(size: usize, align: usize, zero: bool) -> *mut u8 {
    let size = if align > 16 { size + align } else { size };
    let (c, bytes) = class(size);
    let _g = lock();
    if !INIT {
        init();
    }
    if c >= NCLASS {
        return ptr::null_mut();
    }
    LIVE.fetch_add(bytes as u64, Relaxed);
    BLOCKS.fetch_add(1, Relaxed);
    ALLOCS.fetch_add(1, Relaxed);
    let r = CUR;
    let mut p = FREE[r][c];
    if !p.is_null() {
        // the link to the block
        let mut link: *mut *mut u8 = &raw mut FREE[r][c];
        if bytes >= EXACT && MODE.load(Relaxed) & 4 != 0 {
            let (mut l, mut best) = (link, ptr::null_mut::<*mut u8>());
            for _ in 0..400 {
                let q = *l;
                if q.is_null() {
                    break;
                }
                if *(q as *mut usize).add(1) == size && (best.is_null() || q < *best) {
                    best = l;
                }
                l = q as *mut *mut u8;
            }
            if !best.is_null() {
                link = best;
            }
        }
        p = *link;
        *link = *(p as *mut *mut u8);
        if zero {
            ptr::write_bytes(p, 0, bytes);
        }
        mark(p, bytes);
        return p;
    }
    let p = NEXT[r];
    if p + bytes > BASE + (r + 1) * RSIZE {
        return ptr::null_mut();
    }
    NEXT[r] = p + bytes;
    mark(p as *mut u8, bytes);
    p as *mut u8
}

// Blocks with alignment above 16 carry their true start just before them.
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return ptr::null_mut();
        }
        let p = take(l.size(), l.align(), false);
        fix(p, l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return ptr::null_mut();
        }
        let p = take(l.size(), l.align(), true);
        fix(p, l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (p, size) = if l.align() > 16 {
            (*(p as *mut *mut u8).sub(1), l.size() + l.align())
        } else {
            (p, l.size())
        };
        let (c, bytes) = class(size);
        let mode = MODE.load(Relaxed);
        if mode & 1 != 0 {
            ptr::write_bytes(p, 0xd5, bytes.min(4096));
        }
        let _g = lock();
        LIVE.fetch_sub(bytes as u64, Relaxed);
        unmark(p, bytes);
        BLOCKS.fetch_sub(1, Relaxed);
        if mode & 2 == 0 {
            let r = (p as usize - BASE) / RSIZE;
            *(p as *mut *mut u8) = FREE[r][c];
            *(p as *mut usize).add(1) = size;
            FREE[r][c] = p;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.align() <= 16 && class(l.size()).0 == class(new).0 {
            if new > l.size() && refuse(new) {
                return ptr::null_mut();
            }
            return p;
        }
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}

unsafe fn fix(p: *mut u8, align: usize) -> *mut u8 {
    if align <= 16 || p.is_null() {
        return p;
    }
    let a = (p as usize + 8 + align - 1) & !(align - 1);
    // room: size + align >= 8 + (align - 16)... p is 16-aligned, a - p <= align
    *((a as *mut *mut u8).sub(1)) = p;
    a as *mut u8
}

pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
