//! The scheduler. Real threads, one of which holds the token at any time; every
//! instrumented access, atomic operation, futex call, clock read and so on is a
//! point at which the seeded policy may move the token.
use crate::rng::{mix2, Rng};
use crate::shm::{self, Act};
use crate::sys;
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering::*};
use std::ffi::c_void;

pub const MAXT: usize = 48;
pub const STACK_BASE: usize = 0x2000_0000_0000;
pub const STACK_STRIDE: usize = 64 << 20;
/// The default of std::thread.
pub const STACK_SIZE: usize = 2 << 20;

// event kinds
pub const K_READ: u8 = 0;
pub const K_WRITE: u8 = 1;
pub const K_LOAD: u8 = 2;
pub const K_STORE: u8 = 3;
pub const K_RMW: u8 = 4;
pub const K_FENCE: u8 = 5;
pub const K_FWAIT: u8 = 6;
pub const K_FWAKE: u8 = 7;
pub const K_SYS: u8 = 8;

// recorded action kinds
pub const A_PREEMPT: u32 = 1;
pub const A_FORCED: u32 = 2;
pub const A_SPURIOUS: u32 = 3;
pub const A_STALL: u32 = 4;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Blocked,
    Joining,
    Stalled,
    Finished,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    None = 0,
    Done = 1,
    Deadlock = 2,
    NoProgress = 3,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub seed: u64,
    /// 0 = script only, 1 = random, 2 = priorities with change points, 3 = round robin,
    /// 4 = priorities, lowered where the probabilities say so
    pub policy: u8,
    /// probabilities in 1/65536 of a preemption at: hot shared events, shared loads, any event
    pub p_hot: u32,
    pub p_load: u32,
    pub p_any: u32,
    /// hot events count as such only where the hash of the address & mask == sel
    pub mask: u32,
    pub sel: u32,
    /// priority change points (global event numbers), ascending
    pub changes: Vec<u64>,
    pub quantum: u64,
    /// 1/65536
    pub p_spurious: u32,
    /// (thread, local event, counts only hot events, resume rule: 0 never, 1 when the rest is done or stuck)
    pub stall: Option<(u16, u64, bool, u8)>,
    /// this thread runs alone until it is suspended, waits or ends; 0 = none
    pub first: u16,
    /// how long others may idle before a suspended thread that is to be resumed is
    pub patience: u32,
    /// the thread of which the places it passes are noted; 0 = none
    pub record: u16,
    pub soft_budget: u64,
    pub hard_budget: u64,
    pub script: Vec<Act>,
}

struct Thr {
    st: St,
    word: AtomicU32,
    events: u64,
    hot: u64,
    addr: usize,
    bits: u32,
    deadline: u64,
    timed_out: bool,
    seq: u64,
    nosched: u32,
    prio: i64,
    spin_addr: usize,
    spin_n: u32,
    cursor: usize,
    script: Vec<Act>,
    body: Option<Box<dyn FnOnce() + Send>>,
    c_start: Option<(extern "C" fn(*mut c_void) -> *mut c_void, usize)>,
    pthread: libc::pthread_t,
    rounds: u8,
}

impl Thr {
    const fn new() -> Thr {
        Thr {
            st: St::Unused,
            word: AtomicU32::new(0),
            events: 0,
            hot: 0,
            addr: 0,
            bits: 0,
            deadline: u64::MAX,
            timed_out: false,
            seq: 0,
            nosched: 0,
            prio: 0,
            spin_addr: 0,
            spin_n: 0,
            cursor: 0,
            script: Vec::new(),
            body: None,
            c_start: None,
            pthread: 0,
            rounds: 0,
        }
    }
}

pub struct Sched {
    thr: [Thr; MAXT],
    n: usize,
    cur: usize,
    total: u64,
    now: u64,
    hash: u64,
    rng: Rng,
    plan: Plan,
    fair: bool,
    next_change: usize,
    prio_low: i64,
    idle: u32,
    yields: u32,
    seq: u64,
    switches: u64,
    end: End,
    done: AtomicU32,
    key: libc::pthread_key_t,
    key_made: bool,
}

static mut S: Sched = Sched {
    thr: [const { Thr::new() }; MAXT],
    n: 1,
    cur: 0,
    total: 0,
    now: 0,
    hash: 0,
    rng: Rng::zero(),
    plan: Plan {
        seed: 0,
        policy: 0,
        p_hot: 0,
        p_load: 0,
        p_any: 0,
        mask: 0,
        sel: 0,
        changes: Vec::new(),
        quantum: 0,
        p_spurious: 0,
        stall: None,
        first: 0,
        patience: 0,
        record: 0,
        soft_budget: 0,
        hard_budget: 0,
        script: Vec::new(),
    },
    fair: false,
    next_change: 0,
    prio_low: 0,
    idle: 0,
    yields: 0,
    seq: 0,
    switches: 0,
    end: End::None,
    done: AtomicU32::new(0),
    key: 0,
    key_made: false,
};

pub static mut ACTIVE: bool = false;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
pub fn tid() -> usize {
    TID.with(|t| t.get()) as usize
}
#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

const NSHADOW: usize = 1 << 16;
static mut SHADOW: [u64; NSHADOW] = [0; NSHADOW];

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
fn is_static(addr: usize) -> bool {
    unsafe {
        addr >= core::ptr::addr_of!(__data_start) as usize && addr < core::ptr::addr_of!(_end) as usize
    }
}

/// 2 = hot, 1 = shared load, 0 = ordinary
#[inline]
fn classify(me: usize, kind: u8, addr: usize) -> u8 {
    match kind {
        K_STORE | K_RMW | K_FENCE | K_FWAIT | K_FWAKE | K_SYS => {
            touch(me, addr, true);
            2
        }
        K_LOAD => {
            if touch(me, addr, false) {
                2
            } else {
                1
            }
        }
        K_READ => {
            let c = touch(me, addr, false);
            if c {
                2
            } else if is_static(addr) {
                1
            } else {
                0
            }
        }
        _ => {
            if touch(me, addr, true) || is_static(addr) {
                2
            } else {
                0
            }
        }
    }
}

#[inline]
fn touch(me: usize, addr: usize, w: bool) -> bool {
    unsafe {
        let e = &mut SHADOW[(addr >> 3) & (NSHADOW - 1)];
        let tag = (addr >> 3) as u64;
        let old = *e;
        *e = (tag << 8) | ((me as u64) << 1) | w as u64;
        // a write stays visible as a write until someone else touches the word
        if old >> 8 == tag {
            let otid = ((old >> 1) & 0x7f) as usize;
            if otid != me {
                return w || old & 1 == 1;
            }
            *e |= old & 1;
        }
        false
    }
}

#[inline(always)]
pub fn event(kind: u8, addr: usize) {
    unsafe {
        if !ACTIVE {
            return;
        }
    }
    let me = tid();
    if me == 0 {
        return;
    }
    event_slow(me, kind, addr);
}

fn norm(addr: usize) -> u64 {
    // everything the simulator places is at a fixed address; the rest is left out of the hash
    if is_static(addr) || (addr >= crate::alloc::BASE && addr < STACK_BASE + MAXT * STACK_STRIDE) {
        addr as u64
    } else {
        0
    }
}

#[inline(never)]
fn event_slow(me: usize, kind: u8, addr: usize) {
    unsafe {
        let s = &mut S;
        let t = &mut s.thr[me];
        if t.nosched > 0 {
            return;
        }
        t.events += 1;
        s.total += 1;
        s.now += 1;
        s.hash = (s.hash.rotate_left(5) ^ norm(addr) ^ ((kind as u64) << 56) ^ ((me as u64) << 48))
            .wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let class = classify(me, kind, addr);
        if class == 2 {
            t.hot += 1;
        }
        if s.plan.record as usize == me {
            note(t.events, class);
        }
        // stall?
        if let Some((v, at, hot_only, _)) = s.plan.stall {
            if v as usize == me && t.st == St::Runnable {
                let c = if hot_only { t.hot } else { t.events };
                if c >= at && (!hot_only || class == 2) {
                    let r = s.plan.stall.unwrap().3;
                    if r == 0 {
                        s.plan.stall = None;
                    } else {
                        s.plan.stall = Some((u16::MAX, at, hot_only, r));
                    }
                    t.st = St::Stalled;
                    shm::count(if r == 0 { 3 } else { 4 }, 1);
                    record(me, 0, A_STALL);
                    forced(me);
                    return;
                }
            }
        }
        // spin detection
        if kind == K_LOAD || kind == K_RMW {
            if t.spin_addr == addr {
                t.spin_n += 1;
                if t.spin_n >= 48 {
                    t.spin_n = 0;
                    shm::count(38, 1);
                    yield_from(me);
                    return;
                }
            } else {
                t.spin_addr = addr;
                t.spin_n = 0;
            }
        } else if kind == K_STORE || kind == K_WRITE {
            t.spin_n = 0;
        }
        if s.total >= s.plan.soft_budget {
            if s.total >= s.plan.hard_budget {
                finish(End::NoProgress);
                park_forever();
            }
            s.fair = true;
        }
        if s.fair {
            if s.total % 64 == 0 {
                let n = rr_next(me);
                if n != me {
                    switch(me, n);
                }
            }
            return;
        }
        if s.plan.first as usize == me {
            return;
        }
        match s.plan.policy {
            0 => {
                if let Some(n) = scripted(me, A_PREEMPT) {
                    if n < s.n && s.thr[n].st == St::Runnable && n != me {
                        shm::count(0, 1);
                        record(me, n, A_PREEMPT);
                        switch(me, n);
                    }
                }
            }
            1 | 4 => {
                let p = match class {
                    2 if s.plan.mask != 0 && (norm(addr) >> 3).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40 & s.plan.mask as u64 != s.plan.sel as u64 => 0,
                    2 => s.plan.p_hot,
                    1 => s.plan.p_load,
                    _ => s.plan.p_any,
                };
                if p > 0 && (s.rng.next() & 0xffff) < p as u64 {
                    let n = if s.plan.policy == 4 {
                        s.prio_low -= 1;
                        s.thr[me].prio = s.prio_low;
                        prio_next()
                    } else {
                        random_next(me)
                    };
                    if n != me {
                        shm::count(0, 1);
                        record(me, n, A_PREEMPT);
                        switch(me, n);
                    }
                }
            }
            2 => {
                if s.next_change < s.plan.changes.len() && s.total >= s.plan.changes[s.next_change] {
                    s.next_change += 1;
                    s.prio_low -= 1;
                    s.thr[me].prio = s.prio_low;
                    let n = prio_next();
                    if n != me {
                        shm::count(0, 1);
                        record(me, n, A_PREEMPT);
                        switch(me, n);
                    }
                }
            }
            _ => {
                if s.plan.quantum > 0 && s.total % s.plan.quantum == 0 {
                    let n = rr_next(me);
                    if n != me {
                        shm::count(0, 1);
                        record(me, n, A_PREEMPT);
                        switch(me, n);
                    }
                }
            }
        }
    }
}

// ---- places passed ------------------------------------------------------------------------

/// Where in the code one thread has been: a hash of the innermost return
/// addresses, the first and the last event there, and its class.
#[derive(Clone, Copy)]
pub struct Site {
    hash: u64,
    pub first: u64,
    pub last: u64,
    pub class: u8,
}
const NSITES: usize = 1 << 15;
static mut SITES: *mut Site = core::ptr::null_mut();
static mut SITES_N: usize = 0;

#[inline(never)]
unsafe fn note(at: u64, class: u8) {
    let mut fp: usize;
    core::arch::asm!("mov {}, rbp", out(reg) fp, options(nomem, nostack, preserves_flags));
    let low = &fp as *const usize as usize;
    let top = low / STACK_STRIDE * STACK_STRIDE + STACK_SIZE;
    let mut prev = low;
    let mut h = 1u64;
    for _ in 0..8 {
        if fp <= prev || fp & 7 != 0 || fp > low + (64 << 10) || fp + 16 > top {
            break;
        }
        h = mix2(h, *((fp + 8) as *const usize) as u64);
        prev = fp;
        fp = *(fp as *const usize);
    }
    if SITES.is_null() {
        let p = sys::syscall6(
            libc::SYS_mmap,
            0,
            NSITES * core::mem::size_of::<Site>(),
            (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize,
            usize::MAX,
            0,
        );
        assert!(p > 0);
        SITES = p as *mut Site;
    }
    let mut i = h as usize & (NSITES - 1);
    loop {
        let s = &mut *SITES.add(i);
        if s.hash == h {
            s.last = at;
            s.class = s.class.max(class);
            return;
        }
        if s.hash == 0 {
            if SITES_N < NSITES / 2 {
                SITES_N += 1;
                *s = Site { hash: h, first: at, last: at, class };
            }
            return;
        }
        i = (i + 1) & (NSITES - 1);
    }
}
/// The places noted in the last run, in the order in which they were first met.
pub fn sites() -> Vec<Site> {
    let mut v = Vec::new();
    unsafe {
        if !SITES.is_null() {
            for i in 0..NSITES {
                let s = *SITES.add(i);
                if s.hash != 0 {
                    v.push(s);
                }
            }
        }
    }
    v.sort_by_key(|s| s.first);
    v
}

unsafe fn record(me: usize, next: usize, kind: u32) {
    let sh = &mut *shm::SHM;
    let i = sh.n_act.load(Relaxed) as usize;
    if i < shm::NACT {
        sh.act[i] = Act { at: S.thr[me].events, tid: me as u16, next: next as u16, kind };
    }
    sh.n_act.store(i as u64 + 1, Relaxed);
}

unsafe fn scripted(me: usize, kind: u32) -> Option<usize> {
    let t = &mut S.thr[me];
    while t.cursor < t.script.len() && t.script[t.cursor].at < t.events {
        t.cursor += 1;
    }
    if t.cursor < t.script.len() {
        let a = t.script[t.cursor];
        if a.at == t.events && a.kind == kind {
            t.cursor += 1;
            return Some(a.next as usize);
        }
    }
    None
}

unsafe fn runnable() -> ([u16; MAXT], usize) {
    let mut v = [0u16; MAXT];
    let mut k = 0;
    for i in 1..S.n {
        if S.thr[i].st == St::Runnable {
            v[k] = i as u16;
            k += 1;
        }
    }
    (v, k)
}
unsafe fn random_next(_me: usize) -> usize {
    let (v, k) = runnable();
    v[S.rng.below(k as u64) as usize] as usize
}
unsafe fn prio_next() -> usize {
    let (v, k) = runnable();
    let mut best = v[0] as usize;
    for i in 1..k {
        let c = v[i] as usize;
        if S.thr[c].prio > S.thr[best].prio {
            best = c;
        }
    }
    best
}
unsafe fn rr_next(me: usize) -> usize {
    for d in 1..S.n {
        let i = (me - 1 + d) % (S.n - 1) + 1;
        if S.thr[i].st == St::Runnable {
            return i;
        }
    }
    me
}

/// A spinning or yielding thread gives way.
unsafe fn yield_from(me: usize) {
    let s = &mut S;
    if s.total >= s.plan.soft_budget {
        if s.total >= s.plan.hard_budget {
            finish(End::NoProgress);
            park_forever();
        }
        s.fair = true;
    }
    s.plan.first = 0;
    let (v, k) = runnable();
    // virtual time passes for sleepers while everyone else spins
    s.now += 1000;
    expire();
    s.yields += 1;
    if s.yields > s.plan.patience + 5000 {
        resume_stalled();
    }
    if k <= 1 && v[0] as usize == me {
        // Nobody to give way to: time passes. A suspended initialiser may be what we wait for.
        s.idle += 1;
        if s.idle > s.plan.patience {
            resume_stalled();
        }
        let (_, k) = runnable();
        if k <= 1 {
            s.total += 100;
            return;
        }
    }
    let n = match s.plan.policy {
        _ if s.fair => rr_next(me),
        0 => match scripted(me, A_FORCED) {
            Some(n) if n < s.n && s.thr[n].st == St::Runnable => n,
            _ => rr_next(me),
        },
        2 | 4 => {
            s.prio_low -= 1;
            s.thr[me].prio = s.prio_low;
            prio_next()
        }
        3 => rr_next(me),
        _ => random_next(me),
    };
    record(me, n, A_FORCED);
    if n != me {
        switch(me, n);
    }
}

unsafe fn expire() {
    for i in 1..S.n {
        let now = S.now;
        let t = &mut S.thr[i];
        if t.st == St::Blocked && t.deadline <= now {
            t.st = St::Runnable;
            t.timed_out = true;
            t.deadline = u64::MAX;
        }
    }
}

unsafe fn resume_stalled() -> bool {
    let mut any = false;
    if let Some((v, _, _, r)) = S.plan.stall {
        if v == u16::MAX && r == 1 {
            for i in 1..S.n {
                if S.thr[i].st == St::Stalled {
                    S.thr[i].st = St::Runnable;
                    any = true;
                }
            }
            if any {
                S.plan.stall = None;
            }
        }
    }
    any
}

/// The current thread cannot continue: choose another. Returns when it may.
unsafe fn forced(me: usize) {
    let s = &mut S;
    s.plan.first = 0;
    loop {
        let (_, k) = runnable();
        if k > 0 {
            break;
        }
        // those who look again from time to time are kept waiting for long, not for ever
        if s.idle > s.plan.patience + 50 && resume_stalled() {
            continue;
        }
        // jump to the next deadline
        let mut dl = u64::MAX;
        for i in 1..s.n {
            if s.thr[i].st == St::Blocked {
                dl = dl.min(s.thr[i].deadline);
            }
        }
        if dl != u64::MAX {
            s.now = s.now.max(dl);
            s.idle += 1;
            shm::count(35, 1);
            expire();
            continue;
        }
        if resume_stalled() {
            continue;
        }
        let mut stuck = false;
        for i in 1..s.n {
            if matches!(s.thr[i].st, St::Blocked | St::Joining) {
                stuck = true;
            }
        }
        finish(if stuck { End::Deadlock } else { End::Done });
        if s.thr[me].st == St::Finished {
            return;
        }
        park_forever();
    }
    let n = match s.plan.policy {
        _ if s.fair => rr_next(me),
        0 => match scripted(me, A_FORCED) {
            Some(n) if n < s.n && s.thr[n].st == St::Runnable => n,
            _ => {
                let (v, _) = runnable();
                v[0] as usize
            }
        },
        2 | 4 => prio_next(),
        3 => rr_next(me),
        _ => random_next(me),
    };
    record(me, n, A_FORCED);
    if n == me {
        return;
    }
    if s.thr[me].st == St::Finished {
        give(n);
    } else {
        switch(me, n);
    }
}

unsafe fn give(n: usize) {
    S.switches += 1;
    S.cur = n;
    let w = &S.thr[n].word;
    w.store(1, SeqCst);
    sys::futex_wake(w as *const _ as *const u32);
}
unsafe fn switch(me: usize, n: usize) {
    give(n);
    wait_token(me);
}
unsafe fn wait_token(me: usize) {
    let w = &S.thr[me].word;
    while w.load(SeqCst) == 0 {
        sys::futex_wait(w as *const _ as *const u32, 0);
    }
    w.store(0, SeqCst);
}
unsafe fn finish(e: End) {
    S.end = e;
    S.done.store(1, SeqCst);
    sys::futex_wake(&S.done as *const _ as *const u32);
}
unsafe fn park_forever() -> ! {
    let x = AtomicU32::new(0);
    loop {
        sys::futex_wait(&x as *const _ as *const u32, 0);
    }
}

// ---- seams used by the C library shims -------------------------------------------------

pub fn in_sim() -> bool {
    active() && tid() != 0
}

pub unsafe fn futex_wait(addr: *const u32, val: u32, bits: u32, deadline: u64) -> isize {
    let me = tid();
    event(K_FWAIT, addr as usize);
    if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        return -(libc::EAGAIN as isize);
    }
    let s = &mut S;
    let spurious = match s.plan.policy {
        0 => scripted(me, A_SPURIOUS).is_some(),
        _ => s.plan.p_spurious > 0 && (s.rng.next() & 0xffff) < s.plan.p_spurious as u64,
    };
    if spurious {
        shm::count(2, 1);
        record(me, 0, A_SPURIOUS);
        return 0;
    }
    shm::count(1, 1);
    s.seq += 1;
    let t = &mut s.thr[me];
    t.addr = addr as usize;
    t.bits = bits;
    t.deadline = deadline;
    t.timed_out = false;
    t.seq = s.seq;
    t.st = St::Blocked;
    forced(me);
    let t = &mut S.thr[me];
    t.addr = 0;
    if t.timed_out {
        t.timed_out = false;
        -(libc::ETIMEDOUT as isize)
    } else {
        0
    }
}

pub unsafe fn futex_wake(addr: *const u32, n: u32, bits: u32) -> isize {
    event(K_FWAKE, addr as usize);
    let mut woken = 0;
    while woken < n {
        let mut best = 0;
        for i in 1..S.n {
            let t = &S.thr[i];
            if t.st == St::Blocked && t.addr == addr as usize && t.bits & bits != 0 && (best == 0 || t.seq < S.thr[best].seq) {
                best = i;
            }
        }
        if best == 0 {
            break;
        }
        S.thr[best].st = St::Runnable;
        S.thr[best].deadline = u64::MAX;
        S.thr[best].addr = 0;
        woken += 1;
    }
    woken as isize
}

pub unsafe fn sleep_until(deadline: u64) {
    let me = tid();
    event(K_SYS, 0);
    shm::count(9, 1);
    S.seq += 1;
    let t = &mut S.thr[me];
    t.addr = 1;
    t.bits = 0;
    t.deadline = deadline;
    t.timed_out = false;
    t.st = St::Blocked;
    forced(me);
    S.thr[me].timed_out = false;
}

pub unsafe fn yield_now() {
    let me = tid();
    event(K_SYS, 0);
    shm::count(10, 1);
    yield_from(me);
}

pub fn sys_event() {
    event(K_SYS, 0);
}

pub fn now() -> u64 {
    unsafe { S.now }
}
pub fn advance(ns: u64) {
    unsafe { S.now += ns }
}

/// Suspend scheduling points for the current thread (harness code).
pub struct Quiet(bool);
pub fn quiet() -> Quiet {
    let on = in_sim();
    if on {
        unsafe { S.thr[tid()].nosched += 1 }
    }
    Quiet(on)
}
impl Drop for Quiet {
    fn drop(&mut self) {
        if self.0 && in_sim() {
            unsafe { S.thr[tid()].nosched -= 1 }
        }
    }
}

/// The simulated thread this is, 0 if none.
pub fn current() -> usize {
    tid()
}
/// Is this code of a simulated thread, outside the harness?
pub fn observed() -> bool {
    in_sim() && unsafe { S.thr[tid()].nosched == 0 }
}

/// Events counted so far on the current simulated thread.
pub fn my_events() -> u64 {
    unsafe { S.thr[tid()].events }
}
pub fn total_events() -> u64 {
    unsafe { S.total }
}

// ---- threads -----------------------------------------------------------------------------

extern "C" fn key_dtor(p: *mut c_void) {
    unsafe {
        let me = p as usize;
        // last code of the thread: hand the token over
        if !ACTIVE {
            return;
        }
        // std has destructors of the same kind, which put themselves off: come after them
        S.thr[me].rounds += 1;
        if S.thr[me].rounds < 4 {
            libc::pthread_setspecific(S.key, p);
            return;
        }
        S.thr[me].st = St::Finished;
        for i in 1..S.n {
            if S.thr[i].st == St::Joining && S.thr[i].addr == me {
                S.thr[i].st = St::Runnable;
                S.thr[i].addr = 0;
            }
        }
        S.thr[me].nosched = 1;
        TID.with(|t| t.set(0));
        forced(me);
    }
}

extern "C" fn start(p: *mut c_void) -> *mut c_void {
    unsafe {
        let me = p as usize;
        libc::pthread_setspecific(S.key, p);
        wait_token(me);
        TID.with(|t| t.set(me as u32));
        if let Some((f, a)) = S.thr[me].c_start.take() {
            return f(a as *mut c_void);
        }
        let b = S.thr[me].body.take().unwrap();
        b();
        core::ptr::null_mut()
    }
}

unsafe fn make_thread(i: usize) {
    let base = STACK_BASE + i * STACK_STRIDE;
    let size = STACK_SIZE;
    let p = sys::syscall6(
        libc::SYS_mmap,
        base,
        size,
        (libc::PROT_READ | libc::PROT_WRITE) as usize,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED) as usize,
        usize::MAX,
        0,
    );
    assert_eq!(p as usize, base);
    let mut attr: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    libc::pthread_attr_setstack(&mut attr, base as *mut c_void, size);
    let mut h: libc::pthread_t = 0;
    let r = crate::libcshim::real_pthread_create(&mut h, &attr, start, i as *mut c_void);
    assert_eq!(r, 0);
    S.thr[i].pthread = h;
}

/// `pthread_create` called by simulated code.
pub unsafe fn spawn_c(h: *mut libc::pthread_t, f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void) -> i32 {
    let s = &mut S;
    if s.n >= MAXT {
        return libc::EAGAIN;
    }
    shm::count(11, 1);
    let i = s.n;
    s.thr[i].c_start = Some((f, a as usize));
    s.thr[i].st = St::Runnable;
    s.prio_low -= 1;
    s.thr[i].prio = s.prio_low;
    s.n += 1;
    make_thread(i);
    *h = s.thr[i].pthread;
    event(K_SYS, 0);
    0
}

/// `pthread_join` called by simulated code: block in the simulation first.
pub unsafe fn join_c(h: libc::pthread_t) {
    let me = tid();
    event(K_SYS, 0);
    for i in 1..S.n {
        if S.thr[i].pthread == h && S.thr[i].st != St::Finished {
            S.thr[me].st = St::Joining;
            S.thr[me].addr = i;
            forced(me);
            return;
        }
    }
}

pub struct Outcome {
    pub end: End,
    pub events: u64,
    pub switches: u64,
    pub hash: u64,
    pub per_thread: Vec<(u64, u64, bool)>,
    pub sim_ns: u64,
}

/// Run the bodies as simulated threads 1..=n until all that can finish have finished.
pub fn run(plan: Plan, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    unsafe {
        let s = &mut S;
        if !s.key_made {
            libc::pthread_key_create(&mut s.key, Some(key_dtor));
            s.key_made = true;
        }
        let n = bodies.len();
        assert!(n < MAXT / 2);
        s.n = n + 1;
        s.total = 0;
        s.hash = 0;
        s.rng = Rng::new(plan.seed);
        s.fair = false;
        s.next_change = 0;
        s.prio_low = 0;
        s.idle = 0;
        s.yields = 0;
        s.switches = 0;
        s.end = End::None;
        s.done.store(0, SeqCst);
        for (i, b) in bodies.into_iter().enumerate() {
            let i = i + 1;
            s.thr[i] = Thr::new();
            s.thr[i].body = Some(b);
            s.thr[i].st = St::Runnable;
            s.thr[i].prio = 1 + (mix2(plan.seed ^ 0x55, i as u64) >> 8) as i64;
            s.thr[i].script = plan.script.iter().copied().filter(|a| a.tid as usize == i).collect();
        }
        for i in n + 1..MAXT {
            s.thr[i] = Thr::new();
            s.thr[i].script = plan.script.iter().copied().filter(|a| a.tid as usize == i).collect();
        }
        // the very first choice is recorded as thread 0's
        let first = match plan.policy {
            0 => plan.script.iter().find(|a| a.tid == 0).map(|a| a.next as usize).filter(|x| *x >= 1 && *x <= n).unwrap_or(1),
            1 => s.rng.below(n as u64) as usize + 1,
            2 | 4 => {
                let mut b = 1;
                for i in 2..=n {
                    if s.thr[i].prio > s.thr[b].prio {
                        b = i;
                    }
                }
                b
            }
            _ => 1,
        };
        let first = match plan.first as usize {
            f if f >= 1 && f <= n => f,
            _ => first,
        };
        s.plan = plan;
        if s.plan.record != 0 {
            SITES = core::ptr::null_mut();
            SITES_N = 0;
        }
        SHADOW = [0; NSHADOW];
        for i in 1..=n {
            make_thread(i);
        }
        record(0, first, A_FORCED);
        ACTIVE = true;
        give(first);
        while s.done.load(SeqCst) == 0 {
            sys::futex_wait(&s.done as *const _ as *const u32, 0);
        }
        ACTIVE = false;
        let mut per = Vec::new();
        for i in 1..s.n {
            per.push((s.thr[i].events, s.thr[i].hot, s.thr[i].st == St::Finished));
        }
        if s.end == End::Done {
            for i in 1..=n {
                if s.thr[i].st == St::Finished {
                    libc::pthread_join(s.thr[i].pthread, core::ptr::null_mut());
                }
            }
        }
        let sh = shm::get();
        sh.hash.store(s.hash, Relaxed);
        sh.events.fetch_add(s.total, Relaxed);
        sh.switches.fetch_add(s.switches, Relaxed);
        sh.sched_end.store(s.end as u64, Relaxed);
        Outcome { end: s.end, events: s.total, switches: s.switches, hash: s.hash, per_thread: per, sim_ns: s.now }
    }
}

/// The actions recorded so far in this process's shared page.
pub fn actions() -> Vec<Act> {
    let sh = shm::get();
    let n = (sh.n_act.load(Relaxed) as usize).min(shm::NACT);
    sh.act[..n].to_vec()
}
