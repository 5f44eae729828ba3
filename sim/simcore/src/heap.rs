//! The simulated heap. Code under test allocates from an arena where every block is surrounded by
//! inaccessible pages (or canaries), starts filled with a seeded pattern, is placed with a seeded
//! offset, becomes inaccessible when freed, is counted, and can be made to fail.
//! The harness itself allocates from the system allocator.
use crate::shared;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::*};

thread_local! {
    /// 0: harness; 1: code under test; 2: tracked harness data (same arena, never fails, not charged)
    static MODE: Cell<u8> = const { Cell::new(0) };
}
pub const HARNESS: u8 = 0;
pub const SUT: u8 = 1;
pub const TRACKED: u8 = 2;

#[inline(always)]
pub fn mode() -> u8 {
    MODE.with(|m| m.get())
}
#[inline(always)]
pub fn set_mode(v: u8) -> u8 {
    MODE.with(|m| m.replace(v))
}
pub struct ModeGuard(u8);
impl ModeGuard {
    pub fn new(m: u8) -> Self {
        ModeGuard(set_mode(m))
    }
}
impl Drop for ModeGuard {
    fn drop(&mut self) {
        set_mode(self.0);
    }
}
/// Runs harness code (recorders, oracles, sources) in the middle of code under test.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _g = ModeGuard::new(HARNESS);
    f()
}
/// Allocates inputs for the code under test in the checked arena.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let _g = ModeGuard::new(TRACKED);
    f()
}

const PAGE: usize = 4096;
const GUARD_BASE: usize = 0x2000_0000_0000;
const GUARD_SIZE: usize = 1 << 40;
const PLAIN_BASE: usize = 0x2200_0000_0000;
const PLAIN_SIZE: usize = 1 << 37;
const TAB: usize = 1 << 22;
const MAX_GUARDED: usize = 6000;
/// Code that allocates a lot gets guard pages for the first blocks only,
const MAX_GUARDED_EVER: u32 = 60_000;
/// and small blocks freed long ago come back once there were this many.
const RECYCLE: usize = 600_000;
const SMALL: usize = 1024;
const CANARY: u8 = 0xC5;

#[repr(C)]
#[derive(Clone, Copy)]
struct Ent {
    addr: usize,
    size: usize,
    align: u32,
    /// 1 live guarded, 2 live plain, 3 freed
    state: u32,
    base: usize,
    pages: u32,
    seq: u32,
    /// the slot, plus one, of the block of this size freed after this one
    next: u32,
}
/// Freed blocks by size and alignment, the oldest first.
#[derive(Clone, Copy)]
struct Queue {
    head: u32,
    tail: u32,
}
static mut FREED: [[Queue; 5]; SMALL + 1] = [[Queue { head: 0, tail: 0 }; 5]; SMALL + 1];
#[allow(static_mut_refs)]
unsafe fn queue(size: usize, align: usize) -> Option<&'static mut Queue> {
    if size > SMALL || align > 16 {
        return None;
    }
    Some(&mut FREED[size][align.trailing_zeros() as usize])
}

pub struct Cfg {
    /// 0: blocks end at the guard page, 1: blocks start after it, 2: no guard pages, canaries only
    pub placement: AtomicU32,
    pub fill: AtomicU64,
    pub slack: AtomicBool,
    /// Fail this allocation (counted from the last arm()); 0 = never.
    pub fail_at: AtomicU64,
    pub fail_min: AtomicUsize,
}
pub static CFG: Cfg = Cfg {
    placement: AtomicU32::new(2),
    fill: AtomicU64::new(0),
    slack: AtomicBool::new(false),
    fail_at: AtomicU64::new(0),
    fail_min: AtomicUsize::new(0),
};
static LOCK: AtomicBool = AtomicBool::new(false);
static TABLE: AtomicUsize = AtomicUsize::new(0);
/// slots of the table in the order they were filled
static ORDER: AtomicUsize = AtomicUsize::new(0);
static GUARD_TOP: AtomicUsize = AtomicUsize::new(0);
static PLAIN_TOP: AtomicUsize = AtomicUsize::new(0);
static N_GUARDED: AtomicUsize = AtomicUsize::new(0);
static GUARDED_EVER: AtomicU32 = AtomicU32::new(0);
static SEQ: AtomicU32 = AtomicU32::new(0);
static N_ENT: AtomicUsize = AtomicUsize::new(0);

// accounting
static LIVE_N: AtomicU64 = AtomicU64::new(0);
static LIVE_B: AtomicU64 = AtomicU64::new(0);
static PEAK_B: AtomicU64 = AtomicU64::new(0);
static TOTAL_N: AtomicU64 = AtomicU64::new(0);
static TOTAL_B: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);
static ARMED: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);

/// Larger single requests of code under test are refused like a full machine would.
pub const HUGE: usize = 1 << 30;

pub fn init() {
    unsafe {
        for (b, s) in [(GUARD_BASE, GUARD_SIZE), (PLAIN_BASE, PLAIN_SIZE)] {
            let p = libc::mmap(
                b as *mut _,
                s,
                if b == PLAIN_BASE { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE },
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert!(p as usize == b, "cannot reserve the simulated heap");
        }
        let t = libc::mmap(
            std::ptr::null_mut(),
            TAB * std::mem::size_of::<Ent>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(t != libc::MAP_FAILED);
        TABLE.store(t as usize, SeqCst);
        let o = libc::mmap(
            std::ptr::null_mut(),
            TAB * 4,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(o != libc::MAP_FAILED);
        ORDER.store(o as usize, SeqCst);
        GUARD_TOP.store(GUARD_BASE + PAGE, SeqCst);
        PLAIN_TOP.store(PLAIN_BASE + PAGE, SeqCst);
    }
}
fn lock() {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Release);
}
fn tab() -> *mut Ent {
    TABLE.load(Relaxed) as *mut Ent
}
fn slot_of(addr: usize) -> usize {
    (addr.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) & (TAB - 1)
}
unsafe fn insert(e: Ent) -> bool {
    if N_ENT.load(Relaxed) >= TAB - TAB / 8 {
        return false;
    }
    N_ENT.fetch_add(1, Relaxed);
    let mut i = slot_of(e.addr);
    loop {
        let p = tab().add(i);
        if (*p).addr == 0 {
            *p = e;
            *(ORDER.load(Relaxed) as *mut u32).add(N_ENT.load(Relaxed) - 1) = i as u32;
            return true;
        }
        i = (i + 1) & (TAB - 1);
    }
}
unsafe fn find(addr: usize) -> Option<&'static mut Ent> {
    let mut i = slot_of(addr);
    loop {
        let p = tab().add(i);
        if (*p).addr == 0 {
            return None;
        }
        if (*p).addr == addr {
            return Some(&mut *p);
        }
        i = (i + 1) & (TAB - 1);
    }
}
pub fn in_arena(a: usize) -> bool {
    (GUARD_BASE..GUARD_BASE + GUARD_SIZE).contains(&a) || (PLAIN_BASE..PLAIN_BASE + PLAIN_SIZE).contains(&a)
}

/// For the fault handler: which block an address is near. Lock-free best effort.
pub fn describe(a: usize) -> String {
    if !in_arena(a) {
        return if a < 65536 { "near null".into() } else { "outside the heap of the code under test".into() };
    }
    let mut best: Option<Ent> = None;
    for i in 0..N_ENT.load(Relaxed) {
        let e = unsafe { *tab().add(*(ORDER.load(Relaxed) as *const u32).add(i) as usize) };
        let (lo, hi) = (e.base.saturating_sub(PAGE), e.base + (e.pages as usize + 1) * PAGE);
        if a >= lo && a < hi {
            let dist = |x: &Ent| if a < x.addr { x.addr - a } else { a.saturating_sub(x.addr + x.size) };
            if best.map_or(true, |b| dist(&e) < dist(&b)) {
                best = Some(e);
            }
        }
    }
    match best {
        Some(e) if e.state == 3 => format!("inside or next to a freed block of {} bytes", e.size),
        Some(e) if a >= e.addr + e.size => format!("{} bytes past a block of {} bytes", a - e.addr - e.size, e.size),
        Some(e) if a < e.addr => format!("{} bytes before a block of {} bytes", e.addr - a, e.size),
        Some(e) => format!("inside a block of {} bytes", e.size),
        None => "in the heap of the code under test, near no block".into(),
    }
}

unsafe fn fill(p: *mut u8, n: usize, seq: u32) {
    let f = CFG.fill.load(Relaxed);
    let kind = (f & 7) as u8;
    match kind {
        0 => std::ptr::write_bytes(p, 0, n),
        1 => std::ptr::write_bytes(p, 0xFF, n),
        2 => std::ptr::write_bytes(p, 0x7F, n),
        _ => {
            // differs per block, so that two reads of uninitialised memory disagree
            let mut x = f ^ ((seq as u64) << 17) | 1;
            let mut i = 0;
            while i < n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let b = x.to_le_bytes();
                let k = (n - i).min(8);
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), k);
                i += k;
            }
        }
    }
}

/// A block of this size that was freed long ago.
unsafe fn again(size: usize, align: usize, seq: u32) -> Option<usize> {
    if N_ENT.load(Relaxed) < RECYCLE {
        return None;
    }
    let q = queue(size, align)?;
    if q.head == 0 {
        return None;
    }
    let e = &mut *tab().add(q.head as usize - 1);
    q.head = e.next;
    if q.head == 0 {
        q.tail = 0;
    }
    e.next = 0;
    e.state = 2;
    e.seq = seq;
    Some(e.addr)
}

unsafe fn arena_alloc(l: Layout, charge: bool) -> *mut u8 {
    let size = l.size();
    let align = l.align();
    if size > HUGE || LIVE_B.load(Relaxed) + size as u64 > 2 << 30 {
        if charge {
            REFUSED.fetch_add(1, Relaxed);
        }
        return std::ptr::null_mut();
    }
    lock();
    if charge {
        let k = ARMED.load(Relaxed) + 1;
        ARMED.store(k, Relaxed);
        let f = CFG.fail_at.load(Relaxed);
        if f != 0 && k >= f && size >= CFG.fail_min.load(Relaxed) {
            CFG.fail_at.store(0, Relaxed);
            FAILED.fetch_add(1, Relaxed);
            unlock();
            return std::ptr::null_mut();
        }
    }
    let seq = SEQ.load(Relaxed);
    SEQ.store(seq + 1, Relaxed);
    let placement = CFG.placement.load(Relaxed);
    let slack = if CFG.slack.load(Relaxed) && align == 1 { ((seq as usize).wrapping_mul(2654435761) >> 7) & 15 } else { 0 };
    let guarded = placement < 2 && N_GUARDED.load(Relaxed) < MAX_GUARDED && GUARDED_EVER.load(Relaxed) < MAX_GUARDED_EVER && align <= PAGE;
    let ptr;
    let pages = ((size + slack).max(1) + PAGE - 1) / PAGE;
    let base = GUARD_TOP.load(Relaxed);
    let guarded = guarded
        && base + (pages + 1) * PAGE <= GUARD_BASE + GUARD_SIZE
        && libc::mprotect(base as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) == 0;
    if guarded {
        GUARD_TOP.store(base + (pages + 1) * PAGE, Relaxed);
        let a = if placement == 0 { (base + pages * PAGE - size) & !(align - 1) } else { base + slack };
        std::ptr::write_bytes(base as *mut u8, CANARY, a - base);
        let end = a + size;
        std::ptr::write_bytes(end as *mut u8, CANARY, base + pages * PAGE - end);
        ptr = a;
        N_GUARDED.fetch_add(1, Relaxed);
        GUARDED_EVER.fetch_add(1, Relaxed);
        insert(Ent { addr: a, size, align: align as u32, state: 1, base, pages: pages as u32, seq, next: 0 });
    } else if let Some(a) = again(size, align, seq) {
        ptr = a;
    } else {
        let top = PLAIN_TOP.load(Relaxed);
        let a = ((top + 32 + align - 1) & !(align - 1)) + slack;
        let end = a + size + 32;
        if end > PLAIN_BASE + PLAIN_SIZE {
            unlock();
            return std::ptr::null_mut();
        }
        PLAIN_TOP.store(end, Relaxed);
        std::ptr::write_bytes((a - 32 - slack) as *mut u8, CANARY, 32 + slack);
        std::ptr::write_bytes((a + size) as *mut u8, CANARY, 32);
        ptr = a;
        if !insert(Ent { addr: a, size, align: align as u32, state: 2, base: a - 32 - slack, pages: slack as u32, seq, next: 0 }) {
            unlock();
            crate::run::harness_error("the table of the simulated heap is full");
        }
    }
    fill(ptr as *mut u8, size, seq);
    LIVE_N.fetch_add(1, Relaxed);
    let b = LIVE_B.fetch_add(size as u64, Relaxed) + size as u64;
    if charge {
        if b > PEAK_B.load(Relaxed) {
            PEAK_B.store(b, Relaxed);
        }
        TOTAL_N.fetch_add(1, Relaxed);
        TOTAL_B.fetch_add(size as u64, Relaxed);
        if size as u64 > LARGEST.load(Relaxed) {
            LARGEST.store(size as u64, Relaxed);
        }
    }
    unlock();
    ptr as *mut u8
}

unsafe fn all_canary(from: usize, to: usize) -> bool {
    (from..to).all(|a| *(a as *const u8) == CANARY)
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    lock();
    let a = p as usize;
    let e = match find(a) {
        Some(e) => e,
        None => {
            unlock();
            crate::run::fail("memory:invalid-free", &format!("freed an address that is not the start of a block ({})", describe(a)));
        }
    };
    if e.state == 3 {
        let (s, q) = (e.size, e.seq);
        unlock();
        crate::run::fail("memory:double-free", &format!("block #{q} of {s} bytes freed twice"));
    }
    if e.size != l.size() || e.align as usize != l.align() {
        let (s, al) = (e.size, e.align);
        unlock(); // the message is allocated on this heap
        crate::run::fail("memory:mismatched-free", &format!("block of {s} bytes (align {al}) freed as {} bytes (align {})", l.size(), l.align()));
    }
    let (lo, hi) = if e.state == 1 { (e.base, e.base + e.pages as usize * PAGE) } else { (e.base, e.addr + e.size + 32) };
    if !all_canary(lo, e.addr) || !all_canary(e.addr + e.size, hi) {
        let s = e.size;
        unlock();
        crate::run::fail("memory:overflow", &format!("bytes around a block of {s} bytes were overwritten"));
    }
    if e.state == 1 {
        N_GUARDED.fetch_sub(1, Relaxed);
        libc::mprotect(e.base as *mut _, e.pages as usize * PAGE, libc::PROT_NONE);
        libc::madvise(e.base as *mut _, e.pages as usize * PAGE, libc::MADV_DONTNEED);
    } else {
        std::ptr::write_bytes(p, 0xDF, e.size);
        if e.size > 1 << 16 {
            let lo = (e.addr + PAGE) & !(PAGE - 1);
            let hi = (e.addr + e.size) & !(PAGE - 1);
            libc::madvise(lo as *mut _, hi - lo, libc::MADV_DONTNEED);
        }
    }
    if e.state == 2 {
        if let Some(q) = queue(e.size, e.align as usize) {
            let slot = (e as *const Ent).offset_from(tab()) as u32 + 1;
            if q.tail == 0 {
                q.head = slot;
            } else {
                (*tab().add(q.tail as usize - 1)).next = slot;
            }
            q.tail = slot;
        }
    }
    e.state = 3;
    LIVE_N.fetch_sub(1, Relaxed);
    LIVE_B.fetch_sub(e.size as u64, Relaxed);
    unlock();
}

/// Checks the canaries of all live blocks.
pub fn check_all() {
    unsafe {
        lock();
        for i in 0..N_ENT.load(Relaxed) {
            let e = *tab().add(*(ORDER.load(Relaxed) as *const u32).add(i) as usize);
            if e.state == 3 {
                continue;
            }
            let (lo, hi) = if e.state == 1 { (e.base, e.base + e.pages as usize * PAGE) } else { (e.base, e.addr + e.size + 32) };
            if !all_canary(lo, e.addr) || !all_canary(e.addr + e.size, hi) {
                unlock();
                crate::run::fail("memory:overflow", &format!("bytes around a live block of {} bytes were overwritten", e.size));
            }
        }
        unlock();
    }
}

pub struct SimHeap;
unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match mode() {
            HARNESS => System.alloc(l),
            m => arena_alloc(l, m == SUT),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        match mode() {
            HARNESS => System.alloc_zeroed(l),
            m => {
                let p = arena_alloc(l, m == SUT);
                if !p.is_null() {
                    std::ptr::write_bytes(p, 0, l.size());
                }
                p
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_arena(p as usize) && mode() == HARNESS {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub live_n: u64,
    pub live_b: u64,
    pub peak_b: u64,
    pub total_n: u64,
    pub total_b: u64,
    pub largest: u64,
    pub failed: u64,
    pub refused: u64,
}
pub fn stats() -> Stats {
    Stats {
        live_n: LIVE_N.load(Relaxed),
        live_b: LIVE_B.load(Relaxed),
        peak_b: PEAK_B.load(Relaxed),
        total_n: TOTAL_N.load(Relaxed),
        total_b: TOTAL_B.load(Relaxed),
        largest: LARGEST.load(Relaxed),
        failed: FAILED.load(Relaxed),
        refused: REFUSED.load(Relaxed),
    }
}
/// Starts a new measuring window: the peak and the largest request count from here.
pub fn mark() -> Stats {
    PEAK_B.store(LIVE_B.load(Relaxed), Relaxed);
    LARGEST.store(0, Relaxed);
    stats()
}
/// Arms the failure of the k-th allocation (of at least `min` bytes) made by code under test from now on.
pub fn arm_failure(k: u64, min: usize) {
    ARMED.store(0, Relaxed);
    CFG.fail_min.store(min, Relaxed);
    CFG.fail_at.store(k, Relaxed);
}
/// Disarms and says how many allocations were made while armed.
pub fn disarm() -> u64 {
    CFG.fail_at.store(0, Relaxed);
    ARMED.load(Relaxed)
}
/// Publishes the counters for the evidence.
pub fn publish() {
    if shared::exists() {
        let s = shared::get();
        s.peak_bytes = PEAK_B.load(Relaxed);
        s.allocs = TOTAL_N.load(Relaxed);
    }
}
/// Draws the heap behaviour of this run.
pub fn configure(placement: u32, fill: u64, slack: bool) {
    CFG.placement.store(placement, SeqCst);
    CFG.fill.store(fill, SeqCst);
    CFG.slack.store(slack, SeqCst);
}
