//! The region a run's process shares with its supervisor: it survives a crash of the run.
use std::sync::atomic::{AtomicPtr, Ordering};

pub const LOG_CAP: usize = 192 * 1024;
pub const CH_CAP: usize = 1 << 17;
pub const PROBES: usize = 192;
pub const PROBE_NAME: usize = 40;
pub const EDGES: usize = 1 << 19;

pub const RUNNING: u32 = 0;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS_ERROR: u32 = 3;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Probe {
    pub name: [u8; PROBE_NAME],
    pub len: u32,
    pub count: u64,
}

#[repr(C)]
pub struct Shared {
    pub status: u32,
    /// ended from outside because nothing moved
    pub stuck: u32,
    /// the code under test may only take so many further steps
    pub bounded: u32,
    pub n_choices: [u32; 3],
    pub log_len: u32,
    pub class_len: u32,
    pub detail_len: u32,
    pub panic_len: u32,
    pub note_len: u32,
    pub nontrivial: u32,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub sim_time_us: u64,
    pub switches: u64,
    pub steals: u64,
    pub n_probes: u32,
    pub phase_len: u32,
    pub peak_bytes: u64,
    pub allocs: u64,
    pub class: [u8; 200],
    pub detail: [u8; 6000],
    pub panic: [u8; 1000],
    pub phase: [u8; 200],
    pub note: [u8; 2000],
    pub probes: [Probe; PROBES],
    pub log: [u8; LOG_CAP],
    pub choices: [[u32; CH_CAP]; 3],
    pub edges: [u8; EDGES],
}

static SH: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

/// Maps a fresh zeroed region and makes it this process's current one.
pub fn create() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap of the shared region failed");
        SH.store(p as *mut Shared, Ordering::SeqCst);
        p as *mut Shared
    }
}
pub fn get() -> &'static mut Shared {
    unsafe { &mut *SH.load(Ordering::Relaxed) }
}
pub fn exists() -> bool {
    !SH.load(Ordering::Relaxed).is_null()
}
/// Clears everything but the (cumulative) edge map before a run.
pub fn reset() {
    let s = get();
    s.status = RUNNING;
    s.stuck = 0;
    s.bounded = 0;
    s.n_choices = [0; 3];
    s.log_len = 0;
    s.class_len = 0;
    s.detail_len = 0;
    s.panic_len = 0;
    s.note_len = 0;
    s.nontrivial = 0;
    s.log_hash = 0xcbf2_9ce4_8422_2325;
    s.sched_hash = 0xcbf2_9ce4_8422_2325;
    s.steps = 0;
    s.sim_time_us = 0;
    s.switches = 0;
    s.steals = 0;
    s.n_probes = 0;
    s.phase_len = 0;
    s.peak_bytes = 0;
    s.allocs = 0;
}

pub fn put(dst: &mut [u8], len: &mut u32, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u32;
}
pub fn text(b: &[u8], n: u32) -> String {
    String::from_utf8_lossy(&b[..n as usize]).into_owned()
}
pub fn fnv(h: &mut u64, bytes: &[u8]) {
    for b in bytes {
        *h ^= *b as u64;
        *h = h.wrapping_mul(0x100_0000_01b3);
    }
}
pub fn fnv_u64(h: &mut u64, v: u64) {
    *h ^= v;
    *h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    *h ^= *h >> 29;
}

/// Counts that a rare condition, a fault or an operation really happened in this run.
pub fn probe_add(name: &str, n: u64) {
    if !exists() {
        return;
    }
    let s = get();
    let nb = name.as_bytes();
    let nb = &nb[..nb.len().min(PROBE_NAME)];
    for i in 0..s.n_probes as usize {
        let p = &mut s.probes[i];
        if p.len as usize == nb.len() && p.name[..nb.len()] == *nb {
            p.count += n;
            return;
        }
    }
    let i = s.n_probes as usize;
    if i < PROBES {
        let p = &mut s.probes[i];
        p.name[..nb.len()].copy_from_slice(nb);
        p.len = nb.len() as u32;
        p.count = n;
        s.n_probes += 1;
    }
}
pub fn probe(name: &str) {
    probe_add(name, 1)
}

/// What the run is doing, for crash reports.
pub fn phase(p: &str) {
    let s = get();
    let (d, l) = (&mut s.phase, &mut s.phase_len);
    put(d, l, p);
}

pub fn log_str(line: &str) {
    let s = get();
    fnv(&mut s.log_hash, line.as_bytes());
    fnv(&mut s.log_hash, b"\n");
    let at = s.log_len as usize;
    let need = line.len() + 1;
    if at + need <= LOG_CAP {
        s.log[at..at + line.len()].copy_from_slice(line.as_bytes());
        s.log[at + line.len()] = b'\n';
        s.log_len += need as u32;
    }
}
