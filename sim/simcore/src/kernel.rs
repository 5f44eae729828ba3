//! The operating system as seen by code under test: locks that wait (futex), sleeping, giving up the
//! processor and clocks. Inside a run none of them reaches the kernel; the scheduler decides who goes
//! on, and simulated time passes instead of real time. Nothing in the pinned tree uses them, but std's
//! locks, once-cells, condition variables, channels and clocks all come through here.
use crate::choice::{self, St};
use crate::{heap, run, sched, shared};
use std::arch::asm;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> i64 {
    if (-4095..0).contains(&r) {
        errno(-r as i32);
        -1
    } else {
        r as i64
    }
}
/// The kernel's futex, for the scheduler itself.
pub fn futex_wait(a: &AtomicU32, v: u32, ms: Option<u64>) {
    let ts = libc::timespec { tv_sec: (ms.unwrap_or(0) / 1000) as i64, tv_nsec: (ms.unwrap_or(0) % 1000 * 1_000_000) as i64 };
    let p = if ms.is_some() { &ts as *const _ as usize } else { 0 };
    unsafe { sys6(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, p, 0, 0) };
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe { sys6(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0) };
}

/// Takes the place of the C library's function (which takes a varying number of words).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && sched::mine() {
        match b as i32 & 0x7f {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let _g = heap::ModeGuard::new(heap::HARNESS);
                let t = d as *const libc::timespec;
                shared::probe("seam: waited for a lock");
                return match sched::lock_wait(a as *const AtomicU32, c as u32, !t.is_null()) {
                    sched::Woken::Changed => ret(-(libc::EAGAIN as isize)),
                    sched::Woken::Yes => 0,
                    sched::Woken::Timeout => {
                        let at = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
                        if b as i32 & 0x7f == libc::FUTEX_WAIT {
                            NOW.fetch_add(at, Relaxed);
                        } else {
                            NOW.fetch_max(at, Relaxed);
                        }
                        ret(-(libc::ETIMEDOUT as isize))
                    }
                };
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let _g = heap::ModeGuard::new(heap::HARNESS);
                let n = sched::lock_wake(a as *const AtomicU32, c as i32);
                // threads the scheduler does not know
                let m = if n < c as i32 { sys6(libc::SYS_futex, a, b, (c as i32 - n) as usize, d, e, f).max(0) } else { 0 };
                return n as i64 + m as i64;
            }
            _ => {}
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

/// Simulated nanoseconds. Starts at some day, so that differences to an earlier time do not underflow.
static NOW: AtomicU64 = AtomicU64::new(1_790_000_000_000_000_000);

fn in_run() -> bool {
    shared::exists() && unsafe { libc::getpid() } != run::SUPERVISOR.load(Relaxed)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(k: i32, t: *mut libc::timespec) -> i32 {
    if !in_run() {
        return ret(sys6(libc::SYS_clock_gettime, k as usize, t as usize, 0, 0, 0, 0)) as i32;
    }
    let _g = heap::ModeGuard::new(heap::HARNESS);
    shared::probe("seam: clock read");
    let mut now = NOW.load(Relaxed);
    now += match choice::draw(St::Fault, 15) {
        0..=9 => 100,
        10..=13 => 50_000,
        14 => 20_000_000,
        _ => {
            shared::probe("fault:clock jumped");
            3_600_000_000_000
        }
    };
    NOW.store(now, Relaxed);
    if k == libc::CLOCK_REALTIME && choice::draw(St::Fault, 15) == 0 {
        shared::probe("fault:clock stepped back");
        now -= 7_200_000_000_000;
    }
    *t = libc::timespec { tv_sec: (now / 1_000_000_000) as i64, tv_nsec: (now % 1_000_000_000) as i64 };
    0
}
fn slept(ns: u64) {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    shared::probe("seam: slept");
    NOW.fetch_add(ns, Relaxed);
    if sched::mine() {
        sched::lock_wait(std::ptr::null(), 0, true);
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, left: *mut libc::timespec) -> i32 {
    if !in_run() {
        return ret(sys6(libc::SYS_nanosleep, t as usize, left as usize, 0, 0, 0, 0)) as i32;
    }
    slept((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(k: i32, flags: i32, t: *const libc::timespec, left: *mut libc::timespec) -> i32 {
    if !in_run() {
        return -sys6(libc::SYS_clock_nanosleep, k as usize, flags as usize, t as usize, left as usize, 0, 0) as i32;
    }
    let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    slept(if flags == libc::TIMER_ABSTIME { ns.saturating_sub(NOW.load(Relaxed)) } else { ns });
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::mine() {
        let _g = heap::ModeGuard::new(heap::HARNESS);
        sched::give_way();
        return 0;
    }
    ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
pub fn real_yield() {
    unsafe { sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
}
