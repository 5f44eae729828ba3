//! Block moves of code under test. They run in the C library, where no step is counted, so their
//! bytes are counted here.
use crate::heap;
use std::arch::asm;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static MOVED: AtomicU64 = AtomicU64::new(0);
/// Bytes moved by code under test so far.
pub fn bytes() -> u64 {
    MOVED.load(Relaxed)
}
#[inline(always)]
fn count(n: usize) {
    if heap::mode() == heap::SUT {
        MOVED.store(MOVED.load(Relaxed) + n as u64, Relaxed);
    }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
    count(n);
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    to
}
#[no_mangle]
pub unsafe extern "C" fn memmove(to: *mut c_void, from: *const c_void, n: usize) -> *mut c_void {
    count(n);
    if (to as usize).wrapping_sub(from as usize) >= n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    } else {
        let (t, f) = (to.wrapping_add(n).wrapping_sub(1), from.wrapping_add(n).wrapping_sub(1));
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") t => _, inout("rsi") f => _, options(nostack));
    }
    to
}
#[no_mangle]
pub unsafe extern "C" fn memset(to: *mut c_void, b: i32, n: usize) -> *mut c_void {
    count(n);
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") to => _, in("al") b as u8, options(nostack, preserves_flags));
    to
}
