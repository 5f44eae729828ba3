//! Randomness of the operating system (hash seeds of std's maps) as a decision of the simulator.
use crate::choice::{self, St};
use crate::rng::splitmix;
use crate::{heap, run, shared};
use std::sync::atomic::Ordering::Relaxed;

/// Takes the place of the C library's function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    let mut x = 0x5EED;
    if shared::exists() && libc::getpid() != run::SUPERVISOR.load(Relaxed) {
        x = choice::draw(St::Sched, u32::MAX as u64);
        shared::probe("seam: randomness asked for");
    }
    for i in 0..len {
        *buf.add(i) = splitmix(&mut x) as u8;
    }
    len as isize
}
