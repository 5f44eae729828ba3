//! Callbacks of the compiler's instrumentation: every branch and every memory access of the
//! instrumented crates comes through here. They are the steps of the simulation.
use crate::{heap, sched, shared};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static N_GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn edges_total() -> u32 {
    N_GUARDS.load(Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        *a = N_GUARDS.fetch_add(1, Relaxed) + 1;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if heap::mode() != heap::SUT {
        return;
    }
    let i = *g as usize;
    if i < shared::EDGES && shared::exists() {
        *shared::get().edges.get_unchecked_mut(i) = 1;
    }
    sched::tick();
}
macro_rules! access {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(_a: *const u8) {
            sched::tick();
        }
    )* };
}
access!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
