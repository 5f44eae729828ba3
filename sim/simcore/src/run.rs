//! Inside one run: reporting, the boundary to code under test, crash handling.
use crate::{heap, sched, shared};
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Payload of a panic this harness injects into a callback.
pub struct Injected(pub u64);
/// Payload of an injected allocation failure.
pub struct AllocFailed;

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Injected(u64),
    AllocFailed,
    /// a panic of the code under test itself
    Panic(String),
}

pub fn phase_text() -> String {
    let s = shared::get();
    shared::text(&s.phase, s.phase_len)
}

fn leave(status: u32) -> ! {
    heap::set_mode(heap::HARNESS);
    sched::publish();
    heap::publish();
    shared::get().status = status;
    unsafe { libc::_exit(0) }
}
/// The property is broken: ends the run.
pub fn fail(class: &str, detail: &str) -> ! {
    heap::set_mode(heap::HARNESS);
    let s = shared::get();
    if s.status == shared::VIOLATION {
        unsafe { libc::_exit(0) }
    }
    shared::put(&mut s.class, &mut s.class_len, class);
    shared::put(&mut s.detail, &mut s.detail_len, detail);
    shared::log_str(&format!("VIOLATION {class}: {detail}"));
    leave(shared::VIOLATION)
}
pub fn harness_error(detail: &str) -> ! {
    heap::set_mode(heap::HARNESS);
    let s = shared::get();
    shared::put(&mut s.detail, &mut s.detail_len, detail);
    leave(shared::HARNESS_ERROR)
}
pub fn finish_ok() -> ! {
    leave(shared::OK)
}

/// What this answers in a process of its own, in which nothing else happened yet and from which
/// nothing comes back but the answer. None if it does not answer.
pub fn alone(f: impl FnOnce() -> Option<u64>) -> Option<u64> {
    heap::harness(|| unsafe {
        let mut fd = [0i32; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            harness_error("no pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fd[0]);
            // draws, logs and a violation stay here
            let drawn = shared::get().n_choices;
            shared::create();
            shared::reset();
            shared::get().n_choices = drawn;
            if let Some(v) = f() {
                libc::write(fd[1], &v as *const u64 as *const libc::c_void, 8);
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut v = 0u64;
        let n = loop {
            let n = libc::read(fd[0], &mut v as *mut u64 as *mut libc::c_void, 8);
            if n >= 0 || *libc::__errno_location() != libc::EINTR {
                break n;
            }
        };
        libc::close(fd[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        (n == 8).then_some(v)
    })
}

pub fn log(args: std::fmt::Arguments) {
    heap::harness(|| shared::log_str(&std::fmt::format(args)))
}
#[macro_export]
macro_rules! log {
    ($($t:tt)*) => { $crate::run::log(format_args!($($t)*)) };
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
pub fn classify(p: Box<dyn Any + Send>) -> Stop {
    heap::harness(|| {
        let r = if let Some(i) = p.downcast_ref::<Injected>() {
            Stop::Injected(i.0)
        } else if p.downcast_ref::<AllocFailed>().is_some() {
            Stop::AllocFailed
        } else {
            Stop::Panic(payload_text(&*p))
        };
        drop(p);
        r
    })
}
/// Calls code under test.
pub fn sut<R>(phase: &str, f: impl FnOnce() -> R) -> Result<R, Stop> {
    shared::phase(phase);
    let old = heap::set_mode(heap::SUT);
    let r = catch_unwind(AssertUnwindSafe(f));
    heap::set_mode(old);
    sched::ensure_baton();
    r.map_err(classify)
}
/// Calls code under test that must not panic here.
pub fn sut_ok<R>(class: &str, phase: &str, f: impl FnOnce() -> R) -> R {
    match sut(phase, f) {
        Ok(r) => r,
        Err(s) => fail(class, &format!("{phase}: {s:?}")),
    }
}
/// Panics like a user callback would.
pub fn inject_panic(tag: u64) -> ! {
    shared::probe("fault:panic in a callback");
    let b = heap::harness(|| Box::new(Injected(tag)) as Box<dyn Any + Send>);
    resume_unwind(b)
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let _g = heap::ModeGuard::new(heap::HARNESS);
        if !shared::exists() {
            eprintln!("{info}");
            return;
        }
        let s = shared::get();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let txt = format!("{} at {loc}", payload_text_ref(info.payload()));
        shared::put(&mut s.panic, &mut s.panic_len, &txt);
    }));
    std::alloc::set_alloc_error_hook(|l| {
        if heap::mode() == heap::HARNESS {
            harness_error(&format!("the harness ran out of memory ({} bytes)", l.size()));
        }
        if heap::mode() == heap::TRACKED {
            harness_error(&format!("no memory for tracked data ({} bytes)", l.size()));
        }
        if l.size() > heap::HUGE {
            // a request no machine of this simulation can serve: an abort in real life
            fail("memory:huge-allocation", &format!("asked for {} bytes in phase {}", l.size(), phase_text()));
        }
        shared::probe("fault:failed allocation");
        heap::set_mode(heap::HARNESS);
        resume_unwind(Box::new(AllocFailed));
    });
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}
fn payload_text_ref(p: &(dyn Any + Send)) -> String {
    payload_text(p)
}
extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    if !shared::exists() || unsafe { libc::getpid() } == SUPERVISOR.load(std::sync::atomic::Ordering::Relaxed) {
        unsafe { libc::_exit(100) }
    }
    let was = heap::set_mode(heap::HARNESS);
    let name = match sig {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => "SIGABRT",
    };
    let s = shared::get();
    let pan = shared::text(&s.panic, s.panic_len);
    let addr = unsafe { (*info).si_addr() as usize };
    let phase = phase_text();
    if was == heap::HARNESS && !heap::in_arena(addr) && sig != libc::SIGABRT {
        harness_error(&format!("{name} in the harness at {addr:#x}, phase {phase}, last panic: {pan}"));
    }
    let d = if sig == libc::SIGABRT {
        format!("aborted in phase {phase}; last panic: {pan}")
    } else {
        format!("{name} in phase {phase}: access {}", heap::describe(addr))
    };
    fail(&format!("crash:{name}"), &d)
}
pub static SUPERVISOR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
