//! The seeded scheduler. Tasks are OS threads, but exactly one holds the baton at any time; who gets
//! it next is decided here from the Sched stream. Preemption points are the instrumented memory
//! accesses and branches of the code under test (see cov.rs) and the explicit points of rayon-core-sim.
use crate::choice::{self, St};
use crate::heap;
use crate::kernel::{futex_wait, futex_wake};
use crate::run;
use crate::shared;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAX_TASKS: usize = 320;
const NONE: usize = usize::MAX;
const FAIR_GAP: u64 = 60_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Free,
    /// can run
    Ready,
    /// waits until its condition is set
    Blocked,
    /// pool worker without a job
    Idle,
    /// waits for a lock of the code under test, or sleeps
    Futex,
    /// asleep in the kernel (what the seams do not cover), noticed by the controller
    Kernel,
    Done,
}

struct Task {
    state: State,
    cond: *const AtomicBool,
    may_steal: bool,
    lock: *const AtomicU32,
    timed: bool,
    timed_out: bool,
    worker: Option<(usize, usize)>,
    prio: u64,
    stalled_until: u64,
    started: bool,
    entry: Option<Box<dyn FnOnce() + Send>>,
    baton: AtomicU32,
    running: AtomicBool,
    tid: AtomicI32,
}
const EMPTY: Task = Task {
    state: State::Free,
    cond: std::ptr::null(),
    may_steal: false,
    lock: std::ptr::null(),
    timed: false,
    timed_out: false,
    worker: None,
    prio: 0,
    stalled_until: 0,
    started: false,
    entry: None,
    baton: AtomicU32::new(0),
    running: AtomicBool::new(false),
    tid: AtomicI32::new(0),
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// prefer to go on, sometimes switch
    Sticky,
    /// uniform among the tasks that can run
    Uniform,
    /// priorities with change points
    Pct,
}

struct Sim {
    tasks: [Task; MAX_TASKS],
    n: usize,
    policy: Policy,
    max_gap: u64,
    stalls: bool,
    decisions: u64,
    preemptions: u64,
    has_work: Option<fn(usize, usize) -> bool>,
}
static mut SIM: Sim = Sim {
    tasks: [EMPTY; MAX_TASKS],
    n: 0,
    policy: Policy::Sticky,
    max_gap: 0,
    stalls: false,
    decisions: 0,
    preemptions: 0,
    has_work: None,
};
#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { &mut SIM }
}
static LOCK: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(NONE);
static ON: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicU64 = AtomicU64::new(0);
static NEXT_EVENT: AtomicU64 = AtomicU64::new(u64::MAX);
static NEXT_PREEMPT: AtomicU64 = AtomicU64::new(u64::MAX);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static FINISHED: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

fn lock() {
    let mut n = 0u32;
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        n += 1;
        if n > 1000 {
            crate::kernel::real_yield();
        }
    }
}
fn unlock() {
    LOCK.store(false, Release);
}
pub fn on() -> bool {
    ON.load(Relaxed)
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
pub fn switches() -> u64 {
    SWITCHES.load(Relaxed)
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}
pub fn set_has_work(f: fn(usize, usize) -> bool) {
    sim().has_work = Some(f);
}
fn rearm() {
    NEXT_EVENT.store(NEXT_PREEMPT.load(Relaxed).min(BUDGET.load(Relaxed)), Relaxed);
}
/// Code under test may take this many further steps; more is a hang.
pub fn budget(n: u64) {
    BUDGET.store(STEPS.load(Relaxed).saturating_add(n), Relaxed);
    shared::get().bounded = 1;
    rearm();
}
pub fn no_budget() {
    BUDGET.store(u64::MAX, Relaxed);
    shared::get().bounded = 0;
    rearm();
}

/// One instrumented step of code under test.
#[inline(always)]
pub fn tick() {
    if heap::mode() != heap::SUT {
        return;
    }
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s >= NEXT_EVENT.load(Relaxed) || (ON.load(Relaxed) && ME.with(|m| m.get()) != CURRENT.load(Relaxed)) {
        slow(s);
    }
}
#[cold]
#[inline(never)]
fn slow(s: u64) {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    if s >= BUDGET.load(Relaxed) {
        BUDGET.store(u64::MAX, Relaxed);
        run::fail("progress:steps", &format!("no end after {s} steps in phase {}", run::phase_text()));
    }
    if !ON.load(Relaxed) {
        NEXT_PREEMPT.store(u64::MAX, Relaxed);
        rearm();
        return;
    }
    let id = me();
    if id == NONE {
        return;
    }
    if CURRENT.load(Relaxed) != id {
        // woke up from a kernel lock without the baton
        lock();
        let t = &mut sim().tasks[id];
        if CURRENT.load(Relaxed) == NONE {
            t.state = State::Ready;
            CURRENT.store(id, Relaxed);
            unlock();
        } else {
            t.state = State::Ready;
            t.running.store(false, Relaxed);
            unlock();
            wait_baton(id);
        }
        return;
    }
    if s >= NEXT_PREEMPT.load(Relaxed) {
        draw_gap();
        sim().preemptions += 1;
        if sim().policy == Policy::Pct && choice::chance(St::Sched, 1, 3) {
            let low = sim().tasks[..sim().n].iter().map(|t| t.prio).min().unwrap_or(0);
            sim().tasks[id].prio = low.saturating_sub(1);
        }
        if sim().stalls && choice::chance(St::Sched, 1, 24) {
            let k = choice::range(St::Sched, 2, 60);
            sim().tasks[id].stalled_until = sim().decisions + k;
            shared::probe("fault:stalled task");
        }
        decide(id, true);
    }
}
fn draw_gap() {
    let s = sim();
    let g = if s.max_gap == 0 || s.preemptions > 20_000 { 0 } else { choice::draw(St::Sched, s.max_gap) };
    NEXT_PREEMPT.store(STEPS.load(Relaxed) + if g == 0 { FAIR_GAP } else { g }, Relaxed);
    rearm();
}

fn eligible(i: usize) -> bool {
    let s = sim();
    let t = &s.tasks[i];
    let work = || match (t.worker, s.has_work) {
        (Some((p, w)), Some(f)) => f(p, w),
        _ => false,
    };
    match t.state {
        State::Ready => true,
        State::Blocked => (!t.cond.is_null() && unsafe { (*t.cond).load(Relaxed) }) || (t.may_steal && work()),
        State::Idle => work(),
        _ => false,
    }
}

fn pick(me: usize, can_stay: bool) -> usize {
    let s = sim();
    s.decisions += 1;
    let mut cand: [usize; MAX_TASKS] = [0; MAX_TASKS];
    let mut n = 0;
    if can_stay {
        cand[n] = me;
        n += 1;
    }
    for i in 0..s.n {
        if (i != me || !can_stay) && eligible(i) {
            cand[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        // nobody can run: time passes until the first deadline
        for i in 0..s.n {
            let t = &mut s.tasks[i];
            if t.state == State::Futex && t.timed {
                t.timed_out = true;
                t.state = State::Ready;
                return i;
            }
        }
        return NONE;
    }
    if s.stalls {
        // stalled tasks run only when nobody else can
        let d = s.decisions;
        let mut m = 0;
        let mut keep = cand;
        for k in 0..n {
            if s.tasks[cand[k]].stalled_until <= d {
                keep[m] = cand[k];
                m += 1;
            }
        }
        if m > 0 {
            cand = keep;
            n = m;
        }
    }
    if n == 1 {
        return cand[0];
    }
    match s.policy {
        Policy::Pct => {
            let mut b = cand[0];
            for &c in &cand[1..n] {
                if s.tasks[c].prio > s.tasks[b].prio {
                    b = c;
                }
            }
            b
        }
        Policy::Uniform => cand[choice::draw(St::Sched, n as u64 - 1) as usize],
        Policy::Sticky => {
            if choice::chance(St::Sched, 1, 3) {
                cand[choice::draw(St::Sched, n as u64 - 1) as usize]
            } else {
                cand[0]
            }
        }
    }
}

fn hand_to(next: usize) {
    let s = sim();
    let sh = shared::get();
    sh.switches += 1;
    shared::fnv_u64(&mut sh.sched_hash, (next as u64) << 40 | STEPS.load(Relaxed));
    SWITCHES.store(SWITCHES.load(Relaxed) + 1, Relaxed);
    let t = &mut s.tasks[next];
    t.state = State::Ready;
    t.running.store(false, Relaxed);
    CURRENT.store(next, SeqCst);
    if !t.started {
        t.started = true;
        let f = t.entry.take().expect("task entry");
        t.baton.store(1, SeqCst);
        let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            ME.with(|m| m.set(next));
            sim().tasks[next].tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
            wait_baton(next);
            f();
            finish(next);
        });
        if r.is_err() {
            run::harness_error("cannot start a thread");
        }
    } else {
        t.baton.store(1, SeqCst);
        futex_wake(&t.baton);
    }
}
fn wait_baton(id: usize) {
    let t = &sim().tasks[id];
    while t.baton.swap(0, SeqCst) == 0 {
        futex_wait(&t.baton, 0, None);
    }
    t.running.store(true, SeqCst);
}
fn finish(id: usize) {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    lock();
    sim().tasks[id].state = State::Done;
    if id == 0 {
        CURRENT.store(NONE, SeqCst);
        unlock();
        FINISHED.store(1, SeqCst);
        futex_wake(&FINISHED);
        return;
    }
    let n = pick(NONE, false);
    if n == NONE {
        CURRENT.store(NONE, SeqCst);
        let kernel = any_kernel();
        unlock();
        if !kernel {
            run::fail("progress:deadlock", &format!("every task waits, in phase {}", run::phase_text()));
        }
        return;
    }
    hand_to(n);
    unlock();
}
fn any_kernel() -> bool {
    sim().tasks[..sim().n].iter().any(|t| t.state == State::Kernel)
}

/// The current task lets the scheduler decide who goes on.
fn decide(id: usize, can_stay: bool) {
    lock();
    let n = pick(id, can_stay);
    if n == id {
        sim().tasks[id].state = State::Ready;
        unlock();
        return;
    }
    if n == NONE {
        sim().tasks[id].running.store(false, SeqCst);
        CURRENT.store(NONE, SeqCst);
        let kernel = any_kernel();
        unlock();
        if !kernel {
            run::fail("progress:deadlock", &format!("every task waits, in phase {}", run::phase_text()));
        }
        wait_baton(id);
        return;
    }
    hand_to(n);
    sim().tasks[id].running.store(false, SeqCst);
    unlock();
    wait_baton(id);
}

/// An explicit decision point (a job was published, a part was finished).
pub fn point() {
    if !on() || me() == NONE {
        return;
    }
    let _g = heap::ModeGuard::new(heap::HARNESS);
    decide(me(), true);
}
/// The calling thread is the task that runs now.
pub fn mine() -> bool {
    on() && me() != NONE && CURRENT.load(Relaxed) == me()
}
pub enum Woken {
    /// the word had another value already
    Changed,
    Yes,
    Timeout,
}
/// The current task waits until somebody wakes those who wait for this word.
pub fn lock_wait(word: *const AtomicU32, value: u32, timed: bool) -> Woken {
    let id = me();
    lock();
    if !word.is_null() && unsafe { (*word).load(SeqCst) } != value {
        unlock();
        return Woken::Changed;
    }
    let t = &mut sim().tasks[id];
    t.state = State::Futex;
    t.lock = word;
    t.timed = timed;
    t.timed_out = false;
    unlock();
    decide(id, false);
    if sim().tasks[id].timed_out {
        Woken::Timeout
    } else {
        Woken::Yes
    }
}
/// Lets up to `n` of those who wait for this word go on; who is first is a decision.
pub fn lock_wake(word: *const AtomicU32, n: i32) -> i32 {
    let mut woken = 0;
    lock();
    while woken < n {
        let mut w: [usize; MAX_TASKS] = [0; MAX_TASKS];
        let mut k = 0;
        let s = sim();
        for i in 0..s.n {
            if s.tasks[i].state == State::Futex && s.tasks[i].lock == word && !word.is_null() {
                w[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        let j = if k == 1 || n as usize >= k { 0 } else { choice::draw(St::Sched, k as u64 - 1) as usize };
        s.tasks[w[j]].state = State::Ready;
        woken += 1;
    }
    unlock();
    woken
}
/// The current task lets others go first, if there are any.
pub fn give_way() {
    let id = me();
    lock();
    sim().tasks[id].state = State::Ready;
    let low = sim().tasks[..sim().n].iter().map(|t| t.prio).min().unwrap_or(0);
    sim().tasks[id].prio = low.saturating_sub(1);
    let s = sim();
    let other = (0..s.n).any(|i| i != id && eligible(i));
    unlock();
    if other {
        decide(id, false);
    }
}
/// Waits until the flag is set, or - if `may_steal` - until there may be a job to run instead.
pub fn block(flag: &AtomicBool, may_steal: bool) {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    let id = me();
    lock();
    let t = &mut sim().tasks[id];
    t.state = State::Blocked;
    t.cond = flag;
    t.may_steal = may_steal;
    unlock();
    decide(id, false);
}
/// A pool worker waits for a job.
pub fn idle() {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    let id = me();
    lock();
    sim().tasks[id].state = State::Idle;
    unlock();
    decide(id, false);
}
fn add(f: Box<dyn FnOnce() + Send>, state: State, worker: Option<(usize, usize)>) -> usize {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    let prio = if sim().policy == Policy::Pct { 1000 + choice::draw(St::Sched, 65535) } else { 0 };
    lock();
    let s = sim();
    let id = s.n;
    if id >= MAX_TASKS {
        unlock();
        run::harness_error("too many tasks");
    }
    s.n += 1;
    let t = &mut s.tasks[id];
    t.state = state;
    t.worker = worker;
    t.entry = Some(f);
    t.prio = prio;
    unlock();
    id
}
/// Adds a pool worker (its thread starts when it is first chosen).
pub fn add_worker(pool: usize, idx: usize, f: Box<dyn FnOnce() + Send>) -> usize {
    add(f, State::Idle, Some((pool, idx)))
}

/// A caller thread of the simulated program.
pub struct Caller {
    done: std::sync::Arc<AtomicBool>,
}
pub fn spawn(f: impl FnOnce() + Send + 'static) -> Caller {
    let _g = heap::ModeGuard::new(heap::HARNESS);
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let d = done.clone();
    add(
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                run::harness_error("a caller task of the harness panicked");
            }
            heap::set_mode(heap::HARNESS);
            d.store(true, SeqCst);
        }),
        State::Ready,
        None,
    );
    Caller { done }
}
impl Caller {
    pub fn join(self) {
        while !self.done.load(SeqCst) {
            block(&self.done, false);
        }
    }
}

pub struct Conf {
    pub policy: Policy,
    /// longest distance between two preemption points, 0 = only explicit points
    pub max_gap: u64,
    pub stalls: bool,
}

/// Runs `f` as the first task of a simulation and returns when it is done.
pub fn simulate(c: Conf, f: impl FnOnce() + Send + 'static) {
    let s = sim();
    s.policy = c.policy;
    s.max_gap = c.max_gap;
    s.stalls = c.stalls;
    ON.store(true, SeqCst);
    draw_gap();
    let id = add(
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                run::harness_error("the main task of the harness panicked");
            }
            heap::set_mode(heap::HARNESS);
        }),
        State::Ready,
        None,
    );
    assert_eq!(id, 0);
    lock();
    hand_to(0);
    unlock();
    controller();
    ON.store(false, SeqCst);
    NEXT_PREEMPT.store(u64::MAX, SeqCst);
    rearm();
}

fn asleep(tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(") ").next().map_or(false, |r| r.starts_with('S')),
        Err(_) => false,
    }
}
/// Watches for a baton holder that went to sleep in the kernel: another task holds a lock it wants.
fn controller() {
    let mut last = (0, 0, NONE);
    let mut same = 0;
    let mut stuck = 0;
    loop {
        futex_wait(&FINISHED, 0, Some(2));
        if FINISHED.load(SeqCst) == 1 {
            return;
        }
        let cur = CURRENT.load(SeqCst);
        let now = (STEPS.load(Relaxed), SWITCHES.load(Relaxed), cur);
        if now != last {
            last = now;
            same = 0;
            stuck = 0;
            continue;
        }
        let s = sim();
        if cur == NONE {
            stuck += 1;
            if stuck > 1500 {
                run::fail("progress:deadlock", &format!("every task waits for a lock, in phase {}", run::phase_text()));
            }
            continue;
        }
        let t = &s.tasks[cur];
        if !t.running.load(SeqCst) || !asleep(t.tid.load(SeqCst)) {
            same = 0;
            continue;
        }
        same += 1;
        if same < 3 {
            continue;
        }
        lock();
        if CURRENT.load(SeqCst) == cur && (STEPS.load(Relaxed), SWITCHES.load(Relaxed), cur) == last && s.tasks[cur].running.load(SeqCst) {
            s.tasks[cur].state = State::Kernel;
            s.tasks[cur].running.store(false, SeqCst);
            shared::probe("task blocked in the kernel");
            let n = pick(NONE, false);
            if n == NONE {
                CURRENT.store(NONE, SeqCst);
            } else {
                hand_to(n);
            }
        }
        unlock();
        same = 0;
    }
}

/// Called by code that ran in the kernel while others moved on; also before touching shared sim state.
pub fn ensure_baton() {
    if on() && me() != NONE && CURRENT.load(Relaxed) != me() {
        slow(STEPS.load(Relaxed));
    }
}
pub fn publish() {
    let sh = shared::get();
    sh.steps = STEPS.load(Relaxed);
}
