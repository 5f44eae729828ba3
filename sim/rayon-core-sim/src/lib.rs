//! rayon-core on the simulated scheduler: same API, same job semantics (work is published, may be
//! stolen, is taken back or waited for; panics are propagated after both sides finished), but who
//! steals what and when is decided by the seed.
use simcore::choice::{self, St};
use simcore::heap::{self, harness};
use simcore::{sched, shared};
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- jobs and pools

#[derive(Clone, Copy)]
struct JobRef {
    data: *const (),
    exec: unsafe fn(*const ()),
    mode: u8,
}
struct Pool {
    n: usize,
    local: Vec<VecDeque<JobRef>>,
    bcast: Vec<VecDeque<JobRef>>,
    injector: VecDeque<JobRef>,
    started: bool,
}
struct Conf {
    threads: usize,
    /// waiting workers may run other jobs on top of the waiting one
    nested: bool,
    /// out of 8: how often a part claims to have migrated although it was not stolen (only splits more)
    fake_migrate: u64,
}
static mut POOLS: Vec<Pool> = Vec::new();
static mut CONF: Conf = Conf { threads: 4, nested: true, fake_migrate: 0 };
thread_local! {
    static WORKER: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}
#[allow(static_mut_refs)]
fn pools() -> &'static mut Vec<Pool> {
    unsafe { &mut POOLS }
}
#[allow(static_mut_refs)]
fn conf() -> &'static mut Conf {
    unsafe { &mut CONF }
}
static JOINS: AtomicUsize = AtomicUsize::new(0);
/// For the harness: how often work was divided so far.
pub fn sim_joins() -> u64 {
    JOINS.load(SeqCst) as u64
}
/// For the harness: the machine this run pretends to have.
pub fn sim_configure(threads: usize, nested: bool, fake_migrate: u64) {
    *conf() = Conf { threads, nested, fake_migrate };
}

fn new_pool(n: usize) -> usize {
    harness(|| {
        pools().push(Pool {
            n,
            local: (0..n).map(|_| VecDeque::new()).collect(),
            bcast: (0..n).map(|_| VecDeque::new()).collect(),
            injector: VecDeque::new(),
            started: false,
        });
        pools().len() - 1
    })
}
fn global() -> usize {
    if pools().is_empty() {
        new_pool(conf().threads);
    }
    0
}
fn start(pool: usize) {
    if pools()[pool].started {
        return;
    }
    pools()[pool].started = true;
    harness(|| {
        sched::set_has_work(has_work);
        for i in 0..pools()[pool].n {
            sched::add_worker(pool, i, Box::new(move || worker_main(pool, i)));
        }
    })
}
fn has_work(p: usize, w: usize) -> bool {
    let p = &pools()[p];
    !p.bcast[w].is_empty() || !p.injector.is_empty() || p.local.iter().any(|d| !d.is_empty())
}
fn worker_main(pool: usize, idx: usize) {
    WORKER.with(|w| w.set(Some((pool, idx))));
    loop {
        match find_work(pool, idx) {
            Some(j) => {
                execute(j);
                sched::point();
            }
            None => sched::idle(),
        }
    }
}
fn find_work(pool: usize, idx: usize) -> Option<JobRef> {
    harness(|| {
        let p = &mut pools()[pool];
        if let Some(j) = p.bcast[idx].pop_front() {
            return Some(j);
        }
        if let Some(j) = p.local[idx].pop_back() {
            return Some(j);
        }
        let mut cand: Vec<usize> = (0..p.n).filter(|i| *i != idx && !p.local[*i].is_empty()).collect();
        if !p.injector.is_empty() {
            cand.push(usize::MAX);
        }
        if cand.is_empty() {
            return None;
        }
        let c = cand[choice::draw(St::Sched, cand.len() as u64 - 1) as usize];
        let j = if c == usize::MAX { p.injector.pop_front() } else { p.local[c].pop_front() };
        if c != usize::MAX {
            shared::get().steals += 1;
            shared::probe("sched:job stolen");
        }
        j
    })
}
fn execute(j: JobRef) {
    let old = heap::set_mode(j.mode);
    unsafe { (j.exec)(j.data) };
    heap::set_mode(old);
}
fn push_local(pool: usize, idx: usize, j: JobRef) {
    harness(|| pools()[pool].local[idx].push_back(j))
}
fn inject(pool: usize, j: JobRef) {
    start(pool);
    harness(|| pools()[pool].injector.push_back(j))
}
fn take_local(pool: usize, idx: usize) -> Option<JobRef> {
    harness(|| pools()[pool].local[idx].pop_back())
}
/// A worker waits for a latch, running its own and - if the run allows it - other workers' jobs meanwhile.
fn wait_until(latch: &AtomicBool) {
    let (p, i) = WORKER.with(|w| w.get()).expect("worker");
    while !latch.load(SeqCst) {
        let own = harness(|| pools()[p].bcast[i].pop_front()).or_else(|| take_local(p, i));
        if let Some(j) = own {
            execute(j);
            continue;
        }
        let mut wake = conf().nested;
        if wake && has_work(p, i) {
            if harness(|| choice::chance(St::Sched, 1, 2)) {
                if let Some(j) = find_work(p, i) {
                    shared::probe("sched:job run on top of a waiting one");
                    execute(j);
                    continue;
                }
            }
            // declined: sleeps until its own job is done
            wake = false;
        }
        sched::block(latch, wake);
    }
}

enum Res<R> {
    None,
    Ok(R),
    Panic(Box<dyn Any + Send>),
}
struct AbortOnUnwind;
impl Drop for AbortOnUnwind {
    fn drop(&mut self) {
        eprintln!("rayon-core: unexpected unwind");
        std::process::abort();
    }
}
struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Res<R>>,
    latch: AtomicBool,
}
impl<F: FnOnce(bool) -> R + Send, R: Send> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob { f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(Res::None), latch: AtomicBool::new(false) }
    }
    fn job_ref(&self) -> JobRef {
        JobRef { data: self as *const _ as *const (), exec: Self::exec, mode: heap::mode() }
    }
    unsafe fn exec(p: *const ()) {
        let this = &*(p as *const Self);
        let guard = AbortOnUnwind;
        let mode = heap::mode();
        let f = (*this.f.get()).take().expect("a job ran twice");
        *this.r.get() = match catch_unwind(AssertUnwindSafe(|| f(true))) {
            Ok(r) => Res::Ok(r),
            Err(e) => Res::Panic(e),
        };
        heap::set_mode(mode);
        std::mem::forget(guard);
        this.latch.store(true, SeqCst);
    }
    fn run_inline(&self, migrated: bool) -> R {
        let f = unsafe { (*self.f.get()).take() }.expect("a job ran twice");
        f(migrated)
    }
    fn result(&self) -> R {
        match unsafe { std::mem::replace(&mut *self.r.get(), Res::None) } {
            Res::Ok(r) => r,
            Res::Panic(e) => resume_unwind(e),
            Res::None => unreachable!("a job without result"),
        }
    }
}
struct HeapJob<F> {
    f: F,
}
impl<F: FnOnce() + Send> HeapJob<F> {
    fn job_ref(f: F) -> JobRef {
        let mode = heap::mode();
        let b = harness(|| Box::new(HeapJob { f }));
        JobRef { data: Box::into_raw(b) as *const (), exec: Self::exec, mode }
    }
    unsafe fn exec(p: *const ()) {
        let guard = AbortOnUnwind;
        let b = Box::from_raw(p as *mut Self);
        let HeapJob { f } = *b;
        f();
        std::mem::forget(guard);
    }
}

fn fake() -> bool {
    let k = conf().fake_migrate;
    k > 0 && harness(|| choice::chance(St::Sched, k, 8))
}

/// Runs `op` on a worker of the pool (here, if the caller is one; inline, if nothing is scheduled).
fn in_pool<OP, R>(pool: usize, op: OP) -> R
where
    OP: FnOnce(Option<(usize, usize)>, bool) -> R + Send,
    R: Send,
{
    if !sched::on() {
        return op(None, false);
    }
    let me = WORKER.with(|w| w.get());
    match me {
        Some((p, _)) if p == pool => op(me, false),
        _ => {
            let j = StackJob::new(|_m| op(WORKER.with(|w| w.get()), true));
            inject(pool, j.job_ref());
            if me.is_some() {
                wait_until(&j.latch);
            } else {
                while !j.latch.load(SeqCst) {
                    sched::block(&j.latch, false);
                }
            }
            j.result()
        }
    }
}
fn here() -> usize {
    match WORKER.with(|w| w.get()) {
        Some((p, _)) => p,
        None => global(),
    }
}

// ---------------------------------------------------------------- join

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| a(), move |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    shared::probe("sched:join");
    JOINS.fetch_add(1, SeqCst);
    in_pool(here(), move |w, injected| {
        let (p, i) = match w {
            Some(x) => x,
            None => {
                let m = fake();
                let ra = a(FnContext::new(m));
                let m = fake();
                return (ra, b(FnContext::new(m)));
            }
        };
        let job = StackJob::new(move |m| b(FnContext::new(m)));
        let jr = job.job_ref();
        push_local(p, i, jr);
        sched::point();
        let mode = heap::mode();
        let ma = injected || fake();
        let ra = match catch_unwind(AssertUnwindSafe(|| a(FnContext::new(ma)))) {
            Ok(r) => r,
            Err(e) => {
                heap::set_mode(mode);
                wait_until(&job.latch);
                resume_unwind(e)
            }
        };
        sched::point();
        while !job.latch.load(SeqCst) {
            match take_local(p, i) {
                Some(j) if j.data == jr.data => {
                    let mb = injected || fake();
                    return (ra, job.run_inline(mb));
                }
                Some(j) => execute(j),
                None => {
                    wait_until(&job.latch);
                    break;
                }
            }
        }
        (ra, job.result())
    })
}

// ---------------------------------------------------------------- scope

struct ScopeBase {
    pool: usize,
    inline: bool,
    pending: AtomicUsize,
    done: AtomicBool,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}
impl ScopeBase {
    fn new(pool: usize) -> Arc<Self> {
        harness(|| {
            Arc::new(ScopeBase {
                pool,
                inline: !sched::on(),
                pending: AtomicUsize::new(1),
                done: AtomicBool::new(false),
                panic: Mutex::new(None),
            })
        })
    }
    fn run(&self, f: impl FnOnce()) {
        let mode = heap::mode();
        if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
            heap::set_mode(mode);
            let mut g = self.panic.lock().unwrap();
            if g.is_none() {
                *g = Some(e);
            } else {
                drop(g);
                drop(e);
            }
        }
        if self.pending.fetch_sub(1, SeqCst) == 1 {
            self.done.store(true, SeqCst);
        }
    }
    fn spawn(self: &Arc<Self>, f: impl FnOnce() + Send) {
        self.pending.fetch_add(1, SeqCst);
        let s = harness(|| self.clone());
        if self.inline {
            s.run(f);
            return;
        }
        let j = HeapJob::job_ref(move || {
            s.run(f);
            harness(|| drop(s))
        });
        match WORKER.with(|w| w.get()) {
            Some((p, i)) if p == self.pool => push_local(p, i, j),
            _ => inject(self.pool, j),
        }
        sched::point();
    }
    fn complete<R>(&self, r: Result<R, Box<dyn Any + Send>>) -> R {
        if self.pending.fetch_sub(1, SeqCst) == 1 {
            self.done.store(true, SeqCst);
        }
        if !self.inline {
            if WORKER.with(|w| w.get()).is_some() {
                wait_until(&self.done);
            } else {
                while !self.done.load(SeqCst) {
                    sched::block(&self.done, false);
                }
            }
        }
        match r {
            Err(e) => resume_unwind(e),
            Ok(r) => {
                let p = self.panic.lock().unwrap().take();
                if let Some(e) = p {
                    drop(r);
                    resume_unwind(e)
                }
                r
            }
        }
    }
}
macro_rules! scope_type {
    ($name:ident, $spawn:ident, $scope:ident, $in_place:ident) => {
        pub struct $name<'scope> {
            base: Arc<ScopeBase>,
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)).finish()
            }
        }
        impl<'scope> $name<'scope> {
            fn make(base: &Arc<ScopeBase>) -> Self {
                $name { base: base.clone(), marker: PhantomData }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let b = harness(|| self.base.clone());
                self.base.spawn(move || {
                    let s = $name::make(&b);
                    body(&s);
                    harness(move || {
                        drop(s);
                        drop(b)
                    })
                })
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = pools()[self.base.pool].n;
                let body = harness(|| Arc::new(body));
                for i in 0..n {
                    let body = harness(|| body.clone());
                    let b = harness(|| self.base.clone());
                    self.base.spawn(move || {
                        let s = $name::make(&b);
                        body(&s, BroadcastContext { index: i, n, _m: PhantomData });
                    })
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R + Send,
            R: Send,
        {
            let pool = here();
            in_pool(pool, |_, _| {
                let base = ScopeBase::new(pool);
                let s = $name::make(&base);
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                base.complete(r)
            })
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R,
        {
            let base = ScopeBase::new(here());
            let s = $name::make(&base);
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            base.complete(r)
        }
    };
}
scope_type!(Scope, spawn, scope, in_place_scope);
scope_type!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

// ---------------------------------------------------------------- spawn, broadcast

fn spawn_in(pool: usize, f: impl FnOnce() + Send + 'static) {
    if !sched::on() {
        f();
        return;
    }
    let j = HeapJob::job_ref(f);
    match WORKER.with(|w| w.get()) {
        Some((p, i)) if p == pool => push_local(p, i, j),
        _ => inject(pool, j),
    }
    sched::point();
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(here(), f)
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(here(), f)
}
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}
fn broadcast_in<OP, R>(pool: usize, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = pools()[pool].n;
    if !sched::on() {
        return (0..n).map(|i| op(BroadcastContext { index: i, n, _m: PhantomData })).collect();
    }
    start(pool);
    let jobs: Vec<_> =
        (0..n).map(|i| (i, &op)).map(|(i, op)| StackJob::new(move |_| op(BroadcastContext { index: i, n, _m: PhantomData }))).collect();
    for (i, j) in jobs.iter().enumerate() {
        let r = j.job_ref();
        harness(|| pools()[pool].bcast[i].push_back(r));
    }
    for j in &jobs {
        if WORKER.with(|w| w.get()).is_some() {
            wait_until(&j.latch);
        } else {
            while !j.latch.load(SeqCst) {
                sched::block(&j.latch, false);
            }
        }
    }
    jobs.iter().map(|j| j.result()).collect()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_in(here(), op)
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let pool = here();
    let n = pools()[pool].n;
    let op = Arc::new(op);
    for i in 0..n {
        let op = op.clone();
        spawn_in(pool, move || op(BroadcastContext { index: i, n, _m: PhantomData }));
    }
}

// ---------------------------------------------------------------- pool queries and pools

pub fn max_num_threads() -> usize {
    65535
}
pub fn current_num_threads() -> usize {
    pools()[here()].n
}
pub fn current_thread_index() -> Option<usize> {
    WORKER.with(|w| w.get()).map(|w| w.1)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    WORKER.with(|w| w.get()).map(|(p, i)| !pools()[p].local[i].is_empty())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let (p, i) = WORKER.with(|w| w.get())?;
    sched::point();
    Some(match find_work(p, i) {
        Some(j) => {
            execute(j);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}
pub fn yield_local() -> Option<Yield> {
    let (p, i) = WORKER.with(|w| w.get())?;
    sched::point();
    Some(match take_local(p, i) {
        Some(j) => {
            execute(j);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

pub struct ThreadPool {
    pool: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").field("num_threads", &self.current_num_threads()).finish()
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_pool(self.pool, |_, _| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_in(self.pool, op)
    }
    pub fn current_num_threads(&self) -> usize {
        pools()[self.pool].n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        WORKER.with(|w| w.get()).filter(|w| w.0 == self.pool).map(|w| w.1)
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        self.current_thread_index().map(|i| !pools()[self.pool].local[i].is_empty())
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let base = ScopeBase::new(self.pool);
        let s = Scope::make(&base);
        let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
        base.complete(r)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let base = ScopeBase::new(self.pool);
        let s = ScopeFifo::make(&base);
        let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
        base.complete(r)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(self.pool, op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(self.pool, op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        let n = pools()[self.pool].n;
        let op = Arc::new(op);
        for i in 0..n {
            let op = op.clone();
            spawn_in(self.pool, move || op(BroadcastContext { index: i, n, _m: PhantomData }));
        }
    }
    pub fn yield_now(&self) -> Option<Yield> {
        self.current_thread_index().and_then(|_| yield_now())
    }
    pub fn yield_local(&self) -> Option<Yield> {
        self.current_thread_index().and_then(|_| yield_local())
    }
}

pub struct ThreadPoolBuildError(());
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the global thread pool has already been initialized")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct DefaultSpawn;
pub struct CustomSpawn<F>(#[allow(dead_code)] F);
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadBuilder").field("index", &self.index).finish()
    }
}

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _s: PhantomData<fn(S)>,
}
impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder").finish()
    }
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _s: PhantomData }
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let p = self.build()?;
        Ok(with_pool(&p))
    }
    pub fn spawn_handler<F>(self, _spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> std::io::Result<()>,
    {
        ThreadPoolBuilder { n: self.n, _s: PhantomData }
    }
}
impl<S> ThreadPoolBuilder<S> {
    fn size(&self) -> usize {
        match if self.n == 0 { conf().threads } else { self.n } {
            n if n > 128 => 128,
            n => n,
        }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        global();
        Ok(ThreadPool { pool: new_pool(self.size()) })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if !pools().is_empty() {
            return Err(ThreadPoolBuildError(()));
        }
        new_pool(self.size());
        Ok(())
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
}
