//! Outside the runs: one forked process per run, many in parallel; aggregation, shrinking, replay.
use crate::choice;
use crate::rng::mix2;
use crate::run;
use crate::shared::{self, text};
use crate::{cov, heap, moved, sched};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub type Choices = [Vec<u32>; 3];

pub enum Mode<'a> {
    Seed(u64),
    Replay(&'a Choices),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Status {
    Ok,
    Violation,
    Harness(String),
    Timeout,
}
#[derive(Debug, Clone)]
pub struct Outcome {
    pub status: Status,
    pub class: String,
    pub detail: String,
}

static LEFT: AtomicU64 = AtomicU64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
static SAME: AtomicU64 = AtomicU64::new(0);
const BEAT: u64 = 15;
extern "C" fn beat(_: i32) {
    let now = sched::steps().wrapping_add(moved::bytes()).wrapping_add(sched::switches() << 40);
    let same = if SEEN.swap(now, SeqCst) == now { SAME.fetch_add(1, SeqCst) + 1 } else { SAME.swap(0, SeqCst) & 0 };
    let left = LEFT.load(SeqCst).saturating_sub(BEAT);
    LEFT.store(left, SeqCst);
    if same >= 2 || left == 0 {
        let s = shared::get();
        s.stuck = (same >= 2) as u32;
        unsafe {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::kill(libc::getpid(), libc::SIGALRM);
        }
        return;
    }
    unsafe { libc::alarm(BEAT as u32) };
}
/// Ends this process (SIGALRM) after so many seconds, or as soon as it does nothing any more.
fn watch(wall_s: u32) {
    unsafe {
        if wall_s as u64 > BEAT {
            LEFT.store(wall_s as u64, SeqCst);
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = beat as extern "C" fn(i32) as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
            libc::alarm(BEAT as u32);
        } else {
            libc::alarm(wall_s);
        }
    }
}
/// Runs one simulation in a forked child; everything it leaves behind is in the shared region.
pub fn run_child(mode: Mode, wall_s: u32, body: fn()) -> Outcome {
    shared::reset();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Outcome { status: Status::Harness("fork failed".into()), class: String::new(), detail: String::new() };
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            watch(wall_s);
            match mode {
                Mode::Seed(s) => choice::init_seed(s),
                Mode::Replay(c) => choice::init_replay(c.clone()),
            }
            body();
            run::finish_ok();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                return Outcome { status: Status::Harness("waitpid failed".into()), class: String::new(), detail: String::new() };
            }
        }
        let s = shared::get();
        let mut o = Outcome { status: Status::Ok, class: text(&s.class, s.class_len), detail: text(&s.detail, s.detail_len) };
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM {
                o.status = Status::Timeout;
            } else if sig == libc::SIGKILL {
                o.status = Status::Harness("killed".into());
            } else {
                o.status = Status::Violation;
                o.class = format!("crash:signal {sig}");
                o.detail = format!("died in phase {}; last panic: {}", text(&s.phase, s.phase_len), text(&s.panic, s.panic_len));
            }
            return o;
        }
        o.status = match s.status {
            shared::OK => Status::Ok,
            shared::VIOLATION => Status::Violation,
            shared::HARNESS_ERROR => Status::Harness(o.detail.clone()),
            _ => {
                if libc::WEXITSTATUS(st) == 101 || libc::WEXITSTATUS(st) == 100 {
                    Status::Harness(format!("harness panic: {} (phase {})", text(&s.panic, s.panic_len), text(&s.phase, s.phase_len)))
                } else {
                    o.class = "crash:exit".into();
                    o.detail = format!("the process exited in phase {}", text(&s.phase, s.phase_len));
                    Status::Violation
                }
            }
        };
        o
    }
}
/// A run that exceeds its wall clock is repeated with more before it counts: a loaded machine is no
/// hang. It counts when nothing moves any more; as long as it moves, the bound on its steps decides,
/// and it is given up. Without such a bound it counts after a time no machine is that slow in.
fn run_patient<'a>(mode: impl Fn() -> Mode<'a>, body: fn()) -> Outcome {
    let mut o = run_child(mode(), BEAT as u32, body);
    for wall in [60, 300] {
        if o.status != Status::Timeout {
            return o;
        }
        o = run_child(mode(), wall, body);
        let s = shared::get();
        if o.status == Status::Timeout && s.stuck == 0 && s.bounded != 0 {
            return o;
        }
        if o.status == Status::Timeout && (s.stuck != 0 || wall == 300) {
            o.status = Status::Violation;
            o.class = "progress:wall".into();
            o.detail = if s.stuck != 0 {
                format!("nothing moves any more, in phase {}", text(&s.phase, s.phase_len))
            } else {
                format!("no end within {wall} s, in phase {}", text(&s.phase, s.phase_len))
            };
        }
    }
    o
}

pub fn recorded() -> Choices {
    let s = shared::get();
    let f = |i: usize| s.choices[i][..s.n_choices[i] as usize].to_vec();
    [f(0), f(1), f(2)]
}

#[derive(Serialize, Deserialize, Default)]
pub struct Found {
    pub index: u64,
    pub seed: u64,
    pub class: String,
    pub detail: String,
}
#[derive(Serialize, Deserialize, Default)]
struct Part {
    runs: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    scheds: Vec<u64>,
    probes: BTreeMap<String, u64>,
    probe_runs: BTreeMap<String, u64>,
    steps: u64,
    sim_us: u64,
    switches: u64,
    steals: u64,
    choices: u64,
    max_peak: u64,
    edges: Vec<u32>,
    samples: Vec<(u64, String)>,
    found: Vec<Found>,
    known: Vec<Found>,
    errors: Vec<String>,
    order_hash: u64,
}
#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub class: String,
    #[serde(default)]
    pub contains: String,
}

pub struct Opts {
    pub prop: String,
    pub flavour: String,
    pub runs: u64,
    pub base: u64,
    pub workers: u64,
    pub seconds: u64,
    pub shrink_s: u64,
    pub out: String,
    pub replay_path: String,
    pub known: Vec<Known>,
}

#[repr(C)]
struct Ctrl {
    stop: AtomicU32,
    next: AtomicU64,
    beat: AtomicU64,
}

pub fn prop_seed(base: u64, prop: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    shared::fnv(&mut h, prop.as_bytes());
    mix2(base, h)
}

fn is_known(o: &Opts, f: &Outcome) -> bool {
    o.known.iter().any(|k| k.property == o.prop && k.class == f.class && f.detail.contains(&k.contains))
}

/// The report for check.py. Returns the process exit code: 0 held, 1 violated, 2 harness trouble.
pub fn check(o: &Opts, body: fn()) -> i32 {
    let t0 = Instant::now();
    run::SUPERVISOR.store(unsafe { libc::getpid() }, SeqCst);
    let ctrl = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Ctrl)
    };
    let seed0 = prop_seed(o.base, &o.prop);
    let dir = format!("{}.parts", o.out);
    let _ = std::fs::create_dir_all(&dir);
    let mut pids = vec![];
    for w in 0..o.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            run::SUPERVISOR.store(unsafe { libc::getpid() }, SeqCst);
            shared::create();
            worker(o, w, ctrl, seed0, t0, &dir, body);
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let wall = t0.elapsed().as_secs_f64();
    shared::create();
    let mut m = Part::default();
    let (mut hs, mut ss, mut edges) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut missing = 0;
    for w in 0..o.workers {
        let p: Part = match std::fs::read(format!("{dir}/{w}")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(p) => p,
            None => {
                missing += 1;
                continue;
            }
        };
        m.runs += p.runs;
        m.nontrivial += p.nontrivial;
        hs.extend(p.hashes);
        ss.extend(p.scheds);
        for (k, v) in p.probes {
            *m.probes.entry(k).or_default() += v;
        }
        for (k, v) in p.probe_runs {
            *m.probe_runs.entry(k).or_default() += v;
        }
        m.steps += p.steps;
        m.sim_us += p.sim_us;
        m.switches += p.switches;
        m.steals += p.steals;
        m.choices += p.choices;
        m.max_peak = m.max_peak.max(p.max_peak);
        edges.extend(p.edges);
        m.samples.extend(p.samples);
        m.found.extend(p.found);
        m.known.extend(p.known);
        m.errors.extend(p.errors);
        m.order_hash ^= p.order_hash;
    }
    let _ = std::fs::remove_dir_all(&dir);
    if missing > 0 {
        m.errors.push(format!("{missing} workers died"));
    }
    m.found.sort_by_key(|f| f.index);
    m.samples.sort();
    m.samples.truncate(3);
    let mut viol = serde_json::Value::Null;
    let mut code = if m.errors.is_empty() { 0 } else { 2 };
    if let Some(f) = m.found.first() {
        code = 1;
        viol = minimise(o, f, body);
    }
    let rep = serde_json::json!({
        "flavour": o.flavour, "runs": m.runs, "nontrivial_runs": m.nontrivial,
        "distinct_histories": hs.len(), "distinct_schedules": ss.len(),
        "probes": m.probes, "probe_runs": m.probe_runs,
        "steps": m.steps, "sim_time_us": m.sim_us, "switches": m.switches, "steals": m.steals, "choices": m.choices,
        "max_peak_bytes": m.max_peak, "edges_hit": edges.len(), "edges_total": cov::edges_total(),
        "wall_s": wall, "base_seed": o.base, "first_seeds": (0..3).map(|i| mix2(seed0, i)).collect::<Vec<_>>(),
        "samples": m.samples.iter().map(|(s, l)| serde_json::json!({"seed": s, "history": l})).collect::<Vec<_>>(),
        "violation": viol, "found": m.found.len(),
        "known": m.known, "errors": m.errors, "result_hash": format!("{:016x}", m.order_hash),
    });
    if std::fs::write(&o.out, serde_json::to_vec_pretty(&rep).unwrap()).is_err() {
        return 2;
    }
    code
}

fn worker(o: &Opts, w: u64, ctrl: &Ctrl, seed0: u64, t0: Instant, dir: &str, body: fn()) {
    let mut p = Part::default();
    let (mut hs, mut ss) = (BTreeSet::new(), BTreeSet::new());
    let limit = Duration::from_secs(o.seconds);
    loop {
        if ctrl.stop.load(Relaxed) != 0 || t0.elapsed() > limit {
            break;
        }
        let i = ctrl.next.fetch_add(1, Relaxed);
        if i >= o.runs {
            break;
        }
        let seed = mix2(seed0, i);
        let out = run_patient(|| Mode::Seed(seed), body);
        let s = shared::get();
        p.runs += 1;
        match &out.status {
            Status::Ok => {}
            Status::Violation => {
                let f = Found { index: i, seed, class: out.class.clone(), detail: out.detail.clone() };
                if is_known(o, &out) {
                    if p.known.len() < 50 {
                        p.known.push(f);
                    }
                } else {
                    p.found.push(f);
                    ctrl.stop.store(1, Relaxed);
                }
            }
            Status::Timeout => {
                *p.probes.entry("run given up, too slow here".into()).or_default() += 1;
                continue;
            }
            Status::Harness(e) => {
                if p.errors.len() < 5 {
                    p.errors.push(format!("seed {seed}: {e}"));
                }
                if p.errors.len() == 5 {
                    ctrl.stop.store(1, Relaxed);
                }
            }
        }
        // order independent, so that it does not depend on which worker ran what
        p.order_hash ^= mix2(seed, s.log_hash);
        p.steps += s.steps;
        p.sim_us += s.sim_time_us;
        p.switches += s.switches;
        p.steals += s.steals;
        p.choices += s.n_choices.iter().map(|x| *x as u64).sum::<u64>();
        p.max_peak = p.max_peak.max(s.peak_bytes);
        if s.switches > 0 {
            ss.insert(s.sched_hash);
        }
        if s.nontrivial != 0 {
            p.nontrivial += 1;
            hs.insert(s.log_hash);
            if p.samples.len() < 1 {
                let l = text(&s.log, s.log_len.min(2500));
                p.samples.push((seed, l));
            }
        }
        for pr in &s.probes[..s.n_probes as usize] {
            let k = text(&pr.name, pr.len);
            *p.probes.entry(k.clone()).or_default() += pr.count;
            *p.probe_runs.entry(k).or_default() += 1;
        }
    }
    p.hashes = hs.into_iter().collect();
    p.scheds = ss.into_iter().collect();
    p.edges = (0..shared::EDGES as u32).filter(|i| shared::get().edges[*i as usize] != 0).collect();
    let _ = std::fs::write(format!("{dir}/{w}"), serde_json::to_vec(&p).unwrap());
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub format: u32,
    pub property: String,
    pub flavour: String,
    pub seed: u64,
    pub class: String,
    pub detail: String,
    pub minimised: bool,
    pub log_hash: String,
    pub plan: Vec<u32>,
    pub sched: Vec<u32>,
    pub fault: Vec<u32>,
    pub faults_fired: BTreeMap<String, u64>,
    pub history: Vec<String>,
}

fn same(a: &Outcome, class: &str) -> bool {
    a.status == Status::Violation && a.class == class
}

fn minimise(o: &Opts, f: &Found, body: fn()) -> serde_json::Value {
    let t0 = Instant::now();
    let limit = Duration::from_secs(o.shrink_s);
    let first = run_child(Mode::Seed(f.seed), 45, body);
    let mut class = f.class.clone();
    let reproducible = same(&first, &class);
    if !reproducible && first.status == Status::Violation {
        class = first.class.clone();
    }
    let mut best = recorded();
    let orig: usize = best.iter().map(|v| v.len()).sum();
    let mut tries = 0u64;
    if first.status == Status::Violation && class != "progress:wall" {
        let mut attempt = |c: &Choices, best: &mut Choices| -> bool {
            if t0.elapsed() > limit {
                return false;
            }
            tries += 1;
            let r = run_child(Mode::Replay(c), 15, body);
            if !same(&r, &class) {
                return false;
            }
            let n = recorded();
            // keep what was actually consumed
            let key = |c: &Choices| (c.iter().map(|v| v.len()).sum::<usize>(), c.iter().flatten().map(|x| *x as u64).sum::<u64>());
            if key(&n) < key(best) {
                *best = n;
                true
            } else {
                false
            }
        };
        let mut round = 0;
        loop {
            let before = best.clone();
            for st in [1usize, 2, 0] {
                // nothing at all from this stream
                let mut c = best.clone();
                c[st].iter_mut().for_each(|x| *x = 0);
                attempt(&c, &mut best);
                // cut the tail
                let mut k = best[st].len() / 2;
                while k > 0 {
                    if best[st].len() > k {
                        let mut c = best.clone();
                        let n = c[st].len() - k;
                        c[st].truncate(n);
                        if attempt(&c, &mut best) {
                            continue;
                        }
                    }
                    k /= 2;
                }
                // drop and zero blocks
                let mut size = (best[st].len() / 2).next_power_of_two().min(256);
                while size >= 1 {
                    let mut at = 0;
                    while at < best[st].len() {
                        let mut c = best.clone();
                        let e = (at + size).min(c[st].len());
                        c[st].drain(at..e);
                        if attempt(&c, &mut best) {
                            continue;
                        }
                        let e = (at + size).min(best[st].len());
                        if best[st][at..e].iter().any(|x| *x != 0) {
                            let mut c = best.clone();
                            c[st][at..e].iter_mut().for_each(|x| *x = 0);
                            attempt(&c, &mut best);
                        }
                        at += size;
                        if t0.elapsed() > limit {
                            break;
                        }
                    }
                    size /= 2;
                }
                // smaller values
                for i in 0..best[st].len() {
                    if i >= best[st].len() || t0.elapsed() > limit {
                        break;
                    }
                    let v = best[st][i];
                    for n in [1, v / 16, v / 2, v.saturating_sub(1)] {
                        if i < best[st].len() && n < best[st][i] {
                            let mut c = best.clone();
                            c[st][i] = n;
                            if attempt(&c, &mut best) {
                                break;
                            }
                        }
                    }
                }
            }
            round += 1;
            if before == best || t0.elapsed() > limit || round > 20 {
                break;
            }
        }
    }
    // the final file: replay it twice from the recorded choices
    let a = run_child(Mode::Replay(&best), 45, body);
    let ha = shared::get().log_hash;
    let b = run_child(Mode::Replay(&best), 45, body);
    let hb = shared::get().log_hash;
    let stable = same(&a, &class) && same(&b, &class) && ha == hb;
    let s = shared::get();
    let rp = Replay {
        format: 1,
        property: o.prop.clone(),
        flavour: o.flavour.clone(),
        seed: f.seed,
        class: class.clone(),
        detail: if b.detail.is_empty() { f.detail.clone() } else { b.detail.clone() },
        minimised: stable,
        log_hash: format!("{hb:016x}"),
        plan: best[0].clone(),
        sched: best[1].clone(),
        fault: best[2].clone(),
        faults_fired: s.probes[..s.n_probes as usize]
            .iter()
            .map(|p| (text(&p.name, p.len), p.count))
            .filter(|(k, _)| k.starts_with("fault:"))
            .collect(),
        history: text(&s.log, s.log_len).lines().map(|l| l.to_string()).collect(),
    };
    let n: usize = best.iter().map(|v| v.len()).sum();
    let _ = std::fs::write(&o.replay_path, serde_json::to_vec_pretty(&rp).unwrap());
    serde_json::json!({
        "class": class, "detail": rp.detail, "seed": f.seed, "replay": o.replay_path,
        "reproduced_from_seed": reproducible, "replay_stable": stable,
        "choices_before": orig, "choices_after": n, "shrink_runs": tries, "shrink_s": t0.elapsed().as_secs_f64(),
    })
}

/// Replays a file in this fresh process. 1: the same violation; 0: no violation; 2: something else.
pub fn replay(path: &str, body: fn()) -> i32 {
    shared::create();
    run::SUPERVISOR.store(unsafe { libc::getpid() }, SeqCst);
    let r: Replay = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let c = [r.plan.clone(), r.sched.clone(), r.fault.clone()];
    let o = run_patient(|| Mode::Replay(&c), body);
    let s = shared::get();
    print!("{}", text(&s.log, s.log_len));
    let h = format!("{:016x}", s.log_hash);
    match o.status {
        Status::Violation => {
            println!("REPLAYED {}: {}", o.class, o.detail);
            println!("same class: {}, identical history: {}", o.class == r.class, h == r.log_hash);
            1
        }
        Status::Ok => {
            println!("no violation on this tree");
            0
        }
        s => {
            println!("{s:?}");
            2
        }
    }
}
/// Runs one seed and prints its history (debugging).
pub fn one(seed: u64, body: fn()) -> i32 {
    shared::create();
    run::SUPERVISOR.store(unsafe { libc::getpid() }, SeqCst);
    let o = run_patient(|| Mode::Seed(seed), body);
    let s = shared::get();
    print!("{}", text(&s.log, s.log_len));
    println!("{:?} hash {:016x} steps {} switches {} choices {:?} peak {} allocs {}", o, s.log_hash, s.steps, s.switches, s.n_choices, s.peak_bytes, s.allocs);
    for p in &s.probes[..s.n_probes as usize] {
        println!("  {} x{}", text(&p.name, p.len), p.count);
    }
    if o.status == Status::Violation { 1 } else if o.status == Status::Ok { 0 } else { 2 }
}
pub fn init() {
    heap::init();
    run::install_hooks();
}
