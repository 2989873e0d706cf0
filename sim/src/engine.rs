//! The driver: runs are spread over forked children, each run is decided by (seed, property,
//! index) alone; crashes, hangs and stack overflows of the code under test end a child, not the
//! driver. Violations are minimised, written as a replay file and re-run from it.

use crate::rng::{Rng, Trace};
use crate::seams;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// Kept while minimising.
    pub class: String,
    pub detail: String,
}
pub fn viol<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail,
    })
}

pub struct Ctx {
    pub trace: Trace,
    pub steps: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub note: String,
    pub verbose: bool,
}
impl Ctx {
    pub fn new() -> Self {
        Ctx {
            trace: Trace::new(),
            steps: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            max: BTreeMap::new(),
            nontrivial: false,
            note: String::new(),
            verbose: false,
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.faults_n(k, 1)
    }
    pub fn faults_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.into()).or_default() += n
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_default() += 1
    }
    pub fn probe_n(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.into()).or_default() += n
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.max.entry(k.into()).or_default();
        *e = (*e).max(v);
    }
}

pub struct Meta {
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub time_unit: &'static str,
    pub assumptions: &'static [&'static str],
}

pub trait Prop {
    const ID: &'static str;
    type Plan: Serialize + DeserializeOwned + Clone + Send + 'static;
    /// Runs of the quick and the thorough tier.
    const RUNS: (u64, u64);
    /// Run on the child's main thread (so that it can fork), not on a thread of its own.
    const ON_MAIN: bool = false;
    const CPU_LIMIT: u64 = 15;
    fn gen(r: &mut Rng, i: u64) -> Self::Plan;
    fn exec(p: &Self::Plan, c: &mut Ctx) -> Result<(), Violation>;
    fn shrink(p: &Self::Plan) -> Vec<Self::Plan>;
    fn meta() -> Meta;
    /// Recorded findings: (id, plan, text). Each is run by itself; if it still fails it is shown.
    fn known() -> Vec<(&'static str, &'static str, Box<dyn Fn() -> bool>)> {
        vec![]
    }
}

/// Run a piece of the code under test; panics become violations.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Violation> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            seams::measure_abort();
            if let Some(i) = p.downcast_ref::<seams::Injected>() {
                viol(&format!("{}", i.0), format!("{what}: {}", i.0))
            } else {
                let m = seams::last_panic();
                let loc: String = m.split(": ").next().unwrap_or("").to_string();
                let loc = loc.rsplit('/').next().unwrap_or("").to_string();
                viol(
                    &format!("panic at {loc}"),
                    format!("{what}: panicked at {m}"),
                )
            }
        }
    }
}

// ------------------------------------------------------------ child processes

pub enum Ended {
    Data(Vec<u8>),
    Signal(i32),
    Exit(i32),
}

pub struct Shared {
    p: *mut u64,
}
impl Shared {
    pub fn new() -> Self {
        // Safety: an anonymous shared page.
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut u64 }
    }
    pub fn set(&self, i: usize, v: u64) {
        unsafe { self.p.add(i).write_volatile(v) }
    }
    pub fn get(&self, i: usize) -> u64 {
        unsafe { self.p.add(i).read_volatile() }
    }
    pub fn addr(&self, i: usize) -> usize {
        unsafe { self.p.add(i) as usize }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut _, 4096) };
    }
}

pub fn cpu_limit(secs: u64) {
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval {
                tv_sec: 0,
                tv_usec: 0,
            },
            it_value: libc::timeval {
                tv_sec: secs as i64,
                tv_usec: 0,
            },
        };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

pub struct Child {
    pub pid: i32,
    pub fd: i32,
    pub buf: Vec<u8>,
}

/// Fork; the child runs `f`, writes what it returns, and ends.
pub fn spawn(f: impl FnOnce() -> Vec<u8>) -> Child {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // Crash messages of the runtime (stack overflow, allocation failure) are expected.
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if null >= 0 && std::env::var_os("SIM_DEBUG").is_none() {
                libc::dup2(null, 2);
            }
            let lim = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let out = f();
            let mut off = 0;
            while off < out.len() {
                let n = libc::write(fds[1], out[off..].as_ptr() as *const _, out.len() - off);
                if n <= 0 {
                    libc::_exit(3);
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Child {
            pid,
            fd: fds[0],
            buf: vec![],
        }
    }
}

impl Child {
    /// Read what is there; true at the end of the stream.
    pub fn pump(&mut self) -> bool {
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len()) };
        if n > 0 {
            self.buf.extend_from_slice(&b[..n as usize]);
            return false;
        }
        true
    }
    pub fn reap(self) -> Ended {
        let mut st = 0;
        unsafe {
            libc::close(self.fd);
            while libc::waitpid(self.pid, &mut st, 0) < 0 {}
        }
        if libc::WIFSIGNALED(st) {
            Ended::Signal(libc::WTERMSIG(st))
        } else if libc::WEXITSTATUS(st) != 0 {
            Ended::Exit(libc::WEXITSTATUS(st))
        } else {
            Ended::Data(self.buf)
        }
    }
    pub fn wait(mut self) -> Ended {
        while !self.pump() {}
        self.reap()
    }
    pub fn kill(self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
        }
        let _ = self.reap();
    }
}

pub const STACK: usize = 2 << 20;

/// Run `f` on a thread with the simulator's stack.
pub fn on_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|_| {
            // A panic outside of guard(): the harness itself is broken.
            eprintln!("harness panic: {}", seams::last_panic());
            unsafe { libc::_exit(4) }
        })
}

fn signal_violation(sig: i32, oom: u64) -> Violation {
    let (class, detail) = match sig {
        libc::SIGPROF | libc::SIGXCPU => (
            "hang".to_string(),
            "the run used up its CPU time without ending".to_string(),
        ),
        _ if oom != 0 => (
            "out of memory".to_string(),
            format!("an allocation of {oom} bytes was requested beyond the simulated memory"),
        ),
        libc::SIGABRT => (
            "abort".to_string(),
            "the process aborted (stack overflow or abort)".to_string(),
        ),
        libc::SIGSEGV | libc::SIGBUS => (
            "crash".to_string(),
            format!("the process died of signal {sig} (stack overflow or wild access)"),
        ),
        s => (
            format!("signal {s}"),
            format!("the process died of signal {s}"),
        ),
    };
    Violation { class, detail }
}

// -------------------------------------------------------------------- chunks

#[derive(Serialize, Deserialize, Default)]
struct ChunkStats {
    runs: u64,
    faulted: u64,
    steps: u64,
    traces: Vec<u64>,
    all_trace: Vec<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    violation: Option<(u64, Violation)>,
    log_lines: u64,
}

/// Execute one plan (in the current process and thread).
fn one<P: Prop>(plan: &P::Plan, c: &mut Ctx) -> Result<(), Violation> {
    cpu_limit(P::CPU_LIMIT);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| P::exec(plan, c))) {
        Ok(r) => r,
        Err(e) => {
            // Outside of guard(): a panic of the code under test (in a destructor, say) is a
            // violation all the same; any other is the harness's own.
            seams::measure_abort();
            let m = seams::last_panic();
            let file = m.split(": ").next().unwrap_or("").to_string();
            if !file.contains("llvm-") {
                std::panic::resume_unwind(e);
            }
            let loc = file.rsplit('/').next().unwrap_or("").to_string();
            viol(&format!("panic at {loc}"), format!("panicked at {m}"))
        }
    }
}

fn chunk<P: Prop>(seed: u64, lo: u64, hi: u64, sh: &Shared, samples: usize) -> ChunkStats {
    let mut st = ChunkStats::default();
    for i in lo..hi {
        sh.set(0, i);
        let mut r = Rng::for_run(seed, P::ID, i);
        let plan = P::gen(&mut r, i);
        let mut c = Ctx::new();
        let res = one::<P>(&plan, &mut c);
        st.runs += 1;
        st.steps += c.steps;
        if !c.faults.is_empty() {
            st.faulted += 1;
        }
        for (k, v) in c.faults {
            *st.faults.entry(k).or_default() += v;
        }
        for (k, v) in c.probes {
            *st.probes.entry(k).or_default() += v;
        }
        for (k, v) in c.max {
            let e = st.max.entry(k).or_default();
            *e = (*e).max(v);
        }
        st.all_trace.push(c.trace.0);
        if c.nontrivial {
            st.traces.push(c.trace.0);
            if st.samples.len() < samples {
                let j = serde_json::to_string(&plan).unwrap();
                let j: String = j.chars().take(1200).collect();
                st.samples
                    .push(serde_json::json!({"index": i, "plan": j, "observed": c.note}));
            }
        }
        if let Err(v) = res {
            st.violation = Some((i, v));
            break;
        }
    }
    cpu_limit(0);
    st.log_lines = seams::LOG_LINES.load(std::sync::atomic::Ordering::Relaxed);
    st
}

fn spawn_chunk<P: Prop>(
    seed: u64,
    lo: u64,
    hi: u64,
    sh: &std::sync::Arc<Shared>,
    samples: usize,
) -> Child {
    let sh2 = SendShared(sh.clone());
    spawn(move || {
        let st = in_child::<P, _>(sh2, move |s| chunk::<P>(seed, lo, hi, s, samples));
        serde_json::to_vec(&st).unwrap()
    })
}

struct SendShared(std::sync::Arc<Shared>);
unsafe impl Send for SendShared {}

fn in_child<P: Prop, R: Send + 'static>(
    sh: SendShared,
    f: impl FnOnce(&Shared) -> R + Send + 'static,
) -> R {
    seams::OOM_NOTE.store(sh.0.addr(1), std::sync::atomic::Ordering::Relaxed);
    if P::ON_MAIN {
        f(&sh.0)
    } else {
        on_stack(move || {
            let s = sh;
            f(&s.0)
        })
    }
}

/// Execute one plan in a child of its own.
pub fn isolated<P: Prop>(plan: &P::Plan) -> Result<(), Violation> {
    isolated_trace::<P>(plan).map(|_| ())
}
pub fn isolated_trace<P: Prop>(plan: &P::Plan) -> Result<u64, Violation> {
    let sh = std::sync::Arc::new(Shared::new());
    let sh2 = SendShared(sh.clone());
    let plan = plan.clone();
    let ch = spawn(move || {
        let out: (Option<Violation>, u64) = in_child::<P, _>(sh2, move |_| {
            let mut c = Ctx::new();
            let r = one::<P>(&plan, &mut c);
            cpu_limit(0);
            (r.err(), c.trace.0)
        });
        serde_json::to_vec(&out).unwrap()
    });
    match ch.wait() {
        Ended::Data(d) => {
            let (v, t): (Option<Violation>, u64) = serde_json::from_slice(&d).expect("child data");
            match v {
                Some(v) => Err(v),
                None => Ok(t),
            }
        }
        Ended::Signal(s) => Err(signal_violation(s, sh.get(1))),
        Ended::Exit(c) => {
            eprintln!("harness: a child ended with {c}; SIM_DEBUG=1 shows why");
            std::process::exit(2)
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub class: String,
    pub detail: String,
    pub shrink_steps: u64,
    pub plan: serde_json::Value,
}

fn minimise<P: Prop>(plan: P::Plan, v: Violation) -> (P::Plan, Violation, u64) {
    let t0 = Instant::now();
    let slow = v.class == "hang";
    let (max_tries, max_s) = if slow { (6, 90.0) } else { (1500, 40.0) };
    let mut best = plan;
    let mut bv = v;
    let mut tries = 0u64;
    let mut steps = 0;
    'outer: loop {
        crate::shrink::begin();
        for cand in P::shrink(&best) {
            tries += 1;
            if tries > max_tries || t0.elapsed().as_secs_f64() > max_s {
                break 'outer;
            }
            if let Err(nv) = isolated::<P>(&cand) {
                if nv.class == bv.class {
                    best = cand;
                    bv = nv;
                    steps += 1;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (best, bv, steps)
}

fn workers() -> usize {
    if let Ok(w) = std::env::var("SIM_WORKERS") {
        return w.parse().unwrap();
    }
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(2, 8)
}

pub fn replay<P: Prop>(rp: &Replay, path: &str) -> i32 {
    let plan: P::Plan = serde_json::from_value(rp.plan.clone()).expect("plan");
    match isolated::<P>(&plan) {
        Ok(()) => {
            println!("replay of {path}: no violation");
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", P::ID, path);
            1
        }
    }
}

fn report<P: Prop>(seed: u64, idx: u64, v: Violation, dir: &str) -> String {
    let mut r = Rng::for_run(seed, P::ID, idx);
    let plan = P::gen(&mut r, idx);
    let orig = plan.clone();
    let ov = v.clone();
    let (plan, v, steps) = minimise::<P>(plan, v);
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let path = format!("{dir}/replays/{}-s{}-i{}.json", P::ID, seed, idx);
    let write = |plan: &P::Plan, v: &Violation, steps: u64| {
        let rp = Replay {
            property: P::ID.into(),
            seed,
            index: idx,
            class: v.class.clone(),
            detail: v.detail.clone(),
            shrink_steps: steps,
            plan: serde_json::to_value(plan).unwrap(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
    };
    write(&plan, &v, steps);
    let again = || {
        std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path])
            .output()
            .map(|o| o.status.code() == Some(1))
            .unwrap_or(false)
    };
    if !again() {
        println!(
            "note: the minimised plan did not fail again in a fresh process; keeping the original"
        );
        write(&orig, &ov, 0);
        if !again() {
            println!("note: the original plan did not fail again either: the outcome depends on something outside of the plan");
        }
        println!("run {idx}: {}: {}", ov.class, ov.detail);
    } else {
        println!(
            "run {idx}: {}: {} (minimised in {steps} steps)",
            v.class, v.detail
        );
    }
    path
}

pub fn check<P: Prop>(seed: u64, tier: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let total = std::env::var("SIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { P::RUNS.1 } else { P::RUNS.0 });
    let cap_s: f64 = std::env::var("SIM_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000.0 } else { 240.0 });
    println!("{}: seed {seed}, tier {tier}, {total} runs", P::ID);

    let mut known_shown = vec![];
    for (id, text, f) in P::known() {
        let sh = std::sync::Arc::new(Shared::new());
        let sh2 = SendShared(sh.clone());
        let ch = spawn(move || {
            // Run on the child's own thread; crashes count as "still failing".
            seams::OOM_NOTE.store(sh2.0.addr(1), std::sync::atomic::Ordering::Relaxed);
            cpu_limit(15);
            vec![f() as u8]
        });
        let failing = match ch.wait() {
            Ended::Data(d) => d == [1],
            _ => true,
        };
        if failing {
            println!("KNOWN-FINDING: property={} {id}: {text}", P::ID);
            known_shown.push(id);
        }
    }

    let w = workers();
    let per = (total / (w as u64 * 12)).clamp(1, if total > 1_500_000 { 4000 } else { 400 });
    let mut queue: VecDeque<(u64, u64)> = VecDeque::new();
    let mut lo = 0;
    while lo < total {
        queue.push_back((lo, (lo + per).min(total)));
        lo += per;
    }
    let mut running: Vec<(Child, std::sync::Arc<Shared>, u64, u64)> = vec![];
    let mut all = ChunkStats::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut first: Option<(u64, Violation)> = None;
    let mut capped = false;
    let mut first_traces: BTreeMap<u64, u64> = BTreeMap::new();
    loop {
        if t0.elapsed().as_secs_f64() > cap_s && !queue.is_empty() {
            queue.clear();
            capped = true;
        }
        while running.len() < w {
            // Nothing after the earliest known violation is of interest.
            match queue.pop_front() {
                Some((lo, _)) if first.as_ref().map(|f| lo > f.0).unwrap_or(false) => continue,
                Some((lo, hi)) => {
                    let sh = std::sync::Arc::new(Shared::new());
                    sh.set(0, lo);
                    let n = if lo == 0 { 3 } else { 0 };
                    running.push((spawn_chunk::<P>(seed, lo, hi, &sh, n), sh, lo, hi));
                }
                None => break,
            }
        }
        if running.is_empty() {
            break;
        }
        let mut pfds: Vec<libc::pollfd> = running
            .iter()
            .map(|c| libc::pollfd {
                fd: c.0.fd,
                events: libc::POLLIN,
                revents: 0,
            })
            .collect();
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as _, 1000) };
        let mut i = 0;
        let mut k = 0;
        while i < running.len() {
            let ready = pfds[k].revents != 0;
            k += 1;
            if ready && running[i].0.pump() {
                let (ch, sh, lo, hi) = running.remove(i);
                match ch.reap() {
                    Ended::Data(d) => {
                        let st: ChunkStats = serde_json::from_slice(&d).expect("chunk data");
                        all.runs += st.runs;
                        all.faulted += st.faulted;
                        all.steps += st.steps;
                        all.log_lines += st.log_lines;
                        distinct.extend(st.traces.iter());
                        for (j, t) in st.all_trace.iter().enumerate() {
                            if lo + (j as u64) < 64 {
                                first_traces.insert(lo + j as u64, *t);
                            }
                        }
                        for (k, v) in st.faults {
                            *all.faults.entry(k).or_default() += v;
                        }
                        for (k, v) in st.probes {
                            *all.probes.entry(k).or_default() += v;
                        }
                        for (k, v) in st.max {
                            let e = all.max.entry(k).or_default();
                            *e = (*e).max(v);
                        }
                        all.samples.extend(st.samples);
                        if let Some((idx, v)) = st.violation {
                            if first.as_ref().map(|f| idx < f.0).unwrap_or(true) {
                                first = Some((idx, v));
                            }
                        }
                    }
                    Ended::Signal(s) => {
                        let idx = sh.get(0);
                        let v = signal_violation(s, sh.get(1));
                        if s == libc::SIGKILL {
                            eprintln!("harness: a child was killed from outside (memory?)");
                            for (c, _, _, _) in running {
                                c.kill();
                            }
                            return 2;
                        }
                        all.runs += idx - lo + 1;
                        if first.as_ref().map(|f| idx < f.0).unwrap_or(true) {
                            first = Some((idx, v));
                        }
                        let _ = hi;
                    }
                    Ended::Exit(c) => {
                        eprintln!(
                            "harness: chunk {lo}..{hi} ended with {c} at run {}",
                            sh.get(0)
                        );
                        for (c, _, _, _) in running {
                            c.kill();
                        }
                        return 2;
                    }
                }
            } else {
                i += 1;
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // Determinism: the first runs again, in fresh children, one per run.
    let mut rerun = 0u64;
    let mut differing = 0u64;
    if first.is_none() {
        for (i, t) in first_traces.iter().take(if thorough { 64 } else { 24 }) {
            let mut r = Rng::for_run(seed, P::ID, *i);
            let plan = P::gen(&mut r, *i);
            rerun += 1;
            match isolated_trace::<P>(&plan) {
                Ok(t2) if t2 == *t => {}
                _ => differing += 1,
            }
        }
    }

    let mut code = 0;
    let violations = first.is_some() as u64;
    if let Some((idx, v)) = first {
        let path = report::<P>(seed, idx, v, dir);
        println!("VIOLATION property={} replay={}", P::ID, path);
        code = 1;
    }
    let m = P::meta();
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": m.rule,
            "samples": all.samples,
            "runs_with_faults": all.faulted,
            "runs_fault_free": all.runs - all.faulted.min(all.runs),
            "faults_fired": all.faults,
            "probes": all.probes,
            "maxima": all.max,
            "simulated_steps": all.steps,
            "simulated_time_unit": m.time_unit,
            "log_lines_formatted": all.log_lines,
            "run_indices": [0, total],
            "stopped_by_wall_clock_cap": capped,
            "runs_per_hour": (all.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (all.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "workers": w,
            "determinism_reruns": rerun,
            "determinism_reruns_differing": differing,
            "components_real": m.real,
            "components_stubbed": m.stub,
            "known_findings_shown": known_shown,
        },
        "assumptions": m.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(
        format!("{dir}/evidence/{}.json", P::ID),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("harness: cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{}: {} runs ({} distinct), {} with faults, {} steps, {:.1} s{}",
        P::ID,
        all.runs,
        distinct.len(),
        all.faulted,
        all.steps,
        wall,
        if differing > 0 {
            format!(", {differing} of {rerun} reruns differ")
        } else {
            String::new()
        },
    );
    code
}

pub fn traces<P: Prop>(seed: u64, lo: u64, hi: u64) -> i32 {
    for i in lo..hi {
        let mut r = Rng::for_run(seed, P::ID, i);
        let plan = P::gen(&mut r, i);
        match isolated_trace::<P>(&plan) {
            Ok(t) => println!("{} {i} {t:016x}", P::ID),
            Err(v) => println!("{} {i} {}", P::ID, v.class),
        }
    }
    0
}
