//! C09: decodes under a seeded scheduler, with cancellation and crashes.

use super::mapping::{self, explodes};
use super::stream::Damaged;
use super::*;
use crate::rng::{splitmix, Rng};
use crate::seams::{self, Disk, Injected, OnRead};
use crate::{gen, shrink};
use llvm_mapper::unroll::Bitcode;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// Ask for entries to the end, past errors.
    Decode,
    /// Map the file.
    Map,
    /// Read the storage with a cursor, at widths taken from the seed.
    Cursor(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task {
    pub d: Damaged,
    /// Another task's input instead of its own.
    pub same_as: Option<u8>,
    pub kind: Kind,
    /// Dropped after this many requests.
    pub cancel: Option<u64>,
    /// The storage panics at this read.
    pub crash: Option<u64>,
    /// Done this many times in a row, each of them observed.
    pub again: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    /// One after the other, in one thread.
    Sequence,
    /// Interleaved request by request, in one thread; live decoders move between heap places.
    Steps,
    /// One thread each; switched at storage reads and requests.
    Threads,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub tasks: Vec<Task>,
    pub mode: Mode,
    pub sched: u64,
    /// One in `switch` scheduling points hands over.
    pub switch: u64,
    /// One in `alloc` allocations is a scheduling point, and so is each log call; 0: none.
    pub alloc: u64,
    pub hash: u64,
    pub log: bool,
    /// Heap blocks held while the mixed execution runs, to move its addresses.
    pub ballast: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fin {
    Done,
    Cancelled,
    Crashed,
    Panicked(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Out {
    /// One hash for each request's outcome.
    pub evs: Vec<u64>,
    /// The first of them in full.
    pub texts: Vec<String>,
    pub fin: Fin,
    pub reads: u64,
}

fn note(o: &mut Out, s: String) {
    o.evs.push(crate::rng::hash_str(&s));
    if o.texts.len() < 12 {
        o.texts.push(s.chars().take(160).collect());
    }
}

fn max_requests(n: usize) -> u64 {
    8 * n as u64 + 256
}

// ------------------------------------------------------------- one execution

struct CrashAt(Option<u64>);
impl OnRead for CrashAt {
    fn on_read(&self, n: u64) {
        if self.0 == Some(n) {
            std::panic::panic_any(Injected("storage failure"));
        }
    }
}

/// A decode that can be driven request by request.
struct Live<'h> {
    bs: Option<Bitstream<Disk<'h>>>,
    cur: Option<(llvm_bitcursor::BitCursor<Disk<'h>>, u64)>,
    disk: Option<Disk<'h>>,
    kind: Kind,
    left: u64,
    out: Out,
    cancel: Option<u64>,
    done: bool,
}

impl<'h> Live<'h> {
    fn new(t: &Task, bytes: &[u8], hook: &'h dyn OnRead) -> Live<'h> {
        Live {
            bs: None,
            cur: None,
            disk: Some(Disk::new(bytes.to_vec()).with_hook(hook)),
            kind: t.kind,
            left: max_requests(bytes.len()),
            out: Out {
                evs: vec![],
                texts: vec![],
                fin: Fin::Done,
                reads: 0,
            },
            cancel: t.cancel,
            done: false,
        }
    }
    fn inner(&mut self) {
        match self.kind {
            Kind::Map => {
                let d = self.disk.take().unwrap();
                let s = match Bitstream::from(d) {
                    Err(e) => format!("container: {e:?}"),
                    Ok((w, bs)) => match Bitcode::try_from(bs) {
                        Err(e) => format!("{w:?} {e:?} {e}"),
                        Ok(b) => format!("{w:?} {:?}", mapping::observe(&b)),
                    },
                };
                note(&mut self.out, s);
                self.done = true;
            }
            Kind::Decode => {
                if let Some(d) = self.disk.take() {
                    match Bitstream::from(d) {
                        Err(e) => {
                            note(&mut self.out, format!("container: {e:?}"));
                            self.done = true;
                        }
                        Ok((w, bs)) => {
                            note(&mut self.out, format!("{w:?} {:#x}", bs.magic));
                            self.bs = Some(bs);
                        }
                    }
                    return;
                }
                let ev = step(self.bs.as_mut().unwrap());
                if ev == Ev::End {
                    self.done = true;
                }
                note(&mut self.out, format!("{ev:?}"));
            }
            Kind::Cursor(seed) => {
                use std::io::Seek;
                if let Some(d) = self.disk.take() {
                    self.cur = Some((llvm_bitcursor::BitCursor::new(d), seed));
                    return;
                }
                let (c, x) = self.cur.as_mut().unwrap();
                let v = splitmix(x);
                let s = match v % 16 {
                    0 => format!("{:?}", c.read_vbr(2 + (v >> 8) as usize % 31)),
                    1 => {
                        c.align32();
                        String::new()
                    }
                    2 => format!(
                        "{:?}",
                        c.seek_bit((v >> 8) as usize % (c.byte_len() * 8 + 1))
                    ),
                    3 => format!(
                        "{:?}",
                        c.seek(std::io::SeekFrom::Start(
                            (v >> 8) % (c.byte_len() as u64 + 1)
                        ))
                        .map_err(|e| e.kind())
                    ),
                    4 => format!("{:?}", c.read_exact::<u32>()),
                    _ => format!("{:?}", c.read(1 + (v >> 8) as usize % 64)),
                };
                note(&mut self.out, format!("{s} at {}", c.tell_bit()));
                if self.out.evs.len() > 60 {
                    self.done = true;
                }
            }
        }
    }
    /// One request. False: nothing more to do.
    fn step(&mut self) -> bool {
        if self.done {
            return false;
        }
        if self
            .cancel
            .map(|n| self.out.evs.len() as u64 >= n)
            .unwrap_or(false)
        {
            self.out.fin = Fin::Cancelled;
            self.bs = None;
            self.cur = None;
            self.disk = None;
            self.done = true;
            return false;
        }
        if self.left == 0 {
            self.done = true;
            return false;
        }
        self.left -= 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inner()));
        if let Err(e) = r {
            self.out.fin = if e.is::<Injected>() {
                Fin::Crashed
            } else {
                Fin::Panicked(seams::last_panic())
            };
            self.bs = None;
            self.cur = None;
            self.disk = None;
            self.done = true;
        }
        !self.done
    }
}

/// The task alone, undisturbed.
fn solo(t: &Task, bytes: &[u8]) -> Out {
    let t = Task {
        cancel: None,
        crash: None,
        ..t.clone()
    };
    let hook = CrashAt(None);
    let mut l = Live::new(&t, bytes, &hook);
    while l.step() {}
    l.out
}

// ------------------------------------------------------------------- baton

struct Baton {
    m: Mutex<State>,
    cv: Condvar,
    t0: Instant,
}
struct State {
    turn: usize,
    live: Vec<bool>,
    rng: Rng,
    switch: u64,
    switches: u64,
    points: u64,
    /// Milliseconds at the last hand-over or scheduling point.
    last: u64,
    /// A task blocked while holding the baton: everyone runs.
    free: bool,
}
impl Baton {
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
    fn wait_turn<'a>(&'a self, me: usize, mut s: std::sync::MutexGuard<'a, State>) {
        while !s.free && s.turn != me {
            let (g, _) = self.cv.wait_timeout(s, Duration::from_millis(200)).unwrap();
            s = g;
            if !s.free && s.turn != me && self.now() > s.last + 1500 {
                // Whoever has the baton waits for something only another task can give.
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn start(&self, me: usize) {
        let s = self.m.lock().unwrap();
        self.wait_turn(me, s);
    }
    fn point(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.points += 1;
        s.last = self.now();
        if s.free {
            return;
        }
        let k = s.switch;
        if s.rng.below(k) != 0 {
            return;
        }
        // Nothing here may allocate: allocations are scheduling points.
        let others = (0..s.live.len()).filter(|i| *i != me && s.live[*i]).count();
        if others == 0 {
            return;
        }
        let k = s.rng.idx(others);
        let next = (0..s.live.len()).filter(|i| *i != me && s.live[*i]).nth(k);
        s.turn = next.unwrap_or(me);
        s.switches += 1;
        self.cv.notify_all();
        self.wait_turn(me, s);
    }
    fn end(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.live[me] = false;
        s.last = self.now();
        let others: Vec<usize> = (0..s.live.len()).filter(|i| s.live[*i]).collect();
        if !others.is_empty() {
            s.turn = *s.rng.pick(&others);
        }
        self.cv.notify_all();
    }
}
struct Sched {
    b: Arc<Baton>,
    me: usize,
    crash: Option<u64>,
}
impl OnRead for Sched {
    fn on_read(&self, n: u64) {
        self.b.point(self.me);
        if self.crash == Some(n) {
            std::panic::panic_any(Injected("storage failure"));
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Mixed {
    outs: Vec<Out>,
    switches: u64,
    points: u64,
    free: bool,
    stuck: bool,
}

fn mixed(p: &Plan, inputs: &[Vec<u8>]) -> Mixed {
    let mut r = Rng::new(p.sched);
    let mut m = Mixed::default();
    match p.mode {
        Mode::Sequence => {
            for (t, b) in p.tasks.iter().zip(inputs) {
                let mut first: Option<Out> = None;
                let mut work = 0;
                for _ in 0..t.again.max(1) {
                    // Bounded by a count, so that a repetition of something long ends too.
                    work += 300 + b.len();
                    if work > 100 << 20 {
                        break;
                    }
                    let h = CrashAt(t.crash);
                    let mut l = Live::new(t, b, &h);
                    while l.step() {
                        m.points += 1;
                    }
                    m.switches += 1;
                    match &first {
                        None => first = Some(l.out),
                        Some(f) if f.evs == l.out.evs && f.fin == l.out.fin => {}
                        // The comparison with the undisturbed one will show it.
                        Some(_) => {
                            first = Some(l.out);
                            break;
                        }
                    }
                }
                m.outs.extend(first);
            }
        }
        Mode::Steps => {
            let hooks: Vec<CrashAt> = p.tasks.iter().map(|t| CrashAt(t.crash)).collect();
            // Started at different times: some when others are well under way.
            let mut live: Vec<Option<Live>> = p.tasks.iter().map(|_| None).collect();
            let mut at = 0;
            loop {
                let open: Vec<usize> = (0..live.len())
                    .filter(|i| live[*i].as_ref().map(|l| !l.done).unwrap_or(true))
                    .collect();
                if open.is_empty() {
                    break;
                }
                if !open.contains(&at) || r.below(p.switch) == 0 {
                    at = *r.pick(&open);
                    m.switches += 1;
                }
                m.points += 1;
                if live[at].is_none() {
                    live[at] = Some(Live::new(&p.tasks[at], &inputs[at], &hooks[at]));
                }
                live[at].as_mut().unwrap().step();
            }
            m.outs = live.into_iter().map(|l| l.unwrap().out).collect();
        }
        Mode::Threads => {
            let b = Arc::new(Baton {
                m: Mutex::new(State {
                    turn: r.idx(p.tasks.len()),
                    live: vec![true; p.tasks.len()],
                    rng: Rng::new(r.u64()),
                    switch: p.switch,
                    switches: 0,
                    points: 0,
                    last: 0,
                    free: false,
                }),
                cv: Condvar::new(),
                t0: Instant::now(),
            });
            seams::SWITCH_ON.store(p.alloc > 0, std::sync::atomic::Ordering::Relaxed);
            let (tx, rx) = std::sync::mpsc::channel();
            for (i, (t, bytes)) in p.tasks.iter().zip(inputs).enumerate() {
                let (t, bytes, b, tx) = (t.clone(), bytes.clone(), b.clone(), tx.clone());
                let (one_in, seed) = (p.alloc, r.u64());
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(move || {
                        b.start(i);
                        let hook = Sched {
                            b: b.clone(),
                            me: i,
                            crash: t.crash,
                        };
                        if one_in > 0 {
                            seams::set_point(Some(seams::Point {
                                // Safety: `me` is the hook above, which outlives the point.
                                f: |me| {
                                    let h = unsafe { &*(me as *const Sched) };
                                    h.b.point(h.me);
                                },
                                me: &hook as *const Sched as *const (),
                                one_in,
                                rng: seed,
                            }));
                        }
                        let mut l = Live::new(&t, &bytes, &hook);
                        while l.step() {
                            b.point(i);
                        }
                        let out = l.out.clone();
                        drop(l);
                        seams::set_point(None);
                        b.end(i);
                        let _ = tx.send((i, out));
                    })
                    .expect("thread");
            }
            let mut outs: Vec<Option<Out>> = p.tasks.iter().map(|_| None).collect();
            for _ in 0..outs.len() {
                match rx.recv_timeout(Duration::from_secs(25)) {
                    Ok((i, o)) => outs[i] = Some(o),
                    Err(_) => {
                        m.stuck = true;
                        return m;
                    }
                }
            }
            let s = b.m.lock().unwrap();
            m.switches = s.switches;
            m.points = s.points;
            m.free = s.free;
            m.outs = outs.into_iter().map(|o| o.unwrap()).collect();
        }
    }
    m
}

/// Run `f` in a process forked from one that never decoded anything.
fn fresh<R: Serialize + serde::de::DeserializeOwned>(
    what: &str,
    seed: u64,
    f: impl FnOnce() -> R + Send + 'static,
) -> Result<R, Violation>
where
    R: Send + 'static,
{
    let ch = spawn(move || {
        cpu_limit(60);
        seams::set_hash_seed(seed);
        let r = on_stack(f);
        serde_json::to_vec(&r).unwrap()
    });
    match ch.wait() {
        Ended::Data(d) => Ok(serde_json::from_slice(&d).expect("child data")),
        Ended::Signal(s) => viol(
            &format!("{what} died"),
            format!("{what} died of signal {s}"),
        ),
        Ended::Exit(c) => {
            eprintln!("harness: {what} ended with {c}");
            unsafe { libc::_exit(4) }
        }
    }
}

fn gen_task(r: &mut Rng, n: usize) -> Task {
    let map = r.chance(1, 2);
    let s = if map {
        mapping::gen_stream(r)
    } else {
        let mut cfg = gen::StreamCfg::random(r);
        cfg.max_items = cfg.max_items.min(60);
        gen::stream_cfg(r, cfg)
    };
    let mut d = super::stream::damage(r, s, false);
    d.log = false;
    if r.chance(1, 2) {
        d.claims.clear();
        d.faults.clear();
    }
    let kind = match r.below(8) {
        0 => Kind::Cursor(r.u64()),
        1 => Kind::Map,
        x if map && x < 6 => Kind::Map,
        _ => Kind::Decode,
    };
    Task {
        d,
        same_as: if n > 0 && r.chance(1, 4) {
            Some(r.below(n as u64) as u8)
        } else {
            None
        },
        kind,
        cancel: if r.chance(1, 4) {
            Some(r.below(40))
        } else {
            None
        },
        crash: if r.chance(1, 4) {
            Some(r.below(300))
        } else {
            None
        },
        again: 1,
    }
}

/// Many small files that are variants of a few, one after the other.
fn gen_family(r: &mut Rng) -> Vec<Task> {
    let mut tasks: Vec<Task> = vec![];
    let bases: Vec<_> = (0..r.range(1, 2))
        .map(|_| mapping::gen_small_stream(r))
        .collect();
    for _ in 0..r.range(6, 16) {
        let mut s = r.pick(&bases).clone();
        if r.chance(3, 4) {
            for m in mapping::gen_muts(r, &s, 3) {
                mapping::mutate(&mut s.items, &m);
            }
        }
        tasks.push(Task {
            d: Damaged::plain(s),
            same_as: None,
            kind: if r.chance(1, 5) {
                Kind::Decode
            } else {
                Kind::Map
            },
            cancel: if r.chance(1, 8) {
                Some(r.below(20))
            } else {
                None
            },
            crash: if r.chance(1, 8) {
                Some(r.below(200))
            } else {
                None
            },
            again: if r.chance(1, 8) {
                *r.pick(&[2, 20, 300])
            } else {
                1
            },
        });
    }
    if r.chance(1, 300) {
        // More often than a 16-bit counter can count.
        tasks.truncate(2);
        tasks[0].again = 66_000;
        tasks[0].crash = None;
    }
    tasks
}

impl Plan {
    fn inputs(&self, c: &mut Ctx) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![];
        for t in &self.tasks {
            let own = t.d.bytes(c);
            match t.same_as {
                Some(k) if (k as usize) < v.len() => {
                    let x = v[k as usize].clone();
                    v.push(x);
                }
                _ => v.push(own),
            }
        }
        v
    }
}

pub struct C09;
impl Prop for C09 {
    const ID: &'static str = "C09";
    type Plan = Plan;
    const RUNS: (u64, u64) = (25_000, 2500_000);
    const ON_MAIN: bool = true;
    // CPU time of the process that forks; its children have limits of their own.
    const CPU_LIMIT: u64 = 60;
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let n = r.range(2, 5);
        let mut tasks: Vec<Task> = vec![];
        let family = r.chance(1, 6);
        if family {
            tasks = gen_family(r);
        } else {
            for i in 0..n {
                tasks.push(gen_task(r, i as usize));
            }
        }
        let many = tasks.iter().any(|t| t.again >= 10_000);
        Plan {
            tasks,
            mode: if family {
                Mode::Sequence
            } else {
                *r.pick(&[Mode::Sequence, Mode::Steps, Mode::Threads, Mode::Threads])
            },
            sched: r.u64(),
            switch: *r.pick(&[1, 2, 2, 4, 16, 100]),
            alloc: if r.chance(1, 3) {
                0
            } else {
                *r.pick(&[1, 3, 20, 200])
            },
            hash: r.u64(),
            // Formatting every log message tens of thousands of times is not worth its time.
            log: r.chance(1, 6) && !many,
            ballast: if r.chance(1, 2) {
                r.below(200) as u32
            } else {
                0
            },
        }
    }
    fn exec(p: &Plan, c: &mut Ctx) -> Result<(), Violation> {
        let inputs = p.inputs(c);
        if inputs
            .iter()
            .any(|b| b.len() > 40_000 || explodes_quietly(b))
        {
            c.probe("skipped_large_inputs");
            return Ok(());
        }
        let mut alone: Vec<Out> = vec![];
        for (i, (t, b)) in p.tasks.iter().zip(&inputs).enumerate() {
            let (t, b) = (t.clone(), b.clone());
            let o = fresh(&format!("task {i} alone"), 1, move || solo(&t, &b))?;
            alone.push(o);
        }
        let (p2, in2) = (p.clone(), inputs.clone());
        let m = fresh("the mixed execution", p.hash, move || {
            let keep: Vec<Vec<u8>> = (0..p2.ballast)
                .map(|i| vec![1u8; (i as usize * 37) % 4000 + 1])
                .collect();
            seams::set_log(p2.log);
            let m = mixed(&p2, &in2);
            seams::set_log(false);
            drop(keep);
            m
        })?;
        c.probe(&format!("mode_{:?}", p.mode));
        if m.free {
            c.probe("scheduler_gave_up_control");
        }
        if m.stuck {
            return viol(
                "deadlock",
                "concurrent decodes did not end: no task made progress for 25 s".into(),
            );
        }
        c.probe_n("scheduling_points", m.points);
        c.probe_n("switches", m.switches);
        c.steps += m.points;
        c.trace.add(m.switches);
        let mut entries = 0;
        for (i, (a, b)) in alone.iter().zip(&m.outs).enumerate() {
            match &b.fin {
                Fin::Cancelled => c.fault("cancelled_decode"),
                Fin::Crashed => c.fault("crash_in_storage_read"),
                _ => {}
            }
            for e in &b.evs {
                c.trace.add(*e);
            }
            entries += b.evs.len();
            let what = format!(
                "task {i} ({:?} of {} bytes)",
                p.tasks[i].kind,
                inputs[i].len()
            );
            let cut = match (&b.fin, &a.fin) {
                (Fin::Done, Fin::Done) => false,
                (Fin::Panicked(x), Fin::Panicked(y)) if x == y => false,
                (Fin::Cancelled | Fin::Crashed, _) => true,
                (x, y) => {
                    return viol(
                        "panic",
                        format!("{what} ended with {x:?}, alone with {y:?}"),
                    );
                }
            };
            let bad = if cut {
                if b.evs.len() > a.evs.len() {
                    Some(a.evs.len())
                } else {
                    (0..b.evs.len()).find(|k| a.evs[*k] != b.evs[*k])
                }
            } else {
                (0..a.evs.len().max(b.evs.len())).find(|k| a.evs.get(*k) != b.evs.get(*k))
            };
            if let Some(k) = bad {
                return viol(
                    "interference",
                    format!(
                        "{what}, {:?}: outcome {k} of {} is {:?}; alone in a fresh process, outcome {k} of {} is {:?}",
                        p.mode,
                        b.evs.len(),
                        b.texts.get(k).map(|s| s.as_str()).unwrap_or("another"),
                        a.evs.len(),
                        a.texts.get(k).map(|s| s.as_str()).unwrap_or("another"),
                    ),
                );
            }
        }
        c.nontrivial = entries > 10 && m.switches > 2;
        c.note = format!(
            "{:?}: {} tasks, {} switches at {} points, {entries} outcomes",
            p.mode,
            p.tasks.len(),
            m.switches,
            m.points
        );
        Ok(())
    }
    fn shrink(p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        if p.tasks.len() > 1 {
            for i in 0..p.tasks.len() {
                let mut q = p.clone();
                q.tasks.remove(i);
                for t in &mut q.tasks {
                    t.same_as = match t.same_as {
                        Some(k) if k as usize == i => None,
                        Some(k) if k as usize > i => Some(k - 1),
                        x => x,
                    };
                }
                out.push(q);
            }
        }
        if p.mode == Mode::Threads {
            out.push(Plan {
                mode: Mode::Steps,
                ..p.clone()
            });
        }
        if p.mode != Mode::Sequence {
            out.push(Plan {
                mode: Mode::Sequence,
                ..p.clone()
            });
        }
        if p.log {
            out.push(Plan {
                log: false,
                ..p.clone()
            });
        }
        if p.alloc > 0 {
            out.push(Plan {
                alloc: 0,
                ..p.clone()
            });
        }
        if p.ballast > 0 {
            out.push(Plan {
                ballast: 0,
                ..p.clone()
            });
        }
        if p.hash != 1 {
            out.push(Plan {
                hash: 1,
                ..p.clone()
            });
        }
        for (i, t) in p.tasks.iter().enumerate() {
            let mut with = |t2: Task| {
                let mut q = p.clone();
                q.tasks[i] = t2;
                out.push(q);
            };
            if t.same_as.is_some() {
                with(Task {
                    same_as: None,
                    ..t.clone()
                });
            }
            if t.again > 1 {
                for v in shrink::value(t.again as u64) {
                    with(Task {
                        again: v as u32,
                        ..t.clone()
                    });
                }
            }
            if let Some(n) = t.cancel {
                with(Task {
                    cancel: None,
                    ..t.clone()
                });
                for v in shrink::value(n) {
                    with(Task {
                        cancel: Some(v),
                        ..t.clone()
                    });
                }
            }
            if let Some(n) = t.crash {
                with(Task {
                    crash: None,
                    ..t.clone()
                });
                for v in shrink::value(n) {
                    with(Task {
                        crash: Some(v),
                        ..t.clone()
                    });
                }
            }
            for d in t.d.shrink() {
                with(Task { d, ..t.clone() });
            }
        }
        out
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run takes 2 to 5 inputs (one in six: 6 to 16 small variants of a few files, some repeated many times) (streams, files; half of them damaged; sometimes the same one twice), records the outcome of decoding, mapping or cursor reads of each alone in a fresh process, then runs all of them in one fresh process: in sequence, interleaved request by request, or one thread each with control handed over at storage reads, requests, allocations and log calls by the seeded scheduler; tasks are dropped halfway or their storage panics; hash seeds, log level and heap addresses differ; non-trivial: more than 10 outcomes and 2 switches; distinct: by hash of all outcomes and the number of switches",
            real: &["llvm-bitcursor", "llvm-bitstream", "llvm-support", "llvm-mapper", "threads (real ones, one running at a time)"],
            stub: &["thread scheduler: a baton passed by the seeded scheduler", "storage: simulated disk", "writer: the harness's own emitter", "logger", "hash seeds"],
            time_unit: "scheduling points",
            assumptions: &["a clean batch of seeded runs is evidence, not proof", "switches happen at storage reads, allocations, log calls and between requests, not between arbitrary instructions (the library forbids unsafe code)"],
        }
    }
}

fn explodes_quietly(b: &[u8]) -> bool {
    // The reference decoder only; none of the code under test.
    explodes(b)
}
