//! The seams through which the simulator owns everything the code under test can depend on:
//! the allocator, the logger, hash seeds, the storage and panics.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

pub static ALLOC_ON: AtomicBool = AtomicBool::new(false);
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
/// Live bytes above which the simulated machine is out of memory.
pub static HARD_CAP: AtomicUsize = AtomicUsize::new(1 << 30);
/// Where to note that the cap was hit (shared with the driver).
pub static OOM_NOTE: AtomicUsize = AtomicUsize::new(0);

fn charge(n: usize) -> bool {
    if !ALLOC_ON.load(Relaxed) {
        return true;
    }
    COUNT.fetch_add(1, Relaxed);
    let now = CUR.fetch_add(n as i64, Relaxed) + n as i64;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
    if now > HARD_CAP.load(Relaxed) as i64 {
        CUR.fetch_sub(n as i64, Relaxed);
        let p = OOM_NOTE.load(Relaxed);
        if p != 0 {
            // Safety: points into the shared mapping made by the driver.
            unsafe { *(p as *mut u64) = n as u64 };
        }
        return false;
    }
    true
}
fn credit(n: usize) {
    if ALLOC_ON.load(Relaxed) {
        CUR.fetch_sub(n as i64, Relaxed);
    }
}

/// Set where a seeded scheduler may switch tasks at allocations and log calls.
pub static SWITCH_ON: AtomicBool = AtomicBool::new(false);
/// A scheduling point of the current thread: what to call, for whom, one in how many
/// allocations, and the state of the generator that picks them.
#[derive(Clone, Copy)]
pub struct Point {
    pub f: fn(*const ()),
    pub me: *const (),
    pub one_in: u64,
    pub rng: u64,
}
thread_local! {
    static POINT: Cell<Option<Point>> = const { Cell::new(None) };
}
pub fn set_point(p: Option<Point>) {
    POINT.with(|c| c.set(p));
}
fn point(always: bool) {
    if !SWITCH_ON.load(Relaxed) {
        return;
    }
    // Taken while in use: what the scheduler allocates is no scheduling point.
    let _ = POINT.try_with(|c| {
        if let Some(mut p) = c.take() {
            let x = crate::rng::splitmix(&mut p.rng);
            if always || x % p.one_in == 0 {
                (p.f)(p.me);
            }
            c.set(Some(p));
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(false);
        if !charge(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point(false);
        if !charge(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        credit(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        point(false);
        // While growing, both the old and the new buffer may be live.
        if !charge(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        credit(if q.is_null() { new } else { l.size() });
        q
    }
}

/// Measure `f`: (result, peak live bytes above the level at entry, allocations).
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    CUR.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    COUNT.store(0, Relaxed);
    ALLOC_ON.store(true, Relaxed);
    let r = f();
    ALLOC_ON.store(false, Relaxed);
    (r, PEAK.load(Relaxed).max(0) as u64, COUNT.load(Relaxed))
}
pub fn measure_abort() {
    ALLOC_ON.store(false, Relaxed);
}

// ------------------------------------------------------------------- logger

pub struct SimLog;
pub static LOG_LINES: AtomicU64 = AtomicU64::new(0);
struct NullSink(u64);
impl std::fmt::Write for NullSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if CAPTURE.load(Relaxed) {
            // Only what mapping says of whole modules.
            if r.target().starts_with("llvm_mapper") {
                let s = r.args().to_string();
                if s.contains("PartialMapCtx {")
                    || s.starts_with("functions")
                    || s.starts_with("aliases")
                {
                    if let Ok(mut l) = CAPTURED.lock() {
                        l.push(s);
                    }
                }
            }
            return;
        }
        // Format everything (so that Debug implementations run), keep nothing.
        let mut s = NullSink(0);
        let _ = std::fmt::Write::write_fmt(&mut s, *r.args());
        LOG_LINES.fetch_add(1, Relaxed);
        point(true);
    }
    fn flush(&self) {}
}
static CAPTURE: AtomicBool = AtomicBool::new(false);
static CAPTURED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
/// Run `f`, keeping what mapping logs about modules.
pub fn capture<R>(f: impl FnOnce() -> R) -> (R, Vec<String>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            CAPTURE.store(false, Relaxed);
            log::set_max_level(log::LevelFilter::Off);
        }
    }
    if let Ok(mut l) = CAPTURED.lock() {
        l.clear();
    }
    let off = Off;
    CAPTURE.store(true, Relaxed);
    log::set_max_level(log::LevelFilter::Debug);
    let r = f();
    drop(off);
    let l = CAPTURED
        .lock()
        .map(|mut l| std::mem::take(&mut *l))
        .unwrap_or_default();
    (r, l)
}
pub fn set_log(on: bool) {
    log::set_max_level(if on {
        log::LevelFilter::Trace
    } else {
        log::LevelFilter::Off
    });
}

// --------------------------------------------------------------- hash seeds

static HASH_SEED: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def0);
pub static GETRANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Relaxed);
}
/// std's RandomState asks libc for its seeds; in the simulator they come from the plan.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    GETRANDOM_CALLS.fetch_add(1, Relaxed);
    let mut x = HASH_SEED.load(Relaxed);
    let mut i = 0;
    while i < len {
        let v = crate::rng::splitmix(&mut x).to_le_bytes();
        let k = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), k);
        i += k;
    }
    HASH_SEED.store(x, Relaxed);
    len as isize
}

// ------------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Payload of panics raised by the simulated storage.
pub struct Injected(pub &'static str);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        ALLOC_ON.store(false, Relaxed);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

// ------------------------------------------------------------------ storage

/// Called at every read of a simulated disk.
pub trait OnRead {
    fn on_read(&self, n: u64);
}

/// A simulated disk: contents that can change between two reads, a read counter with a
/// budget, and a hook where the scheduler can switch tasks or crash the caller.
pub struct Disk<'h> {
    versions: Vec<Vec<u8>>,
    /// Version k+1 becomes visible at read number `switch[k]`.
    switch: Vec<u64>,
    reads: Cell<u64>,
    budget: u64,
    hook: Option<&'h dyn OnRead>,
}
impl<'h> Disk<'h> {
    pub fn new(bytes: Vec<u8>) -> Self {
        Disk {
            versions: vec![bytes],
            switch: vec![],
            reads: Cell::new(0),
            budget: u64::MAX,
            hook: None,
        }
    }
    pub fn with_budget(mut self, b: u64) -> Self {
        self.budget = b;
        self
    }
    pub fn with_hook(mut self, h: &'h dyn OnRead) -> Self {
        self.hook = Some(h);
        self
    }
    /// Add a version of the same length that replaces the contents at read `at`.
    pub fn push_version(&mut self, at: u64, bytes: Vec<u8>) {
        assert_eq!(bytes.len(), self.versions[0].len());
        self.switch.push(at);
        self.versions.push(bytes);
    }
    pub fn reads(&self) -> u64 {
        self.reads.get()
    }
    pub fn mutations_fired(&self) -> u64 {
        self.switch
            .iter()
            .filter(|s| **s < self.reads.get())
            .count() as u64
    }
}
impl AsRef<[u8]> for Disk<'_> {
    fn as_ref(&self) -> &[u8] {
        let n = self.reads.get();
        self.reads.set(n + 1);
        if n >= self.budget {
            std::panic::panic_any(Injected("read budget exceeded"));
        }
        if let Some(h) = self.hook {
            h.on_read(n);
        }
        let v = self.switch.iter().take_while(|s| **s <= n).count();
        &self.versions[v]
    }
}
impl std::fmt::Debug for Disk<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Disk")
    }
}

/// Storage of any size: zeros that take no memory, but for some islands of bytes.
pub struct Sparse {
    base: *mut u8,
    len: usize,
}
impl Sparse {
    /// None if there is no room for it in the address space.
    pub fn new(len: usize, islands: &[(u64, Vec<u8>)]) -> Option<Sparse> {
        const PAGE: usize = 4096;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                len.max(1),
                libc::PROT_READ,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if base == libc::MAP_FAILED {
                return None;
            }
            let s = Sparse {
                base: base as *mut u8,
                len,
            };
            for (at, b) in islands {
                let at = (*at as usize).min(len);
                let n = b.len().min(len - at);
                if n == 0 {
                    continue;
                }
                let lo = at / PAGE * PAGE;
                let hi = at + n;
                if libc::mprotect(
                    s.base.add(lo) as *mut _,
                    hi - lo,
                    libc::PROT_READ | libc::PROT_WRITE,
                ) != 0
                {
                    return None;
                }
                std::ptr::copy_nonoverlapping(b.as_ptr(), s.base.add(at), n);
            }
            Some(s)
        }
    }
}
impl AsRef<[u8]> for Sparse {
    fn as_ref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
}
impl Drop for Sparse {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.len.max(1)) };
    }
}
