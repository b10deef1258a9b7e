//! The exploration engine: enumerates every index of every item of a check on
//! all cores, with guards against panics, hangs, crashes and runaway memory in
//! the code under test.

use crate::model::{Log, Mix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::BuildHasherDefault;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_HANG: i32 = 77;
pub const EXIT_MEMORY: i32 = 78;

/// The largest single allocation the code under test may ask for.
const MAX_ALLOCATION: usize = 1 << 30;
/// How many seconds of processor time a single case may take.
const HANG_PROCESSOR: i64 = 25;
/// How many seconds (observed one by one) it may take if it mostly waits.
const HANG_TICKS: u32 = 150;

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

/// An allocator that ends the process when guarded code asks for an absurd
/// amount of memory, so that a runaway loop ends as a reproducible failure.
pub struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        check(layout.size());
        crate::cost::allocator(layout.size() as i64, layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        crate::sched::allocator(true);
        crate::cost::allocator(-(layout.size() as i64), 0);
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        check(layout.size());
        crate::cost::allocator(layout.size() as i64, layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        check(size);
        crate::cost::allocator(size as i64 - layout.size() as i64, size);
        System.realloc(ptr, layout, size)
    }
}
#[inline]
fn check(size: usize) {
    crate::sched::allocator(false);
    if size > MAX_ALLOCATION && GUARDED.with(|g| g.get()) {
        unsafe { _exit(EXIT_MEMORY) }
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn mallopt(what: i32, value: i32) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

/// Bound the address space of this process.
pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

/// Keep large blocks instead of returning them to the system each time.
pub fn keep_memory() {
    unsafe {
        mallopt(-3, 1 << 30);
        mallopt(-1, 1 << 30);
    }
}

/// Bound the processor time of this process.
pub fn limit_processor(seconds: u64) {
    unsafe {
        setrlimit(0, &[seconds, seconds]);
    }
}

/// The clock of the processor time of the calling thread.
fn own_clock() -> u64 {
    let mut clock = 0;
    match unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) } {
        0 => clock as u32 as u64 + 1,
        _ => 0,
    }
}

/// Seconds on such a clock, if the thread is still there.
fn seconds(clock: u64) -> i64 {
    let mut time = [0; 2];
    if clock == 0 || unsafe { clock_gettime((clock - 1) as u32 as i32, &mut time) } != 0 {
        return 0;
    }
    time[0]
}

/// End this process when the supervisor ends.
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

pub fn in_code_under_test() -> bool {
    GUARDED.with(|g| g.get())
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// Run code under test; a panic becomes an error with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(true));
    let result = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    result.map_err(|e| {
        let text = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "unknown panic".to_string());
        format!("panicked: {}", text)
    })
}

/// A violation: the input (or history) and what went wrong.
#[derive(Debug, Clone)]
pub struct Fail {
    pub input: String,
    pub detail: String,
}

type Fast = BuildHasherDefault<Mix>;
impl Default for Mix {
    fn default() -> Mix {
        Mix::new()
    }
}

/// The identifiers of the listed known findings of the property checked.
pub static LISTED: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

/// States counted per worker thread; beyond it the counts are lower bounds.
const SET_CAP: usize = 8_000_000;

/// What one worker has covered so far.
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64, Fast>,
    pub transitions: HashSet<u64, Fast>,
    pub outcomes: HashSet<u64, Fast>,
    pub saturated: bool,
    /// Executions of the implementation whose outcome was compared.
    pub traces: u64,
    /// Interleavings of several threads that were run.
    pub schedules: u64,
    pub accepted: u64,
    pub rejected: u64,
    /// A few of the inputs of this run, written out.
    pub samples: Vec<String>,
    /// Inputs seen by `sample`.
    offered: u64,
    /// The largest value of each measure.
    pub measures: Vec<(&'static str, u64)>,
    /// Known findings met (identifier -> count).
    pub known: Vec<(String, u64)>,
}

impl Log for Ctx {
    fn step(&mut self, from: u64, stmt: u64, to: u64) {
        if self.states.len() < SET_CAP {
            self.states.insert(to);
        } else {
            self.saturated = true;
        }
        if self.transitions.len() < SET_CAP {
            let mut h = Mix(from);
            h.add(stmt);
            self.transitions.insert(h.0);
        } else {
            self.saturated = true;
        }
    }
}

impl Ctx {
    pub fn count(&mut self, accepted: bool) {
        if accepted {
            self.accepted += 1;
        } else {
            self.rejected += 1;
        }
    }
    /// Keep the 1st, 4th, 16th, ... input offered, if it is short.
    #[inline]
    pub fn sample(&mut self, input: &str) {
        self.offered += 1;
        if self.offered.is_power_of_two() && self.offered.trailing_zeros() % 2 == 0 && input.len() < 400 {
            self.samples.push(input.to_string());
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < SET_CAP {
            self.outcomes.insert(h);
        } else {
            self.saturated = true;
        }
    }
    /// Is this a listed known finding?
    pub fn listed(&self, id: &str) -> bool {
        LISTED.get().map_or(false, |l| l.iter().any(|k| k == id))
    }
    pub fn known(&mut self, id: &str) {
        match self.known.iter_mut().find(|k| k.0 == id) {
            Some(k) => k.1 += 1,
            None => self.known.push((id.to_string(), 1)),
        }
    }
    pub fn measure(&mut self, what: &'static str, value: u64) {
        match self.measures.iter_mut().find(|m| m.0 == what) {
            Some(m) => m.1 = m.1.max(value),
            None => self.measures.push((what, value)),
        }
    }
    fn merge(&mut self, other: Ctx) {
        for (what, value) in &other.measures {
            self.measure(what, *value);
        }
        self.states.extend(other.states);
        self.transitions.extend(other.transitions);
        self.outcomes.extend(other.outcomes);
        self.saturated |= other.saturated;
        self.traces += other.traces;
        self.schedules += other.schedules;
        self.accepted += other.accepted;
        self.rejected += other.rejected;
        self.samples.extend(other.samples);
        for (id, n) in other.known {
            match self.known.iter_mut().find(|k| k.0 == id) {
                Some(k) => k.1 += n,
                None => self.known.push((id, n)),
            }
        }
    }
}

pub type Run = Box<dyn Fn(u64, &mut Ctx) -> Result<(), Fail> + Send + Sync>;

/// A finite space of cases, each decided by `run`.
pub struct Item {
    pub name: String,
    pub bound: String,
    pub len: u64,
    pub run: Run,
}

impl Item {
    pub fn new(
        name: impl Into<String>,
        bound: impl Into<String>,
        len: u64,
        run: impl Fn(u64, &mut Ctx) -> Result<(), Fail> + Send + Sync + 'static,
    ) -> Item {
        Item { name: name.into(), bound: bound.into(), len, run: Box::new(run) }
    }
}

/// Where each worker is, in memory shared with the supervisor.
#[repr(C)]
pub struct Slot {
    pub busy: AtomicU64,
    pub item: AtomicU64,
    pub index: AtomicU64,
    clock: AtomicU64,
    pad: [u64; 4],
}
pub const SLOTS: usize = 256;

pub fn map_slots(file: &std::fs::File) -> &'static [Slot] {
    use std::os::fd::AsRawFd;
    let len = SLOTS * std::mem::size_of::<Slot>();
    file.set_len(len as u64).unwrap();
    unsafe {
        let ptr = mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0);
        assert!(ptr as isize != -1, "mmap failed");
        std::slice::from_raw_parts(ptr as *const Slot, SLOTS)
    }
}

pub struct Outcome {
    pub total: Ctx,
    /// Cases, seconds and accepted texts of each item.
    pub items: Vec<(u64, f64, u64)>,
    pub fail: Option<(usize, u64, Fail)>,
}

/// Explore all items. The first violation in (item, index) order is returned.
pub fn explore(items: &[Item], threads: usize, slots: &'static [Slot]) -> Outcome {
    let mut outcome = Outcome { total: Ctx::default(), items: Vec::new(), fail: None };
    // The watchdog ends the process when a case does not end.
    std::thread::spawn(move || {
        let mut seen = vec![(0u64, 0u64, 0u64, 0u32, 0i64); slots.len()];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for (slot, last) in slots.iter().zip(seen.iter_mut()) {
                let now = (
                    slot.busy.load(Ordering::Relaxed),
                    slot.item.load(Ordering::Relaxed),
                    slot.index.load(Ordering::Relaxed),
                );
                if now.0 == 0 && last.0 == 0 {
                    continue;
                }
                let spent = seconds(slot.clock.load(Ordering::Relaxed));
                if now.0 != 0 && (last.0, last.1, last.2) == now {
                    last.3 += 1;
                    if last.3 >= HANG_TICKS || spent - last.4 >= HANG_PROCESSOR {
                        exit_now(EXIT_HANG);
                    }
                } else {
                    *last = (now.0, now.1, now.2, 0, spent);
                }
            }
        }
    });

    let contexts: Mutex<Vec<Ctx>> = Mutex::new((0..threads).map(|_| Ctx::default()).collect());
    let mut accepted = 0;
    for (number, item) in items.iter().enumerate() {
        let start = Instant::now();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
        let chunk = (item.len / (threads as u64 * 16)).clamp(1, 4096);
        std::thread::scope(|scope| {
            for t in 0..threads {
                let (next, best, found, contexts) = (&next, &best, &found, &contexts);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(scope, move || {
                        let mut ctx = contexts.lock().unwrap().pop().unwrap();
                        let slot = &slots[t];
                        slot.item.store(number as u64, Ordering::Relaxed);
                        slot.clock.store(own_clock(), Ordering::Relaxed);
                        loop {
                            let first = next.fetch_add(chunk, Ordering::Relaxed);
                            if first >= item.len || first > best.load(Ordering::Relaxed) {
                                break;
                            }
                            for index in first..(first + chunk).min(item.len) {
                                slot.index.store(index, Ordering::Relaxed);
                                slot.busy.store(1, Ordering::Relaxed);
                                let result = (item.run)(index, &mut ctx);
                                slot.busy.store(0, Ordering::Relaxed);
                                if let Err(fail) = result {
                                    let mut guard = found.lock().unwrap();
                                    if guard.as_ref().map_or(true, |f| index < f.0) {
                                        *guard = Some((index, fail));
                                        best.store(index, Ordering::Relaxed);
                                    }
                                    break;
                                }
                            }
                        }
                        contexts.lock().unwrap().push(ctx);
                    })
                    .unwrap();
            }
        });
        let sum: u64 = contexts.lock().unwrap().iter().map(|c| c.accepted).sum();
        outcome.items.push((item.len, start.elapsed().as_secs_f64(), sum - accepted));
        accepted = sum;
        if let Some((index, fail)) = found.into_inner().unwrap() {
            outcome.fail = Some((number, index, fail));
            break;
        }
    }
    for ctx in contexts.into_inner().unwrap() {
        outcome.total.merge(ctx);
    }
    outcome
}

