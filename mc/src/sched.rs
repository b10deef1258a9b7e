//! Controlled interleavings of parses on several threads.
//!
//! A parse cannot be stopped from outside, but it allocates, and the allocator
//! belongs to this program: every allocation of a parse (and every release of
//! memory, if asked for) is a point where the scheduler decides which thread
//! goes on. Exactly one thread runs at a time,
//! as its plan says, so every interleaving at these points can be enumerated.
//! In the metered build every edge of the control flow graph of the library is
//! such a point, if asked for.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

thread_local! {
    static RUNNING: Cell<(*const Schedule, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    /// Points this thread has passed, and the one at which it has to ask.
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static ASK: Cell<u32> = const { Cell::new(0) };
}

/// What the points of a schedule are.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    Allocations,
    AllocationsAndReleases,
    Edges,
}

impl At {
    pub fn what(self) -> &'static str {
        match self {
            At::Allocations => "allocation",
            At::AllocationsAndReleases => "allocation or release",
            At::Edges => "edge",
        }
    }
}

/// Schedules that could not be followed, because a thread waited for another.
static RELEASED: AtomicUsize = AtomicUsize::new(0);
pub fn released() -> usize {
    RELEASED.load(Ordering::Relaxed)
}
/// Beyond this many, the library evidently keeps threads apart by locks.
pub const MAX_RELEASED: usize = 300;

/// A stretch of a plan: a thread runs until its n-th point (or its end).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stretch {
    pub thread: usize,
    pub until: u32,
}
pub const END: u32 = u32::MAX;

struct State {
    stretch: usize,
    points: [u32; 4],
    done: [bool; 4],
    /// A thread that should have run did not get on (it waits for a lock that
    /// another one holds): all threads run freely from here on.
    released: bool,
}

pub struct Schedule {
    plan: Vec<Stretch>,
    at: At,
    state: Mutex<State>,
    turn: Condvar,
}

impl Schedule {
    pub fn new(plan: Vec<Stretch>, at: At) -> Schedule {
        Schedule { plan, at, state: Mutex::new(State { stretch: 0, points: [0; 4], done: [false; 4], released: false }), turn: Condvar::new() }
    }

    fn skip_finished(&self, state: &mut State) {
        while let Some(s) = self.plan.get(state.stretch) {
            if state.done[s.thread] || s.until != END && state.points[s.thread] >= s.until {
                state.stretch += 1;
            } else {
                break;
            }
        }
    }

    fn wait(&self, thread: usize, mut state: std::sync::MutexGuard<State>) {
        loop {
            self.skip_finished(&mut state);
            let at = self.plan.get(state.stretch).copied();
            match at {
                Some(s) if s.thread != thread && !state.released => {
                    let before = (state.stretch, state.points);
                    let (next, timeout) = self.turn.wait_timeout(state, Duration::from_millis(50)).unwrap();
                    state = next;
                    if timeout.timed_out() && before == (state.stretch, state.points) {
                        state.released = true;
                        RELEASED.fetch_add(1, Ordering::Relaxed);
                        self.turn.notify_all();
                    }
                }
                _ => return,
            }
        }
    }

    fn point(&self, thread: usize) {
        let count = COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if count < ASK.with(|a| a.get()) {
            return;
        }
        let mut state = self.state.lock().unwrap();
        state.points[thread] = count;
        if state.released {
            ASK.with(|a| a.set(u32::MAX));
            return;
        }
        let before = state.stretch;
        self.skip_finished(&mut state);
        if state.stretch != before {
            self.turn.notify_all();
        }
        self.wait(thread, state);
        self.next(thread);
    }

    /// When this thread, which runs now, has to ask again: at the end of its
    /// stretch, and now and then to show that it gets on.
    fn next(&self, thread: usize) {
        let state = self.state.lock().unwrap();
        let count = state.points[thread];
        let until = self.plan.get(state.stretch).filter(|s| s.thread == thread && !state.released).map_or(END, |s| s.until);
        ASK.with(|a| a.set(until.min(count + 64)));
    }

    /// Run code as one of the threads of this schedule.
    pub fn run<T>(&self, thread: usize, code: impl FnOnce() -> T) -> T {
        COUNT.with(|c| c.set(0));
        self.wait(thread, self.state.lock().unwrap());
        self.next(thread);
        RUNNING.with(|r| r.set((self, thread)));
        let result = code();
        RUNNING.with(|r| r.set((std::ptr::null(), 0)));
        let mut state = self.state.lock().unwrap();
        state.points[thread] = COUNT.with(|c| c.get());
        state.done[thread] = true;
        self.skip_finished(&mut state);
        self.turn.notify_all();
        result
    }

    pub fn points(&self, thread: usize) -> u32 {
        self.state.lock().unwrap().points[thread]
    }
}

/// Called by the allocator.
#[inline]
pub fn allocator(release: bool) {
    passed(|at| at == At::AllocationsAndReleases || !release && at == At::Allocations);
}

/// Called at every edge of the library in the metered build.
#[inline]
pub fn edge() {
    passed(|at| at == At::Edges);
}

#[inline]
fn passed(is_point: impl Fn(At) -> bool) {
    // The thread-local may be gone while a thread ends.
    if let Ok((schedule, thread)) = RUNNING.try_with(|r| r.get()) {
        if !schedule.is_null() {
            // Nothing below allocates.
            unsafe {
                if is_point((*schedule).at) {
                    (*schedule).point(thread)
                }
            }
        }
    }
}

/// All plans for two threads with at most `max` preemptions (1 to 4) in which
/// the thread `first` begins and is first preempted at its `start`-th point
/// (never, if 0).
pub fn two(points: [u32; 2], max: u32, first: usize, start: u32) -> Vec<Vec<Stretch>> {
    let mut plans = Vec::new();
    let other = 1 - first;
    let (n, m) = (points[first], points[other]);
    let close = |mut plan: Vec<Stretch>| {
        let last = plan.last().map_or(other, |s| s.thread);
        plan.push(Stretch { thread: 1 - last, until: END });
        plan.push(Stretch { thread: last, until: END });
        plan
    };
    let s = |thread, until| Stretch { thread, until };
    if start == 0 {
        plans.push(close(vec![]));
    } else if start <= n {
        let i = start;
        plans.push(close(vec![s(first, i)]));
        for j in 1..=if max < 2 { 0 } else { m } {
            plans.push(close(vec![s(first, i), s(other, j)]));
            for i2 in i + 1..=if max < 3 { 0 } else { n } {
                plans.push(close(vec![s(first, i), s(other, j), s(first, i2)]));
                for j2 in j + 1..=if max < 4 { 0 } else { m } {
                    plans.push(close(vec![s(first, i), s(other, j), s(first, i2), s(other, j2)]));
                }
            }
        }
    }
    plans
}

/// All plans for three threads with two preemptions, the first one at the
/// `i`-th point of the thread that begins, in one of six orders.
pub fn three(points: [u32; 3], order: usize, i: u32) -> Vec<Vec<Stretch>> {
    let mut plans = Vec::new();
    let [a, b, c] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
    if i <= points[a] {
        for j in 1..=points[b] {
            let s = |thread, until| Stretch { thread, until };
            plans.push(vec![s(a, i), s(b, j), s(c, END), s(a, END), s(b, END)]);
            plans.push(vec![s(a, i), s(b, j), s(c, END), s(b, END), s(a, END)]);
        }
    }
    plans
}

type Job = Box<dyn FnOnce() + Send>;

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Keep this thread, and those it starts, on one of the processors it may use:
/// only one of them runs at a time, and handing over is then quick.
fn stay_on_one_processor() {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let mut mask = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) <= 0 {
            return;
        }
        let allowed: Vec<usize> = (0..1024).filter(|k| mask[k / 64] >> (k % 64) & 1 == 1).collect();
        if !allowed.is_empty() {
            let k = allowed[NEXT.fetch_add(1, Ordering::Relaxed) % allowed.len()];
            let mut one = [0u64; 16];
            one[k / 64] = 1 << (k % 64);
            sched_setaffinity(0, 128, one.as_ptr());
        }
    }
}

thread_local! {
    static HELPERS: RefCell<Vec<Sender<Job>>> = const { RefCell::new(Vec::new()) };
}

/// Run these pieces of code under a plan, the first one on this thread and the
/// others on threads of their own (which stay for the next call).
pub fn together<T: Send + 'static>(plan: Vec<Stretch>, at: At, code: Vec<Box<dyn FnOnce() -> T + Send>>) -> Vec<T> {
    let schedule = Arc::new(Schedule::new(plan, at));
    HELPERS.with(|helpers| {
        let mut helpers = helpers.borrow_mut();
        if helpers.is_empty() {
            stay_on_one_processor();
        }
        while helpers.len() + 1 < code.len() {
            let (send, receive): (Sender<Job>, Receiver<Job>) = channel();
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    while let Ok(job) = receive.recv() {
                        job();
                    }
                })
                .expect("a thread");
            helpers.push(send);
        }
        let (send, receive) = channel();
        let mut results: Vec<Option<T>> = Vec::new();
        results.resize_with(code.len(), || None);
        let mut code = code.into_iter();
        let own = code.next().expect("some code");
        for (k, code) in code.enumerate() {
            let (send, schedule) = (send.clone(), schedule.clone());
            let job: Job = Box::new(move || {
                let result = schedule.run(k + 1, code);
                let _ = send.send((k + 1, result));
            });
            helpers[k].send(job).expect("a helper");
        }
        drop(send);
        results[0] = Some(schedule.run(0, own));
        for (k, result) in receive {
            results[k] = Some(result);
        }
        results.into_iter().map(|r| r.expect("a result")).collect()
    })
}
