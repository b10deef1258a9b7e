//! What a parse costs: steps, memory, and what it keeps.
//!
//! Steps are edges of the control flow graph of the library: in the `metered`
//! build the compiler inserts a call at each of them (only in the library).
//! Memory is what the calling thread asks of the allocator of this program.
//! Both are counted, not timed, so the same text always costs the same.

use crate::engine::{guarded, Ctx, Fail, Item};
use crate::judge::fail;
use crate::model;
use crate::space::*;
use std::cell::Cell;
use wavefront_obj::{mtl, obj};

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static METERED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    STEPS.with(|s| s.set(s.get().wrapping_add(1)));
    crate::sched::edge();
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

/// Called by the allocator with the change of the memory in use.
#[inline]
pub fn allocator(change: i64, asked: usize) {
    if METERED.with(|m| m.get()) {
        let live = LIVE.with(|l| l.get()) + change;
        LIVE.with(|l| l.set(live));
        PEAK.with(|p| p.set(p.get().max(live)));
        TOTAL.with(|t| t.set(t.get() + asked as u64));
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    steps: u64,
    /// Most memory in use at once, all memory asked for.
    peak: i64,
    total: u64,
    /// In use while the result exists, and after it is gone.
    result: i64,
    kept: i64,
}

fn measure<T>(parse: &dyn Fn() -> T) -> Option<Cost> {
    STEPS.with(|s| s.set(0));
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    TOTAL.with(|t| t.set(0));
    METERED.with(|m| m.set(true));
    let got = guarded(parse);
    let (steps, peak, total, result) = (STEPS.with(|s| s.get()), PEAK.with(|p| p.get()), TOTAL.with(|t| t.get()), LIVE.with(|l| l.get()));
    let fine = got.is_ok();
    let _ = guarded(|| drop(got));
    METERED.with(|m| m.set(false));
    fine.then(|| Cost { steps, peak, total, result, kept: LIVE.with(|l| l.get()) })
}

// The bounds: several times what the library takes at present.
const STEPS_AT_ALL: u64 = 100_000;
const STEPS_PER_BYTE: u64 = 250;
const STEPS_PER_RESULT: u64 = 4;
const MEMORY_AT_ALL: i64 = 256 << 10;
const MEMORY_PER_BYTE: i64 = 1000;
/// Relative to the memory of the result.
const MEMORY_PER_RESULT: i64 = 16;
const TOTAL_PER_RESULT: u64 = 64;

fn judge<T>(input: &str, parse: &dyn Fn() -> T, ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.traces += 2;
    ctx.sample(input);
    // The first parse may set up what later ones use again.
    let Some(first) = measure(parse) else { return Ok(()) };
    let Some(cost) = measure(parse) else { return Ok(()) };
    let len = input.len() as u64;
    for c in [first, cost] {
        let size = c.result.max(0) as u64;
        if len >= 1000 {
            ctx.measure("largest steps per byte of texts of 1000 bytes or more", c.steps / len);
            ctx.measure("largest memory in use per byte of text or of result, in tenths, of texts of 1000 bytes or more", (c.peak as u64 * 10) / len.max(size));
        }
        if c.steps > STEPS_AT_ALL + STEPS_PER_BYTE * len + STEPS_PER_RESULT * size {
            return fail(input, format!("takes {} steps for {} bytes of text and {} bytes of result", c.steps, len, size));
        }
        if c.peak > MEMORY_AT_ALL + MEMORY_PER_BYTE * len as i64 + MEMORY_PER_RESULT * c.result {
            return fail(input, format!("uses {} bytes of memory for {} bytes of text and {} bytes of result", c.peak, len, size));
        }
        if c.total > (MEMORY_AT_ALL + 10 * MEMORY_PER_BYTE * len as i64) as u64 + TOTAL_PER_RESULT * size {
            return fail(input, format!("asks for {} bytes of memory altogether for {} bytes of text and {} bytes of result", c.total, len, size));
        }
    }
    ctx.measure("most steps", cost.steps);
    ctx.measure("most memory in use", cost.peak.max(0) as u64);
    if cost.kept > 0 {
        // Something that is kept once, or up to a limit, is fine.
        let mut grown = 0;
        for n in 0..400 {
            ctx.traces += 1;
            let Some(again) = measure(parse) else { return Ok(()) };
            if n >= 200 {
                grown += again.kept;
            }
        }
        if grown > 0 {
            return fail(input, format!("{} bytes of memory are kept by 200 parses after their results are gone (the 202 before kept some, too)", grown));
        }
    }
    Ok(())
}

pub fn obj(space: Space) -> Item {
    let text = space.text.clone();
    Item::new(format!("cost/{}", space.name), space.bound.clone(), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        let ok = guarded(|| obj::parse(&input).is_ok()).unwrap_or(false);
        ctx.count(ok);
        if input.len() < 100_000 {
            let _ = model::obj(&input, ctx);
        }
        judge(&input, &|| obj::parse(&input), ctx)
    })
}

pub fn mtl(space: Space) -> Item {
    let text = space.text.clone();
    Item::new(format!("cost/{}", space.name), space.bound.clone(), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        let ok = guarded(|| mtl::parse(&input).is_ok()).unwrap_or(false);
        ctx.count(ok);
        if input.len() < 100_000 {
            let _ = model::mtl(&input, ctx);
        }
        judge(&input, &|| mtl::parse(&input), ctx)
    })
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// Many parses in a row keep nothing. Each text in a process of its own, which
/// begins with what no parse has left behind: this has to be the first item. What
/// grows by doubling grows at least once while the number of parses doubles.
pub fn long_runs(name: &str, top: u32, is_mtl: bool, texts: Vec<String>) -> Item {
    let bound = format!("each of {} texts parsed 2^{} times in a process of its own: while their number doubles from 2^{} on, the memory in use does not grow each time", texts.len(), top, top - 4);
    Item::new(format!("cost/long-runs/{}", name), bound, texts.len() as u64, move |i, ctx| {
        let text = &texts[i as usize];
        ctx.traces += 1 << top;
        ctx.sample(text);
        let child = || -> i32 {
            let parse = |times: u64| -> Option<i64> {
                let mut kept = 0;
                for _ in 0..times {
                    kept += if is_mtl { measure(&|| mtl::parse(text))?.kept } else { measure(&|| obj::parse(text))?.kept };
                }
                Some(kept)
            };
            let Some(_) = parse(1 << (top - 4)) else { return 0 };
            for k in top - 4..top {
                match parse(1 << k) {
                    Some(kept) if kept > 0 => (),
                    _ => return 0,
                }
            }
            1
        };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                alarm(100);
                _exit(child())
            }
        }
        let mut status = 0;
        if pid < 0 || unsafe { waitpid(pid, &mut status, 0) } != pid {
            return Ok(());
        }
        // Ended by itself with 1. (Anything else is for other properties.)
        if status == 1 << 8 {
            return fail(text, format!("parsed 2^{} times: memory is kept after the results are gone, again and again", top));
        }
        Ok(())
    })
}

extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

/// Seconds of processor time that this thread has had.
fn thread_time() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}

fn timed<T>(parse: impl Fn() -> T) -> f64 {
    let start = thread_time();
    let got = guarded(&parse);
    let spent = thread_time() - start;
    drop(got);
    spent
}

/// Do costs for each byte grow from one to the other? (Costs below a floor count as that.)
fn compare(what: &str, n: usize, floor: f64, costs: [[(&'static str, f64, f64, f64); 3]; 2], ctx: &mut Ctx) -> Result<(), Fail> {
    for (a, b) in costs[0].iter().zip(&costs[1]) {
        let (less, more) = (a.1 / a.3, b.1 / b.3);
        if b.1 > a.2 {
            ctx.measure("largest growth of a cost for each byte, in hundredths", (more / less * 100.0) as u64);
            if more > 3.0 * less.max(floor) {
                let detail = format!("{} {} are {:.1} for each byte of text and result, but 16 times as many are {:.1} for each", a.1, a.0, less, more);
                return fail(&format!("{} of: {}", n, what), detail);
            }
        }
    }
    Ok(())
}

/// The same in other layouts, for fewer of them.
pub fn growth_laid_out(is_mtl: bool, top: u32) -> Item {
    let dims = if is_mtl { crate::mtlspace::dimensions() } else { crate::objspace::dimensions() };
    let name = if is_mtl { "cost/mtl/growth/layouts" } else { "cost/growth/layouts" };
    let radix = [4, 3, 3, dims.len() as u64];
    Item::new(name, format!("{} things that can repeat, in 36 layouts: the cost for each byte with 2^{} of them is not much larger than with a 16th", dims.len(), top), product(&radix), move |i, ctx| {
        let [blank, end, lines, d] = digits(i, radix);
        let (what, text) = dims[d];
        let mut costs = Vec::new();
        let mut start = String::new();
        for n in [1usize << (top - 4), 1 << top] {
            ctx.traces += 2;
            let mut input = String::new();
            crate::extra::lay_out_as(&text(n), blank as u64, end as u64, lines as u64, &mut input);
            start = input.chars().take(60).collect();
            let parse = || if is_mtl { measure(&|| mtl::parse(&input)) } else { measure(&|| obj::parse(&input)) };
            let (Some(_), Some(cost)) = (parse(), parse()) else { return Ok(()) };
            let bytes = (input.len() as i64 + cost.result.max(0)) as f64;
            costs.push([("steps", cost.steps as f64, 1e5, bytes), ("bytes of memory in use", cost.peak as f64, 1e6, bytes), ("bytes of memory asked for", cost.total as f64, 1e6, bytes)]);
        }
        ctx.sample(what);
        compare(&format!("{} (in the layout of {:?}...)", what, start), 1 << top, 40.0, [costs[0], costs[1]], ctx)
    })
}

/// Whatever repeats more often costs more in proportion: the cost for each byte
/// (of the text and the result) does not grow with their number.
pub fn growth(is_mtl: bool, top: u32) -> Item {
    let dims = if is_mtl { crate::mtlspace::dimensions() } else { crate::objspace::dimensions() };
    let name = if is_mtl { "cost/mtl/growth" } else { "cost/growth" };
    Item::new(name, format!("{} things that can repeat: the cost for each byte with 2^{} of them is not much larger than with a 16th", dims.len(), top), dims.len() as u64, move |i, ctx| {
        let (what, text) = dims[i as usize];
        let mut costs = Vec::new();
        let inputs = [text(1usize << (top - 4)), text(1 << top)];
        for n in [1usize << (top - 4), 1 << top] {
            ctx.traces += 2;
            let input = &inputs[(n == 1 << top) as usize];
            let parse = || if is_mtl { measure(&|| mtl::parse(input)) } else { measure(&|| obj::parse(input)) };
            let (Some(_), Some(cost)) = (parse(), parse()) else { return Ok(()) };
            let bytes = (input.len() as i64 + cost.result.max(0)) as f64;
            costs.push([("steps", cost.steps as f64, 1e6, bytes), ("bytes of memory in use", cost.peak as f64, 1e7, bytes), ("bytes of memory asked for", cost.total as f64, 1e7, bytes)]);
        }
        compare(what, 1 << top, 0.0, [costs[0], costs[1]], ctx)?;
        // Work in functions of the standard library is not counted in steps, but
        // it takes time. Only a large difference that remains is taken for one.
        let bytes = [costs[0][0].3, costs[1][0].3];
        let mut times = [f64::MAX; 2];
        for _ in 0..6 {
            for k in 0..2 {
                ctx.traces += 1;
                let spent = if is_mtl { timed(|| mtl::parse(&inputs[k])) } else { timed(|| obj::parse(&inputs[k])) };
                times[k] = times[k].min(spent);
            }
            if times[1] < 0.4 || times[1] / bytes[1] < 8.0 * times[0] / bytes[0] {
                return Ok(());
            }
        }
        fail(&format!("{} of: {}", 1u64 << top, what), format!("takes {:.3} s, but a 16th of it {:.4} s", times[1], times[0]))
    })
}
