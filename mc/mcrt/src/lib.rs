//! A stateless model checker for instrumented Rust code.
//!
//! The code under test is compiled with `-Zsanitizer=thread`, but linked against this crate instead of the
//! ThreadSanitizer runtime: every atomic operation is a scheduling point of the explorer, every plain access is
//! checked against the vector clocks of the running threads and against the arena the heap lives in.
mod alloc;
mod coro;
pub mod engine;
mod runner;
mod shared;
mod tsan;

pub use engine::{mix, Bounds};
pub use runner::{main, Prop, Scenario};

use engine::*;

/// Chooses among `n` alternatives: the explorer tries them all.
#[inline(never)]
pub fn choose(n: usize) -> usize {
    engine::choose(n)
}
/// Chooses one of the items.
#[inline(never)]
pub fn pick<T: Copy>(items: &[T]) -> T {
    items[engine::choose(items.len())]
}
/// Runs closures concurrently under all schedules within bounds.
#[inline(never)]
pub fn par(fs: Vec<Box<dyn FnOnce()>>) {
    engine::par(fs)
}
#[inline(never)]
pub fn bounds() -> Bounds {
    g().bounds
}
/// Reports a violation of the property and leaves the execution.
#[inline(never)]
pub fn fail(key: &str, msg: String) -> ! {
    engine::violation(key, msg)
}
#[inline(never)]
pub fn check(cond: bool, key: &str, msg: impl FnOnce() -> String) {
    if !cond {
        let m = msg();
        engine::violation(key, m)
    }
}
/// Abandons the branch as irrelevant.
#[inline(never)]
pub fn discard() -> ! {
    engine::abandon(Outcome::Discarded)
}
/// Counts a step of a sequential exploration.
#[inline(never)]
pub fn step() {
    engine::op()
}
/// Records a state for the evidence.
#[inline(never)]
pub fn state(h: u64) {
    engine::state(h)
}
/// Whether this state (which must determine everything that can follow) was explored already.
#[inline(never)]
pub fn seen(h: u64) -> bool {
    engine::seen(h)
}
/// Abandons the branch if the state was explored already.
#[inline(never)]
pub fn prune_if_seen(h: u64) {
    engine::state(h);
    if engine::seen(h) {
        engine::abandon(Outcome::Pruned)
    }
}
#[inline(never)]
pub fn outcome(h: u64) {
    engine::outcome(h)
}
#[inline(never)]
pub fn mark(h: u64) {
    engine::mark(h)
}
#[inline(never)]
pub fn note(h: u64) {
    engine::note(h)
}
/// Adds a line to the trace; only evaluated when replaying.
#[inline(never)]
pub fn log(f: impl FnOnce() -> String) {
    if g().trace {
        let tr = g().tracking;
        g().tracking = false;
        let s = f();
        let l = format!("{s}");
        g().log.push(l);
        drop(s);
        g().tracking = tr;
    }
}
/// Runs `f` (harness bookkeeping) with the system allocator and no access checks.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let prev = set_tracking(false);
    let r = f();
    set_tracking(prev);
    r
}
#[inline(never)]
pub fn set_tracking(t: bool) -> bool {
    let g = g();
    let prev = g.tracking;
    g.tracking = t && g.in_exec;
    prev
}
/// Heap blocks still allocated: (address, size, align).
#[inline(never)]
pub fn live_blocks() -> Vec<(usize, usize, usize)> {
    quiet(engine::live_blocks)
}
#[inline(never)]
pub fn live_count() -> usize {
    engine::live_count()
}
#[inline(never)]
pub fn forgive_leaks() {
    engine::forgive_leaks()
}
#[inline(never)]
pub fn check_no_leak(key: &str) {
    if engine::live_count() != 0 {
        let prev = set_tracking(false);
        let b: Vec<String> = engine::live_blocks()
            .iter()
            .map(|(a, s, al)| format!("{} ({s} bytes, align {al})", fmt_addr(*a)))
            .collect();
        let m = format!("{} heap block(s) leaked: {}", b.len(), b.join(", "));
        set_tracking(prev);
        engine::violation(key, m)
    }
}
#[inline(never)]
pub fn arena_alloc(size: usize, align: usize) -> *mut u8 {
    engine::arena_alloc(size, align)
}
#[inline(never)]
pub fn arena_free(p: *mut u8) {
    engine::arena_free(p, None)
}
#[inline(never)]
pub fn arena_block(p: *mut u8) -> Option<(usize, usize)> {
    engine::arena_block(p)
}
#[inline(never)]
pub fn in_arena(p: usize) -> bool {
    engine::in_arena(p)
}
/// Is the whole range inside one live allocation (or outside of the arena)?
#[inline(never)]
pub fn range_live(p: usize, n: usize) -> bool {
    engine::range_live(p, n)
}
/// Announces a plain access made by code that is not instrumented.
#[inline(never)]
pub fn touch(p: usize, n: usize, write: bool) {
    engine::access(p, n, write)
}
#[inline(never)]
pub fn fault() -> bool {
    engine::fault()
}
/// Makes every call to the global allocator a possible injected failure.
#[inline(never)]
pub fn set_alloc_faults(on: bool) {
    g().alloc_faults = on;
}
#[inline(never)]
pub fn faults_injected() -> u32 {
    engine::faults_injected()
}
#[inline(never)]
pub fn alloc_calls() -> u64 {
    g().alloc_calls
}
#[inline(never)]
pub fn tracing() -> bool {
    g().trace
}
#[inline(never)]
pub fn thread() -> usize {
    engine::current()
}
#[inline(never)]
pub fn last_panic() -> String {
    quiet(|| g().panic_msg.clone())
}
/// Runs `f`, expecting that it may panic: returns the message in that case.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            drop(p);
            Err(last_panic())
        }
    }
}

// ---------------------------------------------------------------- tracked objects

const OBJ_LIVE: u8 = 1;
const OBJ_DROPPED: u8 = 2;

/// Registers a new object and returns its identifier.
#[inline(never)]
pub fn obj_new() -> u32 {
    let prev = set_tracking(false);
    let g = g();
    g.objs.push(OBJ_LIVE);
    let id = g.objs.len() as u32;
    set_tracking(prev);
    id
}
#[inline(never)]
pub fn obj_drop(id: u32) {
    let g = g();
    match g.objs.get(id as usize - 1).copied() {
        Some(OBJ_LIVE) => g.objs[id as usize - 1] = OBJ_DROPPED,
        Some(OBJ_DROPPED) => engine::violation("double-drop", quiet(|| format!("object {id} dropped twice"))),
        _ => engine::violation("bad-object", quiet(|| format!("dropping garbage (object {id:#x})"))),
    }
}
#[inline(never)]
pub fn obj_use(id: u32) {
    let g = g();
    match g.objs.get((id as usize).wrapping_sub(1)).copied() {
        Some(OBJ_LIVE) => {}
        Some(OBJ_DROPPED) => engine::violation("use-after-drop", quiet(|| format!("object {id} used after its destructor ran"))),
        _ => engine::violation("bad-object", quiet(|| format!("using garbage (object {id:#x})"))),
    }
}
#[inline(never)]
pub fn obj_live(id: u32) -> bool {
    g().objs.get((id as usize).wrapping_sub(1)) == Some(&OBJ_LIVE)
}
#[inline(never)]
pub fn objs_live() -> usize {
    g().objs.iter().filter(|o| **o == OBJ_LIVE).count()
}
#[inline(never)]
pub fn objs_total() -> usize {
    g().objs.len()
}
#[inline(never)]
pub fn check_no_object_leak(key: &str) {
    let n = objs_live();
    if n != 0 {
        let m = quiet(|| {
            let l: Vec<String> = g()
                .objs
                .iter()
                .enumerate()
                .filter(|(_, o)| **o == OBJ_LIVE)
                .map(|(i, _)| (i + 1).to_string())
                .collect();
            format!("{n} object(s) never dropped: {}", l.join(","))
        });
        engine::violation(key, m)
    }
}

// ---------------------------------------------------------------- who holds what, and since when

struct Held {
    clock: u64,
    handles: Vec<(u64, u64)>,
}
static mut HELD: Held = Held { clock: 0, handles: Vec::new() };
#[allow(static_mut_refs)]
fn held() -> &'static mut Held {
    unsafe { &mut HELD }
}
pub(crate) fn hold_reset() {
    let h = held();
    h.clock = 0;
    h.handles.clear();
}
/// Something starts being held.
#[inline(never)]
pub fn hold_begin() -> usize {
    quiet(|| {
        let h = held();
        h.clock += 1;
        h.handles.push((h.clock, u64::MAX));
        mark(0xAC);
        h.handles.len() - 1
    })
}
/// It starts being released.
#[inline(never)]
pub fn hold_end(i: usize) {
    let h = held();
    h.clock += 1;
    h.handles[i].1 = h.clock;
    mark(0x4E1 + thread() as u64);
}
#[inline(never)]
pub fn hold_now() -> u64 {
    let h = held();
    h.clock += 1;
    mark(0x0707 + thread() as u64);
    h.clock
}
/// Whether something was held since `t` without interruption.
#[inline(never)]
pub fn held_since(t: u64) -> bool {
    held().handles.iter().any(|(a, d)| *a <= t && *d == u64::MAX)
}
