//! The stateless model checker: choices, coroutines, memory model, race detection, arena.
use crate::coro;
use crate::shared::*;

pub const MAXT: usize = 5;
pub const ARENA_BASE: usize = 0x5000_0000_0000;
pub const ARENA_MAIN: usize = 16 << 20;
pub const ARENA_THREAD: usize = 4 << 20;
pub const ARENA_SIZE: usize = ARENA_MAIN + ARENA_THREAD * (MAXT - 1);
const REDZONE: usize = 32;

type Vc = [u32; MAXT];

/// Runs `f` with allocations routed to the system allocator and accesses ignored.
pub(crate) struct Quiet(bool);
impl Quiet {
    #[inline]
    pub fn enter() -> Self {
        let g = g();
        let prev = g.tracking;
        g.tracking = false;
        Quiet(prev)
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        g().tracking = self.0;
    }
}

#[derive(Clone, Default)]
pub struct IdHasher(u64);
impl std::hash::Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = mix(self.0, *c as u64);
        }
    }
    fn write_usize(&mut self, v: usize) {
        self.0 = mix(self.0, v as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix(self.0, v);
    }
}
#[derive(Clone, Default)]
pub struct BuildId;
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
type Map<K, V> = std::collections::HashMap<K, V, BuildId>;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let x = (a ^ 0x9E37_79B9_7F4A_7C15) as u128 * ((b ^ 0xD1B5_4A32_D192_ED03) | 1) as u128;
    let h = (x as u64) ^ ((x >> 64) as u64);
    (h ^ b.rotate_left(32)).wrapping_mul(0xFF51_AFD7_ED55_8CCD).rotate_left(29) ^ a.rotate_left(17)
}

struct Store {
    val: u128,
    tid: u8,
    epoch: u32,
    /// identity of the store: (thread, index of the operation in that thread)
    id: u64,
    rel: Option<Box<Vc>>,
    sc: bool,
}
struct Loc {
    size: u8,
    stores: Vec<Store>,
    /// (thread, epoch of the read, index of the store read)
    reads: Vec<(u8, u32, u32)>,
    chain: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Free,
    Ready,
    /// Blocked until some value-changing store at this address.
    Spin(usize),
    /// Thread 0 waiting for the others.
    Join,
    Done,
}

struct Thread {
    ctx: usize,
    status: Status,
    vc: Vc,
    acq_pending: Vc,
    rel_fence: Option<Box<Vc>>,
    hist: u64,
    ops: u32,
    entry: Option<Box<dyn FnOnce()>>,
    spin_addr: usize,
    spin_val: u128,
    spin_count: u32,
    unspins: u32,
    run_len: u32,
}
impl Thread {
    const fn new() -> Self {
        Thread {
            ctx: 0,
            status: Status::Free,
            vc: [0; MAXT],
            acq_pending: [0; MAXT],
            rel_fence: None,
            hist: 0,
            ops: 0,
            entry: None,
            spin_addr: 0,
            spin_val: 0,
            spin_count: 0,
            unspins: 0,
            run_len: 0,
        }
    }
}

#[derive(Clone, Copy)]
struct Rec {
    tid: u8,
    write: bool,
    atomic: bool,
    mask: u8,
    epoch: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Running,
    Done,
    /// This subtree belongs to another worker.
    Skipped,
    /// This state was already explored.
    Pruned,
    /// The harness declared the branch irrelevant.
    Discarded,
    Violation,
}

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    /// Preemptive context switches allowed per execution (`u32::MAX`: no bound).
    pub preempt: u32,
    /// Reads allowed to return something else than the latest store, per execution.
    pub stale: u32,
    /// Scheduling steps after which an execution is declared non-terminating.
    pub max_steps: u64,
    /// Depth (in decisions) at which subtrees are shared among workers.
    pub split: usize,
    /// Whether states already visited are pruned.
    pub cache: bool,
    /// A free parameter for the scenario (e.g. a depth).
    pub depth: usize,
    pub width: usize,
    /// Wall-clock cap for the scenario, in seconds.
    pub cap_s: f64,
    /// Allocation failures that may be injected per execution.
    pub faults: u32,
}
impl Bounds {
    pub const SEQ: Bounds = Bounds {
        preempt: 0,
        stale: 0,
        max_steps: 1_000_000,
        split: 3,
        cache: false,
        depth: 4,
        width: 0,
        cap_s: 240.0,
        faults: 0,
    };
    pub const CONC: Bounds = Bounds {
        preempt: 2,
        stale: 1,
        max_steps: 20_000,
        split: 5,
        cache: true,
        depth: 2,
        width: 0,
        cap_s: 240.0,
        faults: 0,
    };
    pub const fn depth(mut self, depth: usize) -> Self {
        self.depth = depth;
        self
    }
    pub const fn width(mut self, width: usize) -> Self {
        self.width = width;
        self
    }
    pub const fn split(mut self, split: usize) -> Self {
        self.split = split;
        self
    }
    pub const fn preempt(mut self, n: u32) -> Self {
        self.preempt = n;
        self
    }
    pub const fn stale(mut self, n: u32) -> Self {
        self.stale = n;
        self
    }
    pub const fn faults(mut self, n: u32) -> Self {
        self.faults = n;
        self
    }
    pub const fn cap(mut self, s: f64) -> Self {
        self.cap_s = s;
        self
    }
}

#[derive(Clone, Copy)]
struct Block {
    addr: usize,
    size: usize,
    align: usize,
    live: bool,
    /// Freed by thread (for messages)
    ignore_leak: bool,
}

pub struct G {
    pub tracking: bool,
    pub in_exec: bool,
    pub in_par: bool,
    pub trace: bool,
    pub log: Vec<String>,
    pub bounds: Bounds,
    pub slot: *mut WorkerSlot,
    pub shared: *mut Shared,
    pub worker: usize,
    // choice stack
    pub path: Vec<(u16, u16)>,
    pub pos: usize,
    pub replay_len: usize,
    pub sharded: bool,
    // execution state
    pub outcome: Outcome,
    pub vio_key: String,
    pub vio_msg: String,
    controller: usize,
    threads: [Thread; MAXT],
    cur: usize,
    locs: Map<usize, Loc>,
    sc_clock: Vc,
    shadow: Map<usize, Vec<Rec>>,
    preempts: u32,
    stales: u32,
    faults: u32,
    pub steps: u64,
    pub new_steps: u64,
    global_hist: u64,
    // arena
    bytes: Vec<u8>,
    bump: [usize; MAXT],
    blocks: Vec<Block>,
    block_of: Map<usize, usize>,
    pub fail_alloc_in: Option<u64>,
    pub bodies: Option<fn()>,
    pub alloc_faults: bool,
    // objects
    pub objs: Vec<u8>,
    pub panic_msg: String,
    pub alloc_calls: u64,
    pub forced: Vec<u16>,
}

struct GCell(std::cell::UnsafeCell<Option<Box<G>>>);
unsafe impl Sync for GCell {}
static GLOBAL: GCell = GCell(std::cell::UnsafeCell::new(None));
static mut GPTR: *mut G = core::ptr::null_mut();

#[inline(always)]
pub fn g() -> &'static mut G {
    unsafe { &mut *GPTR }
}
#[inline(always)]
pub fn ready() -> bool {
    unsafe { !GPTR.is_null() }
}

pub fn init() {
    unsafe {
        let b = Box::new(G {
            tracking: false,
            in_exec: false,
            in_par: false,
            trace: false,
            log: Vec::new(),
            bounds: Bounds::SEQ,
            slot: core::ptr::null_mut(),
            shared: core::ptr::null_mut(),
            worker: 0,
            path: Vec::new(),
            pos: 0,
            replay_len: 0,
            sharded: false,
            outcome: Outcome::Running,
            vio_key: String::new(),
            vio_msg: String::new(),
            controller: 0,
            threads: [const { Thread::new() }; MAXT],
            cur: 0,
            locs: Map::default(),
            sc_clock: [0; MAXT],
            shadow: Map::default(),
            preempts: 0,
            stales: 0,
            faults: 0,
            steps: 0,
            new_steps: 0,
            global_hist: 0,
            bytes: vec![0u8; ARENA_SIZE],
            bump: [0; MAXT],
            blocks: Vec::new(),
            block_of: Map::default(),
            fail_alloc_in: None,
            bodies: None,
            alloc_faults: false,
            objs: Vec::new(),
            panic_msg: String::new(),
            alloc_calls: 0,
            forced: Vec::new(),
        });
        *GLOBAL.0.get() = Some(b);
        let p = libc::mmap(
            ARENA_BASE as *mut _,
            ARENA_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert_eq!(p as usize, ARENA_BASE, "cannot map the arena");
        for i in 0..MAXT {
            coro::map_stack(i);
        }
        GPTR = (*GLOBAL.0.get()).as_mut().unwrap().as_mut() as *mut G;
        for t in 0..MAXT {
            g().bump[t] = region(t).0;
        }
        std::panic::set_hook(Box::new(|info| {
            let _q = Quiet::enter();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
                .unwrap_or_default();
            if !g().in_exec {
                eprintln!("panic outside of an execution: {msg} at {loc}");
            }
            g().panic_msg = format!("{msg} ({loc})");
        }));
    }
}

fn region(t: usize) -> (usize, usize) {
    if t == 0 {
        (ARENA_BASE, ARENA_BASE + ARENA_MAIN)
    } else {
        let b = ARENA_BASE + ARENA_MAIN + (t - 1) * ARENA_THREAD;
        (b, b + ARENA_THREAD)
    }
}

pub fn fmt_addr(a: usize) -> String {
    for t in 0..MAXT {
        let (b, e) = region(t);
        if a >= b && a < e {
            return format!("heap{}+{:#x}", t, a - b);
        }
    }
    if a >= coro::STACK_BASE && a < coro::STACK_BASE + MAXT * (coro::STACK + 0x10000) {
        return format!("stack+{:#x}", a - coro::STACK_BASE);
    }
    format!("static..{:03x}", a & 0xfff)
}

// ---------------------------------------------------------------- violations & abandonment

/// Leaves the current execution for good.
pub fn abandon(o: Outcome) -> ! {
    let g = g();
    g.tracking = false;
    g.outcome = o;
    unsafe {
        let mut dummy = 0usize;
        coro::switch(&mut dummy, g.controller);
    }
    unreachable!()
}

#[inline(never)]
pub fn violation(key: &str, msg: String) -> ! {
    let _q = Quiet::enter();
    let g = g();
    if !g.in_exec {
        eprintln!("violation outside of an execution: {key}: {msg}");
        std::process::exit(3);
    }
    g.vio_key = key.to_string();
    // (The message may lie in the memory of this execution.)
    g.vio_msg = msg.as_str().to_string();
    core::mem::forget(msg);
    if g.trace {
        let m = format!("T{}: VIOLATION {}: {}", g.cur, g.vio_key, g.vio_msg);
        g.log.push(m);
    }
    abandon(Outcome::Violation)
}

// ---------------------------------------------------------------- choices

pub fn choose(n: usize) -> usize {
    assert!(n > 0 && n < 65536);
    if n == 1 {
        return 0;
    }
    let g = g();
    if !g.in_exec {
        panic!("choose outside of an execution");
    }
    let c = if g.pos < g.path.len() {
        let (c, m) = g.path[g.pos];
        if m as usize != n {
            let _q = Quiet::enter();
            eprintln!(
                "INTERNAL: nondeterminism: decision {} had {} alternatives, now {}",
                g.pos, m, n
            );
            unsafe {
                (*g.slot).internal_error = 1;
            }
            abandon(Outcome::Discarded);
        }
        c as usize
    } else {
        let _q = Quiet::enter();
        let c = g.forced.get(g.pos).copied().unwrap_or(0);
        let c = if (c as usize) < n { c } else { 0 };
        g.path.push((c, n as u16));
        c as usize
    };
    if !g.slot.is_null() {
        unsafe {
            let s = &mut *g.slot;
            if g.pos < PATH_MAX {
                s.path[g.pos] = c as u16;
                s.path_len = (g.pos + 1) as u32;
            }
        }
    }
    g.pos += 1;
    g.threads[g.cur].hist = mix(g.threads[g.cur].hist, 0x1000 + c as u64);
    if g.sharded && g.pos == g.bounds.split && g.pos >= g.replay_len {
        // First time this worker walks this prefix: is it ours?
        let mut h = 77u64;
        for (c, n) in &g.path[..g.pos] {
            h = mix(h, (*c as u64) << 16 | *n as u64);
        }
        if !unsafe { (*g.shared).claim(h) } {
            abandon(Outcome::Skipped);
        }
    }
    c
}

fn beyond_split() -> bool {
    let g = g();
    !g.sharded || g.pos >= g.bounds.split
}

/// Is new territory being explored (as opposed to the replayed prefix)?
pub fn fresh_territory() -> bool {
    let g = g();
    g.pos >= g.replay_len
}

/// Declares the state `h` (with everything that determines the future of this branch): returns
/// true when it has been explored already, in which case the branch can be abandoned.
pub fn seen(h: u64) -> bool {
    let g = g();
    if g.trace || !fresh_territory() || !beyond_split() || g.shared.is_null() {
        return false;
    }
    !unsafe { (*g.shared).seen.insert(mix(h, 0x5EE4)) }
}

/// Counts a state in the evidence.
pub fn state(h: u64) {
    let g = g();
    if g.shared.is_null() || g.trace {
        return;
    }
    if fresh_territory() {
        unsafe { (*g.shared).states.insert(mix(h, 0x57A7)) };
    }
}
pub fn outcome(h: u64) {
    let g = g();
    if g.shared.is_null() || g.trace {
        return;
    }
    unsafe { (*g.shared).outcomes.insert(mix(h, 0x0C7)) };
}
pub fn op() {
    let g = g();
    g.steps += 1;
    if fresh_territory() {
        g.new_steps += 1;
    }
    if g.steps > g.bounds.max_steps {
        violation(
            "no-termination",
            format!("the execution did not end within {} steps", g.bounds.max_steps),
        );
    }
}
/// Adds something to the global history (used when the order of events across threads matters to the oracle).
pub fn mark(h: u64) {
    let g = g();
    g.global_hist = mix(g.global_hist, h);
}
/// Adds something to the history of the current thread.
pub fn note(h: u64) {
    let g = g();
    let c = g.cur;
    g.threads[c].hist = mix(g.threads[c].hist, h);
}

// ---------------------------------------------------------------- executions

extern "C" fn coro_main() -> ! {
    let g0 = g();
    let t = g0.cur;
    let f = g0.threads[t].entry.take().expect("coroutine without entry");
    g0.tracking = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let g1 = g();
    g1.tracking = false;
    if r.is_err() {
        let m = format!("unexpected panic: {}", g1.panic_msg);
        violation("panic", m);
    }
    drop(r);
    let g1 = g();
    if t == 0 {
        g1.outcome = Outcome::Done;
        unsafe {
            let mut dummy = 0usize;
            coro::switch(&mut dummy, g1.controller);
        }
        unreachable!()
    }
    g1.threads[t].status = Status::Done;
    if g1.trace {
        g1.log.push(format!("T{t}: done"));
    }
    pick_next(true);
    unreachable!()
}

/// Runs `body` once, following `path` then first choices.
pub fn run_once(body: fn()) -> Outcome {
    let g = g();
    g.outcome = Outcome::Running;
    g.pos = 0;
    g.steps = 0;
    g.preempts = 0;
    g.stales = 0;
    g.faults = 0;
    g.global_hist = 0;
    g.in_par = false;
    g.locs.clear();
    g.shadow.clear();
    g.objs.clear();
    crate::hold_reset();
    g.fail_alloc_in = None;
    g.alloc_faults = false;
    g.alloc_calls = 0;
    g.blocks.clear();
    g.block_of.clear();
    for t in 0..MAXT {
        let (b, _) = region(t);
        let used = g.bump[t] - b;
        g.bytes[b - ARENA_BASE..b - ARENA_BASE + used].fill(0);
        g.bump[t] = b;
        let th = &mut g.threads[t];
        th.status = Status::Free;
        th.hist = 0;
        // What an abandoned execution left behind must not run its destructors.
        core::mem::forget(th.entry.take());
        th.rel_fence = None;
    }
    g.threads[0].status = Status::Ready;
    g.threads[0].entry = Some(Box::new(body));
    g.cur = 0;
    g.threads[0].ctx = coro::fresh(0, coro_main);
    g.in_exec = true;
    if !g.slot.is_null() {
        unsafe { (*g.slot).path_len = 0 };
    }
    unsafe { coro::switch(&mut g.controller, g.threads[0].ctx) };
    g.in_exec = false;
    g.in_par = false;
    g.tracking = false;
    g.outcome
}

/// Runs the closures as concurrent threads, under every schedule within bounds; returns when all are done.
pub fn par(fs: Vec<Box<dyn FnOnce()>>) {
    let q = Quiet::enter();
    let g = g();
    assert!(!g.in_par && g.cur == 0 && fs.len() < MAXT);
    g.in_par = true;
    g.locs.clear();
    g.shadow.clear();
    g.sc_clock = [0; MAXT];
    let n = fs.len();
    for t in 0..MAXT {
        g.threads[t].vc = [0; MAXT];
        g.threads[t].vc[t] = 1;
        g.threads[t].acq_pending = [0; MAXT];
        g.threads[t].rel_fence = None;
        g.threads[t].ops = 0;
        g.threads[t].spin_addr = 0;
        g.threads[t].spin_count = 0;
        g.threads[t].unspins = 0;
        g.threads[t].run_len = 0;
        if t > 0 {
            g.threads[t].status = Status::Free;
            g.threads[t].hist = 0;
        }
    }
    for (i, f) in fs.into_iter().enumerate() {
        let t = i + 1;
        g.threads[t].status = Status::Ready;
        g.threads[t].entry = Some(f);
        g.threads[t].ctx = coro::fresh(t, coro_main);
    }
    g.threads[0].status = Status::Join;
    if n > 0 {
        pick_next(true);
    }
    let g = self::g();
    debug_assert_eq!(g.cur, 0);
    g.threads[0].status = Status::Ready;
    let mut h = 0;
    for t in 1..=n {
        h = mix(h, g.threads[t].hist);
        g.threads[t].status = Status::Free;
    }
    g.threads[0].hist = mix(g.threads[0].hist, h);
    g.in_par = false;
    g.locs.clear();
    g.shadow.clear();
    drop(q);
}

fn state_hash() -> u64 {
    let g = g();
    let mut h = 0u64;
    for t in 0..MAXT {
        let th = &g.threads[t];
        if th.status != Status::Free {
            let st = match th.status {
                Status::Spin(_) => 3,
                Status::Done => 4,
                _ => 1,
            };
            h = mix(h, mix(th.hist, st + 16 * t as u64 + 256 * th.ops as u64));
            h = mix(h, (th.spin_count as u64) << 32 | th.unspins as u64);
        }
    }
    let mut l = 0u64;
    for (a, loc) in &g.locs {
        l = l.wrapping_add(mix(mix(1, *a as u64), loc.chain));
    }
    h = mix(h, l);
    h = mix(h, g.global_hist);
    h = mix(h, (g.cur as u64) | (g.preempts as u64) << 8 | (g.stales as u64) << 40 | (g.faults as u64) << 52);
    h
}

/// Picks the thread that runs next. `leaving`: the current thread cannot continue.
fn pick_next(leaving: bool) {
    loop {
        let g = g();
        let cur = g.cur;
        let mut en = [0usize; MAXT];
        let mut n = 0;
        let cur_ok = !leaving && g.threads[cur].status == Status::Ready;
        if cur_ok {
            en[n] = cur;
            n += 1;
        }
        for t in 1..MAXT {
            if t != cur || !cur_ok {
                if g.threads[t].status == Status::Ready {
                    en[n] = t;
                    n += 1;
                }
            }
        }
        if n == 0 {
            // Everyone is done, or somebody spins.
            let mut woke = false;
            let mut spinning = false;
            for t in 1..MAXT {
                if let Status::Spin(_) = g.threads[t].status {
                    spinning = true;
                    if g.threads[t].unspins < 12 {
                        g.threads[t].unspins += 1;
                        g.threads[t].spin_count = 0;
                        g.threads[t].status = Status::Ready;
                        woke = true;
                    }
                }
            }
            if woke {
                continue;
            }
            if spinning {
                let who: Vec<String> = (1..MAXT)
                    .filter_map(|t| match g.threads[t].status {
                        Status::Spin(a) => Some(format!("T{t} spins on {}", fmt_addr(a))),
                        _ => None,
                    })
                    .collect();
                violation("livelock", who.join(", "));
            }
            // All done: back to thread 0.
            for t in 1..MAXT {
                let vc = g.threads[t].vc;
                if g.threads[t].status == Status::Done {
                    join(&mut g.threads[0].vc, &vc);
                }
            }
            return switch_to(0);
        }
        let forced = cur_ok && g.threads[cur].run_len > 400 && n > 1;
        let choice = if cur_ok && !forced {
            if n > 1 && g.preempts < g.bounds.preempt {
                pick(n)
            } else {
                0
            }
        } else if forced {
            1 + pick(n - 1)
        } else {
            pick(n)
        };
        let g = self::g();
        let next = en[choice];
        if cur_ok && !forced && next != cur {
            g.preempts += 1;
        }
        return switch_to(next);
    }
}

fn pick(n: usize) -> usize {
    if n > 1 {
        let g = g();
        if g.pos >= g.path.len() && !g.trace && !g.shared.is_null() {
            let h = state_hash();
            unsafe { (*g.shared).states.insert(h) };
            if g.bounds.cache && beyond_split() {
                if !unsafe { (*g.shared).seen.insert(h) } {
                    abandon(Outcome::Pruned);
                }
            }
        }
        let c = choose_sched(n);
        return c;
    }
    0
}
fn choose_sched(n: usize) -> usize {
    // Scheduling decisions are not part of the history of a thread.
    let g = g();
    let cur = g.cur;
    let h = g.threads[cur].hist;
    let c = choose(n);
    self::g().threads[cur].hist = h;
    c
}

fn switch_to(t: usize) {
    let g = g();
    let cur = g.cur;
    if t == cur && g.threads[t].status != Status::Done {
        return;
    }
    g.threads[t].run_len = 0;
    let tr = g.tracking;
    g.cur = t;
    let to = g.threads[t].ctx;
    let save: *mut usize = &mut g.threads[cur].ctx;
    unsafe { coro::switch(save, to) };
    self::g().tracking = tr;
}

// ---------------------------------------------------------------- clocks

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

// ---------------------------------------------------------------- plain accesses

#[inline]
pub fn in_arena(addr: usize) -> bool {
    addr.wrapping_sub(ARENA_BASE) < ARENA_SIZE
}

const LIVE: u8 = 1;
const FREED: u8 = 2;

#[inline(never)]
fn bad_access(addr: usize, size: usize, what: &str) -> ! {
    let g = g();
    let _q = Quiet::enter();
    let mut st = 0;
    for i in 0..size {
        let b = g.bytes[addr - ARENA_BASE + i];
        if b != LIVE {
            st = b;
            break;
        }
    }
    if st == FREED {
        violation(
            "use-after-free",
            format!("{what} of {size} bytes at {} which has been freed", fmt_addr(addr)),
        )
    } else {
        violation(
            "out-of-bounds",
            format!("{what} of {size} bytes at {} outside of any allocation", fmt_addr(addr)),
        )
    }
}

#[inline]
fn check_live(addr: usize, size: usize, what: &str) {
    if in_arena(addr) && size > 0 {
        let g = g();
        let o = addr - ARENA_BASE;
        if o + size > ARENA_SIZE {
            bad_access(addr, 1, what);
        }
        let ok = match size {
            1 => g.bytes[o] == LIVE,
            8 => u64::from_le_bytes(g.bytes[o..o + 8].try_into().unwrap()) == 0x0101_0101_0101_0101,
            _ => g.bytes[o..o + size].iter().all(|b| *b == LIVE),
        };
        if !ok {
            bad_access(addr, size, what);
        }
    }
}

#[inline]
pub fn access(addr: usize, size: usize, write: bool) {
    if !ready() {
        return;
    }
    let g = g();
    if !g.tracking || size == 0 {
        return;
    }
    check_live(addr, size, if write { "write" } else { "read" });
    if g.in_par {
        par_access(addr, size, write, false);
    }
}

#[inline(never)]
fn par_access(addr: usize, size: usize, write: bool, atomic: bool) {
    let _q = Quiet::enter();
    let g = g();
    let cur = g.cur;
    if cur == 0 {
        return;
    }
    let mut a = addr & !7;
    let end = addr + size;
    while a < end {
        let lo = addr.max(a) - a;
        let hi = end.min(a + 8) - a;
        let mask = (((1u16 << hi) - 1) & !((1u16 << lo) - 1)) as u8;
        race_check(a, mask, write, atomic);
        a += 8;
    }
    if write && !atomic && !g.locs.is_empty() {
        // A plain write resets the history of any atomic it covers.
        if size <= 64 {
            for a in addr..end {
                if g.locs.contains_key(&a) {
                    g.locs.remove(&a);
                }
            }
        } else {
            g.locs.retain(|a, _| *a < addr || *a >= end);
        }
    }
    let _ = cur;
}

fn race_check(gran: usize, mask: u8, write: bool, atomic: bool) {
    let g = g();
    let cur = g.cur;
    let vc = g.threads[cur].vc;
    let recs = g.shadow.entry(gran).or_default();
    let mut i = 0;
    let mut bad: Option<Rec> = None;
    while i < recs.len() {
        let r = recs[i];
        if r.mask & mask != 0 && (r.write || write) && !(r.atomic && atomic) && r.tid as usize != cur {
            if r.epoch > vc[r.tid as usize] {
                bad = Some(r);
                break;
            }
        }
        // Records made obsolete by the new one.
        let ordered = r.tid as usize == cur || r.epoch <= vc[r.tid as usize];
        if ordered && r.mask & !mask == 0 && (write || !r.write) && (r.atomic || !atomic) {
            recs.swap_remove(i);
            continue;
        }
        i += 1;
    }
    if let Some(r) = bad {
        let kind = |w: bool, a: bool| match (w, a) {
            (true, true) => "atomic write",
            (true, false) => "write",
            (false, true) => "atomic read",
            (false, false) => "read",
        };
        violation(
            "data-race",
            format!(
                "{} by T{} at {} is not ordered with an earlier {} by T{}",
                kind(write, atomic),
                cur,
                fmt_addr(gran + mask.trailing_zeros() as usize),
                kind(r.write, r.atomic),
                r.tid
            ),
        );
    }
    recs.push(Rec {
        tid: cur as u8,
        write,
        atomic,
        mask,
        epoch: vc[cur],
    });
}

// ---------------------------------------------------------------- atomics

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Load,
    Store,
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Cas,
}

unsafe fn mem_read(addr: usize, size: u8) -> u128 {
    match size {
        1 => *(addr as *const u8) as u128,
        2 => *(addr as *const u16) as u128,
        4 => *(addr as *const u32) as u128,
        8 => *(addr as *const u64) as u128,
        _ => *(addr as *const u128),
    }
}
unsafe fn mem_write(addr: usize, size: u8, v: u128) {
    match size {
        1 => *(addr as *mut u8) = v as u8,
        2 => *(addr as *mut u16) = v as u16,
        4 => *(addr as *mut u32) = v as u32,
        8 => *(addr as *mut u64) = v as u64,
        _ => *(addr as *mut u128) = v,
    }
}
fn trunc(v: u128, size: u8) -> u128 {
    if size >= 16 {
        v
    } else {
        v & ((1u128 << (size as u32 * 8)) - 1)
    }
}
fn apply(kind: Kind, old: u128, operand: u128, size: u8) -> u128 {
    trunc(
        match kind {
            Kind::Add => old.wrapping_add(operand),
            Kind::Sub => old.wrapping_sub(operand),
            Kind::And => old & operand,
            Kind::Or => old | operand,
            Kind::Xor => old ^ operand,
            Kind::Nand => !(old & operand),
            Kind::Load => old,
            _ => operand,
        },
        size,
    )
}

// C ABI orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
fn is_acq(o: i32) -> bool {
    matches!(o, 1 | 2 | 4 | 5)
}
fn is_rel(o: i32) -> bool {
    matches!(o, 3 | 4 | 5)
}
fn oname(o: i32) -> &'static str {
    ["relaxed", "consume", "acquire", "release", "acqrel", "seqcst"][o.clamp(0, 5) as usize]
}

/// Performs an atomic operation. Returns the value read (0 for stores).
pub fn atomic(addr: usize, size: u8, kind: Kind, operand: u128, expected: u128, mo: i32, fmo: i32) -> u128 {
    if !ready() || !g().tracking || !g().in_par || g().cur == 0 {
        if ready() && g().tracking {
            check_live(addr, size as usize, "atomic access");
            op();
        }
        unsafe {
            let old = mem_read(addr, size);
            match kind {
                Kind::Load => {}
                Kind::Cas => {
                    if old == trunc(expected, size) {
                        mem_write(addr, size, trunc(operand, size))
                    }
                }
                _ => mem_write(addr, size, apply(kind, old, trunc(operand, size), size)),
            }
            return old;
        }
    }
    let _q = Quiet::enter();
    op();
    pick_next(false);
    let g = self::g();
    let cur = g.cur;
    g.threads[cur].run_len += 1;
    check_live(addr, size as usize, "atomic access");
    let operand = trunc(operand, size);
    let expected = trunc(expected, size);
    // History of the location.
    if !g.locs.contains_key(&addr) {
        let v = unsafe { mem_read(addr, size) };
        g.locs.insert(
            addr,
            Loc {
                size,
                stores: vec![Store { val: v, tid: 0, epoch: 0, id: 0, rel: None, sc: false }],
                reads: Vec::new(),
                chain: 0,
            },
        );
    }
    let nstores = {
        let loc = g.locs.get_mut(&addr).unwrap();
        if loc.size != size {
            violation("mixed-size-atomic", format!("atomic accesses of {} and {} bytes at {}", loc.size, size, fmt_addr(addr)));
        }
        loc.stores.len()
    };
    let will_write = match kind {
        Kind::Load => false,
        Kind::Cas => g.locs[&addr].stores[nstores - 1].val == expected,
        _ => true,
    };
    par_access(addr, size as usize, will_write, true);
    let g = self::g();
    // Read part.
    let order = if kind == Kind::Cas && !will_write { fmo } else { mo };
    let mut read_val = 0;
    let mut read_idx = nstores - 1;
    if kind != Kind::Store {
        if kind == Kind::Load && g.stales < g.bounds.stale && nstores > 1 {
            let loc = &g.locs[&addr];
            let vc = &g.threads[cur].vc;
            let mut lb = 0;
            for (i, s) in loc.stores.iter().enumerate() {
                if s.epoch <= vc[s.tid as usize] || s.tid as usize == cur {
                    lb = i;
                }
                if order == 5 && s.sc {
                    lb = i;
                }
            }
            for (t, e, i) in &loc.reads {
                if (*e <= vc[*t as usize] || *t as usize == cur) && (*i as usize) > lb {
                    lb = *i as usize;
                }
            }
            let n = nstores - lb;
            if n > 1 {
                let c = pick(n);
                let g = self::g();
                if c > 0 {
                    g.stales += 1;
                }
                read_idx = nstores - 1 - c;
            }
        }
        let g = self::g();
        let (val, rel, id) = {
            let s = &g.locs[&addr].stores[read_idx];
            (s.val, s.rel.as_deref().copied(), s.id)
        };
        read_val = val;
        if let Some(rel) = rel {
            let th = &mut g.threads[cur];
            if is_acq(order) {
                join(&mut th.vc, &rel);
            } else {
                join(&mut th.acq_pending, &rel);
            }
        }
        let th = &mut g.threads[cur];
        th.hist = mix(th.hist, mix(mix(addr as u64, kind as u64 + ((order as u64) << 8)), mix(id, val as u64)));
        let epoch = th.vc[cur];
        let loc = g.locs.get_mut(&addr).unwrap();
        if !will_write {
            let mut found = false;
            for r in loc.reads.iter_mut() {
                if r.0 as usize == cur && r.2 as usize == read_idx {
                    found = true;
                }
            }
            if !found {
                loc.reads.push((cur as u8, epoch, read_idx as u32));
            }
        }
    } else {
        let th = &mut g.threads[cur];
        th.hist = mix(th.hist, mix(mix(addr as u64, 1 + ((order as u64) << 8)), operand as u64));
    }
    // Write part.
    let mut changed = false;
    if will_write {
        let old = g.locs[&addr].stores[nstores - 1].val;
        let new = if kind == Kind::Cas { operand } else { apply(kind, old, operand, size) };
        changed = new != old;
        let th = &mut g.threads[cur];
        let mut rel: Option<Box<Vc>> = None;
        if is_rel(order) {
            rel = Some(Box::new(th.vc));
        } else if let Some(f) = &th.rel_fence {
            rel = Some(f.clone());
        }
        let epoch = th.vc[cur];
        th.ops += 1;
        let id = mix(cur as u64, th.ops as u64);
        let loc = g.locs.get_mut(&addr).unwrap();
        if kind != Kind::Store {
            // Continue the release sequence.
            if let Some(prev) = loc.stores[nstores - 1].rel.as_deref() {
                match &mut rel {
                    Some(r) => join(r, prev),
                    None => rel = Some(Box::new(*prev)),
                }
            }
        }
        loc.stores.push(Store { val: new, tid: cur as u8, epoch, id, rel, sc: order == 5 });
        loc.chain = mix(loc.chain, mix(id, new as u64));
        unsafe { mem_write(addr, size, new) };
        if changed {
            for t in 1..MAXT {
                if g.threads[t].status == Status::Spin(addr) {
                    g.threads[t].status = Status::Ready;
                    g.threads[t].spin_count = 0;
                }
            }
        }
    }
    {
        let th = &mut g.threads[cur];
        th.vc[cur] += 1;
    }
    if g.trace {
        let m = match kind {
            Kind::Load => format!(
                "T{cur}: load.{} {} -> {:#x}{}",
                oname(order), fmt_addr(addr), read_val,
                if read_idx + 1 != nstores { " (stale)" } else { "" }
            ),
            Kind::Store => format!("T{cur}: store.{} {} <- {:#x}", oname(order), fmt_addr(addr), operand),
            Kind::Cas => format!(
                "T{cur}: cas.{} {} {:#x} => {:#x}: {} (was {:#x})",
                oname(order), fmt_addr(addr), expected, operand, if will_write { "ok" } else { "failed" }, read_val
            ),
            k => format!("T{cur}: {:?}.{} {} {:#x} (was {:#x})", k, oname(order), fmt_addr(addr), operand, read_val),
        };
        g.log.push(m);
    }
    // Spin detection: repeatedly observing the same value without effect.
    let th = &mut g.threads[cur];
    if !changed && read_idx + 1 == nstores && kind != Kind::Store {
        if th.spin_addr == addr && th.spin_val == read_val {
            th.spin_count += 1;
            if th.spin_count >= 3 {
                th.status = Status::Spin(addr);
                pick_next(true);
            }
        } else {
            th.spin_addr = addr;
            th.spin_val = read_val;
            th.spin_count = 1;
        }
    } else if changed {
        th.spin_addr = 0;
        th.spin_count = 0;
        th.unspins = 0;
    }
    read_val
}

pub fn fence(mo: i32) {
    if !ready() || !g().tracking || !g().in_par || g().cur == 0 {
        return;
    }
    let _q = Quiet::enter();
    op();
    let g = g();
    let cur = g.cur;
    let th = &mut g.threads[cur];
    th.hist = mix(th.hist, 0xFE0 + mo as u64);
    if is_acq(mo) {
        let p = th.acq_pending;
        join(&mut th.vc, &p);
    }
    if mo == 5 {
        let sc = g.sc_clock;
        join(&mut g.threads[cur].vc, &sc);
        g.sc_clock = g.threads[cur].vc;
        let c = mix(g.threads[cur].hist, 5);
        g.global_hist = mix(g.global_hist, c);
    }
    let th = &mut g.threads[cur];
    if is_rel(mo) {
        th.rel_fence = Some(Box::new(th.vc));
    }
    th.vc[cur] += 1;
    if g.trace {
        g.log.push(format!("T{cur}: fence.{}", oname(mo)));
    }
}

// ---------------------------------------------------------------- arena

pub fn arena_alloc(size: usize, align: usize) -> *mut u8 {
    let _q = Quiet::enter();
    let g = g();
    let t = g.cur;
    let align_eff = align.max(8);
    let (_, end) = region(t);
    // Over-alignment is never provided for free: the address is a multiple of `align_eff`, not of twice that.
    let mut a = g.bump[t] + REDZONE;
    a = (a + align_eff - 1) & !(align_eff - 1);
    if a & align_eff == 0 {
        a += align_eff;
    }
    let next = match a.checked_add(size) {
        Some(n) if n + REDZONE < end => n,
        _ => return core::ptr::null_mut(),
    };
    g.bump[t] = (next + 7) & !7;
    g.bytes[a - ARENA_BASE..a - ARENA_BASE + size].fill(LIVE);
    unsafe { core::ptr::write_bytes(a as *mut u8, 0xA5, size) };
    g.block_of.insert(a, g.blocks.len());
    g.blocks.push(Block { addr: a, size, align, live: true, ignore_leak: false });
    g.threads[t].hist = mix(g.threads[t].hist, 0xA110C ^ (size as u64) << 8);
    if g.trace {
        g.log.push(format!("T{t}: alloc {size} (align {align}) -> {}", fmt_addr(a)));
    }
    a as *mut u8
}

/// The (size, align) requested for the live block at `p`.
pub fn arena_block(p: *mut u8) -> Option<(usize, usize)> {
    let g = g();
    let i = *g.block_of.get(&(p as usize))?;
    let b = &g.blocks[i];
    b.live.then_some((b.size, b.align))
}

pub fn arena_free(p: *mut u8, layout: Option<(usize, usize)>) {
    let _q = Quiet::enter();
    let g = g();
    let a = p as usize;
    let i = match g.block_of.get(&a) {
        Some(i) => *i,
        None => violation("bad-free", format!("freeing {} which is not the start of an allocation", fmt_addr(a))),
    };
    let b = g.blocks[i];
    if !b.live {
        violation("double-free", format!("freeing {} again", fmt_addr(a)));
    }
    if let Some((s, al)) = layout {
        if s != b.size || al != b.align {
            violation(
                "bad-free-layout",
                format!("block of size {} align {} freed as size {s} align {al}", b.size, b.align),
            );
        }
    }
    if g.in_par {
        // Freeing is a write to the whole block.
        par_access(a, b.size, true, false);
    }
    let g = self::g();
    g.blocks[i].live = false;
    g.bytes[a - ARENA_BASE..a - ARENA_BASE + b.size].fill(FREED);
    unsafe { core::ptr::write_bytes(p, 0xDD, b.size) };
    let t = g.cur;
    g.threads[t].hist = mix(g.threads[t].hist, 0xF4EE);
    if g.trace {
        g.log.push(format!("T{t}: free {}", fmt_addr(a)));
    }
}

pub fn live_blocks() -> Vec<(usize, usize, usize)> {
    g().blocks
        .iter()
        .filter(|b| b.live && !b.ignore_leak)
        .map(|b| (b.addr, b.size, b.align))
        .collect()
}
pub fn live_count() -> usize {
    g().blocks.iter().filter(|b| b.live && !b.ignore_leak).count()
}
/// Everything allocated so far is allowed to outlive the execution.
pub fn forgive_leaks() {
    for b in &mut g().blocks {
        b.ignore_leak = true;
    }
}

/// Whether the next fallible operation should fail (a decision of the explorer).
pub fn fault() -> bool {
    let g = g();
    if g.faults < g.bounds.faults {
        if choose(2) == 1 {
            self::g().faults += 1;
            if self::g().trace {
                let _q = Quiet::enter();
                self::g().log.push("fault injected: allocation fails".into());
            }
            return true;
        }
    }
    false
}


pub fn faults_injected() -> u32 {
    g().faults
}
pub fn current() -> usize {
    g().cur
}
pub fn range_live(p: usize, n: usize) -> bool {
    if !in_arena(p) {
        return true;
    }
    let o = p - ARENA_BASE;
    o + n <= ARENA_SIZE && g().bytes[o..o + n].iter().all(|b| *b == LIVE)
}
/// For the crash handler: what is being run.
pub fn current_path() -> Vec<u16> {
    let g = g();
    g.path[..g.pos.min(g.path.len())].iter().map(|c| c.0).collect()
}

pub fn replay_once(body: fn(), path: &[u16]) -> Outcome {
    let gg = g();
    gg.forced = path.to_vec();
    gg.path.clear();
    gg.replay_len = usize::MAX;
    let o = run_once(body);
    gg.forced.clear();
    o
}
