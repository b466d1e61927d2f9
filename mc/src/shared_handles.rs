//! Small concurrent programs over reference-counted handles.
use crate::P;
use mcrt::*;

/// A family of strong and weak handles to one shared value.
pub trait Family: 'static {
    type S: 'static;
    type W: 'static;
    const NAME: &'static str;
    /// Whether weak handles keep the value usable, and upgrades always succeed.
    const REVIVES: bool = false;
    fn make() -> Self::S;
    fn clone_s(s: &Self::S) -> Self::S;
    fn clone_w(w: &Self::W) -> Self::W;
    fn downgrade(s: &Self::S) -> Self::W;
    fn upgrade(w: &Self::W) -> Option<Self::S>;
    /// Reads the payload, returning its value.
    fn read(s: &Self::S) -> u64;
    /// (strong, weak) counts, if observable.
    fn counts(_s: &Self::S) -> Option<(usize, usize)> {
        None
    }
    /// Exclusive access: if granted, writes `v` and returns what was there.
    fn get_mut(_s: &mut Self::S, _v: u64) -> Option<u64> {
        None
    }
    /// Exclusive access, copying if needed.
    fn make_mut(_s: &mut Self::S, _v: u64) -> bool {
        false
    }
    /// Takes the value out.
    fn into_inner(s: Self::S) -> Result<u64, Self::S> {
        Err(s)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    CloneS,
    DropS,
    Downgrade,
    CloneW,
    DropW,
    Upgrade,
    Read,
    GetMut,
    MakeMut,
    IntoInner,
}
pub use Op::*;

/// Abstract handle counts used to enumerate meaningful programs only.
fn applicable(op: Op, s: usize, w: usize) -> bool {
    match op {
        CloneS => s > 0 && s < 2,
        Downgrade => s > 0 && w < 2,
        DropS | Read | GetMut | MakeMut | IntoInner => s > 0,
        CloneW => w > 0 && w < 2,
        DropW | Upgrade => w > 0,
    }
}
fn effect(op: Op, s: &mut usize, w: &mut usize) {
    match op {
        CloneS | Upgrade => *s += 1,
        DropS | IntoInner => *s -= 1,
        Downgrade | CloneW => *w += 1,
        DropW => *w -= 1,
        _ => {}
    }
}

/// Chooses a program of up to `depth` operations for a thread that starts with the given handles.
pub fn choose_program(alphabet: &[Op], depth: usize, s0: usize, w0: usize) -> Vec<Op> {
    quiet(|| {
        let mut v = Vec::new();
        let (mut s, mut w) = (s0, w0);
        for _ in 0..depth {
            let ok: Vec<Op> = alphabet.iter().copied().filter(|o| applicable(*o, s, w)).collect();
            let c = choose(ok.len() + 1);
            if c == 0 {
                break;
            }
            let op = ok[c - 1];
            effect(op, &mut s, &mut w);
            v.push(op);
        }
        v
    })
}

/// Who holds strong handles, and since when: kept by the checker.
fn acquire() -> usize {
    hold_begin()
}
fn release(i: usize) {
    hold_end(i)
}
fn now() -> u64 {
    hold_now()
}

struct Hands<F: Family> {
    s: Vec<(F::S, usize)>,
    w: Vec<F::W>,
}

fn run_thread<F: Family>(t: usize, prog: Vec<Op>, mut h: Hands<F>, timed: bool) {
    for (i, op) in prog.iter().enumerate() {
        let tag = (t as u64 + 1) * 100 + i as u64;
        match op {
            CloneS => {
                if let Some((s, _)) = h.s.last() {
                    let n = F::clone_s(s);
                    h.s.push((n, if timed { acquire() } else { 0 }));
                }
            }
            DropS => {
                if let Some((s, k)) = h.s.pop() {
                    if timed {
                        release(k);
                    }
                    drop(s);
                }
            }
            Downgrade => {
                if let Some((s, _)) = h.s.last() {
                    let w = F::downgrade(s);
                    h.w.push(w);
                }
            }
            CloneW => {
                if let Some(w) = h.w.last() {
                    let w = F::clone_w(w);
                    h.w.push(w);
                }
            }
            DropW => {
                if let Some(w) = h.w.pop() {
                    drop(w);
                }
            }
            Upgrade => {
                if let Some(w) = h.w.last() {
                    let t0 = if timed { now() } else { 0 };
                    match F::upgrade(w) {
                        Some(s) => {
                            let k = if timed { acquire() } else { 0 };
                            F::read(&s);
                            h.s.push((s, k));
                        }
                        None => {
                            if timed {
                                check(!held_since(t0), "upgrade-refused", || {
                                    "an upgrade failed although a strong handle was held during the whole call".into()
                                });
                            }
                        }
                    }
                }
            }
            Read => {
                if let Some((s, _)) = h.s.last() {
                    F::read(s);
                }
            }
            GetMut => {
                if let Some((s, _)) = h.s.last_mut() {
                    F::get_mut(s, tag);
                }
            }
            MakeMut => {
                if let Some((s, _)) = h.s.last_mut() {
                    if F::make_mut(s, tag) {
                        let v = F::read(s);
                        check(v == tag, "make-mut", || format!("wrote {tag} through exclusive access, read back {v}"));
                    }
                }
            }
            IntoInner => {
                if let Some((s, k)) = h.s.pop() {
                    match F::into_inner(s) {
                        Ok(_) => {
                            if timed {
                                release(k)
                            }
                        }
                        Err(s) => h.s.push((s, k)),
                    }
                }
            }
        }
    }
    while let Some((s, k)) = h.s.pop() {
        if timed {
            release(k);
        }
        drop(s);
    }
    drop(h);
}

pub struct Cfg {
    pub alphabet: &'static [Op],
    /// How many threads.
    pub threads: usize,
    /// Whether the threads' starting handles may be weak ones.
    pub weak_start: bool,
    /// Track who holds what, to judge the answers of upgrades.
    pub timed: bool,
}

/// Enumerates programs and schedules for a family.
pub fn explore<F: Family>(cfg: &Cfg) {
    let b = bounds();
    let s0 = F::make();
    let k0 = acquire();
    let mut hands: Vec<Hands<F>> = Vec::new();
    let mut progs = Vec::new();
    // Which handles each thread starts with: a strong one; a weak one; both.
    let kinds: &[(usize, usize)] = if cfg.weak_start { &[(1, 0), (0, 1), (1, 1)] } else { &[(1, 0)] };
    let mut prev = 0;
    for _ in 0..cfg.threads {
        // Threads are interchangeable: only consider non-decreasing kinds.
        let k = prev + choose(kinds.len() - prev);
        prev = k;
        let (ns, nw) = kinds[k];
        progs.push(choose_program(cfg.alphabet, b.depth, ns, nw));
        let mut h = Hands::<F> { s: Vec::new(), w: Vec::new() };
        for _ in 0..ns {
            let s = F::clone_s(&s0);
            h.s.push((s, acquire()));
        }
        for _ in 0..nw {
            h.w.push(F::downgrade(&s0));
        }
        hands.push(h);
    }
    // Whether the main thread keeps the value alive.
    let keep = choose(2) == 1;
    log(|| format!("{}: programs {:?}, main keeps a handle: {}", F::NAME, progs, keep));
    let mut main_handle = Some(s0);
    if !keep {
        release(k0);
        main_handle = None;
    }
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (t, (p, h)) in progs.into_iter().zip(hands).enumerate() {
        let timed = cfg.timed;
        fs.push(Box::new(move || run_thread::<F>(t, p, h, timed)));
    }
    par(fs);
    if let Some(s) = &main_handle {
        F::read(s);
        if let Some((st, wk)) = F::counts(s) {
            check(st == 1 && wk == 1, "counts", || {
                format!("with a single strong handle left the counts are {st} strong, {wk} weak (expected 1 and 1)")
            });
        }
    }
    drop(main_handle);
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}

pub fn payload() -> P {
    P::new(1)
}

// ---------------------------------------------------------------- one thread, against a model

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
struct Group {
    s: usize,
    w: usize,
    /// Written so far.
    v: u64,
}

/// All sequences of operations of one thread, on any of its handles, against a model with exact counts.
pub fn explore_seq<F: Family>(alphabet: &'static [Op], cow: bool) {
    let b = bounds();
    let first = F::make();
    let init = F::read(&first);
    let mut groups: Vec<Group> = quiet(|| vec![Group { s: 1, w: 0, v: init }]);
    let mut s: Vec<(F::S, usize)> = Vec::new();
    let mut w: Vec<(F::W, usize)> = Vec::new();
    s.push((first, 0));
    for d in 0..b.depth {
        quiet(|| {
            let mut k: Vec<Group> = groups.iter().filter(|g| g.s + g.w > 0).copied().collect();
            k.sort_by_key(|g| (g.s, g.w, g.v));
            let mut h = d as u64;
            for g in k {
                h = mix(mix(mix(h, g.s as u64), g.w as u64), g.v);
            }
            state(h);
        });
        // Which operation, and on which group: handles of a group are interchangeable.
        let cands: Vec<(Op, usize)> = quiet(|| {
            let mut c = Vec::new();
            for op in alphabet.iter().copied() {
                for (gi, g) in groups.iter().enumerate() {
                    if applicable(op, g.s.min(1), g.w.min(1)) && !(op == CloneS && g.s > 2) && !(op == CloneW && g.w > 2) {
                        c.push((op, gi));
                    }
                }
            }
            c
        });
        let n = choose(cands.len() + 1);
        if n == 0 {
            break;
        }
        step();
        let (op, gi) = cands[n - 1];
        quiet(|| drop(cands));
        log(|| format!("{op:?} on value {gi}, model {:?}", groups[gi]));
        let si = s.iter().rposition(|(_, g)| *g == gi);
        let wi = w.iter().rposition(|(_, g)| *g == gi);
        let tag = 10 + d as u64;
        let unique = groups[gi].s == 1 && groups[gi].w == 0;
        match op {
            CloneS => {
                let n = F::clone_s(&s[si.unwrap()].0);
                s.push((n, gi));
                groups[gi].s += 1;
            }
            DropS => {
                let (x, _) = s.swap_remove(si.unwrap());
                drop(x);
                groups[gi].s -= 1;
            }
            Downgrade => {
                let n = F::downgrade(&s[si.unwrap()].0);
                w.push((n, gi));
                groups[gi].w += 1;
            }
            CloneW => {
                let n = F::clone_w(&w[wi.unwrap()].0);
                w.push((n, gi));
                groups[gi].w += 1;
            }
            DropW => {
                let (x, _) = w.swap_remove(wi.unwrap());
                drop(x);
                groups[gi].w -= 1;
            }
            Upgrade => {
                let r = F::upgrade(&w[wi.unwrap()].0);
                check(r.is_some() == (groups[gi].s > 0 || F::REVIVES), "upgrade", || {
                    format!("upgrade gave {} with {} strong handles", if r.is_some() { "a handle" } else { "nothing" }, groups[gi].s)
                });
                if let Some(n) = r {
                    s.push((n, gi));
                    groups[gi].s += 1;
                }
            }
            Read => {
                F::read(&s[si.unwrap()].0);
            }
            GetMut => {
                let r = F::get_mut(&mut s[si.unwrap()].0, tag);
                check(r.is_some() == unique, "exclusive", || {
                    format!("exclusive access {} with {} strong and {} weak handles", if r.is_some() { "granted" } else { "refused" }, groups[gi].s, groups[gi].w)
                });
                if let Some(old) = r {
                    check(old == groups[gi].v, "value", || format!("found {old} instead of {}", groups[gi].v));
                    groups[gi].v = F::read(&s[si.unwrap()].0);
                }
            }
            MakeMut => {
                F::make_mut(&mut s[si.unwrap()].0, tag);
                if unique || !cow {
                    groups[gi].v = tag;
                } else {
                    groups[gi].s -= 1;
                    quiet(|| groups.push(Group { s: 1, w: 0, v: tag }));
                    s[si.unwrap()].1 = groups.len() - 1;
                }
            }
            IntoInner => {
                let (x, _) = s.swap_remove(si.unwrap());
                match F::into_inner(x) {
                    Ok(v) => {
                        check(unique, "exclusive", || format!("the value was moved out with {} strong and {} weak handles", groups[gi].s, groups[gi].w));
                        let _ = v;
                        groups[gi].s -= 1;
                    }
                    Err(x) => {
                        check(!unique, "exclusive", || "the sole owner could not take the value out".into());
                        s.push((x, gi));
                    }
                }
            }
        }
        for (h, gi) in &s {
            let g = groups[*gi];
            if let Some((st, wk)) = F::counts(h) {
                check(st == g.s && wk == g.w + 1, "counts", || {
                    format!("counts are {st} strong, {wk} weak with {} strong and {} weak handles", g.s, g.w)
                });
            }
            let v = F::read(h);
            check(v == g.v, "value", || format!("read {v} instead of {}", g.v));
        }
    }
    while let Some((h, _)) = s.pop() {
        drop(h)
    }
    drop(s);
    drop(w);
    quiet(|| drop(groups));
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
