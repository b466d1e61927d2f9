//! C04: the atomic cell of shared values.
use core::sync::atomic::Ordering::*;
use mcrt::*;
use stabby::alloc::sync::{Arc, AtomicArc, Weak};
use stabby_mc::lin::*;
use stabby_mc::{CkAlloc, P};

type Cell = AtomicArc<P, CkAlloc>;
type A = Arc<P, CkAlloc>;
#[derive(Clone, Copy, Debug)]
enum Op {
    Load(u32),
    Store(u32),
    /// expected, new, succeeded, found
    Cas(u32, u32, bool, u32),
    /// expected, confirmed, found
    Is(u32, bool, u32),
}
fn id(a: &Option<A>) -> u32 {
    match a {
        None => 0,
        Some(a) => {
            a.read();
            a.id
        }
    }
}
fn make(some: bool) -> (Option<A>, u32) {
    if some {
        let a = Arc::new_in(P::new(1), CkAlloc::make());
        let i = a.id;
        (Some(a), i)
    } else {
        (None, 0)
    }
}
const KINDS: [&str; 7] = ["load", "store value", "store nothing", "cas last->value", "cas last->nothing", "is last", "forget last"];
fn thread(t: usize, prog: Vec<usize>, c: &'static Cell, h: &'static History<Op>) {
    let mut last: Option<A> = None;
    for k in prog {
        match k {
            0 => {
                let i = h.invoke();
                let l = c.load(Acquire);
                let r = id(&l);
                h.respond(t, i, Op::Load(r));
                last = l;
            }
            1 | 2 => {
                let (v, n) = make(k == 1);
                let i = h.invoke();
                c.store(v, Release);
                h.respond(t, i, Op::Store(n));
            }
            3 | 4 => {
                let (v, n) = make(k == 3);
                let e = id(&last);
                let i = h.invoke();
                let r = c.compare_exchange(last.as_ref(), v, AcqRel, Acquire);
                match r {
                    Ok(old) => {
                        h.respond(t, i, Op::Cas(e, n, true, id(&old)));
                    }
                    Err(cur) => {
                        h.respond(t, i, Op::Cas(e, n, false, id(&cur)));
                        last = cur;
                    }
                }
            }
            5 => {
                let e = id(&last);
                let i = h.invoke();
                match c.is(last.as_ref(), Acquire) {
                    Ok(()) => h.respond(t, i, Op::Is(e, true, e)),
                    Err(cur) => {
                        h.respond(t, i, Op::Is(e, false, id(&cur)));
                        last = cur;
                    }
                }
            }
            _ => last = None,
        }
    }
    id(&last);
}
fn run(threads: usize) {
    let b = bounds();
    let (init, first) = make(choose(2) == 0);
    let c: &'static Cell = Box::leak(Box::new(AtomicArc::new(init)));
    let h = History::new(threads);
    let progs: Vec<Vec<usize>> = quiet(|| {
        (0..threads)
            .map(|_| {
                let mut p = Vec::new();
                for _ in 0..b.depth {
                    let k = choose(KINDS.len() + 1);
                    if k == 0 {
                        break;
                    }
                    p.push(k - 1);
                }
                p
            })
            .collect()
    });
    log(|| {
        let p: Vec<Vec<&str>> = progs.iter().map(|p| p.iter().map(|k| KINDS[*k]).collect()).collect();
        format!("initially {first}; programs {p:?}")
    });
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (t, p) in progs.into_iter().enumerate() {
        fs.push(Box::new(move || thread(t, p, c, h)));
    }
    par(fs);
    let last = c.load(Acquire);
    let end = id(&last);
    if let Some(l) = &last {
        check(Arc::strong_count(l) == 2, "counts", || format!("the cell and one handle hold the value, its count is {}", Arc::strong_count(l)));
    }
    drop(last);
    drop(unsafe { Box::from_raw((c as *const Cell).cast_mut()) });
    h.check(
        first,
        |s, op| match *op {
            Op::Load(r) => *s == r,
            Op::Store(n) => {
                *s = n;
                true
            }
            Op::Cas(e, n, true, old) => {
                let ok = *s == e && old == e;
                *s = n;
                ok
            }
            Op::Cas(e, _, false, f) => *s != e && *s == f,
            Op::Is(e, true, _) => *s == e,
            Op::Is(e, false, f) => *s != e && *s == f,
        },
        |s| *s == end,
    );
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
    let _ = core::mem::size_of::<Weak<P, CkAlloc>>();
}
fn two() { run(2) }
fn three() { run(3) }
fn one() { run(1) }

fn main() {
    const B: Bounds = Bounds::CONC.split(6).stale(0);
    mcrt::main(&Prop {
        id: "C04",
        title: "The atomic cell of shared values is linearizable and owns what it holds",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "one", about: "one thread", quick: Some(B.depth(4)), thorough: B.depth(6), body: one },
            Scenario { name: "two", about: "two threads", quick: Some(B.depth(2)), thorough: B.depth(3), body: two },
            Scenario { name: "three", about: "three threads", quick: Some(B.depth(1)), thorough: B.depth(2).preempt(2), body: three },
        ],
    })
}
