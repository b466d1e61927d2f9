//! C06: the registry of vtables.
use mcrt::*;
use stabby::abi::vtable::{VTableRegistry, VtBtree, VtVec};
use std::cell::UnsafeCell;

type Raw = *const ();
const fn w(x: usize) -> Raw {
    x as Raw
}
/// Tables of methods, some a prefix of another, some differing in their last entry only.
static TABLES: [&[usize]; 8] = [&[16, 32], &[16, 48], &[16], &[16, 32, 48], &[8, 8, 8], &[64, 1, 2, 3], &[72, 0, 0], &[]];

trait Reg: VTableRegistry + 'static {
    const NAME: &'static str;
    fn fresh() -> Self;
}
impl Reg for VtBtree<3> {
    const NAME: &'static str = "ordered set of order 3";
    fn fresh() -> Self {
        Self::new()
    }
}
impl Reg for VtBtree<5> {
    const NAME: &'static str = "ordered set of order 5";
    fn fresh() -> Self {
        Self::new()
    }
}
impl Reg for VtVec {
    const NAME: &'static str = "vector";
    fn fresh() -> Self {
        Self::new(None)
    }
}
#[inline(never)]
fn verify(k: usize, p: Raw) {
    check(!p.is_null(), "null", || "the registry returned a null table".into());
    let p: *const Raw = p.cast();
    for (i, want) in TABLES[k].iter().enumerate() {
        let got = unsafe { core::ptr::read_volatile(p.add(i)) };
        check(got == w(*want), "content", || format!("entry {i} of table {k} reads {got:?} instead of {want:#x}"));
    }
}
fn insert<R: Reg>(r: &R, k: usize) -> Raw {
    // The argument only lives for the call.
    let v: Vec<Raw> = TABLES[k].iter().map(|x| w(*x)).collect();
    let p: Raw = r.insert(&v).as_ptr().cast_const().cast();
    drop(v);
    verify(k, p);
    p
}
struct Out(UnsafeCell<Vec<(usize, usize)>>);

fn run<R: Reg>(threads: usize, tables: usize, initial: usize) {
    let b = bounds();
    let r: &'static R = Box::leak(Box::new(R::fresh()));
    let n0 = choose(initial + 1);
    let mut known: Vec<(usize, usize)> = Vec::new();
    for k in 0..n0 {
        // Not those the threads start with.
        let k = tables - 1 - k;
        let p = insert(r, k);
        quiet(|| known.push((k, p as usize)));
    }
    let outs: &'static Vec<Out> = quiet(|| Box::leak(Box::new((0..threads).map(|_| Out(UnsafeCell::new(Vec::new()))).collect())));
    let progs: Vec<Vec<usize>> = quiet(|| {
        (0..threads)
            .map(|_| {
                let mut p = Vec::new();
                for _ in 0..b.depth {
                    let k = choose(tables + 1);
                    if k == 0 {
                        break;
                    }
                    p.push(k - 1);
                }
                p
            })
            .collect()
    });
    log(|| format!("{}: {n0} tables registered; programs {progs:?}", R::NAME));
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (t, prog) in progs.into_iter().enumerate() {
        fs.push(Box::new(move || {
            for k in prog {
                let p = insert(r, k);
                quiet(|| unsafe { &mut *outs[t].0.get() }.push((k, p as usize)));
            }
            // What was handed out stays as it was.
            let n = unsafe { &*outs[t].0.get() }.len();
            for i in 0..n {
                let (k, p) = quiet(|| unsafe { &*outs[t].0.get() }[i]);
                verify(k, p as Raw);
            }
        }));
    }
    par(fs);
    quiet(|| {
        for t in 0..threads {
            known.extend_from_slice(unsafe { &*outs[t].0.get() });
        }
    });
    let mut distinct = 0;
    for k in 0..tables {
        let got: Vec<usize> = quiet(|| known.iter().filter(|(j, _)| *j == k).map(|(_, p)| *p).collect());
        if got.is_empty() {
            continue;
        }
        // Empty tables need no storage, so there is nothing to tell them apart by.
        let p = insert(r, k) as usize;
        if !TABLES[k].is_empty() {
            distinct += 1;
            check(got.iter().all(|q| *q == p), "not-canonical", || {
                format!("table {k} was given different addresses: {got:x?}, now {p:x}")
            });
        }
        quiet(|| drop(got));
    }
    quiet(|| drop(known));
    drop(unsafe { Box::from_raw((r as *const R).cast_mut()) });
    let left = live_count();
    check(left == distinct, "memory-leak", || format!("{distinct} tables were registered for good, but {left} allocations remain: {:x?}", live_blocks()));
    forgive_leaks();
}
fn btree3_seq() { run::<VtBtree<3>>(1, 8, 2) }
fn btree5_seq() { run::<VtBtree<5>>(1, 8, 2) }
fn vec_seq() { run::<VtVec>(1, 8, 2) }
fn btree_2() { run::<VtBtree<3>>(2, 4, 2) }
fn vec_2() { run::<VtVec>(2, 4, 2) }
fn btree_3() { run::<VtBtree<3>>(3, 2, 1) }
fn vec_3() { run::<VtVec>(3, 2, 1) }

fn main() {
    const B: Bounds = Bounds::CONC.split(5);
    const S: Bounds = Bounds::SEQ.split(3);
    mcrt::main(&Prop {
        id: "C06",
        title: "A table of methods has one address, valid and unchanged for good",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "btree3-seq", about: "one thread registering up to 8 tables", quick: Some(S.depth(5)), thorough: S.depth(6), body: btree3_seq },
            Scenario { name: "btree5-seq", about: "one thread registering up to 8 tables", quick: Some(S.depth(5)), thorough: S.depth(6), body: btree5_seq },
            Scenario { name: "vec-seq", about: "one thread registering up to 8 tables", quick: Some(S.depth(5)), thorough: S.depth(6), body: vec_seq },
            Scenario { name: "btree-2", about: "two threads registering", quick: Some(B.depth(2).preempt(1)), thorough: B.depth(2), body: btree_2 },
            Scenario { name: "vec-2", about: "two threads registering", quick: Some(B.depth(2).preempt(1)), thorough: B.depth(2), body: vec_2 },
            Scenario { name: "btree-3", about: "three threads registering", quick: Some(B.depth(1).preempt(1)), thorough: B.depth(1), body: btree_3 },
            Scenario { name: "vec-3", about: "three threads registering", quick: Some(B.depth(1).preempt(1)), thorough: B.depth(1), body: vec_3 },
        ],
    })
}
