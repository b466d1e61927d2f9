//! C05: the atomic ordered set.
use mcrt::*;
use stabby::alloc::collections::arc_btree::{ArcBTreeSet, AtomicArcBTreeSet};
use stabby::alloc::DefaultAllocator;
use stabby_mc::lin::*;
use stabby_mc::P;

#[derive(Clone)]
struct Key(P);
impl Key {
    fn new(k: u64) -> Self {
        Key(P::new(k))
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        self.0.read() == o.0.read()
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        self.0.read().cmp(&o.0.read())
    }
}
impl PartialEq<u64> for Key {
    fn eq(&self, o: &u64) -> bool {
        self.0.read() == *o
    }
}
impl PartialOrd<u64> for Key {
    fn partial_cmp(&self, o: &u64) -> Option<core::cmp::Ordering> {
        self.0.read().partial_cmp(o)
    }
}
type Set = AtomicArcBTreeSet<Key, false, 3>;
type Snap = ArcBTreeSet<Key, DefaultAllocator, false, 3>;
#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u64, bool),
    Has(u64, bool),
    Noop,
    /// What the whole set was when an edit looked at it.
    View(u64),
}
const KEYS: u64 = 4;
fn bits(s: &Snap) -> u64 {
    let mut b = 0;
    for k in 0..KEYS {
        if s.get(&k).is_some() {
            b |= 1 << k
        }
    }
    check(s.len() == (b as u64).count_ones() as usize, "snapshot", || format!("a snapshot holds {b:b} but has length {}", s.len()));
    b
}
fn thread(t: usize, prog: Vec<usize>, c: &'static Set, h: &'static History<Op>) {
    let mut kept: Option<(Snap, u64)> = None;
    for k in prog {
        let key = (k as u64) % KEYS;
        let i = h.invoke();
        match k as u64 / KEYS {
            0 => {
                let mut was = None;
                c.edit(|mut s| {
                    was = Some(s.insert(Key::new(key)).is_some());
                    s
                });
                h.respond(t, i, Op::Insert(key, was.unwrap()));
            }
            1 => {
                let mut was = None;
                c.get(&key, |k| {
                    was = Some(k.is_some());
                    if let Some(k) = k {
                        check(k.0.read() == key, "get", || format!("asked for {key}, got {}", k.0.read()));
                    }
                });
                h.respond(t, i, Op::Has(key, was.unwrap()));
            }
            2 if key == 0 => {
                c.edit(|s| s);
                h.respond(t, i, Op::Noop);
            }
            2 => {
                let mut v = 0;
                let k = &mut kept;
                c.edit(|s| {
                    v = bits(&s);
                    *k = Some((s.clone(), v));
                    s
                });
                h.respond(t, i, Op::View(v));
            }
            _ => unreachable!(),
        }
    }
    if let Some((s, v)) = &kept {
        let n = bits(s);
        check(n == *v, "snapshot", || format!("a snapshot changed from {v:b} to {n:b}"));
    }
}
fn run(threads: usize) {
    let b = bounds();
    let c: &'static Set = Box::leak(Box::new(Set::new()));
    // From nothing; from a full leaf.
    let init: u64 = pick(&[0b0000, 0b0101]);
    for k in 0..KEYS {
        if init & 1 << k != 0 {
            c.edit(|mut s| {
                s.insert(Key::new(k));
                s
            });
        }
    }
    let h = History::new(threads);
    let ops: &[usize] = &[0, 1, 2, 3, 5, 8, 9];
    let progs: Vec<Vec<usize>> = quiet(|| {
        (0..threads)
            .map(|_| {
                let mut p = Vec::new();
                for _ in 0..b.depth {
                    let k = choose(ops.len() + 1);
                    if k == 0 {
                        break;
                    }
                    p.push(ops[k - 1]);
                }
                p
            })
            .collect()
    });
    log(|| format!("initially {init:b}; programs {progs:?} (0-3 insert, 4-7 get, 8 edit without change, 9 edit keeping a snapshot)"));
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (t, p) in progs.into_iter().enumerate() {
        fs.push(Box::new(move || thread(t, p, c, h)));
    }
    par(fs);
    let mut end = 0;
    for k in 0..KEYS {
        c.get(&k, |e| {
            if e.is_some() {
                end |= 1 << k
            }
        });
    }
    drop(unsafe { Box::from_raw((c as *const Set).cast_mut()) });
    h.check(
        init,
        |s, op| match *op {
            Op::Insert(k, was) => {
                let ok = (*s & 1 << k != 0) == was;
                *s |= 1 << k;
                ok
            }
            Op::Has(k, was) => (*s & 1 << k != 0) == was,
            Op::Noop => true,
            Op::View(v) => *s == v,
        },
        |s| *s == end,
    );
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn two() { run(2) }
fn three() { run(3) }
fn one() { run(1) }

fn main() {
    const B: Bounds = Bounds::CONC.split(6).stale(0);
    mcrt::main(&Prop {
        id: "C05",
        title: "The atomic ordered set is linearizable",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "one", about: "one thread", quick: Some(B.depth(4)), thorough: B.depth(6), body: one },
            Scenario { name: "two", about: "two threads", quick: Some(B.depth(2).preempt(1)), thorough: B.depth(2), body: two },
            Scenario { name: "two-weak", about: "two threads, stale reads", quick: Some(B.depth(1).stale(1).preempt(3)), thorough: B.depth(2).stale(1).preempt(2), body: two_weak },
            Scenario { name: "three", about: "three threads", quick: None, thorough: B.depth(1).preempt(2), body: three },
        ],
    })
}
fn two_weak() { run(2) }
