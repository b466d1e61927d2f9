//! C14: copy-on-write ordered collections, against the contents each holder should have.
use core::cmp::Ordering;
use core::fmt::Write;
use mcrt::engine::fresh_territory;
use mcrt::*;
use stabby::abi::alloc::IAlloc;
use stabby::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet};
use stabby_mc::{CkAlloc, ZAlloc, P};

/// An element that compares as its key, and tells instances of the same key apart.
#[derive(Clone)]
struct E {
    k: u8,
    p: P,
}
impl E {
    fn new(k: usize, tag: u64) -> E {
        E { k: k as u8, p: P::new(tag) }
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.k == o.k
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.p.read();
        o.p.read();
        self.k.cmp(&o.k)
    }
}
impl PartialEq<u8> for E {
    fn eq(&self, o: &u8) -> bool {
        self.k == *o
    }
}
impl PartialOrd<u8> for E {
    fn partial_cmp(&self, o: &u8) -> Option<Ordering> {
        Some(self.k.cmp(o))
    }
}
impl core::fmt::Debug for E {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str(["k00", "k01", "k02", "k03", "k04", "k05", "k06", "k07", "k08", "k09", "k10", "k11", "k12", "k13", "k14", "k15", "k16", "k17", "k18", "k19", "k20", "k21", "k22", "k23", "k24", "k25", "k26", "k27", "k28", "k29", "k30", "k31", "k32", "k33", "k34", "k35", "k36", "k37", "k38", "k39"][self.k as usize])
    }
}
/// The keys that go by as the set is formatted.
struct Keys {
    got: [u8; 64],
    n: usize,
}
impl Write for Keys {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let b = s.as_bytes();
        if b.len() == 3 && b[0] == b'k' {
            self.got[self.n] = (b[1] - b'0') * 10 + b[2] - b'0';
            self.n += 1;
        }
        Ok(())
    }
}
const MAX: usize = 40;
/// What a holder should have under each key.
type Model = [Option<u64>; MAX];

trait Sorted: Clone {
    const REPLACES: bool;
    fn make() -> Self;
    /// What comes back: its tag.
    fn put(&mut self, k: usize, tag: u64) -> Option<u64>;
    fn check(&self, m: &Model, n: usize);
    /// Having lost some elements at most.
    fn check_remains(&self, m: &Model, n: usize);
}
impl<A: IAlloc + Default + Clone, const R: bool, const S: usize> Sorted for ArcBTreeSet<E, A, R, S> {
    const REPLACES: bool = R;
    fn make() -> Self {
        Self::from_alloc(A::default())
    }
    fn put(&mut self, k: usize, tag: u64) -> Option<u64> {
        let e = E::new(k, tag);
        let had = self.get(&(k as u8)).is_some();
        let before = objs_total();
        let r = self.insert(e);
        if had && !R {
            check(objs_total() == before, "needless-clone", || "inserting what's there already cloned something".into());
        }
        r.map(|e| {
            check(e.k as usize == k, "returned", || format!("inserting {k} gave back {}", e.k));
            e.p.read()
        })
    }
    fn check(&self, m: &Model, n: usize) {
        let want = m.iter().flatten().count();
        check(self.len() == want, "length", || format!("{} elements instead of {want}", self.len()));
        check(self.is_empty() == (want == 0), "length", || format!("emptiness is {}", self.is_empty()));
        for k in 0..n {
            match (self.get(&(k as u8)), m[k]) {
                (None, None) => {}
                (Some(e), Some(t)) => {
                    check(e.k as usize == k, "lookup", || format!("looking {k} up found {}", e.k));
                    let got = e.p.read();
                    check(got == t, "lookup", || format!("key {k} has instance {got} instead of {t}"));
                }
                (got, want) => fail("lookup", format!("looking {k} up found {:?} instead of {:?}", got.is_some(), want.is_some())),
            }
        }
        let mut w = Keys { got: [0; 64], n: 0 };
        let _ = write!(w, "{self:?}");
        let mut i = 0;
        for k in 0..n {
            if m[k].is_some() {
                check(i < w.n && w.got[i] as usize == k, "order", || format!("going through them yields {:?}: {k} isn't in its place", &w.got[..w.n]));
                i += 1;
            }
        }
        check(i == w.n, "order", || format!("going through them yields {:?}", &w.got[..w.n]));
    }
    fn check_remains(&self, m: &Model, n: usize) {
        let mut w = Keys { got: [0; 64], n: 0 };
        let _ = write!(w, "{self:?}");
        check(w.n == self.len(), "length", || format!("going through {} elements yields {}", self.len(), w.n));
        check(w.got[..w.n].windows(2).all(|w| w[0] < w[1]), "order", || format!("going through them yields {:?}", &w.got[..w.n]));
        for k in 0..n {
            if let Some(e) = self.get(&(k as u8)) {
                let got = e.p.read();
                check(m[k].is_none() || m[k] == Some(got), "lookup", || format!("key {k} has instance {got} instead of {:?}", m[k]));
            }
        }
    }
}
/// Keys and values.
impl<A: IAlloc + Default + Clone, const S: usize> Sorted for ArcBTreeMap<E, P, A, S> {
    const REPLACES: bool = true;
    fn make() -> Self {
        Self::from_alloc(A::default())
    }
    fn put(&mut self, k: usize, tag: u64) -> Option<u64> {
        self.insert(E::new(k, 0), P::new(tag)).map(|p| p.read())
    }
    fn check(&self, m: &Model, n: usize) {
        for k in 0..n {
            let q = E::new(k, 0);
            let got = self.get(&q).map(|p| p.read());
            check(got == m[k], "lookup", || format!("key {k} has {got:?} instead of {:?}", m[k]));
        }
    }
    fn check_remains(&self, m: &Model, n: usize) {
        for k in 0..n {
            let q = E::new(k, 0);
            let got = self.get(&q).map(|p| p.read());
            check(got.is_none() || m[k].is_none() || got == m[k], "lookup", || format!("key {k} has {got:?} instead of {:?}", m[k]));
        }
    }
}
struct H<C> {
    c: C,
    m: Model,
}
struct World<C: Sorted> {
    hs: Vec<Option<H<C>>>,
    tag: u64,
    keys: usize,
}
impl<C: Sorted> World<C> {
    fn new(keys: usize) -> Self {
        let mut hs = Vec::with_capacity(8);
        hs.push(Some(H { c: C::make(), m: [None; MAX] }));
        World { hs, tag: 0, keys }
    }
    fn put(&mut self, h: usize, k: usize) {
        self.tag += 1;
        let tag = self.tag;
        log(|| format!("insert {k} (instance {tag}) in #{h}"));
        let H { c, m } = self.hs[h].as_mut().unwrap();
        let want = match m[k] {
            None => None,
            Some(old) => Some(if C::REPLACES { old } else { tag }),
        };
        let got = c.put(k, tag);
        check(got == want, "returned", || format!("inserting {k} gave back {got:?} instead of {want:?}"));
        if C::REPLACES || m[k].is_none() {
            m[k] = Some(tag);
        }
        self.check();
        step();
    }
    fn snapshot(&mut self, h: usize) -> usize {
        log(|| format!("clone #{h}"));
        let x = self.hs[h].as_ref().unwrap();
        let c = H { c: x.c.clone(), m: x.m };
        self.hs.push(Some(c));
        self.check();
        step();
        self.hs.len() - 1
    }
    fn drop(&mut self, h: usize) {
        log(|| format!("drop #{h}"));
        self.hs[h] = None;
        self.check();
        step();
    }
    fn check(&self) {
        if fresh_territory() {
            for h in self.hs.iter().flatten() {
                h.c.check(&h.m, self.keys)
            }
        }
    }
    fn end(mut self) {
        // In either order.
        if choose(2) == 0 {
            self.hs.reverse();
        }
        for i in 0..self.hs.len() {
            self.hs[i] = None;
            for h in self.hs.iter().flatten() {
                h.c.check(&h.m, self.keys)
            }
        }
        drop(self);
        check_no_object_leak("value-leak");
        check_no_leak("memory-leak");
    }
}
/// Any order of insertion of `depth` keys, snapshots (`width` of them) at any point, each insertion on any side.
fn orders<C: Sorted>() {
    let b = bounds();
    let mut w = World::<C>::new(b.depth + 1);
    let mut left: Vec<usize> = (0..b.depth).collect();
    let mut at = 0;
    while !left.is_empty() {
        if w.hs.len() <= b.width && choose(2) == 1 {
            w.snapshot(at);
        }
        at = choose(w.hs.len());
        let k = left.remove(choose(left.len()));
        w.put(at, k);
    }
    // And what's already on one side or the other.
    let k = choose(b.depth + 1);
    let at = choose(w.hs.len());
    w.put(at, k);
    drop(left);
    w.end()
}
/// Any history, over few keys.
fn histories<C: Sorted>() {
    let b = bounds();
    let mut w = World::<C>::new(4);
    for _ in 0..b.depth {
        let live: Vec<usize> = (0..w.hs.len()).filter(|&i| w.hs[i].is_some()).collect();
        if live.is_empty() {
            break;
        }
        let h = live[choose(live.len())];
        let may_clone = live.len() < b.width;
        match choose(5 + may_clone as usize) {
            k @ 0..=3 => w.put(h, k),
            4 => w.drop(h),
            _ => {
                w.snapshot(h);
            }
        }
    }
    w.end()
}
/// Larger sets, filled in regular orders, then changed anywhere with a snapshot taken at any point.
fn deep<C: Sorted>() {
    const M: usize = 37;
    let b = bounds();
    let mut w = World::<C>::new(M);
    let strides = if b.width == 0 { &[1, 36, 2, 10][..] } else { &[1, 36, 2, 10, 3, 18, 35, 23, 6, 15, 31][..] };
    let stride = pick(strides);
    let n = choose(M);
    for i in 0..n {
        w.put(0, (i + 1) * stride % M);
    }
    let s = w.snapshot(0);
    for _ in 0..b.depth {
        let h = if choose(2) == 0 { 0 } else { s };
        let k = choose(M);
        w.put(h, k);
    }
    w.end()
}
/// Insertions the allocator may refuse: nobody else's contents change, and everything is destroyed once.
fn refused<C: Sorted>() {
    let b = bounds();
    let mut w = World::<C>::new(b.depth + 1);
    let mut lost: Option<usize> = None;
    let mut left: Vec<usize> = (0..b.depth).collect();
    while !left.is_empty() && lost.is_none() {
        if w.hs.len() <= b.width && choose(2) == 1 {
            w.snapshot(0);
        }
        let at = choose(w.hs.len());
        let k = left.remove(choose(left.len()));
        let f = faults_injected();
        let r = catch(|| {
            w.tag += 1;
            let tag = w.tag;
            let H { c, m } = w.hs[at].as_mut().unwrap();
            c.put(k, tag);
            m[k] = Some(tag);
        });
        match r {
            Ok(()) => {}
            Err(e) => {
                check(faults_injected() > f, "panic", || format!("inserting panicked though it had its memory: {e}"));
                lost = Some(at);
            }
        }
        step();
    }
    if let Some(at) = lost {
        // The one it happened to may lack elements, but holds none that it shouldn't.
        let m = w.hs[at].as_ref().unwrap().m;
        for h in w.hs.iter().enumerate().filter(|h| h.0 != at) {
            let h = h.1.as_ref().unwrap();
            h.c.check(&h.m, w.keys)
        }
        w.hs[at].as_ref().unwrap().c.check_remains(&m, w.keys);
        w.hs[at] = None;
    }
    drop(left);
    w.end()
}
/// Snapshots of one set in different threads.
fn threads<C: Sorted + Send + 'static>() {
    let b = bounds();
    let mut w = World::<C>::new(8);
    let n = 2 + choose(3);
    for i in 0..n {
        w.put(0, 2 * i);
    }
    let s = w.snapshot(0);
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    let tag = &mut w.tag;
    for at in [0, s] {
        let H { mut c, mut m } = w.hs[at].take().unwrap();
        let mut ks = Vec::new();
        for _ in 0..b.depth {
            *tag += 1;
            ks.push((pick(&[1usize, 2, 7]), *tag));
        }
        fs.push(Box::new(move || {
            for (k, tag) in ks {
                let want = m[k].map(|old| if C::REPLACES { old } else { tag });
                let got = c.put(k, tag);
                check(got == want, "returned", || format!("inserting {k} gave back {got:?} instead of {want:?}"));
                if C::REPLACES || m[k].is_none() {
                    m[k] = Some(tag);
                }
            }
            c.check(&m, 8);
            drop(c);
        }));
    }
    par(fs);
    drop(w);
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
type Set3 = ArcBTreeSet<E, CkAlloc, false, 3>;
type Rep3 = ArcBTreeSet<E, ZAlloc, true, 3>;
type Set5 = ArcBTreeSet<E, CkAlloc, false, 5>;
type Rep5 = ArcBTreeSet<E, CkAlloc, true, 5>;
type Set7 = ArcBTreeSet<E, ZAlloc, false, 7>;
type Map3 = ArcBTreeMap<E, P, ZAlloc, 3>;
type Map5 = ArcBTreeMap<E, P, CkAlloc, 5>;
type SetD = ArcBTreeSet<E, stabby::alloc::DefaultAllocator, false, 5>;

fn main() {
    const B: Bounds = Bounds::SEQ.split(5).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: (usize, usize), t: (usize, usize)) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(q.0).width(q.1)), thorough: B.depth(t.0).width(t.1), body }
    }
    const F: Bounds = Bounds::SEQ.split(5).faults(1);
    const C: Bounds = Bounds::CONC;
    mcrt::main(&Prop {
        id: "C14",
        title: "Ordered sets and maps behave as ordered collections with stable snapshots",
        assumptions: &[
            "comparisons are consistent and neither they nor clones panic",
            "a set whose insertion panicked for want of memory may have lost elements, but not its soundness",
        ],
        scenarios: vec![
            s("orders-3", "all orders of insertion in a set of fan-out 3, with snapshots at any point", orders::<Set3>, (6, 1), (7, 1)),
            s("orders-3-long", "the same with more keys and no snapshot", orders::<Set3>, (7, 0), (9, 0)),
            s("orders-3-replace", "the same, replacing", orders::<Rep3>, (6, 1), (7, 1)),
            s("orders-3-map", "the same with a map", orders::<Map3>, (5, 1), (7, 1)),
            s("orders-5", "all orders of insertion in a set of fan-out 5", orders::<Set5>, (6, 1), (7, 1)),
            s("histories-3", "any history over 4 keys, fan-out 3", histories::<Set3>, (6, 2), (7, 3)),
            s("histories-3-replace", "the same, replacing", histories::<Rep3>, (6, 2), (7, 3)),
            s("histories-map", "the same with a map", histories::<Map5>, (6, 2), (7, 3)),
            s("deep-3", "sets of up to 36 elements, fan-out 3", deep::<Set3>, (1, 0), (2, 1)),
            s("deep-5-replace", "sets of up to 36 elements, fan-out 5, replacing", deep::<Rep5>, (1, 0), (2, 1)),
            s("deep-7", "sets of up to 36 elements, fan-out 7", deep::<Set7>, (1, 0), (2, 1)),
            s("deep-map", "maps of up to 36 elements", deep::<Map3>, (1, 0), (2, 1)),
            s("deep-default", "sets in the default allocator", deep::<SetD>, (1, 0), (2, 0)),
            Scenario { name: "refused", about: "insertions the allocator refuses", quick: Some(F.depth(4).width(1)), thorough: F.depth(6).width(1), body: refused::<Set3> },
            Scenario { name: "refused-map", about: "the same with a map", quick: Some(F.depth(4).width(1)), thorough: F.depth(6).width(1), body: refused::<Map3> },
            Scenario { name: "threads", about: "snapshots changed by different threads", quick: Some(C.depth(1)), thorough: C.depth(2), body: threads::<Set3> },
            Scenario { name: "threads-map", about: "the same with a map", quick: Some(C.depth(1)), thorough: C.depth(2), body: threads::<Map3> },
        ],
    })
}
