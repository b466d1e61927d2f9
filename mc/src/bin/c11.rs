//! C11: the inline-or-heap vector against plain sequences.
use mcrt::*;
use stabby::abi::alloc::single_or_vec::SingleOrVec;
use stabby::alloc::vec::Vec as SVec;
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, ZAlloc, P};

fn same<T: Elem>(s: &[T], m: &[u64]) {
    let vals: Vec<u64> = s.iter().map(|e| e.val()).collect();
    if T::ZST {
        check(vals.len() == m.len(), "contents", || format!("{} elements instead of {}", vals.len(), m.len()));
    } else {
        check(vals == m, "contents", || format!("contents {vals:?} instead of {m:?}"));
    }
}
fn eqv<T: Elem>(e: &T, m: u64) -> bool {
    let v = e.val();
    T::ZST || v == m
}
struct Hinted<T>(std::vec::IntoIter<T>, usize);
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, None)
    }
}
/// One scenario per element type (the type's bounds cannot be written generically).
macro_rules! run {
    ($name: ident, $T: ty, $A: ty) => {
        fn $name() {
            type T = $T;
            type A = $A;
            type V = SingleOrVec<T, A>;
            T::begin();
            let b = bounds();
            {
                let mut v: V = SingleOrVec::new_in(A::default());
                let mut m: Vec<u64> = Vec::new();
                // Whether it has ever spilled.
                let mut next = 0u64;
                let mut fresh = || {
                    next += 1;
                    (<T as Elem>::make(next), next)
                };
                for d in 0..b.depth {
                    prune_if_seen(mix(mix(m.len() as u64, v.capacity() as u64), mix(faults_injected() as u64, (b.depth - d) as u64)));
                    let n = m.len();
                    if n > b.width || d > 0 && choose(2) == 0 {
                        break;
                    }
                    let op = choose(14);
                    log(|| format!("length {n}, capacity {}: operation {op}", v.capacity()));
                    let start = v.as_slice().as_ptr();
                    match op {
                        0 => {
                            let (e, x) = fresh();
                            let f = faults_injected();
                            match v.try_push(e) {
                                Ok(()) => m.push(x),
                                Err(e) => {
                                    check(faults_injected() > f, "push", || "a push was refused though nothing failed".into());
                                    check(eqv(&e, x), "push", || "a refused push gave back another element".into());
                                }
                            }
                        }
                        1 => {
                            let (e, x) = fresh();
                            let f = faults_injected();
                            let vp: *mut V = &mut v;
                            match catch(move || unsafe { &mut *vp }.push(e)) {
                                Ok(()) => m.push(x),
                                Err(e) => check(faults_injected() > f, "push", || format!("a push panicked though nothing failed: {e}")),
                            }
                        }
                        2 => {
                            let k = pick(&[0usize, 1, 2, 9, usize::MAX, usize::MAX - 1, usize::MAX / 2]);
                            let f = faults_injected();
                            let vp: *mut V = &mut v;
                            let room = v.remaining_capacity();
                            match catch(move || unsafe { &mut *vp }.try_reserve(k)) {
                                Ok(Ok(c)) => {
                                    let c: usize = c.into();
                                    check(T::ZST || k < 10 && c == v.capacity(), "reserve", || format!("reserved a capacity of {c}, got {}", v.capacity()));
                                    check(v.remaining_capacity() >= k || T::ZST, "reserve", || format!("room for {} after reserving {k}", v.remaining_capacity()));
                                    check(k > room || room == 0 || start == v.as_slice().as_ptr(), "moved", || "reserving room that was there moved the elements".into());
                                }
                                Ok(Err(_)) => check(k > 9 || faults_injected() > f, "reserve", || "a reservation was refused though nothing failed".into()),
                                Err(e) => fail("reserve-panic", format!("a fallible reservation of {k:#x} panicked: {e}")),
                            }
                        }
                        3 => {
                            let k = choose(n + 2);
                            v.truncate(k);
                            m.truncate(k);
                        }
                        4 => {
                            let c = match catch(|| v.clone()) {
                                Ok(c) => c,
                                Err(_) => {
                                    check(faults_injected() > 0, "clone", || "cloning panicked".into());
                                    // A panic while cloning may lose what was cloned so far.
                                    forgive_leaks();
                                    break;
                                }
                            };
                            same(c.as_slice(), &m);
                            if choose(2) == 0 {
                                drop(c)
                            } else {
                                v = c
                            }
                        }
                        5 => {
                            let i = choose(n + 1);
                            let x = fresh().1;
                            let mut g = v.as_slice_mut();
                            check(g.len() == n, "contents", || format!("a mutable slice of {} for {n} elements", g.len()));
                            if i < n {
                                g[i].set(x);
                                m[i] = x;
                            }
                            same(&g, &m);
                        }
                        6 => {
                            // Replace an element through the guard.
                            let i = choose(n + 1);
                            if i < n {
                                let (e, x) = fresh();
                                let mut g = v.as_slice_mut();
                                let old = core::mem::replace(&mut g[i], e);
                                check(eqv(&old, m[i]), "contents", || "replaced the wrong element".into());
                                m[i] = x;
                            }
                        }
                        7 => {
                            let mut it = (&mut v).into_iter();
                            let mut left: std::collections::VecDeque<usize> = (0..n).collect();
                            for _ in 0..choose(n.min(3) + 2) {
                                check(it.size_hint() == (left.len(), Some(left.len())) && it.len() == left.len(), "size-hint", || format!("{:?} for {} left", it.size_hint(), left.len()));
                                let (x, y) = match choose(4) {
                                    0 => (it.next(), left.pop_front()),
                                    1 => (it.next_back(), left.pop_back()),
                                    2 => {
                                        let k = pick(&[0usize, 1, 2, usize::MAX]);
                                        for _ in 0..k.min(left.len()) {
                                            left.pop_front();
                                        }
                                        (it.nth(k), left.pop_front())
                                    }
                                    _ => {
                                        let k = pick(&[0usize, 1, 2, usize::MAX]);
                                        for _ in 0..k.min(left.len()) {
                                            left.pop_back();
                                        }
                                        (it.nth_back(k), left.pop_back())
                                    }
                                };
                                check(x.is_some() == y.is_some(), "iter", || format!("item {y:?}, got {}", x.is_some()));
                                if let (Some(x), Some(y)) = (x, y) {
                                    check(eqv(x, m[y]), "iter", || "iterated over the wrong element".into());
                                    x.set(m[y] ^ 64);
                                    m[y] ^= 64;
                                }
                            }
                            if choose(2) == 0 {
                                check(it.count() == left.len(), "iter", || "counted wrong".into());
                            } else {
                                let (x, y) = (it.last(), left.pop_back());
                                check(x.is_some() == y.is_some() && x.iter().all(|x| eqv(&**x, m[y.unwrap()])), "iter", || "the last element is wrong".into());
                            }
                        }
                        8 => {
                            let k = choose(4);
                            let mut items = Vec::new();
                            let mut vals = Vec::new();
                            for _ in 0..k {
                                let (e, x) = fresh();
                                items.push(e);
                                vals.push(x);
                            }
                            let hint = pick(&[0, k, k + 1, 20]);
                            let f = faults_injected();
                            let vp: *mut V = &mut v;
                            match catch(move || unsafe { &mut *vp }.extend(Hinted(items.into_iter(), hint))) {
                                Ok(()) => m.extend(vals),
                                Err(e) => {
                                    check(faults_injected() > f, "extend", || format!("extending panicked though nothing failed: {e}"));
                                    // Whatever was appended before the failure stays.
                                    let got = v.len();
                                    check((n..=n + k).contains(&got), "extend", || format!("{got} elements"));
                                    m.extend(&vals[..got - n]);
                                }
                            }
                        }
                        9 | 10 => {
                            // There and back through the plain vector.
                            let f = faults_injected();
                            let w = core::mem::replace(&mut v, SingleOrVec::new_in(A::default()));
                            match catch(move || SVec::<T, A>::from(w)) {
                                Ok(w) => {
                                    same(w.as_slice(), &m);
                                    if op == 9 {
                                        v = w.into();
                                    } else {
                                        m.clear();
                                    }
                                }
                                Err(e) => {
                                    check(faults_injected() > f, "convert", || format!("converting panicked though nothing failed: {e}"));
                                    m.clear();
                                }
                            }
                        }
                        11 => {
                            let k = pick(&[0usize, 1, 3]);
                            let f = faults_injected();
                            let w = match choose(3) {
                                0 => match catch(move || V::with_capacity(k)) {
                                    Ok(w) => Some(w),
                                    Err(_) => None,
                                },
                                1 => V::try_with_capacity_in(k, A::default()).ok(),
                                _ => Some(SVec::<T, A>::new_in(A::default()).into()),
                            };
                            match w {
                                Some(w) => {
                                    check(w.is_empty(), "contents", || "created with contents".into());
                                    v = w;
                                    m.clear();
                                }
                                None => check(faults_injected() > f, "reserve", || "refused though nothing failed".into()),
                            }
                        }
                        12 => {
                            let mut i = 0;
                            for (e, m) in v.iter().zip(&m) {
                                check(eqv(e, *m), "iter", || "iterated over the wrong element".into());
                                i += 1;
                            }
                            check(i == n && (&v).into_iter().len() == n && v.as_ref().len() == n, "iter", || "lengths differ".into());
                        }
                        _ => {
                            let w = core::mem::replace(&mut v, V::default());
                            m.clear();
                            drop(w);
                        }
                    }
                    check(v.len() == m.len() && v.is_empty() == m.is_empty(), "length", || format!("length {} instead of {}", v.len(), m.len()));
                    check(v.capacity() >= v.len() && v.remaining_capacity() == v.capacity() - v.len(), "capacity", || format!("capacity {} for {}", v.capacity(), v.len()));
                    same(v.as_slice(), &m);
                    check(v.as_slice().as_ptr() as usize % core::mem::align_of::<T>() == 0, "misaligned", || "the elements are misaligned".into());
                    if v.capacity() > 1 && !T::ZST {
                        check(range_live(v.as_slice().as_ptr() as usize, v.capacity() * core::mem::size_of::<T>()), "room", || "the capacity exceeds the allocation".into());
                    }
                    step();
                }
            }
            T::finish();
            check_no_object_leak("value-leak");
            check_no_leak("memory-leak");
        }
    };
}
run!(small, P, CkAlloc);
run!(small_z, P, ZAlloc);
run!(bytes, u8, CkAlloc);
run!(bytes_z, u8, ZAlloc);
run!(nz_bytes, core::num::NonZeroU8, ZAlloc);
run!(nz, Nz, CkAlloc);
run!(nz_z, Nz, ZAlloc);
run!(wide, Wide, CkAlloc);
run!(wide_z, Wide, ZAlloc);
run!(aligned16, Aligned16, CkAlloc);
run!(aligned64, Aligned, ZAlloc);
run!(zst, Zst, CkAlloc);

fn order() {
    let lists: [&[u8]; 7] = [&[], &[1], &[2], &[1, 1], &[1, 2], &[2, 1], &[1, 2, 3]];
    let make = |l: &[u8]| {
        let mut v = SingleOrVec::<u8, CkAlloc>::default();
        v.extend(l.iter().copied());
        v
    };
    {
        let (a, b) = (pick(&lists), pick(&lists));
        let (v, w) = (make(a), make(b));
        check((v == w) == (a == b), "eq", || format!("{a:?} == {b:?}"));
        check(v.cmp(&w) == a.cmp(b) && v.partial_cmp(&w) == a.partial_cmp(b), "cmp", || format!("{a:?} cmp {b:?}"));
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
#[stabby::stabby]
struct Bomb {
    p: P,
    live: u64,
}
impl Drop for Bomb {
    fn drop(&mut self) {
        self.p.read();
        if self.live == 0xB0B {
            panic!("destructor");
        }
    }
}
fn panics() {
    let n = 1 + choose(3);
    let bad = choose(n);
    {
        let mut v = SingleOrVec::<Bomb, CkAlloc>::default();
        for i in 0..n {
            v.push(Bomb { p: P::new(i as u64), live: if i == bad { 0xB0B } else { 0 } });
        }
        let op = choose(4);
        log(|| format!("{n} elements, element {bad} panics, operation {op}"));
        let _ = catch(move || match op {
            0 => drop(v),
            1 => v.truncate(choose(n)),
            2 => {
                let _ = v.try_reserve(5);
                v.truncate(0);
            }
            _ => drop(SVec::from(v)),
        });
    }
    forgive_leaks();
}
fn main() {
    const B: Bounds = Bounds::SEQ.split(3).faults(2);
    const fn d(name: &'static str, about: &'static str, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(4).width(6)), thorough: B.depth(6).width(10), body }
    }
    const fn s(name: &'static str, about: &'static str, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(3).width(6)), thorough: B.depth(5).width(10), body }
    }
    mcrt::main(&Prop {
        id: "C11",
        title: "The inline-or-heap vector behaves as a sequence",
        assumptions: &["operations do not depend on the elements' values: states that differ in values only are merged"],
        scenarios: vec![
            d("small", "two-word elements with padding", small),
            s("small-z", "two-word elements with padding, zero-sized allocator", small_z),
            s("bytes", "bytes", bytes),
            s("bytes-z", "bytes, zero-sized allocator", bytes_z),
            s("nonzero-bytes-z", "non-zero bytes, zero-sized allocator", nz_bytes),
            s("nonzero", "two-word elements with a forbidden value", nz),
            s("nonzero-z", "two-word elements with a forbidden value, zero-sized allocator", nz_z),
            d("wide", "elements wider than the vector", wide),
            s("wide-z", "elements wider than the vector, zero-sized allocator", wide_z),
            s("aligned-16", "elements aligned to two words", aligned16),
            s("aligned-64", "elements aligned to a cache line", aligned64),
            s("zst", "zero-sized elements", zst),
            Scenario { name: "order", about: "comparisons", quick: Some(B.depth(1).split(1).faults(0)), thorough: B.depth(1).split(1).faults(0), body: order },
            Scenario { name: "panics", about: "destructors that panic", quick: Some(B.depth(1).split(1).faults(0)), thorough: B.depth(1).split(1).faults(0), body: panics },
        ],
    })
}
