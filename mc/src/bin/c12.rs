//! C12: chains of conversions among owners.
use mcrt::*;
use stabby::abi::alloc::IAlloc;
use stabby::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby::alloc::string::{ArcStr, String as SString};
use stabby::alloc::sync::{Arc, ArcSlice, WeakSlice};
use stabby::alloc::vec::Vec as SVec;
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, ZAlloc, P};
use std::collections::VecDeque;

enum O<T, A: IAlloc> {
    Grow(SVec<T, A>),
    Boxed(BoxedSlice<T, A>),
    Slice(ArcSlice<T, A>),
    One(SBox<T, A>),
    Arc(Arc<T, A>),
    Nothing,
}
use O::*;

fn same<T: Elem>(s: &[T], m: &VecDeque<u64>) {
    check(s.len() == m.len(), "contents", || format!("{} elements instead of {}", s.len(), m.len()));
    for (e, m) in s.iter().zip(m) {
        let v = e.val();
        check(T::ZST || v == *m, "contents", || format!("an element is {v} instead of {m}"));
    }
    check(s.as_ptr() as usize % core::mem::align_of::<T>() == 0, "misaligned", || "the elements are misaligned".into());
}
struct C<T: Elem, A: IAlloc> {
    o: O<T, A>,
    m: VecDeque<u64>,
    /// What is known of the room there is (None: nothing).
    cap: Option<usize>,
    next: u64,
    /// Other owners of the same contents.
    others: Vec<ArcSlice<T, A>>,
    weak: Vec<WeakSlice<T, A>>,
}
impl<T: Elem + Clone, A: IAlloc + Default + Clone> C<T, A> {
    fn fresh(&mut self) -> T {
        self.next += 1;
        T::make(self.next)
    }
    fn fill(&mut self, n: usize) -> Vec<T> {
        let mut r = Vec::new();
        self.m.clear();
        for _ in 0..n {
            r.push(self.fresh());
            self.m.push_back(self.next);
        }
        r
    }
    fn build(&mut self) {
        let n = choose(4);
        match choose(6) {
            0 => {
                let k = pick(&[0usize, 1, 5]);
                let mut v = SVec::with_capacity_in(k, A::default());
                for e in self.fill(n) {
                    v.push(e);
                }
                self.cap = Some(v.capacity());
                self.o = Grow(v);
            }
            1 => {
                let f = self.fill(n);
                let b: BoxedSlice<T, A> = f.into_iter().collect();
                self.o = Boxed(b);
                self.cap = None;
            }
            2 => {
                let f = self.fill(n);
                let b: ArcSlice<T, A> = f.into_iter().collect();
                self.o = Slice(b);
                self.cap = None;
            }
            3 if n == 1 => {
                let e = self.fill(1).pop().unwrap();
                self.o = One(SBox::new_in(e, A::default()));
            }
            4 if n == 1 => {
                let e = self.fill(1).pop().unwrap();
                self.o = Arc(stabby::alloc::sync::Arc::new_in(e, A::default()));
            }
            5 if n < 3 => {
                let k = pick(&[0usize, 1, 4]);
                let mut b = BoxedSlice::with_capacity_in(k, A::default());
                let mut left = VecDeque::new();
                for e in self.fill(n) {
                    let i = left.len();
                    match b.try_push(e) {
                        Ok(()) => left.push_back(self.m[i]),
                        Err(e) => {
                            check(i >= k && !T::ZST, "push", || format!("a boxed slice of {i} with room for {k} refused an element"));
                            let v = e.val();
                            check(v == self.m[i], "push", || "a refused element changed".into());
                            break;
                        }
                    }
                }
                self.m = left;
                self.o = Boxed(b);
                self.cap = (!T::ZST).then_some(k);
            }
            _ => discard(),
        }
    }
    fn op(&mut self) {
        let o = core::mem::replace(&mut self.o, Nothing);
        let n = self.m.len();
        log(|| format!("{} of {n}", match &o { Grow(_) => "vector", Boxed(_) => "boxed slice", Slice(_) => "shared slice", One(_) => "box", Arc(_) => "shared", Nothing => "nothing" }));
        match o {
            Grow(mut v) => match choose(6) {
                0 => self.o = Boxed(v.into()),
                1 => self.o = Slice(v.into()),
                2 => {
                    let e = self.fresh();
                    let x = self.next;
                    v.push(e);
                    self.m.push_back(x);
                    self.cap = Some(v.capacity());
                    self.o = Grow(v);
                }
                3 => {
                    let e = v.pop();
                    let y = self.m.pop_back();
                    check(e.is_some() == y.is_some(), "pop", || "popping failed".into());
                    self.o = Grow(v);
                }
                4 => {
                    // Keep the first element only, by itself.
                    match v.into_iter().next() {
                        Some(e) => {
                            self.m.truncate(1);
                            self.o = One(SBox::new_in(e, A::default()));
                        }
                        None => {
                            check(n == 0, "contents", || "no first element".into());
                            self.build();
                        }
                    }
                    self.cap = None;
                }
                _ => {
                    v.truncate(n / 2);
                    self.m.truncate(n / 2);
                    self.o = Grow(v);
                }
            },
            Boxed(mut b) => match choose(5) {
                0 => {
                    let v: SVec<T, A> = b.into();
                    if let (Some(c), false) = (self.cap, T::ZST) {
                        check(v.capacity() == c, "capacity", || format!("a capacity of {c} became {}", v.capacity()));
                    }
                    self.cap = Some(v.capacity());
                    self.o = Grow(v);
                }
                1 => {
                    let e = self.fresh();
                    let x = self.next;
                    match b.try_push(e) {
                        Ok(()) => {
                            check(T::ZST || self.cap.map_or(true, |c| n < c), "push", || format!("pushed element {n} in a boxed slice with room for {:?}", self.cap));
                            self.m.push_back(x);
                        }
                        Err(e) => {
                            check(!T::ZST && self.cap.map_or(true, |c| n >= c), "push", || format!("refused element {n} in a boxed slice with room for {:?}", self.cap));
                            let v = e.val();
                            check(v == x, "push", || "a refused element changed".into());
                        }
                    }
                    self.o = Boxed(b);
                }
                2 => {
                    let k = choose(n + 2);
                    let mut it = b.into_iter();
                    for _ in 0..k {
                        let (x, y) = (it.next(), self.m.pop_front());
                        check(x.is_some() == y.is_some(), "iter", || "the wrong number of elements".into());
                        if let (Some(x), Some(y)) = (x, y) {
                            let v = x.val();
                            check(T::ZST || v == y, "iter", || format!("element {v} instead of {y}"));
                        }
                    }
                    self.o = match choose(2) {
                        0 => Slice(it.collect()),
                        _ => Boxed(it.collect()),
                    };
                    self.cap = None;
                }
                3 => {
                    let x = self.next + 1;
                    self.next = x;
                    if let Some(e) = b.as_slice_mut().last_mut() {
                        e.set(x);
                        *self.m.back_mut().unwrap() = x;
                    }
                    self.o = Boxed(b);
                }
                _ => {
                    let mut i = 0;
                    for e in &b {
                        let v = e.val();
                        check(T::ZST || v == self.m[i], "iter", || "the wrong element".into());
                        i += 1;
                    }
                    for e in &mut b {
                        e.val();
                    }
                    check(i == n && b.len() == n && b.is_empty() == (n == 0), "iter", || "the wrong number of elements".into());
                    self.o = Boxed(b);
                }
            },
            Slice(mut s) => match choose(8) {
                0 => {
                    let shared = !self.others.is_empty() || !self.weak.is_empty();
                    match SVec::try_from(s) {
                        Ok(v) => {
                            check(!shared, "exclusive", || "a shared slice became a vector".into());
                            if let (Some(c), false) = (self.cap, T::ZST) {
                                check(v.capacity() == c, "capacity", || format!("a capacity of {c} became {}", v.capacity()));
                            }
                            self.cap = Some(v.capacity());
                            self.o = Grow(v);
                        }
                        Err(s) => {
                            check(shared || T::ZST, "exclusive", || "an unshared slice did not become a vector".into());
                            self.o = Slice(s);
                        }
                    }
                }
                1 if self.others.len() < 2 => {
                    self.others.push(s.clone());
                    self.o = Slice(s);
                }
                2 if self.weak.is_empty() => {
                    self.weak.push((&s).into());
                    self.o = Slice(s);
                }
                3 if !self.others.is_empty() => {
                    if choose(2) == 0 {
                        self.others.pop();
                        self.o = Slice(s);
                    } else {
                        // Go on with the other owner.
                        drop(s);
                        self.o = Slice(self.others.pop().unwrap());
                    }
                }
                4 if !self.weak.is_empty() => {
                    if choose(2) == 0 {
                        self.weak.pop();
                        self.o = Slice(s);
                    } else {
                        match self.weak[0].upgrade() {
                            Some(u) => {
                                drop(s);
                                self.o = Slice(u);
                            }
                            None => fail("upgrade", "a live slice did not upgrade".into()),
                        }
                    }
                }
                5 => {
                    let raw = ArcSlice::into_raw(s);
                    check(raw.len() == n && raw.is_empty() == (n == 0), "contents", || "the raw slice's length differs".into());
                    same(unsafe { raw.as_slice() }, &self.m);
                    self.o = Slice(unsafe { ArcSlice::from_raw(raw) });
                }
                6 => {
                    let shared = !self.others.is_empty() || !self.weak.is_empty();
                    match s.as_slice_mut() {
                        Some(v) => {
                            check(!shared, "exclusive", || "mutable access to a shared slice".into());
                            if let Some(e) = v.first_mut() {
                                self.next += 1;
                                e.set(self.next);
                                self.m[0] = self.next;
                            }
                        }
                        None => check(shared, "exclusive", || "no mutable access to an unshared slice".into()),
                    }
                    self.o = Slice(s);
                }
                7 => {
                    let mut i = 0;
                    for e in &s {
                        let v = e.val();
                        check(T::ZST || v == self.m[i], "iter", || "the wrong element".into());
                        i += 1;
                    }
                    check(i == n && s.len() == n && s.is_empty() == (n == 0), "iter", || "the wrong number of elements".into());
                    let a = ArcSlice::strong_count(&s);
                    check(a == self.others.len() + 1, "counts", || format!("{a} owners instead of {}", self.others.len() + 1));
                    self.o = Slice(s);
                }
                _ => discard(),
            },
            One(b) => match choose(4) {
                0 => {
                    let e = SBox::into_inner(b);
                    let mut v = SVec::new_in(A::default());
                    v.push(e);
                    self.cap = Some(v.capacity());
                    self.o = Grow(v);
                }
                1 => {
                    let raw = SBox::into_raw(b);
                    self.o = One(unsafe { SBox::from_raw(raw) });
                }
                2 => {
                    let e = SBox::into_inner(b);
                    self.o = Arc(stabby::alloc::sync::Arc::new_in(e, A::default()));
                }
                _ => {
                    let c = b.clone();
                    self.o = One(c);
                }
            },
            Arc(a) => match choose(4) {
                0 => {
                    self.cap = Some(1);
                    self.o = Slice(a.into());
                }
                1 => {
                    let raw = stabby::alloc::sync::Arc::into_raw(a);
                    self.o = Arc(unsafe { stabby::alloc::sync::Arc::from_raw(raw) });
                }
                2 => match stabby::alloc::sync::Arc::try_into_inner(a) {
                    Ok(e) => self.o = One(SBox::new_in(e, A::default())),
                    Err(_) => fail("exclusive", "an unshared value was not given up".into()),
                },
                _ => {
                    let b = a.clone();
                    drop(a);
                    self.o = Arc(b);
                }
            },
            Nothing => discard(),
        }
    }
    fn verify(&mut self) {
        match &self.o {
            Grow(v) => {
                same(v, &self.m);
                check(v.capacity() >= v.len(), "capacity", || "the capacity is too small".into());
                if !T::ZST && v.capacity() > 0 {
                    check(range_live(v.as_slice().as_ptr() as usize, v.capacity() * core::mem::size_of::<T>()), "room", || "the capacity exceeds the allocation".into());
                }
            }
            Boxed(b) => same(b, &self.m),
            Slice(s) => same(s, &self.m),
            One(b) => same(core::slice::from_ref(&**b), &self.m),
            Arc(a) => same(core::slice::from_ref(&**a), &self.m),
            Nothing => {}
        }
        for s in &self.others {
            same(s, &self.m);
        }
    }
    fn key(&self, left: usize) -> u64 {
        let k = match &self.o {
            Grow(v) => mix(1, v.capacity() as u64),
            Boxed(_) => 2,
            Slice(_) => 3,
            One(_) => 4,
            Arc(_) => 5,
            Nothing => 0,
        };
        let k = mix(k, self.m.len() as u64);
        let k = mix(k, self.cap.map_or(99, |c| c as u64));
        mix(k, (self.others.len() + 10 * self.weak.len() + 100 * left) as u64)
    }
}
fn run<T: Elem + Clone, A: IAlloc + Default + Clone>() {
    T::begin();
    let b = bounds();
    {
        let mut c = C::<T, A> { o: Nothing, m: VecDeque::new(), cap: None, next: 0, others: vec![], weak: vec![] };
        c.build();
        c.verify();
        step();
        for d in 0..b.depth {
            // Where memory is owned from matters: the history is part of the state only through what is in the key and
            // the blocks that are live.
            prune_if_seen(mix(c.key(b.depth - d), live_blocks_key()));
            if choose(2) == 0 {
                break;
            }
            c.op();
            c.verify();
            step();
        }
    }
    T::finish();
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn live_blocks_key() -> u64 {
    live_count() as u64
}
fn small() { run::<P, CkAlloc>() }
fn small_z() { run::<P, ZAlloc>() }
fn aligned64() { run::<Aligned, CkAlloc>() }
fn aligned16() { run::<Aligned16, ZAlloc>() }
fn big() { run::<Big<20>, CkAlloc>() }
fn zst() { run::<Zst, CkAlloc>() }
fn zst_aligned() { run::<ZstAligned, ZAlloc>() }

/// Texts through every form.
enum S {
    Text(SString<CkAlloc>),
    Boxed(BoxedStr<CkAlloc>),
    Shared(ArcStr<CkAlloc>, Option<ArcStr<CkAlloc>>),
    Bytes(SVec<u8, CkAlloc>),
    Slice(BoxedSlice<u8, CkAlloc>),
    ArcSlice(ArcSlice<u8, CkAlloc>),
}
fn texts() {
    let b = bounds();
    {
        let start = pick(&["", "a", "é", "日本語"]);
        let mut m = start.to_string();
        let mut s = match choose(4) {
            0 => S::Text(start.into()),
            1 => S::Text(start.to_string().into()),
            2 => S::Slice(start.as_bytes().into()),
            _ => S::ArcSlice(start.as_bytes().into()),
        };
        for _ in 0..b.depth {
            s = match s {
                S::Text(mut t) => match choose(5) {
                    0 => S::Boxed(t.into()),
                    1 => S::Shared(t.into(), None),
                    2 => S::Bytes(t.into()),
                    3 => {
                        let x = pick(&["", "z", "ü"]);
                        t += x;
                        m += x;
                        S::Text(t)
                    }
                    _ => {
                        let std: String = t.into();
                        check(std == m, "contents", || format!("{std:?} instead of {m:?}"));
                        S::Text(std.into())
                    }
                },
                S::Boxed(t) => S::Text(t.into()),
                S::Shared(t, o) => match choose(4) {
                    0 => match SString::try_from(t) {
                        Ok(t) => {
                            check(o.is_none(), "exclusive", || "a shared text was given up".into());
                            S::Text(t)
                        }
                        Err(t) => {
                            check(o.is_some(), "exclusive", || "an unshared text was not given up".into());
                            S::Shared(t, o)
                        }
                    },
                    1 => {
                        let c = t.clone();
                        S::Shared(t, Some(c))
                    }
                    2 => S::Shared(t, None),
                    _ => match o {
                        Some(o) => S::Shared(o, Some(t)),
                        None => {
                            let w = stabby::alloc::string::WeakStr::from(&t);
                            let u = w.upgrade();
                            check(u.is_some(), "upgrade", || "a live text did not upgrade".into());
                            S::Shared(t, u)
                        }
                    },
                },
                S::Bytes(v) => match choose(3) {
                    0 => match SString::try_from(v) {
                        Ok(t) => S::Text(t),
                        Err(_) => fail("utf8", "valid text was refused".into()),
                    },
                    1 => S::Slice(v.into()),
                    _ => S::ArcSlice(v.into()),
                },
                S::Slice(v) => S::Bytes(v.into()),
                S::ArcSlice(v) => match SVec::try_from(v) {
                    Ok(v) => S::Bytes(v),
                    Err(_) => fail("exclusive", "an unshared slice was not given up".into()),
                },
            };
            step();
            let got: &[u8] = match &s {
                S::Text(t) => t.as_str().as_bytes(),
                S::Boxed(t) => t.as_str().as_bytes(),
                S::Shared(t, _) => t.as_str().as_bytes(),
                S::Bytes(t) => t,
                S::Slice(t) => t,
                S::ArcSlice(t) => t,
            };
            check(got == m.as_bytes(), "contents", || format!("{got:?} instead of {m:?}"));
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
#[derive(Default)]
struct Rec(Vec<u8>);
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hashed<T: core::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Rec::default();
    t.hash(&mut h);
    h.0
}
/// Comparing, hashing, formatting and iterating, against what the lists do.
fn order() {
    let lists: [&[u8]; 8] = [&[], &[1], &[2], &[1, 1], &[1, 2], &[2, 1], &[1, 2, 0xab], &[1, 2, 0xab, 0xcd]];
    let floats: [&[f32]; 6] = [&[], &[1.0], &[f32::NAN], &[1.0, f32::NAN], &[0.0], &[-0.0]];
    {
        let (a, b) = (pick(&lists), pick(&lists));
        let grow = choose(3);
        let vec = |l: &[u8]| {
            let mut v = SVec::<u8, CkAlloc>::new_in(CkAlloc::default());
            if grow == 1 {
                v.reserve(9);
            }
            v.extend(l.iter().copied());
            if grow == 2 {
                v.push(7);
                v.pop();
            }
            v
        };
        log(|| format!("{a:?} and {b:?}"));
        let hex = |l: &[u8]| l.iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(":");
        macro_rules! judge {
            ($x: expr, $y: expr) => {{
                let (x, y) = ($x, $y);
                check((x == y) == (a == b) && (x != y) == (a != b), "eq", || format!("{a:?} == {b:?}"));
                check(x.cmp(&y) == a.cmp(b), "cmp", || format!("{a:?} cmp {b:?}"));
                check(x.partial_cmp(&y) == a.partial_cmp(b), "cmp", || format!("{a:?} partial_cmp {b:?}"));
                check((x < y) == (a < b) && (x >= y) == (a >= b), "cmp", || format!("{a:?} < {b:?}"));
                check((hashed(&x) == hashed(&y)) == (a == b), "hash", || format!("the hashes of {a:?} and {b:?}"));
                check(format!("{x:?}") == format!("{a:?}"), "debug", || format!("{x:?} instead of {a:?}"));
                check(format!("{x:x}") == hex(a) && format!("{x:X}") == hex(a).to_uppercase(), "hex", || format!("{x:x}, {x:X} instead of {}", hex(a)));
                check((&x).into_iter().eq(a), "iterate", || "iterating by reference differs".into());
                check(*x == *a && x.len() == a.len() && x.is_empty() == a.is_empty(), "contents", || "the contents differ".into());
                (x, y)
            }};
        }
        match choose(5) {
            0 => {
                let (mut x, y) = judge!(BoxedSlice::from(vec(a)), BoxedSlice::from(vec(b)));
                check(x.as_slice() == a && x.as_slice_mut() == a, "contents", || "the contents differ".into());
                for e in &mut x {
                    *e = e.wrapping_add(1);
                }
                check(x.iter().copied().eq(a.iter().map(|e| e.wrapping_add(1))), "iterate", || "iterating by mutable reference differs".into());
                check(y.into_iter().eq(b.iter().copied()), "iterate", || "iterating by value differs".into());
            }
            1 => {
                let (x, _y) = judge!(ArcSlice::from(vec(a)), ArcSlice::from(vec(b)));
                check(x.as_slice() == a, "contents", || "the contents differ".into());
                judge!(x.clone(), ArcSlice::from(vec(b)));
            }
            2 => {
                judge!(BoxedSlice::<u8, CkAlloc>::from(a), b.iter().copied().collect::<BoxedSlice<u8, CkAlloc>>());
            }
            3 => {
                judge!(ArcSlice::<u8, CkAlloc>::from(a), b.iter().copied().collect::<ArcSlice<u8, CkAlloc>>());
            }
            _ => {
                let (a, b) = (pick(&floats), pick(&floats));
                let f = |l: &[f32]| l.iter().copied().collect::<SVec<f32, CkAlloc>>();
                let (x, y) = (ArcSlice::from(f(a)), ArcSlice::from(f(b)));
                let (p, q) = (BoxedSlice::from(f(a)), BoxedSlice::from(f(b)));
                check((x == y) == (a == b) && (p == q) == (a == b), "eq", || format!("{a:?} == {b:?}"));
                #[allow(clippy::eq_op)]
                let own = (x == x.clone(), a == a);
                check(own.0 == own.1, "eq", || format!("{a:?} == itself"));
                check(x.partial_cmp(&y) == a.partial_cmp(b) && p.partial_cmp(&q) == a.partial_cmp(b), "cmp", || format!("{a:?} partial_cmp {b:?}"));
            }
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn main() {
    const B: Bounds = Bounds::SEQ.split(4);
    const fn s(name: &'static str, about: &'static str, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(9)), thorough: B.depth(14), body }
    }
    mcrt::main(&Prop {
        id: "C12",
        title: "Converting between owners preserves contents and memory",
        assumptions: &["conversions do not depend on the elements' values: states that differ in values only are merged"],
        scenarios: vec![
            s("small", "two-word elements", small),
            s("small-z", "two-word elements, zero-sized allocator", small_z),
            s("aligned-64", "elements aligned to a cache line", aligned64),
            s("aligned-16", "elements aligned to two words, zero-sized allocator", aligned16),
            s("big", "elements of 200 bytes", big),
            s("zst", "zero-sized elements", zst),
            s("zst-aligned", "aligned zero-sized elements, zero-sized allocator", zst_aligned),
            Scenario { name: "texts", about: "texts through every owner of text and bytes", quick: Some(B.depth(7)), thorough: B.depth(10), body: texts },
            Scenario { name: "order", about: "comparing, hashing, formatting and iterating boxed and shared slices", quick: Some(B.depth(1)), thorough: B.depth(1), body: order },
        ],
    })
}
