//! C10: growable vectors against plain sequences.
use mcrt::*;
use stabby::abi::alloc::IAlloc;
use stabby::alloc::vec::Vec as SVec;
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, ZAlloc, P};
use std::ops::Bound;

struct Ck<T: Elem, A: IAlloc> {
    v: SVec<T, A>,
    m: Vec<u64>,
    next: u64,
}
fn same<T: Elem>(s: &[T], m: &[u64]) {
    let vals: Vec<u64> = s.iter().map(|e| e.val()).collect();
    if T::ZST {
        check(vals.len() == m.len(), "contents", || format!("{} elements instead of {}", vals.len(), m.len()));
    } else {
        check(vals == m, "contents", || format!("contents {vals:?} instead of {m:?}"));
    }
}
fn eqv<T: Elem>(e: &T, m: u64) -> bool {
    let v = e.val();
    T::ZST || v == m
}
/// An iterator that gives its items and claims whatever hint it is told to.
struct Hinted<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
impl<T: Elem + Clone, A: IAlloc + Default + Clone> Ck<T, A> {
    fn fresh(&mut self) -> (T, u64) {
        self.next += 1;
        (T::make(self.next), self.next)
    }
    fn verify(&self) {
        let (v, m) = (&self.v, &self.m);
        check(v.len() == m.len() && v.is_empty() == m.is_empty(), "length", || {
            format!("length {} (empty: {}) instead of {}", v.len(), v.is_empty(), m.len())
        });
        check(v.capacity() >= v.len(), "capacity", || format!("capacity {} for length {}", v.capacity(), v.len()));
        check(v.remaining_capacity() == v.capacity() - v.len(), "capacity", || "remaining capacity is wrong".into());
        same(v.as_slice(), m);
        let start = v.as_slice().as_ptr();
        check(start as usize % core::mem::align_of::<T>() == 0, "misaligned", || format!("elements at {start:?}"));
        if !T::ZST && v.capacity() != 0 {
            let room = v.capacity() * core::mem::size_of::<T>();
            check(range_live(start as usize, room), "room", || format!("capacity {} exceeds the allocation", v.capacity()));
        }
    }
    fn range(&self) -> ((Bound<usize>, Bound<usize>), Option<(usize, usize)>) {
        let n = self.m.len();
        let from = choose(n + 2);
        let to = choose(n + 2);
        let r = match choose(6) {
            0 => (Bound::Included(from), Bound::Excluded(to)),
            1 => (Bound::Included(from), Bound::Included(to)),
            2 if to == 0 => (Bound::Included(from), Bound::Unbounded),
            3 if from == 0 => (Bound::Unbounded, Bound::Excluded(to)),
            4 if from == 0 && to == 0 => (Bound::Unbounded, Bound::Unbounded),
            5 => (Bound::Excluded(from), Bound::Excluded(to)),
            _ => discard(),
        };
        let a = match r.0 {
            Bound::Included(a) => a,
            Bound::Excluded(a) => a + 1,
            Bound::Unbounded => 0,
        };
        let b = match r.1 {
            Bound::Included(b) => b + 1,
            Bound::Excluded(b) => b,
            Bound::Unbounded => n,
        };
        log(|| format!("range {r:?}"));
        (r, (a <= b && b <= n).then_some((a, b)))
    }
    fn drain(&mut self, fallible: bool) {
        let (r, valid) = self.range();
        let (v, m) = (&mut self.v, &mut self.m);
        let d = if fallible {
            let d = v.try_drain(r);
            check(d.is_some() == valid.is_some(), "range", || format!("try_drain of {r:?} gave {}", if d.is_some() { "a drain" } else { "nothing" }));
            match d {
                Some(d) => d,
                None => return,
            }
        } else {
            let vp: *mut SVec<T, A> = v;
            match catch(move || unsafe { &mut *vp }.drain(r)) {
                Ok(d) => {
                    check(valid.is_some(), "range", || format!("drain of {r:?} accepted"));
                    d
                }
                Err(e) => {
                    check(valid.is_none(), "range", || format!("drain of {r:?} panicked: {e}"));
                    return;
                }
            }
        };
        let (a, b) = valid.unwrap();
        let mut gone: std::collections::VecDeque<u64> = m.drain(a..b).collect();
        let mut d = d;
        let hint = |h: (usize, Option<usize>), l: usize, n: usize| {
            check(h == (n, Some(n)) && l == n, "size-hint", || format!("{n} element(s) left to drain, announced as {h:?} and {l}"))
        };
        let front = if b - a <= 3 { choose(b - a + 2) } else { pick(&[0, 1, 2, b - a, b - a + 1]) };
        for _ in 0..front {
            hint(d.size_hint(), d.len(), gone.len());
            let (x, y) = (d.next(), gone.pop_front());
            check(x.is_some() == y.is_some() && x.iter().all(|e| eqv(e, y.unwrap())), "drained", || "drained the wrong element".into());
        }
        match choose(3) {
            0 => drop(d),
            1 => {
                d.stop();
                // What was not drained stays.
                for (i, g) in gone.into_iter().enumerate() {
                    m.insert(a + i, g);
                }
            }
            _ => {
                let mut d = d.double_ended();
                let n = choose(gone.len().min(3) + 2);
                for _ in 0..n {
                    hint(d.size_hint(), d.len(), gone.len());
                    let (x, y) = if choose(2) == 0 { (d.next_back(), gone.pop_back()) } else { (d.next(), gone.pop_front()) };
                    check(x.is_some() == y.is_some() && x.iter().all(|e| eqv(e, y.unwrap())), "drained", || "drained the wrong element".into());
                }
            }
        }
    }
    fn extend(&mut self) {
        let n = choose(4);
        let mut items = Vec::new();
        for _ in 0..n {
            let (e, v) = self.fresh();
            items.push(e);
            self.m.push(v);
        }
        // The hint is exact, vague, or wrong in either direction.
        let hint = pick(&[(n, Some(n)), (0, None), (0, Some(0)), (0, Some(n + 2)), (n + 1, None), (0, Some(usize::MAX))]);
        log(|| format!("extend by {n}, announced as {hint:?}"));
        let before = self.v.capacity();
        self.v.extend(Hinted(items.into_iter(), hint));
        check(self.v.capacity() >= before, "capacity", || "extending shrank the vector".into());
    }
    fn op(&mut self) {
        let n = self.m.len();
        let op = choose(18);
        log(|| format!("length {n}, capacity {}: operation {op}", self.v.capacity()));
        match op {
            0 => {
                let (e, x) = self.fresh();
                self.v.push(e);
                self.m.push(x);
            }
            1 => {
                let (e, x) = self.fresh();
                check(self.v.try_push(e).is_ok(), "push", || "a push was refused".into());
                self.m.push(x);
            }
            2 => {
                let x = self.v.pop();
                let y = self.m.pop();
                check(x.is_some() == y.is_some() && x.iter().all(|e| eqv(e, y.unwrap())), "pop", || "popped the wrong element".into());
            }
            3 => {
                let i = choose(n + 2);
                let x = self.v.remove(i);
                check(x.is_some() == (i < n), "remove", || format!("remove({i}) of {n}"));
                if let Some(x) = x {
                    let y = self.m.remove(i);
                    check(eqv(&x, y), "remove", || "removed the wrong element".into());
                }
            }
            4 => {
                let i = choose(n + 2);
                let x = self.v.swap_remove(i);
                check(x.is_some() == (i < n), "remove", || format!("swap_remove({i}) of {n}"));
                if let Some(x) = x {
                    let y = self.m.swap_remove(i);
                    check(eqv(&x, y), "remove", || "removed the wrong element".into());
                }
            }
            5 => {
                let (i, j) = (choose(n + 1), choose(n + 1));
                let v: *mut SVec<T, A> = &mut self.v;
                let r = catch(move || unsafe { &mut *v }.swap(i, j));
                check(r.is_ok() == (i < n && j < n), "swap", || format!("swap({i}, {j}) of {n}: {r:?}"));
                if r.is_ok() {
                    self.m.swap(i, j);
                }
            }
            6 => {
                let k = choose(n + 2);
                self.v.truncate(k);
                self.m.truncate(k);
            }
            7 => self.drain(false),
            8 => self.drain(true),
            9 | 10 => {
                let k = pick(&[0usize, 1, 2, 9]);
                let (start, room) = (self.v.as_slice().as_ptr(), self.v.remaining_capacity());
                if op == 9 {
                    self.v.reserve(k);
                } else {
                    match self.v.try_reserve(k) {
                        Ok(c) => {
                            let c: usize = c.into();
                            check(c == self.v.capacity() || T::ZST, "reserve", || format!("reserved a capacity of {c}, got {}", self.v.capacity()))
                        }
                        Err(_) => fail("reserve", "a reservation was refused".into()),
                    }
                }
                check(self.v.remaining_capacity() >= k, "reserve", || format!("room for {} after reserving {k}", self.v.remaining_capacity()));
                check(room < k || start == self.v.as_slice().as_ptr(), "moved", || "reserving room that was there moved the elements".into());
            }
            11 => self.extend(),
            12 => {
                let c = self.v.clone();
                same(c.as_slice(), &self.m);
                if choose(2) == 0 {
                    drop(c)
                } else {
                    self.v = c
                }
            }
            13 => {
                // Take it apart.
                let v = core::mem::take(&mut self.v);
                let k = choose(n + 2);
                let mut it = v.into_iter();
                for i in 0..k {
                    let x = it.next();
                    check(x.is_some() == (i < n) && x.iter().all(|e| eqv(e, self.m[i])), "into-iter", || format!("item {i} of {n} is wrong"));
                }
                self.m.drain(..k.min(n));
                if choose(2) == 0 {
                    drop(it);
                    self.m.clear();
                } else {
                    self.v = it.collect();
                }
            }
            14 => {
                let i = choose(n + 1);
                self.next += 1;
                let x = self.next;
                let v: *mut SVec<T, A> = &mut self.v;
                let r = match choose(3) {
                    0 => catch(move || unsafe { &mut *v }[i].set(x)),
                    1 => catch(move || unsafe { &mut *v }[i..].first_mut().unwrap().set(x)),
                    _ => catch(move || unsafe { &mut *v }.iter_mut().nth(i).unwrap().set(x)),
                };
                check(r.is_ok() == (i < n), "index", || format!("index {i} of {n}: {r:?}"));
                if i < n {
                    self.m[i] = x;
                }
            }
            15 => {
                let (a, b) = (choose(n + 2), choose(n + 2));
                let v: *const SVec<T, A> = &self.v;
                let v = unsafe { &*v };
                let kind = choose(6);
                let r = match kind {
                    0 => catch(move || &v[a..b]),
                    1 => catch(move || &v[a..=b]),
                    2 => catch(move || &v[a..]),
                    3 => catch(move || &v[..b]),
                    4 => catch(move || &v[..=b]),
                    _ => catch(move || &v[..]),
                };
                let m = match kind {
                    0 => self.m.get(a..b),
                    1 => self.m.get(a..=b),
                    2 => self.m.get(a..),
                    3 => self.m.get(..b),
                    4 => self.m.get(..=b),
                    _ => self.m.get(..),
                };
                check(r.is_ok() == m.is_some(), "index", || format!("range {kind} {a} {b} of {n}: accepted {}", r.is_ok()));
                if let (Ok(s), Some(m)) = (r, m) {
                    same(s, m);
                }
            }
            16 => {
                // Iteration in place.
                let mut i = 0;
                for (e, m) in self.v.iter().zip(&self.m) {
                    check(eqv(e, *m), "iter", || "iterated over the wrong element".into());
                    i += 1;
                }
                check(i == n, "iter", || format!("iterated over {i} of {n} elements"));
                check((&self.v).into_iter().len() == n && AsRef::<[T]>::as_ref(&self.v).len() == n, "iter", || "lengths differ".into());
            }
            _ => {
                let k = pick(&[0usize, 1, 3, 8]);
                let w = match choose(3) {
                    0 => SVec::<T, A>::with_capacity(k),
                    1 => SVec::with_capacity_in(k, A::default()),
                    _ => match SVec::try_with_capacity_in(k, A::default()) {
                        Ok(w) => w,
                        Err(_) => fail("reserve", "an allocation was refused".into()),
                    },
                };
                check(w.is_empty() && w.capacity() >= k, "reserve", || format!("capacity {} instead of {k}", w.capacity()));
                self.v = w;
                self.m.clear();
            }
        }
        self.verify();
        step();
    }
}
fn run<T: Elem + Clone, A: IAlloc + Default + Clone>() {
    T::begin();
    let b = bounds();
    {
        let mut c = Ck::<T, A> { v: SVec::new_in(A::default()), m: Vec::new(), next: 0 };
        c.verify();
        for d in 0..b.depth {
            // Nothing that follows depends on the values themselves.
            let s = mix(mix(c.m.len() as u64, c.v.capacity() as u64), (b.depth - d) as u64);
            prune_if_seen(s);
            if c.m.len() > b.width || choose(2) == 0 && d > 0 {
                break;
            }
            c.op();
        }
    }
    T::finish();
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
const LONG: [u8; 600] = [0x5a; 600];
/// Plain bytes: copies, comparisons, writes.
fn bytes() {
    let b = bounds();
    {
        let mut v = SVec::<u8, CkAlloc>::default();
        let mut m: Vec<u8> = Vec::new();
        for _ in 0..b.depth {
            match choose(5) {
                0 => {
                    let s = pick(&[&[][..], &[1], &[2, 1], &[0, 255, 7, 7, 7, 7, 7, 7, 7], &LONG]);
                    v.copy_extend(s);
                    m.extend_from_slice(s);
                }
                1 => {
                    let s = pick(&[&[][..], &[3], &[1, 2]]);
                    check(v.try_copy_extend(s).is_ok(), "extend", || "refused".into());
                    m.extend_from_slice(s);
                }
                2 => {
                    use std::io::Write;
                    let s = pick(&[&[][..], &[4], &[9, 8, 7], &LONG]);
                    let n = v.write(s).unwrap();
                    v.flush().unwrap();
                    m.extend_from_slice(&s[..n]);
                    check(n == s.len(), "write", || format!("wrote {n} of {}", s.len()));
                }
                3 => {
                    let k = choose(3);
                    v.truncate(k);
                    m.truncate(k);
                }
                _ => {
                    let s = pick(&[&[][..], &[1], &[2, 1], &[1, 2]]);
                    v = SVec::from(s);
                    m = s.to_vec();
                }
            }
            step();
            check(v.as_slice() == &m[..] && v.len() == m.len(), "contents", || format!("{:?} instead of {m:?}", v.as_slice()));
            check(range_live(v.as_slice().as_ptr() as usize, v.capacity()) || v.capacity() == 0, "room", || "capacity exceeds the allocation".into());
            for o in [&[][..], &[1], &[1, 2], &[2], &[2, 1]] {
                let w = SVec::<u8, CkAlloc>::from(o);
                check((v == w) == (m == o) && (v == o) == (m == o), "eq", || format!("{m:?} == {o:?}"));
                check(v.cmp(&w) == m[..].cmp(o), "cmp", || format!("{m:?} cmp {o:?}"));
                check(v.partial_cmp(&w) == m[..].partial_cmp(o), "cmp", || format!("{m:?} partial_cmp {o:?}"));
            }
            check(format!("{v:?}") == format!("{m:?}"), "debug", || "debug output differs".into());
            let hex = m.iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(":");
            check(format!("{v:x}") == hex && format!("{v:X}") == hex.to_uppercase(), "hex", || format!("hex output {v:x} instead of {hex}"));
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
/// A destructor that panics must not make others run twice.
struct Bomb(P, bool);
impl Drop for Bomb {
    fn drop(&mut self) {
        self.0.read();
        if self.1 {
            panic!("destructor");
        }
    }
}
fn panics() {
    let n = 1 + choose(3);
    let bad = choose(n);
    {
        let mut v = SVec::<Bomb, CkAlloc>::default();
        for i in 0..n {
            v.push(Bomb(P::new(i as u64), i == bad));
        }
        let op = choose(6);
        log(|| format!("{n} elements, element {bad} panics, operation {op}"));
        let _ = catch(move || match op {
            0 => drop(v),
            1 => v.truncate(choose(n)),
            2 => {
                let a = choose(n + 1);
                drop(v.drain(a..))
            }
            3 => {
                let mut it = v.into_iter();
                drop(it.next())
            }
            4 => {
                let mut d = v.drain(..).double_ended();
                let x = d.next_back();
                drop(d);
                drop(x);
            }
            _ => {
                v.extend(Some(Bomb(P::new(9), false)));
                drop(v.swap_remove(choose(n)));
            }
        });
    }
    // Leaks are fine once a destructor panicked; destroying twice is not.
    forgive_leaks();
}
/// Requests that cannot be met are refused, whatever their size.
fn huge() {
    Zst::begin();
    {
        let mut v = SVec::<Zst, CkAlloc>::default();
        let n = choose(3);
        for _ in 0..n {
            v.push(Zst::make(0));
        }
        for k in [usize::MAX, usize::MAX - 1, usize::MAX - 2, usize::MAX / 2] {
            let vp: *mut SVec<Zst, CkAlloc> = &mut v;
            match catch(move || unsafe { &mut *vp }.try_reserve(k).is_ok()) {
                Ok(ok) => check(!ok || v.remaining_capacity() >= k, "huge", || format!("a reservation of {k:#x} zero-sized elements left {:#x}", v.remaining_capacity())),
                Err(e) => fail("huge-panic", format!("a fallible reservation of {k:#x} zero-sized elements panicked: {e}")),
            }
            check(v.len() == n, "contents", || "a refused reservation changed the vector".into());
        }
    }
    Zst::finish();
    {
        let mut v = SVec::<u64, CkAlloc>::default();
        let n = choose(3);
        for i in 0..n {
            v.push(i as u64);
        }
        for k in [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX / 8 - 5, usize::MAX / 16, isize::MAX as usize / 8] {
            let vp: *mut SVec<u64, CkAlloc> = &mut v;
            match catch(move || unsafe { &mut *vp }.try_reserve(k).is_ok()) {
                Ok(ok) => check(!ok, "huge", || format!("a reservation of {k:#x} elements succeeded")),
                Err(e) => fail("huge-panic", format!("a fallible reservation of {k:#x} elements panicked: {e}")),
            }
            check(v.len() == n && v.iter().copied().eq(0..n as u64), "contents", || "a refused reservation changed the vector".into());
            match catch(move || SVec::<u64, CkAlloc>::try_with_capacity(k).is_ok()) {
                Ok(ok) => check(!ok, "huge", || format!("an allocation of {k:#x} elements succeeded")),
                Err(e) => fail("huge-panic", format!("a fallible allocation of {k:#x} elements panicked: {e}")),
            }
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn small() { run::<P, CkAlloc>() }
fn plain_realloc() { run::<P, ZAlloc>() }
fn aligned16() { run::<Aligned16, CkAlloc>() }
fn aligned64() { run::<Aligned, CkAlloc>() }
fn aligned64z() { run::<Aligned, ZAlloc>() }
fn big() { run::<Big<20>, CkAlloc>() }
fn huge_elems() { run::<Big<126>, CkAlloc>() }
fn zst() { run::<Zst, CkAlloc>() }
fn zst_aligned() { run::<ZstAligned, CkAlloc>() }

fn main() {
    const B: Bounds = Bounds::SEQ.split(3);
    const fn s(name: &'static str, about: &'static str, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(4).width(8)), thorough: B.depth(8).width(10), body }
    }
    mcrt::main(&Prop {
        id: "C10",
        title: "Growable vectors behave as sequences and own each element once",
        assumptions: &["operations do not depend on the elements' values, as they are generic over them: states that differ in values only are merged"],
        scenarios: vec![
            s("small", "two-word elements", small),
            s("plain-realloc", "two-word elements, an allocator without its own reallocation", plain_realloc),
            s("aligned-16", "elements aligned to two words", aligned16),
            s("aligned-64", "elements aligned to a cache line", aligned64),
            s("aligned-64-z", "elements aligned to a cache line, an allocator without its own reallocation", aligned64z),
            s("big", "elements of 200 bytes", big),
            Scenario { name: "huge-elems", about: "elements of more than 1024 bytes", quick: Some(B.depth(3).width(4)), thorough: B.depth(6).width(6), body: huge_elems },
            s("zst", "zero-sized elements", zst),
            s("zst-aligned", "aligned zero-sized elements", zst_aligned),
            Scenario { name: "bytes", about: "plain bytes: copies, comparisons and formats", quick: Some(B.depth(3)), thorough: B.depth(5), body: bytes },
            Scenario { name: "panics", about: "destructors that panic", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: panics },
            Scenario { name: "huge", about: "requests no allocator can meet", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: huge },
        ],
    })
}
