//! C16: refused allocations, at every point of every history.
use mcrt::*;
use stabby::abi::alloc::IAlloc;
use stabby::alloc::boxed::{Box as SBox, BoxedSlice};
use stabby::alloc::string::String as SString;
use stabby::alloc::sync::{Arc, ArcSlice};
use stabby::alloc::vec::Vec as SVec;
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, ZAlloc, P};

fn same<T: Elem>(s: &[T], m: &[u64]) {
    check(s.len() == m.len(), "contents", || format!("{} elements instead of {}", s.len(), m.len()));
    for (e, m) in s.iter().zip(m) {
        let v = e.val();
        check(v == *m, "contents", || format!("an element is {v} instead of {m}"));
    }
}
/// Runs `f`; `None` if it panicked, which only a refused allocation explains.
fn attempt<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    let before = faults_injected();
    match catch(f) {
        Ok(r) => {
            log(|| format!("{what}: done"));
            Some(r)
        }
        Err(e) => {
            log(|| format!("{what}: panicked"));
            check(faults_injected() > before, "panic", || format!("{what} panicked though nothing was refused: {e}"));
            None
        }
    }
}
/// Whether `ok`; a failure is only explained by a refused allocation, and any refused allocation by a failure.
fn outcome_of(what: &str, ok: bool, before: u32) {
    log(|| format!("{what}: {}", if ok { "done" } else { "refused" }));
    let refused = faults_injected() > before;
    check(ok != refused, "report", || format!("{what}: {} though {}", if ok { "succeeded" } else { "failed" }, if refused { "an allocation was refused" } else { "nothing was refused" }));
}
fn vectors<T: Elem + Clone, A: IAlloc + Default + Clone>() {
    let b = bounds();
    {
        let mut v = SVec::<T, A>::new_in(A::default());
        let mut m: Vec<u64> = Vec::new();
        let mut next = 0;
        for d in 0..b.depth {
            prune_if_seen(mix(mix(m.len() as u64, v.capacity() as u64), mix(faults_injected() as u64, (b.depth - d) as u64)));
            if d > 0 && choose(2) == 0 {
                break;
            }
            let (start, cap, f) = (v.as_slice().as_ptr(), v.capacity(), faults_injected());
            let vp: *mut SVec<T, A> = &mut v;
            let mut unchanged = false;
            match choose(9) {
                0 => {
                    next += 1;
                    match v.try_push(T::make(next)) {
                        Ok(()) => {
                            outcome_of("try_push", true, f);
                            m.push(next);
                        }
                        Err(e) => {
                            outcome_of("try_push", false, f);
                            let x = e.val();
                            check(x == next, "given-back", || "another element was given back".into());
                            unchanged = true;
                        }
                    }
                }
                1 => {
                    let k = pick(&[1, 9, 20]);
                    let r = v.try_reserve(k);
                    outcome_of("try_reserve", r.is_ok(), f);
                    unchanged = r.is_err();
                    check(r.is_err() || v.remaining_capacity() >= k, "reserve", || "no room after reserving".into());
                }
                2 => {
                    let k = pick(&[0, 1, 3]);
                    let a = A::default();
                    match SVec::<T, A>::try_with_capacity_in(k, a) {
                        Ok(w) => {
                            outcome_of("try_with_capacity_in", true, f);
                            check(w.capacity() >= k && w.is_empty(), "reserve", || "no room after reserving".into());
                        }
                        Err(a) => {
                            outcome_of("try_with_capacity_in", false, f);
                            // The allocator given back still works.
                            let mut w = SVec::<T, A>::new_in(a);
                            let _ = w.try_push(T::make(0));
                        }
                    }
                }
                3 => {
                    next += 1;
                    let e = T::make(next);
                    match attempt("push", move || unsafe { &mut *vp }.push(e)) {
                        Some(()) => m.push(next),
                        None => unchanged = true,
                    }
                }
                4 => {
                    if let Some(c) = attempt("clone", || v.clone()) {
                        same(&c, &m);
                        v = c;
                    } else {
                        unchanged = true;
                    }
                }
                5 => {
                    let n = 1 + choose(2) * 9;
                    let items: Vec<T> = (1..=n as u64).map(|i| T::make(next + i)).collect();
                    let r = attempt("extend", move || unsafe { &mut *vp }.extend(items));
                    let len = v.len() - m.len();
                    check(len <= n && (r.is_none() || len == n), "extend", || format!("extended by {len}"));
                    m.extend((1..=len as u64).map(|i| next + i));
                    next += n as u64;
                }
                6 => {
                    // Into shared ownership and back.
                    let w = core::mem::take(&mut v);
                    let n = m.len();
                    match attempt("share", move || ArcSlice::from(w)) {
                        Some(s) => {
                            same(&s, &m);
                            v = SVec::try_from(s).ok().unwrap_or_else(|| fail("given-back", "an unshared slice stayed shared".into()));
                        }
                        None => {
                            check(n == 0, "report", || "sharing a vector that has an allocation needed another".into());
                            m.clear();
                        }
                    }
                }
                7 => {
                    let k = choose(3);
                    let Some(mut b) = attempt("boxed slice", || BoxedSlice::<T, A>::with_capacity_in(k, A::default())) else { continue };
                    for i in 0..4u64 {
                        let f = faults_injected();
                        let r = b.try_push(T::make(i));
                        check(r.is_ok() == (i < k as u64) && faults_injected() == f, "push", || format!("element {i} of a boxed slice with room for {k}"));
                    }
                }
                _ => {
                    v.truncate(m.len() / 2);
                    m.truncate(m.len() / 2);
                }
            }
            same(&v, &m);
            if unchanged {
                check(v.as_slice().as_ptr() == start && v.capacity() == cap, "changed", || format!("a refused operation changed the capacity from {cap} to {}", v.capacity()));
            }
            step();
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn owners<T: Elem + Clone, A: IAlloc + Default + Clone>() {
    let b = bounds();
    {
        for _ in 0..b.depth {
            let f = faults_injected();
            match choose(8) {
                0 => match SBox::try_new_in(T::make(1), A::default()) {
                    Ok(b) => {
                        outcome_of("Box::try_new_in", true, f);
                        same(core::slice::from_ref(&*b), &[1]);
                    }
                    Err((t, _a)) => {
                        outcome_of("Box::try_new_in", false, f);
                        same(core::slice::from_ref(&t), &[1]);
                    }
                },
                1 => match Arc::try_new_in(T::make(2), A::default()) {
                    Ok(b) => {
                        outcome_of("Arc::try_new_in", true, f);
                        same(core::slice::from_ref(&*b), &[2]);
                    }
                    Err((t, _a)) => {
                        outcome_of("Arc::try_new_in", false, f);
                        same(core::slice::from_ref(&t), &[2]);
                    }
                },
                2 => {
                    attempt("Box::new_in", || SBox::new_in(T::make(3), A::default()));
                }
                3 => {
                    attempt("Arc::new_in", || Arc::new_in(T::make(3), A::default()));
                }
                op @ 4..=7 => {
                    // Constructors that fail or not, with the captured value in their care.
                    let works = choose(2) == 0;
                    let ran = core::cell::Cell::new(false);
                    let kept = T::make(4);
                    fn hr<T, F: for<'a> FnOnce(&'a mut core::mem::MaybeUninit<T>) -> Result<&'a mut T, ()>>(f: F) -> F {
                        f
                    }
                    let ctor = hr(|slot: &mut core::mem::MaybeUninit<T>| {
                        ran.set(true);
                        if works {
                            let kept = kept.clone();
                            Ok(slot.write(kept))
                        } else {
                            Err(())
                        }
                    });
                    match op {
                        4 => match unsafe { SBox::try_make_in(ctor, A::default()) } {
                            Ok(b) => {
                                outcome_of("Box::try_make_in", true, f);
                                check(works, "constructed", || "a failed constructor made a value".into());
                                same(core::slice::from_ref(&*b), &[4]);
                            }
                            Err(Ok(slot)) => {
                                outcome_of("Box::try_make_in", true, f);
                                check(!works && ran.get(), "constructed", || "a constructor's success was lost".into());
                                drop(slot);
                            }
                            Err(Err((_f, _a))) => {
                                outcome_of("Box::try_make_in", false, f);
                                check(!ran.get(), "constructed", || "the constructor ran without memory".into());
                            }
                        },
                        5 => match unsafe { Arc::try_make_in(ctor, A::default()) } {
                            Ok(b) => {
                                outcome_of("Arc::try_make_in", true, f);
                                check(works, "constructed", || "a failed constructor made a value".into());
                                same(core::slice::from_ref(&*b), &[4]);
                            }
                            Err(Ok(slot)) => {
                                outcome_of("Arc::try_make_in", true, f);
                                check(!works && ran.get(), "constructed", || "a constructor's success was lost".into());
                                drop(slot);
                            }
                            Err(Err((_f, _a))) => {
                                outcome_of("Arc::try_make_in", false, f);
                                check(!ran.get(), "constructed", || "the constructor ran without memory".into());
                            }
                        },
                        6 => match attempt("Box::make_in", || unsafe { SBox::make_in(ctor, A::default()) }) {
                            Some(Ok(b)) => same(core::slice::from_ref(&*b), &[4]),
                            Some(Err(_slot)) => check(!works, "constructed", || "a constructor's success was lost".into()),
                            None => check(!ran.get(), "constructed", || "the constructor ran without memory".into()),
                        },
                        _ => match attempt("Arc::make_in", || unsafe { Arc::make_in(ctor, A::default()) }) {
                            Some(Ok(b)) => same(core::slice::from_ref(&*b), &[4]),
                            Some(Err(_slot)) => check(!works, "constructed", || "a constructor's success was lost".into()),
                            None => check(!ran.get(), "constructed", || "the constructor ran without memory".into()),
                        },
                    }
                }
                _ => unreachable!(),
            }
            step();
        }
        // Copying boxes and making shared values unshared allocate as well.
        if let Some(b) = attempt("Box::new_in", || SBox::new_in(T::make(5), A::default())) {
            if let Some(c) = attempt("Box::clone", || b.clone()) {
                same(core::slice::from_ref(&*c), &[5]);
            }
            same(core::slice::from_ref(&*b), &[5]);
        }
        if let Some(mut a) = attempt("Arc::new_in", || Arc::new_in(T::make(6), A::default())) {
            let other = a.clone();
            let ap: *mut Arc<T, A> = &mut a;
            if attempt("make_mut", move || unsafe { &mut *ap }.make_mut().set(7)).is_some() {
                same(core::slice::from_ref(&*a), &[7]);
            } else {
                same(core::slice::from_ref(&*a), &[6]);
            }
            same(core::slice::from_ref(&*other), &[6]);
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn texts() {
    let b = bounds();
    {
        let mut s = SString::<CkAlloc>::default();
        let mut m = String::new();
        for d in 0..b.depth {
            prune_if_seen(mix(mix(m.len() as u64, faults_injected() as u64), (b.depth - d) as u64));
            let f = faults_injected();
            let start = s.as_str().as_ptr();
            let x = pick(&["", "a", "0123456789", "日本"]);
            match choose(3) {
                0 => {
                    let r = s.try_concat(x);
                    outcome_of("try_concat", r.is_ok(), f);
                    if r.is_ok() {
                        m += x;
                    } else {
                        check(start == s.as_str().as_ptr(), "changed", || "a refused operation moved the text".into());
                    }
                }
                1 => {
                    let sp: *mut SString<CkAlloc> = &mut s;
                    if attempt("+=", move || *unsafe { &mut *sp } += x).is_some() {
                        m += x;
                    }
                }
                _ => {
                    let t = core::mem::take(&mut s);
                    match attempt("+", move || t + x) {
                        Some(t) => {
                            s = t;
                            m += x;
                        }
                        None => m.clear(),
                    }
                }
            }
            check(s.as_str() == m, "contents", || format!("{:?} instead of {m:?}", s.as_str()));
            step();
        }
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
/// The same with the allocator used by default, when the system refuses memory.
fn system() {
    use core::fmt::Write;
    set_alloc_faults(true);
    let b = bounds();
    {
        let mut s = SString::new();
        let mut v = SVec::<P>::new();
        let (mut m, mut n) = (String::new(), 0u64);
        for d in 0..b.depth {
            prune_if_seen(mix(mix(m.len() as u64, v.capacity() as u64), mix(mix(n, faults_injected() as u64), (b.depth - d) as u64)));
            let f = faults_injected();
            match choose(4) {
                0 => {
                    let x = pick(&["a", "0123456789"]);
                    let r = s.write_str(x);
                    outcome_of("write_str", r.is_ok(), f);
                    if r.is_ok() {
                        quiet(|| m += x);
                    }
                }
                1 => match v.try_push(P::new(n)) {
                    Ok(()) => {
                        outcome_of("try_push", true, f);
                        n += 1;
                    }
                    Err(e) => {
                        outcome_of("try_push", false, f);
                        check(e.read() == n, "given-back", || "another element was given back".into());
                    }
                },
                2 => {
                    let r = v.try_reserve(9);
                    outcome_of("try_reserve", r.is_ok(), f);
                }
                _ => match SBox::try_new_in(P::new(1), stabby::alloc::DefaultAllocator::default()) {
                    Ok(_) => outcome_of("Box::try_new_in", true, f),
                    Err(_) => outcome_of("Box::try_new_in", false, f),
                },
            }
            check(s.as_str() == m && v.iter().map(|p| p.read()).eq(0..n), "contents", || "contents differ".into());
            step();
        }
    }
    set_alloc_faults(false);
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn vectors_small() { vectors::<P, CkAlloc>() }
fn vectors_z() { vectors::<P, ZAlloc>() }
fn vectors_aligned() { vectors::<Aligned, CkAlloc>() }
fn vectors_big() { vectors::<Big<20>, ZAlloc>() }
fn owners_small() { owners::<P, CkAlloc>() }
fn owners_z() { owners::<P, ZAlloc>() }
fn owners_aligned() { owners::<Aligned, CkAlloc>() }
fn owners_big() { owners::<Big<20>, ZAlloc>() }

fn main() {
    const B: Bounds = Bounds::SEQ.split(4).faults(3);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: usize, t: usize) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(q)), thorough: B.depth(t).faults(6), body }
    }
    mcrt::main(&Prop {
        id: "C16",
        title: "A refused allocation changes nothing and loses nothing",
        assumptions: &["operations do not depend on the elements' values: states that differ in values only are merged"],
        scenarios: vec![
            s("vectors", "vectors of two-word elements", vectors_small, 8, 20),
            s("vectors-z", "vectors of two-word elements, zero-sized allocator", vectors_z, 8, 20),
            s("vectors-aligned", "vectors of elements aligned to a cache line", vectors_aligned, 8, 20),
            s("vectors-big", "vectors of large elements", vectors_big, 8, 14),
            s("owners", "boxes and shared owners", owners_small, 2, 4),
            s("owners-z", "boxes and shared owners, zero-sized allocator", owners_z, 2, 4),
            s("owners-aligned", "boxes and shared owners of elements aligned to a cache line", owners_aligned, 2, 3),
            s("owners-big", "boxes and shared owners of large elements", owners_big, 2, 3),
            s("texts", "strings", texts, 5, 10),
            s("system", "the allocator used by default, when the system refuses memory", system, 6, 12),
        ],
    })
}
