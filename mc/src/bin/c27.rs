//! C27: stable closures call the closure they were made from.
use mcrt::*;
use stabby::abi::closure::*;
use stabby::abi::vtable::IConstConstructor;
use stabby::alloc::boxed::Box as SBox;
use stabby::alloc::sync::Arc as SArc;
use stabby::{Dyn, DynRef};
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, P};

/// What the closure was called with, and where it keeps what it captured.
#[derive(Clone, Copy, Default)]
struct Call {
    args: [u64; 9],
    held: u64,
    count: u64,
    at: usize,
}
static mut CALLS: (usize, Call) = (0, Call { args: [0; 9], held: 0, count: 0, at: 0 });
#[inline(never)]
fn rec(c: Call) {
    unsafe {
        let calls = &mut *(&raw mut CALLS);
        calls.0 += 1;
        calls.1 = c;
    }
}
#[inline(never)]
fn calls() -> (usize, Call) {
    unsafe { *(&raw const CALLS) }
}
fn norm<T: Elem>(v: u64) -> u64 {
    let t = T::make(v);
    t.val()
}
/// What's returned.
fn digest(c: &Call) -> u64 {
    let mut h = mix(c.held, c.count);
    for a in c.args {
        h = mix(h, a);
    }
    1 + h % 200
}
/// Checks a call that was made, and what it returned.
fn called<R: Elem>(before: usize, want: Call, r: R, at: Option<(usize, usize)>) {
    let (n, c) = calls();
    check(n == before + 1, "calls", || format!("a call led to {} calls", n - before));
    check(c.args == want.args, "arguments", || format!("called with {:?}, received {:?}", want.args, c.args));
    check(c.held == want.held, "captures", || format!("{} was captured, {} is found", want.held, c.held));
    check(c.count == want.count, "state", || format!("call number {} is taken for number {}", want.count, c.count));
    if let Some((a, size)) = at {
        check(size == 0 || (c.at >= a && c.at <= a + size), "captures", || "what was captured is elsewhere".into());
    }
    let got = r.val();
    check(got == norm::<R>(digest(&want)), "result", || format!("{got} was returned"));
}
/// The values captured.
const HELD: u64 = 77;
fn end() {
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
/// Vtables are interned forever, by allocations that aren't any execution's.
fn intern<V: IConstConstructor<'static, T> + 'static, T: 'static>(_: impl Fn() -> T) {
    let _ = <V as IConstConstructor<'static, T>>::vtable();
}
fn size_of_it<T>(t: &T) -> (usize, usize) {
    (t as *const T as usize, core::mem::size_of::<T>())
}

macro_rules! arity {
    ($m: ident $n: literal $once: ident $mutable: ident $shared: ident $($a: ident $T: ty),*) => {
        mod $m {
            use super::*;
            pub type Once<R> = stabby::vtable!(FnOnce($($T),*) -> R);
            pub type Mut<R> = stabby::vtable!(FnMut($($T),*) -> R);
            pub type Shared<R> = stabby::vtable!(Fn($($T),*) -> R);
            pub type Both<R> = stabby::vtable!(Fn($($T),*) -> R + Send + Sync);
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn received($($a: &$T),*) -> [u64; 9] {
                let mut args = [0; 9];
                let mut i = 0;
                $(args[i] = $a.val(); i += 1;)*
                args
            }
            pub fn once<K: Elem, R: Elem>() -> impl FnOnce($($T),*) -> R {
                let k = K::make(HELD);
                move |$($a: $T),*| {
                    let c = Call { args: received($(&$a),*), held: k.val(), count: 1, at: 0 };
                    rec(c);
                    drop(k);
                    $(drop($a);)*
                    R::make(digest(&c))
                }
            }
            pub fn mutable<K: Elem, R: Elem>() -> impl FnMut($($T),*) -> R {
                let mut k = K::make(HELD);
                let mut count = 0u64;
                move |$($a: $T),*| {
                    count += 1;
                    let c = Call { args: received($(&$a),*), held: k.val(), count, at: &k as *const K as usize };
                    k.set(HELD + count);
                    rec(c);
                    R::make(digest(&c))
                }
            }
            pub fn shared<K: Elem, R: Elem>() -> impl Fn($($T),*) -> R {
                let k = K::make(HELD);
                let count = core::cell::Cell::new(0u64);
                move |$($a: $T),*| {
                    count.set(count.get() + 1);
                    let c = Call { args: received($(&$a),*), held: k.val(), count: count.get(), at: &k as *const K as usize };
                    rec(c);
                    R::make(digest(&c))
                }
            }
            /// Captures nothing.
            #[allow(clippy::too_many_arguments)]
            fn function<R: Elem>($($a: $T),*) -> R {
                let c = Call { args: received($(&$a),*), held: 5, count: 6, at: 0 };
                rec(c);
                R::make(digest(&c))
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn expected(k: u64, count: u64, mut v: u64) -> (Call, ($($T,)*)) {
                let mut args = [0; 9];
                let mut i = 0;
                $(
                    v += 1;
                    let $a = <$T as Elem>::make(v);
                    args[i] = Elem::val(&$a);
                    i += 1;
                )*
                (Call { args, held: k, count, at: 0 }, ($($a,)*))
            }
            fn call_once<R: Elem>(d: Dyn<'static, SBox<()>, Once<R>>, held: u64, count: u64) {
                step();
                if choose(2) == 0 {
                    log(|| "dropped".into());
                    let n = calls().0;
                    drop(d);
                    check(calls().0 == n, "calls", || "dropping a closure calls it".into());
                    return;
                }
                let (want, ($($a,)*)) = expected(held, count, 10);
                let n = calls().0;
                let r = d.call_once($($a),*);
                called::<R>(n, want, r, None);
            }
            pub fn run_once<K: Elem, R: Elem>() {
                match choose(2) {
                    0 => call_once::<R>(SBox::new(once::<K, R>()).into(), norm::<K>(HELD), 1),
                    _ => call_once::<R>(SBox::new(function::<R> as fn($($T),*) -> R).into(), 5, 6),
                }
            }
            /// Calls by mutable reference, then drops.
            macro_rules! calls_mut {
                ($d: expr, $at: expr, $K: ty, $R: ty) => {{
                    let mut d = $d;
                    let at = $at;
                    let n = choose(bounds().depth + 1) as u64;
                    for i in 1..=n {
                        let held = norm::<$K>(if i == 1 { HELD } else { HELD + i - 1 });
                        let (want, ($($a,)*)) = expected(held, i, 10 * i);
                        let before = calls().0;
                        let r = d.call_mut($($a),*);
                        called::<$R>(before, want, r, at);
                        step();
                    }
                    let before = calls().0;
                    drop(d);
                    check(calls().0 == before, "calls", || "dropping a closure calls it".into());
                }};
            }
            pub fn run_mut<K: Elem, R: Elem>() {
                match choose(4) {
                    0 => {
                        let b = SBox::new(mutable::<K, R>());
                        let at = size_of_it(&*b);
                        calls_mut!(Dyn::<'static, SBox<()>, Mut<R>>::from(b), Some(at), K, R)
                    }
                    1 => {
                        let b = SBox::new_in(mutable::<K, R>(), CkAlloc::make());
                        let at = size_of_it(&*b);
                        calls_mut!(Dyn::<'static, SBox<(), CkAlloc>, Mut<R>>::from(b), Some(at), K, R)
                    }
                    2 => {
                        let b = Box::into_raw(Box::new(mutable::<K, R>()));
                        let at = size_of_it(unsafe { &*b });
                        calls_mut!(Dyn::<'static, &'static mut (), Mut<R>>::from(unsafe { &mut *b }), Some(at), K, R);
                        drop(unsafe { Box::from_raw(b) });
                    }
                    _ => {
                        // (What can be called by shared reference can be called by mutable reference.)
                        let mut d = Dyn::<'static, SBox<()>, Mut<R>>::from(SBox::new(function::<R> as fn($($T),*) -> R));
                        let (want, ($($a,)*)) = expected(5, 6, 30);
                        let before = calls().0;
                        let r = d.call_mut($($a),*);
                        called::<R>(before, want, r, None);
                        step();
                    }
                }
            }
            macro_rules! calls_shared {
                ($d: expr, $more: expr, $at: expr, $K: ty, $R: ty) => {{
                    let mut all = quiet(|| Vec::with_capacity(4));
                    all.push($d);
                    let mut count = 0;
                    let held = norm::<$K>(HELD);
                    for _ in 0..bounds().depth {
                        if all.is_empty() {
                            break;
                        }
                        let i = choose(all.len());
                        match choose(4) {
                            0 => {
                                count += 1;
                                let (want, ($($a,)*)) = expected(held, count, 10 * count);
                                let before = calls().0;
                                let r = all[i].call($($a),*);
                                called::<$R>(before, want, r, Some($at));
                            }
                            1 => {
                                // Through a reference to it.
                                count += 1;
                                let (want, ($($a,)*)) = expected(held, count, 10 * count);
                                let before = calls().0;
                                let r = all[i].as_ref().call($($a),*);
                                called::<$R>(before, want, r, Some($at));
                            }
                            2 => {
                                if all.len() == 3 {
                                    discard();
                                }
                                let more = $more(&all[i]);
                                if let Some(more) = more { all.push(more) } else { discard() }
                            }
                            _ => drop(all.swap_remove(i)),
                        }
                        step();
                    }
                    let before = calls().0;
                    all.clear();
                    quiet(|| drop(all));
                    check(calls().0 == before, "calls", || "dropping a closure calls it".into());
                }};
            }
            pub fn run_shared<K: Elem, R: Elem>() {
                match choose(5) {
                    0 => {
                        let b = SBox::new(shared::<K, R>());
                        let at = size_of_it(&*b);
                        calls_shared!(Dyn::<'static, SBox<()>, Shared<R>>::from(b), |_: &Dyn<'static, SBox<()>, Shared<R>>| None, at, K, R)
                    }
                    1 => {
                        let b = SArc::new(shared::<K, R>());
                        let at = size_of_it(&*b);
                        calls_shared!(Dyn::<'static, SArc<()>, Shared<R>>::from(b), |d: &Dyn<'static, SArc<()>, Shared<R>>| Some(d.clone()), at, K, R)
                    }
                    2 => {
                        let b = SArc::new_in(shared::<K, R>(), CkAlloc::make());
                        let at = size_of_it(&*b);
                        calls_shared!(Dyn::<'static, SArc<(), CkAlloc>, Shared<R>>::from(b), |d: &Dyn<'static, SArc<(), CkAlloc>, Shared<R>>| Some(d.clone()), at, K, R)
                    }
                    3 => {
                        let b = Box::into_raw(Box::new(shared::<K, R>()));
                        let d = DynRef::<'static, Shared<R>>::from(unsafe { &*b });
                        let n = choose(bounds().depth + 1) as u64;
                        for i in 1..=n {
                            let (want, ($($a,)*)) = expected(norm::<K>(HELD), i, 10 * i);
                            let before = calls().0;
                            let copy = d;
                            let r = if i % 2 == 0 { copy.call($($a),*) } else { d.call($($a),*) };
                            called::<R>(before, want, r, Some(size_of_it(unsafe { &*b })));
                            step();
                        }
                        drop(unsafe { Box::from_raw(b) });
                    }
                    _ => {
                        let d = Dyn::<'static, SArc<()>, Shared<R>>::from(SArc::new(function::<R> as fn($($T),*) -> R));
                        let (want, ($($a,)*)) = expected(5, 6, 30);
                        let before = calls().0;
                        let r = d.call($($a),*);
                        called::<R>(before, want, r, None);
                        step();
                    }
                }
            }
            pub fn warm<K: Elem, R: Elem>() {
                intern::<Once<R>, _>(once::<K, R>);
                intern::<Mut<R>, _>(mutable::<K, R>);
                intern::<Shared<R>, _>(shared::<K, R>);
                let f = || function::<R> as fn($($T),*) -> R;
                intern::<Once<R>, _>(f);
                intern::<Mut<R>, _>(f);
                intern::<Shared<R>, _>(f);
            }
        }
    };
}
use core::num::NonZeroU8;
arity!(a0 0 CallOnce0 CallMut0 Call0);
arity!(a1 1 CallOnce1 CallMut1 Call1 a P);
arity!(a2 2 CallOnce2 CallMut2 Call2 a u8, b P);
arity!(a3 3 CallOnce3 CallMut3 Call3 a P, b u8, c Wide);
arity!(a4 4 CallOnce4 CallMut4 Call4 a Wide, b P, c u8, d u8);
arity!(a5 5 CallOnce5 CallMut5 Call5 a u8, b Nz, c P, d Aligned16, e u8);
arity!(a6 6 CallOnce6 CallMut6 Call6 a P, b P, c P, d P, e P, f P);
arity!(a7 7 CallOnce7 CallMut7 Call7 a u8, b u8, c u8, d u8, e u8, f NonZeroU8, g P);
arity!(a8 8 CallOnce8 CallMut8 Call8 a P, b u8, c SBox<P>, d Wide, e u8, f NonZeroU8, g P, h P);
arity!(a9 9 CallOnce9 CallMut9 Call9 a u8, b P, c u8, d P, e Aligned, f u8, g Nz, h P, i u8);

/// What's captured and what's returned.
macro_rules! kinds {
    ($f: ident $m: ident) => {
        match choose(6) {
            0 => $m::$f::<P, P>(),
            1 => $m::$f::<Zst, u8>(),
            2 => $m::$f::<Aligned, Wide>(),
            3 => $m::$f::<Wide, Zst>(),
            4 => $m::$f::<u8, Aligned>(),
            _ => $m::$f::<Nz, NonZeroU8>(),
        }
    };
}
macro_rules! all {
    ($f: ident) => {{
        unsafe { CALLS.0 = 0 };
        Zst::begin();
        let n = choose(10);
        log(|| format!("{n} arguments"));
        match n {
            0 => kinds!($f a0),
            1 => kinds!($f a1),
            2 => kinds!($f a2),
            3 => kinds!($f a3),
            4 => kinds!($f a4),
            5 => kinds!($f a5),
            6 => kinds!($f a6),
            7 => kinds!($f a7),
            8 => kinds!($f a8),
            _ => kinds!($f a9),
        }
        Zst::finish();
        end();
    }};
}
macro_rules! warm {
    ($($m: ident)*) => {
        $(
            $m::warm::<P, P>();
            $m::warm::<Zst, u8>();
            $m::warm::<Aligned, Wide>();
            $m::warm::<Wide, Zst>();
            $m::warm::<u8, Aligned>();
            $m::warm::<Nz, NonZeroU8>();
        )*
    };
}

// ---------------------------------------------------------------- threads
type Both = stabby::vtable!(Fn(u8) -> P + Send + Sync);
fn counter() -> impl Fn(u8) -> P {
    let k = P::new(HELD);
    let n = core::sync::atomic::AtomicU64::new(0);
    move |x| {
        check(k.read() == HELD, "captures", || "what was captured is lost".into());
        let i = n.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        P::new(1 + x as u64 * 10 + i)
    }
}
fn threads(n: usize) {
    let d = Dyn::<'static, SArc<()>, Both>::from(SArc::new(counter()));
    let last = choose(2) == 0;
    let h: &'static [core::cell::Cell<u64>] = quiet(|| Box::leak((0..2 * n).map(|_| core::cell::Cell::new(u64::MAX)).collect::<Vec<_>>().into_boxed_slice()));
    struct Cells(&'static [core::cell::Cell<u64>]);
    unsafe impl Send for Cells {}
    let mut fs: Vec<Box<dyn FnOnce()>> = quiet(|| Vec::with_capacity(4));
    let times = bounds().depth;
    for t in 0..n {
        let d = d.clone();
        let h = Cells(h);
        fs.push(Box::new(move || {
            let h = h;
            for i in 0..times {
                let p = d.call(t as u8 + 1);
                let v = p.read();
                check(v / 10 == t as u64 + 1, "result", || "a call returns what's for another".into());
                h.0[t * times + i].set(v % 10);
            }
        }));
    }
    if last {
        drop(d);
        par(fs);
    } else {
        par(fs);
        drop(d);
    }
    let mut seen = 0u64;
    for c in &h[..n * times] {
        check(c.get() <= 8, "calls", || "a call is lost".into());
        let bit = 1u64 << (c.get() - 1);
        check(seen & bit == 0, "state", || "two calls found the same state".into());
        seen |= bit;
    }
    check(seen == (1 << (n * times)) - 1, "state", || "state was lost".into());
    end();
}

fn main() {
    warm!(a0 a1 a2 a3 a4 a5 a6 a7 a8 a9);
    intern::<Both, _>(counter);
    const B: Bounds = Bounds::SEQ.split(4).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: usize, t: usize) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(q)), thorough: B.depth(t), body }
    }
    mcrt::main(&Prop {
        id: "C27",
        title: "Stable closures call the closure they were made from",
        assumptions: &["closures that unwind abort (they are extern \"C\" functions) and are not explored", "6 pairs of captured and returned types, and one list of argument types per arity, are representative"],
        scenarios: vec![
            s("once", "closures that may be called once", || all!(run_once), 1, 1),
            s("mut", "closures called by mutable reference", || all!(run_mut), 6, 12),
            s("shared", "closures called by shared reference, through clones too", || all!(run_shared), 5, 6),
            Scenario { name: "threads-two", about: "a closure called by two threads", quick: Some(Bounds::CONC.split(4).faults(0).depth(2)), thorough: Bounds::CONC.split(4).faults(0).depth(4), body: || threads(2) },
            Scenario { name: "threads-three", about: "a closure called by three threads", quick: Some(Bounds::CONC.split(4).faults(0).depth(1).preempt(2)), thorough: Bounds::CONC.split(4).faults(0).depth(2).preempt(2), body: || threads(3) },
        ],
    })
}
