//! C25: trait objects reach the value they were made from, with its table, until they destroy it.
use mcrt::*;
use stabby::abi::alloc::IAlloc;
use stabby::abi::vtable::IConstConstructor;
use stabby::alloc::boxed::Box as SBox;
use stabby::alloc::sync::{Arc as SArc, Weak as SWeak};
use stabby::abi::num::NonXU8;
use stabby::abi::vtable::AnyDyn;
use stabby::{Dyn, DynRef};
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, P};

/// What a method was called with.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Call {
    tag: u64,
    this: usize,
    method: u64,
    args: [u64; 3],
}
static mut CALLS: ([Call; 4], usize) = ([Call { tag: 0, this: 0, method: 0, args: [0; 3] }; 4], 0);
#[inline(never)]
fn rec<T: Val>(this: &T, method: u64, args: [u64; 3]) -> u64 {
    let v = this.val();
    let c = Call { tag: T::TAG, this: this as *const T as usize, method, args };
    unsafe {
        let calls = &mut *core::ptr::addr_of_mut!(CALLS);
        if calls.1 < 4 {
            calls.0[calls.1] = c;
        }
        calls.1 += 1;
    }
    result(T::TAG, v, method, args)
}
fn result(tag: u64, v: u64, method: u64, a: [u64; 3]) -> u64 {
    mix(mix(mix(tag, v), method), mix(mix(a[0], a[1]), a[2]))
}
fn called() -> usize {
    unsafe { (*core::ptr::addr_of!(CALLS)).1 }
}

/// The values trait objects are made of.
trait Val: Elem + stabby::IStable + Send + Sync {
    const TAG: u64;
    /// What's read from it after writing `v`.
    fn norm(v: u64) -> u64 {
        let t = Self::make(v);
        t.val()
    }
}
macro_rules! for_types {
    ($m: ident ($($a: tt)*)) => {
        $m! { ($($a)*) (P)(1) (u8)(2) (Aligned)(3) (Aligned16)(4) (Zst)(5) (Nz)(6) (Wide)(7) (other::Wide)(8) (NonXU8<3>)(9) (NonXU8<4>)(10) }
    };
}
const TYPES: u64 = 10;
macro_rules! vals {
    (() $(($($t: tt)*) ($tag: literal))*) => {
        $(impl Val for $($t)* {
            const TAG: u64 = $tag;
        })*
    };
}
for_types!(vals());

mod other {
    use super::*;
    /// Same name and fields, elsewhere.
    #[stabby::stabby]
    #[derive(Clone)]
    pub struct Wide {
        a: u64,
        w: [u64; 4],
        b: u64,
    }
    impl Elem for Wide {
        const NAME: &'static str = "other::Wide";
        fn make(v: u64) -> Self {
            Wide { a: v, w: [v; 4], b: obj_new() as u64 }
        }
        fn val(&self) -> u64 {
            aligned(self);
            obj_use(self.b as u32);
            self.a + self.w[0] - self.w[3]
        }
        fn set(&mut self, v: u64) {
            self.a = v
        }
    }
    impl Drop for Wide {
        fn drop(&mut self) {
            obj_drop(self.b as u32)
        }
    }
}

#[stabby::stabby]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Trio {
    b: u64,
    c: u16,
    a: u8,
}
#[stabby::stabby(checked)]
pub trait A {
    extern "C" fn a_get(&self, x: u64, y: u8) -> u64;
    extern "C" fn a_other(&self) -> u64;
    extern "C" fn a_set(&mut self, v: u64) -> u64;
    extern "C" fn a_add(&mut self, v: u8, w: u64) -> u64;
}
#[stabby::stabby(checked)]
pub trait B {
    extern "C" fn b_set(&mut self, v: u64);
    extern "C" fn b_args(&self, t: Trio, z: u8) -> Trio;
    extern "C" fn b_ref<'a>(&'a self, with: &'a u64) -> &'a u64;
    extern "C" fn b_swap(&mut self, p: P) -> P;
    extern "C" fn b_many(&self, a: u64, b: u8, c: u64, d: u16, e: u64, f: u64, g: u32, h: u64) -> u64;
}
#[stabby::stabby]
pub trait G<X> {
    type Out;
    extern "C" fn g(&self, x: X) -> Self::Out;
    extern "C" fn g_mut(&mut self, o: Self::Out, x: X) -> Self::Out;
}
impl<T: Val> A for T {
    extern "C" fn a_get(&self, x: u64, y: u8) -> u64 {
        rec(self, 1, [x, y as u64, 0])
    }
    extern "C" fn a_other(&self) -> u64 {
        rec(self, 2, [0; 3])
    }
    extern "C" fn a_set(&mut self, v: u64) -> u64 {
        let r = rec(self, 3, [v, 0, 0]);
        self.set(v);
        r
    }
    extern "C" fn a_add(&mut self, v: u8, w: u64) -> u64 {
        let r = rec(self, 4, [v as u64, w, 0]);
        self.set(v as u64 + w);
        r
    }
}
impl<T: Val> B for T {
    extern "C" fn b_set(&mut self, v: u64) {
        rec(self, 5, [v, 0, 0]);
        self.set(v)
    }
    extern "C" fn b_args(&self, t: Trio, z: u8) -> Trio {
        let b = rec(self, 6, [t.a as u64 + ((z as u64) << 8), t.b, t.c as u64]);
        Trio { a: z, b, c: t.a as u16 }
    }
    extern "C" fn b_ref<'a>(&'a self, with: &'a u64) -> &'a u64 {
        rec(self, 7, [*with, 0, 0]);
        with
    }
    extern "C" fn b_swap(&mut self, p: P) -> P {
        let v = p.read();
        let r = rec(self, 8, [v, 0, 0]);
        self.set(v);
        P::new(r)
    }
    extern "C" fn b_many(&self, a: u64, b: u8, c: u64, d: u16, e: u64, f: u64, g: u32, h: u64) -> u64 {
        rec(self, 9, [mix(a, mix(b as u64, c)), mix(d as u64, mix(e, f)), mix(g as u64, h)])
    }
}
impl<T: Val> G<u8> for T {
    type Out = u64;
    extern "C" fn g(&self, x: u8) -> u64 {
        rec(self, 10, [x as u64, 0, 0])
    }
    extern "C" fn g_mut(&mut self, o: u64, x: u8) -> u64 {
        let r = rec(self, 11, [o, x as u64, 0]);
        self.set(o);
        r
    }
}
impl<T: Val> G<u32> for T {
    type Out = P;
    extern "C" fn g(&self, x: u32) -> P {
        P::new(rec(self, 12, [x as u64, 0, 0]))
    }
    extern "C" fn g_mut(&mut self, o: P, x: u32) -> P {
        let v = o.read();
        let r = rec(self, 13, [v, x as u64, 0]);
        self.set(v);
        P::new(r)
    }
}

/// The value behind a trait object.
#[derive(Clone, Copy)]
struct Want {
    tag: u64,
    at: usize,
    v: u64,
    norm: fn(u64) -> u64,
    left: usize,
    owners: usize,
    read: fn(usize) -> u64,
}
impl Want {
    fn peek(&self) {
        let v = (self.read)(self.at);
        check(v == self.v, "contents", || format!("the value is {v} instead of {}", self.v))
    }
    fn expect(&self, before: usize, method: u64, args: [u64; 3]) -> u64 {
        let n = called() - before;
        check(n == 1, "calls", || format!("method {method} reached the value {n} times"));
        let got = unsafe { (*core::ptr::addr_of!(CALLS)).0[before] };
        unsafe { (*core::ptr::addr_of_mut!(CALLS)).1 = 0 };
        let want = Call { tag: self.tag, this: self.at, method, args };
        check(got == want, "dispatch", || format!("the call was {got:?} instead of {want:?}"));
        result(self.tag, self.v, method, args)
    }
    fn set(&mut self, v: u64) {
        self.v = (self.norm)(v)
    }
}
fn result_is(got: u64, want: u64) {
    check(got == want, "result", || format!("the result is {got:#x} instead of {want:#x}"))
}
const XS: [u64; 2] = [0x1122334455667788, 5];
fn a_calls<N>(d: &impl ADyn<N>, w: &Want) {
    let n = called();
    match choose(2) {
        0 => {
            let (x, y) = (pick(&XS), 0xFE);
            result_is(d.a_get(x, y), w.expect(n, 1, [x, y as u64, 0]))
        }
        _ => result_is(d.a_other(), w.expect(n, 2, [0; 3])),
    }
}
fn a_muts<N>(d: &mut impl ADynMut<N>, w: &mut Want) {
    let n = called();
    let x = pick(&XS);
    match choose(2) {
        0 => {
            result_is(d.a_set(x), w.expect(n, 3, [x, 0, 0]));
            w.set(x)
        }
        _ => {
            result_is(d.a_add(9, x), w.expect(n, 4, [9, x, 0]));
            w.set(x + 9)
        }
    }
}
fn b_calls<N>(d: &impl BDyn<N>, w: &Want) {
    let n = called();
    match choose(3) {
        0 => {
            let t = Trio { a: 3, b: pick(&XS), c: 0x8001 };
            let got = d.b_args(t, 0xFD);
            let b = w.expect(n, 6, [3 + (0xFD << 8), t.b, t.c as u64]);
            let want = Trio { a: 0xFD, b, c: 3 };
            check(got == want, "result", || format!("the result is {got:?} instead of {want:?}"));
        }
        1 => {
            let x = 77;
            let got = d.b_ref(&x);
            w.expect(n, 7, [x, 0, 0]);
            check(core::ptr::eq(got, &x), "result", || "another reference came back".into());
        }
        _ => result_is(
            d.b_many(1, 2, 3, 4, 5, 6, 7, u64::MAX),
            w.expect(n, 9, [mix(1, mix(2, 3)), mix(4, mix(5, 6)), mix(7, u64::MAX)]),
        ),
    }
}
fn b_muts<N>(d: &mut impl BDynMut<N>, w: &mut Want) {
    let n = called();
    let x = pick(&XS);
    match choose(2) {
        0 => {
            d.b_set(x);
            w.expect(n, 5, [x, 0, 0]);
        }
        _ => {
            let p = d.b_swap(P::new(x));
            result_is(p.read(), w.expect(n, 8, [x, 0, 0]))
        }
    }
    w.set(x)
}
fn g_calls<N>(d: &impl GDyn<N, u64, u8, Out = u64>, w: &Want) {
    let n = called();
    result_is(d.g(4), w.expect(n, 10, [4, 0, 0]))
}
fn g_muts<N>(d: &mut impl GDynMut<N, u64, u8, Out = u64>, w: &mut Want) {
    let n = called();
    let x = pick(&XS);
    result_is(d.g_mut(x, 6), w.expect(n, 11, [x, 6, 0]));
    w.set(x)
}
fn h_calls<N>(d: &impl GDyn<N, P, u32, Out = P>, w: &Want) {
    let n = called();
    result_is(d.g(1 << 31).read(), w.expect(n, 12, [1 << 31, 0, 0]))
}
fn h_muts<N>(d: &mut impl GDynMut<N, P, u32, Out = P>, w: &mut Want) {
    let n = called();
    let x = pick(&XS);
    result_is(d.g_mut(P::new(x), 7).read(), w.expect(n, 13, [x, 7, 0]));
    w.set(x)
}
/// Whatever came of a downcast to type number `tag`.
fn got<T: Val>(w: &Want, got: Option<&T>, must: bool) {
    match got {
        None => check(!(must && T::TAG == w.tag), "downcast", || format!("refused to take a {} back", T::NAME)),
        Some(t) => {
            check(T::TAG == w.tag, "downcast", || format!("type number {} was taken for a {}", w.tag, T::NAME));
            check(t as *const T as usize == w.at, "downcast", || format!("downcasting to {} yields another place", T::NAME));
            let v = t.val();
            check(v == w.v, "downcast", || format!("downcasting to {} yields {v} instead of {}", T::NAME, w.v));
        }
    }
}
fn y_calls<N>(d: &impl AnyDyn<N>, w: &Want) {
    macro_rules! id {
        (() $(($($t: tt)*) ($tag: literal))*) => {
            $(if w.tag == $tag {
                check(d.id() == <$($t)* as stabby::IStable>::ID, "any", || "another type's id".into());
                check(d.report() == <$($t)* as stabby::IStable>::REPORT, "any", || "another type's report".into());
            })*
        };
    }
    for_types!(id());
}

/// Kinds of pointers.
trait Kind: stabby::abi::IPtrOwned + stabby::abi::IPtr + stabby::abi::IPtrTryAsMut + Sized + 'static {
    const SHARED: bool = false;
    fn direct<'a, V: stabby::abi::vtable::HasDropVt + 'static>(_: &'a mut Dyn<'static, Self, V>) -> Option<Dyn<'a, &'a mut (), V>> {
        None
    }
    fn dup<V: stabby::abi::vtable::HasDropVt + stabby::IStable + 'static>(_: &Dyn<'static, Self, V>) -> Option<Dyn<'static, Self, V>> {
        None
    }
    /// A weak handle: upgrades when called, if the value is still alive.
    fn weak<V: stabby::abi::vtable::HasDropVt + stabby::IStable + 'static>(_: &Dyn<'static, Self, V>) -> Option<Box<dyn FnOnce() -> Option<Dyn<'static, Self, V>>>> {
        None
    }
}
impl Kind for &'static mut () {
    fn direct<'a, V: stabby::abi::vtable::HasDropVt + 'static>(d: &'a mut Dyn<'static, Self, V>) -> Option<Dyn<'a, &'a mut (), V>> {
        Some(d.as_mut())
    }
}
impl<Al: IAlloc + 'static> Kind for SBox<(), Al> {
    fn direct<'a, V: stabby::abi::vtable::HasDropVt + 'static>(d: &'a mut Dyn<'static, Self, V>) -> Option<Dyn<'a, &'a mut (), V>> {
        Some(d.as_mut())
    }
}
impl<Al: IAlloc + Clone + 'static> Kind for SArc<(), Al> {
    const SHARED: bool = true;
    fn dup<V: stabby::abi::vtable::HasDropVt + stabby::IStable + 'static>(d: &Dyn<'static, Self, V>) -> Option<Dyn<'static, Self, V>> {
        Some(d.clone())
    }
    fn weak<V: stabby::abi::vtable::HasDropVt + stabby::IStable + 'static>(d: &Dyn<'static, Self, V>) -> Option<Box<dyn FnOnce() -> Option<Dyn<'static, Self, V>>>> {
        type Weak<V, Al> = Dyn<'static, SWeak<(), Al>, V>;
        // The value has no lifetime.
        let d = unsafe { core::mem::transmute::<&Dyn<'static, Self, V>, &'static Dyn<'static, Self, V>>(d) };
        let mut weak: Weak<V, Al> = d.into();
        let clone = weak.clone();
        weak = clone;
        Some(Box::new(move || weak.upgrade().into()))
    }
}
/// The objects of each interface set.
trait Level {
    type V: Copy + stabby::abi::vtable::HasDropVt + stabby::IStable + 'static;
    fn go<K: Kind>(o: Dyn<'static, K, Self::V>, w: &mut Want);
    fn go_ref(o: DynRef<'static, Self::V>, w: &mut Want);
}
macro_rules! level {
    ($L: ident $V: ty, ref [$($c: ident),*], mut [$($m: ident),*], any [$($any: ident)?], down [$($down: ident)?], super [$($S: ident),*]) => {
        struct $L;
        impl Level for $L {
            type V = $V;
            fn go<K: Kind>(mut this: Dyn<'static, K, $V>, w: &mut Want) {
                while w.left > 0 {
                    w.left -= 1;
                    let ups = level!(@count $($S)*);
                    match choose(4 + (ups != 0) as usize + K::SHARED as usize) {
                        0 => {
                            let mut i = choose((level!(@count $($c)*)).max(1));
                            log(|| format!("direct call to {i} of {}", stringify!([$($c),*])));
                            let o = &this;
                            $(if i == 0 { $c(o, w); step(); continue } i = i.wrapping_sub(1);)*
                            let _ = (i, o);
                        }
                        1 => {
                            let mut i = choose((level!(@count $($c)*)).max(1));
                            log(|| format!("call through a reborrow to {i} of {}", stringify!([$($c),*])));
                            let r = this.as_ref();
                            let o = &r.clone();
                            $(if i == 0 { $c(o, w); step(); continue } i = i.wrapping_sub(1);)*
                            let _ = (i, o);
                        }
                        2 => {
                            log(|| "mutably".into());
                            let alone = w.owners == 1;
                            let m = if choose(2) == 0 { this.try_as_mut() } else { K::direct(&mut this) };
                            match m {
                                None => check(!alone || K::SHARED, "reborrow", || "refused to be borrowed mutably".into()),
                                Some(mut m) => {
                                    check(alone, "reborrow", || "a shared value was borrowed mutably".into());
                                    let mut i = choose((level!(@count $($m)*)).max(1));
                                    let mut o = m.as_mut();
                                    $(if i == 0 { $m(&mut o, w); step(); continue } i = i.wrapping_sub(1);)*
                                    let _ = (i, &mut o);
                                }
                            }
                        }
                        3 => {
                            $({ let _ = stringify!($any); log(|| "downcast".into());
                                for_types!(any_down(this w)); })?
                            $({ let _ = stringify!($down);
                                for_types!(unsafe_down(this w)); })?
                        }
                        4 if ups != 0 => {
                            let mut i = choose(ups);
                            log(|| format!("into {i} of {}", stringify!([$($S),*])));
                            step();
                            $(if i == 0 {
                                let s: Dyn<'static, K, <$S as Level>::V> = this.into_super();
                                return $S::go(s, w)
                            } i = i.wrapping_sub(1);)*
                            let _ = i;
                        }
                        _ => {
                            let d = if choose(2) == 0 {
                                log(|| "clone".into());
                                K::dup(&this)
                            } else {
                                log(|| "downgrade and upgrade".into());
                                let d = K::weak(&this).map(|weak| {
                                    if w.owners == 1 {
                                        check(this.try_as_mut().is_none(), "reborrow", || "a value with a weak owner was borrowed mutably".into());
                                    }
                                    weak()
                                });
                                check(!matches!(d, Some(None)), "upgrade", || "refused though the value has an owner".into());
                                d.flatten()
                            };
                            if let Some(mut d) = d {
                                w.owners += 1;
                                if choose(2) == 0 {
                                    core::mem::swap(&mut d, &mut this);
                                }
                                step();
                                let mut inner = *w;
                                Self::go(d, &mut inner);
                                w.left = inner.left;
                                w.owners -= 1;
                                continue;
                            }
                        }
                    }
                    step();
                    w.peek();
                }
                w.peek();
                if K::SHARED && choose(2) == 1 {
                    log(|| "a weak handle survives this".into());
                    let weak = K::weak(&this).unwrap();
                    drop(this);
                    step();
                    let d = weak();
                    check(d.is_some() == (w.owners > 1), "upgrade", || format!("upgraded {} though there are {} owners", d.is_some(), w.owners - 1));
                    if let Some(d) = &d {
                        check(d.as_ref().ptr() as *const () as usize == w.at, "upgrade", || "upgraded to another value".into());
                        w.peek();
                    }
                    return;
                }
                drop(this)
            }
            fn go_ref(this: DynRef<'static, $V>, w: &mut Want) {
                while w.left > 0 {
                    w.left -= 1;
                    let ups = level!(@count $($S)*);
                    match choose(2 + (ups != 0) as usize) {
                        0 => {
                            let mut i = choose((level!(@count $($c)*)).max(1));
                            let o = &this;
                            $(if i == 0 { $c(o, w); step(); continue } i = i.wrapping_sub(1);)*
                            let _ = (i, o);
                        }
                        1 => {
                            $({ let _ = stringify!($any); for_types!(ref_any_down(this w)); })?
                            $({ let _ = stringify!($down); for_types!(ref_down(this w)); })?
                        }
                        _ => {
                            let mut i = choose(ups);
                            $(if i == 0 {
                                let s: DynRef<'static, <$S as Level>::V> = this.into_super();
                                return $S::go_ref(s, w)
                            } i = i.wrapping_sub(1);)*
                            let _ = i;
                        }
                    }
                    step();
                }
            }
        }
    };
    (@count) => { 0usize };
    (@count $h: tt $($t: tt)*) => { 1usize + level!(@count $($t)*) };
}
macro_rules! any_down {
    (($self: ident $w: ident) $(($($t: tt)*) ($tag: literal))*) => {
        $(got::<$($t)*>($w, $self.stable_downcast_ref::<$($t)*, _>(), true);)*
        let alone = $w.owners == 1;
        if let (true, Some(mut m)) = (alone, $self.try_as_mut()) {
            $(got::<$($t)*>($w, m.stable_downcast_mut::<$($t)*, _>().map(|t| &*t), true);)*
        }
    };
}
macro_rules! unsafe_down {
    (($self: ident $w: ident) $(($($t: tt)*) ($tag: literal))*) => {
        $(got::<$($t)*>($w, unsafe { $self.downcast_ref::<$($t)*>() }, false);)*
    };
}
macro_rules! ref_any_down {
    (($self: ident $w: ident) $(($($t: tt)*) ($tag: literal))*) => {
        $(got::<$($t)*>($w, $self.stable_downcast::<$($t)*, _>(), true);)*
    };
}
macro_rules! ref_down {
    (($self: ident $w: ident) $(($($t: tt)*) ($tag: literal))*) => {
        $(got::<$($t)*>($w, unsafe { $self.downcast::<$($t)*>() }, false);)*
    };
}

type VA = stabby::vtable!(A);
type VB = stabby::vtable!(A + B);
type VY = stabby::vtable!(A + B + stabby::Any);
type VG = stabby::vtable!(A + B + stabby::Any + G<u8, Out = u64>);
type VGS = stabby::vtable!(A + B + stabby::Any + G<u8, Out = u64> + Send);
type VGY = stabby::vtable!(A + B + stabby::Any + G<u8, Out = u64> + Sync);
type VGSY = stabby::vtable!(A + B + stabby::Any + G<u8, Out = u64> + Send + Sync);
type VYSY = stabby::vtable!(A + B + stabby::Any + Send + Sync);
type VGYS = stabby::vtable!(A + B + stabby::Any + G<u8, Out = u64> + Sync + Send);
type VYYS = stabby::vtable!(A + B + stabby::Any + Sync + Send);
type VD = stabby::abi::vtable::VtDrop;
type Mix = stabby::vtable!(Send + B + Sync + A);
type Mix1 = stabby::vtable!(Send + B + Sync);
type Mix2 = stabby::vtable!(Send + B);
type Mix3 = stabby::vtable!(Send);
type GG = stabby::vtable!(stabby::Any + G<u32, Out = P> + G<u8, Out = u64> + B);
type GG1 = stabby::vtable!(stabby::Any + G<u32, Out = P> + G<u8, Out = u64>);
type GG2 = stabby::vtable!(stabby::Any + G<u32, Out = P>);
type GG3 = stabby::vtable!(stabby::Any);

level!(LVD VD, ref [], mut [], any [], down [], super []);
level!(LVA VA, ref [a_calls], mut [a_muts], any [], down [d], super [LVD]);
level!(LVB VB, ref [a_calls, b_calls], mut [a_muts, b_muts], any [], down [d], super [LVA]);
level!(LVY VY, ref [a_calls, b_calls, y_calls], mut [a_muts, b_muts], any [y], down [d], super [LVB]);
level!(LVG VG, ref [a_calls, b_calls, y_calls, g_calls], mut [a_muts, b_muts, g_muts], any [y], down [d], super [LVY]);
level!(LVGS VGS, ref [a_calls, b_calls, y_calls, g_calls], mut [a_muts, b_muts, g_muts], any [y], down [d], super [LVG, LVY]);
level!(LVGY VGY, ref [a_calls, b_calls, y_calls, g_calls], mut [a_muts, b_muts, g_muts], any [y], down [d], super [LVG, LVY]);
level!(LVGSY VGSY, ref [a_calls, b_calls, y_calls, g_calls], mut [a_muts, b_muts, g_muts], any [y], down [d], super [LVGS, LVG, LVGY, LVYSY, LVY]);
level!(LVGYS VGYS, ref [a_calls, b_calls, y_calls, g_calls], mut [a_muts, b_muts, g_muts], any [y], down [d], super [LVGS, LVG, LVGY, LVYYS, LVY]);
level!(LVYSY VYSY, ref [a_calls, b_calls, y_calls], mut [a_muts, b_muts], any [y], down [d], super [LVY, LVB]);
level!(LVYYS VYYS, ref [a_calls, b_calls, y_calls], mut [a_muts, b_muts], any [y], down [d], super [LVY, LVB]);
level!(LMix Mix, ref [a_calls, b_calls], mut [a_muts, b_muts], any [], down [d], super [LMix1]);
level!(LMix1 Mix1, ref [b_calls], mut [b_muts], any [], down [d], super [LMix2, LSMix3, LMix3]);
level!(LMix2 Mix2, ref [b_calls], mut [b_muts], any [], down [d], super [LMix3]);
level!(LMix3 Mix3, ref [], mut [], any [], down [], super [LVD]);
level!(LSMix3 stabby::abi::vtable::VtSync<Mix3>, ref [], mut [], any [], down [], super [LVD, LMix3]);
level!(LGG GG, ref [b_calls, y_calls, g_calls, h_calls], mut [b_muts, g_muts, h_muts], any [y], down [d], super [LGG1]);
level!(LGG1 GG1, ref [y_calls, g_calls, h_calls], mut [g_muts, h_muts], any [y], down [d], super [LGG2]);
level!(LGG2 GG2, ref [y_calls, h_calls], mut [h_muts], any [y], down [d], super [LGG3]);
level!(LGG3 GG3, ref [y_calls], mut [], any [y], down [d], super [LVD]);

macro_rules! warm_up {
    (($V: ident) $(($($t: tt)*) ($tag: literal))*) => {
        $(let _: &'static $V = <$V as IConstConstructor<'static, $($t)*>>::vtable();)*
    };
}
fn warm_up() {
    for_types!(warm_up(VA));
    for_types!(warm_up(VB));
    for_types!(warm_up(VY));
    for_types!(warm_up(VG));
    for_types!(warm_up(VGS));
    for_types!(warm_up(VGY));
    for_types!(warm_up(VGSY));
    for_types!(warm_up(VGYS));
    for_types!(warm_up(VYSY));
    for_types!(warm_up(VYYS));
    for_types!(warm_up(Mix));
    for_types!(warm_up(Mix1));
    for_types!(warm_up(Mix2));
    for_types!(warm_up(GG));
    for_types!(warm_up(GG1));
    for_types!(warm_up(GG2));
    for_types!(warm_up(GG3));
}

fn want<T: Val>(at: usize) -> Want {
    fn read<T: Val>(at: usize) -> u64 {
        unsafe { (*(at as *const T)).val() }
    }
    Want { tag: T::TAG, at, v: T::norm(1), norm: T::norm, left: bounds().depth, owners: 1, read: read::<T> }
}
/// Through each kind of pointer.
fn pointers<T: Val, L: Level>()
where
    L::V: IConstConstructor<'static, T>,
{
    match choose(6) {
        0 => {
            let b: *mut T = Box::into_raw(Box::new(T::make(1)));
            let w = &mut want::<T>(b as usize);
            let d = Dyn::<'static, &'static mut (), L::V>::from(unsafe { &mut *b });
            L::go(d, w);
            w.peek();
            drop(unsafe { Box::from_raw(b) });
        }
        1 => {
            let b = SBox::<T>::new(T::make(1));
            let w = &mut want::<T>(&*b as *const T as usize);
            L::go(Dyn::<'static, _, L::V>::from(b), w)
        }
        2 => {
            let b = SBox::<T, CkAlloc>::new_in(T::make(1), CkAlloc::make());
            let w = &mut want::<T>(&*b as *const T as usize);
            L::go(Dyn::<'static, _, L::V>::from(b), w)
        }
        3 => {
            let b = SArc::<T>::new(T::make(1));
            let w = &mut want::<T>(&*b as *const T as usize);
            L::go(Dyn::<'static, _, L::V>::from(b), w)
        }
        4 => {
            let b = SArc::<T, CkAlloc>::new_in(T::make(1), CkAlloc::make());
            let w = &mut want::<T>(&*b as *const T as usize);
            L::go(Dyn::<'static, _, L::V>::from(b), w)
        }
        _ => {
            let b: *mut T = Box::into_raw(Box::new(T::make(1)));
            let w = &mut want::<T>(b as usize);
            L::go_ref(DynRef::<'static, L::V>::from(unsafe { &*b }), w);
            w.peek();
            drop(unsafe { Box::from_raw(b) });
        }
    }
}
macro_rules! program {
    (($V: ident) $(($($t: tt)*) ($tag: literal))*) => {{
        unsafe { (*core::ptr::addr_of_mut!(CALLS)).1 = 0 };
        Zst::begin();
        let n = 1 + choose(TYPES as usize);
        log(|| format!("type number {n}"));
        $(if n == $tag { pointers::<$($t)*, $V>() })*
        Zst::finish();
        check_no_object_leak("value-leak");
        check_no_leak("memory-leak");
    }};
}
fn main() {
    warm_up();
    const B: Bounds = Bounds::SEQ.split(4).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: usize, t: usize) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(q)), thorough: B.depth(t), body }
    }
    mcrt::main(&Prop {
        id: "C25",
        title: "Trait objects dispatch to the value they were made from",
        assumptions: &["the 20 interface sets, 10 types and 6 kinds of pointers are representative", "downcasting by comparing tables may fail (as documented), but not yield another type"],
        scenarios: vec![
            s("send-sync", "A + B + Any + G + Send + Sync, and what it upcasts to", || for_types!(program(LVGSY)), 3, 4),
            s("sync-send", "A + B + Any + G + Sync + Send, and what it upcasts to", || for_types!(program(LVGYS)), 3, 4),
            s("mixed", "Send + B + Sync + A, and what it upcasts to", || for_types!(program(LMix)), 3, 4),
            s("generic", "Any + G<u32> + G<u8> + B, and what it upcasts to", || for_types!(program(LGG)), 3, 4),
        ],
    })
}
