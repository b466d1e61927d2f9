// C20: compact sum types. Included by each of the crates that share the type pairs among them, so that they compile in parallel.
use core::mem::MaybeUninit;
use mcrt::*;
use stabby::abi::enums::IDeterminantProvider;
use stabby::alloc::boxed::Box as SBox;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::abi::num::{NonMaxU8, NonXU16};
use stabby::IStable;
use stabby_mc::elems::{Elem, Zst};
use stabby_mc::P;
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};

/// A payload with a few telling values.
trait Pay: IStable + Sized + 'static + Clone + PartialEq + core::hash::Hash {
    const N: usize;
    fn make(i: usize) -> Self;
    /// Which value it is, checking that it is one.
    fn idx(&self) -> usize;
}
/// Reads a payload as raw memory, whatever the compiler believes of its type.
fn raw<T, const N: usize>(t: &T) -> [u8; N] {
    assert!(core::mem::size_of::<T>() == N);
    let mut r = [0; N];
    for (i, r) in r.iter_mut().enumerate() {
        *r = unsafe { core::ptr::read_volatile((t as *const T).cast::<u8>().add(i)) };
    }
    r
}
fn which<T: PartialEq + core::fmt::Debug>(all: &[T], v: T) -> usize {
    match all.iter().position(|a| *a == v) {
        Some(i) => i,
        None => fail("payload", format!("a {} holds {v:?}, which was never put there", core::any::type_name::<T>())),
    }
}
macro_rules! plain {
    ($t: ty, $n: literal, [$($v: expr),*]) => {
        impl Pay for $t {
            const N: usize = [$($v),*].len();
            fn make(i: usize) -> Self {
                [$($v),*][i]
            }
            fn idx(&self) -> usize {
                let b: [u8; $n] = raw(self);
                let all = [$(raw::<$t, $n>(&$v)),*];
                which(&all, b)
            }
        }
    };
}
plain!(u8, 1, [0u8, 1, 2, 0x80, 0xFF]);
plain!(bool, 1, [false, true]);
plain!(NonZeroU8, 1, [NonZeroU8::new(1).unwrap(), NonZeroU8::new(0xFF).unwrap(), NonZeroU8::new(2).unwrap()]);
plain!(u16, 2, [0u16, 1, 0xFF00, 0xFF, 0xFFFF]);
plain!(NonZeroU16, 2, [NonZeroU16::new(1).unwrap(), NonZeroU16::new(0xFF00).unwrap(), NonZeroU16::new(0xFF).unwrap()]);
plain!(u32, 4, [0u32, 1, 0xFF00_0000, 0xFFFF_FFFF, 0xFF]);
plain!(NonZeroU32, 4, [NonZeroU32::new(1).unwrap(), NonZeroU32::new(0xFF00_0000).unwrap(), NonZeroU32::new(0x100).unwrap()]);
plain!(u64, 8, [0u64, 1, u64::MAX, 1 << 63]);
plain!(u128, 16, [0u128, 1, u128::MAX, 1 << 127]);
plain!(NonMaxU8, 1, [NonMaxU8::new(0).unwrap(), NonMaxU8::new(1).unwrap(), NonMaxU8::new(0xFE).unwrap()]);
type Nx = NonXU16<0x100>;
plain!(NonXU16<0x100>, 2, [Nx::new(0).unwrap(), Nx::new(1).unwrap(), Nx::new(0x101).unwrap(), Nx::new(0xFFFF).unwrap()]);
static A: u8 = 1;
static B: u8 = 2;
plain!(&'static u8, 8, [&A, &B]);
plain!(Option<NonZeroU16>, 2, [None, NonZeroU16::new(1), NonZeroU16::new(0xFF00)]);
impl Pay for () {
    const N: usize = 1;
    fn make(_: usize) {}
    fn idx(&self) -> usize {
        0
    }
}
/// A value whose every byte of padding is `0` or `0xFF`.
fn padded<T>(ones: bool, f: impl FnOnce(*mut T)) -> T {
    let mut t = MaybeUninit::<T>::uninit();
    unsafe {
        t.as_mut_ptr().cast::<u8>().write_bytes(if ones { 0xFF } else { 0 }, core::mem::size_of::<T>());
        f(t.as_mut_ptr());
        t.assume_init()
    }
}
macro_rules! product {
    ($t: ident, $a: ty, $b: ty) => {
        #[stabby::stabby(no_opt)]
        #[derive(Clone, PartialEq, Hash, Debug)]
        pub struct $t {
            a: $a,
            b: $b,
        }
        impl Pay for $t {
            const N: usize = 4;
            fn make(i: usize) -> Self {
                padded(i % 2 == 1, |t: *mut Self| unsafe {
                    core::ptr::addr_of_mut!((*t).a).write(if i < 2 { <$a>::MIN } else { <$a>::MAX });
                    core::ptr::addr_of_mut!((*t).b).write(if i < 2 { <$b>::MAX } else { <$b>::MIN });
                })
            }
            fn idx(&self) -> usize {
                let (a, b) = unsafe { (core::ptr::read_volatile(&self.a), core::ptr::read_volatile(&self.b)) };
                2 * which(&[(<$a>::MIN, <$b>::MAX), (<$a>::MAX, <$b>::MIN)], (a, b))
            }
        }
    };
}
product!(ByteShort, u8, u16);
product!(ShortByte, u16, u8);
product!(WordByte, u64, u8);
product!(ByteWord, u8, u64);
product!(IntByte, u32, u8);
/// A tracked payload.
#[stabby::stabby]
#[derive(Clone)]
pub struct Tr {
    p: P,
}
impl PartialEq for Tr {
    fn eq(&self, o: &Self) -> bool {
        self.p.read() == o.p.read()
    }
}
impl core::hash::Hash for Tr {
    fn hash<H: core::hash::Hasher>(&self, s: &mut H) {
        s.write_u64(self.p.read())
    }
}
impl core::fmt::Debug for Tr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "Tr({})", self.p.read())
    }
}
impl Pay for Tr {
    const N: usize = 2;
    fn make(i: usize) -> Self {
        Tr { p: P::new(i as u64) }
    }
    fn idx(&self) -> usize {
        self.p.read() as usize
    }
}
/// An owning, tracked payload that is never null.
#[stabby::stabby]
#[derive(Clone)]
pub struct Owned {
    b: SBox<Tr>,
}
impl PartialEq for Owned {
    fn eq(&self, o: &Self) -> bool {
        *self.b == *o.b
    }
}
impl core::hash::Hash for Owned {
    fn hash<H: core::hash::Hasher>(&self, s: &mut H) {
        (*self.b).hash(s)
    }
}
impl Pay for Owned {
    const N: usize = 2;
    fn make(i: usize) -> Self {
        Owned { b: SBox::new(Tr::make(i)) }
    }
    fn idx(&self) -> usize {
        (*self.b).idx()
    }
}
/// Nothing, still destroyed once.
#[stabby::stabby]
#[derive(Clone)]
pub struct Zd {
    z: Zst,
}
impl PartialEq for Zd {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl core::hash::Hash for Zd {
    fn hash<H: core::hash::Hasher>(&self, _: &mut H) {}
}
impl Pay for Zd {
    const N: usize = 1;
    fn make(_: usize) -> Self {
        Zd { z: Zst::make(0) }
    }
    fn idx(&self) -> usize {
        0
    }
}
impl<T: Pay + IDeterminantProvider<()>> Pay for SOption<T> {
    const N: usize = T::N + 1;
    fn make(i: usize) -> Self {
        if i == 0 {
            SOption::None()
        } else {
            SOption::Some(T::make(i - 1))
        }
    }
    fn idx(&self) -> usize {
        self.match_ref(|t| t.idx() + 1, || 0)
    }
}
impl<T: Pay + IDeterminantProvider<U>, U: Pay> Pay for SResult<T, U> {
    const N: usize = T::N + U::N;
    fn make(i: usize) -> Self {
        if i < T::N {
            SResult::Ok(T::make(i))
        } else {
            SResult::Err(U::make(i - T::N))
        }
    }
    fn idx(&self) -> usize {
        self.match_ref(|t| t.idx(), |u| T::N + u.idx())
    }
}
#[stabby::stabby]
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Hash, Debug)]
pub enum Three {
    X,
    Y,
    Z,
}
plain!(Three, 1, [Three::X, Three::Y, Three::Z]);
macro_rules! tagged {
    ($t: ident, $($r: tt)*) => {
        #[stabby::stabby]
        #[repr($($r)*)]
        #[derive(Clone, Copy, PartialEq, Hash, Debug)]
        pub enum $t {
            Byte(u8),
            Int(u32),
            No,
        }
        impl Pay for $t {
            const N: usize = 10;
            fn make(i: usize) -> Self {
                padded(i >= 5, |t: *mut Self| unsafe {
                    t.write(match i % 5 {
                        0 => $t::Byte(0),
                        1 => $t::Byte(0xFF),
                        2 => $t::Int(0),
                        3 => $t::Int(u32::MAX),
                        _ => $t::No,
                    })
                })
            }
            fn idx(&self) -> usize {
                match self {
                    $t::Byte(b) => which(&[0u8, 0xFF], unsafe { core::ptr::read_volatile(b) }),
                    $t::Int(b) => 2 + which(&[0u32, u32::MAX], unsafe { core::ptr::read_volatile(b) }),
                    $t::No => 4,
                }
            }
        }
    };
}
tagged!(TagByte, u8);
tagged!(TagC, C, u8);
tagged!(TagShort, u16);
/// Generated sum types.
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone, PartialEq, Hash, Debug)]
pub enum Many {
    Byte(u8),
    Flag(bool),
    No,
    Int(u32),
    Tr(Tr),
}
impl Pay for Many {
    const N: usize = 9;
    fn make(i: usize) -> Self {
        match i {
            0 => Many::Byte(0),
            1 => Many::Byte(0xFF),
            2 => Many::Flag(false),
            3 => Many::Flag(true),
            4 => Many::No(),
            5 => Many::Int(0),
            6 => Many::Int(u32::MAX),
            _ => Many::Tr(Tr::make(i - 7)),
        }
    }
    fn idx(&self) -> usize {
        let by_ref = self.match_ref(
            |b| which(&[0u8, 0xFF], unsafe { core::ptr::read_volatile(b) }),
            |f| 2 + f.idx(),
            || 4,
            |i| 5 + which(&[0u32, u32::MAX], unsafe { core::ptr::read_volatile(i) }),
            |t| 7 + t.idx(),
        );
        let ctx = self.match_ref_ctx(1u8, |c, _| c, |c, _| c + 1, |c| c + 2, |c, _| c + 3, |c, _| c + 4);
        check(ctx == [1, 1, 2, 2, 3, 4, 4, 5, 5][by_ref], "match_ref_ctx", || format!("variant {ctx} while match_ref saw payload {by_ref}"));
        by_ref
    }
}
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone, PartialEq, Hash, Debug)]
pub enum Two {
    Yes(IntByte),
    No(IntByte),
}
impl Pay for Two {
    const N: usize = 8;
    fn make(i: usize) -> Self {
        if i < 4 {
            Two::Yes(IntByte::make(i))
        } else {
            Two::No(IntByte::make(i - 4))
        }
    }
    fn idx(&self) -> usize {
        self.match_ref(|a| a.idx(), |b| 4 + b.idx())
    }
}

fn norm<T: Pay>(i: usize) -> usize {
    T::make(i).idx()
}
#[derive(Default)]
struct Fnv(u64);
impl core::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = mix(self.0, *b as u64)
        }
    }
}
fn hash<T: core::hash::Hash>(t: &T) -> u64 {
    use core::hash::Hasher;
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
type R<T, U> = SResult<T, U>;
/// Every view of `r` is that of `m`.
fn views<T: Pay + IDeterminantProvider<U>, U: Pay>(r: &R<T, U>, m: Result<usize, usize>, what: &str) {
    let n = m.map(norm::<T>).map_err(norm::<U>);
    let sees = |view: &str, got: Result<usize, usize>| {
        check(got == n, "view", || format!("{view} sees {got:?} instead of {n:?} after {what} in {}", core::any::type_name::<R<T, U>>()))
    };
    check(r.is_ok() == n.is_ok() && r.is_err() == n.is_err(), "view", || format!("is_ok sees {} instead of {n:?} after {what} in {}", r.is_ok(), core::any::type_name::<R<T, U>>()));
    sees("as_ref", r.as_ref().map(Pay::idx).map_err(Pay::idx));
    sees("match_ref", r.match_ref(|t| Ok(t.idx()), |u| Err(u.idx())));
    sees("match_ref_ctx", r.match_ref_ctx(5, |c, t| Ok(t.idx() + c - 5), |c, u| Err(u.idx() + c - 5)));
    check(r.ok_ref().map(Pay::idx) == n.ok() && r.err_ref().map(Pay::idx) == n.err(), "view", || format!("ok_ref or err_ref after {what}"));
    // Equal and of equal hash to a fresh one, different from those of other values.
    let fresh = build::<T, U>(m);
    check(*r == fresh && fresh == *r && hash(r) == hash(&fresh), "equality", || format!("differs from a fresh {m:?} after {what} in {}", core::any::type_name::<R<T, U>>()));
    let flip = build::<T, U>(if m.is_ok() { Err(0) } else { Ok(0) });
    check(*r != flip, "equality", || format!("equal to the other variant after {what}"));
}
fn build<T: Pay + IDeterminantProvider<U>, U: Pay>(m: Result<usize, usize>) -> R<T, U> {
    match m {
        Ok(i) => R::Ok(T::make(i)),
        Err(i) => R::Err(U::make(i)),
    }
}
fn pick_value<T: Pay, U: Pay>() -> Result<usize, usize> {
    let i = choose(T::N + U::N);
    if i < T::N {
        Ok(i)
    } else {
        Err(i - T::N)
    }
}
struct Bomb;
fn results<T: Pay + IDeterminantProvider<U>, U: Pay>() {
    let b = bounds();
    Zst::begin();
    {
        let mut m = pick_value::<T, U>();
        let mut r: R<T, U> = match choose(2) {
            0 => build(m),
            _ => R::from(m.map(T::make).map_err(U::make)),
        };
        log(|| format!("{m:?} in {}", core::any::type_name::<R<T, U>>()));
        views(&r, m, "construction");
        for _ in 0..b.depth {
            let what = match choose(9) {
                0 => {
                    let c = r.clone();
                    check(c == r, "equality", || "a clone differs".into());
                    drop(core::mem::replace(&mut r, c));
                    "cloning"
                }
                1 => {
                    let mut there = Box::new(r);
                    views(&there, m, "moving");
                    r = core::mem::replace(&mut *there, build(Err(0)));
                    "moving back"
                }
                2 => {
                    r = R::from(Result::<T, U>::from(r));
                    "converting to and fro"
                }
                3 => {
                    r = r.map(|t| t);
                    "mapping"
                }
                4 => {
                    let k = pick_value::<T, U>();
                    r = r.and_then(|t| {
                        drop(t);
                        build(k)
                    });
                    if m.is_ok() {
                        m = k;
                    }
                    "and_then"
                }
                5 => {
                    m = pick_value::<T, U>();
                    r = build(m);
                    "assigning"
                }
                // Through mutable views: read, overwritten in place or swapped, with or without a panic afterwards.
                op @ 6..=8 => {
                    let k = if m.is_ok() { choose(T::N) } else { choose(U::N) };
                    let how = choose(3);
                    let panics = choose(2) == 1;
                    let old = m;
                    let set_t = move |t: &mut T| {
                        check(t.idx() == norm::<T>(old.unwrap_or(0)), "view", || "a mutable view shows another value".into());
                        match how {
                            0 => {}
                            1 => *t = T::make(k),
                            _ => {
                                let was = core::mem::replace(t, T::make(k));
                                check(was.idx() == norm::<T>(old.unwrap_or(0)), "replaced", || "replacing gave back another value".into());
                                drop(was);
                            }
                        }
                        if panics {
                            std::panic::panic_any(Bomb)
                        }
                    };
                    let set_u = move |u: &mut U| {
                        check(u.idx() == norm::<U>(old.err().unwrap_or(0)), "view", || "a mutable view shows another value".into());
                        match how {
                            0 => {}
                            1 => *u = U::make(k),
                            _ => {
                                let was = core::mem::replace(u, U::make(k));
                                check(was.idx() == norm::<U>(old.err().unwrap_or(0)), "replaced", || "replacing gave back another value".into());
                                drop(was);
                            }
                        }
                        if panics {
                            std::panic::panic_any(Bomb)
                        }
                    };
                    let rp = &mut r;
                    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match op {
                        6 => rp.match_mut(
                            |mut t| {
                                set_t(&mut t);
                                true
                            },
                            |mut u| {
                                set_u(&mut u);
                                false
                            },
                        ),
                        7 => rp.match_mut_ctx(
                            3,
                            |_, mut t| {
                                set_t(&mut t);
                                true
                            },
                            |_, mut u| {
                                set_u(&mut u);
                                false
                            },
                        ),
                        _ => {
                            if let Some(mut t) = rp.ok_mut() {
                                set_t(&mut t);
                                return true;
                            }
                            set_u(&mut rp.err_mut().unwrap());
                            false
                        }
                    }));
                    match e {
                        Ok(ok) => check(!panics && ok == m.is_ok(), "view", || "a mutable view shows the other variant".into()),
                        Err(p) => {
                            if !p.is::<Bomb>() {
                                std::panic::resume_unwind(p)
                            }
                        }
                    }
                    if how != 0 {
                        m = m.map(|_| k).map_err(|_| k);
                    }
                    "a mutable view"
                }
                _ => unreachable!(),
            };
            log(|| format!("{what}: {m:?}"));
            views(&r, m, what);
            step();
        }
        let n = m.map(norm::<T>).map_err(norm::<U>);
        let got = match choose(13) {
            0 => r.match_owned(|t| Ok(t.idx()), |u| Err(u.idx())),
            1 => r.match_owned_ctx(0, |_, t| Ok(t.idx()), |_, u| Err(u.idx())),
            2 => match r.ok() {
                Some(t) => Ok(t.idx()),
                None => n.and(Err(0)).map_err(|_| n.err().unwrap_or(usize::MAX)),
            },
            3 => match r.err() {
                Some(t) => Err(t.idx()),
                None => n.or(Ok(usize::MAX)),
            },
            4 => {
                let mut seen = None;
                let t = r.unwrap_or_else(|u| {
                    seen = Some(u.idx());
                    T::make(0)
                });
                match seen {
                    Some(e) => Err(e),
                    None => Ok(t.idx()),
                }
            }
            5 => {
                let mut seen = None;
                let u = r.unwrap_err_or_else(|t| {
                    seen = Some(t.idx());
                    U::make(0)
                });
                match seen {
                    Some(e) => Ok(e),
                    None => Err(u.idx()),
                }
            }
            6 => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                r.map(|t| {
                    let _t = t;
                    if true {
                        std::panic::panic_any(Bomb)
                    }
                    T::make(0)
                })
                .is_ok()
            })) {
                Ok(ok) => if ok { Ok(usize::MAX) } else { n.and(Err(0)).map_err(|_| n.err().unwrap_or(usize::MAX)) },
                Err(p) => {
                    if !p.is::<Bomb>() {
                        std::panic::resume_unwind(p)
                    }
                    n.or(Ok(usize::MAX))
                }
            },
            // Closures that panic with the value in hand.
            how @ 7..=11 => {
                let seen = &core::cell::Cell::new(None);
                let t = |t: T| -> () {
                    let _t = t;
                    seen.set(Some(Ok(_t.idx())));
                    std::panic::panic_any(Bomb)
                };
                let u = |u: U| -> () {
                    let _u = u;
                    seen.set(Some(Err(_u.idx())));
                    std::panic::panic_any(Bomb)
                };
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match how {
                    7 => r.match_owned(t, u),
                    8 => r.match_owned_ctx((), |_, a| t(a), |_, a| u(a)),
                    9 => drop(r.and_then::<_, T>(|a| { t(a); unreachable!() })),
                    10 => drop(r.unwrap_or_else(|a| { u(a); unreachable!() })),
                    _ => drop(r.unwrap_err_or_else(|a| { t(a); unreachable!() })),
                }));
                if let Err(p) = e {
                    if !p.is::<Bomb>() {
                        std::panic::resume_unwind(p)
                    }
                }
                match (seen.get(), how, n) {
                    (Some(s), ..) => s,
                    (None, 9 | 11, Err(_)) | (None, 10, Ok(_)) => n,
                    _ => fail("view", format!("no closure was called for {n:?} in {}", core::any::type_name::<R<T, U>>())),
                }
            }
            _ => {
                drop(r);
                n
            }
        };
        check(got == n, "view", || format!("taken apart, it was {got:?} instead of {n:?} in {}", core::any::type_name::<R<T, U>>()));
        step();
    }
    Zst::finish();
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn options<T: Pay + IDeterminantProvider<()>>() {
    let b = bounds();
    Zst::begin();
    {
        let name = core::any::type_name::<SOption<T>>();
        let mut m: Option<usize> = choose(T::N + 1).checked_sub(1);
        let mk = |m: Option<usize>| m.map(T::make);
        let sees = |o: &SOption<T>, m: Option<usize>| {
            let n = m.map(norm::<T>);
            check(o.is_some() == n.is_some() && o.is_none() == n.is_none(), "view", || format!("is_some: {} instead of {n:?} in {name}", o.is_some()));
            check(o.as_ref().map(Pay::idx) == n, "view", || format!("as_ref in {name}"));
            check(o.match_ref(|t| Some(t.idx()), || None) == n, "view", || format!("match_ref in {name}"));
            check(o.match_ref_ctx((), |_, t| Some(t.idx()), |_| None) == n, "view", || format!("match_ref_ctx in {name}"));
            let fresh = SOption::from(mk(m));
            check(*o == fresh && hash(o) == hash(&fresh), "equality", || format!("differs from a fresh {m:?} in {name}"));
            check(*o != SOption::from(mk(if m.is_some() { None } else { Some(0) })), "equality", || format!("equal to the other variant in {name}"));
        };
        let mut o = match choose(2) {
            0 => SOption::from(mk(m)),
            _ => match m {
                Some(i) => SOption::Some(T::make(i)),
                None => SOption::default(),
            },
        };
        log(|| format!("{m:?} in {name}"));
        sees(&o, m);
        for _ in 0..b.depth {
            match choose(6) {
                0 => o = o.clone(),
                1 => o = SOption::from(Option::<T>::from(o)),
                2 => {
                    let mut there = Box::new(o);
                    sees(&there, m);
                    o = core::mem::take(&mut *there);
                }
                op => {
                    let k = choose(T::N);
                    let mut n = m;
                    let np = &mut n;
                    match op {
                        3 => o.match_mut(
                            move |mut t| {
                                *t = T::make(k);
                                *np = Some(k)
                            },
                            || (),
                        ),
                        4 => o.match_mut_ctx(
                            np,
                            move |np, mut t| {
                                drop(core::mem::replace(&mut *t, T::make(k)));
                                *np = Some(k)
                            },
                            |_| (),
                        ),
                        _ => {
                            if let Some(mut t) = o.as_mut() {
                                *t = T::make(k);
                                *np = Some(k)
                            }
                        }
                    }
                    check(n.is_some() == m.is_some(), "view", || format!("a mutable view shows the other variant in {name}"));
                    m = n;
                }
            }
            sees(&o, m);
            step();
        }
        let n = m.map(norm::<T>);
        let got = match choose(7) {
            0 => o.match_owned(|t| Some(t.idx()), || None),
            1 => o.match_owned_ctx((), |_, t| Some(t.idx()), |_| None),
            2 => {
                let mut none = false;
                let t = o.unwrap_or_else(|| {
                    none = true;
                    T::make(0)
                });
                if none { None } else { Some(t.idx()) }
            }
            // Closures that panic, with the value in hand if there is one.
            how @ 3..=5 => {
                let seen = &core::cell::Cell::new(None);
                let t = |t: T| -> () {
                    let _t = t;
                    seen.set(Some(Some(_t.idx())));
                    std::panic::panic_any(Bomb)
                };
                let u = || -> () {
                    seen.set(Some(None));
                    std::panic::panic_any(Bomb)
                };
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match how {
                    3 => o.match_owned(t, u),
                    4 => o.match_owned_ctx((), |_, a| t(a), |_| u()),
                    _ => drop(o.unwrap_or_else(|| { u(); unreachable!() })),
                }));
                if let Err(p) = e {
                    if !p.is::<Bomb>() {
                        std::panic::resume_unwind(p)
                    }
                }
                match seen.get() {
                    Some(s) => s,
                    None if how == 5 && n.is_some() => n,
                    None => fail("view", format!("no closure was called for {n:?} in {name}")),
                }
            }
            _ => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || o.unwrap())) {
                Ok(t) => Some(t.idx()),
                Err(_) => None,
            },
        };
        check(got == n, "view", || format!("taken apart, it was {got:?} instead of {n:?} in {name}"));
        step();
    }
    Zst::finish();
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
/// The generated sum types' other views.
fn generated() {
    Zst::begin();
    {
        let i = choose(Many::N);
        let mut v = Many::make(i);
        for _ in 0..bounds().depth {
            let k = choose(2);
            let panics = choose(2) == 1;
            let was = norm::<Many>(v.idx());
            let vp = &mut v;
            let boom = move |x: usize| {
                if panics {
                    std::panic::panic_any(Bomb)
                }
                x
            };
            let r = if choose(2) == 0 {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    vp.match_mut(
                        |b| { *b = [0, 0xFF][k]; boom(0) },
                        |f| { *f = k == 1; boom(2) },
                        || boom(4),
                        |i| { *i = [0, u32::MAX][k]; boom(5) },
                        |t| { *t = Tr::make(k); boom(7) },
                    )
                }))
            } else {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    vp.match_mut_ctx(
                        k,
                        |k, b| { *b = [0, 0xFF][k]; boom(0) },
                        |k, f| { *f = k == 1; boom(2) },
                        |_| boom(4),
                        |k, i| { *i = [0, u32::MAX][k]; boom(5) },
                        |k, t| { *t = Tr::make(k); boom(7) },
                    )
                }))
            };
            let base = [0, 0, 2, 2, 4, 5, 5, 7, 7][was];
            match r {
                Ok(b) => check(b == base, "view", || format!("match_mut sees variant {b} instead of {base}")),
                Err(p) => {
                    if !p.is::<Bomb>() {
                        std::panic::resume_unwind(p)
                    }
                }
            }
            let want = if base == 4 { 4 } else { base + k };
            check(v.idx() == want, "view", || format!("holds {} instead of {want} after a mutable match", v.idx()));
            let c = v.clone();
            check(c == v && c.idx() == want, "equality", || "a clone differs".into());
            step();
        }
        let n = v.idx();
        if choose(2) == 1 {
            // Closures that panic with the value in hand.
            let seen = &core::cell::Cell::new(usize::MAX);
            let boom = move |x: usize| -> () {
                seen.set(x);
                std::panic::panic_any(Bomb)
            };
            let ctx = choose(2) == 1;
            let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                if ctx {
                    v.match_owned_ctx((), |_, b| boom(b.idx_of()), |_, f| boom(2 + f.idx()), |_| boom(4), |_, i| boom(5 + which(&[0, u32::MAX], i)), |_, t| boom(7 + t.idx()))
                } else {
                    v.match_owned(|b| boom(b.idx_of()), |f| boom(2 + f.idx()), || boom(4), |i| boom(5 + which(&[0, u32::MAX], i)), |t| boom(7 + t.idx()))
                }
            }));
            if let Err(p) = e {
                if !p.is::<Bomb>() {
                    std::panic::resume_unwind(p)
                }
            }
            check(seen.get() == n, "view", || format!("taken apart, it was {} instead of {n}", seen.get()));
            Zst::finish();
    check_no_object_leak("value-leak");
            check_no_leak("memory-leak");
            return;
        }
        let got = if choose(2) == 0 {
            v.match_owned(|b| b.idx_of(), |f| 2 + f.idx(), || 4, |i| 5 + which(&[0, u32::MAX], i), |t| 7 + t.idx())
        } else {
            v.match_owned_ctx((), |_, b| b.idx_of(), |_, f| 2 + f.idx(), |_| 4, |_, i| 5 + which(&[0, u32::MAX], i), |_, t| 7 + t.idx())
        };
        check(got == n, "view", || format!("taken apart, it was {got} instead of {n}"));
    }
    Zst::finish();
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
trait IdxOf {
    fn idx_of(self) -> usize;
}
impl IdxOf for u8 {
    fn idx_of(self) -> usize {
        which(&[0u8, 0xFF], self)
    }
}
/// Memory that may hold anything, including what the type it's for could not.
macro_rules! anything {
    ($t: ident, $of: ty, $n: literal) => {
        #[stabby::stabby]
        #[derive(Clone, Copy)]
        pub struct $t {
            m: MaybeUninit<$of>,
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                raw::<_, $n>(self) == raw::<_, $n>(o)
            }
        }
        impl core::hash::Hash for $t {
            fn hash<H: core::hash::Hasher>(&self, s: &mut H) {
                s.write(&raw::<_, $n>(self))
            }
        }
        impl Pay for $t {
            const N: usize = 4;
            fn make(i: usize) -> Self {
                let mut m = MaybeUninit::<$of>::uninit();
                unsafe { m.as_mut_ptr().cast::<u8>().write_bytes([0, 1, 2, 0xFF][i], $n) }
                $t { m }
            }
            fn idx(&self) -> usize {
                let b: [u8; $n] = raw(self);
                which(&[[0; $n], [1; $n], [2; $n], [0xFF; $n]], b)
            }
        }
    };
}
anything!(AnyByte, NonZeroU8, 1);
anything!(AnyFlag, bool, 1);
anything!(AnyRef, &'static u8, 8);
/// What's in a cell changes, padding included, without the sum type around it taking part.
fn cells<T: Pay + IDeterminantProvider<()>>()
where
    core::cell::UnsafeCell<T>: IDeterminantProvider<()> + IDeterminantProvider<u8>,
    u8: IDeterminantProvider<core::cell::UnsafeCell<T>>,
{
    use core::cell::UnsafeCell;
    let name = core::any::type_name::<T>();
    let mut i = choose(T::N);
    let put = |c: &UnsafeCell<T>, k: usize| unsafe {
        let t = MaybeUninit::new(T::make(k));
        for b in 0..core::mem::size_of::<T>() {
            core::ptr::write_volatile(c.get().cast::<u8>().add(b), *t.as_ptr().cast::<u8>().add(b))
        }
    };
    match choose(4) {
        0 | 1 => {
            let o = SOption::Some(UnsafeCell::new(T::make(i)));
            for _ in 0..bounds().depth {
                match o.as_ref() {
                    Some(c) => {
                        check(unsafe { &*c.get() }.idx() == norm::<T>(i), "view", || format!("another value in a cell of {name}"));
                        i = choose(T::N);
                        put(c, i)
                    }
                    None => fail("view", format!("an option of a cell of {name} turned into none")),
                }
                step();
            }
            check(o.is_some(), "view", || format!("an option of a cell of {name} turned into none"));
        }
        2 => {
            let o: SResult<UnsafeCell<T>, u8> = SResult::Ok(UnsafeCell::new(T::make(i)));
            put(o.ok_ref().unwrap(), choose(T::N));
            check(o.is_ok(), "view", || format!("a result of a cell of {name} turned into an error"));
        }
        _ => {
            let o: SResult<u8, UnsafeCell<T>> = SResult::Err(UnsafeCell::new(T::make(i)));
            put(o.err_ref().unwrap(), choose(T::N));
            check(o.is_err(), "view", || format!("an error of a cell of {name} turned into a success"));
        }
    }
}
#[allow(unused_macros)]
macro_rules! rows {
    ([$($a: ty),* $(,)?], $bs: tt) => { &[$(rows!(@row $a, $bs)),*] };
    (@row $a: ty, [$($b: ty),* $(,)?]) => { &[$(results::<$a, $b> as fn()),*] as &[fn()] };
}
