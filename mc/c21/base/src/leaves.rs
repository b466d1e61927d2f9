use crate::*;
use core::cmp::Ordering as Ord3;
use core::marker::{PhantomData, PhantomPinned};
use core::mem::{ManuallyDrop, MaybeUninit};
use core::num::*;
use core::ptr::NonNull;
use core::sync::atomic::*;
use stabby::abi::num::*;
use stabby::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::alloc::string::String as SString;
use stabby::alloc::sync::{Arc as SArc, ArcSlice, ArcStr, Weak};
use stabby::alloc::vec::Vec as SVec;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use std::convert::Infallible;
use std::os::fd::{AsRawFd, BorrowedFd, FromRawFd, OwnedFd};

/// A type whose values can be made from an expression, and told apart by another.
macro_rules! leaf {
    ($({$($g: tt)*})? $t: ty, $ptr: expr, [$($v: expr),*], |$s: ident| $key: expr) => {
        impl$(<$($g)*>)? Sample for $t {
            const PTR: bool = $ptr;
            fn n() -> usize {
                <[fn() -> $t]>::len(&[$(|| $v),*])
            }
            fn make(i: usize) -> Self {
                let all: &[fn() -> $t] = &[$(|| $v),*];
                all[i]()
            }
            #[allow(clippy::clone_on_copy)]
            fn same(&self, i: usize) -> bool {
                let key = |$s: &$t| $key;
                let other = ManuallyDrop::new(<Self as Sample>::make(i));
                key(self) == key(&other)
            }
        }
    };
}
macro_rules! plain {
    ($($t: ty: [$($v: expr),*];)*) => { $(leaf!($t, false, [$($v),*], |s| s.clone());)* };
}
plain! {
    (): [()];
    bool: [false, true];
    u8: [0, 1, 0x7f, 0x80, 0xff];
    u16: [0, 1, 0xff, 0xff00, 0xffff];
    u32: [0, 1, 0xff, 0xff00_0000, u32::MAX];
    u64: [0, 1, 0xff, 0xff << 56, u64::MAX];
    u128: [0, 1, 0xff, 0xff << 120, u128::MAX];
    usize: [0, 1, usize::MAX];
    i8: [0, 1, -1, i8::MIN];
    i16: [0, 1, -1, i16::MIN];
    i32: [0, 1, -1, i32::MIN];
    i64: [0, 1, -1, i64::MIN];
    i128: [0, 1, -1, i128::MIN];
    isize: [0, 1, -1, isize::MIN];
    NonZeroU8: [NonZeroU8::MIN, NonZeroU8::MAX];
    NonZeroU16: [NonZeroU16::MIN, NonZeroU16::new(0x100).unwrap(), NonZeroU16::MAX];
    NonZeroU32: [NonZeroU32::MIN, NonZeroU32::new(1 << 24).unwrap(), NonZeroU32::MAX];
    NonZeroU64: [NonZeroU64::MIN, NonZeroU64::new(1 << 56).unwrap(), NonZeroU64::MAX];
    NonZeroU128: [NonZeroU128::MIN, NonZeroU128::new(1 << 120).unwrap(), NonZeroU128::MAX];
    NonZeroUsize: [NonZeroUsize::MIN, NonZeroUsize::new(1 << 56).unwrap(), NonZeroUsize::MAX];
    NonZeroI8: [NonZeroI8::MIN, NonZeroI8::MAX];
    NonZeroI16: [NonZeroI16::MIN, NonZeroI16::new(0x100).unwrap(), NonZeroI16::new(-1).unwrap()];
    NonZeroI32: [NonZeroI32::MIN, NonZeroI32::new(1).unwrap(), NonZeroI32::new(-1).unwrap()];
    NonZeroI64: [NonZeroI64::MIN, NonZeroI64::new(1).unwrap(), NonZeroI64::new(-1).unwrap()];
    NonZeroI128: [NonZeroI128::MIN, NonZeroI128::new(1).unwrap(), NonZeroI128::new(-1).unwrap()];
    NonZeroIsize: [NonZeroIsize::MIN, NonZeroIsize::new(1).unwrap(), NonZeroIsize::new(-1).unwrap()];
    NonMaxU8: [NonMaxU8::new(0).unwrap(), NonMaxU8::new(254).unwrap()];
    NonMaxU16: [NonMaxU16::new(0).unwrap(), NonMaxU16::new(0xff).unwrap(), NonMaxU16::new(0xfffe).unwrap()];
    NonMaxU32: [NonMaxU32::new(0).unwrap(), NonMaxU32::new(0xff).unwrap(), NonMaxU32::new(!1).unwrap()];
    NonMaxU64: [NonMaxU64::new(0).unwrap(), NonMaxU64::new(0xff).unwrap(), NonMaxU64::new(!1).unwrap()];
    NonMaxU128: [NonMaxU128::new(0).unwrap(), NonMaxU128::new(0xff).unwrap(), NonMaxU128::new(!1).unwrap()];
    NonMaxUsize: [NonMaxUsize::new(0).unwrap(), NonMaxUsize::new(0xff).unwrap(), NonMaxUsize::new(!1).unwrap()];
    NonXU8<3>: [NonXU8::new(0).unwrap(), NonXU8::new(2).unwrap(), NonXU8::new(4).unwrap(), NonXU8::new(255).unwrap()];
    NonXU16<0x100>: [NonXU16::new(0).unwrap(), NonXU16::new(1).unwrap(), NonXU16::new(0x101).unwrap(), NonXU16::new(0xffff).unwrap()];
    NonXI32<-1>: [NonXI32::new(0).unwrap(), NonXI32::new(-2).unwrap(), NonXI32::new(i32::MIN).unwrap()];
    NonXU64<5>: [NonXU64::new(0).unwrap(), NonXU64::new(4).unwrap(), NonXU64::new(u64::MAX).unwrap()];
    NonXI128<0>: [NonXI128::new(1).unwrap(), NonXI128::new(-1).unwrap(), NonXI128::new(i128::MIN).unwrap()];
    Ord3: [Ord3::Less, Ord3::Equal, Ord3::Greater];
    PhantomData<SBox<u8>>: [PhantomData];
    PhantomPinned: [PhantomPinned];
    Option<NonZeroU8>: [None, NonZeroU8::new(1), NonZeroU8::new(255)];
    Option<NonZeroU16>: [None, NonZeroU16::new(1), NonZeroU16::new(0x100), NonZeroU16::new(0xffff)];
    Option<NonZeroU128>: [None, NonZeroU128::new(1), NonZeroU128::new(u128::MAX)];
    Option<NonMaxU8>: [None, NonMaxU8::new(0), NonMaxU8::new(254)];
    Result<NonZeroU8, ()>: [Err(()), Ok(NonZeroU8::MIN), Ok(NonZeroU8::MAX)];
    Result<(), NonZeroU16>: [Ok(()), Err(NonZeroU16::MIN), Err(NonZeroU16::MAX)];
    Result<NonZeroU8, [u8; 0]>: [Err([]), Ok(NonZeroU8::MIN), Ok(NonZeroU8::MAX)];
    Result<[bool; 0], NonZeroU32>: [Ok([]), Err(NonZeroU32::MIN), Err(NonZeroU32::MAX)];
    Result<u32, Infallible>: [Ok(0), Ok(u32::MAX)];
    Result<bool, Infallible>: [Ok(false), Ok(true)];
    Result<NonZeroU8, Infallible>: [Ok(NonZeroU8::MIN), Ok(NonZeroU8::MAX)];
    [u8; 0]: [[]];
    [u64; 0]: [[]];
    [bool; 0]: [[]];
    [u8; 3]: [[0; 3], [255; 3], [1, 2, 3]];
    [u16; 3]: [[0; 3], [0xffff; 3], [1, 0x200, 3]];
    [bool; 1]: [[false], [true]];
    [NonZeroU8; 1]: [[NonZeroU8::MIN], [NonZeroU8::MAX]];
    [NonZeroU8; 2]: [[NonZeroU8::MIN; 2], [NonZeroU8::MAX; 2]];
    [bool; 128]: [[false; 128], [true; 128]];
    [stabby::tuple::Tuple2<u8, u16>; 1]: [[stabby::tuple::Tuple2(1, 2)], [stabby::tuple::Tuple2(0xff, 0xffff)]];
    [stabby::tuple::Tuple2<u8, u16>; 2]: [[stabby::tuple::Tuple2(1, 2); 2], [stabby::tuple::Tuple2(0xff, 0xffff); 2]];
}
leaf!(f32, false, [0.0, -1.5, f32::MAX, f32::NAN], |s| s.to_bits());
leaf!(f64, false, [0.0, -1.5, f64::MAX, f64::NAN], |s| s.to_bits());
macro_rules! atomics {
    ($($t: ident: [$($v: expr),*];)*) => { $(leaf!($t, false, [$($t::new($v)),*], |s| s.load(Ordering::Relaxed));)* };
}
atomics! {
    AtomicBool: [false, true];
    AtomicU8: [0, 255];
    AtomicU16: [0, 1, u16::MAX];
    AtomicU32: [0, 1, u32::MAX];
    AtomicU64: [0, 1, u64::MAX];
    AtomicUsize: [0, 1, usize::MAX];
    AtomicI8: [0, -1];
    AtomicI16: [0, -1];
    AtomicI32: [0, -1];
    AtomicI64: [0, -1];
    AtomicIsize: [0, -1];
}
static X: u8 = 1;
static Y: u32 = 2;
static mut Z: u32 = 3;
extern "C" fn f0() {}
extern "C" fn f1(a: u8, b: u32) -> u64 {
    a as u64 + b as u64
}
extern "C-unwind" fn f2(_: u8) {}
unsafe extern "C" fn f3() -> u8 {
    3
}
leaf!(AtomicPtr<u8>, true, [AtomicPtr::new(core::ptr::null_mut()), AtomicPtr::new(&raw const X as *mut u8)], |s| s.load(Ordering::Relaxed));
leaf!(&'static u8, true, [&X], |s| *s as *const u8);
leaf!(&'static u32, true, [&Y], |s| *s as *const u32);
leaf!(&'static mut u32, true, [unsafe { &mut *(&raw mut Z) }], |s| &**s as *const u32);
leaf!(*const u8, true, [core::ptr::null(), &raw const X, usize::MAX as *const u8], |s| *s);
leaf!(*mut u8, true, [core::ptr::null_mut(), usize::MAX as *mut u8], |s| *s);
leaf!(NonNull<u8>, true, [NonNull::dangling(), NonNull::new(usize::MAX as *mut u8).unwrap()], |s| *s);
leaf!(Option<&'static u8>, true, [None, Some(&X)], |s| s.map(|s| s as *const u8));
leaf!(Result<&'static u8, ()>, true, [Err(()), Ok(&X)], |s| s.map(|s| s as *const u8));
leaf!(extern "C" fn(), true, [f0], |s| *s as usize);
leaf!(extern "C" fn(u8, u32) -> u64, true, [f1], |s| *s as usize);
leaf!(extern "C-unwind" fn(u8), true, [f2], |s| *s as usize);
leaf!(unsafe extern "C" fn() -> u8, true, [f3], |s| *s as usize);
leaf!(Option<extern "C" fn()>, true, [None, Some(f0)], |s| s.map(|s| s as usize));
leaf!(core::pin::Pin<&'static u8>, true, [core::pin::Pin::new(&X)], |s| &**s as *const u8);
// What a union or a cell holds, the surroundings can't tell.
leaf!(MaybeUninit<u8>, false, [MaybeUninit::new(0), MaybeUninit::new(255)], |s| unsafe { s.assume_init() });
leaf!(MaybeUninit<bool>, false, [MaybeUninit::new(false), MaybeUninit::new(true), unsafe { core::mem::transmute(0x7fu8) }], |s| unsafe { (s as *const MaybeUninit<bool>).cast::<u8>().read() });
leaf!(MaybeUninit<NonZeroU8>, false, [MaybeUninit::new(NonZeroU8::MIN), unsafe { core::mem::transmute(0u8) }], |s| unsafe { (s as *const MaybeUninit<NonZeroU8>).cast::<u8>().read() });
leaf!(MaybeUninit<stabby::tuple::Tuple2<u8, u16>>, false, [unsafe { core::mem::transmute(0u32) }, unsafe { core::mem::transmute(u32::MAX) }], |s| unsafe { s.assume_init() });
leaf!(ManuallyDrop<NonZeroU16>, false, [ManuallyDrop::new(NonZeroU16::MIN), ManuallyDrop::new(NonZeroU16::MAX)], |s| *s);
leaf!(core::cell::UnsafeCell<u8>, false, [0.into(), 255.into()], |s| unsafe { *s.get() });
leaf!(core::cell::UnsafeCell<bool>, false, [false.into(), true.into()], |s| unsafe { *s.get() });
leaf!(core::cell::UnsafeCell<NonZeroU8>, false, [NonZeroU8::MIN.into(), NonZeroU8::MAX.into()], |s| unsafe { *s.get() });
leaf!(stabby::abi::istable::NotPod<u8>, true, [stabby::abi::istable::NotPod(0), stabby::abi::istable::NotPod(255)], |s| s.0);
leaf!(stabby::abi::istable::NotPod<NonZeroU16>, true, [stabby::abi::istable::NotPod(NonZeroU16::MIN), stabby::abi::istable::NotPod(NonZeroU16::MAX)], |s| s.0);
leaf!(OwnedFd, true, [unsafe { OwnedFd::from_raw_fd(0) }, unsafe { OwnedFd::from_raw_fd(i32::MAX) }, unsafe { OwnedFd::from_raw_fd(-2) }], |s| s.as_raw_fd());
leaf!(BorrowedFd<'static>, true, [unsafe { BorrowedFd::borrow_raw(0) }, unsafe { BorrowedFd::borrow_raw(i32::MAX) }, unsafe { BorrowedFd::borrow_raw(-2) }], |s| s.as_raw_fd());

leaf!(SBox<u8>, true, [SBox::new(1)], |_s| ());
leaf!(SBox<()>, true, [SBox::new(())], |_s| ());
leaf!(SArc<u32>, true, [SArc::new(1)], |_s| ());
leaf!(Weak<u32>, true, [SArc::downgrade(&SArc::new(1))], |_s| ());
leaf!(SVec<u8>, true, [SVec::new(), [1, 2, 3].as_slice().into()], |s| (s.len(), s.capacity()));
leaf!(SVec<()>, true, [SVec::new(), [(), ()].as_slice().into()], |s| (s.len(), s.capacity()));
leaf!(BoxedSlice<u8>, true, [SVec::from([1, 2, 3].as_slice()).into()], |s| s.len());
leaf!(ArcSlice<u16>, true, [SVec::from([1u16, 2, 3].as_slice()).into()], |s| s.len());
leaf!(SString, true, [SString::new(), "abc".into()], |s| s.len());
leaf!(BoxedStr, true, [SString::from("abc").into()], |s| s.len());
leaf!(ArcStr, true, [SString::from("abc").into()], |s| s.len());
leaf!(SingleOrVec<u32>, true, [SingleOrVec::new(), { let mut v = SingleOrVec::new(); v.push(1); v }, { let mut v = SingleOrVec::new(); v.push(1); v.push(2); v }], |s| s.len());
leaf!(stabby::str::Str<'static>, true, ["".into(), "abc".into()], |s| s.len());
leaf!(stabby::slice::Slice<'static, u32>, true, [[].as_slice().into(), [1, 2].as_slice().into()], |s| s.len());
leaf!(stabby::slice::SliceMut<'static, u32>, true, [[].as_mut_slice().into()], |s| s.len());
leaf!(stabby::time::Duration, false, [core::time::Duration::MAX.into(), core::time::Duration::ZERO.into(), core::time::Duration::new(1, 999_999_999).into()], |s| *s);
leaf!(stabby::time::AtomicDuration, false, [stabby::time::AtomicDuration::new(core::time::Duration::new(1, 999_999_999).into(), stabby::time::Sign::Negative)], |s| s.load(Ordering::Relaxed));

leaf!(SOption<u8>, false, [SOption::None(), SOption::Some(0), SOption::Some(255)], |s| s.clone());
leaf!(SOption<bool>, false, [SOption::None(), SOption::Some(false), SOption::Some(true)], |s| s.clone());
leaf!(SOption<SOption<bool>>, false, [SOption::None(), SOption::Some(SOption::None()), SOption::Some(SOption::Some(true))], |s| s.clone());
leaf!(SOption<NonZeroU16>, false, [SOption::None(), SOption::Some(NonZeroU16::MIN), SOption::Some(NonZeroU16::MAX)], |s| s.clone());
leaf!(SOption<&'static u8>, true, [SOption::None(), SOption::Some(&X)], |s| s.match_ref(|s| Some(*s as *const u8), || None));
leaf!(SOption<SBox<u8>>, true, [SOption::None(), SOption::Some(SBox::new(1))], |s| s.is_some());

macro_rules! all {
    ($($t: ty),* $(,)?) => { &[$(desc::<$t>),*] };
}
const ALL: &[fn() -> Desc] = all![
    (), bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64,
    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize,
    NonMaxU8, NonMaxU16, NonMaxU32, NonMaxU64, NonMaxU128, NonMaxUsize, NonXU8<3>, NonXU16<0x100>, NonXI32<-1>, NonXU64<5>, NonXI128<0>,
    Ord3, PhantomData<SBox<u8>>, PhantomPinned,
    Option<NonZeroU8>, Option<NonZeroU16>, Option<NonZeroU128>, Option<NonMaxU8>, Result<NonZeroU8, ()>, Result<(), NonZeroU16>,
    Result<NonZeroU8, [u8; 0]>, Result<[bool; 0], NonZeroU32>,
    Result<u32, Infallible>, Result<bool, Infallible>, Result<NonZeroU8, Infallible>,
    [u8; 0], [u64; 0], [bool; 0], [u8; 3], [u16; 3], [bool; 1], [NonZeroU8; 1], [NonZeroU8; 2], [bool; 128],
    [stabby::tuple::Tuple2<u8, u16>; 1], [stabby::tuple::Tuple2<u8, u16>; 2],
    AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicPtr<u8>,
    &'static u8, &'static u32, &'static mut u32, *const u8, *mut u8, NonNull<u8>, Option<&'static u8>, Result<&'static u8, ()>,
    extern "C" fn(), extern "C" fn(u8, u32) -> u64, extern "C-unwind" fn(u8), unsafe extern "C" fn() -> u8, Option<extern "C" fn()>, core::pin::Pin<&'static u8>,
    MaybeUninit<u8>, MaybeUninit<bool>, MaybeUninit<NonZeroU8>, MaybeUninit<stabby::tuple::Tuple2<u8, u16>>, ManuallyDrop<NonZeroU16>,
    core::cell::UnsafeCell<u8>, core::cell::UnsafeCell<bool>, core::cell::UnsafeCell<NonZeroU8>,
    stabby::abi::istable::NotPod<u8>, stabby::abi::istable::NotPod<NonZeroU16>, OwnedFd, BorrowedFd<'static>,
    SBox<u8>, SBox<()>, SArc<u32>, Weak<u32>, SVec<u8>, SVec<()>, BoxedSlice<u8>, ArcSlice<u16>, SString, BoxedStr, ArcStr, SingleOrVec<u32>,
    stabby::str::Str<'static>, stabby::slice::Slice<'static, u32>, stabby::slice::SliceMut<'static, u32>, stabby::time::Duration, stabby::time::AtomicDuration,
    SOption<u8>, SOption<bool>, SOption<SOption<bool>>, SOption<NonZeroU16>, SOption<&'static u8>, SOption<SBox<u8>>,
    SResult<u8, u32>, SResult<[u16; 3], u32>, SResult<u32, [u16; 3]>, SResult<stabby::tuple::Tuple2<u8, u16>, bool>,
];

/// Types that needn't be stable: if they are, then with the layout they have.
struct Maybe<T>(PhantomData<T>);
trait Declared {
    fn declared(&self) -> Option<(usize, usize, u8)>;
}
impl<T: stabby_abi::IStable> Declared for Maybe<T> {
    fn declared(&self) -> Option<(usize, usize, u8)> {
        let niche = match <T::HasExactlyOneNiche as ISaturatingAdd>::VALUE {
            SaturatingAddValue::B0 => 0,
            SaturatingAddValue::B1 => 1,
            SaturatingAddValue::Saturator => 2,
        };
        Some((<T::Size as Unsigned>::USIZE, <T::Align as Unsigned>::USIZE, niche))
    }
}
trait Undeclared {
    fn declared(&self) -> Option<(usize, usize, u8)>;
}
impl<T> Undeclared for &Maybe<T> {
    fn declared(&self) -> Option<(usize, usize, u8)> {
        None
    }
}
struct Dubious {
    name: &'static str,
    declared: fn() -> Option<(usize, usize, u8)>,
    actual: (usize, usize),
    options: (usize, usize),
}
macro_rules! dubious {
    ($($t: ty),* $(,)?) => {
        &[$(Dubious {
            name: stringify!($t),
            declared: || (&Maybe::<$t>(PhantomData)).declared(),
            actual: (size_of::<$t>(), align_of::<$t>()),
            options: (size_of::<Option<$t>>(), size_of::<Option<Option<$t>>>()),
        }),*]
    };
}
use stabby::tuple::{Tuple2, Tuple3};
const DUBIOUS: &[Dubious] = dubious![
    u8, NonZeroU8, // which are stable
    Option<u8>, Option<bool>, Option<Ord3>, Option<OwnedFd>, Option<BorrowedFd<'static>>, Option<Option<NonZeroU8>>, Option<Option<bool>>, Option<[u8; 0]>, Option<[NonZeroU8; 1]>,
    Option<[NonZeroU8; 2]>, Option<[NonZeroU8; 0]>, Option<Tuple2<Ord3, NonZeroU8>>, Option<Tuple2<OwnedFd, NonZeroU32>>, Option<Tuple2<NonZeroU8, NonZeroU8>>, Option<Tuple2<NonZeroU8, u8>>, Option<Tuple2<u32, NonZeroU8>>,
    Option<Tuple2<NonZeroU8, u32>>, Option<Tuple3<u8, NonZeroU8, u8>>, Option<Tuple2<NonZeroU8, ()>>, Option<Tuple2<NonZeroU8, [u32; 0]>>, Option<MaybeUninit<NonZeroU8>>, Option<core::cell::UnsafeCell<NonZeroU8>>, Option<ManuallyDrop<NonZeroU8>>,
    Option<SOption<NonZeroU8>>, Option<SOption<bool>>, Option<SResult<u8, NonZeroU8>>, Option<SBox<u8>>, Option<SArc<u8>>, Option<Weak<u8>>, Option<SVec<u8>>, Option<SString>, Option<BoxedSlice<u8>>, Option<SingleOrVec<u8>>,
    Option<stabby::str::Str<'static>>, Option<stabby::slice::Slice<'static, u8>>, Option<stabby::time::Duration>, Option<stabby::time::Instant>, Option<Infallible>, Option<*const u8>, Option<&'static mut u8>,
    Option<Result<NonZeroU8, ()>>, Option<Result<NonZeroU8, Infallible>>, Option<Result<bool, Infallible>>, Option<crate::shapes::Fl>, Option<Tuple2<crate::shapes::Fl, NonZeroU8>>, Option<crate::shapes::Tg>, Option<Tuple2<crate::shapes::Tg, NonZeroU8>>,
    Result<NonZeroU8, [u64; 0]>, Result<[u64; 0], NonZeroU8>, Result<NonZeroU32, [u16; 0]>, Result<[u16; 0], NonZeroU32>, Result<NonZeroU64, [u64; 0]>, Result<[u16; 0], [u64; 0]>, Result<(), ()>, Result<u8, ()>, Result<bool, ()>, Result<(), bool>,
    Result<NonZeroU8, NonZeroU8>, Result<NonZeroU8, u8>, Result<SBox<u8>, ()>, Result<SBox<u8>, PhantomPinned>, Result<PhantomData<u8>, SBox<u8>>, Result<NonZeroU16, Tuple2<(), [u32; 0]>>,
    Result<Infallible, u8>, Result<u8, Infallible>, Result<Infallible, Infallible>, Option<core::ffi::c_void>, core::ffi::c_void,
    Option<NonNull<u8>>, Option<NonNull<u64>>, Option<core::pin::Pin<SBox<u8>>>, Option<core::pin::Pin<&'static u8>>, Option<stabby::abi::istable::NotPod<NonZeroU8>>, Option<stabby::abi::istable::NotPod<bool>>, Option<char>, char,
];
pub fn dubious() {
    let d = &DUBIOUS[choose(DUBIOUS.len())];
    log(|| d.name.to_string());
    let declared = (d.declared)();
    state(mix(d.name.as_ptr() as u64, declared.is_some() as u64));
    if let Some((size, align, niche)) = declared {
        quiet(|| {
            check((size, align) == d.actual, "layout", || format!("{} declares size {size} and alignment {align}, but has {} and {}", d.name, d.actual.0, d.actual.1));
            check(niche != 0 || d.options.0 > d.actual.0, "niche-none", || format!("{} declares no niche, but its option is as large", d.name));
            check(niche != 1 || d.options.0 == d.actual.0 && d.options.1 > d.options.0, "niche-one", || format!("{} declares exactly one niche, but doesn't have that", d.name));
        });
    }
    if d.name == "u8" {
        check(declared.is_some(), "probe", || "the probe doesn't see that u8 is stable".into());
    }
    step();
}
pub fn run() {
    let d = ALL[choose(ALL.len())]();
    one(&d)
}
