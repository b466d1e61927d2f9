//! C31: what may cross threads is safe there.
use core::cell::UnsafeCell;
use core::marker::PhantomData;
use core::sync::atomic::{AtomicBool, Ordering};
use mcrt::*;
use stabby::abi::alloc::{IAlloc, Layout};
use stabby::abi::checked_import::{CanariedImport, CheckedImport};
use stabby::abi::report::TypeReport;
use stabby::abi::slice::{Slice, SliceMut};
use stabby::abi::vtable::{HasDropVt, IConstConstructor, VTable, VtSend, VtSync};
use stabby::abi::{Dyn, DynRef, IStable};
use stabby::alloc::boxed::{Box as SBox, BoxedSlice};
use stabby::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::alloc::sync::{Arc, ArcSlice, AtomicArc, Weak, WeakSlice};
use stabby::alloc::vec::Vec as SVec;
use stabby::alloc::DefaultAllocator;
use stabby_mc as _;

// ---------------------------------------------------------------- payloads and allocators
/// Shared by everything that's neither `Send` nor `Sync`, like the count of an `Rc`: plain memory.
static mut SHARED: *mut u64 = core::ptr::null_mut();
#[inline(never)]
fn bump(p: *mut u64) {
    unsafe { core::ptr::write_volatile(p, core::ptr::read_volatile(p).wrapping_add(1)) }
}
#[inline(never)]
fn peek(p: *const u64) -> u64 {
    unsafe { core::ptr::read_volatile(p) }
}
/// The thread that got something from the one that had it.
fn foreign() -> u32 {
    (thread() == 1) as u32
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// `Send + Sync`: reads through `&`, writes through `&mut`.
    Both,
    /// `Send`, not `Sync`: writes through `&`, like a `Cell`.
    SendOnly,
    /// `Sync`, not `Send`: only its own thread may have it exclusively, like a lock's guard.
    SyncOnly,
    /// Neither: writes to memory shared with others of its thread, like an `Rc`.
    Neither,
}
trait Kinded: Sized {
    const KIND: Kind;
    fn parts(&self) -> (u32, u32, *mut u64);
    fn look(&self) {
        let (id, _, v) = self.parts();
        obj_use(id);
        match Self::KIND {
            Kind::Both | Kind::SyncOnly => drop(peek(v)),
            Kind::SendOnly => bump(v),
            Kind::Neither => bump(unsafe { SHARED }),
        }
    }
    fn poke(&mut self) {
        let (id, home, v) = self.parts();
        obj_use(id);
        match Self::KIND {
            Kind::SyncOnly => {
                check(home == foreign(), "exclusive-elsewhere", || "something that isn't Send was accessed exclusively by another thread than its own".into());
                bump(v)
            }
            Kind::Neither => bump(unsafe { SHARED }),
            _ => bump(v),
        }
    }
    fn end(&mut self) {
        let (id, home, _) = self.parts();
        match Self::KIND {
            Kind::SyncOnly => check(home == foreign(), "dropped-elsewhere", || "something that isn't Send was destroyed by another thread than its own".into()),
            Kind::Neither => bump(unsafe { SHARED }),
            _ => bump(self.parts().2),
        }
        obj_drop(id);
    }
}
macro_rules! kinded {
    ($($name: ident $kind: ident: $($auto: ident)*;)*) => {$(
        #[stabby::stabby]
        pub struct $name {
            pub id: u32,
            pub home: u32,
            pub v: UnsafeCell<u64>,
            pub key: u64,
            pub marker: PhantomData<*mut ()>,
        }
        $(unsafe impl $auto for $name {})*
        impl Kinded for $name {
            const KIND: Kind = Kind::$kind;
            fn parts(&self) -> (u32, u32, *mut u64) {
                (self.id, self.home, self.v.get())
            }
        }
        impl Default for $name {
            fn default() -> Self {
                $name { id: obj_new(), home: foreign(), v: UnsafeCell::new(0), key: foreign() as u64, marker: PhantomData }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                self.look();
                $name { id: obj_new(), home: foreign(), v: UnsafeCell::new(0), key: self.key, marker: PhantomData }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                self.end()
            }
        }
        impl PartialEq for $name {
            fn eq(&self, other: &Self) -> bool {
                self.key == other.key
            }
        }
        impl Eq for $name {}
        impl PartialEq<u64> for $name {
            fn eq(&self, other: &u64) -> bool {
                self.key == *other
            }
        }
        impl PartialOrd<u64> for $name {
            fn partial_cmp(&self, other: &u64) -> Option<core::cmp::Ordering> {
                self.key.partial_cmp(other)
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
        impl Ord for $name {
            fn cmp(&self, other: &Self) -> core::cmp::Ordering {
                self.key.cmp(&other.key)
            }
        }
        impl IAlloc for $name {
            fn alloc(&mut self, layout: Layout) -> *mut () {
                self.poke();
                arena_alloc(layout.size, layout.align).cast()
            }
            unsafe fn free(&mut self, ptr: *mut ()) {
                self.poke();
                arena_free(ptr.cast())
            }
        }
        impl Obj for $name {
            extern "C" fn look_dyn(&self) {
                self.look()
            }
            extern "C" fn poke_dyn(&mut self) {
                self.poke()
            }
        }
        impl Other for $name {
            extern "C" fn other(&self) {
                self.look()
            }
        }
    )*};
}
#[stabby::stabby]
pub trait Obj {
    extern "C" fn look_dyn(&self);
    extern "C" fn poke_dyn(&mut self);
}
#[stabby::stabby]
pub trait Other {
    extern "C" fn other(&self);
}
kinded! {
    PB Both: Send Sync;
    PS SendOnly: Send;
    PY SyncOnly: Sync;
    PN Neither:;
}
trait Pay: Kinded + Default + Clone + Ord + PartialOrd<u64> + Obj + Other + Unpin + 'static {}
impl<T: Kinded + Default + Clone + Ord + PartialOrd<u64> + Obj + Other + Unpin + 'static> Pay for T {}
trait Al: Kinded + Default + Clone + IAlloc + 'static {}
impl<T: Kinded + Default + Clone + IAlloc + 'static> Al for T {}

// ---------------------------------------------------------------- what's moved or shared
/// Something that's moved or shared, and what safe code can do with it.
trait Cont: Sized {
    /// What can be obtained from a shared reference to it.
    type Dup;
    /// What remains in the original thread.
    type Keep;
    /// What everything was borrowed from: destroyed at the very end.
    type Lender;
    fn make() -> (Self, Self::Keep, Self::Lender);
    fn look(&self);
    fn poke(&mut self);
    fn dup(&self) -> Option<Self::Dup>;
    fn use_dup(dup: &mut Self::Dup);
    fn keep(keep: &mut Self::Keep);
}
fn new<T: Default>() -> T {
    T::default()
}
macro_rules! cont {
    (@ $ty: ty, [$($g: tt)*], [$($w: tt)*], $dup: ty, $keep: ty, $lender: ty, $make: expr, $look: expr, $poke: expr, $dupf: expr, $use: expr, $keepf: expr) => {
        impl<$($g)*> Cont for $ty $($w)* {
            type Dup = $dup;
            type Keep = $keep;
            type Lender = $lender;
            fn make() -> (Self, $keep, $lender) {
                $make
            }
            fn look(&self) {
                let f: fn(&Self) = $look;
                f(self)
            }
            fn poke(&mut self) {
                let f: fn(&mut Self) = $poke;
                f(self)
            }
            fn dup(&self) -> Option<$dup> {
                let f: fn(&Self) -> Option<$dup> = $dupf;
                f(self)
            }
            fn use_dup(dup: &mut $dup) {
                let f: fn(&mut $dup) = $use;
                f(dup)
            }
            fn keep(keep: &mut $keep) {
                let f: fn(&mut $keep) = $keepf;
                f(keep)
            }
        }
    };
    ($ty: ty, [$($g: tt)*], $dup: ty, $keep: ty, $lender: ty, $make: expr, $look: expr, $poke: expr, $dupf: expr, $use: expr, $keepf: expr) => {
        cont!(@ $ty, [$($g)*], [], $dup, $keep, $lender, $make, $look, $poke, $dupf, $use, $keepf);
    };
}
fn all<T: Pay>(s: &[T]) {
    s.iter().for_each(T::look)
}
fn all_mut<T: Pay>(s: &mut [T]) {
    s.iter_mut().for_each(T::poke)
}
fn vec<T: Pay, A: Al>() -> SVec<T, A> {
    let mut v = SVec::new_in(new::<A>());
    v.push(new());
    v
}
cont!(SBox<T, A>, [T: Pay, A: Al], SBox<T, A>, (), (), (SBox::new_in(new(), new()), (), ()), |c| T::look(c), |c| T::poke(c), |c| Some(c.clone()), |d| T::poke(d), |_| ());
cont!(BoxedSlice<T, A>, [T: Pay, A: Al], (), (), (), (vec::<T, A>().into(), (), ()), |c| all(c), |c| { all_mut(c); drop(c.try_push(new())) }, |_| None, |_| (), |_| ());
cont!(SVec<T, A>, [T: Pay, A: Al], SVec<T, A>, (), (), (vec(), (), ()), |c| all(c), |c| { all_mut(c); c.push(new()) }, |c| Some(c.clone()), |d| d.push(new()), |_| ());
cont!(Arc<T, A>, [T: Pay, A: Al], Arc<T, A>, (), (), (Arc::new_in(new(), new()), (), ()), |c| { T::look(c); Arc::allocator(c).look() }, |c| drop(Arc::get_mut(c).map(T::poke)), |c| Some(c.clone()),
    |c| { T::look(c); drop(Arc::get_mut(c).map(T::poke)) }, |_| ());
cont!(Weak<T, A>, [T: Pay, A: Al], Weak<T, A>, Arc<T, A>, (), { let a: Arc<T, A> = Arc::new_in(new(), new()); (Arc::downgrade(&a), a, ()) }, |c| drop(c.upgrade().map(|c| T::look(&c))),
    |c| drop(c.upgrade().map(|mut c| drop(Arc::get_mut(&mut c).map(T::poke)))), |c| Some(c.clone()), |c| drop(c.upgrade().map(|c| T::look(&c))), |k| T::look(k));
cont!(ArcSlice<T, A>, [T: Pay, A: Al], ArcSlice<T, A>, (), (), (vec::<T, A>().into(), (), ()), |c| all(c), |c| drop(c.as_slice_mut().map(all_mut)), |c| Some(c.clone()),
    |c| { all(c); drop(c.as_slice_mut().map(all_mut)) }, |_| ());
cont!(WeakSlice<T, A>, [T: Pay, A: Al], WeakSlice<T, A>, ArcSlice<T, A>, (), { let a: ArcSlice<T, A> = vec::<T, A>().into(); (WeakSlice::from(&a), a, ()) }, |c| drop(c.upgrade().map(|c| all(&c))),
    |c| drop(c.upgrade().map(|mut c| drop(c.as_slice_mut().map(all_mut)))), |c| Some(c.clone()), |c| drop(c.upgrade().map(|c| all(&c))), |k| all(k));
cont!(AtomicArc<T, A>, [T: Pay, A: Al], Arc<T, A>, (), (), (AtomicArc::new(Some(Arc::new_in(new(), new()))), (), ()), |c| drop(c.load(Ordering::SeqCst).map(|c| T::look(&c))), |c| c.store(None, Ordering::SeqCst),
    |c| { let r = c.load(Ordering::SeqCst); c.store(None, Ordering::SeqCst); r }, |c| { T::look(c); drop(Arc::get_mut(c).map(T::poke)) }, |_| ());
type Set<T, A> = ArcBTreeSet<T, A, false, 5>;
cont!(Set<T, A>, [T: Pay, A: Al], Set<T, A>, (), (), { let mut s = Set::from_alloc(new()); s.insert(new()); (s, (), ()) }, |c| drop(c.get(&0).map(T::look)), |c| drop(c.insert(new())), |c| Some(c.clone()),
    |c| { drop(c.get(&0).map(T::look)); drop(c.insert(new())) }, |_| ());
type Map<T, A> = ArcBTreeMap<u64, T, A>;
cont!(Map<T, A>, [T: Pay, A: Al], Map<T, A>, (), (), { let mut s: Map<T, A> = ArcBTreeMap::from_alloc(new()); s.insert(1, new()); (s, (), ()) }, |c| drop(c.get(&1).map(T::look)), |c| drop(c.insert(1, new())), |c| Some(c.clone()),
    |c| { drop(c.get(&1).map(T::look)); drop(c.insert(2, new())) }, |_| ());
cont!(Slice<'static, T>, [T: Pay], Slice<'static, T>, (), SBox<T>, { let b = SBox::new(new()); (Slice::new(unsafe { core::slice::from_raw_parts(&*b as *const T, 1) }), (), b) }, |c| all(c.as_slice()), |_| (), |c| Some(*c), |c| all(c.as_slice()), |_| ());
cont!(SliceMut<'static, T>, [T: Pay], (), (), SBox<T>, { let mut b = SBox::new(new()); (SliceMut::from(unsafe { core::slice::from_raw_parts_mut(&mut *b as *mut T, 1) }), (), b) }, |c| all(c), |c| all_mut(c), |_| None, |_| (), |_| ());

struct Sov<T>(T);
macro_rules! concrete {
    ($($p: ident)*) => {$(
        cont!(Sov<SingleOrVec<$p>>, [], SingleOrVec<$p>, (), (), { let mut s = SingleOrVec::new(); s.push(new()); (Sov(s), (), ()) }, |c| all(&c.0), |c| { all_mut(&mut c.0.as_slice_mut()); c.0.push(new()) }, |c| Some(c.0.clone()), |d| d.push(new()), |_| ());
        cont!(stabby::option::Option<SBox<$p>>, [], stabby::option::Option<SBox<$p>>, (), (), (stabby::option::Option::Some(SBox::new(new())), (), ()), |c| drop(c.match_ref(|c| $p::look(&c), || ())), |c| drop(c.match_mut(|mut c| $p::poke(&mut c), || ())), |_| None, |_| (), |_| ());
        cont!(stabby::result::Result<SBox<$p>, u32>, [], (), (), (), (stabby::result::Result::Ok(SBox::new(new())), (), ()), |c| drop(c.match_ref(|c| $p::look(c), |_| ())), |c| drop(c.match_mut(|mut c| $p::poke(&mut c), |_| ())), |_| None, |_| (), |_| ());
        cont!(stabby::result::Result<u32, SBox<$p>>, [], (), (), (), (stabby::result::Result::Err(SBox::new(new())), (), ()), |c| drop(c.match_ref(|_| (), |c| $p::look(c))), |c| drop(c.match_mut(|_| (), |mut c| $p::poke(&mut c))), |_| None, |_| (), |_| ());
        cont!(stabby::tuple::Tuple2<u8, $p>, [], (), (), (), (stabby::tuple::Tuple2(1, new()), (), ()), |c| $p::look(&c.1), |c| $p::poke(&mut c.1), |_| None, |_| (), |_| ());
        cont!(Shared<AtomicArcBTreeSet<$p, false, 5>>, [], Set<$p, DefaultAllocator>, (), (), { let s = AtomicArcBTreeSet::new(); s.edit(|mut s| { drop(s.insert(new())); s }); (Shared(s), (), ()) },
            |c| c.0.get(&0u64, |v| drop(v.map($p::look))),
            |c| c.0.edit(|s| { drop(s); Set::from_alloc(Default::default()) }),
            |c| { let mut got = None; c.0.edit(|s| { got = Some(s); Set::from_alloc(Default::default()) }); got },
            |d| drop(d.get(&0u64).map($p::look)), |_| ());
        cont!(CheckedImport<$p>, [], (), (), (), (CheckedImport::new(import::<$p>, report, u8::REPORT), (), ()), |c| $p::look(c), |_| (), |_| None, |_| (), |_| ());
        cont!(CanariedImport<$p>, [], (), (), (), (CanariedImport::new(new(), canary), (), ()), |c| $p::look(c), |_| (), |_| None, |_| (), |_| ());
    )*};
}
/// Only exists since `AtomicArcBTreeSet` must be wrapped for the harness' trait to be implemented for each payload.
struct Shared<T>(T);
concrete!(PB PS PY PN);
macro_rules! enums {
    ($($name: ident $p: ident;)*) => {$(
        #[stabby::stabby]
        #[repr(stabby)]
        pub enum $name {
            Flag(u8),
            Held($p),
            Boxed(SBox<u32>),
            Nothing,
        }
        cont!($name, [], (), (), (), ($name::Held(new()), (), ()), |c| c.match_ref(|_| (), |c| $p::look(c), |_| (), || ()), |c| c.match_mut(|_| (), |mut c| $p::poke(&mut c), |_| (), || ()), |_| None, |_| (), |_| ());
    )*};
}
enums! { EnumPB PB; EnumPS PS; EnumPY PY; EnumPN PN; }
trait EnumFor {
    type Enum;
}
impl EnumFor for PB {
    type Enum = EnumPB;
}
impl EnumFor for PS {
    type Enum = EnumPS;
}
impl EnumFor for PY {
    type Enum = EnumPY;
}
impl EnumFor for PN {
    type Enum = EnumPN;
}
type EnumOf<T> = <T as EnumFor>::Enum;
#[allow(improper_ctypes_definitions)]
unsafe extern "C" fn import<T: Pay>(_: &TypeReport) -> Option<T> {
    Some(new())
}
unsafe extern "C" fn report() -> &'static TypeReport {
    u8::REPORT
}
extern "C" fn canary() {}


// ---------------------------------------------------------------- trait objects
macro_rules! ptr {
    ($($name: ident $p: ty),*) => {$(
        struct $name<T, Vt: HasDropVt + 'static, A: IAlloc + 'static = DefaultAllocator>(Dyn<'static, $p, Vt>, PhantomData<fn() -> T>, PhantomData<fn() -> A>);
    )*};
}
ptr!(DynBox SBox<(), A>, DynArc Arc<(), A>, DynWeak Weak<(), A>, DynMut &'static mut ());
struct Ref<T, Vt: 'static>(DynRef<'static, Vt>, PhantomData<fn() -> T>);
macro_rules! dyn_cont {
    ($ty: ty, [$($g: tt)*], $vt: ty, $dup: ty, $keep: ty, $lender: ty, $make: expr, $look: expr, $poke: expr, $dupf: expr, $use: expr, $keepf: expr) => {
        cont!(@ $ty, [T: Pay, $($g)*], [where $vt: IConstConstructor<'static, T>], $dup, $keep, $lender, $make, $look, $poke, $dupf, $use, $keepf);
    };
}
macro_rules! vts {
    ($($vt: ident = $vtty: ty, [$($t: tt)*];)*) => {$(
        type $vt = $vtty;
        const _: fn(stabby::vtable!($($t)*)) -> $vt = |vt| vt;
        dyn_cont!(DynBox<T, $vt, A>, [A: IAlloc + Default + 'static], $vt, (), (), (), (DynBox(Dyn::from(SBox::<T, A>::new_in(new(), new())), PhantomData, PhantomData), (), ()), |c| c.0.look_dyn(), |c| c.0.poke_dyn(), |_| None, |_| (), |_| ());
        dyn_cont!(DynArc<T, $vt, A>, [A: IAlloc + Default + 'static], $vt, Dyn<'static, Arc<(), A>, $vt>, (), (), (DynArc(Dyn::from(Arc::<T, A>::new_in(new(), new())), PhantomData, PhantomData), (), ()), |c| c.0.look_dyn(),
            |c| drop(c.0.try_as_mut().map(|mut c| c.poke_dyn())), |c| Some(c.0.clone()), |c| { c.look_dyn(); drop(c.try_as_mut().map(|mut c| c.poke_dyn())) }, |_| ());
        dyn_cont!(DynMut<T, $vt>, [], $vt, (), (), SBox<T>, { let mut b = SBox::new(new::<T>()); (DynMut(Dyn::from(unsafe { &mut *(&mut *b as *mut T) }), PhantomData, PhantomData), (), b) }, |c| c.0.look_dyn(), |c| c.0.poke_dyn(), |_| None, |_| (), |_| ());
        dyn_cont!(DynWeak<T, $vt>, [], $vt, Dyn<'static, Weak<()>, $vt>, Dyn<'static, Arc<()>, $vt>, (), {
                let a: Dyn<'static, Arc<()>, $vt> = Dyn::from(Arc::new(new::<T>()));
                let w: Dyn<'static, Weak<()>, $vt> = unsafe { core::mem::transmute(Dyn::<Weak<()>, $vt>::from(&a)) };
                (DynWeak(w, PhantomData, PhantomData), a, ())
            }, |c| drop(c.0.clone().upgrade().match_owned(|c| c.look_dyn(), || ())), |_| (), |c| Some(c.0.clone()), |c| drop(c.clone().upgrade().match_owned(|mut c| { c.look_dyn(); drop(c.try_as_mut().map(|mut c| c.poke_dyn())) }, || ())), |k| k.look_dyn());
        dyn_cont!(Ref<T, $vt>, [], $vt, DynRef<'static, $vt>, (), SBox<T>, { let b = SBox::new(new::<T>()); (Ref(DynRef::from(unsafe { &*(&*b as *const T) }), PhantomData), (), b) }, |c| c.0.look_dyn(), |_| (), |c| Some(c.0), |c| c.look_dyn(), |_| ());
    )*};
}
type O = StabbyVtableObj;
type O2 = StabbyVtableOther;
vts! {
    Bare = VTable<O>, [Obj];
    VSend = VtSend<VTable<O>>, [Obj + Send];
    VSync = VtSync<VTable<O>>, [Obj + Sync];
    VSendSync = VtSync<VtSend<VTable<O>>>, [Obj + Send + Sync];
    VSyncSend = VtSend<VtSync<VTable<O>>>, [Obj + Sync + Send];
    VSendThen = VTable<O2, VtSend<VTable<O>>>, [Obj + Send + Other];
    VSyncThen = VTable<O2, VtSync<VTable<O>>>, [Obj + Sync + Other];
    VSendThenSync = VtSync<VTable<O2, VtSend<VTable<O>>>>, [Obj + Send + Other + Sync];
    VSyncThenSend = VtSend<VTable<O2, VtSync<VTable<O>>>>, [Obj + Sync + Other + Send];
    VSendSyncThen = VTable<O2, VtSync<VtSend<VTable<O>>>>, [Obj + Send + Sync + Other];
    VThenSend = VtSend<VTable<O2, VTable<O>>>, [Obj + Other + Send];
    VThenSync = VtSync<VTable<O2, VTable<O>>>, [Obj + Other + Sync];
}

// ---------------------------------------------------------------- programs
fn go(a: impl FnOnce() + 'static, b: impl FnOnce() + 'static) {
    par(vec![Box::new(a), Box::new(b)])
}
/// A value is moved to another thread; what it was duplicated into stays.
fn moved<C: Cont + 'static>()
where
    C::Dup: 'static,
    C::Keep: 'static,
{
    unsafe { SHARED = arena_alloc(8, 8).cast() };
    unsafe { core::ptr::write_volatile(SHARED, 0) };
    let (c, keep, lender) = C::make();
    let stays = if choose(2) == 1 { c.dup() } else { None };
    let what = choose(3);
    let dups = choose(2) == 1;
    go(
        move || {
            let mut c = c;
            if what == 1 {
                c.look();
            }
            if what == 2 {
                c.poke();
            }
            if dups {
                let d = c.dup();
                drop(c);
                if let Some(mut d) = d {
                    C::use_dup(&mut d);
                }
            }
        },
        move || {
            bump(unsafe { SHARED });
            let (mut keep, mut stays) = (keep, stays);
            if let Some(d) = &mut stays {
                C::use_dup(d);
            }
            C::keep(&mut keep);
        },
    );
    drop(lender);
    unsafe { arena_free(SHARED.cast()) };
}
/// A value is shared with another thread, which may keep what it duplicates from it for longer.
fn shared<C: Cont + 'static>()
where
    C::Dup: 'static,
    C::Keep: 'static,
{
    unsafe { SHARED = arena_alloc(8, 8).cast() };
    unsafe { core::ptr::write_volatile(SHARED, 0) };
    let (c, keep, lender) = C::make();
    let c: &'static C = Box::leak(Box::new(c));
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let (what, ours) = (choose(2), choose(3));
    go(
        move || {
            let mut d = None;
            if what == 0 {
                c.look();
            } else {
                d = c.dup();
            }
            done.store(true, Ordering::Release);
            if let Some(d) = &mut d {
                C::use_dup(d);
            }
        },
        move || {
            let mut keep = keep;
            bump(unsafe { SHARED });
            match ours {
                0 => c.look(),
                1 => {
                    if let Some(mut d) = c.dup() {
                        C::use_dup(&mut d)
                    }
                }
                _ => {
                    // The other thread no longer refers to it: it may be changed, then destroyed.
                    if done.load(Ordering::Acquire) {
                        let mut c = unsafe { Box::from_raw(c as *const C as *mut C) };
                        c.poke();
                    }
                }
            }
            C::keep(&mut keep);
        },
    );
    drop(lender);
    forgive_leaks();
}

// ---------------------------------------------------------------- which types may cross
trait IsNot {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct IsSend<T>(PhantomData<T>);
impl<T: Send> IsSend<T> {
    const SEND: bool = true;
}
impl<T> IsNot for IsSend<T> {}
struct IsSync<T>(PhantomData<T>);
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}
impl<T> IsNot for IsSync<T> {}

struct Case {
    name: &'static str,
    send: bool,
    sync: bool,
    /// Whether nothing opposes to moving it, and to sharing it.
    must: (bool, bool),
    /// How to move it and to share it, if it can be made at all.
    how: Option<[fn(); 2]>,
}
struct Made<C>(PhantomData<C>);
trait NotMade {
    const HOW: Option<[fn(); 2]> = None;
}
impl<C> NotMade for Made<C> {}
impl<C: Cont + 'static> Made<C>
where
    C::Dup: 'static,
    C::Keep: 'static,
{
    const HOW: Option<[fn(); 2]> = Some([moved::<C>, shared::<C>]);
}
fn run(cases: &[Case]) {
    let c = &cases[choose(cases.len())];
    let share = choose(2) == 1;
    log(|| format!("{} ({}), which is {}Send and {}Sync", c.name, if share { "shared" } else { "moved" }, if c.send { "" } else { "!" }, if c.sync { "" } else { "!" }));
    let Some([moved, shared]) = c.how else {
        log(|| "it can't be made".into());
        return;
    };
    check(c.send || !c.must.0, "refused", || format!("{} isn't Send", c.name));
    check(c.sync || !c.must.1, "refused", || format!("{} isn't Sync", c.name));
    if !if share { c.sync } else { c.send } {
        return;
    }
    if share { shared() } else { moved() }
}
macro_rules! case {
    ($name: expr, $ty: ty, $must: expr) => {
        Case { name: $name, send: <IsSend<$ty>>::SEND, sync: <IsSync<$ty>>::SYNC, must: $must, how: <Made<$ty>>::HOW }
    };
}
macro_rules! alloc_cases {
    ($($c: ident)*) => {[$(
        case!(concat!(stringify!($c), "<Both, Both>"), $c<PB, PB>, (true, true)),
        case!(concat!(stringify!($c), "<Both, SendOnly>"), $c<PB, PS>, (false, false)),
        case!(concat!(stringify!($c), "<Both, SyncOnly>"), $c<PB, PY>, (false, false)),
        case!(concat!(stringify!($c), "<Both, Neither>"), $c<PB, PN>, (false, false)),
        case!(concat!(stringify!($c), "<SendOnly, Both>"), $c<PS, PB>, (false, false)),
        case!(concat!(stringify!($c), "<SendOnly, SendOnly>"), $c<PS, PS>, (false, false)),
        case!(concat!(stringify!($c), "<SendOnly, SyncOnly>"), $c<PS, PY>, (false, false)),
        case!(concat!(stringify!($c), "<SendOnly, Neither>"), $c<PS, PN>, (false, false)),
        case!(concat!(stringify!($c), "<SyncOnly, Both>"), $c<PY, PB>, (false, false)),
        case!(concat!(stringify!($c), "<SyncOnly, SendOnly>"), $c<PY, PS>, (false, false)),
        case!(concat!(stringify!($c), "<SyncOnly, SyncOnly>"), $c<PY, PY>, (false, false)),
        case!(concat!(stringify!($c), "<SyncOnly, Neither>"), $c<PY, PN>, (false, false)),
        case!(concat!(stringify!($c), "<Neither, Both>"), $c<PN, PB>, (false, false)),
        case!(concat!(stringify!($c), "<Neither, SendOnly>"), $c<PN, PS>, (false, false)),
        case!(concat!(stringify!($c), "<Neither, SyncOnly>"), $c<PN, PY>, (false, false)),
        case!(concat!(stringify!($c), "<Neither, Neither>"), $c<PN, PN>, (false, false)),
    )*]};
}
fn owned() {
    run(&alloc_cases![SBox BoxedSlice SVec])
}
fn arcs() {
    run(&alloc_cases![Arc ArcSlice AtomicArc])
}
fn weaks() {
    run(&alloc_cases![Weak WeakSlice])
}
fn trees() {
    run(&alloc_cases![Set Map])
}
type SovOf<T> = Sov<SingleOrVec<T>>;
type OptionOf<T> = stabby::option::Option<SBox<T>>;
type OkOf<T> = stabby::result::Result<SBox<T>, u32>;
type ErrOf<T> = stabby::result::Result<u32, SBox<T>>;
type TupleOf<T> = stabby::tuple::Tuple2<u8, T>;
type AtomicSet<T> = Shared<AtomicArcBTreeSet<T, false, 5>>;
type SliceOf<T> = Slice<'static, T>;
type SliceMutOf<T> = SliceMut<'static, T>;
macro_rules! plain_cases {
    ($($c: ident)*) => {[$(
        case!(concat!(stringify!($c), "<Both>"), $c<PB>, (true, true)),
        case!(concat!(stringify!($c), "<SendOnly>"), $c<PS>, (false, false)),
        case!(concat!(stringify!($c), "<SyncOnly>"), $c<PY>, (false, false)),
        case!(concat!(stringify!($c), "<Neither>"), $c<PN>, (false, false)),
    )*]};
}
fn sums() {
    run(&plain_cases![SovOf OptionOf OkOf ErrOf TupleOf EnumOf])
}
fn atomic_sets() {
    run(&plain_cases![AtomicSet])
}
fn slices() {
    run(&plain_cases![SliceOf SliceMutOf])
}
fn imports() {
    run(&plain_cases![CheckedImport CanariedImport])
}
macro_rules! dyn_cases {
    ($c: ident: $($vt: ident $must: expr,)*) => {[$(
        case!(concat!(stringify!($c), "<Both, ", stringify!($vt), ">"), $c<PB, $vt>, $must),
        case!(concat!(stringify!($c), "<SendOnly, ", stringify!($vt), ">"), $c<PS, $vt>, (false, false)),
        case!(concat!(stringify!($c), "<SyncOnly, ", stringify!($vt), ">"), $c<PY, $vt>, (false, false)),
        case!(concat!(stringify!($c), "<Neither, ", stringify!($vt), ">"), $c<PN, $vt>, (false, false)),
    )*]};
    ($c: ident) => {
        dyn_cases![$c: Bare (false, false), VSend (false, false), VSync (false, false), VSendSync (true, true), VSyncSend (true, true), VSendThen (false, false), VSyncThen (false, false),
            VSendThenSync (true, true), VSyncThenSend (true, true), VSendSyncThen (true, true), VThenSend (false, false), VThenSync (false, false),]
    };
    ($c: ident unique) => {
        dyn_cases![$c: Bare (false, false), VSend (true, false), VSync (false, true), VSendSync (true, true), VSyncSend (true, true), VSendThen (true, false), VSyncThen (false, true),
            VSendThenSync (true, true), VSyncThenSend (true, true), VSendSyncThen (true, true), VThenSend (true, false), VThenSync (false, true),]
    };
}
fn dyn_boxes() {
    run(&dyn_cases![DynBox unique])
}
fn dyn_muts() {
    run(&dyn_cases![DynMut unique])
}
fn dyn_arcs() {
    run(&dyn_cases![DynArc])
}
fn dyn_weaks() {
    run(&dyn_cases![DynWeak])
}
fn dyn_refs() {
    run(&dyn_cases![Ref])
}
macro_rules! dyn_alloc_cases {
    ($($c: ident)*) => {[$(
        case!(concat!(stringify!($c), "<Both, SendSync, Both>"), $c<PB, VSendSync, PB>, (true, true)),
        case!(concat!(stringify!($c), "<Both, SendSync, SendOnly>"), $c<PB, VSendSync, PS>, (false, false)),
        case!(concat!(stringify!($c), "<Both, SendSync, SyncOnly>"), $c<PB, VSendSync, PY>, (false, false)),
        case!(concat!(stringify!($c), "<Both, SendSync, Neither>"), $c<PB, VSendSync, PN>, (false, false)),
    )*]};
}
fn dyn_allocs() {
    run(&dyn_alloc_cases![DynBox DynArc])
}
/// The virtual tables are built outside of the executions: they outlive them.
struct Warm<T, Vt>(PhantomData<(T, Vt)>);
trait Cold {
    const UP: fn() = || ();
}
impl<T, Vt> Cold for Warm<T, Vt> {}
impl<T, Vt: IConstConstructor<'static, T> + Copy + 'static> Warm<T, Vt> {
    const UP: fn() = || {
        let _: &'static Vt = Vt::vtable();
    };
}
macro_rules! warm {
    ($($vt: ident)*) => {$(
        for up in [<Warm<PB, $vt>>::UP, <Warm<PS, $vt>>::UP, <Warm<PY, $vt>>::UP, <Warm<PN, $vt>>::UP] {
            up();
        }
    )*};
}

fn main() {
    const B: Bounds = Bounds::CONC.split(3);
    warm![Bare VSend VSync VSendSync VSyncSend VSendThen VSyncThen VSendThenSync VSyncThenSend VSendSyncThen VThenSend VThenSync];
    mcrt::main(&Prop {
        id: "C31",
        title: "What may cross threads is safe there",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "owned", about: "boxes and vectors", quick: Some(B), thorough: B, body: owned },
            Scenario { name: "arcs", about: "shared values", quick: Some(B), thorough: B, body: arcs },
            Scenario { name: "weaks", about: "weak handles", quick: Some(B), thorough: B, body: weaks },
            Scenario { name: "trees", about: "B-trees", quick: Some(B), thorough: B, body: trees },
            Scenario { name: "sums", about: "sums and products", quick: Some(B), thorough: B, body: sums },
            Scenario { name: "atomic-sets", about: "atomic sets", quick: Some(B), thorough: B, body: atomic_sets },
            Scenario { name: "slices", about: "slices", quick: Some(B), thorough: B, body: slices },
            Scenario { name: "imports", about: "imports", quick: Some(B), thorough: B, body: imports },
            Scenario { name: "dyn-boxes", about: "trait objects in boxes", quick: Some(B), thorough: B, body: dyn_boxes },
            Scenario { name: "dyn-muts", about: "trait objects behind mutable references", quick: Some(B), thorough: B, body: dyn_muts },
            Scenario { name: "dyn-arcs", about: "shared trait objects", quick: Some(B), thorough: B, body: dyn_arcs },
            Scenario { name: "dyn-weaks", about: "weak handles to shared trait objects", quick: Some(B), thorough: B, body: dyn_weaks },
            Scenario { name: "dyn-refs", about: "trait objects behind references", quick: Some(B), thorough: B, body: dyn_refs },
            Scenario { name: "dyn-allocs", about: "trait objects and their allocators", quick: Some(B), thorough: B, body: dyn_allocs },
        ],
    })
}
