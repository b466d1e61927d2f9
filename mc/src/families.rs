//! The handle families of the library, as instances of `Family`.
use crate::shared_handles::Family;
use crate::{CkAlloc, P};
use stabby::alloc::string::String;
use stabby::alloc::sync::{Arc, ArcSlice, ArcStr, Weak, WeakSlice, WeakStr};
use stabby::alloc::vec::Vec as SVec;

pub struct ArcF;
impl Family for ArcF {
    type S = Arc<P, CkAlloc>;
    type W = Weak<P, CkAlloc>;
    const NAME: &'static str = "Arc";
    fn make() -> Self::S {
        Arc::new_in(P::new(1), CkAlloc::make())
    }
    fn clone_s(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn clone_w(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        Arc::downgrade(s)
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.upgrade()
    }
    fn read(s: &Self::S) -> u64 {
        s.read()
    }
    fn counts(s: &Self::S) -> Option<(usize, usize)> {
        Some((Arc::strong_count(s), Arc::weak_count(s)))
    }
    fn get_mut(s: &mut Self::S, v: u64) -> Option<u64> {
        let p = Arc::get_mut(s)?;
        let old = p.read();
        p.write(v);
        Some(old)
    }
    fn make_mut(s: &mut Self::S, v: u64) -> bool {
        s.make_mut().write(v);
        true
    }
    fn into_inner(s: Self::S) -> Result<u64, Self::S> {
        Arc::try_into_inner(s).map(|p| p.read())
    }
}

pub struct SliceF;
impl Family for SliceF {
    type S = ArcSlice<P, CkAlloc>;
    type W = WeakSlice<P, CkAlloc>;
    const NAME: &'static str = "ArcSlice";
    fn make() -> Self::S {
        let mut v = SVec::new_in(CkAlloc::make());
        v.push(P::new(1));
        v.push(P::new(1));
        v.into()
    }
    fn clone_s(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn clone_w(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        s.into()
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.upgrade()
    }
    fn read(s: &Self::S) -> u64 {
        mcrt::check(s.len() == 2, "slice-length", || format!("a shared slice of 2 elements has {} elements", s.len()));
        s.as_slice()[1].read();
        s.as_slice()[0].read()
    }
    fn counts(s: &Self::S) -> Option<(usize, usize)> {
        Some((ArcSlice::strong_count(s), ArcSlice::weak_count(s)))
    }
    fn get_mut(s: &mut Self::S, v: u64) -> Option<u64> {
        let p = s.as_slice_mut()?;
        let old = p[0].read();
        p[0].write(v);
        Some(old)
    }
    fn into_inner(s: Self::S) -> Result<u64, Self::S> {
        SVec::try_from(s).map(|mut v| {
            let p = v.pop().expect("two elements");
            p.read()
        })
    }
}

pub struct StrF;
impl Family for StrF {
    type S = ArcStr<CkAlloc>;
    type W = WeakStr<CkAlloc>;
    const NAME: &'static str = "ArcStr";
    fn make() -> Self::S {
        let mut s = String::new_in(CkAlloc::make());
        s += "ab";
        s.into()
    }
    fn clone_s(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn clone_w(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        s.into()
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.upgrade()
    }
    fn read(s: &Self::S) -> u64 {
        let st = s.as_str();
        mcrt::check(st.len() == 2, "str-length", || format!("a shared string of 2 bytes has {} bytes", st.len()));
        let b = st.as_bytes();
        (unsafe { core::ptr::read_volatile(&b[0]) }) as u64
    }
    fn get_mut(s: &mut Self::S, v: u64) -> Option<u64> {
        let p = s.as_str_mut()?;
        let b = unsafe { p.as_bytes_mut() };
        let old = unsafe { core::ptr::read_volatile(&b[0]) } as u64;
        unsafe { core::ptr::write_volatile(&mut b[0], (v % 26) as u8 + b'a') };
        Some(old)
    }
    fn into_inner(s: Self::S) -> Result<u64, Self::S> {
        String::try_from(s).map(|mut s| {
            let b = unsafe { s.as_bytes_mut() };
            unsafe { core::ptr::write_volatile(&mut b[0], b'z') };
            b[0] as u64
        })
    }
}

/// Slices of plain data, whose weak handles can revive the slice.
pub struct ForceF;
impl Family for ForceF {
    type S = ArcSlice<u64, CkAlloc>;
    type W = WeakSlice<u64, CkAlloc>;
    const NAME: &'static str = "ArcSlice<u64>, reviving";
    const REVIVES: bool = true;
    fn make() -> Self::S {
        let mut v = SVec::new_in(CkAlloc::make());
        v.push(1);
        v.push(1);
        v.into()
    }
    fn clone_s(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn clone_w(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        s.into()
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        Some(w.force_upgrade())
    }
    fn read(s: &Self::S) -> u64 {
        mcrt::check(s.len() == 2, "slice-length", || format!("a shared slice of 2 elements has {} elements", s.len()));
        unsafe { core::ptr::read_volatile(&s.as_slice()[0]) }
    }
    fn counts(s: &Self::S) -> Option<(usize, usize)> {
        Some((ArcSlice::strong_count(s), ArcSlice::weak_count(s)))
    }
    fn get_mut(s: &mut Self::S, v: u64) -> Option<u64> {
        let p = s.as_slice_mut()?;
        let old = p[0];
        unsafe { core::ptr::write_volatile(&mut p[0], v) };
        Some(old)
    }
    fn into_inner(s: Self::S) -> Result<u64, Self::S> {
        SVec::try_from(s).map(|mut v| v.pop().expect("two elements"))
    }
}

#[stabby::stabby]
pub trait Readable {
    extern "C" fn get(&self) -> u64;
    extern "C" fn set(&mut self, v: u64) -> u64;
}
impl Readable for P {
    extern "C" fn get(&self) -> u64 {
        self.read()
    }
    extern "C" fn set(&mut self, v: u64) -> u64 {
        let old = self.read();
        self.write(v);
        old
    }
}
pub type Vt = stabby::vtable!(Readable + Send + Sync);
pub struct DynF;
impl Family for DynF {
    type S = stabby::abi::Dyn<'static, Arc<(), CkAlloc>, Vt>;
    type W = stabby::abi::Dyn<'static, Weak<(), CkAlloc>, Vt>;
    const NAME: &'static str = "Dyn<Arc>";
    fn make() -> Self::S {
        Arc::new_in(P::new(1), CkAlloc::make()).into()
    }
    fn clone_s(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn clone_w(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        // The conversion borrows for the lifetime of the result's type; nothing in the result borrows.
        let s: &'static Self::S = unsafe { &*(s as *const _) };
        s.into()
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.clone().upgrade().into()
    }
    fn read(s: &Self::S) -> u64 {
        s.get()
    }
    fn counts(s: &Self::S) -> Option<(usize, usize)> {
        Some((Arc::strong_count(s.ptr()), Arc::weak_count(s.ptr())))
    }
    fn get_mut(s: &mut Self::S, v: u64) -> Option<u64> {
        let mut m = s.try_as_mut()?;
        Some(m.set(v))
    }
}
/// Vtables live in a process-wide registry: have those we use there before the exploration starts.
pub fn warm_up() {
    let _: &'static Vt = <Vt as stabby::abi::vtable::IConstConstructor<'static, P>>::vtable();
}
