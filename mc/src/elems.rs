//! Element types of every kind of layout, each value of which is tracked.
use crate::P;
use stabby::abi::num::NonXU8;
use mcrt::*;

/// A tracked element that carries a value (zero-sized ones only count).
pub trait Elem: 'static + Sized {
    const NAME: &'static str;
    const ZST: bool = false;
    fn make(v: u64) -> Self;
    /// Its value; checks that it is where it can be.
    fn val(&self) -> u64;
    fn set(&mut self, _v: u64) {}
    /// Called at the end of executions for element types that only count.
    fn finish() {}
    fn begin() {}
}
#[inline(never)]
pub fn aligned<T>(p: &T) {
    let a = core::mem::align_of::<T>();
    let p = p as *const T as usize;
    check(p % a == 0, "misaligned", || format!("an element of alignment {a} lies at {p:#x}"));
    if core::mem::size_of::<T>() != 0 && in_arena(p) {
        check(range_live(p, core::mem::size_of::<T>()), "out-of-bounds", || "an element lies (partly) outside its allocation".into());
    }
}

impl Elem for P {
    const NAME: &'static str = "P";
    fn make(v: u64) -> Self {
        P::new(v)
    }
    fn val(&self) -> u64 {
        aligned(self);
        self.read()
    }
    fn set(&mut self, v: u64) {
        self.write(v)
    }
}

/// Plain bytes.
impl Elem for u8 {
    const NAME: &'static str = "u8";
    fn make(v: u64) -> Self {
        v as u8
    }
    fn val(&self) -> u64 {
        unsafe { core::ptr::read_volatile(self) as u64 }
    }
    fn set(&mut self, v: u64) {
        *self = v as u8
    }
}

/// More aligned than the library's own bookkeeping.
#[stabby::stabby]
#[repr(align(64))]
#[derive(Clone)]
pub struct Aligned {
    p: P,
}
impl Elem for Aligned {
    const NAME: &'static str = "Aligned";
    fn make(v: u64) -> Self {
        Aligned { p: P::new(v) }
    }
    fn val(&self) -> u64 {
        aligned(self);
        self.p.read()
    }
    fn set(&mut self, v: u64) {
        self.p.write(v)
    }
}
/// Aligned by two words.
#[stabby::stabby]
#[repr(align(16))]
#[derive(Clone)]
pub struct Aligned16 {
    p: P,
}
impl Elem for Aligned16 {
    const NAME: &'static str = "Aligned16";
    fn make(v: u64) -> Self {
        Aligned16 { p: P::new(v) }
    }
    fn val(&self) -> u64 {
        aligned(self);
        self.p.read()
    }
    fn set(&mut self, v: u64) {
        self.p.write(v)
    }
}

/// Large: N 8-byte words with the tracked value at both ends.
#[derive(Clone)]
pub struct Big<const N: usize> {
    a: P,
    w: [u64; N],
    b: P,
}
impl<const N: usize> Elem for Big<N> {
    const NAME: &'static str = "Big";
    fn make(v: u64) -> Self {
        Big { a: P::new(v), w: [v; N], b: P::new(v) }
    }
    fn val(&self) -> u64 {
        aligned(self);
        let v = self.a.read();
        let mid = unsafe { core::ptr::read_volatile(&self.w[N / 2]) };
        check(self.b.read() == v && mid == v, "torn", || "the parts of an element differ".into());
        v
    }
    fn set(&mut self, v: u64) {
        self.a.write(v);
        self.w = [v; N];
        self.b.write(v);
    }
}

static ZSTS: core::sync::atomic::AtomicIsize = core::sync::atomic::AtomicIsize::new(0);
fn zst(d: isize) {
    quiet(|| {
        let n = ZSTS.load(core::sync::atomic::Ordering::Relaxed) + d;
        check(n >= 0, "double-drop", || "more zero-sized elements were destroyed than created".into());
        ZSTS.store(n, core::sync::atomic::Ordering::Relaxed);
    })
}
pub fn zsts_live() -> isize {
    ZSTS.load(core::sync::atomic::Ordering::Relaxed)
}
/// Zero-sized, still destroyed once each.
#[stabby::stabby]
pub struct Zst {}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::make(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        zst(-1)
    }
}
impl Elem for Zst {
    const NAME: &'static str = "Zst";
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        zst(1);
        Zst {}
    }
    fn val(&self) -> u64 {
        0
    }
    fn begin() {
        ZSTS.store(0, core::sync::atomic::Ordering::Relaxed)
    }
    fn finish() {
        check(zsts_live() == 0, "value-leak", || format!("{} zero-sized element(s) never destroyed", zsts_live()));
    }
}
/// Zero-sized and aligned.
#[repr(align(16))]
pub struct ZstAligned(Zst);
impl Clone for ZstAligned {
    fn clone(&self) -> Self {
        ZstAligned::make(0)
    }
}
impl Elem for ZstAligned {
    const NAME: &'static str = "ZstAligned";
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        ZstAligned(Zst::make(0))
    }
    fn val(&self) -> u64 {
        aligned(self);
        0
    }
    fn begin() {
        Zst::begin()
    }
    fn finish() {
        Zst::finish()
    }
}

/// Two words, the first of which is never zero.
#[stabby::stabby]
pub struct Nz {
    id: core::num::NonZeroU64,
    v: u64,
}
impl Clone for Nz {
    fn clone(&self) -> Self {
        Nz::make(self.val())
    }
}
impl Drop for Nz {
    fn drop(&mut self) {
        obj_drop(self.id.get() as u32)
    }
}
impl Elem for Nz {
    const NAME: &'static str = "Nz";
    fn make(v: u64) -> Self {
        Nz { id: core::num::NonZeroU64::new(obj_new() as u64 | 1 << 32).unwrap(), v }
    }
    fn val(&self) -> u64 {
        aligned(self);
        obj_use(self.id.get() as u32);
        self.v
    }
    fn set(&mut self, v: u64) {
        obj_use(self.id.get() as u32);
        self.v = v
    }
}
/// Six words, none of which has room for anything else.
#[stabby::stabby]
pub struct Wide {
    a: u64,
    w: [u64; 4],
    b: u64,
}
impl Clone for Wide {
    fn clone(&self) -> Self {
        Wide::make(self.val())
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        obj_drop(self.b as u32)
    }
}
impl Elem for Wide {
    const NAME: &'static str = "Wide";
    fn make(v: u64) -> Self {
        Wide { a: v, w: [v; 4], b: obj_new() as u64 }
    }
    fn val(&self) -> u64 {
        aligned(self);
        obj_use(self.b as u32);
        check(self.w == [self.a; 4], "torn", || "the parts of an element differ".into());
        self.a
    }
    fn set(&mut self, v: u64) {
        self.a = v;
        self.w = [v; 4];
    }
}
impl Elem for core::num::NonZeroU8 {
    const NAME: &'static str = "NonZeroU8";
    fn make(v: u64) -> Self {
        Self::new(v as u8).unwrap()
    }
    fn val(&self) -> u64 {
        self.get() as u64
    }
    fn set(&mut self, v: u64) {
        *self = Self::new(v as u8).unwrap()
    }
}
/// Any value but 3.
impl Elem for NonXU8<3> {
    const NAME: &'static str = "NonXU8<3>";
    fn make(v: u64) -> Self {
        NonXU8::new(1 + 7 * (v as u8 % 2)).unwrap()
    }
    fn val(&self) -> u64 {
        self.get() as u64
    }
    fn set(&mut self, v: u64) {
        *self = Self::make(v)
    }
}
/// Any value but 4.
impl Elem for NonXU8<4> {
    const NAME: &'static str = "NonXU8<4>";
    fn make(v: u64) -> Self {
        NonXU8::new(1 + 7 * (v as u8 % 2)).unwrap()
    }
    fn val(&self) -> u64 {
        self.get() as u64
    }
    fn set(&mut self, v: u64) {
        *self = Self::make(v)
    }
}

/// Something owned through a pointer.
impl Elem for stabby::boxed::Box<P> {
    const NAME: &'static str = "Box<P>";
    fn make(v: u64) -> Self {
        stabby::boxed::Box::new(P::new(v))
    }
    fn val(&self) -> u64 {
        self.read()
    }
    fn set(&mut self, v: u64) {
        self.write(v)
    }
}
