//! Things shared by the checkers: tracked payloads, a checking allocator, handle-program machinery.
pub mod elems;
pub mod families;
pub mod lin;
pub mod shared_handles;

use mcrt::*;
use stabby_abi as _;

/// A payload with identity: dropping it twice, using it after its drop, or losing it is a violation.
/// `v` is plain memory: reads and the write made by the destructor are subject to race detection.
#[stabby::stabby]
pub struct P {
    pub id: u32,
    pub v: u64,
}
impl P {
    #[inline(never)]
    pub fn new(v: u64) -> Self {
        P { id: obj_new(), v }
    }
    #[inline(never)]
    pub fn read(&self) -> u64 {
        obj_use(self.id);
        let v = unsafe { core::ptr::read_volatile(&self.v) };
        obj_use(self.id);
        v
    }
    #[inline(never)]
    pub fn write(&mut self, v: u64) {
        obj_use(self.id);
        unsafe { core::ptr::write_volatile(&mut self.v, v) }
    }
}
impl Clone for P {
    #[inline(never)]
    fn clone(&self) -> Self {
        P::new(self.read())
    }
}
impl Drop for P {
    #[inline(never)]
    fn drop(&mut self) {
        obj_drop(self.id);
        unsafe { core::ptr::write_volatile(&mut self.v, 0xDEAD_DEAD) }
    }
}

/// An allocator that checks how it is used: what it gets back, with what layout, and that the instance in
/// charge is itself alive. Failures can be injected (a decision of the explorer, bounded by `faults`).
#[stabby::stabby]
pub struct CkAlloc {
    pub id: u32,
    pub pad: u32,
}
impl CkAlloc {
    #[inline(never)]
    pub fn make() -> Self {
        CkAlloc { id: obj_new(), pad: 7 }
    }
}
impl Default for CkAlloc {
    fn default() -> Self {
        Self::make()
    }
}
impl Clone for CkAlloc {
    #[inline(never)]
    fn clone(&self) -> Self {
        obj_use(self.id);
        Self::make()
    }
}
impl Drop for CkAlloc {
    #[inline(never)]
    fn drop(&mut self) {
        obj_drop(self.id)
    }
}
fn ck_alloc(size: usize, align: usize) -> *mut () {
    check(align.is_power_of_two(), "bad-layout", || format!("allocation requested with alignment {align}"));
    if size == 0 || size >= (1 << 31) || fault() {
        return core::ptr::null_mut();
    }
    arena_alloc(size, align).cast()
}
unsafe fn ck_realloc(ptr: *mut (), size: usize, align: usize, new: usize) -> *mut () {
    match arena_block(ptr.cast()) {
        Some((s, a)) => check(s == size && a == align, "realloc-layout", || {
            format!("reallocating a block of size {s} align {a} as if its size was {size} and its alignment {align}")
        }),
        None => fail("realloc-pointer", "reallocating a pointer that is not the start of a live allocation".into()),
    }
    if new == 0 || new >= (1 << 31) || fault() {
        return core::ptr::null_mut();
    }
    let r = arena_alloc(new, align);
    if !r.is_null() {
        core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), r, size.min(new));
        arena_free(ptr.cast());
    }
    r.cast()
}
impl stabby::alloc::IAlloc for CkAlloc {
    #[inline(never)]
    fn alloc(&mut self, layout: stabby::abi::alloc::Layout) -> *mut () {
        obj_use(self.id);
        ck_alloc(layout.size, layout.align)
    }
    #[inline(never)]
    unsafe fn free(&mut self, ptr: *mut ()) {
        obj_use(self.id);
        arena_free(ptr.cast())
    }
    #[inline(never)]
    unsafe fn realloc(&mut self, ptr: *mut (), prev: stabby::abi::alloc::Layout, new_size: usize) -> *mut () {
        obj_use(self.id);
        ck_realloc(ptr, prev.size, prev.align, new_size)
    }
}

/// The same checks without state: a zero-sized allocator that uses the provided `realloc`.
#[stabby::stabby]
#[derive(Clone, Copy, Default)]
pub struct ZAlloc {}
impl stabby::alloc::IAlloc for ZAlloc {
    #[inline(never)]
    fn alloc(&mut self, layout: stabby::abi::alloc::Layout) -> *mut () {
        ck_alloc(layout.size, layout.align)
    }
    #[inline(never)]
    unsafe fn free(&mut self, ptr: *mut ()) {
        arena_free(ptr.cast())
    }
}
