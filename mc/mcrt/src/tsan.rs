//! The entry points that `-Zsanitizer=thread` makes the code under test call.
//! The real ThreadSanitizer runtime is not linked: these are the model checker's own.
#![allow(clippy::missing_safety_doc)]
use crate::engine::*;

macro_rules! rw {
    ($($r: ident, $w: ident, $n: literal;)*) => {$(
        #[no_mangle] pub extern "C" fn $r(a: usize) { access(a, $n, false) }
        #[no_mangle] pub extern "C" fn $w(a: usize) { access(a, $n, true) }
    )*};
}
rw! {
    __tsan_read1, __tsan_write1, 1;
    __tsan_read2, __tsan_write2, 2;
    __tsan_read4, __tsan_write4, 4;
    __tsan_read8, __tsan_write8, 8;
    __tsan_read16, __tsan_write16, 16;
    __tsan_unaligned_read2, __tsan_unaligned_write2, 2;
    __tsan_unaligned_read4, __tsan_unaligned_write4, 4;
    __tsan_unaligned_read8, __tsan_unaligned_write8, 8;
    __tsan_unaligned_read16, __tsan_unaligned_write16, 16;
    __tsan_volatile_read1, __tsan_volatile_write1, 1;
    __tsan_volatile_read2, __tsan_volatile_write2, 2;
    __tsan_volatile_read4, __tsan_volatile_write4, 4;
    __tsan_volatile_read8, __tsan_volatile_write8, 8;
    __tsan_volatile_read16, __tsan_volatile_write16, 16;
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    access(a, 8, true)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(a: usize) {
    access(a, 8, false)
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    access(a, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    access(a, n, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize, n, false);
    access(d as usize, n, true);
    libc::memmove(d.cast(), s.cast(), n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize, n, false);
    access(d as usize, n, true);
    libc::memmove(d.cast(), s.cast(), n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    access(d as usize, n, true);
    libc::memset(d.cast(), v, n);
    d
}
macro_rules! atomics {
    ($($t: ty, $n: literal, $load: ident, $store: ident, $xchg: ident, $add: ident, $sub: ident, $and: ident, $or: ident, $xor: ident, $nand: ident, $cas: ident, $cass: ident, $casw: ident;)*) => {$(
        #[no_mangle] pub extern "C" fn $load(a: usize, mo: i32) -> $t { atomic(a, $n, Kind::Load, 0, 0, mo, 0) as $t }
        #[no_mangle] pub extern "C" fn $store(a: usize, v: $t, mo: i32) { atomic(a, $n, Kind::Store, v as u128, 0, mo, 0); }
        atomics!(@rmw $t, $n, $xchg Xchg, $add Add, $sub Sub, $and And, $or Or, $xor Xor, $nand Nand);
        #[no_mangle] pub extern "C" fn $cas(a: usize, e: $t, v: $t, mo: i32, fmo: i32) -> $t { atomic(a, $n, Kind::Cas, v as u128, e as u128, mo, fmo) as $t }
        #[no_mangle] pub unsafe extern "C" fn $cass(a: usize, e: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            let r = atomic(a, $n, Kind::Cas, v as u128, *e as u128, mo, fmo) as $t;
            if r == *e { 1 } else { *e = r; 0 }
        }
        #[no_mangle] pub unsafe extern "C" fn $casw(a: usize, e: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 { $cass(a, e, v, mo, fmo) }
    )*};
    (@rmw $t: ty, $n: literal, $($f: ident $k: ident),*) => {$(
        #[no_mangle] pub extern "C" fn $f(a: usize, v: $t, mo: i32) -> $t { atomic(a, $n, Kind::$k, v as u128, 0, mo, 0) as $t }
    )*};
}
atomics! {
    u8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak;
    u16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak;
    u32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak;
    u64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak;
    u128, 16, __tsan_atomic128_load, __tsan_atomic128_store, __tsan_atomic128_exchange, __tsan_atomic128_fetch_add, __tsan_atomic128_fetch_sub, __tsan_atomic128_fetch_and, __tsan_atomic128_fetch_or, __tsan_atomic128_fetch_xor, __tsan_atomic128_fetch_nand, __tsan_atomic128_compare_exchange_val, __tsan_atomic128_compare_exchange_strong, __tsan_atomic128_compare_exchange_weak;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(mo)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
