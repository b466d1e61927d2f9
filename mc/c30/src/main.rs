//! C30: what the loader hands out. The library is this very program, whose exported functions the dynamic linker finds;
//! what a library may lack is taken away from it at each lookup.
#![allow(improper_ctypes_definitions, clippy::missing_safety_doc, non_upper_case_globals, static_mut_refs)]
use core::ffi::{c_char, c_int, c_void, CStr};
use libloading::os::unix::Library as UnixLibrary;
use libloading::Library;
use mcrt::*;
use stabby::alloc::boxed::Box as SBox;
use stabby::alloc::string::String as SString;
use stabby::alloc::vec::Vec as SVec;
use stabby::libloading::StabbyLibrary;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::str::Str;
use stabby::tuple::Tuple2;
use stabby::IStable;
use std::any::TypeId;

/// What happens at a lookup in the library under exploration.
#[derive(Clone, Copy)]
enum Lookup {
    Real,
    /// Each symbol may be there or not.
    Any,
    /// Those whose names are listed are missing.
    Without([Option<&'static str>; 8]),
}
static mut LOOKUP: Lookup = Lookup::Real;
static mut MISSING: usize = 0;
static mut LOOKUPS: usize = 0;
extern "C" {
    fn dlvsym(handle: *mut c_void, name: *const c_char, version: *const c_char) -> *mut c_void;
}
type DlSym = unsafe extern "C" fn(*mut c_void, *const c_char) -> *mut c_void;
#[no_mangle]
unsafe extern "C" fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void {
    let real = dlvsym(-1isize as *mut c_void, c"dlsym".as_ptr(), c"GLIBC_2.2.5".as_ptr());
    let real: DlSym = core::mem::transmute(real);
    let missing = match LOOKUP {
        Lookup::Real => return real(handle, name),
        Lookup::Any => choose(2) == 1,
        Lookup::Without(names) => {
            let name = CStr::from_ptr(name).to_bytes();
            names.iter().flatten().any(|n| n.as_bytes() == name)
        }
    };
    LOOKUPS += 1;
    if missing {
        MISSING += 1;
        return real(handle, c"no such symbol".as_ptr());
    }
    quiet(|| real(handle, name))
}
/// Runs `f` with the given lookups, and tells how many symbols were missing.
fn with<R>(l: Lookup, f: impl FnOnce(&Library) -> R) -> (R, usize) {
    let library: Library = UnixLibrary::this().into();
    unsafe {
        (LOOKUP, MISSING, LOOKUPS) = (l, 0, 0);
        let r = f(&library);
        LOOKUP = Lookup::Real;
        core::mem::forget(library);
        (r, MISSING)
    }
}

static mut CALLS: usize = 0;
fn called(x: u64) -> u64 {
    unsafe { CALLS += 1 };
    x
}

/// A type of functions, and how to ask for one and call it.
struct Type {
    name: &'static str,
    id: TypeId,
    get: fn(&Library, &[u8]) -> Result<usize, String>,
    call: unsafe fn(usize) -> u64,
}
fn get<T: IStable + Copy>(l: &Library, name: &[u8]) -> Result<usize, String> {
    unsafe {
        match l.get_stabbied::<T>(name) {
            Ok(f) => Ok(core::mem::transmute_copy::<T, usize>(&*f)),
            Err(e) => Err(quiet(|| e.to_string())),
        }
    }
}
struct Export {
    symbol: &'static str,
    id: TypeId,
    address: usize,
    returns: u64,
}
/// Exports functions, and lists them and their types.
macro_rules! exports {
    ($($symbol: ident: [$($q: tt)*] ($($a: ident: $t: ty = $v: expr),*) -> $o: ty, $returns: literal, $make: expr, $read: expr;)*) => {
        (
            vec![$(Type {
                name: stringify!($($q)* fn($($t),*) -> $o),
                id: TypeId::of::<$($q)* fn($($t),*) -> $o>(),
                get: get::<$($q)* fn($($t),*) -> $o>,
                call: {
                    unsafe fn call(f: usize) -> u64 {
                        let f: $($q)* fn($($t),*) -> $o = core::mem::transmute(f);
                        #[allow(unused_unsafe)]
                        let o = unsafe { f($($v),*) };
                        let read: fn($o) -> u64 = $read;
                        read(o)
                    }
                    call
                },
            }),*],
            vec![$({
                #[stabby::export]
                pub $($q)* fn $symbol($($a: $t),*) -> $o {
                    $(let _ = $a;)*
                    let make: fn(u64) -> $o = $make;
                    make(called($returns))
                }
                Export {
                    symbol: stringify!($symbol),
                    id: TypeId::of::<$($q)* fn($($t),*) -> $o>(),
                    address: $symbol as $($q)* fn($($t),*) -> $o as usize,
                    returns: $returns,
                }
            }),*],
        )
    };
}
type Family = (Vec<Type>, Vec<Export>);
static R8: u8 = 8;
static R16: u16 = 16;
fn plain() -> Family {
    exports! {
        c30_none: [extern "C"] () -> (), 1, |_| (), |_| 1;
        c30_u8: [extern "C"] (a: u8 = 1) -> u8, 2, |x| x as u8, |x| x as u64;
        c30_u8_too: [extern "C"] (b: u8 = 1) -> u8, 3, |x| x as u8, |x| x as u64;
        c30_u8_unsafe: [unsafe extern "C"] (a: u8 = 1) -> u8, 4, |x| x as u8, |x| x as u64;
        c30_u8_unwind: [extern "C-unwind"] (a: u8 = 1) -> u8, 5, |x| x as u8, |x| x as u64;
        c30_u8_unsafe_unwind: [unsafe extern "C-unwind"] (a: u8 = 1) -> u8, 6, |x| x as u8, |x| x as u64;
        c30_u8_i8: [extern "C"] (a: u8 = 1) -> i8, 7, |x| x as i8, |x| x as u64;
        c30_i8_u8: [extern "C"] (a: i8 = 1) -> u8, 8, |x| x as u8, |x| x as u64;
        c30_u8_nothing: [extern "C"] (a: u8 = 1) -> (), 9, |_| (), |_| 9;
        c30_nothing_u8: [extern "C"] () -> u8, 10, |x| x as u8, |x| x as u64;
        c30_u8_u8: [extern "C"] (a: u8 = 1, b: u8 = 2) -> u8, 11, |x| x as u8, |x| x as u64;
        c30_u8_u16: [extern "C"] (a: u8 = 1, b: u16 = 2) -> u8, 12, |x| x as u8, |x| x as u64;
        c30_u16_u8: [extern "C"] (a: u16 = 1, b: u8 = 2) -> u8, 13, |x| x as u8, |x| x as u64;
        c30_u32: [extern "C"] (a: u32 = 1) -> u8, 14, |x| x as u8, |x| x as u64;
        c30_f32: [extern "C"] (a: f32 = 1.0) -> u8, 15, |x| x as u8, |x| x as u64;
        c30_pair: [extern "C"] (a: Tuple2<u8, u16> = Tuple2(1, 2)) -> u8, 16, |x| x as u8, |x| x as u64;
        c30_riap: [extern "C"] (a: Tuple2<u16, u8> = Tuple2(1, 2)) -> u8, 17, |x| x as u8, |x| x as u64;
        c30_option: [extern "C"] (a: u8 = 1) -> SOption<u8>, 18, |x| SOption::Some(x as u8), |x| x.unwrap() as u64;
        c30_option_i8: [extern "C"] (a: u8 = 1) -> SOption<i8>, 19, |x| SOption::Some(x as i8), |x| x.unwrap() as u64;
        c30_result: [extern "C"] (a: u8 = 1) -> SResult<u8, u16>, 20, |x| SResult::Ok(x as u8), |x| x.unwrap() as u64;
        c30_tluser: [extern "C"] (a: u8 = 1) -> SResult<u16, u8>, 21, |x| SResult::Ok(x as u16), |x| x.unwrap() as u64;
        c30_ref: [extern "C"] (a: &'static u8 = &R8) -> u8, 22, |x| x as u8, |x| x as u64;
        c30_ref16: [extern "C"] (a: &'static u16 = &R16) -> u8, 23, |x| x as u8, |x| x as u64;
        c30_ptr: [extern "C"] (a: *const u8 = &R8) -> u8, 24, |x| x as u8, |x| x as u64;
        c30_mut: [extern "C"] (a: *mut u8 = core::ptr::null_mut()) -> u8, 25, |x| x as u8, |x| x as u64;
        c30_box: [extern "C"] (a: SBox<u8> = SBox::new(7)) -> u8, 26, |x| x as u8, |x| x as u64;
        c30_vec: [extern "C"] (a: SVec<u8> = SVec::new()) -> SVec<u8>, 27, |x| [x as u8].as_slice().into(), |x| x[0] as u64;
        c30_vec16: [extern "C"] (a: SVec<u16> = SVec::new()) -> SVec<u8>, 28, |x| [x as u8].as_slice().into(), |x| x[0] as u64;
        c30_string: [extern "C"] (a: SString = SString::new()) -> u8, 29, |x| x as u8, |x| x as u64;
        c30_str: [extern "C"] (a: Str<'static> = "".into()) -> u8, 30, |x| x as u8, |x| x as u64;
        c30_callback: [extern "C"] (a: extern "C" fn(u8) -> u8 = c30_cb) -> u8, 31, |x| x as u8, |x| x as u64;
        c30_callback2: [extern "C"] (a: extern "C" fn(u8, u8) -> u8 = c30_cb2) -> u8, 32, |x| x as u8, |x| x as u64;
        c30_callback3: [extern "C"] (a: unsafe extern "C" fn(u8) -> u8 = c30_cb) -> u8, 33, |x| x as u8, |x| x as u64;
        c30_getter: [extern "C"] () -> extern "C" fn(u8) -> u8, 34, |_| c30_cb, |f| if f == c30_cb as extern "C" fn(u8) -> u8 { 34 } else { 0 };
        c30_14: [extern "C"] (a: u8 = 1, b: u8 = 1, c: u8 = 1, d: u8 = 1, e: u8 = 1, f: u8 = 1, g: u8 = 1, h: u8 = 1, i: u8 = 1, j: u8 = 1, k: u8 = 1, l: u8 = 1, m: u8 = 1, n: u8 = 1) -> u8, 35, |x| x as u8, |x| x as u64;
        c30_15: [extern "C"] (a: u8 = 1, b: u8 = 1, c: u8 = 1, d: u8 = 1, e: u8 = 1, f: u8 = 1, g: u8 = 1, h: u8 = 1, i: u8 = 1, j: u8 = 1, k: u8 = 1, l: u8 = 1, m: u8 = 1, n: u8 = 1, o: u8 = 1) -> u8, 36, |x| x as u8, |x| x as u64;
    }
}
extern "C" fn c30_cb(a: u8) -> u8 {
    a
}
extern "C" fn c30_cb2(a: u8, _: u8) -> u8 {
    a
}
/// Types of the same name and module: the versions of a library differ by such.
macro_rules! versions {
    ($($f: ident $symbol: ident $back: ident: {$($def: tt)*} $v: expr, $returns: literal, $returns2: literal;)*) => {
        $(fn $f() -> Family {
            $($def)*
            exports! {
                $symbol: [extern "C"] (a: S = $v) -> u8, $returns, |x| x as u8, |x| x as u64;
                $back: [extern "C"] (a: u8 = 1) -> S, $returns2, |_| $v, |_| $returns2;
            }
        })*
        const VERSIONS: &[fn() -> Family] = &[$($f),*];
    };
}
versions! {
    s0 c30_s0 c30_r0: { #[stabby::stabby] pub struct S { pub a: u8, pub b: u32 } } S { a: 1, b: 2 }, 100, 200;
    s1 c30_s1 c30_r1: { #[stabby::stabby(version = 1)] pub struct S { pub a: u8, pub b: u32 } } S { a: 1, b: 2 }, 101, 201;
    s2 c30_s2 c30_r2: { #[stabby::stabby] pub struct S { pub a: u8, pub c: u32 } } S { a: 1, c: 2 }, 102, 202;
    s3 c30_s3 c30_r3: { #[stabby::stabby] pub struct S { pub a: u8, pub b: i32 } } S { a: 1, b: 2 }, 103, 203;
    s4 c30_s4 c30_r4: { #[stabby::stabby(no_opt)] pub struct S { pub b: u32, pub a: u8 } } S { a: 1, b: 2 }, 104, 204;
    s5 c30_s5 c30_r5: { #[stabby::stabby(no_opt)] pub struct S { pub a: u8, pub b: u32, pub c: u8 } } S { a: 1, b: 2, c: 3 }, 105, 205;
    s6 c30_s6 c30_r6: { #[stabby::stabby] pub struct S { pub a: u8 } } S { a: 1 }, 106, 206;
    s7 c30_s7 c30_r7: { #[stabby::stabby] #[repr(u8)] pub enum S { A, B } } { let _ = S::B; S::A }, 107, 207;
    s8 c30_s8 c30_r8: { #[stabby::stabby] #[repr(u8)] pub enum S { A, C } } { let _ = S::C; S::A }, 108, 208;
    s9 c30_s9 c30_r9: { #[stabby::stabby] #[repr(u8)] pub enum S { B, A } } { let _ = S::B; S::A }, 109, 209;
    s10 c30_s10 c30_r10: { #[stabby::stabby] #[repr(u16)] pub enum S { A, B } } { let _ = S::B; S::A }, 110, 210;
    s11 c30_s11 c30_r11: { #[stabby::stabby] #[derive(Clone, Copy)] pub union S { pub a: u8, pub b: u32 } } S { a: 1 }, 111, 211;
    s12 c30_s12 c30_r12: { #[stabby::stabby] pub struct In { pub x: u8 } #[stabby::stabby] pub struct S { pub i: In } } S { i: In { x: 1 } }, 112, 212;
    s13 c30_s13 c30_r13: { #[stabby::stabby] pub struct In { pub x: i8 } #[stabby::stabby] pub struct S { pub i: In } } S { i: In { x: 1 } }, 113, 213;
    s14 c30_s14 c30_r14: { #[stabby::stabby(version = 3)] pub struct In { pub x: u8 } #[stabby::stabby] pub struct S { pub i: In } } S { i: In { x: 1 } }, 114, 214;
    s15 c30_s15 c30_r15: { mod m { #[stabby::stabby] pub struct S { pub a: u8, pub b: u32 } } use m::S; } S { a: 1, b: 2 }, 115, 215;
}
fn families(fs: &[fn() -> Family]) -> Family {
    quiet(|| {
        let mut all: Family = (Vec::new(), Vec::new());
        for f in fs {
            let (t, e) = f();
            all.0.extend(t);
            all.1.extend(e);
        }
        all
    })
}
fn ask(types: &Type, export: &Export, l: Lookup) {
    unsafe { CALLS = 0 };
    let (got, missing) = with(l, |l| (types.get)(l, export.symbol.as_bytes()));
    let what = || format!("{} asked for as {}, with {missing} symbols missing", export.symbol, types.name);
    let calls = unsafe { CALLS };
    check(calls == 0, "called", || format!("{}: {calls} functions were called", what()));
    let same = types.id == export.id;
    outcome(missing as u64 * 4 + got.is_ok() as u64 * 2 + same as u64);
    match &got {
        Ok(f) => {
            check(same, "mismatch", || format!("{}: it's of another type", what()));
            check(missing == 0, "missing", || what());
            check(*f == export.address, "other", || format!("{}: that's another function", what()));
            let x = unsafe { (types.call)(*f) };
            let calls = unsafe { CALLS };
            check(x == export.returns && calls == 1, "call", || format!("{}: called {calls} times, it returned {x}", what()));
        }
        Err(e) => {
            check(!same || missing != 0, "refused", || format!("{}: {e}", what()));
            check(!e.is_empty(), "no-reason", what);
        }
    }
    quiet(|| drop(got));
}
fn pairs_of(fs: &[fn() -> Family]) {
    let (types, exports) = families(fs);
    let (i, j) = (choose(exports.len()), choose(types.len()));
    log(|| format!("{} as {}", exports[i].symbol, types[j].name));
    ask(&types[j], &exports[i], Lookup::Any);
    state(mix(i as u64, j as u64));
    step();
    quiet(|| drop((types, exports)));
}
fn pairs() {
    pairs_of(&[plain])
}
fn versions() {
    pairs_of(VERSIONS)
}
/// Names next to that of an exported function.
fn names() {
    let (types, exports) = families(&[plain]);
    let j = choose(types.len());
    let symbol = exports[j].symbol;
    let how = choose(8);
    let name: Vec<u8> = quiet(|| match how {
        0 => symbol.as_bytes()[..symbol.len() - 1].to_vec(),
        1 => format!("{symbol}_").into_bytes(),
        2 => format!("_{symbol}").into_bytes(),
        3 => format!("{symbol}_stabbied_v3").into_bytes(),
        4 => symbol.to_uppercase().into_bytes(),
        5 => symbol.as_bytes()[1..].to_vec(),
        6 => Vec::new(),
        _ => format!("{symbol}\0").into_bytes(),
    });
    log(|| format!("{:?} as {}", String::from_utf8_lossy(&name), types[j].name));
    unsafe { CALLS = 0 };
    // A name may happen to be that of another function.
    let other = exports.iter().find(|e| e.symbol.as_bytes() == name.as_slice()).map(|e| (e.address, e.id));
    let (got, _) = with(Lookup::Without([None; 8]), |l| (types[j].get)(l, &name));
    match (&got, other) {
        (Ok(f), Some((address, id))) => check(*f == address && id == types[j].id, "name", || "another name's function was handed out".into()),
        (Ok(f), None) => check(how == 7 && *f == exports[j].address, "name", || "a name that isn't exported was found".into()),
        _ => (),
    }
    check(unsafe { CALLS } == 0, "called", || "a function was called".into());
    state(mix(j as u64, how as u64));
    quiet(|| drop((got, name, types, exports)));
    step();
}

// Functions of any signature, checked by canaries.
#[stabby::export(canaries)]
pub fn c30_any(v: &[u8]) -> usize {
    called(v.len() as u64) as usize
}
#[stabby::export(canaries)]
pub extern "C" fn c30_c(v: u8) -> Option<u32> {
    Some(called(v as u64) as u32)
}
/// The names that the dynamic linker finds in this program.
fn dynamic_symbols() -> Vec<&'static str> {
    #[repr(C)]
    struct Info {
        addr: usize,
        name: *const c_char,
        phdr: *const [u32; 14],
        phnum: u16,
    }
    extern "C" {
        fn dl_iterate_phdr(f: unsafe extern "C" fn(*const Info, usize, *mut c_void) -> c_int, data: *mut c_void) -> c_int;
    }
    #[repr(C)]
    struct Sym {
        name: u32,
        info: u8,
        other: u8,
        shndx: u16,
        value: usize,
        size: usize,
    }
    unsafe extern "C" fn visit(i: *const Info, _: usize, out: *mut c_void) -> c_int {
        let i = &*i;
        let out = &mut *out.cast::<Vec<&'static str>>();
        for k in 0..i.phnum as usize {
            let p = &*i.phdr.add(k);
            if p[0] != 2 {
                continue; // not the dynamic section
            }
            let mut d = (i.addr + (p[4] as usize | (p[5] as usize) << 32)) as *const [usize; 2];
            let (mut strtab, mut symtab, mut gnu) = (0usize, 0usize, 0usize);
            while (*d)[0] != 0 {
                match (*d)[0] {
                    5 => strtab = (*d)[1],
                    6 => symtab = (*d)[1],
                    0x6ffffef5 => gnu = (*d)[1],
                    _ => (),
                }
                d = d.add(1);
            }
            let abs = |a: usize| if a < i.addr { a + i.addr } else { a };
            let (strtab, symtab, gnu) = (abs(strtab), abs(symtab), abs(gnu) as *const u32);
            // The hashed symbols are the defined ones: the last chain tells how many there are.
            let (buckets, first, bloom) = (*gnu as usize, *gnu.add(1) as usize, *gnu.add(2) as usize);
            let bucket = gnu.add(4 + 2 * bloom);
            let chain = bucket.add(buckets);
            for b in 0..buckets {
                let mut s = *bucket.add(b) as usize;
                while s >= first && s != 0 {
                    let sym = &*(symtab as *const Sym).add(s);
                    out.push(CStr::from_ptr((strtab + sym.name as usize) as *const c_char).to_str().unwrap_or(""));
                    if *chain.add(s - first) & 1 == 1 {
                        break;
                    }
                    s += 1;
                }
            }
        }
        1 // only the program itself
    }
    let mut out = Vec::new();
    unsafe { dl_iterate_phdr(visit, (&raw mut out).cast()) };
    out
}
const KINDS: [&str; 6] = ["_canary_rustc_", "_canary_optlevel", "_canary_debug", "_canary_target_", "_canary_numjobs", "_canary_host_"];
fn canaries_of(symbol: &str) -> [&'static str; 6] {
    let all = dynamic_symbols();
    let all = all.iter().filter_map(|s| s.strip_prefix(symbol).map(|k| (*s, k)));
    KINDS.map(|kind| {
        let found: Vec<&'static str> = all.clone().filter(|(_, k)| k.starts_with(kind)).map(|(s, _)| s).collect();
        check(found.len() == 1, "canaries", || format!("{symbol} is exported with {found:?} for {kind}"));
        found[0]
    })
}
fn canaries() {
    let which = choose(2);
    let symbol = ["c30_any", "c30_c"][which];
    let gone = choose(128);
    let names = quiet(|| canaries_of(symbol));
    let mut without = [None; 8];
    for i in 0..6 {
        if gone >> i & 1 == 1 {
            without[i] = Some(names[i]);
        }
    }
    if gone & 64 != 0 {
        without[6] = Some(symbol);
    }
    log(|| format!("{symbol} in a library without {:?}", without.iter().flatten().collect::<Vec<_>>()));
    unsafe { CALLS = 0 };
    let l = Lookup::Without(without);
    let ((got, calls), _) = with(l, |l| unsafe {
        let (got, call): (Result<usize, String>, fn(usize) -> usize) = if which == 0 {
            (
                l.get_canaried::<fn(&[u8]) -> usize>(symbol.as_bytes()).map(|f| *f as usize).map_err(|e| quiet(|| e.to_string())),
                |f| core::mem::transmute::<usize, fn(&[u8]) -> usize>(f)(&[1, 2, 3]),
            )
        } else {
            (
                l.get_canaried::<extern "C" fn(u8) -> Option<u32>>(symbol.as_bytes()).map(|f| *f as usize).map_err(|e| quiet(|| e.to_string())),
                |f| core::mem::transmute::<usize, extern "C" fn(u8) -> Option<u32>>(f)(3).unwrap() as usize,
            )
        };
        let calls = CALLS;
        if let Ok(f) = &got {
            let x = call(*f);
            check(x == 3 && CALLS == calls + 1, "call", || format!("{symbol} returned {x}"));
        }
        (got, calls)
    });
    check(calls == 0, "called", || format!("{symbol} was called by looking it up"));
    match &got {
        Ok(f) => {
            check(gone & 0b1011111 == 0, "missing", || format!("{symbol} was handed out by a library without {:?}", without.iter().flatten().collect::<Vec<_>>()));
            let address = if which == 0 { c30_any as fn(&[u8]) -> usize as usize } else { c30_c as extern "C" fn(u8) -> Option<u32> as usize };
            check(*f == address, "other", || format!("another function than {symbol} was handed out"));
        }
        Err(e) => {
            // The host's canary isn't required by the loader, but may be.
            check(gone != 0, "refused", || format!("{symbol}: {e}"));
            check(gone != 32, "refused-host", || format!("{symbol}: {e}"));
            check(!e.is_empty(), "no-reason", || symbol.into());
        }
    }
    outcome(got.is_ok() as u64);
    state(mix(which as u64, gone as u64));
    quiet(|| drop(got));
    step();
}
/// The canaries name what the library was built with.
fn settings() {
    let which = choose(2);
    let kind = choose(6);
    let symbol = ["c30_any", "c30_c"][which];
    let fix = |s: &str| s.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' { c.to_string() } else { format!("_{:x}_", c as u32) }).collect::<String>();
    quiet(|| {
        let release: Vec<u32> = env!("REAL_RELEASE").split('.').map(|p| p.parse().unwrap_or(0)).collect();
        let real = match kind {
            0 => format!("_canary_rustc_{}_{}_{}_{}", release[0], release[1], release[2], &env!("REAL_COMMIT")[..8]),
            1 => format!("_canary_optlevel{}", env!("REAL_OPT_LEVEL")),
            2 => format!("_canary_debug{}", (env!("REAL_DEBUG") == "true") as u8),
            3 => format!("_canary_target_{}", fix(env!("REAL_TARGET"))),
            4 => format!("_canary_numjobs{}", env!("REAL_NUM_JOBS")),
            _ => format!("_canary_host_{}", fix(env!("REAL_HOST"))),
        };
        let found = canaries_of(symbol)[kind];
        let found = &found[symbol.len()..];
        let key = ["rustc", "opt-level", "debug", "target", "num-jobs", "host"][kind];
        check(found == real, key, || format!("{symbol} was built with {real}, but exports {found}"));
    });
    state(mix(which as u64, kind as u64));
    step();
}

/// Functions that other crates export, imported with a type.
struct Import {
    what: &'static str,
    matches: bool,
    /// Calls the function, and tells what it returned.
    call: fn() -> Result<u64, String>,
}
macro_rules! imports {
    ($($m: ident $right: literal: $symbol: ident ($($a: ident: $t: ty = $v: expr),*) -> $o: ty, $read: expr;)*) => {
        $(mod $m {
            #[allow(unused_imports)]
            use super::*;
            #[stabby::import(name = "c")]
            #[allow(clashing_extern_declarations)]
            extern "C" {
                pub fn $symbol($($a: $t),*) -> $o;
            }
        })*
        const IMPORTS: &[Import] = &[$(Import {
            what: stringify!($symbol fn($($t),*) -> $o),
            matches: $right,
            call: || {
                let read: fn($o) -> u64 = $read;
                match $m::$symbol.as_ref() {
                    #[allow(unused_unsafe)]
                    Ok(f) => {
                        check(*f as usize == *$m::$symbol as usize, "changed", || "the imported function changed".into());
                        Ok(read(unsafe { f($($v),*) }))
                    }
                    Err(e) => Err(quiet(|| e.to_string())),
                }
            },
        }),*];
    };
}
imports! {
    i0 true: c30_none() -> (), |_| 1;
    i1 true: c30_u8(a: u8 = 1) -> u8, |x| x as u64;
    i2 false: c30_u8(a: u16 = 1) -> u8, |x| x as u64;
    i3 false: c30_u8(a: u8 = 1) -> i8, |x| x as u64;
    i4 false: c30_u8(a: u8 = 1, b: u8 = 1) -> u8, |x| x as u64;
    i5 false: c30_u8() -> u8, |x| x as u64;
    i6 false: c30_u8(a: u8 = 1) -> (), |_| 0;
    i7 true: c30_pair(a: crate::Tuple2<u8, u16> = Tuple2(1, 2)) -> u8, |x| x as u64;
    i8 false: c30_pair(a: crate::Tuple2<u16, u8> = Tuple2(1, 2)) -> u8, |x| x as u64;
    i9 true: c30_option(a: u8 = 1) -> crate::SOption<u8>, |x| x.unwrap() as u64;
    i10 false: c30_option(a: u8 = 1) -> crate::SOption<i8>, |x| x.unwrap() as u64;
    i11 true: c30_vec(a: crate::SVec<u8> = SVec::new()) -> crate::SVec<u8>, |x| x[0] as u64;
    i12 false: c30_vec(a: crate::SVec<i8> = SVec::new()) -> crate::SVec<u8>, |x| x[0] as u64;
    i13 false: c30_u8_unsafe(a: u8 = 1) -> u8, |x| x as u64;
    i14 true: c30_15(a: u8 = 1, b: u8 = 1, c: u8 = 1, d: u8 = 1, e: u8 = 1, f: u8 = 1, g: u8 = 1, h: u8 = 1, i: u8 = 1, j: u8 = 1, k: u8 = 1, l: u8 = 1, m: u8 = 1, n: u8 = 1, o: u8 = 1) -> u8, |x| x as u64;
    i15 false: c30_14(a: u8 = 1, b: u8 = 1, c: u8 = 1, d: u8 = 1, e: u8 = 1, f: u8 = 1, g: u8 = 1, h: u8 = 1, i: u8 = 1, j: u8 = 1, k: u8 = 1, l: u8 = 1, m: u8 = 1, n: u8 = 1, o: u8 = 1) -> u8, |x| x as u64;
    i16 true: c30_getter() -> extern "C" fn(u8) -> u8, |f| if f == c30_cb as extern "C" fn(u8) -> u8 { 34 } else { 0 };
    i17 false: c30_getter() -> extern "C" fn(u8, u8) -> u8, |_| 0;
}
mod unsafe_import {
    #[stabby::import(name = "c")]
    #[allow(clashing_extern_declarations)]
    extern "C" {
        pub unsafe fn c30_u8_unsafe(a: u8) -> u8;
    }
}
/// The same function required with each set of canaries.
macro_rules! canaried {
    ($($m: ident $spec: literal;)*) => {
        $(mod $m {
            #[stabby::import(canaries = $spec, name = "c")]
            #[allow(clashing_extern_declarations)]
            extern "Rust" {
                pub fn c30_any(v: &[u8]) -> usize;
            }
        })*
        const CANARIED: &[(&str, fn(&[u8]) -> usize)] = &[$(($spec, |v| unsafe { $m::c30_any(v) })),*];
    };
}
canaried! {
    k0 "";
    k1 "none";
    k2 "rustc";
    k3 "debug";
    k4 "rustc, target";
    k5 "host,target ,debug";
    k6 "paranoid";
    k7 "rustc, opt_level";
    k8 "num_jobs";
}
fn imports() {
    let i = choose(IMPORTS.len() + 1 + CANARIED.len());
    unsafe { CALLS = 0 };
    let (what, expected, got) = match i.checked_sub(IMPORTS.len()) {
        None => {
            let import = &IMPORTS[i];
            let id = import.what.split_whitespace().next().unwrap();
            let (types, exports) = families(&[plain]);
            let export = exports.iter().find(|e| e.symbol == id).unwrap();
            let expected = import.matches.then_some(export.returns);
            quiet(|| drop((types, exports)));
            (import.what, expected, (import.call)())
        }
        Some(0) => ("c30_u8_unsafe", Some(4), Ok(unsafe { unsafe_import::c30_u8_unsafe(1) } as u64)),
        Some(i) => {
            let (spec, call) = CANARIED[i - 1];
            (spec, Some(3), Ok(call(&[1, 2, 3]) as u64))
        }
    };
    log(|| what.to_string());
    let calls = unsafe { CALLS };
    match (&got, expected) {
        (Ok(x), Some(y)) => check(*x == y && (calls == 1 || y == 1), "import-call", || format!("{what} returned {x}, after {calls} calls")),
        (Ok(_), None) => fail("import-mismatch", format!("{what} was handed out")),
        (Err(e), Some(_)) => fail("import-refused", format!("{what}: {e}")),
        (Err(_), None) => check(calls == 0, "import-called", || format!("{what} was called")),
    }
    state(i as u64);
    quiet(|| drop(got));
    step();
}

fn main() {
    const B: Bounds = Bounds::SEQ.faults(0);
    mcrt::main(&Prop {
        id: "C30",
        title: "Loading a library hands out only symbols of the expected type",
        assumptions: &[
            "the library is the program itself: the dynamic linker finds its exported functions like those of any other",
            "a library that was built otherwise lacks the symbols that name the settings, or has other reports: both are explored",
            "types of the same name and module stand for the versions of a type",
        ],
        scenarios: vec![
            Scenario { name: "pairs", about: "every exported function asked for as every type, with every set of missing symbols", quick: Some(B.depth(1).split(2)), thorough: B.depth(1).split(2), body: pairs },
            Scenario { name: "versions", about: "the same between functions on versions of a type", quick: Some(B.depth(1).split(2)), thorough: B.depth(1).split(2), body: versions },
            Scenario { name: "names", about: "names next to those of exported functions", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: names },
            Scenario { name: "canaries", about: "functions checked by canaries, with every set of missing symbols", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: canaries },
            Scenario { name: "imports", about: "the same through functions linked at build time", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: imports },
            Scenario { name: "settings", about: "what the exported canaries say", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: settings },
        ],
    })
}
