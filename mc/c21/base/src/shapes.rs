use crate::*;
use core::mem::ManuallyDrop;
use core::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use stabby::stabby;

macro_rules! sample {
    ($t: ty, $ptr: expr, [$($v: expr),*], |$s: ident| $key: expr) => {
        impl Sample for $t {
            const PTR: bool = $ptr;
            fn n() -> usize {
                <[fn() -> $t]>::len(&[$(|| $v),*])
            }
            fn make(i: usize) -> Self {
                let all: &[fn() -> $t] = &[$(|| $v),*];
                all[i]()
            }
            #[allow(clippy::clone_on_copy)]
            fn same(&self, i: usize) -> bool {
                let key = |$s: &$t| $key;
                let other = ManuallyDrop::new(<Self as Sample>::make(i));
                key(self) == key(&other)
            }
        }
    };
}
const N1: NonZeroU8 = NonZeroU8::MIN;
const N2: NonZeroU8 = NonZeroU8::MAX;

macro_rules! structs {
    ($($(#[$a: meta])* $name: ident { $($f: ident: $t: ty = $v: expr, $w: expr;)* })*) => {
        $(
            #[stabby(no_opt)]
            $(#[$a])*
            #[derive(Clone, PartialEq)]
            pub struct $name { $($f: $t),* }
            sample!($name, false, [$name { $($f: $v),* }, $name { $($f: $w),* }], |s| s.clone());
        )*
    };
}
structs! {
    S1 { a: u8 = 0, 255; }
    S2 { a: u8 = 0, 255; b: u32 = 0, u32::MAX; }
    S3 { a: u32 = 0, u32::MAX; b: u8 = 0, 255; }
    S4 { a: u8 = 0, 255; b: u16 = 0, 0xffff; c: u8 = 0, 255; d: u64 = 0, u64::MAX; e: u8 = 0, 255; }
    S5 { a: S2 = S2 { a: 0, b: 0 }, S2 { a: 255, b: u32::MAX }; b: u8 = 0, 255; c: S3 = S3 { a: 0, b: 0 }, S3 { a: u32::MAX, b: 255 }; d: u16 = 0, 0xffff; }
    S6 { a: bool = false, true; b: u16 = 0, 0xffff; c: bool = true, false; }
    S7 { a: NonZeroU8 = N1, N2; b: u16 = 0, 0xffff; c: () = (), (); }
    S8 { a: [u64; 0] = [], []; b: u8 = 0, 255; }
    S9 { b: u8 = 0, 255; a: [u64; 0] = [], []; }
    S10 { a: u8 = 0, 255; b: u128 = 0, u128::MAX; c: u8 = 0, 255; }
    #[repr(align(1))] A1 { a: u8 = 0, 255; }
    #[repr(align(2))] A2 { a: u8 = 0, 255; }
    #[repr(align(4))] A3 { a: u8 = 0, 255; b: u16 = 0, 0xffff; }
    #[repr(align(4))] A4 { a: u8 = 0, 255; b: u64 = 0, u64::MAX; }
    #[repr(align(16))] A5 { a: u8 = 0, 255; b: u32 = 0, u32::MAX; }
    #[repr(align(16))] A6 { a: u8 = 0, 255; b: u128 = 0, u128::MAX; c: u16 = 0, 0xffff; }
    #[repr(align(32))] A7 { a: NonZeroU8 = N1, N2; }
    #[repr(align(64))] A8 { a: A5 = A5 { a: 0, b: 0 }, A5 { a: 255, b: u32::MAX }; b: u8 = 0, 255; }
    #[repr(align(8))] A9 { a: [u16; 3] = [0; 3], [0xffff; 3]; b: bool = false, true; }
    NA { a: u8 = 0, 255; b: A2 = A2 { a: 0 }, A2 { a: 255 }; c: A7 = A7 { a: N1 }, A7 { a: N2 }; d: u8 = 0, 255; }
    #[repr(C)] C1 { a: u8 = 0, 255; b: u32 = 0, u32::MAX; c: u16 = 0, 0xffff; }
    #[repr(transparent)] T1 { a: NonZeroU16 = NonZeroU16::MIN, NonZeroU16::MAX; }
    #[repr(transparent)] T2 { a: S4 = S4 { a: 0, b: 0, c: 0, d: 0, e: 0 }, S4 { a: 255, b: 0xffff, c: 255, d: u64::MAX, e: 255 }; }
    #[repr(transparent)] T3 { a: S2 = S2 { a: 0, b: 0 }, S2 { a: 255, b: u32::MAX }; b: () = (), (); }
}
/// More than one attribute, or more than one representation.
macro_rules! combined {
    ($($(#[$a: meta])* $name: ident { $($f: ident: $t: ty = $v: expr, $w: expr;)* })*) => {
        structs! { $($(#[$a])* $name { $($f: $t = $v, $w;)* })* }
    };
}
combined! {
    #[repr(C, align(8))] X1 { a: u8 = 0, 255; }
    #[repr(align(8), C)] X2 { a: u8 = 0, 255; b: u16 = 0, 0xffff; }
    #[repr(C)] #[repr(align(8))] X3 { a: u8 = 0, 255; }
    #[repr(align(4), align(16))] X4 { a: u8 = 0, 255; }
}
macro_rules! fieldless {
    ($($(#[$a: meta])* $name: ident;)*) => {
        $(
            #[stabby]
            $(#[$a])*
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum $name { A, B, C }
            sample!($name, false, [$name::A, $name::B, $name::C], |s| *s);
        )*
    };
}
fieldless! {
    #[repr(u8)] Fl;
    #[repr(u16)] Fl16;
    #[repr(u32)] Fl32;
    #[repr(u64)] Fl64;
    #[repr(usize)] Flu;
    #[repr(i8)] Fli8;
    #[repr(i16)] Fli16;
    #[repr(i32)] Fli32;
    #[repr(i64)] Fli64;
    #[repr(isize)] Fli;
}
#[stabby]
#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Full { A = 0, B = 255, C = 7 }
sample!(Full, false, [Full::A, Full::B, Full::C], |s| *s);
#[stabby]
#[repr(i16)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Sparse { A = -32768, B = 32767, C = 0 }
sample!(Sparse, false, [Sparse::A, Sparse::B, Sparse::C], |s| *s);
macro_rules! tagged {
    ($($(#[$a: meta])* $name: ident;)*) => {
        $(
            #[stabby]
            $(#[$a])*
            #[derive(Debug, Clone, Copy, PartialEq)]
            pub enum $name { A, B(u8), C(u32), D(bool), E(NonZeroU16), F(stabby::tuple::Tuple2<u8, u16>), G([u64; 0]), H(()) }
            sample!($name, false, [$name::A, $name::B(0), $name::B(255), $name::C(0), $name::C(u32::MAX), $name::D(false), $name::D(true), $name::E(NonZeroU16::MIN), $name::E(NonZeroU16::MAX),
                $name::F(stabby::tuple::Tuple2(0, 0)), $name::F(stabby::tuple::Tuple2(255, 0xffff)), $name::G([]), $name::H(())], |s| *s);
        )*
    };
}
tagged! {
    #[repr(u8)] Tg;
    #[repr(u16)] Tg16;
    #[repr(u32)] Tg32;
    #[repr(u64)] Tg64;
    #[repr(usize)] Tgu;
    #[repr(i8)] Tgi8;
    #[repr(i16)] Tgi16;
    #[repr(i32)] Tgi32;
    #[repr(i64)] Tgi64;
    #[repr(isize)] Tgi;
    #[repr(C, u8)] TgC8;
    #[repr(C, u16)] TgC16;
    #[repr(C, u32)] TgC32;
    #[repr(C, i64)] TgC64;
}
#[stabby]
#[repr(C, u8)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rec { A, B { x: u8, y: u32 }, C(u16, u8), D { z: u64 }, E(u8) }
sample!(Rec, false, [Rec::A, Rec::B { x: 0, y: 0 }, Rec::B { x: 255, y: u32::MAX }, Rec::C(0, 0), Rec::C(0xffff, 255), Rec::D { z: 0 }, Rec::D { z: u64::MAX }, Rec::E(0), Rec::E(255)], |s| *s);
#[stabby]
#[repr(C, u16)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rec16 { A { x: u8, y: u8, z: u8 }, B(u8, u16, u8) }
sample!(Rec16, false, [Rec16::A { x: 0, y: 0, z: 0 }, Rec16::A { x: 255, y: 255, z: 255 }, Rec16::B(0, 0, 0), Rec16::B(255, 0xffff, 255)], |s| *s);
#[stabby]
#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum One { A(NonZeroU32) }
sample!(One, false, [One::A(NonZeroU32::MIN), One::A(NonZeroU32::MAX)], |s| *s);

#[stabby]
#[repr(stabby)]
pub enum St { Aa(u8), Bb(u32), Cc, Dd(bool) }
#[allow(non_snake_case)]
fn st(s: &St) -> (u8, u64) {
    s.match_ref(|a| (0, *a as u64), |b| (1, *b as u64), || (2, 0), |d| (3, *d as u64))
}
sample!(St, false, [St::Aa(0), St::Aa(255), St::Bb(0), St::Bb(u32::MAX), St::Cc(), St::Dd(false), St::Dd(true)], |s| st(s));
#[stabby]
#[repr(stabby)]
pub enum St2 { Aa(stabby::tuple::Tuple2<u8, u16>), Bb(NonZeroU8), Cc(bool) }
sample!(St2, false, [St2::Aa(stabby::tuple::Tuple2(0, 0)), St2::Aa(stabby::tuple::Tuple2(255, 0xffff)), St2::Bb(N1), St2::Bb(N2), St2::Cc(false), St2::Cc(true)],
    |s| s.match_ref(|a| (0, a.0 as u64 * 0x10000 + a.1 as u64), |b| (1, b.get() as u64), |c| (2, *c as u64)));

#[stabby]
#[derive(Clone, Copy)]
pub union U1 { a: u8, b: u32 }
sample!(U1, false, [U1 { b: 0 }, U1 { b: u32::MAX }], |s| unsafe { s.b });
#[stabby]
#[derive(Clone, Copy)]
pub union U2 { a: [u16; 3], b: u32, c: bool }
sample!(U2, false, [unsafe { core::mem::transmute([0u8; 8]) }, unsafe { core::mem::transmute([255u8; 8]) }], |s| unsafe { core::mem::transmute::<U2, [u8; 8]>(*s) });
#[stabby]
#[derive(Clone, Copy)]
pub union U3 { a: NonZeroU8 }
sample!(U3, false, [unsafe { core::mem::transmute(0u8) }, U3 { a: N2 }], |s| unsafe { core::mem::transmute::<U3, u8>(*s) });
/// Over-aligned, whatever they hold.
#[stabby]
#[repr(align(16))]
#[derive(Clone, Copy, PartialEq)]
pub struct AZ;
sample!(AZ, false, [AZ], |s| *s);
#[stabby]
#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub union AU1 { a: u8, b: u32 }
sample!(AU1, false, [AU1 { b: 0 }, AU1 { b: u32::MAX }], |s| unsafe { s.b });
#[stabby]
#[repr(align(2))]
#[derive(Clone, Copy)]
pub union AU2 { a: u8, b: [u8; 3] }
sample!(AU2, false, [AU2 { b: [0; 3] }, AU2 { b: [255; 3] }], |s| unsafe { s.b });
#[stabby]
#[repr(C)]
#[repr(align(1))]
#[derive(Clone, Copy)]
pub union AU3 { a: NonZeroU8, b: u16 }
sample!(AU3, false, [AU3 { b: 0 }, AU3 { b: 0xffff }], |s| unsafe { s.b });
#[stabby(no_opt)]
#[derive(Clone)]
pub struct AN { a: u8, b: AZ, c: AU1, d: AU2, e: u8 }
sample!(AN, false, [AN { a: 0, b: AZ, c: AU1 { b: 0 }, d: AU2 { b: [0; 3] }, e: 0 }, AN { a: 255, b: AZ, c: AU1 { b: u32::MAX }, d: AU2 { b: [255; 3] }, e: 255 }],
    |s| (s.a, unsafe { s.c.b }, unsafe { s.d.b }, s.e));
#[stabby]
#[derive(Clone, Copy)]
pub union U4 { a: &'static u8, b: usize }
sample!(U4, true, [U4 { b: 0 }, U4 { b: usize::MAX }], |s| unsafe { s.b });
#[stabby]
#[derive(Clone)]
pub struct P1 { a: u8, b: &'static u8 }
sample!(P1, true, [P1 { a: 0, b: &7 }, P1 { a: 255, b: &7 }], |s| (s.a, *s.b));
#[stabby]
#[repr(u8)]
#[derive(Clone)]
pub enum P2 { A(u8), B(&'static u8) }
sample!(P2, true, [P2::A(0), P2::A(255), P2::B(&7)], |s| match s { P2::A(a) => (0, *a), P2::B(b) => (1, **b) });

macro_rules! all {
    ($($t: ty),* $(,)?) => { &[$(desc::<$t>),*] };
}
const ALL: &[fn() -> Desc] = all![
    S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, A1, A2, A3, A4, A5, A6, A7, A8, A9, NA, C1, T1, T2, T3, X1, X2, X3, X4,
    Fl, Fl16, Fl32, Fl64, Flu, Fli8, Fli16, Fli32, Fli64, Fli, Full, Sparse,
    Tg, Tg16, Tg32, Tg64, Tgu, Tgi8, Tgi16, Tgi32, Tgi64, Tgi, TgC8, TgC16, TgC32, TgC64, Rec, Rec16, One, St, St2, U1, U2, U3, U4, AZ, AU1, AU2, AU3, AN, P1, P2,
];
pub fn run() {
    let d = ALL[choose(ALL.len())]();
    one(&d)
}
