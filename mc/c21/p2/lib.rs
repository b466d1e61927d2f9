#![recursion_limit = "512"]
#![allow(unused_imports, clippy::type_complexity)]
include!("../pairs.rs");
pub static SHAPES: &[&[&[fn() -> Desc]]] = all!(shapes [u16, bool, &'static u8, SOption<bool>, A3]);
pub static FITS: &[&[Fit]] = all!(fit [u16, bool, &'static u8, SOption<bool>, A3]);
