#![recursion_limit = "512"]
#![allow(unused_imports, clippy::type_complexity)]
include!("../pairs.rs");
pub static SHAPES: &[&[&[fn() -> Desc]]] = all!(shapes [(), u64, NonZeroU32, [u64; 0], Fl]);
pub static FITS: &[&[Fit]] = all!(fit [(), u64, NonZeroU32, [u64; 0], Fl]);
