#![recursion_limit = "512"]
#![allow(unused_imports, clippy::type_complexity)]
include!("../pairs.rs");
pub static SHAPES: &[&[&[fn() -> Desc]]] = all!(shapes [u32, NonZeroU8, [u16; 3], Option<NonZeroU16>, S7]);
pub static FITS: &[&[Fit]] = all!(fit [u32, NonZeroU8, [u16; 3], Option<NonZeroU16>, S7]);
