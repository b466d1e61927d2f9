#![recursion_limit = "512"]
#![allow(unused_imports, clippy::type_complexity)]
include!("../pairs.rs");
pub static SHAPES: &[&[&[fn() -> Desc]]] = all!(shapes [u8, u128, Ord3, Tuple2<u8, u16>, Tg]);
pub static FITS: &[&[Fit]] = all!(fit [u8, u128, Ord3, Tuple2<u8, u16>, Tg]);
