#![recursion_limit = "512"]
#![allow(unused_imports, clippy::type_complexity)]
include!("../triples.rs");
pub static CUBE: &[&[&[fn() -> Desc]]] = planes!([u8, u16], [u8, bool], [u16, u8], [u16, u64], [u16, Option<NonZeroU16>], [u64, u16], [u64, bool], [bool, u8], [bool, u64], [bool, Option<NonZeroU16>], [Option<NonZeroU16>, u16], [Option<NonZeroU16>, bool]);
