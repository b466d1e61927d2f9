#![recursion_limit = "512"]
#![allow(unused_imports, clippy::type_complexity)]
include!("../triples.rs");
pub static CUBE: &[&[&[fn() -> Desc]]] = planes!([u8, u8], [u8, u64], [u8, Option<NonZeroU16>], [u16, u16], [u16, bool], [u64, u8], [u64, u64], [u64, Option<NonZeroU16>], [bool, u16], [bool, bool], [Option<NonZeroU16>, u8], [Option<NonZeroU16>, u64], [Option<NonZeroU16>, Option<NonZeroU16>]);
