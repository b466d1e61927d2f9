#![allow(dead_code, unused_imports)]
include!("../../common.rs");
pub static ROWS: &[&[fn()]] = rows!(
    [ByteShort, IntByte, WordByte],
    [(), u8, bool, NonZeroU8, u16, u32, u64, Three, &'static u8, Option<NonZeroU16>, Tr, Owned, ByteShort, IntByte, WordByte, SOption<u8>, TagByte]
);
