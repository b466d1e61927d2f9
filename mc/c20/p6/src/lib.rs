#![allow(dead_code, unused_imports)]
include!("../../common.rs");
pub static ROWS: &[&[fn()]] = rows!(
    [NonZeroU16, NonZeroU32, u128, NonMaxU8, NonXU16<0x100>, ShortByte, ByteWord, TagC, TagShort],
    [(), Zd, u8, u16, u32, IntByte, NonZeroU8, Tr]
);
