#![allow(dead_code, unused_imports)]
include!("../../common.rs");
pub static ROWS: &[&[fn()]] = rows!(
    [u8, u16, u32, Zd],
    [NonZeroU16, NonZeroU32, u128, NonMaxU8, NonXU16<0x100>, ShortByte, ByteWord, TagC, TagShort, Many, Two, SOption<bool>, SOption<NonZeroU8>, SOption<IntByte>, SResult<u32, u32>, SResult<u8, u16>, SResult<WordByte, Tr>, SOption<SOption<bool>>]
);
