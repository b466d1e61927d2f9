#![allow(dead_code, unused_imports)]
include!("../../common.rs");
pub static ROWS: &[&[fn()]] = rows!(
    [Many, Two, SOption<bool>, SOption<NonZeroU8>, SOption<IntByte>, SResult<u32, u32>, SResult<u8, u16>, SResult<WordByte, Tr>, SOption<SOption<bool>>],
    [(), Zd, u8, u16, u32, IntByte, NonZeroU8, Tr]
);
