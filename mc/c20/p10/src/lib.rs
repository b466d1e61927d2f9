#![allow(dead_code, unused_imports)]
include!("../../common.rs");
macro_rules! opts {
    ($($t: ty),* $(,)?) => {
        pub fn all_options() {
            let all: &[fn()] = &[$(options::<$t>),*];
            all[choose(all.len())]()
        }
    };
}
opts!(
    (), Zd, SOption<Zd>, SResult<Zd, u8>, u8, bool, NonZeroU8, u16, NonZeroU16, u32, NonZeroU32, u64, u128, NonMaxU8, NonXU16<0x100>, &'static u8, Option<NonZeroU16>, ByteShort, ShortByte, WordByte, ByteWord, IntByte, Tr,
    Owned, Three, TagByte, TagC, TagShort, Many, Two, SOption<()>, SOption<u8>, SOption<bool>, SOption<SOption<bool>>, SOption<SOption<SOption<u8>>>, SOption<SOption<SOption<SOption<IntByte>>>>,
    SResult<u32, u32>, SResult<SResult<u32, u32>, SResult<u16, u8>>, SResult<bool, SOption<NonZeroU8>>, SOption<Owned>, SResult<u64, ByteShort>, SOption<SOption<TagByte>>, AnyByte, AnyFlag, AnyRef, SOption<AnyFlag>, SResult<AnyByte, u8>, SResult<u8, AnyByte>, SResult<AnyRef, u8>,
);
pub fn generated_type() {
    generated()
}
pub fn all_cells() {
    let all: &[fn()] = &[cells::<u8>, cells::<bool>, cells::<ByteShort>, cells::<ShortByte>, cells::<WordByte>, cells::<ByteWord>, cells::<IntByte>];
    all[choose(all.len())]()
}
