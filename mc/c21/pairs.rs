// Pairs of types. Included by each of the crates that share the matrix among them, so that they compile in parallel.
use c21_base::combine::*;
use c21_base::shapes::{Fl, Tg, A3, S7};
use c21_base::*;
use core::cmp::Ordering as Ord3;
use core::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::tuple::Tuple2;

macro_rules! row {
    ($m: ident $a: ty, [$($b: ty),*]) => { &[$($m!($a, $b)),*] };
}
macro_rules! matrix {
    ($m: ident [$($a: ty),*] $bs: tt) => { &[$(row!($m $a, $bs)),*] };
}
macro_rules! all {
    ($m: ident $as: tt) => {
        matrix!($m $as [(), u8, u16, u32, u64, u128, bool, NonZeroU8, NonZeroU32, Ord3, &'static u8, [u16; 3], [u64; 0], Tuple2<u8, u16>, SOption<bool>, Option<NonZeroU16>, Fl, Tg, A3, S7])
    };
}
macro_rules! shapes {
    ($a: ty, $b: ty) => {
        &[desc::<Tuple2<$a, $b>>, desc::<E8<$a, $b>>, desc::<E32<$a, $b>>, desc::<EC8<$a, $b>>, desc::<EC16<$a, $b>>, desc::<U<$a, $b>>, desc::<SResult<$a, $b>>, desc::<Al<$a, $b>>]
    };
}
macro_rules! fit {
    ($a: ty, $b: ty) => {
        (desc::<$a>, desc::<$b>, fit::<$a, $b>)
    };
}
