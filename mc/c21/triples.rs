// Triples of types, shared among crates like the pairs.
use c21_base::combine::*;
use c21_base::*;
use core::num::{NonZeroU16, NonZeroU8};
use stabby::result::Result as SResult;
use stabby::tuple::{Tuple2, Tuple3};

macro_rules! one {
    ($a: ty, $b: ty, [$($c: ty),*]) => {
        &[$(&[desc::<Tuple3<$a, $b, $c>>, desc::<Tuple2<Tuple2<$a, $b>, $c>>, desc::<Tuple2<$a, Tuple2<$b, $c>>>,
            desc::<Tuple2<E8<$a, $b>, $c>>, desc::<EC8<Tuple2<$a, $b>, $c>>, desc::<Al<Tuple2<$a, $b>, $c>>,
            desc::<SResult<SResult<$a, $b>, $c>>, desc::<Tuple2<$a, SResult<$b, $c>>>] as &[fn() -> Desc]),*]
    };
}
/// One plane per pair of the first two.
macro_rules! planes {
    ($([$a: ty, $b: ty]),*) => { &[$(one!($a, $b, [u8, u16, u64, bool, Option<NonZeroU16>])),*] };
}
