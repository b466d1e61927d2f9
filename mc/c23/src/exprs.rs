// Generated by tools/gen_c23.py.
use crate::Twelve;
use stabby_abi::typenum2::*;
use stabby_macros::tyeval;
pub const EXPRS: &[(&str, u128, u128, fn() -> &'static str)] = &[
    e!(0, U0),
    e!(6, U6),
    e!(13, crate::Id<U13>),
    e!(12, Twelve),
    e!(0, U0 + U0),
    e!(6, U0 + U6),
    e!(13, U0 + crate::Id<U13>),
    e!(12, U0 + Twelve),
    e!(19, U0 + (U6 + crate::Id<U13>)),
    e!(18, U0 + (Twelve + U6)),
    e!(7, U0 + (U6 - crate::Id<U13>)),
    e!(6, U0 + (Twelve - U6)),
    e!(15, U0 + (U6 | crate::Id<U13>)),
    e!(14, U0 + (Twelve | U6)),
    e!(4, U0 + (U6 & crate::Id<U13>)),
    e!(4, U0 + (Twelve & U6)),
    e!(5, U0 + (crate::Id<U13> % U8)),
    e!(12, U0 + ((U6 == U6) ? Twelve : U0)),
    e!(6, U0 + ((U6 == U0) ? Twelve : U6)),
    e!(6, U6 + U0),
    e!(12, U6 + U6),
    e!(19, U6 + crate::Id<U13>),
    e!(18, U6 + Twelve),
    e!(25, U6 + (U6 + crate::Id<U13>)),
    e!(24, U6 + (Twelve + U6)),
    e!(13, U6 + (U6 - crate::Id<U13>)),
    e!(12, U6 + (Twelve - U6)),
    e!(21, U6 + (U6 | crate::Id<U13>)),
    e!(20, U6 + (Twelve | U6)),
    e!(10, U6 + (U6 & crate::Id<U13>)),
    e!(10, U6 + (Twelve & U6)),
    e!(11, U6 + (crate::Id<U13> % U8)),
    e!(18, U6 + ((U6 == U6) ? Twelve : U0)),
    e!(12, U6 + ((U6 == U0) ? Twelve : U6)),
    e!(13, crate::Id<U13> + U0),
    e!(19, crate::Id<U13> + U6),
    e!(26, crate::Id<U13> + crate::Id<U13>),
    e!(25, crate::Id<U13> + Twelve),
    e!(32, crate::Id<U13> + (U6 + crate::Id<U13>)),
    e!(31, crate::Id<U13> + (Twelve + U6)),
    e!(20, crate::Id<U13> + (U6 - crate::Id<U13>)),
    e!(19, crate::Id<U13> + (Twelve - U6)),
    e!(28, crate::Id<U13> + (U6 | crate::Id<U13>)),
    e!(27, crate::Id<U13> + (Twelve | U6)),
    e!(17, crate::Id<U13> + (U6 & crate::Id<U13>)),
    e!(17, crate::Id<U13> + (Twelve & U6)),
    e!(18, crate::Id<U13> + (crate::Id<U13> % U8)),
    e!(25, crate::Id<U13> + ((U6 == U6) ? Twelve : U0)),
    e!(19, crate::Id<U13> + ((U6 == U0) ? Twelve : U6)),
    e!(12, Twelve + U0),
    e!(18, Twelve + U6),
    e!(25, Twelve + crate::Id<U13>),
    e!(24, Twelve + Twelve),
    e!(31, Twelve + (U6 + crate::Id<U13>)),
    e!(30, Twelve + (Twelve + U6)),
    e!(19, Twelve + (U6 - crate::Id<U13>)),
    e!(18, Twelve + (Twelve - U6)),
    e!(27, Twelve + (U6 | crate::Id<U13>)),
    e!(26, Twelve + (Twelve | U6)),
    e!(16, Twelve + (U6 & crate::Id<U13>)),
    e!(16, Twelve + (Twelve & U6)),
    e!(17, Twelve + (crate::Id<U13> % U8)),
    e!(24, Twelve + ((U6 == U6) ? Twelve : U0)),
    e!(18, Twelve + ((U6 == U0) ? Twelve : U6)),
    e!(19, (U6 + crate::Id<U13>) + U0),
    e!(25, (U6 + crate::Id<U13>) + U6),
    e!(32, (U6 + crate::Id<U13>) + crate::Id<U13>),
    e!(31, (U6 + crate::Id<U13>) + Twelve),
    e!(38, (U6 + crate::Id<U13>) + (U6 + crate::Id<U13>)),
    e!(37, (U6 + crate::Id<U13>) + (Twelve + U6)),
    e!(26, (U6 + crate::Id<U13>) + (U6 - crate::Id<U13>)),
    e!(25, (U6 + crate::Id<U13>) + (Twelve - U6)),
    e!(34, (U6 + crate::Id<U13>) + (U6 | crate::Id<U13>)),
    e!(33, (U6 + crate::Id<U13>) + (Twelve | U6)),
    e!(23, (U6 + crate::Id<U13>) + (U6 & crate::Id<U13>)),
    e!(23, (U6 + crate::Id<U13>) + (Twelve & U6)),
    e!(24, (U6 + crate::Id<U13>) + (crate::Id<U13> % U8)),
    e!(31, (U6 + crate::Id<U13>) + ((U6 == U6) ? Twelve : U0)),
    e!(25, (U6 + crate::Id<U13>) + ((U6 == U0) ? Twelve : U6)),
    e!(18, (Twelve + U6) + U0),
    e!(24, (Twelve + U6) + U6),
    e!(31, (Twelve + U6) + crate::Id<U13>),
    e!(30, (Twelve + U6) + Twelve),
    e!(37, (Twelve + U6) + (U6 + crate::Id<U13>)),
    e!(36, (Twelve + U6) + (Twelve + U6)),
    e!(25, (Twelve + U6) + (U6 - crate::Id<U13>)),
    e!(24, (Twelve + U6) + (Twelve - U6)),
    e!(33, (Twelve + U6) + (U6 | crate::Id<U13>)),
    e!(32, (Twelve + U6) + (Twelve | U6)),
    e!(22, (Twelve + U6) + (U6 & crate::Id<U13>)),
    e!(22, (Twelve + U6) + (Twelve & U6)),
    e!(23, (Twelve + U6) + (crate::Id<U13> % U8)),
    e!(30, (Twelve + U6) + ((U6 == U6) ? Twelve : U0)),
    e!(24, (Twelve + U6) + ((U6 == U0) ? Twelve : U6)),
    e!(7, (U6 - crate::Id<U13>) + U0),
    e!(13, (U6 - crate::Id<U13>) + U6),
    e!(20, (U6 - crate::Id<U13>) + crate::Id<U13>),
    e!(19, (U6 - crate::Id<U13>) + Twelve),
    e!(26, (U6 - crate::Id<U13>) + (U6 + crate::Id<U13>)),
    e!(25, (U6 - crate::Id<U13>) + (Twelve + U6)),
    e!(14, (U6 - crate::Id<U13>) + (U6 - crate::Id<U13>)),
    e!(13, (U6 - crate::Id<U13>) + (Twelve - U6)),
    e!(22, (U6 - crate::Id<U13>) + (U6 | crate::Id<U13>)),
    e!(21, (U6 - crate::Id<U13>) + (Twelve | U6)),
    e!(11, (U6 - crate::Id<U13>) + (U6 & crate::Id<U13>)),
    e!(11, (U6 - crate::Id<U13>) + (Twelve & U6)),
    e!(12, (U6 - crate::Id<U13>) + (crate::Id<U13> % U8)),
    e!(19, (U6 - crate::Id<U13>) + ((U6 == U6) ? Twelve : U0)),
    e!(13, (U6 - crate::Id<U13>) + ((U6 == U0) ? Twelve : U6)),
    e!(6, (Twelve - U6) + U0),
    e!(12, (Twelve - U6) + U6),
    e!(19, (Twelve - U6) + crate::Id<U13>),
    e!(18, (Twelve - U6) + Twelve),
    e!(25, (Twelve - U6) + (U6 + crate::Id<U13>)),
    e!(24, (Twelve - U6) + (Twelve + U6)),
    e!(13, (Twelve - U6) + (U6 - crate::Id<U13>)),
    e!(12, (Twelve - U6) + (Twelve - U6)),
    e!(21, (Twelve - U6) + (U6 | crate::Id<U13>)),
    e!(20, (Twelve - U6) + (Twelve | U6)),
    e!(10, (Twelve - U6) + (U6 & crate::Id<U13>)),
    e!(10, (Twelve - U6) + (Twelve & U6)),
    e!(11, (Twelve - U6) + (crate::Id<U13> % U8)),
    e!(18, (Twelve - U6) + ((U6 == U6) ? Twelve : U0)),
    e!(12, (Twelve - U6) + ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 | crate::Id<U13>) + U0),
    e!(21, (U6 | crate::Id<U13>) + U6),
    e!(28, (U6 | crate::Id<U13>) + crate::Id<U13>),
    e!(27, (U6 | crate::Id<U13>) + Twelve),
    e!(34, (U6 | crate::Id<U13>) + (U6 + crate::Id<U13>)),
    e!(33, (U6 | crate::Id<U13>) + (Twelve + U6)),
    e!(22, (U6 | crate::Id<U13>) + (U6 - crate::Id<U13>)),
    e!(21, (U6 | crate::Id<U13>) + (Twelve - U6)),
    e!(30, (U6 | crate::Id<U13>) + (U6 | crate::Id<U13>)),
    e!(29, (U6 | crate::Id<U13>) + (Twelve | U6)),
    e!(19, (U6 | crate::Id<U13>) + (U6 & crate::Id<U13>)),
    e!(19, (U6 | crate::Id<U13>) + (Twelve & U6)),
    e!(20, (U6 | crate::Id<U13>) + (crate::Id<U13> % U8)),
    e!(27, (U6 | crate::Id<U13>) + ((U6 == U6) ? Twelve : U0)),
    e!(21, (U6 | crate::Id<U13>) + ((U6 == U0) ? Twelve : U6)),
    e!(14, (Twelve | U6) + U0),
    e!(20, (Twelve | U6) + U6),
    e!(27, (Twelve | U6) + crate::Id<U13>),
    e!(26, (Twelve | U6) + Twelve),
    e!(33, (Twelve | U6) + (U6 + crate::Id<U13>)),
    e!(32, (Twelve | U6) + (Twelve + U6)),
    e!(21, (Twelve | U6) + (U6 - crate::Id<U13>)),
    e!(20, (Twelve | U6) + (Twelve - U6)),
    e!(29, (Twelve | U6) + (U6 | crate::Id<U13>)),
    e!(28, (Twelve | U6) + (Twelve | U6)),
    e!(18, (Twelve | U6) + (U6 & crate::Id<U13>)),
    e!(18, (Twelve | U6) + (Twelve & U6)),
    e!(19, (Twelve | U6) + (crate::Id<U13> % U8)),
    e!(26, (Twelve | U6) + ((U6 == U6) ? Twelve : U0)),
    e!(20, (Twelve | U6) + ((U6 == U0) ? Twelve : U6)),
    e!(4, (U6 & crate::Id<U13>) + U0),
    e!(10, (U6 & crate::Id<U13>) + U6),
    e!(17, (U6 & crate::Id<U13>) + crate::Id<U13>),
    e!(16, (U6 & crate::Id<U13>) + Twelve),
    e!(23, (U6 & crate::Id<U13>) + (U6 + crate::Id<U13>)),
    e!(22, (U6 & crate::Id<U13>) + (Twelve + U6)),
    e!(11, (U6 & crate::Id<U13>) + (U6 - crate::Id<U13>)),
    e!(10, (U6 & crate::Id<U13>) + (Twelve - U6)),
    e!(19, (U6 & crate::Id<U13>) + (U6 | crate::Id<U13>)),
    e!(18, (U6 & crate::Id<U13>) + (Twelve | U6)),
    e!(8, (U6 & crate::Id<U13>) + (U6 & crate::Id<U13>)),
    e!(8, (U6 & crate::Id<U13>) + (Twelve & U6)),
    e!(9, (U6 & crate::Id<U13>) + (crate::Id<U13> % U8)),
    e!(16, (U6 & crate::Id<U13>) + ((U6 == U6) ? Twelve : U0)),
    e!(10, (U6 & crate::Id<U13>) + ((U6 == U0) ? Twelve : U6)),
    e!(4, (Twelve & U6) + U0),
    e!(10, (Twelve & U6) + U6),
    e!(17, (Twelve & U6) + crate::Id<U13>),
    e!(16, (Twelve & U6) + Twelve),
    e!(23, (Twelve & U6) + (U6 + crate::Id<U13>)),
    e!(22, (Twelve & U6) + (Twelve + U6)),
    e!(11, (Twelve & U6) + (U6 - crate::Id<U13>)),
    e!(10, (Twelve & U6) + (Twelve - U6)),
    e!(19, (Twelve & U6) + (U6 | crate::Id<U13>)),
    e!(18, (Twelve & U6) + (Twelve | U6)),
    e!(8, (Twelve & U6) + (U6 & crate::Id<U13>)),
    e!(8, (Twelve & U6) + (Twelve & U6)),
    e!(9, (Twelve & U6) + (crate::Id<U13> % U8)),
    e!(16, (Twelve & U6) + ((U6 == U6) ? Twelve : U0)),
    e!(10, (Twelve & U6) + ((U6 == U0) ? Twelve : U6)),
    e!(5, (crate::Id<U13> % U8) + U0),
    e!(11, (crate::Id<U13> % U8) + U6),
    e!(18, (crate::Id<U13> % U8) + crate::Id<U13>),
    e!(17, (crate::Id<U13> % U8) + Twelve),
    e!(24, (crate::Id<U13> % U8) + (U6 + crate::Id<U13>)),
    e!(23, (crate::Id<U13> % U8) + (Twelve + U6)),
    e!(12, (crate::Id<U13> % U8) + (U6 - crate::Id<U13>)),
    e!(11, (crate::Id<U13> % U8) + (Twelve - U6)),
    e!(20, (crate::Id<U13> % U8) + (U6 | crate::Id<U13>)),
    e!(19, (crate::Id<U13> % U8) + (Twelve | U6)),
    e!(9, (crate::Id<U13> % U8) + (U6 & crate::Id<U13>)),
    e!(9, (crate::Id<U13> % U8) + (Twelve & U6)),
    e!(10, (crate::Id<U13> % U8) + (crate::Id<U13> % U8)),
    e!(17, (crate::Id<U13> % U8) + ((U6 == U6) ? Twelve : U0)),
    e!(11, (crate::Id<U13> % U8) + ((U6 == U0) ? Twelve : U6)),
    e!(12, ((U6 == U6) ? Twelve : U0) + U0),
    e!(18, ((U6 == U6) ? Twelve : U0) + U6),
    e!(25, ((U6 == U6) ? Twelve : U0) + crate::Id<U13>),
    e!(24, ((U6 == U6) ? Twelve : U0) + Twelve),
    e!(31, ((U6 == U6) ? Twelve : U0) + (U6 + crate::Id<U13>)),
    e!(30, ((U6 == U6) ? Twelve : U0) + (Twelve + U6)),
    e!(19, ((U6 == U6) ? Twelve : U0) + (U6 - crate::Id<U13>)),
    e!(18, ((U6 == U6) ? Twelve : U0) + (Twelve - U6)),
    e!(27, ((U6 == U6) ? Twelve : U0) + (U6 | crate::Id<U13>)),
    e!(26, ((U6 == U6) ? Twelve : U0) + (Twelve | U6)),
    e!(16, ((U6 == U6) ? Twelve : U0) + (U6 & crate::Id<U13>)),
    e!(16, ((U6 == U6) ? Twelve : U0) + (Twelve & U6)),
    e!(17, ((U6 == U6) ? Twelve : U0) + (crate::Id<U13> % U8)),
    e!(24, ((U6 == U6) ? Twelve : U0) + ((U6 == U6) ? Twelve : U0)),
    e!(18, ((U6 == U6) ? Twelve : U0) + ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 == U0) ? Twelve : U6) + U0),
    e!(12, ((U6 == U0) ? Twelve : U6) + U6),
    e!(19, ((U6 == U0) ? Twelve : U6) + crate::Id<U13>),
    e!(18, ((U6 == U0) ? Twelve : U6) + Twelve),
    e!(25, ((U6 == U0) ? Twelve : U6) + (U6 + crate::Id<U13>)),
    e!(24, ((U6 == U0) ? Twelve : U6) + (Twelve + U6)),
    e!(13, ((U6 == U0) ? Twelve : U6) + (U6 - crate::Id<U13>)),
    e!(12, ((U6 == U0) ? Twelve : U6) + (Twelve - U6)),
    e!(21, ((U6 == U0) ? Twelve : U6) + (U6 | crate::Id<U13>)),
    e!(20, ((U6 == U0) ? Twelve : U6) + (Twelve | U6)),
    e!(10, ((U6 == U0) ? Twelve : U6) + (U6 & crate::Id<U13>)),
    e!(10, ((U6 == U0) ? Twelve : U6) + (Twelve & U6)),
    e!(11, ((U6 == U0) ? Twelve : U6) + (crate::Id<U13> % U8)),
    e!(18, ((U6 == U0) ? Twelve : U6) + ((U6 == U6) ? Twelve : U0)),
    e!(12, ((U6 == U0) ? Twelve : U6) + ((U6 == U0) ? Twelve : U6)),
    e!(0, U0 - U0),
    e!(6, U0 - U6),
    e!(13, U0 - crate::Id<U13>),
    e!(12, U0 - Twelve),
    e!(19, U0 - (U6 + crate::Id<U13>)),
    e!(18, U0 - (Twelve + U6)),
    e!(7, U0 - (U6 - crate::Id<U13>)),
    e!(6, U0 - (Twelve - U6)),
    e!(15, U0 - (U6 | crate::Id<U13>)),
    e!(14, U0 - (Twelve | U6)),
    e!(4, U0 - (U6 & crate::Id<U13>)),
    e!(4, U0 - (Twelve & U6)),
    e!(5, U0 - (crate::Id<U13> % U8)),
    e!(12, U0 - ((U6 == U6) ? Twelve : U0)),
    e!(6, U0 - ((U6 == U0) ? Twelve : U6)),
    e!(6, U6 - U0),
    e!(0, U6 - U6),
    e!(7, U6 - crate::Id<U13>),
    e!(6, U6 - Twelve),
    e!(13, U6 - (U6 + crate::Id<U13>)),
    e!(12, U6 - (Twelve + U6)),
    e!(1, U6 - (U6 - crate::Id<U13>)),
    e!(0, U6 - (Twelve - U6)),
    e!(9, U6 - (U6 | crate::Id<U13>)),
    e!(8, U6 - (Twelve | U6)),
    e!(2, U6 - (U6 & crate::Id<U13>)),
    e!(2, U6 - (Twelve & U6)),
    e!(1, U6 - (crate::Id<U13> % U8)),
    e!(6, U6 - ((U6 == U6) ? Twelve : U0)),
    e!(0, U6 - ((U6 == U0) ? Twelve : U6)),
    e!(13, crate::Id<U13> - U0),
    e!(7, crate::Id<U13> - U6),
    e!(0, crate::Id<U13> - crate::Id<U13>),
    e!(1, crate::Id<U13> - Twelve),
    e!(6, crate::Id<U13> - (U6 + crate::Id<U13>)),
    e!(5, crate::Id<U13> - (Twelve + U6)),
    e!(6, crate::Id<U13> - (U6 - crate::Id<U13>)),
    e!(7, crate::Id<U13> - (Twelve - U6)),
    e!(2, crate::Id<U13> - (U6 | crate::Id<U13>)),
    e!(1, crate::Id<U13> - (Twelve | U6)),
    e!(9, crate::Id<U13> - (U6 & crate::Id<U13>)),
    e!(9, crate::Id<U13> - (Twelve & U6)),
    e!(8, crate::Id<U13> - (crate::Id<U13> % U8)),
    e!(1, crate::Id<U13> - ((U6 == U6) ? Twelve : U0)),
    e!(7, crate::Id<U13> - ((U6 == U0) ? Twelve : U6)),
    e!(12, Twelve - U0),
    e!(6, Twelve - U6),
    e!(1, Twelve - crate::Id<U13>),
    e!(0, Twelve - Twelve),
    e!(7, Twelve - (U6 + crate::Id<U13>)),
    e!(6, Twelve - (Twelve + U6)),
    e!(5, Twelve - (U6 - crate::Id<U13>)),
    e!(6, Twelve - (Twelve - U6)),
    e!(3, Twelve - (U6 | crate::Id<U13>)),
    e!(2, Twelve - (Twelve | U6)),
    e!(8, Twelve - (U6 & crate::Id<U13>)),
    e!(8, Twelve - (Twelve & U6)),
    e!(7, Twelve - (crate::Id<U13> % U8)),
    e!(0, Twelve - ((U6 == U6) ? Twelve : U0)),
    e!(6, Twelve - ((U6 == U0) ? Twelve : U6)),
    e!(19, (U6 + crate::Id<U13>) - U0),
    e!(13, (U6 + crate::Id<U13>) - U6),
    e!(6, (U6 + crate::Id<U13>) - crate::Id<U13>),
    e!(7, (U6 + crate::Id<U13>) - Twelve),
    e!(0, (U6 + crate::Id<U13>) - (U6 + crate::Id<U13>)),
    e!(1, (U6 + crate::Id<U13>) - (Twelve + U6)),
    e!(12, (U6 + crate::Id<U13>) - (U6 - crate::Id<U13>)),
    e!(13, (U6 + crate::Id<U13>) - (Twelve - U6)),
    e!(4, (U6 + crate::Id<U13>) - (U6 | crate::Id<U13>)),
    e!(5, (U6 + crate::Id<U13>) - (Twelve | U6)),
    e!(15, (U6 + crate::Id<U13>) - (U6 & crate::Id<U13>)),
    e!(15, (U6 + crate::Id<U13>) - (Twelve & U6)),
    e!(14, (U6 + crate::Id<U13>) - (crate::Id<U13> % U8)),
    e!(7, (U6 + crate::Id<U13>) - ((U6 == U6) ? Twelve : U0)),
    e!(13, (U6 + crate::Id<U13>) - ((U6 == U0) ? Twelve : U6)),
    e!(18, (Twelve + U6) - U0),
    e!(12, (Twelve + U6) - U6),
    e!(5, (Twelve + U6) - crate::Id<U13>),
    e!(6, (Twelve + U6) - Twelve),
    e!(1, (Twelve + U6) - (U6 + crate::Id<U13>)),
    e!(0, (Twelve + U6) - (Twelve + U6)),
    e!(11, (Twelve + U6) - (U6 - crate::Id<U13>)),
    e!(12, (Twelve + U6) - (Twelve - U6)),
    e!(3, (Twelve + U6) - (U6 | crate::Id<U13>)),
    e!(4, (Twelve + U6) - (Twelve | U6)),
    e!(14, (Twelve + U6) - (U6 & crate::Id<U13>)),
    e!(14, (Twelve + U6) - (Twelve & U6)),
    e!(13, (Twelve + U6) - (crate::Id<U13> % U8)),
    e!(6, (Twelve + U6) - ((U6 == U6) ? Twelve : U0)),
    e!(12, (Twelve + U6) - ((U6 == U0) ? Twelve : U6)),
    e!(7, (U6 - crate::Id<U13>) - U0),
    e!(1, (U6 - crate::Id<U13>) - U6),
    e!(6, (U6 - crate::Id<U13>) - crate::Id<U13>),
    e!(5, (U6 - crate::Id<U13>) - Twelve),
    e!(12, (U6 - crate::Id<U13>) - (U6 + crate::Id<U13>)),
    e!(11, (U6 - crate::Id<U13>) - (Twelve + U6)),
    e!(0, (U6 - crate::Id<U13>) - (U6 - crate::Id<U13>)),
    e!(1, (U6 - crate::Id<U13>) - (Twelve - U6)),
    e!(8, (U6 - crate::Id<U13>) - (U6 | crate::Id<U13>)),
    e!(7, (U6 - crate::Id<U13>) - (Twelve | U6)),
    e!(3, (U6 - crate::Id<U13>) - (U6 & crate::Id<U13>)),
    e!(3, (U6 - crate::Id<U13>) - (Twelve & U6)),
    e!(2, (U6 - crate::Id<U13>) - (crate::Id<U13> % U8)),
    e!(5, (U6 - crate::Id<U13>) - ((U6 == U6) ? Twelve : U0)),
    e!(1, (U6 - crate::Id<U13>) - ((U6 == U0) ? Twelve : U6)),
    e!(6, (Twelve - U6) - U0),
    e!(0, (Twelve - U6) - U6),
    e!(7, (Twelve - U6) - crate::Id<U13>),
    e!(6, (Twelve - U6) - Twelve),
    e!(13, (Twelve - U6) - (U6 + crate::Id<U13>)),
    e!(12, (Twelve - U6) - (Twelve + U6)),
    e!(1, (Twelve - U6) - (U6 - crate::Id<U13>)),
    e!(0, (Twelve - U6) - (Twelve - U6)),
    e!(9, (Twelve - U6) - (U6 | crate::Id<U13>)),
    e!(8, (Twelve - U6) - (Twelve | U6)),
    e!(2, (Twelve - U6) - (U6 & crate::Id<U13>)),
    e!(2, (Twelve - U6) - (Twelve & U6)),
    e!(1, (Twelve - U6) - (crate::Id<U13> % U8)),
    e!(6, (Twelve - U6) - ((U6 == U6) ? Twelve : U0)),
    e!(0, (Twelve - U6) - ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 | crate::Id<U13>) - U0),
    e!(9, (U6 | crate::Id<U13>) - U6),
    e!(2, (U6 | crate::Id<U13>) - crate::Id<U13>),
    e!(3, (U6 | crate::Id<U13>) - Twelve),
    e!(4, (U6 | crate::Id<U13>) - (U6 + crate::Id<U13>)),
    e!(3, (U6 | crate::Id<U13>) - (Twelve + U6)),
    e!(8, (U6 | crate::Id<U13>) - (U6 - crate::Id<U13>)),
    e!(9, (U6 | crate::Id<U13>) - (Twelve - U6)),
    e!(0, (U6 | crate::Id<U13>) - (U6 | crate::Id<U13>)),
    e!(1, (U6 | crate::Id<U13>) - (Twelve | U6)),
    e!(11, (U6 | crate::Id<U13>) - (U6 & crate::Id<U13>)),
    e!(11, (U6 | crate::Id<U13>) - (Twelve & U6)),
    e!(10, (U6 | crate::Id<U13>) - (crate::Id<U13> % U8)),
    e!(3, (U6 | crate::Id<U13>) - ((U6 == U6) ? Twelve : U0)),
    e!(9, (U6 | crate::Id<U13>) - ((U6 == U0) ? Twelve : U6)),
    e!(14, (Twelve | U6) - U0),
    e!(8, (Twelve | U6) - U6),
    e!(1, (Twelve | U6) - crate::Id<U13>),
    e!(2, (Twelve | U6) - Twelve),
    e!(5, (Twelve | U6) - (U6 + crate::Id<U13>)),
    e!(4, (Twelve | U6) - (Twelve + U6)),
    e!(7, (Twelve | U6) - (U6 - crate::Id<U13>)),
    e!(8, (Twelve | U6) - (Twelve - U6)),
    e!(1, (Twelve | U6) - (U6 | crate::Id<U13>)),
    e!(0, (Twelve | U6) - (Twelve | U6)),
    e!(10, (Twelve | U6) - (U6 & crate::Id<U13>)),
    e!(10, (Twelve | U6) - (Twelve & U6)),
    e!(9, (Twelve | U6) - (crate::Id<U13> % U8)),
    e!(2, (Twelve | U6) - ((U6 == U6) ? Twelve : U0)),
    e!(8, (Twelve | U6) - ((U6 == U0) ? Twelve : U6)),
    e!(4, (U6 & crate::Id<U13>) - U0),
    e!(2, (U6 & crate::Id<U13>) - U6),
    e!(9, (U6 & crate::Id<U13>) - crate::Id<U13>),
    e!(8, (U6 & crate::Id<U13>) - Twelve),
    e!(15, (U6 & crate::Id<U13>) - (U6 + crate::Id<U13>)),
    e!(14, (U6 & crate::Id<U13>) - (Twelve + U6)),
    e!(3, (U6 & crate::Id<U13>) - (U6 - crate::Id<U13>)),
    e!(2, (U6 & crate::Id<U13>) - (Twelve - U6)),
    e!(11, (U6 & crate::Id<U13>) - (U6 | crate::Id<U13>)),
    e!(10, (U6 & crate::Id<U13>) - (Twelve | U6)),
    e!(0, (U6 & crate::Id<U13>) - (U6 & crate::Id<U13>)),
    e!(0, (U6 & crate::Id<U13>) - (Twelve & U6)),
    e!(1, (U6 & crate::Id<U13>) - (crate::Id<U13> % U8)),
    e!(8, (U6 & crate::Id<U13>) - ((U6 == U6) ? Twelve : U0)),
    e!(2, (U6 & crate::Id<U13>) - ((U6 == U0) ? Twelve : U6)),
    e!(4, (Twelve & U6) - U0),
    e!(2, (Twelve & U6) - U6),
    e!(9, (Twelve & U6) - crate::Id<U13>),
    e!(8, (Twelve & U6) - Twelve),
    e!(15, (Twelve & U6) - (U6 + crate::Id<U13>)),
    e!(14, (Twelve & U6) - (Twelve + U6)),
    e!(3, (Twelve & U6) - (U6 - crate::Id<U13>)),
    e!(2, (Twelve & U6) - (Twelve - U6)),
    e!(11, (Twelve & U6) - (U6 | crate::Id<U13>)),
    e!(10, (Twelve & U6) - (Twelve | U6)),
    e!(0, (Twelve & U6) - (U6 & crate::Id<U13>)),
    e!(0, (Twelve & U6) - (Twelve & U6)),
    e!(1, (Twelve & U6) - (crate::Id<U13> % U8)),
    e!(8, (Twelve & U6) - ((U6 == U6) ? Twelve : U0)),
    e!(2, (Twelve & U6) - ((U6 == U0) ? Twelve : U6)),
    e!(5, (crate::Id<U13> % U8) - U0),
    e!(1, (crate::Id<U13> % U8) - U6),
    e!(8, (crate::Id<U13> % U8) - crate::Id<U13>),
    e!(7, (crate::Id<U13> % U8) - Twelve),
    e!(14, (crate::Id<U13> % U8) - (U6 + crate::Id<U13>)),
    e!(13, (crate::Id<U13> % U8) - (Twelve + U6)),
    e!(2, (crate::Id<U13> % U8) - (U6 - crate::Id<U13>)),
    e!(1, (crate::Id<U13> % U8) - (Twelve - U6)),
    e!(10, (crate::Id<U13> % U8) - (U6 | crate::Id<U13>)),
    e!(9, (crate::Id<U13> % U8) - (Twelve | U6)),
    e!(1, (crate::Id<U13> % U8) - (U6 & crate::Id<U13>)),
    e!(1, (crate::Id<U13> % U8) - (Twelve & U6)),
    e!(0, (crate::Id<U13> % U8) - (crate::Id<U13> % U8)),
    e!(7, (crate::Id<U13> % U8) - ((U6 == U6) ? Twelve : U0)),
    e!(1, (crate::Id<U13> % U8) - ((U6 == U0) ? Twelve : U6)),
    e!(12, ((U6 == U6) ? Twelve : U0) - U0),
    e!(6, ((U6 == U6) ? Twelve : U0) - U6),
    e!(1, ((U6 == U6) ? Twelve : U0) - crate::Id<U13>),
    e!(0, ((U6 == U6) ? Twelve : U0) - Twelve),
    e!(7, ((U6 == U6) ? Twelve : U0) - (U6 + crate::Id<U13>)),
    e!(6, ((U6 == U6) ? Twelve : U0) - (Twelve + U6)),
    e!(5, ((U6 == U6) ? Twelve : U0) - (U6 - crate::Id<U13>)),
    e!(6, ((U6 == U6) ? Twelve : U0) - (Twelve - U6)),
    e!(3, ((U6 == U6) ? Twelve : U0) - (U6 | crate::Id<U13>)),
    e!(2, ((U6 == U6) ? Twelve : U0) - (Twelve | U6)),
    e!(8, ((U6 == U6) ? Twelve : U0) - (U6 & crate::Id<U13>)),
    e!(8, ((U6 == U6) ? Twelve : U0) - (Twelve & U6)),
    e!(7, ((U6 == U6) ? Twelve : U0) - (crate::Id<U13> % U8)),
    e!(0, ((U6 == U6) ? Twelve : U0) - ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 == U6) ? Twelve : U0) - ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 == U0) ? Twelve : U6) - U0),
    e!(0, ((U6 == U0) ? Twelve : U6) - U6),
    e!(7, ((U6 == U0) ? Twelve : U6) - crate::Id<U13>),
    e!(6, ((U6 == U0) ? Twelve : U6) - Twelve),
    e!(13, ((U6 == U0) ? Twelve : U6) - (U6 + crate::Id<U13>)),
    e!(12, ((U6 == U0) ? Twelve : U6) - (Twelve + U6)),
    e!(1, ((U6 == U0) ? Twelve : U6) - (U6 - crate::Id<U13>)),
    e!(0, ((U6 == U0) ? Twelve : U6) - (Twelve - U6)),
    e!(9, ((U6 == U0) ? Twelve : U6) - (U6 | crate::Id<U13>)),
    e!(8, ((U6 == U0) ? Twelve : U6) - (Twelve | U6)),
    e!(2, ((U6 == U0) ? Twelve : U6) - (U6 & crate::Id<U13>)),
    e!(2, ((U6 == U0) ? Twelve : U6) - (Twelve & U6)),
    e!(1, ((U6 == U0) ? Twelve : U6) - (crate::Id<U13> % U8)),
    e!(6, ((U6 == U0) ? Twelve : U6) - ((U6 == U6) ? Twelve : U0)),
    e!(0, ((U6 == U0) ? Twelve : U6) - ((U6 == U0) ? Twelve : U6)),
    e!(0, U0 | U0),
    e!(6, U0 | U6),
    e!(13, U0 | crate::Id<U13>),
    e!(12, U0 | Twelve),
    e!(19, U0 | (U6 + crate::Id<U13>)),
    e!(18, U0 | (Twelve + U6)),
    e!(7, U0 | (U6 - crate::Id<U13>)),
    e!(6, U0 | (Twelve - U6)),
    e!(15, U0 | (U6 | crate::Id<U13>)),
    e!(14, U0 | (Twelve | U6)),
    e!(4, U0 | (U6 & crate::Id<U13>)),
    e!(4, U0 | (Twelve & U6)),
    e!(5, U0 | (crate::Id<U13> % U8)),
    e!(12, U0 | ((U6 == U6) ? Twelve : U0)),
    e!(6, U0 | ((U6 == U0) ? Twelve : U6)),
    e!(6, U6 | U0),
    e!(6, U6 | U6),
    e!(15, U6 | crate::Id<U13>),
    e!(14, U6 | Twelve),
    e!(23, U6 | (U6 + crate::Id<U13>)),
    e!(22, U6 | (Twelve + U6)),
    e!(7, U6 | (U6 - crate::Id<U13>)),
    e!(6, U6 | (Twelve - U6)),
    e!(15, U6 | (U6 | crate::Id<U13>)),
    e!(14, U6 | (Twelve | U6)),
    e!(6, U6 | (U6 & crate::Id<U13>)),
    e!(6, U6 | (Twelve & U6)),
    e!(7, U6 | (crate::Id<U13> % U8)),
    e!(14, U6 | ((U6 == U6) ? Twelve : U0)),
    e!(6, U6 | ((U6 == U0) ? Twelve : U6)),
    e!(13, crate::Id<U13> | U0),
    e!(15, crate::Id<U13> | U6),
    e!(13, crate::Id<U13> | crate::Id<U13>),
    e!(13, crate::Id<U13> | Twelve),
    e!(31, crate::Id<U13> | (U6 + crate::Id<U13>)),
    e!(31, crate::Id<U13> | (Twelve + U6)),
    e!(15, crate::Id<U13> | (U6 - crate::Id<U13>)),
    e!(15, crate::Id<U13> | (Twelve - U6)),
    e!(15, crate::Id<U13> | (U6 | crate::Id<U13>)),
    e!(15, crate::Id<U13> | (Twelve | U6)),
    e!(13, crate::Id<U13> | (U6 & crate::Id<U13>)),
    e!(13, crate::Id<U13> | (Twelve & U6)),
    e!(13, crate::Id<U13> | (crate::Id<U13> % U8)),
    e!(13, crate::Id<U13> | ((U6 == U6) ? Twelve : U0)),
    e!(15, crate::Id<U13> | ((U6 == U0) ? Twelve : U6)),
    e!(12, Twelve | U0),
    e!(14, Twelve | U6),
    e!(13, Twelve | crate::Id<U13>),
    e!(12, Twelve | Twelve),
    e!(31, Twelve | (U6 + crate::Id<U13>)),
    e!(30, Twelve | (Twelve + U6)),
    e!(15, Twelve | (U6 - crate::Id<U13>)),
    e!(14, Twelve | (Twelve - U6)),
    e!(15, Twelve | (U6 | crate::Id<U13>)),
    e!(14, Twelve | (Twelve | U6)),
    e!(12, Twelve | (U6 & crate::Id<U13>)),
    e!(12, Twelve | (Twelve & U6)),
    e!(13, Twelve | (crate::Id<U13> % U8)),
    e!(12, Twelve | ((U6 == U6) ? Twelve : U0)),
    e!(14, Twelve | ((U6 == U0) ? Twelve : U6)),
    e!(19, (U6 + crate::Id<U13>) | U0),
    e!(23, (U6 + crate::Id<U13>) | U6),
    e!(31, (U6 + crate::Id<U13>) | crate::Id<U13>),
    e!(31, (U6 + crate::Id<U13>) | Twelve),
    e!(19, (U6 + crate::Id<U13>) | (U6 + crate::Id<U13>)),
    e!(19, (U6 + crate::Id<U13>) | (Twelve + U6)),
    e!(23, (U6 + crate::Id<U13>) | (U6 - crate::Id<U13>)),
    e!(23, (U6 + crate::Id<U13>) | (Twelve - U6)),
    e!(31, (U6 + crate::Id<U13>) | (U6 | crate::Id<U13>)),
    e!(31, (U6 + crate::Id<U13>) | (Twelve | U6)),
    e!(23, (U6 + crate::Id<U13>) | (U6 & crate::Id<U13>)),
    e!(23, (U6 + crate::Id<U13>) | (Twelve & U6)),
    e!(23, (U6 + crate::Id<U13>) | (crate::Id<U13> % U8)),
    e!(31, (U6 + crate::Id<U13>) | ((U6 == U6) ? Twelve : U0)),
    e!(23, (U6 + crate::Id<U13>) | ((U6 == U0) ? Twelve : U6)),
    e!(18, (Twelve + U6) | U0),
    e!(22, (Twelve + U6) | U6),
    e!(31, (Twelve + U6) | crate::Id<U13>),
    e!(30, (Twelve + U6) | Twelve),
    e!(19, (Twelve + U6) | (U6 + crate::Id<U13>)),
    e!(18, (Twelve + U6) | (Twelve + U6)),
    e!(23, (Twelve + U6) | (U6 - crate::Id<U13>)),
    e!(22, (Twelve + U6) | (Twelve - U6)),
    e!(31, (Twelve + U6) | (U6 | crate::Id<U13>)),
    e!(30, (Twelve + U6) | (Twelve | U6)),
    e!(22, (Twelve + U6) | (U6 & crate::Id<U13>)),
    e!(22, (Twelve + U6) | (Twelve & U6)),
    e!(23, (Twelve + U6) | (crate::Id<U13> % U8)),
    e!(30, (Twelve + U6) | ((U6 == U6) ? Twelve : U0)),
    e!(22, (Twelve + U6) | ((U6 == U0) ? Twelve : U6)),
    e!(7, (U6 - crate::Id<U13>) | U0),
    e!(7, (U6 - crate::Id<U13>) | U6),
    e!(15, (U6 - crate::Id<U13>) | crate::Id<U13>),
    e!(15, (U6 - crate::Id<U13>) | Twelve),
    e!(23, (U6 - crate::Id<U13>) | (U6 + crate::Id<U13>)),
    e!(23, (U6 - crate::Id<U13>) | (Twelve + U6)),
    e!(7, (U6 - crate::Id<U13>) | (U6 - crate::Id<U13>)),
    e!(7, (U6 - crate::Id<U13>) | (Twelve - U6)),
    e!(15, (U6 - crate::Id<U13>) | (U6 | crate::Id<U13>)),
    e!(15, (U6 - crate::Id<U13>) | (Twelve | U6)),
    e!(7, (U6 - crate::Id<U13>) | (U6 & crate::Id<U13>)),
    e!(7, (U6 - crate::Id<U13>) | (Twelve & U6)),
    e!(7, (U6 - crate::Id<U13>) | (crate::Id<U13> % U8)),
    e!(15, (U6 - crate::Id<U13>) | ((U6 == U6) ? Twelve : U0)),
    e!(7, (U6 - crate::Id<U13>) | ((U6 == U0) ? Twelve : U6)),
    e!(6, (Twelve - U6) | U0),
    e!(6, (Twelve - U6) | U6),
    e!(15, (Twelve - U6) | crate::Id<U13>),
    e!(14, (Twelve - U6) | Twelve),
    e!(23, (Twelve - U6) | (U6 + crate::Id<U13>)),
    e!(22, (Twelve - U6) | (Twelve + U6)),
    e!(7, (Twelve - U6) | (U6 - crate::Id<U13>)),
    e!(6, (Twelve - U6) | (Twelve - U6)),
    e!(15, (Twelve - U6) | (U6 | crate::Id<U13>)),
    e!(14, (Twelve - U6) | (Twelve | U6)),
    e!(6, (Twelve - U6) | (U6 & crate::Id<U13>)),
    e!(6, (Twelve - U6) | (Twelve & U6)),
    e!(7, (Twelve - U6) | (crate::Id<U13> % U8)),
    e!(14, (Twelve - U6) | ((U6 == U6) ? Twelve : U0)),
    e!(6, (Twelve - U6) | ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 | crate::Id<U13>) | U0),
    e!(15, (U6 | crate::Id<U13>) | U6),
    e!(15, (U6 | crate::Id<U13>) | crate::Id<U13>),
    e!(15, (U6 | crate::Id<U13>) | Twelve),
    e!(31, (U6 | crate::Id<U13>) | (U6 + crate::Id<U13>)),
    e!(31, (U6 | crate::Id<U13>) | (Twelve + U6)),
    e!(15, (U6 | crate::Id<U13>) | (U6 - crate::Id<U13>)),
    e!(15, (U6 | crate::Id<U13>) | (Twelve - U6)),
    e!(15, (U6 | crate::Id<U13>) | (U6 | crate::Id<U13>)),
    e!(15, (U6 | crate::Id<U13>) | (Twelve | U6)),
    e!(15, (U6 | crate::Id<U13>) | (U6 & crate::Id<U13>)),
    e!(15, (U6 | crate::Id<U13>) | (Twelve & U6)),
    e!(15, (U6 | crate::Id<U13>) | (crate::Id<U13> % U8)),
    e!(15, (U6 | crate::Id<U13>) | ((U6 == U6) ? Twelve : U0)),
    e!(15, (U6 | crate::Id<U13>) | ((U6 == U0) ? Twelve : U6)),
    e!(14, (Twelve | U6) | U0),
    e!(14, (Twelve | U6) | U6),
    e!(15, (Twelve | U6) | crate::Id<U13>),
    e!(14, (Twelve | U6) | Twelve),
    e!(31, (Twelve | U6) | (U6 + crate::Id<U13>)),
    e!(30, (Twelve | U6) | (Twelve + U6)),
    e!(15, (Twelve | U6) | (U6 - crate::Id<U13>)),
    e!(14, (Twelve | U6) | (Twelve - U6)),
    e!(15, (Twelve | U6) | (U6 | crate::Id<U13>)),
    e!(14, (Twelve | U6) | (Twelve | U6)),
    e!(14, (Twelve | U6) | (U6 & crate::Id<U13>)),
    e!(14, (Twelve | U6) | (Twelve & U6)),
    e!(15, (Twelve | U6) | (crate::Id<U13> % U8)),
    e!(14, (Twelve | U6) | ((U6 == U6) ? Twelve : U0)),
    e!(14, (Twelve | U6) | ((U6 == U0) ? Twelve : U6)),
    e!(4, (U6 & crate::Id<U13>) | U0),
    e!(6, (U6 & crate::Id<U13>) | U6),
    e!(13, (U6 & crate::Id<U13>) | crate::Id<U13>),
    e!(12, (U6 & crate::Id<U13>) | Twelve),
    e!(23, (U6 & crate::Id<U13>) | (U6 + crate::Id<U13>)),
    e!(22, (U6 & crate::Id<U13>) | (Twelve + U6)),
    e!(7, (U6 & crate::Id<U13>) | (U6 - crate::Id<U13>)),
    e!(6, (U6 & crate::Id<U13>) | (Twelve - U6)),
    e!(15, (U6 & crate::Id<U13>) | (U6 | crate::Id<U13>)),
    e!(14, (U6 & crate::Id<U13>) | (Twelve | U6)),
    e!(4, (U6 & crate::Id<U13>) | (U6 & crate::Id<U13>)),
    e!(4, (U6 & crate::Id<U13>) | (Twelve & U6)),
    e!(5, (U6 & crate::Id<U13>) | (crate::Id<U13> % U8)),
    e!(12, (U6 & crate::Id<U13>) | ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 & crate::Id<U13>) | ((U6 == U0) ? Twelve : U6)),
    e!(4, (Twelve & U6) | U0),
    e!(6, (Twelve & U6) | U6),
    e!(13, (Twelve & U6) | crate::Id<U13>),
    e!(12, (Twelve & U6) | Twelve),
    e!(23, (Twelve & U6) | (U6 + crate::Id<U13>)),
    e!(22, (Twelve & U6) | (Twelve + U6)),
    e!(7, (Twelve & U6) | (U6 - crate::Id<U13>)),
    e!(6, (Twelve & U6) | (Twelve - U6)),
    e!(15, (Twelve & U6) | (U6 | crate::Id<U13>)),
    e!(14, (Twelve & U6) | (Twelve | U6)),
    e!(4, (Twelve & U6) | (U6 & crate::Id<U13>)),
    e!(4, (Twelve & U6) | (Twelve & U6)),
    e!(5, (Twelve & U6) | (crate::Id<U13> % U8)),
    e!(12, (Twelve & U6) | ((U6 == U6) ? Twelve : U0)),
    e!(6, (Twelve & U6) | ((U6 == U0) ? Twelve : U6)),
    e!(5, (crate::Id<U13> % U8) | U0),
    e!(7, (crate::Id<U13> % U8) | U6),
    e!(13, (crate::Id<U13> % U8) | crate::Id<U13>),
    e!(13, (crate::Id<U13> % U8) | Twelve),
    e!(23, (crate::Id<U13> % U8) | (U6 + crate::Id<U13>)),
    e!(23, (crate::Id<U13> % U8) | (Twelve + U6)),
    e!(7, (crate::Id<U13> % U8) | (U6 - crate::Id<U13>)),
    e!(7, (crate::Id<U13> % U8) | (Twelve - U6)),
    e!(15, (crate::Id<U13> % U8) | (U6 | crate::Id<U13>)),
    e!(15, (crate::Id<U13> % U8) | (Twelve | U6)),
    e!(5, (crate::Id<U13> % U8) | (U6 & crate::Id<U13>)),
    e!(5, (crate::Id<U13> % U8) | (Twelve & U6)),
    e!(5, (crate::Id<U13> % U8) | (crate::Id<U13> % U8)),
    e!(13, (crate::Id<U13> % U8) | ((U6 == U6) ? Twelve : U0)),
    e!(7, (crate::Id<U13> % U8) | ((U6 == U0) ? Twelve : U6)),
    e!(12, ((U6 == U6) ? Twelve : U0) | U0),
    e!(14, ((U6 == U6) ? Twelve : U0) | U6),
    e!(13, ((U6 == U6) ? Twelve : U0) | crate::Id<U13>),
    e!(12, ((U6 == U6) ? Twelve : U0) | Twelve),
    e!(31, ((U6 == U6) ? Twelve : U0) | (U6 + crate::Id<U13>)),
    e!(30, ((U6 == U6) ? Twelve : U0) | (Twelve + U6)),
    e!(15, ((U6 == U6) ? Twelve : U0) | (U6 - crate::Id<U13>)),
    e!(14, ((U6 == U6) ? Twelve : U0) | (Twelve - U6)),
    e!(15, ((U6 == U6) ? Twelve : U0) | (U6 | crate::Id<U13>)),
    e!(14, ((U6 == U6) ? Twelve : U0) | (Twelve | U6)),
    e!(12, ((U6 == U6) ? Twelve : U0) | (U6 & crate::Id<U13>)),
    e!(12, ((U6 == U6) ? Twelve : U0) | (Twelve & U6)),
    e!(13, ((U6 == U6) ? Twelve : U0) | (crate::Id<U13> % U8)),
    e!(12, ((U6 == U6) ? Twelve : U0) | ((U6 == U6) ? Twelve : U0)),
    e!(14, ((U6 == U6) ? Twelve : U0) | ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 == U0) ? Twelve : U6) | U0),
    e!(6, ((U6 == U0) ? Twelve : U6) | U6),
    e!(15, ((U6 == U0) ? Twelve : U6) | crate::Id<U13>),
    e!(14, ((U6 == U0) ? Twelve : U6) | Twelve),
    e!(23, ((U6 == U0) ? Twelve : U6) | (U6 + crate::Id<U13>)),
    e!(22, ((U6 == U0) ? Twelve : U6) | (Twelve + U6)),
    e!(7, ((U6 == U0) ? Twelve : U6) | (U6 - crate::Id<U13>)),
    e!(6, ((U6 == U0) ? Twelve : U6) | (Twelve - U6)),
    e!(15, ((U6 == U0) ? Twelve : U6) | (U6 | crate::Id<U13>)),
    e!(14, ((U6 == U0) ? Twelve : U6) | (Twelve | U6)),
    e!(6, ((U6 == U0) ? Twelve : U6) | (U6 & crate::Id<U13>)),
    e!(6, ((U6 == U0) ? Twelve : U6) | (Twelve & U6)),
    e!(7, ((U6 == U0) ? Twelve : U6) | (crate::Id<U13> % U8)),
    e!(14, ((U6 == U0) ? Twelve : U6) | ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 == U0) ? Twelve : U6) | ((U6 == U0) ? Twelve : U6)),
    e!(0, U0 & U0),
    e!(0, U0 & U6),
    e!(0, U0 & crate::Id<U13>),
    e!(0, U0 & Twelve),
    e!(0, U0 & (U6 + crate::Id<U13>)),
    e!(0, U0 & (Twelve + U6)),
    e!(0, U0 & (U6 - crate::Id<U13>)),
    e!(0, U0 & (Twelve - U6)),
    e!(0, U0 & (U6 | crate::Id<U13>)),
    e!(0, U0 & (Twelve | U6)),
    e!(0, U0 & (U6 & crate::Id<U13>)),
    e!(0, U0 & (Twelve & U6)),
    e!(0, U0 & (crate::Id<U13> % U8)),
    e!(0, U0 & ((U6 == U6) ? Twelve : U0)),
    e!(0, U0 & ((U6 == U0) ? Twelve : U6)),
    e!(0, U6 & U0),
    e!(6, U6 & U6),
    e!(4, U6 & crate::Id<U13>),
    e!(4, U6 & Twelve),
    e!(2, U6 & (U6 + crate::Id<U13>)),
    e!(2, U6 & (Twelve + U6)),
    e!(6, U6 & (U6 - crate::Id<U13>)),
    e!(6, U6 & (Twelve - U6)),
    e!(6, U6 & (U6 | crate::Id<U13>)),
    e!(6, U6 & (Twelve | U6)),
    e!(4, U6 & (U6 & crate::Id<U13>)),
    e!(4, U6 & (Twelve & U6)),
    e!(4, U6 & (crate::Id<U13> % U8)),
    e!(4, U6 & ((U6 == U6) ? Twelve : U0)),
    e!(6, U6 & ((U6 == U0) ? Twelve : U6)),
    e!(0, crate::Id<U13> & U0),
    e!(4, crate::Id<U13> & U6),
    e!(13, crate::Id<U13> & crate::Id<U13>),
    e!(12, crate::Id<U13> & Twelve),
    e!(1, crate::Id<U13> & (U6 + crate::Id<U13>)),
    e!(0, crate::Id<U13> & (Twelve + U6)),
    e!(5, crate::Id<U13> & (U6 - crate::Id<U13>)),
    e!(4, crate::Id<U13> & (Twelve - U6)),
    e!(13, crate::Id<U13> & (U6 | crate::Id<U13>)),
    e!(12, crate::Id<U13> & (Twelve | U6)),
    e!(4, crate::Id<U13> & (U6 & crate::Id<U13>)),
    e!(4, crate::Id<U13> & (Twelve & U6)),
    e!(5, crate::Id<U13> & (crate::Id<U13> % U8)),
    e!(12, crate::Id<U13> & ((U6 == U6) ? Twelve : U0)),
    e!(4, crate::Id<U13> & ((U6 == U0) ? Twelve : U6)),
    e!(0, Twelve & U0),
    e!(4, Twelve & U6),
    e!(12, Twelve & crate::Id<U13>),
    e!(12, Twelve & Twelve),
    e!(0, Twelve & (U6 + crate::Id<U13>)),
    e!(0, Twelve & (Twelve + U6)),
    e!(4, Twelve & (U6 - crate::Id<U13>)),
    e!(4, Twelve & (Twelve - U6)),
    e!(12, Twelve & (U6 | crate::Id<U13>)),
    e!(12, Twelve & (Twelve | U6)),
    e!(4, Twelve & (U6 & crate::Id<U13>)),
    e!(4, Twelve & (Twelve & U6)),
    e!(4, Twelve & (crate::Id<U13> % U8)),
    e!(12, Twelve & ((U6 == U6) ? Twelve : U0)),
    e!(4, Twelve & ((U6 == U0) ? Twelve : U6)),
    e!(0, (U6 + crate::Id<U13>) & U0),
    e!(2, (U6 + crate::Id<U13>) & U6),
    e!(1, (U6 + crate::Id<U13>) & crate::Id<U13>),
    e!(0, (U6 + crate::Id<U13>) & Twelve),
    e!(19, (U6 + crate::Id<U13>) & (U6 + crate::Id<U13>)),
    e!(18, (U6 + crate::Id<U13>) & (Twelve + U6)),
    e!(3, (U6 + crate::Id<U13>) & (U6 - crate::Id<U13>)),
    e!(2, (U6 + crate::Id<U13>) & (Twelve - U6)),
    e!(3, (U6 + crate::Id<U13>) & (U6 | crate::Id<U13>)),
    e!(2, (U6 + crate::Id<U13>) & (Twelve | U6)),
    e!(0, (U6 + crate::Id<U13>) & (U6 & crate::Id<U13>)),
    e!(0, (U6 + crate::Id<U13>) & (Twelve & U6)),
    e!(1, (U6 + crate::Id<U13>) & (crate::Id<U13> % U8)),
    e!(0, (U6 + crate::Id<U13>) & ((U6 == U6) ? Twelve : U0)),
    e!(2, (U6 + crate::Id<U13>) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (Twelve + U6) & U0),
    e!(2, (Twelve + U6) & U6),
    e!(0, (Twelve + U6) & crate::Id<U13>),
    e!(0, (Twelve + U6) & Twelve),
    e!(18, (Twelve + U6) & (U6 + crate::Id<U13>)),
    e!(18, (Twelve + U6) & (Twelve + U6)),
    e!(2, (Twelve + U6) & (U6 - crate::Id<U13>)),
    e!(2, (Twelve + U6) & (Twelve - U6)),
    e!(2, (Twelve + U6) & (U6 | crate::Id<U13>)),
    e!(2, (Twelve + U6) & (Twelve | U6)),
    e!(0, (Twelve + U6) & (U6 & crate::Id<U13>)),
    e!(0, (Twelve + U6) & (Twelve & U6)),
    e!(0, (Twelve + U6) & (crate::Id<U13> % U8)),
    e!(0, (Twelve + U6) & ((U6 == U6) ? Twelve : U0)),
    e!(2, (Twelve + U6) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (U6 - crate::Id<U13>) & U0),
    e!(6, (U6 - crate::Id<U13>) & U6),
    e!(5, (U6 - crate::Id<U13>) & crate::Id<U13>),
    e!(4, (U6 - crate::Id<U13>) & Twelve),
    e!(3, (U6 - crate::Id<U13>) & (U6 + crate::Id<U13>)),
    e!(2, (U6 - crate::Id<U13>) & (Twelve + U6)),
    e!(7, (U6 - crate::Id<U13>) & (U6 - crate::Id<U13>)),
    e!(6, (U6 - crate::Id<U13>) & (Twelve - U6)),
    e!(7, (U6 - crate::Id<U13>) & (U6 | crate::Id<U13>)),
    e!(6, (U6 - crate::Id<U13>) & (Twelve | U6)),
    e!(4, (U6 - crate::Id<U13>) & (U6 & crate::Id<U13>)),
    e!(4, (U6 - crate::Id<U13>) & (Twelve & U6)),
    e!(5, (U6 - crate::Id<U13>) & (crate::Id<U13> % U8)),
    e!(4, (U6 - crate::Id<U13>) & ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 - crate::Id<U13>) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (Twelve - U6) & U0),
    e!(6, (Twelve - U6) & U6),
    e!(4, (Twelve - U6) & crate::Id<U13>),
    e!(4, (Twelve - U6) & Twelve),
    e!(2, (Twelve - U6) & (U6 + crate::Id<U13>)),
    e!(2, (Twelve - U6) & (Twelve + U6)),
    e!(6, (Twelve - U6) & (U6 - crate::Id<U13>)),
    e!(6, (Twelve - U6) & (Twelve - U6)),
    e!(6, (Twelve - U6) & (U6 | crate::Id<U13>)),
    e!(6, (Twelve - U6) & (Twelve | U6)),
    e!(4, (Twelve - U6) & (U6 & crate::Id<U13>)),
    e!(4, (Twelve - U6) & (Twelve & U6)),
    e!(4, (Twelve - U6) & (crate::Id<U13> % U8)),
    e!(4, (Twelve - U6) & ((U6 == U6) ? Twelve : U0)),
    e!(6, (Twelve - U6) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (U6 | crate::Id<U13>) & U0),
    e!(6, (U6 | crate::Id<U13>) & U6),
    e!(13, (U6 | crate::Id<U13>) & crate::Id<U13>),
    e!(12, (U6 | crate::Id<U13>) & Twelve),
    e!(3, (U6 | crate::Id<U13>) & (U6 + crate::Id<U13>)),
    e!(2, (U6 | crate::Id<U13>) & (Twelve + U6)),
    e!(7, (U6 | crate::Id<U13>) & (U6 - crate::Id<U13>)),
    e!(6, (U6 | crate::Id<U13>) & (Twelve - U6)),
    e!(15, (U6 | crate::Id<U13>) & (U6 | crate::Id<U13>)),
    e!(14, (U6 | crate::Id<U13>) & (Twelve | U6)),
    e!(4, (U6 | crate::Id<U13>) & (U6 & crate::Id<U13>)),
    e!(4, (U6 | crate::Id<U13>) & (Twelve & U6)),
    e!(5, (U6 | crate::Id<U13>) & (crate::Id<U13> % U8)),
    e!(12, (U6 | crate::Id<U13>) & ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 | crate::Id<U13>) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (Twelve | U6) & U0),
    e!(6, (Twelve | U6) & U6),
    e!(12, (Twelve | U6) & crate::Id<U13>),
    e!(12, (Twelve | U6) & Twelve),
    e!(2, (Twelve | U6) & (U6 + crate::Id<U13>)),
    e!(2, (Twelve | U6) & (Twelve + U6)),
    e!(6, (Twelve | U6) & (U6 - crate::Id<U13>)),
    e!(6, (Twelve | U6) & (Twelve - U6)),
    e!(14, (Twelve | U6) & (U6 | crate::Id<U13>)),
    e!(14, (Twelve | U6) & (Twelve | U6)),
    e!(4, (Twelve | U6) & (U6 & crate::Id<U13>)),
    e!(4, (Twelve | U6) & (Twelve & U6)),
    e!(4, (Twelve | U6) & (crate::Id<U13> % U8)),
    e!(12, (Twelve | U6) & ((U6 == U6) ? Twelve : U0)),
    e!(6, (Twelve | U6) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (U6 & crate::Id<U13>) & U0),
    e!(4, (U6 & crate::Id<U13>) & U6),
    e!(4, (U6 & crate::Id<U13>) & crate::Id<U13>),
    e!(4, (U6 & crate::Id<U13>) & Twelve),
    e!(0, (U6 & crate::Id<U13>) & (U6 + crate::Id<U13>)),
    e!(0, (U6 & crate::Id<U13>) & (Twelve + U6)),
    e!(4, (U6 & crate::Id<U13>) & (U6 - crate::Id<U13>)),
    e!(4, (U6 & crate::Id<U13>) & (Twelve - U6)),
    e!(4, (U6 & crate::Id<U13>) & (U6 | crate::Id<U13>)),
    e!(4, (U6 & crate::Id<U13>) & (Twelve | U6)),
    e!(4, (U6 & crate::Id<U13>) & (U6 & crate::Id<U13>)),
    e!(4, (U6 & crate::Id<U13>) & (Twelve & U6)),
    e!(4, (U6 & crate::Id<U13>) & (crate::Id<U13> % U8)),
    e!(4, (U6 & crate::Id<U13>) & ((U6 == U6) ? Twelve : U0)),
    e!(4, (U6 & crate::Id<U13>) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (Twelve & U6) & U0),
    e!(4, (Twelve & U6) & U6),
    e!(4, (Twelve & U6) & crate::Id<U13>),
    e!(4, (Twelve & U6) & Twelve),
    e!(0, (Twelve & U6) & (U6 + crate::Id<U13>)),
    e!(0, (Twelve & U6) & (Twelve + U6)),
    e!(4, (Twelve & U6) & (U6 - crate::Id<U13>)),
    e!(4, (Twelve & U6) & (Twelve - U6)),
    e!(4, (Twelve & U6) & (U6 | crate::Id<U13>)),
    e!(4, (Twelve & U6) & (Twelve | U6)),
    e!(4, (Twelve & U6) & (U6 & crate::Id<U13>)),
    e!(4, (Twelve & U6) & (Twelve & U6)),
    e!(4, (Twelve & U6) & (crate::Id<U13> % U8)),
    e!(4, (Twelve & U6) & ((U6 == U6) ? Twelve : U0)),
    e!(4, (Twelve & U6) & ((U6 == U0) ? Twelve : U6)),
    e!(0, (crate::Id<U13> % U8) & U0),
    e!(4, (crate::Id<U13> % U8) & U6),
    e!(5, (crate::Id<U13> % U8) & crate::Id<U13>),
    e!(4, (crate::Id<U13> % U8) & Twelve),
    e!(1, (crate::Id<U13> % U8) & (U6 + crate::Id<U13>)),
    e!(0, (crate::Id<U13> % U8) & (Twelve + U6)),
    e!(5, (crate::Id<U13> % U8) & (U6 - crate::Id<U13>)),
    e!(4, (crate::Id<U13> % U8) & (Twelve - U6)),
    e!(5, (crate::Id<U13> % U8) & (U6 | crate::Id<U13>)),
    e!(4, (crate::Id<U13> % U8) & (Twelve | U6)),
    e!(4, (crate::Id<U13> % U8) & (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> % U8) & (Twelve & U6)),
    e!(5, (crate::Id<U13> % U8) & (crate::Id<U13> % U8)),
    e!(4, (crate::Id<U13> % U8) & ((U6 == U6) ? Twelve : U0)),
    e!(4, (crate::Id<U13> % U8) & ((U6 == U0) ? Twelve : U6)),
    e!(0, ((U6 == U6) ? Twelve : U0) & U0),
    e!(4, ((U6 == U6) ? Twelve : U0) & U6),
    e!(12, ((U6 == U6) ? Twelve : U0) & crate::Id<U13>),
    e!(12, ((U6 == U6) ? Twelve : U0) & Twelve),
    e!(0, ((U6 == U6) ? Twelve : U0) & (U6 + crate::Id<U13>)),
    e!(0, ((U6 == U6) ? Twelve : U0) & (Twelve + U6)),
    e!(4, ((U6 == U6) ? Twelve : U0) & (U6 - crate::Id<U13>)),
    e!(4, ((U6 == U6) ? Twelve : U0) & (Twelve - U6)),
    e!(12, ((U6 == U6) ? Twelve : U0) & (U6 | crate::Id<U13>)),
    e!(12, ((U6 == U6) ? Twelve : U0) & (Twelve | U6)),
    e!(4, ((U6 == U6) ? Twelve : U0) & (U6 & crate::Id<U13>)),
    e!(4, ((U6 == U6) ? Twelve : U0) & (Twelve & U6)),
    e!(4, ((U6 == U6) ? Twelve : U0) & (crate::Id<U13> % U8)),
    e!(12, ((U6 == U6) ? Twelve : U0) & ((U6 == U6) ? Twelve : U0)),
    e!(4, ((U6 == U6) ? Twelve : U0) & ((U6 == U0) ? Twelve : U6)),
    e!(0, ((U6 == U0) ? Twelve : U6) & U0),
    e!(6, ((U6 == U0) ? Twelve : U6) & U6),
    e!(4, ((U6 == U0) ? Twelve : U6) & crate::Id<U13>),
    e!(4, ((U6 == U0) ? Twelve : U6) & Twelve),
    e!(2, ((U6 == U0) ? Twelve : U6) & (U6 + crate::Id<U13>)),
    e!(2, ((U6 == U0) ? Twelve : U6) & (Twelve + U6)),
    e!(6, ((U6 == U0) ? Twelve : U6) & (U6 - crate::Id<U13>)),
    e!(6, ((U6 == U0) ? Twelve : U6) & (Twelve - U6)),
    e!(6, ((U6 == U0) ? Twelve : U6) & (U6 | crate::Id<U13>)),
    e!(6, ((U6 == U0) ? Twelve : U6) & (Twelve | U6)),
    e!(4, ((U6 == U0) ? Twelve : U6) & (U6 & crate::Id<U13>)),
    e!(4, ((U6 == U0) ? Twelve : U6) & (Twelve & U6)),
    e!(4, ((U6 == U0) ? Twelve : U6) & (crate::Id<U13> % U8)),
    e!(4, ((U6 == U0) ? Twelve : U6) & ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 == U0) ? Twelve : U6) & ((U6 == U0) ? Twelve : U6)),
    e!(0, U0 % U1),
    e!(0, U0 % U2),
    e!(0, U0 % U4),
    e!(0, U0 % U8),
    e!(0, U0 % U16),
    e!(0, U6 % U1),
    e!(0, U6 % U2),
    e!(2, U6 % U4),
    e!(6, U6 % U8),
    e!(6, U6 % U16),
    e!(0, crate::Id<U13> % U1),
    e!(1, crate::Id<U13> % U2),
    e!(1, crate::Id<U13> % U4),
    e!(5, crate::Id<U13> % U8),
    e!(13, crate::Id<U13> % U16),
    e!(0, Twelve % U1),
    e!(0, Twelve % U2),
    e!(0, Twelve % U4),
    e!(4, Twelve % U8),
    e!(12, Twelve % U16),
    e!(0, (U6 + crate::Id<U13>) % U1),
    e!(1, (U6 + crate::Id<U13>) % U2),
    e!(3, (U6 + crate::Id<U13>) % U4),
    e!(3, (U6 + crate::Id<U13>) % U8),
    e!(3, (U6 + crate::Id<U13>) % U16),
    e!(0, (Twelve + U6) % U1),
    e!(0, (Twelve + U6) % U2),
    e!(2, (Twelve + U6) % U4),
    e!(2, (Twelve + U6) % U8),
    e!(2, (Twelve + U6) % U16),
    e!(0, (U6 - crate::Id<U13>) % U1),
    e!(1, (U6 - crate::Id<U13>) % U2),
    e!(3, (U6 - crate::Id<U13>) % U4),
    e!(7, (U6 - crate::Id<U13>) % U8),
    e!(7, (U6 - crate::Id<U13>) % U16),
    e!(0, (Twelve - U6) % U1),
    e!(0, (Twelve - U6) % U2),
    e!(2, (Twelve - U6) % U4),
    e!(6, (Twelve - U6) % U8),
    e!(6, (Twelve - U6) % U16),
    e!(0, (U6 | crate::Id<U13>) % U1),
    e!(1, (U6 | crate::Id<U13>) % U2),
    e!(3, (U6 | crate::Id<U13>) % U4),
    e!(7, (U6 | crate::Id<U13>) % U8),
    e!(15, (U6 | crate::Id<U13>) % U16),
    e!(0, (Twelve | U6) % U1),
    e!(0, (Twelve | U6) % U2),
    e!(2, (Twelve | U6) % U4),
    e!(6, (Twelve | U6) % U8),
    e!(14, (Twelve | U6) % U16),
    e!(0, (U6 & crate::Id<U13>) % U1),
    e!(0, (U6 & crate::Id<U13>) % U2),
    e!(0, (U6 & crate::Id<U13>) % U4),
    e!(4, (U6 & crate::Id<U13>) % U8),
    e!(4, (U6 & crate::Id<U13>) % U16),
    e!(0, (Twelve & U6) % U1),
    e!(0, (Twelve & U6) % U2),
    e!(0, (Twelve & U6) % U4),
    e!(4, (Twelve & U6) % U8),
    e!(4, (Twelve & U6) % U16),
    e!(0, (crate::Id<U13> % U8) % U1),
    e!(1, (crate::Id<U13> % U8) % U2),
    e!(1, (crate::Id<U13> % U8) % U4),
    e!(5, (crate::Id<U13> % U8) % U8),
    e!(5, (crate::Id<U13> % U8) % U16),
    e!(0, ((U6 == U6) ? Twelve : U0) % U1),
    e!(0, ((U6 == U6) ? Twelve : U0) % U2),
    e!(0, ((U6 == U6) ? Twelve : U0) % U4),
    e!(4, ((U6 == U6) ? Twelve : U0) % U8),
    e!(12, ((U6 == U6) ? Twelve : U0) % U16),
    e!(0, ((U6 == U0) ? Twelve : U6) % U1),
    e!(0, ((U6 == U0) ? Twelve : U6) % U2),
    e!(2, ((U6 == U0) ? Twelve : U6) % U4),
    e!(6, ((U6 == U0) ? Twelve : U6) % U8),
    e!(6, ((U6 == U0) ? Twelve : U6) % U16),
    e!(0, (U6 == U6) ? U0 : (U6 | crate::Id<U13>)),
    e!(0, (U6 == U6) ? U0 : (Twelve | U6)),
    e!(0, (U6 == U6) ? U0 : (U6 & crate::Id<U13>)),
    e!(0, (U6 == U6) ? U0 : (Twelve & U6)),
    e!(0, (U6 == U6) ? U0 : (crate::Id<U13> % U8)),
    e!(0, (U6 == U6) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(0, (U6 == U6) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(6, (U6 == U6) ? U6 : (U6 | crate::Id<U13>)),
    e!(6, (U6 == U6) ? U6 : (Twelve | U6)),
    e!(6, (U6 == U6) ? U6 : (U6 & crate::Id<U13>)),
    e!(6, (U6 == U6) ? U6 : (Twelve & U6)),
    e!(6, (U6 == U6) ? U6 : (crate::Id<U13> % U8)),
    e!(6, (U6 == U6) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U6) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(13, (U6 == U6) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(13, (U6 == U6) ? crate::Id<U13> : (Twelve | U6)),
    e!(13, (U6 == U6) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(13, (U6 == U6) ? crate::Id<U13> : (Twelve & U6)),
    e!(13, (U6 == U6) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(13, (U6 == U6) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(13, (U6 == U6) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(12, (U6 == U6) ? Twelve : (U6 | crate::Id<U13>)),
    e!(12, (U6 == U6) ? Twelve : (Twelve | U6)),
    e!(12, (U6 == U6) ? Twelve : (U6 & crate::Id<U13>)),
    e!(12, (U6 == U6) ? Twelve : (Twelve & U6)),
    e!(12, (U6 == U6) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, (U6 == U6) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(12, (U6 == U6) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(19, (U6 == U6) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(18, (U6 == U6) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(18, (U6 == U6) ? (Twelve + U6) : (Twelve | U6)),
    e!(18, (U6 == U6) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(18, (U6 == U6) ? (Twelve + U6) : (Twelve & U6)),
    e!(18, (U6 == U6) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(18, (U6 == U6) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(18, (U6 == U6) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(7, (U6 == U6) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(6, (U6 == U6) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(6, (U6 == U6) ? (Twelve - U6) : (Twelve | U6)),
    e!(6, (U6 == U6) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(6, (U6 == U6) ? (Twelve - U6) : (Twelve & U6)),
    e!(6, (U6 == U6) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(6, (U6 == U6) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U6) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? U0 : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? U0 : (Twelve | U6)),
    e!(4, (U6 == U0) ? U0 : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? U0 : (Twelve & U6)),
    e!(5, (U6 == U0) ? U0 : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? U6 : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? U6 : (Twelve | U6)),
    e!(4, (U6 == U0) ? U6 : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? U6 : (Twelve & U6)),
    e!(5, (U6 == U0) ? U6 : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? crate::Id<U13> : (Twelve | U6)),
    e!(4, (U6 == U0) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? crate::Id<U13> : (Twelve & U6)),
    e!(5, (U6 == U0) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? Twelve : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? Twelve : (Twelve | U6)),
    e!(4, (U6 == U0) ? Twelve : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? Twelve : (Twelve & U6)),
    e!(5, (U6 == U0) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(4, (U6 == U0) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(5, (U6 == U0) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? (Twelve + U6) : (Twelve | U6)),
    e!(4, (U6 == U0) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? (Twelve + U6) : (Twelve & U6)),
    e!(5, (U6 == U0) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(4, (U6 == U0) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(5, (U6 == U0) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (U6 == U0) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(14, (U6 == U0) ? (Twelve - U6) : (Twelve | U6)),
    e!(4, (U6 == U0) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(4, (U6 == U0) ? (Twelve - U6) : (Twelve & U6)),
    e!(5, (U6 == U0) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(12, (U6 == U0) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (U6 == U0) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? U0 : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? U0 : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? U0 : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? U0 : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? U0 : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? U6 : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? U6 : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? U6 : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? U6 : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? U6 : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? crate::Id<U13> : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? crate::Id<U13> : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? Twelve : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? Twelve : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? Twelve : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? Twelve : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? (Twelve + U6) : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? (Twelve + U6) : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (!(U6 == U6)) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(14, (!(U6 == U6)) ? (Twelve - U6) : (Twelve | U6)),
    e!(4, (!(U6 == U6)) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(4, (!(U6 == U6)) ? (Twelve - U6) : (Twelve & U6)),
    e!(5, (!(U6 == U6)) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U6)) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U6)) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
    e!(0, (!(U6 == U0)) ? U0 : (U6 | crate::Id<U13>)),
    e!(0, (!(U6 == U0)) ? U0 : (Twelve | U6)),
    e!(0, (!(U6 == U0)) ? U0 : (U6 & crate::Id<U13>)),
    e!(0, (!(U6 == U0)) ? U0 : (Twelve & U6)),
    e!(0, (!(U6 == U0)) ? U0 : (crate::Id<U13> % U8)),
    e!(0, (!(U6 == U0)) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(0, (!(U6 == U0)) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(6, (!(U6 == U0)) ? U6 : (U6 | crate::Id<U13>)),
    e!(6, (!(U6 == U0)) ? U6 : (Twelve | U6)),
    e!(6, (!(U6 == U0)) ? U6 : (U6 & crate::Id<U13>)),
    e!(6, (!(U6 == U0)) ? U6 : (Twelve & U6)),
    e!(6, (!(U6 == U0)) ? U6 : (crate::Id<U13> % U8)),
    e!(6, (!(U6 == U0)) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U0)) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : (Twelve | U6)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : (Twelve & U6)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(13, (!(U6 == U0)) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(12, (!(U6 == U0)) ? Twelve : (U6 | crate::Id<U13>)),
    e!(12, (!(U6 == U0)) ? Twelve : (Twelve | U6)),
    e!(12, (!(U6 == U0)) ? Twelve : (U6 & crate::Id<U13>)),
    e!(12, (!(U6 == U0)) ? Twelve : (Twelve & U6)),
    e!(12, (!(U6 == U0)) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, (!(U6 == U0)) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(12, (!(U6 == U0)) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(19, (!(U6 == U0)) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : (Twelve | U6)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : (Twelve & U6)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(18, (!(U6 == U0)) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(7, (!(U6 == U0)) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : (Twelve | U6)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : (Twelve & U6)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (!(U6 == U0)) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : (U6 | crate::Id<U13>)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : (Twelve | U6)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : (U6 & crate::Id<U13>)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : (Twelve & U6)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : (crate::Id<U13> % U8)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(0, ((U6 + U6) == Twelve) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : (U6 | crate::Id<U13>)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : (Twelve | U6)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : (U6 & crate::Id<U13>)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : (Twelve & U6)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : (crate::Id<U13> % U8)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 + U6) == Twelve) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : (Twelve | U6)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : (Twelve & U6)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(13, ((U6 + U6) == Twelve) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : (U6 | crate::Id<U13>)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : (Twelve | U6)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : (U6 & crate::Id<U13>)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : (Twelve & U6)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(12, ((U6 + U6) == Twelve) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(19, ((U6 + U6) == Twelve) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : (Twelve | U6)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : (Twelve & U6)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(18, ((U6 + U6) == Twelve) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(7, ((U6 + U6) == Twelve) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : (Twelve | U6)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : (Twelve & U6)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 + U6) == Twelve) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : (U6 | crate::Id<U13>)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : (Twelve | U6)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : (U6 & crate::Id<U13>)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : (Twelve & U6)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : (crate::Id<U13> % U8)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(0, ((U6 - Twelve) == (U6 & U6)) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : (U6 | crate::Id<U13>)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : (Twelve | U6)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : (U6 & crate::Id<U13>)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : (Twelve & U6)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : (crate::Id<U13> % U8)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : (Twelve | U6)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : (Twelve & U6)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(13, ((U6 - Twelve) == (U6 & U6)) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : (U6 | crate::Id<U13>)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : (Twelve | U6)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : (U6 & crate::Id<U13>)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : (Twelve & U6)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(12, ((U6 - Twelve) == (U6 & U6)) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(19, ((U6 - Twelve) == (U6 & U6)) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : (Twelve | U6)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : (Twelve & U6)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(18, ((U6 - Twelve) == (U6 & U6)) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(7, ((U6 - Twelve) == (U6 & U6)) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : (Twelve | U6)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : (Twelve & U6)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, ((U6 - Twelve) == (U6 & U6)) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? U0 : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? U0 : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? U0 : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? U0 : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? U0 : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? U0 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? U0 : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? U6 : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? U6 : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? U6 : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? U6 : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? U6 : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? U6 : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? U6 : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? crate::Id<U13> : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? Twelve : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? Twelve : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? Twelve : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? Twelve : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? Twelve : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? Twelve : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? Twelve : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? (U6 + crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? (Twelve + U6) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? (U6 - crate::Id<U13>) : ((U6 == U0) ? Twelve : U6)),
    e!(15, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : (U6 | crate::Id<U13>)),
    e!(14, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : (Twelve | U6)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : (U6 & crate::Id<U13>)),
    e!(4, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : (Twelve & U6)),
    e!(5, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : (crate::Id<U13> % U8)),
    e!(12, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : ((U6 == U6) ? Twelve : U0)),
    e!(6, (crate::Id<U13> == (Twelve + U6)) ? (Twelve - U6) : ((U6 == U0) ? Twelve : U6)),
];
pub const BITS: &[(&str, bool, bool, fn() -> &'static str)] = &[
    b!(true, U0 == U0),
    b!(false, U0 == U6),
    b!(false, U0 == crate::Id<U13>),
    b!(false, U0 == Twelve),
    b!(false, U0 == (U6 + crate::Id<U13>)),
    b!(false, U0 == (Twelve + U6)),
    b!(false, U0 == (U6 - crate::Id<U13>)),
    b!(false, U0 == (Twelve - U6)),
    b!(false, U0 == (U6 | crate::Id<U13>)),
    b!(false, U0 == (Twelve | U6)),
    b!(false, U0 == (U6 & crate::Id<U13>)),
    b!(false, U0 == (Twelve & U6)),
    b!(false, U0 == (crate::Id<U13> % U8)),
    b!(false, U0 == ((U6 == U6) ? Twelve : U0)),
    b!(false, U0 == ((U6 == U0) ? Twelve : U6)),
    b!(false, U6 == U0),
    b!(true, U6 == U6),
    b!(false, U6 == crate::Id<U13>),
    b!(false, U6 == Twelve),
    b!(false, U6 == (U6 + crate::Id<U13>)),
    b!(false, U6 == (Twelve + U6)),
    b!(false, U6 == (U6 - crate::Id<U13>)),
    b!(true, U6 == (Twelve - U6)),
    b!(false, U6 == (U6 | crate::Id<U13>)),
    b!(false, U6 == (Twelve | U6)),
    b!(false, U6 == (U6 & crate::Id<U13>)),
    b!(false, U6 == (Twelve & U6)),
    b!(false, U6 == (crate::Id<U13> % U8)),
    b!(false, U6 == ((U6 == U6) ? Twelve : U0)),
    b!(true, U6 == ((U6 == U0) ? Twelve : U6)),
    b!(false, crate::Id<U13> == U0),
    b!(false, crate::Id<U13> == U6),
    b!(true, crate::Id<U13> == crate::Id<U13>),
    b!(false, crate::Id<U13> == Twelve),
    b!(false, crate::Id<U13> == (U6 + crate::Id<U13>)),
    b!(false, crate::Id<U13> == (Twelve + U6)),
    b!(false, crate::Id<U13> == (U6 - crate::Id<U13>)),
    b!(false, crate::Id<U13> == (Twelve - U6)),
    b!(false, crate::Id<U13> == (U6 | crate::Id<U13>)),
    b!(false, crate::Id<U13> == (Twelve | U6)),
    b!(false, crate::Id<U13> == (U6 & crate::Id<U13>)),
    b!(false, crate::Id<U13> == (Twelve & U6)),
    b!(false, crate::Id<U13> == (crate::Id<U13> % U8)),
    b!(false, crate::Id<U13> == ((U6 == U6) ? Twelve : U0)),
    b!(false, crate::Id<U13> == ((U6 == U0) ? Twelve : U6)),
    b!(false, Twelve == U0),
    b!(false, Twelve == U6),
    b!(false, Twelve == crate::Id<U13>),
    b!(true, Twelve == Twelve),
    b!(false, Twelve == (U6 + crate::Id<U13>)),
    b!(false, Twelve == (Twelve + U6)),
    b!(false, Twelve == (U6 - crate::Id<U13>)),
    b!(false, Twelve == (Twelve - U6)),
    b!(false, Twelve == (U6 | crate::Id<U13>)),
    b!(false, Twelve == (Twelve | U6)),
    b!(false, Twelve == (U6 & crate::Id<U13>)),
    b!(false, Twelve == (Twelve & U6)),
    b!(false, Twelve == (crate::Id<U13> % U8)),
    b!(true, Twelve == ((U6 == U6) ? Twelve : U0)),
    b!(false, Twelve == ((U6 == U0) ? Twelve : U6)),
    b!(false, (U6 + crate::Id<U13>) == U0),
    b!(false, (U6 + crate::Id<U13>) == U6),
    b!(false, (U6 + crate::Id<U13>) == crate::Id<U13>),
    b!(false, (U6 + crate::Id<U13>) == Twelve),
    b!(true, (U6 + crate::Id<U13>) == (U6 + crate::Id<U13>)),
    b!(false, (U6 + crate::Id<U13>) == (Twelve + U6)),
    b!(false, (U6 + crate::Id<U13>) == (U6 - crate::Id<U13>)),
    b!(false, (U6 + crate::Id<U13>) == (Twelve - U6)),
    b!(false, (U6 + crate::Id<U13>) == (U6 | crate::Id<U13>)),
    b!(false, (U6 + crate::Id<U13>) == (Twelve | U6)),
    b!(false, (U6 + crate::Id<U13>) == (U6 & crate::Id<U13>)),
    b!(false, (U6 + crate::Id<U13>) == (Twelve & U6)),
    b!(false, (U6 + crate::Id<U13>) == (crate::Id<U13> % U8)),
    b!(false, (U6 + crate::Id<U13>) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (U6 + crate::Id<U13>) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (Twelve + U6) == U0),
    b!(false, (Twelve + U6) == U6),
    b!(false, (Twelve + U6) == crate::Id<U13>),
    b!(false, (Twelve + U6) == Twelve),
    b!(false, (Twelve + U6) == (U6 + crate::Id<U13>)),
    b!(true, (Twelve + U6) == (Twelve + U6)),
    b!(false, (Twelve + U6) == (U6 - crate::Id<U13>)),
    b!(false, (Twelve + U6) == (Twelve - U6)),
    b!(false, (Twelve + U6) == (U6 | crate::Id<U13>)),
    b!(false, (Twelve + U6) == (Twelve | U6)),
    b!(false, (Twelve + U6) == (U6 & crate::Id<U13>)),
    b!(false, (Twelve + U6) == (Twelve & U6)),
    b!(false, (Twelve + U6) == (crate::Id<U13> % U8)),
    b!(false, (Twelve + U6) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (Twelve + U6) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (U6 - crate::Id<U13>) == U0),
    b!(false, (U6 - crate::Id<U13>) == U6),
    b!(false, (U6 - crate::Id<U13>) == crate::Id<U13>),
    b!(false, (U6 - crate::Id<U13>) == Twelve),
    b!(false, (U6 - crate::Id<U13>) == (U6 + crate::Id<U13>)),
    b!(false, (U6 - crate::Id<U13>) == (Twelve + U6)),
    b!(true, (U6 - crate::Id<U13>) == (U6 - crate::Id<U13>)),
    b!(false, (U6 - crate::Id<U13>) == (Twelve - U6)),
    b!(false, (U6 - crate::Id<U13>) == (U6 | crate::Id<U13>)),
    b!(false, (U6 - crate::Id<U13>) == (Twelve | U6)),
    b!(false, (U6 - crate::Id<U13>) == (U6 & crate::Id<U13>)),
    b!(false, (U6 - crate::Id<U13>) == (Twelve & U6)),
    b!(false, (U6 - crate::Id<U13>) == (crate::Id<U13> % U8)),
    b!(false, (U6 - crate::Id<U13>) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (U6 - crate::Id<U13>) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (Twelve - U6) == U0),
    b!(true, (Twelve - U6) == U6),
    b!(false, (Twelve - U6) == crate::Id<U13>),
    b!(false, (Twelve - U6) == Twelve),
    b!(false, (Twelve - U6) == (U6 + crate::Id<U13>)),
    b!(false, (Twelve - U6) == (Twelve + U6)),
    b!(false, (Twelve - U6) == (U6 - crate::Id<U13>)),
    b!(true, (Twelve - U6) == (Twelve - U6)),
    b!(false, (Twelve - U6) == (U6 | crate::Id<U13>)),
    b!(false, (Twelve - U6) == (Twelve | U6)),
    b!(false, (Twelve - U6) == (U6 & crate::Id<U13>)),
    b!(false, (Twelve - U6) == (Twelve & U6)),
    b!(false, (Twelve - U6) == (crate::Id<U13> % U8)),
    b!(false, (Twelve - U6) == ((U6 == U6) ? Twelve : U0)),
    b!(true, (Twelve - U6) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (U6 | crate::Id<U13>) == U0),
    b!(false, (U6 | crate::Id<U13>) == U6),
    b!(false, (U6 | crate::Id<U13>) == crate::Id<U13>),
    b!(false, (U6 | crate::Id<U13>) == Twelve),
    b!(false, (U6 | crate::Id<U13>) == (U6 + crate::Id<U13>)),
    b!(false, (U6 | crate::Id<U13>) == (Twelve + U6)),
    b!(false, (U6 | crate::Id<U13>) == (U6 - crate::Id<U13>)),
    b!(false, (U6 | crate::Id<U13>) == (Twelve - U6)),
    b!(true, (U6 | crate::Id<U13>) == (U6 | crate::Id<U13>)),
    b!(false, (U6 | crate::Id<U13>) == (Twelve | U6)),
    b!(false, (U6 | crate::Id<U13>) == (U6 & crate::Id<U13>)),
    b!(false, (U6 | crate::Id<U13>) == (Twelve & U6)),
    b!(false, (U6 | crate::Id<U13>) == (crate::Id<U13> % U8)),
    b!(false, (U6 | crate::Id<U13>) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (U6 | crate::Id<U13>) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (Twelve | U6) == U0),
    b!(false, (Twelve | U6) == U6),
    b!(false, (Twelve | U6) == crate::Id<U13>),
    b!(false, (Twelve | U6) == Twelve),
    b!(false, (Twelve | U6) == (U6 + crate::Id<U13>)),
    b!(false, (Twelve | U6) == (Twelve + U6)),
    b!(false, (Twelve | U6) == (U6 - crate::Id<U13>)),
    b!(false, (Twelve | U6) == (Twelve - U6)),
    b!(false, (Twelve | U6) == (U6 | crate::Id<U13>)),
    b!(true, (Twelve | U6) == (Twelve | U6)),
    b!(false, (Twelve | U6) == (U6 & crate::Id<U13>)),
    b!(false, (Twelve | U6) == (Twelve & U6)),
    b!(false, (Twelve | U6) == (crate::Id<U13> % U8)),
    b!(false, (Twelve | U6) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (Twelve | U6) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (U6 & crate::Id<U13>) == U0),
    b!(false, (U6 & crate::Id<U13>) == U6),
    b!(false, (U6 & crate::Id<U13>) == crate::Id<U13>),
    b!(false, (U6 & crate::Id<U13>) == Twelve),
    b!(false, (U6 & crate::Id<U13>) == (U6 + crate::Id<U13>)),
    b!(false, (U6 & crate::Id<U13>) == (Twelve + U6)),
    b!(false, (U6 & crate::Id<U13>) == (U6 - crate::Id<U13>)),
    b!(false, (U6 & crate::Id<U13>) == (Twelve - U6)),
    b!(false, (U6 & crate::Id<U13>) == (U6 | crate::Id<U13>)),
    b!(false, (U6 & crate::Id<U13>) == (Twelve | U6)),
    b!(true, (U6 & crate::Id<U13>) == (U6 & crate::Id<U13>)),
    b!(true, (U6 & crate::Id<U13>) == (Twelve & U6)),
    b!(false, (U6 & crate::Id<U13>) == (crate::Id<U13> % U8)),
    b!(false, (U6 & crate::Id<U13>) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (U6 & crate::Id<U13>) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (Twelve & U6) == U0),
    b!(false, (Twelve & U6) == U6),
    b!(false, (Twelve & U6) == crate::Id<U13>),
    b!(false, (Twelve & U6) == Twelve),
    b!(false, (Twelve & U6) == (U6 + crate::Id<U13>)),
    b!(false, (Twelve & U6) == (Twelve + U6)),
    b!(false, (Twelve & U6) == (U6 - crate::Id<U13>)),
    b!(false, (Twelve & U6) == (Twelve - U6)),
    b!(false, (Twelve & U6) == (U6 | crate::Id<U13>)),
    b!(false, (Twelve & U6) == (Twelve | U6)),
    b!(true, (Twelve & U6) == (U6 & crate::Id<U13>)),
    b!(true, (Twelve & U6) == (Twelve & U6)),
    b!(false, (Twelve & U6) == (crate::Id<U13> % U8)),
    b!(false, (Twelve & U6) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (Twelve & U6) == ((U6 == U0) ? Twelve : U6)),
    b!(false, (crate::Id<U13> % U8) == U0),
    b!(false, (crate::Id<U13> % U8) == U6),
    b!(false, (crate::Id<U13> % U8) == crate::Id<U13>),
    b!(false, (crate::Id<U13> % U8) == Twelve),
    b!(false, (crate::Id<U13> % U8) == (U6 + crate::Id<U13>)),
    b!(false, (crate::Id<U13> % U8) == (Twelve + U6)),
    b!(false, (crate::Id<U13> % U8) == (U6 - crate::Id<U13>)),
    b!(false, (crate::Id<U13> % U8) == (Twelve - U6)),
    b!(false, (crate::Id<U13> % U8) == (U6 | crate::Id<U13>)),
    b!(false, (crate::Id<U13> % U8) == (Twelve | U6)),
    b!(false, (crate::Id<U13> % U8) == (U6 & crate::Id<U13>)),
    b!(false, (crate::Id<U13> % U8) == (Twelve & U6)),
    b!(true, (crate::Id<U13> % U8) == (crate::Id<U13> % U8)),
    b!(false, (crate::Id<U13> % U8) == ((U6 == U6) ? Twelve : U0)),
    b!(false, (crate::Id<U13> % U8) == ((U6 == U0) ? Twelve : U6)),
    b!(false, ((U6 == U6) ? Twelve : U0) == U0),
    b!(false, ((U6 == U6) ? Twelve : U0) == U6),
    b!(false, ((U6 == U6) ? Twelve : U0) == crate::Id<U13>),
    b!(true, ((U6 == U6) ? Twelve : U0) == Twelve),
    b!(false, ((U6 == U6) ? Twelve : U0) == (U6 + crate::Id<U13>)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (Twelve + U6)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (U6 - crate::Id<U13>)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (Twelve - U6)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (U6 | crate::Id<U13>)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (Twelve | U6)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (U6 & crate::Id<U13>)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (Twelve & U6)),
    b!(false, ((U6 == U6) ? Twelve : U0) == (crate::Id<U13> % U8)),
    b!(true, ((U6 == U6) ? Twelve : U0) == ((U6 == U6) ? Twelve : U0)),
    b!(false, ((U6 == U6) ? Twelve : U0) == ((U6 == U0) ? Twelve : U6)),
    b!(false, ((U6 == U0) ? Twelve : U6) == U0),
    b!(true, ((U6 == U0) ? Twelve : U6) == U6),
    b!(false, ((U6 == U0) ? Twelve : U6) == crate::Id<U13>),
    b!(false, ((U6 == U0) ? Twelve : U6) == Twelve),
    b!(false, ((U6 == U0) ? Twelve : U6) == (U6 + crate::Id<U13>)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (Twelve + U6)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (U6 - crate::Id<U13>)),
    b!(true, ((U6 == U0) ? Twelve : U6) == (Twelve - U6)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (U6 | crate::Id<U13>)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (Twelve | U6)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (U6 & crate::Id<U13>)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (Twelve & U6)),
    b!(false, ((U6 == U0) ? Twelve : U6) == (crate::Id<U13> % U8)),
    b!(false, ((U6 == U0) ? Twelve : U6) == ((U6 == U6) ? Twelve : U0)),
    b!(true, ((U6 == U0) ? Twelve : U6) == ((U6 == U0) ? Twelve : U6)),
    b!(false, !(U6 == U6)),
    b!(true, !(!(U6 == U6))),
    b!(true, !(U6 == U0)),
    b!(false, !(!(U6 == U0))),
    b!(true, !(!(U6 == U6))),
    b!(false, !(!(!(U6 == U6)))),
    b!(false, !(!(U6 == U0))),
    b!(true, !(!(!(U6 == U0)))),
    b!(false, !((U6 + U6) == Twelve)),
    b!(true, !(!((U6 + U6) == Twelve))),
    b!(false, !((U6 - Twelve) == (U6 & U6))),
    b!(true, !(!((U6 - Twelve) == (U6 & U6)))),
    b!(true, !(crate::Id<U13> == (Twelve + U6))),
    b!(false, !(!(crate::Id<U13> == (Twelve + U6)))),
];
