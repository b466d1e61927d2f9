use crate::*;
use stabby_abi::istable::{ForbiddenRange, Or};
use stabby_abi::typenum2::*;

type Bytes = [u8; 8];
fn bytes(m: Vec<(usize, u8)>) -> Bytes {
    let mut b = [0; 8];
    for (o, m) in m {
        check(b[o] == 0, "mask-twice", || format!("byte {o} is listed twice"));
        b[o] = m;
    }
    b
}
struct Mask1 {
    bytes: Bytes,
    at: [(u128, bool); 5],
    shifted: [Vec<(usize, u8)>; 3],
    extract: (u128, u128, Vec<(usize, u8)>),
    empty: bool,
}
fn mask1<M: IBitMask>() -> Mask1
where
    M::ExtractedBitByteOffset: MaybeNum,
    M::ExtractedBitMask: MaybeNum,
{
    let m = bytes(mask::<M>());
    Mask1 {
        bytes: m,
        at: [
            (<M::ByteAt<U0> as Unsigned>::U128, <M::HasFreeByteAt<U0> as Bit>::BOOL),
            (<M::ByteAt<U1> as Unsigned>::U128, <M::HasFreeByteAt<U1> as Bit>::BOOL),
            (<M::ByteAt<U2> as Unsigned>::U128, <M::HasFreeByteAt<U2> as Bit>::BOOL),
            (<M::ByteAt<U3> as Unsigned>::U128, <M::HasFreeByteAt<U3> as Bit>::BOOL),
            (<M::ByteAt<U4> as Unsigned>::U128, <M::HasFreeByteAt<U4> as Bit>::BOOL),
        ],
        shifted: [mask::<M::Shift<U0>>(), mask::<M::Shift<U1>>(), mask::<M::Shift<U3>>()],
        extract: if m == [0; 8] { (0, 0, mask::<M::ExtractBit>()) } else { (M::ExtractedBitByteOffset::num(), M::ExtractedBitMask::num(), mask::<M::ExtractBit>()) },
        empty: m == [0; 8],
    }
}
/// What a mask without bits has isn't a number.
pub trait MaybeNum {
    fn num() -> u128;
}
impl MaybeNum for stabby_abi::istable::Saturator {
    fn num() -> u128 {
        0
    }
}
impl MaybeNum for UTerm {
    fn num() -> u128 {
        0
    }
}
impl<M: stabby_abi::typenum2::unsigned::IUnsignedBase, B: Bit> MaybeNum for UInt<M, B>
where
    UInt<M, B>: Unsigned,
{
    fn num() -> u128 {
        <Self as Unsigned>::U128
    }
}
fn mask2<A: IBitMask, B: IBitMask>() -> (Vec<(usize, u8)>, Vec<(usize, u8)>) {
    (mask::<A::BitAnd<B>>(), mask::<A::BitOr<B>>())
}
type M1<O, V> = Array<O, V, End>;
type M2<O, V, P, W> = Array<O, V, Array<P, W, End>>;
macro_rules! row {
    ($a: ty, [$($b: ty),*]) => { (mask1::<$a> as fn() -> Mask1, &[$((mask1::<$b> as fn() -> Mask1, mask2::<$a, $b> as fn() -> _)),*]) };
}
macro_rules! matrix {
    ([$($a: ty),*] $bs: tt) => { &[$(row!($a, $bs)),*] };
}
type Pair = (fn() -> Mask1, fn() -> (Vec<(usize, u8)>, Vec<(usize, u8)>));
static MASKS: &[(fn() -> Mask1, &[Pair])] = matrix!(
    [End, M1<U0, U1>, M1<U0, U255>, M1<U1, U128>, M1<U1, U254>, M1<U3, U12>, M2<U0, U3, U1, U255>, M2<U1, U255, U0, U80>, M2<U1, U255, U2, U255>, M2<U3, U1, U2, U128>, M2<U0, U255, U3, U6>, Array<U0, U1, M2<U1, U2, U2, U4>>]
    [End, M1<U0, U1>, M1<U0, U255>, M1<U1, U128>, M1<U1, U254>, M1<U3, U12>, M2<U0, U3, U1, U255>, M2<U1, U255, U0, U80>, M2<U1, U255, U2, U255>, M2<U3, U1, U2, U128>, M2<U0, U255, U3, U6>, Array<U0, U1, M2<U1, U2, U2, U4>>]
);
pub fn masks() {
    let (a, row) = MASKS[choose(MASKS.len())];
    let (b, ops) = row[choose(row.len())];
    quiet(|| {
        let (a, b) = (a(), b());
        let (and, or) = ops();
        let what = format!("{:02x?} and {:02x?}", a.bytes, b.bytes);
        state(mix(u64::from_le_bytes(a.bytes), u64::from_le_bytes(b.bytes)));
        log(|| what.clone());
        let and = bytes(and);
        check((0..8).all(|i| and[i] == a.bytes[i] & b.bytes[i]), "and", || format!("the bits of both {what} are {and:02x?}"));
        // The lists may mention a byte twice: each of their entries holds.
        let mut union = [0u8; 8];
        for (o, m) in or {
            union[o] |= m;
        }
        check((0..8).all(|i| union[i] == a.bytes[i] | b.bytes[i]), "or", || format!("the bits of either of {what} are {union:02x?}"));
        for (i, &(at, free)) in a.at.iter().enumerate() {
            check(at == a.bytes[i] as u128, "byte-at", || format!("byte {i} of {:02x?} is {at}", a.bytes));
            check(free == (a.bytes[i] == 255), "free-byte", || format!("byte {i} of {:02x?} is free: {free}", a.bytes));
        }
        for (by, s) in [0, 1, 3].into_iter().zip(&a.shifted) {
            let s = bytes(s.clone());
            check((0..8).all(|i| s[i] == if i < by { 0 } else { a.bytes[i - by] }), "shift", || format!("{:02x?} shifted by {by} is {s:02x?}", a.bytes));
        }
        let (o, m, rest) = &a.extract;
        let rest = bytes(rest.clone());
        if a.empty {
            check(rest == [0; 8], "extract", || "nothing minus a bit is something".into());
        } else {
            let o = *o as usize;
            check(m.count_ones() == 1 && *m < 256 && a.bytes[o] & *m as u8 != 0, "extracted", || format!("the bit {m:#x} of byte {o} was taken out of {:02x?}", a.bytes));
            check((0..8).all(|i| rest[i] == if i == o { a.bytes[i] & !(*m as u8) } else { a.bytes[i] }), "extract", || format!("{:02x?} without bit {m:#x} of byte {o} is {rest:02x?}", a.bytes));
        }
    });
    step();
}

/// A set of forbidden values, and what's in it.
struct Set {
    name: &'static str,
    invalid: [unsafe fn(*const u8) -> bool; 3],
    or: [unsafe fn(*const u8) -> bool; 2],
    one: fn() -> Vec<(usize, u8)>,
    oracle: fn(u8, u8) -> bool,
}
fn set<F: IForbiddenValues>(name: &'static str, oracle: fn(u8, u8) -> bool) -> Set
where
    F::SelectOne: Pattern,
{
    Set {
        name,
        invalid: [F::is_invalid, <F::Shift<U0>>::is_invalid, <F::Shift<U2>>::is_invalid],
        or: [<F::Or<Array<U1, U9, End>>>::is_invalid, <<Array<U1, U9, End> as IForbiddenValues>::Or<F>>::is_invalid],
        one: pattern::<F::SelectOne>,
        oracle,
    }
}
macro_rules! sets {
    ($(($t: ty, $o: expr)),* $(,)?) => { &[$(|| set::<$t>(stringify!($t), $o)),*] };
}
static SETS: &[fn() -> Set] = sets![
    (End, |_, _| false),
    (Array<U0, U0, End>, |a, _| a == 0),
    (Array<U1, U255, End>, |_, b| b == 255),
    (Array<U0, U0, Array<U1, U0, End>>, |a, b| a == 0 && b == 0),
    (Array<U1, U1, Array<U0, U128, End>>, |a, b| b == 1 && a == 128),
    (ForbiddenRange<U2, U255, U0>, |a, _| a >= 2),
    (ForbiddenRange<U2, U254, U1>, |_, b| b >= 2 && b != 255),
    (Or<Array<U0, U0, End>, Array<U1, U0, End>>, |a, b| a == 0 || b == 0),
    (Or<ForbiddenRange<U2, U255, U0>, Array<U1, U7, End>>, |a, b| a >= 2 || b == 7),
    (Or<End, ForbiddenRange<U3, U8, U1>>, |_, b| (3..=8).contains(&b)),
    (Or<Array<U0, U1, Array<U1, U1, End>>, ForbiddenRange<U0, U1, U1>>, |a, b| a == 1 && b == 1 || b <= 1),
    (Or<Or<Array<U0, U1, End>, Array<U0, U3, End>>, Or<Array<U1, U1, End>, End>>, |a, b| a == 1 || a == 3 || b == 1),
];
pub fn forbidden() {
    let s = SETS[choose(SETS.len())]();
    let a = choose(256) as u8;
    log(|| s.name.to_string());
    quiet(|| {
        for b in 0..=255u8 {
            let want = (s.oracle)(a, b);
            let at = [a, b, 0xa5, 0xa5];
            let shifted = [0xa5, 0xa5, a, b];
            unsafe {
                check((s.invalid[0])(at.as_ptr()) == want, "forbidden", || format!("{} holds {a}, {b}: {}", s.name, !want));
                check((s.invalid[1])(at.as_ptr()) == want, "forbidden-shift", || format!("{} shifted by 0 holds {a}, {b}: {}", s.name, !want));
                check((s.invalid[2])(shifted.as_ptr()) == want, "forbidden-shift", || format!("{} shifted by 2 holds {a}, {b}: {}", s.name, !want));
                for or in s.or {
                    check(or(at.as_ptr()) == (want || b == 9), "forbidden-or", || format!("{} or a second byte of 9 holds {a}, {b}: {}", s.name, !(want || b == 9)));
                }
            }
        }
        let one = (s.one)();
        if !one.is_empty() {
            let mut at = [a; 4];
            for (o, v) in one {
                at[o] = v;
            }
            check((s.oracle)(at[0], at[1]), "select", || format!("{} selects {at:?}, which it doesn't hold", s.name));
        }
        state(mix(s.name.as_ptr() as u64, a as u64));
    });
    step();
}
