//! C23: type-level arithmetic computes the numbers it denotes.
#![recursion_limit = "512"]
use core::any::type_name;
use mcrt::*;
use stabby_abi::istable::IBitMask;
use stabby_abi::typenum2::unsigned::{Alignment, Bool, IBitBase, IPowerOf2, IUnsigned, IUnsignedBase, NonZero};
use stabby_abi::typenum2::*;
use stabby_abi::IStable;

macro_rules! n {
    ($N: ident, $v: literal) => {
        (stringify!($N), $v, <$N as Unsigned>::U128, core::any::type_name::<$N>)
    };
}
macro_rules! e {
    ($v: literal, $($e: tt)*) => {
        (stringify!($($e)*), $v, <tyeval!($($e)*) as stabby_abi::typenum2::Unsigned>::U128, core::any::type_name::<tyeval!($($e)*)>)
    };
}
macro_rules! b {
    ($v: literal, $($e: tt)*) => {
        (stringify!($($e)*), $v, <tyeval!($($e)*) as Bit>::BOOL, core::any::type_name::<tyeval!($($e)*)>)
    };
}
mod exprs;
mod names;
pub type Id<T> = T;
pub type Twelve = U12;
pub struct Of;
pub trait Is {
    type Five: Unsigned;
}
impl Is for Of {
    type Five = U5;
}
type Name = fn() -> &'static str;

/// The digits a number is spelled with.
fn digits(name: &str) -> String {
    let mut s = String::new();
    let i = name.find("UTerm");
    check(i.is_some(), "spelling", || format!("{name} doesn't end"));
    let mut rest = &name[i.unwrap()..];
    while let Some(i) = rest.find(", ") {
        rest = &rest[i + 2..];
        let end = rest.find('>').unwrap();
        s.push(if rest[..end].ends_with("::B1") {
            '1'
        } else if rest[..end].ends_with("::B0") {
            '0'
        } else {
            '?'
        });
    }
    s
}
/// That a type is the one that denotes `want`.
fn is(got: u128, name: Name, want: u128, what: &dyn Fn() -> String) {
    check(got == want, "value", || format!("{} is {got} and not {want}", what()));
    let d = digits(name());
    let w = if want == 0 { String::new() } else { format!("{want:b}") };
    check(d == w, "spelling", || format!("{} is spelled {d} and not {w}", what()));
}

// ---------------------------------------------------------------- pairs
struct Pair {
    a: u128,
    b: u128,
    numbers: [(&'static str, u128, Name); 8],
    bits: [(&'static str, bool); 6],
    cmp: Name,
}
macro_rules! num {
    ($n: literal, $t: ty) => {
        ($n, <$t as Unsigned>::U128, core::any::type_name::<$t>)
    };
}
fn pair<A: Unsigned, B: Unsigned>() -> Pair {
    Pair {
        a: A::U128,
        b: B::U128,
        numbers: [
            num!("&", A::BitAnd<B>),
            num!("|", A::BitOr<B>),
            num!("+", A::Add<B>),
            num!("-", A::AbsSub<B>),
            num!("min", <A as IUnsigned>::Min<B>),
            num!("max", <A as IUnsigned>::Max<B>),
            num!("truncate", A::Truncate<B>),
            num!("*", A::Mul<B>),
        ],
        bits: [
            ("==", <A::Equal<B> as Bit>::BOOL),
            ("!=", <A::NotEqual<B> as Bit>::BOOL),
            (">", <A::Greater<B> as Bit>::BOOL),
            (">=", <A::GreaterOrEq<B> as Bit>::BOOL),
            ("<", <A::Smaller<B> as Bit>::BOOL),
            ("<=", <A::SmallerOrEq<B> as Bit>::BOOL),
        ],
        cmp: type_name::<A::Cmp<B>>,
    }
}
macro_rules! row {
    ($f: ident, $A: ident, [$($B: ident)*]) => { &[$($f::<$A, $B>),*] };
}
macro_rules! square {
    ($f: ident, [$($A: ident)*], $B: tt) => { &[$(row!($f, $A, $B)),*] };
}
macro_rules! with_numbers {
    ($m: ident, $($x: tt)*) => {
        $m!($($x)* [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U21 U26 U31 U32 U33 U48 U63 U64 U85 U127 U128 U170 U255 U256 U1000])
    };
}
macro_rules! pairs_of {
    ($t: tt) => { square!(pair, $t, $t) };
}
macro_rules! powers_of {
    ($t: tt) => { square!(power, $t, [U1 U2 U4 U8 U16 U32 U64 U128 U256 U512]) };
}
static PAIRS: &[&[fn() -> Pair]] = with_numbers!(pairs_of,);
fn pairs() {
    let r = PAIRS[choose(PAIRS.len())];
    let p = r[choose(r.len())]();
    let (a, b) = (p.a, p.b);
    let mask = if b == 0 { 0 } else { u128::MAX >> (128 - b.min(128)) };
    {
        let want = [a & b, a | b, a + b, a.abs_diff(b), a.min(b), a.max(b), a & mask, a * b];
        for (&(op, got, name), w) in p.numbers.iter().zip(want) {
            is(got, name, w, &|| format!("{a} {op} {b}"));
        }
        let want = [a == b, a != b, a > b, a >= b, a < b, a <= b];
        for (&(op, got), w) in p.bits.iter().zip(want) {
            check(got == w, "bit", || format!("{a} {op} {b} is {got}"));
        }
        let c = (p.cmp)();
        let w = match a.cmp(&b) {
            core::cmp::Ordering::Less => "::Lesser",
            core::cmp::Ordering::Equal => "::Equal",
            core::cmp::Ordering::Greater => "::Greater",
        };
        check(c.ends_with(w), "cmp", || format!("{a} and {b} compare as {c}"));
    }
}

// ---------------------------------------------------------------- powers of two
struct Power {
    a: u128,
    b: u128,
    numbers: [(&'static str, u128, Name); 5],
}
fn power<A: Unsigned, B: IPowerOf2>() -> Power {
    Power {
        a: A::U128,
        b: B::U128,
        numbers: [
            num!("%", A::Mod<B>),
            num!("next multiple of", A::NextMultipleOf<B>),
            num!("modulated by", B::Modulate<A>),
            num!("divided by", B::Divide<A>),
            num!("in the presence of log2", B::Log2),
        ],
    }
}
static POWERS: &[&[fn() -> Power]] = with_numbers!(powers_of,);
fn powers() {
    let r = POWERS[choose(POWERS.len())];
    let p = r[choose(r.len())]();
    let (a, b) = (p.a, p.b);
    let want = [a % b, a.div_ceil(b) * b, a % b, a / b, b.ilog2() as u128];
    for (&(op, got, name), w) in p.numbers.iter().zip(want) {
        is(got, name, w, &|| format!("{a} {op} {b}"));
    }
}
fn power_pair<A: IPowerOf2, B: IPowerOf2>() -> Pair2 {
    (A::U128, B::U128, num!("min", <A as IPowerOf2>::Min<B>), num!("max", <A as IPowerOf2>::Max<B>))
}
fn alignment_pair<A: Alignment, B: Alignment>() -> Pair2 {
    (A::U128, B::U128, num!("min", <A as IPowerOf2>::Min<B>), num!("max alignment", <A as Alignment>::Max<B>))
}
type Pair2 = (u128, u128, (&'static str, u128, Name), (&'static str, u128, Name));
static POWER_PAIRS: &[&[fn() -> Pair2]] = square!(power_pair, [U1 U2 U4 U8 U16 U32 U64 U128 U1024 U65536 U2pow127], [U1 U2 U4 U8 U16 U32 U64 U128 U1024 U65536 U2pow127]);
static ALIGN_PAIRS: &[&[fn() -> Pair2]] =
    square!(alignment_pair, [U1 U2 U4 U8 U16 U32 U64 U128 U256 U512 U1024 U2048 U4096 U8192 U16384 U32768 U65536], [U1 U2 U4 U8 U16 U32 U64 U128 U256 U512 U1024 U2048 U4096 U8192 U16384 U32768 U65536]);
fn power_pairs() {
    let t = pick(&[POWER_PAIRS, ALIGN_PAIRS]);
    let r = t[choose(t.len())];
    let (a, b, min, max) = r[choose(r.len())]();
    is(min.1, min.2, a.min(b), &|| format!("{a} {} {b}", min.0));
    is(max.1, max.2, a.max(b), &|| format!("{a} {} {b}", max.0));
}
/// (The number, the size and alignment declared, and those it has.)
fn as_uint<A: Alignment>() -> [usize; 5] {
    type T<A> = <A as Alignment>::AsUint;
    [A::USIZE, <T<A> as IStable>::Size::USIZE, <<T<A> as IStable>::Align as Unsigned>::USIZE, core::mem::size_of::<T<A>>(), core::mem::align_of::<T<A>>()]
}
macro_rules! list {
    ($f: ident, [$($A: ident)*]) => { &[$($f::<$A>),*] };
}
static ALIGNMENTS: &[fn() -> [usize; 5]] = list!(as_uint, [U1 U2 U4 U8 U16 U32 U64 U128 U256 U512 U1024 U2048 U4096 U8192 U16384 U32768 U65536]);
fn alignments() {
    let [n, rest @ ..] = ALIGNMENTS[choose(ALIGNMENTS.len())]();
    check(rest == [n; 4], "alignment", || format!("what is as large and aligned as {n} is {rest:?}"));
}

// ---------------------------------------------------------------- single numbers
struct Single {
    n: u128,
    narrow: [u128; 5],
    numbers: [(&'static str, u128, Name); 3],
    /// Declared and actual size and alignment.
    padding: [usize; 4],
    arrays: [(&'static str, usize, usize, [usize; 4]); 4],
}
/// Reads a mask: at which byte which bits.
fn mask<M: IBitMask>(bytes: usize) -> Vec<(usize, u8)> {
    // (Its debug form lists them, but a name does too, and isn't meant for anything else.)
    let _ = bytes;
    let mut v = Vec::new();
    let name = type_name::<M>();
    // Array<offset, mask, rest>
    let mut rest = name;
    while let Some(i) = rest.find("Array<") {
        rest = &rest[i + 6..];
        let (o, r) = number(rest);
        let (m, r) = number(r);
        v.push((o as usize, m as u8));
        rest = r;
    }
    v.sort();
    v
}
/// Reads a number off a name, to the comma after it.
fn number(s: &str) -> (u128, &str) {
    let mut depth = 0;
    for (i, c) in s.char_indices() {
        match c {
            '<' => depth += 1,
            '>' => depth -= 1,
            ',' if depth == 0 => {
                let d = digits(&s[..i]);
                return (if d.is_empty() { 0 } else { u128::from_str_radix(&d, 2).unwrap_or(u128::MAX) }, &s[i + 1..]);
            }
            _ => {}
        }
    }
    (u128::MAX, "")
}
fn layout<T: IStable>() -> [usize; 4] {
    [<T::Size as Unsigned>::USIZE, <T::Align as Unsigned>::USIZE, core::mem::size_of::<T>(), core::mem::align_of::<T>()]
}
fn single<A: Unsigned>() -> Single {
    Single {
        n: A::U128,
        narrow: [A::USIZE as u128, A::U64 as u128, A::U32 as u128, A::U16 as u128, A::U8 as u128],
        numbers: [
            num!("+ 1", <A as IUnsignedBase>::Increment),
            num!("- 1", <A as IUnsignedBase>::_SatDecrement),
            num!("'s width", <A as IUnsignedBase>::NextPow2),
        ],
        padding: layout::<A::Padding>(),
        arrays: [
            ("u8", 1, 1, layout::<<A as IUnsignedBase>::Array<u8>>()),
            ("u16", 2, 2, layout::<<A as IUnsignedBase>::Array<u16>>()),
            ("Tuple<u8, u64>", 16, 8, layout::<<A as IUnsignedBase>::Array<stabby_abi::Tuple<u8, u64>>>()),
            ("()", 0, 1, layout::<<A as IUnsignedBase>::Array<()>>()),
        ],
    }
}
macro_rules! singles_of {
    ($t: tt) => { list!(single, $t) };
}
static SINGLES: &[fn() -> Single] = with_numbers!(singles_of,);
fn singles() {
    let s = SINGLES[choose(SINGLES.len())]();
    let n = s.n;
    let want = [n as usize as u128, n as u64 as u128, n as u32 as u128, n as u16 as u128, n as u8 as u128];
    check(s.narrow == want, "narrow", || format!("{n} is {:?} in smaller types", s.narrow));
    let want = [n + 1, n.saturating_sub(1), (128 - n.leading_zeros()) as u128];
    for (&(op, got, name), w) in s.numbers.iter().zip(want) {
        is(got, name, w, &|| format!("{n} {op}"));
    }
    let n = n as usize;
    check(s.padding == [n, 1, n, 1], "padding", || format!("padding of {n} bytes has {:?}", s.padding));
    for (name, size, align, got) in s.arrays {
        // (Of no elements, it may be aligned to less.)
        let align = if n == 0 { 1 } else { align };
        check(got == [size * n, align, size * n, align], "array", || format!("[{name}; {n}] has {got:?}"));
    }
}
fn masks_of<A: Unsigned>() -> (usize, [Vec<(usize, u8)>; 2]) {
    (A::USIZE, [mask::<<A as IUnsignedBase>::PaddingBitMask>(0), mask::<<A::Padding as IStable>::UnusedBits>(0)])
}
static MASKS: &[fn() -> (usize, [Vec<(usize, u8)>; 2])] = list!(masks_of, [U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16]);
fn masks() {
    let (n, m) = MASKS[choose(MASKS.len())]();
    let all: Vec<(usize, u8)> = (0..n).map(|i| (i, 255)).collect();
    check(m[0] == all, "padding-mask", || format!("the mask of {n} bytes of padding is {:?}", m[0]));
    check(m[1] == all, "padding-mask", || format!("what {n} bytes of padding don't use is {:?}", m[1]));
}
fn nonzero<A: NonZero>() -> (u128, [(&'static str, u128, Name); 3]) {
    (A::U128, [num!("- 1", A::Decrement), num!("'s last one", A::TruncateAtRightmostOne), num!("", <A as IUnsigned>::NonZero)])
}
static NONZERO: &[fn() -> (u128, [(&'static str, u128, Name); 3])] = list!(nonzero, [U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U20 U24 U28 U30 U31 U32 U40 U48 U64 U80 U96 U127 U128 U160 U192 U200 U240 U248 U252 U254 U255 U256 U1000 U2pow127]);
fn nonzeros() {
    let (n, r) = NONZERO[choose(NONZERO.len())]();
    for (&(op, got, name), w) in r.iter().zip([n - 1, n & n.wrapping_neg(), n]) {
        is(got, name, w, &|| format!("{n} {op}"));
    }
}

// ---------------------------------------------------------------- bits
type Bits = (bool, bool, bool, Vec<(&'static str, bool)>, Vec<(&'static str, u128, Name)>);
fn bits_of<A: Bit, B: Bit, C: Bit>() -> Bits {
    type Yes = (u8, ());
    let _: Option<Yes> = None;
    (
        A::BOOL,
        B::BOOL,
        C::BOOL,
        vec![
            ("and", A::And::<B>::BOOL),
            ("or", A::Or::<B>::BOOL),
            ("not", A::Not::BOOL),
            ("nand", A::Nand::<B>::BOOL),
            ("xor", A::Xor::<B>::BOOL),
            ("equals", A::Equals::<B>::BOOL),
            ("sum", A::AdderSum::<B, C>::BOOL),
            ("carry", A::AdderCarry::<B, C>::BOOL),
            ("difference", A::SuberSum::<B, C>::BOOL),
            ("borrow", A::SuberCarry::<B, C>::BOOL),
            ("ternary", A::BTernary::<B, C>::BOOL),
            ("base", <A as IBitBase>::_BOOL),
            ("and, inner", A::_And::<B>::BOOL),
            ("or, inner", A::_Or::<B>::BOOL),
            ("not, inner", A::_Not::BOOL),
            ("ternary, inner", A::_BTernary::<B, C>::BOOL),
            ("ternary of any", type_name::<A::Ternary<u8, u16>>() == "u8"),
        ],
        vec![
            num!("unsigned", A::UTernary<U3, U5>),
            num!("nonzero", A::NzTernary<U3, U5>),
            num!("power of two", A::PTernary<U2, U8>),
            num!("alignment", A::_ATernary<U2, U8>),
            num!("size of stable", <A::StabTernary<u8, u16> as IStable>::Size),
            num!("size of padding", <A::_Padding as IStable>::Size),
        ],
    )
}
macro_rules! cube {
    ($(($A: ty, $B: ty))*) => { &[$(bits_of::<$A, $B, B0>, bits_of::<$A, $B, B1>, bits_of::<$A, $B, Bool<false>>, bits_of::<$A, $B, Bool<true>>),*] };
}
static BITS: &[fn() -> Bits] = cube! {
    (B0, B0) (B0, B1) (B1, B0) (B1, B1)
    (Bool<false>, B0) (Bool<false>, B1) (Bool<true>, B0) (Bool<true>, B1)
    (B0, Bool<false>) (B0, Bool<true>) (B1, Bool<false>) (B1, Bool<true>)
    (Bool<false>, Bool<false>) (Bool<false>, Bool<true>) (Bool<true>, Bool<false>) (Bool<true>, Bool<true>)
};
fn bits() {
    let (a, b, c, bits, numbers) = BITS[choose(BITS.len())]();
    let sum = a as u8 + b as u8 + c as u8;
    let tern = if a { b } else { c };
    let want = [a & b, a | b, !a, !(a & b), a ^ b, a == b, sum & 1 == 1, sum >= 2, a ^ b ^ c, (a as u8) < (b as u8 + c as u8), tern, a, a & b, a | b, !a, tern, a];
    check(bits.len() == want.len(), "harness", String::new);
    for (&(op, got), w) in bits.iter().zip(want) {
        check(got == w, "bit", || format!("{a} {op} {b} ({c}) is {got}"));
    }
    let want = if a { [3, 3, 2, 2, 1, 1] } else { [5, 5, 8, 8, 2, 0] };
    for (&(op, got, name), w) in numbers.iter().zip(want) {
        is(got, name, w, &|| format!("{a} chooses {op}"));
    }
}

// ---------------------------------------------------------------- names, expressions
fn named() {
    let &(n, want, got, name) = &names::NAMES[choose(names::NAMES.len())];
    is(got, name, want, &|| n.to_string());
}
fn expressions() {
    match choose(2) {
        0 => {
            let &(n, want, got, name) = &exprs::EXPRS[choose(exprs::EXPRS.len())];
            is(got, name, want, &|| n.to_string());
        }
        _ => {
            let &(n, want, got, _) = &exprs::BITS[choose(exprs::BITS.len())];
            check(got == want, "bit", || format!("{n} is {got}"));
        }
    }
}

fn main() {
    const B: Bounds = Bounds::SEQ.split(1).faults(0);
    let s = |name, about, body: fn()| Scenario { name, about, quick: Some(B), thorough: B, body };
    mcrt::main(&Prop {
        id: "C23",
        title: "Type-level arithmetic computes the numbers it denotes",
        assumptions: &["the value and the spelling of a type are those the compiler gives when it evaluates it: every type expression listed is evaluated by the compiler and checked when run"],
        scenarios: vec![
            s("names", "every named number", || { named(); step() }),
            s("pairs", "every operation on every pair of 33 numbers", || { pairs(); step() }),
            s("powers", "33 numbers and 10 powers of two", || { powers(); step() }),
            s("power-pairs", "pairs of powers of two and of alignments", || { power_pairs(); step() }),
            s("alignments", "what is as large and aligned as every alignment", || { alignments(); step() }),
            s("singles", "every operation on single numbers, padding, arrays", || { singles(); step() }),
            s("masks", "which bytes of padding aren't used", || { masks(); step() }),
            s("nonzero", "operations on numbers other than 0", || { nonzeros(); step() }),
            s("bits", "every operation on every three bits, in both forms", || { bits(); step() }),
            s("expressions", "the expression macro, on every expression of up to three operations over a few operands", || { expressions(); step() }),
        ],
    })
}
