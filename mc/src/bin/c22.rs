//! C22: restricted integers only hold their declared values.
use core::fmt::Write as _;
use core::hash::{Hash, Hasher};
use mcrt::*;
use stabby::abi::num;
use stabby_mc as _;

// ---------------------------------------------------------------- observations
/// Text, without allocations.
struct Text([u8; 400], usize);
impl Text {
    fn of(a: core::fmt::Arguments) -> Self {
        let mut t = Text([0; 400], 0);
        let _ = t.write_fmt(a);
        t
    }
    fn get(&self) -> &str {
        core::str::from_utf8(&self.0[..self.1]).unwrap_or("?")
    }
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let n = s.len().min(400 - self.1);
        self.0[self.1..][..n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}
/// Remembers what it's fed.
struct Feed(u64, u64);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = mix(self.0, b as u64);
            self.1 += 1;
        }
    }
    fn finish(&self) -> u64 {
        mix(self.0, self.1)
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut f = Feed(1, 0);
    t.hash(&mut f);
    f.finish()
}

/// The integers the restricted ones stand for.
trait Int: Copy + Ord + Hash + core::fmt::Debug + core::fmt::Display + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::LowerExp + core::fmt::UpperExp + core::fmt::Binary + core::fmt::Octal + 'static {
    const W: u32;
    const SIGNED: bool;
    /// Its bits.
    fn bits(self) -> u128;
    fn from_bits(b: u128) -> Self;
    fn checked_sub(self, o: Self) -> Option<Self>;
    fn and(self, o: Self) -> Self;
    fn or(self, o: Self) -> Self;
    fn checked_add(self, o: Self) -> Option<Self>;
}
macro_rules! ints {
    ($(($t: ident $u: ident $s: literal))*) => {
        $(impl Int for $t {
            const W: u32 = <$t>::BITS;
            const SIGNED: bool = $s;
            fn bits(self) -> u128 {
                self as $u as u128
            }
            fn from_bits(b: u128) -> Self {
                b as $t
            }
            fn checked_sub(self, o: Self) -> Option<Self> {
                <$t>::checked_sub(self, o)
            }
            fn checked_add(self, o: Self) -> Option<Self> {
                <$t>::checked_add(self, o)
            }
            fn and(self, o: Self) -> Self {
                self & o
            }
            fn or(self, o: Self) -> Self {
                self | o
            }
        })*
    };
}
ints!((u8 u8 false)(u16 u16 false)(u32 u32 false)(u64 u64 false)(u128 u128 false)(usize usize false)
    (i8 u8 true)(i16 u16 true)(i32 u32 true)(i64 u64 true)(i128 u128 true)(isize usize true));

fn all(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1 << w) - 1 }
}
/// Keeps the `n` lower bits, as two's complement if signed.
fn cut<B: Int>(b: B, n: u32) -> B {
    let low = b.bits() & all(n);
    B::from_bits(if B::SIGNED && low >> (n - 1) & 1 == 1 { low | (all(B::W) & !all(n)) } else { low })
}

/// A value of `B`: any, when there are few, or else one around a power of two, a pattern, or a value of interest.
fn any<B: Int>(around: &[u128]) -> B {
    if B::W <= 16 {
        let low = choose(256);
        let high = if B::W == 16 { choose(256) } else { 0 };
        return B::from_bits((high << 8 | low) as u128);
    }
    edge::<B>(around, true)
}
/// One around a power of two, a pattern, or a value of interest.
fn edge<B: Int>(around: &[u128], wide: bool) -> B {
    let d = if wide { 2 } else { 1 };
    let n = around.len() + 4 + if wide { B::W as usize } else { 0 };
    let i = choose(n);
    let delta = choose(2 * d + 1) as i128 - d as i128;
    let at = match i {
        0 => 0,
        1 => 0x5555_5555_5555_5555_5555_5555_5555_5555,
        2 => 1 << (B::W - 1),
        3 => 1 << (B::W / 2),
        i if i < 4 + around.len() => around[i - 4],
        i => 1 << (i - 4 - around.len()),
    };
    B::from_bits((at as u128).wrapping_add(delta as u128) & all(B::W))
}

fn texts<B: Int, T: core::fmt::Debug + core::fmt::Display + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::LowerExp + core::fmt::UpperExp + core::fmt::Binary + core::fmt::Octal>(name: &str, t: T, b: B) {
    macro_rules! same {
        ($($f: literal)*) => {
            $({
                let (got, want) = (Text::of(format_args!($f, t)), Text::of(format_args!($f, b)));
                check(got.get() == want.get(), "text", || format!("{name} of {b} is written {:?} instead of {:?} by {}", got.get(), want.get(), $f));
            })*
        };
    }
    same!("{}" "{:?}" "{:x}" "{:X}" "{:e}" "{:E}" "{:b}" "{:o}" "{:#x}" "{:+}" "{:>6}" "{:08b}" "{:#?}");
}

// ---------------------------------------------------------------- narrow integers
trait Narrow: Copy + Ord + Hash + Default + core::fmt::Debug + core::fmt::Display + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::LowerExp + core::fmt::UpperExp + core::fmt::Binary + core::fmt::Octal {
    const NAME: &'static str;
    const N: u32;
    type B: Int;
    fn new(b: Self::B) -> Option<Self>;
    fn get(self) -> Self::B;
    const LEAST: Self;
    const MOST: Self;
    /// The results of arithmetic, and what the same operations on the integers give, cut if it stays narrow.
    fn arith(self, o: Self, r: Self::B, x: Self::B, y: Self::B);
    fn minus(self, o: Self) -> Option<Self>;
}
fn stands<T: Narrow>(what: &str, t: T, want: T::B) {
    check(t.get() == want, what, || format!("{} stands for {} instead of {want}", T::NAME, t.get()));
    let back = T::new(want);
    check(back == Some(t), what, || format!("two {} of {want} are different: {} and {:?}", T::NAME, t, back));
}
fn least<T: Narrow>() -> T::B {
    T::B::from_bits(if T::B::SIGNED { all(T::B::W) & !all(T::N - 1) } else { 0 })
}
fn most<T: Narrow>() -> T::B {
    T::B::from_bits(all(if T::B::SIGNED { T::N - 1 } else { T::N }))
}
macro_rules! common_arith {
    ($name: ident, $s: ident, $o: ident, $r: ident, $x: ident, $y: ident) => {
        stands("and", $s & $o, cut(Int::and($x, $y), Self::N));
        stands("or", $s | $o, cut(Int::or($x, $y), Self::N));
        stands("and-base", $s & $r, cut(Int::and($x, $r), Self::N));
        let mut t = $s;
        t &= $o;
        stands("and-assign", t, cut(Int::and($x, $y), Self::N));
        let mut t = $s;
        t &= $r;
        stands("and-base-assign", t, cut(Int::and($x, $r), Self::N));
        let mut t = $s;
        t |= $o;
        stands("or-assign", t, cut(Int::or($x, $y), Self::N));
    };
}
macro_rules! u_impl {
    ($(($name: ident $base: ident $n: literal))*) => {
        $(impl Narrow for num::$name {
            const NAME: &'static str = stringify!($name);
            const N: u32 = $n;
            type B = $base;
            fn new(b: $base) -> Option<Self> {
                num::$name::new(b)
            }
            fn get(self) -> $base {
                num::$name::get(&self)
            }
            const LEAST: Self = num::$name::MIN;
            const MOST: Self = num::$name::MAX;
            fn arith(self, o: Self, r: $base, x: $base, y: $base) {
                common_arith!($name, self, o, r, x, y);
                let got: $base = self | r;
                check(got == x | r, "or-base", || format!("{x} | {r} is {got} in {}", Self::NAME));
                let got: $base = self + o;
                check(Some(got) == x.checked_add(y), "add", || format!("{x} + {y} is {got} in {}", Self::NAME));
                if y <= x {
                    stands("sub", self - o, x - y);
                }
                if r <= x {
                    stands("sub-base", self - r, x - r);
                }
            }
            fn minus(self, o: Self) -> Option<Self> {
                catch(|| self - o).ok()
            }
        })*
    };
}
macro_rules! i_impl {
    ($(($name: ident $base: ident $n: literal))*) => {
        $(impl Narrow for num::$name {
            const NAME: &'static str = stringify!($name);
            const N: u32 = $n;
            type B = $base;
            fn new(b: $base) -> Option<Self> {
                num::$name::new(b)
            }
            fn get(self) -> $base {
                num::$name::get(&self)
            }
            const LEAST: Self = num::$name::MIN;
            const MOST: Self = num::$name::MAX;
            fn arith(self, o: Self, r: $base, x: $base, y: $base) {
                common_arith!($name, self, o, r, x, y);
            }
            fn minus(self, _: Self) -> Option<Self> {
                None
            }
        })*
    };
}
macro_rules! unsigned {
    ($m: ident) => {
        $m! {
            (u1 u8 1) (u2 u8 2) (u3 u8 3) (u4 u8 4) (u5 u8 5) (u6 u8 6) (u7 u8 7) (u9 u16 9) (u10 u16 10) (u11 u16 11)
            (u12 u16 12) (u13 u16 13) (u14 u16 14) (u15 u16 15) (u17 u32 17) (u18 u32 18) (u19 u32 19) (u20 u32 20)
            (u21 u32 21) (u22 u32 22) (u23 u32 23) (u24 u32 24) (u25 u32 25) (u26 u32 26) (u27 u32 27) (u28 u32 28)
            (u29 u32 29) (u30 u32 30) (u31 u32 31) (u33 u64 33) (u34 u64 34) (u35 u64 35) (u36 u64 36) (u37 u64 37)
            (u38 u64 38) (u39 u64 39) (u40 u64 40) (u41 u64 41) (u42 u64 42) (u43 u64 43) (u44 u64 44) (u45 u64 45)
            (u46 u64 46) (u47 u64 47) (u48 u64 48) (u49 u64 49) (u50 u64 50) (u51 u64 51) (u52 u64 52) (u53 u64 53)
            (u54 u64 54) (u55 u64 55) (u56 u64 56) (u57 u64 57) (u58 u64 58) (u59 u64 59) (u60 u64 60) (u61 u64 61)
            (u62 u64 62) (u63 u64 63) (u65 u128 65) (u66 u128 66) (u67 u128 67) (u68 u128 68) (u69 u128 69)
            (u70 u128 70) (u71 u128 71) (u72 u128 72) (u73 u128 73) (u74 u128 74) (u75 u128 75) (u76 u128 76)
            (u77 u128 77) (u78 u128 78) (u79 u128 79) (u80 u128 80) (u81 u128 81) (u82 u128 82) (u83 u128 83)
            (u84 u128 84) (u85 u128 85) (u86 u128 86) (u87 u128 87) (u88 u128 88) (u89 u128 89) (u90 u128 90)
            (u91 u128 91) (u92 u128 92) (u93 u128 93) (u94 u128 94) (u95 u128 95) (u96 u128 96) (u97 u128 97)
            (u98 u128 98) (u99 u128 99) (u100 u128 100) (u101 u128 101) (u102 u128 102) (u103 u128 103)
            (u104 u128 104) (u105 u128 105) (u106 u128 106) (u107 u128 107) (u108 u128 108) (u109 u128 109)
            (u110 u128 110) (u111 u128 111) (u112 u128 112) (u113 u128 113) (u114 u128 114) (u115 u128 115)
            (u116 u128 116) (u117 u128 117) (u118 u128 118) (u119 u128 119) (u120 u128 120) (u121 u128 121)
            (u122 u128 122) (u123 u128 123) (u124 u128 124) (u125 u128 125) (u126 u128 126) (u127 u128 127)
        }
    };
}
macro_rules! signed {
    ($m: ident) => {
        $m! {
            (i1 i8 1) (i2 i8 2) (i3 i8 3) (i4 i8 4) (i5 i8 5) (i6 i8 6) (i7 i8 7) (i9 i16 9) (i10 i16 10) (i11 i16 11)
            (i12 i16 12) (i13 i16 13) (i14 i16 14) (i15 i16 15) (i17 i32 17) (i18 i32 18) (i19 i32 19) (i20 i32 20)
            (i21 i32 21) (i22 i32 22) (i23 i32 23) (i24 i32 24) (i25 i32 25) (i26 i32 26) (i27 i32 27) (i28 i32 28)
            (i29 i32 29) (i30 i32 30) (i31 i32 31) (i33 i64 33) (i34 i64 34) (i35 i64 35) (i36 i64 36) (i37 i64 37)
            (i38 i64 38) (i39 i64 39) (i40 i64 40) (i41 i64 41) (i42 i64 42) (i43 i64 43) (i44 i64 44) (i45 i64 45)
            (i46 i64 46) (i47 i64 47) (i48 i64 48) (i49 i64 49) (i50 i64 50) (i51 i64 51) (i52 i64 52) (i53 i64 53)
            (i54 i64 54) (i55 i64 55) (i56 i64 56) (i57 i64 57) (i58 i64 58) (i59 i64 59) (i60 i64 60) (i61 i64 61)
            (i62 i64 62) (i63 i64 63) (i65 i128 65) (i66 i128 66) (i67 i128 67) (i68 i128 68) (i69 i128 69)
            (i70 i128 70) (i71 i128 71) (i72 i128 72) (i73 i128 73) (i74 i128 74) (i75 i128 75) (i76 i128 76)
            (i77 i128 77) (i78 i128 78) (i79 i128 79) (i80 i128 80) (i81 i128 81) (i82 i128 82) (i83 i128 83)
            (i84 i128 84) (i85 i128 85) (i86 i128 86) (i87 i128 87) (i88 i128 88) (i89 i128 89) (i90 i128 90)
            (i91 i128 91) (i92 i128 92) (i93 i128 93) (i94 i128 94) (i95 i128 95) (i96 i128 96) (i97 i128 97)
            (i98 i128 98) (i99 i128 99) (i100 i128 100) (i101 i128 101) (i102 i128 102) (i103 i128 103)
            (i104 i128 104) (i105 i128 105) (i106 i128 106) (i107 i128 107) (i108 i128 108) (i109 i128 109)
            (i110 i128 110) (i111 i128 111) (i112 i128 112) (i113 i128 113) (i114 i128 114) (i115 i128 115)
            (i116 i128 116) (i117 i128 117) (i118 i128 118) (i119 i128 119) (i120 i128 120) (i121 i128 121)
            (i122 i128 122) (i123 i128 123) (i124 i128 124) (i125 i128 125) (i126 i128 126) (i127 i128 127)
        }
    };
}

unsigned!(u_impl);
signed!(i_impl);

/// One value.
fn unary<T: Narrow>() {
    log(|| T::NAME.into());
    let b = any::<T::B>(&[least::<T>().bits(), most::<T>().bits(), all(T::N), 1 << (T::N - 1)]);
    log(|| format!("{b}"));
    let fits = cut(b, T::N) == b;
    match T::new(b) {
        Some(t) => {
            check(fits, "range", || format!("{} can be made of {b}", T::NAME));
            check(t.get() == b, "value", || format!("{} of {b} stands for {}", T::NAME, t.get()));
            check(hash(&t) == hash(&b), "hash", || format!("{} of {b} isn't hashed as it", T::NAME));
            check(T::LEAST <= t && t <= T::MOST, "bounds", || format!("{b} isn't between the least and the greatest {}", T::NAME));
            texts(T::NAME, t, b);
        }
        None => check(!fits, "range", || format!("{} can't be made of {b}", T::NAME)),
    }
    stands("least", T::LEAST, least::<T>());
    stands("most", T::MOST, most::<T>());
    stands("default", T::default(), T::B::from_bits(0));
    check(hash(&T::LEAST) == hash(&least::<T>()), "hash", || format!("the least {} isn't hashed as it", T::NAME));
    texts(T::NAME, T::LEAST, least::<T>());
    texts(T::NAME, T::MOST, most::<T>());
}
/// Two values, and an integer.
fn pair<T: Narrow>() {
    log(|| T::NAME.into());
    let few = T::N <= bounds().width as u32;
    let one = || {
        if few {
            return cut(T::B::from_bits(choose(1 << T::N) as u128), T::N);
        }
        let b = edge::<T::B>(&[least::<T>().bits(), most::<T>().bits(), 1 << (T::N / 2)], false);
        if cut(b, T::N) != b {
            discard();
        }
        b
    };
    let (x, y) = (one(), one());
    let (Some(a), Some(b)) = (T::new(x), T::new(y)) else { fail("range", format!("{} can't be made of {x} or {y}", T::NAME)) };
    log(|| format!("{x} and {y}"));
    check((a == b) == (x == y), "equality", || format!("{x} and {y} are compared otherwise in {}", T::NAME));
    check(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == x.partial_cmp(&y), "order", || format!("{x} and {y} are ordered otherwise in {}", T::NAME));
    check((hash(&a) == hash(&b)) == (x == y), "hash", || format!("{x} and {y} are hashed otherwise in {}", T::NAME));
    let r = if choose(2) == 0 { y } else { edge::<T::B>(&[all(T::N)], false) };
    a.arith(b, r, x, y);
    if !T::B::SIGNED && x < y && T::N < 4 {
        let r = a.minus(b);
        check(r.is_none(), "sub", || format!("{x} - {y} is {} in {}", r.unwrap().get(), T::NAME));
    }
    // The least and the greatest compare as they should, however they were made.
    check(T::LEAST <= a && a <= T::MOST, "order", || format!("{x} isn't between the least and the greatest {}", T::NAME));
    check((T::LEAST == a) == (x == least::<T>()) && (T::MOST == a) == (x == most::<T>()), "equality", || format!("{x} is mistaken for an end of {}", T::NAME));
}
macro_rules! table {
    ($f: ident $(($name: ident $base: ident $n: literal))*) => {
        &[$((<$base>::BITS, $f::<num::$name>)),*]
    };
}
type Table = &'static [(u32, fn())];
macro_rules! unary_table { ($($t: tt)*) => { table!(unary $($t)*) }; }
macro_rules! pair_table { ($($t: tt)*) => { table!(pair $($t)*) }; }
static U1: Table = unsigned!(unary_table);
static I1: Table = signed!(unary_table);
static U2: Table = unsigned!(pair_table);
static I2: Table = signed!(pair_table);
fn run(t: Table, widths: core::ops::RangeInclusive<u32>) {
    let from = t.iter().position(|x| widths.contains(&x.0)).unwrap();
    let n = t.iter().filter(|x| widths.contains(&x.0)).count();
    (t[from + choose(n)].1)()
}

// ---------------------------------------------------------------- integers that avoid a value
trait Avoids: Copy + Ord + Hash + TryFrom<Self::B, Error = num::IllegalValue> + Into<Self::B> + serde::Serialize + serde::de::DeserializeOwned {
    const NAME: &'static str;
    type B: Int + serde::Serialize + serde::de::DeserializeOwned;
    const AVOIDED: Self::B;
    fn new(b: Self::B) -> Option<Self>;
    unsafe fn new_unchecked(b: Self::B) -> Self;
    fn get(self) -> Self::B;
}
macro_rules! avoids {
    ($(($t: ident $base: ident $u: ident))*) => {
        $(impl Avoids for num::$t {
            const NAME: &'static str = stringify!($t);
            type B = $base;
            const AVOIDED: $base = <$base>::MAX;
            avoids!(@ num::$t, $base);
        })*
    };
    (x $(($t: ident $base: ident))*) => {
        $(impl<const F: $base> Avoids for num::$t<F> {
            const NAME: &'static str = stringify!($t);
            type B = $base;
            const AVOIDED: $base = F;
            avoids!(@ Self, $base);
        })*
    };
    (@ $t: ty, $base: ident) => {
        fn new(b: $base) -> Option<Self> {
            <$t>::new(b)
        }
        unsafe fn new_unchecked(b: $base) -> Self {
            unsafe { <$t>::new_unchecked(b) }
        }
        fn get(self) -> $base {
            <$t>::get(self)
        }
    };
}
avoids!((NonMaxU8 u8 u8)(NonMaxU16 u16 u16)(NonMaxU32 u32 u32)(NonMaxU64 u64 u64)(NonMaxU128 u128 u128)(NonMaxUsize usize usize));
avoids!(x (NonXU8 u8)(NonXU16 u16)(NonXU32 u32)(NonXU64 u64)(NonXU128 u128)(NonXUsize usize)
    (NonXI8 i8)(NonXI16 i16)(NonXI32 i32)(NonXI64 i64)(NonXI128 i128)(NonXIsize isize));

fn json<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap()
}
fn avoid_one<T: Avoids>() {
    log(|| format!("{} but {}", T::NAME, T::AVOIDED));
    let b = any::<T::B>(&[T::AVOIDED.bits(), all(T::B::W), all(T::B::W - 1)]);
    log(|| format!("{b}"));
    let fits = b != T::AVOIDED;
    let t = T::new(b);
    check(t.is_some() == fits, "range", || format!("{} but {}: made of {b} or not?", T::NAME, T::AVOIDED));
    let from = T::try_from(b);
    check(from.is_ok() == fits, "range", || format!("{} but {}: converted from {b} or not?", T::NAME, T::AVOIDED));
    if let Some(t) = t {
        let (got, into, from) = (t.get(), t.into(), from.unwrap().get());
        let un = unsafe { T::new_unchecked(b) }.get();
        check(got == b && into == b && from == b && un == b, "value", || format!("{} but {} of {b} stands for {got}, {into}, {from}, {un}", T::NAME, T::AVOIDED));
        check(hash(&t) == hash(&b), "hash", || format!("{} of {b} isn't hashed as it", T::NAME));
        check(t == T::new(b).unwrap() && t.cmp(&t).is_eq(), "equality", || format!("{} of {b} isn't itself", T::NAME));
    }
}
fn avoid_serial<T: Avoids>() {
    let b = edge::<T::B>(&[T::AVOIDED.bits(), all(T::B::W), all(T::B::W - 1)], false);
    let text = json(&b);
    let read = serde_json::from_str::<T>(&text).ok();
    let got = read.map(|t| t.get());
    check(got == (b != T::AVOIDED).then_some(b), "deserialize", || format!("{} but {} reads {got:?} from {text}", T::NAME, T::AVOIDED));
    if let Some(t) = read {
        let back = json(&t);
        check(back == text, "serialize", || format!("{} but {} writes {b} as {back}", T::NAME, T::AVOIDED));
    }
}
fn avoid_two<T: Avoids>() {
    let one = || {
        let b = edge::<T::B>(&[T::AVOIDED.bits(), all(T::B::W), all(T::B::W - 1), 1 << (T::B::W / 2 + 1)], false);
        if b == T::AVOIDED {
            discard();
        }
        b
    };
    let (x, y) = (one(), one());
    let (Some(a), Some(b)) = (T::new(x), T::new(y)) else { fail("range", format!("{} can't be made of {x} or {y}", T::NAME)) };
    check((a == b) == (x == y), "equality", || format!("{x} and {y} are compared otherwise in {} but {}", T::NAME, T::AVOIDED));
    check(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == x.partial_cmp(&y) && (a < b) == (x < y), "order", || format!("{x} and {y} are ordered otherwise in {} but {}", T::NAME, T::AVOIDED));
    check((hash(&a) == hash(&b)) == (x == y), "hash", || format!("{x} and {y} are hashed otherwise in {}", T::NAME));
}
macro_rules! avoid_table {
    ($f: ident) => {
        avoid_table!(@ $f (NonXU8 u8)(NonXU16 u16)(NonXU32 u32)(NonXU64 u64)(NonXU128 u128)(NonXUsize usize);
            (NonXI8 i8)(NonXI16 i16)(NonXI32 i32)(NonXI64 i64)(NonXI128 i128)(NonXIsize isize);
            (NonMaxU8 u8)(NonMaxU16 u16)(NonMaxU32 u32)(NonMaxU64 u64)(NonMaxU128 u128)(NonMaxUsize usize))
    };
    (@ $f: ident $(($u: ident $ub: ident))*; $(($i: ident $ib: ident))*; $(($m: ident $mb: ident))*) => {
        &[
            $((<$ub>::BITS, $f::<num::$u<0>>), (<$ub>::BITS, $f::<num::$u<1>>), (<$ub>::BITS, $f::<num::$u<{ <$ub>::MAX }>>),
              (<$ub>::BITS, $f::<num::$u<72>>), (<$ub>::BITS, $f::<num::$u<{ <$ub>::MAX / 2 }>>),)*
            $((<$ib>::BITS, $f::<num::$i<0>>), (<$ib>::BITS, $f::<num::$i<1>>), (<$ib>::BITS, $f::<num::$i<{ <$ib>::MAX }>>),
              (<$ib>::BITS, $f::<num::$i<-1>>), (<$ib>::BITS, $f::<num::$i<{ <$ib>::MIN }>>),)*
            $((<$mb>::BITS, $f::<num::$m>),)*
        ]
    };
}
static A1: &[(u32, fn())] = avoid_table!(avoid_one);
static AS: &[(u32, fn())] = avoid_table!(avoid_serial);
static A2: &[(u32, fn())] = avoid_table!(avoid_two);
fn avoid(t: Table) {
    (t[choose(t.len())].1)()
}

fn main() {
    const B: Bounds = Bounds::SEQ.split(3).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: usize, t: usize) -> Scenario {
        Scenario { name, about, quick: Some(B.width(q)), thorough: B.width(t), body }
    }
    mcrt::main(&Prop {
        id: "C22",
        title: "Restricted integers only hold their declared values",
        assumptions: &[
            "wider than 16 bits, the values are those within 2 of a power of two, a bound, a pattern or 0 (all values up to 16 bits)",
            "arithmetic overflows panic, as in debug builds",
        ],
        scenarios: vec![
            s("unsigned-narrow", "every value of u8 and u16 in every unsigned width up to 15", || run(U1, 8..=16), 0, 0),
            s("signed-narrow", "every value of i8 and i16 in every signed width up to 15", || run(I1, 8..=16), 0, 0),
            s("unsigned-wide", "values at the edges in every wider unsigned width", || run(U1, 32..=128), 0, 0),
            s("signed-wide", "values at the edges in every wider signed width", || run(I1, 32..=128), 0, 0),
            s("unsigned-pairs", "pairs (all, up to a width; at the edges beyond)", || run(U2, 8..=128), 5, 7),
            s("signed-pairs", "pairs (all, up to a width; at the edges beyond)", || run(I2, 8..=128), 5, 7),
            s("avoided", "integers that avoid a value", || avoid(A1), 0, 0),
            s("avoided-serial", "their serialized forms", || avoid(AS), 0, 0),
            s("avoided-pairs", "pairs of them", || avoid(A2), 0, 0),
        ],
    })
}
