//! C32: serialized values are those of ordinary values, and read back equal.
use mcrt::*;
use serde::de::{DeserializeOwned, DeserializeSeed, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Impossible, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use stabby::alloc::boxed::BoxedSlice;
use stabby::alloc::string::{ArcStr, BoxedStr, String as SString};
use stabby::alloc::sync::ArcSlice;
use stabby::alloc::vec::Vec as SVec;
use stabby::abi::alloc::IAlloc;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use stabby_mc::{CkAlloc, ZAlloc, P};

// ---------------------------------------------------------------- a data format
/// What a value is, once serialized.
#[derive(Clone, PartialEq, Debug)]
enum V {
    U(u8),
    S(String),
    Seq(Vec<V>),
    None,
    Some(Box<V>),
    Variant(u32, Box<V>),
    /// Not to be read.
    Bad,
}
#[derive(Debug, PartialEq)]
struct E;
impl core::fmt::Display for E {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for E {}
impl serde::de::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E
    }
}
impl serde::ser::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E
    }
}

/// Fails at a given call.
#[derive(Clone, Copy)]
struct Ser<'a>(&'a core::cell::Cell<usize>);
impl Ser<'_> {
    fn call(&self) -> Result<(), E> {
        let n = self.0.get();
        self.0.set(n.wrapping_sub(1));
        if n == 0 {
            Err(E)
        } else {
            Ok(())
        }
    }
}
struct SeqSer<'a>(Ser<'a>, Option<usize>, Vec<V>);
impl SerializeSeq for SeqSer<'_> {
    type Ok = V;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        self.0.call()?;
        self.2.push(t.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        self.0.call()?;
        // (A length that's announced is that of what follows.)
        check(self.1 == Some(self.2.len()), "length", || format!("{:?} is announced for {} elements", self.1, self.2.len()));
        Ok(V::Seq(self.2))
    }
}
macro_rules! no {
    ($($f: ident($($t: ty),*) -> $r: ty;)*) => {$(
        fn $f(self, $(_: $t),*) -> Result<$r, E> {
            fail("serialized", stringify!($f).into());
            #[allow(unreachable_code)]
            Err(E)
        }
    )*};
}
impl<'a> Serializer for Ser<'a> {
    type Ok = V;
    type Error = E;
    type SerializeSeq = SeqSer<'a>;
    type SerializeTuple = Impossible<V, E>;
    type SerializeTupleStruct = Impossible<V, E>;
    type SerializeTupleVariant = Impossible<V, E>;
    type SerializeMap = Impossible<V, E>;
    type SerializeStruct = Impossible<V, E>;
    type SerializeStructVariant = Impossible<V, E>;
    fn serialize_u8(self, v: u8) -> Result<V, E> {
        self.call()?;
        Ok(V::U(v))
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        self.call()?;
        Ok(V::S(v.into()))
    }
    fn serialize_none(self) -> Result<V, E> {
        self.call()?;
        Ok(V::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<V, E> {
        self.call()?;
        Ok(V::Some(Box::new(t.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, name: &'static str, i: u32, variant: &'static str, t: &T) -> Result<V, E> {
        self.call()?;
        check(name == "Result" && ["Ok", "Err"][i as usize] == variant, "variant", || format!("{name}::{variant} ({i})"));
        Ok(V::Variant(i, Box::new(t.serialize(self)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqSer<'a>, E> {
        self.call()?;
        Ok(SeqSer(self, n, Vec::new()))
    }
    no! {
        serialize_bool(bool) -> V;
        serialize_i8(i8) -> V;
        serialize_i16(i16) -> V;
        serialize_i32(i32) -> V;
        serialize_i64(i64) -> V;
        serialize_u16(u16) -> V;
        serialize_u32(u32) -> V;
        serialize_u64(u64) -> V;
        serialize_f32(f32) -> V;
        serialize_f64(f64) -> V;
        serialize_char(char) -> V;
        serialize_bytes(&[u8]) -> V;
        serialize_unit() -> V;
        serialize_unit_struct(&'static str) -> V;
        serialize_unit_variant(&'static str, u32, &'static str) -> V;
        serialize_tuple(usize) -> Impossible<V, E>;
        serialize_tuple_struct(&'static str, usize) -> Impossible<V, E>;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Impossible<V, E>;
        serialize_map(Option<usize>) -> Impossible<V, E>;
        serialize_struct(&'static str, usize) -> Impossible<V, E>;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Impossible<V, E>;
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, _: &T) -> Result<V, E> {
        fail("serialized", n.into());
        #[allow(unreachable_code)]
        Err(E)
    }
}
fn ser<T: Serialize + ?Sized>(t: &T, fail_at: usize) -> Result<V, E> {
    let n = core::cell::Cell::new(fail_at);
    t.serialize(Ser(&n))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Text {
    /// It lives as long as what's read.
    Borrowed,
    /// It's gone once it's been visited.
    Transient,
    Owned,
}
#[derive(Clone, Copy, Debug)]
enum Hint {
    Unknown,
    Exact,
    Short,
    Long,
    Hostile,
}
#[derive(Clone, Copy)]
struct De<'de>(&'de V, Text, Hint);
impl<'de> Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.0 {
            V::U(u) => w.visit_u8(*u),
            V::S(s) => match self.1 {
                Text::Borrowed => w.visit_borrowed_str(s),
                Text::Transient => {
                    let mut t = s.clone();
                    let r = w.visit_str(&t);
                    unsafe { t.as_bytes_mut() }.fill(b'#');
                    r
                }
                Text::Owned => w.visit_string(s.clone()),
            },
            V::Seq(s) => {
                let mut a = De2(s, 0, self);
                let r = w.visit_seq(&mut a)?;
                if a.1 == s.len() {
                    Ok(r)
                } else {
                    Err(E)
                }
            }
            V::None => w.visit_none(),
            V::Some(s) => w.visit_some(De(s, self.1, self.2)),
            V::Variant(..) => w.visit_enum(self),
            V::Bad => Err(E),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct De2<'de>(&'de [V], usize, De<'de>);
impl<'de> SeqAccess<'de> for De2<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        let Some(v) = self.0.get(self.1) else {
            return Ok(None);
        };
        self.1 += 1;
        t.deserialize(De(v, self.2 .1, self.2 .2)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        let n = self.0.len() - self.1;
        match self.2 .2 {
            Hint::Unknown => None,
            Hint::Exact => Some(n),
            Hint::Short => Some(n / 2),
            Hint::Long => Some(n + 3),
            Hint::Hostile => Some(usize::MAX),
        }
    }
}
impl<'de> EnumAccess<'de> for De<'de> {
    type Error = E;
    type Variant = De<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<(T::Value, De<'de>), E> {
        let V::Variant(i, v) = self.0 else { unreachable!() };
        let i = t.deserialize(serde::de::value::U32Deserializer::<E>::new(*i))?;
        Ok((i, De(v, self.1, self.2)))
    }
}
impl<'de> VariantAccess<'de> for De<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Err(E)
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<T::Value, E> {
        t.deserialize(self)
    }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, _: W) -> Result<W::Value, E> {
        Err(E)
    }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], _: W) -> Result<W::Value, E> {
        Err(E)
    }
}

// ---------------------------------------------------------------- types
/// A number that's only destroyed once.
#[stabby::stabby]
struct N {
    p: P,
}
impl Serialize for N {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.p.read() as u8)
    }
}
impl<'de> Deserialize<'de> for N {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u8::deserialize(d).map(|v| N { p: P::new(v as u64) })
    }
}
/// A type, and the ordinary one it serializes as.
trait Shape: Serialize + DeserializeOwned {
    type Core: Serialize + DeserializeOwned + PartialEq + core::fmt::Debug;
    fn any() -> Self::Core;
    fn of(c: &Self::Core) -> Self;
    fn same(&self, c: &Self::Core) -> bool;
}
impl Shape for N {
    type Core = u8;
    fn any() -> u8 {
        1 + choose(2) as u8
    }
    fn of(c: &u8) -> N {
        N { p: P::new(*c as u64) }
    }
    fn same(&self, c: &u8) -> bool {
        self.p.read() == *c as u64
    }
}
impl Shape for u8 {
    type Core = u8;
    fn any() -> u8 {
        pick(&[0, 200])
    }
    fn of(c: &u8) -> u8 {
        *c
    }
    fn same(&self, c: &u8) -> bool {
        self == c
    }
}
const TEXTS: [&str; 5] = ["", "plain", "\"quoted\\\n\0", "日本😀", "longer than what is reserved at first, \t and escaped"];
macro_rules! text {
    ($($T: ident),*) => {$(
        impl<A: IAlloc + Default> Shape for $T<A> {
            type Core = String;
            fn any() -> String {
                pick(&TEXTS).into()
            }
            fn of(c: &String) -> Self {
                SString::<A>::from(c.as_str()).into()
            }
            fn same(&self, c: &String) -> bool {
                core::str::from_utf8(self.as_bytes()) == Ok(c.as_str())
            }
        }
    )*};
}
text!(SString, BoxedStr, ArcStr);
macro_rules! seq {
    ($($T: ident),*) => {$(
        impl<S: Shape, A: IAlloc + Default> Shape for $T<S, A> {
            type Core = Vec<S::Core>;
            fn any() -> Self::Core {
                let n = choose(bounds().width + 1);
                (0..n).map(|_| S::any()).collect()
            }
            fn of(c: &Self::Core) -> Self {
                let mut v = SVec::<S, A>::new_in(A::default());
                for c in c {
                    v.push(S::of(c));
                }
                v.into()
            }
            fn same(&self, c: &Self::Core) -> bool {
                self.len() == c.len() && self.iter().zip(c).all(|(s, c)| s.same(c))
            }
        }
    )*};
}
seq!(SVec, BoxedSlice, ArcSlice);
impl<S: Shape + stabby::abi::IDeterminantProvider<()>> Shape for SOption<S>
where
    SOption<S>: DeserializeOwned + Serialize,
{
    type Core = Option<S::Core>;
    fn any() -> Self::Core {
        match choose(2) {
            0 => None,
            _ => Some(S::any()),
        }
    }
    fn of(c: &Self::Core) -> Self {
        c.as_ref().map(S::of).into()
    }
    fn same(&self, c: &Self::Core) -> bool {
        self.match_ref(|s| c.as_ref().is_some_and(|c| s.same(c)), || c.is_none())
    }
}
impl<S: Shape + stabby::abi::IDeterminantProvider<T>, T: Shape + stabby::abi::IStable> Shape for SResult<S, T>
where
    SResult<S, T>: DeserializeOwned + Serialize,
{
    type Core = Result<S::Core, T::Core>;
    fn any() -> Self::Core {
        match choose(2) {
            0 => Ok(S::any()),
            _ => Err(T::any()),
        }
    }
    fn of(c: &Self::Core) -> Self {
        match c {
            Ok(c) => SResult::Ok(S::of(c)),
            Err(c) => SResult::Err(T::of(c)),
        }
    }
    fn same(&self, c: &Self::Core) -> bool {
        self.match_ref(|s| c.as_ref().is_ok_and(|c| s.same(c)), |s| c.as_ref().is_err_and(|c| s.same(c)))
    }
}
/// How many parts it has.
fn parts(v: &V) -> usize {
    1 + match v {
        V::Seq(s) => s.iter().map(parts).sum(),
        V::Some(s) | V::Variant(_, s) => parts(s),
        _ => 0,
    }
}
/// Puts something else in place of its `n`th part.
fn spoil(v: &mut V, n: &mut usize, with: usize) {
    if *n == 0 {
        *v = match with {
            0 => V::Bad,
            1 => V::U(7),
            2 => V::S("x".into()),
            3 => V::Seq(vec![V::U(3), V::S("y\n".into())]),
            4 => V::None,
            5 => V::Some(Box::new(core::mem::replace(v, V::Bad))),
            6 => V::Variant(1, Box::new(core::mem::replace(v, V::Bad))),
            _ => V::Variant(2, Box::new(core::mem::replace(v, V::Bad))),
        };
        *n = usize::MAX;
        return;
    }
    *n -= 1;
    match v {
        V::Seq(s) => {
            for v in s {
                if *n != usize::MAX {
                    spoil(v, n, with);
                }
            }
        }
        V::Some(s) | V::Variant(_, s) => spoil(s, n, with),
        _ => {}
    }
}
fn end() {
    check_no_object_leak("object-leak");
    check_no_leak("memory-leak");
}
fn shape<S: Shape>() {
    {
        let c = S::any();
        let Ok(v) = ser(&c, usize::MAX) else { unreachable!() };
        let what = choose(3);
        let s = S::of(&c);
        check(s.same(&c), "made", || format!("not {c:?}"));
        let n = parts(&v);
        match what {
            0 => {
                // Written, with an error somewhere.
                let at = match choose(2 * n + 2) {
                    0 => usize::MAX,
                    i => i - 1,
                };
                log(|| format!("serializing {c:?}, failing at call {at}"));
                let (a, b) = (ser(&s, at), ser(&c, at));
                check(a == b, "serialize", || format!("{c:?} is {a:?} and not {b:?} (failing at call {at})"));
            }
            1 => {
                // Read, with anything in the way.
                let mut v = v;
                match choose(1 + 8 * n) {
                    0 => {}
                    i => spoil(&mut v, &mut ((i - 1) / 8), (i - 1) % 8),
                }
                let text = pick(&[Text::Borrowed, Text::Transient, Text::Owned]);
                let hint = pick(&[Hint::Unknown, Hint::Exact, Hint::Short, Hint::Long, Hint::Hostile]);
                log(|| format!("reading {v:?}, with {text:?} text and {hint:?} sizes"));
                let want = S::Core::deserialize(De(&v, text, hint));
                let got = catch(core::panic::AssertUnwindSafe(|| S::deserialize(De(&v, text, hint))));
                let Ok(got) = got else {
                    fail("panic", format!("reading {v:?}, with {text:?} text and {hint:?} sizes: {:?}", last_panic()));
                };
                check(want.is_ok() == got.is_ok(), "deserialize", || format!("{v:?}, with {text:?} text and {hint:?} sizes, reads as {want:?}: {}", got.is_ok()));
                if let (Ok(w), Ok(g)) = (&want, &got) {
                    check(g.same(w), "deserialize", || format!("{v:?}, with {text:?} text and {hint:?} sizes, doesn't read as {w:?}"));
                    check(ser(g, usize::MAX) == ser(w, usize::MAX), "again", || format!("{w:?} isn't written the same after it's read"));
                }
            }
            _ => json(&s, &c),
        }
    }
    end();
}
/// The same, in an actual format.
fn json<S: Shape>(s: &S, c: &S::Core) {
    let a = serde_json::to_string(s).ok();
    let b = serde_json::to_string(c).unwrap();
    check(a.as_ref() == Some(&b), "json", || format!("{a:?} and not {b:?}"));
    let (x, y) = (serde_json::to_value(s).ok(), serde_json::to_value(c).unwrap());
    check(x.as_ref() == Some(&y), "json", || format!("{x:?} and not {y:?}"));
    // Any prefix of it.
    let n = match choose(2) {
        0 => b.len(),
        _ => choose(b.len()),
    };
    let how = choose(3);
    let t = &b.as_bytes()[..n];
    log(|| format!("{n} bytes of {b:?}, read {how}"));
    let (got, want) = match how {
        0 => (serde_json::from_slice::<S>(t).ok(), serde_json::from_slice::<S::Core>(t).ok()),
        1 => (serde_json::from_reader::<_, S>(t).ok(), serde_json::from_reader::<_, S::Core>(t).ok()),
        _ => (serde_json::from_value::<S>(y.clone()).ok(), serde_json::from_value::<S::Core>(y).ok()),
    };
    check(got.is_some() == want.is_some(), "json", || format!("{:?} is {want:?}: {}", String::from_utf8_lossy(t), got.is_some()));
    if let (Some(g), Some(w)) = (&got, &want) {
        check(g.same(w), "json", || format!("{:?} isn't read as {w:?}", String::from_utf8_lossy(t)));
    }
}
/// One of many.
macro_rules! shapes {
    ($($name: ident: $($t: ty),*;)*) => {$(
        fn $name() {
            const F: &[fn()] = &[$(shape::<$t>),*];
            F[choose(F.len())]()
        }
    )*};
}
shapes! {
    texts: SString, SString<CkAlloc>, BoxedStr, BoxedStr<ZAlloc>, ArcStr, ArcStr<CkAlloc>;
    sequences: SVec<N>, SVec<N, CkAlloc>, SVec<u8>, BoxedSlice<N>, BoxedSlice<u8, CkAlloc>, ArcSlice<N>, ArcSlice<N, CkAlloc>, SVec<SString>, BoxedSlice<ArcStr>, ArcSlice<BoxedStr>;
    sums: SOption<N>, SOption<u8>, SOption<SString>, SOption<SVec<N>>, SOption<BoxedSlice<SString>>,
        SResult<N, SString>, SResult<u8, N>, SResult<SVec<N>, SString>, SResult<ArcStr, u8>, SResult<SString, SString>, SResult<BoxedStr, SVec<u8>>;
    nested: SVec<SVec<N>>, ArcSlice<SVec<N, CkAlloc>>, SVec<SOption<SString>>, BoxedSlice<SResult<N, SString>>, SOption<SVec<SOption<N>>>, SResult<SOption<N>, SVec<SString>>, SOption<SResult<SString, u8>>, SOption<SOption<SString>>;
}

// ---------------------------------------------------------------- borrowed
fn borrowed() {
    {
        let t = pick(&TEXTS);
        let at = pick(&[usize::MAX, 0, 1, 2, 3]);
        let want = ser(t, at);
        check(ser(&Str::new(t), at) == want, "str", || format!("{t:?} isn't written as {want:?}"));
        let mut o = String::from(t);
        check(ser(&StrMut::from(&mut *o), at) == want, "str-mut", || format!("{t:?} isn't written as {want:?}"));
        let mut n = [N { p: P::new(1) }, N { p: P::new(2) }, N { p: P::new(3) }];
        let k = choose(4);
        let want = ser(&n[..k], at);
        check(ser(&Slice::from(&n[..k]), at) == want, "slice", || format!("{k} elements aren't written as {want:?}"));
        check(ser(&SliceMut::from(&mut n[..k]), at) == want, "slice-mut", || format!("{k} elements aren't written as {want:?}"));
        // Read back, where it's been.
        let v = match choose(7) {
            0 => V::S(t.into()),
            1 => V::U(1),
            2 => V::None,
            3 => V::Some(Box::new(V::S(t.into()))),
            4 => V::Variant(0, Box::new(V::S(t.into()))),
            5 => V::Seq(vec![V::S(t.into())]),
            _ => V::Bad,
        };
        let text = pick(&[Text::Borrowed, Text::Transient, Text::Owned]);
        let d = De(&v, text, Hint::Unknown);
        let (got, want) = (Str::deserialize(d), <&str>::deserialize(d));
        check(got.is_ok() == want.is_ok(), "str", || format!("{v:?}, with {text:?} text, is read as {want:?}: {}", got.is_ok()));
        if let (Ok(g), Ok(w)) = (got, want) {
            check(g.as_ptr() == w.as_ptr() && g.len() == w.len(), "str", || format!("{w:?} isn't borrowed"));
        }
        let j = serde_json::to_string(t).unwrap();
        let (got, want) = (serde_json::from_str::<Str>(&j).ok(), serde_json::from_str::<&str>(&j).ok());
        check(got.is_some() == want.is_some(), "str", || format!("{j:?} is read as {want:?}: {}", got.is_some()));
        if let (Some(g), Some(w)) = (got, want) {
            check(g.as_ptr() == w.as_ptr() && g.len() == w.len(), "str", || format!("{w:?} isn't borrowed"));
        }
        // Bytes.
        let b = t.as_bytes();
        let d = serde::de::value::BorrowedBytesDeserializer::<E>::new(b);
        let (got, want) = (<Slice<u8>>::deserialize(d), <&[u8]>::deserialize(d));
        match (got, want) {
            (Ok(g), Ok(w)) => check(g.as_ptr() == w.as_ptr() && g.len() == w.len(), "bytes", || format!("{w:?} isn't borrowed")),
            (g, _) => check(false, "bytes", || format!("{b:?} is read: {}", g.is_ok())),
        }
    }
    end();
}

fn main() {
    const B: Bounds = Bounds::SEQ.split(3).faults(0);
    let s = |name, about, body: fn(), quick, thorough| Scenario { name, about, quick: Some(B.width(quick)), thorough: B.width(thorough), body };
    // (Some are cached when first used.)
    mcrt::main(&Prop {
        id: "C32",
        title: "Serialized values are those of ordinary values and read back equal",
        assumptions: &["a format of the harness' own (borrowed, passing or owned text; absent, right, wrong and hostile length hints; an error at any part) and JSON stand for all formats"],
        scenarios: vec![
            s("texts", "every text, written, read and spoiled at any part", texts, 1, 1),
            s("sequences", "every short sequence, written, read and spoiled at any part", sequences, 3, 5),
            s("sums", "every option and result, written, read and spoiled at any part", sums, 2, 4),
            s("nested", "sequences, options and results in one another", nested, 2, 3),
            s("borrowed", "borrowed strings and slices", borrowed, 1, 1),
        ],
    })
}
