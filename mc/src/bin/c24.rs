//! C24: type reports and identifiers agree exactly for compatible types.
use core::hash::{Hash, Hasher};
use mcrt::*;
use stabby::abi::report::{gen_id, FieldReport, TyTy, TypeReport};
use stabby::abi::str::Str;
use stabby::abi::{IStable, StableLike};
use stabby_mc as _;

// ---------------------------------------------------------------- descriptions
#[derive(Clone, PartialEq, Debug)]
enum Kind {
    Struct,
    Enum(&'static str),
    Union,
}
/// What a type is, as known to the checker.
#[derive(Clone, PartialEq, Debug)]
struct Desc {
    name: &'static str,
    module: &'static str,
    kind: Kind,
    version: u32,
    fields: Vec<(&'static str, &'static Desc)>,
}
struct Feed(u64);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = mix(self.0, b as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn hash(r: &TypeReport) -> u64 {
    let mut f = Feed(1);
    r.hash(&mut f);
    f.finish()
}
/// A report of what's described.
fn report(d: &Desc) -> &'static TypeReport {
    let mut fields: Option<&'static FieldReport> = None;
    for (name, ty) in d.fields.iter().rev() {
        fields = Some(Box::leak(Box::new(FieldReport { name: Str::new(name), ty: report(ty), next_field: StableLike::new(fields) })));
    }
    Box::leak(Box::new(TypeReport {
        name: Str::new(d.name),
        module: Str::new(d.module),
        fields: StableLike::new(fields),
        tyty: match d.kind {
            Kind::Struct => TyTy::Struct,
            Kind::Enum(r) => TyTy::Enum(Str::new(r)),
            Kind::Union => TyTy::Union,
        },
        version: d.version,
    }))
}
/// Checks how two reports compare.
fn compare(a: (&TypeReport, u64), b: (&TypeReport, u64), same: bool, say: &dyn Fn() -> String) {
    let ((a, ia), (b, ib)) = (a, b);
    check(a.is_compatible(b) == same, "compatible", || format!("{} though {}", if same { "judged incompatible" } else { "judged compatible" }, say()));
    check(b.is_compatible(a) == same, "symmetric", || format!("the other way around, {} though {}", if same { "judged incompatible" } else { "judged compatible" }, say()));
    check((ia == ib) == same, "identifier", || format!("identifiers {ia:#x} and {ib:#x} though {}", say()));
    check((a == b) == same, "equality", || format!("reports compare otherwise though {}", say()));
    check(!same || hash(a) == hash(b), "hash", || format!("reports are hashed differently though {}", say()));
}

// ---------------------------------------------------------------- reports of any shape
struct Entry {
    d: &'static Desc,
    r: &'static TypeReport,
    id: u64,
}
static mut SETS: [Vec<Entry>; 4] = [Vec::new(), Vec::new(), Vec::new(), Vec::new()];
const NAMES: [&str; 4] = ["a", "ab", "b", ""];
const MODULES: [&str; 3] = ["m", "ma", "mab"];
fn kinds() -> [Kind; 5] {
    [Kind::Struct, Kind::Union, Kind::Enum("C"), Kind::Enum("a"), Kind::Enum("")]
}
fn leak(name: &'static str, module: &'static str, kind: Kind, version: u32, fields: Vec<(&'static str, &'static Desc)>) -> &'static Desc {
    Box::leak(Box::new(Desc { name, module, kind, version, fields }))
}
fn build() {
    let mut leaves = Vec::new();
    for name in NAMES {
        for module in MODULES {
            for kind in kinds() {
                for version in [0, 1, 256] {
                    leaves.push(leak(name, module, kind.clone(), version, vec![]));
                }
            }
        }
    }
    // Few leaves, which differ from each other in one thing.
    let small: Vec<_> = vec![
        leak("a", "m", Kind::Struct, 0, vec![]),
        leak("ab", "m", Kind::Struct, 0, vec![]),
        leak("a", "mab", Kind::Struct, 0, vec![]),
        leak("a", "m", Kind::Union, 0, vec![]),
        leak("a", "m", Kind::Enum("a"), 0, vec![]),
        leak("a", "m", Kind::Struct, 1, vec![]),
    ];
    let mut one = Vec::new();
    let tops = [("a", "m", Kind::Struct, 0), ("ab", "m", Kind::Struct, 0), ("a", "m", Kind::Union, 0), ("a", "m", Kind::Enum("a"), 0), ("a", "m", Kind::Struct, 1), ("a", "ma", Kind::Struct, 0)];
    for t in &tops {
        for f in NAMES {
            for &l in &small {
                one.push(leak(t.0, t.1, t.2.clone(), t.3, vec![(f, l)]));
            }
        }
    }
    let mut two = Vec::new();
    for t in &tops[..2] {
        for f in ["a", "ab", ""] {
            for g in ["a", "b"] {
                for &l in &small {
                    for &k in &small {
                        two.push(leak(t.0, t.1, t.2.clone(), t.3, vec![(f, l), (g, k)]));
                    }
                }
            }
        }
    }
    // All ways to nest up to 4 fields of one name: shapes only.
    let mut shapes: Vec<Vec<&'static Desc>> = vec![vec![leak("a", "m", Kind::Struct, 0, vec![])]];
    for n in 1..=5 {
        let mut now = Vec::new();
        forests(n, &shapes, &mut Vec::new(), &mut |fields| now.push(leak("a", "m", Kind::Struct, 0, fields.iter().map(|&d| ("a", d)).collect())));
        shapes.push(now);
    }
    let shapes: Vec<_> = shapes.into_iter().flatten().collect();
    // A version of each leaf is nested in others, too.
    let mut nested = Vec::new();
    for &l in one.iter().step_by(5) {
        for f in ["a", "b"] {
            nested.push(leak("a", "m", Kind::Struct, 0, vec![(f, l)]));
            nested.push(leak("a", "m", Kind::Struct, 0, vec![(f, l), ("a", small[0])]));
            nested.push(leak("a", "m", Kind::Struct, 0, vec![("a", small[0]), (f, l)]));
        }
    }
    let entries = |l: &[&'static Desc]| l.iter().map(|&d| { let r = report(d); Entry { d, r, id: gen_id(r) } }).collect::<Vec<_>>();
    unsafe {
        let sets = &mut *(&raw mut SETS);
        sets[0] = entries(&leaves);
        sets[1] = entries(&[&leaves[..], &one[..], &nested[..]].concat());
        sets[2] = entries(&[&two[..], &one[..], &nested[..], &shapes[..]].concat());
        sets[3] = entries(&shapes);
    }
}
/// All lists of `n` nodes in trees (a tree with `n` nodes below its root is in `shapes[n]`).
fn forests(n: usize, shapes: &[Vec<&'static Desc>], at: &mut Vec<&'static Desc>, f: &mut dyn FnMut(&[&'static Desc])) {
    if n == 0 {
        return f(at);
    }
    for k in 0..n {
        for &d in &shapes[k] {
            at.push(d);
            forests(n - 1 - k, shapes, at, f);
            at.pop();
        }
    }
}
fn pairs(set: usize) {
    let set = unsafe { &(*(&raw const SETS))[set] };
    let a = &set[choose(set.len())];
    let b = &set[choose(set.len())];
    log(|| format!("{}\n{}", a.r, b.r));
    let same = a.d == b.d;
    compare((a.r, a.id), (b.r, b.id), same, &|| format!("the types are {}: {:?} and {:?}", if same { "the same" } else { "not the same" }, a.d, b.d));
    if core::ptr::eq(a, b) {
        // Another report of the same, made elsewhere; and what's said of its fields.
        let other = quiet(|| gen_id(a.r));
        check(other == a.id, "identifier", || "an identifier isn't always the same".into());
        check(a.r.fields().count() == a.d.fields.len(), "fields", || "fields are lost".into());
        let mut it = a.r.fields();
        for (n, d) in &a.d.fields {
            let x = it.next().unwrap();
            check(x.name.as_str() == *n && x.ty.name.as_str() == d.name, "fields", || "fields are in another order".into());
        }
        let mut c = a.r.fields();
        for (n, _) in &a.d.fields {
            let (next, f) = c.next_const();
            check(f.map(|f| f.name.as_str()) == Some(*n), "fields", || "fields are in another order".into());
            c = next;
        }
        check(c.next_const().1.is_none(), "fields", || "there's always another field".into());
    }
}

// ---------------------------------------------------------------- real types
mod m1 {
    use stabby::stabby;
    #[stabby]
    pub struct S {
        pub a: u8,
        pub b: u32,
    }
    #[stabby]
    pub struct Other {
        pub a: u8,
        pub b: u32,
    }
    #[stabby]
    pub struct Tup(pub u8, pub u32);
    #[stabby]
    pub struct Unit;
    #[stabby]
    pub struct Gen<T> {
        pub a: T,
        pub b: u32,
    }
    #[stabby]
    pub struct Nest {
        pub s: S,
        pub b: u32,
    }
    #[stabby]
    pub union U {
        pub a: u8,
        pub b: u32,
    }
    #[stabby]
    #[repr(u8)]
    pub enum E {
        A,
        B,
    }
    #[stabby]
    #[repr(stabby)]
    pub enum D {
        A(u8),
        B(u32),
    }
    #[stabby]
    #[repr(C, u8)]
    pub enum M {
        A { x: u8, y: u32 },
        B(u32, u8),
        C,
    }
    #[stabby(version = 3)]
    pub struct V {
        pub a: u8,
    }
}
/// The same, but for their place.
mod m2 {
    use stabby::stabby;
    #[stabby]
    pub struct S {
        pub a: u8,
        pub b: u32,
    }
    #[stabby]
    pub union U {
        pub a: u8,
        pub b: u32,
    }
    #[stabby]
    #[repr(u8)]
    pub enum E {
        A,
        B,
    }
    #[stabby]
    #[repr(stabby)]
    pub enum D {
        A(u8),
        B(u32),
    }
    #[stabby]
    pub struct Gen<T> {
        pub a: T,
        pub b: u32,
    }
    #[stabby(module = "elsewhere")]
    pub struct Unit;
}
/// Each differs from its namesakes in one thing; all claim the same place.
macro_rules! variant {
    ($m: ident $($body: tt)*) => {
        mod $m {
            #[allow(unused_imports)]
            use stabby::stabby;
            $($body)*
        }
    };
}
variant!(v0 #[stabby(module = "v")] pub struct S { pub a: u8, pub b: u8 });
variant!(v1 #[stabby(module = "v")] pub struct S { pub b: u8, pub a: u8 });
variant!(v2 #[stabby(module = "v")] pub struct S { pub a: u8, pub c: u8 });
variant!(v3 #[stabby(module = "v")] pub struct S { pub a: u8, pub b: i8 });
variant!(v4 #[stabby(module = "v")] pub struct S { pub a: u8 });
variant!(v5 #[stabby(module = "v")] pub struct S { pub a: u8, pub b: u8, pub c: u8 });
variant!(v6 #[stabby(module = "v", version = 1)] pub struct S { pub a: u8, pub b: u8 });
variant!(v7 #[stabby(module = "v", version = 2)] pub struct S { pub a: u8, pub b: u8 });
variant!(v8 #[stabby(module = "v")] pub union S { pub a: u8, pub b: u8 });
variant!(v9 #[stabby(module = "v")] #[repr(stabby)] pub enum S { A(u8), B(u8) });
variant!(v10 #[stabby(module = "v")] #[repr(u8)] pub enum S { A(u8), B(u8) });
variant!(v11 #[stabby(module = "v")] #[repr(u16)] pub enum S { A(u8), B(u8) });
variant!(v12 #[stabby(module = "v")] #[repr(u8)] pub enum S { A, B });
variant!(v13 #[stabby(module = "v")] #[repr(u8)] pub enum S { A, B, C });
variant!(v14 #[stabby(module = "v")] #[repr(u8)] pub enum S { B, A });
variant!(v15 #[stabby(module = "v")] pub struct S(pub u8, pub u8););
variant!(v16 #[stabby(module = "v")] pub struct S { pub a: super::v0::S, pub b: u8 });
variant!(v17 #[stabby(module = "v")] pub struct S { pub a: super::v4::S, pub b: u8 });
variant!(v18 #[stabby(module = "v")] pub struct S { pub a: super::v1::S, pub b: u8 });
variant!(v19 #[stabby(module = "v")] #[repr(stabby)] pub enum S { B(u8), A(u8) });
variant!(v20 #[stabby(module = "v", version = 1)] #[repr(stabby)] pub enum S { A(u8), B(u8) });
variant!(v21 #[stabby(module = "v", version = 1)] #[repr(u8)] pub enum S { A, B });
variant!(v22 #[stabby(module = "v", version = 1)] pub union S { pub a: u8, pub b: u8 });
variant!(v23 #[stabby(module = "v")] #[repr(C, u8)] pub enum S { A { x: u8, y: u8 }, B });
variant!(v24 #[stabby(module = "v")] #[repr(C, u8)] pub enum S { A { x: u8 }, B(u8, u8) });
variant!(v25 #[stabby(module = "v")] #[repr(C, u8)] pub enum S { A(u8, u8), B });
variant!(v26 #[stabby(module = "v")] pub struct S { pub a: u16 });
variant!(v27 #[stabby(module = "v")] #[repr(u8)] pub enum S { A(u8), B(u16) });
variant!(v28 #[stabby(module = "v")] pub struct S; );
variant!(v29 #[stabby(module = "v")] pub struct S { pub a: super::v28::S });
// Both say the same in two places.
variant!(v30 #[stabby(module = "v")] pub struct S { pub a: u8, pub b: u8 });
variant!(v31 #[stabby(module = "v")] #[repr(stabby)] pub enum S { A(u8), B(u8) });
// What tells variants from each other.
const FOUR: u8 = 4;
variant!(w0 #[stabby(module = "v")] #[repr(u8)] pub enum S { A = 1, B = 2 });
variant!(w1 #[stabby(module = "v")] #[repr(u8)] pub enum S { A = 2, B = 1 });
variant!(w3 #[stabby(module = "v")] #[repr(u8)] pub enum S { A = super::FOUR, B });
variant!(w4 #[stabby(module = "v")] #[repr(u8)] pub enum S { A = 4, B });
variant!(w5 #[stabby(module = "v")] #[repr(i64)] pub enum S { A = -1, B = 4 });
variant!(w6 #[stabby(module = "v")] #[repr(i64)] pub enum S { A = 0xFFFF_FFFF, B = 4 });
variant!(w7 #[stabby(module = "v")] #[repr(i64)] pub enum S { A = 1 << 40, B = 4 });
variant!(w8 #[stabby(module = "v")] #[repr(i64)] pub enum S { A = 1 << 41, B = 4 });
variant!(w9 #[stabby(module = "v")] #[repr(i8)] pub enum S { A, B });
variant!(w10 #[stabby(module = "v")] #[repr(u8)] pub enum S { A(u8) = 4, B(u8) = 9 });
variant!(w11 #[stabby(module = "v")] #[repr(u8)] pub enum S { A(u8) = 4, B(u8) });
variant!(w12 #[stabby(module = "v")] #[repr(u8)] pub enum S { A(u8) = b'\x04', B(u8) });
variant!(w13 #[stabby(module = "v")] #[repr(C, u8)] pub enum S { A(u8) = 4, B(u8) = 9 });
variant!(w14 #[stabby(module = "v")] #[repr(C, u8)] pub enum S { A(u8), B(u8) });
variant!(w15 #[stabby(module = "v")] #[repr(u8)] pub enum S { A, B = 2 });
// Alignments.
variant!(x0 #[stabby(module = "v")] #[repr(C, align(2))] pub struct S { pub a: u8, pub b: u8 });
variant!(x1 #[stabby(module = "v")] #[repr(C, align(16))] pub struct S { pub a: u8, pub b: u8 });
variant!(x2 #[stabby(module = "v")] #[repr(align(2))] pub struct S { pub a: u8, pub b: u8 });
variant!(x3 #[stabby(module = "v")] #[repr(C, align(2))] pub union S { pub a: u8, pub b: u8 });
variant!(x4 #[stabby(module = "v")] #[repr(C, align(16))] pub union S { pub a: u8, pub b: u8 });
variant!(x5 #[stabby(module = "v")] #[repr(align(2))] pub struct S; );
variant!(x6 #[stabby(module = "v")] #[repr(align(4))] pub struct S; );
variant!(x7 #[stabby(module = "v")] #[repr(C)] pub struct S { pub a: u8, pub b: u8 });
variant!(x8 #[stabby(module = "v")] #[repr(C)] pub union S { pub a: u8, pub b: u8 });

type Ty = (&'static TypeReport, u64, &'static str, u32);
fn ty<T: IStable>(name: &'static str, class: u32) -> Ty {
    (T::REPORT, T::ID, name, class)
}
static mut TYPES: Vec<Ty> = Vec::new();
macro_rules! types {
    ($($t: ty),* $(,)?) => {{
        let mut v = Vec::new();
        let mut class = 100;
        $({
            class += 1;
            v.push(ty::<$t>(stringify!($t), class));
        })*
        v
    }};
}
fn real_types() -> Vec<Ty> {
    use stabby::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
    use stabby::alloc::sync::{Arc as SArc, ArcSlice, Weak};
    use stabby::alloc::vec::Vec as SVec;
    use stabby::alloc::{string::String as SString, DefaultAllocator};
    use stabby::option::Option as SOption;
    use stabby::result::Result as SResult;
    use stabby::tuple::*;
    let mut v = types![
        u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, (), core::marker::PhantomPinned,
        core::num::NonZeroU8, core::num::NonZeroU16, core::num::NonZeroU32, core::num::NonZeroU64, core::num::NonZeroU128, core::num::NonZeroUsize,
        core::num::NonZeroI8, core::num::NonZeroI16, core::num::NonZeroI32, core::num::NonZeroI64, core::num::NonZeroI128, core::num::NonZeroIsize,
        core::sync::atomic::AtomicBool, core::sync::atomic::AtomicU8, core::sync::atomic::AtomicU16, core::sync::atomic::AtomicU32,
        core::sync::atomic::AtomicU64, core::sync::atomic::AtomicUsize, core::sync::atomic::AtomicI8, core::sync::atomic::AtomicI16,
        core::sync::atomic::AtomicI32, core::sync::atomic::AtomicI64, core::sync::atomic::AtomicIsize, core::sync::atomic::AtomicPtr<u8>, core::sync::atomic::AtomicPtr<u16>,
        stabby::abi::num::NonMaxU8, stabby::abi::num::NonMaxU16, stabby::abi::num::NonMaxU32, stabby::abi::num::NonMaxU64, stabby::abi::num::NonMaxU128, stabby::abi::num::NonMaxUsize,
        stabby::abi::num::NonXU8<0>, stabby::abi::num::NonXU8<1>, stabby::abi::num::NonXU8<255>, stabby::abi::num::NonXU16<1>, stabby::abi::num::NonXU16<256>,
        stabby::abi::num::NonXU64<1>, stabby::abi::num::NonXU64<{1 << 32}>, stabby::abi::num::NonXI8<1>, stabby::abi::num::NonXI8<-1>,
        stabby::abi::num::NonXU128<1>, stabby::abi::num::NonXU128<{1 << 100}>, stabby::abi::num::NonXI128<-1>,
        &'static u8, &'static u16, &'static mut u8, *const u8, *const u16, *mut u8, core::ptr::NonNull<u8>, core::ptr::NonNull<u16>, core::pin::Pin<SBox<u8>>,
        &'static &'static u8, &'static *const u8,
        core::mem::MaybeUninit<u8>, core::mem::MaybeUninit<u16>, core::mem::ManuallyDrop<u8>, core::mem::ManuallyDrop<u16>, core::cell::UnsafeCell<u8>, core::cell::UnsafeCell<u16>,
        core::mem::MaybeUninit<m1::S>, core::mem::MaybeUninit<m2::S>, core::mem::ManuallyDrop<m1::S>, core::mem::ManuallyDrop<m2::S>, core::cell::UnsafeCell<m1::S>, core::cell::UnsafeCell<m2::S>,
        core::mem::MaybeUninit<v0::S>, core::mem::MaybeUninit<v1::S>, core::mem::ManuallyDrop<v0::S>, core::mem::ManuallyDrop<v1::S>, core::cell::UnsafeCell<v0::S>, core::cell::UnsafeCell<v1::S>,
        stabby::abi::istable::NotPod<u8>, stabby::abi::istable::NotPod<u16>,
        Option<&'static u8>, Option<&'static u16>, Option<core::num::NonZeroU8>, Option<SBox<u8>>, Option<SArc<u8>>,
        Result<&'static u8, ()>, Result<(), &'static u8>, Result<&'static u16, ()>, Result<&'static u8, m1::Unit>, Result<m1::Unit, &'static u8>, Result<core::num::NonZeroU8, ()>,
        SOption<u8>, SOption<u16>, SOption<SOption<u8>>, SResult<u8, ()>, SResult<(), u8>, SResult<u8, u16>, SResult<u16, u8>, SResult<SResult<u8, u16>, u8>, SResult<u8, SResult<u8, u16>>,
        [u8; 0], [u8; 1], [u8; 2], [u8; 12], [u8; 21], [u8; 100], [u8; 127], [u8; 128], [u16; 2], [[u8; 2]; 3], [[u8; 3]; 2],
        SBox<u8>, SBox<u16>, SArc<u8>, SArc<u16>, Weak<u8>, Weak<u16>, SVec<u8>, SVec<u16>, SString, ArcSlice<u8>, ArcSlice<u16>, BoxedSlice<u8>, BoxedSlice<u16>, BoxedStr,
        SBox<SBox<u8>>, SBox<SArc<u8>>, SArc<SBox<u8>>, SVec<SVec<u8>>,
        Tuple1<u8>, Tuple2<u8, u16>, Tuple2<u16, u8>, Tuple3<u8, u8, u8>, Tuple2<Tuple2<u8, u8>, u8>, Tuple2<u8, Tuple2<u8, u8>>, Tuple2<u8, u8>,
        extern "C" fn(), extern "C" fn(u8), extern "C" fn(u8) -> u8, extern "C" fn() -> u8, extern "C" fn(u8, u16), extern "C" fn(u16, u8), extern "C" fn(u8) -> u16, extern "C" fn(u16) -> u8,
        extern "C" fn(u8, u16, u32), extern "C" fn(u8, u16) -> u32, extern "C" fn(u8, u32, u16), unsafe extern "C" fn(u8), unsafe extern "C" fn(), unsafe extern "C" fn() -> u8,
        extern "C" fn(extern "C" fn(u8)), extern "C" fn(extern "C" fn(u8), u8), extern "C" fn(&'static u8), extern "C" fn(&'static mut u8), extern "C-unwind" fn(), extern "C-unwind" fn(u8), unsafe extern "C-unwind" fn(), unsafe extern "C-unwind" fn(u8), extern "C-unwind" fn() -> u8,
        stabby::str::Str<'static>, stabby::str::StrMut<'static>, stabby::slice::Slice<'static, u8>, stabby::slice::Slice<'static, u16>, stabby::slice::SliceMut<'static, u8>, stabby::slice::SliceMut<'static, u16>,
        core::cmp::Ordering, std::os::fd::OwnedFd, std::os::fd::BorrowedFd<'static>, stabby::time::Duration, stabby::time::Instant, stabby::time::SystemTime, stabby::time::AtomicDuration,
        m1::S, m1::Other, m1::Tup, m1::Unit, m1::Gen<u8>, m1::Gen<u16>, m1::Gen<m1::Gen<u8>>, m1::Nest, m1::U, m1::E, m1::D, m1::M, m1::V, m2::S, m2::U, m2::E, m2::D, m2::Gen<u8>, m2::Unit,
        v0::S, v1::S, v2::S, v3::S, v4::S, v5::S, v6::S, v7::S, v8::S, v9::S, v10::S, v11::S, v12::S, v13::S, v14::S, v15::S, v16::S, v17::S, v18::S, v19::S, v20::S, v21::S, v22::S, v23::S, v24::S,
        v25::S, v26::S, v27::S, v28::S, v29::S, w0::S, w1::S, w3::S, w5::S, w6::S, w7::S, w8::S, w9::S, w10::S, w11::S, w13::S, w14::S, w15::S, x0::S, x1::S, x3::S, x4::S, x5::S, x6::S,
        SBox<w0::S>, SBox<w1::S>, SBox<x0::S>, SBox<x1::S>,
        SBox<v0::S>, SBox<v1::S>, SBox<v4::S>, SBox<v6::S>, SBox<v16::S>, SBox<v17::S>, SOption<v0::S>, SOption<v1::S>, SVec<v4::S>, SVec<v5::S>, SVec<v6::S>,
        DefaultAllocator,
    ];
    let class = |v: &[Ty], name: &str| v.iter().find(|t| t.2 == name).unwrap().3;
    // Those that are the same, though written elsewhere or otherwise.
    let (a, b) = (class(&v, "v0::S"), class(&v, "v9::S"));
    v.push(ty::<v30::S>("v30::S", a));
    v.push(ty::<v31::S>("v31::S", b));
    for (t, of) in [
        (ty::<w4::S>("w4::S", 0), "w3::S"),
        (ty::<w12::S>("w12::S", 0), "w11::S"),
        (ty::<x2::S>("x2::S", 0), "x0::S"),
        (ty::<x7::S>("x7::S", 0), "v0::S"),
        (ty::<x8::S>("x8::S", 0), "v8::S"),
    ] {
        let c = class(&v, of);
        v.push((t.0, t.1, t.2, c));
    }
    let (a, b, c) = (class(&v, "SBox<v0::S>"), class(&v, "SOption<v0::S>"), class(&v, "m1::Gen<m1::Gen<u8>>"));
    v.push(ty::<SBox<v30::S>>("SBox<v30::S>", a));
    v.push(ty::<SOption<v30::S>>("SOption<v30::S>", b));
    v.push(ty::<m1::Gen<m1::Gen<u8>>>("m1::Gen<m1::Gen<u8>> again", c));
    v
}
fn types() {
    let v = unsafe { &*(&raw const TYPES) };
    let a = &v[choose(v.len())];
    let b = &v[choose(v.len())];
    let same = a.3 == b.3;
    compare((a.0, a.1), (b.0, b.1), same, &|| format!("{} and {} are {}", a.2, b.2, if same { "the same" } else { "not the same" }));
    if core::ptr::eq(a, b) {
        let id = quiet(|| gen_id(a.0));
        check(id == a.1, "identifier", || format!("the identifier of {} isn't its report's", a.2));
    }
}
/// Containers that free what they hold with the wrong allocator, when taken for each other.
fn allocators() {
    use stabby::alloc::{boxed, string, sync, vec};
    use stabby_mc::{CkAlloc, ZAlloc};
    macro_rules! pairs {
        ($($t: ident: $a: ty, $b: ty, $c: ty);*) => {
            [$((stringify!($t), [(<$a>::REPORT, <$a>::ID), (<$b>::REPORT, <$b>::ID), (<$c>::REPORT, <$c>::ID)])),*]
        };
    }
    let all = pairs![
        Box: boxed::Box<u8>, boxed::Box<u8, CkAlloc>, boxed::Box<u8, ZAlloc>;
        BoxedSlice: boxed::BoxedSlice<u8>, boxed::BoxedSlice<u8, CkAlloc>, boxed::BoxedSlice<u8, ZAlloc>;
        Arc: sync::Arc<u8>, sync::Arc<u8, CkAlloc>, sync::Arc<u8, ZAlloc>;
        ArcSlice: sync::ArcSlice<u8>, sync::ArcSlice<u8, CkAlloc>, sync::ArcSlice<u8, ZAlloc>;
        Vec: vec::Vec<u8>, vec::Vec<u8, CkAlloc>, vec::Vec<u8, ZAlloc>;
        String: string::String, string::String<CkAlloc>, string::String<ZAlloc>
    ];
    let (name, of) = &all[choose(all.len())];
    let (a, b) = (choose(3), choose(3));
    let same = a == b;
    let say = |what: &str| format!("{what}: {name}s in {} allocator", if same { "the same" } else { "another" });
    check(of[a].0.is_compatible(of[b].0) == same, if same { "incompatible" } else { "compatible" }, || say("compatible"));
    check((of[a].1 == of[b].1) == same, if same { "other-identifier" } else { "identifier" }, || say("identifier"));
}
/// What reports say of types.
fn says() {
    macro_rules! says {
        ($i: ident: $($t: ty = $name: literal, $module: expr, $kind: literal, $version: literal, [$($f: literal $ft: ty),*]);* $(;)?) => {{
            let all: &[fn()] = &[$(|| {
                let r = <$t>::REPORT;
                let t = stringify!($t);
                check(r.name.as_str() == $name, "name", || format!("{t} is called {:?}", r.name.as_str()));
                check(r.module.as_str() == $module, "module", || format!("{t} is said to be in {:?}", r.module.as_str()));
                check(match &r.tyty { TyTy::Struct => "struct", TyTy::Enum(s) => s.as_str(), TyTy::Union => "union" } == $kind, "kind", || format!("{t} is said to be {:?}", r.tyty));
                check(r.version == $version, "version", || format!("{t} is said to have version {}", r.version));
                let want: &[(&str, &TypeReport)] = &[$(($f, <$ft>::REPORT)),*];
                let n = r.fields().count();
                check(n == want.len(), "fields", || format!("{t} is said to have {n} fields"));
                let forward = r.fields().zip(want).all(|(f, w)| f.name.as_str() == w.0 && f.ty.is_compatible(w.1));
                let backward = r.fields().zip(want.iter().rev()).all(|(f, w)| f.name.as_str() == w.0 && f.ty.is_compatible(w.1));
                check(forward || backward, "fields", || format!("{t} is said to have fields {r}"));
            }),*];
            all[choose(all.len())]()
        }};
    }
    fn at1() -> &'static str { concat!(module_path!(), "::m1") }
    fn at2() -> &'static str { concat!(module_path!(), "::m2") }
    says!(i:
        m1::S = "S", at1(), "struct", 0, ["a" u8, "b" u32];
        m1::Other = "Other", at1(), "struct", 0, ["a" u8, "b" u32];
        m1::Tup = "Tup", at1(), "struct", 0, ["0" u8, "1" u32];
        m1::Unit = "Unit", at1(), "struct", 0, [];
        m1::Gen<u8> = "Gen", at1(), "struct", 0, ["a" u8, "b" u32];
        m1::Gen<u16> = "Gen", at1(), "struct", 0, ["a" u16, "b" u32];
        m1::Nest = "Nest", at1(), "struct", 0, ["s" m1::S, "b" u32];
        m1::U = "U", at1(), "union", 0, ["a" u8, "b" u32];
        m1::V = "V", at1(), "struct", 3, ["a" u8];
        m2::S = "S", at2(), "struct", 0, ["a" u8, "b" u32];
        m2::Unit = "Unit", "elsewhere", "struct", 0, [];
        v6::S = "S", "v", "struct", 1, ["a" u8, "b" u8];
        v22::S = "S", "v", "union", 1, ["a" u8, "b" u8];
    )
}

fn main() {
    build();
    unsafe { *(&raw mut TYPES) = real_types() };
    const B: Bounds = Bounds::SEQ.split(2).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B), thorough: B, body }
    }
    mcrt::main(&Prop {
        id: "C24",
        title: "Type reports and identifiers agree exactly for compatible types",
        assumptions: &[
            "identifiers of different reports are different up to collisions of the hash: none among those explored",
            "types that are transparent by design report as what they stand for (StableLike, StableIf, Result<T, Infallible>); lifetimes, constants and PhantomData are not part of reports",
        ],
        scenarios: vec![
            s("leaves", "reports without fields: every pair of them", || pairs(0)),
            s("one-field", "reports with one field, some nested", || pairs(1)),
            s("two-fields", "reports with two fields, and other shapes", || pairs(2)),
            s("shapes", "reports that only differ in how fields are nested", || pairs(3)),
            s("types", "pairs of real types", types),
            s("allocators", "the same containers in other allocators", allocators),
            s("declared", "what reports say of declared types", says),
        ],
    })
}
