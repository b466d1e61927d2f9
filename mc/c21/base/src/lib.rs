//! What C21 checks of a type: the layout it declares, the bits it says are unused, and the values it says are forbidden.
#![recursion_limit = "512"]
#![allow(clippy::type_complexity)]
pub use mcrt::*;
pub mod combine;
pub mod leaves;
pub mod shapes;
use stabby_abi::istable::{End, IBitMask, IForbiddenValues, ISaturatingAdd, ISingleForbiddenValue, SaturatingAddValue};
use stabby_abi::{Array, Bit, IStable, Unsigned};

/// Types whose interesting values can be enumerated and told apart.
pub trait Sample: IStable {
    /// Whether values mean something only in this process.
    const PTR: bool;
    fn n() -> usize;
    fn make(i: usize) -> Self;
    fn same(&self, i: usize) -> bool;
}
/// The bytes of a single forbidden value.
pub trait Pattern {
    fn push(to: &mut Vec<(usize, u8)>);
}
impl Pattern for End {
    fn push(_: &mut Vec<(usize, u8)>) {}
}
impl<O: Unsigned, T: Unsigned, R: Pattern> Pattern for Array<O, T, R> {
    fn push(to: &mut Vec<(usize, u8)>) {
        to.push((O::USIZE, T::U8));
        R::push(to);
    }
}
pub fn pattern<P: Pattern>() -> Vec<(usize, u8)> {
    let mut to = Vec::new();
    P::push(&mut to);
    to
}
/// The bytes of a mask, which only its debug representation lets one walk.
pub fn mask<M: IBitMask>() -> Vec<(usize, u8)> {
    let text = format!("{:?}", M::TUPLE);
    let numbers: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter(|n| !n.is_empty()).map(|n| n.parse().unwrap()).collect();
    check(numbers.len() % 2 == 0, "mask-form", || format!("a mask reads {text}"));
    numbers
        .chunks(2)
        .map(|n| {
            check(n[1] < 256 && n[1] != 0, "mask-byte", || format!("a byte of the mask {text} isn't one"));
            (n[0], n[1] as u8)
        })
        .collect()
}
#[derive(Clone, Copy)]
pub struct Desc {
    pub name: fn() -> &'static str,
    pub declared: (usize, usize),
    pub methods: (fn() -> usize, fn() -> usize),
    pub actual: (usize, usize),
    pub options: (usize, usize),
    pub niche: u8,
    pub indirections: (bool, bool),
    pub unused: fn() -> Vec<(usize, u8)>,
    pub invalid: unsafe fn(*const u8) -> bool,
    pub pattern: fn() -> Vec<(usize, u8)>,
    pub n: fn() -> usize,
    pub put: unsafe fn(*mut u8, usize),
    pub same: unsafe fn(*const u8, usize) -> bool,
}
unsafe fn put<T: Sample>(to: *mut u8, i: usize) {
    to.cast::<T>().write(T::make(i))
}
unsafe fn same<T: Sample>(at: *const u8, i: usize) -> bool {
    (*at.cast::<T>()).same(i)
}
pub fn desc<T: Sample>() -> Desc
where
    <T::ForbiddenValues as IForbiddenValues>::SelectOne: Pattern,
{
    Desc {
        name: core::any::type_name::<T>,
        declared: (<T::Size as Unsigned>::USIZE, <T::Align as Unsigned>::USIZE),
        methods: (T::size, T::align),
        actual: (size_of::<T>(), align_of::<T>()),
        options: (size_of::<Option<T>>(), size_of::<Option<Option<T>>>()),
        niche: match <T::HasExactlyOneNiche as ISaturatingAdd>::VALUE {
            SaturatingAddValue::B0 => 0,
            SaturatingAddValue::B1 => 1,
            SaturatingAddValue::Saturator => 2,
        },
        indirections: (<T::ContainsIndirections as Bit>::BOOL, T::PTR),
        unused: mask::<T::UnusedBits>,
        invalid: T::is_invalid,
        pattern: pattern::<<T::ForbiddenValues as IForbiddenValues>::SelectOne>,
        n: T::n,
        put: put::<T>,
        same: same::<T>,
    }
}
#[repr(C, align(128))]
struct Buffer([u8; 768]);
impl Buffer {
    fn at(&mut self) -> *mut u8 {
        unsafe { (&raw mut self.0).cast::<u8>().add(128) }
    }
}
fn layout(d: &Desc) {
    let name = (d.name)();
    check(d.declared == d.actual, "layout", || format!("{name} declares size {} and alignment {}, but has {} and {}", d.declared.0, d.declared.1, d.actual.0, d.actual.1));
    let methods = ((d.methods.0)(), (d.methods.1)());
    check(methods == d.actual, "methods", || format!("{name} says its size is {} and its alignment {}, but they are {} and {}", methods.0, methods.1, d.actual.0, d.actual.1));
    check(d.niche != 0 || d.options.0 > d.actual.0, "niche-none", || format!("{name} declares no niche, but its option is as large"));
    check(d.niche != 1 || d.options.0 == d.actual.0 && d.options.1 > d.options.0, "niche-one", || format!("{name} declares exactly one niche, but doesn't have that"));
    check(d.indirections.0 || !d.indirections.1, "indirections", || format!("{name} declares no indirections, but has one"));
    check(!d.indirections.0 || d.indirections.1, "indirections-none", || format!("{name} declares indirections, but has none"));
    for (o, _) in (d.unused)() {
        check(o < d.actual.0, "unused-outside", || format!("{name} has unused bits in byte {o}, past its {} bytes", d.actual.0));
    }
    for (o, _) in (d.pattern)() {
        check(o < d.actual.0, "forbidden-outside", || format!("{name} has a forbidden value in byte {o}, past its {} bytes", d.actual.0));
    }
}
fn show(at: *const u8, n: usize) -> String {
    (0..n).map(|i| format!("{:02x}", unsafe { at.add(i).read() })).collect::<Vec<_>>().join(" ")
}
fn value(d: &Desc, i: usize, fill: u8) {
    let name = (d.name)();
    let size = d.actual.0;
    let mut buffer = Box::new(Buffer([fill; 768]));
    let at = buffer.at();
    unsafe {
        (d.put)(at, i);
        check((d.same)(at, i), "make", || format!("value {i} of {name} isn't itself"));
        check(!(d.invalid)(at), "valid-is-invalid", || format!("{name} takes its value {} for invalid", show(at, size)));
        let unused = (d.unused)();
        for &(o, m) in &unused {
            for bit in (0..8).map(|b| 1 << b).filter(|b| m & b != 0) {
                *at.add(o) ^= bit;
                check((d.same)(at, i), "unused-bit", || format!("bit {bit:#x} of byte {o} of {name} is unused, but flipping it changed value {i} into {}", show(at, size)));
                check(!(d.invalid)(at), "unused-bit-invalid", || format!("{name} takes {} for invalid", show(at, size)));
                *at.add(o) ^= bit;
            }
        }
        for all in [0, 0xff, 0x55, 0xaa] {
            for &(o, m) in &unused {
                *at.add(o) = *at.add(o) & !m | all & m;
            }
            check((d.same)(at, i), "unused-bits", || format!("writing {all:#x} to the unused bits of {name} changed value {i} into {}", show(at, size)));
            check(!(d.invalid)(at), "unused-bits-invalid", || format!("{name} takes {} for invalid", show(at, size)));
        }
        let pattern = (d.pattern)();
        if !pattern.is_empty() {
            for &(o, v) in &pattern {
                *at.add(o) = v;
            }
            check((d.invalid)(at), "forbidden-is-valid", || format!("{name} takes its forbidden value {} for valid", show(at, size)));
        }
    }
}
/// Two types and the forbidden value of the first that fits the unused bytes of the second.
pub type Fit = (fn() -> Desc, fn() -> Desc, fn() -> Vec<(usize, u8)>);
pub fn fit<A: IStable, B: IStable>() -> Vec<(usize, u8)>
where
    <<A::ForbiddenValues as IForbiddenValues>::SelectFrom<B::UnusedBits> as ISingleForbiddenValue>::Resolve: Pattern,
{
    pattern::<<<A::ForbiddenValues as IForbiddenValues>::SelectFrom<B::UnusedBits> as ISingleForbiddenValue>::Resolve>()
}
pub fn fits(a: &Desc, b: &Desc, pattern: Vec<(usize, u8)>) {
    if pattern.is_empty() {
        return;
    }
    let what = format!("the value {pattern:02x?} of {} for the unused bytes of {}", (a.name)(), (b.name)());
    let unused = (b.unused)();
    for (o, _) in &pattern {
        check(unused.iter().any(|(u, m)| u == o && *m == 0xff), "fit-used", || format!("{what}: byte {o} isn't unused"));
    }
    let mut buffer = Box::new(Buffer([0; 768]));
    let at = buffer.at();
    let write = || {
        for &(o, v) in &pattern {
            unsafe { *at.add(o) = v };
        }
    };
    for i in 0..(a.n)() {
        unsafe { (a.put)(at, i) };
        write();
        check(unsafe { (a.invalid)(at) }, "fit-valid", || format!("{what}: {} is valid", show(at, a.actual.0)));
    }
    for i in 0..(b.n)() {
        unsafe { (b.put)(at, i) };
        write();
        check(unsafe { (b.same)(at, i) }, "fit-changes", || format!("{what}: value {i} changed into {}", show(at, b.actual.0)));
    }
}
/// The type itself, or one of its values in memory that held something else.
pub fn one(d: &Desc) {
    let n = (d.n)();
    let i = choose(n + 1);
    let fill = if i < n { [0u8, 0xff, 0xa5][choose(3)] } else { 0 };
    log(|| format!("{}: {}", (d.name)(), if i < n { format!("value {i} over {fill:#x}") } else { "layout".into() }));
    quiet(|| if i < n { value(d, i, fill) } else { layout(d) });
    state(mix(mix(d.put as usize as u64, d.unused as usize as u64), mix(i as u64, fill as u64)));
    step();
}
