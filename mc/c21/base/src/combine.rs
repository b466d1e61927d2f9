//! Types made of others.
use crate::*;
use core::mem::ManuallyDrop;
use stabby::result::Result as SResult;
use stabby::stabby;
use stabby::tuple::{Tuple2, Tuple3};

// A composed type's values are all combinations of those of its parts.
impl<A: Sample, B: Sample> Sample for Tuple2<A, B>
where
    Tuple2<A, B>: IStable,
{
    const PTR: bool = A::PTR || B::PTR;
    fn n() -> usize {
        A::n() * B::n()
    }
    fn make(i: usize) -> Self {
        Tuple2(A::make(i % A::n()), B::make(i / A::n()))
    }
    fn same(&self, i: usize) -> bool {
        self.0.same(i % A::n()) && self.1.same(i / A::n())
    }
}
#[stabby]
#[repr(u8)]
pub enum E8<A, B> {
    A(A),
    B(B),
    C,
}
#[stabby]
#[repr(u32)]
pub enum E32<A, B> {
    A(A),
    B(B),
    C,
}
#[stabby]
#[repr(C, u8)]
pub enum EC8<A, B> {
    A(A),
    B(B),
    C,
}
#[stabby]
#[repr(C, u16)]
pub enum EC16<A, B> {
    A(A, B),
    B { b: B, a: A },
    C,
}
macro_rules! enums {
    ($($e: ident)*) => {$(
        impl<A: Sample, B: Sample> Sample for $e<A, B>
        where
            $e<A, B>: IStable,
        {
            const PTR: bool = A::PTR || B::PTR;
            fn n() -> usize {
                A::n() + B::n() + 1
            }
            fn make(i: usize) -> Self {
                match i.checked_sub(A::n()) {
                    None => $e::A(A::make(i)),
                    Some(i) if i < B::n() => $e::B(B::make(i)),
                    _ => $e::C,
                }
            }
            fn same(&self, i: usize) -> bool {
                match (self, i.checked_sub(A::n())) {
                    ($e::A(a), None) => a.same(i),
                    ($e::B(b), Some(i)) if i < B::n() => b.same(i),
                    ($e::C, Some(i)) => i == B::n(),
                    _ => false,
                }
            }
        }
    )*};
}
enums!(E8 E32 EC8);
impl<A: Sample, B: Sample> Sample for EC16<A, B>
where
    EC16<A, B>: IStable,
{
    const PTR: bool = A::PTR || B::PTR;
    fn n() -> usize {
        2 * A::n() * B::n() + 1
    }
    fn make(i: usize) -> Self {
        let (n, m) = (A::n(), B::n());
        match i / (n * m) {
            0 => EC16::A(A::make(i % n), B::make(i / n)),
            1 => EC16::B { a: A::make(i % n), b: B::make(i / n - m) },
            _ => EC16::C,
        }
    }
    fn same(&self, i: usize) -> bool {
        let (n, m) = (A::n(), B::n());
        match (self, i / (n * m)) {
            (EC16::A(a, b), 0) => a.same(i % n) && b.same(i / n),
            (EC16::B { a, b }, 1) => a.same(i % n) && b.same(i / n - m),
            (EC16::C, 2) => true,
            _ => false,
        }
    }
}
#[stabby]
pub union U<A, B> {
    a: ManuallyDrop<A>,
    b: ManuallyDrop<B>,
}
impl<A: Sample, B: Sample> Sample for U<A, B>
where
    U<A, B>: IStable,
{
    const PTR: bool = A::PTR || B::PTR;
    fn n() -> usize {
        A::n() + B::n()
    }
    fn make(i: usize) -> Self {
        match i.checked_sub(A::n()) {
            None => U { a: ManuallyDrop::new(A::make(i)) },
            Some(i) => U { b: ManuallyDrop::new(B::make(i)) },
        }
    }
    fn same(&self, i: usize) -> bool {
        match i.checked_sub(A::n()) {
            None => unsafe { self.a.same(i) },
            Some(i) => unsafe { self.b.same(i) },
        }
    }
}
impl<A: Sample + stabby::abi::enums::IDeterminantProvider<B>, B: Sample> Sample for SResult<A, B> {
    const PTR: bool = A::PTR || B::PTR;
    fn n() -> usize {
        A::n() + B::n()
    }
    fn make(i: usize) -> Self {
        match i.checked_sub(A::n()) {
            None => SResult::Ok(A::make(i)),
            Some(i) => SResult::Err(B::make(i)),
        }
    }
    fn same(&self, i: usize) -> bool {
        self.match_ref(|a| i < A::n() && a.same(i), |b| i >= A::n() && b.same(i - A::n()))
    }
}
#[stabby]
#[repr(align(8))]
pub struct Al<A, B>(A, B);
impl<A: Sample, B: Sample> Sample for Al<A, B>
where
    Al<A, B>: IStable,
{
    const PTR: bool = A::PTR || B::PTR;
    fn n() -> usize {
        A::n() * B::n()
    }
    fn make(i: usize) -> Self {
        Al(A::make(i % A::n()), B::make(i / A::n()))
    }
    fn same(&self, i: usize) -> bool {
        self.0.same(i % A::n()) && self.1.same(i / A::n())
    }
}

impl<A: Sample, B: Sample, C: Sample> Sample for Tuple3<A, B, C>
where
    Tuple3<A, B, C>: IStable,
{
    const PTR: bool = A::PTR || B::PTR || C::PTR;
    fn n() -> usize {
        A::n() * B::n() * C::n()
    }
    fn make(i: usize) -> Self {
        let (n, m) = (A::n(), B::n());
        Tuple3(A::make(i % n), B::make(i / n % m), C::make(i / n / m))
    }
    fn same(&self, i: usize) -> bool {
        let (n, m) = (A::n(), B::n());
        self.0.same(i % n) && self.1.same(i / n % m) && self.2.same(i / n / m)
    }
}
