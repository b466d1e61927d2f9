//! C21: declared layouts and unused bits match the real types; the matrices of types are spread over the crates next to this one.
#![recursion_limit = "512"]
#![allow(clippy::type_complexity)]
use c21_base::*;
use stabby_abi::istable::{End, IBitMask, IForbiddenValues};
use stabby_abi::{Array, Bit, Unsigned};

mod algebra;

fn go(parts: &[&[&[&[fn() -> Desc]]]]) {
    let rows: Vec<&[&[fn() -> Desc]]> = quiet(|| parts.iter().flat_map(|p| p.iter().copied()).collect());
    let row = rows[choose(rows.len())];
    let shapes = row[choose(row.len())];
    let d = shapes[choose(shapes.len())]();
    quiet(|| drop(rows));
    one(&d)
}
fn pairs() {
    go(&[c21_p0::SHAPES, c21_p1::SHAPES, c21_p2::SHAPES, c21_p3::SHAPES])
}
fn fits() {
    let rows: Vec<&[Fit]> = quiet(|| [c21_p0::FITS, c21_p1::FITS, c21_p2::FITS, c21_p3::FITS].iter().flat_map(|p| p.iter().copied()).collect());
    let row = rows[choose(rows.len())];
    let (a, b, p) = row[choose(row.len())];
    quiet(|| drop(rows));
    let (a, b) = (a(), b());
    log(|| format!("{} next to {}", (a.name)(), (b.name)()));
    quiet(|| c21_base::fits(&a, &b, p()));
    state(mix(a.name as usize as u64, b.name as usize as u64));
    step();
}
fn triples() {
    go(&[c21_t0::CUBE, c21_t1::CUBE])
}
fn main() {
    const B: Bounds = Bounds::SEQ.faults(0);
    mcrt::main(&Prop {
        id: "C21",
        title: "Declared layouts and unused bits match the real types",
        assumptions: &[
            "the leaf types and their values are representative of the ways types use their bytes",
            "what the compiler's niches look like is observed through the sizes of its options",
        ],
        scenarios: vec![
            Scenario { name: "leaves", about: "every leaf type, with its boundary values", quick: Some(B.depth(2).split(2)), thorough: B.depth(2).split(2), body: leaves::run },
            Scenario { name: "if-stable", about: "standard options and results of types with none, one and more niches", quick: Some(B.depth(1).split(1)), thorough: B.depth(1).split(1), body: leaves::dubious },
            Scenario { name: "shapes", about: "structures, enums and unions made by the attribute macro with each of its representations", quick: Some(B.depth(2).split(2)), thorough: B.depth(2).split(2), body: shapes::run },
            Scenario { name: "pairs", about: "every pair of leaves in a tuple, enums of every representation, a union and a result", quick: Some(B.depth(4).split(3)), thorough: B.depth(4).split(3), body: pairs },
            Scenario { name: "fits", about: "every leaf's niche next to every other leaf's unused bytes", quick: Some(B.depth(2).split(2)), thorough: B.depth(2).split(2), body: fits },
            Scenario { name: "triples", about: "every triple of leaves in a tuple and in nested tuples", quick: Some(B.depth(5).split(3)), thorough: B.depth(5).split(3), body: triples },
            Scenario { name: "masks", about: "the operations on masks of unused bits", quick: Some(B.depth(2).split(2)), thorough: B.depth(2).split(2), body: algebra::masks },
            Scenario { name: "forbidden", about: "the operations on sets of forbidden values, over every pair of bytes", quick: Some(B.depth(2).split(2)), thorough: B.depth(2).split(2), body: algebra::forbidden },
        ],
    })
}
