//! C20: compact sum types; the pairs of payload types are spread over the crates next to this one.
use mcrt::*;

fn go(parts: &[&[&[fn()]]]) {
    let rows: Vec<&[fn()]> = quiet(|| parts.iter().flat_map(|p| p.iter().copied()).collect());
    let row = rows[choose(rows.len())];
    let body = row[choose(row.len())];
    quiet(|| drop(rows));
    body()
}
fn matrix() {
    go(&[c20_p0::ROWS, c20_p1::ROWS, c20_p2::ROWS, c20_p3::ROWS, c20_p4::ROWS, c20_p5::ROWS])
}
fn two_steps() {
    go(&[c20_p0::ROWS])
}
fn more_left() {
    go(&[c20_p6::ROWS, c20_p7::ROWS])
}
fn more_right() {
    go(&[c20_p8::ROWS, c20_p9::ROWS])
}
fn main() {
    const B: Bounds = Bounds::SEQ.split(4).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: usize, t: usize) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(q)), thorough: B.depth(t), body }
    }
    mcrt::main(&Prop {
        id: "C20",
        title: "Compact sum types never confuse their variants or payloads",
        assumptions: &["the payload types are representative of each kind of niche: none, forbidden values of one or more bytes, ranges, padding, and those left over by inner sum types"],
        scenarios: vec![
            s("matrix", "results of every pair of 17 payload types", matrix, 1, 1),
            s("more-left", "more payload types for the first variant", more_left, 1, 1),
            s("more-right", "more payload types for the second variant", more_right, 1, 1),
            Scenario { name: "two-steps", about: "results of some of the same pairs, changed twice", quick: None, thorough: B.depth(2), body: two_steps },
            s("options", "options of 49 payload types, nested up to four deep", c20_p10::all_options, 2, 3),
            s("cells", "values that change behind a shared reference", c20_p10::all_cells, 2, 4),
            s("generated", "a generated sum type of five variants", c20_p10::generated_type, 3, 5),
        ],
    })
}
