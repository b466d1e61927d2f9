//! C02: weak handles.
use mcrt::*;
use stabby_mc::families::*;
use stabby_mc::shared_handles::*;

const OPS: &[Op] = &[Upgrade, DropS, DropW, CloneW];
const OPS3: &[Op] = &[Upgrade, DropS];
const SEQ: &[Op] = &[CloneS, DropS, Downgrade, CloneW, DropW, Upgrade];
fn arc2() { explore::<ArcF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: true }) }
fn slice2() { explore::<SliceF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: true }) }
fn str2() { explore::<StrF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: true }) }
fn dyn2() { explore::<DynF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: true }) }
fn arc3() { explore::<ArcF>(&Cfg { alphabet: OPS3, threads: 3, weak_start: true, timed: true }) }
fn slice3() { explore::<SliceF>(&Cfg { alphabet: OPS3, threads: 3, weak_start: true, timed: true }) }
fn arcs() { explore_seq::<ArcF>(SEQ, false) }
fn slices() { explore_seq::<SliceF>(SEQ, false) }
fn strs() { explore_seq::<StrF>(SEQ, false) }
fn dyns() { explore_seq::<DynF>(SEQ, false) }
fn force_seq() { explore_seq::<ForceF>(SEQ, false) }
fn force2() { explore::<ForceF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: false }) }
fn force3() { explore::<ForceF>(&Cfg { alphabet: OPS3, threads: 3, weak_start: true, timed: false }) }

fn main() {
    warm_up();
    const B: Bounds = Bounds::CONC.split(7);
    const S: Bounds = Bounds::SEQ.split(3);
    mcrt::main(&Prop {
        id: "C02",
        title: "Weak handles upgrade exactly while the value is alive",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "arc-seq", about: "one thread, against exact counts", quick: Some(S.depth(6)), thorough: S.depth(9), body: arcs },
            Scenario { name: "slice-seq", about: "one thread, against exact counts", quick: Some(S.depth(6)), thorough: S.depth(9), body: slices },
            Scenario { name: "str-seq", about: "one thread, against exact counts", quick: Some(S.depth(6)), thorough: S.depth(9), body: strs },
            Scenario { name: "dyn-seq", about: "one thread, against exact counts", quick: Some(S.depth(6)), thorough: S.depth(9), body: dyns },
            Scenario { name: "arc-2", about: "two threads over one shared value", quick: Some(B.depth(2)), thorough: B.depth(3), body: arc2 },
            Scenario { name: "slice-2", about: "two threads over one shared slice", quick: Some(B.depth(2)), thorough: B.depth(3), body: slice2 },
            Scenario { name: "str-2", about: "two threads over one shared string", quick: Some(B.depth(2)), thorough: B.depth(3), body: str2 },
            Scenario { name: "dyn-2", about: "two threads over one shared trait object", quick: Some(B.depth(2)), thorough: B.depth(3), body: dyn2 },
            Scenario { name: "arc-3", about: "three threads over one shared value", quick: Some(B.depth(1)), thorough: B.depth(2), body: arc3 },
            Scenario { name: "slice-3", about: "three threads over one shared slice", quick: Some(B.depth(1)), thorough: B.depth(2), body: slice3 },
            Scenario { name: "force-seq", about: "slices of plain data revived from weak handles", quick: Some(S.depth(6)), thorough: S.depth(8), body: force_seq },
            Scenario { name: "force-2", about: "slices of plain data revived from weak handles", quick: Some(B.depth(2)), thorough: B.depth(3), body: force2 },
            Scenario { name: "force-3", about: "slices of plain data revived from weak handles", quick: Some(B.depth(1)), thorough: B.depth(2), body: force3 },
        ],
    })
}
