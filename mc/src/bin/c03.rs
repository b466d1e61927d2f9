//! C03: exclusive access.
use mcrt::*;
use stabby_mc::families::*;
use stabby_mc::shared_handles::*;

const OPS: &[Op] = &[GetMut, MakeMut, IntoInner, Downgrade, Upgrade, DropS, DropW, Read];
const OPSN: &[Op] = &[GetMut, IntoInner, Downgrade, Upgrade, DropS, DropW, Read];
const OPSD: &[Op] = &[GetMut, Downgrade, Upgrade, DropS, DropW, Read];
const OPS3: &[Op] = &[GetMut, Upgrade, Downgrade, Read];
const SEQ: &[Op] = &[CloneS, DropS, Downgrade, DropW, Upgrade, GetMut, MakeMut, IntoInner];
const SEQN: &[Op] = &[CloneS, DropS, Downgrade, DropW, Upgrade, GetMut, IntoInner];
const SEQD: &[Op] = &[CloneS, DropS, Downgrade, DropW, Upgrade, GetMut];
fn arc2() { explore::<ArcF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: false }) }
fn slice2() { explore::<SliceF>(&Cfg { alphabet: OPSN, threads: 2, weak_start: true, timed: false }) }
fn str2() { explore::<StrF>(&Cfg { alphabet: OPSN, threads: 2, weak_start: true, timed: false }) }
fn dyn2() { explore::<DynF>(&Cfg { alphabet: OPSD, threads: 2, weak_start: true, timed: false }) }
fn arc3() { explore::<ArcF>(&Cfg { alphabet: OPS3, threads: 3, weak_start: true, timed: false }) }
fn slice3() { explore::<SliceF>(&Cfg { alphabet: OPS3, threads: 3, weak_start: true, timed: false }) }
fn arcs() { explore_seq::<ArcF>(SEQ, true) }
fn slices() { explore_seq::<SliceF>(SEQN, false) }
fn strs() { explore_seq::<StrF>(SEQN, false) }
fn dyns() { explore_seq::<DynF>(SEQD, false) }
fn force_seq() { explore_seq::<ForceF>(SEQN, false) }
fn force2() { explore::<ForceF>(&Cfg { alphabet: OPSN, threads: 2, weak_start: true, timed: false }) }

fn main() {
    warm_up();
    const B: Bounds = Bounds::CONC.split(7);
    const S: Bounds = Bounds::SEQ.split(3);
    mcrt::main(&Prop {
        id: "C03",
        title: "Exclusive access to a shared value is given to its sole owner only",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "arc-seq", about: "one thread, against exact counts", quick: Some(S.depth(5)), thorough: S.depth(8), body: arcs },
            Scenario { name: "slice-seq", about: "one thread, against exact counts", quick: Some(S.depth(5)), thorough: S.depth(8), body: slices },
            Scenario { name: "str-seq", about: "one thread, against exact counts", quick: Some(S.depth(5)), thorough: S.depth(8), body: strs },
            Scenario { name: "dyn-seq", about: "one thread, against exact counts", quick: Some(S.depth(6)), thorough: S.depth(8), body: dyns },
            Scenario { name: "arc-2", about: "two threads over one shared value", quick: Some(B.depth(2)), thorough: B.depth(3), body: arc2 },
            Scenario { name: "slice-2", about: "two threads over one shared slice", quick: Some(B.depth(2)), thorough: B.depth(3), body: slice2 },
            Scenario { name: "str-2", about: "two threads over one shared string", quick: Some(B.depth(2)), thorough: B.depth(3), body: str2 },
            Scenario { name: "dyn-2", about: "two threads over one shared trait object", quick: Some(B.depth(2)), thorough: B.depth(3), body: dyn2 },
            Scenario { name: "arc-3", about: "three threads over one shared value", quick: Some(B.depth(1)), thorough: B.depth(2), body: arc3 },
            Scenario { name: "slice-3", about: "three threads over one shared slice", quick: Some(B.depth(1)), thorough: B.depth(2), body: slice3 },
            Scenario { name: "force-seq", about: "slices of plain data revived from weak handles", quick: Some(S.depth(5)), thorough: S.depth(8), body: force_seq },
            Scenario { name: "force-2", about: "slices of plain data revived from weak handles", quick: Some(B.depth(2)), thorough: B.depth(3), body: force2 },
        ],
    })
}
