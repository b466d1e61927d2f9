//! C01: shared ownership ends exactly once, after every use.
use mcrt::*;
use stabby_mc::shared_handles::*;
use stabby_mc::families::*;

const OPS: &[Op] = &[CloneS, DropS, Downgrade, CloneW, DropW, Read];
fn arc2() { explore::<ArcF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: false }) }
fn arc3() { explore::<ArcF>(&Cfg { alphabet: OPS, threads: 3, weak_start: true, timed: false }) }
fn slice2() { explore::<SliceF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: false }) }
fn str2() { explore::<StrF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: false }) }
fn dyn2() { explore::<DynF>(&Cfg { alphabet: OPS, threads: 2, weak_start: true, timed: false }) }

fn main() {
    const B: Bounds = Bounds::CONC.split(7);
    warm_up();
    mcrt::main(&Prop {
        id: "C01",
        title: "Shared values are destroyed exactly once, after every use",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "arc-2", about: "two threads over one shared value", quick: Some(B.depth(2)), thorough: B.depth(3), body: arc2 },
            Scenario { name: "slice-2", about: "two threads over one shared slice", quick: Some(B.depth(2)), thorough: B.depth(3), body: slice2 },
            Scenario { name: "str-2", about: "two threads over one shared string", quick: Some(B.depth(2)), thorough: B.depth(3), body: str2 },
            Scenario { name: "dyn-2", about: "two threads over one shared trait object", quick: Some(B.depth(2)), thorough: B.depth(3), body: dyn2 },
            Scenario { name: "arc-3", about: "three threads over one shared value", quick: Some(B.depth(1)), thorough: B.depth(2), body: arc3 },
        ],
    })
}
