//! C07: imported functions are checked before their first use.
use mcrt::*;
use stabby::abi::checked_import::{CanariedImport, CheckedImport};
use stabby::abi::report::TypeReport;
use stabby::abi::IStable;
use stabby_mc::P;

static LOCAL: &TypeReport = <u64 as IStable>::REPORT;
static OTHER: &TypeReport = <u32 as IStable>::REPORT;

unsafe extern "C" fn report_ok() -> &'static TypeReport {
    LOCAL
}
unsafe extern "C" fn report_ko() -> &'static TypeReport {
    OTHER
}
/// What an exporter does: hands its function out if the reports agree.
#[allow(improper_ctypes_definitions)]
unsafe extern "C" fn check_ok(r: &TypeReport) -> Option<P> {
    mark(0xC4EC);
    r.is_compatible(LOCAL).then(|| P::new(77))
}
#[allow(improper_ctypes_definitions)]
unsafe extern "C" fn check_ko(r: &TypeReport) -> Option<P> {
    mark(0xC4ED);
    r.is_compatible(OTHER).then(|| P::new(78))
}

fn user(c: &'static CheckedImport<P>, ok: bool, n: usize) {
    let mut first: Option<u32> = None;
    for _ in 0..n {
        match c.as_ref() {
            Ok(p) => {
                check(ok, "unchecked", || "an import whose report does not match was handed out".into());
                check(p.read() == 77, "value", || format!("the import reads {}", p.read()));
                let id = p.id;
                match first {
                    None => first = Some(id),
                    Some(f) => check(f == id, "changed", || format!("the import changed from object {f} to {id}")),
                }
            }
            Err(e) => {
                check(!ok, "refused", || "an import whose report matches was refused".into());
                check(core::ptr::eq(e.local, LOCAL) && core::ptr::eq(e.loaded, OTHER), "report", || {
                    format!("the mismatch reports {} against {}", e.local, e.loaded)
                });
            }
        }
    }
}
fn checked(threads: usize) {
    let b = bounds();
    let ok = choose(2) == 0;
    let c: &'static CheckedImport<P> = Box::leak(Box::new(if ok {
        CheckedImport::new(check_ok, report_ok, LOCAL)
    } else {
        CheckedImport::new(check_ko, report_ko, LOCAL)
    }));
    let uses: Vec<usize> = (0..threads).map(|_| 1 + choose(b.depth)).collect();
    log(|| format!("reports match: {ok}; uses per thread: {uses:?}"));
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for n in uses {
        fs.push(Box::new(move || user(c, ok, n)));
    }
    par(fs);
    user(c, ok, 1);
    drop(unsafe { Box::from_raw((c as *const CheckedImport<P>).cast_mut()) });
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn deref() {
    let ok = choose(2) == 0;
    let c: &'static CheckedImport<P> = Box::leak(Box::new(if ok {
        CheckedImport::new(check_ok, report_ok, LOCAL)
    } else {
        CheckedImport::new(check_ko, report_ko, LOCAL)
    }));
    for _ in 0..2 {
        let r = catch(|| c.read());
        match r {
            Ok(v) => check(ok && v == 77, "unchecked", || format!("using an import gave {v}, reports match: {ok}")),
            Err(_) => check(!ok, "refused", || "using an import whose report matches panicked".into()),
        }
    }
    drop(unsafe { Box::from_raw((c as *const CheckedImport<P>).cast_mut()) });
    check_no_object_leak("value-leak");
    forgive_leaks();
}

/// The canary call: it completes when it says so.
extern "C" fn canary() {
    // Takes a while: others may run in the middle of it.
    static WORK: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
    std::hint::black_box(&WORK).store(0, core::sync::atomic::Ordering::Relaxed);
    mark(0xCA);
    hold_begin();
}
fn canaried(threads: usize) {
    let b = bounds();
    let c: &'static CanariedImport<P> = Box::leak(Box::new(CanariedImport::new(P::new(5), canary)));
    let uses: Vec<usize> = (0..threads).map(|_| 1 + choose(b.depth)).collect();
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for n in uses {
        fs.push(Box::new(move || {
            for _ in 0..n {
                let p: &P = c;
                check(held_since(hold_now()), "canary", || "an import was handed out before its canaries were checked".into());
                check(p.read() == 5, "value", || "wrong import".into());
            }
        }));
    }
    par(fs);
    drop(unsafe { Box::from_raw((c as *const CanariedImport<P>).cast_mut()) });
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
fn checked1() { checked(1) }
fn checked2() { checked(2) }
fn checked3() { checked(3) }
fn canaried1() { canaried(1) }
fn canaried2() { canaried(2) }
fn canaried3() { canaried(3) }

fn main() {
    const B: Bounds = Bounds::CONC.split(4).preempt(3).stale(2);
    mcrt::main(&Prop {
        id: "C07",
        title: "An imported function is checked before anyone can call it",
        assumptions: &["the exporter's answer to a given report does not change during the program"],
        scenarios: vec![
            Scenario { name: "checked-1", about: "one thread", quick: Some(B.depth(3)), thorough: B.depth(4), body: checked1 },
            Scenario { name: "deref", about: "use through dereference", quick: Some(Bounds::SEQ.depth(1)), thorough: Bounds::SEQ.depth(1), body: deref },
            Scenario { name: "checked-2", about: "two threads racing for the first use", quick: Some(B.depth(2)), thorough: B.depth(3).preempt(5).stale(3), body: checked2 },
            Scenario { name: "checked-3", about: "three threads racing for the first use", quick: Some(B.depth(1).preempt(2).stale(1)), thorough: B.depth(2).preempt(3).stale(2), body: checked3 },
            Scenario { name: "canaried-1", about: "one thread", quick: Some(B.depth(2)), thorough: B.depth(3), body: canaried1 },
            Scenario { name: "canaried-2", about: "two threads racing for the first use", quick: Some(B.depth(2)), thorough: B.depth(3).preempt(5), body: canaried2 },
            Scenario { name: "canaried-3", about: "three threads racing for the first use", quick: Some(B.depth(1)), thorough: B.depth(2), body: canaried3 },
        ],
    })
}
