use mcrt::*;
use std::sync::atomic::*;
static A: AtomicUsize = AtomicUsize::new(0);
static B: AtomicUsize = AtomicUsize::new(0);
fn sb() {
    A.store(0, Ordering::Relaxed); B.store(0, Ordering::Relaxed);
    let r: &'static [AtomicUsize;2] = Box::leak(Box::new([AtomicUsize::new(9), AtomicUsize::new(9)]));
    par(vec![Box::new(move||{A.store(1,Ordering::Relaxed); r[0].store(B.load(Ordering::Relaxed),Ordering::Relaxed)}),Box::new(move||{B.store(1,Ordering::Relaxed); r[1].store(A.load(Ordering::Relaxed),Ordering::Relaxed)})]);
    let o=(r[0].load(Ordering::Relaxed), r[1].load(Ordering::Relaxed));
    log(||format!("{o:?}"));
    outcome((o.0*2+o.1) as u64);
}
static mut X: u64 = 0;
fn mp() {
    A.store(0, Ordering::Relaxed);
    par(vec![Box::new(||{unsafe{X=3}; A.store(1,Ordering::Release);}),Box::new(||{ while A.load(if choose(2)==0 {Ordering::Acquire} else {Ordering::Relaxed})==0 { core::hint::spin_loop() } ; check(unsafe{X}==3,"x",||"x".into())})]);
}
fn uaf() { let v=vec![1u8;16]; let p=v.as_ptr(); drop(v); outcome(unsafe{*p.add(choose(3))} as u64) }
fn crash() { let p=(8+choose(3)*8) as *const u64; outcome(unsafe{*p.add(choose(3))}) }
fn pan() { if choose(3)==2 { let v: Vec<u8>=Vec::new(); outcome(v[choose(4)] as u64); } check_no_leak("leak") }
fn hang() { if choose(3)==2 { loop{std::hint::black_box(0);} } }
fn main(){ mcrt::main(&Prop{id:"C00",title:"selftest",assumptions:&[],scenarios:vec![
 Scenario{name:"sb",about:"",quick:Some(Bounds::CONC.stale(2).split(2)),thorough:Bounds::CONC,body:sb},
 Scenario{name:"mp",about:"",quick:Some(Bounds::CONC),thorough:Bounds::CONC,body:mp},
 Scenario{name:"uaf",about:"",quick:Some(Bounds::SEQ),thorough:Bounds::CONC,body:uaf},
 Scenario{name:"crash",about:"",quick:Some(Bounds::SEQ),thorough:Bounds::CONC,body:crash},
 Scenario{name:"pan",about:"",quick:Some(Bounds::SEQ),thorough:Bounds::CONC,body:pan},
 Scenario{name:"hang",about:"",quick:Some(Bounds::SEQ),thorough:Bounds::CONC,body:hang},
]})}
