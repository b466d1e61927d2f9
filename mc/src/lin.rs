//! Linearizability of small histories.
use mcrt::*;
use std::cell::UnsafeCell;

#[derive(Clone, Debug)]
pub struct Ev<O> {
    pub inv: u64,
    pub res: u64,
    pub op: O,
}

/// What each thread did, in its order: only touched by that thread until all are done.
pub struct History<O> {
    per: Vec<UnsafeCell<Vec<Ev<O>>>>,
}
impl<O: Clone + core::fmt::Debug + 'static> History<O> {
    pub fn new(threads: usize) -> &'static Self {
        quiet(|| Box::leak(Box::new(History { per: (0..threads).map(|_| UnsafeCell::new(Vec::new())).collect() })))
    }
    pub fn invoke(&self) -> u64 {
        hold_now()
    }
    pub fn respond(&self, t: usize, inv: u64, op: O) {
        let res = hold_now();
        quiet(|| unsafe { &mut *self.per[t].get() }.push(Ev { inv, res, op }))
    }
    /// Is there an order of the operations that respects real time, which `step` accepts from `init`, and
    /// after which `fin` holds?
    pub fn check<S: Clone + core::fmt::Debug>(&self, init: S, step: impl Fn(&mut S, &O) -> bool, fin: impl Fn(&S) -> bool) {
        quiet(|| {
            let evs: Vec<&[Ev<O>]> = self.per.iter().map(|c| unsafe { &*c.get() }.as_slice()).collect();
            let mut pos = vec![0; evs.len()];
            if !search(&evs, &mut pos, &init, &step, &fin) {
                let mut all: Vec<(usize, Ev<O>)> = Vec::new();
                for (t, e) in evs.iter().enumerate() {
                    for e in e.iter() {
                        all.push((t + 1, e.clone()));
                    }
                }
                all.sort_by_key(|(_, e)| e.inv);
                let l: Vec<String> = all.iter().map(|(t, e)| format!("T{t}[{}-{}] {:?}", e.inv, e.res, e.op)).collect();
                fail("not-atomic", format!("no order of the operations explains the results: {}", l.join("; ")))
            }
        })
    }
}
fn search<O, S: Clone>(
    evs: &[&[Ev<O>]],
    pos: &mut Vec<usize>,
    s: &S,
    step: &impl Fn(&mut S, &O) -> bool,
    fin: &impl Fn(&S) -> bool,
) -> bool {
    let mut done = true;
    for t in 0..evs.len() {
        let Some(e) = evs[t].get(pos[t]) else { continue };
        done = false;
        // Nothing pending may have responded before this was invoked.
        if (0..evs.len()).any(|u| u != t && evs[u].get(pos[u]).map_or(false, |f| f.res < e.inv)) {
            continue;
        }
        let mut n = s.clone();
        if step(&mut n, &e.op) {
            pos[t] += 1;
            if search(evs, pos, &n, step, fin) {
                return true;
            }
            pos[t] -= 1;
        }
    }
    done && fin(s)
}
