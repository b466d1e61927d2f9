//! C26: futures and wakers cross the boundary unchanged.
use core::future::Future as _;
use core::marker::PhantomData;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use mcrt::*;
use stabby::abi::vtable::IConstConstructor;
use stabby::abi::enums::IDeterminantProvider;
use stabby::abi::future::{MaybeResolved, StableWaker};
use stabby::alloc::boxed::Box as SBox;
use stabby::alloc::DefaultAllocator;
use stabby::Dyn;
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, P, ZAlloc};

// ---------------------------------------------------------------- the executor's wakers
const TASKS: usize = 2;
const THREADS: usize = 8;
/// How often each thread woke each task.
static mut WAKES: [[u64; TASKS]; THREADS] = [[0; TASKS]; THREADS];
/// What it should have been.
static mut WANTED: [[u64; TASKS]; THREADS] = [[0; TASKS]; THREADS];
fn at(a: *mut [[u64; TASKS]; THREADS], task: usize) -> *mut u64 {
    let (t, n) = (thread(), task);
    unsafe { core::ptr::addr_of_mut!((*a)[t][n]) }
}
fn woke(task: usize) {
    unsafe { *at(&raw mut WAKES, task) += 1 }
}
fn wanted(task: usize) {
    unsafe { *at(&raw mut WANTED, task) += 1 }
}
fn check_wakes() {
    for task in 0..TASKS {
        let (got, want) = unsafe { (*at(&raw mut WAKES, task), *at(&raw mut WANTED, task)) };
        check(got == want, "wakes", || format!("task {task} was woken {got} times instead of {want}"));
    }
}
/// What the executor's wakers point to: each clone has its own.
struct Handle {
    id: u32,
    task: usize,
}
impl Handle {
    fn waker(task: usize) -> Waker {
        let h = Box::new(Handle { id: obj_new(), task });
        unsafe { Waker::from_raw(RawWaker::new(Box::into_raw(h) as *const (), &VTABLE)) }
    }
}
static VTABLE: RawWakerVTable = RawWakerVTable::new(h_clone, h_wake, h_wake_by_ref, h_drop);
unsafe fn h_get<'a>(p: *const ()) -> &'a Handle {
    let h = unsafe { &*(p as *const Handle) };
    touch(p as usize, core::mem::size_of::<Handle>(), false);
    obj_use(h.id);
    h
}
unsafe fn h_clone(p: *const ()) -> RawWaker {
    let h = unsafe { h_get(p) };
    let h = Box::new(Handle { id: obj_new(), task: h.task });
    RawWaker::new(Box::into_raw(h) as *const (), &VTABLE)
}
unsafe fn h_wake(p: *const ()) {
    unsafe {
        h_wake_by_ref(p);
        h_drop(p);
    }
}
unsafe fn h_wake_by_ref(p: *const ()) {
    woke(unsafe { h_get(p) }.task);
}
unsafe fn h_drop(p: *const ()) {
    obj_drop(unsafe { h_get(p) }.id);
    drop(unsafe { Box::from_raw(p as *mut Handle) });
}

// ---------------------------------------------------------------- the futures
/// The state of the world, as known to the futures.
struct World {
    /// Wakers that were kept, and the task they're to wake.
    kept: Vec<(Waker, usize)>,
    /// The task being polled for.
    task: usize,
    /// Polls that reached a future.
    polls: u64,
    /// What the last one answered.
    ready: Option<u64>,
    next: u64,
    /// What the futures do with their wakers.
    acts: usize,
    /// Whether futures know how to finish.
    finish: bool,
}
static mut WORLD: *mut World = core::ptr::null_mut();
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
fn with_world(acts: usize, body: impl FnOnce()) {
    unsafe {
        *(&raw mut WAKES) = [[0; TASKS]; THREADS];
        *(&raw mut WANTED) = [[0; TASKS]; THREADS];
        WORLD = quiet(|| Box::into_raw(Box::new(World { kept: Vec::with_capacity(16), task: 0, polls: 0, ready: None, next: 10, acts, finish: true })));
    }
    body();
    unsafe {
        let w = core::mem::replace(&mut *(&raw mut WORLD), core::ptr::null_mut());
        let w = *Box::from_raw(w);
        drop(w.kept);
    }
    check_no_object_leak("leak");
    check_no_leak("memory-leak");
}

/// Uses the waker a future was given.
fn acts(w: &Waker) {
    let me = world();
    for i in 0..me.acts {
        let task = me.task;
        match choose(if i == 0 { 7 } else { 6 }) {
            0 => break,
            1 => {
                log(|| "  wake by reference".into());
                wanted(task);
                w.wake_by_ref();
            }
            2 => {
                log(|| "  keep a clone".into());
                if me.kept.len() == 4 {
                    discard();
                }
                let w = w.clone();
                me.kept.push((w, task));
            }
            3 => {
                log(|| "  wake a clone".into());
                wanted(task);
                w.clone().wake();
            }
            4 => {
                log(|| "  keep a clone of a clone".into());
                if me.kept.len() == 4 {
                    discard();
                }
                let first = w.clone();
                let second = first.clone();
                drop(first);
                me.kept.push((second, task));
            }
            5 => {
                log(|| "  wake two clones".into());
                let first = w.clone();
                let second = w.clone();
                wanted(task);
                first.wake();
                wanted(task);
                second.wake_by_ref();
                drop(second);
            }
            _ => {
                log(|| "  replace a kept waker".into());
                let Some((old, t)) = me.kept.first_mut() else { discard() };
                // As futures do; whether it's cloned depends on `will_wake`.
                if !old.will_wake(w) {
                    *old = w.clone();
                } else {
                    check(*t == task, "will-wake", || format!("a waker of task {t} claims to wake task {task}"));
                }
                *t = task;
            }
        }
        check_wakes();
    }
}

/// A future that does whatever the explorer chooses.
#[stabby::stabby]
struct Fut<O> {
    p: P,
    /// Where it was first polled.
    place: usize,
    done: bool,
    out: PhantomData<O>,
}
/// One without any niche but in its only byte.
#[stabby::stabby]
struct Small<O> {
    done: bool,
    out: PhantomData<O>,
}
trait Body: Unpin {
    fn mk() -> Self;
}
impl<O> Unpin for Fut<O> {}
impl<O> Body for Fut<O> {
    fn mk() -> Self {
        Fut { p: P::new(77), place: 0, done: false, out: PhantomData }
    }
}
impl<O> Unpin for Small<O> {}
impl<O> Body for Small<O> {
    fn mk() -> Self {
        Small { done: false, out: PhantomData }
    }
}
/// What a poll answers.
fn answer<O: Elem>(done: &mut bool) -> Poll<O> {
    let me = world();
    check(!*done, "polled-after-completion", || "a future was polled once more after it finished".into());
    me.polls += 1;
    if me.finish && choose(2) == 1 {
        *done = true;
        let v = me.next;
        me.next += 1;
        me.ready = Some(v);
        log(|| format!("  ready with {v}"));
        Poll::Ready(O::make(v))
    } else {
        me.ready = None;
        log(|| "  pending".into());
        Poll::Pending
    }
}
impl<O: Elem> core::future::Future for Fut<O> {
    type Output = O;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        let this = unsafe { Pin::get_unchecked_mut(self) };
        let here = this as *mut Self as usize;
        check(this.p.read() == 77, "future", || "a future isn't what it was".into());
        if this.place == 0 {
            this.place = here;
        }
        check(this.place == here, "pinned", || "a future moved between polls".into());
        acts(cx.waker());
        answer(&mut this.done)
    }
}
impl<O: Elem> core::future::Future for Small<O> {
    type Output = O;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        acts(cx.waker());
        answer(unsafe { &mut Pin::get_unchecked_mut(self).done })
    }
}
/// A future around another.
struct Wrap<F> {
    p: P,
    f: F,
}
impl<F: core::future::Future + Unpin> core::future::Future for Wrap<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        check(self.p.read() == 78, "future", || "a future isn't what it was".into());
        Pin::new(&mut self.f).poll(cx)
    }
}

// ---------------------------------------------------------------- the driver
/// Uses the wakers that were kept.
fn use_kept() -> bool {
    let me = world();
    if me.kept.is_empty() {
        return false;
    }
    let i = choose(me.kept.len());
    let task = me.kept[i].1;
    match choose(4) {
        0 => {
            log(|| format!("wake {i} by reference"));
            wanted(task);
            me.kept[i].0.wake_by_ref();
        }
        1 => {
            log(|| format!("wake {i}"));
            wanted(task);
            me.kept.remove(i).0.wake();
        }
        2 => {
            log(|| format!("drop {i}"));
            drop(me.kept.remove(i));
        }
        _ => {
            if me.kept.len() == 4 {
                discard();
            }
            log(|| format!("clone {i}"));
            let w = me.kept[i].0.clone();
            me.kept.push((w, task));
        }
    }
    check_wakes();
    true
}
fn poll_once<O: Elem, F: core::future::Future<Output = O> + Unpin>(f: &mut F, own: Option<u64>) -> bool {
    let me = world();
    me.task = choose(TASKS);
    let (before, task) = (me.polls, me.task);
    log(|| format!("poll for task {task}"));
    let waker = Handle::waker(me.task);
    me.ready = None;
    let got = Pin::new(f).poll(&mut Context::from_waker(&waker));
    drop(waker);
    let (reached, want) = match own {
        Some(v) => (0, Some(v)),
        None => (1, world().ready),
    };
    check(world().polls == before + reached, "polls", || format!("a poll reached the future {} times instead of {reached}", world().polls - before));
    check_wakes();
    match (got, want) {
        (Poll::Pending, None) => false,
        (Poll::Ready(v), Some(w)) => {
            let (v, w) = (v.val(), { let e = O::make(w); let r = e.val(); drop(e); r });
            check(v == w, "output", || format!("the output is {v} instead of {w}"));
            true
        }
        (Poll::Pending, Some(_)) => fail("output", "an output was lost".into()),
        (Poll::Ready(_), None) => fail("output", "a pending future delivered an output".into()),
    }
}
/// Polls a future some number of times, uses wakers between polls, and drops it at any point.
fn drive<O: Elem, F: core::future::Future<Output = O> + Unpin>(f: F) {
    let mut f = Some(f);
    let mut done = false;
    let mut moved = false;
    for i in 0..bounds().depth {
        match choose(if i == 0 { 3 } else { 5 }) {
            0 => break,
            1 => {
                if done {
                    discard();
                }
                let Some(f) = f.as_mut() else { discard() };
                done = poll_once::<O, F>(f, None);
            }
            2 => {
                log(|| "drop the future".into());
                if f.take().is_none() {
                    discard();
                }
            }
            3 => {
                if !use_kept() {
                    discard();
                }
            }
            _ => {
                if moved {
                    discard();
                }
                moved = true;
                log(|| "move the trait object".into());
                let Some(x) = f.take() else { discard() };
                let b = Box::new(x);
                f = Some(*b);
            }
        }
        step();
    }
    drop(f);
}
fn output<O: Elem>(depth_acts: usize, f: impl FnOnce()) {
    O::begin();
    with_world(depth_acts, f);
    O::finish();
}
type Vf<O> = stabby::abi::vtable::VTable<stabby::abi::future::StabbyVtableFuture<O>, stabby::abi::vtable::VtDrop>;
type VfS<O> = stabby::abi::vtable::VtSend<Vf<O>>;
type VfY<O> = stabby::abi::vtable::VtSync<Vf<O>>;
type VfSY<O> = stabby::abi::vtable::VtSync<VfS<O>>;
type VfYS<O> = stabby::abi::vtable::VtSend<VfY<O>>;
type D0<O> = Dyn<'static, SBox<()>, Vf<O>>;
type DS<O> = Dyn<'static, SBox<()>, VfS<O>>;
type DSY<O> = Dyn<'static, SBox<()>, VfSY<O>>;
type DYS<O> = Dyn<'static, SBox<()>, VfYS<O>>;

macro_rules! program {
    ($V: ident, $O: ty, $F: ident) => {
        output::<$O>(bounds().width, || {
            let f: Dyn<'static, SBox<()>, $V<$O>> = SBox::new($F::<$O>::mk()).into();
            drive::<$O, _>(f)
        })
    };
}
macro_rules! warm {
    ($V: ident, $O: ty, $F: ident) => {
        intern::<$V<$O>, _>($F::<$O>::mk)
    };
}
/// Vtables are interned forever, by allocations that aren't any execution's.
fn intern<V: IConstConstructor<'static, T> + 'static, T: 'static>(_: impl Fn() -> T) {
    let _ = <V as IConstConstructor<'static, T>>::vtable();
}
macro_rules! outputs {
    ($V: ident) => {{
        let n = choose(11);
        log(|| format!("output type {n}"));
        match n {
            0 => program!($V, P, Fut),
            1 => program!($V, u8, Fut),
            2 => program!($V, core::num::NonZeroU8, Fut),
            3 => program!($V, Aligned, Fut),
            4 => program!($V, Aligned16, Fut),
            5 => program!($V, Zst, Fut),
            6 => program!($V, Nz, Fut),
            7 => program!($V, Wide, Fut),
            8 => program!($V, NonXU8<3>, Fut),
            9 => program!($V, SBox<P>, Fut),
            _ => program!($V, P, Small),
        }
    }};
}
macro_rules! warm_all {
    ($V: ident) => {{
        warm!($V, P, Fut);
        warm!($V, u8, Fut);
        warm!($V, core::num::NonZeroU8, Fut);
        warm!($V, Aligned, Fut);
        warm!($V, Aligned16, Fut);
        warm!($V, Zst, Fut);
        warm!($V, Nz, Fut);
        warm!($V, Wide, Fut);
        warm!($V, NonXU8<3>, Fut);
        warm!($V, SBox<P>, Fut);
        warm!($V, P, Small);
    }};
}
use stabby::abi::num::NonXU8;

fn other_pointers() {
    match choose(4) {
        0 => output::<P>(bounds().width, || {
            let f: Dyn<'static, SBox<(), CkAlloc>, Vf<P>> = SBox::new_in(Fut::<P>::mk(), CkAlloc::make()).into();
            drive::<P, _>(f)
        }),
        1 => output::<P>(bounds().width, || {
            let f: Dyn<'static, SBox<(), ZAlloc>, VfSY<P>> = SBox::new_in(Fut::<P>::mk(), ZAlloc::default()).into();
            drive::<P, _>(f)
        }),
        2 => output::<P>(bounds().width, || {
            let mut f = Fut::<P>::mk();
            {
                let f: Dyn<'_, &mut (), Vf<P>> = (&mut f).into();
                drive::<P, _>(f);
            }
            check(f.p.read() == 77, "future", || "a borrowed future did not survive its trait object".into());
        }),
        _ => output::<P>(bounds().width, || {
            let f: stabby::dynptr!(SBox<dyn stabby::future::Future<Output = P> + Send + Sync>) = SBox::new(Fut::<P>::mk()).into();
            let f: stabby::future::DynFuture<'static, P> = f;
            drive::<P, _>(f)
        }),
    }
}
fn wrap1() -> Wrap<DSY<P>> {
    Wrap { p: P::new(78), f: SBox::new(Fut::<P>::mk()).into() }
}
fn wrap2() -> Wrap<DS<P>> {
    Wrap { p: P::new(78), f: SBox::new(wrap1()).into() }
}
fn awaits() -> impl core::future::Future<Output = P> + Send + Sync {
    let f: DSY<P> = SBox::new(Fut::<P>::mk()).into();
    async move {
        let p = P::new(3);
        let v = f.await;
        p.read();
        v
    }
}
fn nested() {
    output::<P>(bounds().width, || match choose(3) {
        0 => drive::<P, D0<P>>(SBox::new(wrap1()).into()),
        1 => drive::<P, DYS<P>>(SBox::new(awaits()).into()),
        _ => drive::<P, DS<P>>(SBox::new(wrap2()).into()),
    })
}
fn keeper() -> Keeper {
    Keeper { p: P::new(77) }
}
fn warm_up() {
    warm_all!(Vf);
    warm_all!(VfS);
    warm_all!(VfY);
    warm_all!(VfSY);
    warm_all!(VfYS);
    intern::<Vf<P>, _>(wrap1);
    intern::<VfS<P>, _>(wrap1);
    intern::<VfS<P>, _>(wrap2);
    intern::<VfYS<P>, _>(awaits);
    intern::<VfSY<P>, _>(keeper);
}

/// Polls straight through a stable waker, in any allocator.
fn direct<A: stabby::abi::alloc::IAlloc + Default>() {
    output::<P>(bounds().width, || {
        let mut f = Fut::<P>::mk();
        let mut done = false;
        for _ in 0..bounds().depth {
            match choose(3) {
                0 => break,
                1 => {
                    if done {
                        discard();
                    }
                    let me = world();
                    me.task = choose(TASKS);
                    let before = me.polls;
                    log(|| "poll".into());
                    let waker = Handle::waker(me.task);
                    let got = StableWaker::<A>::from(&waker).with_waker(|w| Pin::new(&mut f).poll(&mut Context::from_waker(w)));
                    drop(waker);
                    check(world().polls == before + 1, "polls", || "a poll was repeated or lost".into());
                    check_wakes();
                    if let Poll::Ready(v) = got {
                        v.read();
                        done = true;
                    }
                }
                _ => {
                    if !use_kept() {
                        discard();
                    }
                }
            }
            step();
        }
    })
}

// ---------------------------------------------------------------- futures that may be resolved
fn maybe<O: Elem + stabby::IStable + Unpin, F: core::future::Future<Output = O> + Unpin + stabby::IStable>(f: impl FnOnce() -> F)
where
    stabby::result::Result<(), F>: stabby::IStable,
    O: IDeterminantProvider<stabby::result::Result<(), F>>,
    (): IDeterminantProvider<F>,
{
    output::<O>(1, || {
        let mut own = None;
        let mut empty = false;
        let f = match choose(3) {
            0 => {
                log(|| "resolved with 5".into());
                own = Some(5);
                MaybeResolved::<O, F>::Resolved(O::make(5))
            }
            1 => {
                log(|| "pending".into());
                MaybeResolved::<O, F>::Pending(f())
            }
            _ => {
                log(|| "empty".into());
                empty = true;
                MaybeResolved::<O, F>::Empty()
            }
        };
        let mut f = quiet_box(f);
        for i in 0..bounds().depth {
            match choose(if i == 0 { 2 } else { 3 }) {
                0 => break,
                1 => {
                    if empty {
                        // Nothing left to say, and nobody to ask.
                        let before = world().polls;
                        let waker = Handle::waker(0);
                        let got = Pin::new(&mut *f).poll(&mut Context::from_waker(&waker));
                        drop(waker);
                        check(world().polls == before, "polled-after-completion", || "a future that had finished was polled".into());
                        if let Poll::Ready(v) = got {
                            let v = v.val();
                            fail("output", format!("an output ({v}) was delivered again"));
                        }
                    } else {
                        let from = own.is_some();
                        empty = poll_once::<O, _>(&mut *f, own.take());
                        check(empty || !from, "output", || "an output that was there wasn't delivered".into());
                    }
                    let kind = f.match_ref(|_| 0, || 1, |_| 2);
                    let want = if empty { 1 } else if own.is_some() { 0 } else { 2 };
                    check(kind == want, "state", || format!("the future is in state {kind} instead of {want}"));
                }
                _ => {
                    if !use_kept() {
                        discard();
                    }
                }
            }
            step();
        }
        drop(f);
    })
}
fn quiet_box<T>(t: T) -> Box<T> {
    Box::new(t)
}
fn resolved() {
    let n = choose(9);
    log(|| format!("types {n}"));
    match n {
        0 => maybe::<P, Fut<P>>(|| Fut::mk()),
        1 => maybe::<u8, Fut<u8>>(|| Fut::mk()),
        2 => maybe::<u8, Small<u8>>(|| Small::mk()),
        3 => maybe::<Nz, Small<Nz>>(|| Small::mk()),
        4 => maybe::<Wide, Fut<Wide>>(|| Fut::mk()),
        5 => maybe::<Wide, Small<Wide>>(|| Small::mk()),
        6 => maybe::<core::num::NonZeroU8, Fut<core::num::NonZeroU8>>(|| Fut::mk()),
        7 => maybe::<P, DSY<P>>(|| SBox::new(Fut::<P>::mk()).into()),
        _ => maybe::<SBox<P>, D0<SBox<P>>>(|| SBox::new(Fut::<SBox<P>>::mk()).into()),
    }
}

// ---------------------------------------------------------------- wakers in several threads
/// What a thread does with a waker of its own and one it shares.
fn busy(own: Waker, shared: &Waker, n: usize) {
    let mut mine = Vec::with_capacity(8);
    mine.push(own);
    for _ in 0..n {
        match choose(6) {
            0 => break,
            1 => {
                wanted(0);
                shared.wake_by_ref();
            }
            2 => mine.push(shared.clone()),
            3 => {
                let Some(w) = mine.last() else { discard() };
                wanted(0);
                w.wake_by_ref();
            }
            4 => {
                let Some(w) = mine.pop() else { discard() };
                wanted(0);
                w.wake();
            }
            _ => {
                let Some(w) = mine.pop() else { discard() };
                drop(w);
            }
        }
    }
    drop(mine);
    check_wakes();
}
struct Kept(*const Waker);
unsafe impl Send for Kept {}
/// A future keeps a waker, which threads use while it's dropped, polled again, or gone.
fn threads() {
    with_world(0, || {
        let b = bounds();
        let mut f: DSY<P> = SBox::new(keeper()).into();
        let waker = Handle::waker(0);
        let got = Pin::new(&mut f).poll(&mut Context::from_waker(&waker));
        check(matches!(got, Poll::Pending), "output", || "nothing was due".into());
        drop(waker);
        let me = world();
        let (shared, _) = me.kept.pop().unwrap();
        let shared = Box::new(shared);
        let p: *const Waker = &*shared;
        let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
        let which = choose(3);
        for i in 0..2 {
            let own = if i == 0 { Waker::clone(&shared) } else { me.kept.pop().unwrap().0 };
            let k = Kept(p);
            let n = b.depth - (which == 2 && i == 1) as usize;
            fs.push(Box::new(move || {
                let k = k;
                busy(own, unsafe { &*k.0 }, n)
            }));
        }
        let mut f = Some(f);
        let rest = if which == 0 {
            None
        } else {
            let mut f = f.take().unwrap();
            fs.push(Box::new(move || {
                if which == 2 {
                    let waker = Handle::waker(1);
                    let got = Pin::new(&mut f).poll(&mut Context::from_waker(&waker));
                    drop(waker);
                    drop(got);
                }
                drop(f);
            }));
            Some(())
        };
        let _ = rest;
        par(fs);
        drop(f);
        drop(shared);
    })
}
/// Keeps two clones of its waker on its first poll, and finishes on the second.
struct Keeper {
    p: P,
}
impl core::future::Future for Keeper {
    type Output = P;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<P> {
        if self.p.read() == 77 {
            self.p.write(78);
            let me = world();
            me.kept.push((cx.waker().clone(), 0));
            me.kept.push((cx.waker().clone(), 0));
            Poll::Pending
        } else {
            let w = cx.waker().clone();
            wanted(1);
            w.wake_by_ref();
            wanted(1);
            w.wake();
            Poll::Ready(P::new(5))
        }
    }
}

fn main() {
    warm_up();
    const B: Bounds = Bounds::SEQ.split(4).faults(0);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: (usize, usize), t: (usize, usize)) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(q.0).width(q.1)), thorough: B.depth(t.0).width(t.1), body }
    }
    const C: Bounds = Bounds::CONC;
    mcrt::main(&Prop {
        id: "C26",
        title: "Futures and wakers cross the boundary unchanged",
        assumptions: &[
            "futures and the executor's wakers don't panic, and memory for wakers is available (a panic would abort at the boundary)",
            "the `stabby_unsafe_wakers` build, which gives the guarantee up by design, is not covered",
        ],
        scenarios: vec![
            s("plain", "dyn Future", || outputs!(Vf), (4, 1), (5, 1)),
            s("send", "dyn Future + Send", || outputs!(VfS), (4, 1), (5, 1)),
            s("sync", "dyn Future + Sync", || outputs!(VfY), (4, 1), (5, 1)),
            s("send-sync", "dyn Future + Send + Sync", || outputs!(VfSY), (4, 1), (5, 1)),
            s("sync-send", "dyn Future + Sync + Send", || outputs!(VfYS), (4, 1), (5, 1)),
            s("wakers", "histories of wakers", || program!(VfSY, P, Fut), (5, 1), (6, 1)),
            s("wakers-deep", "longer chains of wakers within a poll", || program!(VfSY, P, Fut), (2, 4), (3, 3)),
            s("other-pointers", "futures behind other pointers", other_pointers, (4, 1), (5, 1)),
            s("nested", "futures around trait objects around futures", nested, (4, 1), (5, 1)),
            s("stable-waker", "stable wakers used on their own", direct::<DefaultAllocator>, (4, 1), (6, 1)),
            s("stable-waker-alloc", "stable wakers in another allocator", direct::<CkAlloc>, (4, 1), (5, 1)),
            s("stable-waker-zalloc", "the same, one without state", direct::<ZAlloc>, (4, 1), (5, 1)),
            s("maybe-resolved", "futures that may have been resolved from the start", resolved, (4, 1), (5, 1)),
            Scenario { name: "threads", about: "wakers used by several threads", quick: Some(C.depth(2).preempt(2)), thorough: C.depth(3).preempt(4), body: threads },
        ],
    })
}
