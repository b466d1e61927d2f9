//! C15: the contract of allocators.
use mcrt::*;
use stabby::abi::alloc::{allocators::LibcAlloc, allocators::RustAlloc, AllocPtr, IAlloc, IStableAlloc, Layout};
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, ZAlloc};

/// Stand-ins for the C allocator: the arena while an execution is tracked, glibc's own otherwise.
mod libc_stub {
    use core::ffi::c_void;
    extern "C" {
        fn __libc_memalign(a: usize, s: usize) -> *mut c_void;
        fn __libc_realloc(p: *mut c_void, s: usize) -> *mut c_void;
        fn __libc_free(p: *mut c_void);
    }
    fn on() -> bool {
        let t = mcrt::set_tracking(false);
        mcrt::set_tracking(t);
        t
    }
    #[no_mangle]
    unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, align: usize, size: usize) -> i32 {
        if !align.is_power_of_two() || align % 8 != 0 {
            return 22;
        }
        if !on() {
            *out = __libc_memalign(align, size);
            return if (*out).is_null() { 12 } else { 0 };
        }
        let p = if size > isize::MAX as usize || mcrt::fault() { core::ptr::null_mut() } else { mcrt::arena_alloc(size, align) };
        if p.is_null() {
            return 12;
        }
        *out = p.cast();
        0
    }
    #[no_mangle]
    unsafe extern "C" fn realloc(p: *mut c_void, size: usize) -> *mut c_void {
        if !mcrt::in_arena(p as usize) {
            return __libc_realloc(p, size);
        }
        let Some((old, _)) = mcrt::arena_block(p.cast()) else {
            mcrt::fail("bad-realloc", "realloc of a pointer that is not the start of a live block".into())
        };
        if size > isize::MAX as usize || mcrt::fault() {
            return core::ptr::null_mut();
        }
        let n = mcrt::arena_alloc(size, 16);
        if !n.is_null() {
            core::ptr::copy_nonoverlapping(p.cast::<u8>(), n, old.min(size));
            mcrt::arena_free(p.cast());
        }
        n.cast()
    }
    #[no_mangle]
    unsafe extern "C" fn free(p: *mut c_void) {
        if mcrt::in_arena(p as usize) {
            mcrt::arena_free(p.cast())
        } else {
            __libc_free(p)
        }
    }
}

struct Block {
    p: *mut u8,
    size: usize,
    align: usize,
    tag: u8,
}
fn byte(tag: u8, i: usize) -> u8 {
    tag.wrapping_mul(37).wrapping_add(i as u8)
}
fn fill(b: &Block, from: usize) {
    touch(b.p as usize, b.size, true);
    for i in from..b.size {
        unsafe { *b.p.add(i) = byte(b.tag, i) }
    }
}
fn intact(bs: &[Block]) {
    for b in bs {
        check(range_live(b.p as usize, b.size), "block", || format!("a block of {} bytes is not within allocated memory", b.size));
        for i in 0..b.size {
            let x = unsafe { *b.p.add(i) };
            check(x == byte(b.tag, i), "contents", || format!("byte {i} of a block of {} changed", b.size));
        }
    }
}
fn admit(bs: &[Block], b: &Block) {
    check(b.p as usize % b.align == 0, "alignment", || format!("{:p} is not aligned to {}", b.p, b.align));
    check(range_live(b.p as usize, b.size), "block", || format!("a block of {} bytes aligned to {} is not within allocated memory", b.size, b.align));
    for o in bs {
        check(o.p as usize + o.size <= b.p as usize || b.p as usize + b.size <= o.p as usize, "overlap", || "two blocks overlap".into());
    }
}
const HUGE: [usize; 4] = [isize::MAX as usize - 64, isize::MAX as usize, isize::MAX as usize + 9, usize::MAX - 8];

trait Under {
    fn make() -> Self;
    fn alloc(&mut self, l: Layout) -> *mut ();
    unsafe fn free(&mut self, p: *mut ());
    unsafe fn realloc(&mut self, p: *mut (), l: Layout, n: usize) -> *mut ();
}
macro_rules! under {
    ($t: ty, $tr: ident, $make: expr) => {
        impl Under for $t {
            fn make() -> Self {
                $make
            }
            fn alloc(&mut self, l: Layout) -> *mut () {
                $tr::alloc(self, l)
            }
            #[allow(unused_unsafe)]
            unsafe fn free(&mut self, p: *mut ()) {
                unsafe { $tr::free(self, p) }
            }
            #[allow(unused_unsafe)]
            unsafe fn realloc(&mut self, p: *mut (), l: Layout, n: usize) -> *mut () {
                unsafe { $tr::realloc(self, p, l, n) }
            }
        }
    };
}
under!(LibcAlloc, IAlloc, LibcAlloc::new());
under!(RustAlloc, IAlloc, RustAlloc::new());
under!(ZAlloc, IAlloc, ZAlloc {});
/// An allocator seen through the stable trait, which forwards to the ordinary one.
struct Forwarded(CkAlloc);
impl Under for Forwarded {
    fn make() -> Self {
        Forwarded(CkAlloc::make())
    }
    fn alloc(&mut self, l: Layout) -> *mut () {
        IStableAlloc::alloc(&mut self.0, l)
    }
    unsafe fn free(&mut self, p: *mut ()) {
        IStableAlloc::free(&mut self.0, p)
    }
    unsafe fn realloc(&mut self, p: *mut (), l: Layout, n: usize) -> *mut () {
        IStableAlloc::realloc(&mut self.0, p, l, n)
    }
}
/// An allocator that only implements the stable trait, and takes its `realloc` as provided.
struct Stable {}
impl IStableAlloc for Stable {
    extern "C" fn alloc(&mut self, l: Layout) -> *mut () {
        IAlloc::alloc(&mut ZAlloc {}, l)
    }
    extern "C" fn free(&mut self, p: *mut ()) {
        arena_free(p.cast())
    }
}
under!(Stable, IStableAlloc, Stable {});

fn histories<A: Under>() {
    let b = bounds();
    let sizes: &[usize] = &[0, 1, 8, 20, 24, 40, 64, 100, 160];
    let aligns: &[usize] = &[1, 2, 4, 8, 16, 32, 64, 128, 512];
    run::<A>(b.depth, b.width, sizes, aligns, true);
}
fn long_histories<A: Under>() {
    let b = bounds();
    run::<A>(b.depth, b.width, &[1, 24, 100], &[4, 64], false);
}
fn run<A: Under>(depth: usize, width: usize, sizes: &[usize], aligns: &[usize], huge: bool) {
    set_alloc_faults(true);
    {
        let mut a = A::make();
        let mut bs: Vec<Block> = quiet(|| Vec::with_capacity(width + 1));
        let mut next = 0;
        let mut size = || if huge && choose(2) == 1 { pick(&HUGE) } else { pick(sizes) };
        for d in 0..depth {
            let f = faults_injected();
            let op = choose(1 + 2 * bs.len());
            if op == 0 {
                if bs.len() >= width || d + 1 == depth && bs.len() > 0 {
                    break;
                }
                let (size, align) = (size(), pick(aligns));
                next += 1;
                log(|| format!("alloc {size} aligned to {align}"));
                let p = a.alloc(Layout { size, align });
                let must_fail = size == 0 || size > 1 << 40 || faults_injected() > f;
                check(p.is_null() == must_fail, "refusal", || format!("allocating {size} bytes aligned to {align} {}", if p.is_null() { "failed" } else { "succeeded" }));
                if !p.is_null() {
                    let b = Block { p: p.cast(), size, align, tag: next };
                    admit(&bs, &b);
                    fill(&b, 0);
                    bs.push(b);
                }
            } else if op <= bs.len() {
                let i = op - 1;
                let (old, align, tag) = (bs[i].size, bs[i].align, bs[i].tag);
                let new = size();
                log(|| format!("realloc block {i} from {old} to {new} aligned to {align}"));
                let p = unsafe { a.realloc(bs[i].p.cast(), Layout { size: old, align }, new) };
                let must_fail = new == 0 || new > 1 << 40;
                // A refused system call may be worked around.
                check(if must_fail { p.is_null() } else { !p.is_null() || faults_injected() > f }, "refusal", || format!("reallocating {old} bytes to {new} {}", if p.is_null() { "failed" } else { "succeeded" }));
                if !p.is_null() {
                    bs.remove(i);
                    let b = Block { p: p.cast(), size: new, align, tag };
                    admit(&bs, &b);
                    for k in 0..old.min(new) {
                        let x = unsafe { *b.p.add(k) };
                        check(x == byte(tag, k), "contents", || format!("byte {k} was lost reallocating {old} bytes to {new}"));
                    }
                    fill(&b, old.min(new));
                    bs.push(b);
                }
            } else {
                let i = op - 1 - bs.len();
                log(|| format!("free block {i}"));
                let b = bs.remove(i);
                unsafe { a.free(b.p.cast()) };
                check(!range_live(b.p as usize, b.size.max(1)), "free", || "a freed block is still allocated".into());
            }
            intact(&bs);
            step();
        }
        intact(&bs);
        for b in bs {
            unsafe { a.free(b.p.cast()) };
        }
    }
    set_alloc_faults(false);
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
/// Layout arithmetic against the same arithmetic without overflow.
fn layouts() {
    let grid: Vec<usize> = quiet(|| {
        let mut g: Vec<usize> = (0..20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 1000]).collect();
        g.extend((0..10).map(|k| usize::MAX - k));
        g.extend([usize::MAX - 64, usize::MAX - 127, usize::MAX / 2, usize::MAX / 2 + 1]);
        g
    });
    let aligns = [1usize, 2, 4, 8, 16, 64, 128];
    let up = |s: u128, a: usize| s.div_ceil(a as u128) * a as u128;
    match choose(4) {
        0 => {
            let (s1, a1, a2) = (pick(&grid), pick(&aligns), pick(&aligns));
            for &s2 in &grid {
                let (l1, l2) = (Layout { size: s1, align: a1 }, Layout { size: s2, align: a2 });
                let r = l1.concat(l2);
                let al = a1.max(a2);
                // Enough for the first, then the second aligned after it: the second's own offset is its caller's business.
                let exact = up(s1 as u128 + s2 as u128, al);
                let good = if exact <= usize::MAX as u128 { r.size as u128 == exact } else { r.size as u128 > isize::MAX as u128 };
                check(r.align == al && good, "concat", || format!("{l1:?}.concat({l2:?}) = {r:?}"));
            }
            step();
        }
        1 => {
            let (s, a) = (pick(&grid), pick(&aligns));
            for na in aligns {
                let r = Layout { size: s, align: a }.realign(na);
                let exact = up(s as u128, na);
                let good = if exact <= usize::MAX as u128 { r.size as u128 == exact } else { r.size as u128 > isize::MAX as u128 };
                check(r.align == na && good, "realign", || format!("size {s} realigned to {na}: {r:?}"));
            }
            step();
        }
        2 => {
            let n = pick(&grid);
            fn one<T>(n: usize) {
                let r = Layout::array::<T>(n);
                let exact = core::mem::size_of::<T>() as u128 * n as u128;
                let good = if exact <= usize::MAX as u128 { r.size as u128 == exact } else { r.size as u128 > isize::MAX as u128 };
                check(r.align == core::mem::align_of::<T>() && good, "array", || format!("{n} of {}: {r:?}", core::any::type_name::<T>()));
                let l = Layout::of::<T>();
                check(l.size == core::mem::size_of::<T>() && l.align == core::mem::align_of::<T>(), "of", || format!("{}: {l:?}", core::any::type_name::<T>()));
            }
            one::<()>(n);
            one::<u8>(n);
            one::<u16>(n);
            one::<[u8; 3]>(n);
            one::<u64>(n);
            one::<Aligned>(n);
            one::<ZstAligned>(n);
            one::<Big<20>>(n);
            step();
        }
        _ => {
            let align = pick(&aligns);
            for off in 0..200usize {
                let p = (0x10000 + off) as *mut u8;
                let r = Layout { size: 1, align }.next_matching(p);
                check(r as usize == up(p as u128, align) as usize, "next_matching", || format!("{p:p} to {align}: {r:p}"));
            }
            step();
        }
    }
}
/// Blocks with bookkeeping in front.
fn pointers<T: Elem, A: IAlloc + Default>() {
    let b = bounds();
    {
        let mut a = A::default();
        let good = |p: &AllocPtr<T, A>, cap: usize| unsafe {
            let t = p.ptr.as_ptr();
            check(t as usize % core::mem::align_of::<T>() == 0, "alignment", || format!("elements of {} at {t:p}", T::NAME));
            check(range_live(t as usize, cap * core::mem::size_of::<T>()), "room", || format!("no room for {cap} of {}", T::NAME));
            let pre = p.prefix() as *const _ as usize;
            check(pre % 8 == 0, "alignment", || format!("bookkeeping at {pre:#x}"));
            check(p.prefix().capacity.load(core::sync::atomic::Ordering::Relaxed) == cap, "capacity", || "another capacity is recorded".into());
            check(arena_block(p.prefix().origin.as_ptr().cast()).is_some(), "origin", || "the origin is not an allocation".into());
            check(AllocSkip::<T, A>::OK, "skip", || "the bookkeeping's own offset differs".into());
            for i in 0..cap {
                core::ptr::write_bytes(t.add(i).cast::<u8>(), i as u8, core::mem::size_of::<T>());
            }
        };
        let kept = |p: &AllocPtr<T, A>, n: usize| unsafe {
            for i in 0..n * core::mem::size_of::<T>() {
                let want = (i / core::mem::size_of::<T>().max(1)) as u8;
                check(*p.ptr.as_ptr().cast::<u8>().add(i) == want, "contents", || format!("byte {i} was lost"));
            }
        };
        let caps = [0usize, 1, 2, 3, 7, 16];
        let mut cap = pick(&caps);
        let f = faults_injected();
        let Some(mut p) = AllocPtr::<T, A>::alloc_array(&mut a, cap) else {
            check(faults_injected() > f, "refusal", || "an allocation failed though nothing was refused".into());
            return;
        };
        good(&p, cap);
        for _ in 0..b.depth {
            if choose(4) == 0 {
                break;
            }
            let new = if choose(4) == 3 { pick(&HUGE) } else { pick(&caps) };
            if core::mem::size_of::<T>() == 0 && new > 100 {
                continue;
            }
            let f = faults_injected();
            match unsafe { p.realloc(&mut a, cap, new) } {
                Some(q) => {
                    check(new < 100, "refusal", || "an impossible size was granted".into());
                    kept(&q, cap.min(new));
                    p = q;
                    cap = new;
                    good(&p, cap);
                }
                None => {
                    check(faults_injected() > f || new >= 100, "refusal", || "a reallocation failed though nothing was refused".into());
                    kept(&p, cap);
                }
            }
            step();
        }
        unsafe { p.free(&mut a) };
    }
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}
struct AllocSkip<T, A>(T, A);
impl<T, A> AllocSkip<T, A> {
    const OK: bool = {
        let s = stabby::abi::alloc::AllocPrefix::<A>::skip_to::<T>();
        s % core::mem::align_of::<T>() == 0 && s >= core::mem::size_of::<stabby::abi::alloc::AllocPrefix<A>>()
    };
}
fn pointers_all() {
    macro_rules! all { ($($t: ty),*) => {{
        let n = [$(stringify!($t)),*].len();
        let k = choose(2 * n);
        let mut _i = 0;
        $(if k == _i { return pointers::<$t, CkAlloc>(); } _i += 1;)*
        $(if k == _i { return pointers::<$t, ZAlloc>(); } _i += 1;)*
    }} }
    all!(u8, Wide, Aligned16, Aligned, Big<20>, Zst, ZstAligned)
}
fn main() {
    const B: Bounds = Bounds::SEQ.split(4).faults(2);
    const fn s(name: &'static str, about: &'static str, body: fn(), q: Bounds, t: Bounds) -> Scenario {
        Scenario { name, about, quick: Some(q), thorough: t, body }
    }
    const G: Bounds = B.depth(2).width(2);
    const GT: Bounds = B.depth(3).width(2);
    const L: Bounds = B.depth(5).width(2);
    const LT: Bounds = B.depth(6).width(2).faults(3);
    mcrt::main(&Prop {
        id: "C15",
        title: "Every allocator honours the allocation contract",
        assumptions: &["the system's own allocators are replaced by ones that provide exactly what their contract promises: no extra alignment, no extra room"],
        scenarios: vec![
            s("libc", "the C library's allocator over the grid of sizes and alignments", histories::<LibcAlloc>, G, GT),
            s("libc-long", "long histories of the C library's allocator", long_histories::<LibcAlloc>, L, LT),
            s("rust", "Rust's allocator over the grid of sizes and alignments", histories::<RustAlloc>, G, GT),
            s("rust-long", "long histories of Rust's allocator", long_histories::<RustAlloc>, L, LT),
            s("provided", "reallocation as provided by default", histories::<ZAlloc>, G, GT),
            s("provided-long", "long histories with reallocation as provided by default", long_histories::<ZAlloc>, L, LT),
            s("stable", "reallocation as provided by the stable trait", histories::<Stable>, G, GT),
            s("stable-long", "long histories with reallocation as provided by the stable trait", long_histories::<Stable>, L, LT),
            s("forwarded", "an allocator used through the stable trait", histories::<Forwarded>, G, GT),
            s("layouts", "layout arithmetic over a grid that reaches the largest sizes", layouts, B, B),
            s("pointers", "blocks with bookkeeping, for elements and allocators of various shapes", pointers_all, B.depth(2), B.depth(3)),
        ],
    })
}
