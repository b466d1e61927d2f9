//! C29: borrowed views expose exactly the data they borrow.
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use mcrt::*;
use stabby::abi::num::NonXU8;
use stabby::abi::vtable::IConstConstructor;
use stabby::abi::{AccessAs, IDeterminantProvider};
use stabby::alloc::boxed::Box as SBox;
use stabby::alloc::sync::{Arc as SArc, AtomicArc};
use stabby::alloc::DefaultAllocator;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use stabby::Dyn;
use stabby_mc::elems::*;
use stabby_mc::{CkAlloc, P};

struct Feed(u64);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = mix(self.0, b as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut f = Feed(1);
    t.hash(&mut f);
    f.finish()
}
fn end() {
    check_no_object_leak("value-leak");
    check_no_leak("memory-leak");
}

// ---------------------------------------------------------------- slices
fn norm<T: Elem>(v: u64) -> u64 {
    let t = T::make(v);
    t.val()
}
/// Whether `s` is the `n` elements at `at`, which are as in `model`.
fn same<T: Elem>(s: &[T], at: *const T, model: &[u64], what: &str) {
    check(s.len() == model.len(), "length", || format!("{what}: {} elements of {}", s.len(), model.len()));
    check(s.as_ptr() == at, "address", || format!("{what}: elements are elsewhere"));
    for (x, m) in s.iter().zip(model) {
        check(x.val() == *m, "elements", || format!("{what}: {} instead of {m}", x.val()));
    }
}
enum View<'a, T> {
    Ref(&'a [T]),
    S(Slice<'a, T>),
    Mut(&'a mut [T]),
    SM(SliceMut<'a, T>),
}
fn slices<T: Elem>() {
    let n = choose(bounds().width + 1);
    let mut data: Vec<T> = Vec::with_capacity(n);
    let mut model = quiet(|| Vec::new());
    for i in 0..n {
        data.push(T::make(i as u64 + 1));
        quiet(|| model.push(norm::<T>(i as u64 + 1)));
    }
    let at = data.as_ptr();
    {
        let mut v: View<'_, T> = View::Mut(&mut data[..]);
        for _ in 0..bounds().depth {
            v = match v {
                View::Ref(r) => match choose(3) {
                    0 => View::S(Slice::new(r)),
                    1 => View::S(r.into()),
                    _ => {
                        // Part of it.
                        let i = choose(r.len() + 1);
                        let p: Slice<T> = Slice::new(&r[i..]);
                        same(&p, unsafe { at.add(i) }, &model[i..], "part of a slice");
                        let p: Slice<T> = Slice::new(&r[..i]);
                        same(&p, at, &model[..i], "part of a slice");
                        View::Ref(r)
                    }
                },
                View::S(s) => {
                    check(s.len == model.len() && s.start.as_ptr().cast_const() == at, "slice", || "a slice isn't made of what it's made from".into());
                    match choose(4) {
                        0 => {
                            same(&s, at, &model, "slice");
                            let c = s;
                            same(&c, at, &model, "copy of a slice");
                            same(&s.clone(), at, &model, "clone of a slice");
                            View::S(c)
                        }
                        1 => View::Ref(s.as_slice()),
                        2 => View::Ref(s.into()),
                        _ => {
                            let mut i = 0;
                            for x in s.iter() {
                                check(x.val() == model[i], "elements", || format!("iteration yields {}", x.val()));
                                i += 1;
                            }
                            check(i == model.len(), "elements", || "iteration is shorter".into());
                            View::S(s)
                        }
                    }
                }
                View::Mut(m) => match choose(4) {
                    0 => View::SM(m.into()),
                    1 => View::S(m.into()),
                    2 => View::Ref(m),
                    _ => {
                        {
                            let mut s: SliceMut<T> = (&mut *m).into();
                            write(&mut s, &mut model);
                        }
                        same(m, at, &model, "slice written by a view");
                        View::Mut(m)
                    }
                },
                View::SM(mut s) => {
                    check(s.len == model.len() && s.start.as_ptr().cast_const() == at, "slice", || "a slice isn't made of what it's made from".into());
                    match choose(5) {
                        0 => {
                            same(&s, at, &model, "mutable slice");
                            View::SM(s)
                        }
                        1 => {
                            write(&mut s, &mut model);
                            View::SM(s)
                        }
                        2 => View::S(s.into()),
                        3 => View::Mut(s.into()),
                        _ => View::Ref(s.into()),
                    }
                }
            };
            match &v {
                View::Ref(s) => same(s, at, &model, "reference"),
                View::S(s) => same(s, at, &model, "slice"),
                View::Mut(s) => same(s, at, &model, "mutable reference"),
                View::SM(s) => same(s, at, &model, "mutable slice"),
            }
            step();
        }
    }
    same(&data, at, &model, "the data");
    drop(data);
    quiet(|| drop(model));
}
fn write<T: Elem>(s: &mut SliceMut<T>, model: &mut [u64]) {
    if s.is_empty() {
        return;
    }
    match choose(4) {
        0 => {
            let i = choose(s.len());
            s[i].set(50);
            let t = s[i].val();
            check(T::ZST || t == norm::<T>(50), "write", || "a write isn't read".into());
            model[i] = t;
        }
        1 => {
            let (i, j) = (choose(s.len()), choose(s.len()));
            s.swap(i, j);
            model.swap(i, j);
        }
        2 => {
            s.reverse();
            model.reverse();
        }
        _ => {
            for (i, x) in s.iter_mut().enumerate() {
                *x = T::make(60 + i as u64);
                model[i] = x.val();
            }
        }
    }
}
macro_rules! of {
    ($f: ident: $($i: literal $t: ty),*) => {{
        Zst::begin();
        match choose(0 $(+ {let _ = $i; 1})*) {
            $($i => {
                log(|| format!("elements: {}", stringify!($t)));
                $f::<$t>()
            })*
            _ => unreachable!(),
        }
        Zst::finish();
        end();
    }};
}
fn compare_slices() {
    fn data() -> Vec<u8> {
        let n = choose(bounds().width + 1);
        (0..n).map(|_| choose(3) as u8).collect()
    }
    let (mut a, mut b) = (data(), data());
    let (aa, bb) = (a.clone(), b.clone());
    let (x, y) = (Slice::new(&a), Slice::new(&b));
    check((x == y) == (a == b), "eq", || format!("{a:?} and {b:?}"));
    check(hash(&x) == hash(&a[..]), "hash", || format!("{a:?}"));
    check(quiet(|| format!("{x:?}") == format!("{a:?}")), "debug", || format!("{a:?}"));
    check(x.cmp(&y) == a.cmp(&b), "cmp", || format!("{a:?} and {b:?}"));
    let (x, y): (SliceMut<u8>, SliceMut<u8>) = ((&mut a[..]).into(), (&mut b[..]).into());
    check((x == y) == (aa == bb), "eq", || format!("mutable {aa:?} and {bb:?}"));
    check(hash(&x) == hash(&aa[..]), "hash", || format!("mutable {aa:?}"));
    check(quiet(|| format!("{x:?}") == format!("{aa:?}")), "debug", || format!("mutable {aa:?}"));
    let _ = (x, y);
}

// ---------------------------------------------------------------- strings
const PIECES: [&str; 8] = ["a", "B", "\0", "é", "日", "😀", "\u{10ffff}", "\""];
fn text(width: usize) -> String {
    let mut s = String::new();
    for _ in 0..width {
        let i = choose(PIECES.len() + 1);
        if i == 0 {
            break;
        }
        s.push_str(PIECES[i - 1]);
    }
    s
}
fn same_str(v: &str, s: &str, at: *const u8, what: &str) {
    check(v.len() == s.len() && v.as_bytes() == s.as_bytes(), "string", || format!("{what}: {:?} for {s:?}", v.as_bytes()));
    check(v.as_ptr() == at, "address", || format!("{what}: a string is elsewhere"));
}
fn strings() {
    let w = bounds().width;
    let (mut a, b) = (text(w), text(w));
    let at = a.as_ptr();
    {
        let (x, y) = (Str::new(&a), Str::from(&*b));
        same_str(&x, &a, at, "new");
        same_str(x.as_str(), &a, at, "as_str");
        same_str(<&str>::from(x), &a, at, "into");
        same_str(AsRef::<str>::as_ref(&x), &a, at, "as_ref");
        same_str(&y, &b, b.as_ptr(), "from");
        let c = x;
        check(c == x && c.clone() == x, "copy", || "a copy differs".into());
        check((x == y) == (a == b), "eq", || format!("{a:?} and {b:?}"));
        check(x.partial_cmp(&y) == Some(a.cmp(&b)), "partial_cmp", || format!("{a:?} and {b:?}: {:?}", x.partial_cmp(&y)));
        check((x < y) == (a < b) && (x <= y) == (a <= b), "less", || format!("{a:?} and {b:?}"));
        check(x != y || hash(&x) == hash(&y), "hash", || format!("{a:?}"));
        check((hash(&x) == hash(&y)) == (a == b), "hash", || format!("{a:?} and {b:?} are hashed the same"));
        check(quiet(|| format!("{x:?}") == format!("{a:?}") && format!("{x}") == a && format!("{x:>5.2}") == format!("{a:>5.2}")), "format", || format!("{a:?}"));
        check(x.chars().eq(a.chars()), "chars", || format!("{a:?}"));
        check(x.partial_cmp(&x) == Some(Ordering::Equal), "partial_cmp", || format!("{a:?} and itself"));
    }
    // Mutable ones.
    let mut model = a.clone();
    {
        let mut m: StrMut = a.as_mut_str().into();
        same_str(&m, &model, at, "mutable");
        same_str(AsRef::<str>::as_ref(&m), &model, at, "mutable as_ref");
        match choose(3) {
            0 => {
                m.make_ascii_lowercase();
                model.make_ascii_lowercase();
            }
            1 => {
                m.make_ascii_uppercase();
                model.make_ascii_uppercase();
            }
            _ => {}
        }
        same_str(&m, &model, at, "written");
        match choose(3) {
            0 => same_str(&Str::from(m), &model, at, "mutable into shared"),
            1 => {
                let m: &mut str = m.into();
                same_str(m, &model, at, "mutable into reference");
                m.make_ascii_uppercase();
                model.make_ascii_uppercase();
            }
            _ => same_str(<&str>::from(m), &model, at, "mutable into shared reference"),
        }
    }
    {
        let s: Str = a.as_mut_str().into();
        same_str(&s, &model, at, "from mutable");
    }
    drop((a, b, model));
    end();
}

// ---------------------------------------------------------------- iterators
/// An iterator that yields what it's told to, and says what it's told to say of what's left.
struct Script<T> {
    items: Vec<Option<T>>,
    hints: Vec<(usize, Option<usize>)>,
    at: usize,
    hold: P,
}
static mut ASKED: usize = 0;
impl<T: Elem> Iterator for Script<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        unsafe { ASKED += 1 };
        check(self.hold.read() == 9, "state", || "another iterator is asked".into());
        let i = self.at;
        self.at += 1;
        self.items.get_mut(i)?.take()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hints[self.at.min(self.hints.len() - 1)]
    }
}
type Vi<T> = stabby::vtable!(Iterator<Item = T>);
fn script<T>() -> Script<T> {
    Script { items: Vec::new(), hints: Vec::new(), at: 0, hold: P::new(9) }
}
/// Asks a stable iterator, and compares it to what its origin was told.
fn drive<T: Elem, I: Iterator<Item = T>>(mut d: I, wants: &[Option<u64>], hints: &[(usize, Option<usize>)], ask: &mut dyn FnMut(usize)) {
    for i in 0..=wants.len() {
        let h = d.size_hint();
        check(h == hints[i.min(hints.len() - 1)], "size_hint", || format!("{h:?} for {:?}", hints[i]));
        if choose(4) == 0 {
            log(|| "dropped".into());
            break;
        }
        let before = unsafe { ASKED };
        let x = d.next();
        ask(unsafe { ASKED } - before);
        let want = wants.get(i).copied().flatten();
        check(x.is_some() == want.is_some(), "next", || format!("item {i}: {:?} for {want:?}", x.is_some()));
        if let Some(x) = x {
            check(Some(x.val()) == want, "item", || format!("item {i}: {} for {want:?}", x.val()));
        }
        step();
    }
}
fn iterators<T: Elem + IDeterminantProvider<()>>()
where
    Vi<T>: IConstConstructor<'static, Script<T>>,
{
    let n = choose(bounds().width + 1);
    let mut items = Vec::with_capacity(n);
    let mut hints = quiet(|| Vec::new());
    let mut wants = quiet(|| Vec::new());
    const HINTS: [(usize, Option<usize>); 4] = [(0, None), (3, Some(3)), (0, Some(usize::MAX)), (usize::MAX, None)];
    let hint = choose(4);
    for i in 0..n {
        let some = choose(3) != 0;
        items.push(some.then(|| T::make(i as u64 + 1)));
        quiet(|| {
            wants.push(some.then(|| norm::<T>(i as u64 + 1)));
            hints.push(HINTS[(hint + i) % 4]);
        });
    }
    quiet(|| hints.push(HINTS[(hint + n) % 4]));
    let its: Vec<_> = hints.clone();
    let it = Script { items, hints: its, at: 0, hold: P::new(9) };
    let ask = &mut |n: usize| check(n == 1, "next", || format!("one item is asked for, the iterator is asked {n} times"));
    match choose(4) {
        0 => drive::<T, _>(Dyn::<'static, SBox<()>, Vi<T>>::from(SBox::new(it)), &wants, &hints, ask),
        1 => drive::<T, _>(Dyn::<'static, SBox<(), CkAlloc>, Vi<T>>::from(SBox::new_in(it, CkAlloc::make())), &wants, &hints, ask),
        2 => {
            let b = Box::into_raw(Box::new(it));
            drive::<T, _>(Dyn::<'static, &'static mut (), Vi<T>>::from(unsafe { &mut *b }), &wants, &hints, ask);
            // (What's left is still there.)
            drop(unsafe { Box::from_raw(b) });
        }
        _ => {
            // Ordinary adapters on stable iterators.
            let d = Dyn::<'static, SBox<()>, Vi<T>>::from(SBox::new(it));
            let limit = choose(n + 1);
            let mut got = 0;
            for (i, x) in d.take(limit).enumerate() {
                let want = wants[i];
                check(Some(x.val()) == want, "item", || format!("item {i}"));
                got += 1;
            }
            let all = wants.iter().take_while(|w| w.is_some()).count().min(limit);
            check(got == all, "items", || format!("{got} items of {all}"));
        }
    }
    quiet(|| drop((hints, wants)));
}
fn intern<V: IConstConstructor<'static, T> + 'static, T: 'static>(_: impl Fn() -> T) {
    let _ = <V as IConstConstructor<'static, T>>::vtable();
}
macro_rules! warm {
    ($($t: ty),*) => {
        $(
            intern::<Vi<$t>, _>(script::<$t>);
        )*
    };
}

// ---------------------------------------------------------------- views as another type
/// What's done to an option through a guard that shows it as another.
fn options<T: Elem + stabby::IStable>()
where
    T: IDeterminantProvider<()>,
{
    let mut model = (choose(2) == 1).then(|| norm::<T>(1));
    macro_rules! program {
        ($x: ident, $Other: ty, $get: expr, $some: expr, $none: expr, $set: expr) => {{
            for i in 0..bounds().depth {
                match choose(5) {
                    0 => {
                        let g = $x.ref_as::<$Other>();
                        let v: Option<u64> = $get(&*g);
                        check(v == model, "ref_as", || format!("{v:?} is seen for {model:?}"));
                    }
                    1 => {
                        let g = $x.mut_as::<$Other>();
                        let v: Option<u64> = $get(&*g);
                        check(v == model, "mut_as", || format!("{v:?} is seen for {model:?}"));
                    }
                    2 => {
                        let mut g = $x.mut_as::<$Other>();
                        *g = $some(T::make(20 + i as u64));
                        model = $get(&*g);
                        check(model.is_some(), "mut_as", || "what's written isn't read".into());
                    }
                    3 => {
                        let mut g = $x.mut_as::<$Other>();
                        let old = core::mem::replace(&mut *g, $none);
                        let v: Option<u64> = $get(&old);
                        check(v == model, "mut_as", || format!("{v:?} is taken for {model:?}"));
                        model = None;
                        check($get(&*g) == model, "mut_as", || "what's taken is still there".into());
                        // (The order of drops may be either.)
                        if choose(2) == 0 {
                            drop(g);
                            drop(old);
                        }
                    }
                    _ => {
                        let mut g = $x.mut_as::<$Other>();
                        $set(&mut *g, 40);
                        let v: Option<u64> = $get(&*g);
                        model = model.and(v);
                    }
                }
                step();
            }
            // Another view of the same kind, of it.
            let g = $x.ref_as::<$Other>();
            check($get(&*g) == model, "ref_as", || "a change is lost".into());
        }};
    }
    let ordinary = |o: &Option<T>| o.as_ref().map(|x| x.val());
    let stable = |o: &SOption<T>| o.match_ref(|x| Some(x.val()), || None);
    match choose(2) {
        0 => {
            let mut x: Option<T> = model.map(|_| T::make(1));
            program!(x, SOption<T>, stable, |t| SOption::Some(t), SOption::None(), |o: &mut SOption<T>, v| o.match_mut(|mut x| x.set(v), || ()));
            check(ordinary(&x) == model, "mut_as", || "a change is lost".into());
        }
        _ => {
            let mut x: SOption<T> = model.map(|_| T::make(1)).into();
            program!(x, Option<T>, ordinary, |t| Some(t), None, |o: &mut Option<T>, v| {
                if let Some(x) = o {
                    x.set(v)
                }
            });
            check(stable(&x) == model, "mut_as", || "a change is lost".into());
        }
    }
}
fn results<T: Elem + stabby::IStable, E: Elem + stabby::IStable>()
where
    (T, E): Sized,
    T: IDeterminantProvider<E>,
{
    let mut model = if choose(2) == 0 { Ok(norm::<T>(1)) } else { Err(norm::<E>(1)) };
    let see = |r: &Result<T, E>| match r {
        Ok(x) => Ok(x.val()),
        Err(x) => Err(x.val()),
    };
    let stable = |r: &SResult<T, E>| r.match_ref(|x| Ok(x.val()), |x| Err(x.val()));
    let mut x: Result<T, E> = match model {
        Ok(_) => Ok(T::make(1)),
        Err(_) => Err(E::make(1)),
    };
    for i in 0..bounds().depth as u64 {
        match choose(4) {
            0 => {
                let g = x.ref_as::<SResult<T, E>>();
                check(stable(&g) == model, "ref_as", || format!("{:?} is seen for {model:?}", stable(&g)));
            }
            1 => {
                let mut g = x.mut_as::<SResult<T, E>>();
                *g = SResult::Ok(T::make(20 + i));
                model = stable(&g);
            }
            2 => {
                let mut g = x.mut_as::<SResult<T, E>>();
                *g = SResult::Err(E::make(30 + i));
                model = stable(&g);
            }
            _ => {
                // There and back.
                let mut g = x.mut_as::<SResult<T, E>>();
                let mut h = (*g).mut_as::<Result<T, E>>();
                check(see(&h) == model, "mut_as", || "another result is seen".into());
                match &mut *h {
                    Ok(t) => t.set(55),
                    Err(t) => t.set(55),
                }
                model = see(&h);
            }
        }
        check(see(&x) == model, "mut_as", || format!("{:?} for {model:?}", see(&x)));
        step();
    }
}
fn views() {
    // Slices, strings as stable ones and back.
    let data = [1u8, 2, 3];
    let n = choose(4);
    let s = &data[..n];
    {
        let g = s.ref_as::<Slice<u8>>();
        check(g.start.as_ptr().cast_const() == s.as_ptr() && g.len == n, "ref_as", || "a view of other elements".into());
    }
    let mut st = Slice::new(s);
    {
        let mut g = st.mut_as::<&[u8]>();
        check(g.as_ptr() == s.as_ptr() && g.len() == n, "mut_as", || "a view of other elements".into());
        *g = &data[1..];
    }
    check(st.len == 2 && st[0] == 2, "mut_as", || "a change is lost".into());
    let t = PIECES[choose(8)];
    let g = t.ref_as::<Str>();
    check(g.as_str() == t && g.as_ptr() == t.as_ptr(), "ref_as", || "a view of another string".into());
}
/// What safe code may do to guards.
fn guards() {
    match choose(2) {
        0 => {
            let mut x: Option<P> = Some(P::new(1));
            let mut g = x.mut_as::<SOption<P>>();
            let taken = core::mem::replace(&mut *g, SOption::None());
            // Without its guard, the change isn't applied.
            core::mem::forget(g);
            log(|| "dropping what was taken through a guard that was forgotten, then its origin".into());
            drop(taken);
            let was = x.is_some();
            quiet(|| core::mem::forget(x));
            check(!was, "forgotten-guard", || "a value taken from an option through a guard that's forgotten is still there: it's going to be dropped twice".into());
        }
        _ => {
            let a = SArc::new(P::new(1));
            let x: Option<AtomicArc<P, DefaultAllocator>> = Some(AtomicArc::new(Some(a.clone())));
            {
                let g = x.ref_as::<SOption<AtomicArc<P, DefaultAllocator>>>();
                g.match_ref(|c| c.store(None, core::sync::atomic::Ordering::SeqCst), || ());
            }
            let owners = 1 + x.as_ref().unwrap().load(core::sync::atomic::Ordering::SeqCst).map_or(0, |a| {
                drop(a);
                1
            });
            let counted = SArc::strong_count(&a);
            quiet(|| core::mem::forget((x, a)));
            check(owners <= counted, "copied-cell", || "what's removed from a cell through a view of it is released, but still in the cell: it's going to be released twice".into());
        }
    }
}

fn main() {
    warm!(P, u8, Aligned, Wide, Zst, Nz, core::num::NonZeroU8, NonXU8<3>, SBox<P>);
    const B: Bounds = Bounds::SEQ.split(4).faults(0);
    const fn s(name: &'static str, about: &'static str, quick: (usize, usize), thorough: (usize, usize), body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B.depth(quick.0).width(quick.1)), thorough: B.depth(thorough.0).width(thorough.1), body }
    }
    mcrt::main(&Prop {
        id: "C29",
        title: "Borrowed views expose exactly the data they borrow",
        assumptions: &["8 element types and 8 pieces of text are representative", "items and options are explored for types whose stable options are explored by C20"],
        scenarios: vec![
            s("slices", "conversions and writes through slices", (5, 3), (6, 4), || of!(slices: 0 P, 1 u8, 2 Aligned, 3 Wide, 4 Zst, 5 Nz, 6 ZstAligned, 7 Aligned16)),
            s("compare-slices", "pairs of slices", (0, 5), (0, 7), || {
                compare_slices();
                end()
            }),
            s("strings", "pairs of strings", (0, 2), (0, 3), strings),
            s("iterators", "iterators that yield anything, asked and dropped", (0, 3), (0, 5), || of!(iterators: 0 P, 1 u8, 2 Aligned, 3 Wide, 4 Zst, 5 Nz, 6 core::num::NonZeroU8, 7 NonXU8<3>, 8 SBox<P>)),
            s("options", "options seen as those of another kind", (5, 0), (8, 0), || of!(options: 0 P, 1 u8, 2 Aligned, 3 Wide, 4 Zst, 5 Nz, 6 core::num::NonZeroU8, 7 SBox<P>)),
            s("results", "results seen as those of another kind", (6, 0), (9, 0), || {
                Zst::begin();
                match choose(5) {
                    0 => results::<P, u8>(),
                    1 => results::<u8, P>(),
                    2 => results::<Wide, Nz>(),
                    3 => results::<Zst, Aligned>(),
                    _ => results::<SBox<P>, SBox<P>>(),
                }
                Zst::finish();
                end();
            }),
            s("views", "slices and strings seen as those of another kind", (0, 0), (0, 0), views),
            s("guards", "guards that are forgotten, and views of cells", (0, 0), (0, 0), guards),
        ],
    })
}
