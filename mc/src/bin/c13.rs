//! C13: strings hold valid text and behave as text.
use core::cmp::Ordering;
use core::fmt::Write;
use core::hash::{Hash, Hasher};
use mcrt::*;
use stabby::abi::alloc::IAlloc;
use stabby::alloc::string::{ArcStr, BoxedStr, String as SString, WeakStr};
use stabby::alloc::vec::Vec as SVec;
use stabby::str::Str;
use stabby_mc::{CkAlloc, ZAlloc};

struct Feed(u64);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = mix(self.0, b as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut f = Feed(1);
    t.hash(&mut f);
    f.finish()
}
const PIECES: [&str; 7] = ["", "a", "Z\0", "é", "日本", "😀", "a long piece of text, beyond what was first allocated"];

/// What is added to them.
const APPENDED: [&str; 3] = ["", "é", PIECES[6]];

/// A string of some kind.
enum S<A: IAlloc> {
    Str(SString<A>),
    Boxed(BoxedStr<A>),
    Arc(ArcStr<A>),
    Weak(WeakStr<A>),
    Bytes(SVec<u8, A>),
}
/// A string, and what it should be.
struct H<A: IAlloc> {
    s: S<A>,
    text: Vec<u8>,
    /// Which others share it.
    group: usize,
}
fn same(v: &str, want: &[u8], what: &str) {
    check(v.as_bytes() == want, "text", || format!("{what}: {:?} for {want:?}", v.as_bytes()));
    check(core::str::from_utf8(v.as_bytes()).is_ok(), "utf8", || format!("{what}: {:?} isn't text", v.as_bytes()));
}
fn valid(b: &[u8]) -> bool {
    core::str::from_utf8(b).is_ok()
}
impl<A: IAlloc + Default + Clone + 'static> H<A> {
    fn kind(&self) -> &'static str {
        match &self.s {
            S::Str(_) => "string",
            S::Boxed(_) => "boxed",
            S::Arc(_) => "shared",
            S::Weak(_) => "weak",
            S::Bytes(_) => "bytes",
        }
    }
    fn read(&self) {
        match &self.s {
            S::Str(s) => {
                same(s.as_str(), &self.text, "as_str");
                same(s, &self.text, "deref");
                same(s.as_ref(), &self.text, "as_ref");
                quiet(|| check(format!("{s}").as_bytes() == self.text && format!("{s:?}") == format!("{:?}", core::str::from_utf8(&self.text).unwrap()) && format!("{s:>9.3}") == format!("{:>9.3}", core::str::from_utf8(&self.text).unwrap()), "format", || "a string is displayed otherwise".into()));
                check(hash(s) == hash(core::str::from_utf8(&self.text).unwrap()), "hash", || "a string is hashed otherwise".into());
            }
            S::Boxed(s) => {
                same(s.as_str(), &self.text, "boxed as_str");
                same(s, &self.text, "boxed deref");
                same(s.as_ref(), &self.text, "boxed as_ref");
                quiet(|| check(format!("{s}").as_bytes() == self.text && format!("{s:?}") == format!("{:?}", core::str::from_utf8(&self.text).unwrap()), "format", || "a boxed string is displayed otherwise".into()));
                check(hash(s) == hash(core::str::from_utf8(&self.text).unwrap()), "hash", || "a boxed string is hashed otherwise".into());
            }
            S::Arc(s) => {
                same(s.as_str(), &self.text, "shared as_str");
                same(s, &self.text, "shared deref");
                same(s.as_ref(), &self.text, "shared as_ref");
                quiet(|| check(format!("{s}").as_bytes() == self.text && format!("{s:?}") == format!("{:?}", core::str::from_utf8(&self.text).unwrap()), "format", || "a shared string is displayed otherwise".into()));
                check(hash(s) == hash(core::str::from_utf8(&self.text).unwrap()), "hash", || "a shared string is hashed otherwise".into());
            }
            S::Weak(_) => {}
            S::Bytes(b) => check(b.as_slice() == self.text, "bytes", || format!("{:?} for {:?}", b.as_slice(), self.text)),
        }
    }
}
struct All<A: IAlloc> {
    all: Vec<H<A>>,
    groups: usize,
}
/// Others that share what `i` holds: owners and watchers.
fn sharing<A: IAlloc>(all: &[H<A>], i: usize) -> (usize, usize) {
    let g = all[i].group;
    let n = |w: bool| all.iter().enumerate().filter(|(j, h)| *j != i && h.group == g && matches!(h.s, S::Weak(_)) == w).count();
    (n(false), n(true))
}
fn text(b: &[u8]) -> &str {
    core::str::from_utf8(b).unwrap()
}
/// Runs what may fail to allocate; says whether it did what it should.
fn may_fail<R>(f: impl FnOnce() -> R) -> Option<R> {
    let n = faults_injected();
    let mut out = None;
    let o = &mut out;
    let r = catch(core::panic::AssertUnwindSafe(move || *o = Some(f())));
    if r.is_err() {
        check(faults_injected() > n, "panic", || format!("it panicked: {:?}", last_panic()));
        return None;
    }
    out
}
impl<A: IAlloc + Default + Clone + 'static> All<A> {
    fn push(&mut self, s: S<A>, text: Vec<u8>, group: Option<usize>) {
        let group = group.unwrap_or_else(|| {
            self.groups += 1;
            self.groups
        });
        quiet(|| self.all.push(H { s, text, group }));
    }
    fn start(&mut self) {
        let i = choose(3);
        let p = PIECES[choose(PIECES.len())];
        log(|| format!("start {i} with {p:?}"));
        let t = quiet(|| p.as_bytes().to_vec());
        let s = may_fail(|| match i {
            0 => SString::<A>::from(p),
            1 => SString::<A>::from(Str::new(p)),
            _ => SString::<A>::new_in(A::default()) + p,
        });
        if let Some(s) = s {
            self.push(S::Str(s), t, None);
        }
    }
    fn operate(&mut self) {
        let i = choose(self.all.len() + 1);
        if i == self.all.len() {
            if i >= bounds().width {
                discard();
            }
            return self.start();
        }
        // Comparing it with another.
        let h = quiet(|| self.all.swap_remove(i));
        let H { s, text: mut t, group } = h;
        // (It's put back in the end, unless it's consumed.)
        let (owners, watchers) = {
            let n = |w: bool| self.all.iter().filter(|h| h.group == group && matches!(h.s, S::Weak(_)) == w).count();
            (n(false), n(true))
        };
        let room = self.all.len() + 1 < bounds().width;
        match s {
            S::Str(mut s) => match choose(12) {
                0 => {
                    let p = pick(&APPENDED);
                    log(|| format!("{:?} += {p:?}", text(&t)));
                    if may_fail(|| s += p).is_some() {
                        quiet(|| t.extend(p.as_bytes()));
                    }
                    self.push(S::Str(s), t, Some(group));
                }
                1 => {
                    let p = pick(&APPENDED);
                    log(|| format!("{:?} try_concat {p:?}", text(&t)));
                    let n = faults_injected();
                    let ok = s.try_concat(p).is_ok();
                    check(ok || faults_injected() > n, "try_concat", || "it failed without reason".into());
                    if ok {
                        quiet(|| t.extend(p.as_bytes()));
                    }
                    self.push(S::Str(s), t, Some(group));
                }
                2 => {
                    let p = pick(&APPENDED);
                    log(|| format!("{:?} + {p:?}", text(&t)));
                    if let Some(s) = may_fail(move || s + p) {
                        quiet(|| t.extend(p.as_bytes()));
                        self.push(S::Str(s), t, None);
                    } else {
                        quiet(|| drop(t));
                    }
                }
                3 => {
                    log(|| format!("uppercase {:?}", text(&t)));
                    match choose(2) {
                        0 => s.make_ascii_uppercase(),
                        _ => s.as_str_mut().make_ascii_uppercase(),
                    }
                    t.make_ascii_uppercase();
                    self.push(S::Str(s), t, Some(group));
                }
                4 => {
                    log(|| format!("box {:?}", text(&t)));
                    let s: BoxedStr<A> = s.into();
                    self.push(S::Boxed(s), t, Some(group));
                }
                5 => {
                    log(|| format!("share {:?}", text(&t)));
                    if let Some(s) = may_fail(move || ArcStr::<A>::from(s)) {
                        self.push(S::Arc(s), t, Some(group));
                    } else {
                        quiet(|| drop(t));
                    }
                }
                6 => {
                    log(|| format!("bytes of {:?}", text(&t)));
                    let s: SVec<u8, A> = s.into();
                    self.push(S::Bytes(s), t, Some(group));
                }
                7 => {
                    if !room {
                        discard();
                    }
                    log(|| format!("clone {:?}", text(&t)));
                    if let Some(c) = may_fail(|| s.clone()) {
                        let u = quiet(|| t.clone());
                        self.push(S::Str(c), u, None);
                    }
                    self.push(S::Str(s), t, Some(group));
                }
                8 => {
                    // To ordinary strings and back.
                    log(|| format!("convert {:?}", text(&t)));
                    let n = faults_injected();
                    let o: Option<std::string::String> = {
                        let o = quiet(|| std::string::String::from(text(&t)));
                        drop(s);
                        Some(o)
                    };
                    let s = may_fail(|| SString::<A>::from(o.unwrap()));
                    if let Some(s) = s {
                        self.push(S::Str(s), t, None);
                    } else {
                        check(faults_injected() > n, "convert", || "it failed without reason".into());
                        quiet(|| drop(t));
                    }
                }
                9 => {
                    log(|| format!("to an ordinary string: {:?}", text(&t)));
                    // (Where an ordinary allocation fails, the process ends.)
                    set_alloc_faults(false);
                    let o = std::string::String::from(s);
                    set_alloc_faults(bounds().faults > 0);
                    check(o.as_bytes() == t, "convert", || format!("{o:?} for {:?}", text(&t)));
                    drop(o);
                    quiet(|| drop(t));
                }
                10 => {
                    let (n, p) = (pick(&[0, 1234]), pick(&APPENDED));
                    log(|| format!("{:?} += {n} {p:?}", text(&t)));
                    let before = quiet(|| t.clone());
                    let r = write(&mut s, n, p);
                    if let Some(Ok(())) = r {
                        quiet(|| t.extend(format!("{n}-{p}").as_bytes()));
                    } else if let Some(Err(())) = r {
                        // (What fits was written.)
                        let full = quiet(|| format!("{}{n}-{p}", text(&before)));
                        check(full.as_bytes().starts_with(s.as_bytes()) && s.as_bytes().starts_with(&before), "write", || format!("{:?} of {full:?}", s.as_bytes()));
                        quiet(|| t = s.as_bytes().to_vec());
                        quiet(|| drop(full));
                    }
                    quiet(|| drop(before));
                    self.push(S::Str(s), t, Some(group));
                }
                _ => {
                    log(|| format!("drop {:?}", text(&t)));
                    drop(s);
                    quiet(|| drop(t));
                }
            },
            S::Boxed(mut s) => match choose(3) {
                0 => {
                    log(|| format!("unbox {:?}", text(&t)));
                    let s: SString<A> = s.into();
                    self.push(S::Str(s), t, Some(group));
                }
                1 => {
                    log(|| format!("lowercase boxed {:?}", text(&t)));
                    s.as_str_mut().make_ascii_lowercase();
                    t.make_ascii_lowercase();
                    self.push(S::Boxed(s), t, Some(group));
                }
                _ => {
                    log(|| format!("drop boxed {:?}", text(&t)));
                    drop(s);
                    quiet(|| drop(t));
                }
            },
            S::Arc(mut s) => match choose(5) {
                0 => {
                    if !room {
                        discard();
                    }
                    log(|| format!("clone shared {:?}", text(&t)));
                    let c = s.clone();
                    let u = quiet(|| t.clone());
                    self.push(S::Arc(c), u, Some(group));
                    self.push(S::Arc(s), t, Some(group));
                }
                1 => {
                    log(|| format!("lowercase shared {:?}, with {owners} and {watchers} others", text(&t)));
                    check(ArcStr::is_unique(&s) == (owners + watchers == 0), "is_unique", || format!("{} with {owners} other owners and {watchers} watchers", ArcStr::is_unique(&s)));
                    let m = s.as_str_mut();
                    check(m.is_some() == (owners + watchers == 0), "as_str_mut", || format!("{} with {owners} other owners and {watchers} watchers", m.is_some()));
                    if let Some(m) = m {
                        m.make_ascii_lowercase();
                        t.make_ascii_lowercase();
                    }
                    self.push(S::Arc(s), t, Some(group));
                }
                2 => {
                    log(|| format!("unshare {:?}, with {owners} and {watchers} others", text(&t)));
                    match SString::<A>::try_from(s) {
                        Ok(s) => {
                            check(owners + watchers == 0, "try_from", || format!("a string is taken from {owners} other owners and {watchers} watchers"));
                            self.push(S::Str(s), t, None);
                        }
                        Err(s) => {
                            check(owners + watchers != 0, "try_from", || "the only owner isn't given the string".into());
                            self.push(S::Arc(s), t, Some(group));
                        }
                    }
                }
                3 => {
                    if !room {
                        discard();
                    }
                    log(|| format!("watch {:?}", text(&t)));
                    let w = WeakStr::from(&s);
                    let u = quiet(|| t.clone());
                    self.push(S::Weak(w), u, Some(group));
                    self.push(S::Arc(s), t, Some(group));
                }
                _ => {
                    log(|| format!("drop shared {:?}", text(&t)));
                    drop(s);
                    quiet(|| drop(t));
                }
            },
            S::Weak(w) => match choose(4) {
                0 => {
                    if !room {
                        discard();
                    }
                    log(|| format!("upgrade {:?}, with {owners} owners", text(&t)));
                    let s = w.upgrade();
                    check(s.is_some() == (owners > 0), "upgrade", || format!("{} with {owners} owners", s.is_some()));
                    let u = quiet(|| t.clone());
                    match s {
                        Some(s) => self.push(S::Arc(s), u, Some(group)),
                        None => quiet(|| drop(u)),
                    }
                    self.push(S::Weak(w), t, Some(group));
                }
                1 => {
                    if !room {
                        discard();
                    }
                    log(|| format!("force_upgrade {:?}, with {owners} owners", text(&t)));
                    let s = w.force_upgrade();
                    let u = quiet(|| t.clone());
                    self.push(S::Arc(s), u, Some(group));
                    self.push(S::Weak(w), t, Some(group));
                }
                2 => {
                    if !room {
                        discard();
                    }
                    log(|| "clone watcher".into());
                    let u = quiet(|| t.clone());
                    self.push(S::Weak(w.clone()), u, Some(group));
                    self.push(S::Weak(w), t, Some(group));
                }
                _ => {
                    log(|| "drop watcher".into());
                    drop(w);
                    quiet(|| drop(t));
                }
            },
            S::Bytes(mut b) => match choose(4) {
                0 => {
                    log(|| format!("text of bytes {t:?}"));
                    let ok = valid(&t);
                    match SString::<A>::try_from(b) {
                        Ok(s) => {
                            check(ok, "utf8", || format!("{t:?} is taken for text"));
                            self.push(S::Str(s), t, Some(group));
                        }
                        Err(e) => {
                            check(!ok, "try_from", || format!("{t:?} isn't taken for text: {e:?}"));
                            check(e.valid_up_to() == core::str::from_utf8(&t).unwrap_err().valid_up_to(), "try_from", || "another place isn't valid".into());
                            quiet(|| drop(t));
                        }
                    }
                }
                1 => {
                    // (Half of it isn't text.)
                    log(|| format!("pop of bytes {t:?}"));
                    check(b.pop() == t.pop(), "pop", || "another byte is popped".into());
                    self.push(S::Bytes(b), t, Some(group));
                }
                2 => {
                    let x = pick(&[b'x', 0xc3, 0xa9, 0xff]);
                    log(|| format!("push {x} to bytes {t:?}"));
                    if may_fail(|| b.push(x)).is_some() {
                        quiet(|| t.push(x));
                    }
                    self.push(S::Bytes(b), t, Some(group));
                }
                _ => {
                    log(|| format!("drop bytes {t:?}"));
                    drop(b);
                    quiet(|| drop(t));
                }
            },
        }
        for h in &self.all {
            h.read();
        }
        step();
    }
}
/// (Only strings in the default allocator are written to.)
fn write<A: IAlloc + 'static>(s: &mut SString<A>, n: u32, p: &str) -> Option<Result<(), ()>> {
    let s = s as &mut dyn core::any::Any;
    let s = s.downcast_mut::<SString>()?;
    let f = faults_injected();
    let r = write!(s, "{n}-{p}");
    check(r.is_ok() || faults_injected() > f, "write", || "it failed without reason".into());
    Some(r.map_err(|_| ()))
}
fn histories<A: IAlloc + Default + Clone + 'static>() {
    let mut h = All::<A> { all: quiet(|| Vec::with_capacity(8)), groups: 0 };
    set_alloc_faults(bounds().faults > 0);
    h.start();
    for _ in 0..bounds().depth {
        h.operate();
    }
    set_alloc_faults(false);
    let _ = sharing::<A>;
    for h in &h.all {
        let _ = h.kind();
    }
    // In either order.
    let rev = choose(2) == 0;
    while !h.all.is_empty() {
        let x = if rev { h.all.pop().unwrap() } else { h.all.remove(0) };
        drop(x.s);
        quiet(|| drop(x.text));
        for h in &h.all {
            h.read();
        }
    }
    quiet(|| drop(h));
    check_no_object_leak("allocator-leak");
    check_no_leak("memory-leak");
}

// ---------------------------------------------------------------- comparisons
fn some_text() -> String {
    const P: [&str; 8] = ["a", "b", "\0", "\u{7f}", "\u{80}", "é", "日", "😀"];
    let mut s = String::new();
    for _ in 0..bounds().width {
        let i = choose(P.len() + 1);
        if i == 0 {
            break;
        }
        s.push_str(P[i - 1]);
    }
    s
}
fn ordered<T: Ord + Hash>(x: &T, y: &T, a: &str, b: &str, what: &str) {
    check(x.cmp(y) == a.cmp(b), "cmp", || format!("{what}: {a:?} and {b:?}: {:?}", x.cmp(y)));
    check(x.partial_cmp(y) == Some(a.cmp(b)), "partial_cmp", || format!("{what}: {a:?} and {b:?}: {:?}", x.partial_cmp(y)));
    check((x == y) == (a == b), "eq", || format!("{what}: {a:?} and {b:?}"));
    check((x != y) == (a != b), "ne", || format!("{what}: {a:?} and {b:?}"));
    check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b), "less", || format!("{what}: {a:?} and {b:?}"));
    check(hash(x) == hash(a), "hash", || format!("{what}: {a:?}"));
}
fn comparisons() {
    let (a, b) = (some_text(), some_text());
    {
        let (x, y): (SString, SString) = ((&*a).into(), (&*b).into());
        ordered(&x, &y, &a, &b, "strings");
        check((x == b) == (a == b) && (x == &*b) == (a == b), "eq", || format!("ordinary {a:?} and {b:?}"));
        check(x.partial_cmp(&b) == Some(a.cmp(&b)) && x.partial_cmp(&&*b) == Some(a.cmp(&b)), "partial_cmp", || format!("ordinary {a:?} and {b:?}"));
        check((x == Str::new(&b)) == (a == b), "eq", || format!("borrowed {a:?} and {b:?}"));
        check(x.chars().eq(a.chars()) && x.len() == a.len() && x.is_empty() == a.is_empty(), "chars", || format!("{a:?}"));
        check(core::str::from_utf8(x.as_bytes()).is_ok(), "utf8", || format!("{a:?}"));
        let (v, w): (SString<CkAlloc>, SString<ZAlloc>) = ((&*a).into(), Str::new(&b).into());
        check((v == w) == (a == b) && v.partial_cmp(&w) == Some(a.cmp(&b)), "eq", || format!("{a:?} and {b:?} in different allocators"));
        let (x, y): (BoxedStr, BoxedStr) = (x.into(), y.into());
        ordered(&x, &y, &a, &b, "boxed");
        let (x, y): (SString, SString) = (x.into(), y.into());
        let (x, y): (ArcStr, ArcStr) = (x.into(), y.into());
        ordered(&x, &y, &a, &b, "shared");
        ordered(&x, &x.clone(), &a, &a, "shared");
        check(x.cmp(&x.clone()) == Ordering::Equal, "cmp", || "a clone isn't equal".into());
        let s = SString::<CkAlloc>::default();
        check(s == "" && (s == a) == a.is_empty(), "default", || "the default string isn't empty".into());
        check(SString::new() == "", "new", || "a new string isn't empty".into());
    }
    drop((a, b));
    check_no_object_leak("allocator-leak");
    check_no_leak("memory-leak");
}

fn main() {
    const B: Bounds = Bounds::SEQ.split(4);
    const fn s(name: &'static str, about: &'static str, quick: Option<(usize, usize, usize)>, t: (usize, usize, usize), body: fn()) -> Scenario {
        let q = match quick {
            Some(q) => Some(B.depth(q.0).width(q.1).faults(q.2 as u32)),
            None => None,
        };
        Scenario { name, about, quick: q, thorough: B.depth(t.0).width(t.1).faults(t.2 as u32), body }
    }
    mcrt::main(&Prop {
        id: "C13",
        title: "Strings always hold valid text and behave as text",
        assumptions: &["7 pieces of text, of characters of each encoded length, are representative"],
        scenarios: vec![
            s("default", "histories of strings in the default allocator", Some((3, 2, 0)), (4, 2, 0), histories::<stabby::alloc::DefaultAllocator>),
            s("default-faults", "the same, when allocations fail", Some((2, 2, 1)), (3, 2, 2), histories::<stabby::alloc::DefaultAllocator>),
            s("tracked", "histories of strings in an allocator with state", Some((3, 2, 0)), (4, 2, 0), histories::<CkAlloc>),
            s("tracked-faults", "the same, when allocations fail", Some((2, 2, 1)), (3, 2, 2), histories::<CkAlloc>),
            s("zero-sized", "histories of strings in a zero-sized allocator", None, (3, 3, 0), histories::<ZAlloc>),
            s("comparisons", "pairs of strings", Some((0, 2, 0)), (0, 3, 0), comparisons),
        ],
    })
}
