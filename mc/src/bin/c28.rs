//! C28: time values convert and compute without loss.
use core::hash::{Hash, Hasher};
use core::sync::atomic::Ordering;
use mcrt::*;
use stabby::time::{AtomicDuration, AtomicInstant, Duration, Instant, Sign, SystemTime};
use stabby_mc::lin::*;
use std::time::{Duration as StdDuration, Instant as StdInstant, SystemTime as StdSystemTime, UNIX_EPOCH};

const G: u128 = 1_000_000_000;
const NANOS: [u32; 12] = [0, 1, 999, 1000, 1001, 999_999, 1_000_000, 500_000_000, 999_998_999, 999_999_000, 999_999_998, 999_999_999];
/// Seconds which leave room to add.
const SECS: [u64; 14] = [0, 1, 2, 59, 999, 1000, (1 << 20) - 1, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 43) - 2, (1 << 43) - 1, 1 << 53, (1 << 61) + 1];
const ATOMIC_SECS: usize = 12;
fn at(n: u128) -> (u64, u32) {
    ((n / G) as u64, (n % G) as u32)
}
fn raw(secs: usize) -> (u64, u32) {
    (pick(&SECS[..secs]), pick(&NANOS))
}
fn nanos((s, n): (u64, u32)) -> u128 {
    s as u128 * G + n as u128
}
/// What a duration says, in every way it says it.
fn is(what: &str, d: Duration, want: u128) {
    let (s, n) = at(want);
    check(d.secs == s && d.nanos == n, what, || format!("{what}: {}s {}ns for {want}ns", d.secs, d.nanos));
    check(d.as_secs() == s, "as_secs", || format!("{} for {want}ns", d.as_secs()));
    check(d.as_nanos() == want, "as_nanos", || format!("{} for {want}ns", d.as_nanos()));
    check(d.subsec_nanos() == n, "subsec_nanos", || format!("{} for {want}ns", d.subsec_nanos()));
    check(d.subsec_micros() == n / 1000, "subsec_micros", || format!("{} for {want}ns", d.subsec_micros()));
    check(d.subsec_millis() == n / 1_000_000, "subsec_millis", || format!("{} for {want}ns", d.subsec_millis()));
    let (f, e) = (d.as_secs_f64(), StdDuration::new(s, n).as_secs_f64());
    check((f - e).abs() <= e * f64::EPSILON * 2., "as_secs_f64", || format!("{f} for {want}ns"));
}
struct Feed(u64);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = mix(self.0, b as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut f = Feed(1);
    t.hash(&mut f);
    f.finish()
}
fn ordered<T: Ord + Hash + Copy>(a: T, b: T, x: u128, y: u128) {
    check(a.cmp(&b) == x.cmp(&y), "cmp", || format!("{x}ns and {y}ns: {:?}", a.cmp(&b)));
    check(a.partial_cmp(&b) == Some(x.cmp(&y)), "partial_cmp", || format!("{x}ns and {y}ns: {:?}", a.partial_cmp(&b)));
    check((a == b) == (x == y), "eq", || format!("{x}ns and {y}ns"));
    check((a < b) == (x < y) && (a <= b) == (x <= y), "less", || format!("{x}ns and {y}ns"));
    check(x != y || hash(&a) == hash(&b), "hash", || format!("{x}ns"));
}

// ---------------------------------------------------------------- durations
fn durations() {
    let (a, b) = (raw(SECS.len()), raw(SECS.len()));
    let (x, y) = (nanos(a), nanos(b));
    let (d, e) = (Duration::new(a.0, a.1), Duration::new(b.0, b.1));
    is("new", d, x);
    ordered(d, e, x, y);
    let std: StdDuration = d.into();
    check(std == StdDuration::new(a.0, a.1), "to-std", || format!("{x}ns becomes {std:?}"));
    is("from-std", std.into(), x);
    is("add", d + e, x + y);
    let mut s = d;
    s += e;
    is("add-assign", s, x + y);
    let c = raw(SECS.len() - 1);
    is("add", d + e + Duration::new(c.0, c.1), x + y + nanos(c));
    is("unchanged", d, x);
    is("unchanged", e, y);
}
fn made() {
    const M: [u64; 16] = [0, 1, 2, 999, 1000, 1001, 999_999, 1_000_000, 1_000_001, 1 << 32, (1 << 32) - 1, (1 << 53) + 1, u64::MAX / 1000, u64::MAX - 1, u64::MAX, 123_456_789_012];
    // Each residue, at some orders of magnitude.
    let m = match choose(2) {
        0 => pick(&M),
        _ => {
            let (base, low) = (pick(&[0u64, 1_000_000, 7_000_000_000_000, 18_446_744_073_000_000_000]), choose(1001) as u64);
            base + low + choose(1001) as u64 * 1000
        }
    };
    is("from_millis", Duration::from_millis(m), m as u128 * 1_000_000);
    is("from_micros", Duration::from_micros(m), m as u128 * 1000);
    check(StdDuration::from(Duration::from_millis(m)) == StdDuration::from_millis(m), "from_millis", || format!("{m}"));
    check(StdDuration::from(Duration::from_micros(m)) == StdDuration::from_micros(m), "from_micros", || format!("{m}"));
}
fn floats() {
    let f = match choose(4) {
        // Powers of 2 and what surrounds them.
        0 => f64::from_bits((((choose(100) as u64 + 1023 - 40) << 52) as i64 + choose(9) as i64 - 4) as u64),
        // Whole and halves and so on.
        1 => choose(2000) as f64 / 1024.,
        2 => choose(2000) as f64 / 1000.,
        _ => pick(&[0., -0., f64::MIN_POSITIVE, 1e-9, 0.999_999_999, 0.999_999_999_999, 1. - f64::EPSILON / 2., 2. - f64::EPSILON, 4_294_967_295.999_999_5, 1e15 + 0.5, 9_007_199_254_740_991., 1.8446744073709550e19]),
    };
    let d = Duration::from_secs_f64(f);
    check(d.nanos < G as u32, "from_secs_f64", || format!("{f}: {}ns beyond the second", d.nanos));
    // Truncated to a nanosecond, except for what the multiplication rounds.
    let (s, frac) = (f.trunc() as u64, f.fract());
    check(d.secs == s, "from_secs_f64", || format!("{f}: {} seconds", d.secs));
    let exact = (frac * 4_503_599_627_370_496.) as u128 * G; // in 2^-52 ns (all bits of fractions above 2^-1, most of the others)
    let got = (d.nanos as u128) << 52;
    check(got <= exact + (1 << 52) / 1_000_000 + G && exact < got + (1 << 52) + (1 << 52) / 1_000_000, "from_secs_f64", || format!("{f}: {}ns", d.nanos));
    let std = StdDuration::try_from_secs_f64(f).unwrap();
    let (x, y) = (nanos((d.secs, d.nanos)), std.as_nanos());
    check(x <= y + 1 && y <= x + 1, "from_secs_f64", || format!("{f}: {x}ns, otherwise {y}ns"));
}
fn not_floats() {
    let f = pick(&[-1., -f64::MIN_POSITIVE, -1e-9, f64::NAN, f64::NEG_INFINITY]);
    let made = catch(|| {
        Duration::from_secs_f64(f);
    });
    check(made.is_err(), "from_secs_f64", || format!("{f} is a duration"));
}

// ---------------------------------------------------------------- points in time
fn points() {
    let (a, b, c) = (raw(SECS.len()), raw(SECS.len()), raw(4));
    let (x, y) = (nanos(a), nanos(b));
    let (da, db) = (StdDuration::new(a.0, a.1), StdDuration::new(b.0, b.1));
    let d = Duration::new(c.0, c.1);
    let sd = StdDuration::new(c.0, c.1);
    {
        let (s, t) = (UNIX_EPOCH + da, UNIX_EPOCH + db);
        let (p, q) = (SystemTime::from(s), SystemTime::from(t));
        check(StdSystemTime::from(p) == s, "system-time", || format!("{s:?} becomes {:?}", StdSystemTime::from(p)));
        check(p == SystemTime::UNIX_EPOCH + Duration::new(a.0, a.1), "system-time", || format!("{s:?} isn't as long after the epoch"));
        ordered(p, q, x, y);
        check(StdSystemTime::from(p + d) == s + sd, "system-time-add", || format!("{s:?} + {sd:?} becomes {:?}", StdSystemTime::from(p + d)));
        let mut r = p;
        r += d;
        check(r == p + d && StdSystemTime::from(r) == s + sd, "system-time-add-assign", || format!("{s:?} += {sd:?}"));
        // What can't be denoted is the epoch.
        let before = StdDuration::new(b.0 & 0xffff_ffff, b.1);
        let early = SystemTime::from(UNIX_EPOCH - before);
        check(early == SystemTime::UNIX_EPOCH, "early-system-time", || format!("{before:?} before the epoch becomes {:?}", StdSystemTime::from(early)));
    }
    {
        let zero = StdInstant::from(Instant::zero());
        let (s, t) = (zero + da, zero + db);
        let (p, q) = (Instant::from(s), Instant::from(t));
        check(StdInstant::from(p) == s, "instant", || format!("{s:?} becomes {:?}", StdInstant::from(p)));
        check(p == Instant::zero() + Duration::new(a.0, a.1), "instant", || format!("{s:?} isn't as long after zero"));
        ordered(p, q, x, y);
        check(StdInstant::from(p + d) == s + sd, "instant-add", || format!("{s:?} + {sd:?} becomes {:?}", StdInstant::from(p + d)));
        let mut r = p;
        r += d;
        check(r == p + d && StdInstant::from(r) == s + sd, "instant-add-assign", || format!("{s:?} += {sd:?}"));
    }
}
/// What's measured lies between measures made by other means.
fn clocks() {
    let below = |m: Instant| StdInstant::from(m + Duration::new(0, 1000));
    match choose(5) {
        0 => {
            let a = StdSystemTime::now();
            let m = StdSystemTime::from(SystemTime::now());
            let b = StdSystemTime::now();
            check(a <= m && m <= b, "now", || format!("{m:?} between {a:?} and {b:?}"));
        }
        1 => {
            let a = StdInstant::now();
            let m = StdInstant::from(Instant::now());
            let b = StdInstant::now();
            check(a <= m && m <= b, "now", || format!("{m:?} between {a:?} and {b:?}"));
        }
        2 => {
            let a = StdInstant::now();
            let m = AtomicInstant::now().load(Ordering::Relaxed);
            let b = StdInstant::now();
            check(a < below(m) && StdInstant::from(m) <= b, "atomic-now", || format!("{:?} between {a:?} and {b:?}", StdInstant::from(m)));
        }
        3 => {
            let x = AtomicInstant::epoch();
            check(x.load(Ordering::SeqCst) == Instant::zero(), "epoch", || "the epoch isn't zero".into());
            let mut last = Instant::zero();
            let mut a = StdInstant::now();
            for _ in 0..3 {
                let was = x.update(Ordering::SeqCst);
                let b = StdInstant::now();
                check(was == last, "update", || "update returns another instant than it replaces".into());
                last = x.load(Ordering::SeqCst);
                check(a < below(last) && StdInstant::from(last) <= b, "update", || format!("{:?} between {a:?} and {b:?}", StdInstant::from(last)));
                a = b;
            }
        }
        _ => {
            // Measures made by one are understood by the other.
            let a = Instant::now();
            let s = StdInstant::now();
            let b = Instant::now();
            check(a <= s.into() && Instant::from(s) <= b, "clock", || "clocks differ".into());
        }
    }
}

// ---------------------------------------------------------------- atomics
const ORDS: [(Ordering, Ordering, Ordering); 4] = [
    (Ordering::Relaxed, Ordering::Relaxed, Ordering::Relaxed),
    (Ordering::Acquire, Ordering::Release, Ordering::AcqRel),
    (Ordering::SeqCst, Ordering::SeqCst, Ordering::SeqCst),
    (Ordering::Acquire, Ordering::Release, Ordering::Acquire),
];
/// As read back: to the microsecond, and zero is positive.
fn kept(n: u128, s: Sign) -> (u128, Sign) {
    let n = n / 1000 * 1000;
    (n, if n == 0 { Sign::Positive } else { s })
}
fn read(what: &str, got: (Duration, Sign), want: (u128, Sign)) {
    is(what, got.0, want.0);
    check(got.1 == want.1, what, || format!("{what}: {:?} for {:?} {}ns", got.1, want.1, want.0));
}
fn atomic() {
    let ord = pick(&ORDS);
    let value = || {
        let r = raw(ATOMIC_SECS);
        let s = if choose(2) == 0 { Sign::Positive } else { Sign::Negative };
        (Duration::new(r.0, r.1), s, kept(nanos(r), s))
    };
    let a = value();
    let x = AtomicDuration::new(a.0, a.1);
    read("new", x.load(ord.0), a.2);
    let b = value();
    x.store(b.0, b.1, ord.1);
    read("store", x.load(ord.0), b.2);
    // (What was read can be written back.)
    let (d, s) = x.load(ord.0);
    read("swap", x.swap(a.0, a.1, ord.2), b.2);
    read("swap", x.load(ord.0), a.2);
    x.store(d, s, ord.1);
    read("store", x.load(ord.0), b.2);
}
/// Every microsecond, positive and negative.
fn micros() {
    let n = (choose(1000) * 1000 + choose(1000)) as u32 * 1000;
    for secs in [0, 1, 86_400, (1 << 43) - 1] {
        for s in [Sign::Positive, Sign::Negative] {
            let x = AtomicDuration::new(Duration::new(secs, n), s);
            read("new", x.load(Ordering::Relaxed), kept(nanos((secs, n)), s));
        }
    }
}
fn limits() {
    let (m, r) = (AtomicDuration::MAX, AtomicDuration::RESOLUTION);
    check(m.nanos < G as u32, "max", || format!("the longest duration has {}ns beyond the second", m.nanos));
    is("resolution", r, 1000);
    for s in [Sign::Positive, Sign::Negative] {
        for d in [m, r] {
            let x = AtomicDuration::new(d, s);
            read("limits", x.load(Ordering::Relaxed), (d.as_nanos(), s));
        }
    }
    // There's no longer one.
    let (secs, nanos) = at(m.as_nanos() + 1000);
    let d = Duration::new(secs, nanos);
    let x = AtomicDuration::new(d, Sign::Positive);
    let y = x.t_opposite();
    check(y != (d, Sign::Positive), "max", || "longer durations are kept, too".into());
}
trait Opposite {
    fn t_opposite(&self) -> (Duration, Sign);
}
impl Opposite for AtomicDuration {
    /// (What's beyond overflows.)
    fn t_opposite(&self) -> (Duration, Sign) {
        let mut r = (Duration::new(0, 0), Sign::Negative);
        let _ = catch(|| r = self.load(Ordering::Relaxed));
        r
    }
}
fn atomic_instant() {
    let ord = pick(&ORDS);
    let value = || {
        let r = raw(ATOMIC_SECS);
        let n = nanos(r);
        (Instant::zero() + Duration::new(r.0, r.1), Instant::zero() + Duration::new(r.0, (n / 1000 * 1000 % G) as u32))
    };
    let (a, b) = (value(), value());
    let x = AtomicInstant::epoch();
    check(x.load(ord.0) == Instant::zero(), "epoch", || "the epoch isn't zero".into());
    x.store(a.0, ord.1);
    check(x.load(ord.0) == a.1, "store", || "another instant is read".into());
    check(x.swap(b.0, ord.2) == a.1, "swap", || "another instant is returned".into());
    check(x.load(ord.0) == b.1, "swap", || "another instant is read".into());
    let last = Instant::now();
    check(x.update(ord.2) == b.1, "update", || "another instant is returned".into());
    check(x.load(ord.0) + Duration::new(0, 1000) > last, "update", || "an instant in the past is read".into());
}

// ---------------------------------------------------------------- threads
#[derive(Clone, Copy, Debug)]
enum Op {
    Load(usize),
    Store(usize),
    /// new, found
    Swap(usize, usize),
}
/// (None of them is another to the microsecond, nor has another's seconds, microseconds and sign in a mix.)
const VALUES: [(u64, u32, Sign); 5] = [(3, 5000, Sign::Positive), (7, 999_999_000, Sign::Negative), (0, 1000, Sign::Positive), ((1 << 43) - 1, 123_000, Sign::Negative), (1 << 20, 0, Sign::Positive)];
trait Shared: 'static {
    fn make(v: usize) -> Self;
    fn load(&self, o: Ordering) -> usize;
    fn store(&self, v: usize, o: Ordering);
    fn swap(&self, v: usize, o: Ordering) -> usize;
}
fn which(d: Duration, s: Option<Sign>) -> usize {
    let i = VALUES.iter().position(|v| v.0 == d.secs && v.1 == d.nanos && s.map_or(true, |s| v.2 == s));
    check(i.is_some(), "torn", || format!("{}s {}ns ({s:?}) was read, which nobody wrote", d.secs, d.nanos));
    i.unwrap()
}
fn value(v: usize) -> Duration {
    Duration::new(VALUES[v].0, VALUES[v].1)
}
impl Shared for AtomicDuration {
    fn make(v: usize) -> Self {
        Self::new(value(v), VALUES[v].2)
    }
    fn load(&self, o: Ordering) -> usize {
        let (d, s) = AtomicDuration::load(self, o);
        which(d, Some(s))
    }
    fn store(&self, v: usize, o: Ordering) {
        AtomicDuration::store(self, value(v), VALUES[v].2, o)
    }
    fn swap(&self, v: usize, o: Ordering) -> usize {
        let (d, s) = AtomicDuration::swap(self, value(v), VALUES[v].2, o);
        which(d, Some(s))
    }
}
impl Shared for AtomicInstant {
    fn make(v: usize) -> Self {
        let x = AtomicInstant::epoch();
        AtomicInstant::store(&x, Instant::zero() + value(v), Ordering::Relaxed);
        x
    }
    fn load(&self, o: Ordering) -> usize {
        which(since(AtomicInstant::load(self, o)), None)
    }
    fn store(&self, v: usize, o: Ordering) {
        AtomicInstant::store(self, Instant::zero() + value(v), o)
    }
    fn swap(&self, v: usize, o: Ordering) -> usize {
        which(since(AtomicInstant::swap(self, Instant::zero() + value(v), o)), None)
    }
}
fn since(i: Instant) -> Duration {
    StdInstant::from(i).duration_since(StdInstant::from(Instant::zero())).into()
}
/// Reads and writes by threads are as if done one after another.
fn shared<A: Shared>(threads: usize) {
    let b = bounds();
    let x: &'static A = Box::leak(Box::new(A::make(0)));
    let h = History::new(threads);
    let progs: Vec<Vec<usize>> = quiet(|| (0..threads).map(|_| (0..b.depth).map(|_| choose(4)).take_while(|k| *k < 3).collect()).collect());
    log(|| format!("(0 loads, 1 stores, 2 swaps) {progs:?}"));
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (t, p) in progs.into_iter().enumerate() {
        fs.push(Box::new(move || {
            for k in p {
                let i = h.invoke();
                let op = match k {
                    0 => Op::Load(x.load(Ordering::SeqCst)),
                    1 => {
                        x.store(1 + t, Ordering::SeqCst);
                        Op::Store(1 + t)
                    }
                    _ => Op::Swap(1 + t, x.swap(1 + t, Ordering::SeqCst)),
                };
                h.respond(t, i, op);
            }
        }));
    }
    par(fs);
    let end = x.load(Ordering::SeqCst);
    drop(unsafe { Box::from_raw((x as *const A).cast_mut()) });
    h.check(
        0,
        |s, op| match *op {
            Op::Load(r) => *s == r,
            Op::Store(n) => {
                *s = n;
                true
            }
            Op::Swap(n, old) => core::mem::replace(s, n) == old,
        },
        |s| *s == end,
    );
    check_no_leak("memory-leak");
}
/// What was written before a time was stored is seen by who reads that time; the orderings asked for are used.
fn publish<A: Shared>() {
    struct Both<A>(A, core::cell::UnsafeCell<u64>);
    let x: &'static Both<A> = Box::leak(Box::new(Both(A::make(0), core::cell::UnsafeCell::new(1))));
    let (writer, reader) = (choose(3), choose(4));
    par(quiet(|| {
        let fs: Vec<Box<dyn FnOnce()>> = vec![
            Box::new(move || {
                unsafe { *x.1.get() = 2 };
                match writer {
                    0 => x.0.store(1, Ordering::Release),
                    1 => check(x.0.swap(1, Ordering::Release) != 1, "swap", || "what it writes is read".into()),
                    _ => check(x.0.swap(1, Ordering::AcqRel) != 1, "swap", || "what it writes is read".into()),
                }
            }),
            Box::new(move || {
                let r = match reader {
                    0 => x.0.load(Ordering::Acquire),
                    1 => x.0.swap(2, Ordering::Acquire),
                    2 => x.0.swap(2, Ordering::AcqRel),
                    _ => x.0.load(Ordering::SeqCst),
                };
                if r == 1 {
                    // (A race, unless the time was published.)
                    let v = unsafe { *x.1.get() };
                    check(v == 2, "published", || "a write that precedes is not seen".into());
                }
            }),
        ];
        fs
    }));
    drop(unsafe { Box::from_raw((x as *const Both<A>).cast_mut()) });
}

fn main() {
    const B: Bounds = Bounds::SEQ.split(2).faults(0);
    const C: Bounds = Bounds::CONC.split(4);
    const fn s(name: &'static str, about: &'static str, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(B), thorough: B, body }
    }
    const fn t(name: &'static str, about: &'static str, quick: usize, thorough: usize, body: fn()) -> Scenario {
        Scenario { name, about, quick: Some(C.depth(quick)), thorough: C.depth(thorough), body }
    }
    mcrt::main(&Prop {
        id: "C28",
        title: "Time values convert and compute without loss",
        assumptions: &[
            "durations are made with less than a second of subsecond nanoseconds (nothing enforces it)",
            "times before an epoch, which can't be denoted, become the epoch; atomic durations keep microseconds, up to their MAX, and zero has no sign",
            "the clocks of the sandbox: what they measure is only compared to what they measured before and after",
        ],
        scenarios: vec![
            s("durations", "pairs of durations, added up, compared and converted", durations),
            s("made", "durations made of milliseconds and microseconds", made),
            s("floats", "durations made of floating point seconds", floats),
            s("not-floats", "what can't be a duration", not_floats),
            s("points", "system times and instants, added to, compared and converted", points),
            s("clocks", "measures of time", clocks),
            s("atomic", "what atomic durations keep, in each ordering", atomic),
            s("atomic-instant", "what atomic instants keep, in each ordering", atomic_instant),
            s("micros", "each microsecond of a second", micros),
            s("limits", "the limits of atomic durations", limits),
            t("duration-two", "an atomic duration shared by two threads", 2, 4, || shared::<AtomicDuration>(2)),
            t("duration-three", "an atomic duration shared by three threads", 1, 2, || shared::<AtomicDuration>(3)),
            t("instant-two", "an atomic instant shared by two threads", 2, 3, || shared::<AtomicInstant>(2)),
            t("publish-duration", "what precedes the writing of a duration", 1, 1, publish::<AtomicDuration>),
            t("publish-instant", "what precedes the writing of an instant", 1, 1, publish::<AtomicInstant>),
        ],
    })
}
