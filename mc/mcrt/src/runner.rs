//! Explores scenarios with several worker processes; reports violations, evidence and replays.
use crate::engine::{self, g, Bounds, Outcome};
use crate::shared::*;
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub about: &'static str,
    /// `None`: only explored in the thorough tier.
    pub quick: Option<Bounds>,
    pub thorough: Bounds,
    pub body: fn(),
}
pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
}

fn verif_dir() -> std::path::PathBuf {
    if let Ok(d) = std::env::var("MC_VERIF_DIR") {
        return d.into();
    }
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().parent().unwrap().to_owned()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    key: String,
    what: String,
}
fn load_known(id: &str) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={id}") {
                    if let Some(k) = k.strip_prefix("key=") {
                        v.push(Known { key: k.to_string(), what: w.to_string() });
                    }
                }
            }
        }
    }
    v.truncate(64);
    v
}

static mut CRASH: (*mut Shared, *mut WorkerSlot) = (core::ptr::null_mut(), core::ptr::null_mut());
extern "C" fn on_crash(sig: i32, info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    unsafe {
        let (_, slot) = CRASH;
        if !slot.is_null() {
            (*slot).crash_addr.store((*info).si_addr() as u64, Relaxed);
            (*slot).crash.store(sig as u32, Release);
        }
        libc::_exit(42)
    }
}
fn install_crash_handler(sh: *mut Shared, slot: *mut WorkerSlot) {
    unsafe {
        CRASH = (sh, slot);
        let len = 1 << 16;
        let st = libc::mmap(core::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: len };
        libc::sigaltstack(&ss, core::ptr::null_mut());
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE, libc::SIGTRAP] {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, core::ptr::null_mut());
        }
        // Aborts print messages that nobody reads.
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if std::env::var_os("MC_STDERR").is_none() && null >= 0 {
            libc::dup2(null, 2);
        }
    }
}

fn worker(w: usize, sh: *mut Shared, sc: &Scenario, b: Bounds, known: &[Known], t0: Instant) {
    let slot = unsafe { (*sh).slots.add(w) };
    install_crash_handler(sh, slot);
    let g = g();
    g.bounds = b;
    g.slot = slot;
    g.shared = sh;
    g.worker = w;
    g.sharded = true;
    g.trace = false;
    g.path.clear();
    g.replay_len = 0;
    let s = unsafe { &mut *slot };
    loop {
        g.new_steps = 0;
        let o = engine::run_once(sc.body);
        s.execs.fetch_add(1, Relaxed);
        s.steps.fetch_add(g.new_steps, Relaxed);
        s.faults.fetch_add(engine::faults_injected() as u64, Relaxed);
        if g.pos as u64 > s.max_depth.load(Relaxed) {
            s.max_depth.store(g.pos as u64, Relaxed);
        }
        match o {
            Outcome::Done => {
                let mut count = true;
                if g.pos < b.split {
                    let mut h = 0xE4Du64;
                    for (c, n) in &g.path[..g.pos] {
                        h = engine::mix(h, (*c as u64) << 16 | *n as u64);
                    }
                    count = unsafe { (*sh).claim(h) };
                }
                if count {
                    s.done.fetch_add(1, Relaxed);
                    if g.pos < 4096 && (s.sample_len == 0 || s.done.load(Relaxed) % 997 == 0) {
                        for i in 0..g.pos {
                            s.sample[i] = g.path[i].0;
                        }
                        s.sample_len = g.pos as u32 + 1;
                    }
                }
            }
            Outcome::Pruned => {
                s.pruned.fetch_add(1, Relaxed);
            }
            Outcome::Discarded => {
                s.discarded.fetch_add(1, Relaxed);
            }
            Outcome::Violation => {
                let key = format!("{}/{}", sc.name, g.vio_key);
                if let Some(i) = known.iter().position(|k| k.key == key) {
                    unsafe { (*sh).known_hits[i].fetch_add(1, Relaxed) };
                } else {
                    let p = engine::current_path();
                    unsafe {
                        (*sh).report(&key, &g.vio_msg, &p);
                        (*sh).stop.store(1, Release);
                    }
                }
            }
            Outcome::Skipped | Outcome::Running => {}
        }
        if s.internal_error != 0 {
            break;
        }
        if unsafe { (*sh).stop.load(Relaxed) } != 0 {
            break;
        }
        if s.execs.load(Relaxed) % 64 == 0 && t0.elapsed().as_secs_f64() > b.cap_s {
            s.capped.store(1, Relaxed);
            break;
        }
        // Backtrack.
        g.path.truncate(g.pos);
        loop {
            match g.path.pop() {
                None => {
                    s.finished.store(1, Release);
                    unsafe { libc::_exit(0) };
                }
                Some((c, n)) => {
                    if c + 1 < n {
                        g.path.push((c + 1, n));
                        break;
                    }
                }
            }
        }
        g.replay_len = g.path.len();
    }
    s.finished.store(1, Release);
    unsafe { libc::_exit(0) };
}

/// Replays a path in a child process; returns (key, message, trace).
fn replay(sc: &Scenario, b: Bounds, path: &[u16]) -> (Option<(String, String)>, Vec<String>) {
    unsafe {
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            let sh = Shared::new();
            let slot = (*sh).slots;
            install_crash_handler(sh, slot);
            // In case of a crash, what was logged so far still has to get out: log eagerly.
            let g = g();
            g.bounds = b;
            g.slot = core::ptr::null_mut();
            g.shared = core::ptr::null_mut();
            g.sharded = false;
            g.trace = true;
            g.log.clear();
            g.path.clear();
            LOG_FD = fds[1];
            CRASH = (sh, core::ptr::null_mut());
            g.replay_len = usize::MAX;
            install_trace_crash();
            let o = engine::replay_once(sc.body, path);
            let mut out = String::new();
            for l in g.log.iter().take(4000) {
                out.push_str("L ");
                out.push_str(&l.replace('\n', " "));
                out.push('\n');
            }
            if o == Outcome::Violation {
                out.push_str(&format!("K {}/{}\nM {}\n", sc.name, g.vio_key, g.vio_msg.replace('\n', " ")));
            }
            out.push_str(&format!("O {o:?}\n"));
            let b = out.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let n = libc::write(fds[1], b[i..].as_ptr().cast(), b.len() - i);
                if n <= 0 {
                    break;
                }
                i += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        let t0 = Instant::now();
        let mut hung = false;
        loop {
            let mut pfd = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pfd, 1, 1000);
            if r > 0 {
                let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            } else if t0.elapsed() > Duration::from_secs(40) {
                libc::kill(pid, libc::SIGKILL);
                hung = true;
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let s = String::from_utf8_lossy(&out);
        let mut log = Vec::new();
        let (mut k, mut m, mut fin) = (None, String::new(), false);
        for l in s.lines() {
            match l.split_at(l.len().min(2)) {
                ("L ", r) => log.push(r.to_string()),
                ("K ", r) => k = Some(r.to_string()),
                ("M ", r) => m = r.to_string(),
                ("O ", _) => fin = true,
                _ => {}
            }
        }
        if k.is_none() && !fin {
            k = Some(format!("{}/{}", sc.name, if hung { "hang" } else { "crash" }));
            m = format!("the process died (wait status {st:#x})");
        }
        (k.map(|k| (k, m)), log)
    }
}
static mut LOG_FD: i32 = -1;
extern "C" fn on_trace_crash(_sig: i32, _info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    unsafe {
        // Best effort: the log is plain memory that nobody is modifying any more.
        for l in g().log.iter() {
            libc::write(LOG_FD, c"L ".as_ptr().cast(), 2);
            libc::write(LOG_FD, l.as_ptr().cast(), l.len());
            libc::write(LOG_FD, c"\n".as_ptr().cast(), 1);
        }
        libc::_exit(42)
    }
}
fn install_trace_crash() {
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE, libc::SIGTRAP] {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_trace_crash as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, core::ptr::null_mut());
        }
    }
}

struct Stats {
    execs: u64,
    done: u64,
    pruned: u64,
    discarded: u64,
    steps: u64,
    states: u64,
    outcomes: u64,
    max_depth: u64,
    faults: u64,
    capped: bool,
    wall: f64,
    samples: Vec<String>,
    known: Vec<(usize, u64)>,
    violations: Vec<(String, String, Vec<u16>)>,
    internal: bool,
}

fn explore(sc: &Scenario, b: Bounds, known: &[Known], nw: usize) -> Stats {
    let t0 = Instant::now();
    let sh = Shared::new();
    let mut pids = Vec::new();
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(w, sh, sc, b, known, t0);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut last = vec![(0u64, Instant::now()); nw];
    let mut alive = vec![true; nw];
    let hang_s = 25.0;
    loop {
        let mut any = false;
        for w in 0..nw {
            if !alive[w] {
                continue;
            }
            let slot = unsafe { &*(*sh).slots.add(w) };
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            if r == pids[w] {
                alive[w] = false;
                if slot.finished.load(Acquire) == 0 {
                    let n = (slot.path_len as usize).min(PATH_MAX);
                    let sig = slot.crash.load(Acquire);
                    let key = format!("{}/crash", sc.name);
                    let msg = if sig != 0 {
                        format!("the code under test died with signal {sig} (address {:#x})", slot.crash_addr.load(Relaxed))
                    } else {
                        format!("the worker died (wait status {st:#x})")
                    };
                    unsafe {
                        (*sh).report(&key, &msg, &slot.path[..n]);
                        (*sh).stop.store(1, Release);
                    }
                }
                continue;
            }
            any = true;
            let e = slot.execs.load(Relaxed);
            if e != last[w].0 {
                last[w] = (e, Instant::now());
            } else if last[w].1.elapsed().as_secs_f64() > hang_s {
                unsafe { libc::kill(pids[w], libc::SIGKILL) };
                let n = (slot.path_len as usize).min(PATH_MAX);
                unsafe {
                    (*sh).report(&format!("{}/hang", sc.name), "an execution does not end", &slot.path[..n]);
                    (*sh).stop.store(1, Release);
                }
                slot.finished.store(1, Release);
            }
        }
        if !any {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut s = Stats {
        execs: 0,
        done: 0,
        pruned: 0,
        discarded: 0,
        steps: 0,
        states: 0,
        outcomes: 0,
        max_depth: 0,
        faults: 0,
        capped: false,
        wall: 0.0,
        samples: Vec::new(),
        known: Vec::new(),
        violations: Vec::new(),
        internal: false,
    };
    unsafe {
        for w in 0..nw {
            let slot = &*(*sh).slots.add(w);
            s.execs += slot.execs.load(Relaxed);
            s.done += slot.done.load(Relaxed);
            s.pruned += slot.pruned.load(Relaxed);
            s.discarded += slot.discarded.load(Relaxed);
            s.steps += slot.steps.load(Relaxed);
            s.faults += slot.faults.load(Relaxed);
            s.max_depth = s.max_depth.max(slot.max_depth.load(Relaxed));
            s.capped |= slot.capped.load(Relaxed) != 0;
            s.internal |= slot.internal_error != 0;
        }
        s.states = (*sh).states.len();
        s.outcomes = (*sh).outcomes.len();
        for i in 0..known.len() {
            let h = (*sh).known_hits[i].load(Relaxed);
            if h > 0 {
                s.known.push((i, h));
            }
        }
        let n = (*sh).nvios.load(Acquire).min(VIOS);
        for i in 0..n {
            let v = &*(*sh).vios.add(i);
            if v.ready.load(Acquire) == 1 {
                s.violations.push((
                    String::from_utf8_lossy(&v.key[..v.key_len as usize]).into_owned(),
                    String::from_utf8_lossy(&v.msg[..v.msg_len as usize]).into_owned(),
                    v.path[..v.path_len as usize].to_vec(),
                ));
            }
        }
        if s.violations.is_empty() {
            for w in [0, nw - 1] {
                let slot = &*(*sh).slots.add(w);
                if slot.sample_len > 0 {
                    let p = slot.sample[..slot.sample_len as usize - 1].to_vec();
                    let (_, log) = replay(sc, b, &p);
                    let mut l = log;
                    let n = l.len();
                    if n > 24 {
                        l.truncate(24);
                        l.push(format!("... {} more", n - 24));
                    }
                    s.samples.push(format!("{} decisions {:?}: {}", sc.name, p.iter().take(40).collect::<Vec<_>>(), l.join(" ; ")));
                    if nw == 1 {
                        break;
                    }
                }
            }
        }
        Shared::free(sh);
    }
    s.wall = t0.elapsed().as_secs_f64();
    s
}

pub fn main(p: &Prop) -> ! {
    engine::init();
    let args: Vec<String> = std::env::args().collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut only: Option<String> = None;
    let mut replay_file: Option<String> = None;
    let mut nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, MAXW);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1
            }
            "--scenario" => {
                only = Some(args[i + 1].clone());
                i += 1
            }
            "--replay" => {
                replay_file = Some(args[i + 1].clone());
                i += 1
            }
            "--workers" => {
                nw = args[i + 1].parse().unwrap();
                i += 1
            }
            _ => {}
        }
        i += 1;
    }
    let thorough = tier == "thorough";
    let dir = verif_dir();
    if let Some(f) = replay_file {
        let s = std::fs::read_to_string(&f).expect("cannot read the replay");
        let field = |n: &str| {
            let k = format!("\"{n}\": ");
            let i = s.find(&k).expect("bad replay") + k.len();
            s[i..].to_string()
        };
        let name = field("scenario").split('"').nth(1).unwrap().to_string();
        let t = field("tier").split('"').nth(1).unwrap().to_string();
        let path: Vec<u16> = field("path")
            .split(']')
            .next()
            .unwrap()
            .trim_start_matches('[')
            .split(',')
            .filter_map(|x| x.trim().parse().ok())
            .collect();
        let sc = p.scenarios.iter().find(|s| s.name == name).expect("unknown scenario");
        let b = if t == "thorough" { sc.thorough } else { sc.quick.unwrap_or(sc.thorough) };
        let (v, log) = replay(sc, b, &path);
        for l in log {
            println!("{l}");
        }
        match v {
            Some((k, m)) => {
                println!("VIOLATION property={} replay={f}\n  {k}: {m}", p.id);
                std::process::exit(1)
            }
            None => {
                println!("no violation on this path");
                std::process::exit(0)
            }
        }
    }
    let t0 = Instant::now();
    let known = load_known(p.id);
    let mut total = Vec::new();
    let mut failed = false;
    let mut internal = false;
    for sc in &p.scenarios {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        let b = if thorough {
            sc.thorough
        } else {
            match sc.quick {
                Some(b) => b,
                None => continue,
            }
        };
        let s = explore(sc, b, &known, nw);
        println!(
            "{}: {}{} executions {} (pruned {}), states {}, transitions {}, outcomes {}, depth {}, {:.1}s",
            p.id,
            sc.name,
            if s.capped { " [CAPPED]" } else { "" },
            s.done,
            s.pruned,
            s.states,
            s.steps,
            s.outcomes,
            s.max_depth,
            s.wall
        );
        for (i, h) in &s.known {
            println!("KNOWN-FINDING: property={} {} ({} executions)", p.id, known[*i].what, h);
        }
        if s.internal {
            eprintln!("INTERNAL ERROR in {} {}", p.id, sc.name);
            internal = true;
        }
        // Confirm violations by replaying them.
        let mut vs = s.violations.clone();
        vs.sort_by_key(|v| v.2.len());
        if let Some((key, msg, path)) = vs.first() {
            let (r, log) = replay(sc, b, path);
            let rd = dir.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let file = rd.join(format!("{}-{}.json", p.id, sc.name.replace(['/', ' '], "_")));
            let mut o = String::new();
            o.push_str("{\n");
            o.push_str(&format!(" \"property\": {},\n \"scenario\": {},\n \"tier\": {},\n", jstr(p.id), jstr(sc.name), jstr(&tier)));
            o.push_str(&format!(" \"key\": {},\n \"message\": {},\n", jstr(key), jstr(msg)));
            o.push_str(&format!(" \"about\": {},\n", jstr(sc.about)));
            o.push_str(&format!(" \"confirmed_by_replay\": {},\n", r.is_some()));
            o.push_str(&format!(
                " \"path\": [{}],\n \"trace\": [\n",
                path.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
            ));
            for (i, l) in log.iter().enumerate() {
                o.push_str(&format!("  {}{}\n", jstr(l), if i + 1 < log.len() { "," } else { "" }));
            }
            o.push_str(" ]\n}\n");
            let _ = std::fs::write(&file, o);
            println!("  {key}: {msg}");
            for l in log.iter().rev().take(40).rev() {
                println!("    {l}");
            }
            println!("VIOLATION property={} replay={}", p.id, file.display());
            failed = true;
        }
        total.push((sc, b, s));
    }
    // Evidence.
    let sum = |f: fn(&Stats) -> u64| total.iter().map(|(_, _, s)| f(s)).sum::<u64>();
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(
        " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n",
        jstr(p.id),
        jstr(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1)
    ));
    let exhaustive = !failed && !internal && total.iter().all(|(_, _, s)| !s.capped);
    o.push_str(&format!(
        " \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"executions_started\": {}, \"pruned_as_already_visited\": {}, \"distinct_outcomes\": {}, \"faults_injected\": {}, \"exhaustive\": {},\n",
        sum(|s| s.states),
        sum(|s| s.steps),
        sum(|s| s.done),
        sum(|s| s.execs),
        sum(|s| s.pruned),
        sum(|s| s.outcomes),
        sum(|s| s.faults),
        exhaustive
    ));
    o.push_str("  \"explanation\": \"Every execution runs the real, instrumented code; traces_validated_against_impl counts the complete executions compared step by step with the oracle. exhaustive: every decision sequence within the stated bounds was explored.\",\n");
    o.push_str("  \"scenarios\": [\n");
    for (i, (sc, b, s)) in total.iter().enumerate() {
        o.push_str(&format!(
            "   {{\"name\": {}, \"about\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"pruned\": {}, \"discarded\": {}, \"outcomes\": {}, \"max_decisions\": {}, \"bounds\": {}, \"complete\": {}, \"wall_s\": {:.2}}}{}\n",
            jstr(sc.name),
            jstr(sc.about),
            s.states,
            s.steps,
            s.done,
            s.pruned,
            s.discarded,
            s.outcomes,
            s.max_depth,
            jstr(&format!(
                "depth {}, width {}, preemptions {}, stale reads {}, faults {}",
                b.depth,
                b.width,
                if b.preempt == u32::MAX { "unbounded".to_string() } else { b.preempt.to_string() },
                b.stale,
                b.faults
            )),
            !s.capped,
            s.wall,
            if i + 1 < total.len() { "," } else { "" }
        ));
    }
    o.push_str("  ],\n  \"samples\": [\n");
    let samples: Vec<&String> = total.iter().flat_map(|(_, _, s)| s.samples.iter()).collect();
    for (i, l) in samples.iter().enumerate() {
        o.push_str(&format!("   {}{}\n", jstr(l), if i + 1 < samples.len() { "," } else { "" }));
    }
    o.push_str("  ]\n },\n \"assumptions\": [\n");
    for (i, a) in p.assumptions.iter().enumerate() {
        o.push_str(&format!("  {}{}\n", jstr(a), if i + 1 < p.assumptions.len() { "," } else { "" }));
    }
    o.push_str(&format!(
        " ],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        t0.elapsed().as_secs_f64(),
        total.iter().map(|(_, _, s)| s.violations.len()).sum::<usize>()
    ));
    if only.is_none() {
        let ed = dir.join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        std::fs::write(ed.join(format!("{}.json", p.id)), o).expect("cannot write the evidence");
    }
    if failed {
        std::process::exit(1)
    }
    if internal {
        std::process::exit(2)
    }
    println!("{}: held on everything explored ({:.1}s)", p.id, t0.elapsed().as_secs_f64());
    std::process::exit(0)
}
