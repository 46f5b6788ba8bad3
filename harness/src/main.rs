//! Runs calls on the real code and records what happened.
//!   harness exec PLAN OUT             calls of PLAN in order, in this process
//!   harness conc PLAN OUT             calls "thread call", threads start together
//!   harness race PLAN OUT             many small concurrent runs, each in a fresh process
//!   harness screen key=value ...      many generated calls; records the suspicious ones
//!   harness gen FOCUS SEED BLOCK IDX  prints a generated call
//!   harness info
mod call;
mod gen;
mod misuse;
mod place;
mod refmodel;

use call::{Call, Outcome};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

const HOOKS: bool = cfg!(lyra2_verif);
const STACK: usize = 2 << 20; // what std gives a thread

/// What a worker thread is doing, for the watchdog.
#[derive(Default)]
struct Slot {
    tid: AtomicU64,
    a: AtomicU64,       // block or position
    b: AtomicU64,       // index in the block
    since_ms: AtomicU64, // 0: not inside the code under test
    cpu0: AtomicU64,
}
fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|s| s.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok()).unwrap_or(0)
}
/// CPU time of a thread, in clock ticks (10 ms)
fn cpu_ticks(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}
fn ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}
impl Slot {
    fn enter(&self, t0: Instant, a: u64, b: u64) {
        self.a.store(a, SeqCst);
        self.b.store(b, SeqCst);
        self.cpu0.store(u64::MAX, SeqCst);
        self.since_ms.store(ms(t0), SeqCst);
    }
    fn leave(&self) {
        self.since_ms.store(0, SeqCst);
    }
    /// The call has used more than `cpu` seconds of CPU, or `wall` seconds (blocked).
    fn stuck(&self, t0: Instant, cpu: u64, wall: u64) -> bool {
        let s = self.since_ms.load(SeqCst);
        if s == 0 {
            return false;
        }
        let now = ms(t0);
        if now < s + 500 {
            return false;
        }
        let tid = self.tid.load(SeqCst);
        let c = cpu_ticks(tid);
        let c0 = self.cpu0.load(SeqCst);
        if c0 == u64::MAX {
            self.cpu0.store(c, SeqCst);
            return false;
        }
        // CPU times may be reported late or scaled: never more of it than time has passed
        let used = c.saturating_sub(c0);
        self.since_ms.load(SeqCst) == s && (used > cpu * 100 && now - s > cpu * 1000 || now - s > wall * 1000)
    }
}

fn read_plan(path: &str) -> Vec<(u64, u64, Call)> {
    // "id thread call..."
    BufReader::new(File::open(path).expect("plan")).lines().map(|l| {
        let l = l.unwrap();
        let t: Vec<&str> = l.split_whitespace().collect();
        (t[0].parse().unwrap(), t[1].parse().unwrap(), Call::parse(&t[2..]))
    }).collect()
}

fn hang_limits() -> (u64, u64) {
    let e = |n: &str, d: u64| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    (e("HANG_CPU", 30), e("HANG_WALL", 200))
}

/// Calls in order on one thread (exec), or on the thread named in the plan (conc).
/// Output lines: "id outcome hex start end" (start, end: positions in the global order).
fn run_plan(plan: &str, out: &str, conc: bool) -> i32 {
    let file = File::create(out).expect("out");
    run_set(read_plan(plan), file, conc, None)
}
fn run_set(plan: Vec<(u64, u64, Call)>, file: File, conc: bool, jitter: Option<u64>) -> i32 {
    let n_thr = if conc { plan.iter().map(|p| p.1).max().map_or(1, |m| m + 1) } else { 1 } as usize;
    let mut per: Vec<Vec<(u64, Call)>> = vec![vec![]; n_thr];
    for (id, t, c) in plan {
        per[if conc { t as usize } else { 0 }].push((id, c));
    }
    let slots: Arc<Vec<Slot>> = Arc::new((0..n_thr).map(|_| Slot::default()).collect());
    let file = Arc::new(Mutex::new(file));
    let clock = Arc::new(AtomicU64::new(1));
    let barrier = Arc::new(Barrier::new(n_thr));
    let arrived = Arc::new(AtomicU64::new(0));
    let place: Option<String> = if conc { None } else { std::env::var("PLACE").ok() };
    let t0 = Instant::now();
    let mut hs = vec![];
    for (ti, calls) in per.into_iter().enumerate() {
        let (slots, file, clock, barrier, arrived) = (slots.clone(), file.clone(), clock.clone(), barrier.clone(), arrived.clone());
        let place = place.clone();
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let slot = &slots[ti];
            slot.tid.store(my_tid(), SeqCst);
            let mut buf = String::new();
            match jitter {
                None => { barrier.wait(); }
                Some(j) => {
                    // all threads within nanoseconds (as far as there are processors), then
                    // a delay of their own
                    arrived.fetch_add(1, SeqCst);
                    while arrived.load(SeqCst) < n_thr as u64 {
                        std::hint::spin_loop();
                    }
                    let d = if j == 0 { 0 } else { gen::Rng::new(j, ti as u64).below(j) };
                    for i in 0..d {
                        std::hint::black_box(i);
                    }
                }
            }
            for (id, c) in calls {
                if !conc {
                    // journal: a line without outcome, should the process die in the call
                    writeln!(file.lock().unwrap(), "{} begin", id).unwrap();
                }
                slot.enter(t0, id, 0);
                let s = clock.fetch_add(1, SeqCst);
                let o = if let (Some(p), false) = (&place, c.long()) {
                    let names = &gen::dict().strs;
                    let name = if names.is_empty() { String::new() } else { String::from_utf8_lossy(&names[id as usize % names.len()]).into_owned() };
                    place::run(p, &name, &c, || slot.tid.store(my_tid(), SeqCst))
                } else if c.long() { c.run_once() } else { c.run() };
                let e = clock.fetch_add(1, SeqCst);
                slot.leave();
                let line = format!("{} {} {} {}\n", id, o.text(), s, e);
                if conc { buf.push_str(&line) } else { file.lock().unwrap().write_all(line.as_bytes()).unwrap() }
            }
            if conc {
                file.lock().unwrap().write_all(buf.as_bytes()).unwrap();
            }
        }).expect("thread"));
    }
    let (cpu, wall) = hang_limits();
    let mut naps = 0;
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            return 0;
        }
        for s in slots.iter() {
            if s.stuck(t0, cpu, wall) {
                writeln!(file.lock().unwrap(), "{} hang - 0 0", s.a.load(SeqCst)).unwrap();
                return 3;
            }
        }
        naps += 1;
        std::thread::sleep(Duration::from_micros(if jitter.is_some() && naps < 100 { 50 } else { 2000 }));
    }
}

/// Many small concurrent runs, each in a process of its own in which nothing of the library has
/// run before.  PLAN: "race id thread jitter call" lines, races in order; OUT as for conc.
fn races(plan: &str, out: &str) -> i32 {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        fn _exit(c: i32) -> !;
    }
    drop(File::create(out).expect("out"));
    let mut lines = BufReader::new(File::open(plan).expect("plan")).lines().map(|l| l.unwrap()).peekable();
    let race_of = |l: &str| l.split(' ').next().unwrap().to_string();
    while let Some(first) = lines.next() {
        let race = race_of(&first);
        let mut text = vec![first];
        while lines.peek().map_or(false, |l| race_of(l) == race) {
            text.push(lines.next().unwrap());
        }
        let mut jitter = 0;
        let set: Vec<(u64, u64, Call)> = text.iter().map(|l| {
            let t: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| t[i].parse::<u64>().unwrap();
            jitter = n(3);
            (n(1), n(2), Call::parse(&t[4..]))
        }).collect();
        // this process has one thread: a forked child is a fresh process
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let f = std::fs::OpenOptions::new().append(true).open(out).expect("out");
            let rc = run_set(set, f, true, Some(jitter));
            unsafe { _exit(rc) }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
    }
    0
}

struct Found {
    bad: Vec<(u64, u64, u64, Call, String)>, // cost, block, idx, call, outcome
    sample: Vec<(Call, String)>,
    seen: u64,
    in_domain: u64,
}

fn screen(args: &[String]) -> i32 {
    let get = |k: &str, d: &str| -> String {
        args.iter().find_map(|a| a.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or(d.into())
    };
    let num = |k: &str, d: u64| get(k, &d.to_string()).parse::<u64>().unwrap();
    let focus = get("focus", "lyra");
    let seed = num("seed", 1);
    let threads = num("threads", 8) as usize;
    let random = num("random", 1000); // random blocks after the sweeps
    let first = num("first", 0);
    let max_s = num("max_s", 600);
    let want = num("sample", 100) as usize;
    let sample_cost = num("sample_cost", 400);
    let max_cost = num("max_cost", 3_200_000);
    let cmp = get("cmp", "value");
    let out = get("out", "screen.out");
    let keep = num("keep", 40) as usize;
    let blocks = gen::sweep_blocks(&focus) + random;

    let t0 = Instant::now();
    let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Slot::default()).collect());
    let found: Arc<Vec<Mutex<Found>>> = Arc::new((0..threads).map(|_| Mutex::new(Found { bad: vec![], sample: vec![], seen: 0, in_domain: 0 })).collect());
    let nextb = Arc::new(AtomicU64::new(first));
    let calls_done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for ti in 0..threads {
        let (slots, found, nextb, calls_done, stop) = (slots.clone(), found.clone(), nextb.clone(), calls_done.clone(), stop.clone());
        let (focus, cmp, out) = (focus.clone(), cmp.clone(), out.clone());
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let slot = &slots[ti];
            slot.tid.store(my_tid(), SeqCst);
            let journal = File::create(format!("{}.j{}", out, ti)).expect("journal");
            let mut g = gen::Rng::new(seed ^ 0xabcdef, ti as u64 + 1000 * first);
            loop {
                let b = nextb.fetch_add(1, SeqCst);
                if b >= blocks || stop.load(SeqCst) {
                    break;
                }
                for (i, c) in gen::block(&focus, seed, b, HOOKS).into_iter().enumerate() {
                    if c.cost() > max_cost && gen::domain_ok(&c) {
                        continue;
                    }
                    let mut j = [0u8; 16];
                    j[..8].copy_from_slice(&b.to_le_bytes());
                    j[8..].copy_from_slice(&(i as u64 + 1).to_le_bytes());
                    journal.write_at(&j, 0).unwrap();
                    slot.enter(t0, b, i as u64);
                    let o = c.run();
                    slot.leave();
                    let okd = gen::domain_ok(&c);
                    let good = match cmp.as_str() {
                        "value" => o == refmodel::expect(&c),
                        "class" => matches!(o, Outcome::Ok(_)) == okd,
                        "size" => match (&c, &o) {
                            (Call::One { .. }, Outcome::Ok(v)) => v.len() == 32,
                            (Call::Lyra { k, .. }, Outcome::Ok(v)) => v.len() as u64 == *k,
                            _ => !okd,
                        },
                        "pair" => {
                            let x = match &c { Call::One { input, .. } => input.clone(), _ => unreachable!() };
                            let d = Call::Lyra { modified: false, k: 32, pwd: x.clone(), salt: x, t: 1, r: 4, c: 4 };
                            slot.enter(t0, b, i as u64);
                            let p = d.run();
                            slot.leave();
                            o == p
                        }
                        other => panic!("cmp {}", other),
                    };
                    let f = &mut *found[ti].lock().unwrap();
                    f.seen += 1;
                    f.in_domain += okd as u64;
                    if !good {
                        f.bad.push((c.cost(), b, i as u64, c, o.text()));
                        if f.bad.len() > 2 * keep {
                            // keep the cheapest, and the first few in order
                            f.bad.sort_by_key(|x| x.0);
                            f.bad.truncate(keep);
                        }
                    } else if want > 0 && c.cost() <= sample_cost {
                        let per = want / threads + 1;
                        let n = g.below(f.seen) as usize;
                        if f.sample.len() < per {
                            f.sample.push((c, o.text()));
                        } else if n < per {
                            f.sample[n] = (c, o.text());
                        }
                    }
                    calls_done.fetch_add(1, SeqCst);
                }
                journal.write_at(&[0u8; 16], 0).unwrap();
            }
        }).expect("thread"));
    }
    let (cpu, wall) = hang_limits();
    let mut rc = 0;
    let mut hangs: Vec<(u64, u64)> = vec![];
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        if t0.elapsed().as_secs() > max_s {
            stop.store(true, SeqCst);
        }
        for s in slots.iter() {
            if s.stuck(t0, cpu, wall) {
                hangs.push((s.a.load(SeqCst), s.b.load(SeqCst)));
            }
        }
        if !hangs.is_empty() {
            rc = 3;
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if rc == 0 {
        // a worker that ended early (a fault of the generator, not of a call) is no answer
        for h in hs {
            if h.join().is_err() {
                eprintln!("worker failed");
                return 5;
            }
        }
    }
    let mut f = File::create(&out).expect("out");
    let mut bad = vec![];
    let mut sample = vec![];
    let mut ind = 0;
    for m in found.iter() {
        // a thread cannot be inside the lock here unless it is hanging elsewhere
        let m = m.lock().unwrap();
        ind += m.in_domain;
        bad.extend(m.bad.iter().map(|x| (x.0, x.1, x.2, x.3.clone(), x.4.clone())));
        sample.extend(m.sample.iter().cloned());
    }
    bad.sort_by_key(|x| x.0);
    bad.truncate(keep);
    for (b, i) in hangs {
        let c = gen::block(&focus, seed, b, HOOKS)[i as usize].clone();
        writeln!(f, "bad {} {} {} hang -", b, i, c.text()).unwrap();
    }
    for (_, b, i, c, o) in &bad {
        writeln!(f, "bad {} {} {} {}", b, i, c.text(), o).unwrap();
    }
    for (c, o) in &sample {
        writeln!(f, "sample 0 0 {} {}", c.text(), o).unwrap();
    }
    writeln!(f, "calls {} {} {} {}", calls_done.load(SeqCst), ind, nextb.load(SeqCst).min(blocks), t0.elapsed().as_millis()).unwrap();
    rc
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        // panics of the harness itself are shown; those of the code under test are data
        if let Some(l) = i.location() {
            if l.file().starts_with("src/") && (l.file().ends_with("main.rs") || l.file().ends_with("gen.rs") || l.file().ends_with("call.rs") || l.file().ends_with("refmodel.rs")) {
                eprintln!("harness: {}", i);
            }
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("exec") => run_plan(&a[2], &a[3], false),
        Some("conc") => run_plan(&a[2], &a[3], true),
        Some("race") => races(&a[2], &a[3]),
        Some("screen") => screen(&a[2..]),
        Some("gen") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let b = gen::block(&a[2], n(3), n(4), HOOKS);
            if a.len() > 5 { println!("{}", b[n(5) as usize].text()) } else { for c in b { println!("{}", c.text()) } }
            0
        }
        Some("dump") => {
            // calls of a focus: seed, first block, number of blocks, largest cost
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let all = gen::sweep_blocks(&a[2]);
            let step = (all / (n(5) / 2 + 1)).max(1);
            let mut o = std::io::BufWriter::new(std::io::stdout());
            for j in 0..n(5) {
                // half of them spread over the sweeps, the rest random
                let b = if j % 2 == 0 && j / 2 * step < all { n(4) + j / 2 * step } else { all + n(4) + j };
                for c in gen::block(&a[2], n(3), b, HOOKS) {
                    if c.cost() <= n(6) || !gen::domain_ok(&c) {
                        writeln!(o, "{}", c.text()).unwrap();
                    }
                }
            }
            0
        }
        Some("ref") => {
            // expected outcomes by the screen's reference (diagnosis only)
            for (id, _, c) in read_plan(&a[2]) {
                println!("{} {}", id, refmodel::expect(&c).text());
            }
            0
        }
        Some("misuse") => { misuse::misuse(&a[2]); 0 }
        Some("info") => { println!("hooks={} debug={}", HOOKS, cfg!(debug_assertions)); 0 }
        _ => { eprintln!("usage"); 2 }
    };
    std::process::exit(rc);
}
