//! Memory use of calls, by a counting allocator.
//!   mem PLAN OUT     PLAN: "id reps mode call" lines, run in order.
//! mode s: the same call reps times; v: with ever different input bytes; t: every time on a
//! new thread; k: the results are kept, live leaves out twice their length.  Output lines: "id outcome size peak live": peak is the largest amount of
//! memory in use during one of the calls above the amount before its arguments were made, and
//! the depth of the stack it used (measured on the first of the calls);
//! live the amount in use after the last one, its result dropped, above the amount at the
//! start of the run.
#[path = "../call.rs"]
mod call;
use call::{Call, Outcome};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
struct Counting;
fn grow(n: i64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 {
        PEAK.fetch_max(l, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grow(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grow(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        grow(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            grow(n as i64 - l.size() as i64);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

fn vary(c: &mut Call, i: u64) {
    let b = match c {
        Call::One { input, .. } => input,
        Call::Lyra { pwd, .. } => pwd,
    };
    for (x, y) in b.iter_mut().zip(i.wrapping_mul(0x9e3779b97f4a7c15).to_le_bytes()) {
        *x ^= y;
    }
}
const DEEP: usize = 6 << 20;
const MARK: u64 = 0x5ca1_ab1e_5ca1_ab1e;
/// The stack below this frame, to be marked before a call and searched after it.
#[inline(never)]
fn below() -> (usize, usize) {
    let here = 0u8;
    let top = (std::hint::black_box(&here as *const u8 as usize) - 512) & !7;
    (top - DEEP, top)
}
#[inline(never)]
fn mark() {
    let (lo, hi) = below();
    let mut p = hi - 8;
    while p >= lo {
        unsafe { (p as *mut u64).write_volatile(MARK) };
        p -= 8;
    }
}
#[inline(never)]
fn used() -> i64 {
    let (lo, hi) = below();
    let mut p = lo;
    while p < hi && unsafe { (p as *const u64).read_volatile() } == MARK {
        p += 8;
    }
    (hi - p) as i64
}

fn once(c: &Call, on_thread: bool, kept: Option<&mut Vec<Vec<u8>>>) -> (u8, u64, i64) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let o = if on_thread {
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || c.run()).expect("thread").join().expect("join")
        })
    } else {
        c.run()
    };
    let peak = PEAK.load(Relaxed) - before;
    match o {
        Outcome::Ok(v) => {
            let n = v.len() as u64;
            if let Some(k) = kept {
                k.push(v);
            }
            (0, n, peak)
        }
        Outcome::Panic => (1, 0, peak),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("plan"));
    let mut plan: Vec<(u64, u64, String, Call)> = f.lines().map(|l| {
        let l = l.unwrap();
        let t: Vec<&str> = l.split_whitespace().collect();
        (t[0].parse().unwrap(), t[1].parse().unwrap(), t[2].into(), Call::parse(&t[3..]))
    }).collect();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(&a[2]).expect("out"));
    let h = std::thread::Builder::new().stack_size(DEEP + (2 << 20)).spawn(move || {
        // what the standard library allocates once, on a first panic or a first thread
        let _ = std::panic::catch_unwind(|| panic!());
        for _ in 0..3 {
            std::thread::scope(|s| { s.spawn(|| { let _ = std::panic::catch_unwind(|| panic!()); }).join().unwrap(); });
        }
        let start = LIVE.load(Relaxed);
        for (id, reps, mode, c) in plan.iter_mut() {
            let (mut kind, mut size, mut peak) = (0, 0, 0);
            let mut kept = Vec::with_capacity(if mode == "k" { *reps as usize } else { 0 });
            for i in 0..*reps {
                if mode == "v" {
                    vary(c, i + 1);
                }
                if i == 0 {
                    mark();
                }
                let r = once(c, mode == "t", if mode == "k" { Some(&mut kept) } else { None });
                kind = r.0;
                size = r.1;
                let stack = if i == 0 { used() } else { 0 };
                peak = (r.2 + stack).max(peak);
                if std::env::var_os("MEM_STACK").is_some() { eprintln!("{}", stack); }
            }
            let own = kept.iter().map(|v| 2 * v.len() as i64 + 64).sum::<i64>() + 24 * kept.capacity() as i64;
            let live = LIVE.load(Relaxed) - start - own;
            writeln!(out, "{} {} {} {} {}", id, ["ok", "panic"][kind as usize], size, peak, live).unwrap();
        }
        out.flush().unwrap();
    }).expect("thread");
    h.join().expect("run");
}
