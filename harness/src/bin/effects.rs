//! Calls between markers, to be run under strace.
//!   effects PLAN OUT      PLAN: "id call" lines, run in order on one thread
//! A marker is a write to a file descriptor that does not exist.  Output lines:
//! "id outcome changed": what the call left changed in the process (or "-").
#[path = "../call.rs"]
mod call;
use call::{Call, Outcome};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}
fn mark(what: &str, id: u64) {
    let s = format!("{} {}", what, id);
    unsafe { write(-77, s.as_ptr(), s.len()) };
}
static PANICS: AtomicU64 = AtomicU64::new(0);
fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
fn world() -> (Vec<(std::ffi::OsString, std::ffi::OsString)>, Option<std::path::PathBuf>) {
    (std::env::vars_os().collect(), std::env::current_dir().ok())
}

fn main() {
    std::panic::set_hook(Box::new(|_| { PANICS.fetch_add(1, SeqCst); }));
    let a: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("plan"));
    let plan: Vec<(u64, Call)> = f.lines().map(|l| {
        let l = l.unwrap();
        let t: Vec<&str> = l.split_whitespace().collect();
        (t[0].parse().unwrap(), Call::parse(&t[1..]))
    }).collect();
    let mut out = std::fs::File::create(&a[2]).expect("out");
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let n = plan.len();
        let threads = tasks();
        for (i, (id, c)) in plan.into_iter().enumerate() {
            let w = world();
            mark("begin", id);
            let o = c.run();
            // what the call left in the buffer of standard output belongs to it
            let _ = std::io::stdout().flush();
            mark("end", id);
            let mut changed = vec![];
            if world() != w {
                changed.push("environment");
            }
            let p = PANICS.load(SeqCst);
            let _ = std::panic::catch_unwind(|| panic!());
            if PANICS.load(SeqCst) != p + 1 {
                changed.push("panic-hook");
            }
            if i % 16 == 15 || i + 1 == n {
                let mut k = 0;
                while tasks() > threads && k < 200 {
                    std::thread::sleep(std::time::Duration::from_millis(10));
                    k += 1;
                }
                if tasks() > threads {
                    changed.push("threads");
                }
            }
            let oc = match o { Outcome::Ok(_) => "ok", Outcome::Panic => "panic" };
            let ch = if changed.is_empty() { "-".to_string() } else { changed.join(",") };
            writeln!(out, "{} {} {}", id, oc, ch).unwrap();
        }
    }).expect("thread");
    h.join().expect("run");
}
