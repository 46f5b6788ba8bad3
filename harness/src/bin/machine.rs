//! Runs a plan of calls, for an interpreter that emulates another kind of machine or watches
//! every access to memory.  Reads lines `id call...`, writes `machine <big|little> <bits>` and then
//! `id begin` and `id outcome hex` per call.  With THREADS=n the calls are dealt out to n threads.
#[path = "../call.rs"]
#[allow(dead_code)]
mod call;
#[path = "../misuse.rs"]
mod misuse;
use std::io::{BufRead, Write};

fn go(lines: Vec<String>) {
    let out = std::io::stdout();
    for l in lines {
        let t: Vec<&str> = l.split(' ').collect();
        let c = call::Call::parse(&t[1..]);
        writeln!(&out, "{} begin", t[0]).unwrap();
        let o = c.run_once().text();
        writeln!(&out, "{} {}", t[0], o).unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    println!("machine {} {}", if cfg!(target_endian = "big") { "big" } else { "little" }, usize::BITS);
    if let Ok(k) = std::env::var("MISUSE") {
        return misuse::misuse(&k);
    }
    let n: usize = std::env::var("THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut part: Vec<Vec<String>> = vec![vec![]; n];
    for (i, l) in std::io::stdin().lock().lines().enumerate() {
        part[i % n].push(l.unwrap());
    }
    if n == 1 {
        return go(part.remove(0));
    }
    let hs: Vec<_> = part.into_iter().map(|p| std::thread::spawn(move || go(p))).collect();
    for h in hs {
        h.join().unwrap();
    }
}
