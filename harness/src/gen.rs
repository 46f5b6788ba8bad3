//! Deterministic generators.  A focus is a list of sweeps (finite lattices, enumerated
//! completely) followed by an endless seeded random stream.  Calls come in blocks; block b of
//! a focus depends on (focus, seed, b) only.
use super::call::Call;
use super::refmodel::in_domain;

pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_mul(0xd1342543de82ef95) ^ 0x5851f42d4c957f2d);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
}

/// Numbers and strings that occur in the source text of the code under test (a file written by the
/// checks, named by VERIF_DICT).  They only steer what is tried; they decide nothing.
pub struct Dict {
    pub nums: Vec<u64>,
    pub words: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { nums: vec![], words: vec![], strs: vec![] };
        let text = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            match l.split_once(' ') {
                Some(("n", x)) => d.nums.push(x.parse().unwrap()),
                Some(("w", x)) => d.words.push(x.parse().unwrap()),
                Some(("s", x)) => d.strs.push((0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()),
                _ => {}
            }
        }
        d
    })
}

/// a number with evenly distributed magnitude
fn logu(rng: &mut Rng, lo: u64, hi: u64) -> u64 {
    if hi <= lo { return hi }
    let (a, b) = ((lo.max(1) as f64).ln(), (hi.max(1) as f64).ln());
    let x = (a + (b - a) * (rng.below(1 << 30) as f64 / (1u64 << 30) as f64)).exp() as u64;
    x.clamp(lo, hi)
}

fn dict_num(rng: &mut Rng, lo: u64, hi: u64) -> u64 {
    let n = &dict().nums;
    let x = if n.is_empty() { 0 } else { n[rng.below(n.len() as u64) as usize] };
    if (lo..=hi).contains(&x) { x } else { logu(rng, lo, hi) }
}

fn dict_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    let d = dict();
    let mut v = if rng.chance(50) { vec![0u8; n] } else { rnd(rng, n) };
    for _ in 0..rng.range(1, 6) {
        let x: Vec<u8> = if !d.strs.is_empty() && rng.chance(40) {
            d.strs[rng.below(d.strs.len() as u64) as usize].clone()
        } else if !d.words.is_empty() {
            let w = d.words[rng.below(d.words.len() as u64) as usize];
            let b = w.to_le_bytes();
            let l = if w < 1 << 8 && rng.chance(50) { 1 } else if w < 1 << 16 && rng.chance(30) { 2 } else if w < 1 << 32 && rng.chance(70) { 4 } else { 8 };
            let mut b = b[..l].to_vec();
            if rng.chance(30) { b.reverse() }
            b
        } else {
            continue;
        };
        if x.is_empty() { continue }
        if rng.chance(10) {
            for (i, b) in v.iter_mut().enumerate() { *b = x[i % x.len()] }
            continue;
        }
        let slot = (n / x.len()) as u64;
        let at = match rng.below(4) {
            0 => 0,
            1 => n.saturating_sub(x.len()),
            2 => (rng.below(slot + 1) as usize) * x.len(),
            _ => rng.below(n as u64 + 1) as usize,
        };
        for (i, b) in x.iter().enumerate() {
            if at + i < n { v[at + i] = *b }
        }
    }
    v
}

/// Byte strings: random, or with structure that hits carries, padding and equality tests.
pub fn bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match rng.below(18) {
        0 => {}
        1 => v.fill(0xff),
        2 => v.fill(0x80),
        3 => v.fill(rng.next() as u8),
        4 => {
            if n > 0 {
                let i = rng.below(n as u64) as usize;
                v[i] = 1 << rng.below(8);
            }
        }
        5 => {
            for w in v.chunks_mut(8) {
                let x = rng.pick(&[0u64, 1, !0, 1 << 63, !0 >> 1, 0x80, 1 << 56, 0xffffffff, 1 << 32, 0xffff]);
                let l = w.len();
                w.copy_from_slice(&x.to_le_bytes()[..l]);
            }
        }
        6 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = i as u8
            }
        }
        7 => {
            for b in v.iter_mut() {
                *b = rng.range(32, 126) as u8
            }
        }
        8 => {
            let z = rng.below(n as u64 + 1) as usize;
            for b in v[z..].iter_mut() {
                *b = rng.next() as u8
            }
        }
        9 => {
            let z = rng.below(n as u64 + 1) as usize;
            for b in v[..z].iter_mut() {
                *b = rng.next() as u8
            }
        }
        10 => {
            let x = rng.next().to_le_bytes();
            for (i, b) in v.iter_mut().enumerate() {
                *b = x[i % 8]
            }
        }
        11 | 12 => return dict_bytes(rng, n),
        _ => {
            for w in v.chunks_mut(8) {
                let l = w.len();
                w.copy_from_slice(&rng.next().to_le_bytes()[..l]);
            }
        }
    }
    v
}
/// Plain random bytes
fn rnd(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    for w in v.chunks_mut(8) {
        let l = w.len();
        w.copy_from_slice(&rng.next().to_le_bytes()[..l]);
    }
    v
}

/// Capacity for password + salt bytes of an R x C matrix (-1: nothing fits)
pub fn capacity(r: u64, c: u64) -> i64 {
    // 8*((n+48)/64+1) <= 12rc
    let b = (12 * r as i64 * c as i64) / 8; // blocks
    if b < 1 { -1 } else { 64 * b - 48 - 1 }
}

pub fn klen(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0..=3 => 32,
        4..=6 => rng.range(0, 200),
        7 => (96 * rng.range(1, 6) + 2).saturating_sub(rng.below(5)),
        8 => rng.pick(&[0, 1, 7, 8, 9, 16, 31, 33, 48, 63, 64, 65, 95, 96, 97, 128, 191, 192, 193, 255, 256, 257, 288, 384, 512, 768, 1000, 1024]),
        _ => match rng.below(20) {
            0 => logu(rng, 1, 200_000),
            1 | 2 => dict_num(rng, 0, 3000),
            _ => rng.range(0, 2100),
        },
    }
}

/// (pwd, salt) that fit n bytes in total
pub fn secrets(rng: &mut Rng, cap: i64, aligned: bool) -> (Vec<u8>, Vec<u8>) {
    let cap = cap.max(0) as u64;
    let len = |rng: &mut Rng, m: u64| -> u64 {
        let l = match rng.below(9) {
            8 => if rng.chance(50) { logu(rng, 1, m) } else { dict_num(rng, 0, m) },
            0 => 0,
            1 | 2 => rng.range(0, 40),
            3 => rng.pick(&[8, 16, 24, 32, 40, 48, 56, 64, 72, 80, 96, 104, 112, 120, 128]),
            4 => rng.range(0, 300),
            5 => rng.pick(&[15, 16, 17, 79, 80, 81, 63, 64, 65, 7, 9, 1]),
            6 => m,
            _ => rng.range(0, m.min(3000)),
        };
        let l = l.min(m);
        if aligned { l / 8 * 8 } else { l }
    };
    match rng.below(10) {
        0 | 1 => {
            let n = len(rng, cap / 2);
            let p = bytes(rng, n as usize);
            (p.clone(), p)
        }
        2 => {
            let n = len(rng, cap / 2);
            let p = bytes(rng, n as usize);
            let m = if aligned { rng.below(n / 8 + 1) * 8 } else { rng.below(n + 1) };
            let s = p[..m as usize].to_vec();
            if rng.chance(50) { (p, s) } else { (s, p) }
        }
        _ => {
            let a = len(rng, cap);
            let b = len(rng, cap - a);
            let (x, y) = (bytes(rng, a as usize), bytes(rng, b as usize));
            if rng.chance(50) { (x, y) } else { (y, x) }
        }
    }
}

fn near_pow2(rng: &mut Rng, lo: u32, hi: u32) -> u64 {
    let n = 1u64 << rng.range(lo as u64, hi as u64);
    (n + rng.below(5)).saturating_sub(2)
}

/// cost setting; most are cheap, a few large
pub fn costs(rng: &mut Rng) -> (u64, u64, u64) {
    let (t, r, c) = match rng.below(100) {
        0..=44 => (rng.range(1, 4), rng.range(3, 20), rng.range(1, 8)),
        45..=59 => (rng.range(1, 3), rng.pick(&[3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]), rng.pick(&[1, 2, 3, 4, 8, 16])),
        60..=69 => (rng.range(1, 40), rng.range(3, 12), rng.range(1, 4)),
        70..=77 => (rng.range(1, 3), near_pow2(rng, 4, 9), rng.range(1, 3)),
        78..=84 => (rng.range(1, 3), rng.range(3, 6), near_pow2(rng, 4, 8)),
        85..=90 => (near_pow2(rng, 6, 10), rng.range(3, 9), rng.range(1, 2)),
        91..=95 => (rng.range(1, 2), rng.range(21, 300), rng.range(1, 4)),
        96..=98 => (rng.range(1, 2), rng.range(3, 12), rng.range(9, 70)),
        _ => match rng.below(60) {
            40..=54 => {
                // all three of any magnitude, the work bounded
                let mut x = [logu(rng, 1, 60_000), 1, 1];
                x[1] = logu(rng, 1, 60_000 / x[0]);
                x[2] = logu(rng, 1, 60_000 / (x[0] * x[1]));
                let o = rng.below(6) as usize;
                let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][o];
                (x[p[0]], x[p[1]], x[p[2]])
            }
            55..=59 => (dict_num(rng, 1, 40), dict_num(rng, 3, 200), dict_num(rng, 1, 40)),
            0 => (rng.pick(&[65535, 65536, 65537]), rng.range(3, 4), 1),
            1 => (1, rng.pick(&[4095, 4096, 4097, 8192, 16384, 32769, 65536, 65539]), 1),
            2 => (1, 3, rng.pick(&[1023, 1024, 1025, 4096, 16385, 65536, 65537])),
            _ => (rng.range(1, 3), rng.range(3, 128), rng.range(1, 32)),
        },
    };
    (t.max(1), r.max(3), c.max(1))
}

fn lyra(modified: bool, k: u64, p: Vec<u8>, s: Vec<u8>, t: u64, r: u64, c: u64) -> Call {
    Call::Lyra { modified, k, pwd: p, salt: s, t, r, c }
}
fn one(f: &str, x: Vec<u8>) -> Call {
    Call::One { f: f.into(), input: x }
}

pub fn gen_lyra(rng: &mut Rng, modified: bool, aligned: bool) -> Call {
    loop {
        let (t, r, c) = costs(rng);
        let cap = capacity(r, c);
        if cap < 0 {
            continue;
        }
        let (p, s) = secrets(rng, cap, aligned);
        let k = klen(rng);
        return lyra(modified, k, p, s, t, r, c);
    }
}

/// arguments at and beyond the edges of the domain
pub fn gen_domain(rng: &mut Rng, modified: bool) -> Call {
    let k = klen(rng);
    match rng.below(10) {
        0 => {
            let (t, r, c) = (0, rng.range(0, 12), rng.range(0, 6));
            let n = rng.range(0, 40) as usize;
            lyra(modified, k, bytes(rng, n), bytes(rng, n), t, r, c)
        }
        1 => {
            let (t, r, c) = (rng.range(1, 4), rng.range(0, 2), rng.range(0, 40));
            let n = rng.range(0, 40) as usize;
            lyra(modified, k, bytes(rng, n), bytes(rng, n), t, r, c)
        }
        2 => {
            let (t, r) = (rng.range(1, 4), rng.range(3, 40));
            let n = rng.range(0, 20) as usize;
            lyra(modified, k, bytes(rng, n), bytes(rng, n), t, r, 0)
        }
        3..=7 => {
            // just below, at, just above the capacity
            let (t, r, c) = (rng.range(1, 3), rng.range(3, 20), rng.range(1, 10));
            let cap = capacity(r, c).max(0) as u64;
            let n = (cap + 70).saturating_sub(rng.below(140));
            let n = if rng.chance(50) { (cap + 9).saturating_sub(rng.below(18)) } else { n };
            let a = match rng.below(4) { 0 => 0, 1 => n, 2 => n / 2, _ => rng.below(n + 1) };
            lyra(modified, k, bytes(rng, a as usize), bytes(rng, (n - a) as usize), t, r, c)
        }
        8 => {
            // far too long
            let (t, r, c) = (rng.range(1, 3), rng.range(3, 8), rng.range(1, 4));
            let n = capacity(r, c).max(0) as u64 + rng.range(1, 4000);
            let a = rng.below(n + 1);
            lyra(modified, k, bytes(rng, a as usize), bytes(rng, (n - a) as usize), t, r, c)
        }
        _ => gen_lyra(rng, modified, false),
    }
}

pub const COINS: [&str; 4] = ["lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z"];

pub fn gen_coin(rng: &mut Rng, f: &str) -> Call {
    let n = match rng.below(100) {
        0..=39 => 80,
        40..=49 => 32,
        50..=79 => rng.range(0, 300),
        80..=93 => (64 * rng.range(0, 20) + 2).saturating_sub(rng.below(5)),
        94..=97 => rng.range(0, 2000),
        98 => if rng.chance(50) { near_pow2(rng, 8, 14) } else if rng.chance(90) { dict_num(rng, 0, 9000) } else { logu(rng, 1, 1 << 18) },
        _ => rng.range(0, 8000),
    };
    one(f, bytes(rng, n as usize))
}

/// 32-byte blocks for the fixed stages
pub fn gen_stage(rng: &mut Rng, f: &str) -> Call {
    let n = if f == "bmw" && rng.chance(40) { rng.range(0, 55) } else { 32 } as usize;
    let mut v = bytes(rng, n);
    if rng.chance(25) {
        for w in v.chunks_mut(4) {
            if rng.chance(50) {
                let x = rng.pick(&[0u32, 1, !0, 1 << 31, !0 >> 1, 0xffff, 0xffff0000, 0x80, 0x55555555, 0xaaaaaaaa]);
                let l = w.len();
                w.copy_from_slice(&x.to_le_bytes()[..l]);
            }
        }
    }
    one(f, v)
}

fn vary(rng: &mut Rng, base: &Call) -> Call {
    match base {
        Call::One { f, input } => {
            let mut v = input.clone();
            match rng.below(6) {
                0 => { if !v.is_empty() { let i = rng.below(v.len() as u64) as usize; v[i] ^= 1 << rng.below(8) } }
                1 => { if !v.is_empty() { v.pop(); } }
                2 => v.push(0),
                3 => { if !v.is_empty() { let n = v.len() - 1; v[n] = v[n].wrapping_add(1) } }
                4 => { v.reverse() }
                _ => { let n = v.len(); v = bytes(rng, n) }
            }
            if f == "cubehash" { v.resize(32, 0) }
            if f == "bmw" { v.truncate(55) }
            one(f, v)
        }
        Call::Lyra { modified, k, pwd, salt, t, r, c } => {
            let (m, mut k, mut p, mut s, mut t, mut r, mut c) = (*modified, *k, pwd.clone(), salt.clone(), *t, *r, *c);
            match rng.below(16) {
                0 => { if !p.is_empty() { let i = rng.below(p.len() as u64) as usize; p[i] ^= 1 << rng.below(8) } }
                1 => { if !s.is_empty() { let i = rng.below(s.len() as u64) as usize; s[i] ^= 1 << rng.below(8) } }
                2 => { let n = rng.below(p.len() as u64 + 1) as usize; p.truncate(n) }
                3 => { let n = rng.below(s.len() as u64 + 1) as usize; s.truncate(n) }
                4 => { p.extend_from_slice(&[0; 8]) }
                5 => { s.extend_from_slice(&[0; 8]) }
                6 => std::mem::swap(&mut p, &mut s),
                7 => { let n = p.len().saturating_sub(8); s = [p.split_off(n), s].concat() }
                8 => k = klen(rng),
                9 => t = rng.range(1, 4),
                10 => r = rng.range(3, 17),
                11 => c = rng.range(1, 8),
                12 => std::mem::swap(&mut r, &mut c),
                13 => { p.clear() }
                14 => { let n = p.len(); p = rnd(rng, n) }
                _ => { match rng.below(4) { 0 => t = 0, 1 => r = rng.below(3), 2 => c = 0, _ => { p = rnd(rng, 1000 + 96 * (r * c) as usize) } } }
            }
            lyra(m, k, p, s, t, r, c)
        }
    }
}

/// A block of related calls of all functions: a walk over a small pool, with repetitions,
/// one-parameter changes and calls that panic.
pub fn gen_history(rng: &mut Rng, hooks: bool, n: usize) -> Vec<Call> {
    let mut pool: Vec<Call> = Vec::new();
    let fns: &[&str] = if hooks { &["lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum", "cubehash", "bmw"] }
                       else { &["lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "lyra2sum"] };
    for _ in 0..rng.range(2, 5) {
        let c = match rng.below(10) {
            0..=3 => {
                let (t, r, c) = (rng.range(1, 3), rng.range(3, 17), rng.range(1, 8));
                let cap = capacity(r, c);
                let (p, s) = secrets(rng, cap, false);
                let k = klen(rng);
                lyra(hooks && rng.chance(20), k, p, s, t, r, c)
            }
            4 => gen_domain(rng, false),
            5 => gen_lyra_small(rng),
            _ => {
                let f = rng.pick(fns);
                match f {
                    "cubehash" | "bmw" => gen_stage(rng, f),
                    "lyra2sum" => { let n = rng.range(0, 770) as usize; one(f, bytes(rng, n)) }
                    _ => { let n = if rng.chance(50) { 80 } else { rng.range(0, 200) } as usize; one(f, bytes(rng, n)) }
                }
            }
        };
        pool.push(c);
    }
    let mut out = Vec::with_capacity(n);
    while out.len() < n {
        let i = rng.below(pool.len() as u64) as usize;
        if rng.chance(35) && pool.len() < 40 {
            let c = vary(rng, &pool[i]);
            pool.push(c.clone());
            out.push(c);
        } else if rng.chance(10) {
            // the same bytes through another function
            let x = match &pool[i] { Call::One { input, .. } => input.clone(), Call::Lyra { pwd, .. } => pwd.clone() };
            let f = rng.pick(&fns[..5]);
            out.push(one(f, x));
        } else {
            out.push(pool[i].clone());
        }
    }
    out
}
fn gen_lyra_small(rng: &mut Rng) -> Call {
    let (p, s) = secrets(rng, 300, false);
    let k = klen(rng);
    lyra(false, k, p, s, rng.range(1, 2), rng.range(4, 8), 4)
}

// ---------------------------------------------------------------- sweeps
type Sweep = (u64, fn(u64, &mut Rng, bool) -> Option<Call>);

fn sw_rt(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // R 3..140, T 1..5, C 1..3
    let (r, t, c) = (3 + i % 138, 1 + i / 138 % 5, 1 + i / 690);
    Some(lyra(m, 32, bytes(g, 8), bytes(g, 8), t, r, c))
}
fn sw_r(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // R 3..2052
    Some(lyra(m, 32, bytes(g, 8), bytes(g, 8), 1 + i / 2050, 3 + i % 2050, 1))
}
fn sw_t(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // T 1..1100, R in {3,4,5,8}
    Some(lyra(m, 32, bytes(g, 8), bytes(g, 8), 1 + i % 1100, [3, 4, 5, 8][(i / 1100) as usize], 1))
}
fn sw_c(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // C 1..600, R in {3,4}
    Some(lyra(m, 32, bytes(g, 8), bytes(g, 8), 1, 3 + i / 600, 1 + i % 600))
}
fn sw_k(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // k 0..1300
    let (t, r, c) = [(1, 3, 1), (1, 4, 4), (2, 8, 3)][(i / 1301) as usize];
    Some(lyra(m, i % 1301, bytes(g, 8), bytes(g, 8), t, r, c))
}
fn sw_len(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // |pwd|, |salt| in 0..150
    let (a, b) = ((i % 151) as usize, (i / 151) as usize);
    Some(lyra(m, 32, rnd(g, a), rnd(g, b), 1, 4, 4))
}
fn sw_edge(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // R 3..12, C 1..8, total length capacity-10..capacity+10, split 3 ways
    let (r, c, d, sp) = (3 + i % 10, 1 + i / 10 % 8, i / 80 % 21, i / 1680);
    let n = capacity(r, c) + d as i64 - 10;
    if n < 0 {
        return None;
    }
    let n = n as usize;
    let a = [0, n, n / 2, n / 3][sp as usize];
    Some(lyra(m, 32, rnd(g, a), rnd(g, n - a), 1, r, c))
}
fn sw_bad(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    // T 0..2, R 0..5, C 0..3, |pwd| = |salt| in 0..20
    let (t, r, c, n) = (i % 3, i / 3 % 6, i / 18 % 4, (i / 72) as usize);
    Some(lyra(m, 32, rnd(g, n), rnd(g, n), t, r, c))
}
/// counters around powers of two in one dimension at a time
fn sw_wide(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    let e = WIDE[(i % NWIDE) as usize];
    let small = bytes(g, 8);
    let (p, s) = (small.clone(), bytes(g, 8));
    Some(match i / NWIDE {
        0 => lyra(m, 32, p, s, e, 3, 1),
        1 => lyra(m, 32, p, s, 1, e, 1),
        2 if e < 600_000 => lyra(m, 32, p, s, 1, 3, e),
        3 => lyra(m, e, p, s, 1, 3, 1),
        4 if e < 300_000 => lyra(m, 32, rnd(g, e as usize), s, 1, 8, (e + 800) / 760 + 1),
        5 if e < 300_000 => lyra(m, 32, p, rnd(g, e as usize), 1, 8, (e + 800) / 760 + 1),
        6 if e < 300_000 => lyra(m, 32, p, s, e, 4, 2),
        _ => return None,
    })
}
/// lengths from 150 up, step by step growing, alone and combined
fn sw_long(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    let n = (150.0 * 1.004f64.powi((i / 4) as i32)) as usize;
    let cols = |n: usize| (n as u64 + 800) / 760 + 1;
    let x = 8 * g.below(12) as usize;
    let n8 = n / 8 * 8;
    Some(match i % 4 {
        0 => lyra(m, 32, rnd(g, n), rnd(g, x), 1, 8, cols(n)),
        1 => lyra(m, 32, rnd(g, x), rnd(g, n), 1, 8, cols(n)),
        2 => lyra(m, 64, rnd(g, n8), rnd(g, n8), 1, 8, cols(2 * n)),
        _ => { let a = logu(g, 1, n as u64) as usize; lyra(m, 32, rnd(g, a), rnd(g, n - a), 2, 8, cols(n)) }
    })
}
const NLONG: u64 = 4 * 1560; // up to about 75 000
/// every number of the source text in every place a number can go
fn sw_dict(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    let e = *dict().nums.get((i / 14) as usize)?;
    let cols = |n: u64| (n + 800) / 760 + 1;
    let (p, s) = (bytes(g, 8), bytes(g, 8));
    Some(match i % 14 {
        0 => lyra(m, 32, p, s, e, 3, 1),
        1 => lyra(m, 32, p, s, e, 8, 3),
        2 => lyra(m, 32, p, s, 1, e, 1),
        3 => lyra(m, 32, p, s, 2, e, 5),
        4 => lyra(m, 32, p, s, 1, 3, e),
        5 => lyra(m, 32, p, s, 2, 9, e),
        6 => lyra(m, e, p, s, 1, 3, 1),
        7 => lyra(m, e, p, s, 2, 8, 4),
        8 if e < 4_000_000 => lyra(m, 32, rnd(g, e as usize), s, 1, 8, cols(e)),
        9 if e < 4_000_000 => lyra(m, 32, p, rnd(g, e as usize), 1, 8, cols(e)),
        10 if e < 2_000_000 => lyra(m, 32, rnd(g, e as usize), rnd(g, e as usize), 1, 8, cols(2 * e)),
        11 if e < 4_000_000 => { let a = g.below(e + 1) as usize; lyra(m, 32, rnd(g, a), rnd(g, e as usize - a), 1, 8, cols(e)) }
        12 if e < 2_000_000 => { let x = bytes(g, e as usize); lyra(m, 32, x.clone(), x, 1, 4, 4) }
        13 => lyra(m, e, p, s, e, e, e),
        _ => return None,
    })
}
fn ndict() -> u64 {
    dict().nums.len() as u64 * 14
}
/// pairs of small numbers of the source text
fn sw_pair(i: u64, g: &mut Rng, m: bool) -> Option<Call> {
    let d = small_nums();
    let n = d.len() as u64;
    if n == 0 { return None }
    let (a, b) = (d[(i % n) as usize], d[(i / n % n) as usize]);
    let (p, s) = (bytes(g, 8), bytes(g, 8));
    let (t, r, c, k) = match i / (n * n) { 0 => (a, b, 1 + g.below(4), 32), 1 => (a, 3 + g.below(9), b, 32), 2 => (1 + g.below(3), a, b, 32), _ => (1, a, 1 + g.below(3), b) };
    Some(lyra(m, k, p, s, t, r, c))
}
fn small_nums() -> Vec<u64> {
    dict().nums.iter().copied().filter(|n| *n <= 130).take(60).collect()
}
fn npair() -> u64 {
    let n = small_nums().len() as u64;
    4 * n * n
}
const NWIDE: u64 = 24;
const WIDE: [u64; NWIDE as usize] = [
    255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 65540,
    100_000, 131_071, 131_072, 131_073, 262_145, 524_288, 1_048_577,
];

fn lyra_sweeps() -> Vec<Sweep> { vec![
    (690 * 3, sw_rt), (4100, sw_r), (4400, sw_t), (1200, sw_c), (3903, sw_k), (151 * 151, sw_len),
    (80 * 21 * 4, sw_edge), (72 * 21, sw_bad), (NWIDE * 7, sw_wide),
    (NLONG, sw_long), (ndict(), sw_dict), (npair(), sw_pair),
] }
fn sweeps(base: &str) -> Vec<Sweep> {
    match base {
        "lyra" => lyra_sweeps(),
        "bind" => vec![(151 * 151, sw_len), (3903, sw_k), (NLONG, sw_long), (NWIDE * 7, sw_wide), (ndict(), sw_dict)],
        "klen" => vec![(3903, sw_k), (NWIDE * 7, sw_wide), (ndict(), sw_dict), (npair(), sw_pair)],
        "sched" => vec![(2070, sw_rt), (4100, sw_r), (4400, sw_t), (NWIDE * 7, sw_wide), (ndict(), sw_dict), (npair(), sw_pair)],
        "domain" => vec![(80 * 21 * 4, sw_edge), (72 * 21, sw_bad), (4100, sw_r), (4400, sw_t), (NWIDE * 7, sw_wide), (NLONG, sw_long),
                         (ndict(), sw_dict), (npair(), sw_pair)],
        _ => vec![],
    }
}

fn sw_coin(i: u64, g: &mut Rng, f: &str) -> Option<Call> {
    // lengths 0..1199 with three fillings; then lengths near powers of two up to 8 MiB;
    // then every bit of an 80-byte header
    if i < 3600 {
        let n = (i % 1200) as usize;
        let v = match i / 1200 { 0 => rnd(g, n), 1 => vec![0; n], _ => vec![0xff; n] };
        return Some(one(f, v));
    }
    let i = i - 3600;
    if i < 70 {
        let n = (1u64 << (10 + i / 5)) + i % 5;
        return Some(one(f, rnd(g, n as usize - 2)));
    }
    let i = i - 70;
    if i < 640 {
        let mut v = vec![0u8; 80];
        v[(i / 8) as usize] = 1 << (i % 8);
        return Some(one(f, v));
    }
    let n = *dict().nums.get(i as usize - 640)?;
    if n <= 1 << 23 { Some(one(f, bytes(g, n as usize))) } else { None }
}
const COIN_SWEEP: u64 = 3600 + 70 + 640;

fn sw_stage(i: u64, g: &mut Rng, f: &str) -> Call {
    // every single-bit block and its complement; then for bmw every length
    if i < 512 {
        let mut v = vec![if i < 256 { 0u8 } else { 0xff }; 32];
        v[(i % 256 / 8) as usize] ^= 1 << (i % 8);
        return one(f, v);
    }
    if f == "bmw" {
        return one(f, bytes(g, (i % 56) as usize));
    }
    one(f, bytes(g, 32))
}

/// Number of calls in a block
pub const BLOCK: usize = 64;

/// Number of blocks that the sweeps of a focus take
pub fn sweep_blocks(focus: &str) -> u64 {
    let n: u64 = match focus {
        "lyra" | "lyramod" | "bind" | "bindmod" | "klen" | "sched" | "schedmod" | "domain" | "domainmod" =>
            sweeps(focus.trim_end_matches("mod")).iter().map(|s| s.0).sum(),
        "sum" => 3 * 900 + dict().nums.len() as u64,
        "stage" => 1500,
        "cubehash" | "bmw" => 1500,
        "coins" => (COIN_SWEEP + dict().nums.len() as u64) * 4,
        f if COINS.contains(&f) => COIN_SWEEP + dict().nums.len() as u64,
        "all" | "history" | "public" => 0,
        other => panic!("unknown focus {}", other),
    };
    (n + BLOCK as u64 - 1) / BLOCK as u64
}

fn sweep_case(focus: &str, i: u64, g: &mut Rng) -> Option<Call> {
    let m = focus.ends_with("mod");
    let base = focus.trim_end_matches("mod");
    let run = |mut i: u64, list: &[Sweep], g: &mut Rng| -> Option<Call> {
        for (n, f) in list {
            if i < *n {
                return f(i, g, m);
            }
            i -= n;
        }
        None
    };
    match base {
        "lyra" | "bind" | "klen" | "sched" | "domain" => run(i, &sweeps(base), g),
        "sum" => {
            if i >= 2700 {
                let n = *dict().nums.get(i as usize - 2700)?;
                return if n < 1 << 20 { Some(one("lyra2sum", bytes(g, n as usize))) } else { None };
            }
            let n = (i % 900) as usize;
            Some(one("lyra2sum", match i / 900 { 0 => rnd(g, n), 1 => vec![0; n], _ => bytes(g, n) }))
        }
        "stage" => Some(sw_stage(i / 2, g, if i % 2 == 0 { "cubehash" } else { "bmw" })),
        "cubehash" | "bmw" => Some(sw_stage(i, g, base)),
        "coins" => sw_coin(i / 4, g, COINS[(i % 4) as usize]),
        f => sw_coin(i, g, f),
    }
}

/// Block b of a focus.
pub fn block(focus: &str, seed: u64, b: u64, hooks: bool) -> Vec<Call> {
    let fh = focus.bytes().fold(0xcbf29ce484222325u64, |a, c| (a ^ c as u64).wrapping_mul(0x100000001b3));
    let mut g = Rng::new(seed ^ fh, b);
    let sb = sweep_blocks(focus);
    if b < sb {
        return (0..BLOCK as u64).filter_map(|j| sweep_case(focus, b * BLOCK as u64 + j, &mut g)).collect();
    }
    if focus == "history" || focus == "public" {
        return gen_history(&mut g, hooks && focus == "history", BLOCK);
    }
    (0..BLOCK).map(|_| random_case(focus, &mut g, hooks)).collect()
}

fn random_case(focus: &str, g: &mut Rng, hooks: bool) -> Call {
    match focus {
        "lyra" => gen_lyra(g, false, false),
        "lyramod" => if g.chance(5) { gen_domain(g, true) } else { gen_lyra(g, true, false) },
        "bind" => {
            let (t, r, c) = if g.chance(5) { costs(g) } else { (g.range(1, 3), g.range(3, 9), g.range(1, 9)) };
            let (p, s) = secrets(g, capacity(r, c), true);
            let k = klen(g);
            lyra(false, k, p, s, t, r, c)
        }
        "klen" => {
            let (t, r, c) = (g.range(1, 2), g.range(3, 9), g.range(1, 5));
            let (p, s) = secrets(g, capacity(r, c), false);
            let k = if g.chance(50) { g.range(0, 500) } else { klen(g) };
            lyra(false, k, p, s, t, r, c)
        }
        "sched" => {
            let (t, r, c) = costs(g);
            let p = bytes(g, 16);
            let q = bytes(g, 8);
            lyra(false, 32, p, if capacity(r, c) >= 24 { q } else { vec![] }, t, r, c)
        }
        "domain" => gen_domain(g, false),
        "domainmod" => gen_domain(g, true),
        "sum" => {
            let n = if g.chance(20) { g.range(700, 800) } else { g.range(0, 743) } as usize;
            one("lyra2sum", bytes(g, n))
        }
        "stage" => { let f = g.pick(&["cubehash", "bmw"]); gen_stage(g, f) }
        "cubehash" | "bmw" => gen_stage(g, focus),
        "coins" => { let f = g.pick(&COINS); gen_coin(g, f) }
        "all" => match g.below(10) {
            0..=2 => gen_lyra(g, false, false),
            3 => if hooks { gen_lyra(g, true, false) } else { gen_lyra(g, false, false) },
            4 => gen_domain(g, false),
            5 => { let n = g.range(0, 760) as usize; one("lyra2sum", bytes(g, n)) }
            6 => if hooks { let f = g.pick(&["cubehash", "bmw"]); gen_stage(g, f) } else { gen_coin(g, "lyra2rev2") },
            _ => { let f = g.pick(&COINS); gen_coin(g, f) }
        },
        f => gen_coin(g, f),
    }
}

pub fn domain_ok(c: &Call) -> bool {
    match c {
        Call::Lyra { pwd, salt, t, r, c, .. } => in_domain(pwd.len(), salt.len(), *t, *r, *c),
        Call::One { f, input } => f != "lyra2sum" || in_domain(input.len(), input.len(), 1, 4, 4),
    }
}
