//! A recorded call: text form, execution on the real code, outcome.
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Call {
    One { f: String, input: Vec<u8> },
    Lyra { modified: bool, k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64 },
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Outcome {
    Ok(Vec<u8>),
    Panic,
}

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    // long inputs: z<N> is N zero bytes, p<N> N bytes of a fixed pattern
    if let Some(n) = s.strip_prefix('z') {
        return vec![0; n.parse().expect("length")];
    }
    if let Some(n) = s.strip_prefix('p') {
        let n: usize = n.parse().expect("length");
        return (0..n as u64).map(|i| (i.wrapping_mul(0x9e3779b97f4a7c15) >> 56) as u8).collect();
    }
    let n = |c: u8| (c as char).to_digit(16).expect("hex digit") as u8;
    s.as_bytes().chunks(2).map(|p| n(p[0]) << 4 | n(p[1])).collect()
}

impl Call {
    /// `fn input` or `lyra2|lyra2mod k t r c pwd salt`
    pub fn parse(tok: &[&str]) -> Call {
        match tok[0] {
            "lyra2" | "lyra2mod" => {
                let n = |i: usize| tok[i].parse::<u64>().expect("number");
                Call::Lyra {
                    modified: tok[0] == "lyra2mod",
                    k: n(1), t: n(2), r: n(3), c: n(4),
                    pwd: unhex(tok[5]), salt: unhex(tok[6]),
                }
            }
            f => Call::One { f: f.into(), input: unhex(tok[1]) },
        }
    }
    pub fn text(&self) -> String {
        match self {
            Call::One { f, input } => format!("{} {}", f, hex(input)),
            Call::Lyra { modified, k, pwd, salt, t, r, c } => format!(
                "{} {} {} {} {} {} {}",
                if *modified { "lyra2mod" } else { "lyra2" }, k, t, r, c, hex(pwd), hex(salt)
            ),
        }
    }
    /// rough number of sponge permutations, used to prefer cheap witnesses
    pub fn cost(&self) -> u64 {
        match self {
            Call::One { input, .. } => 64 + input.len() as u64 / 16,
            Call::Lyra { k, pwd, salt, t, r, c, .. } => {
                // absorbing may copy the rest of the matrix for every block
                let n = pwd.len() as u64 + salt.len() as u64;
                let cells = r.saturating_mul(*c);
                (t.saturating_add(1)).saturating_mul(cells)
                    .saturating_add((n / 64).saturating_mul(cells) / 10).saturating_add(n / 5).saturating_add(k / 8)
            }
        }
    }
    fn invoke(self) -> Vec<u8> {
        match self {
            Call::Lyra { modified: false, k, pwd, salt, t, r, c } => lyra2::lyra2::lyra2(k, pwd, salt, t, r, c),
            #[cfg(lyra2_verif)]
            Call::Lyra { modified: true, k, pwd, salt, t, r, c } => lyra2::verif_hooks::lyra2mod(k, pwd, salt, t, r, c),
            #[cfg(not(lyra2_verif))]
            Call::Lyra { .. } => panic!("harness built without hooks"),
            Call::One { f, input } => match f.as_str() {
                "lyra2sum" => lyra2::lyra2::sum(input),
                "lyra2re" => lyra2::lyra2re::sum(input),
                "lyra2rev2" => lyra2::lyra2rev2::sum(input),
                "lyra2rev3" => lyra2::lyra2rev3::sum(input),
                "lyra2z" => lyra2::lyra2z::sum(input),
                #[cfg(lyra2_verif)]
                "cubehash" => lyra2::verif_hooks::cubehash256(input),
                #[cfg(lyra2_verif)]
                "bmw" => lyra2::verif_hooks::bmw256(input),
                other => panic!("unknown function {}", other),
            },
        }
    }
    /// The arguments are owned vectors: some of them come with spare capacity.
    fn owned(v: &Vec<u8>) -> Vec<u8> {
        let n = v.len();
        // builds that watch memory get vectors without room to spare
        if n > 1 << 22 || cfg!(verif_exact) {
            return v.clone();
        }
        let mut w = Vec::with_capacity(n + n % 3 * 40);
        w.extend_from_slice(v);
        w.resize(w.capacity(), 0xa5);
        w.truncate(n);
        w
    }
    /// the same call, its arguments with that much room to spare
    pub fn spare(&self, n: usize) -> Call {
        let w = |v: &Vec<u8>| { let mut x = Vec::with_capacity(v.len() + n); x.extend_from_slice(v); x };
        match self {
            Call::One { f, input } => Call::One { f: f.clone(), input: w(input) },
            Call::Lyra { modified, k, pwd, salt, t, r, c } =>
                Call::Lyra { modified: *modified, k: *k, pwd: w(pwd), salt: w(salt), t: *t, r: *r, c: *c },
        }
    }
    pub fn run(&self) -> Outcome {
        let c = match self {
            Call::One { f, input } => Call::One { f: f.clone(), input: Self::owned(input) },
            Call::Lyra { modified, k, pwd, salt, t, r, c } =>
                Call::Lyra { modified: *modified, k: *k, pwd: Self::owned(pwd), salt: Self::owned(salt), t: *t, r: *r, c: *c },
        };
        c.run_once()
    }
    /// without a copy of the arguments
    pub fn run_once(self) -> Outcome {
        match catch_unwind(AssertUnwindSafe(move || self.invoke())) {
            Ok(v) => Outcome::Ok(v),
            Err(_) => Outcome::Panic,
        }
    }
    pub fn long(&self) -> bool {
        match self {
            Call::One { input, .. } => input.len() > 1 << 24,
            Call::Lyra { pwd, salt, .. } => pwd.len() + salt.len() > 1 << 24,
        }
    }
}
impl Outcome {
    pub fn text(&self) -> String {
        match self {
            // too long to print: the length only
            Outcome::Ok(v) if v.len() > 64 << 20 => format!("ok ~{}", v.len()),
            Outcome::Ok(v) => format!("ok {}", hex(v)),
            Outcome::Panic => "panic -".into(),
        }
    }
}
