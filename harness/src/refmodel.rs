//! Fast transcription of the TLA+ specification (spec/*.tla), used only to look at many
//! inputs and nominate suspicious calls.  TLC decides about every nominated call.
use super::call::{Call, Outcome};

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
type V = [u64; 16];
type B = [u64; 12];

#[inline(always)]
fn g(v: &mut V, a: usize, b: usize, c: usize, d: usize) {
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}
fn perm1(v: &mut V) {
    g(v, 0, 4, 8, 12);
    g(v, 1, 5, 9, 13);
    g(v, 2, 6, 10, 14);
    g(v, 3, 7, 11, 15);
    g(v, 0, 5, 10, 15);
    g(v, 1, 6, 11, 12);
    g(v, 2, 7, 8, 13);
    g(v, 3, 4, 9, 14);
}
fn perm12(v: &mut V) {
    for _ in 0..12 {
        perm1(v)
    }
}

pub fn input_blocks(pl: usize, sl: usize) -> u128 {
    (pl as u128 + sl as u128 + 48) / 64 + 1
}
pub fn in_domain(pl: usize, sl: usize, t: u64, r: u64, c: u64) -> bool {
    t >= 1 && r >= 3 && c >= 1 && 8 * input_blocks(pl, sl) <= 12 * r as u128 * c as u128
}

pub fn lyra(modified: bool, k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64) -> Option<Vec<u8>> {
    if !in_domain(pwd.len(), salt.len(), t, r, c) {
        return None;
    }
    let (rr, cc) = (r as usize, c as usize);
    let mut w: Vec<u64> = Vec::new();
    for s in [pwd, salt] {
        for ch in s.chunks_exact(8) {
            w.push(u64::from_le_bytes(ch.try_into().unwrap()));
        }
    }
    w.extend_from_slice(&[k, pwd.len() as u64, salt.len() as u64, t, r, c, 0x80]);
    let n = 8 * input_blocks(pwd.len(), salt.len()) as usize;
    w.resize(n, 0);
    w[n - 1] ^= 1 << 56;
    let mut v: V = [0; 16];
    v[8..].copy_from_slice(&IV);
    for b in w.chunks(8) {
        for i in 0..8 {
            v[i] ^= b[i];
        }
        perm12(&mut v);
    }
    let mut m: Vec<B> = vec![[0; 12]; rr * cc];
    for i in (0..cc).rev() {
        m[i].copy_from_slice(&v[..12]);
        perm1(&mut v);
    }
    for i in 0..cc {
        let p = m[i];
        for j in 0..12 {
            v[j] ^= p[j];
        }
        perm1(&mut v);
        for j in 0..12 {
            m[cc + cc - 1 - i][j] = p[j] ^ v[j];
        }
    }
    let (mut prev, mut rowa, mut step, mut window, mut gap) = (1usize, 0i64, 1i64, 2i64, 1i64);
    for row in 2..rr {
        for i in 0..cc {
            let p = m[prev * cc + i];
            let q = m[rowa as usize * cc + i];
            for j in 0..12 {
                v[j] ^= p[j].wrapping_add(q[j]);
            }
            perm1(&mut v);
            let o = &mut m[row * cc + cc - 1 - i];
            for j in 0..12 {
                o[j] = p[j] ^ v[j];
            }
            let o = &mut m[rowa as usize * cc + i];
            for j in 0..12 {
                o[j] = q[j] ^ v[(j + 11) % 12];
            }
        }
        prev = row;
        rowa = (rowa + step).rem_euclid(window);
        if rowa == 0 {
            step = window + gap;
            window *= 2;
            gap = -gap;
        }
    }
    let mut idx = 0usize;
    let mut ra = rowa as usize;
    for tau in 1..=t {
        let step: i64 = if tau % 2 == 1 { (r / 2) as i64 - 1 } else { -1 };
        let mut row = 0i64;
        loop {
            if modified {
                idx = (v[idx] & 15) as usize;
            }
            ra = (v[idx] & (r - 1)) as usize;
            for i in 0..cc {
                let p = m[prev * cc + i];
                let q = m[ra * cc + i];
                for j in 0..12 {
                    v[j] ^= p[j].wrapping_add(q[j]);
                }
                perm1(&mut v);
                let o = &mut m[row as usize * cc + i];
                for j in 0..12 {
                    o[j] ^= v[j];
                }
                let o = &mut m[ra * cc + i];
                for j in 0..12 {
                    o[j] ^= v[(j + 11) % 12];
                }
            }
            prev = row as usize;
            row = (row + step) & (r as i64 - 1);
            if row == 0 {
                break;
            }
        }
    }
    let b = m[ra * cc];
    for j in 0..12 {
        v[j] ^= b[j];
    }
    perm12(&mut v);
    let mut out = Vec::with_capacity(k as usize + 96);
    while (out.len() as u64) < k {
        for x in &v[..12] {
            out.extend_from_slice(&x.to_le_bytes());
        }
        perm12(&mut v);
    }
    out.truncate(k as usize);
    Some(out)
}

pub fn cubehash(msg: &[u8]) -> Vec<u8> {
    fn rounds(x: &mut [u32; 32], n: usize) {
        for _ in 0..n {
            let mut a = [0u32; 16];
            let mut b = [0u32; 16];
            for i in 0..16 {
                a[i] = x[i].wrapping_add(x[i + 16]);
            }
            for i in 0..16 {
                b[i] = x[i ^ 8].rotate_left(7) ^ a[i];
            }
            let mut a2 = [0u32; 16];
            for i in 0..16 {
                a2[i] = b[i].wrapping_add(a[i ^ 2]);
            }
            for i in 0..16 {
                x[i] = b[i ^ 4].rotate_left(11) ^ a2[i];
                x[i + 16] = a2[i ^ 1];
            }
        }
    }
    static IV: std::sync::OnceLock<[u32; 32]> = std::sync::OnceLock::new();
    let mut x = *IV.get_or_init(|| {
        let mut x = [0u32; 32];
        x[0] = 32;
        x[1] = 32;
        x[2] = 16;
        rounds(&mut x, 160);
        x
    });
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 32 != 0 {
        p.push(0);
    }
    for b in p.chunks(32) {
        for i in 0..8 {
            x[i] ^= u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        rounds(&mut x, 16);
    }
    x[31] ^= 1;
    rounds(&mut x, 160);
    x[..8].iter().flat_map(|w| w.to_le_bytes()).collect()
}

pub fn bmw(msg: &[u8]) -> Vec<u8> {
    fn s(j: usize, x: u32) -> u32 {
        match j {
            0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
            1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
            2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
            3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
            4 => (x >> 1) ^ x,
            _ => (x >> 2) ^ x,
        }
    }
    // sign carried by the second component
    const W: [[(usize, i32); 5]; 16] = [
        [(5, 1), (7, -1), (10, 1), (13, 1), (14, 1)],
        [(6, 1), (8, -1), (11, 1), (14, 1), (15, -1)],
        [(0, 1), (7, 1), (9, 1), (12, -1), (15, 1)],
        [(0, 1), (1, -1), (8, 1), (10, -1), (13, 1)],
        [(1, 1), (2, 1), (9, 1), (11, -1), (14, -1)],
        [(3, 1), (2, -1), (10, 1), (12, -1), (15, 1)],
        [(4, 1), (0, -1), (3, -1), (11, -1), (13, 1)],
        [(1, 1), (4, -1), (5, -1), (12, -1), (14, -1)],
        [(2, 1), (5, -1), (6, -1), (13, 1), (15, -1)],
        [(0, 1), (3, -1), (6, 1), (7, -1), (14, 1)],
        [(8, 1), (1, -1), (4, -1), (7, -1), (15, 1)],
        [(8, 1), (0, -1), (2, -1), (5, -1), (9, 1)],
        [(1, 1), (3, 1), (6, -1), (9, -1), (10, 1)],
        [(2, 1), (4, 1), (7, 1), (10, 1), (11, 1)],
        [(3, 1), (5, -1), (8, 1), (11, -1), (12, -1)],
        [(12, 1), (4, -1), (6, -1), (9, -1), (13, 1)],
    ];
    const RR: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
    fn compress(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
        let mut q = [0u32; 32];
        for i in 0..16 {
            let mut a = 0u32;
            for (ix, sg) in W[i] {
                let x = m[ix] ^ h[ix];
                a = if sg > 0 { a.wrapping_add(x) } else { a.wrapping_sub(x) };
            }
            q[i] = s(i % 5, a).wrapping_add(h[(i + 1) % 16]);
        }
        let add = |i: usize| -> u32 {
            let rm = |k: usize| m[(i + k) % 16].rotate_left(((i + k) % 16) as u32 + 1);
            rm(0).wrapping_add(rm(3)).wrapping_sub(rm(10))
                .wrapping_add((i as u32 + 16).wrapping_mul(0x05555555))
                ^ h[(i + 7) % 16]
        };
        for i in 16..32 {
            let mut a = add(i - 16);
            if i < 18 {
                for k in 1..=16 {
                    a = a.wrapping_add(s(k % 4, q[i + k - 17]));
                }
            } else {
                for k in 1..=14 {
                    let x = q[i + k - 17];
                    a = a.wrapping_add(if k % 2 == 1 { x } else { x.rotate_left(RR[k / 2 - 1]) });
                }
                a = a.wrapping_add(s(4, q[i - 2])).wrapping_add(s(5, q[i - 1]));
            }
            q[i] = a;
        }
        let xl = q[16..24].iter().fold(0, |a, b| a ^ b);
        let xh = q[24..32].iter().fold(xl, |a, b| a ^ b);
        let mut o = [0u32; 16];
        let t = [
            (xh << 5) ^ (q[16] >> 5), (xh >> 7) ^ (q[17] << 8), (xh >> 5) ^ (q[18] << 5),
            (xh >> 1) ^ (q[19] << 5), (xh >> 3) ^ q[20], (xh << 6) ^ (q[21] >> 6),
            (xh >> 4) ^ (q[22] << 6), (xh >> 11) ^ (q[23] << 2),
        ];
        let u = [xl << 8, xl >> 6, xl << 6, xl << 4, xl >> 3, xl >> 4, xl >> 7, xl >> 2];
        for i in 0..8 {
            o[i] = (t[i] ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
        }
        for i in 8..16 {
            o[i] = o[(i + 4) % 8].rotate_left(i as u32 + 1)
                .wrapping_add(xh ^ q[16 + i] ^ m[i])
                .wrapping_add(u[i - 8] ^ q[16 + (i + 7) % 8] ^ q[i]);
        }
        o
    }
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&((msg.len() as u64) * 8).to_le_bytes());
    let mut h = [0u32; 16];
    for i in 0..16 {
        let b = 0x40 + 4 * i as u32;
        h[i] = b << 24 | (b + 1) << 16 | (b + 2) << 8 | (b + 3);
    }
    for b in p.chunks(64) {
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        h = compress(&h, &m);
    }
    let mut f = [0u32; 16];
    for i in 0..16 {
        f[i] = 0xaaaaaaa0 + i as u32;
    }
    compress(&f, &h)[8..].iter().flat_map(|w| w.to_le_bytes()).collect()
}

fn blake(x: &[u8]) -> Vec<u8> {
    use blake_hash::Digest;
    blake_hash::Blake256::digest(x).to_vec()
}
fn keccak(x: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    sha3::Keccak256::digest(x).to_vec()
}
fn skein(x: &[u8]) -> Vec<u8> {
    use blake_hash::Digest;
    skein_hash::Skein512::<digest::generic_array::typenum::U32>::digest(x).to_vec()
}
fn groestl256(x: &[u8]) -> Vec<u8> {
    use sha3::Digest;
    groestl::Groestl256::digest(x).to_vec()
}
fn l(m: bool, x: &[u8], t: u64, r: u64, c: u64) -> Vec<u8> {
    lyra(m, 32, x, x, t, r, c).unwrap()
}

pub fn expect(c: &Call) -> Outcome {
    match c {
        Call::Lyra { modified, k, pwd, salt, t, r, c } => {
            match lyra(*modified, *k, pwd, salt, *t, *r, *c) {
                Some(v) => Outcome::Ok(v),
                None => Outcome::Panic,
            }
        }
        Call::One { f, input: x } => match f.as_str() {
            "lyra2sum" => match lyra(false, 32, x, x, 1, 4, 4) {
                Some(v) => Outcome::Ok(v),
                None => Outcome::Panic,
            },
            "lyra2re" => Outcome::Ok(groestl256(&skein(&l(false, &keccak(&blake(x)), 1, 8, 8)))),
            "lyra2rev2" => Outcome::Ok(bmw(&cubehash(&skein(&l(false, &cubehash(&keccak(&blake(x))), 1, 4, 4))))),
            "lyra2rev3" => Outcome::Ok(bmw(&l(true, &cubehash(&l(true, &blake(x), 1, 4, 4)), 1, 4, 4))),
            "lyra2z" => Outcome::Ok(l(false, &blake(x), 8, 8, 8)),
            "cubehash" => Outcome::Ok(cubehash(x)),
            "bmw" => Outcome::Ok(bmw(x)),
            other => panic!("unknown function {}", other),
        },
    }
}
