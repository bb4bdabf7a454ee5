//! Independent SHA-256 / SHA-384 / SHA-512 (FIPS 180-4), used as the digest oracle.

const K512: [u64; 80] = [
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc,
    0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118,
    0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2,
    0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694,
    0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65,
    0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4,
    0xc6e00bf33da88fc2, 0xd5a79147930aa725, 0x06ca6351e003826f, 0x142929670a0e6e70,
    0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df,
    0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
    0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30,
    0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8,
    0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3,
    0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
    0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b,
    0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178,
    0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c,
    0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
];
const H512: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const H384: [u64; 8] = [
    0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939,
    0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4,
];

struct Consts {
    k512: [u64; 80],
    h512: [u64; 8],
    h384: [u64; 8],
    k256: [u32; 64],
    h256: [u32; 8],
}

const fn high<const N: usize>(v: &[u64]) -> [u32; N] {
    let mut o = [0; N];
    let mut i = 0;
    while i < N {
        o[i] = (v[i] >> 32) as u32;
        i += 1;
    }
    o
}

static CONSTS: Consts = Consts { k512: K512, h512: H512, h384: H384, k256: high(&K512), h256: high(&H512) };

fn consts() -> &'static Consts {
    &CONSTS
}

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().take_while(|p| *p * *p <= c).all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

// floor(frac(p^(1/k)) * 2^64) by integer search on big integers (k = 2 or 3).
fn frac_root(p: u64, k: u32) -> u64 {
    // Find r = floor(p^(1/k) * 2^64) using 256-bit style arithmetic via u128 limbs.
    // r < 2^(64+5); compare r^k with p * 2^(64k).
    let mut lo: u128 = 0;
    let mut hi: u128 = 1u128 << 70;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if pow_le(mid, k, p) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}

fn mul_big(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = u64::from(a[i]) * u64::from(b[j]) + u64::from(r[i + j]) + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    r
}

fn pow_le(x: u128, k: u32, p: u64) -> bool {
    let limbs: Vec<u32> = (0..4).map(|i| (x >> (32 * i)) as u32).collect();
    let mut r = limbs.clone();
    for _ in 1..k {
        r = mul_big(&r, &limbs);
    }
    let mut t = vec![0u32; (2 * k) as usize];
    t.push(p as u32);
    t.push((p >> 32) as u32);
    let n = r.len().max(t.len());
    r.resize(n, 0);
    t.resize(n, 0);
    for i in (0..n).rev() {
        if r[i] != t[i] {
            return r[i] < t[i];
        }
    }
    true
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    let c = consts();
    let mut h = c.h256;
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k256[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn sha512_core(data: &[u8], iv: [u64; 8]) -> Vec<u8> {
    let c = consts();
    let mut h = iv;
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u128) * 8).to_be_bytes());
    for blk in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            let mut b = [0u8; 8];
            b.copy_from_slice(&blk[8 * i..8 * i + 8]);
            w[i] = u64::from_be_bytes(b);
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k512[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

/// `algo` is the SPDM BaseHashAlgo bit (1, 2, 4).
pub fn hash(algo: u32, data: &[u8]) -> Vec<u8> {
    match algo {
        1 => sha256(data),
        2 => {
            let mut v = sha512_core(data, consts().h384);
            v.truncate(48);
            v
        }
        4 => sha512_core(data, consts().h512),
        _ => panic!("oracle: hash {algo:#x}"),
    }
}

/// Known answers for "abc"; run once at start-up so that the oracle itself is checked.
pub fn self_test() -> bool {
    // the tables are what the standard defines them to be (too slow under Miri)
    if !cfg!(miri) {
        let p = primes(80);
        if (0..80).any(|i| K512[i] != frac_root(p[i], 3)) || (0..8).any(|i| H512[i] != frac_root(p[i], 2) || H384[i] != frac_root(p[i + 8], 2)) {
            return false;
        }
    }
    let hex = |v: Vec<u8>| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
    hex(hash(1, b"abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
        && hex(hash(2, b"abc")).starts_with("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded163")
        && hex(hash(4, b"abc")).starts_with("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea2")
}
