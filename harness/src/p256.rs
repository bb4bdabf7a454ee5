//! ECDSA signatures over P-256 that are the same in every run: a short table of known nonces makes a
//! signature one multiplication (for test keys only), and replays reproducible. Checked against ring.

/// (x of k*G mod n, 1/k mod n), little-endian limbs; all shapes of r: high bit, leading zeros.
const TABLE: [([u64; 4], [u64; 4]); 13] = [
    // k = 1
    ([0xf4a13945d898c296, 0x77037d812deb33a0, 0xf8bce6e563a440f2, 0x6b17d1f2e12c4247], [0x0000000000000001, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000]),
    // k = 2
    ([0xa60b48fc47669978, 0xc08969e277f21b35, 0x8a52380304b51ac3, 0x7cf27b188d034f7e], [0x79dce5617e3192a9, 0xde737d56d38bcf42, 0x7fffffffffffffff, 0x7fffffff80000000]),
    // k = 3
    ([0xfb41661bc6e7fd6c, 0xe6c6b721efada985, 0xc8f7ef951d4bf165, 0x5ecbe4d1a6330a44], [0x4d26872ca84218e1, 0x7def51c91a0fbf03, 0xaaaaaaaaaaaaaaaa, 0xaaaaaaaa00000000]),
    // k = 4
    ([0x509302446b030852, 0x031fe2db785596ef, 0xa02dde659ee62bd0, 0xe2534a3532d08fbb], [0xb6cb58123d4a5bfd, 0xcdad3c023d51b6e3, 0xbfffffffffffffff, 0xbfffffff40000000]),
    // k = 5
    ([0x21554a0dc3d033ed, 0xef8c82fd1f5be524, 0xd784c85608668fdf, 0x51590b7a515140d2], [0x63f1f55a327a3aaa, 0x25c7cbbc549e52e7, 0x3333333333333333, 0x3333333300000000]),
    // k = 6
    ([0xc6b0aae93c2291a9, 0x024c740debb215b4, 0x92d3242cb897dde3, 0xb01a172a76a4602c], [0x207028f7d2529f19, 0x1d6b263b6093aec4, 0xd555555555555555, 0xd555555480000000]),
    // k = 7
    ([0x300628703187b2a3, 0x7ef9f8b8a80fef5b, 0x25bb30667c01fb60, 0x8e533b6fa0bf7b46], [0xd7ebf0c9fef7c185, 0x5a8b230d0b2b51dc, 0xb6db6db6db6db6db, 0x49249248db6db6db]),
    // k = 9
    ([0xd79e8a4b90949ee0, 0x9e0acb8c2c6df8b3, 0x878938d51d71f872, 0xea68d7b6fedf0b71], [0x6af570a536e1bf66, 0x68f2197ceb0d1f2d, 0x38e38e38e38e38e3, 0x8e38e38daaaaaaab]),
    // k = 379
    ([0xeea78b90a8d7c00a, 0xb06877b787db5f70, 0xd7d740abdbd75c96, 0x005543894af3d00e], [0xd32dbe4a1cf8b431, 0xe3b61e0a81e085d8, 0xa2c949a0159d61f0, 0xf48463f6f076e19b]),
    // k = 552
    ([0xad7637dabf065df3, 0x4ec4d2eda5d5b8f8, 0xc689e1024b48e48f, 0x0075ba8d3430495f], [0x58ce16e42c2d46a5, 0x9a95e647752bd984, 0x903b5cc0ed7303b5, 0xbcc0ed7246f4de9c]),
    // k = 833
    ([0xe42c928710b141a2, 0x0db9e56dd1f0c6ca, 0xe9dfea6672f753e9, 0x00f909ebbc5335e5], [0x3ddf6930753e6e29, 0x0bfc1785477ca9db, 0x3303fec54d235796, 0xe4a5f4517829cbc2]),
    // k = 1094
    ([0x777c3c2c8d26c8fb, 0x263b8d9f21dcb064, 0xda044d5bf30bada6, 0x00d9fe006b9451ba], [0x172bd06fabb7f5f6, 0x1e7a5b8f47e143f4, 0x09204ae1945bbabc, 0x136c1c14843649f2]),
    // k = 40393
    ([0x89465f22994a42f9, 0x1642c5b8a994127c, 0x6c4231eb6e5495aa, 0x00003f5f178aa070], [0x3640f4124df5901f, 0x76ec6271931150df, 0x54e3386982b3fa99, 0xc37166a97491e504]),
];
const N: [u64; 4] = [0xf3b9cac2fc632551, 0xbce6faada7179e84, 0xffffffffffffffff, 0xffffffff00000000];

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub(a: &mut [u64; 4], b: &[u64; 4]) {
    let mut borrow = 0u128;
    for i in 0..4 {
        let x = (1u128 << 64) + u128::from(a[i]) - u128::from(b[i]) - borrow;
        a[i] = x as u64;
        borrow = 1 - (x >> 64);
    }
}
/// (2a + bit) mod n
fn shl(a: &mut [u64; 4], bit: u64) {
    let top = a[3] >> 63;
    for i in (1..4).rev() {
        a[i] = a[i] << 1 | a[i - 1] >> 63;
    }
    a[0] = a[0] << 1 | bit;
    if top == 1 || geq(a, &N) {
        sub(a, &N);
    }
}
fn add(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let x = u128::from(a[i]) + u128::from(b[i]) + c;
        r[i] = x as u64;
        c = x >> 64;
    }
    if c == 1 || geq(&r, &N) {
        sub(&mut r, &N);
    }
    r
}
fn mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut w = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let x = u128::from(a[i]) * u128::from(b[j]) + u128::from(w[i + j]) + c;
            w[i + j] = x as u64;
            c = x >> 64;
        }
        w[i + 4] = c as u64;
    }
    let mut r = [0u64; 4];
    for i in (0..512).rev() {
        shl(&mut r, w[i / 64] >> (i % 64) & 1);
    }
    r
}
fn from_be(b: &[u8]) -> [u64; 4] {
    let mut r = [0u64; 4];
    for (i, x) in b.iter().rev().enumerate() {
        r[i / 8] |= u64::from(*x) << (8 * (i % 8));
    }
    while geq(&r, &N) {
        sub(&mut r, &N);
    }
    r
}
fn to_be(a: &[u64; 4]) -> Vec<u8> {
    a.iter().rev().flat_map(|x| x.to_be_bytes()).collect()
}

/// r and s, for a private key and a message.
pub fn sign(d: &[u8], msg: &[u8]) -> Vec<u8> {
    let e = crate::sha2::hash(1, msg);
    let (r, ki) = &TABLE[usize::from(e[0] ^ e[7]) % TABLE.len()];
    let s = mul(ki, &add(&from_be(&e), &mul(r, &from_be(d))));
    [to_be(r), to_be(&s)].concat()
}
