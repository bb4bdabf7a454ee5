//! Generators: legal and illegal requests and responses, mutations, buffer sizes.

use crate::model_req::*;
use crate::model_rsp::*;
use crate::peer::{rand_opaque, Peer};
use crate::refcodec::*;
use crate::rng::Rng;
use crate::util::*;

pub const CODES: [u8; 16] = [
    GET_VERSION, VERSION, GET_CAPABILITIES, CAPABILITIES, NEGOTIATE_ALGORITHMS, ALGORITHMS, GET_DIGESTS, DIGESTS,
    GET_CERTIFICATE, CERTIFICATE, CHALLENGE, CHALLENGE_AUTH, GET_MEASUREMENTS, MEASUREMENTS, ERROR, 0xFE,
];

fn subset32(r: &mut Rng, mask: u32) -> u32 {
    match r.below(4) {
        0 => mask,
        1 => {
            // one bit
            let bits: Vec<u32> = (0..32).map(|i| 1u32 << i).filter(|b| b & mask != 0).collect();
            *r.pick(&bits)
        }
        _ => r.next() as u32 & mask,
    }
}

pub fn negotiate_valid(r: &mut Rng) -> Negotiate {
    let mut n = Negotiate {
        spec: if r.chance(3, 4) { 1 } else { 0 },
        asym: subset32(r, 0x1FF) | cfg().asym,
        hash: subset32(r, 0x3F),
        ext_asym: 0,
        ext_hash: 0,
        structs: vec![],
    };
    if n.hash & cfg().hashes == 0 {
        let b: Vec<u32> = (0..3).map(|i| 1u32 << i).filter(|b| cfg().hashes & b != 0).collect();
        n.hash |= *r.pick(&b);
    }
    if r.chance(1, 4) {
        n.ext_asym = r.below(4) as u8;
        n.ext_hash = r.below(4) as u8;
    }
    for ty in 2..=5u8 {
        if r.chance(3, 4) {
            let m = alg_mask(ty);
            let mut bits = subset32(r, u32::from(m)) as u16;
            if bits == 0 {
                bits = 1;
            }
            n.structs.push(AlgStruct { ty, bits, ext: if r.chance(1, 8) { r.below(5) as u8 } else { 0 } });
        }
    }
    while n.size() > 128 {
        if n.ext_asym > 0 {
            n.ext_asym -= 1
        } else if n.ext_hash > 0 {
            n.ext_hash -= 1
        } else {
            n.structs.pop();
        }
    }
    n
}

pub fn negotiate_odd(r: &mut Rng) -> Negotiate {
    let mut n = negotiate_valid(r);
    for _ in 0..r.range(1, 3) {
        match r.below(10) {
            0 => n.asym = subset32(r, 0x1FF & !cfg().asym),
            1 => n.hash = subset32(r, 0x3F & !cfg().hashes),
            2 => n.asym = 0,
            3 => n.hash = 0,
            4 => n.asym |= 1 << r.range(9, 31),
            5 => n.hash |= 1 << r.range(6, 31),
            6 => n.spec = r.byte(),
            7 => {
                if let Some(i) = (!n.structs.is_empty()).then(|| r.below(n.structs.len())) {
                    match r.below(4) {
                        0 => n.structs[i].bits = 0,
                        1 => n.structs[i].bits |= 1 << r.below(16),
                        2 => n.structs[i].ty = r.byte(),
                        _ => n.structs[i].ext = r.below(16) as u8,
                    }
                }
            }
            8 => {
                // duplicates and order
                if let Some(i) = (!n.structs.is_empty()).then(|| r.below(n.structs.len())) {
                    let s = n.structs[i];
                    let at = r.below(n.structs.len() + 1);
                    n.structs.insert(at, s);
                }
            }
            _ => {
                n.ext_asym = r.byte();
                n.ext_hash = if r.chance(1, 2) { r.byte() } else { 0 };
            }
        }
    }
    n
}

/// A legal next request.
pub fn req_valid(r: &mut Rng, m: &RspModel) -> Vec<u8> {
    match m.ph {
        Ph::Version | Ph::Error => get_version(),
        Ph::Caps => {
            let f = match r.below(4) {
                0 => cfg().caps,
                1 => subset32(r, REQ_MASK),
                2 => REQ_MASK,
                _ => r.next() as u32 & REQ_MASK,
            };
            caps(GET_CAPABILITIES, r.byte(), f)
        }
        Ph::Algs => {
            let mut n = negotiate_valid(r);
            if !CRYPTO {
                n.hash |= 1;
            }
            n.enc()
        }
        Ph::IdAuth => {
            if r.chance(1, 3) {
                get_digests()
            } else {
                let filled: Vec<u8> = (0..m.slots.len()).filter(|i| m.slots[*i].is_some()).map(|i| i as u8).collect();
                let slot = if filled.is_empty() { 0 } else { *r.pick(&filled) };
                get_cert(slot, 0, LIM.chain.min(0xFFFF) as u16)
            }
        }
        Ph::Challenge => {
            let filled: Vec<u8> = (0..m.slots.len()).filter(|i| m.slots[*i].is_some()).map(|i| i as u8).collect();
            let slot = if filled.is_empty() { 0 } else { *r.pick(&filled) };
            let nonce = r.bytes(NONCE);
            challenge(slot, *r.pick(&[0, 0, 1, 0xFF]), &nonce)
        }
    }
}

/// A request for the current phase with unusual field values.
pub fn req_odd(r: &mut Rng, m: &RspModel) -> Vec<u8> {
    match m.ph {
        Ph::Caps => match r.below(3) {
            0 => caps(GET_CAPABILITIES, r.byte(), r.next() as u32),
            1 => caps(GET_CAPABILITIES, r.byte(), (r.next() as u32 & REQ_MASK) | 1 << r.below(32)),
            _ => caps(GET_CAPABILITIES, r.byte(), 0),
        },
        Ph::Algs => {
            let n = negotiate_odd(r);
            let mut v = n.enc();
            if r.chance(1, 6) {
                // declared length
                let l = *r.pick(&[0u16, 32, 127, 128, 129, 0xFFFF]);
                v[4] = l as u8;
                v[5] = (l >> 8) as u8;
            }
            if r.chance(1, 8) {
                v[2] = r.byte();
            }
            v
        }
        Ph::IdAuth => {
            if r.chance(1, 6) {
                let mut v = get_digests();
                let i = r.range(2, 3);
                v[i] = r.byte();
                return v;
            }
            let slot = match r.below(4) {
                0 => r.byte(),
                1 => LIM.slots as u8,
                2 => LIM.slots as u8 - 1,
                _ => r.below(9) as u8,
            };
            let off = if r.chance(1, 4) { r.next() as u16 } else { 0 };
            let len = match r.below(4) {
                0 => r.next() as u16,
                1 => 0,
                2 => r.below(64) as u16,
                _ => 0xFFFF,
            };
            get_cert(slot, off, len)
        }
        Ph::Challenge => {
            let slot = match r.below(4) {
                0 => r.byte(),
                1 => LIM.slots as u8,
                2 => *r.pick(&[0x0F, 0x80, 0x10, 0xFF]),
                _ => r.below(9) as u8,
            };
            let mt = if r.chance(1, 2) { *r.pick(&[0, 1, 0xFF]) } else { r.byte() };
            let n = r.bytes(NONCE);
            challenge(slot, mt, &n)
        }
        _ => {
            let mut v = get_version();
            match r.below(3) {
                0 => v[0] = *r.pick(&[0x11, 0x12, 0, 0xFF]),
                1 => v[2] = r.byte(),
                _ => v[3] = r.byte(),
            }
            v
        }
    }
}

/// Some request of any type, for phases where it may be out of order.
pub fn req_other(r: &mut Rng, m: &RspModel) -> Vec<u8> {
    let mut x = m.clone();
    x.ph = *r.pick(&[Ph::Version, Ph::Caps, Ph::Algs, Ph::IdAuth, Ph::Challenge]);
    let mut v = match r.below(6) {
        0 => {
            let code = *r.pick(&CODES);
            let n = r.len_near(&[0, 1, 2], 80);
            let mut v = hdr(code);
            v.extend(r.bytes(n));
            v
        }
        1 => {
            let g = GetMeas { sig: r.chance(1, 2), raw: r.chance(1, 2), index: r.byte(), nonce: r.bytes(NONCE), slot: r.below(9) as u8 };
            g.enc()
        }
        2 => vec![*r.pick(&[0x10, 0x11, 0x12]), r.byte(), 0, 0],
        _ => req_valid(r, &x),
    };
    if r.chance(1, 8) {
        v[0] = *r.pick(&[0x10, 0x11, 0x12, 0x00, 0xFF]);
    }
    v
}

pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) -> &'static str {
    match r.below(10) {
        0 | 1 | 2 => {
            if !v.is_empty() {
                let i = if r.chance(1, 2) { r.below(v.len()) } else { r.below(v.len().min(16)) };
                v[i] ^= 1 << r.below(8);
            }
            "bit"
        }
        3 => {
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF]);
            }
            "byte"
        }
        4 | 5 => {
            let n = r.below(v.len() + 1);
            v.truncate(n);
            "truncate"
        }
        6 => {
            let n = r.range(1, 40);
            let x = r.bytes(n);
            v.extend(x);
            "extend"
        }
        7 => {
            if v.len() > 1 {
                let i = r.below(v.len());
                v.remove(i);
            }
            "delete"
        }
        8 => {
            let i = r.below(v.len() + 1);
            v.insert(i, r.byte());
            "insert"
        }
        _ => {
            if v.len() > 4 {
                let i = r.below(v.len() - 1);
                let n = r.range(1, (v.len() - i).min(8));
                for k in i..i + n {
                    v[k] = r.byte();
                }
            }
            "scramble"
        }
    }
}

/// Anything a peer could send to a responder in this phase.
pub fn req_any(r: &mut Rng, m: &RspModel) -> Vec<u8> {
    let mut v = req_any_short(r, m);
    if r.chance(1, 24) {
        tail(r, &mut v);
    }
    v
}

/// Something long behind a message.
pub fn tail(r: &mut Rng, v: &mut Vec<u8>) {
    let n = r.len_near(&[128, 200, 256, 512, 1024, 4096], 3000);
    let n = if r.chance(1, 40) { 65536 + n } else { n };
    let b = if r.chance(1, 2) { vec![0; n] } else { r.bytes(n) };
    v.extend(b);
}

fn req_any_short(r: &mut Rng, m: &RspModel) -> Vec<u8> {
    match r.below(20) {
        0..=6 => req_valid(r, m),
        7..=10 => req_odd(r, m),
        11 => get_version(),
        12 | 13 => req_other(r, m),
        14 | 15 => {
            let mut v = req_valid(r, m);
            mutate(r, &mut v);
            v
        }
        16 => {
            let mut v = req_odd(r, m);
            mutate(r, &mut v);
            v
        }
        17 => {
            let n = r.below(8);
            r.bytes(n)
        }
        18 => {
            let n = r.len_near(&[2, 3, 4, 128, 1024, LIM.transcript], 2 * LIM.transcript);
            let mut v = r.bytes(n);
            let q = req_valid(r, m);
            for (a, b) in v.iter_mut().zip(&q) {
                *a = *b;
            }
            v
        }
        _ => {
            let mut v = req_valid(r, m);
            let n = r.len_near(&[1, 2, 3], 6);
            v.truncate(n);
            v
        }
    }
}

/// Response buffer sizes: mostly ample, often around the needed size.
pub fn bufsize(r: &mut Rng, need: usize) -> usize {
    match r.below(8) {
        0 => r.below(12),
        1 => (need + r.below(5)).saturating_sub(2),
        2 => need,
        3 => r.below(need + 16),
        _ => 1024 + LIM.chain,
    }
}

// ---------------------------------------------------------------- responses
/// A response of the kind expected in `ph`, well formed, contents chosen freely.
pub fn rsp_wild(r: &mut Rng, ph: Rp, peer: &Peer) -> Vec<u8> {
    let dl = digest_len(peer.hash);
    match ph {
        Rp::Version => {
            let n = r.below(4);
            let mut e: Vec<[u8; 4]> = vec![];
            for _ in 0..n {
                e.push(*r.pick(&[[1u8, 1, 0, 0], [1, 0, 0, 0], [1, 2, 0, 0], [2, 1, 0, 0], [1, 1, 0, 1], [1, 1, 1, 0], [0, 0, 0, 0], [1, 0, 0, 1], [9, 9, 9, 9]]));
            }
            version(&e)
        }
        Rp::Caps => caps(CAPABILITIES, r.byte(), if r.chance(3, 4) { r.next() as u32 & RSP_MASK } else { r.next() as u32 }),
        Rp::Algs => {
            let mut a = peer.algs();
            for _ in 0..r.below(3) {
                match r.below(8) {
                    0 => a.asym = 1 << r.below(10),
                    1 => a.hash = 1 << r.below(7),
                    2 => a.meas_hash = 1 << r.below(7),
                    3 => a.asym |= 1 << r.below(9),
                    4 => a.hash |= 1 << r.below(6),
                    5 => a.spec = r.below(3) as u8,
                    _ => {
                        a.structs.clear();
                        for _ in 0..r.below(5) {
                            let ty = r.range(2, 5) as u8;
                            let b = if r.chance(3, 4) { 1u16 << r.below(9) } else { r.next() as u16 & 0x1FF };
                            a.structs.push(AlgStruct { ty, bits: b, ext: if r.chance(1, 10) { r.below(16) as u8 } else { 0 } });
                        }
                    }
                }
            }
            a.enc()
        }
        Rp::Digests => {
            let m = r.byte();
            let n = (0..LIM.slots.min(8)).filter(|i| m >> i & 1 == 1).count();
            let ds: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(dl)).collect();
            digests(m, &ds)
        }
        Rp::Cert => {
            let n = r.len_near(&[0, 4, 36, LIM.chain], (LIM.chain + 40).min(65535));
            let b = if r.chance(1, 2) { r.bytes(n) } else { der_soup(r, dl, n) };
            let slot = if r.chance(1, 6) { r.byte() } else { 0 };
            certificate(slot, if r.chance(1, 8) { r.next() as u16 } else { 0 }, &b)
        }
        Rp::Challenge => {
            let mut a = peer.auth();
            for _ in 0..r.below(4) {
                match r.below(8) {
                    0 => a.slot = r.below(16) as u8,
                    1 => a.mask = r.byte(),
                    2 => a.hash = r.bytes(dl),
                    3 => a.nonce = r.bytes(NONCE),
                    4 => a.opaque = rand_opaque(r, &Lim { opq_elems: LIM.opq_elems + 2, opq_data: LIM.opq_data + 3, ..LIM }),
                    5 => a.resv = r.below(8) as u8,
                    6 => a.sig = vec![*r.pick(&[0, 0xFF, 0x80]); 64],
                    _ => a.mutual = !a.mutual,
                }
            }
            a.enc()
        }
        _ => error(r.byte(), r.byte(), &[]),
    }
}

/// Bytes with the outer shape of a certificate chain and hostile DER inside.
pub fn der_soup(r: &mut Rng, dl: usize, n: usize) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 0];
    v.extend(r.bytes(dl));
    for _ in 0..r.below(LIM.depth + 4) {
        let tag = if r.chance(7, 8) { 0x30 } else { r.byte() };
        let l = r.len_near(&[0, 1, 127, 128, 255, 256], 300);
        match r.below(6) {
            0 => v.extend_from_slice(&[tag, l as u8]),
            1 => v.extend_from_slice(&[tag, 0x81, l as u8]),
            2 => v.extend_from_slice(&[tag, 0x82, (l >> 8) as u8, l as u8]),
            3 => v.extend_from_slice(&[tag, r.byte()]),
            _ => {
                let b = r.bytes(l);
                v.extend(crate::der::tlv(tag, &b));
                continue;
            }
        }
        if r.chance(1, 2) {
            let b = r.bytes(l);
            v.extend(b);
        }
    }
    if r.chance(1, 8) {
        v.truncate(n);
    }
    v.truncate(65535);
    let l = if r.chance(7, 8) { v.len() } else { r.below(65536) };
    if v.len() >= 2 {
        v[0] = l as u8;
        v[1] = (l >> 8) as u8;
    }
    v
}

/// Anything a peer could answer in this phase.
pub fn rsp_any(r: &mut Rng, ph: Rp, peer: &Peer, honest: &[u8]) -> Vec<u8> {
    match r.below(12) {
        0..=3 => rsp_wild(r, ph, peer),
        4 | 5 => {
            let mut v = rsp_wild(r, ph, peer);
            mutate(r, &mut v);
            v
        }
        6 | 7 => {
            let mut v = honest.to_vec();
            mutate(r, &mut v);
            v
        }
        8 => {
            let other = *r.pick(&Rp::all());
            rsp_wild(r, other, peer)
        }
        9 => {
            let n = r.len_near(&[0, 1, 2, 3, 4], 2 * LIM.chain.min(8192));
            let mut v = r.bytes(n);
            if v.len() > 1 && r.chance(3, 4) {
                v[1] = ph.expects();
                v[0] = ver_of(v[1]);
            }
            v
        }
        10 => {
            let code = *r.pick(&[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x41, 0x42, 0x42, 0x43, 0xFF, 0, 2]);
            let data = if r.chance(1, 2) { 0 } else { *r.clone().pick(&[ph.expects(), ph.expects() | 0x80, r.byte()]) };
            let mut v = error(code, data, &[]);
            let x = if r.chance(1, 2) { error_ext(code).flatten().unwrap_or(4) } else { r.below(6) };
            v.extend(if r.chance(1, 2) { vec![0; x] } else { r.bytes(x) });
            v[0] = *r.pick(&[0x12, 0x12, 0x11, 0x10]);
            v
        }
        _ => {
            let mut v = honest.to_vec();
            let n = r.below(6);
            v.truncate(n);
            v
        }
    }
}
