//! The cryptographic provider: digests, signature encoding, signature and chain verification.

use crate::certs::{self, pool, Verdict};
use crate::ctx::{hex, Ctx};
use crate::der;
use crate::gen;
use crate::rng::{hash_bytes, mix, Rng};
use crate::sha2;
use crate::util::*;
use spdm::config::MAX_SIGNATURE_SIZE;
use spdm::crypto::digest::Digests;
use spdm::crypto::pki::{bin_to_der, max_encoded_size, EndEntityCert};
use spdm::crypto::ring::signing::new_signer;
use spdm::crypto::{new_end_entity_cert, ProvidedDigests, Signer};
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use std::convert::TryFrom;

const D: &[&str] = &["C23"];
const V: &[&str] = &["C22"];
const P256: BaseAsymAlgo = BaseAsymAlgo::ECDSA_ECC_NIST_P256;
const P384: BaseAsymAlgo = BaseAsymAlgo::ECDSA_ECC_NIST_P384;

fn size_of(bit: u32) -> usize {
    match bit {
        1 => 32,
        2 => 48,
        _ => 64,
    }
}

pub fn digests(cx: &mut Ctx, r: &mut Rng) {
    let n = cx.case as usize;
    if n % 16 == 15 {
        // algorithm values
        for _ in 0..60 {
            let v = match r.below(4) {
                0 => 1u32 << r.below(32),
                1 => r.next() as u32,
                2 => (r.next() as u32) & 0x3F,
                _ => (1 << r.below(6)) | (1 << r.below(6)),
            };
            let a = BaseHashAlgo::from_bits_truncate(v);
            let v = a.bits();
            let want = v.count_ones() == 1 && cfg().hashes & v != 0;
            let got = cx.armed("ProvidedDigests::try_from", || ProvidedDigests::try_from(a).ok());
            let got = match got {
                Some(g) => g,
                None => return,
            };
            cx.check(D, got.is_some() == want, || format!("ProvidedDigests::try_from({v:#x}) returned ok: {}", got.is_some()));
            cx.count(if want { "digest.supported" } else { "digest.unsupported" });
            if let (Some(p), true) = (got, want) {
                // whatever is reported as supported computes that very algorithm
                if let Some(d) = cx.armed("finalize", || p.finalize()) {
                    cx.check(D, d.as_ref() == &sha2::hash(v, &[])[..], || format!("{v:#x} of nothing gave {}", hex(d.as_ref())));
                }
            }
        }
        let s = cx.armed("supported_algorithms", || ProvidedDigests::supported_algorithms().bits());
        cx.check(D, s == Some(cfg().hashes), || format!("supported_algorithms {s:x?}, expected {:#x}", cfg().hashes));
        return;
    }
    let bits: Vec<u32> = [1, 2, 4].into_iter().filter(|b| cfg().hashes & b != 0).collect();
    let bit = bits[n % bits.len()];
    let a = BaseHashAlgo::from_bits_truncate(bit);
    let len = match r.below(40) {
        0 => r.range(1 << 16, 1 << 18),
        1 if r.chance(1, 8) => 1 << 20,
        // around powers of two and their multiples
        1 => ((1usize << r.range(9, 17)) * r.range(1, 3) + r.below(5)).saturating_sub(2),
        2..=20 => r.len_near(&[0, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 191, 192, 255, 256], 300),
        _ => n / 16 % 600,
    };
    // many small pieces
    let crumbs = r.chance(1, 12);
    let len = match crumbs {
        true if r.chance(1, 400) => r.range(65536, 70000),
        true => r.range(250, 1100),
        false => len,
    };
    let data = r.bytes(len);
    let want = sha2::hash(bit, &data);
    let once = match cx.armed("Digests::digest", || ProvidedDigests::digest(a, &data[..])) {
        Some(d) => d,
        None => return,
    };
    cx.ev(format!("algorithm {bit:#x}, {len} bytes"), once.as_ref());
    cx.check(D, once.as_ref() == &want[..], || format!("digest {bit:#x} of {len} bytes is {}, SHA-2 gives {}", hex(once.as_ref()), hex(&want)));
    cx.check(D, once.as_ref().len() == size_of(bit) && usize::from(a.get_digest_size()) == size_of(bit), || {
        format!("digest {bit:#x} has {} bytes, advertised {}", once.as_ref().len(), usize::from(a.get_digest_size()))
    });
    let mut p = match cx.armed("ProvidedDigests::try_from", || ProvidedDigests::try_from(a).ok()) {
        Some(Some(p)) => p,
        Some(None) => return cx.fail(D, format!("algorithm {bit:#x} is refused")),
        None => return,
    };
    let mut at = 0;
    let mut parts = 0;
    while at < len || r.chance(1, 4) {
        let k = match if crumbs { 1 } else { r.below(6) } {
            0 => 0,
            1 => 1,
            2 => r.below(len - at + 1),
            3 => len - at,
            _ => r.len_near(&[63, 64, 65, 127, 128, 129], 200),
        }
        .min(len - at);
        if cx.armed("update", || p.update(&data[at..at + k])).is_none() {
            return;
        }
        at += k;
        parts += 1;
    }
    if let Some(d) = cx.armed("finalize", || p.finalize()) {
        cx.check(D, d.as_ref() == &want[..], || {
            format!("digest {bit:#x} of {len} bytes in {parts} parts is {}, SHA-2 gives {}", hex(d.as_ref()), hex(&want))
        });
        cx.check(D, d.as_ref().len() == want.len(), || "size".into());
    }
    cx.count(&format!("digest.{bit}.{}", if parts > 1 { "split" } else { "whole" }));
    if parts > 65536 {
        cx.count("digest.beyond_65536_parts");
    } else if parts > 256 {
        cx.count("digest.beyond_256_parts");
    }
    cx.distinct(mix((len as u64) << 8 ^ u64::from(bit)) ^ parts);
}

fn ref_der(sig: &[u8]) -> Vec<u8> {
    let h = sig.len() / 2;
    der::seq(&[der::int(&sig[..h]), der::int(&sig[h..])])
}

/// A half of a signature: values where encodings change shape.
fn half(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = r.bytes(n);
    match r.below(8) {
        0 => v = vec![0; n],
        1 => v = vec![0xFF; n],
        2 | 3 => {
            // leading zeros, then a byte on either side of the sign bit
            let z = r.below(n + 1);
            for b in v.iter_mut().take(z) {
                *b = 0;
            }
            if z < n {
                v[z] = *r.pick(&[0x01, 0x7F, 0x80, 0xFF]);
            }
        }
        4 => {
            v = vec![0; n];
            v[n - 1] = r.byte();
        }
        5 => v[0] |= 0x80,
        6 => v[0] &= 0x7F,
        _ => (),
    }
    v
}

pub fn encode(cx: &mut Ctx, r: &mut Rng) {
    let n = match r.below(4) {
        0 => 32,
        1 => r.range(1, MAX_SIGNATURE_SIZE / 2),
        2 => *r.pick(&[48, 66, 126, 127, 128, 129, 255, 256, 257]),
        _ => r.range(1, 300),
    };
    let mut sig = half(r, n);
    sig.extend(half(r, n));
    let want = ref_der(&sig);
    let room = if sig.len() <= MAX_SIGNATURE_SIZE { max_encoded_size() } else { want.len() + 16 };
    let fill = r.byte();
    let mut out = vec![fill; room];
    cx.ev(format!("raw signature of {} bytes", sig.len()), &sig);
    let got = match cx.armed("bin_to_der", || bin_to_der(&sig, &mut out)) {
        Some(g) => g,
        None => return,
    };
    cx.check(V, want.len() <= room, || format!("the encoding has {} bytes, max_encoded_size says {room}", want.len()));
    cx.check(V, got == want.len() && out[..got.min(room)] == want[..], || {
        format!("bin_to_der returned {got}: {}; the canonical encoding is {}", hex(&out[..got.min(room)]), hex(&want))
    });
    cx.check(V, out[got.min(room)..].iter().all(|b| *b == fill), || "bytes after the encoding were written".into());
    cx.count(if sig.len() <= MAX_SIGNATURE_SIZE { "der.within" } else { "der.beyond" });
    if want.len() == room {
        cx.count("der.fills_advertised_maximum");
    }
    let shape = |h: &[u8]| {
        let z = h.iter().take_while(|b| **b == 0).count();
        (z.min(n) as u64) << 1 | u64::from(z < n && h[z] >= 0x80)
    };
    cx.distinct(mix((n as u64) << 32 ^ shape(&sig[..n]) << 16 ^ shape(&sig[n..])));
}

/// Order of P-256.
const N256: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17,
    0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];

pub fn verify(cx: &mut Ctx, r: &mut Rng) {
    let hs: Vec<_> = pool().hiers.iter().collect();
    let h = *r.pick(&hs);
    let leaf = h.certs.last().unwrap();
    let mut key = certs::lookup(leaf).unwrap().key;
    let alien = key == certs::NO_KEY;
    if alien {
        key = r.range(1, 240) as u8;
    }
    let cert = match cx.armed("new_end_entity_cert", || new_end_entity_cert(leaf).ok()) {
        Some(Some(c)) => c,
        Some(None) if alien => return cx.count("verify.alien_refused"),
        Some(None) => return cx.fail(V, format!("the leaf of {} is refused", h.name)),
        None => return,
    };
    let len = r.len_near(&[0, 1, 64, 1024], 3000);
    let mut msg = r.bytes(len);
    let mut sig = certs::sign_raw(key, &msg);
    let kind = r.below(12);
    let what = match kind {
        0 | 1 => "genuine",
        2 => {
            // search for a signature with an unusual shape
            let want = r.below(4);
            for _ in 0..700 {
                let ok = match want {
                    0 => sig[0] == 0,
                    1 => sig[32] == 0,
                    2 => sig[0] >= 0x80 && sig[32] >= 0x80,
                    _ => sig[0] == 0 && sig[1] >= 0x80 || sig[32] == 0 && sig[33] >= 0x80,
                };
                if ok {
                    cx.count(&format!("verify.shape{want}"));
                    break;
                }
                msg = r.bytes(20);
                sig = certs::sign_raw(key, &msg);
            }
            "genuine"
        }
        3 => {
            let k = r.below(64);
            sig[k] ^= 1 << r.below(8);
            "flipped"
        }
        4 => {
            if msg.is_empty() {
                msg.push(0);
            } else {
                match r.below(3) {
                    0 => msg.push(r.byte()),
                    1 => {
                        msg.pop();
                    }
                    _ => {
                        let k = r.below(msg.len());
                        msg[k] ^= 1 << r.below(8);
                    }
                }
            }
            "message"
        }
        5 => {
            sig = certs::sign_raw(key.wrapping_add(1).max(1), &msg);
            "key"
        }
        6 => {
            let n = r.len_near(&[0, 63, 64, 65, 96, 128], 300);
            sig.resize(n, r.byte());
            if n == 64 {
                "genuine"
            } else {
                "size"
            }
        }
        7 => {
            sig = half(r, 32);
            sig.extend(half(r, 32));
            "noise"
        }
        8 => {
            // zero or out of range values
            let z: Vec<u8> = if r.chance(1, 2) { vec![0; 32] } else { N256.to_vec() };
            match r.below(3) {
                0 => sig[..32].copy_from_slice(&z),
                1 => sig[32..].copy_from_slice(&z),
                _ => {
                    sig[..32].copy_from_slice(&z);
                    sig[32..].copy_from_slice(&z);
                }
            }
            "range"
        }
        9 => {
            sig = certs::sign_der(key, &msg);
            "der"
        }
        10 => {
            let (a, b) = sig.split_at(32);
            sig = [b, a].concat();
            "swapped"
        }
        _ => {
            // as long as a P-384 signature, under that algorithm
            let n = *r.pick(&[0, 64, 96, 97]);
            sig.resize(n, r.byte());
            let got = cx.armed("verify_signature", || cert.verify_signature(P384, &msg, &sig));
            cx.check(V, got == Some(false), || "a P-384 signature was accepted for a P-256 key".into());
            cx.count("verify.p384");
            return;
        }
    };
    if alien {
        // no signature is valid for a key of another kind
        cx.ev(format!("verify {what} under {}", h.name), &sig);
        for algo in [P256, P384] {
            if sig.len() > 65535 {
                continue;
            }
            if let Some(got) = cx.armed("verify_signature", || cert.verify_signature(algo, &msg, &sig)) {
                cx.check(V, !got, || format!("a signature ({what}) was accepted under the key of {}", h.name));
            }
        }
        return cx.count("verify.alien");
    }
    let want = sig.len() == 64 && certs::verify_raw(key, &msg, &sig);
    cx.ev(format!("verify {what}: {len} byte message, {} byte signature", sig.len()), &sig);
    let got = match cx.armed("verify_signature", || cert.verify_signature(P256, &msg, &sig)) {
        Some(g) => g,
        None => return,
    };
    cx.check(V, got == want, || format!("verify_signature returned {got} for a signature ({what}) that is {}", if want { "valid" } else { "not valid" }));
    if what == "genuine" && !want {
        panic!("oracle refuses a genuine signature");
    }
    cx.count(&format!("verify.{what}.{got}"));
    cx.distinct(mix(hash_bytes(&sig)));
}

pub fn trust(cx: &mut Ctx, r: &mut Rng) {
    let n = cx.case as usize;
    let hs = &pool().hiers;
    let h = &hs[n % hs.len()];
    let mut list = h.certs.clone();
    let mut root = 0;
    let mut at = certs::T;
    let mut root_der: Option<Vec<u8>> = None;
    let mut no_root = false;
    match n / hs.len() % 8 {
        0 => (),
        1 | 2 => {
            // a time at the edge of some certificate's validity
            let m = certs::lookup(r.pick(&list)).unwrap();
            let b = *r.pick(&[m.nb, m.na]);
            at = b.wrapping_add_signed(r.below(3) as i64 - 1);
        }
        3 => root = 1 + r.below(2),
        4 | 5 => {
            let i = r.below(list.len());
            let k = r.below(list[i].len());
            list[i][k] ^= 1 << r.below(8);
        }
        6 => {
            match r.below(4) {
                0 => {
                    let o = r.pick(hs);
                    list.insert(r.below(list.len()), r.pick(&o.certs).clone());
                }
                1 => {
                    let (i, j) = (r.below(list.len()), r.below(list.len()));
                    list.swap(i, j);
                }
                2 => {
                    if list.len() > 1 {
                        list.remove(r.below(list.len() - 1));
                    }
                }
                _ => {
                    let o = r.pick(hs);
                    let k = list.len() - 1;
                    list[k] = o.certs.last().unwrap().clone();
                }
            };
        }
        _ => {
            // not certificates at all
            let k = r.below(4);
            if k == 3 {
                // an anchor that is not a certificate
                let d = &pool().roots[0].der;
                root_der = Some(match r.below(4) {
                    0 => vec![],
                    1 => d[..r.below(d.len())].to_vec(),
                    2 => d[r.range(1, d.len() - 1)..].to_vec(),
                    _ => {
                        let l = r.below(80);
                        der::tlv(0x30, &r.bytes(l))
                    }
                });
                no_root = true;
            } else if k == 0 {
                let mut d = pool().roots[0].der.clone();
                gen::mutate(r, &mut d);
                root_der = Some(d);
            } else {
                let i = r.below(list.len());
                if r.chance(1, 2) {
                    gen::mutate(r, &mut list[i]);
                } else {
                    let l = r.below(80);
                    let b = r.bytes(l);
                    list[i] = if r.chance(1, 2) { der::tlv(0x30, &b) } else { b };
                }
            }
        }
    }
    let k = list.len() - 1;
    let metas: Vec<_> = list.iter().map(|c| certs::lookup(c)).collect();
    let rt = &pool().roots[root];
    let mut want = certs::path_verdict(&metas, rt.subject, rt.key, at);
    let anchor = root_der.clone().unwrap_or_else(|| rt.der.clone());
    if let Some(d) = &root_der {
        want = if *d == rt.der {
            want
        } else if no_root {
            Verdict::Invalid
        } else {
            Verdict::Unclear
        };
    }
    cx.ev(format!("trust {} root {root} at {at}", h.name), &list[k]);
    let inter: Vec<&[u8]> = list[..k].iter().map(|c| &c[..]).collect();
    let cert = match cx.armed("new_end_entity_cert", || new_end_entity_cert(&list[k]).ok()) {
        Some(c) => c,
        None => return,
    };
    let got = match cert {
        None => {
            cx.count("trust.unparsable");
            cx.check(V, metas[k].as_ref().map_or(true, |m| m.key == certs::NO_KEY), || format!("the leaf of {} is refused", h.name));
            false
        }
        Some(c) => match cx.armed("verify_chain_of_trust", || c.verify_chain_of_trust(P256, &inter, &anchor, at).is_ok()) {
            Some(v) => v,
            None => return,
        },
    };
    match want {
        Verdict::Valid => {
            cx.check(V, got, || format!("{} under root {root} at {at} is valid and was refused", h.name));
        }
        Verdict::Invalid => {
            cx.check(V, !got, || format!("{} under root {root} at {at} is not valid and was accepted", h.name));
        }
        Verdict::Unclear => (),
    }
    cx.count(&format!("trust.{want:?}.{got}").to_lowercase());
    cx.distinct(mix(hash_bytes(&list.concat()) ^ at ^ (root as u64) << 60));
}

pub fn signer(cx: &mut Ctx, r: &mut Rng) {
    let id = 1 + r.below(60) as u8;
    let mut p8 = certs::pkcs8(id).to_vec();
    let good = r.chance(1, 3);
    if !good {
        if r.chance(3, 4) {
            let k = r.below(p8.len());
            p8[k] ^= 1 << r.below(8);
        } else {
            let n = r.below(200);
            p8 = r.bytes(n);
        }
    }
    cx.ev(format!("new_signer, key {id}, intact {good}"), &p8);
    let algo = if r.chance(1, 8) { P384 } else { P256 };
    let s = match cx.lib("new_signer", || new_signer(algo, &p8).ok()) {
        Some(s) => s,
        None => return,
    };
    if good || s.is_none() {
        cx.check(V, s.is_some() == (good && algo == P256), || format!("new_signer returned ok: {} for an intact key: {good}", s.is_some()));
    }
    cx.count(if s.is_some() { "signer.made" } else { "signer.refused" });
    if let (Some(s), true) = (s, good) {
        let n = r.below(500);
        let m = r.bytes(n);
        if let Some(g) = cx.lib("Signer::sign", || s.sign(&m).ok().map(|x| x.as_ref().to_vec())) {
            let ok = g.as_ref().map_or(false, |x| x.len() == 64 && certs::verify_raw(id, &m, x));
            cx.check(V, ok, || format!("the signature {:?} does not verify", g.map(|x| hex(&x))));
            cx.distinct(mix(hash_bytes(&m)));
        }
    }
}
