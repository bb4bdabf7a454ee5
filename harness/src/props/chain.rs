//! The certificate chain structure on its own.

use crate::ctx::{hex, Ctx};
use crate::der;
use crate::gen;
use crate::refcodec as rc;
use crate::rng::{hash_bytes, mix, Rng};
use crate::util::*;
use spdm::msgs::common::DigestSize;
use spdm::msgs::encoding::Writer;
use spdm::msgs::CertificateChain;
use std::convert::TryFrom;

// the chain is what CERTIFICATE carries: reading it is decoding, writing it is encoding
const T: &[&str] = &["C21", "C15"];
const W: &[&str] = &["C21", "C14"];

fn dlen(r: &mut Rng) -> usize {
    let v: Vec<usize> = [32, 48, 64].into_iter().filter(|d| *d <= LIM.digest).collect();
    if r.chance(1, 10) {
        r.below(LIM.digest + 1)
    } else {
        *r.pick(&v)
    }
}

/// What the library reads must be what the independent parser reads.
fn parse(cx: &mut Ctx, b: &[u8], dl: usize) -> Option<bool> {
    let ds = DigestSize::try_from(dl).ok()?;
    let want = rc::parse_chain(b, dl, &LIM);
    cx.ev(format!("chain of {} bytes, digest size {dl}", b.len()), b);
    let got = cx.armed("CertificateChain::parse", || CertificateChain::parse(b, ds))?;
    let ok = got.is_ok();
    if !cx.check(T, ok == want.is_ok(), || {
        format!("CertificateChain::parse {} a chain that is {}", if ok { "accepted" } else { "refused" }, if want.is_ok() { "well-formed" } else { "malformed" })
    }) {
        return None;
    }
    if let (Ok(c), Ok((root, certs))) = (&got, &want) {
        cx.check(T, c.root_hash == &root[..], || format!("root hash {}, the input has {}", hex(c.root_hash), hex(root)));
        cx.check(T, c.leaf_cert == &certs[certs.len() - 1][..], || "the leaf is not the last certificate".into());
        let inter = cx.lib("intermediate_certs", || c.intermediate_certs().iter().map(|x| x.to_vec()).collect::<Vec<_>>())?;
        cx.check(T, inter[..] == certs[..certs.len() - 1], || {
            format!("{} intermediates, the input has {} before its last certificate", inter.len(), certs.len() - 1)
        });
        let mut out = vec![0u8; b.len()];
        let n = cx.armed("CertificateChain::write", || {
            let mut w = Writer::new(&mut out);
            c.write(&mut w)
        })?;
        cx.check(&["C21", "C14", "C15"], n == Ok(b.len()) && out == b, || format!("serializing the parsed chain again gave {n:?}, {}", hex(&out)));
        cx.count(&format!("chain.parsed.{}", certs.len() - 1));
    } else {
        cx.count("chain.refused");
    }
    cx.distinct(mix(hash_bytes(b) ^ dl as u64));
    Some(ok)
}

pub fn any(cx: &mut Ctx, r: &mut Rng) {
    let dl = dlen(r);
    match r.below(5) {
        0 => {
            // nearly a chain
            let n = r.below(1600);
            let b = gen::der_soup(r, dl, n);
            parse(cx, &b, dl);
        }
        1 => {
            // a chain damaged in one or a few places
            let mut b = good(r, dl, LIM.depth + 2).2;
            gen::mutate(r, &mut b);
            if r.chance(2, 3) && b.len() >= 2 && b.len() < 65536 {
                let l = b.len();
                b[0] = l as u8;
                b[1] = (l >> 8) as u8;
            }
            parse(cx, &b, dl);
        }
        2 => {
            // a header edited where the lengths are
            let (_, certs, mut b) = good(r, dl, LIM.depth);
            let k = r.below(certs.len());
            let at = 4 + dl + certs[..k].iter().map(|c| c.len()).sum::<usize>();
            let i = at + r.below(4.min(b.len() - at));
            b[i] = match r.below(4) {
                0 => b[i].wrapping_add(1),
                1 => b[i].wrapping_sub(1),
                2 => *r.pick(&[0x80, 0x81, 0x82, 0x83, 0x7F, 0, 0xFF, 0x30, 0x31]),
                _ => r.byte(),
            };
            parse(cx, &b, dl);
        }
        3 => {
            // parsed with another digest size
            let b = good(r, dl, LIM.depth).2;
            let d2 = dlen(r);
            parse(cx, &b, d2);
        }
        _ => {
            let (_, certs, b) = good(r, dl, LIM.depth + 2);
            if parse(cx, &b, dl) == Some(true) {
                cx.count(if certs.len() == LIM.depth + 1 { "chain.deepest" } else { "chain.good" });
            }
        }
    }
}

/// (root hash, certificates, serialized) of up to `depth` intermediates.
fn good(r: &mut Rng, dl: usize, depth: usize) -> (Vec<u8>, Vec<Vec<u8>>, Vec<u8>) {
    let root = r.bytes(dl);
    let n = if r.chance(1, 2) { depth } else { r.below(depth + 1) };
    let mut certs = vec![];
    let mut total = 4 + dl;
    for _ in 0..=n {
        let l = r.len_near(&[0, 1, 127, 128, 255, 256, 257], 600);
        let l = if r.chance(1, 60) { r.range(2000, 60000) } else { l };
        let b = r.bytes(l);
        let c = der::tlv(0x30, &b);
        if total + c.len() > 65535 {
            break;
        }
        total += c.len();
        certs.push(c);
    }
    if certs.is_empty() {
        certs.push(der::tlv(0x30, &[]));
    }
    let b = rc::chain(&root, &certs);
    (root, certs, b)
}

/// Chains put together with the library's own constructors.
pub fn built(cx: &mut Ctx, r: &mut Rng) {
    let dl = dlen(r);
    let root = r.bytes(dl);
    let n = r.below(LIM.depth + 3);
    let exact = r.chance(1, 12);
    let mut certs: Vec<Vec<u8>> = vec![];
    for _ in 0..=n {
        let l = r.len_near(&[0, 127, 128, 255, 256], 600);
        let b = r.bytes(l);
        certs.push(der::tlv(0x30, &b));
    }
    if exact {
        // a total around the largest possible length
        let keep = n.min(LIM.depth);
        certs.truncate(keep + 1);
        let rest: usize = 4 + dl + certs[..keep].iter().map(|c| c.len()).sum::<usize>();
        let l = (65535 - rest - 4 + r.below(5)).saturating_sub(2);
        certs[keep] = vec![r.byte(); l + 4];
        let c = &mut certs[keep];
        c[..4].copy_from_slice(&[0x30, 0x82, (l >> 8) as u8, l as u8]);
    }
    let n = certs.len() - 1;
    let mut c = match cx.armed("CertificateChain::new", || CertificateChain::new(&root, &certs[n])) {
        Some(c) => c,
        None => return,
    };
    let mut kept = vec![];
    for (i, x) in certs[..n].iter().enumerate() {
        let ok = match cx.armed("append_intermediate_cert", || c.append_intermediate_cert(x).is_ok()) {
            Some(v) => v,
            None => return,
        };
        let want = i < LIM.depth;
        if !cx.check(W, ok == want, || format!("appending intermediate {} of at most {} returned ok: {ok}", i + 1, LIM.depth)) {
            return;
        }
        if want {
            kept.push(x.clone());
        } else {
            cx.count("chain.too_deep");
        }
    }
    let inter = match cx.lib("intermediate_certs", || c.intermediate_certs().iter().map(|x| x.to_vec()).collect::<Vec<_>>()) {
        Some(v) => v,
        None => return,
    };
    cx.check(W, inter == kept, || format!("{} intermediates are held, {} were accepted", inter.len(), kept.len()));
    kept.push(certs[n].clone());
    let total = 4 + dl + kept.iter().map(|c| c.len()).sum::<usize>();
    let size = match r.below(3) {
        0 => total,
        1 => r.len_near(&[total], total + 50),
        _ => total + 50,
    };
    let fill = r.byte();
    let mut out = vec![fill; size];
    let got = cx.armed("CertificateChain::write", || {
        let mut w = Writer::new(&mut out);
        c.write(&mut w)
    });
    let got = match got {
        Some(g) => g,
        None => return,
    };
    cx.ev(format!("built chain of {total} bytes into {size} -> {got:?}"), &[]);
    cx.distinct(mix(total as u64) ^ n as u64);
    if total > 65535 {
        cx.count("chain.too_long");
        cx.check(W, got.is_err(), || format!("a chain of {total} bytes was written"));
        return;
    }
    if size < total {
        cx.count("chain.small_buffer");
        cx.check(W, got.is_err(), || format!("a chain of {total} bytes was written to {size}"));
        return;
    }
    let want = rc::chain(&root, &kept);
    if !cx.check(W, got == Ok(total) && out[..total] == want[..] && out[total..].iter().all(|b| *b == fill), || {
        format!("writing a chain of {total} bytes returned {got:?} and {}", hex(&out))
    }) {
        return;
    }
    cx.count(if total > 65000 { "chain.built_longest" } else { "chain.built" });
    let ds = match DigestSize::try_from(dl) {
        Ok(d) => d,
        Err(_) => return,
    };
    let back = cx.armed("CertificateChain::parse", || CertificateChain::parse(&out[..total], ds).map(|p| p == c));
    if let Some(b) = back {
        cx.check(&["C21","C14","C15"], b == Ok(true), || format!("the written chain parses back as {b:?}"));
        // the same with any one byte of the content changed is another chain
        let k = 4 + r.below(total - 4);
        let mut o2 = out[..total].to_vec();
        o2[k] ^= 1 << r.below(8);
        let eq = cx.armed("CertificateChain::parse", || CertificateChain::parse(&o2, ds).map_or(false, |p| p == c));
        cx.check(W, eq != Some(true), || format!("a chain that differs at byte {k} compares equal"));
    }
}
